"""Ghost JSON automaton: every append to the output buffer steps it, so 'one complete JSON value was written' is a postcondition.

state = (stack string, mode); stack of '[' / '{'; mode: 'V' value expected, 'v' value or ']' (just after '['), 'k' key or '}',
'K' key expected (after ','), ':' colon expected, ',' value finished (',' or closer), 'D' top value finished."""


class Bad(Exception):
    pass


def value(st):
    stack, mode = st
    if mode not in 'Vv':
        raise Bad('a value where %r is expected' % mode)
    return (stack, ',' if stack else 'D')


def string(st):
    stack, mode = st
    if mode in 'kK':
        return (stack, ':')
    return value(st)


def lex(st, bs):
    """feed literal bytes; strings must be complete inside one literal"""
    i = 0
    while i < len(bs):
        c = chr(bs[i])
        stack, mode = st
        if c in ' \t\r\n':
            i += 1
            continue
        if c == '"':
            j = i + 1
            while j < len(bs) and bs[j] != 34:
                if bs[j] < 32:
                    raise Bad('control character in a string literal')
                j += 2 if bs[j] == 92 else 1
            if j >= len(bs):
                raise Bad('string literal split over appends')
            st = string(st)
            i = j + 1
            continue
        if c in '-0123456789' or c in 'tfn':
            j = i
            while j < len(bs) and chr(bs[j]) in '+-.eE0123456789truefalsn':
                j += 1
            import json
            json.loads(bs[i:j])
            st = value(st)
            i = j
            continue
        if c in '[{':
            if mode not in 'Vv':
                raise Bad('%s where %r is expected' % (c, mode))
            st = (stack + c, 'v' if c == '[' else 'k')
        elif c == ']':
            if not stack or stack[-1] != '[' or mode not in 'v,':
                raise Bad('unexpected ]')
            st = (stack[:-1], ',' if stack[:-1] else 'D')
        elif c == '}':
            if not stack or stack[-1] != '{' or mode not in 'k,':
                raise Bad('unexpected }')
            st = (stack[:-1], ',' if stack[:-1] else 'D')
        elif c == ',':
            if not stack or mode != ',':
                raise Bad('unexpected ,')
            st = (stack, 'V' if stack[-1] == '[' else 'K')
        elif c == ':':
            if mode != ':':
                raise Bad('unexpected :')
            st = (stack, 'V')
        else:
            raise Bad('unexpected %r' % c)
        i += 1
    return st
