#!/usr/bin/env python3
"""properties.jsonl, MANIFEST.json and DESIGN.md from tools/meta.py and tools/design_*.md"""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, H)
import meta
V = os.path.dirname(H)
na = dict(meta.NA)
with open(V + '/properties.jsonl', 'w') as f:
    for p in meta.PROPS:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'], quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=dict(files=p['files'], mechanism=[dict(name=a, where=b) for a, b in p['mech']]))) + '\n')
checks = []
for p in meta.PROPS:
    if p['id'] in na:
        continue
    checks.append(dict(property=p['id'], quick_cmd='python3-vt check.py %s --tier quick' % p['id'], thorough_cmd='python3-vt check.py %s --tier thorough' % p['id'],
                       technique='contract-based deductive verification of the real C code (verification conditions from clang\'s AST, discharged by z3), failed obligations replayed on the compiled code',
                       level='proof', level_note=(p['note'] + ' ' if p['note'] else '') + 'Trusted: clang AST, the VC generator in vc/, the libc contracts in vc/libc.py, z3. Loop invariants are inferred and then checked as obligations. The bounded concrete runs only add failing inputs and are not counted as proof.'))
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3" && clang --version && gcc --version', checks=checks,
               not_applicable=[dict(property=a, reason=b) for a, b in meta.NA],
               notes='No hooks: the checks read /repo sources directly. Known findings and repaired defects: known-findings.jsonl.'), open(V + '/MANIFEST.json', 'w'), indent=1)
with open(V + '/DESIGN.md', 'w') as f:
    f.write(open(H + '/design_head.md').read())
    for p in meta.PROPS:
        f.write('\n### %s %s\n\n%s\n' % (p['id'], p['title'], p['design']))
        if p['id'] not in na and p['note']:
            f.write('\n%s\n' % p['note'])
    f.write('\n' + open(H + '/design_tail.md').read())
