#!/usr/bin/env python3-vt
"""Decide one property: prove every contract on /repo's current source, run the bounded concrete side, write evidence."""
import sys, os, time, json, random, shutil, tempfile, traceback, importlib, multiprocessing as mp, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.execv(sys.executable, [sys.executable] + sys.argv)
sys.setrecursionlimit(100000)


def run_task(mod, i, tier, verbose, q):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from vc import frontend, engine, mem
    M = importlib.import_module('specs.' + mod)
    t = M.R.tasks[i]
    t0 = time.time()
    res = dict(fn=t.fn, file=t.file, status='error', detail='', failures=[], obligations=0, discharged=0)
    e = None
    try:
        tu = frontend.load(t.file)
        e = engine.Engine(tu, verbose=verbose)
        e.crosscheck = tier == 'thorough'
        e.deadline = t0 + t.budget * (3 if tier == 'thorough' else 1)
        t.run(e)
        if e.vacuous:
            res['status'] = 'error'
            res['detail'] = 'vacuous: ' + '; '.join(e.vacuous)
        elif not e.obs or not e.covered:
            res['status'] = 'error'
            res['detail'] = 'no obligations or nothing covered'
        else:
            res['status'] = 'failed' if e.failures else 'proved'
    except mem.Unsupported as x:
        res['status'] = 'unsupported'
        res['detail'] = str(x)
        if verbose:
            traceback.print_exc()
    except frontend.Missing as x:
        res['status'] = 'absent'
        res['detail'] = str(x)
    except frontend.FrontEndError as x:
        res['status'] = 'missing'
        res['detail'] = str(x)
    except MemoryError:
        res['status'] = 'unsupported'
        res['detail'] = 'out of memory'
    except Exception as x:
        res['status'] = 'internal'
        res['detail'] = traceback.format_exc()[-1500:]
        if verbose:
            traceback.print_exc()
    if e is not None:
        res['failures'] = [(a, b, c) for a, b, c in e.failures]
        res['obligations'] = sum(o.n for o in e.obs.values())
        res['discharged'] = sum(o.n for o in e.obs.values() if o.status == 'ok')
        res['names'] = len(e.obs)
        res['queries'] = e.nq
        res['solver_s'] = round(e.tq, 2)
        res['inlined'] = sorted(e.inlined - {t.fn})
        res['contracts_used'] = sorted(getattr(e, 'used_contracts', ()))
        res['assumed'] = sorted(e.assumed)
        res['loops'] = len(e.loops)
        res['invariants'] = {'%s:%s' % k: v for k, v in e.loops.items()} if tier == 'thorough' else {}
        res['cross'] = e.cross
        res['bytes'] = sorted(e.hintbytes)
        res['consts'] = sorted(e.tu_consts(t.fn))
    res['wall'] = round(time.time() - t0, 2)
    try:
        q.put(json.loads(json.dumps(res, default=str)))
    except Exception as x:
        q.put(dict(fn=t.fn, file=t.file, status='internal', detail=str(x), failures=[], obligations=0, discharged=0))


def run_tasks(mod, M, tier, verbose, only):
    ctx = mp.get_context('fork')
    todo = [i for i, t in enumerate(M.R.tasks) if not only or t.fn in only or str(i) in only]
    running, results = {}, {}
    W = min(8, os.cpu_count() or 4)
    end = time.time() + (640 if tier == 'quick' else 1e9)      # a quick run answers within 900 s whatever the source has become
    while todo or running:
        if time.time() > end:
            for i, (p, q, t0) in running.items():
                p.kill()
            for i in list(running) + todo:
                t = M.R.tasks[i]
                results[i] = dict(fn=t.fn, file=t.file, status='unsupported', detail='time budget exhausted', failures=[], obligations=0, discharged=0)
            break
        while todo and len(running) < W:
            i = todo.pop(0)
            q = ctx.Queue()
            p = ctx.Process(target=run_task, args=(mod, i, tier, verbose, q))
            p.start()
            running[i] = (p, q, time.time())
        for i, (p, q, t0) in list(running.items()):
            t = M.R.tasks[i]
            got = None
            try:
                got = q.get(timeout=0.05)
            except Exception:
                pass
            if got is not None:
                results[i] = got
                p.join(5)
                if p.is_alive():
                    p.kill()
                del running[i]
            elif not p.is_alive():
                try:
                    results[i] = q.get(timeout=1)
                except Exception:
                    results[i] = dict(fn=t.fn, file=t.file, status='unsupported', detail='worker died (rc %s)' % p.exitcode, failures=[], obligations=0, discharged=0)
                del running[i]
            elif time.time() - t0 > t.budget * (3 if tier == 'thorough' else 1) + 60:
                p.kill()
                results[i] = dict(fn=t.fn, file=t.file, status='unsupported', detail='time budget exhausted', failures=[], obligations=0, discharged=0)
                del running[i]
    return [results[i] for i in sorted(results)]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('-v', action='count', default=0)
    ap.add_argument('--only', action='append')
    ap.add_argument('--noconc', action='store_true')
    ap.add_argument('--noproof', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = a.prop
    from vc import harness, frontend
    M = importlib.import_module('specs.' + P)
    scratch = tempfile.mkdtemp(prefix='apexv-%s-' % P)
    rc = 2
    try:
        rc = decide(a, P, M, scratch, seed, t0, harness)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)


def known_findings(P):
    out = []
    p = os.path.join(HERE, 'known-findings.jsonl')
    if os.path.exists(p):
        for ln in open(p):
            ln = ln.strip()
            if ln and not ln.startswith('#'):
                j = json.loads(ln)
                if j.get('property') == P and j.get('status') == 'known':
                    out.append(j)
    return out


def decide(a, P, M, scratch, seed, t0, harness):
    tier = a.tier
    results = [] if a.noproof else run_tasks(P, M, tier, a.v, a.only)
    failed = [r for r in results if r['status'] == 'failed']
    # not decided by proof on this tree: the bounded side still runs; 'missing' means the source itself does not parse
    odd = [r for r in results if r['status'] in ('unsupported', 'absent', 'internal', 'error')]
    broken = [r for r in results if r['status'] == 'missing']
    gone = set(r['fn'] for r in results if r['status'] == 'absent')
    degraded = []
    hb = set()
    consts = set()
    for r in results:
        if r['status'] != 'proved':
            hb |= set(r.get('bytes', ()))
        consts |= set(r.get('consts', ()))
    nconc, mism, samples = 0, [], []
    err = None
    kn = known_findings(P)
    knhit = {}
    if not a.noconc:
        base = {'quick': 25.0, 'thorough': 300.0}[tier]
        if failed:
            base *= 3
        elif odd:
            base *= 2
        tot = sum(c['share'] for c in M.R.conc) or 1
        from concurrent.futures import ThreadPoolExecutor

        def one(ci):
            c = M.R.conc[ci]
            try:
                exe = harness.build(c['driver'], scratch, c['extra'])
            except harness.DriverError as x:
                if broken or a.noproof:
                    raise
                degraded.append('driver %s: %s' % (c['driver'], str(x)[-400:]))
                return 0, [], []
            rng = random.Random('%s/%s/%d' % (P, seed, ci))
            size = {'quick': 1, 'thorough': 12}[tier] * (4 if failed else 1)
            wd = os.path.join(scratch, 'wd%d' % ci)
            os.makedirs(wd, exist_ok=True)
            bad = []
            n = 0
            smp = []

            def gen():
                for x in c['cases'](rng, size, sorted(hb), sorted(consts)):
                    if x[0] in gone:
                        continue
                    if len(smp) < 3 or rng.random() < 0.0005 and len(smp) < 6:
                        smp.append('%s(%s)' % (x[0], ', '.join(repr(y)[:80] for y in x[1])))
                    yield x
            n, bad = harness.run_cases(exe, gen(), c['oracle'], base, env=c['env'], cwd=wd, maxbad=200 if kn else 3)
            return n, bad, smp
        # build all drivers first (serial errors are clearer), then run in parallel
        try:
            with ThreadPoolExecutor(8) as ex:
                for n, bad, smp in ex.map(one, range(len(M.R.conc))):
                    nconc += n
                    mism += bad
                    samples += smp
        except harness.DriverError as x:
            err = str(x)
    new = []
    for m in mism:
        for k in kn:
            f = getattr(M, 'known_match', None)
            if f and f(k, m):
                knhit.setdefault(k['id'], k)
                break
        else:
            new.append(m)
    violations = 0
    rdir = os.path.join(HERE, 'replay')
    os.makedirs(rdir, exist_ok=True)
    lines = []
    if err is None and not any(r['status'] == 'missing' for r in broken):
        if new:
            m = new[0]
            rp = os.path.join(rdir, '%s-input.json' % P)
            json.dump(dict(property=P, function=m.fn, args=[harness.enc(x) for x in m.args], description=m.desc(),
                           failed_obligations=[f for r in failed for f in r['failures']][:20], others=[x.desc() for x in new[1:5]]),
                      open(rp, 'w'), indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s' % (P, rp))
            print('failing input: ' + m.desc())
            violations = len(new)
        elif failed:
            rp = os.path.join(rdir, '%s-obligation.json' % P)
            json.dump(dict(property=P, failed=[dict(function=r['fn'], file=r['file'], failures=r['failures'][:20]) for r in failed],
                           searched_inputs=nconc), open(rp, 'w'), indent=1, default=str)
            for r in failed:
                for f in r['failures'][:5]:
                    print('failed obligation: %s (%s) %s' % (f[0], f[1], json.dumps(f[2])[:600]))
            lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (P, rp))
            violations = len(failed)
    proved = [r for r in results if r['status'] == 'proved']
    for r in results:
        print('%-12s %s (%s): %d/%d obligations, %s queries, %.1fs solver, %.1fs %s' % (
            r['status'], r['fn'], r['file'], r['discharged'], r['obligations'], r.get('queries', 0), r.get('solver_s', 0), r.get('wall', 0), r['detail']))
    trusted = ["clang 18 AST of the real file (dumped on every run, flags -D__NO_CTYPE -D_GNU_SOURCE)", "the VC generator in /verif/vc", "z3 (Python bindings)"]
    asm = sorted(set(x for r in results for x in r.get('assumed', ())))
    ev = dict(property=P, tier=tier, seed=seed, level='proof',
              coverage=dict(
                  obligations=sum(r['obligations'] for r in results), discharged=sum(r['discharged'] for r in results),
                  checker_cmd='python3-vt check.py %s --tier %s' % (P, tier), trusted_base=trusted,
                  functions_under_contract=[dict(function=r['fn'], file=r['file'], status=r['status'] if r['status'] in ('proved', 'failed') else 'bounded only, not proved (%s: %s)' % (r['status'], r['detail'][-300:]),
                                                 obligations=r['obligations'], discharged=r['discharged'], queries=r.get('queries'), solver_s=r.get('solver_s'),
                                                 inlined=r.get('inlined'), callee_contracts=r.get('contracts_used'), loops_with_inferred_invariants=r.get('loops'),
                                                 cvc5_cross_check=r.get('cross'), invariants=r.get('invariants') or None) for r in results],
                  back_end='z3 %s, one QF_UFLIA query per obligation' % z3v(),
                  solver_s=round(sum(r.get('solver_s', 0) for r in results), 1),
                  bounded_inputs_run=nconc, not_run=degraded or None, bounded_samples=samples[:8], bound=[c['bound'] for c in M.R.conc]),
              assumptions=asm + getattr(M, 'ASSUME', []) + ['C locale; input strings shorter than 2^30 bytes; int is 32 bit, size_t 64 bit',
                                                            'heap bytes never written are treated as arbitrary, reading them is not reported'],
              wall_s=round(time.time() - t0, 1), violations=violations)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, 'evidence', P + '.json'), 'w'), indent=1, default=str)
    print('%s: %d functions proved, %d failed, %d bounded only, %d inputs run, %.1fs' % (P, len(proved), len(failed), len(odd), nconc, time.time() - t0))
    for d in degraded:
        print('NOT RUN: ' + d)
    for k in kn:
        print('KNOWN-FINDING: property=%s %s' % (P, k['what']))
    if lines:
        for l in lines:
            print(l)
        return 1
    if err or broken:
        print('ERROR: ' + (err or '; '.join('%s: %s %s' % (r['fn'], r['status'], r['detail']) for r in broken)))
        return 2
    return 0


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    main()
