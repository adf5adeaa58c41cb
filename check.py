"""Driver: check.py <property> --tier quick|thorough ; check.py --replay FILE"""
import argparse, importlib, json, os, shutil, sys, tempfile, time, traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if VT not in sys.path:
    sys.path.append(VT)
sys.dont_write_bytecode = True


def quiet_logs():
    import logging
    logging.disable(logging.CRITICAL)


def worker(prop, case, tier, scratch, shared):
    os.environ['VERIF_SCRATCH'] = shared
    d = tempfile.mkdtemp(dir=scratch)
    os.chdir(d)
    import resource
    lim = 6 << 30
    resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    sys.setrecursionlimit(20000)
    t0 = time.time()
    try:
        from vlib import loader, explore
        loader.install(True)
        quiet_logs()
        mod = importlib.import_module('props.' + prop)
        h = getattr(mod, case['_h'])
        opts = dict(getattr(mod, 'OPTS', {}))
        opts.update(case.get('_opts', {}))
        budget = case.get('_budget', 400 if tier == 'quick' else 3000)
        sh = explore.explore(h, case, prop, tier, budget=budget, **opts)
        res = dict(case=case, paths=sh.paths, queries=sh.queries, discharged=sh.discharged,
                   syntactic=sh.syntactic, within_tol=sh.within_tol, feas=sh.feas_queries, solver_s=sh.solver_s,
                   unknown=sh.unknown, violations=sh.violations, nonrepro=sh.nonrepro,
                   truncated=sh.truncated, incomplete=sh.incomplete, reached=sh.reached,
                   labels=sh.labels, wall=time.time() - t0,
                   encoded=sorted(sh.encoded), files=sorted(loader.LOADED.values()), error=None)
    except BaseException as e:
        res = dict(case=case, paths=0, queries=0, discharged=0, syntactic=0, within_tol=0, feas=0, solver_s=0,
                   unknown=[], violations=[], nonrepro=[], truncated=0, incomplete=True,
                   reached={}, labels={}, wall=time.time() - t0, encoded=[], files=[],
                   error=traceback.format_exc()[-3000:])
    os.chdir('/')
    shutil.rmtree(d, ignore_errors=True)
    return res


def case_name(c):
    return ','.join('%s=%s' % (k, c[k]) for k in sorted(c) if not k.startswith('_')) or c['_h']


def replay(path):
    with open(path) as fh:
        doc = json.load(fh)
    d = tempfile.mkdtemp(prefix='vreplay')
    own = None
    if 'VERIF_SCRATCH' not in os.environ:
        own = os.environ['VERIF_SCRATCH'] = tempfile.mkdtemp(prefix='vscr')
    cwd = os.getcwd()
    os.chdir(d)
    rc = 0
    try:
        from vlib import loader, explore
        loader.install(False)
        quiet_logs()
        mod = importlib.import_module('props.' + doc['property'])
        case = doc['case']
        kw = {k: v for k, v in case.items() if not k.startswith('_')}
        ctx = explore.ConcCtx(doc)
        try:
            getattr(mod, case['_h'])(ctx, **kw)
        except explore.ReplayStop:
            pass
        except explore.CODE_ERRORS as e:
            if not explore.from_repo(e) and not ctx.failed:
                raise
            ctx.failed.append(explore.unexpected(e))
            ctx.trace = traceback.format_exc()
        except Exception:
            if not ctx.failed:
                raise
            ctx.trace = traceback.format_exc()
        print('failed obligations:', ctx.failed)
        if getattr(ctx, 'trace', None):
            print(ctx.trace)
        if doc['label'] in ctx.failed or any(f.startswith(doc['label']) for f in ctx.failed):
            print('REPRODUCED', doc['label'])
            rc = 1
        elif ctx.failed:
            print('REPRODUCED (as %s)' % ctx.failed[0])
            rc = 1
    except Exception:
        traceback.print_exc()
        rc = 2
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)
        if own:
            shutil.rmtree(own, ignore_errors=True)
    sys.exit(rc)


def child(conn, args):
    os.setpgrp()
    conn.send(worker(*args))
    conn.close()


def completed(todo, args, jobs, deadline, stop):
    """Runs one process per case, at most jobs at a time; yields (case, result), with
    an exception as the result of a case that died or ran into the deadline.  Once
    stop() the remaining cases are dropped."""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    cx = mp.get_context('spawn')
    todo, running = list(todo), {}

    def end(proc):
        try:
            os.killpg(proc.pid, 9)
        except OSError:
            pass
        proc.kill()
        proc.join(10)
    try:
        while todo or running:
            while todo and len(running) < jobs:
                i = todo.pop(0)
                r, w = cx.Pipe(False)
                proc = cx.Process(target=child, args=(w, args(i)), daemon=True)
                proc.start()
                w.close()
                running[r] = (i, proc)
            ready = wait(list(running), timeout=max(0.1, deadline - time.time()))
            for r in ready:
                i, proc = running.pop(r)
                try:
                    res = r.recv()
                except BaseException as e:
                    if isinstance(e, KeyboardInterrupt):
                        raise
                    res = RuntimeError('worker died: %r' % e)
                r.close()
                proc.join(10)
                yield i, res
                if stop():
                    return
            if time.time() > deadline:
                for i in todo + [x[0] for x in running.values()]:
                    yield i, RuntimeError('time limit of the check reached')
                return
    finally:
        for i, proc in running.values():
            end(proc)


def known(prop):
    p = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)).get('findings', []) if k['property'] == prop and k['status'] == 'known']


def is_new(kf, r, v):
    n = case_name(r['case'])
    return not any(k['harness'] == r['case']['_h'] and k['label'] == v['label'] and k.get('case', n) == n for k in kf)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--only', help='substring of case name (development)')
    ap.add_argument('--all', action='store_true', help='go on after a violation')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    if a.replay:
        replay(os.path.abspath(a.replay))
    t0 = time.time()
    out = os.environ.setdefault('VERIF_OUT', os.path.join(HERE, 'out'))
    os.makedirs(os.path.join(out, 'replay'), exist_ok=True)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    prop = a.prop
    mod = importlib.import_module('props.' + prop)
    cases = mod.cases(a.tier)
    if a.only:
        cases = [c for c in cases if a.only in case_name(c) or a.only in c['_h']]
    kf = known(prop)
    scratch = tempfile.mkdtemp(prefix='verif_%s_' % prop)
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        if hasattr(mod, 'prepare'):
            mod.prepare(scratch)
        res = []
        order = sorted(range(len(cases)), key=lambda i: -cases[i].get('_w', 1))
        limit = float(os.environ.get('VERIF_LIMIT', 720 if a.tier == 'quick' else 6 * 3600))

        def stop():
            return not a.all and any(is_new(kf, r, v) for r in res for v in r['violations'])
        for i, r in completed(order, lambda i: (prop, cases[i], a.tier, scratch, scratch), a.jobs, t0 + limit, stop):
            if isinstance(r, Exception):
                r = dict(case=cases[i], paths=0, queries=0, discharged=0, syntactic=0, within_tol=0, feas=0,
                         solver_s=0, unknown=[], violations=[], nonrepro=[], truncated=0,
                         incomplete=True, reached={}, labels={}, wall=0, encoded=[], files=[],
                         error=str(r))
            res.append(r)
            if a.v:
                print('%-60s paths=%d q=%d ok=%d unk=%d viol=%d nr=%d tr=%d inc=%s %.1fs (solver %.1f) reach=%s' % (
                    r['case']['_h'] + ' ' + case_name(r['case']), r['paths'], r['queries'], r['discharged'], len(r['unknown']),
                    len(r['violations']), len(r['nonrepro']), r['truncated'], r['incomplete'], r['wall'], r['solver_s'], dict(r['reached'])))
                if r['error']:
                    print(r['error'])
                for v in r['violations'] + r['nonrepro']:
                    print('   ', v)
                if r['unknown']:
                    print('    unknown:', r['unknown'][:3])
                sys.stdout.flush()
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    viol, kn, problems = [], [], []
    for r in res:
        n = case_name(r['case'])
        for v in r['violations']:
            for k in kf:
                if k['harness'] == r['case']['_h'] and k['label'] == v['label'] and k.get('case', n) == n:
                    kn.append((k, v))
                    break
            else:
                viol.append((n, v))
        if r['error']:
            problems.append((n, 'error', r['error'].strip().splitlines()[-1]))
        if r['unknown']:
            problems.append((n, 'solver returned unknown', r['unknown'][:3]))
        if r['nonrepro']:
            problems.append((n, 'counterexample did not reproduce', r['nonrepro'][:2]))
        if r['truncated'] or (r['incomplete'] and not r['error']):
            problems.append((n, 'exploration budget exceeded', r['truncated']))
        if not r['error'] and not r['violations'] and not r['reached'] and not r['nonrepro']:
            problems.append((n, 'vacuous: no path reached the end of the harness', ''))
    wall = time.time() - t0
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1),
        'level': 'other', 'wall_s': round(wall, 2), 'violations': len(viol),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'coverage': {
            'explanation': 'Bounded symbolic execution of the code in /repo; each obligation is the '
                           'negated property under the path condition, decided by z3. ' + getattr(mod, 'EXPLAIN', ''),
            'functions_encoded': getattr(mod, 'ENCODED', []) + sorted({e for r in res for e in r['encoded']}),
            'source_files': sorted({f for r in res for f in r['files']}),
            'bounds': getattr(mod, 'BOUNDS', '') if not callable(getattr(mod, 'BOUNDS', '')) else mod.BOUNDS(a.tier),
            'cases': len(res), 'paths': sum(r['paths'] for r in res),
            'obligations': sum(r['queries'] for r in res),
            'discharged': sum(r['discharged'] for r in res),
            'scalar_equalities_with_identical_normal_forms': sum(r['syntactic'] for r in res),
            'obligations_discharged_within_1e-9_for_inputs_up_to_1000': sum(r['within_tol'] for r in res),
            'feasibility_queries': sum(r['feas'] for r in res),
            'solver_s': round(sum(r['solver_s'] for r in res), 2),
            'reachability_witnesses': sum(sum(r['reached'].values()) for r in res),
            'inconclusive': [list(map(str, p)) for p in problems],
            'known_findings': [k['what'] for k, v in kn],
            'samples': [{'case': case_name(r['case']), 'harness': r['case']['_h'], 'paths': r['paths'],
                         'labels': r['labels'], 'wall_s': round(r['wall'], 2)} for r in res[:12]],
        },
    }
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    for w in sorted({k['what'] for k, v in kn}):
        print('KNOWN-FINDING: property=%s %s' % (prop, w))
    print('%s %s: %d cases, %d paths, %d/%d obligations discharged, %d feasibility queries, solver %.1fs, wall %.1fs' % (
        prop, a.tier, len(res), ev['coverage']['paths'], ev['coverage']['discharged'],
        ev['coverage']['obligations'], ev['coverage']['feasibility_queries'], ev['coverage']['solver_s'], wall))
    for n, v in viol:
        print('  violated: [%s] %s' % (n, v['label']))
        print('VIOLATION property=%s replay=%s' % (prop, v['replay']))
    if viol:
        sys.exit(1)
    for p in problems[:20]:
        print('INCONCLUSIVE', *p)
    # nothing explored breaks the property; cases without an answer are listed
    # above and in the evidence.  No verdict at all if they are the majority.
    sys.exit(2 if 2 * len({p[:1] for p in problems}) > len(res) else 0)


if __name__ == '__main__':
    main()
