"""Encoding validation: the interpreted kernels and the compiled ones agree on
random data (development aid, not a deciding step).  tools_selftest.py [filter]"""
import sys, os, time, random, subprocess, json, tempfile, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')

CASES = []
for order in (1, 2):
    for lim in ([0, 1], [2, 3], [4, 2]):
        for fw in (False, True):
            for capa in (False, True):
                CASES.append(dict(kind='c', dim=1, cells=(5,), order=order, lim=lim, fw=fw, capa=capa))
for order, split, tr in ((1, True, 0), (2, True, 0), (1, False, 0), (2, False, 0), (1, False, 1), (2, False, 1), (2, False, 2)):
    for capa in (False, True):
        for fw in (False, True):
            CASES.append(dict(kind='c', dim=2, cells=(3, 4), order=order, lim=[4, 1], fw=fw, split=split, tr=tr, capa=capa))
for order, split, tr in ((2, True, 0), (1, False, 0), (2, False, 0), (2, False, 10), (2, False, 11), (1, False, 11), (2, False, 20), (2, False, 21), (2, False, 22)):
    for capa in (False, True):
        CASES.append(dict(kind='c', dim=3, cells=(2, 3, 2), order=order, lim=[4, 1], fw=False, split=split, tr=tr, capa=capa))
for dim, cells in ((1, (5,)), (2, (4, 3)), (3, (3, 2, 3))):
    for lt, cd, wo in ((1, 0, 5), (1, 1, 5), (2, 0, 5), (2, 1, 5), (2, 0, 7), (2, 0, 9), (2, 0, 17), (3, 0, 5)):
        for tf in (False, True):
            for capa in (False, True):
                CASES.append(dict(kind='s', dim=dim, cells=cells, lim=[1, 1], lt=lt, cd=cd, wo=wo, tf=tf, capa=capa, fw=False))


def run(mode):
    from vlib import loader, explore, sym
    loader.install(mode == 'sym')
    import logging; logging.disable(50)
    from vlib import kernels
    from props import common
    import numpy as np
    rnd = random.Random(3)
    class CC(explore.SymCtx):
        def real(self, name, **k):
            return sym.R.const(rnd.randint(1, 64) / 16.) if not name.startswith('uninit') else sym.R.const(0)
    class FC(explore.ConcCtx):
        def __init__(self):
            explore.ConcCtx.__init__(self, dict(inputs={}, choices={}, records=[]))
        def real(self, name, **k):
            return rnd.randint(1, 64) / 16.
    def solve(ixy, L, R, al, ar):
        d = [r - l for l, r in zip(L, R)]
        s = [0.5 * (L[0] + R[0]) + ixy + (0.25 * al[1] - 0.125 * ar[1] if len(al) > 1 else 0), -0.25 * L[0] - 0.1]
        w = [[0.5 * d[0] + 0.25 * d[1], d[1] * 0.5], [0.5 * d[0] - 0.25 * d[1], d[1] * 0.5]]
        am = [s[1] * x for x in w[1]]
        ap = [s[0] * x for x in w[0]]
        return w, s, am, ap
    def tsolve(fl, L, R, rows, a):
        k = sum((i + 1) * f for i, f in enumerate(fl))
        x = 0.1 * rows[0][1] if rows and fl.__len__() == 2 else 0
        x = x + 0.1 * rows[2][0] if rows and fl.__len__() == 2 else x
        if rows and len(fl) > 2:
            x = 0.1 * rows[0][1][0] + 0.2 * rows[2][0][1] + 0.3 * rows[1][2][1]
        return [a[0] * 0.25 + L[0] * 0.125 * k + x, a[1] * 0.5], [a[0] * 0.75, a[1] - R[1] * 0.25 + k]
    def tf(ixy, L, R, al, ar):
        return [R[0] - L[0] + ixy, 0.5 * R[1] - L[1] + (al[1] if len(al) > 1 else 0)]
    out = []
    for c in json.loads(sys.argv[3]):
        rnd.seed(7)
        if mode == 'sym':
            sh = explore.Shared('x', {}, 'quick')
            ctx = CC([], sh)
            explore.CUR = ctx
        else:
            ctx = FC()
        ctx.trans_aux = True
        t = time.time()
        dim = c['dim']
        P = common.pyclaw()
        kernels.use(ctx, ('classic' if c['kind'] == 'c' else 'sharpclaw') + str(dim))
        rp = kernels.rp_module(ctx)
        setattr(rp, 'rp1' if dim == 1 else 'rpn%d' % dim, kernels.normal_rp(ctx, dim, solve))
        if dim == 2:
            rp.rpt2 = kernels.trans_rp(ctx, 2, 2, tsolve)
        if dim == 3:
            rp.rpt3 = kernels.trans_rp(ctx, 3, 3, tsolve)
            rp.rptt3 = kernels.trans_rp(ctx, 3, 4, tsolve)
        s = getattr(P, ('ClawSolver%dD' if c['kind'] == 'c' else 'SharpClawSolver%dD') % dim)(rp)
        s.num_waves = 2; s.num_eqn = 2; s.fwave = c['fw']; s.limiters = c['lim']
        s.all_bcs = P.BC.periodic
        for k in range(dim):
            s.aux_bc_lower[k] = s.aux_bc_upper[k] = P.BC.periodic
        sol = common.make_solution(ctx, c['cells'], 2, 2)
        if c['capa']:
            sol.state.index_capa = 0
        s.dt = ctx.const(0.1)
        if c['kind'] == 'c':
            s.order = c['order']
            if dim > 1:
                s.dimensional_split = c['split']
                s.transverse_waves = c['tr']
        else:
            s.lim_type, s.char_decomp, s.weno_order = c['lt'], c['cd'], c['wo']
            s.time_integrator = 'Euler'; s.cfl_max = 1.0; s.cfl_desired = 0.9
            s.tfluct_solver = c['tf']
            if c['tf']:
                s.tfluct = rp
                setattr(rp, 'tfluct%d' % dim, kernels.tfluct_proc(ctx, dim, tf))
            s.num_ghost = 3 if c['wo'] < 7 else (c['wo'] + 1) // 2
        try:
            s.cfl.set_global_max(0.)
            s.setup(sol)
            if c['kind'] == 'c':
                s.step_hyperbolic(sol)
                r = sol.state.q
            else:
                r = s.dq_hyperbolic(sol.state)
            v = [float(x.cval()) if mode == 'sym' else float(x) for x in list(np.asarray(r).ravel()) + [s.cfl.get_cached_max()]]
        except Exception as e:
            import traceback
            traceback.print_exc()
            v = repr(e)
        out.append((v, time.time() - t, getattr(s.fmod, '_M').uninit_reads[:4] if mode == 'sym' else None))
        if c['kind'] == 'c' or mode == 'sym':
            s.kernel_language = 'Python'
        del s
    print('\n@@' + json.dumps(out))


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '--run':
        run(sys.argv[2])
        sys.exit()
    flt = sys.argv[1:]
    cs = [c for c in CASES if all(f in str(c) for f in flt)]
    d = tempfile.mkdtemp(prefix='selftest')
    env = dict(os.environ, VERIF_SCRATCH=d)
    res = {}
    ps = {m: subprocess.Popen([sys.executable, os.path.abspath(__file__), '--run', m, json.dumps(cs)], cwd=d, env=env,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for m in ('sym', 'real')}
    for m, p in ps.items():
        o, e = p.communicate()
        print(e[-3000:])
        res[m] = json.loads(o.split('@@')[-1]) if '@@' in o else None
        if res[m] is None:
            print(m, 'FAILED', o[-2000:])
    shutil.rmtree(d)
    bad = 0
    for c, a, b in zip(cs, res['sym'] or [], res['real'] or []):
        ok = isinstance(a[0], list) and isinstance(b[0], list) and all(abs(x - y) <= 1e-9 * (1 + abs(y)) for x, y in zip(a[0], b[0]))
        bad += not ok
        if not ok or '-v' in flt:
            print(c, 'OK' if ok else 'MISMATCH', '%.2fs %.2fs' % (a[1], b[1]), a[2])
            if not ok:
                print('   ', str(a[0])[:300]); print('   ', str(b[0])[:300])
    print(len(cs), 'cases', bad, 'mismatches', 'sym time', sum(a[1] for a in res['sym'] or []))
