"""C18: a controlled run yields the requested frames."""
import os
from .common import *

ENCODED = ['Controller.run', 'Controller.write_F / outdir_p / F_path / check_validity', 'FrameCounter', 'Solution.write', 'Solution.__deepcopy__ and below',
           'Solver.evolve_to_time (cases with real time stepping)', 'State.sum_F, mp, mF']
ASSUMPTIONS = ['the evolution is an arbitrary change of the values that ends at the requested time (see C01)', 'a list of output times begins with the start time',
               'file formats are replaced by a recorder (see C19)']


def BOUNDS(tier):
    return 'up to %d output times, 1-3 steps per frame, start frames 0-2, two consecutive runs; 1 state with 2 cells, arbitrary values and times' % (3 if tier == 'quick' else 5)


def setup(ctx, na=0, kind='classic', mp=0, mF=0):
    P = pyclaw()
    s = step_solver(ctx, kind, 'SSP33')
    s.aux_bc_lower[0] = s.aux_bc_upper[0] = P.BC.periodic
    t0 = ctx.real('t0')
    sol = make_solution(ctx, (2,), 1, na, t=t0)
    if mp:
        sol.mp = mp
    if mF:
        sol.mF = mF
    claw = P.Controller()
    claw.verbosity = 0
    claw.solution, claw.solver = sol, s
    return claw, s, sol, t0


def snapshot(sol):
    st = sol.states[0]
    return dict(t=sol.t, q=np.array(st.q), aux=None if st.aux is None else np.array(st.aux), p=None if st.p is None else np.array(st.p))


def check_snap(ctx, label, got, want, p=False):
    ctx.check_eq(label + ': time', got['t'], want['t'])
    for i in np.ndindex(*want['q'].shape):
        ctx.check_eq(label + ': values', got['q'][i], want['q'][i])
    if want['aux'] is not None:
        for i in np.ndindex(*want['aux'].shape):
            ctx.check_eq(label + ': auxiliary values', got['aux'][i], want['aux'][i])


def frames_snap(claw):
    return [snapshot(f) for f in claw.frames]


def run(ctx, style=1, nout=2, start=0, keep=True, out=True, nstep=1, na=0, aux_init=False, aux_always=False, p=False, F=False, inplace=True, runs=1, times=None, fmts=None, prefix=None, single=False):
    claw, s, sol, t0 = setup(ctx, na, mp=2 if p else 0, mF=2 if F else 0)
    calls = []
    hist = []
    n = [0]

    def evolve(solution, tend=None):
        n[0] += 1
        st = solution.states[0]
        new = ctx.uf('ev', list(np.array(st.q).ravel()) + [n[0]], 2)
        new = np.array(list(new), dtype=st.q.dtype).reshape(st.q.shape, order='F')
        if inplace:
            st.q[...] = new
        else:
            st.q = np.array(new, order='F')
        if st.aux is not None:
            st.aux[...] = st.aux + 1
        if tend is None:
            solution.t = solution.t + ctx.real('dt%d' % n[0], pos=True)
        else:
            solution.t = tend
        calls.append((solution is claw.solution, tend))
        hist.append(snapshot(solution))
        s.status['numsteps'] = n[0]
        return s.status
    s.evolve_to_time = evolve
    written, expect_p = [], []

    def writer(fmt):
        def w(solution, frame, path, file_prefix='default', write_aux=False, options={}, write_p=False):
            written.append(dict(fmt=fmt, frame=int(str(frame)), path=path, prefix=file_prefix, aux_=write_aux, options=options, write_p=write_p, snap=snapshot(solution)))
        return w
    sol.get_write_func = writer
    if start:
        sol._start_frame = start
    with scratch() as d:
        claw.outdir = os.path.join(d, 'out')
        claw.keep_copy = keep
        fm = (fmts or 'ascii') if out else None
        claw.output_format = fm
        fml = [fm] if isinstance(fm, str) else (fm or [])
        claw.output_options = {'opt': 1}
        claw.write_aux_init, claw.write_aux_always = aux_init, aux_always
        claw.output_file_prefix = prefix
        claw.output_style = style
        claw.num_output_times = nout
        claw.nstepout = nstep
        if p:
            def cp(state):
                state.p[0, :] = 2 * state.q[0, :]
                state.p[1, :] = state.q[0, :] + state.t
            claw.compute_p = cp
        if F:
            def cF(state):
                state.F[0, :] = state.q[0, :]
                state.F[1, :] = state.q[0, :] * 3 + state.t
            claw.compute_F = cF
        if F and not out:
            os.makedirs(claw.outdir)
        total = 0
        for r in range(runs):
            tcur, first = sol.t, snapshot(sol)
            begin = sol.start_frame
            if style == 1:
                claw.tfinal = tcur + ctx.real('len%d' % r, pos=True)
                want = [tcur + (claw.tfinal - tcur) * k / nout if nout else tcur for k in range(nout + 1)]
                nfr = nout + 1
            elif style == 2:
                gaps = [ctx.real('gap%d_%d' % (r, k), pos=True) for k in range(nout)]
                want = [tcur]
                for g in gaps:
                    want.append(want[-1] + g)
                claw.out_times = list(want) if not inplace else np.array(want, dtype=object if ctx.symbolic else float)
                nfr = nout + 1
            else:
                want = None
                nfr = nout + 1 - begin
            del calls[:], hist[:], written[:]
            nbefore = len(claw.frames)
            status = ctx.run('a run returns', claw.run)
            ctx.check('a run returns the status of the solver', status is s.status)
            per = nstep if style == 3 else 1
            ctx.check('one evolution per frame', len(calls) == (nfr - 1) * per and all(c[0] for c in calls))
            if style == 3:
                ctx.check('steps are taken one at a time', all(c[1] is None for c in calls))
            else:
                for k, c in enumerate(calls):
                    ctx.check_eq('evolution is asked for the output time', c[1], want[k + 1])
            snaps = [first] + hist[per - 1::per]
            ctx.check('number of frames', len(snaps) == nfr)
            if want is not None:
                for k, sn in enumerate(snaps):
                    ctx.check_eq('frame time', sn['t'], want[k])
            if keep:
                ctx.check('frames kept', len(claw.frames) - nbefore == nfr)
                for sn, fr in zip(snaps, claw.frames[nbefore:]):
                    check_snap(ctx, 'a frame kept in memory holds the solution at its time', snapshot(fr), sn)
                    ctx.check('frames are separate objects', fr is not claw.solution and fr.state is not claw.solution.state and fr.state.q is not claw.solution.state.q)
            else:
                ctx.check('nothing kept', len(claw.frames) == 0)
            if out:
                wq = [w for w in written if not w['write_p']]
                wp = [w for w in written if w['write_p']]
                ctx.check('number of frames written', len(wq) == nfr * len(fml) and len(wp) == (nfr * len(fml) if p else 0))
                ctx.check('frame numbers are consecutive from the start frame', [w['frame'] for w in wq] == [begin + k for k in range(nfr) for _ in fml])
                ctx.check('formats written', [w['fmt'] for w in wq] == fml * nfr)
                for k, w in enumerate(wq):
                    check_snap(ctx, 'a written frame holds the solution at its time', w['snap'], snaps[k // len(fml)])
                    ctx.check('output location', w['path'] == claw.outdir and w['prefix'] == (prefix or 'default') and w['options'] == {'opt': 1})
                    ctx.check('auxiliary fields written as requested', bool(w['aux_']) == bool(aux_always or (aux_init and k < len(fml))))
                ctx.check('derived frame numbers', [w['frame'] for w in wp] == ([begin + k for k in range(nfr) for _ in fml] if p else []))
                for k, w in enumerate(wp):
                    sn = snaps[k // len(fml)]
                    check_snap(ctx, 'a derived frame belongs to the solution at its time', w['snap'], sn)
                    for i in range(2):
                        ctx.check_eq('derived values', w['snap']['p'][0, i], 2 * sn['q'][0, i])
                        ctx.check_eq('derived values', w['snap']['p'][1, i], sn['q'][0, i] + sn['t'])
                    ctx.check('derived output location', w['path'] == os.path.join(claw.outdir, '_p') and w['prefix'] == 'claw_p')
            else:
                ctx.check('nothing written', written == [])
            if F:
                with open(os.path.join(claw.outdir, 'F.txt')) as fh:
                    lines = [l.split() for l in fh]
                ctx.check('one line of functionals per frame', len(lines) == nfr and all(len(l) == 3 for l in lines))
                for l, sn in zip(lines, snaps):
                    ctx.check_eq('functional time', num(ctx, l[0]), sn['t'])
                    q = sn['q'][0]
                    ctx.check_eq('functional value', num(ctx, l[1]), abs(q[0]) + abs(q[1]))
                    ctx.check_eq('functional value', num(ctx, l[2]), abs(3 * q[0] + sn['t']) + abs(3 * q[1] + sn['t']))
            total += nfr
        before = frames_snap(claw)
        # later evolution
        evolve(sol)
        st = sol.states[0]
        st.q[...] = ctx.real('later')
        st.problem_data['later'] = 1
        st.grid.x.num_cells = 7
        for fr, b in zip(claw.frames, before):
            check_snap(ctx, 'later changes do not reach frames kept in memory', snapshot(fr), b)
            ctx.check('later changes do not reach frames kept in memory', fr.state.grid.x.num_cells == 2 and 'later' not in fr.state.problem_data)
        for k, fr in enumerate(claw.frames):
            fr.state.q[...] = k
            fr.t = k
        for k, fr in enumerate(claw.frames):
            ctx.check_eq('frames are independent of each other', fr.state.q[0, 0], k)
            ctx.check_eq('frames are independent of each other', fr.t, k)
        ctx.check('frame list', not keep or len(claw.frames) == total)
    ctx.reach('run')


def real(ctx, kind, style, nout=2, nstep=1):
    """the real time stepping in between"""
    claw, s, sol, t0 = setup(ctx, 0, kind)
    log = []
    env_update(ctx, s, kind, log, zero=False)
    s.dt_initial = ctx.real('dt', pos=True)
    s.dt_variable = style == 3
    s.cfl_max, s.cfl_desired = ctx.const(1), ctx.const(1) * 9 / 10
    claw.output_format, claw.keep_copy = None, True
    claw.output_style, claw.num_output_times, claw.nstepout = style, nout, nstep
    if style == 1:
        claw.tfinal = t0 + nout * s.dt_initial
    s.max_steps = 8
    P = pyclaw()
    ts = [t0]
    orig = s.evolve_to_time
    def ev(*a, **k):
        r = orig(*a, **k)
        ts.append(sol.t)
        return r
    s.evolve_to_time = ev
    try:
        claw.run()
    except Exception as e:
        if 'Courant' not in str(e) and 'CFL' not in str(e).upper() and 'timesteps' not in str(e):
            raise
        ctx.reach('refused')
        return
    ctx.check('number of frames', len(claw.frames) == nout + 1)
    for k, fr in enumerate(claw.frames):
        want = t0 + (claw.tfinal - t0) * k / nout if style == 1 else (ts[k * nstep] if k else t0)
        ctx.check_eq('frame time', fr.t, want)
    fin = claw.frames[-1].state.q
    for i in np.ndindex(*fin.shape):
        ctx.check_eq('last frame is the current solution', fin[i], sol.state.q[i])
    ctx.reach('run')


def refuse(ctx, exists):
    """an existing output directory is not overwritten unless allowed"""
    claw, s, sol, t0 = setup(ctx)
    written, calls = [], []
    sol.get_write_func = lambda fmt: (lambda *a, **k: written.append(1))
    s.evolve_to_time = lambda solution, tend=None: calls.append(1)
    claw.overwrite = False
    claw.num_output_times = 1
    claw.tfinal = t0 + ctx.real('len', pos=True)
    with scratch() as d:
        claw.outdir = os.path.join(d, 'out')
        if exists:
            os.makedirs(claw.outdir)
        try:
            claw.run()
            ok = True
        except Exception:
            ok = False
        ctx.check('existing output is protected', ok == (not exists) and (len(written) == 0) == exists)
    ctx.reach('refuse')


def cases(tier):
    T = tier != 'quick'
    N = (1, 2, 3) if not T else (1, 2, 3, 5)
    out = []
    for style in (1, 2, 3):
        for n in N:
            out.append(dict(_h='run', style=style, nout=n, inplace=n % 2 == 0, nstep=n if style == 3 else 1))
        out.append(dict(_h='run', style=style, nout=0, out=False))
        out.append(dict(_h='run', style=style, nout=2, keep=False, na=1, aux_init=True))
        out.append(dict(_h='run', style=style, nout=2, keep=False, na=1, aux_always=True, inplace=False, prefix='abc', fmts=['ascii', 'hdf5']))
        out.append(dict(_h='run', style=style, nout=2, p=True, F=True, na=1))
        out.append(dict(_h='run', style=style, nout=1, F=True, out=False))
        out.append(dict(_h='run', style=style, nout=3, start=2, inplace=False, p=True))
        if style < 3:
            out.append(dict(_h='run', style=style, nout=2, runs=2))
            out.append(dict(_h='run', style=style, nout=1, runs=3 if T else 2, inplace=False, F=True))
        out.append(dict(_h='run', style=style, nout=2, runs=2, keep=False, p=True, fmts=['ascii', 'hdf5']))
    for kind in ('classic', 'sharpclaw'):
        out.append(dict(_h='real', kind=kind, style=1, nout=2))
        out.append(dict(_h='real', kind=kind, style=3, nout=2, nstep=1 if not T else 2))
        out.append(dict(_h='real', kind=kind, style=3, nout=1, nstep=2))
    out += [dict(_h='refuse', exists=e) for e in (False, True)]
    return out
