"""C21: gauges record the cell that contains them, once per accepted step."""
import os
from .common import *

ENCODED = ['Grid.add_gauges', 'Grid.setup_gauge_files', 'Dimension.delta / lower / upper', 'Solver.write_gauge_values', 'Solver.evolve_to_time', 'Solver.accept_reject_step',
           'Controller.run (gauge handling)', 'default_compute_gauge_values']
ASSUMPTIONS = ['cell index in machine arithmetic: finite doubles of magnitude up to 2^60, domain length at least 2^-900; everything else in exact arithmetic',
               'the spatial update is an arbitrary function of the data it is given', 'gauges lie at lower <= x < upper']


def BOUNDS(tier):
    return 'machine arithmetic: 1D, %s cells; exact arithmetic: 1-3D, up to 3 cells per direction, up to 3 gauges; up to %d step attempts, two consecutive controlled runs' % (
        '1-2' if tier == 'quick' else '1-4 and 7', 2 if tier == 'quick' else 3)


def index_fp(ctx, n, m=1):
    """rounding never sends a gauge outside the grid"""
    P = pyclaw()
    if ctx.symbolic:
        from vlib import fp
        fp.F64.MAXQ = n + 2
    lo, up, x = ctx.double('lower'), ctx.double('upper'), ctx.double('x')
    ctx.assume(up - lo >= 2.0 ** -900)
    ctx.assume(lo < up)
    ctx.assume(lo <= x)
    ctx.assume(x < up)
    g = P.geometry.Grid([ctx.run('making the grid', P.Dimension, lo, up, n, name='x')])
    ctx.run('placing a gauge inside the domain', g.add_gauges, [(x,)])
    ctx.check('a gauge inside the domain is kept', len(g.gauges) == 1)
    if len(g.gauges) != 1:
        return
    ctx.check('the cell of a gauge lies inside the grid (machine arithmetic)', len(g.gauges[0]) == 1 and g.gauges[0][0] >= 0 and g.gauges[0][0] <= n - 1)
    ctx.reach('indexed')


def index(ctx, cells, ng, twice=False):
    """exact arithmetic: the cell contains the gauge; gauges elsewhere are ignored"""
    P = pyclaw()
    nd = len(cells)
    lo = [ctx.real('lo%d' % d) for d in range(nd)]
    de = [ctx.real('de%d' % d, pos=True) for d in range(nd)]
    g = P.geometry.Grid(dims_for(ctx, cells, lo, de))
    xs = [[ctx.real('x%d_%d' % (k, d)) for d in range(nd)] for k in range(ng)]
    inside = [all(ctx.boolean('side%d_%d' % (k, d)) for d in range(nd)) for k in range(ng)]
    for k in range(ng):
        if inside[k]:
            for d in range(nd):
                ctx.assume(lo[d] <= xs[k][d])
                ctx.assume(xs[k][d] < lo[d] + de[d] * cells[d])
        else:
            ctx.assume(ctx.Or(*[ctx.Or(xs[k][d] < lo[d], xs[k][d] > lo[d] + de[d] * cells[d]) for d in range(nd)]))
    if twice:
        ctx.run('placing gauges', g.add_gauges, [tuple(x) for x in xs[:1]])
        ctx.run('placing gauges', g.add_gauges, [np.array(x) for x in xs[1:]])
    else:
        ctx.run('placing gauges', g.add_gauges, [list(x) for x in xs])
    want = [k for k in range(ng) if inside[k]]
    ctx.check('exactly the gauges inside the domain are kept', len(g.gauges) == len(want) and len(g.gauge_file_names) == len(want))
    for i, k in enumerate(want):
        for d in range(nd):
            j = g.gauges[i][d]
            ctx.check_le('the cell of a gauge contains it', lo[d] + de[d] * j, xs[k][d])
            ctx.check_le('the cell of a gauge contains it', xs[k][d], lo[d] + de[d] * (j + 1))
            ctx.check('the cell of a gauge lies inside the grid', j >= 0 and j <= cells[d] - 1)
    ctx.reach('indexed')


def place(ctx, sol, cells, where):
    """gauges at the centres of the given cells"""
    g = sol.state.grid
    g.add_gauges([tuple(ctx.const(0.5) + i for i in w) for w in where])


def lines(ctx, d, name):
    out = []
    with open(os.path.join(d, name)) as f:
        for l in f:
            out.append([num(ctx, w) for w in l.split()])
    return out


def user(ctx, kind):
    if kind == 'default':
        return None, lambda q, aux: list(q)
    if kind == 'scalar':
        def f(q, aux):
            return q[0] * 2 - 1 if aux is None else q[0] + 3 * aux[-1]
        return f, lambda q, aux: [f(q, aux)]

    def f(q, aux):
        r = [q[0] * q[-1], q[0] - q[-1], ctx.const(1)]
        return r if aux is None else np.array([r[0] + aux[0], aux[-1]])
    return f, lambda q, aux: list(f(q, aux))


def compare(ctx, label, got, want):
    ctx.check(label + ': number of records', len(got) == len(want))
    for g, w in zip(got, want):
        ctx.check(label + ': size of a record', len(g) == len(w))
        ctx.check_eq(label + ': time', g[0], w[0])
        for a, b in zip(g[1:], w[1:]):
            ctx.check_eq(label + ': values', a, b)


def gauge_records(data):
    out = []
    for a in data:
        a = np.asarray(a)
        out.append([list(r) for r in (a if a.ndim == 2 else [a])])
    return out


def record(ctx, kind='classic', cells=(2,), where=((0,),), na=0, compute='default', keep=True, attempts=2, variable=True, one=False, integrator='SSP33', fortran=False):
    ctx.RTOL = 1e-7
    nd = len(cells)
    s = step_solver(ctx, kind, integrator, variable, num_dim=nd)
    if fortran or (kind == 'classic' and nd > 1):
        s.kernel_language = 'Fortran'
    s.num_eqn = 2
    P = pyclaw()
    if na:
        s.aux_bc_lower, s.aux_bc_upper = [P.BC.periodic] * nd, [P.BC.periodic] * nd
    s.dt = ctx.real('dt', pos=True)
    t0 = ctx.real('t0')
    sol = make_solution(ctx, cells, 2, na, t=t0)
    st = sol.state
    log = []
    env_update(ctx, s, kind, log, zero=False)
    s.max_steps = attempts
    f, want_of = user(ctx, compute)
    if f is not None:
        s.compute_gauge_values = f
    place(ctx, sol, cells, where)
    if keep is not None:
        st.keep_gauges = keep
    want = [[] for w in where]
    orig = s.accept_reject_step

    def ar(state):
        a = orig(state)
        if a:
            for i, w in enumerate(where):
                ix = (slice(None),) + tuple(w)
                want[i].append([sol.t + s.dt] + want_of(state.q[ix].copy(), None if not na else state.aux[ix].copy()))
        return a
    s.accept_reject_step = ar
    with scratch() as d:
        ctx.run('opening gauge files', st.grid.setup_gauge_files, d)
        tend = None
        if not one:
            tend = t0 + (ctx.real('len', pos=True) if variable else attempts * s.dt)
        for k in range(attempts if one else 1):
            try:
                s.evolve_to_time(sol, tend)
            except Exception as e:
                if type(e) is not Exception or not ('CFL' in str(e) or 'timesteps' in str(e)):
                    ctx.run('recording', _raise, e)
                ctx.reach('refused')
                break
        for gf in st.grid.gauge_files:
            gf.close()
        ctx.check('one file per gauge', len(st.grid.gauge_files) == len(where))
        for i in range(len(where)):
            compare(ctx, 'gauge file', lines(ctx, os.path.join(d, st.grid.gauge_dir_name), st.grid.gauge_file_names[i]), want[i])
        if keep:
            data = gauge_records(st.gauge_data)
            ctx.check('one table in memory per gauge', len(data) == (len(where) if want[0] else 0))
            for i in range(len(data)):
                compare(ctx, 'gauge table', data[i], want[i])
        else:
            ctx.check('nothing kept in memory unless asked', len(st.gauge_data) == 0)
    ctx.reach('%d records' % len(want[0]))


def _raise(e):
    raise e


def controlled(ctx, runs=2, style=1, nout=1, kind='classic', keep=True, where=((0,), (1,)), copies=True):
    """a controlled run records the initial values, then every step; the next run likewise"""
    ctx.RTOL = 1e-7
    P = pyclaw()
    s = step_solver(ctx, kind, 'Euler', False)
    s.num_eqn = 2
    s.cfl_max, s.cfl_desired = ctx.const(1), ctx.const(1) * 9 / 10
    t0 = ctx.real('t0')
    sol = make_solution(ctx, (2,), 2, t=t0)
    st = sol.state
    env_update(ctx, s, kind, [], zero=False)
    s.dt_initial = ctx.real('dt', pos=True)
    s.max_steps = 4
    place(ctx, sol, (2,), where)
    st.keep_gauges = keep
    claw = P.Controller()
    claw.verbosity = 0
    claw.solution, claw.solver = sol, s
    claw.output_format, claw.keep_copy = None, copies
    claw.output_style, claw.num_output_times, claw.nstepout = style, nout, 1
    table = [[] for w in where]
    part = []
    orig = s.accept_reject_step

    def note(t):
        for i, w in enumerate(where):
            r = [t] + list(sol.state.q[:, w[0]].copy())
            table[i].append(r)
            part[i].append(r)

    def ar(state):
        a = orig(state)
        if a:
            note(sol.t + s.dt)
        return a
    s.accept_reject_step = ar
    with scratch() as d:
        claw.outdir = d
        for r in range(runs):
            part[:] = [[] for w in where]
            claw.tfinal = sol.t + nout * s.dt_initial
            claw.num_output_times = nout if style == 1 else nout + (claw.solution.start_frame if r else 0)
            note(sol.t)
            try:
                claw.run()
            except Exception as e:
                if type(e) is Exception and ('CFL' in str(e) or 'timesteps' in str(e)):
                    ctx.reach('refused')
                    return
                ctx.run('a controlled run with gauges', _raise, e)
            g = sol.state.grid
            for i in range(len(where)):
                compare(ctx, 'gauge file', lines(ctx, os.path.join(d, g.gauge_dir_name), g.gauge_file_names[i]), part[i])
            if keep:
                data = gauge_records(sol.state.gauge_data)
                ctx.check('one table in memory per gauge', len(data) == len(where))
                for i in range(len(data)):
                    compare(ctx, 'gauge table', data[i], table[i])
    ctx.reach('ran')


def cases(tier):
    T = tier != 'quick'
    out = [dict(_h='index_fp', n=n) for n in ((1, 2) if not T else (1, 2, 3, 4, 7))]
    for cells in ((1,), (3,), (2, 3), (2, 1, 2)):
        out.append(dict(_h='index', cells=cells, ng=1))
    out += [dict(_h='index', cells=(3,), ng=3, twice=True), dict(_h='index', cells=(2,), ng=2)]
    if T:
        out += [dict(_h='index', cells=(3, 2), ng=2), dict(_h='index', cells=(6,), ng=2), dict(_h='index', cells=(2, 2, 3), ng=1, twice=True)]
    A = 2 if not T else 3
    w1, w2, w3 = ((2,), (0,)), ((1, 0), (0, 2)), ((1, 0, 1), (0, 1, 0))
    for kind in ('classic', 'sharpclaw'):
        out.append(dict(_h='record', kind=kind, cells=(3,), where=w1, attempts=A))
        out.append(dict(_h='record', kind=kind, cells=(3,), where=w1[:1], na=2, compute='scalar', attempts=A, one=True))
        out.append(dict(_h='record', kind=kind, cells=(2,), where=((1,), (0,), (1,)), na=1, compute='vector', keep=False, attempts=A))
        out.append(dict(_h='record', kind=kind, cells=(3,), where=w1, variable=False, attempts=A, compute='vector'))
        out.append(dict(_h='record', kind=kind, cells=(2, 3), where=w2, na=2, compute='vector', attempts=A, one=True, integrator='Euler'))
        out.append(dict(_h='record', kind=kind, cells=(2, 3), where=w2[1:], attempts=A, integrator='Euler'))
        out.append(dict(_h='record', kind=kind, cells=(2, 2, 2), where=w3, na=2, compute='scalar', attempts=A, one=True, integrator='Euler'))
        out.append(dict(_h='record', kind=kind, cells=(2, 2, 2), where=w3[1:], keep=None, attempts=A, integrator='Euler'))
        out.append(dict(_h='controlled', kind=kind, copies=kind == 'classic'))
        out.append(dict(_h='controlled', kind=kind, nout=2, keep=kind == 'classic', where=((1,),), runs=3 if T else 2))
    out.append(dict(_h='controlled', style=3, nout=2, runs=1))
    return out
