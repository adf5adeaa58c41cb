"""C02: a rejected step leaves no trace; every kept step respects the maximum Courant number."""
from .common import *
from .C16 import retract

ENCODED = ['Solver.evolve_to_time', 'Solver.accept_reject_step', 'SharpClawSolver.accept_reject_step',
           'Solver.get_dt', 'Solver.get_dt_new', 'SharpClawSolver.get_dt_new', 'ClawSolver.step',
           'SharpClawSolver.step', 'SharpClawSolver.ssp104', 'Solver.write_gauge_values', 'CFL.*', 'Solution.t', 'State.q']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'the spatial update is an arbitrary function of the data with an arbitrary wave speed per evaluation; '
               'its Courant number is wave speed times step size']


def BOUNDS(tier):
    return '2 cells, 1 equation, %d step attempts' % (2 if tier == 'quick' else 3)


def trace(ctx, kind, integrator='Euler', variable=True, attempts=2, source=0, gauges=True):
    s = step_solver(ctx, kind, integrator, variable)
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.real('dt_max', pos=True)
    sol = make_solution(ctx, (2,), t=ctx.real('t0'))
    if gauges:
        sol.state.keep_gauges = True
        sol.state.grid.gauges.append([1])
        import io
        sol.state.grid.gauge_files.append(io.StringIO())
    log = []
    env_update(ctx, s, kind, log, zero=False)
    if source and kind == 'classic':
        s.source_split = source
        def src(sv, st, dt):
            new = ctx.uf('src', list(st.q.ravel(order='F')) + [dt], st.q.size)
            st.q[...] = np.array(list(new), dtype=st.q.dtype).reshape(st.q.shape, order='F')
        s.step_source = src
    elif source:
        s.dq_src = lambda sv, st, dt: dt * np.array(ctx.uf('src', list(st.q.ravel(order='F')) + [st.t], st.q.size), dtype=st.q.dtype).reshape(st.q.shape, order='F')
    first = None
    for k in range(attempts):
        q0, t0 = sol.state.q.copy(), sol.t
        n0, g0 = s.status['numsteps'], len(sol.state.gauge_data) and np.array(sol.state.gauge_data[0]).size
        del log[:]
        dt0 = s.dt
        raised = False
        try:
            ctx.run('a step attempt raised unexpectedly', s.evolve_to_time, sol, allow=(Exception,))
        except Exception as e:
            if type(e) is not Exception or variable:
                raise
            raised = True
        g1 = len(sol.state.gauge_data) and np.array(sol.state.gauge_data[0]).size
        if kind == 'classic':
            rates = [x[3] for x in log]
        else:
            # the first evaluation of a retried step is the one made before it was rejected
            got = [x[3] for x in log]
            if first is not None:
                got = [first] + got
            rates = got
        worst = ctx.max(*[r * s.dt for r in rates])
        if bool(worst > s.cfl_max):
            ctx.check('a step above the maximum Courant number is not counted', s.status['numsteps'] == n0)
            if variable:
                ctx.check_eq('a rejected step leaves the solution unchanged', sol.state.q, q0)
                ctx.check_eq('a rejected step leaves the time unchanged', sol.t, t0)
            else:
                ctx.check('a fixed step above the maximum Courant number raises', raised)
                ctx.check_eq('an aborted step does not advance time', sol.t, t0)
            ctx.check('a rejected step writes no gauge record', g1 == g0)
            ctx.reach('rejected')
            if not variable:
                return
            if kind != 'classic':
                first = rates[0]
            # retried with a smaller step
            dt_rej = s.dt
            seen = []
            orig = s.get_dt
            def get_dt(*a, **kw):
                orig(*a, **kw)
                seen.append(s.dt)
            s.get_dt = get_dt
            ctx.run('a retry must not fail', s.evolve_to_time, sol)
            s.get_dt = orig
            if seen:
                ctx.check('the retry uses a smaller step', seen[0] < dt_rej)
            return
        ctx.check('no exception for an acceptable step', not raised)
        ctx.check('an accepted step is counted', s.status['numsteps'] == n0 + 1)
        ctx.check_eq('an accepted step advances the time', sol.t, t0 + s.dt)
        if gauges:
            ctx.check('an accepted step writes one gauge record', g1 == g0 + 2)
        first = None
        ctx.reach('accepted')


def rerun(ctx, kind, integrator='Euler'):
    """Rejection inside a run to a given time: the values that are kept are those of
    a run in which the rejected attempt never happened."""
    s = step_solver(ctx, kind, integrator)
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.const(1e6)
    sol = make_solution(ctx, (1,), t=ctx.const(0))
    ctx.assume(s.dt <= 1000)
    log = []
    env_update(ctx, s, kind, log, zero=False)
    q0 = sol.state.q.copy()
    s.max_steps = 2
    tend = ctx.const(5000)
    try:
        s.evolve_to_time(sol, tend)
    except Exception as e:
        if type(e) is not Exception:
            raise
    if kind == 'classic' and len(log) == 2 and bool(log[0][3] * log[0][2] > s.cfl_max):
        ctx.check_eq('the retry starts from the data before the rejected attempt', log[1][1], q0)
        ctx.check_eq('the retry starts at the time before the rejected attempt', log[1][4], 0)
        ctx.reach('retried')
    if kind != 'classic' and integrator == 'Euler' and len(log) == 1 and s.status['numsteps'] <= 1:
        rate = np.array(list(ctx.uf('rhs', list(q0.ravel(order='F')) + [ctx.const(0)], q0.size)), dtype=q0.dtype).reshape(q0.shape, order='F')
        if s.status['numsteps'] == 1:
            ctx.check_eq('the kept step starts from the data before the rejected attempt', sol.state.q, q0 + s.dt * rate)
            ctx.reach('retried')


def series(ctx, kind, integrator='Euler', source=0, attempts=3, rebind=False, hook=False):
    """Several attempts inside one run to a given time: every attempt starts from the
    data and time of the last kept step, however many attempts were rejected before it."""
    s = step_solver(ctx, kind, integrator)
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.const(1e6)
    sol = make_solution(ctx, (1,), t=ctx.const(0))
    ctx.assume(s.dt <= 1000)
    log, starts, ends = [], [], []
    env_update(ctx, s, kind, log, zero=False)
    if rebind:
        real = s.step_hyperbolic
        def hyp(solution):
            real(solution)
            solution.states[0].q = np.array(solution.states[0].q, order='F')
        s.step_hyperbolic = hyp
    if source and kind == 'classic':
        s.source_split = source
        def src(sv, st, dt):
            st.q += dt * ctx.uf('src', list(st.q.ravel(order='F')), 1)[0]
        s.step_source = src

    orig = s.get_dt
    def get_dt(*a, **k):
        # first thing a classic step does; SharpClaw has only evaluated derivatives before
        starts.append((sol.state.q.copy(), sol.t))
        return orig(*a, **k)
    s.get_dt = get_dt
    ar = s.accept_reject_step
    def accept(state):
        a = ar(state)
        ends.append((a, state.q.copy(), sol.t, s.dt))
        return a
    s.accept_reject_step = accept
    if hook:
        def pre(sv, st):
            if hook == 'q':
                st.q += ctx.uf('pre', list(st.q.ravel(order='F')) + [st.t], 1)[0]
        s.before_step = pre
    q0 = sol.state.q.copy()
    s.max_steps = attempts
    try:
        s.evolve_to_time(sol, ctx.const(5000))
    except Exception as e:
        if type(e) is not Exception:
            raise
    q, t, acc = q0, ctx.const(0), 0
    ctx.check('every attempt is judged once', len(starts) == len(ends))
    for k, ((qs, ts), (a, qe, te, dt)) in enumerate(zip(starts, ends)):
        if hook == 'q':
            q1 = q + ctx.uf('pre', list(q.ravel(order='F')) + [t], 1)[0]
            ctx.check_eq('an attempt starts from the last kept solution and the user hook', qs, q1)
        else:
            ctx.check_eq('an attempt starts from the last kept solution', qs, q)
        ctx.check_eq('an attempt starts at the last kept time', ts, t)
        if a:
            q, t, acc = qe, t + dt, acc + 1
    ctx.check_eq('the run ends with the last kept solution', sol.state.q, q)
    ctx.check_eq('the run ends at the last kept time', sol.t, t)
    ctx.check('the number of steps is the number of kept ones', s.status['numsteps'] == acc)
    ctx.reach('%d of %d kept' % (acc, len(ends)))


def cases(tier):
    out = []
    t = tier != 'quick'
    for var in (True, False):
        for src in (0, 1, 2):
            out.append(dict(_h='trace', kind='classic', variable=var, source=src, attempts=3 if not t else 4))
        for integ in ('Euler', 'SSP33'):
            out.append(dict(_h='trace', kind='sharpclaw', integrator=integ, variable=var, attempts=2, source=0 if integ == 'Euler' else 1))
    out.append(dict(_h='trace', kind='sharpclaw', integrator='SSP104', attempts=1))
    for bad in (2, 5):                           # step discarded afterwards by the multistep condition
        out.append(dict(_h='retract', lmm_steps=4, steps=bad + 2, bad=bad, reject=bad == 2))
    out.append(dict(_h='rerun', kind='classic'))
    out.append(dict(_h='rerun', kind='sharpclaw'))
    for src in (0, 1, 2):
        out.append(dict(_h='series', kind='classic', source=src, attempts=3 if not t else 4, hook=src == 1))
        out.append(dict(_h='series', kind='classic', source=src, attempts=3, rebind=True))
        out.append(dict(_h='series', kind='classic', source=src, attempts=2 if src else 3, hook='q', rebind=src == 1))
    out.append(dict(_h='series', kind='sharpclaw', attempts=3))
    out.append(dict(_h='series', kind='sharpclaw', integrator='SSP33', attempts=2))
    if t:
        out.append(dict(_h='trace', kind='classic', source=2, attempts=3))
        out.append(dict(_h='trace', kind='sharpclaw', integrator='SSP104', attempts=2, _w=5))
        out.append(dict(_h='trace', kind='sharpclaw', integrator='SSP33', attempts=3, _w=5))
    return out
