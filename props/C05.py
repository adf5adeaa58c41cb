"""C05: source terms act for exactly the accepted step."""
from .common import *

ENCODED = ['ClawSolver.step', 'Solver.evolve_to_time', 'Solver.get_dt', 'Solver.accept_reject_step',
           'SharpClawSolver.dq', 'SharpClawSolver.step', 'SharpClawSolver.ssp104', 'SharpClawSolver.ssp22', 'CFL.*']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'homogeneous update and source term are arbitrary functions of the data and the step size']


def BOUNDS(tier):
    return '2 cells, up to %d steps, Courant number anywhere in [0, maximum] (equality included)' % (2 if tier == 'quick' else 3)


def _arr(ctx, name, st, extra):
    new = ctx.uf(name, list(st.q.ravel(order='F')) + list(extra), st.q.size)
    return np.array(list(new), dtype=st.q.dtype).reshape(st.q.shape, order='F')


def split(ctx, split, steps, num_dim=1, variable=True, run=False):
    s = step_solver(ctx, 'classic', variable=variable, num_dim=num_dim)
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.real('dt_max', pos=True)
    s.source_split = split
    if num_dim > 1:
        s._is_set_up = True
    sol = make_solution(ctx, (2,) if num_dim == 1 else (1,) * num_dim, t=ctx.const(0))
    n = [0]
    def hyp(solution):
        n[0] += 1
        st = solution.states[0]
        s.cfl.update_global_max(s.dt * ctx.real('rate%d' % n[0], nonneg=True))
        st.q[...] = _arr(ctx, 'hyp', st, [s.dt])
    s.step_hyperbolic = hyp
    durations = []
    def src(solver, state, dt):
        ctx.check('the source term is given the solver and the state being evolved', solver is s and state is sol.states[0])
        durations.append(dt)
        state.q[...] = _arr(ctx, 'src', state, [dt])
    s.step_source = src
    for k in range(steps):
        ref = sol.state.__class__(sol.domain, 1)
        ref.q[...] = sol.state.q
        n0 = s.status['numsteps']
        del durations[:]
        try:
            s.evolve_to_time(sol)
        except Exception as e:
            if type(e) is not Exception or variable:
                raise
            return
        if s.status['numsteps'] == n0:
            ctx.reach('rejected')
            continue
        dt = s.dt
        if split == 2:
            ref.q[...] = _arr(ctx, 'src', ref, [dt / 2])
        ref.q[...] = _arr(ctx, 'hyp', ref, [dt])
        ref.q[...] = _arr(ctx, 'src', ref, [dt / 2 if split == 2 else dt])
        ctx.check_eq('source durations of an accepted step sum to the step', sum(durations), dt)
        ctx.check_eq('an accepted step is the documented splitting', sol.state.q, ref.q)
        ctx.reach('accepted')


def sharp(ctx, integrator, steps=1):
    """The source is part of the right-hand side: the step equals the step of the same
    integrator with the sum as its right-hand side."""
    res = []
    for mode in (0, 1):
        s = step_solver(ctx, 'sharpclaw', integrator)
        s.dt = var(ctx, 'dt0', pos=True)
        s.dt_max = 1e30
        if integrator == 'RK':
            s.a = np.array([[0., 0.], [1., 0.]]); s.b = np.array([.5, .5]); s.c = np.array([0., 1.])
        sol = make_solution(ctx, (2,), q=arr(ctx, 'q', (1, 2)), t=var(ctx, 't0'))
        n = [0]
        def dq(state):
            n[0] += 1
            s.cfl.update_global_max(s.dt * var(ctx, 'rate%d' % n[0], pos=True))
            h = s.dt * _arr(ctx, 'hyp', state, [state.t])
            if mode:
                h = h + s.dt * _arr(ctx, 'src', state, [state.t])
            return h
        s.dq_hyperbolic = dq
        if not mode:
            def src(solver, state, dt):
                ctx.check('the source term is given the solver', solver is s)
                ctx.check_eq('the source is evaluated for the full step', dt, s.dt)
                return dt * _arr(ctx, 'src', state, [state.t])
            s.dq_src = src
        for k in range(steps):
            s.evolve_to_time(sol)
        res.append((sol.state.q.copy(), sol.t))
    ctx.check_eq('the source is part of the right-hand side in every stage', res[0][0], res[1][0])
    ctx.check_eq('same time', res[0][1], res[1][1])
    ctx.reach('compared')


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for sp in (1, 2):
        out.append(dict(_h='split', split=sp, steps=n))
        out.append(dict(_h='split', split=sp, steps=2, variable=False))
        for d in (2, 3):
            out.append(dict(_h='split', split=sp, steps=2, num_dim=d))
    for integ in ('Euler', 'SSP33', 'SSP104', 'RK'):
        out.append(dict(_h='sharp', integrator=integ, steps=2 if integ == 'Euler' or tier != 'quick' and integ != 'SSP104' else 1))
    return out
