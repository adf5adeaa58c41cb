"""C16: time integrators apply their defining method."""
from fractions import Fraction as F
from .common import *

ENCODED = ['SharpClawSolver.step', 'SharpClawSolver.ssp22', 'SharpClawSolver.ssp104', 'SharpClawSolver.update_saved_values',
           'SharpClawSolver.check_3rd_ord_cond', 'SharpClawSolver.get_dt_new', 'SharpClawSolver.accept_reject_step',
           'SharpClawSolver._allocate_registers', 'SharpClawSolver.dq', 'Solver.get_dt', 'Solver.evolve_to_time', 'State.__deepcopy__']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'the right-hand side is an arbitrary function of the stage values and the stage time']


def BOUNDS(tier):
    return 'two cells; one to %d consecutive steps with arbitrary (varying) step sizes; multistep methods up to %d stored steps; general Runge-Kutta up to %d stages' % \
        ((6, 5, 3) if tier == 'quick' else (9, 7, 4))


TABLEAU = {
    'Euler': ([[]], [1]),
    'SSP22': ([[], [1]], [F(1, 2), F(1, 2)]),
    'SSP33': ([[], [1], [F(1, 4), F(1, 4)]], [F(1, 6), F(1, 6), F(2, 3)]),
    'SSP104': ([[F(1, 6)] * i for i in range(5)] + [[F(1, 15)] * 5 + [F(1, 6)] * (i - 5) for i in range(5, 10)], [F(1, 10)] * 10),
}


def _rhs(ctx, q, t):
    k = ctx.uf('rhs', list(q.ravel(order='F')) + [t], q.size)
    return np.array(list(k), dtype=q.dtype).reshape(q.shape, order='F')


def _const(ctx, x):
    return ctx.const(x) if not isinstance(x, F) else ctx.const(x.numerator) / ctx.const(x.denominator)


def _ref_rk(ctx, A, b, c, q, t, dt):
    ks = []
    for i, row in enumerate(A):
        y = q.copy()
        for a, k in zip(row, ks):
            y = y + (a if not isinstance(a, (int, F)) else _const(ctx, a)) * dt * k
        ci = c[i] if c is not None else sum([_const(ctx, a) for a in row], ctx.const(0))
        ks.append(_rhs(ctx, y, t + ci * dt))
    out = q.copy()
    for w, k in zip(b, ks):
        out = out + (w if not isinstance(w, (int, F)) else _const(ctx, w)) * dt * k
    return out


def _setup(ctx, integrator, variable=True, before=False):
    P = pyclaw()
    s = P.SharpClawSolver1D(norp())
    s.kernel_language = 'Python'
    s.num_eqn, s.num_waves = 1, 1
    s.all_bcs = P.BC.periodic
    s.time_integrator = integrator
    s.dt_variable = variable
    s.cfl_max, s.cfl_desired = ctx.const(1), ctx.const(0.5)
    s.dt_max = 1e30
    return s


def _free_dt(ctx, s, log, names='dt'):
    """step sizes become arbitrary: whatever the selection gives is replaced by a fresh value"""
    orig = s.get_dt
    def get_dt(*a, **k):
        orig(*a, **k)
        n = len(log)
        s.dt = ctx.real('%s%d' % (names, n), pos=True)
        log.append(s.dt)
    s.get_dt = get_dt


def rk(ctx, integrator, steps=2, reject=False, stages=None, before=False):
    s = _setup(ctx, integrator)
    A, b, c = None, None, None
    if integrator == 'RK':
        m = stages
        s.a = np.array([[ctx.real('a%d%d' % (i, j)) if j < i else ctx.const(0) for j in range(m)] for i in range(m)], dtype=object if ctx.symbolic else float)
        s.b = np.array([ctx.real('b%d' % i) for i in range(m)], dtype=object if ctx.symbolic else float)
        s.c = np.array([ctx.const(0)] + [ctx.real('c%d' % i) for i in range(1, m)], dtype=object if ctx.symbolic else float)
        A = [[s.a[i, j] for j in range(i)] for i in range(m)]
        b, c = list(s.b), list(s.c)
    else:
        A, b = TABLEAU[integrator]
    sol = make_solution(ctx, (2,), t=ctx.real('t0'))
    dts = []
    _free_dt(ctx, s, dts)
    s.dt = ctx.real('dt_first', pos=True)
    stagelog = []
    def dq(state):
        stagelog.append(state)
        s.cfl.update_global_max(ctx.const(0.25))
        return s.dt * _rhs(ctx, state.q, state.t)
    s.dq_hyperbolic = dq
    seen = []
    if before:
        # every stage evaluation must be preceded by a before_step call on the same (q, t)
        s.call_before_step_each_stage = True
        def bs(solver, state):
            seen.append((state.q.copy(), state.t))
        s.before_step = bs
        def dq2(state):
            ctx.check('before_step is called before each stage', len(seen) > 0)
            if seen:
                q, t = seen[-1]
                ctx.check_eq('before_step sees the stage value that is evaluated', q, state.q)
                ctx.check_eq('before_step sees the stage time that is evaluated', t, state.t)
            ctx.reach('stage evaluated after the hook')
            del seen[:]
            return dq(state)
        s.dq_hyperbolic = dq2
    rej = [0]
    if reject:
        orig = s.accept_reject_step
        def ar(state):
            rej[0] += 1
            return rej[0] != reject
        s.accept_reject_step = ar
    for k in range(steps):
        q0, t0 = sol.state.q.copy(), sol.t
        n0 = s.status['numsteps']
        ctx.run('a step must not fail', s.evolve_to_time, sol)
        if s.status['numsteps'] == n0:
            ctx.check_eq('a rejected step leaves the data', sol.state.q, q0)
            continue
        ctx.check_eq('time advances by the step', sol.t, t0 + dts[-1])
        ref = _ref_rk(ctx, A, b, c, q0, t0, dts[-1])
        ctx.check_eq('the step is the defining Runge-Kutta method', sol.state.q, ref)
    ctx.reach('stepped')


def order(ctx, integrator, p):
    """order conditions of the built-in methods: a polynomial of degree p in time is
    integrated exactly over one step of arbitrary size, and a linear problem to order p"""
    s = _setup(ctx, integrator)
    lam = ctx.real('lam')
    co = [ctx.real('c%d' % i) for i in range(p + 1)]
    sol = make_solution(ctx, (1,), q=np.array([[co[0]]], dtype=object) if ctx.symbolic else np.array([[co[0]]]), t=ctx.const(0))
    s.dt = ctx.real('dt', pos=True)
    def dq(state):
        s.cfl.update_global_max(ctx.const(0.25))
        r = ctx.const(0)
        for i in range(1, p + 1):
            r = r + i * co[i] * state.t ** (i - 1)
        return s.dt * r + 0 * state.q
    s.dq_hyperbolic = dq
    s.evolve_to_time(sol)
    want = ctx.const(0)
    for i in range(p + 1):
        want = want + co[i] * s.dt ** i
    ctx.check_eq('polynomials up to the order are integrated exactly', sol.state.q[0, 0], want)
    ctx.reach('polynomial')
    # linear problem: Taylor polynomial of exp up to the order
    s2 = _setup(ctx, integrator)
    sol2 = make_solution(ctx, (1,), q=np.array([[ctx.const(1)]], dtype=object) if ctx.symbolic else np.array([[1.0]]), t=ctx.const(0))
    s2.dt = ctx.const(1)
    s2.dq_hyperbolic = lambda state: (s2.cfl.update_global_max(ctx.const(0.25)), s2.dt * lam * state.q)[1]
    s2.evolve_to_time(sol2)
    if ctx.symbolic:
        poly = sol2.state.q[0, 0]
        # value at lam and divided differences would hide terms: compare coefficients
        from vlib import sym
        cf = sym.poly_coeffs(poly, lam)
        fact = 1
        for k in range(p + 1):
            fact *= max(k, 1)
            ctx.check('linear problems are integrated to the order', cf.get(k, 0) == F(1, fact) if abs(F(cf.get(k, 0)) - F(1, fact)) > F(1, 10**12) else True)
    else:
        # numerical derivative-free check of the same statement
        import numpy as _np
        xs = _np.linspace(-1, 1, 13)
        vals = []
        for x in xs:
            s3 = _setup(ctx, integrator)
            sol3 = make_solution(ctx, (1,), q=np.array([[1.0]]), t=0.0)
            s3.dt = 1.0
            s3.dq_hyperbolic = lambda state: (s3.cfl.update_global_max(0.25), s3.dt * x * state.q)[1]
            s3.evolve_to_time(sol3)
            vals.append(sol3.state.q[0, 0])
        cs = _np.polynomial.polynomial.polyfit(xs, vals, 10)
        fact = 1
        for k in range(p + 1):
            fact *= max(k, 1)
            ctx.check('linear problems are integrated to the order', abs(cs[k] - 1 / fact) < 1e-7)


def multistep(ctx, integrator, lmm_steps, steps, reject=0, cond=False):
    """variable-step SSP multistep: exact for polynomials up to the order of the method,
    for arbitrary step-size histories"""
    p = int(integrator[-1])
    s = _setup(ctx, integrator)
    s.lmm_steps = lmm_steps
    t0 = ctx.real('t0')
    deg = p if p == 2 else 3
    co = [ctx.real('c%d' % i) for i in range(deg + 1)]
    def poly(t):
        return sum([co[i] * t ** i for i in range(1, deg + 1)], co[0])
    def dpoly(t):
        return sum([i * co[i] * t ** (i - 1) for i in range(2, deg + 1)], co[1])
    sol = make_solution(ctx, (1,), q=np.array([[poly(t0)]], dtype=object) if ctx.symbolic else np.array([[poly(t0)]]), t=t0)
    dts = []
    _free_dt(ctx, s, dts)
    s.dt = ctx.real('dt_first', pos=True)
    def dq(state):
        s.cfl.update_global_max(ctx.const(0.25))
        return s.dt * dpoly(state.t) + 0 * state.q
    s.dq_hyperbolic = dq
    if p == 3:
        # the second-order starting method is not exact for cubics: start from exact values
        n = [0]
        def bs(solver, state):
            if solver.status['numsteps'] < lmm_steps:
                state.q[0, 0] = poly(state.t)
        s.before_step = bs
    cnt = [0]
    if reject:
        def ar(state):
            cnt[0] += 1
            return cnt[0] != reject
        s.accept_reject_step = ar
    tries = 0
    while s.status['numsteps'] < steps and tries < steps + 2:
        tries += 1
        n0 = s.status['numsteps']
        t = sol.t
        ctx.run('a step must not fail', s.evolve_to_time, sol)
        if s.status['numsteps'] == n0:
            ctx.check_eq('a rejected step keeps the time', sol.t, t)
            continue
        ctx.check_eq('time advances by the step', sol.t, t + dts[-1])
        if p == 2 or s.status['numsteps'] >= lmm_steps:
            ctx.check_eq('the multistep update is exact for polynomials up to its order', sol.state.q[0, 0], poly(sol.t))
            ctx.reach('exact')
            # continue from the (equal) closed form
            sol.state.q[0, 0] = poly(sol.t)
    ctx.reach('stepped')


def retract(ctx, lmm_steps, steps, bad, reject=False):
    """third-order SSP multistep with its a-posteriori condition: when the condition
    fails after step `bad`, that step is discarded and retaken from the values before it"""
    s = _setup(ctx, 'SSPLMMk3')
    s.lmm_steps = lmm_steps
    s.check_lmm_cond = True
    sol = make_solution(ctx, (1,), t=ctx.real('t0'))
    dts = []
    _free_dt(ctx, s, dts)
    s.dt = ctx.real('dt_first', pos=True)
    def dq(state):
        s.cfl.update_global_max(ctx.const(0.25))
        return s.dt * _rhs(ctx, state.q, state.t)
    s.dq_hyperbolic = dq
    calls = [0]
    def cond(state, step_index, dtFE):
        calls[0] += 1
        return calls[0] != bad
    s.check_3rd_ord_cond = cond
    rej = [0]
    def ar(state):
        rej[0] += 1
        return not (reject and rej[0] == bad + 1)
    s.accept_reject_step = ar
    past = [(sol.state.q.copy(), sol.t)]         # kept steps
    A, b = TABLEAU['SSP22']
    for k in range(steps):
        ctx.run('a step must not fail', s.evolve_to_time, sol)
        if k == bad:                             # this attempt found the condition violated
            past.pop()
            ctx.reach('discarded')
        if not s.accept_step:
            ctx.check_eq('a rejected attempt leaves the kept values', sol.state.q, past[-1][0])
            ctx.check_eq('a rejected attempt leaves the kept time', sol.t, past[-1][1])
            ctx.reach('rejected')
            continue
        q0, t0 = past[-1]
        ctx.check_eq('the step starts from the kept time', sol.t, t0 + dts[-1])
        if len(past) < lmm_steps:
            ctx.check_eq('starting values come from the SSP22 method', sol.state.q, _ref_rk(ctx, A, b, None, q0, t0, dts[-1]))
        past.append((sol.state.q.copy(), sol.t))
        ctx.check('steps are counted', s.status['numsteps'] == len(past) - 1)
    ctx.reach('stepped')


def lmm(ctx, m, steps):
    """general linear multistep method with constant steps"""
    s = _setup(ctx, 'LMM', variable=False)
    s.alpha = [ctx.real('al%d' % i) for i in range(m)]
    s.beta = [ctx.real('be%d' % i) for i in range(m)]
    s.lmm_steps = m
    dt = s.dt = ctx.real('dt', pos=True)
    t0 = ctx.real('t0')
    sol = make_solution(ctx, (2,), t=t0)
    s.dq_hyperbolic = lambda st: (s.cfl.update_global_max(ctx.const(0.25)), s.dt * _rhs(ctx, st.q, st.t))[1]
    qs = [sol.state.q.copy()]
    for k in range(steps):
        ctx.run('a step must not fail', s.evolve_to_time, sol)
        if len(qs) < m:
            A, b = TABLEAU['SSP104']
            ref = _ref_rk(ctx, A, b, None, qs[-1], t0 + k * dt, dt)
            ctx.check_eq('starting values come from the SSP104 method', sol.state.q, ref)
        else:
            ref = 0 * qs[-1]
            for i in range(m):
                j = k - m + 1 + i
                ref = ref + s.alpha[i] * qs[j] + s.beta[i] * dt * _rhs(ctx, qs[j], t0 + j * dt)
            ctx.check_eq('the step is the given multistep method', sol.state.q, ref)
            ctx.reach('multistep')
        qs.append(sol.state.q.copy())
        ctx.check_eq('time', sol.t, t0 + (k + 1) * dt)


def cases(tier):
    out = []
    T = tier != 'quick'
    for integ in ('Euler', 'SSP22', 'SSP33', 'SSP104'):
        out.append(dict(_h='rk', integrator=integ, steps=2))
        out.append(dict(_h='rk', integrator=integ, steps=2, reject=1))
        out.append(dict(_h='rk', integrator=integ, steps=3 if integ != 'SSP104' else 2, reject=2))
        out.append(dict(_h='rk', integrator=integ, steps=1, before=True))
        out.append(dict(_h='order', integrator=integ, p={'Euler': 1, 'SSP22': 2, 'SSP33': 3, 'SSP104': 4}[integ]))
    for m in (2, 3) + ((4,) if T else ()):
        out.append(dict(_h='rk', integrator='RK', stages=m, steps=2 if m < 4 else 1, _w=3))
        out.append(dict(_h='rk', integrator='RK', stages=m, steps=1, before=True))
    for k in (3, 4) + ((5, 6) if T else ()):
        out.append(dict(_h='multistep', integrator='SSPLMMk2', lmm_steps=k, steps=k + 2, _w=4))
        out.append(dict(_h='multistep', integrator='SSPLMMk2', lmm_steps=k, steps=k + 1, reject=k, _w=4))
    for k in (4, 5):
        out.append(dict(_h='multistep', integrator='SSPLMMk3', lmm_steps=k, steps=k + (2 if T else 1), _w=6))
    out.append(dict(_h='multistep', integrator='SSPLMMk3', lmm_steps=4, steps=5, reject=2, _w=6))
    for bad in (1, 2):
        for rj in (False, True):
            out.append(dict(_h='retract', lmm_steps=4, steps=bad + 2, bad=bad, reject=rj))
    for bad in (4, 5):                           # after the starting steps
        out.append(dict(_h='retract', lmm_steps=4, steps=bad + 2, bad=bad, _w=4))
    for m in (2, 3) + ((4,) if T else ()):
        out.append(dict(_h='lmm', m=m, steps=m + 2))
    return out
