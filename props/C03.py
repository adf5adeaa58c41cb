"""C03: fixed-step runs take exactly the given steps or refuse."""
from vlib import fp
from .common import *

ENCODED = ['Solver.evolve_to_time', 'Solver.accept_reject_step', 'SharpClawSolver.accept_reject_step',
           'Solver.get_dt', 'ClawSolver.step', 'SharpClawSolver.step', 'CFL.*', 'Solution.t']
ASSUMPTIONS = ['real arithmetic, except that the times of consecutive steps are also checked in machine arithmetic (any start time in [0, 8], step sizes 0.1 and 0.7)',
               'the spatial update is an arbitrary function of the data with an arbitrary wave speed per evaluation',
               'a step "divides" the interval if a whole number of steps matches it to one part in 1e5 (the documented test), '
               'and does not if no whole number of steps matches it to one part in 1e4']


def BOUNDS(tier):
    return 'intervals of at most %s steps, any step size and time scale; up to 2 calls' % (5.4 if tier == "quick" else 8.4)


def fixed(ctx, kind, integrator='Euler', nmax=3, calls=1, big=False):
    s = step_solver(ctx, kind, integrator, variable=False)
    dt = s.dt = ctx.real('dt', pos=True)
    ctx.assume(dt <= 1)
    sol = make_solution(ctx, (1,), t=ctx.real('t0', nonneg=True))
    ctx.assume(sol.t <= 4)
    log = []
    env_update(ctx, s, kind, log, zero=False)
    times = []
    orig = s.write_gauge_values
    s.write_gauge_values = lambda so: (times.append(so.t), orig(so))
    for c in range(calls):
        t0, q0 = sol.t, sol.state.q.copy()
        tend = ctx.real('tend%d' % c)
        T = tend - t0
        ctx.assume(T <= (nmax + 0.4) * dt)
        ctx.assume(T >= -4)
        n0 = s.status['numsteps']
        del times[:]
        del log[:]
        raised = None
        try:
            ctx.run('only documented exceptions', s.evolve_to_time, sol, tend, allow=(Exception,))
        except Exception as e:
            if type(e) is not Exception:
                raise
            raised = str(e)
        ctx.check_eq('the step size is never changed', s.dt, dt)
        for k, t in enumerate(times):
            ctx.check_eq('the n-th step ends n steps after the start', t, t0 + (k + 1) * dt)
        ctx.check('kept steps are counted', s.status['numsteps'] == n0 + len(times))
        if raised is not None and not log:
            # refused before doing anything
            ctx.check('a reached or past end time is not an error', T > 0)
            for n in range(1, nmax + 1):
                ctx.check('a step that divides the interval is not refused', ctx.abs(n * dt - T) > 1e-5 * T)
            ctx.check_eq('a refused run changes nothing', sol.state.q, q0)
            ctx.check_eq('a refused run keeps the time', sol.t, t0)
            ctx.reach('refused')
            return
        if raised is not None:
            # only for a Courant number above the maximum
            over = log[-1]
            bad = ctx.Or(*[x[3] * dt > s.cfl_max for x in log])
            ctx.check('gives up only because of the Courant number', bad)
            ctx.reach('gave up')
            return
        for x in log:
            ctx.check_le('kept steps respect the maximum Courant number', x[3] * dt, s.cfl_max)
        if bool(T <= 0):
            ctx.check('no step when already there', len(log) == 0)
            ctx.reach('already there')
        else:
            n = len(times)
            ctx.check('at least one step', n > 0)
            ctx.check('ends at the requested time', ctx.abs(n * dt - T) <= 1e-4 * T)
            ctx.check_eq('ends after whole steps', sol.t, t0 + n * dt)
            ctx.reach('arrived')


def single(ctx, kind, integrator='Euler'):
    s = step_solver(ctx, kind, integrator, variable=False)
    dt = s.dt = ctx.real('dt', pos=True)
    sol = make_solution(ctx, (1,), t=ctx.real('t0'))
    log = []
    env_update(ctx, s, kind, log, zero=False)
    for k in range(2):
        t0 = sol.t
        try:
            s.evolve_to_time(sol)
        except Exception as e:
            if type(e) is not Exception:
                raise
            ctx.check('gives up only because of the Courant number', ctx.Or(*[x[3] * dt > s.cfl_max for x in log]))
            return
        ctx.check_eq('a single fixed step advances by exactly dt', sol.t, t0 + dt)
        ctx.check_eq('the step size is never changed', s.dt, dt)
    ctx.reach('two steps')


def rounding(ctx, kind, n, dt):
    """machine arithmetic: the time after the k-th step is start + k*dt, not a sum that drifts"""
    ctx.fp_feasible = True
    t0 = ctx.double('t0', bound=8.0)
    ctx.assume(t0 >= 0.0)
    P = pyclaw()
    s = (P.ClawSolver1D if kind == 'classic' else P.SharpClawSolver1D)(norp())
    s.kernel_language, s.num_eqn, s.num_waves, s.all_bcs = 'Python', 1, 1, P.BC.periodic
    s.dt_variable, s.dt = False, dt
    end = t0 + n * dt
    tend = Interval(end.z, n * dt) if ctx.symbolic else end
    sol = make_solution(ctx, (1,), q=np.ones((1, 1)), lower=[0.0], delta=[1.0], t=t0)
    times = []
    s.step = lambda *a: None
    s.cfl_max, s.cfl_desired = 1.0, 0.9
    s.cfl.set_global_max(0.5)
    s.write_gauge_values = lambda so: times.append(so.t)
    s._is_set_up = True
    s.evolve_to_time(sol, tend)
    ctx.check('whole number of steps', len(times) == n)
    for k, t in enumerate(times):
        ctx.check('in machine numbers, too, the n-th step ends at start + n*dt', t == t0 + (k + 1) * dt)
    ctx.check('in machine numbers, too, the run ends after whole steps', sol.t == t0 + n * dt)
    ctx.reach('rounding')


class Interval(fp.F64):
    """the end time; its distance from the start is taken without rounding (the step count
    is an integer near the quotient either way)"""
    __slots__ = ('span',)
    def __init__(self, z, span):
        self.z, self.span = z, span
    def __sub__(self, o):
        return self.span


def cases(tier):
    n = 5 if tier == "quick" else 8
    out = []
    for kind in ('classic', 'sharpclaw'):
        out.append(dict(_h='fixed', kind=kind, nmax=n))
        out.append(dict(_h='fixed', kind=kind, nmax=1 if tier == 'quick' else 2, calls=2))
        out.append(dict(_h='single', kind=kind))
    out.append(dict(_h='fixed', kind='sharpclaw', integrator='SSP33', nmax=2))
    out.append(dict(_h='rounding', kind='classic', n=2, dt=0.1))
    out.append(dict(_h='rounding', kind='sharpclaw', n=3, dt=0.7))
    if tier != 'quick':
        out.append(dict(_h='fixed', kind='sharpclaw', integrator='SSP104', nmax=2))
    return out
