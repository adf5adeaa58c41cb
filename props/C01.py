"""C01: evolving to a requested time arrives there, or raises."""
from .common import *

ENCODED = ['Solver.evolve_to_time', 'Solver.accept_reject_step', 'Solver.get_dt', 'Solver.get_dt_new',
           'SharpClawSolver.get_dt_new', 'ClawSolver.step', 'SharpClawSolver.step (Euler)', 'CFL.*', 'Solution.t']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'the hyperbolic update is an arbitrary environment: it returns any Courant number >= 0 '
               'that is proportional to the step actually taken or not',
               '0 < desired Courant number <= maximum Courant number, 0 < first step, 0 < maximum step']
def BOUNDS(tier):
    return 'at most %d time steps per call, up to 2 calls; 1 cell' % (3 if tier == 'quick' else 4)


def _solver(ctx, kind, maxsteps):
    P = pyclaw()
    if kind == 'classic':
        s = P.ClawSolver1D(norp())
    else:
        s = P.SharpClawSolver1D(norp())
        s.time_integrator = 'Euler'
    s.kernel_language = 'Python'
    s.all_bcs = P.BC.periodic
    cm = ctx.real('cfl_max', pos=True)
    cd = ctx.real('cfl_des', pos=True)
    ctx.assume(cd <= cm)
    s.cfl_max, s.cfl_desired = cm, cd
    s.dt_max = ctx.real('dt_max', pos=True)
    s.dt = ctx.real('dt0', pos=True)
    s.max_steps = maxsteps
    return s, cm, cd


def _drive(ctx, s, kind, sol, log):
    """Replace the spatial update by an arbitrary one."""
    cnt = [0]
    def cfl():
        cnt[0] += 1
        if ctx.boolean('zero%d' % cnt[0]):
            return ctx.const(0)
        return ctx.real('cfl%d' % cnt[0], pos=True)
    if kind == 'classic':
        def hyp(solution):
            c = cfl()
            s.cfl.update_global_max(c)
        s.step_hyperbolic = hyp
    else:
        def dq(state):
            s.cfl.update_global_max(cfl())
            return state.q * 0
        s.dq = dq
    def wg(solution):
        log.append(('acc', solution.t, s.dt))
    s.write_gauge_values = wg
    s.before_step = lambda sv, st: log.append(('try',))


def arrive(ctx, kind, calls, maxsteps, used=False):
    s, cm, cd = _solver(ctx, kind, maxsteps)
    t0 = ctx.real('t0')
    sol = make_solution(ctx, (1,), t=t0)
    log = []
    _drive(ctx, s, kind, sol, log)
    if used:
        # arbitrary state left by an earlier history: step size, Courant number
        # of the last accepted step, counters
        s.setup(sol)
        s.dt_old = ctx.real('dt_before', pos=True)
        s.cfl.set_global_max(ctx.const(0) if ctx.boolean('zero_before') else ctx.real('cfl_before', pos=True))
        ctx.assume(s.cfl.get_cached_max() <= cm)
        s.status['numsteps'] = 7
    for k in range(calls):
        tend = ctx.real('tend%d' % k)
        ts = sol.t
        del log[:]
        n0 = s.status['numsteps']
        try:
            ctx.run('evolving to an earlier or equal time must not fail', s.evolve_to_time, sol, tend, allow=(Exception,))
        except Exception as e:
            if type(e) is not Exception:
                raise
            # only the documented give-up (too many steps) is allowed
            ctx.check('raises only when the step budget is used up',
                      len([x for x in log if x[0] == 'try']) == maxsteps)
            ctx.check_le('never overshoots the requested time', sol.t, tend)
            ctx.reach('gave up')
            return
        acc = [x for x in log if x[0] == 'acc']
        if bool(tend > ts):
            ctx.check_eq('arrives exactly at the requested time', sol.t, tend)
            ctx.reach('arrived')
        else:
            ctx.check('no step is taken when already there', len(acc) == 0)
            ctx.check_eq('time unchanged when already there', sol.t, ts)
            ctx.reach('already there')
        prev = ts
        for (_, t, dt) in acc:
            ctx.check('time moves forward', t > prev)
            ctx.check_le('never overshoots the requested time', t, tend)
            ctx.check_eq('time advances by the step size', t, prev + dt)
            prev = t
        ctx.check_eq('time advances only by accepted steps', sol.t, prev)
        ctx.check('steps are counted', s.status['numsteps'] == n0 + len(acc))


def one_step(ctx, kind):
    """tend omitted: exactly one attempt."""
    s, cm, cd = _solver(ctx, kind, 10)
    t0 = ctx.real('t0')
    sol = make_solution(ctx, (1,), t=t0)
    log = []
    _drive(ctx, s, kind, sol, log)
    for k in range(2):
        tb = sol.t
        del log[:]
        ctx.run('single steps must not fail', s.evolve_to_time, sol)
        acc = [x for x in log if x[0] == 'acc']
        ctx.check('one step at most', len(acc) <= 1)
        if acc:
            ctx.check_eq('single step advances by dt', sol.t, tb + acc[0][2])
        else:
            ctx.check_eq('rejected single step keeps the time', sol.t, tb)
    ctx.reach('done')


def cases(tier):
    n = 2 if tier == 'quick' else 3
    out = []
    for kind in ('classic', 'sharpclaw'):
        out.append(dict(_h='arrive', kind=kind, calls=1, maxsteps=3 if kind == 'classic' else n, _w=5))
        out.append(dict(_h='arrive', kind=kind, calls=1, maxsteps=n, used=True, _w=9))
        out.append(dict(_h='arrive', kind=kind, calls=2, maxsteps=1, _w=8))
        out.append(dict(_h='one_step', kind=kind))
    if tier == 'thorough':
        out.append(dict(_h='arrive', kind='classic', calls=2, maxsteps=2, _w=9))
        out.append(dict(_h='arrive', kind='classic', calls=1, maxsteps=4, _w=9))
    return out
