"""C04: step-size selection obeys its limits; statistics are true."""
from .common import *

ENCODED = ['Solver.evolve_to_time', 'Solver.get_dt', 'Solver.get_dt_new', 'SharpClawSolver.get_dt_new',
           'ClawSolver.step', 'SharpClawSolver.step', 'CFL.*', 'Solver.accept_reject_step']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'the spatial update is an arbitrary function of the data with an arbitrary wave speed per evaluation; '
               'its Courant number is wave speed times step size']


def BOUNDS(tier):
    return '1 cell, %d step attempts from an arbitrary solver history' % (2 if tier == 'quick' else 3)


def select(ctx, kind, integrator='Euler', attempts=2, run=False):
    s = step_solver(ctx, kind, integrator)
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.real('dt_max', pos=True)
    t0 = ctx.real('t0', nonneg=True)
    ctx.assume(t0 <= 8)
    sol = make_solution(ctx, (1,), t=t0)
    log = []
    env_update(ctx, s, kind, log)
    s.max_steps = attempts
    tend = ctx.real('tend') if run else None
    if run:
        ctx.assume(tend > t0)
        ctx.assume(tend <= 16)
    hist = []           # (dt used, courant numbers, accepted, time before)
    orig = s.accept_reject_step

    def ar(state):
        a = orig(state)
        hist.append((s.dt, [x for x in log], a, sol.t))
        del log[:]
        return a
    s.accept_reject_step = ar
    rates, real = [], s.step

    def step(*a, **kw):
        n, fresh = len(log), s.accept_step
        r = real(*a, **kw)
        if fresh:
            rates.append(log[n][3])          # wave speed at the solution this step starts from
        return r
    s.step = step
    for k in range(1 if run else attempts):
        try:
            s.evolve_to_time(sol, tend)
        except Exception as e:
            if type(e) is not Exception:
                raise
            break
    prev = None
    top = ctx.const(0)
    nacc = 0
    first_rate = None
    for (dt, evals, acc, t) in hist:
        ctx.check('steps are positive', dt > 0)
        if kind == 'classic':
            rates = [x[3] for x in evals]
        else:
            rates = [x[3] for x in evals]
            if first_rate is not None:
                rates = [first_rate] + rates
        if prev is not None:
            pdt, prates, pacc = prev
            if kind == 'classic':
                worst = ctx.max(*[r * pdt for r in prates])
            elif pacc:
                # SharpClaw measures the wave speed at the new data before choosing the step
                worst = rates[0] * pdt
            else:
                worst = ctx.max(*[r * pdt for r in prates])
            if bool(worst > 0):
                want = ctx.min(s.dt_max, pdt * s.cfl_desired / worst)
                ctx.reach('scaled')
            else:
                want = s.dt_max
                ctx.reach('no waves')
            if run:
                near = ctx.Or(t + want > tend, tend - t - want < 1e-14 * t)
                want = ctx.ite(near, tend - t, want)
            ctx.check_eq('the step is the last one scaled to the desired Courant number within its limits', dt, want)
        elif run:
            ctx.check_le('the first step does not pass the end time', t + dt, tend)
        if acc:
            nacc += 1
            top = ctx.max(top, *[r * dt for r in rates])
            first_rate = None
        elif kind != 'classic':
            # evaluations of the rejected attempt count (rescaled) for the retry
            first_rate = ctx.max(*rates)
        prev = (dt, rates, acc)
    ctx.check('the number of steps reported is the number kept', s.status['numsteps'] == nacc)
    if nacc:
        ctx.check_eq('the largest Courant number reported is the true one', s.status['cflmax'], top)
    ctx.reach('history')


def limits(ctx, integrator, lmm_steps, attempts, run=False):
    """multistep methods (start-up and multistep phase): limits and counters"""
    s = step_solver(ctx, 'sharpclaw', integrator)
    s.lmm_steps = lmm_steps
    s.dt = ctx.real('dt0', pos=True)
    s.dt_max = ctx.real('dt_max', pos=True)
    t0 = ctx.real('t0', nonneg=True)
    ctx.assume(t0 <= 8)
    sol = make_solution(ctx, (1,), t=t0)
    log, hist = [], []
    env_update(ctx, s, 'sharpclaw', log, zero=False)
    s.max_steps = attempts
    tend = None
    if run:
        tend = ctx.real('tend')
        ctx.assume(tend > t0)
        ctx.assume(tend <= 16)
    orig = s.accept_reject_step

    def ar(state):
        a = orig(state)
        hist.append((s.dt, s.cfl.get_cached_max(), a, sol.t))
        return a
    s.accept_reject_step = ar
    rates, real = [], s.step

    def step(*a, **kw):
        n, fresh = len(log), s.accept_step
        r = real(*a, **kw)
        if fresh:
            rates.append(log[n][3])          # wave speed at the solution this step starts from
        return r
    s.step = step
    for k in range(1 if run else attempts):
        try:
            s.evolve_to_time(sol, tend)
        except Exception as e:
            if type(e) is not Exception:
                raise
            break
    top = ctx.const(0)
    kept, p, nst = [], int(integrator[-1]), 0
    for k, (dt, cfl, acc, t) in enumerate(hist):
        if len(kept) + 1 >= lmm_steps and not run:
            # multistep phase: strong-stability condition of the method with the steps in use
            # (not for the last step of a run, which may be stretched by rounding to reach the end time)
            H = sum(kept[-(lmm_steps - 1):])
            for r in rates[len(kept) - lmm_steps + 1:len(kept) + 1]:
                fe = s.cfl_max / (s.sspcoeff * r)
                ctx.check_le('the step satisfies the strong-stability condition of the multistep method', dt * H, (H - (p - 1) * dt) * fe)
            nst += 1
        if acc:
            kept.append(dt)
        ctx.check('steps are positive', dt > 0)
        if k:
            ctx.check_le('the step does not exceed the maximum step', dt, s.dt_max)
        if run:
            ctx.check_le('the step does not pass the end time', t + dt, tend)
        if acc:
            top = ctx.max(top, cfl)
    nacc = len([1 for x in hist if x[2]])
    ctx.check('the number of steps reported is the number kept', s.status['numsteps'] == nacc)
    if nacc:
        ctx.check_eq('the largest Courant number reported is the true one', s.status['cflmax'], top)
    ctx.reach('history' + (' with %d multistep steps' % nst if nst else ''))


def cases(tier):
    n = 3 if tier == 'quick' else 4
    out = []
    for run in (False, True):
        out.append(dict(_h='select', kind='classic', attempts=n, run=run, _w=3))
        out.append(dict(_h='select', kind='sharpclaw', attempts=n, run=run, _w=3))
        out.append(dict(_h='select', kind='sharpclaw', integrator='SSP33', attempts=2, run=run))
    out.append(dict(_h='limits', integrator='SSPLMMk2', lmm_steps=3, attempts=4, _w=4))
    out.append(dict(_h='limits', integrator='SSPLMMk2', lmm_steps=3, attempts=3 if tier == 'quick' else 4, run=True, _w=4))
    out.append(dict(_h='limits', integrator='SSPLMMk3', lmm_steps=4, attempts=5, _w=6))
    if tier != 'quick':
        out.append(dict(_h='select', kind='sharpclaw', integrator='SSP33', attempts=3, run=True))
    return out
