"""C08: the 1D step is the high-resolution wave-propagation method."""
from .kcommon import *

ENCODED = ['step1 (classic/step1.f90)', 'limiter (classic/limiter.f90)', 'philim (classic/philim.f90)',
           'ClawSolver1D.step_hyperbolic', 'ClawSolver._set_mthlim', 'ClawSolver._set_method', 'limiters.tvd.limit', 'tvd limiter functions 1-5',
           'Solver._apply_bcs', 'State.get_qbc_from_q', 'State.set_q_from_qbc']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'Riemann solver: an arbitrary function from the two states (and auxiliary values) to waves, speeds and fluctuations',
               'capacity values positive; in f-wave form wave speeds nonzero (the sign of a zero speed has no documented meaning)']
EXTS = ['classic1']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return '%s cells, 1-2 equations, 1-2 waves, one step; limiters 0-5' % ('2-3' if tier == 'quick' else '2-5')


def phi(ctx, k, r):
    """documented limiter functions"""
    if k == 1:
        return ctx.max(0, ctx.min(1, r))
    if k == 2:
        return ctx.max(0, ctx.min(1, 2 * r), ctx.min(2, r))
    if k == 3:
        return (r + ctx.abs(r)) / (1 + ctx.abs(r))
    if k == 4:
        return ctx.max(0, ctx.min((1 + r) / 2, 2, 2 * r))
    return r


def reference(ctx, qbc, auxbc, ng, mx, dtdx, sols, order, lim, fwave):
    """textbook update of the interior; sols[i] = Riemann solution between cells i-1 and i"""
    ne = qbc.shape[0]
    nw = len(lim)
    lo, hi = ng, ng + mx            # interior cells lo..hi-1, faces lo..hi
    new = [[qbc[m, i] for m in range(ne)] for i in range(qbc.shape[1])]
    for i in range(lo, hi):
        for m in range(ne):
            new[i][m] = qbc[m, i] - dtdx[i] * (sols[i][3][m] + sols[i + 1][2][m])
    cfl = ctx.const(0)
    for i in range(lo, hi + 1):
        for k in range(nw):
            s = sols[i][1][k]
            cfl = ctx.max(cfl, dtdx[i] * s, -dtdx[i - 1] * s)
    if order == 2:
        F = {}
        for i in range(lo, hi + 1):
            f = [ctx.const(0)] * ne
            ave = (dtdx[i - 1] + dtdx[i]) / 2
            for k in range(nw):
                w, s = sols[i][0][k], sols[i][1][k]
                if lim[k]:
                    n2 = sum([x * x for x in w], ctx.const(0))
                    if n2 != 0:
                        up = sols[i - 1] if s > 0 else sols[i + 1]
                        r = sum([x * y for x, y in zip(w, up[0][k])], ctx.const(0)) / n2
                        p = phi(ctx, lim[k], r)
                        w = [p * x for x in w]
                a = ctx.abs(s)
                c = (1 if s > 0 else -1) if fwave else a
                f = [y + c * (1 - a * ave) * x / 2 for x, y in zip(w, f)]
            F[i] = f
        for i in range(lo, hi):
            for m in range(ne):
                new[i][m] = new[i][m] - dtdx[i] * (F[i + 1][m] - F[i][m])
    return np.array([[new[i][m] for i in range(lo, hi)] for m in range(ne)], dtype=qbc.dtype), cfl


def formula(ctx, lang, mx, ne, nw, order, lim, fwave, capa, bc='extrap', num_aux=0, icapa=0, ng=2, free=False, signs=False):
    if signs:                # waves and speeds of known sign (fewer branches)
        ctx.signs()
        solve = general_rp(ctx, ne, nw, signs=['+', '-'][:nw], wave_signs=['+', '-'][:nw] * ne)
    else:
        solve = general_rp(ctx, ne, nw)
    if fwave:
        base = solve
        def solve(*a):
            o = base(*a)
            for x in o[1]:
                ctx.assume(x != 0)
            return o
    na = max(num_aux, icapa + 1 if capa else 0)
    if lang == 'Fortran':
        rp = RP(ctx, 1, solve)
    else:
        rp = py_rp(ctx, solve, nw)
    s = solver(ctx, 'classic', 1, rp, ne, nw, bc=bc, language=lang, order=order, limiters=lim, fwave=fwave)
    dx, dt = var(ctx, 'dx', pos=True), var(ctx, 'dt', pos=True)
    aux = arr(ctx, 'aux', (na, mx)) if na else None
    if capa:
        cp = arr(ctx, 'capa', (mx,), pos=True)
        aux[icapa] = cp
    sol = make_solution(ctx, (mx,), ne, na, delta=[dx], q=arr(ctx, 'q', (ne, mx)), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    if isinstance(s.limiters, int):
        lims = [s.limiters] * nw
    else:
        lims = list(s.limiters)
    grab = {}
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        if free:             # arbitrary ghost values
            ghosts = list(range(ng)) + list(range(ng + mx, mx + 2 * ng))
            s.qbc[:, ghosts] = arr(ctx, 'ghost', (ne, 2 * ng))
            if na:
                s.auxbc[:, ghosts] = arr(ctx, 'ghostaux', (na, 2 * ng))
            if capa:
                s.auxbc[icapa, ghosts] = arr(ctx, 'ghostcapa', (2 * ng,), pos=True)
        grab['q'], grab['aux'] = s.qbc.copy(), (None if s.auxbc is None or not na else s.auxbc.copy())
    s._apply_bcs = bcs
    q, cfl = hyp_step(ctx, s, sol, dt)
    qbc, auxbc = grab['q'], grab['aux']
    n = mx + 2 * ng
    dtdx = [dt / dx / (auxbc[icapa, i] if capa else 1) for i in range(n)]
    sols = {}
    for i in range(1, n):
        al, ar = ([], []) if not na else (list(auxbc[:, i - 1]), list(auxbc[:, i]))
        sols[i] = solve(1, list(qbc[:, i - 1]), list(qbc[:, i]), al, ar)
    ref, rcfl = reference(ctx, qbc, auxbc, ng, mx, dtdx, sols, order, lims, fwave)
    ctx.check_eq('the step is the wave-propagation formula', q, ref)
    if not free:
        ctx.check_eq('the reported Courant number', cfl, rcfl)
    ctx.reach('step')


def shift(ctx, lang, mx, lim, left):
    """uniform advection at Courant number one"""
    u = -1 if left else 1
    def solve(ixy, L, R, al, ar):
        d = R[0] - L[0]
        c = ctx.const(u)
        return [[d]], [c], [(0 if u > 0 else u) * d], [(u if u > 0 else 0) * d]
    rp = RP(ctx, 1, solve) if lang == 'Fortran' else py_rp(ctx, solve, 1)
    dx = var(ctx, 'dx', pos=True)
    s = solver(ctx, 'classic', 1, rp, 1, 1, language=lang, order=2, limiters=[lim])
    sol = make_solution(ctx, (mx,), 1, delta=[dx], q=arr(ctx, 'q', (1, mx)))
    q0 = sol.state.q.copy()
    q, cfl = hyp_step(ctx, s, sol, dx)
    ctx.check_eq('Courant number one', cfl, 1)
    ctx.check_eq('data are shifted by one cell', q, np.roll(q0, u, axis=1))
    ctx.reach('shifted')


def cases(tier):
    T = tier != 'quick'
    out = []
    for lang in ('Fortran', 'Python'):
        for capa in (False, True):
            for fw in (False, True):
                out.append(dict(_h='formula', lang=lang, mx=3, ne=2, nw=2, order=1, lim=[0, 0], fwave=fw, capa=capa))
                out.append(dict(_h='formula', lang=lang, mx=2, ne=2, nw=2, order=2, lim=[0, 0], fwave=fw, capa=capa, icapa=1 if capa else 0))
                out.append(dict(_h='formula', lang=lang, mx=2, ne=1, nw=1, order=2, lim=[4], fwave=fw, capa=capa, bc='periodic' if fw else 'extrap', _w=3))
        for l in (1, 2, 3, 5):
            out.append(dict(_h='formula', lang=lang, mx=2, ne=1, nw=1, order=2, lim=[l], fwave=False, capa=False, _w=3))
        for lim in ([1, 4], [0, 4], [2, 0], 3):
            out.append(dict(_h='formula', lang=lang, mx=1, ne=1, nw=2, order=2, lim=lim, fwave=False, capa=False, free=True, signs=lang == 'Python', _w=6))
        for capa in (False, True):
            if T or lang == 'Fortran' or not capa:
                out.append(dict(_h='formula', lang=lang, mx=1, ne=2, nw=1, order=2, lim=[4], fwave=False, capa=capa, free=True, _w=6))
        out.append(dict(_h='formula', lang=lang, mx=2, ne=1, nw=1, order=2, lim=[1], fwave=False, capa=True, num_aux=3, icapa=2, _w=3))
        for lim in range(0, 6):
            for left in (False, True):
                out.append(dict(_h='shift', lang=lang, mx=3, lim=lim, left=left))
        if T:
            for l in (1, 2, 3, 4, 5):
                for fw in (False, True):
                    out.append(dict(_h='formula', lang=lang, mx=3, ne=1, nw=1, order=2, lim=[l], fwave=fw, capa=l in (1, 4), _w=8))
            out.append(dict(_h='formula', lang=lang, mx=5, ne=2, nw=2, order=1, lim=[0, 0], fwave=False, capa=True))
            out.append(dict(_h='formula', lang=lang, mx=5, ne=1, nw=1, order=2, lim=[0], fwave=False, capa=True))
            out.append(dict(_h='formula', lang=lang, mx=2, ne=2, nw=2, order=2, lim=[2, 3], fwave=False, capa=False, _w=9))
            for lim in (1, 2, 3, 4):
                out.append(dict(_h='shift', lang=lang, mx=5, lim=lim, left=False, _w=5))
    return out
