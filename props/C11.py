"""C11: dimension-split steps are compositions of 1D sweeps."""
from .kcommon import *
from .C08 import phi

ENCODED = ['step2ds, step3ds, flux2, flux3, limiter, philim (classic/*.f90)', 'ClawSolver2D/3D.step_hyperbolic', 'ClawSolver._set_method / _set_mthlim',
           'Solver._apply_bcs', 'State.get_qbc_from_q / set_q_from_qbc']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'Riemann solver: an arbitrary function of direction, states and auxiliary values; in cases with limiters wave strengths and speeds are positive or negative (one sign per wave family)',
               'boundary values are set once per step, so each sweep also updates the ghost lines the next sweep reads', 'capacity values positive; in f-wave form speeds nonzero']
EXTS = ['classic2', 'classic3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of %s cells, 1-2 equations and waves; order 1 and 2, limiters 0-4, with and without capacity function, wave and f-wave form' % ('2x3, 3x2, 2x1x2' if tier == 'quick' else '1x1 to 4x3, 2x3x2')


def sweep(ctx, q, aux, ixy, dtd, ng, order, lim, fwave, solve, icapa):
    """the one-dimensional method along one line (ghost cells included)"""
    ne, n = q.shape
    h = [dtd / (aux[icapa, i] if icapa is not None else 1) for i in range(n)]
    a = [list(aux[:, i]) if aux is not None else [] for i in range(n)]
    sols = {}

    def S(i):
        if i not in sols:
            sols[i] = solve(ixy, list(q[:, i - 1]), list(q[:, i]), a[i - 1], a[i])
        return sols[i]
    new = q.copy()
    F = {}

    def flux(i):
        if i not in F:
            f = [ctx.const(0)] * ne
            ave = (h[i - 1] + h[i]) / 2
            for k in range(len(lim)):
                w, s = S(i)[0][k], S(i)[1][k]
                if lim[k]:
                    n2 = sum([x * x for x in w], ctx.const(0))
                    up = S(i - 1) if s > 0 else S(i + 1)
                    r = sum([x * y for x, y in zip(w, up[0][k])], ctx.const(0)) / n2
                    p = phi(ctx, lim[k], r)
                    w = [p * x for x in w]
                c = ctx.ite(s < 0, -1, 1) if fwave else ctx.abs(s)
                f = [y + c * (1 - ctx.abs(s) * ave) * x / 2 for x, y in zip(w, f)]
            F[i] = f
        return F[i]
    cfl = ctx.const(0)
    for i in range(ng, n - ng):
        for m in range(ne):
            new[m, i] = q[m, i] - h[i] * (S(i)[3][m] + S(i + 1)[2][m])
        if order == 2:
            for m in range(ne):
                new[m, i] = new[m, i] - h[i] * (flux(i + 1)[m] - flux(i)[m])
    return new


def split(ctx, cells, order, lim, ne=1, nw=1, capa=False, icapa=0, na=0, fwave=False, bc='extrap', signs=None, ng=2):
    cells = tuple(cells)
    dim = len(cells)
    limited = order == 2 and any(lim)
    solve = general_rp(ctx, ne, nw, signs=list(signs) if signs else None, wave_signs=['+'] * (ne * nw) if limited else None)
    if fwave:
        base = solve
        def solve(*a):
            o = base(*a)
            for x in o[1]:
                ctx.assume(x != 0)
            return o
    na = max(na, icapa + 1 if capa else 0)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    dt = var(ctx, 'dt', pos=True)
    aux = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=arr(ctx, 'q', (ne,) + cells), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    bcl = [(bc, bc)] * dim if isinstance(bc, str) else [tuple(b) for b in bc]
    s = solver(ctx, 'classic', dim, RP(ctx, dim, solve), ne, nw, bc=bcl, aux_bc=[tuple('extrap' if b == 'wall' else b for b in p) for p in bcl],
               order=order, limiters=lim, fwave=fwave, dimensional_split=True)
    s.reflect_index = [0] * dim
    grab = {}
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        grab['q'], grab['aux'] = s.qbc.copy(), (s.auxbc.copy() if na else None)
    s._apply_bcs = bcs
    q, cfl = ctx.run('a split step', hyp_step, ctx, s, sol, dt)
    Q, A = grab['q'], grab['aux']
    for d in range(dim):
        new = Q.copy()
        others = [range(n) for k, n in enumerate(Q.shape[1:]) if k != d]
        for ix in np.ndindex(*[len(o) for o in others]):
            sl = list(ix)
            # lines the later sweeps read: ghost lines of directions still to come, interior lines otherwise
            ks = [k for k in range(dim) if k != d]
            if any((k < d) and not (ng <= j < ng + cells[k]) for k, j in zip(ks, sl)):
                continue
            key = [slice(None)] + sl
            key.insert(1 + d, slice(None))
            key = tuple(key)
            new[key] = sweep(ctx, Q[key], None if A is None else A[key], d + 1, dt / delta[d], ng, order, lim, fwave, solve, icapa if capa else None)
        Q = new
    inner = Q[(slice(None),) + tuple(slice(ng, ng + n) for n in cells)]
    for i in np.ndindex(*inner.shape):
        ctx.check_eq('a split step is the composition of sweeps', q[i], inner[i])
    ctx.check('auxiliary values are unchanged', na == 0 or all(bool(x is y) or bool(x == y) for x, y in zip(sol.state.aux.ravel(), aux.ravel())))
    ctx.reach('split')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    for capa in B:
        out.append(dict(_h='split', cells=[2, 3], order=1, lim=[0, 0], ne=2, nw=2, capa=capa, na=1))
        out.append(dict(_h='split', cells=[3, 2], order=2, lim=[0], capa=capa, bc='periodic'))
        out.append(dict(_h='split', cells=[2, 2], order=2, lim=[0, 0], ne=2, nw=2, capa=capa, icapa=1, na=3, bc=[('periodic', 'periodic'), ('wall', 'extrap')]))
        out.append(dict(_h='split', cells=[2, 3], order=2, lim=[0], capa=capa, fwave=True, signs='-' if capa else '+', bc=[('wall', 'extrap'), ('periodic', 'periodic')]))
        for k in (1, 2, 3, 4):
            out.append(dict(_h='split', cells=[2, 2] if k % 2 else [1, 3], order=2, lim=[k], capa=capa, signs='+' if k < 3 else '-', bc='periodic' if k == 4 else 'extrap', _w=3))
        out.append(dict(_h='split', cells=[2, 1, 2], order=1, lim=[0], ne=2, nw=1, capa=capa, na=1, _w=5))
        out.append(dict(_h='split', cells=[1, 2, 2], order=2, lim=[0], capa=capa, bc='periodic', _w=5))
        out.append(dict(_h='split', cells=[2, 2, 1], order=2, lim=[0, 0], ne=1, nw=2, capa=capa, fwave=capa, signs='+-' if capa else None, _w=5))
        out.append(dict(_h='split', cells=[1, 1, 2], order=2, lim=[4], capa=capa, signs='+', _w=8))
    out.append(dict(_h='split', cells=[2, 2], order=2, lim=[1, 2], ne=1, nw=2, signs='+-', _w=3))
    out.append(dict(_h='split', cells=[1, 1], order=2, lim=[0]))
    if T:
        out.append(dict(_h='split', cells=[4, 3], order=2, lim=[0, 0], ne=2, nw=2, capa=True, na=2, bc='periodic', _w=9))
        out.append(dict(_h='split', cells=[3, 3], order=2, lim=[3, 4], ne=2, nw=2, signs='+-', capa=True, _w=12))
        out.append(dict(_h='split', cells=[2, 3, 2], order=2, lim=[0, 0], ne=2, nw=2, capa=True, na=2, _w=20))
        out.append(dict(_h='split', cells=[2, 1, 2], order=2, lim=[2, 3], ne=1, nw=2, signs='-+', capa=False, _w=20))
    return out
