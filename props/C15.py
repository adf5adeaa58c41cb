"""C15: SharpClaw right-hand sides are conservative, and the kernels agree."""
from fractions import Fraction
from .kcommon import *

ENCODED = ['flux1, flux2, flux3 (sharpclaw/*.f90)', 'weno5..., tvd2, tvd2_wave, weno5_wave (sharpclaw/reconstruct.f90, weno.f90)', 'SharpClawSolver1D/2D/3D.dq_hyperbolic',
           'SharpClawSolver.setup / _set_fortran_parameters', 'recon.weno, recon.weno5_wave', 'Solver._apply_bcs']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim); the regularisation of the two fifth-order versions (1e-36 and 12e-36) is taken to be the same',
               'Riemann solver: an arbitrary function of the states and auxiliary values at the face whose fluctuations sum to a flux difference (total fluctuation solver: that difference)',
               'wave-based reconstruction: wave components not below 1/1000', 'capacity values positive']
EXTS = ['sharpclaw1', 'sharpclaw2', 'sharpclaw3']
TINY = 1e-36


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of 3-4, 3x3-3x4 and 3x3x3 cells%s, 1-2 equations and waves; WENO and TVD reconstruction, with and without capacity function and total fluctuation solver' % ('' if tier == 'quick' else ' and larger')


def build(ctx, lang, cells, solve, ne, nw, na, lim_type, char, tfluct, bc, order=5, limiters=1, fwave=False):
    dim = len(cells)
    kw = dict(lim_type=lim_type, char_decomp=char, weno_order=order, num_ghost=(order + 1) // 2, fwave=fwave)
    if lim_type == 1:
        kw['limiters'] = limiters
    if tfluct:
        kw['tfluct_solver'] = True
    if lang == 'Fortran':
        def tf(*a):
            ixy, L, R = a[0], a[1], a[2]
            return [y - x for x, y in zip(solve.F(ixy, L, []), solve.F(ixy, R, []))]
        rp = RP(ctx, dim, solve, tfluct=tf if tfluct else None)
    else:
        rp = py_rp(ctx, solve, nw)
    return solver(ctx, 'sharpclaw', dim, rp, ne, nw, language=lang, bc=bc, aux_bc='periodic' if bc == 'periodic' else 'extrap', **kw)


def total(ctx, lang, cells, ne=1, nw=1, lim_type=2, char=0, capa=False, icapa=0, tfluct=False, bc='periodic', order=5, limiters=1):
    ctx.signs()
    cells = tuple(cells)
    dim = len(cells)
    ng = (order + 1) // 2
    na = 2 if capa else 1
    iid = 1 - icapa if capa else 0
    full = tuple(n + 2 * ng for n in cells)
    dt = var(ctx, 'dt', pos=True)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    base = flux_rp(ctx, ne, nw, aux=False, wave_signs=[0.001] * (ne * nw) if char else None, signs=['+'] * nw if char else None)
    last = {}

    def val(x):
        return int(x.cval()) if ctx.symbolic and not isinstance(x, (int, float)) else int(x)

    def solve(ixy, L, R, al, ar):
        o = base(ixy, L, R, [], [])
        a, b = val(al[iid]), val(ar[iid])
        if a != b:
            last[ixy, a, b] = (list(L), list(R), o)
        return o
    solve.F = base.F
    s = build(ctx, lang, cells, solve, ne, nw, na, lim_type, char, tfluct, bc, order, limiters)
    aux = np.zeros((na,) + cells, dtype=object if ctx.symbolic else float)
    if capa:
        aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=arr(ctx, 'q', (ne,) + cells), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        s.auxbc[iid] = np.arange(int(np.prod(full)), dtype=float).reshape(full, order='F')
    s._apply_bcs = bcs
    dq, _ = ctx.run('a right-hand side', rhs, ctx, s, sol, dt)
    ctx.check('shape of the right-hand side', tuple(dq.shape) == (ne,) + cells)
    cell = np.arange(int(np.prod(full))).reshape(full, order='F')
    # numerical flux through the boundary faces
    for m in range(ne):
        tot = ctx.const(0)
        for i in np.ndindex(*cells):
            tot = tot + dq[(m,) + i] * (aux[(icapa,) + i] if capa else 1)
        if bc == 'periodic':
            ctx.check_eq('periodic: the total does not change', tot, ctx.const(0) if ctx.symbolic else 0.0)
            continue
        want = ctx.const(0)
        for d in range(dim):
            for i in np.ndindex(*[n for k, n in enumerate(cells) if k != d]):
                for side in (0, 1):
                    ix = [j + ng for j in i]
                    p = ng if side == 0 else ng + cells[d]
                    ix.insert(d, p)
                    b = int(cell[tuple(ix)])
                    ix[d] = p - 1
                    a = int(cell[tuple(ix)])
                    ctx.check('boundary face solved', (d + 1, a, b) in last)
                    if (d + 1, a, b) not in last:
                        return
                    L, R, o = last[d + 1, a, b]
                    f = base.F(d + 1, L, [])[m] + o[2][m]
                    want = want + (f if side == 0 else -f) * dt / delta[d]
        ctx.check_eq('the total changes by the boundary fluxes', tot, want)
    ctx.reach('total')


def agree(ctx, cells=(3,), ne=1, nw=1, lim_type=2, char=0, capa=False, icapa=0, bc='periodic', na=0):
    """interpreted and compiled right-hand sides and Courant numbers are the same"""
    ctx.signs()
    if ctx.symbolic:
        from vlib import sym
        if lim_type == 2 and char == 0:
            sym.SP.consts = {float(np.float32(TINY)): Fraction(1, 12 * 10 ** 36)}
    cells = tuple(cells)
    ng = 3
    na = max(na, icapa + 1 if capa else 0)
    dt, dx = var(ctx, 'dt', pos=True), var(ctx, 'dx', pos=True)
    # the two kernels write the same interface values in different form; what the Riemann
    # solver returns depends on the values only, so it is told which interface is solved
    aux0 = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        aux0[icapa] = arr(ctx, 'capa', cells, pos=True)
    q0 = arr(ctx, 'q', (ne,) + cells)
    out, states = [], []
    for lang, lt in (('Python', 2), ('Fortran', lim_type)):
        seen = []
        def solve(ixy, L, R, al, ar, seen=seen):
            seen.append((list(L), list(R), list(al)[:na], list(ar)[:na]))
            return lin(L, R, al, ar)
        lin = linear_rp(ctx, ne, nw, na)
        s = build(ctx, lang, cells, solve, ne, nw, na, lt, char, False, bc)
        if na and bc != 'periodic':
            pass
        sol = make_solution(ctx, cells, ne, na, delta=[dx], q=q0.copy(), aux=aux0.copy() if na else None)
        if capa:
            sol.state.index_capa = icapa
        out.append(ctx.run('a right-hand side', rhs, ctx, s, sol, dt))
    ctx.check_eq('same right-hand side', out[0][0], out[1][0])
    ctx.check_eq('same Courant number', out[0][1], out[1][1])
    ctx.reach('agree')


def linear_rp(ctx, ne, nw, na):
    """linear fluctuations with arbitrary coefficients, which may depend on auxiliary values"""
    A = [[[var(ctx, 'A%d%d%d' % (p, i, j)) for j in range(ne)] for i in range(ne)] for p in range(2)]
    sp = [var(ctx, 'sp%d' % k) for k in range(nw)]
    def solve(L, R, al, ar):
        d = [y - x for x, y in zip(L, R)]
        am = [sum([a * x for a, x in zip(row, d)], ctx.const(0)) for row in A[0]]
        ap = [sum([a * x for a, x in zip(row, d)], ctx.const(0)) for row in A[1]]
        if na:
            am = [x + al[0] * y for x, y in zip(am, L)]
            ap = [x - ar[na - 1] * y for x, y in zip(ap, R)]
        return [d] * nw, [x + (al[0] if na else 0) for x in sp], am, ap
    return solve


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    for bc in ('periodic', 'extrap'):
        for capa in B:
            for lang in ('Python', 'Fortran'):
                out.append(dict(_h='total', lang=lang, cells=[3], ne=2, nw=2, capa=capa, bc=bc))
                out.append(dict(_h='total', lang=lang, cells=[4], ne=1, nw=1, capa=capa, icapa=1, char=1, bc=bc, _w=3))
            out.append(dict(_h='total', lang='Fortran', cells=[3], ne=2, nw=1, capa=capa, tfluct=True, lim_type=1, limiters=4, bc=bc))
            out.append(dict(_h='total', lang='Fortran', cells=[4], ne=1, nw=1, capa=capa, lim_type=1, limiters=2, char=1, bc=bc))
            out.append(dict(_h='total', lang='Fortran', cells=[4], ne=1, nw=1, capa=capa, lim_type=2, order=7, bc=bc))
            out.append(dict(_h='total', lang='Fortran', cells=[3, 3], ne=1, nw=1, capa=capa, tfluct=capa, lim_type=1, bc=bc, _w=6))
            out.append(dict(_h='total', lang='Fortran', cells=[3, 4], ne=1, nw=1, capa=capa, icapa=1, lim_type=2, tfluct=not capa, bc=bc, _w=8))
            out.append(dict(_h='total', lang='Fortran', cells=[3, 3, 3], ne=1, nw=1, capa=capa, lim_type=1, tfluct=capa, bc=bc, _w=12))
    for capa in B:
        out.append(dict(_h='agree', lim_type=3, capa=capa, cells=[3], na=2, icapa=1, _w=5))
        out.append(dict(_h='agree', lim_type=3, capa=capa, cells=[1], ne=2, nw=2, bc='extrap', _w=5))
    out.append(dict(_h='agree', lim_type=2, cells=[1], capa=True, bc='extrap', _w=9))
    if T:
        out.append(dict(_h='agree', lim_type=3, capa=True, cells=[4], ne=2, nw=2, na=2, icapa=0, _w=9))
        for capa in B:
            out.append(dict(_h='total', lang='Fortran', cells=[4, 3, 3], ne=2, nw=2, capa=capa, lim_type=1, tfluct=not capa, bc='extrap', _w=20))
            out.append(dict(_h='total', lang='Fortran', cells=[3, 3, 3], ne=1, nw=1, capa=capa, lim_type=2, bc='periodic', _w=20))
            out.append(dict(_h='total', lang='Fortran', cells=[4, 4], ne=2, nw=2, capa=capa, lim_type=2, order=7, bc='periodic', _w=20))
    return out
