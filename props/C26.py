"""C26: the SharpClaw right-hand side is the documented semi-discrete wave-propagation formula."""
from .kcommon import *

ENCODED = ['flux1 (sharpclaw/flux1.f90)', 'weno*, tvd2*, weno_comp (sharpclaw/weno.f90, reconstruct.f90)', 'SharpClawSolver1D.dq_hyperbolic', 'SharpClawSolver.dq, setup, _set_fortran_parameters', 'recon.weno, recon.weno5_wave',
           'SharpClawSolver2D/3D.dq_hyperbolic, flux2, flux3 (sharpclaw)']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'Riemann and total-fluctuation solvers: arbitrary functions of the states and auxiliary values on both sides',
               'the interface values are those handed to the Riemann solver (C14 decides how they follow from the cell averages); ghost cells hold arbitrary values',
               'wave-based reconstruction: strengths above the 1e-14 threshold', 'capacity values positive']
EXTS = ['sharpclaw1', 'sharpclaw2', 'sharpclaw3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return '1D: 1-%d cells; 2D: up to %s cells; 3D: 1x1x2 to 2x2x1 cells; ghost cells as wide as the reconstruction needs; 1-2 equations and waves' % ((3, '2x2') if tier == 'quick' else (5, '3x3'))


def formula(ctx, lang, cells, lim_type=2, order=5, char=0, ne=1, nw=1, limiters=1, tfluct=False, capa=False, fwave=False, source=False, euler=False):
    ctx.signs()
    cells = tuple(cells)
    dim = len(cells)
    ng = (order + 1) // 2
    full = tuple(n + 2 * ng for n in cells)
    ids = np.arange(1, int(np.prod(full)) + 1, dtype=float).reshape(full)
    cell = {int(ids[i]): i for i in np.ndindex(*full)}
    base = general_rp(ctx, ne, nw, wave_signs=[0.001] * (ne * nw) if char else None, signs=['+'] * nw if char or fwave else None, aux=False)
    face, inside, tf = {}, {}, {}

    def who(x):
        return cell[int(x.cval()) if ctx.symbolic and not isinstance(x, (int, float)) else int(x)]

    def solve(ixy, L, R, al, ar):
        a, b = who(al[0]), who(ar[0])
        o = base(ixy, L, R, [], [])
        (inside if a == b else face)[ixy - 1, a, b] = (list(L), list(R), o)      # the last call wins: the first one may serve the reconstruction
        return o

    def tfl(ixy, L, R, al=(), ar=()):
        a = who(al[0])
        o = ctx.uf('tf', [ixy] + list(L) + list(R), ne)
        tf[ixy - 1, a] = (list(L), list(R), o, who(ar[0]))
        return o
    kw = dict(lim_type=lim_type, weno_order=order, char_decomp=char, num_ghost=ng, fwave=fwave)
    if lim_type == 1:
        kw['limiters'] = limiters
    if tfluct:
        kw['tfluct_solver'] = True
    rp = RP(ctx, dim, solve, tfluct=tfl if tfluct else None) if lang == 'Fortran' else py_rp(ctx, solve, nw)
    s = solver(ctx, 'sharpclaw', dim, rp, ne, nw, language=lang, bc='extrap', aux_bc='extrap', **kw)
    dt = var(ctx, 'dt', pos=True)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    na = 2 if capa else 1
    Q = arr(ctx, 'q', (ne,) + full)
    if char:
        Q = Q * 1
    kap = arr(ctx, 'capa', full, pos=True) if capa else None
    inner = tuple(slice(ng, ng + n) for n in cells)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=Q[(slice(None),) + inner].copy(), aux=np.zeros((na,) + cells, dtype=object if ctx.symbolic else float))
    if capa:
        sol.state.index_capa = 1
        sol.state.aux[1] = kap[inner]
    sol.state.aux[0] = ids[inner]
    orig = s._apply_bcs

    def bcs(state):
        orig(state)
        s.qbc[...] = Q
        s.auxbc[0] = ids
        if capa:
            s.auxbc[1] = kap
    s._apply_bcs = bcs
    q0 = sol.state.q.copy()
    src = None
    if source or euler:
        if source:
            src = arr(ctx, 'src', (ne,) + cells)
            s.dq_src = lambda sv, st, h: h * src * 1
        s.dt = dt
        s.cfl.set_global_max(0.)
        s.setup(sol)
        dq = ctx.run('a right-hand side', s.dq, sol.state)
        dq = np.array(dq)
        finish(ctx, s)
    else:
        dq, _ = ctx.run('a right-hand side', rhs, ctx, s, sol, dt)
    ctx.check('size of the right-hand side', dq.shape == q0.shape)
    if dq.shape != q0.shape:
        return
    mv = lambda c, d, k: tuple(x + (k if j == d else 0) for j, x in enumerate(c))
    for i in np.ndindex(*cells):
        c = tuple(x + ng for x in i)
        want = [ctx.const(0)] * ne
        for d in range(dim):
            lo, hi = mv(c, d, -1), mv(c, d, 1)
            ok = (d, lo, c) in face and (d, c, hi) in face and ((d, c) in tf if tfluct else (d, c, c) in inside)
            ctx.check('a Riemann problem is solved at both faces and inside each cell', ok)
            if not ok:
                return
            L, R = face[d, lo, c], face[d, c, hi]
            if tfluct:
                t = tf[d, c]
                ctx.check('the total fluctuation is given the auxiliary values of its cell', t[3] == c)
                adq = t[2]
            else:
                t = inside[d, c, c]
                adq = [x + y for x, y in zip(t[2][2], t[2][3])]
            for m in range(ne):
                ctx.check_eq('the jump inside a cell is between its own interface values', t[0][m], L[1][m])
                ctx.check_eq('the jump inside a cell is between its own interface values', t[1][m], R[0][m])
                want[m] = want[m] - dt / delta[d] * (L[2][3][m] + R[2][2][m] + adq[m]) / (kap[c] if capa else 1)
        for m in range(ne):
            if src is not None:
                want[m] = want[m] + dt * src[(m,) + i]
            ctx.check_eq('the right-hand side is the sum of the fluctuations entering the cell and the one inside it', dq[(m,) + i], want[m])
    for i in np.ndindex(*q0.shape):
        ctx.check_eq('the solution is left alone', sol.state.q[i], q0[i])
    ctx.reach('formula')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    for lang in ('Fortran', 'Python'):
        for capa in B:
            out.append(dict(_h='formula', lang=lang, cells=[2], lim_type=2, capa=capa, source=capa))
            out.append(dict(_h='formula', lang=lang, cells=[1], lim_type=2, ne=2, nw=2, capa=capa, source=not capa))
            out.append(dict(_h='formula', lang=lang, cells=[1], lim_type=2, char=1, capa=capa, _w=2))
    for capa in B:
        for tf in B:
            for l in (1, 4):
                out.append(dict(_h='formula', lang='Fortran', cells=[3], lim_type=1, limiters=l, capa=capa, tfluct=tf, ne=2, nw=1))
            out.append(dict(_h='formula', lang='Fortran', cells=[2], lim_type=2, capa=capa, tfluct=tf, fwave=True, source=tf))
            out.append(dict(_h='formula', lang='Fortran', cells=[1], lim_type=3, capa=capa, tfluct=tf))
            out.append(dict(_h='formula', lang='Fortran', cells=[2, 1], lim_type=1, limiters=2, capa=capa, tfluct=tf, ne=2, nw=2, _w=4))
            out.append(dict(_h='formula', lang='Fortran', cells=[1, 2], lim_type=2, capa=capa, tfluct=tf, source=tf, _w=4))
            out.append(dict(_h='formula', lang='Fortran', cells=[1, 2, 1] if tf else [2, 1, 1], lim_type=1, limiters=1, capa=capa, tfluct=tf, _w=8))
        out.append(dict(_h='formula', lang='Fortran', cells=[1, 1, 2], lim_type=2, capa=capa, source=True, _w=8))
        out.append(dict(_h='formula', lang='Fortran', cells=[2], lim_type=1, limiters=2, char=1, capa=capa))
        for o in (7, 9, 11) + ((13, 15, 17) if T else ()):
            out.append(dict(_h='formula', lang='Fortran', cells=[1], lim_type=2, order=o, capa=capa, _w=3))
    if T:
        for capa in B:
            for lang in ('Fortran', 'Python'):
                out.append(dict(_h='formula', lang=lang, cells=[5], lim_type=2, ne=2, nw=2, capa=capa, source=True, _w=4))
            out.append(dict(_h='formula', lang='Fortran', cells=[3, 3], lim_type=2, ne=2, nw=2, capa=capa, source=True, _w=9))
            out.append(dict(_h='formula', lang='Fortran', cells=[2, 2, 2], lim_type=2, capa=capa, tfluct=capa, _w=20))
    return out
