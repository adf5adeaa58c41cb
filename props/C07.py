"""C07: classic solvers conserve what the Riemann solver conserves."""
from .kcommon import *

ENCODED = ['step1', 'step2', 'step2ds', 'step3', 'step3ds', 'flux2', 'flux3', 'limiter', 'philim (classic/*.f90)',
           'ClawSolver1D/2D/3D.step_hyperbolic', 'limiters.tvd.limit', 'Solver._apply_bcs', 'State.get_qbc_from_q / set_q_from_qbc']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'Riemann solver: arbitrary waves, speeds and fluctuations with amdq + apdq = F(q_right) - F(q_left), F arbitrary; arbitrary transverse splittings',
               'capacity values positive']
EXTS = ['classic1', 'classic2', 'classic3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of 3-4, 2x2 to 3x3 and 2x2x2%s cells; 1-2 equations and waves; one step' % ('' if tier == 'quick' else ' to 3x2x2')


def _sol(ctx, cells, ne, capa, icapa=0, extra_aux=0):
    dim = len(cells)
    na = (icapa + 1 + extra_aux) if capa else extra_aux
    aux = None
    if na:
        aux = arr(ctx, 'aux', (na,) + cells)
        if capa:
            aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=arr(ctx, 'q', (ne,) + cells), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    return sol, (aux[icapa] if capa else None), delta


def _total(ctx, q, cap):
    out = []
    for m in range(q.shape[0]):
        v = q[m] if cap is None else q[m] * cap
        out.append(sum(list(v.ravel()), ctx.const(0)))
    return out


def periodic(ctx, lang, cells, order, lim, ne=1, nw=1, split=None, tr=None, fwave=False, capa=False, icapa=0, extra_aux=0):
    cells = tuple(cells)
    dim = len(cells)
    solve = flux_rp(ctx, ne, nw)
    sol, cap, delta = _sol(ctx, cells, ne, capa, icapa, extra_aux)
    kw = dict(order=order, limiters=lim, fwave=fwave)
    if lang == 'Fortran':
        trans = general_trans(ctx, ne)
        rp = RP(ctx, dim, solve, trans, trans, trans_aux=bool(extra_aux))
    else:
        rp = py_rp(ctx, solve, nw)
    if dim > 1:
        kw.update(dimensional_split=split, transverse_waves=tr)
    s = solver(ctx, 'classic', dim, rp, ne, nw, language=lang, **kw)
    t0 = _total(ctx, sol.state.q, cap)
    dt = var(ctx, 'dt', pos=True)
    if lang == 'Python':
        ctx.py = True
    q, cfl = hyp_step(ctx, s, sol, dt)
    for m, (a, b) in enumerate(zip(t0, _total(ctx, q, cap))):
        ctx.check_eq('the total of each conserved quantity is unchanged', a, b)
    ctx.reach('step')


def boundary(ctx, cells, order, lim, split=None, capa=False, fwave=False, bc='extrap'):
    """nothing happens at the boundary faces: the total changes by the boundary fluxes"""
    cells = tuple(cells)
    dim = len(cells)
    base = flux_rp(ctx, 1, 1)
    def solve(ixy, L, R, al, ar, i, mx):
        w, s, am, ap = base(ixy, L, R, al, ar)
        if i <= 1 or i >= mx + 1:
            z = [ctx.const(0)]
            return [z], z, z, z
        return w, s, am, ap
    solve.positional = True
    sol, cap, delta = _sol(ctx, cells, 1, capa)
    q0 = sol.state.q.copy()
    kw = dict(order=order, limiters=lim, fwave=fwave)
    if dim > 1:
        kw.update(dimensional_split=split, transverse_waves=0)
    s = solver(ctx, 'classic', dim, RP(ctx, dim, solve), 1, 1, bc=bc, aux_bc='extrap', **kw)
    dt = var(ctx, 'dt', pos=True)
    t0 = _total(ctx, q0, cap)[0]
    q, cfl = hyp_step(ctx, s, sol, dt)
    change = ctx.const(0)
    if dim == 1:
        change = -dt / delta[0] * (base.F(1, [q0[0, -1]], [])[0] - base.F(1, [q0[0, 0]], [])[0])
    else:
        for j in range(cells[1]):
            change = change - dt / delta[0] * (base.F(1, [q0[0, -1, j]], [])[0] - base.F(1, [q0[0, 0, j]], [])[0])
        for i in range(cells[0]):
            change = change - dt / delta[1] * (base.F(2, [q0[0, i, -1]], [])[0] - base.F(2, [q0[0, i, 0]], [])[0])
    ctx.check_eq('the total changes by the boundary fluxes only', _total(ctx, q, cap)[0], t0 + change)
    ctx.reach('step')


def cases(tier):
    T = tier != 'quick'
    out = []
    B = (False, True)
    for lang in ('Fortran', 'Python'):
        for order in (1, 2):
            for capa in B:
                for fw in B:
                    lims = ([[0, 0]] if order == 1 else [[0, 0], [4, 1]])
                    for lim in lims:
                        if lang == 'Python' and lim[0]:
                            # forks per interface in the interpreted kernel: fewer waves
                            out.append(dict(_h='periodic', lang=lang, cells=[2], order=order, lim=[lim[0]], ne=1, nw=1, fwave=fw, capa=capa, _w=2))
                        else:
                            out.append(dict(_h='periodic', lang=lang, cells=[3], order=order, lim=lim, ne=2, nw=2, fwave=fw, capa=capa))
    for order in (1, 2):
        for capa in B:
            for split, tr in ((True, 0), (False, 0), (False, 1), (False, 2)):
                for lim in ([[0]] if order == 1 else [[0], [4]]):
                    for fw in (B if order == 2 and lim == [0] else (False,)):
                        out.append(dict(_h='periodic', lang='Fortran', cells=[3, 2] if lim == [0] else [2, 3], order=order, lim=lim, split=split, tr=tr, fwave=fw, capa=capa, _w=4))
    out.append(dict(_h='periodic', lang='Fortran', cells=[2, 3], order=2, lim=[3, 2], ne=2, nw=2, split=False, tr=2, capa=True, icapa=1, extra_aux=1, _w=9))
    for capa in B:
        out.append(dict(_h='periodic', lang='Fortran', cells=[2, 2, 2], order=1, lim=[0], split=True, tr=0, capa=capa, _w=9))
        out.append(dict(_h='periodic', lang='Fortran', cells=[2, 2, 2], order=2, lim=[4], split=True, tr=0, capa=capa, _w=9))
        for order in (1, 2):
            for tr in ((0, 10, 11) if order == 1 else (0, 10, 11, 20, 21, 22)):
                out.append(dict(_h='periodic', lang='Fortran', cells=[2, 2, 2], order=order, lim=[0], split=False, tr=tr, capa=capa, _w=12))
    if T:
        for cells in ([3, 2, 2], [2, 3, 2], [2, 2, 3]):
            out.append(dict(_h='periodic', lang='Fortran', cells=cells, order=2, lim=[1], split=False, tr=22, capa=True, _w=20))
            out.append(dict(_h='periodic', lang='Fortran', cells=cells, order=2, lim=[0], ne=2, nw=2, split=False, tr=22, capa=False, _w=20))
        for tr in (0, 1, 2):
            out.append(dict(_h='periodic', lang='Fortran', cells=[4, 3], order=2, lim=[2], ne=2, nw=1, split=False, tr=tr, capa=True, _w=15))
    for order in (1, 2):
        for capa in B:
            out.append(dict(_h='boundary', cells=[4], order=order, lim=[4], capa=capa, fwave=capa))
            if not capa:
                out.append(dict(_h='boundary', cells=[3, 4], order=order, lim=[3], split=False, capa=capa))
                out.append(dict(_h='boundary', cells=[3, 3], order=order, lim=[3], split=False, capa=True))
    return out
