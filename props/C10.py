"""C10: the reported Courant number."""
import itertools
from .kcommon import *

ENCODED = ['step1, step2, step2ds, step3, step3ds, flux2, flux3 (classic/*.f90)', 'flux1, flux2, flux3 (sharpclaw/*.f90)',
           'ClawSolver1D/2D/3D.step_hyperbolic', 'SharpClawSolver1D/2D/3D.dq_hyperbolic', 'CFL.update_global_max / get_cached_max']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'arbitrary wave speeds of either sign at every face, independent of each other',
               'capacity values positive']
EXTS = ['classic1', 'classic2', 'classic3', 'sharpclaw1', 'sharpclaw2', 'sharpclaw3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of 3, 2x3 and 2x2x2%s cells, 1-3 waves; classic (split, unsplit, transverse) and SharpClaw kernels' % ('' if tier == 'quick' else ' up to 6, 4x3 and 2x3x2')


def cfl(ctx, kind, lang, cells, nw=1, capa=False, icapa=0, order=1, split=None, tr=None, tfluct=False, fixed=None, bc='extrap', lim_type=1):
    cells = tuple(cells)
    dim = len(cells)
    ng = 3 if kind == 'sharpclaw' else 2
    iid = 1 if capa and icapa == 0 else 0
    na = 2 if capa else 1
    full = tuple(n + 2 * ng for n in cells)
    dt = var(ctx, 'dt', pos=True)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    must, every = [], []
    count = {}

    def interior(i):
        idx = np.unravel_index(int(i), full, order='F')
        return all(ng <= a < ng + n for a, n in zip(idx, cells))

    def val(x):
        return float(x.cval()) if ctx.symbolic and not isinstance(x, (int, float)) else float(x)

    def solve(ixy, L, R, al, ar):
        a, b = val(al[iid]), val(ar[iid])
        sp = ctx.uf('speed', [ixy, a, b], nw)
        if a != b:             # (a == b: the total fluctuation inside a cell)
            h = dt / delta[ixy - 1]
            cl, cr = (al[icapa], ar[icapa]) if capa else (1, 1)
            for s in sp:
                v = (h / cr * s, -h / cl * s)
                # cells an update of which this face enters
                every.extend(v)
                if interior(a) or interior(b):
                    must.extend(v)
        z = [ctx.const(0)]
        return [z] * nw, sp, z, z

    kw = dict(order=order, limiters=[0] * nw) if kind == 'classic' else dict(lim_type=lim_type, limiters=[1])
    if kind == 'classic' and dim > 1:
        kw.update(dimensional_split=split, transverse_waves=tr)
    if tfluct:
        kw['tfluct_solver'] = True
    if lang == 'Fortran':
        rp = RP(ctx, dim, solve, tfluct=(lambda *a: [ctx.const(0)]) if tfluct else None)
    else:
        rp = py_rp(ctx, solve, nw)
    s = solver(ctx, kind, dim, rp, 1, nw, language=lang, bc=bc, aux_bc='extrap', **kw)
    aux = np.zeros((na,) + cells, dtype=object if ctx.symbolic else float)
    if capa:
        aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    q = arr(ctx, 'q', (1,) + cells)
    sol = make_solution(ctx, cells, 1, na, delta=delta, q=q, aux=aux)
    if capa:
        sol.state.index_capa = icapa
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        s.auxbc[iid] = np.arange(int(np.prod(full)), dtype=float).reshape(full, order='F')
    s._apply_bcs = bcs
    _, c = (hyp_step if kind == 'classic' else rhs)(ctx, s, sol, dt)
    eps = 0 if ctx.symbolic else 1e-9 * (1 + abs(c))
    ctx.check('no interface of an interior cell exceeds the reported Courant number', ctx.And(*[v <= c + eps for v in must]))
    ctx.check('faces seen', len(must) > 0)
    ctx.check('the reported Courant number is attained at some interface', ctx.Or(c <= eps, *[c <= v + eps for v in every]))
    ctx.check_le('the reported Courant number is not negative', 0, c)
    ctx.reach('cfl')


def accumulate(ctx):
    """the Courant number object keeps the largest value reported since it was reset"""
    P = pyclaw()
    from clawpack.pyclaw.cfl import CFL
    c = CFL(ctx.real('c0'))
    a = [ctx.real('v%d' % i) for i in range(3)]
    r = ctx.real('reset')
    c.set_global_max(r)
    ctx.check_eq('after a reset', c.get_cached_max(), r)
    for v in a:
        c.update_global_max(v)
    want = r
    for v in a:
        want = ctx.max(want, v)
    ctx.check_eq('largest reported value', c.get_cached_max(), want)
    ctx.check_eq('largest reported value', c.get_global_max(), want)
    ctx.reach('accumulate')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = [dict(_h='accumulate')]
    for capa in B:
        for lang in ('Fortran', 'Python'):
            out.append(dict(_h='cfl', kind='classic', lang=lang, cells=[3], nw=2, capa=capa, order=1))
            out.append(dict(_h='cfl', kind='classic', lang=lang, cells=[1], nw=3, capa=capa, order=1))
            out.append(dict(_h='cfl', kind='sharpclaw', lang=lang, cells=[3], nw=3, capa=capa, lim_type=2 if lang == 'Python' else 1))
            out.append(dict(_h='cfl', kind='classic', lang=lang, cells=[2], nw=1, capa=capa, icapa=1, order=2))
            out.append(dict(_h='cfl', kind='sharpclaw', lang=lang, cells=[3], nw=2, capa=capa, lim_type=2))
        for split, tr, order in ((True, 0, 1), (True, 0, 2), (False, 0, 1), (False, 0, 2), (False, 1, 2), (False, 2, 2)):
            out.append(dict(_h='cfl', kind='classic', lang='Fortran', cells=[2, 3], nw=2 if order == 1 else 1, capa=capa, order=order, split=split, tr=tr))
        out.append(dict(_h='cfl', kind='sharpclaw', lang='Fortran', cells=[3, 3], nw=2, capa=capa, tfluct=True, _w=4))
        out.append(dict(_h='cfl', kind='sharpclaw', lang='Fortran', cells=[3, 4], nw=1, capa=capa, icapa=1, lim_type=2, _w=6))
        for split, tr, order in ((True, 0, 1), (False, 0, 2), (False, 11, 1), (False, 22, 2)):
            out.append(dict(_h='cfl', kind='classic', lang='Fortran', cells=[2, 2, 2], nw=1, capa=capa, order=order, split=split, tr=tr, _w=9))
        out.append(dict(_h='cfl', kind='sharpclaw', lang='Fortran', cells=[3, 3, 3], nw=1, capa=capa, _w=12))
        if T:
            out.append(dict(_h='cfl', kind='classic', lang='Fortran', cells=[4, 3], nw=2, capa=capa, order=2, split=False, tr=2))
            out.append(dict(_h='cfl', kind='classic', lang='Fortran', cells=[2, 3, 2], nw=2, capa=capa, order=2, split=False, tr=22, _w=15))
            out.append(dict(_h='cfl', kind='classic', lang='Fortran', cells=[3, 2, 2], nw=1, capa=capa, order=2, split=True, tr=0, _w=15))
            out.append(dict(_h='cfl', kind='sharpclaw', lang='Fortran', cells=[6], nw=2, capa=capa, tfluct=True))
            out.append(dict(_h='cfl', kind='sharpclaw', lang='Fortran', cells=[3, 4, 3], nw=1, capa=capa, _w=15))
    return out
