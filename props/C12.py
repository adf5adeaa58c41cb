"""C12: axes and orientations are treated alike."""
import itertools
from .kcommon import *
from .C11 import sweep
from .C13 import split_trans

ENCODED = ['step2, step3, flux2, flux3, limiter, philim (classic/*.f90)', 'flux1, flux2, flux3 (sharpclaw/*.f90)', 'ClawSolver2D/3D.step_hyperbolic', 'SharpClawSolver2D/3D.dq_hyperbolic', 'Solver._apply_bcs']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'normal Riemann solver: an arbitrary function of direction, states and auxiliary values; transverse solvers: linear in the fluctuation, with coefficients that are arbitrary functions of directions and states, not of auxiliary values',
               'cases with limiters: wave strengths and speeds are positive or negative (one sign per wave family)', 'capacity values positive; in f-wave form speeds nonzero']
EXTS = ['classic2', 'classic3', 'sharpclaw1', 'sharpclaw2', 'sharpclaw3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of %s cells, 1-2 equations and waves; all orders and transverse settings, all axis permutations and reversals' % ('2x3, 2x1x2, 2x2x2' if tier == 'quick' else '2x3 to 3x3, 2x2x2, 2x3x2')


def taxis(dim, d, icoor):
    """axis (from 1) meant by the coordinate number of a three-dimensional transverse solver"""
    return (d + icoor - 2) % 3 + 1


class View:
    """the Riemann solvers of the original problem as seen from the relabelled one: axis k of the
    new problem is axis perm[k] of the original, reversed if flip[perm[k]]"""
    def __init__(self, ctx, dim, perm, flip, ne, nw, base, trans, ttrans, fwave):
        self.__dict__.update(dict(ctx=ctx, dim=dim, perm=perm, flip=flip, ne=ne, nw=nw, base=base, tr=trans, ttr=ttrans, fwave=fwave))

    def solve(self, ixy, L, R, al, ar):
        k = self.perm[ixy - 1]
        if not self.flip[k]:
            return self.base(k + 1, L, R, al, ar)
        w, s, am, ap = self.base(k + 1, R, L, ar, al)
        if not self.fwave:
            w = [[-x for x in v] for v in w]
        return w, [-x for x in s], ap, am

    def trans(self, fl, L, R, rows, a):
        if self.dim == 2:
            d, t, rest = self.perm[fl[0] - 1], self.perm[2 - fl[0]], list(fl[1:])
        else:
            d, t, rest = self.perm[fl[0] - 1], self.perm[taxis(3, fl[0], fl[1]) - 1], list(fl[2:])
        if self.flip[d]:
            L, R = R, L
            rest[0] = 3 - rest[0] if rest[0] else 0
        sg = 1
        if len(rest) > 1 and self.flip[3 - d - t]:
            rest[1] = 3 - rest[1]
            a, sg = [-x for x in a], -1
        f = self.tr if len(rest) == 1 else self.ttr
        b, p = f((d, t) + tuple(rest), L, R, [], a)
        if self.flip[t]:                # (-B)^- = -(B^+)
            b, p, sg = p, b, -sg
        return [sg * x for x in b], [sg * x for x in p]


def relabel(ctx, cells, perm, flip, order=2, tr=0, lim=(0,), ne=1, nw=1, capa=False, na=0, fwave=False, bc='extrap', signs=None):
    cells = tuple(cells)
    dim = len(cells)
    limited = order == 2 and any(lim)
    base = general_rp(ctx, ne, nw, signs=list(signs) if signs else None, wave_signs=['+'] * (ne * nw) if limited else None)
    t1 = t2 = split_trans(ctx, ne)
    na = max(na, 1 if capa else 0)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    dt = var(ctx, 'dt', pos=True)
    q0 = arr(ctx, 'q', (ne,) + cells)
    a0 = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        a0[na - 1] = arr(ctx, 'capa', cells, pos=True)
    bcl = [(bc, bc)] * dim if isinstance(bc, str) else [tuple(b) for b in bc]

    def move(a, perm, flip):
        if a is None:
            return None
        a = a[(slice(None),) + tuple(slice(None, None, -1) if f else slice(None) for f in flip)]
        return a.transpose((0,) + tuple(p + 1 for p in perm)).copy()

    res = []
    for pm, fp in ((tuple(range(dim)), (0,) * dim), (tuple(perm), tuple(flip))):
        v = View(ctx, dim, pm, fp, ne, nw, base, t1, t2, fwave)
        b = [bcl[p][::-1] if fp[p] else bcl[p] for p in pm]
        c = tuple(cells[p] for p in pm)
        rp = RP(ctx, dim, v.solve, trans=v.trans, ttrans=v.trans)
        s = solver(ctx, 'classic', dim, rp, ne, nw, bc=b, aux_bc=b, order=order, limiters=list(lim), fwave=fwave, dimensional_split=False, transverse_waves=tr)
        sol = make_solution(ctx, c, ne, na, delta=[delta[p] for p in pm], q=move(q0, pm, fp), aux=move(a0, pm, fp))
        if capa:
            sol.state.index_capa = na - 1
        res.append(ctx.run('an unsplit step', hyp_step, ctx, s, sol, dt))
    want = move(res[0][0], perm, flip)
    for i in np.ndindex(*want.shape):
        ctx.check_eq('the result is relabelled with the data', res[1][0][i], want[i])
    ctx.check_eq('the Courant number does not depend on the labels', res[1][1], res[0][1])
    ctx.reach('relabel')


def reduced(ctx, cells, axis, order=2, tr=0, lim=(0,), ne=1, nw=1, capa=False, fwave=False, signs=None):
    """data varying along one axis only: the one-dimensional step in every line"""
    cells = tuple(cells)
    dim = len(cells)
    ng = 2
    limited = order == 2 and any(lim)
    base = general_rp(ctx, ne, nw, signs=list(signs) if signs else None, wave_signs=['+'] * (ne * nw) if limited else None)

    def solve(ixy, L, R, al, ar):
        if ixy == axis + 1:
            o = base(ixy, L, R, [], [])
            return o
        d = [y - x for x, y in zip(L, R)]
        o = ctx.uf('across', [ixy] + list(L) + list(R), (nw + 2) * ne + nw)
        v = [[a * x for a, x in zip(o[k * ne:(k + 1) * ne], d)] for k in range(nw + 2)]
        return v[:nw], o[(nw + 2) * ne:], v[nw], v[nw + 1]
    t = split_trans(ctx, ne)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    dt = var(ctx, 'dt', pos=True)
    line = arr(ctx, 'q', (ne, cells[axis]))
    shape = [1] * dim
    shape[axis] = cells[axis]
    q = np.empty((ne,) + cells, dtype=object if ctx.symbolic else float)
    q[...] = line.reshape([ne] + shape)
    aux = None
    if capa:
        kap = arr(ctx, 'capa', (1, cells[axis]), pos=True)
        aux = np.empty((1,) + cells, dtype=q.dtype)
        aux[...] = kap.reshape([1] + shape)
    s = solver(ctx, 'classic', dim, RP(ctx, dim, solve, trans=t, ttrans=t), ne, nw, bc='extrap', aux_bc='extrap', order=order, limiters=list(lim), fwave=fwave, dimensional_split=False, transverse_waves=tr)
    sol = make_solution(ctx, cells, ne, 1 if capa else 0, delta=delta, q=q, aux=aux)
    if capa:
        sol.state.index_capa = 0
    got, _ = ctx.run('an unsplit step', hyp_step, ctx, s, sol, dt)
    def pad(a):
        return np.concatenate([a[:, :1]] * ng + [a] + [a[:, -1:]] * ng, axis=1)
    one = sweep(ctx, pad(line), pad(kap) if capa else None, axis + 1, dt / delta[axis], ng, order, list(lim), fwave, lambda i, L, R, al, ar: base(i, L, R, [], []), 0 if capa else None)
    for i in np.ndindex(*cells):
        for m in range(ne):
            ctx.check_eq('the one-dimensional result', got[(m,) + i], one[m, ng + i[axis]])
    ctx.reach('reduced')


def lines(ctx, cells, lim_type=2, ne=1, nw=1, capa=False, tfluct=False, bc='extrap', limiters=1, char=0):
    """a multidimensional SharpClaw right-hand side is the sum of one-dimensional ones along the lines of cells"""
    ctx.signs()
    cells = tuple(cells)
    dim = len(cells)
    ng = 3
    na = 2 if capa else 1
    base = general_rp(ctx, ne, nw, wave_signs=[0.001] * (ne * nw) if char else None, signs=['+'] * nw if char else None)
    def tfl(ixy, L, R, al=(), ar=()):
        return ctx.uf('tfl', [ixy] + list(L) + list(R), ne)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    dt = var(ctx, 'dt', pos=True)
    q = arr(ctx, 'q', (ne,) + cells)
    aux = arr(ctx, 'aux', (na,) + cells)
    if capa:
        aux[1] = arr(ctx, 'capa', cells, pos=True)

    def make(d, solve, tf, bcs):
        kw = dict(lim_type=lim_type, char_decomp=char)
        if lim_type == 1:
            kw['limiters'] = limiters
        if tfluct:
            kw['tfluct_solver'] = True
        return solver(ctx, 'sharpclaw', d, RP(ctx, d, solve, tfluct=(lambda *a: tf(*a)) if tfluct else None), ne, nw, bc=bcs, aux_bc=bcs, **kw)
    s = make(dim, base, tfl, bc)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=q, aux=aux)
    if capa:
        sol.state.index_capa = 1
    grab = {}
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        grab['q'], grab['aux'] = s.qbc.copy(), s.auxbc.copy()
    s._apply_bcs = bcs
    got, cfl = ctx.run('a right-hand side', rhs, ctx, s, sol, dt)
    Q, A = grab['q'], grab['aux']
    want = np.zeros((ne,) + cells, dtype=object if ctx.symbolic else float)
    top = ctx.const(0) if ctx.symbolic else 0.0
    for d in range(dim):
        for i in np.ndindex(*[n for k, n in enumerate(cells) if k != d]):
            key = [slice(None)] + [j + ng for j in i]
            key.insert(1 + d, slice(None))
            key = tuple(key)
            inner = [slice(None)] + list(i)
            inner.insert(1 + d, slice(None))
            inner = tuple(inner)
            s1 = make(1, lambda ixy, L, R, al, ar, d=d: base(d + 1, L, R, al, ar), lambda ixy, L, R, *r, d=d: tfl(d + 1, L, R), 'extrap')
            so = make_solution(ctx, (cells[d],), ne, na, delta=[delta[d]], q=q[inner].copy(), aux=aux[inner].copy())
            if capa:
                so.state.index_capa = 1
            def setbc(state, s1=s1, key=key, o=s1._apply_bcs):
                o(state)
                s1.qbc[:] = Q[key]
                s1.auxbc[:] = A[key]
            s1._apply_bcs = setbc
            r, c = ctx.run('a one-dimensional right-hand side', rhs, ctx, s1, so, dt)
            want[inner] = want[inner] + r
            top = ctx.max(top, c)
    for i in np.ndindex(*want.shape):
        ctx.check_eq('sum of the one-dimensional right-hand sides', got[i], want[i])
    ctx.check_eq('largest one-dimensional Courant number', cfl, top)
    ctx.reach('lines')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    views2 = [((1, 0), (0, 0)), ((0, 1), (1, 0)), ((0, 1), (0, 1)), ((1, 0), (1, 1))]
    for tr in (0, 1, 2):
        for perm, flip in views2:
            for capa in B:
                out.append(dict(_h='relabel', cells=[2, 3], perm=perm, flip=flip, tr=tr, order=2, capa=capa, bc='extrap'))
            if tr < 2:
                out.append(dict(_h='relabel', cells=[2, 2], perm=perm, flip=flip, tr=tr, order=1, lim=[0, 0], ne=2, nw=2, na=1, bc=[['periodic', 'periodic'], ['extrap', 'extrap']]))
            if tr == 2:
                out.append(dict(_h='relabel', cells=[2, 2], perm=perm, flip=flip, tr=tr, order=2, lim=[0], fwave=True, signs='+', capa=True))
                out.append(dict(_h='relabel', cells=[2, 2], perm=perm, flip=flip, tr=tr, order=2, lim=[1], signs='-'))
        for axis in (0, 1):
            for capa in B:
                out.append(dict(_h='reduced', cells=[3, 2] if axis == 0 else [2, 3], axis=axis, order=2, tr=tr, capa=capa))
            out.append(dict(_h='reduced', cells=[3, 2] if axis == 0 else [2, 3], axis=axis, order=2, tr=tr, lim=[4], signs='+'))
            out.append(dict(_h='reduced', cells=[2, 2], axis=axis, order=1 if tr < 2 else 2, tr=tr, lim=[0, 0], ne=2, nw=2))
    views3 = [((1, 2, 0), (0, 0, 0)), ((2, 0, 1), (0, 0, 0)), ((1, 0, 2), (0, 0, 0)), ((0, 1, 2), (1, 0, 0)), ((0, 1, 2), (0, 1, 0)), ((0, 1, 2), (0, 0, 1))]
    for tr in (0, 10, 11, 20, 21, 22):
        for k, (perm, flip) in enumerate(views3):
            capa = bool((k + tr) % 2)
            out.append(dict(_h='relabel', cells=[2, 1, 2] if k % 2 else [1, 2, 2], perm=perm, flip=flip, tr=tr, order=1 if tr in (10, 11) and k % 2 else 2, capa=capa, _w=6))
        for axis in (0, 1, 2):
            c = [1, 1, 1]
            c[axis] = 2
            out.append(dict(_h='reduced', cells=c, axis=axis, order=2, tr=tr, capa=bool(tr % 2), _w=5))
    for capa in B:
        for tf in B:
            out.append(dict(_h='lines', cells=[3, 4], lim_type=1, limiters=2, capa=capa, tfluct=tf, bc='periodic', _w=4))
            out.append(dict(_h='lines', cells=[2, 3], lim_type=2, capa=capa, tfluct=tf, ne=2, nw=2, _w=4))
        out.append(dict(_h='lines', cells=[4, 2], lim_type=2, capa=capa, char=1, _w=4))
        out.append(dict(_h='lines', cells=[3, 2, 2], lim_type=1, limiters=4, capa=capa, tfluct=capa, _w=8))
        out.append(dict(_h='lines', cells=[1, 2, 3], lim_type=2, capa=capa, tfluct=not capa, _w=8))
    return out
