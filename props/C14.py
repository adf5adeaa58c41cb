"""C14: reconstruction of interface values."""
from fractions import Fraction
from .kcommon import *

ENCODED = ['recon.weno, recon.weno5_wave (limiters/recon.py)', 'weno5 ... weno17 (sharpclaw/weno.f90)', 'weno5, weno5_wave, weno5_fwave, tvd2, tvd2_wave, weno_comp (sharpclaw/reconstruct.f90)',
           'flux1 (sharpclaw/flux1.f90)', 'SharpClawSolver1D.dq_hyperbolic', 'SharpClawSolver.setup / _set_fortran_parameters']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim); the regularisation of the two fifth-order versions (1e-36 and 12e-36) is taken to be the same',
               'the interface values are those handed to the Riemann solver', 'wave-based reconstruction: wave strengths above the 1e-14 threshold under which the code ignores a wave; f-waves: nonzero speeds',
               'two kernels with wave-based reconstruction: waves that sum to the jump, with the same eigenvectors at every interface',
               'orders 13 to 17: the sums of weights are assumed nonzero (the decimal coefficients are not exact)']
EXTS = ['sharpclaw1']
TINY = 1e-36


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'every interface of grids of 1-%d cells with the ghost width of the order (3 to 9); orders 5 to 17; TVD limiters 1-5; component-wise and wave-based; interpreted and compiled kernels' % (2 if tier == 'quick' else 4)


def states(ctx, lang, Q, lim_type, order=5, char=0, waves=None, nw=1, limiters=1, fwave=False):
    """{(left cell, right cell): (left value, right value)} at the faces of interior cells, for the cell averages Q (ghost cells included)"""
    ne, n = Q.shape
    ng = (order + 1) // 2
    mx = n - 2 * ng
    seen = {}

    def val(x):
        return int(x.cval()) if ctx.symbolic and not isinstance(x, (int, float)) else int(x)

    def solve(ixy, L, R, al, ar):
        a, b = val(al[0]), val(ar[0])
        if a + 1 == b:
            seen[a, b] = (list(L), list(R))
        z = [ctx.const(0)] * ne
        if waves is None:
            return [z] * nw, [ctx.const(1)] * nw, z, z
        w, s = waves(list(L), list(R))
        return w, s, z, z
    kw = dict(lim_type=lim_type, weno_order=order, char_decomp=char, num_ghost=ng, fwave=fwave)
    if lim_type == 1:
        kw['limiters'] = limiters
    rp = RP(ctx, 1, solve) if lang == 'Fortran' else py_rp(ctx, solve, nw)
    s = solver(ctx, 'sharpclaw', 1, rp, ne, nw, language=lang, bc='extrap', aux_bc='extrap', **kw)
    sol = make_solution(ctx, (mx,), ne, 1, delta=[ctx.const(1) if ctx.symbolic else 1.0], q=Q[:, ng:ng + mx].copy(), aux=np.zeros((1, mx), dtype=object if ctx.symbolic else float))
    orig = s._apply_bcs
    def bcs(state):
        orig(state)
        s.qbc[:] = Q
        s.auxbc[0] = np.arange(n, dtype=float)
    s._apply_bcs = bcs
    ctx.run('a right-hand side', rhs, ctx, s, sol, 1.0)
    faces = {(i - 1, i) for i in range(ng, ng + mx + 1)}
    ctx.check('every interface is reconstructed', faces <= set(seen))
    return {f: seen[f] for f in faces if f in seen}


def signed(ctx, name, sign=None):
    """a number of either sign (case distinction), not below 1/1000 in size"""
    s = ctx.choice('sign ' + name, (1, -1)) if sign is None else sign
    v = var(ctx, name, lo=0.001)
    return v if s == 1 else -v


def data(ctx, ne, n, away=False):
    """cell averages as partial sums: first value and increments are arbitrary (away: increments away from zero)"""
    Q = np.empty((ne, n), dtype=object if ctx.symbolic else float)
    for m in range(ne):
        v = var(ctx, 'q%d' % m)
        for i in range(n):
            if i:
                v = v + (signed(ctx, 'd%d_%d' % (m, i), None if m == 0 and i < 7 else (-1) ** (i // 2)) if away else var(ctx, 'd%d_%d' % (m, i)))
            Q[m, i] = v
    return Q


def lin_waves(ctx, ne, nw, fwave=False):
    """waves of a linear system: parts of the jump along fixed directions"""
    th = signed(ctx, 'share') if nw > ne else None
    sp = [ctx.real('s%d' % k, nz=True) for k in range(nw)]
    def waves(L, R):
        d = [y - x for x, y in zip(L, R)]
        if ne == 1:
            ws = [[th * d[0]], [d[0] - th * d[0]]] if nw == 2 else [d]
        else:
            ws = [[d[0], 0 * d[0]], [0 * d[0], d[1]]]
        if fwave:
            return [[a * t for a in v] for v, t in zip(ws, sp)], sp
        return ws, sp
    return waves


def near(ctx, label, a, b):
    ctx.check_eq(label, a, b)


def const(ctx, lang, lim_type, order=5, char=0, mx=1, nw=1, limiters=1, ne=1, fwave=False):
    ctx.signs(nonzero=order > 11, soft=lang == 'Python')
    ng = (order + 1) // 2
    c = [var(ctx, 'c%d' % m) for m in range(ne)]
    Q = np.array([[x] * (mx + 2 * ng) for x in c], dtype=object if ctx.symbolic else float)
    w = None
    if char:
        u = [ctx.real('s%d' % k, nz=True) for k in range(nw)]
        w = lambda L, R: ([[y - x for x, y in zip(L, R)]] * nw, u)
    for f, (l, r) in states(ctx, lang, Q, lim_type, order, char, w, nw, limiters, fwave).items():
        for m in range(ne):
            near(ctx, 'constant data: left value', l[m], c[m])
            near(ctx, 'constant data: right value', r[m], c[m])
    ctx.reach('const')


def linear(ctx, lang, lim_type, order=5, char=0, mx=1, nw=1, limiters=1, ne=1, fwave=False):
    ctx.signs(nonzero=order > 11, soft=lang == 'Python')
    ng = (order + 1) // 2
    c = [var(ctx, 'c%d' % m) for m in range(ne)]
    d = [signed(ctx, 'd%d' % m) if char else var(ctx, 'd%d' % m) for m in range(ne)]
    n = mx + 2 * ng
    Q = np.array([[x + y * i for i in range(n)] for x, y in zip(c, d)], dtype=object if ctx.symbolic else float)
    w = None
    if char:
        w = lin_waves(ctx, ne, nw, fwave)
    for (a, b), (l, r) in states(ctx, lang, Q, lim_type, order, char, w, nw, limiters, fwave).items():
        for m in range(ne):
            x = c[m] + d[m] * (a + Fraction(1, 2) if ctx.symbolic else a + 0.5)
            near(ctx, 'linear data: left value', l[m], x)
            near(ctx, 'linear data: right value', r[m], x)
    ctx.reach('linear')


def mirror(ctx, lang, lim_type, order=5, char=0, mx=1, nw=1, limiters=1, ne=1):
    ctx.signs()
    ng = (order + 1) // 2
    n = mx + 2 * ng
    Q = data(ctx, ne, n)
    w = wm = None
    if char:
        sg = ctx.choice('direction', (1, -1))
        def w(L, R):
            o = ctx.uf('w', list(L) + list(R), nw * ne + nw, signs=['+'] * (nw * ne + nw))
            o = [x + (Fraction(1, 1000) if ctx.symbolic else 0.001) for x in o[:nw * ne]] + o[nw * ne:]
            return [o[k * ne:(k + 1) * ne] for k in range(nw)], [sg * x for x in o[nw * ne:]]
        def wm(L, R):
            ws, s = w(R, L)
            return [[-x for x in v] for v in ws], [-x for x in s]
    A = states(ctx, lang, Q, lim_type, order, char, w, nw, limiters)
    B = states(ctx, lang, Q[:, ::-1].copy(), lim_type, order, char, wm, nw, limiters)
    for (a, b), (l, r) in A.items():
        l2, r2 = B[n - 1 - b, n - 1 - a]
        for m in range(ne):
            ctx.check_eq('mirrored data: left value', l[m], r2[m])
            ctx.check_eq('mirrored data: right value', r[m], l2[m])
    ctx.reach('mirror')


def independent(ctx, lang, lim_type, order=5, mx=1, limiters=(1,)):
    """each component alone gives the same values as all together"""
    ctx.signs()
    ng = (order + 1) // 2
    Q = data(ctx, 2, mx + 2 * ng)
    lims = list(limiters)
    A = states(ctx, lang, Q, lim_type, order, limiters=lims[:2] if len(lims) > 1 else lims[0])
    for m in range(2):
        B = states(ctx, lang, Q[m:m + 1].copy(), lim_type, order, limiters=lims[m] if len(lims) > 1 else lims[0])
        for f in A:
            ctx.check_eq('component alone: left value', A[f][0][m], B[f][0][0])
            ctx.check_eq('component alone: right value', A[f][1][m], B[f][1][0])
    ctx.reach('independent')


def agree(ctx, lim_type=2, char=0, mx=1, ne=1, nw=1):
    """interpreted and compiled kernels reconstruct the same values"""
    ctx.signs()
    if ctx.symbolic:
        from vlib import sym
        if lim_type == 2 and char == 0:
            sym.SP.consts = {float(np.float32(TINY)): Fraction(1, 12 * 10 ** 36)}
    Q = data(ctx, ne, mx + 6, away=bool(char))
    w = None
    if char:
        w = lin_waves(ctx, ne, nw)
    A = states(ctx, 'Python', Q, 2, 5, char, w, nw)
    B = states(ctx, 'Fortran', Q, lim_type, 5, char, w, nw)
    for f in A:
        ctx.check_eq('kernels agree: left value', A[f][0], B[f][0])
        ctx.check_eq('kernels agree: right value', A[f][1], B[f][1])
    ctx.reach('agree')


def coeffs(k, r, right):
    """value at the right (left) face of cell 0 of the polynomial with the averages of cells -r .. k-1-r"""
    x = Fraction(1, 2) if right else Fraction(-1, 2)
    pts = [Fraction(-1, 2) + (j - r) for j in range(k + 1)]
    out = []
    for j in range(k):
        tot = Fraction(0)
        for m in range(j + 1, k + 1):
            den = Fraction(1)
            for l in range(k + 1):
                if l != m:
                    den *= pts[m] - pts[l]
            num = Fraction(0)
            for l in range(k + 1):
                if l == m:
                    continue
                p = Fraction(1)
                for i in range(k + 1):
                    if i not in (l, m):
                        p *= x - pts[i]
                num += p
            tot += num / den
        out.append(tot)
    return out


def inverse(M):
    n = len(M)
    A = [list(map(Fraction, r)) + [Fraction(int(i == j)) for j in range(n)] for i, r in enumerate(M)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c] != 0), None)
        if p is None:
            return None
        A[c], A[p] = A[p], A[c]
        A[c] = [x / A[c][c] for x in A[c]]
        for r in range(n):
            if r != c and A[r][c]:
                A[r] = [x - A[r][c] * y for x, y in zip(A[r], A[c])]
    return [r[n:] for r in A]


def convex(ctx, lang, lim_type, order=5, right=True, upper=True, cell=0):
    """the value lies between the smallest and the largest candidate: the data are written in terms of the
    differences (of one sign) between a bound and the candidates of one interface"""
    ctx.signs()
    k = (order + 1) // 2
    n = 2 * k + 1
    c = k - cell                      # interface to the right of this cell / to its left
    rows = []
    for s in range(k):
        row = [Fraction(0)] * order
        for j, x in enumerate(coeffs(k, s, right)):
            row[k - 1 - s + j] = x
        rows.append(row)
    for j in range(order):
        if len(rows) == order:
            break
        for t in range(order):
            e = [Fraction(int(i == t)) for i in range(order)]
            A = rows + [e]
            # independent of the rows so far?
            if rank(A) == len(A):
                rows.append(e)
                break
    inv = inverse(rows)
    b = var(ctx, 'bound')
    z = [b - var(ctx, 'e%d' % i, nonneg=True) if upper else b + var(ctx, 'e%d' % i, nonneg=True) for i in range(k)]
    z += [var(ctx, 'f%d' % i) for i in range(order - k)]
    Q = np.empty((1, n), dtype=object if ctx.symbolic else float)
    for i in range(n):
        Q[0, i] = var(ctx, 'rest%d' % i)
    for i in range(order):
        Q[0, c - k + 1 + i] = sum([(x if ctx.symbolic else float(x)) * y for x, y in zip(inv[i], z)], ctx.const(0))
    S = states(ctx, lang, Q, lim_type, order)
    v = S[c, c + 1][0][0] if right else S[c - 1, c][1][0]
    e = 0 if ctx.symbolic else 1e-9 * (1 + max([abs(float(x)) for x in Q[0]]))
    if upper:
        ctx.check_le('not above every candidate', v, b + e)
    else:
        ctx.check_le('not below every candidate', b - e, v)
    ctx.reach('convex')


def rank(M):
    M = [list(r) for r in M]
    rk = 0
    for c in range(len(M[0])):
        p = next((r for r in range(rk, len(M)) if M[r][c] != 0), None)
        if p is None:
            continue
        M[rk], M[p] = M[p], M[rk]
        for r in range(rk + 1, len(M)):
            if M[r][c]:
                f = M[r][c] / M[rk][c]
                M[r] = [x - f * y for x, y in zip(M[r], M[rk])]
        rk += 1
    return rk


def between(ctx, limiters, mx=1, char=0):
    """second-order TVD values lie between neighbouring averages"""
    ng = 3
    Q = data(ctx, 1, mx + 6)
    w = (lambda L, R: ([[R[0] - L[0]]], [ctx.const(1)])) if char else None
    if char:
        for i in range(1, mx + 6):
            ctx.assume(ctx.abs(Q[0, i] - Q[0, i - 1]) >= 1e-3)
    for (a, b), (l, r) in states(ctx, 'Fortran', Q, 1, 5, char, w, 1, limiters).items():
        x, y = Q[0, a], Q[0, b]
        e = 0 if ctx.symbolic else 1e-9 * (1 + abs(x) + abs(y))
        for v in (l[0], r[0]):
            ctx.check('between the neighbouring averages', ctx.And(v <= ctx.max(x, y) + e, ctx.min(x, y) - e <= v))
    ctx.reach('between')


def cases(tier):
    T = tier != 'quick'
    out = []
    M = 2 if not T else 4
    for lang, lt in (('Python', 2), ('Fortran', 2), ('Fortran', 3)):
        for h in ('const', 'linear', 'mirror', 'independent'):
            out.append(dict(_h=h, lang=lang, lim_type=lt, mx=M if h != 'mirror' else 2))
    for o in (7, 9, 11, 13, 15, 17):
        out.append(dict(_h='const', lang='Fortran', lim_type=2, order=o, mx=1, _w=o))
        if o <= 13 or T:
            out.append(dict(_h='linear', lang='Fortran', lim_type=2, order=o, mx=1, _w=o))
    for o in (7, 9) if not T else (7, 9, 11):
        out.append(dict(_h='mirror', lang='Fortran', lim_type=2, order=o, mx=1, _w=2 * o))
        out.append(dict(_h='independent', lang='Fortran', lim_type=2, order=o, mx=1, _w=2 * o))
    for lang in ('Python', 'Fortran'):
        for ne, nw in ((1, 1), (2, 2)):
            for h in ('const', 'linear') + (('mirror',) if nw == 1 else ()):
                out.append(dict(_h=h, lang=lang, lim_type=2, char=1, ne=ne, nw=nw, mx=1))
    for h in ('const', 'linear'):
        out.append(dict(_h=h, lang='Fortran', lim_type=2, char=1, ne=1, nw=1, fwave=True))
    for k in (1, 2, 3, 4, 5):
        for h in ('const', 'linear') + (('mirror',) if k < 5 else ()):
            out.append(dict(_h=h, lang='Fortran', lim_type=1, limiters=k, mx=2))
            if k < 4:
                out.append(dict(_h=h, lang='Fortran', lim_type=1, limiters=k, char=1, mx=1))
        if k < 5:
            out.append(dict(_h='between', limiters=k, mx=2))
    out.append(dict(_h='independent', lang='Fortran', lim_type=1, limiters=[2, 4], mx=2))
    out.append(dict(_h='agree', lim_type=2, mx=1, _w=9))
    out.append(dict(_h='agree', lim_type=3, mx=M, ne=2))
    out.append(dict(_h='agree', char=1, mx=1, ne=2, nw=2, _w=9))
    out.append(dict(_h='agree', char=1, mx=1 if not T else 3, ne=1, nw=1, _w=9))
    for o in (5, 7, 9) if not T else (5, 7, 9, 11):
        for right, cell in ((True, 0), (True, 1), (False, 0)):
            for upper in (True, False):
                out.append(dict(_h='convex', lang='Fortran', lim_type=2, order=o, right=right, upper=upper, cell=cell, _w=o))
    return out
