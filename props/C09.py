"""C09: limiters."""
from .kcommon import *
from .C08 import phi

ENCODED = ['limiters.tvd.limit', 'limiters.tvd.limiter_functions (1-18, 21-23)', 'limiter (classic/limiter.f90)', 'philim (classic/philim.f90)']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'Courant number of the limited wave strictly between 0 and 1 (CFL-dependent limiters)',
               'limiters 19 (hyperbee) and 20 (superpower) use real powers and are outside the encoding']
EXTS = ['classic1', 'classic2', 'classic3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'every ratio and Courant number; wave arrays of 4%s faces, 1-2 equations, 1-2 families' % ('' if tier == 'quick' else '-5')


def tvd():
    from clawpack.pyclaw.limiters import tvd as t
    return t


def theta(ctx, r, c, th):
    m1, m2 = ctx.max(0.001, c), ctx.min(0.999, c)
    s1, s2, pm = 2 / m1, (1 + c) / 3, 2 / (1 - m2)
    return ctx.min(ctx.max((1 - th) * s1, 1 + s2 * (r - 1)), ctx.max((1 - th) * pm * r, th * s1 * r), th * pm)


def beta(ctx, r, c, th, be=2. / 3.):
    m1, m2 = ctx.max(0.001, c), ctx.min(0.999, c)
    s2 = (1 + c) / 3
    ultra = ctx.max(0, ctx.min(th * 2 / m1 * r, th * 2 / (1 - m2)))
    return ctx.max(0, ctx.min(ultra, ctx.max(1 + (s2 - be / 2) * (r - 1), 1 + (s2 + be / 2) * (r - 1))))


def formula(ctx, k, r, c):
    """the functions of the smoothness ratio (and Courant number) by number"""
    a = ctx.abs(r)
    m1, m2 = ctx.max(0.001, c), ctx.min(0.999, c)
    if k <= 5:
        return phi(ctx, k, r)
    if k == 6:
        return (1 + r) / 2
    if k == 7:
        return (r * r + r) / (1 + r * r)
    if k == 8:
        return (1 + r) / 2 * (1 - ctx.abs(1 - r) ** 3 / (1 + a ** 3))
    if k == 9:
        sh = ctx.min(r, 1 / ctx.max(r, 1.e-5))
        return (r + a) / (1 + a) * (1 + sh * (1 - sh) * (1 - sh * sh))
    if k == 10:
        return 1 + (1 + c) / 3 * (r - 1)
    if k == 11:
        return ctx.max(0, ctx.min(0.99 * 2 / c * r, 1 + (1 + c) / 3 * (r - 1), 0.99 * 2 / (1 - c)))
    if k in (12, 13, 14):
        return theta(ctx, r, c, {12: 0.95, 13: 0.75, 14: 0.5}[k])
    if k == 15:
        return ctx.max(0, ctx.min(1, 2 * r / m1), ctx.min(2 / (1 - m2), r))
    if k == 16:
        ultra = ctx.max(0, ctx.min(0.95 * 2 / m1 * r, 0.95 * 2 / (1 - m2)))
        return ctx.min(ultra, ctx.max(1, r))
    if k in (17, 18):
        return beta(ctx, r, c, 0.0 if k == 17 else 0.95)
    if k == 22:
        return ctx.max(ctx.min(1 + (1 + c) / 3 * (r - 1), 2 * a / (0.6 + a), 5 / a), -3 / a)
    if k == 23:
        return ctx.max(0, ctx.min(2 / m1 * r, 2 / (1 - m2)))


def _ratio(ctx, name, k):
    r = ctx.real(name)
    if k in (21, 22):
        ctx.assume(r != 0)
    return r


def function(ctx, k):
    f = tvd().limiter_functions[k]
    r = [_ratio(ctx, 'r%d' % i, k) for i in range(2)]
    c = [ctx.real('cfl%d' % i, pos=True, hi=1) for i in range(2)]
    for x in c:
        ctx.assume(x < 1)
    dt = object if ctx.symbolic else float
    v = np.asarray(ctx.run('limiter function', f, np.array(r, dtype=dt), np.array(c, dtype=dt)))
    ctx.check('one value per interface', v.shape == (2,))
    for i in range(2):
        alone = np.asarray(f(np.array([r[i]], dtype=dt), np.array([c[i]], dtype=dt)))[0]
        ctx.check_eq('the value depends on the own ratio only', v[i], alone)
        if k != 21:
            ctx.check_eq('documented limiter function', v[i], formula(ctx, k, r[i], c[i]))
    if k in (1, 2, 3, 4):
        _tvd(ctx, v[0], r[0])
    if k in (1, 2, 3, 4, 5, 6, 7, 8, 10):
        one = np.asarray(f(np.array([ctx.const(1)], dtype=dt), np.array([c[0]], dtype=dt)))[0]
        ctx.check_eq('one on linear data', one, 1)
    ctx.reach('function')


def _tvd(ctx, p, r):
    ctx.check('zero at extrema, between 0 and min(2, 2r) elsewhere',
              ctx.And(ctx.Or(r > 0, p == 0), p >= 0, p <= 2, ctx.Or(r <= 0, p <= 2 * r)))


def waves(ctx, lang, ext, ne, nw, lim, n=4, uniform=True):
    """limiting a family of waves"""
    ng = 2
    m = n - 4 + 1
    dt = object if ctx.symbolic else float
    if lang == 'Fortran':
        n = m + 2 * ng          # face i separates cells i-1 and i, i = 1-ng .. m+ng
        w = ctx.reals('w', (ne, nw, n))
        s = ctx.reals('s', (nw, n))
        w0 = w.copy()
        W = np.asfortranarray(w.copy())
        S = np.asfortranarray(s.copy())
        fm = kernels.use(ctx, ext)
        ctx.run('limiter', fm.limiter, m, ng, m, W, S, np.array(lim, dtype=np.int32) if not ctx.symbolic else np.array(lim, dtype=object))
        inner = range(ng, ng + m + 1)
        cf = None
    else:
        w = ctx.reals('w', (ne, nw, n))
        s = ctx.reals('s', (nw, n))
        for k in range(nw):
            if lim[k] == 0:         # fixes the branches of the family that is not limited
                w[:, k] = ctx.reals('w_', (ne, n), pos=True)
                s[k] = ctx.reals('s_', (n,), pos=True)
        w0 = w.copy()
        d = [ctx.real('dtdx', pos=True)] * (n + 1) if uniform else list(ctx.reals('dtdx', (n + 1,), pos=True))
        W = ctx.run('limit', tvd().limit, ne, w.copy(), s.copy(), np.array(lim, ndmin=1), np.array(d, dtype=dt))
        inner = range(1, n - 1)
    for k in range(nw):
        for i in range(n):
            orig = [w0[e, k, i] for e in range(ne)]
            got = [W[e, k, i] for e in range(ne)]
            n2 = sum([x * x for x in orig], ctx.const(0))
            if lim[k] == 0 or i not in inner or n2 == 0:
                ctx.check_eq('unlimited, boundary and zero waves are left alone', got, orig)
                continue
            j = i - 1 if s[k, i] > 0 else i + 1
            r = sum([w0[e, k, j] * w0[e, k, i] for e in range(ne)], ctx.const(0)) / n2
            if lim[k] <= 5:
                p = phi(ctx, lim[k], r)
            else:
                # Courant number in the cell the wave comes from; wave i separates cells i and i+1
                p = formula(ctx, lim[k], r, ctx.abs(s[k, i]) * d[i if s[k, i] > 0 else i + 1])
            ctx.check_eq('each wave is scaled by the limiter of its upwind ratio', got, [p * x for x in orig])
    ctx.reach('limited')


def philim(ctx, ext, k):
    fm = kernels.use(ctx, ext)
    a, b = ctx.real('a', pos=True), ctx.real('b')
    v = ctx.run('philim', fm.philim, a, b, k)
    r = b / a
    ctx.check_eq('documented limiter function', v, phi(ctx, k, r))
    if k < 5:
        _tvd(ctx, v, r)
    ctx.check_eq('one on linear data', fm.philim(a, a, k), 1)
    ctx.reach('philim')


def cases(tier):
    T = tier != 'quick'
    out = [dict(_h='function', k=k) for k in (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21, 22, 23)]
    for e in EXTS:
        for k in range(1, 6):
            out.append(dict(_h='philim', ext=e, k=k))
    for lang in ('Python', 'Fortran'):
        for k in range(1, 6):
            out.append(dict(_h='waves', lang=lang, ext='classic1', ne=1, nw=1, lim=[k], _w=2))
        out.append(dict(_h='waves', lang=lang, ext='classic1', ne=2, nw=1, lim=[4], _w=3))
        out.append(dict(_h='waves', lang=lang, ext='classic1', ne=1, nw=2, lim=[0, 3], _w=3))
        out.append(dict(_h='waves', lang=lang, ext='classic1', ne=1, nw=2, lim=[1, 0], _w=3))
        if T:
            for k in range(1, 6):
                out.append(dict(_h='waves', lang=lang, ext='classic1', ne=2, nw=1, lim=[k], n=5, _w=5))
            out.append(dict(_h='waves', lang=lang, ext='classic1', ne=1, nw=2, lim=[2, 4], _w=5))
    for k in (6, 10):
        out.append(dict(_h='waves', lang='Python', ext='classic1', ne=1, nw=1, lim=[k]))
    out.append(dict(_h='waves', lang='Python', ext='classic1', ne=1, nw=1, lim=[10], uniform=False, n=5))
    out.append(dict(_h='waves', lang='Python', ext='classic1', ne=1, nw=2, lim=[10, 10], uniform=False, n=3))
    out.append(dict(_h='waves', lang='Python', ext='classic1', ne=1, nw=2, lim=[1, 10], n=3))
    out.append(dict(_h='waves', lang='Python', ext='classic1', ne=1, nw=1, lim=[12], uniform=False, n=3))
    for e in ('classic2', 'classic3'):
        out.append(dict(_h='waves', lang='Fortran', ext=e, ne=1, nw=2, lim=[4, 0], _w=2))
    return out
