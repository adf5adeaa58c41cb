"""C25: unsplit multidimensional steps are the documented wave-propagation method."""
from .kcommon import *
from .C08 import phi

ENCODED = ['step2, flux2, step3, flux3, limiter, philim (classic/*.f90)', 'ClawSolver2D/3D.step_hyperbolic', 'ClawSolver._set_method / _set_mthlim', 'Solver._apply_bcs', 'State.get_qbc_from_q / set_q_from_qbc']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)',
               'Riemann solvers (normal and transverse): arbitrary functions of the states, auxiliary values and fluctuation they are given',
               'ghost cells: arbitrary values (their filling is C06)', 'capacity values positive; f-wave form: speeds nonzero',
               'plane cases: transverse solvers linear in the fluctuation, data independent of one axis']
EXTS = ['classic2', 'classic3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return '2D: grids of 1x1 to %s cells with two ghost cells on each side, 1-2 equations and waves, every order and transverse setting; 3D: 1x1x2 to 2x2x1 cells with data independent of one axis, every transverse setting' % ('2x1' if tier == 'quick' else '2x2')


def freed(ctx, s, cells, ng, ne, na, icapa, only=None):
    """arbitrary ghost values; keeps what the kernel was given"""
    grab = {}
    orig = s._apply_bcs
    full = tuple(n + 2 * ng for n in cells)
    inner = tuple(slice(ng, -ng) for n in cells)

    def bcs(state):
        orig(state)
        g = arr(ctx, 'ghost', (ne,) + full)
        g[(slice(None),) + inner] = s.qbc[(slice(None),) + inner]
        s.qbc[...] = g
        if na:
            g = arr(ctx, 'ghostaux', (na,) + full)
            if icapa is not None:
                g[icapa] = arr(ctx, 'ghostcapa', full, pos=True)
            g[(slice(None),) + inner] = s.auxbc[(slice(None),) + inner]
            s.auxbc[...] = g
        grab['q'], grab['aux'] = s.qbc.copy(), (s.auxbc.copy() if na else None)
    s._apply_bcs = bcs
    return grab


def limited(ctx, w, s, left, right, lim):
    out = []
    for k in range(len(w)):
        if lim[k]:
            up = left if s[k] > 0 else right
            n2 = sum([x * x for x in w[k]], ctx.const(0))
            if n2 == 0:
                out.append(w[k])
                continue
            p = phi(ctx, lim[k], sum([x * y for x, y in zip(w[k], up[0][k])], ctx.const(0)) / n2)
            out.append([p * x for x in w[k]])
        else:
            out.append(w[k])
    return out


def reference2(ctx, q, aux, cells, ng, dt, delta, order, tr, lim, fwave, icapa, solve, trans):
    """LeVeque's unsplit method: Godunov fluctuations, limited corrections, transverse corrections"""
    ne = q.shape[0]
    mx, my = cells
    one = ctx.const(1)
    kap = (lambda c: aux[(icapa,) + c]) if icapa is not None else (lambda c: one)
    A = (lambda c: [] if aux is None else list(aux[(slice(None),) + c]))
    Q = lambda c: list(q[(slice(None),) + c])
    F = [{}, {}]                       # corrections on the faces below cell c in each direction
    G = {}                             # Godunov part
    def add(d, c, v):
        F[d][c] = [x + y for x, y in zip(F[d].get(c, [ctx.const(0)] * ne), v)]
    e = ((1, 0), (0, 1))
    mv = lambda c, d, k=1: (c[0] + k * e[d][0], c[1] + k * e[d][1])
    for d in (0, 1):
        o = 1 - d
        n, m = cells[d], cells[o]
        r = dt / delta[d]
        sol = {}
        def at(c):
            if c not in sol:
                b = mv(c, d, -1)
                sol[c] = solve(d + 1, Q(b), Q(c), A(b), A(c))
            return sol[c]
        for j in range(ng - 1, ng + m + 1):            # lines of cells, with one ghost line on each side
            for i in range(ng, ng + n + 1):
                c = (i, j) if d == 0 else (j, i)
                b = mv(c, d, -1)
                w, s, am, ap = at(c)
                rl, rr = r / kap(b), r / kap(c)
                inside = ng <= j < ng + m
                if inside:
                    G[b] = [x - rl * y for x, y in zip(G.get(b, [ctx.const(0)] * ne), am)]
                    G[c] = [x - rr * y for x, y in zip(G.get(c, [ctx.const(0)] * ne), ap)]
                cor = [ctx.const(0)] * ne
                if order == 2:
                    lw = limited(ctx, w, s, at(b), at(mv(c, d)), lim) if any(lim) else w
                    ave = (rl + rr) / 2
                    for k in range(len(w)):
                        a = ctx.abs(s[k])
                        f = (one if s[k] > 0 else -one) if fwave else a
                        cor = [x + f * (1 - a * ave) * y for x, y in zip(cor, lw[k])]
                    if inside:
                        add(d, c, [x / 2 for x in cor])
                if tr:
                    rows = []
                    if aux is not None:
                        rows = [A(mv(b, o, k)) + A(mv(c, o, k)) for k in (-1, 0, 1)]
                    if tr == 2 and order == 2:
                        am = [x + y for x, y in zip(am, cor)]
                        ap = [x - y for x, y in zip(ap, cor)]
                    for imp, cell, fl, rate in ((1, b, am, rl), (2, c, ap, rr)):
                        lo, hi = trans((d + 1, imp), Q(b), Q(c), rows, fl)
                        add(o, cell, [-rate * x / 2 for x in lo])
                        add(o, mv(cell, o), [-rate * x / 2 for x in hi])
    new = np.empty((ne,) + tuple(cells), dtype=q.dtype)
    z = [ctx.const(0)] * ne
    for i in range(mx):
        for j in range(my):
            c = (i + ng, j + ng)
            for m in range(ne):
                v = q[(m,) + c] + G.get(c, z)[m]
                for d in (0, 1):
                    v = v - dt / delta[d] / kap(c) * (F[d].get(mv(c, d), z)[m] - F[d].get(c, z)[m])
                new[m, i, j] = v
    return new


def formula(ctx, cells, order, tr, lim, ne=1, nw=1, capa=False, na=0, fwave=False, signs=None, waves=False):
    ng = 2
    cells = tuple(cells)
    if signs:
        ctx.signs()
    base = general_rp(ctx, ne, nw, signs=list(signs) if signs else None, wave_signs=['+'] * (ne * nw) if waves else None)
    solve = base
    if fwave:
        def solve(*a):
            o = base(*a)
            for x in o[1]:
                ctx.assume(x != 0)
            return o
    trans = general_trans(ctx, ne)
    na = max(na, 1 if capa else 0)
    icapa = na - 1 if capa else None
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(2)]
    dt = var(ctx, 'dt', pos=True)
    aux = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    s = solver(ctx, 'classic', 2, RP(ctx, 2, solve, trans=trans, trans_aux=True), ne, nw, bc='extrap', order=order, limiters=lim, fwave=fwave, dimensional_split=False, transverse_waves=tr)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=arr(ctx, 'q', (ne,) + cells), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    grab = freed(ctx, s, cells, ng, ne, na, icapa)
    got, _ = ctx.run('an unsplit step', hyp_step, ctx, s, sol, dt)
    lims = [lim] * nw if isinstance(lim, int) else list(lim)
    want = reference2(ctx, grab['q'], grab['aux'], cells, ng, dt, delta, order, tr, lims, fwave, icapa, solve, trans)
    for i in np.ndindex(*want.shape):
        ctx.check_eq('the unsplit step is the wave-propagation method with the chosen transverse terms', got[i], want[i])
    ctx.reach('step')


def reference3(ctx, q, aux, cells, ng, dt, delta, order, tr, lim, fwave, icapa, solve, trans, ttrans):
    """the three-dimensional method: transverse terms of the increment (tr = 1x) and correction waves (2x),
    corner transport of the increment (x1) and also of the correction (x2)"""
    ne = q.shape[0]
    one, zero = ctx.const(1), ctx.const(0)
    z = [zero] * ne
    m3, m4 = tr // 10, tr % 10
    kap = (lambda c: aux[(icapa,) + c]) if icapa is not None else (lambda c: one)
    A = (lambda c: [] if aux is None else list(aux[(slice(None),) + c]))
    Q = lambda c: list(q[(slice(None),) + c])
    mv = lambda c, d, k=1: tuple(x + (k if j == d else 0) for j, x in enumerate(c))
    F, G = [{}, {}, {}], {}
    inner = lambda c: all(ng <= x < ng + n for x, n in zip(c, cells))
    near = lambda c: all(ng - 1 <= x < ng + n + 1 for x, n in zip(c, cells))

    def add(d, c, f, v):
        if not (inner(c) or inner(mv(c, d, -1))):
            return
        F[d][c] = [x + f * y for x, y in zip(F[d].get(c, z), v)]
    for d in range(3):
        y, w_ = (d + 1) % 3, (d + 2) % 3               # the y-like and z-like directions of this sweep
        r = dt / delta[d]
        sol = {}

        def at(c):
            if c not in sol:
                b = mv(c, d, -1)
                sol[c] = solve(d + 1, Q(b), Q(c), A(b), A(c))
            return sol[c]
        rng = [range(ng - 1, ng + n + 1) for n in cells]
        rng[d] = range(ng, ng + cells[d] + 1)
        for c in np.ndindex(*[len(x) for x in rng]):
            c = tuple(x[k] for x, k in zip(rng, c))
            b = mv(c, d, -1)
            w, s, am, ap = at(c)
            rl, rr = r / kap(b), r / kap(c)
            G[b] = [x - rl * v for x, v in zip(G.get(b, z), am)]
            G[c] = [x - rr * v for x, v in zip(G.get(c, z), ap)]
            cor = z
            if order == 2:
                lw = limited(ctx, w, s, at(b), at(mv(c, d)), lim) if any(lim) else w
                ave = (rl + rr) / 2
                for k in range(len(w)):
                    a = ctx.abs(s[k])
                    f = (one if s[k] > 0 else -one) if fwave else a
                    cor = [x + f * (1 - a * ave) * v / 2 for x, v in zip(cor, lw[k])]
                add(d, c, 1, cor)
            if not m3:
                continue
            rows = []
            if aux is not None:
                rows = [[A(mv(mv(b, y, k), w_, l)) + A(mv(mv(c, y, k), w_, l)) for l in (-1, 0, 1)] for k in (-1, 0, 1)]
            split = lambda ax, imp, v: trans((d + 1, 2 if ax == y else 3, imp), Q(b), Q(c), rows, v)
            again = lambda ax, imp, impt, v: ttrans((d + 1, 2 if ax == y else 3, imp, impt), Q(b), Q(c), rows, v)
            for imp, cell, fl, rate, sg in ((1, b, am, rl, 1), (2, c, ap, rr, -1)):
                parts = {}
                for ax in (y, w_):
                    lo, hi = split(ax, imp, fl)
                    add(ax, cell, -rate / 2, lo)
                    add(ax, mv(cell, ax), -rate / 2, hi)
                    if m3 == 2 and order == 2:
                        cl, ch = split(ax, imp if aux is not None else 0, cor)
                        add(ax, cell, -sg * rate, cl)
                        add(ax, mv(cell, ax), -sg * rate, ch)
                        if m4 == 2:
                            lo = [x + 3 * sg * v for x, v in zip(lo, cl)]
                            hi = [x + 3 * sg * v for x, v in zip(hi, ch)]
                    parts[ax] = (lo, hi)
                if m4:
                    for ax, p in ((y, w_), (w_, y)):
                        f = rate * dt / delta[p] / 6
                        for impt, v in ((1, parts[p][0]), (2, parts[p][1])):
                            lo, hi = again(ax, imp, impt, v)
                            g = -f if impt == 1 else f
                            to = mv(cell, p, -1 if impt == 1 else 1)
                            for up, x in ((0, lo), (1, hi)):
                                add(ax, mv(cell, ax, up), g, x)
                                add(ax, mv(to, ax, up), -g, x)
    new = np.empty((ne,) + tuple(cells), dtype=q.dtype)
    for i in np.ndindex(*cells):
        c = tuple(x + ng for x in i)
        for m in range(ne):
            v = q[(m,) + c] + G.get(c, z)[m]
            for d in range(3):
                v = v - dt / delta[d] / kap(c) * (F[d].get(mv(c, d), z)[m] - F[d].get(c, z)[m])
            new[(m,) + i] = v
    return new


def formula3(ctx, cells, order, tr, lim=(0,), ne=1, nw=1, capa=False, na=0, fwave=False, signs=None, waves=False):
    ng = 2
    cells = tuple(cells)
    if signs:
        ctx.signs()
    solve = general_rp(ctx, ne, nw, signs=list(signs) if signs else None, wave_signs=['+'] * (ne * nw) if waves else None)
    trans, ttrans = general_trans(ctx, ne), general_trans(ctx, ne, 'rptt')
    na = max(na, 1 if capa else 0)
    icapa = na - 1 if capa else None
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(3)]
    dt = var(ctx, 'dt', pos=True)
    aux = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        aux[icapa] = arr(ctx, 'capa', cells, pos=True)
    s = solver(ctx, 'classic', 3, RP(ctx, 3, solve, trans=trans, ttrans=ttrans, trans_aux=True), ne, nw, bc='extrap', order=order, limiters=list(lim), fwave=fwave, dimensional_split=False, transverse_waves=tr)
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=arr(ctx, 'q', (ne,) + cells), aux=aux)
    if capa:
        sol.state.index_capa = icapa
    grab = freed(ctx, s, cells, ng, ne, na, icapa)
    got, _ = ctx.run('an unsplit step', hyp_step, ctx, s, sol, dt)
    want = reference3(ctx, grab['q'], grab['aux'], cells, ng, dt, delta, order, tr, list(lim), fwave, icapa, solve, trans, ttrans)
    for i in np.ndindex(*want.shape):
        ctx.check_eq('the unsplit three-dimensional step is the wave-propagation method with the chosen transverse terms', got[i], want[i])
    ctx.reach('step')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    for tr in (0, 1, 2):
        for order in (1, 2):
            for capa in B:
                out.append(dict(_h='formula', cells=[1, 1], order=order, tr=tr, lim=[0], capa=capa, na=2 if capa else 0))
            out.append(dict(_h='formula', cells=[2, 1], order=order, tr=tr, lim=[0, 0], ne=2, nw=2, na=1))
        for fw in B:
            out.append(dict(_h='formula', cells=[1, 1], order=2, tr=tr, lim=[4], signs='+', fwave=fw, waves=True, capa=fw))
            out.append(dict(_h='formula', cells=[1, 2], order=2, tr=tr, lim=0, fwave=fw, signs='-', capa=True))
        out.append(dict(_h='formula', cells=[1, 1], order=2, tr=tr, lim=[1, 0], ne=1, nw=2, signs='+-', waves=True))
        out.append(dict(_h='formula', cells=[3, 2], order=2, tr=tr, lim=[0], capa=True, na=2, _w=3))
        for l in (1, 2, 3):
            out.append(dict(_h='formula', cells=[1, 2], order=2, tr=tr, lim=[l], signs='-' if tr == 1 else '+', waves=True))
        if T:
            out.append(dict(_h='formula', cells=[3, 3], order=2, tr=tr, lim=[0, 0], ne=2, nw=2, capa=True, na=3, _w=9))
            out.append(dict(_h='formula', cells=[2, 2], order=2, tr=tr, lim=[2, 4], nw=2, signs='-+', waves=True, _w=9))
            out.append(dict(_h='formula', cells=[2, 1], order=2, tr=tr, lim=[1], ne=2, nw=1, signs='+', waves=True, capa=True, _w=9))
            out.append(dict(_h='formula', cells=[1, 1], order=2, tr=tr, lim=[4], _w=9))
    for tr in (0, 10, 11, 20, 21, 22):
        for capa in B:
            for order in (1, 2):
                if order == 2 or tr < 20:
                    out.append(dict(_h='formula3', cells=[1, 1, 1], order=order, tr=tr, capa=capa, na=2 if capa else 0, _w=8))
        out.append(dict(_h='formula3', cells=[1, 1, 1], order=2, tr=tr, lim=[4], capa=tr == 11, signs='+' if tr % 2 else '-', waves=True, _w=8))
        out.append(dict(_h='formula3', cells=[2, 1, 1] if tr % 2 else [1, 1, 2], order=2, tr=tr, lim=[0, 0], ne=2, nw=2, na=1, _w=9))
        out.append(dict(_h='formula3', cells=[1, 2, 1], order=2, tr=tr, lim=[0], fwave=True, signs='-' if tr % 2 else '+', capa=True, _w=9))
        if T:
            out.append(dict(_h='formula3', cells=[2, 2, 2], order=2, tr=tr, capa=True, na=2, _w=20))
            out.append(dict(_h='formula3', cells=[2, 1, 3], order=2, tr=tr, ne=2, nw=1, _w=20))
            for l in (1, 2, 3):
                out.append(dict(_h='formula3', cells=[1, 1, 1], order=2, tr=tr, lim=[l], capa=l == 2, signs='-' if tr % 2 else '+', waves=True, _w=9))
            out.append(dict(_h='formula3', cells=[2, 1, 1], order=2, tr=tr, lim=[2, 0], nw=2, signs='+-', waves=True, _w=20))
    return out
