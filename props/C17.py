"""C17: coordinates follow from the current grid definition, after any history."""
from .common import *

ENCODED = ['Dimension.nodes/centers/delta/lower/upper/num_cells/centers_with_ghost/nodes_with_ghost',
           'Grid.c_centers/c_nodes/p_centers/p_nodes/c_center/p_center/*_with_ghost/mapc2p/add_dimension/get_dim_attribute',
           'Patch.*_global/delta/dimensions, Domain.__init__/grid/patch']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'every intermediate definition is valid (upper > lower)',
               'arrays handed out are not overwritten by the caller', 'mappings are pointwise functions of the coordinates']


def BOUNDS(tier):
    return ('histories of up to %s changes and queries on 1D grids, %s on 2D and 3D grids; arbitrary bounds, 1-3 cells per axis, 0-2 ghost layers; quadratic mappings with arbitrary coefficients'
            % (('3', '2') if tier == 'quick' else ('4', '3')))


class Model:
    """the definition: bounds, cells and mapping"""
    def __init__(self, lo, up, n, names):
        self.lo, self.up, self.n, self.names = list(lo), list(up), list(n), list(names)
        self.map = lambda *x: x

    def node(self, k, i):
        return self.lo[k] + (self.up[k] - self.lo[k]) * i / self.n[k]

    def center(self, k, i):
        return self.lo[k] + (self.up[k] - self.lo[k]) * (2 * i + 1) / (2 * self.n[k])


def eqarr(ctx, label, got, shape, f):
    got = np.asarray(got)
    if got.shape != tuple(shape):
        ctx.fail(label + ' (shape)')
        return
    for idx in np.ndindex(*shape):
        ctx.check_eq(label, got[idx], f(idx))


def verify(ctx, patch, m, order, ng):
    g = patch.grid
    nd = len(m.n)

    def dims():
        for k in range(nd):
            d = getattr(g, m.names[k])
            ctx.check_eq('cell width', d.delta, (m.up[k] - m.lo[k]) / m.n[k])
            ctx.check_eq('lower bound', d.lower, m.lo[k])
            ctx.check_eq('upper bound', d.upper, m.up[k])
            ctx.check('number of cells', d.num_cells == m.n[k] and len(d) == m.n[k])
            eqarr(ctx, 'nodes of a dimension', d.nodes, (m.n[k] + 1,), lambda i: m.node(k, i[0]))
            eqarr(ctx, 'centers of a dimension', d.centers, (m.n[k],), lambda i: m.center(k, i[0]))
            eqarr(ctx, 'nodes of a dimension with ghost cells', d.nodes_with_ghost(ng), (m.n[k] + 1 + 2 * ng,), lambda i: m.node(k, i[0] - ng))
            eqarr(ctx, 'centers of a dimension with ghost cells', d.centers_with_ghost(ng), (m.n[k] + 2 * ng,), lambda i: m.center(k, i[0] - ng))

    def full(label, fn, extra, coord, off, mapped):
        def go():
            r = fn()
            if not mapped or nd > 1 or isinstance(r, (list, tuple)):
                r = list(r)
            else:
                r = [r]
            if len(r) != nd:
                ctx.fail(label + ' (one array per axis)')
                return
            shape = tuple(n + extra for n in m.n)
            for k in range(nd):
                def want(idx):
                    c = [coord(j, idx[j] - off) for j in range(nd)]
                    return m.map(*c)[k] if mapped else c[k]
                eqarr(ctx, label, r[k], shape, want)
        return go

    def points():
        for idx in {tuple(0 for _ in m.n), tuple(n - 1 for n in m.n)}:
            c = g.c_center(list(idx))
            p = g.p_center(list(idx))
            want = [m.center(k, idx[k]) for k in range(nd)]
            for k in range(nd):
                ctx.check_eq('center of one cell', c[k], want[k])
                ctx.check_eq('mapped center of one cell', p[k], m.map(*want)[k])

    def attributes():
        for k in range(nd):
            ctx.check_eq('grid lower', g.lower[k], m.lo[k])
            ctx.check_eq('grid upper', g.upper[k], m.up[k])
            ctx.check_eq('grid delta', g.delta[k], (m.up[k] - m.lo[k]) / m.n[k])
            ctx.check_eq('patch lower', patch.lower_global[k], m.lo[k])
            ctx.check_eq('patch upper', patch.upper_global[k], m.up[k])
            ctx.check_eq('patch delta', patch.delta[k], (m.up[k] - m.lo[k]) / m.n[k])
            ctx.check('cells', g.num_cells[k] == m.n[k] and patch.num_cells_global[k] == m.n[k])
        ctx.check('dimensions', g.num_dim == nd and patch.num_dim == nd and [d.name for d in g.dimensions] == m.names and [d.name for d in patch.dimensions] == m.names and list(patch.name) == m.names)

    todo = [dims,
            full('cell centers of the grid', lambda: g.c_centers, 0, m.center, 0, False),
            full('mapped cell centers', lambda: g.p_centers, 0, m.center, 0, True),
            full('nodes of the grid', lambda: g.c_nodes, 1, m.node, 0, False),
            full('mapped nodes', lambda: g.p_nodes, 1, m.node, 0, True),
            full('cell centers with ghost cells', lambda: g.c_centers_with_ghost(ng), 2 * ng, m.center, ng, False),
            full('mapped cell centers with ghost cells', lambda: g.p_centers_with_ghost(ng), 2 * ng, m.center, ng, True),
            full('nodes with ghost cells', lambda: g.c_nodes_with_ghost(ng), 2 * ng + 1, m.node, ng, False),
            full('mapped nodes with ghost cells', lambda: g.p_nodes_with_ghost(ng), 2 * ng + 1, m.node, ng, True),
            points, attributes]
    for f in (todo if order == 0 else todo[::-1]):
        f()


def mapping(ctx, nd, tag):
    a = [[var(ctx, 'm%s_%d%d' % (tag, k, j)) for j in range(nd)] for k in range(nd)]
    def f(*x):
        return [sum((a[k][j] * x[j] for j in range(nd)), 0) + x[k] * x[k] for k in range(nd)]
    return f


def history(ctx, cells, steps, first, ng=2, order=0, ctor='args', ops=None):
    P = pyclaw()
    nd = len(cells)
    lo = [ctx.real('lo%d' % k) for k in range(nd)]
    up = [ctx.real('up%d' % k) for k in range(nd)]
    for k in range(nd):
        ctx.assume(lo[k] < up[k])
    names = ['x', 'y', 'z'][:nd]
    if ctor == 'args':
        dom = P.Domain(lo, up, list(cells))
    else:
        dd = [P.Dimension(lo[k], up[k], cells[k], name=names[k]) for k in range(nd)]
        dom = P.Domain(dd if ctor == 'dims' else [P.Patch(dd)])
    patch = dom.patch
    ctx.check('grid of the domain', dom.grid is patch.grid and dom.num_dim == nd)
    g = patch.grid
    m = Model(lo, up, cells, names)
    OPS = ops or ['none', 'lower', 'upper', 'cells', 'map', 'q_dim', 'q_c', 'q_p', 'q_cn', 'q_pn', 'q_ghost', 'q_one']
    for s in range(steps):
        op = first if s == 0 else ctx.choice('op%d' % s, OPS)
        k = 0 if nd == 1 or op.startswith('q') or op in ('none', 'map') else ctx.choice('axis%d' % s, list(range(nd)))
        d = getattr(g, names[k])
        if op == 'lower':
            v = ctx.real('nlo%d' % s)
            ctx.assume(v < m.up[k])
            d.lower = v
            m.lo[k] = v
        elif op == 'upper':
            v = ctx.real('nup%d' % s)
            ctx.assume(v > m.lo[k])
            d.upper = v
            m.up[k] = v
        elif op == 'cells':
            v = m.n[k] % 3 + 1
            d.num_cells = v
            m.n[k] = v
        elif op == 'map':
            f = mapping(ctx, nd, str(s))
            g.mapc2p = f
            m.map = f
        elif op == 'q_dim':
            for d in g.dimensions:
                d.centers, d.nodes
        elif op == 'q_c':
            g.c_centers
        elif op == 'q_p':
            g.p_centers
        elif op == 'q_cn':
            g.c_nodes
        elif op == 'q_pn':
            g.p_nodes
        elif op == 'q_ghost':
            g.p_centers_with_ghost(1), g.c_nodes_with_ghost(1)
        elif op == 'q_one':
            g.c_center([0] * nd)
    verify(ctx, patch, m, order, ng)
    ctx.reach('verified')


def shared(ctx, ng=1):
    """two grids built on the same dimension object"""
    P = pyclaw()
    lo, w1, w2 = ctx.real('lo'), ctx.real('w1', pos=True), ctx.real('w2', pos=True)
    x = P.Dimension(lo, lo + w1, 2, name='x')
    y = P.Dimension(lo, lo + w1, 1, name='y')
    a, b = P.Patch([x]), P.Patch([x, y])
    a.grid.c_centers, b.grid.p_centers, a.grid.p_nodes, b.grid.c_nodes
    x.upper = lo + w2
    x.num_cells = 3
    first = ctx.choice('first', [0, 1])
    ms = [Model([lo], [lo + w2], [3], ['x']), Model([lo, lo], [lo + w2, lo + w1], [3, 1], ['x', 'y'])]
    for i in ([0, 1] if first == 0 else [1, 0]):
        verify(ctx, (a, b)[i], ms[i], 0, ng)
    ctx.reach('verified')


def extend(ctx, ng=1):
    """adding a dimension to a grid that was already queried"""
    P = pyclaw()
    lo, up = [ctx.real('lo%d' % k) for k in range(2)], [ctx.real('up%d' % k) for k in range(2)]
    for k in range(2):
        ctx.assume(lo[k] < up[k])
    g = P.geometry.Grid([P.Dimension(lo[0], up[0], 2, name='x')])
    if ctx.boolean('mapped'):
        g.mapc2p = mapping(ctx, 1, 'a')
    if ctx.boolean('queried'):
        g.p_centers, g.p_nodes
    g.add_dimension(P.Dimension(lo[1], up[1], 3, name='y'))
    class Pt:
        pass
    p = P.Patch([P.Dimension(lo[0], up[0], 2, name='x'), P.Dimension(lo[1], up[1], 3, name='y')])
    p.grid = g
    verify(ctx, p, Model(lo, up, [2, 3], ['x', 'y']), 0, ng)
    ctx.reach('verified')


def cases(tier):
    T = tier != 'quick'
    out = [dict(_h='shared'), dict(_h='extend')]
    firsts = ['lower', 'upper', 'cells', 'map', 'q_dim', 'q_c', 'q_p', 'q_cn', 'q_pn', 'q_ghost', 'q_one']
    for f in firsts:
        for order in (0, 1):
            out.append(dict(_h='history', cells=[2], steps=4 if T else 3, first=f, order=order, ng=2 if order else 1, ctor='args' if order else 'dims', _w=8))
            out.append(dict(_h='history', cells=[2, 1], steps=3 if T else 2, first=f, order=order, ng=1 + order, ctor='args' if order else 'patch', _w=10))
    out.append(dict(_h='history', cells=[2, 3, 1], steps=1, first='none', order=0, ng=1, ctor='args', _w=10))
    out.append(dict(_h='history', cells=[1, 2, 3], steps=1, first='map', order=0, ng=2, ctor='dims', _w=10))
    out.append(dict(_h='history', cells=[3, 2], steps=1, first='none', order=0, ng=0, ctor='dims', _w=3))
    out.append(dict(_h='history', cells=[1], steps=1, first='none', order=0, ng=3, ctor='dims'))
    for f in ('q_p', 'q_pn', 'q_c', 'q_cn'):
        out.append(dict(_h='history', cells=[2, 1, 1], steps=3 if T else 2, first=f, order=0, ng=1, ctor='args', ops=['lower', 'cells', 'map', 'q_dim'], _w=12))
    return out
