"""C20: deep copies are faithful and independent."""
import copy
from .common import *

ENCODED = ['Solution.__deepcopy__', 'State.__deepcopy__', 'Patch.__deepcopy__', 'Domain.__deepcopy__', 'State.new_array/mp/mF',
           'State.set_q_from_qbc, get_qbc_from_q, set_aux_from_auxbc, get_auxbc_from_aux, get_q_global, get_aux_global']
ASSUMPTIONS = ['values are arbitrary reals (no NaN)', 'mapping functions are immutable', 'gauge file handles are not copied']


def BOUNDS(tier):
    return '1-3 dimensions, 1-2 patches of 1-2 cells per axis, 1-2 equations, 0-2 auxiliary fields; one arbitrary change to either side (two in the thorough tier)'


def build(ctx, cells, npatch, ne, na, mp, mF, mapped, capa, fromqbc):
    P = pyclaw()
    patches, states = [], []
    nd = len(cells)
    fm = lambda *x: [2 * c for c in x]
    for k in range(npatch):
        lo = [ctx.real('lo%d_%d' % (k, j)) for j in range(nd)]
        w = [ctx.real('w%d_%d' % (k, j), pos=True) for j in range(nd)]
        pt = P.Patch([P.Dimension(lo[j], lo[j] + w[j], cells[j], name='xyz'[j]) for j in range(nd)])
        pt.level, pt.patch_index = k + 1, k + 7
        if mapped:
            pt.grid.mapc2p = fm
        patches.append(pt)
    dom = P.Domain(patches)
    t = ctx.real('t')
    for k, pt in enumerate(patches):
        s = P.State(pt, ne, na)
        q = ctx.reals('q%d' % k, (ne,) + tuple(cells))
        if fromqbc:
            ng = 2
            bc = np.zeros((ne,) + tuple(c + 2 * ng for c in cells), order='F', dtype=q.dtype)
            s.q[...] = q
            s.get_qbc_from_q(ng, bc)
            s.set_q_from_qbc(ng, bc)
        else:
            s.q[...] = q
        if na:
            s.aux[...] = ctx.reals('aux%d' % k, (na,) + tuple(cells))
        s.t = t
        s.problem_data = {'gamma': ctx.real('g%d' % k), 'nested': {'list': [ctx.real('n%d' % k), 1]}, 'arr': ctx.reals('pa%d' % k, (2,))}
        if capa:
            s.index_capa = na - 1
        if mp:
            s.mp = mp
            s.p[...] = ctx.reals('p%d' % k, (mp,) + tuple(cells))
        if mF:
            s.mF = mF
            s.F[...] = ctx.reals('F%d' % k, (mF,) + tuple(cells))
        s.keep_gauges = bool(k == 0)
        s.gauge_data = [ctx.reals('gd%d' % k, (3,))]
        states.append(s)
    return P.Solution(states, dom)


def snap_state(s):
    pt = s.patch
    d = dict(q=np.array(s.q), aux=None if s.aux is None else np.array(s.aux), t=s.t, num_eqn=s.num_eqn, num_aux=s.num_aux,
             gamma=s.problem_data['gamma'], nested=list(s.problem_data['nested']['list']), parr=np.array(s.problem_data['arr']),
             pkeys=sorted(s.problem_data), index_capa=s.index_capa, mp=s.mp, mF=s.mF, p=None if s.p is None else np.array(s.p),
             F=None if s.F is None else np.array(s.F), keep_gauges=s.keep_gauges, gauge_data=[np.array(g) for g in s.gauge_data])
    d.update(snap_patch(pt))
    return d


def snap_patch(pt):
    g = pt.grid
    d = dict(names=list(pt.name), level=pt.level, patch_index=pt.patch_index, map=g.mapc2p)
    for k, dm in enumerate(g.dimensions):
        d['lower%d' % k], d['upper%d' % k], d['n%d' % k] = dm.lower, dm.upper, dm.num_cells
        d['centers%d' % k], d['nodes%d' % k] = np.array(dm.centers), np.array(dm.nodes)
    for k, dm in enumerate(pt.dimensions):
        d['plower%d' % k], d['pupper%d' % k], d['pn%d' % k] = dm.lower, dm.upper, dm.num_cells
    for k, c in enumerate(g.p_centers):
        d['pc%d' % k] = np.array(c)
    return d


def snap(sol):
    return [snap_state(s) for s in sol.states] + [snap_patch(p) for p in sol.domain.patches]


NUM = (int, bool, str)


def same(ctx, label, a, b):
    if len(a) != len(b):
        ctx.fail(label + ' (number of states and patches)')
        return
    for x, y in zip(a, b):
        for k in x:
            u, v = x[k], y.get(k)
            name = '%s (%s)' % (label, k.rstrip('0123456789'))
            if u is None or v is None:
                ctx.check(name, u is v)
            elif isinstance(u, NUM) or callable(u):
                ctx.check(name, u == v)
            elif isinstance(u, np.ndarray):
                if u.shape != np.shape(v):
                    ctx.fail(name + ' shape')
                else:
                    for i in np.ndindex(*u.shape):
                        ctx.check_eq(name, u[i], v[i])
            elif isinstance(u, list):
                if len(u) != len(v):
                    ctx.fail(name + ' length')
                    continue
                for i, j in zip(u, v):
                    if isinstance(i, NUM):
                        ctx.check(name, i == j)
                    elif isinstance(i, np.ndarray):
                        for m in np.ndindex(*i.shape):
                            ctx.check_eq(name, i[m], j[m])
                    else:
                        ctx.check_eq(name, i, j)
            else:
                ctx.check_eq(name, u, v)


MUT = ['q', 'q_all', 't', 'tsol', 'aux', 'gamma', 'nested', 'parr', 'newkey', 'capa', 'p', 'F', 'lower', 'upper', 'cells', 'map', 'level',
       'gauge', 'gappend', 'domlower', 'domcells', 'states', 'qbc', 'pdim', 'addgauge']


def mutate(ctx, sol, op, tag):
    s = sol.states[-1]
    v = ctx.real('new' + tag)
    g = s.patch.grid
    if op == 'q':
        s.q[0] = v
    elif op == 'q_all':
        s.q += 1 + v * v
    elif op == 't':
        s.t = v
    elif op == 'tsol':
        sol.t = v
    elif op == 'aux' and s.aux is not None:
        s.aux[-1] = v
    elif op == 'gamma':
        s.problem_data['gamma'] = v
    elif op == 'nested':
        s.problem_data['nested']['list'][0] = v
    elif op == 'parr':
        s.problem_data['arr'][0] = v
    elif op == 'newkey':
        s.problem_data['zzz'] = v
    elif op == 'capa':
        s.index_capa = 0 if s.index_capa != 0 else -1
    elif op == 'p' and s.p is not None:
        s.p[...] = v
    elif op == 'F' and s.F is not None:
        s.F[...] = v
    elif op == 'lower':
        g.x.lower = g.x.upper - 1 - v * v
    elif op == 'upper':
        g.x.upper = g.x.lower + 1 + v * v
    elif op == 'cells':
        g.x.num_cells = g.x.num_cells + 1
    elif op == 'map':
        g.mapc2p = lambda *x: [c + v for c in x]
    elif op == 'level':
        s.patch.level += 5
    elif op == 'gauge':
        s.gauge_data[0][0] = v
    elif op == 'gappend':
        s.gauge_data.append(v)
    elif op == 'domlower':
        x = sol.domain.patches[-1].grid.x
        x.lower = x.upper - 1 - v * v
    elif op == 'domcells':
        sol.domain.patches[0].grid.x.num_cells = 9
    elif op == 'states':
        sol.states.pop()
    elif op == 'pdim':
        x = s.patch.x
        x.upper = x.lower + 2 + v * v
    elif op == 'addgauge':
        g.add_gauges([[0.0] * s.patch.num_dim])
    elif op == 'qbc':
        ng = 1
        bc = np.full((s.num_eqn,) + tuple(n + 2 for n in s.q.shape[1:]), v, dtype=s.q.dtype)
        s.set_q_from_qbc(ng, bc)


def together(ctx, label, sol):
    for s, p in zip(sol.states, sol.domain.patches):
        ctx.check(label, s.patch is p and s.grid is p.grid)
        ctx.check(label, all(a is b for a, b in zip(p.dimensions, p.grid.dimensions)))


def independent(ctx, cells, npatch=1, ne=1, na=1, mp=1, mF=1, mapped=False, capa=False, fromqbc=False, what='solution', side=0, steps=1):
    sol = build(ctx, cells, npatch, ne, na, mp, mF, mapped, capa, fromqbc)
    before = snap(sol)
    if what == 'solution':
        cp = copy.deepcopy(sol)
        together(ctx, 'the parts of the copy belong together', cp)
        for s, c in zip(sol.states, cp.states):
            ctx.check('the copy is made of new objects', s is not c and s.patch is not c.patch and s.grid is not c.grid)
    else:
        P = pyclaw()
        cs = [copy.deepcopy(s) for s in sol.states]
        cp = P.Solution(cs, P.Domain([s.patch for s in cs]))
    same(ctx, 'the original is not changed by copying', snap(sol), before)
    same(ctx, 'the copy equals the original', snap(cp), before)
    for s in cp.states:
        ctx.check('the copied state is usable', bool(s.q.flags['F_CONTIGUOUS']))
    a, b = (sol, cp) if side == 0 else (cp, sol)
    for k in range(steps):
        mutate(ctx, a, ctx.choice('op%d' % k, MUT), str(k))
    same(ctx, 'a change to one leaves the other', snap(b), before)
    together(ctx, 'the parts of the copy belong together', cp if what == 'solution' and side == 1 and len(cp.states) == npatch else b)
    ctx.reach('done')


def bcarrays(ctx, cells, ne, na, ng):
    """moving data to and from arrays with ghost cells; global copies"""
    P = pyclaw()
    sol = make_solution(ctx, cells, ne, na)
    s = sol.state
    q, aux = np.array(s.q), np.array(s.aux)
    full = tuple(c + 2 * ng for c in cells)
    g = ctx.real('ghost')
    bc, abc = np.full((ne,) + full, g, dtype=q.dtype), np.full((na,) + full, g, dtype=q.dtype)
    r, ra = s.get_qbc_from_q(ng, bc), s.get_auxbc_from_aux(ng, abc)
    inner = (slice(None),) + tuple(slice(ng, ng + c) for c in cells)
    for nm, arr_, src in (('q', r, q), ('aux', ra, aux)):
        for i in np.ndindex(*src.shape):
            ctx.check_eq('interior of the extended array is the array (%s)' % nm, arr_[inner][i], src[i])
        mask = np.ones(arr_.shape, bool)
        mask[inner] = False
        for v in np.asarray(arr_)[mask]:
            ctx.check_eq('ghost cells are left alone (%s)' % nm, v, g)
    gq, ga = s.get_q_global(), s.get_aux_global()
    for i in np.ndindex(*q.shape):
        ctx.check_eq('global copy (q)', gq[i], q[i])
    for i in np.ndindex(*aux.shape):
        ctx.check_eq('global copy (aux)', ga[i], aux[i])
    gq[...] = g
    ga[...] = g
    for i in np.ndindex(*q.shape):
        ctx.check_eq('a global copy is independent (q)', s.q[i], q[i])
    for i in np.ndindex(*aux.shape):
        ctx.check_eq('a global copy is independent (aux)', s.aux[i], aux[i])
    n, m = ctx.reals('nq', (ne,) + full), ctx.reals('na', (na,) + full)
    s.set_q_from_qbc(ng, n)
    s.set_aux_from_auxbc(ng, m)
    ctx.check('shape after taking the interior', s.q.shape == q.shape and s.aux.shape == aux.shape)
    for i in np.ndindex(*q.shape):
        ctx.check_eq('interior taken from the extended array (q)', s.q[i], n[inner][i])
    for i in np.ndindex(*aux.shape):
        ctx.check_eq('interior taken from the extended array (aux)', s.aux[i], m[inner][i])
    ctx.reach('done')


def cases(tier):
    T = tier != 'quick'
    out = []
    for side in (0, 1):
        for what in ('solution', 'state'):
            out.append(dict(_h='independent', cells=[2], ne=2, na=2, capa=True, mapped=True, what=what, side=side, steps=2 if T else 1, _w=5))
            out.append(dict(_h='independent', cells=[1], ne=1, na=0, mp=0, mF=0, what=what, side=side, fromqbc=True, steps=2 if T else 1, _w=4))
            out.append(dict(_h='independent', cells=[2, 1], npatch=2, ne=1, na=1, what=what, side=side, fromqbc=side == 1, capa=True, _w=6))
            out.append(dict(_h='independent', cells=[1, 2, 1], ne=2, na=1, mp=2, mF=2, what=what, side=side, mapped=True, capa=False, fromqbc=True, _w=6))
    for cells in ([2], [2, 1], [1, 2, 1], [2, 3, 2] if T else [1, 1, 2]):
        for ng in (1, 2, 3) if T else (1, 2):
            out.append(dict(_h='bcarrays', cells=cells, ne=2, na=1, ng=ng))
    return out
