"""C06: ghost cells satisfy the chosen boundary conditions."""
import itertools
from .common import *

ENCODED = ['Solver._allocate_bc_arrays', 'Solver._apply_bcs', 'Solver._bc_lower', 'Solver._bc_upper',
           'State.get_qbc_from_q', 'State.get_auxbc_from_aux', 'Solver.bc_lower/bc_upper/all_bcs']
ASSUMPTIONS = ['at least as many cells as ghost cells in directions with periodic or wall conditions',
               'periodic conditions are set on both ends of a direction']


def BOUNDS(tier):
    return '1-3 dimensions, up to %d ghost layers, grids just large enough, every combination of conditions in 1D/2D' % (3 if tier == 'quick' else 5)


KINDS = [('extrap', 'extrap'), ('extrap', 'wall'), ('wall', 'extrap'), ('wall', 'wall'), ('custom', 'extrap'),
         ('wall', 'custom'), ('custom', 'custom'), ('periodic', 'periodic')]


def ghosts(ctx, cells, ng, solver='classic', aux=True, oldsig=False, kinds=None, twice=True, num_eqn=None, axis=None, reflect=None):
    P = pyclaw()
    dim = len(cells)
    s = getattr(P, ('ClawSolver%dD' if solver == 'classic' else 'SharpClawSolver%dD') % dim)(norp())
    s.kernel_language = 'Python'
    s.num_ghost = ng
    meqn = num_eqn or dim + 1
    s.num_eqn, s.num_waves = meqn, 1
    if reflect:
        s.reflect_index = list(reflect)
    normal = list(s.reflect_index)
    ctx.check('default normal components', reflect or normal == list(range(1, dim + 1)))
    kinds = kinds or KINDS
    bt = {'extrap': P.BC.extrap, 'wall': P.BC.wall, 'periodic': P.BC.periodic, 'custom': P.BC.custom}
    qk, ak = [], []
    for d in range(dim):
        qk.append(kinds[ctx.choice('q%d' % d, list(range(len(kinds))))] if axis is None or d == axis else KINDS[(d * 3) % len(KINDS)])
        if dim == 1:
            ak.append(kinds[ctx.choice('a%d' % d, list(range(len(kinds))))])
        else:
            ak.append(qk[-1] if qk[-1][0] == 'periodic' else kinds[(kinds.index(qk[-1]) + 1 + d) % (len(kinds) - 1)] if qk[-1] in kinds else KINDS[1])
    for d in range(dim):
        s.bc_lower[d], s.bc_upper[d] = bt[qk[d][0]], bt[qk[d][1]]
        s.aux_bc_lower[d], s.aux_bc_upper[d] = bt[ak[d][0]], bt[ak[d][1]]
    t0 = ctx.real('t')
    sol = make_solution(ctx, cells, meqn, 2 if aux else 0, t=t0)
    st = sol.state
    calls = []

    def custom(which, side):
        def put(d, arr, name):
            ii = [slice(None)] * (dim + 1)
            for g in (range(ng) if side == 'lower' else range(cells[d] + ng, cells[d] + 2 * ng)):
                ii[d + 1] = g
                sh = arr[tuple(ii)].shape
                for mi in itertools.product(*[range(k) for k in sh]):
                    full = list(mi)
                    full.insert(d + 1, g)
                    arr[tuple(full)] = cval(name, d, tuple(full))
        def check(state, dm, t):
            ctx.check('custom conditions are given the state and its time', state is st)
            ctx.check_eq('custom conditions are given the current time', t, st.t)
            d = [x.name for x in st.grid.dimensions].index(dm.name)
            calls.append((which, side, d))
            return d
        if oldsig:
            def f(state, dm, t, array, num_ghost):
                d = check(state, dm, t)
                ctx.check('custom conditions are given the array with ghost cells', array is (s.qbc if which == 'q' else s.auxbc) and num_ghost == ng)
                put(d, array, which)
        else:
            def f(state, dm, t, qbc, auxbc, num_ghost):
                d = check(state, dm, t)
                ctx.check('custom conditions are given both arrays with ghost cells', qbc is s.qbc and auxbc is s.auxbc and num_ghost == ng)
                put(d, qbc if which == 'q' else auxbc, which)
        return f

    cv = {}
    def cval(name, d, idx):
        k = (name, d, idx)
        if k not in cv:
            cv[k] = ctx.real('c_%s_%d_%s' % (name, d, '_'.join(map(str, idx))))
        return cv[k]
    s.user_bc_lower, s.user_bc_upper = custom('q', 'lower'), custom('q', 'upper')
    s.user_aux_bc_lower, s.user_aux_bc_upper = custom('aux', 'lower'), custom('aux', 'upper')

    def want(name, kinds, src, idx):
        """independent definition: undo the last direction in which the cell is a ghost"""
        sign = 1
        idx = list(idx)
        for d in reversed(range(dim)):
            n, i = cells[d], idx[d + 1]
            if ng <= i < n + ng:
                continue
            kind = kinds[d][0] if i < ng else kinds[d][1]
            if kind == 'custom':
                return sign * cval(name, d, tuple(idx))
            if kind == 'extrap':
                i = min(max(i, ng), n + ng - 1)
            elif kind == 'periodic':
                i = i + n if i < ng else i - n
            elif kind == 'wall':
                if name == 'q' and idx[0] == normal[d]:
                    sign = -sign
                i = 2 * ng - 1 - i if i < ng else 2 * (n + ng) - 1 - i
            idx[d + 1] = i
        return sign * src[tuple([idx[0]] + [idx[d + 1] - ng for d in range(dim)])]

    def compare(tag):
        for name, kk, src, arr in ([('q', qk, st.q, s.qbc)] + ([('aux', ak, st.aux, s.auxbc)] if aux else [])):
            ctx.check(tag + name + ' array shape', arr.shape == tuple([src.shape[0]] + [n + 2 * ng for n in cells]))
            got, exp = [], []
            for idx in itertools.product(*[range(k) for k in arr.shape]):
                got.append(arr[idx])
                exp.append(want(name, kk, src, idx))
            ctx.check_eq(tag + 'ghost and interior values of ' + name, got, exp)

    s._allocate_bc_arrays(st)
    s._is_set_up = True
    compare('after set-up: ')
    if twice:
        q0 = st.q.copy()
        s._apply_bcs(st)
        ctx.check_eq('applying boundary conditions does not alter the solution', st.q, q0)
        st.q = ctx.reals('r', st.q.shape)
        st.t = ctx.real('t1')
        if aux:
            st.aux[...] = ctx.reals('b', st.aux.shape)
        s._apply_bcs(st)
        compare('after changed data: ')
    ctx.reach('compared')


def cases(tier):
    out = []
    T = tier != 'quick'
    for ng in (1, 2, 3) + ((4, 5) if T else ()):
        out.append(dict(_h='ghosts', cells=(ng,), ng=ng))
        out.append(dict(_h='ghosts', cells=(ng + 1,), ng=ng, oldsig=True, solver='sharpclaw'))
    out.append(dict(_h='ghosts', cells=(5,), ng=2, aux=False, num_eqn=2))
    out.append(dict(_h='ghosts', cells=(7, 5), ng=2, twice=False, kinds=[KINDS[1], KINDS[2], KINDS[7]], _w=3))
    simple = [k for k in KINDS if 'custom' not in k]
    out.append(dict(_h='ghosts', cells=(2, 3), ng=2, twice=False, _w=4))
    out.append(dict(_h='ghosts', cells=(3, 4), ng=3, twice=False, solver='sharpclaw', kinds=simple, _w=4))
    out.append(dict(_h='ghosts', cells=(3, 2), ng=2, twice=True, kinds=[KINDS[1], KINDS[5], KINDS[7]], _w=4))
    out.append(dict(_h='ghosts', cells=(2, 3), ng=2, twice=False, kinds=[KINDS[4], KINDS[6], KINDS[2]], oldsig=True, _w=4))
    out.append(dict(_h='ghosts', cells=(2, 3), ng=2, twice=False, num_eqn=2, reflect=[1, 0], kinds=[KINDS[1], KINDS[2]], _w=3))
    out.append(dict(_h='ghosts', cells=(2,), ng=2, twice=False, num_eqn=3, reflect=[2], kinds=[KINDS[3]]))
    for ax in range(3):
        out.append(dict(_h='ghosts', cells=(2, 3, 2), ng=2, twice=False, axis=ax, _w=5))
    if T:
        out.append(dict(_h='ghosts', cells=(2, 2, 3), ng=2, twice=False, kinds=[KINDS[1], KINDS[4], KINDS[7]], _w=9))
        out.append(dict(_h='ghosts', cells=(3, 3, 3), ng=3, twice=False, axis=1, _w=9))
        out.append(dict(_h='ghosts', cells=(4, 3), ng=3, twice=True, kinds=simple, _w=9))
    return out
