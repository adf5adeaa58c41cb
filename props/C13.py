"""C13: constant states are preserved."""
from .kcommon import *

ENCODED = ['step1, step2, step2ds, step3, step3ds, flux2, flux3, limiter (classic/*.f90)', 'flux1, flux2, flux3, reconstruction routines (sharpclaw/*.f90)',
           'ClawSolver1D/2D/3D.step_hyperbolic (interpreted and compiled)', 'tvd.limit, recon.weno, recon.weno5_wave', 'SharpClawSolver.step, dq, dq_hyperbolic', 'Solver._apply_bcs, evolve_to_time']
ASSUMPTIONS = ['real arithmetic (machine rounding outside the claim)', 'Riemann solver: waves and fluctuations are arbitrary linear combinations (depending on states and auxiliary values) of the jump; transverse solver: of the fluctuation it splits',
               'walls: the reflected component is zero', 'capacity values positive; f-wave form: speeds nonzero']
EXTS = ['classic1', 'classic2', 'classic3', 'sharpclaw1', 'sharpclaw2', 'sharpclaw3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of 2-4, 2x3, 3x3, 2x2x2 and 3x3x3 cells%s; 1-2 equations and waves; all orders, limiters, transverse settings, reconstructions, time integrators (three steps)' % ('' if tier == 'quick' else ' and larger')


def jump_rp(ctx, ne, nw, speeds=None, fwave=False):
    def solve(ixy, L, R, al, ar):
        d = [y - x for x, y in zip(L, R)]
        o = ctx.uf('rp', [ixy] + list(L) + list(R) + list(al) + list(ar), (nw + 2) * ne * ne + nw)
        mats = [[o[(k * ne + i) * ne:(k * ne + i + 1) * ne] for i in range(ne)] for k in range(nw + 2)]
        v = [[sum([a * x for a, x in zip(row, d)], ctx.const(0)) for row in m] for m in mats]
        sp = o[(nw + 2) * ne * ne:] if speeds is None else [ctx.const(x) for x in speeds]
        if fwave:
            for x in sp:
                ctx.assume(x != 0)
        return v[:nw], sp, v[nw], v[nw + 1]
    return solve


def split_trans(ctx, ne):
    def trans(fl, L, R, rows, a):
        flat = []
        def rec(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
            else:
                flat.append(x)
        rec(rows)
        o = ctx.uf('rpt', list(fl) + list(L) + list(R) + flat, 2 * ne * ne)
        v = [sum([c * x for c, x in zip(o[i * ne:(i + 1) * ne], a)], ctx.const(0)) for i in range(2 * ne)]
        return v[:ne], v[ne:]
    return trans


def const_state(ctx, cells, ne, na, capa, walls):
    c = [ctx.const(0) if m in walls else var(ctx, 'c%d' % m) for m in range(ne)]
    q = np.empty((ne,) + cells, dtype=object if ctx.symbolic else float)
    for m in range(ne):
        q[m] = c[m]
    aux = arr(ctx, 'aux', (na,) + cells) if na else None
    if capa:
        aux[na - 1] = arr(ctx, 'capa', cells, pos=True)
    return c, q, aux


def unchanged(ctx, sol, c):
    for m, x in enumerate(c):
        for v in sol.state.q[m].ravel():
            ctx.check_eq('constant state unchanged', v, x)


def classic(ctx, cells, ne=1, nw=1, order=2, lim=(0,), capa=False, na=0, fwave=False, bc='extrap', lang='Fortran', split=None, tr=None, index=None):
    ctx.signs(soft=lang == 'Python')
    cells = tuple(cells)
    dim = len(cells)
    bcl = [(bc, bc)] * dim if isinstance(bc, str) else [tuple(b) for b in bc]
    index = list(index) if index else [0] * dim
    walls = {index[k] for k in range(dim) if 'wall' in bcl[k]}
    na = max(na, 1 if capa else 0)
    c, q, aux = const_state(ctx, cells, ne, na, capa, walls)
    solve = jump_rp(ctx, ne, nw, fwave=fwave)
    rp = RP(ctx, dim, solve, trans=split_trans(ctx, ne)) if lang == 'Fortran' else py_rp(ctx, solve, nw)
    kw = dict(order=order, limiters=list(lim), fwave=fwave)
    if dim > 1:
        kw.update(dimensional_split=split, transverse_waves=tr)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=q, aux=aux)
    if capa:
        sol.state.index_capa = na - 1
    s = solver(ctx, 'classic', dim, rp, ne, nw, language=lang, bc=bcl, aux_bc=[tuple('extrap' if b == 'wall' else b for b in p) for p in bcl], **kw)
    s.reflect_index = index
    ctx.run('a step', hyp_step, ctx, s, sol, var(ctx, 'dt', pos=True))
    unchanged(ctx, sol, c)
    ctx.reach('classic')


def sharp(ctx, cells, ne=1, nw=1, lim_type=2, order=5, char=0, capa=False, na=0, tfluct=False, bc='extrap', lang='Fortran', index=None, fwave=False, limiters=1):
    ctx.signs(soft=lang == 'Python', nonzero=order > 11)
    cells = tuple(cells)
    dim = len(cells)
    bcl = [(bc, bc)] * dim if isinstance(bc, str) else [tuple(b) for b in bc]
    index = list(index) if index else [0] * dim
    walls = {index[k] for k in range(dim) if 'wall' in bcl[k]}
    na = max(na, 1 if capa else 0)
    c, q, aux = const_state(ctx, cells, ne, na, capa, walls)
    solve = jump_rp(ctx, ne, nw, speeds=[1] * nw if fwave else None)
    def tf(*a):
        return solve(a[0], a[1], a[2], [], [])[2]
    rp = RP(ctx, dim, solve, tfluct=tf if tfluct else None) if lang == 'Fortran' else py_rp(ctx, solve, nw)
    kw = dict(lim_type=lim_type, weno_order=order, char_decomp=char, num_ghost=(order + 1) // 2, fwave=fwave)
    if lim_type == 1:
        kw['limiters'] = limiters
    if tfluct:
        kw['tfluct_solver'] = True
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    sol = make_solution(ctx, cells, ne, na, delta=delta, q=q, aux=aux)
    if capa:
        sol.state.index_capa = na - 1
    s = solver(ctx, 'sharpclaw', dim, rp, ne, nw, language=lang, bc=bcl, aux_bc=[tuple('extrap' if b == 'wall' else b for b in p) for p in bcl], **kw)
    s.reflect_index = index
    # the values handed on are equal up to how they are written: the jump is a rational function
    # that vanishes, which the solver shows for the result
    dq, _ = ctx.run('a right-hand side', rhs, ctx, s, sol, var(ctx, 'dt', pos=True))
    for v in np.asarray(dq).ravel():
        ctx.check_eq('no change of a constant state', v, ctx.const(0) if ctx.symbolic else 0.0)
    ctx.reach('sharp')


def steps(ctx, kind, integrator=None, lang='Python', n=3, strang=False, lmm_steps=None, lim_type=2, cells=(3,), source=False):
    """several steps through evolve_to_time"""
    ctx.signs(soft=True)
    cells = tuple(cells)
    dim = len(cells)
    c, q, aux = const_state(ctx, cells, 1, 0, False, ())
    solve = jump_rp(ctx, 1, 1, speeds=[1])
    rp = RP(ctx, dim, solve) if lang == 'Fortran' else py_rp(ctx, solve, 1)
    kw = dict(lim_type=lim_type) if kind == 'sharpclaw' else dict(order=2, limiters=[4])
    sol = make_solution(ctx, cells, 1, 0, delta=[1.0] * dim, q=q)
    s = solver(ctx, kind, dim, rp, 1, 1, language=lang, bc='periodic', **kw)
    if integrator:
        s.time_integrator = integrator
    if lmm_steps:
        s.lmm_steps = lmm_steps
    if source:
        s.source_split = 2 if strang else 1
        s.step_source = lambda solver, state, dt: None
    s.dt_variable = False
    s.dt_initial = 0.125
    s.dt = 0.125
    s.cfl_max, s.cfl_desired = 1.0, 0.5
    s.max_steps = 50
    s.setup(sol)
    ctx.run('steps', s.evolve_to_time, sol, 0.125 * n)
    finish(ctx, s)
    unchanged(ctx, sol, c)
    ctx.check_eq('time reached', sol.t, 0.125 * n)
    ctx.reach('steps')


def varying(ctx, integrator, n, lmm=None):
    """steps of arbitrary different sizes; the spatial update of a constant state is zero (the cases above)"""
    from .common import step_solver
    s = step_solver(ctx, 'sharpclaw', integrator)
    if lmm:
        s.lmm_steps = lmm
    c = var(ctx, 'c')
    q = np.empty((1, 2), dtype=object if ctx.symbolic else float)
    q[...] = c
    sol = make_solution(ctx, (2,), 1, 0, t=ctx.real('t0'), q=q)

    def dq(state):
        s.cfl.update_global_max(s.cfl_max / 4)
        return state.q * 0
    s.dq_hyperbolic = dq
    s.dt = ctx.real('dt', pos=True)
    orig = s.get_dt
    k = [0]

    def get_dt(*a, **kw):
        orig(*a, **kw)
        k[0] += 1
        s.dt = ctx.real('dt%d' % k[0], pos=True)
    s.get_dt = get_dt
    for j in range(n):
        ctx.run('a step', s.evolve_to_time, sol)
        unchanged(ctx, sol, [c])
        for st in sol.states:       # continue from the (equal) closed form
            st.q[...] = c
    ctx.reach('varying')


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    for capa in B:
        for lang in ('Fortran', 'Python'):
            for lim in (0, 1, 4):
                out.append(dict(_h='classic', cells=[3], order=2 if lim else 1, lim=[lim, lim], ne=2, nw=2, capa=capa, na=1, lang=lang, bc=[['wall', 'periodic' if False else 'extrap']], index=[1]))
            out.append(dict(_h='classic', cells=[2], order=2, lim=[2], capa=capa, lang=lang, bc='periodic'))
            out.append(dict(_h='classic', cells=[2], order=2, lim=[3], capa=capa, lang=lang, fwave=True))
        for split, tr in ((True, 0), (False, 0), (False, 1), (False, 2)):
            out.append(dict(_h='classic', cells=[2, 3], order=2, lim=[4 if tr else 1], capa=capa, split=split, tr=tr, bc='periodic' if tr == 1 else 'extrap'))
            out.append(dict(_h='classic', cells=[2, 2], order=1 if tr == 0 else 2, lim=[0, 0], ne=2, nw=2, na=2, capa=capa, split=split, tr=tr, bc=[['wall', 'wall'], ['periodic', 'periodic']], index=[1, 0]))
        for split, tr in ((True, 0), (False, 0), (False, 10), (False, 11), (False, 20), (False, 22)):
            out.append(dict(_h='classic', cells=[2, 2, 2], order=2, lim=[0], capa=capa, split=split, tr=tr, bc='periodic' if tr == 11 else 'extrap', _w=6))
        for lang in ('Fortran', 'Python'):
            out.append(dict(_h='sharp', cells=[3], ne=2, nw=2, capa=capa, na=1, lang=lang, bc=[['wall', 'extrap']], index=[0]))
            out.append(dict(_h='sharp', cells=[3], ne=1, nw=2, capa=capa, lang=lang, char=1, bc='periodic'))
        for k in (1, 2, 3, 4, 5):
            out.append(dict(_h='sharp', cells=[3], lim_type=1, limiters=k, capa=capa, tfluct=k % 2 == 0))
        out.append(dict(_h='sharp', cells=[3], lim_type=1, limiters=2, char=1, capa=capa))
        out.append(dict(_h='sharp', cells=[3], lim_type=3, capa=capa))
        out.append(dict(_h='sharp', cells=[3], lim_type=2, char=1, fwave=True, capa=capa))
        for o in (7, 9, 11) + ((13, 15, 17) if T else ()):
            out.append(dict(_h='sharp', cells=[2], lim_type=2, order=o, capa=capa, _w=o))
        out.append(dict(_h='sharp', cells=[3, 4], lim_type=2, capa=capa, tfluct=capa, bc='periodic', _w=6))
        out.append(dict(_h='sharp', cells=[3, 3], ne=2, nw=1, lim_type=1, capa=capa, na=2, bc=[['extrap', 'wall'], ['wall', 'extrap']], index=[0, 1], _w=6))
        out.append(dict(_h='sharp', cells=[3, 3, 3], lim_type=1, capa=capa, tfluct=capa, _w=9))
        out.append(dict(_h='sharp', cells=[3, 3, 3], lim_type=2, capa=capa, bc='periodic', _w=9))
    for i, k in (('Euler', 0), ('SSP22', 0), ('SSP33', 0), ('SSP104', 0), ('SSPLMMk2', 3), ('SSPLMMk3', 4)):
        out.append(dict(_h='steps', kind='sharpclaw', integrator=i, n=3 if not k else k + 2, **(dict(lmm_steps=k) if k else {})))
    out.append(dict(_h='steps', kind='sharpclaw', integrator='SSP33', lang='Fortran', n=2))
    out.append(dict(_h='steps', kind='sharpclaw', integrator='SSP22', lang='Fortran', n=2, cells=[3, 3], lim_type=1))
    for i, k in (('SSPLMMk2', 3), ('SSPLMMk2', 4), ('SSPLMMk3', 4), ('SSPLMMk3', 5)) + ((('SSPLMMk2', 5), ('SSPLMMk3', 6)) if T else ()):
        out.append(dict(_h='varying', integrator=i, lmm=k, n=k + 2))
    for i in ('SSP33', 'SSP104'):
        out.append(dict(_h='varying', integrator=i, n=2))
    out.append(dict(_h='steps', kind='classic'))
    out.append(dict(_h='steps', kind='classic', lang='Fortran', strang=True, source=True))
    out.append(dict(_h='steps', kind='classic', lang='Fortran', cells=[2, 3]))
    return out
