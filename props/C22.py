"""C22: compiled kernels stay inside their arrays and use defined data."""
import os
import sys
from vlib import gimple, loader, sym
from .kcommon import *

ENCODED = ['every routine of classic/*.f90 and sharpclaw/*.f90 reached from ClawSolver1D/2D/3D.step_hyperbolic and SharpClawSolver1D/2D/3D.dq_hyperbolic',
           'the work arrays and sizes the Python solvers pass to them']
ASSUMPTIONS = ['the Riemann solvers (outside the repository) stay inside the arrays they are given and define all their outputs',
               'an access outside the memory of an array is decided on the memory object each array really has, not on the bounds the dummy argument declares',
               'the replay compiles the kernels with bounds checking and fills fresh memory with NaN']
EXTS = ['classic1', 'classic2', 'classic3', 'sharpclaw1', 'sharpclaw2', 'sharpclaw3']


def prepare(scratch):
    kernels.prepare(scratch, EXTS)


def BOUNDS(tier):
    return 'grids of 1-4, 1x1-3x2 and 1x1x1-2x1x2 cells (SharpClaw: from 3 cells per axis), 1-2 equations, 1-2 waves, 0-2 auxiliary fields with and without capacity, all limiters and reconstructions'


class Poisoned:
    """replay: memory that is not set explicitly holds NaN"""
    def __enter__(self):
        self.e = np.empty, np.empty_like
        e, el = self.e
        def empty(*a, **k):
            r = e(*a, **k)
            if r.dtype.kind == 'f':
                r.fill(np.nan)
            return r
        def empty_like(*a, **k):
            r = el(*a, **k)
            if r.dtype.kind == 'f':
                r.fill(np.nan)
            return r
        np.empty, np.empty_like = empty, empty_like
    def __exit__(self, *a):
        np.empty, np.empty_like = self.e


def asan():
    """the same replay with kernels compiled for AddressSanitizer: does it report an access?"""
    import subprocess
    lib = subprocess.run(['gcc', '-print-file-name=libasan.so'], capture_output=True, text=True).stdout.strip()
    env = dict(os.environ, LD_PRELOAD=lib, ASAN_OPTIONS='detect_leaks=0', VERIF_ASAN='1')
    p = subprocess.run([sys.executable] + sys.argv, capture_output=True, text=True, env=env, timeout=200)
    return 'ERROR: AddressSanitizer' in p.stderr


def safe(ctx, kind, cells, ne=1, nw=1, na=0, capa=False, order=2, lim=(1,), split=None, tr=None, tfluct=False,
         fwave=False, lim_type=1, weno=5, char=0, bc='extrap', limiter=None, entropy=False):
    cells = tuple(cells)
    dim = len(cells)
    dt = var(ctx, 'dt', pos=True)
    delta = [var(ctx, 'd%d' % k, pos=True) for k in range(dim)]
    solve = general_rp(ctx, ne, nw)
    if kind == 'classic':
        kw = dict(order=order, limiters=[lim[k % len(lim)] for k in range(nw)], fwave=fwave)
        if dim > 1:
            kw.update(dimensional_split=split, transverse_waves=tr)
    else:
        kw = dict(lim_type=lim_type, limiters=[lim[0]], weno_order=weno, char_decomp=char, fwave=fwave)
        if tfluct:
            kw['tfluct_solver'] = True
        kw['num_ghost'] = (weno + 1) // 2
    q = arr(ctx, 'q', (ne,) + cells)
    aux = arr(ctx, 'aux', (na,) + cells, pos=True) if na else None

    def go():
        rp = RP(ctx, dim, solve, trans_aux=na > 0, trans=general_trans(ctx, ne) if dim > 1 else None,
                tfluct=(lambda ixy, L, R, *a: [x - y for x, y in zip(R, L)]) if tfluct else None)
        s = solver(ctx, kind, dim, rp, ne, nw, bc=bc, **kw)
        sol = make_solution(ctx, cells, ne, na, delta=delta, q=q, aux=aux)
        if capa:
            sol.state.index_capa = na - 1
        return (hyp_step if kind == 'classic' else rhs)(ctx, s, sol, dt)

    if ctx.symbolic:
        loader.UNINIT_FILL[0] = True
        try:
            r, c = go()
        except (gimple.KernelFault, gimple.KernelStop) as e:
            ctx.sh.last_exc = str(e)
            ctx.fail(INSIDE if isinstance(e, gimple.KernelFault) else STOPS)
            return
        finally:
            loader.UNINIT_FILL[0] = False
        ctx.check(INSIDE, True)
        vals = [x for x in r.ravel() if isinstance(x, sym.R)] + [sym.lift(c)]
        z3 = ctx.z3
        und = {t.get_id(): t for n, t in ctx.inputs.items() if n.startswith('uninit')}
        for _, args, outs in ctx.congr:        # answers to questions about undefined data
            if any(i in und for a in args for i in ctx.sh._vars(a.z3())):
                und.update((o.z3().get_id(), o.z3()) for o in outs)
        und = [(t, z3.Real('other!' + str(t))) for t in und.values()]
        zs = [x.z3() for x in vals]
        ctx.check(DEFINED, sym.B(z3.And([x == (z3.substitute(x, *und) if und else x) for x in zs])))
    else:
        if os.environ.get('VERIF_ASAN'):
            os.environ['VERIF_FFLAGS'] = '-fsanitize=address -g'
            go()
            os._exit(0)
        os.environ['VERIF_FFLAGS'] = '-fcheck=bounds -finit-real=nan -g'
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                with Poisoned():
                    r, c = go()
                code = 0 if np.all(np.isfinite(np.asarray(r, dtype=float))) and np.isfinite(float(c)) else 4
                os.write(wr, b'.')
            finally:
                os._exit(code)
        os.close(wr)
        end = os.read(rd, 1)
        _, st = os.waitpid(pid, 0)
        rc = os.waitstatus_to_exitcode(st)
        # 2: the Fortran runtime stopped at a bounds check; negative: killed by a signal
        ctx.check(INSIDE, not (rc == 2 or rc < 0 or asan()))
        ctx.check(STOPS, not (rc == 0 and not end))
        ctx.check(DEFINED, rc != 4)
        assert rc in (0, 2, 4) or rc < 0, rc
    ctx.reach('safe')


INSIDE = 'every access of the kernels is inside its array'
STOPS = 'the kernels accept the arrays the solver gives them'
DEFINED = 'results do not depend on undefined memory'


def cases(tier):
    T = tier != 'quick'
    B = (False, True)
    out = []
    def add(**k):
        out.append(dict(_h='safe', **k))
    for n in (1, 2, 3):
        for fw in B:
            add(kind='classic', cells=[n], ne=2, nw=1, na=1, capa=True, fwave=fw, lim=[4])
            add(kind='classic', cells=[n], ne=1, nw=2, na=0, order=1, fwave=fw)
    for cells in ([1, 1], [1, 3], [3, 1], [2, 2]):
        for split, tr, order in ((True, 0, 2), (False, 0, 1), (False, 1, 2), (False, 2, 2)):
            add(kind='classic', cells=cells, ne=1, nw=1, na=1, capa=True, split=split, tr=tr, order=order)
            if cells == [2, 2] or T:
                add(kind='classic', cells=cells, ne=2, nw=1, na=2, capa=False, split=split, tr=tr, order=order, fwave=True)
    for cells in ([1, 1, 1], [2, 1, 1], [1, 2, 1], [1, 1, 2]):
        for split, tr, order in ((True, 0, 2), (False, 0, 2), (False, 10, 1), (False, 11, 2), (False, 22, 2)):
            if T or cells == [1, 1, 1] or tr in (0, 22):
                add(kind='classic', cells=cells, na=1, capa=True, split=split, tr=tr, order=order, _w=9)
    for n in (3, 4):
        for lim in (1, 4):
            add(kind='sharpclaw', cells=[n], ne=2, lim_type=1, lim=[lim])
        add(kind='sharpclaw', cells=[n], ne=1, na=2, capa=True, lim_type=2)
        add(kind='sharpclaw', cells=[n], ne=1, lim_type=2, char=1, nw=1)
        add(kind='sharpclaw', cells=[n], ne=1, lim_type=2, char=1, fwave=True)
        add(kind='sharpclaw', cells=[n], ne=2, lim_type=3)
        add(kind='sharpclaw', cells=[n], ne=1, lim_type=1, tfluct=True, na=1)
        add(kind='sharpclaw', cells=[n], ne=1, lim_type=1, char=1)
        add(kind='sharpclaw', cells=[n], ne=1, lim_type=1, char=1, fwave=True)
        for w in (7, 9, 11, 13, 15, 17):
            add(kind='sharpclaw', cells=[max(n, (w + 1) // 2)], lim_type=2, weno=w)
    add(kind='sharpclaw', cells=[3, 4], na=1, capa=True, lim_type=2)
    add(kind='sharpclaw', cells=[4, 3], na=1, capa=True, lim_type=1, tfluct=True)
    for c in ([3, 5], [5, 3]):
        add(kind='sharpclaw', cells=c, lim_type=3)
        add(kind='sharpclaw', cells=c, lim_type=2)
        add(kind='sharpclaw', cells=c, lim_type=2, char=1)
        add(kind='sharpclaw', cells=c, lim_type=1, char=1)
    add(kind='sharpclaw', cells=[3, 3], ne=2, lim_type=2)
    add(kind='sharpclaw', cells=[3, 3, 3], na=1, capa=True, lim_type=1, _w=12)
    add(kind='sharpclaw', cells=[3, 3, 3], lim_type=2, tfluct=True, _w=12)
    if T:
        add(kind='sharpclaw', cells=[5, 3], na=1, capa=True, lim_type=2)
        add(kind='sharpclaw', cells=[3, 4, 3], na=1, capa=True, lim_type=2, _w=12)
        add(kind='classic', cells=[2, 2, 2], ne=2, nw=2, na=1, capa=True, split=False, tr=22, order=2, _w=15)
    return out
