"""Fortran kernels for the harnesses.

Symbolic mode: `clawpack.pyclaw.classic.classic1` ... are module objects whose
routines execute the GIMPLE of the current sources in /repo (vlib.gimple) with the
call interface f2py derives from those sources.  Replay mode: the same names
are real f2py extensions compiled from /repo into the check's scratch directory.
"""
import contextlib, ctypes, io, json, os, re, subprocess, sys, sysconfig, types
import numpy as np
from . import gimple, sym, loader
from .gimple import Mem, Ptr, VarRef, UNINIT
from .sym import R, lift

SRC = loader.ROOT


def sources(ext):
    """source list of an extension, from the build description in /repo"""
    with open(os.path.join(SRC, 'meson.build')) as fh:
        t = fh.read()
    m = re.search(r"'%s'\s*:\s*\[([^\]]*)\]" % re.escape(ext), t)
    if not m:
        raise RuntimeError('extension %s not in meson.build' % ext)
    sub = 'sharpclaw' if 'sharpclaw' in ext else 'classic'
    fs = [os.path.normpath(os.path.join(SRC, sub, f)) for f in re.findall(r"'([^']+)'", m.group(1))]
    # modules before users
    def rank(f):
        b = os.path.basename(f)
        return {'ClawParams.f90': 0, 'workspace.f90': 1, 'weno.f90': 2, 'reconstruct.f90': 3}.get(b, 9)
    return sorted(fs, key=rank)


def crack(ext):
    """Call interface derived by f2py from the sources."""
    from numpy.f2py import crackfortran as cf
    cf.verbose, cf.quiet = 0, 1
    with contextlib.redirect_stdout(io.StringIO()):
        blocks = cf.crackfortran(sources(ext))
    sig = {}
    def add(b, mod=None):
        if b['block'] in ('subroutine', 'function') and (mod is None or True):
            a = []
            for n in b.get('args', []):
                v = b['vars'].get(n, {})
                a.append(dict(name=n, type=v.get('typespec'), intent=v.get('intent', []),
                              dim=v.get('dimension'), attr=v.get('attrspec', []), init=v.get('='),
                              ext=('external' in v.get('attrspec', []) or n in b.get('externals', []))))
            sig[(mod + '.' if mod else '') + b['name']] = a
        elif b['block'] == 'module':
            for x in b['body']:
                add(x, b['name'])
    for b in blocks:
        if b['block'] in ('subroutine', 'function', 'module'):
            add(b)
    return sig


def prepare(scratch, exts):
    """Driver side: dump GIMPLE and interfaces once per check run."""
    from concurrent.futures import ThreadPoolExecutor
    def one(ext):
        d = os.path.join(scratch, 'gimple_' + ext)
        texts = gimple.dump(sources(ext), d)
        with open(os.path.join(d, 'dump.json'), 'w') as fh:
            json.dump({'texts': texts}, fh)
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(one, exts))
    for ext in exts:
        with open(os.path.join(scratch, 'gimple_' + ext, 'sig.json'), 'w') as fh:
            json.dump(crack(ext), fh)


def load_ext(ext):
    d = os.path.join(os.environ['VERIF_SCRATCH'], 'gimple_' + ext)
    if not os.path.exists(os.path.join(d, 'sig.json')):
        prepare(os.environ['VERIF_SCRATCH'], [ext])
    with open(os.path.join(d, 'dump.json')) as fh:
        texts = json.load(fh)['texts']
    with open(os.path.join(d, 'sig.json')) as fh:
        sig = json.load(fh)
    return texts, sig


_PARSED = {}
def machine(ext, on_uninit):
    if ext not in _PARSED:
        texts, sig = load_ext(ext)
        M = gimple.Machine(texts)
        _PARSED[ext] = (M.funcs, sig, M.ginit)
    funcs, sig, ginit = _PARSED[ext]
    M = gimple.Machine([], on_uninit=on_uninit)
    M.funcs = funcs
    M.G.update(ginit)
    return M, sig


class SymFmod(types.ModuleType):
    """Module object presenting the interpreted routines with f2py's interface."""
    def __init__(self, name, ext, ctx):
        types.ModuleType.__init__(self, name)
        d = self.__dict__
        d['_ctx'] = ctx
        d['_ext'] = ext
        def unin(what):
            M.uninit_reads.append(what)
            return ctx.fresh('uninit%d' % len(ctx.inputs))
        M, sig = machine(ext, unin)
        d['_M'], d['_sig'] = M, sig
        for n in sig:
            if '.' in n:
                m, f = n.split('.')
                if m not in d:
                    d[m] = SymModule(self, m)
        for m in ('clawparams', 'workspace', 'reconstruct'):
            if 'sharpclaw' in ext and m not in d:
                d[m] = SymModule(self, m)

    def __getattr__(self, n):
        if n.startswith('__') or n in ('cparam', 'comroe', '_isinitialized'):
            raise AttributeError(n)
        s = self.__dict__['_sig']
        if n in s:
            return Routine(self, n, n + '_')
        raise AttributeError(n)


class SymModule:
    def __init__(self, fm, name):
        object.__setattr__(self, '_fm', fm)
        object.__setattr__(self, '_n', name)

    def __getattr__(self, k):
        fm, n = self._fm, self._n
        if (n + '.' + k) in fm._sig:
            return Routine(fm, n + '.' + k, '__%s_MOD_%s' % (n, k))
        G = fm._M.G
        key = '__%s_MOD_%s' % (n, k)
        if key in G:
            return G[key]
        if key + '.data' in G:
            return ArrView(fm._M, key)
        if k.startswith('__'):
            raise AttributeError(k)
        return None

    def __setattr__(self, k, v):
        fm, n = self._fm, self._n
        G = fm._M.G
        key = '__%s_MOD_%s' % (n, k)
        if key + '.data' in G and not (np.isscalar(v) or isinstance(v, R)):
            view = ArrView(fm._M, key)
            view.assign(list(v))
            return
        if isinstance(v, (bool, np.bool_)):
            v = bool(v)
        elif isinstance(v, np.integer):
            v = int(v)
        G[key] = v


class ArrView:
    """1-d allocatable module array"""
    def __init__(self, M, key):
        self.M, self.key = M, key
    def mem(self):
        p = self.M.G[self.key + '.data']
        if p is None:
            raise ValueError('array not allocated')
        o = p.o
        if type(o) is gimple.Raw:
            o = self.M.typed(o, 4 if self.key.endswith('mthlim') else 8)
        return o
    def __setitem__(self, i, v):
        self.mem().a[i] = conv(v)
    def __getitem__(self, i):
        return self.mem().a[i]
    def assign(self, vals):
        vals = [conv(v) for v in vals]
        m = self.mem()
        if len(m.a) != len(vals):
            G = self.M.G
            G[self.key + '.data'] = Ptr(Mem(vals, self.key), 0)
            lb = 1
            G[self.key + '.dim[0].lbound'] = lb
            G[self.key + '.dim[0].ubound'] = len(vals)
            G[self.key + '.offset'] = -lb
        else:
            m.a[:] = vals


def conv(v):
    if isinstance(v, (bool, np.bool_)):
        return bool(v)
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, R):
        return v
    return lift(v)


class Routine:
    def __init__(self, fm, name, asm):
        self.fm, self.name, self.asm = fm, name, asm
        self.sig = fm._sig[name]

    def __call__(self, *args, **kw):
        M, ctx = self.fm._M, self.fm._ctx
        req, opt = [], []
        for a in self.sig:
            it = a['intent']
            if 'hide' in it or ('out' in it and 'in' not in it and 'inout' not in it):
                continue
            (opt if (a['init'] is not None or 'optional' in a['attr']) else req).append(a)
        names = [a['name'] for a in req + opt]
        if len(args) > len(names):
            raise TypeError('%s: too many arguments' % self.name)
        val = dict(zip(names, args))
        for k, v in kw.items():
            if k not in names:
                raise TypeError('%s: unexpected argument %s' % (self.name, k))
            val[k] = v
        miss = [a['name'] for a in req if a['name'] not in val]
        if miss:
            raise TypeError('%s: missing arguments %s' % (self.name, miss))
        arrs = {}
        by = {a['name']: a for a in self.sig}
        # arrays first: their shapes define the defaults of the scalars
        for n, v in val.items():
            a = by[n]
            if a['dim'] and not a['ext']:
                if v is None:
                    v = np.empty((0,) * len(a['dim']), dtype=object)
                arrs[n] = v
        scal = {}
        for a in self.sig:
            n = a['name']
            if a['dim'] or a['ext'] or n not in val:
                continue
            v = val[n]
            if a['type'] == 'integer':
                scal[n] = int(v)
            elif a['type'] == 'logical':
                scal[n] = bool(v)
            else:
                scal[n] = v if isinstance(v, R) else lift(v)
        shapes = {n: np.shape(v) for n, v in arrs.items()}
        for a in self.sig:
            n = a['name']
            if n in scal or a['dim'] or a['ext'] or n in val or a['init'] is None:
                continue
            m = re.match(r'^shape\((\w+), (\d)\)$', a['init'])
            if m:
                scal[n] = shapes[m.group(1)][int(m.group(2))]
            else:
                scal[n] = eval(a['init'], {}, dict(scal))
        env = {k: v for k, v in scal.items() if type(v) is int}
        mems, ptrs, outs, back = {}, [], [], []
        for a in self.sig:
            n = a['name']
            if a['ext']:
                f = val[n]
                ptrs.append(f)
                continue
            if a['dim']:
                want = tuple(int(eval(x, {}, env)) for x in a['dim'])
                isint = a['type'] == 'integer'
                if n in arrs:
                    v = arrs[n]
                    if not isinstance(v, np.ndarray):
                        v = np.array([conv(x) for x in v], dtype=object)
                    if v.shape != want and not (v.size == 0 and np.prod(want) == 0):
                        # f2py: an extent of one fits a declared extent of zero
                        ok = v.ndim == len(want) and all(d == w or (d == 1 and w == 0) for d, w in zip(v.shape, want))
                        if not ok and (v.size != int(np.prod(want)) or v.ndim > len(want)):
                            raise ValueError('%s: argument %s has shape %s, expected %s' % (self.name, n, v.shape, want))
                    inplace = v.flags.f_contiguous and v.dtype == object
                    key = (v.__array_interface__['data'][0], v.shape, v.strides) if inplace and v.size else ('x', n)
                    if key in mems:
                        mem = mems[key]
                    else:
                        flat = v.ravel(order='F')
                        mem = Mem([conv(x) for x in flat], self.name + '.' + n)
                        mems[key] = mem
                        if inplace:
                            back.append((v, mem))
                    if 'out' in a['intent']:
                        if inplace:
                            outs.append(v)
                        else:
                            nv = loader.sa(np.empty(want, dtype=object, order='F'))
                            back.append((nv, mem))
                            outs.append(nv)
                else:
                    size = int(np.prod(want))
                    z = 0 if isint else sym.ZERO
                    mem = Mem([z] * size, self.name + '.' + n)
                    if 'out' in a['intent']:
                        nv = loader.sa(np.empty(want, dtype=object, order='F'))
                        back.append((nv, mem))
                        outs.append(nv)
                ptrs.append(Ptr(mem, 0))
                continue
            mem = Mem([scal.get(n, UNINIT)], self.name + '.' + n)
            ptrs.append(Ptr(mem, 0))
            if 'out' in a['intent']:
                outs.append((mem,))
        f = M.funcs.get(self.asm)
        if f is None:
            raise AttributeError(self.name)
        M.pc = []
        nf = len(M.faults)
        ret = f.run(M, ptrs)
        for pc, e in M.faults[nf:]:
            c = sym.TRUE
            for x in pc:
                c = sym.band(c, x)
            if bool(c):
                raise e
        ctx.sh.encoded.update(x + ' (Fortran)' for x in M.encoded)
        for v, mem in back:
            flat = np.empty(len(mem.a), dtype=object)
            for i, x in enumerate(mem.a):
                flat[i] = x
            v[...] = flat.reshape(v.shape, order='F')
        res = [o if isinstance(o, np.ndarray) else o[0].a[0] for o in outs]
        res = [ctx.fresh('uninit%d' % len(ctx.inputs)) if r is UNINIT else r for r in res]
        if not res:
            return ret
        return res[0] if len(res) == 1 else tuple(res)


# ---------------------------------------------------------------- replay build
def build(ext, outdir):
    """Compile the extension for real (f2py wrapper + sources of /repo)."""
    flags = os.environ.get('VERIF_FFLAGS', '').split()     # (replay of C22: run-time checks)
    d = os.path.join(outdir, 'ext_' + ext + ('_' + ''.join(c for c in ''.join(flags) if c.isalnum()) if flags else ''))
    so = os.path.join(d, ext + sysconfig.get_config_var('EXT_SUFFIX'))
    if os.path.exists(so):
        return so
    os.makedirs(d, exist_ok=True)
    src = sources(ext)
    env = dict(os.environ)
    r = subprocess.run([sys.executable, '-m', 'numpy.f2py', '--lower', '--quiet', '--build-dir', d, *src, '-m', ext],
                       capture_output=True, text=True, cwd=d, env=env)
    if r.returncode:
        raise RuntimeError('f2py: ' + r.stderr[-1500:])
    import numpy.f2py
    fi = numpy.f2py.get_include()
    objs = []
    for s in src + [os.path.join(d, f) for f in sorted(os.listdir(d)) if 'f2pywrappers' in f]:
        o = os.path.join(d, os.path.basename(s) + '.o')
        r = subprocess.run(['gfortran', '-O1', '-fPIC', *flags, '-fallow-argument-mismatch', '-J', d, '-I', d, '-c', s, '-o', o],
                           capture_output=True, text=True, cwd=d)
        if r.returncode:
            raise RuntimeError('gfortran: ' + r.stderr[-1500:])
        objs.append(o)
    inc = ['-I', np.get_include(), '-I', fi, '-I', sysconfig.get_paths()['include']]
    for s in (os.path.join(d, ext + 'module.c'), os.path.join(fi, 'fortranobject.c')):
        o = os.path.join(d, os.path.basename(s) + '.o')
        r = subprocess.run(['gcc', '-O1', '-fPIC', '-w', *inc, '-c', s, '-o', o], capture_output=True, text=True, cwd=d)
        if r.returncode:
            raise RuntimeError('gcc: ' + r.stderr[-1500:])
        objs.append(o)
    r = subprocess.run(['gfortran', '-shared', *objs, '-o', so + '.tmp'], capture_output=True, text=True, cwd=d)
    if r.returncode:
        raise RuntimeError('link: ' + r.stderr[-1500:])
    os.replace(so + '.tmp', so)
    return so


def modname(ext):
    return 'clawpack.pyclaw.%s.%s' % ('sharpclaw' if 'sharpclaw' in ext else 'classic', ext)


def use(ctx, ext):
    """Install the kernels `ext` for the current harness; returns the module."""
    name = modname(ext)
    import importlib
    importlib.import_module(name.rpartition('.')[0])
    if ctx.symbolic:
        m = SymFmod(name, ext, ctx)
    else:
        so = build(ext, os.environ['VERIF_SCRATCH'])
        import importlib.machinery, importlib.util
        ld = importlib.machinery.ExtensionFileLoader(ext, so)
        spec = importlib.util.spec_from_file_location(ext, so, loader=ld)
        m = importlib.util.module_from_spec(spec)
        ld.exec_module(m)
    m.__spec__ = importlib.util.spec_from_loader(name, loader.EmptyLoader())
    m.__name__ = name
    sys.modules[name] = m
    setattr(sys.modules[name.rpartition('.')[0]], ext, m)
    return m


# ------------------------------------------------------------- Riemann stubs
class Arg:
    """Array argument of an external procedure, seen with Fortran bounds."""
    def __init__(self, get, put, shape, lower):
        self.get, self.put, self.shape, self.lower = get, put, shape, lower
        st, s = 1, []
        for n in shape:
            s.append(st)
            st *= n
        self.st = s
    def _off(self, idx):
        o = 0
        for i, l, n, s in zip(idx, self.lower, self.shape, self.st):
            o += (i - l) * s
        return o
    def __getitem__(self, idx):
        return self.get(self._off(idx if isinstance(idx, tuple) else (idx,)))
    def __setitem__(self, idx, v):
        self.put(self._off(idx if isinstance(idx, tuple) else (idx,)), v)
    def vec(self, *tail):
        return [self[(m + 1,) + tail] for m in range(self.shape[0])]
    def setvec(self, vals, *tail):
        for m, v in enumerate(vals):
            self[(m + 1,) + tail] = v


class Ext:
    """External procedure passed to a kernel: fn(ints, arrays).

    spec: list of ('i',) or ('a', shape_fn, lower_fn) where the functions take the
    integers read so far.  In replay mode it becomes a C callback in a capsule."""
    def __init__(self, ctx, spec, fn):
        self.ctx, self.spec, self.fn = ctx, spec, fn
        if ctx.symbolic:
            self._cpointer = self.symcall
        else:
            self.cb = ctypes.CFUNCTYPE(None, *[ctypes.c_void_p] * len(spec))(self.ccall)
            new = ctypes.pythonapi.PyCapsule_New
            new.restype = ctypes.py_object
            new.argtypes = [ctypes.c_void_p, ctypes.c_char_p, ctypes.c_void_p]
            self._cpointer = new(ctypes.cast(self.cb, ctypes.c_void_p), None, None)

    def symcall(self, M, *args):
        ints, arrs = [], []
        for sp, a in zip(self.spec, args):
            if sp[0] == 'i':
                ints.append(M.load(a, 0))
        for sp, a in zip(self.spec, args):
            if sp[0] == 'a':
                def mk(p):
                    def get(o):
                        return M.load(p, o)
                    def put(o, v):
                        M.store(p, o, v if isinstance(v, R) else lift(v))
                    return get, put
                g, p = mk(a)
                arrs.append(Arg(g, p, sp[1](ints), sp[2](ints)))
        self.fn(ints, arrs)

    def ccall(self, *args):
        try:
            ints, arrs = [], []
            for sp, a in zip(self.spec, args):
                if sp[0] == 'i':
                    ints.append(ctypes.c_int.from_address(a).value)
            for sp, a in zip(self.spec, args):
                if sp[0] == 'a':
                    def mk(p):
                        def get(o):
                            return ctypes.c_double.from_address(p + 8 * o).value
                        def put(o, v):
                            ctypes.c_double.from_address(p + 8 * o).value = float(v)
                        return get, put
                    g, p = mk(a)
                    arrs.append(Arg(g, p, sp[1](ints), sp[2](ints)))
            self.fn(ints, arrs)
        except BaseException as e:
            self.ctx.cberror = e
            import traceback
            traceback.print_exc()


class Proc:
    def __init__(self, ext):
        self._cpointer = ext._cpointer
        self.ext = ext


def _lo(*l):
    return lambda ints: l

def rp_module(ctx, name='advection_1D'):
    return types.ModuleType(name)


def normal_rp(ctx, dim, solve):
    """Normal Riemann solver procedure.

    solve(ixy, ql, qr, auxl, auxr) -> (waves[mw][m], speeds[mw], amdq[m], apdq[m])
    is called for every face between cell i-1 (its right state ql) and cell i (its
    left state qr), as documented for the Clawpack Riemann solvers."""
    k = 0 if dim == 1 else 1
    def I(ints):
        # (maxm, num_eqn, num_waves, num_aux, num_ghost, mx)
        return ints[k:k + 6]
    def shp(*f):
        return lambda ints: tuple(g(*I(ints)) for g in f)
    W = lambda maxm, e, w, a, g, m: maxm + 2 * g
    E = lambda maxm, e, w, a, g, m: e
    Wv = lambda maxm, e, w, a, g, m: w
    A = lambda maxm, e, w, a, g, m: a
    lo2 = lambda ints: (1, 1 - I(ints)[4])
    lo3 = lambda ints: (1, 1, 1 - I(ints)[4])
    q = ('a', shp(E, W), lo2)
    if dim == 3:
        aux = ('a', lambda ints: (I(ints)[3], I(ints)[0] + 2 * I(ints)[4], 3), lambda ints: (1, 1 - I(ints)[4], 1))
    else:
        aux = ('a', shp(A, W), lo2)
    spec = [('i',)] * (k + 6) + [q, q] + [('a', shp(A, W), lo2)] * 2 + [('a', shp(E, Wv, W), lo3), ('a', shp(Wv, W), lo2), q, q]
    def fn(ints, arrs):
        maxm, ne, nw, na, ng, mx = I(ints)
        ixy = ints[0] if k else 1
        ql, qr, auxl, auxr, wave, s, amdq, apdq = arrs
        for i in range(2 - ng, mx + ng + 1):
            # qr(i-1) is the left state, ql(i) the right state of face i
            L = qr.vec(i - 1)
            Rr = ql.vec(i)
            al = auxr.vec(i - 1)
            ar = auxl.vec(i)
            if getattr(solve, 'positional', False):
                w, sp, am, ap = solve(ixy, L, Rr, al, ar, i, mx)
            else:
                w, sp, am, ap = solve(ixy, L, Rr, al, ar)
            for mw in range(nw):
                s[(mw + 1, i)] = sp[mw]
                for m in range(ne):
                    wave[(m + 1, mw + 1, i)] = w[mw][m]
            amdq.setvec(am, i)
            apdq.setvec(ap, i)
    return Proc(Ext(ctx, spec, fn))


def trans_rp(ctx, dim, nflags, solve):
    """Transverse solver: solve(flags, L, R, auxrows, asdq) -> (down, up).

    flags are the leading integers (ixy,imp) / (ixyz,icoor,imp) / (ixyz,icoor,imp,impt);
    auxrows[k] holds the aux vectors of the row below/at/above on both sides of the face."""
    k = nflags
    def I(ints):
        return ints[k:k + 6]
    lo2 = lambda ints: (1, 1 - I(ints)[4])
    q = ('a', lambda ints: (I(ints)[1], I(ints)[0] + 2 * I(ints)[4]), lo2)
    if dim == 3:
        aux = ('a', lambda ints: (I(ints)[3], I(ints)[0] + 2 * I(ints)[4], 3), lambda ints: (1, 1 - I(ints)[4], 1))
    else:
        aux = ('a', lambda ints: (I(ints)[3], I(ints)[0] + 2 * I(ints)[4]), lo2)
    spec = [('i',)] * (k + 6) + [q, q, aux, aux, aux, q, q, q]
    def fn(ints, arrs):
        maxm, ne, nw, na, ng, mx = I(ints)
        ql, qr, a1, a2, a3, asdq, bm, bp = arrs
        out = []
        for i in range(2 - ng, mx + ng + 1):
            rows = []
            if ctx.trans_aux:
                for a in (a1, a2, a3):
                    if dim == 3:
                        rows.append([a.vec(i - 1, c) + a.vec(i, c) for c in (1, 2, 3)])
                    else:
                        rows.append(a.vec(i - 1) + a.vec(i))
            b, p = solve(tuple(ints[:k]), qr.vec(i - 1), ql.vec(i), rows, asdq.vec(i))
            out.append((i, b, p))
        for i, b, p in out:
            bm.setvec(b, i)
            bp.setvec(p, i)
    return Proc(Ext(ctx, spec, fn))


def tfluct_proc(ctx, dim, solve):
    """Total fluctuation solver: solve(ixy, ql_i, qr_i, auxl, auxr) -> adq."""
    k = 0 if dim == 1 else 1
    def I(ints):
        return ints[k:k + 6]
    lo2 = lambda ints: (1, 1 - I(ints)[4])
    q = ('a', lambda ints: (I(ints)[1], I(ints)[0] + 2 * I(ints)[4]), lo2)
    aux = ('a', lambda ints: (I(ints)[3], I(ints)[0] + 2 * I(ints)[4]), lo2)
    spec = [('i',)] * (k + 6) + [q, q, aux, aux, q]
    def fn(ints, arrs):
        maxm, ne, nw, na, ng, mx = I(ints)
        ql, qr, al, ar, adq = arrs
        for i in range(2 - ng, mx + ng + 1):
            adq.setvec(solve(ints[0] if k else 1, ql.vec(i), qr.vec(i), al.vec(i), ar.vec(i)), i)
    return Proc(Ext(ctx, spec, fn))
