"""Load the real pyclaw sources from /repo for symbolic execution.

The modules are compiled from the current files in the working tree.  The only
transformation is mechanical and semantics-preserving on machine values:
  * "literal %% args"  -> helper that can print a symbolic number
  * f-strings / str()/format on symbolic values print a placeholder
  * the names min, max, abs, float, int, sum, round, isinstance and the modules numpy/math
    resolve to wrappers which behave like the originals on machine values and
    build solver terms on symbolic ones.
"""
import ast, builtins, importlib.abc, importlib.util, os, sys, types
import math as _math
import numpy as _np
from . import sym, fp
from .sym import R, B, lift

REPO = os.environ.get('VERIF_REPO', '/repo')
ROOT = os.path.join(REPO, 'src', 'pyclaw')
LOADED = {}


def isym(x):
    return isinstance(x, (R, B))


def has_sym(x):
    if isinstance(x, (R, B)):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(y) for y in x)
    return False


# ---------------------------------------------------------------- builtins
def _min(*a, **k):
    seq = a[0] if len(a) == 1 else a
    if k or not has_sym(list(seq)):
        return builtins.min(*a, **k)
    return _red(seq, sym.smin, builtins.min)

def _max(*a, **k):
    seq = a[0] if len(a) == 1 else a
    if k or not has_sym(list(seq)):
        return builtins.max(*a, **k)
    return _red(seq, sym.smax, builtins.max)

INF = float('inf')
def _red(seq, op, plain):
    r = None
    for x in seq:
        if r is None:
            r = x
        elif not isym(r) and not isym(x):
            r = plain(r, x)
        else:
            # infinities from initial status values
            for u, v in ((r, x), (x, r)):
                if isinstance(u, (float, _np.floating)) and u in (INF, -INF):
                    r = v if (u > 0) == (op is sym.smin) else u
                    break
            else:
                r = op(r, x)
    return r

class _Float(float):
    def __new__(cls, x=0.0):
        if isinstance(x, (R, fp.F64)):
            return x
        if isinstance(x, B):
            return lift(x)
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1:
            return x.item()
        if isinstance(x, (str, bytes)):
            return sym.decode(float(x))
        return float(x)

class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, (float, R, fp.F64))
class FloatT(float, metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        return _Float.__new__(_Float, x)

class _IntMeta(type):
    def __instancecheck__(cls, x):
        return builtins.isinstance(x, int)
class IntT(int, metaclass=_IntMeta):
    def __new__(cls, *a):
        if a and isinstance(a[0], R):
            return IntSym(sym.trunc(a[0])) if not a[0].is_const() else int(a[0].cval())
        return int(*a)

def IntSym(r):
    """Symbolic integer: kept as a real-valued term, concretised at __index__."""
    return SInt(r.t)

class SInt(R):
    __slots__ = ()
    def __index__(self):
        from . import explore
        return explore.concretize_int(self)
    def __int__(self):
        from . import explore
        return explore.concretize_int(self)

def _isinstance(x, t):
    if isinstance(x, (R, fp.F64)):
        ts = t if builtins.isinstance(t, tuple) else (t,)
        for c in ts:
            if c in (float, FloatT, R):
                return True
            try:
                import numbers
                if c in (numbers.Number, numbers.Real):
                    return True
            except Exception:
                pass
        return builtins.isinstance(x, t)
    return builtins.isinstance(x, _untype(t))

def _untype(t):
    if builtins.isinstance(t, tuple):
        return tuple(_untype(x) for x in t)
    return {FloatT: float, IntT: int}.get(t, t) if builtins.isinstance(t, type) else t

def _undt(a, k):
    return tuple(float if x is FloatT else x for x in a), {n: float if x is FloatT else x for n, x in k.items()}

def _abs(x):
    return builtins.abs(x)

def _fmt(s, args):
    """literal % args with symbolic operands (represented by their codes)."""
    if not isinstance(s, (str, bytes)):
        return s % args
    if isinstance(args, dict):
        return s % {k: sym.encode(v) if isym(v) else v for k, v in args.items()}
    tup = args if isinstance(args, tuple) else (args,)
    if any(type(x).__name__ in ('F64', 'Interval') for x in tup):      # machine numbers: messages only
        return 'f64'
    if any(isym(x) for x in tup):
        return s % tuple(sym.encode(x) if isym(x) else x for x in tup)
    return s % args


def is_int_dtype(dtype):
    try:
        return dtype is not None and _np.dtype(_untype(dtype)).kind in 'iu'
    except TypeError:
        return False


def to_int_array(a):
    """truncation of each element, as the conversion to an integer type does"""
    a = _np.asarray(a, dtype=object)
    v = [IntT(x) for x in a.ravel()]
    if not any(isinstance(x, R) for x in v):
        return _np.array(v, dtype=int).reshape(a.shape)
    out = _np.empty(len(v), dtype=object)
    out[:] = v
    return sa(out.reshape(a.shape))


def decode_array(a):
    """undo the representation of symbolic values read from a file"""
    f = [sym.decode(v) for v in _np.asarray(a).ravel(order='F')]
    if not any(isinstance(v, R) for v in f):
        return a
    out = _np.empty(len(f), dtype=object)
    for i, v in enumerate(f):
        out[i] = v if isinstance(v, R) else R.const(float(v))
    return sa(out.reshape(a.shape, order='F'))


def encode_array(a):
    a = _np.asarray(a)
    if a.dtype != object:
        return a
    out = _np.array([sym.encode(v) for v in a.ravel(order='F')], dtype=float)
    return out.reshape(a.shape, order='F')


def _mask(i):
    """A mask of symbolic booleans used as an index is forked to a concrete one."""
    if isinstance(i, tuple):
        return tuple(_mask(j) for j in i)
    if isinstance(i, _np.ndarray) and i.dtype == object:
        fl = i.ravel()
        if fl.size and isinstance(fl[0], (B, bool, _np.bool_)):
            return _np.frompyfunc(bool, 1, 1)(i).astype(bool)
        if fl.size and isinstance(fl[0], R):
            return _np.frompyfunc(int, 1, 1)(i).astype(int)
    return i


class SA(_np.ndarray):
    """object array whose comparisons build terms instead of forking"""
    def __getitem__(self, i):
        return _np.ndarray.__getitem__(self, _mask(i))
    def __setitem__(self, i, v):
        _np.ndarray.__setitem__(self, _mask(i), v)
    def _c(self, o, uf):
        if self.dtype != object and not has_sym(o):
            return uf(self, o)
        return uf(self, o, dtype=object)
    def __lt__(self, o): return self._c(o, _np.less)
    def __le__(self, o): return self._c(o, _np.less_equal)
    def __gt__(self, o): return self._c(o, _np.greater)
    def __ge__(self, o): return self._c(o, _np.greater_equal)
    def __eq__(self, o):
        if o is None:
            return False
        return self._c(o, _np.equal)
    def __ne__(self, o):
        if o is None:
            return True
        return self._c(o, _np.not_equal)
    __hash__ = None
    def max(self, axis=None, **k):
        return NPX.max(_np.asarray(self), axis)
    def min(self, axis=None, **k):
        return NPX.min(_np.asarray(self), axis)
    def all(self, axis=None, **k):
        return NPX.all(_np.asarray(self), axis)
    def any(self, axis=None, **k):
        return NPX.any(_np.asarray(self), axis)
    def astype(self, dtype, *a, **k):
        if dtype in (float, FloatT) or dtype == _np.float64:
            return self.copy()
        return _np.ndarray.astype(self, dtype, *a, **k)
    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if return_scalar or arr.ndim == 0 and not isinstance(arr, SA):
            return arr[()]
        return _np.asarray(arr).view(SA)


def sa(x):
    if isinstance(x, _np.ndarray) and x.dtype == object and not isinstance(x, SA):
        return x.view(SA)
    return x


class NP(types.ModuleType):
    """numpy with object-dtype float arrays and ite-building comparisons."""
    def __init__(self):
        types.ModuleType.__init__(self, 'numpy')
        self.__path__ = _np.__path__
        self.linalg = _np.linalg
        self.random = _np.random

    def __getattr__(self, n):
        return getattr(_np, n)

    # files: symbolic values are represented by their codes
    def fromfile(self, *a, **k):
        a, k = _undt(a, k)
        return decode_array(_np.fromfile(*a, **k))
    def fromstring(self, *a, **k):
        a, k = _undt(a, k)
        return decode_array(_np.fromstring(*a, **k))
    def frombuffer(self, *a, **k):
        a, k = _undt(a, k)
        return decode_array(_np.frombuffer(*a, **k))
    def loadtxt(self, *a, **k):
        a, k = _undt(a, k)
        return decode_array(_np.loadtxt(*a, **k))
    def genfromtxt(self, *a, **k):
        a, k = _undt(a, k)
        return decode_array(_np.genfromtxt(*a, **k))
    def savetxt(self, f, x, *a, **k):
        return _np.savetxt(f, encode_array(x), *a, **k)

    # creation: float storage becomes object storage of exact zeros/ones
    @staticmethod
    def _obj(dtype):
        if dtype is None or dtype in (float, FloatT, object, 'float', 'float64', 'd') or dtype is _np.float64 or dtype == _np.float64:
            return True
        return False

    def zeros(self, shape, dtype=None, order='C', **k):
        if self._obj(dtype):
            a = _np.empty(shape, dtype=object, order=order)
            a.fill(sym.ZERO)
            return sa(a)
        return _np.zeros(shape, dtype=dtype, order=order, **k)

    def ones(self, shape, dtype=None, order='C', **k):
        if self._obj(dtype):
            a = _np.empty(shape, dtype=object, order=order)
            a.fill(R.const(1))
            return sa(a)
        return _np.ones(shape, dtype=dtype, order=order, **k)

    def empty(self, shape, dtype=None, order='C', **k):
        if self._obj(dtype):
            a = _np.empty(shape, dtype=object, order=order)
            if UNINIT_FILL[0]:
                fa = a.reshape(-1, order='A') if a.size else a
                for i in range(a.size):
                    a.flat[i] = uninit()
            else:
                a.fill(sym.ZERO)
            return sa(a)
        return _np.empty(shape, dtype=dtype, order=order, **k)

    def full(self, shape, v, dtype=None, order='C', **k):
        if self._obj(dtype):
            a = _np.empty(shape, dtype=object, order=order)
            a.fill(lift(v))
            return sa(a)
        return _np.full(shape, v, dtype=dtype, order=order, **k)

    def zeros_like(self, a, dtype=None, **k):
        if has_sym(a) or self._obj(dtype) and dtype is not None:
            return self.zeros(_np.shape(a), order='F' if a.flags.f_contiguous and not a.flags.c_contiguous else 'C')
        return _np.zeros_like(a, dtype=dtype, **k)

    def empty_like(self, a, dtype=None, **k):
        if has_sym(a):
            return self.empty(_np.shape(a), order='F' if a.flags.f_contiguous and not a.flags.c_contiguous else 'C')
        return _np.empty_like(a, dtype=dtype, **k)

    def ones_like(self, a, dtype=None, **k):
        if has_sym(a):
            return self.ones(_np.shape(a))
        return _np.ones_like(a, dtype=dtype, **k)

    def array(self, a, dtype=None, **k):
        if has_sym(a):
            if is_int_dtype(dtype):
                return to_int_array(a)
            return sa(_np.array(a, dtype=object, **k))
        return _np.array(a, dtype=_untype(dtype) if dtype is not None else None, **k)

    def asarray(self, a, dtype=None, **k):
        if has_sym(a):
            if is_int_dtype(dtype):
                return to_int_array(a)
            return sa(_np.asanyarray(a, dtype=object, **k))
        return _np.asarray(a, dtype=_untype(dtype) if dtype is not None else None, **k)

    def asfortranarray(self, a, dtype=None):
        if has_sym(a):
            return sa(_np.asfortranarray(a, dtype=object))
        return _np.asfortranarray(a, dtype=dtype)

    def ascontiguousarray(self, a, dtype=None):
        if has_sym(a):
            return sa(_np.ascontiguousarray(a, dtype=object))
        return _np.ascontiguousarray(a, dtype=dtype)

    def linspace(self, a, b, n=50, endpoint=True, **k):
        if has_sym((a, b)):
            d = (n - 1) if endpoint else n
            out = _np.empty(n, dtype=object)
            for i in range(n):
                out[i] = lift(a) + (lift(b) - lift(a)) * sym.Fraction(i, d or 1)
            return sa(out)
        return _np.linspace(a, b, n, endpoint=endpoint, **k)

    # elementwise
    @staticmethod
    def _ew(f, *args, out=None):
        r = sa(_np.frompyfunc(f, len(args), 1)(*args))
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r

    def maximum(self, a, b, out=None, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(sym.smax, a, b, out=out)
        return _np.maximum(a, b, out=out, **k)
    fmax = maximum

    def minimum(self, a, b, out=None, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(sym.smin, a, b, out=out)
        return _np.minimum(a, b, out=out, **k)
    fmin = minimum

    def abs(self, a, out=None, **k):
        if has_sym(a):
            return self._ew(builtins.abs, a, out=out)
        return _np.abs(a, out=out, **k)
    absolute = abs
    fabs = abs

    def sign(self, a, out=None, **k):
        if has_sym(a):
            return self._ew(sym.ssign, a, out=out)
        return _np.sign(a, out=out, **k)

    def floor(self, a, **k):
        if builtins.isinstance(a, fp.F64):
            return a.floor()
        if has_sym(a):
            return self._ew(sym.floor, a)
        return _np.floor(a, **k)

    def ceil(self, a, **k):
        if has_sym(a):
            return self._ew(lambda x: -sym.floor(-lift(x)), a)
        return _np.ceil(a, **k)

    def round(self, a, *x, **k):
        if has_sym(a):
            return self._ew(lambda x: lift(x).rint(), a)
        return _np.round(a, *x, **k)
    rint = round

    def sqrt(self, a, **k):
        if has_sym(a):
            return self._ew(lambda x: lift(x).sqrt(), a)
        return _np.sqrt(a, **k)

    def divide(self, a, b, out=None, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(lambda x, y: lift(x) / y, a, b, out=out)
        return _np.divide(a, b, out=out, **k)
    true_divide = divide

    def where(self, c, *xy):
        if xy and has_sym(c):
            return self._ew(sym.ite, c, xy[0], xy[1])
        if xy and (has_sym(xy[0]) or has_sym(xy[1])):
            return self._ew(lambda cc, x, y: x if cc else y, c, xy[0], xy[1])
        if not xy and has_sym(c):
            c = _np.frompyfunc(bool, 1, 1)(c).astype(bool)
        return _np.where(c, *xy)

    def logical_and(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(sym.band, a, b)
        return _np.logical_and(a, b, **k)

    def logical_or(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(sym.bor, a, b)
        return _np.logical_or(a, b, **k)

    def logical_not(self, a, **k):
        if has_sym(a):
            return self._ew(sym.bnot, a)
        return _np.logical_not(a, **k)

    def isnan(self, a, **k):
        if has_sym(a):
            return _np.zeros(_np.shape(a), dtype=bool) if _np.shape(a) else False
        return _np.isnan(a, **k)

    def isfinite(self, a, **k):
        if has_sym(a):
            return _np.ones(_np.shape(a), dtype=bool) if _np.shape(a) else True
        return _np.isfinite(a, **k)

    def isinf(self, a, **k):
        if has_sym(a):
            return _np.zeros(_np.shape(a), dtype=bool) if _np.shape(a) else False
        return _np.isinf(a, **k)

    # reductions
    def _reduce(self, a, axis, op, plain):
        a = _np.asarray(a, dtype=object)
        if axis is None:
            return _red(list(a.ravel()), op, plain)
        a = _np.moveaxis(a, axis, 0)
        r = a[0].copy() if isinstance(a[0], _np.ndarray) else a[0]
        for x in a[1:]:
            r = self._ew(op, r, x)
        return r

    def max(self, a, axis=None, **k):
        if has_sym(a):
            return self._reduce(a, axis, sym.smax, builtins.max)
        return _np.max(a, axis=axis, **k)
    amax = max
    nanmax = max

    def min(self, a, axis=None, **k):
        if has_sym(a):
            return self._reduce(a, axis, sym.smin, builtins.min)
        return _np.min(a, axis=axis, **k)
    amin = min
    nanmin = min

    def all(self, a, axis=None, **k):
        if has_sym(a):
            r = sym.TRUE
            for x in _np.asarray(a, dtype=object).ravel():
                r = sym.band(r, x)
            return r
        return _np.all(a, axis=axis, **k)

    def any(self, a, axis=None, **k):
        if has_sym(a):
            r = sym.FALSE
            for x in _np.asarray(a, dtype=object).ravel():
                r = sym.bor(r, x)
            return r
        return _np.any(a, axis=axis, **k)

    def allclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if has_sym(a) or has_sym(b):
            return self.all(self.isclose(a, b, rtol, atol))
        return _np.allclose(a, b, rtol, atol, **k)

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **k):
        if has_sym(a) or has_sym(b):
            return self._ew(lambda x, y: builtins.abs(lift(x) - y) <= lift(atol) + lift(rtol) * builtins.abs(lift(y)), a, b)
        return _np.isclose(a, b, rtol, atol, **k)

    float64 = double = float_ = FloatT

UNINIT_FILL = [False]
_un = [0]
def uninit():
    from . import explore
    _un[0] += 1
    return explore.CUR.fresh('uninit_%d' % len(explore.CUR.inputs))


class MATH(types.ModuleType):
    def __init__(self):
        types.ModuleType.__init__(self, 'math')
    def __getattr__(self, n):
        return getattr(_math, n)
    def floor(self, x):
        if builtins.isinstance(x, fp.F64):
            return int(x.floor())
        return IntSym(sym.floor(x)) if isinstance(x, R) else _math.floor(x)
    def ceil(self, x):
        return IntSym(-sym.floor(-x)) if isinstance(x, R) else _math.ceil(x)
    def fabs(self, x):
        return builtins.abs(x) if isinstance(x, R) else _math.fabs(x)
    def sqrt(self, x):
        return x.sqrt() if isinstance(x, R) else _math.sqrt(x)
    def isnan(self, x):
        return False if isinstance(x, R) else _math.isnan(x)
    def isfinite(self, x):
        return True if isinstance(x, R) else _math.isfinite(x)
    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if isym(a) or isym(b):
            a, b = lift(a), lift(b)
            return builtins.abs(a - b) <= sym.smax(lift(rel_tol) * sym.smax(builtins.abs(a), builtins.abs(b)), abs_tol)
        return _math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)


NPX = NP()
MATHX = MATH()


class Rewrite(ast.NodeTransformer):
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.Name('__vfmt__', ast.Load()), [n.left, n.right], []), n)
        return n

    def visit_Import(self, n):
        out = []
        for a in n.names:
            if a.name in ('numpy', 'math', 'h5py'):
                out.append(ast.copy_location(ast.Assign(
                    [ast.Name(a.asname or a.name, ast.Store())],
                    ast.Name('__v%s__' % a.name, ast.Load())), n))
            else:
                out.append(ast.copy_location(ast.Import([a]), n))
        return out

    def visit_ImportFrom(self, n):
        if n.module in ('numpy', 'math') and n.level == 0 and not any(a.name == '*' for a in n.names):
            mod = '__vnumpy__' if n.module == 'numpy' else '__vmath__'
            return [ast.copy_location(ast.Assign(
                [ast.Name(a.asname or a.name, ast.Store())],
                ast.Attribute(ast.Name(mod, ast.Load()), a.name, ast.Load())), n) for a in n.names]
        return n




class H5(types.ModuleType):
    """h5py on real files, with symbolic values represented by their codes."""
    def __init__(self):
        types.ModuleType.__init__(self, 'h5py')
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        import h5py
        return getattr(h5py, n)
    def File(self, *a, **k):
        import h5py
        return H5Group(h5py.File(*a, **k))

def _h5in(v):
    if isinstance(v, R):
        return sym.encode(v)
    if isinstance(v, _np.ndarray):
        return encode_array(v)
    if isinstance(v, (list, tuple)) and any(isym(x) for x in v):
        return [sym.encode(x) for x in v]
    return v

def _h5out(v):
    if isinstance(v, (float, _np.floating)):
        d = sym.decode(v)
        return d if isinstance(d, R) else v
    if isinstance(v, _np.ndarray) and v.dtype.kind == 'f':
        return decode_array(v)
    return v

class H5Attrs:
    def __init__(self, o):
        self._o = o
    def __getattr__(self, n):
        return getattr(self._o, n)
    def __setitem__(self, k, v):
        self._o[k] = _h5in(v)
    def create(self, k, v, *a, **kw):
        self._o.create(k, _h5in(v), *a, **kw)
    def __getitem__(self, k):
        return _h5out(self._o[k])
    def get(self, k, d=None):
        return _h5out(self._o.get(k, d))
    def items(self):
        return [(k, _h5out(v)) for k, v in self._o.items()]
    def keys(self):
        return self._o.keys()
    def values(self):
        return [_h5out(v) for v in self._o.values()]
    def __iter__(self):
        return iter(self._o)
    def __contains__(self, k):
        return k in self._o
    def __len__(self):
        return len(self._o)

class H5Set:
    def __init__(self, o):
        self._o = o
        self.attrs = H5Attrs(o.attrs)
    def __getattr__(self, n):
        return getattr(self._o, n)
    def __getitem__(self, i):
        return _h5out(self._o[i])
    def __setitem__(self, i, v):
        self._o[i] = _h5in(v)
    def __array__(self, dtype=None, copy=None):
        return _np.asarray(_h5out(self._o[()]))
    def __len__(self):
        return len(self._o)

def _h5wrap(o):
    import h5py
    return H5Group(o) if isinstance(o, h5py.Group) else H5Set(o) if isinstance(o, h5py.Dataset) else o

class H5Group:
    def __init__(self, o):
        self._o = o
        self.attrs = H5Attrs(o.attrs)
    def __enter__(self):
        self._o.__enter__()
        return self
    def __exit__(self, *a):
        return self._o.__exit__(*a)
    def __getattr__(self, n):
        return getattr(self._o, n)
    def create_group(self, *a, **k):
        return H5Group(self._o.create_group(*a, **k))
    def require_group(self, *a, **k):
        return H5Group(self._o.require_group(*a, **k))
    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if data is not None:
            data = _h5in(data)
        if dtype in (object, FloatT):
            dtype = float
        return H5Set(self._o.create_dataset(name, shape=shape, dtype=dtype, data=data, **k))
    def __getitem__(self, k):
        return _h5wrap(self._o[k])
    def __setitem__(self, k, v):
        self._o[k] = _h5in(v)
    def get(self, k, d=None):
        return _h5wrap(self._o.get(k, d))
    def keys(self):
        return self._o.keys()
    def values(self):
        return [_h5wrap(v) for v in self._o.values()]
    def items(self):
        return [(k, _h5wrap(v)) for k, v in self._o.items()]
    def __iter__(self):
        return iter(self._o)
    def __contains__(self, k):
        return k in self._o
    def __len__(self):
        return len(self._o)


ENV = {'__vh5py__': H5(), '__vfmt__': _fmt, '__vnumpy__': NPX, '__vmath__': MATHX,
       'min': _min, 'max': _max, 'float': FloatT, 'int': IntT,
       'isinstance': _isinstance}


class Loader(importlib.abc.Loader):
    def __init__(self, path):
        self.path = path
    def create_module(self, spec):
        return None
    def exec_module(self, mod):
        with open(self.path) as fh:
            src = fh.read()
        tree = ast.parse(src, self.path)
        tree = ast.fix_missing_locations(Rewrite().visit(tree))
        mod.__file__ = self.path
        mod.__dict__.update(ENV)
        mod.__dict__.update(EXTRA.get(mod.__name__, {}))
        LOADED[mod.__name__] = self.path
        exec(compile(tree, self.path, 'exec'), mod.__dict__)

EXTRA = {}

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        if name != 'clawpack.pyclaw' and not name.startswith('clawpack.pyclaw.'):
            return None
        rel = name.split('.')[2:]
        base = os.path.join(ROOT, *rel)
        if os.path.isdir(base) and os.path.exists(os.path.join(base, '__init__.py')):
            p = os.path.join(base, '__init__.py')
            return importlib.util.spec_from_file_location(name, p, loader=self.loader(p),
                                                          submodule_search_locations=[base])
        if os.path.exists(base + '.py'):
            return importlib.util.spec_from_file_location(name, base + '.py', loader=self.loader(base + '.py'))
        # compiled kernels are never taken from the installed build
        if rel and rel[-1] in ('classic1', 'classic2', 'classic3', 'sharpclaw1', 'sharpclaw2',
                               'sharpclaw3', 'classic2_ptwise', 'classic3_ptwise'):
            return importlib.util.spec_from_loader(name, EmptyLoader())
        return None
    def loader(self, p):
        return Loader(p)

class PlainFinder(Finder):
    def loader(self, p):
        import importlib.machinery
        rel = os.path.relpath(p, ROOT)[:-3].split(os.sep)
        if rel[-1] == '__init__':
            rel = rel[:-1]
        return importlib.machinery.SourceFileLoader('.'.join(['clawpack', 'pyclaw'] + rel), p)

class EmptyLoader(importlib.abc.Loader):
    def create_module(self, spec):
        return None
    def exec_module(self, mod):
        pass


def install(symbolic):
    """Make `clawpack.pyclaw` resolve to the current /repo working tree."""
    sys.dont_write_bytecode = True
    no_rebuild()
    sys.meta_path.insert(0, Finder() if symbolic else PlainFinder())
    if symbolic:
        # masked division: the divisor is masked where it vanishes (the machine-dependent
        # underflow threshold of numpy.ma is part of rounding)
        import numpy
        from numpy.ma import core
        orig = core._DomainSafeDivide.__call__
        def call(self, a, b):
            a, b = numpy.asarray(a), numpy.asarray(b)
            if a.dtype == object or b.dtype == object:
                return numpy.array([bool(x == 0) for x in b.ravel()], dtype=bool).reshape(b.shape)
            return orig(self, a, b)
        core._DomainSafeDivide.__call__ = call


def no_rebuild():
    """The editable-install finder must not rebuild /opt/clawpack on import:
    kernels are compiled by the checks themselves from /repo."""
    for f in sys.meta_path:
        if type(f).__name__ == 'MesonpyMetaFinder':
            mod = sys.modules[type(f).__module__]
            import json
            plan = os.path.join(f._build_path, 'meson-info', 'intro-install_plan.json')
            with open(plan) as fh:
                tree = mod.collect(json.load(fh))
            f._rebuild = lambda: tree
