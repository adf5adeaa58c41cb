"""Symbolic real domain used by every harness.

A value is a Laurent polynomial with rational coefficients over *atoms*.  An
atom is a z3 Real term: an input variable, an ite/abs/max term, a quotient by a
non-monomial, or the result of an uninterpreted environment stub.  The normal
form only keeps terms small and canonical; every decision (branch feasibility,
assertion) is made by the solver on the z3 translation.
"""
from fractions import Fraction
import math
import numpy as np
import z3

# ---------------------------------------------------------------------------
# float -> rational: a source constant such as 0.3333333333333333 stands for
# the simplest rational that rounds to it (rounding is outside the claim).
_FR = {}
def frac(c):
    if isinstance(c, Fraction):
        return c
    if isinstance(c, int):
        return Fraction(c)
    v = SP.consts.get(c) or _FR.get(c)
    if v is None:
        c = float(c)
        if c != c or c in (float('inf'), float('-inf')):
            raise ValueError('non-finite constant %r' % c)
        v = Fraction(c).limit_denominator(1000000)
        if float(v) != c:
            v = Fraction(c)
            d = Fraction(repr(c))
            if abs(c) < 1e30 and float(np.float32(c)) == c:
                t = str(np.float32(c))
                if len(t.split('e')[0].replace('.', '').strip('-0')) <= 5:
                    d = Fraction(t)      # a single precision literal of the source
            if d.denominator < v.denominator:
                v = d
        _FR[c] = v
    return v


class Space:
    """Atom table (one per exploration run)."""
    def __init__(self):
        self.atoms = []      # z3 terms
        self.sign = []       # '+' positive, '0' non-negative, None unknown
        self.key = {}        # structural key -> atom index
        self.nonlin = set()  # defining facts of reciprocals
        self.axioms = []     # z3 facts defining atoms (always true)
        self.mono = {}       # monomial -> z3
        self.fresh = 0
        self.atoms_keep = []
        self.codes = []      # symbolic values stored in files (see encode)
        self.codeix = {}
        self.nary = {}       # atom index -> ('max'|'min', arguments)
        self.assume_nonzero = False
        self.lower = {}      # atom index -> positive lower bound
        self.soft_zero = False
        self.consts = {}     # source constants to be read as another number
        self.track = False   # follow signs through sums and products
        self.quot = {}       # atom index -> polynomial of which it is the reciprocal

    def atom(self, term, sign=None, key=None):
        if key is not None and key in self.key:
            return self.key[key]
        i = len(self.atoms)
        self.atoms.append(term)
        self.sign.append(sign)
        if key is not None:
            self.key[key] = i
        return i

    def name(self, base):
        self.fresh += 1
        return '%s!%d' % (base, self.fresh)


SP = Space()

def reset():
    global SP
    SP = Space()
    return SP


def _mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] < y[0]:
            out.append(x); i += 1
        elif y[0] < x[0]:
            out.append(y); j += 1
        else:
            e = x[1] + y[1]
            if e:
                out.append((x[0], e))
            i += 1; j += 1
    out.extend(a[i:]); out.extend(b[j:])
    return tuple(out)


def _mono_z3(m):
    z = SP.mono.get(m)
    if z is None:
        num = []
        for (a, e) in m:
            if e > 0:
                num.extend([SP.atoms[a]] * e)
            else:
                num.extend([_inv(a)] * (-e))
        z = num[0]
        for f in num[1:]:
            z = z * f
        SP.mono[m] = z
    return z


_inv_name = 'inv!%d'
def _inv(a):
    k = ('inv', a)
    i = SP.key.get(k)
    if i is None:
        t = z3.Real(_inv_name % a)
        i = SP.atom(t, SP.sign[a], k)
        SP.axioms.append(t * SP.atoms[a] == 1)
        SP.nonlin.add(SP.axioms[-1].get_id())
        if SP.sign[a] == '+':
            SP.axioms.append(t > 0)
    return SP.atoms[i]


ONE = ()

_NEG = {'+': '-', '-': '+', '0': 'n', 'n': '0'}
_ADD = {('+', '+'): '+', ('+', '0'): '+', ('0', '+'): '+', ('0', '0'): '0', ('-', '-'): '-', ('-', 'n'): '-', ('n', '-'): '-', ('n', 'n'): 'n'}
_MUL = {('+', '+'): '+', ('-', '-'): '+', ('+', '-'): '-', ('-', '+'): '-', ('+', '0'): '0', ('0', '+'): '0', ('0', '0'): '0', ('n', 'n'): '0', ('-', 'n'): '0', ('n', '-'): '0',
        ('+', 'n'): 'n', ('n', '+'): 'n', ('0', 'n'): 'n', ('n', '0'): 'n', ('-', '0'): 'n', ('0', '-'): 'n'}

class SymLeak(Exception):
    """The code under test forced a symbolic value to a machine float."""


class R:
    __slots__ = ('t', '_k', '_z', '_s')

    def __init__(self, t):
        self.t = t
        self._k = None
        self._z = None
        self._s = None

    # -- construction -------------------------------------------------------
    @staticmethod
    def const(c):
        c = frac(c)
        return R({ONE: c} if c else {})

    @staticmethod
    def of_atom(i):
        return R({((i, 1),): Fraction(1)})

    def is_const(self):
        t = self.t
        return not t or (len(t) == 1 and ONE in t)

    def cval(self):
        return self.t.get(ONE, Fraction(0))

    def key(self):
        k = self._k
        if k is None:
            k = self._k = tuple(sorted(self.t.items()))
        return k

    def __hash__(self):
        return hash(self.key())

    def z3(self):
        z = self._z
        if z is None:
            terms = []
            for m, c in self.key():
                if m == ONE:
                    terms.append(z3.RealVal(str(c)))
                elif c == 1:
                    terms.append(_mono_z3(m))
                else:
                    terms.append(z3.RealVal(str(c)) * _mono_z3(m))
            if not terms:
                z = z3.RealVal(0)
            elif len(terms) == 1:
                z = terms[0]
            else:
                z = z3.Sum(terms)
            self._z = z
        return z

    def _syn(self):
        """'+' / '0' / '-' / 'n' (non-positive) / 'z' / None, syntactically."""
        if not self.t:
            return 'z'
        pos = neg = True
        strict = False
        for m, c in self.t.items():
            s = '+'
            for a, e in m:
                sa = SP.sign[a]
                if sa == '+':
                    continue
                if e % 2 == 0 or sa == '0':
                    s = '0'
                else:
                    return None
            if c > 0:
                neg = False
            else:
                pos = False
            if not (pos or neg):
                return None
            if s == '+':
                strict = True
        if pos:
            return '+' if strict else '0'
        return '-' if strict else 'n'

    def sgn(self):
        r = self._syn()
        if r is None:
            r = self._s
        if r is None and SP.lower and self.t.get((), 0) < 0:
            # a positive polynomial beyond its value at the lower bounds
            tot = Fraction(0)
            for m, c in self.t.items():
                if m and (c < 0 or not all(a in SP.lower and e > 0 for a, e in m)):
                    return None
                v = c
                for a, e in m:
                    v *= SP.lower[a] ** e
                tot += v
            if tot > 0:
                r = '+'
        return r

    def psd(self):
        """sign of a polynomial of degree two without linear terms, by elimination"""
        s = self.sgn()
        if s is not None:
            return s
        c, A, ix = Fraction(0), {}, {}
        for m, v in self.t.items():
            if m == ():
                c = v
            elif len(m) == 1 and m[0][1] == 2:
                i = ix.setdefault(m[0][0], len(ix))
                A[i, i] = v
            elif len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
                i, j = ix.setdefault(m[0][0], len(ix)), ix.setdefault(m[1][0], len(ix))
                A[i, j] = A[j, i] = v / 2
            else:
                return None
        if c < 0:
            return None
        n = len(ix)
        M = [[A.get((i, j), Fraction(0)) for j in range(n)] for i in range(n)]
        left = set(range(n))
        while left:
            k = max(left, key=lambda i: M[i][i])
            if M[k][k] < 0:
                return None
            if M[k][k] == 0:
                if any(M[i][j] != 0 for i in left for j in left):
                    return None
                break
            left.discard(k)
            for i in left:
                f = M[i][k] / M[k][k]
                if f:
                    for j in left:
                        M[i][j] -= f * M[k][j]
        self._s = '+' if c > 0 else '0'
        return self._s

    # -- arithmetic -----------------------------------------------------------
    def __add__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        a, b = self.t, o.t
        if not b:
            return self
        if not a:
            return o
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v:
                    r[m] = v
                else:
                    del r[m]
        r = R(r)
        if SP.track:
            r._s = _ADD.get((self.sgn(), o.sgn()))
        return r
    __radd__ = __add__

    def __neg__(self):
        r = R({m: -c for m, c in self.t.items()})
        r._s = _NEG.get(self._s)
        return r

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        r = self._mul(o)
        if SP.track:
            if self is o or self.t == o.t:
                r._s = {'+': '+', '-': '+'}.get(self.psd(), '0')
            else:
                r._s = _MUL.get((self.sgn(), o.sgn()))
        return r
    def _mul(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(b) == 1:
            (m2, c2), = b.items()
            return R({_mono_mul(m, m2): c * c2 for m, c in a.items()})
        if len(a) == 1:
            (m2, c2), = a.items()
            return R({_mono_mul(m, m2): c * c2 for m, c in b.items()})
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = _mono_mul(m1, m2)
                v = r.get(m, 0) + c1 * c2
                r[m] = v
        return R({m: c for m, c in r.items() if c})
    __rmul__ = __mul__

    def inverse(self):
        t = self.t
        if not t:
            if SP.soft_zero:         # inf or nan: any value, so no result may depend on it
                return R.of_atom(SP.atom(z3.Real(SP.name('undef'))))
            raise ZeroDivisionError('symbolic division by zero')
        if len(t) == 1:
            (m, c), = t.items()
            if all(SP.sign[a] == '+' for a, e in m):
                return R({tuple((a, -e) for a, e in m): 1 / c})
        # scale so that proportional denominators share one atom
        lead = self.key()[0][1]
        p = R({m: c / lead for m, c in t.items()})
        s = p.sgn()
        if s is None and SP.track:
            s = self.psd()
            s = s if lead > 0 else _NEG.get(s)
            p._s = s
        k = ('quot', p.key())
        i = SP.key.get(k)
        if i is None:
            v = z3.Real(SP.name('quot'))
            i = SP.atom(v, '+' if s == '+' else None, k)
            pz = p.z3()
            SP.axioms.append(z3.Implies(pz != 0, v * pz == 1))
            if s == '+':
                SP.axioms.append(v > 0)
                if p._s == '+':
                    SP.axioms.append(pz > 0)
            SP.quot[i] = p
        return R({((i, 1),): 1 / lead})

    def __truediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        if not o.t:
            return self * o.inverse() if SP.soft_zero else poison_div(self)
        if self.t and len(o.t) > 1:
            # exact common factor: p / (c p)
            k1, k2 = self.key(), o.key()
            if len(k1) == len(k2) and all(x[0] == y[0] for x, y in zip(k1, k2)):
                q = k1[0][1] / k2[0][1]
                if all(x[1] == q * y[1] for x, y in zip(k1, k2)) and o.sgn() in ('+', '-'):
                    return R.const(q)
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        return o / self

    def __pow__(self, n):
        if isinstance(n, R):
            if not n.is_const():
                raise SymLeak('symbolic exponent')
            n = n.cval()
        n = frac(n)
        if n.denominator == 2 and n.numerator == 1:
            return self.sqrt()
        if n.denominator != 1:
            raise SymLeak('fractional power %s' % n)
        n = int(n)
        b = self
        if n < 0:
            b = self.inverse(); n = -n
        r = R.const(1)
        for _ in range(n):
            r = r * b
        return r

    def __rpow__(self, o):
        if self.is_const():
            return lift(o) ** self.cval()
        raise SymLeak('symbolic exponent')

    def __abs__(self):
        s = self.sgn()
        if s in ('+', '0', 'z'):
            return self
        if s in ('-', 'n'):
            return -self
        if len(self.t) == 1:
            (m, c), = self.t.items()
            out = R({ONE: abs(c)})
            for a, e in m:
                sa = SP.sign[a]
                if sa == '+' or e % 2 == 0 or (sa == '0' and e > 0):
                    out = out * R({((a, e),): Fraction(1)})
                else:
                    f = R.of_atom(a)
                    out = out * (_abs_atom(f) ** e)
            return out
        p = self
        if p.key()[0][1] < 0:
            p = -p
        return _abs_atom(p)

    def sqrt(self):
        if self.is_const():
            c = self.cval()
            from math import isqrt
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return R.const(Fraction(n, d))
        k = ('sqrt', self.key())
        i = SP.key.get(k)
        if i is None:
            v = z3.Real(SP.name('sqrt'))
            i = SP.atom(v, '0', k)
            z = self.z3()
            SP.axioms.append(z3.And(v >= 0, z3.Implies(z >= 0, v * v == z)))
        return R.of_atom(i)

    def conjugate(self):
        return self
    @property
    def real(self):
        return self

    # -- comparisons -----------------------------------------------------------
    def _cmp(self, o, op):
        if isinstance(o, (float, _NPNUM)) and not isinstance(o, int) and math.isinf(o):
            return B.const({'<': o > 0, '<=': o > 0, '>': o < 0, '>=': o < 0,
                            '==': False, '!=': True}[op])
        o = lift(o)
        if o is NotImplemented:
            return NotImplemented
        d = self - o
        s = d.sgn()
        if d.is_const():
            c = d.cval()
            return B.const({'<': c < 0, '<=': c <= 0, '>': c > 0, '>=': c >= 0,
                            '==': c == 0, '!=': c != 0}[op])
        if s is not None:
            v = {('<', '+'): False, ('<', '0'): False, ('<', '-'): True,
                 ('<=', '+'): False, ('<=', '-'): True, ('<=', 'n'): True,
                 ('>', '+'): True, ('>', '-'): False, ('>', 'n'): False,
                 ('>=', '+'): True, ('>=', '0'): True, ('>=', '-'): False,
                 ('==', '+'): False, ('==', '-'): False,
                 ('!=', '+'): True, ('!=', '-'): True}.get((op, s))
            if v is not None:
                return B.const(v)
        # canonical: leading coefficient 1
        lead = d.key()[0][1]
        if lead < 0:
            op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        p = R({m: c / lead for m, c in d.t.items()})
        z = p.z3()
        if op == '<':
            return B(z < 0)
        if op == '<=':
            return B(z <= 0)
        if op == '>':
            return B(z > 0)
        if op == '>=':
            return B(z >= 0)
        if op == '==':
            return B(z == 0)
        return B(z3.Not(z == 0))

    def __lt__(self, o): return self._cmp(o, '<')
    def __le__(self, o): return self._cmp(o, '<=')
    def __gt__(self, o): return self._cmp(o, '>')
    def __ge__(self, o): return self._cmp(o, '>=')
    def __eq__(self, o):
        if o is None:
            return False
        return self._cmp(o, '==')
    def __ne__(self, o):
        if o is None:
            return True
        return self._cmp(o, '!=')

    def __bool__(self):
        return bool(self != 0)

    # -- conversions -------------------------------------------------------------
    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise SymLeak('float() of a symbolic value')

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        from . import explore
        return explore.concretize_int(trunc(self))

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise TypeError('symbolic real used as index')

    def __floor__(self):
        return floor(self)
    def floor(self):
        return floor(self)
    def ceil(self):
        return -floor(-self)
    def __ceil__(self):
        return -floor(-self)
    def __trunc__(self):
        return trunc(self)
    def rint(self):
        return floor(self + Fraction(1, 2))
    def __round__(self, n=None):
        return floor(self + Fraction(1, 2))
    def __floordiv__(self, o):
        return floor(self / o)
    def __rfloordiv__(self, o):
        return floor(lift(o) / self)
    def __mod__(self, o):
        return self - floor(self / o) * o
    def copy(self):
        return self
    def __copy__(self):
        return self
    def __deepcopy__(self, memo):
        return self

    def __str__(self):
        return repr(encode(self))
    def __format__(self, spec):
        return format(encode(self), spec)
    def __reduce__(self):
        return decode, (encode(self),)

    def __repr__(self):
        if self.is_const():
            return 'R(%s)' % self.cval()
        s = str(self.z3())
        return 'R<%s>' % (s if len(s) < 200 else s[:200] + '...')


# Values written to files: each symbolic value is represented by its own machine
# number, exact in single precision and recoverable from 8 significant digits.
CODE_UNIT, CODE_BASE = 2.0 ** 80, 2 ** 22

def encode(x):
    if not isinstance(x, R):
        return float(x)
    if x.is_const():
        return float(x.cval())
    k = x.key()
    i = SP.codeix.get(k)
    if i is None:
        i = SP.codeix[k] = len(SP.codes)
        SP.codes.append(x)
    return (CODE_BASE + i) * CODE_UNIT

def decode(v):
    y = float(v) / CODE_UNIT - CODE_BASE
    if -0.5 < y < len(SP.codes) - 0.5 and abs(y - round(y)) < 0.05:
        return SP.codes[round(y)]
    return v


def clear_denominators(d, limit=20000, once=False):
    """Numerator of d over the reciprocal atoms whose polynomial is nonzero by its
    signs: d == 0 iff the result == 0.  Returns None when it grows beyond limit."""
    while True:
        top = -1
        for m in d.t:
            for a, e in m:
                if a > top and a in SP.quot:
                    top = a
        if top < 0:
            return d
        p = SP.quot[top]
        if once and p.sgn() != '+':
            return None
        if p.sgn() not in ('+', '-') and not SP.assume_nonzero:
            return None
        hi = max([e for m in d.t for a, e in m if a == top])
        lo = min([0] + [e for m in d.t for a, e in m if a == top])
        hi = max(hi, 0)
        groups = {}
        for m, c in d.t.items():
            e = 0
            rest = []
            for x in m:
                if x[0] == top:
                    e = x[1]
                else:
                    rest.append(x)
            groups.setdefault(e, {})[tuple(rest)] = c
        out = ZERO
        pw = {0: ONE_R}
        for k in range(1, hi - lo + 1):
            pw[k] = pw[k - 1] * p
            if len(pw[k].t) > limit:
                return None
        for e, g in groups.items():
            if len(g) * len(pw[hi - e].t) > 40 * limit:
                return None
            out = out + R(g) * pw[hi - e]
            if len(out.t) > limit:
                return None
        d = out
        if once:
            return d


ZERO = R({})
ONE_R = R({ONE: Fraction(1)})

class Poison(Exception):
    pass


def poison_div(num):
    raise ZeroDivisionError('division by literal zero')


def _abs_atom(p):
    k = ('abs', p.key())
    i = SP.key.get(k)
    if i is None:
        z = p.z3()
        i = SP.atom(z3.If(z >= 0, z, -z), '0', k)
    return R.of_atom(i)


def floor(p):
    p = lift(p)
    if p.is_const():
        from math import floor as fl
        return R.const(fl(p.cval()))
    k = ('floor', p.key())
    i = SP.key.get(k)
    if i is None:
        i = SP.atom(z3.ToReal(z3.ToInt(p.z3())), None, k)
    return R.of_atom(i)


def trunc(p):
    s = p.sgn()
    if s in ('+', '0', 'z'):
        return floor(p)
    return ite(p >= 0, floor(p), -floor(-p))


import numbers
try:
    import numpy as _np
    _NPNUM = (_np.floating, _np.integer)
    _NPB = (_np.bool_,)
except ImportError:          # pragma: no cover
    _NPNUM = _NPB = ()

def lift(o):
    if isinstance(o, R):
        return o
    if isinstance(o, bool) or isinstance(o, _NPB):
        return R.const(int(o))
    if isinstance(o, (int, float, Fraction)):
        return R.const(o)
    if isinstance(o, _NPNUM):
        return R.const(o.item())
    if isinstance(o, B):
        return ite(o, 1, 0)
    if isinstance(o, _np.ndarray) and o.ndim == 0:
        return lift(o.item())
    return NotImplemented


class B:
    """Symbolic boolean."""
    __slots__ = ('z',)
    def __init__(self, z):
        self.z = z
    @staticmethod
    def const(v):
        return TRUE if v else FALSE
    def __bool__(self):
        if z3.is_true(self.z):
            return True
        if z3.is_false(self.z):
            return False
        from . import explore
        return explore.branch(self.z)
    def cst(self):
        if z3.is_true(self.z):
            return True
        if z3.is_false(self.z):
            return False
        return None
    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
    def __invert__(self): return bnot(self)
    def __xor__(self, o): return B(z3.Xor(self.z, tob(o).z))
    __rxor__ = __xor__
    def logical_not(self): return bnot(self)
    def logical_and(self, o): return band(self, o)
    def logical_or(self, o): return bor(self, o)
    def __eq__(self, o):
        if isinstance(o, (R, int, float)) and not isinstance(o, bool):
            return lift(self) == o
        return B(self.z == tob(o).z)
    def __ne__(self, o):
        return bnot(self == o)
    def __hash__(self):
        return self.z.hash()
    # arithmetic use of booleans: (r>0)*x
    def __mul__(self, o): return lift(self) * o
    __rmul__ = __mul__
    def __add__(self, o): return lift(self) + o
    __radd__ = __add__
    def __sub__(self, o): return lift(self) - o
    def __rsub__(self, o): return lift(o) - lift(self)
    def __int__(self): return int(bool(self))
    def __index__(self): return int(bool(self))
    def __repr__(self): return 'B<%s>' % self.z


TRUE = B(z3.BoolVal(True))
FALSE = B(z3.BoolVal(False))

def tob(o):
    if isinstance(o, B):
        return o
    if isinstance(o, R):
        return o != 0
    if isinstance(o, z3.BoolRef):
        return B(o)
    return B.const(bool(o))

def band(a, b):
    a, b = tob(a), tob(b)
    ca, cb = a.cst(), b.cst()
    if ca is False or cb is False:
        return FALSE
    if ca is True:
        return b
    if cb is True:
        return a
    return B(z3.And(a.z, b.z))

def bor(a, b):
    a, b = tob(a), tob(b)
    ca, cb = a.cst(), b.cst()
    if ca is True or cb is True:
        return TRUE
    if ca is False:
        return b
    if cb is False:
        return a
    return B(z3.Or(a.z, b.z))

def bnot(a):
    a = tob(a)
    c = a.cst()
    if c is not None:
        return B.const(not c)
    if z3.is_not(a.z):
        return B(a.z.arg(0))
    return B(z3.Not(a.z))


def ite(c, x, y):
    c = tob(c)
    k = c.cst()
    if k is True:
        return x if not isinstance(x, B) else x
    if k is False:
        return y
    if isinstance(x, B) or isinstance(y, B):
        x, y = tob(x), tob(y)
        return B(z3.If(c.z, x.z, y.z))
    x, y = lift(x), lift(y)
    if x.t == y.t:
        return x
    z = c.z
    if z3.is_not(z):
        z = z.arg(0); x, y = y, x
    # pull out a common factor when one side is zero / sides are negatives
    key = ('ite', z.get_id(), x.key(), y.key())
    i = SP.key.get(key)
    if i is None:
        sx, sy = x.sgn(), y.sgn()
        s = None
        if sx == '+' and sy == '+':
            s = '+'
        elif sx in ('+', '0', 'z') and sy in ('+', '0', 'z'):
            s = '0'
        i = SP.atom(z3.If(z, x.z3(), y.z3()), s, key)
        SP.atoms_keep.append(z)
    return R.of_atom(i)


def _minmax(kind, a, b):
    """n-ary maximum/minimum with a canonical argument set"""
    a, b = lift(a), lift(b)
    args = []
    for x in (a, b):
        if len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0] in SP.nary:
                k, xs = SP.nary[m[0][0]]
                if k == kind:
                    args.extend(xs)
                    continue
        args.append(x)
    keep = []
    for x in args:
        drop = False
        for y in list(keep):
            s = (x - y).sgn()
            if kind == 'min':
                s = {'+': '-', '0': 'n', '-': '+', 'n': '0'}.get(s, s)
            if s in ('-', 'n', 'z'):
                drop = True
                break
            if s in ('+', '0'):
                keep.remove(y)
        if not drop:
            keep.append(x)
    if len(keep) == 1:
        return keep[0]
    keep.sort(key=lambda r: r.key())
    key = (kind, tuple(x.key() for x in keep))
    i = SP.key.get(key)
    if i is None:
        sg = [x.sgn() for x in keep]
        s = None
        if kind == 'max':
            s = '+' if '+' in sg else ('0' if ('0' in sg or 'z' in sg) else None)
        elif all(x == '+' for x in sg):
            s = '+'
        elif all(x in ('+', '0', 'z') for x in sg):
            s = '0'
        z = keep[0].z3()
        for x in keep[1:]:
            xz = x.z3()
            z = z3.If(z >= xz, z, xz) if kind == 'max' else z3.If(z <= xz, z, xz)
        if len(keep) > 2:
            v = z3.Real(SP.name(kind))
            SP.axioms.append(z3.Or([v == x.z3() for x in keep]))
            SP.axioms.extend([v >= x.z3() if kind == 'max' else v <= x.z3() for x in keep])
            z = v
        i = SP.atom(z, s, key)
        SP.nary[i] = (kind, keep)
    return R.of_atom(i)


def smax(a, b):
    return _minmax('max', a, b)

def smin(a, b):
    return _minmax('min', a, b)

def ssign(a):
    a = lift(a)
    s = a.sgn()
    if s == '+':
        return R.const(1)
    if s == '-':
        return R.const(-1)
    if s == 'z':
        return ZERO
    return ite(a > 0, 1, ite(a < 0, -1, 0))


def poly_coeffs(r, v):
    """coefficients of the polynomial r in the single variable v (an atom)"""
    (mono,) = v.t.keys()
    a = mono[0][0]
    out = {}
    for m, c in r.t.items():
        if m == ONE:
            out[0] = c
        else:
            assert len(m) == 1 and m[0][0] == a, 'not a polynomial in one variable'
            out[m[0][1]] = c
    return out
