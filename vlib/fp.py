"""Machine doubles as symbolic values (IEEE binary64, round to nearest), bit-precise.

Used where the property is about rounding itself; everything else works over the
exact reals (sym.R)."""
import z3
from . import sym

S = z3.Float64()
RM = z3.RNE()


def _l(x):
    if isinstance(x, F64):
        return x.z
    return z3.FPVal(float(x), S)


class F64:
    __slots__ = ('z', 'hi')
    MAXQ = 16          # quotients of // up to this bound

    def __init__(self, z):
        self.z = z

    def __add__(self, o): return F64(z3.fpAdd(RM, self.z, _l(o)))
    def __radd__(self, o): return F64(z3.fpAdd(RM, _l(o), self.z))
    def __sub__(self, o): return F64(z3.fpSub(RM, self.z, _l(o)))
    def __rsub__(self, o): return F64(z3.fpSub(RM, _l(o), self.z))
    def __mul__(self, o): return F64(z3.fpMul(RM, self.z, _l(o)))
    def __rmul__(self, o): return F64(z3.fpMul(RM, _l(o), self.z))
    def __truediv__(self, o): return F64(z3.fpDiv(RM, self.z, _l(o)))
    def __rtruediv__(self, o): return F64(z3.fpDiv(RM, _l(o), self.z))
    def __neg__(self): return F64(z3.fpNeg(self.z))
    def __abs__(self): return F64(z3.fpAbs(self.z))
    def __float__(self): raise sym.SymLeak('float() of a symbolic double')
    def __lt__(self, o): return sym.B(z3.fpLT(self.z, _l(o)))
    def __le__(self, o): return sym.B(z3.fpLEQ(self.z, _l(o)))
    def __gt__(self, o): return sym.B(z3.fpGT(self.z, _l(o)))
    def __ge__(self, o): return sym.B(z3.fpGEQ(self.z, _l(o)))
    def __eq__(self, o): return sym.B(z3.fpEQ(self.z, _l(o)))
    def __ne__(self, o): return sym.B(z3.Not(z3.fpEQ(self.z, _l(o))))
    def __hash__(self): return self.z.hash()

    def __floordiv__(self, o):
        """Python's // is the exact floor of the quotient (fmod is exact): decided by the
        sign of the fused multiply-add k*w - v, which rounding cannot change."""
        from . import explore
        v, w = self.z, _l(o)
        explore.CUR.must('sign of the operands of //', z3.And(z3.fpGT(w, z3.FPVal(0.0, S)), z3.fpGEQ(v, z3.FPVal(0.0, S))))
        for k in range(1, self.MAXQ):
            if bool(sym.B(z3.fpGT(z3.fpFMA(RM, z3.FPVal(float(k), S), w, z3.fpNeg(v)), z3.FPVal(0.0, S)))):
                return float(k - 1)
        return float(self.MAXQ)          # this much or more

    def floor(self):
        from . import explore
        explore.CUR.must('sign of the operand of floor', z3.fpGEQ(self.z, z3.FPVal(0.0, S)))
        for k in range(1, self.MAXQ):
            if bool(self < float(k)):
                return float(k - 1)
        return float(self.MAXQ)

    def __floor__(self): return int(self.floor())
    def __int__(self): return int(self.floor())
    def __trunc__(self): return int(self.floor())
    def __round__(self, n=None):
        if n is not None:
            raise sym.SymLeak('round() of a symbolic double')
        from . import explore
        explore.CUR.must('sign of the operand of round', z3.fpGEQ(self.z, z3.FPVal(0.0, S)))
        for k in range(self.MAXQ):             # ties go to the even number
            if bool(self <= k + 0.5 if k % 2 == 0 else self < k + 0.5):
                return k
        return self.MAXQ
    def __str__(self): return 'f64'
    __repr__ = __str__
    def __format__(self, f): return 'f64'
