"""Bounded path exploration of a harness over the real code.

A harness is a Python function h(ctx, **case).  In symbolic mode ctx hands out
symbolic reals; every branch of the code under test on a symbolic condition is
decided by z3 and both feasible outcomes are explored (re-execution DFS).  In
concrete mode (replay of a counterexample) the same harness runs on ordinary
floats against the untransformed code.
"""
import os, sys, time, json, math, subprocess, tempfile
from fractions import Fraction
from . import sym
from .gimple import Unsupported

CUR = None      # active SymCtx (symbolic mode) or None


class Infeasible(BaseException):
    pass

class PathAbort(BaseException):
    pass

class Budget(BaseException):
    pass


SLOW = os.environ.get('VERIF_SLOW')


def branch(z):
    if CUR is None:
        raise RuntimeError('symbolic branch outside exploration')
    return CUR.branch(z)


def concretize_int(r):
    """Fork over the feasible integer values of r."""
    if r.is_const():
        return int(r.cval())
    return CUR.concretize(r)


def zval(v):
    import z3
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_fp_value(v):
        return zval(z3.simplify(z3.fpToReal(v)))
    raise ValueError('no value: %s' % v)


class Base:
    trans_aux = False
    symbolic = False

    # ----- numeric helpers usable in both modes
    def ite(self, c, a, b):
        if self.symbolic:
            return sym.ite(c, a, b)
        return a if c else b

    def max(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smax(r, x) if self.symbolic else max(r, x)
        return r

    def min(self, *xs):
        r = xs[0]
        for x in xs[1:]:
            r = sym.smin(r, x) if self.symbolic else min(r, x)
        return r

    def abs(self, x):
        return abs(x)

    def And(self, *cs):
        if not self.symbolic:
            return all(cs)
        r = sym.TRUE
        for c in cs:
            r = sym.band(r, c)
        return r

    def Or(self, *cs):
        if not self.symbolic:
            return any(cs)
        r = sym.FALSE
        for c in cs:
            r = sym.bor(r, c)
        return r

    def Not(self, c):
        return sym.bnot(c) if self.symbolic else (not c)

    def implies(self, a, b):
        return self.Or(self.Not(a), b)

    def reals(self, name, shape, **kw):
        import numpy as np
        n = int(np.prod(shape)) if shape != () else 1
        out = np.empty(n, dtype=object if self.symbolic else float)
        for i in range(n):
            out[i] = self.real('%s_%d' % (name, i), **kw)
        return out.reshape(shape, order='F')

    def const(self, v):
        return sym.R.const(v) if self.symbolic else float(v)

    def run(self, label, fn, *a, allow=(), **k):
        """Call code under test; an exception not in `allow` breaks `label`."""
        try:
            return fn(*a, **k)
        except (sym.SymLeak, CodeRaised, ReplayStop, Unsupported):
            raise
        except allow:
            raise
        except Exception as e:
            if self.symbolic:
                raise CodeRaised(label, e) from e
            import traceback
            self.failed.append(label)
            self.trace = traceback.format_exc()
            raise ReplayStop() from e


class UFOut(list):
    pass


class Obl:
    """An obligation: negations (plain and with margin) plus description."""
    def __init__(self, label, neg, strong=None, show=(), tol=None):
        self.label, self.neg, self.strong, self.show, self.tol = label, neg, strong, show, tol


class SymCtx(Base):
    fp_feasible = False        # machine arithmetic: ask for the feasibility of branches, too
    symbolic = True
    symbolic = True

    def __init__(self, prefix, shared):
        import z3
        self.z3 = z3
        self.prefix = prefix
        self.pos = 0
        self.decisions = []
        self.alts = []
        self.sh = shared
        self.space = sym.reset()
        self.solver = z3.Solver()
        self.solver.set('timeout', shared.feas_ms)
        self.nax = 0
        self.inputs = {}          # name -> z3 term
        self.choices = {}
        self.path = []
        self.records = []         # environment stub outputs: (tag, [R...])
        self.congr = []           # lazily enforced functional consistency
        self.memo = {}
        self.notes = []
        self.uf_seq = []
        self._keep = []
        self.fp = False

    # -- inputs ---------------------------------------------------------------
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None, nz=False):
        z3 = self.z3
        if name in self.inputs:
            raise ValueError('duplicate input ' + name)
        t = z3.Real(name)
        self.inputs[name] = t
        sg = '+' if (pos or (lo is not None and lo > 0)) else ('0' if nonneg or (lo is not None and lo >= 0) else None)
        i = self.space.atom(t, sg, ('var', name))
        if pos:
            self._add(t > 0)
        if nonneg:
            self._add(t >= 0)
        if lo is not None:
            self.space.lower[i] = sym.frac(lo)
            self._add(t >= z3.RealVal(str(sym.frac(lo))))
        if hi is not None:
            self._add(t <= z3.RealVal(str(sym.frac(hi))))
        if nz:
            self._add(t != 0)
        return sym.R.of_atom(i)

    def double(self, name, bound=2.0 ** 60):
        """A machine number (bit-precise arithmetic); the exact reals are not used on this path."""
        from . import fp
        z3 = self.z3
        if name in self.inputs:
            raise ValueError('duplicate input ' + name)
        t = z3.FP(name, fp.S)
        self.inputs[name] = t
        self.fp = True
        self.solver = z3.SolverFor('QF_FP') if not self.path else self.solver
        self.solver.set('timeout', self.sh.fp_ms)
        self._add(z3.fpLEQ(z3.fpAbs(t), z3.FPVal(bound, fp.S)))
        return fp.F64(t)

    def choice(self, name, options):
        """Nondeterministic choice between concrete options (forked)."""
        k = self._fork(len(options))
        self.choices[name] = k
        return options[k]

    def boolean(self, name):
        return self.choice(name, [False, True])

    def fresh(self, name, sign=None):
        """Nondeterministic environment value."""
        if isinstance(sign, float):          # positive with this lower bound
            return self.real(name, lo=sign)
        return self.real(name, pos=(sign == '+'), nonneg=(sign == '0'))

    # -- path condition ----------------------------------------------------------
    def signs(self, nonzero=False, soft=False):
        """follow signs of sums of squares (needed for WENO weights); nonzero: denominators are
        assumed nonzero; soft: division of arrays by zero gives an undefined value, not an error"""
        sym.SP.track = True
        sym.SP.assume_nonzero = nonzero
        sym.SP.soft_zero = soft

    def _add(self, z):
        self.path.append(z)
        self.solver.add(z)

    def _sync(self):
        ax = self.space.axioms
        while self.nax < len(ax):
            self.solver.add(ax[self.nax])
            self.nax += 1

    def assume(self, c):
        c = sym.tob(c)
        k = c.cst()
        if k is True:
            return
        if k is False:
            raise Infeasible()
        self._sync()
        self._add(c.z)
        if self.pos >= len(self.prefix):
            if self._check() == 'unsat':
                raise Infeasible()

    def _check(self, *extra):
        t0 = time.time()
        r = str(self.solver.check(*extra))
        self.sh.solver_s += time.time() - t0
        self.sh.feas_queries += 1
        if SLOW and time.time() - t0 > 1:
            import traceback
            sys.stderr.write('slow check %.1fs %s %s\n' % (time.time() - t0, r, str(extra)[:300]))
            traceback.print_stack(limit=9)
        return r

    def _fork(self, n):
        """Unconstrained n-way fork."""
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
        else:
            d = 0
            for k in range(1, n):
                self.alts.append(self.decisions + [k])
        self.pos += 1
        self.decisions.append(d)
        return d

    def branch(self, z):
        z3 = self.z3
        if time.time() > self.sh.deadline:
            raise Budget()
        zs = z3.simplify(z)
        if z3.is_true(zs):
            return True
        if z3.is_false(zs):
            return False
        self._sync()
        self._keep.append(z)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append(d)
            if d != 2 and d != 3:
                self._add(z if d else z3.Not(z))
            return bool(d & 1) if d in (2, 3) else bool(d)
        if self.fp:
            # machine arithmetic: feasibility is left to the obligations, except what is known already
            known = [z3.simplify(c) for c in self.path]
            nz = z3.simplify(z3.Not(zs))
            for d, w in ((3, zs), (2, nz)):
                if any(w.eq(k) for k in known):
                    self.pos += 1
                    self.decisions.append(d)
                    return d == 3
            if self.fp_feasible:
                for d, w in ((2, z), (3, z3.Not(z))):
                    s = z3.SolverFor('QF_FP')
                    s.set('timeout', self.sh.fp_ms)
                    s.add(*self.path)
                    s.add(w)
                    t0 = time.time()
                    r = s.check()
                    self.sh.solver_s += time.time() - t0
                    self.sh.feas_queries += 1
                    if r == z3.unsat:
                        self.pos += 1
                        self.decisions.append(d)
                        return d == 3
            self.alts.append(self.decisions + [0])
            self.pos += 1
            self.decisions.append(1)
            self._add(z)
            return True
        t = self._check(z)
        f = 'unsat' if t == 'unsat' else None
        # d encoding: 0/1 fork taken; 2/3 forced (false/true)
        if t == 'unsat':
            self.pos += 1
            self.decisions.append(2)
            return False
        f = self._check(z3.Not(z))
        if f == 'unsat':
            self.pos += 1
            self.decisions.append(3)
            return True
        if len(self.decisions) > self.sh.max_depth:
            self.sh.truncated += 1
            raise PathAbort()
        self.alts.append(self.decisions + [0])
        self.pos += 1
        self.decisions.append(1)
        self._add(z)
        return True

    def must(self, what, z):
        """side condition of the encoding"""
        r = self._check(self.z3.Not(z))
        if r != 'unsat':
            raise sym.SymLeak('%s: %s' % (what, r))

    def concretize(self, r):
        z3 = self.z3
        z = r.z3()
        tried = 0
        while True:
            # find a candidate value
            self._sync()
            if self.pos < len(self.prefix):
                v = self.prefix[self.pos]
                self.pos += 1
                self.decisions.append(v)
                kind, val = v
                if kind == 'is':
                    self._add(z == val)
                    return val
                self._add(z != val)
                continue
            if self._check() == 'unsat':
                raise Infeasible()
            m = self.solver.model()
            val = zval(m.eval(z, model_completion=True))
            val = int(val)
            tried += 1
            if tried > self.sh.max_values:
                self.sh.truncated += 1
                raise PathAbort()
            if self._check(z != val) != 'unsat':
                self.alts.append(self.decisions + [('not', val)])
            self.pos += 1
            self.decisions.append(('is', val))
            self._add(z == val)
            return val

    # -- uninterpreted environment -------------------------------------------------
    def uf(self, name, args, n, signs=None, facts=None):
        """n outputs of an arbitrary function `name` of symbolic args.

        Functional consistency is syntactic on first use and enforced lazily
        (by value) when a counterexample is built."""
        args = [sym.lift(a) for a in args]
        key = (name, tuple(a.key() for a in args))
        out = self.memo.get(key)
        if out is not None:
            self.uf_seq.append(out.index_)
        if out is None:
            k = len(self.memo)
            self.uf_seq.append(k)
            out = UFOut([self.fresh('%s@%d_%d' % (name, k, j), signs[j] if signs else None) for j in range(n)])
            out.index_ = k
            self.memo[key] = out
            self.congr.append((name, args, out))
            if facts:
                for z in facts(args, out):
                    z = sym.tob(z)
                    if z.cst() is not True:
                        self._sync()
                        self._add(z.z)
        return out

    def record(self, tag, arrays):
        """Remember an environment answer so that the replay can give it."""
        self.records.append((tag, [a.copy() for a in arrays]))

    # -- obligations -----------------------------------------------------------------
    def check(self, label, cond, strong=None, show=()):
        c = sym.tob(cond)
        self.sh.obligation(self, Obl(label, sym.bnot(c).z,
                                     None if strong is None else sym.bnot(strong).z, show))

    def check_eq(self, label, a, b, show=()):
        """a, b: scalars or arrays of equal shape."""
        import numpy as np
        fa = [a] if not isinstance(a, (np.ndarray, list, tuple)) else list(np.asarray(a, dtype=object).ravel(order='F'))
        fb = [b] if not isinstance(b, (np.ndarray, list, tuple)) else list(np.asarray(b, dtype=object).ravel(order='F'))
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape != b.shape:
            self.check(label + ' (shape %s vs %s)' % (a.shape, b.shape), False)
            return
        if len(fa) != len(fb):
            self.check(label + ' (length %d vs %d)' % (len(fa), len(fb)), False)
            return
        neg, strong, tol = [], [], []
        z3 = self.z3
        m = z3.RealVal('1/64')
        e = z3.RealVal('1/1000000000')
        for x, y in zip(fa, fb):
            if nonfinite(x) or nonfinite(y):
                if not (nonfinite(x) and nonfinite(y) and float(x) == float(y)):
                    neg.append(z3.BoolVal(True))
                continue
            d = sym.lift(x) - sym.lift(y)
            if d.is_const() and d.cval() == 0:
                self.sh.syntactic += 1
                neg.append(sym.lift(x).z3() != sym.lift(y).z3())
                continue
            n = sym.clear_denominators(d)
            if n is not None and n is not d:
                if not n.t:
                    # identically zero after multiplying by the (nonzero) denominators:
                    # the solver confirms it on the product form
                    self.sh.syntactic += 1
                neg.append(n.z3() != 0)
                if not n.t:
                    continue
            else:
                neg.append(d.z3() != 0)
            strong.append(z3.Or(d.z3() > m, d.z3() < -m))
            tol.append(z3.Or(d.z3() > e, d.z3() < -e))
        self.sh.obligation(self, Obl(label, z3.Or(neg), z3.Or(strong) if strong else None, show, z3.Or(tol) if tol else None))

    def check_le(self, label, a, b, show=()):
        d = sym.lift(a) - sym.lift(b)
        z3 = self.z3
        if sym.SP.track and d.sgn() is None:
            n = d
            for _ in range(12):      # multiply by positive denominators while that decides the sign
                m = sym.clear_denominators(n, once=True)
                if m is None or m is n:
                    break
                n = m
                if n.sgn() in ('-', 'n', 'z'):
                    self.sh.obligation(self, Obl(label, n.z3() > 0, d.z3() > z3.RealVal('1/64'), show))
                    return
        self.sh.obligation(self, Obl(label, d.z3() > 0, d.z3() > z3.RealVal('1/64'), show,
                                     d.z3() > z3.RealVal('1/1000000000')))

    def reach(self, label):
        self.sh.reached[label] = self.sh.reached.get(label, 0) + 1

    def fail(self, label):
        self.sh.obligation(self, Obl(label, self.z3.BoolVal(True), None))


class Shared:
    """State of one exploration (one case of one property)."""
    def __init__(self, prop, case, tier):
        self.rank, self.varcache = {}, {}
        self.prop, self.case, self.tier = prop, case, tier
        self.solver_s = 0.0
        self.feas_queries = 0
        self.queries = 0
        self.discharged = 0
        self.syntactic = 0
        self.within_tol = 0
        self.unknown = []
        self.violations = []
        self.nonrepro = []
        self.errors = []
        self.truncated = 0
        self.paths = 0
        self.reached = {}
        self.labels = {}
        self.feas_ms = 2000
        self.fp_ms = 60000
        self.ob_ms = 60000
        self.max_depth = 400
        self.max_values = 12
        self.max_paths = 100000
        self.deadline = time.time() + 600
        self.incomplete = False
        self.encoded = set()
        self.samples = []
        self.stop_after = 1

    # ------------------------------------------------------------------
    def obligation(self, ctx, ob):
        import z3
        self.labels[ob.label] = self.labels.get(ob.label, 0) + 1
        self.queries += 1
        zs = z3.simplify(ob.neg)
        if z3.is_false(zs):
            self.discharged += 1
            return
        if ob.label in {v['label'] for v in self.violations}:
            return                      # already reported for this case
        if len([v for v in self.nonrepro if v['label'] == ob.label]) >= 2:
            return                      # the case is inconclusive already
        ctx._sync()
        r, m = self._solve(ctx, ob.neg, ms=self.fp_ms if ctx.fp else None)
        if r == 'unsat':
            self.discharged += 1
            return
        if r == 'unknown':
            # maybe a counterexample with small values exists
            m = None
        # build a counterexample: prefer margin + bounded inputs
        best = None
        strong_sat = False
        tries = []
        bnd, wide = [], []
        for t in ctx.inputs.values():
            bnd += [t <= 8, t >= -8]
            wide += [t <= 1000000, t >= -1000000]
        marg = self._margins(ctx)
        if ctx.fp:
            bnd, wide, marg = [], [], []
        if ob.strong is not None:
            tries.append([ob.strong] + bnd + marg)
            tries.append([ob.strong] + bnd)
            tries.append([ob.strong] + wide)
        tries.append([ob.neg] + bnd + marg)
        tries.append([ob.neg] + bnd)
        if r == 'sat':
            tries.append([ob.neg] + wide)
            tries.append(None)
        seen_sat = (r == 'sat')
        for k, extra in enumerate(tries):
            if k == 3 and ob.strong is not None and ob.tol is not None and r == 'sat' and not strong_sat and not ctx.fp:
                # no model with a difference that would matter: do the sides
                # differ by more than the replay's tolerance at all?
                if self._within(ctx, ob) in ('unsat', 'violation'):
                    return
            if extra is None:
                mm = m
            else:
                r2, mm = self._solve(ctx, extra, ms=min(self.ob_ms, 20000))
                if r2 != 'sat':
                    continue
                seen_sat = True
                strong_sat = strong_sat or k < 3
            for attempt in range(8):
                bad = self._congruence(ctx, mm)
                if not bad:
                    break
                r2, mm = self._solve(ctx, (extra or [ob.neg]) + bad, ms=20000, keep=bad)
                if r2 != 'sat':
                    mm = None
                    break
            else:
                mm = None
            if mm is None:
                continue
            rep = self._replay(ctx, mm, ob)
            if rep.get('reproduced'):
                best = rep
                break
            rep['exc'] = getattr(self, 'last_exc', None)
            self.last_nonrepro = rep
        if not best and not ctx.fp and len(ctx.inputs) > 3:
            best = self._generic(ctx, ob)
        if best:
            self.violations.append(best)
        elif r == 'unknown':
            self.unknown.append(ob.label)
        elif not seen_sat:
            self.unknown.append(ob.label)
        else:
            # Retry the plain query with the congruence facts that were learned
            r3, _ = self._solve(ctx, ob.neg)
            if r3 != 'unsat' and ob.tol is not None and not ctx.fp:
                # the sides differ, but no replay shows it
                if self._within(ctx, ob) in ('unsat', 'violation'):
                    return
            if r3 == 'unsat':
                self.discharged += 1
            else:
                self.nonrepro.append({'label': ob.label, 'detail': getattr(self, 'last_nonrepro', None)})

    def _generic(self, ctx, ob):
        """Counterexamples with generic (pairwise different) inputs: the values a model
        picks are often degenerate (zeros, equal arguments)."""
        import z3
        import random
        rng = random.Random(20)
        sp = ctx.space
        sg = {sp.atoms[i].get_id(): sp.sign[i] for i in range(len(sp.atoms)) if sp.sign[i] in ('+', '0')}
        for attempt in range(6):
            fix = []
            for t in ctx.inputs.values():
                v = rng.randint(17, 130)
                if attempt and t.get_id() not in sg and rng.random() < 0.5:
                    v = -v
                fix.append(t == z3.RealVal('%d/64' % v))
            r, m = self._solve(ctx, [ob.strong if ob.strong is not None else ob.neg] + fix, ms=10000)
            if r == 'sat' and not self._congruence(ctx, m):
                rep = self._replay(ctx, m, ob)
                if rep.get('reproduced'):
                    return rep
                self.last_nonrepro = rep
        return None

    def _within(self, ctx, ob):
        """Do the sides differ by more than the replay's tolerance for inputs of
        ordinary size?"""
        bd = [c for t in ctx.inputs.values() for c in (t <= 1000, t >= -1000)]
        r, m = self._solve(ctx, [ob.tol] + bd)
        if r == 'sat' and not self._congruence(ctx, m):
            rep = self._replay(ctx, m, ob)
            if rep.get('reproduced'):
                self.violations.append(rep)
                return 'violation'
        if r == 'unsat':
            self.within_tol += 1
            self.discharged += 1
        return r

    def _solve(self, ctx, extra, ms=None, keep=None):
        import z3
        if not isinstance(extra, list):
            extra = [extra]
        if keep:
            for k in keep:
                ctx._add(k)
        t0 = time.time()
        if ms is None and self._linear(ctx, extra):
            self.solver_s += time.time() - t0
            return 'unsat', None
        ms = ms or self.ob_ms
        s = z3.SolverFor('QF_FP') if ctx.fp else z3.Solver()
        s.set('timeout', ms)
        for c in ctx.path:
            s.add(c)
        for a in ctx.space.axioms:
            s.add(a)
        s.add(*extra)
        r = str(s.check())
        m = s.model() if r == 'sat' else None
        if r == 'unknown' and not ctx.fp:
            t = z3.Then('simplify', 'propagate-values', 'solve-eqs', 'purify-arith', 'qfnra-nlsat') \
                if False else z3.Tactic('qfnra-nlsat')
            try:
                g = z3.Goal()
                s2 = z3.Then('simplify', 'solve-eqs', 'elim-term-ite', 'purify-arith', 'qfnra-nlsat').solver()
                s2.set('timeout', ms)
                for c in ctx.path:
                    s2.add(c)
                for a in ctx.space.axioms:
                    s2.add(a)
                s2.add(*extra)
                r = str(s2.check())
                m = s2.model() if r == 'sat' else None
            except z3.Z3Exception:
                r = 'unknown'
        self.solver_s += time.time() - t0
        return r, m

    def _linear(self, ctx, extra):
        """Abstract every nonlinear monomial by a fresh variable (with its known
        sign).  The abstraction has more models, so unsat there is unsat."""
        import z3
        sp = ctx.space
        subs, facts = [], []
        for m, z in sp.mono.items():
            if len(m) == 1 and m[0][1] in (1, -1):
                continue
            v = z3.Real('mono!%d' % len(subs))
            subs.append((z, v))
            sg = [('+' if sp.sign[a] == '+' else '0' if (e % 2 == 0 or sp.sign[a] == '0') else None) for a, e in m]
            if all(x == '+' for x in sg):
                facts.append(v > 0)
            elif all(sg):
                facts.append(v >= 0)
        s = z3.Solver()
        s.set('timeout', min(self.ob_ms, 15000))
        for c in list(ctx.path) + self._cone(ctx, extra) + list(extra):
            s.add(z3.substitute(c, *subs) if subs else c)
        s.add(*facts)
        return str(s.check()) == 'unsat'

    def _vars(self, e):
        import z3
        k = e.get_id()
        r = self.varcache.get(k)
        if r is None:
            out, seen, todo = set(), set(), [e]
            while todo:
                x = todo.pop()
                i = x.get_id()
                if i in seen:
                    continue
                seen.add(i)
                if z3.is_const(x):
                    if x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        out.add(i)
                else:
                    todo.extend(x.children())
            r = (e, frozenset(out))
            self.varcache[k] = r
        return r[1]

    def _cone(self, ctx, extra):
        """The facts that define what the query mentions, directly or not."""
        sp = ctx.space
        rank = self.rank
        if rank.get('space') is not sp:
            rank.clear()
            self.varcache = {}
            rank['space'], rank['n'] = sp, 0
        for i in range(rank['n'], len(sp.atoms)):
            rank[sp.atoms[i].get_id()] = i
        rank['n'] = len(sp.atoms)
        cone = set()
        for c in list(ctx.path) + list(extra):
            cone |= self._vars(c)
        by = rank.setdefault('by', {})
        for a in sp.axioms[rank.get('na', 0):]:
            if a.get_id() in sp.nonlin:
                continue
            vs = self._vars(a)
            if vs:
                by.setdefault(max(vs, key=lambda v: rank.get(v, -1)), []).append((a, vs))
        rank['na'] = len(sp.axioms)
        out, todo = [], list(cone)
        while todo:
            v = todo.pop()
            for a, vs in by.get(v, ()):
                out.append(a)
                for w in vs - cone:
                    cone.add(w)
                    todo.append(w)
        return out

    def _margins(self, ctx):
        """Path inequalities with slack: models away from branch boundaries
        survive machine rounding in the replay."""
        import z3
        out = []
        e = z3.RealVal('1/128')
        for c in ctx.path:
            neg = False
            while z3.is_not(c):
                neg = not neg
                c = c.arg(0)
            if z3.is_lt(c) or z3.is_le(c):
                up = not neg
            elif z3.is_gt(c) or z3.is_ge(c):
                up = neg
            else:
                continue
            a, b = c.arg(0), c.arg(1)
            if not z3.is_real(a):
                continue
            out.append(a + e <= b if up else a >= b + e)
        return out

    def _congruence(self, ctx, m):
        import z3
        out = []
        table = {}
        for name, args, outs in ctx.congr:
            vals = tuple(zval(m.eval(a.z3(), model_completion=True)) for a in args)
            k = (name, vals)
            if k in table:
                a0, o0 = table[k]
                diff = any(zval(m.eval(x.z3(), model_completion=True)) != zval(m.eval(y.z3(), model_completion=True))
                           for x, y in zip(outs, o0))
                if diff:
                    eqargs = z3.And([x.z3() == y.z3() for x, y in zip(args, a0)] or [z3.BoolVal(True)])
                    out.append(z3.Implies(eqargs, z3.And([x.z3() == y.z3() for x, y in zip(outs, o0)])))
            else:
                table[k] = (args, outs)
        return out

    def _replay(self, ctx, m, ob):
        import numpy as np
        inputs = {}
        for n, t in ctx.inputs.items():
            inputs[n] = str(zval(m.eval(t, model_completion=True)))
        recs = []
        for tag, arrs in ctx.records:
            ra = []
            for a in arrs:
                flat = []
                for x in np.asarray(a, dtype=object).ravel(order='F'):
                    if isinstance(x, sym.R):
                        flat.append(float(zval(m.eval(x.z3(), model_completion=True))))
                    elif x is None:
                        flat.append(0.0)
                    else:
                        flat.append(float(x))
                ra.append({'shape': list(np.shape(a)), 'data': flat})
            recs.append([tag, ra])
        doc = {'property': self.prop, 'case': self.case, 'label': ob.label,
               'inputs': inputs, 'choices': dict(ctx.choices), 'records': recs, 'uf_seq': ctx.uf_seq,
               'tier': self.tier}
        d = os.path.join(os.environ.get('VERIF_OUT', '/verif/out'), 'replay')
        os.makedirs(d, exist_ok=True)
        import hashlib
        h = hashlib.sha1(json.dumps(doc, sort_keys=True, default=str).encode()).hexdigest()[:10]
        path = os.path.join(d, '%s-%s.json' % (self.prop, h))
        with open(path, 'w') as fh:
            json.dump(doc, fh, indent=1, default=str)
        here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
        try:
            p = subprocess.run([sys.executable, os.path.join(here, 'check.py'), '--replay', path],
                               capture_output=True, text=True, timeout=300)
            rc, out = p.returncode, (p.stdout + p.stderr)[-2000:]
        except subprocess.TimeoutExpired:
            rc, out = -1, 'replay timeout'
        doc2 = {'label': ob.label, 'replay': path, 'rc': rc, 'out': out,
                'reproduced': rc == 1 and 'REPRODUCED' in out}
        return doc2


def explore(harness, case, prop, tier, budget=600, **opts):
    """Run the DFS; returns Shared."""
    global CUR
    sh = Shared(prop, case, tier)
    sh.deadline = time.time() + budget
    for k, v in opts.items():
        setattr(sh, k, v)
    work = [[]]
    kw = {k: v for k, v in case.items() if not k.startswith('_')}
    while work:
        if time.time() > sh.deadline or sh.paths >= sh.max_paths:
            sh.incomplete = True
            break
        prefix = work.pop()
        ctx = SymCtx(prefix, sh)
        CUR = ctx
        try:
            harness(ctx, **kw)
            sh.paths += 1
        except Infeasible:
            pass
        except PathAbort:
            pass
        except Budget:
            sh.incomplete = True
            break
        except CodeRaised as e:
            # the code under test raised where the property allows no exception
            sh.paths += 1
            import traceback
            sh.last_exc = ''.join(traceback.format_exception(e.exc))[-1500:]
            ctx.fail(e.label)
        except sym.SymLeak:
            if sh.violations:
                break
            raise
        except CODE_ERRORS as e:
            if not from_repo(e, False):
                if sh.violations:       # what follows a failed check need not make sense
                    break
                raise
            sh.paths += 1
            import traceback
            sh.last_exc = ''.join(traceback.format_exception(e))[-1500:]
            ctx.fail(unexpected(e))
        except Exception:
            if sh.violations:
                break
            raise
        finally:
            CUR = None
        work.extend(ctx.alts)
        if len(sh.violations) >= sh.stop_after:
            break
    return sh


def nonfinite(x):
    import math
    return isinstance(x, float) and not math.isfinite(x)


CODE_ERRORS = (IndexError, KeyError, ValueError, ZeroDivisionError, AssertionError, UnboundLocalError, ArithmeticError, OSError, EOFError)


def from_repo(e, innermost=True):
    """raised by a statement of the code under test (or by a library it called)?"""
    if not innermost:
        tb = e.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(REPO_DIR):
                return True
            tb = tb.tb_next
        return False
    tb, last = e.__traceback__, ''
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if '/verif/' in fn or '/repo/' in fn or fn.startswith(REPO_DIR):
            last = fn
        tb = tb.tb_next
    return '/verif/' not in last and last != ''


REPO_DIR = os.environ.get('VERIF_REPO', '/repo')


def unexpected(e):
    return 'admissible input raises %s' % type(e).__name__


class CodeRaised(Exception):
    def __init__(self, label, exc):
        Exception.__init__(self, '%s: %r' % (label, exc))
        self.label = label
        self.exc = exc


# ---------------------------------------------------------------------------
class ReplayStop(Exception):
    pass


class ConcCtx(Base):
    symbolic = False
    symbolic = False
    RTOL = 1e-9

    def __init__(self, doc):
        self.doc = doc
        self.inp = {k: Fraction(v) for k, v in doc['inputs'].items()}
        self.choices = doc['choices']
        self.recs = list(doc['records'])
        self.failed = []
        self.missing = []
        self.uf_n = 0

    def real(self, name, **kw):
        if name not in self.inp:
            self.missing.append(name)
            return 0.5
        return float(self.inp[name])

    fresh = real

    def double(self, name, bound=None):
        return self.real(name)

    def choice(self, name, options):
        return options[self.choices.get(name, 0)]

    def signs(self, nonzero=False, soft=False):
        pass

    def boolean(self, name):
        return self.choice(name, [False, True])

    def uf(self, name, args, n, signs=None, facts=None):
        seq = self.doc.get('uf_seq', [])
        if self.uf_n >= len(seq):
            self.missing.append('uf')
            return [0.25] * n
        k = seq[self.uf_n]
        self.uf_n += 1
        return [self.real('%s@%d_%d' % (name, k, j)) for j in range(n)]

    def assume(self, c):
        # rounding may break an assumption of equality; replay judges checks only
        if not bool(c):
            self.doc.setdefault('assume_broken', 0)
            self.doc['assume_broken'] += 1

    def record(self, tag, arrays):
        pass

    def check(self, label, cond, strong=None, show=()):
        if not bool(cond):
            self.failed.append(label)

    def check_eq(self, label, a, b, show=()):
        import numpy as np
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        if a.shape != b.shape and a.size != b.size:
            self.failed.append(label + ' (shape %s vs %s)' % (a.shape, b.shape))
            return
        if a.shape != b.shape:
            a, b = a.ravel(order='F'), b.ravel(order='F')
        sc = max([1.0] + [float(np.max(np.abs(x[np.isfinite(x)]))) for x in (a, b) if np.isfinite(x).any()])
        bad = ~(np.abs(a - b) <= self.RTOL * sc)
        if bad.any():
            self.failed.append(label)

    def check_le(self, label, a, b, show=()):
        sc = max(1.0, abs(float(a)), abs(float(b)))
        if not float(a) <= float(b) + self.RTOL * sc:
            self.failed.append(label)

    def reach(self, label):
        pass

    def fail(self, label):
        self.failed.append(label)
