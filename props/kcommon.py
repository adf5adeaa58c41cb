"""Builders for harnesses that run the real solvers on the real kernels."""
import numpy as np
from vlib import kernels
from .common import *


class RP:
    """Riemann solver stub described by three python functions."""
    def __init__(self, ctx, dim, solve, trans=None, ttrans=None, tfluct=None, trans_aux=False):
        ctx.trans_aux = trans_aux
        self.mod = kernels.rp_module(ctx)
        setattr(self.mod, 'rp1' if dim == 1 else 'rpn%d' % dim, kernels.normal_rp(ctx, dim, solve))
        if dim == 2:
            self.mod.rpt2 = kernels.trans_rp(ctx, 2, 2, trans or _zero_trans)
        if dim == 3:
            self.mod.rpt3 = kernels.trans_rp(ctx, 3, 3, trans or _zero_trans)
            self.mod.rptt3 = kernels.trans_rp(ctx, 3, 4, ttrans or trans or _zero_trans)
        if tfluct:
            setattr(self.mod, 'tfluct%d' % dim, kernels.tfluct_proc(ctx, dim, tfluct))


def _zero_trans(fl, L, R, rows, a):
    z = [0 * x for x in a]
    return z, z


def py_rp(ctx, solve, num_waves):
    """the same Riemann solution for the interpreted kernels"""
    def rp(q_l, q_r, aux_l, aux_r, problem_data):
        ne, n = q_l.shape
        dt = q_l.dtype
        wave = np.zeros((ne, num_waves, n), dtype=dt)
        s = np.zeros((num_waves, n), dtype=dt)
        am = np.zeros((ne, n), dtype=dt)
        ap = np.zeros((ne, n), dtype=dt)
        for i in range(n):
            al = [] if aux_l is None else list(aux_l[:, i])
            ar = [] if aux_r is None else list(aux_r[:, i])
            w, sp, m, p = solve(1, list(q_l[:, i]), list(q_r[:, i]), al, ar)
            for k in range(num_waves):
                s[k, i] = sp[k]
                for e in range(ne):
                    wave[e, k, i] = w[k][e]
            am[:, i] = m
            ap[:, i] = p
        return wave, s, am, ap
    return rp


def solver(ctx, kind, dim, rp, ne, nw, bc='periodic', aux_bc=None, language='Fortran', **kw):
    """kind: 'classic' or 'sharpclaw'; rp: RP (compiled kernels) or a function (interpreted)."""
    P = pyclaw()
    cls = getattr(P, ('ClawSolver%dD' if kind == 'classic' else 'SharpClawSolver%dD') % dim)
    if language == 'Fortran':
        kernels.use(ctx, kind + str(dim))
        s = cls(rp.mod)
    else:
        s = cls(norp())
        s.rp = rp
    s.kernel_language = language
    s.num_eqn, s.num_waves = ne, nw
    if isinstance(bc, str):
        bc = [(bc, bc)] * dim
    aux_bc = aux_bc or bc
    if isinstance(aux_bc, str):
        aux_bc = [(aux_bc, aux_bc)] * dim
    for k in range(dim):
        s.bc_lower[k], s.bc_upper[k] = getattr(P.BC, bc[k][0]), getattr(P.BC, bc[k][1])
        s.aux_bc_lower[k], s.aux_bc_upper[k] = getattr(P.BC, aux_bc[k][0]), getattr(P.BC, aux_bc[k][1])
    if kind == 'sharpclaw':
        s.time_integrator = 'Euler'
        s.cfl_max, s.cfl_desired = 1.0, 0.9
        if 'tfluct_solver' in kw and kw['tfluct_solver']:
            s.tfluct = rp.mod
    for k, v in kw.items():
        assert hasattr(s, k), k
        setattr(s, k, v)
    return s


def finish(ctx, s):
    """Release the solver without calling compiled clean-up on the encoding."""
    if ctx.symbolic:
        s.kernel_language = 'Python'
    elif hasattr(s, 'time_integrator') and s.kernel_language == 'Fortran':
        try:                      # the compiled modules hold the data of one solver at a time
            type(s).__del__(s)
        except Exception:
            pass
        s.kernel_language = 'Python'
    if getattr(ctx, 'cberror', None) is not None:
        raise ctx.cberror


def hyp_step(ctx, s, sol, dt):
    s.dt = dt
    s.cfl.set_global_max(0.)
    s.setup(sol)
    s.step_hyperbolic(sol)
    q, cfl = sol.state.q.copy(), s.cfl.get_cached_max()
    finish(ctx, s)
    return q, cfl


def rhs(ctx, s, sol, dt):
    """(dq, Courant number) of one right-hand-side evaluation of SharpClaw"""
    s.dt = dt
    s.cfl.set_global_max(0.)
    s.setup(sol)
    dq = s.dq_hyperbolic(sol.state)
    dq, cfl = np.array(dq), s.cfl.get_cached_max()
    finish(ctx, s)
    return dq, cfl


# ------------------------------------------------------------------ Riemann solvers
def general_rp(ctx, ne, nw, tag='rp', signs=None, aux=True, wave_signs=None):
    """waves, speeds and fluctuations: arbitrary functions of the data at the face"""
    def solve(ixy, L, R, al, ar):
        key = [ixy] + list(L) + list(R) + (list(al) + list(ar) if aux else [])
        sg = (wave_signs or [None] * (nw * ne)) + (signs or [None] * nw) + [None] * (2 * ne)
        sg = [abs_sign(x) for x in sg]
        o = ctx.uf(tag, key, nw * ne + nw + 2 * ne, signs=sg)
        raw = (wave_signs or [None] * (nw * ne)) + (signs or [None] * nw)
        o = [(-x if k < len(raw) and raw[k] == '-' else x) for k, x in enumerate(o)]
        w = [o[k * ne:(k + 1) * ne] for k in range(nw)]
        s = o[nw * ne:nw * ne + nw]
        am = o[nw * ne + nw:nw * ne + nw + ne]
        ap = o[nw * ne + nw + ne:]
        return w, s, am, ap
    return solve


def abs_sign(x):
    return x if isinstance(x, float) else '+' if x in ('+', '-') else None


def flux_rp(ctx, ne, nw, tag='rp', **kw):
    """fluctuations that sum to a flux difference F(q_right) - F(q_left)"""
    base = general_rp(ctx, ne, nw, tag, **kw)
    def F(ixy, q, a):
        return ctx.uf('flux', [ixy] + list(q) + list(a), ne)
    def solve(ixy, L, R, al, ar):
        w, s, am, _ = base(ixy, L, R, al, ar)
        FL, FR = F(ixy, L, []), F(ixy, R, [])
        return w, s, am, [r - l - m for l, r, m in zip(FL, FR, am)]
    solve.F = F
    return solve


def general_trans(ctx, ne, tag='rpt'):
    def trans(fl, L, R, rows, a):
        flat = []
        def rec(x):
            if isinstance(x, (list, tuple)):
                for y in x:
                    rec(y)
            else:
                flat.append(x)
        rec(rows)
        o = ctx.uf(tag + str(len(fl)), list(fl) + list(L) + list(R) + flat + list(a), 2 * ne)
        return o[:ne], o[ne:]
    return trans
