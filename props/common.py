"""Shared builders for harnesses (work in symbolic and in concrete mode)."""
import numpy as np


def pyclaw():
    from clawpack import pyclaw as p
    return p


def dims_for(ctx, cells, lower=None, delta=None, names='xyz'):
    P = pyclaw()
    out = []
    for k, n in enumerate(cells):
        lo = 0.0 if lower is None else lower[k]
        up = lo + n * 1.0 if delta is None else lo + delta[k] * n
        out.append(P.Dimension(lo, up, n, name=names[k]))
    return out


def make_solution(ctx, cells, num_eqn=1, num_aux=0, lower=None, delta=None, q=None, aux=None, t=None):
    P = pyclaw()
    dom = P.Domain(dims_for(ctx, cells, lower, delta))
    st = P.State(dom, num_eqn, num_aux)
    if q is None:
        q = ctx.reals('q', (num_eqn,) + tuple(cells))
    st.q[...] = q
    if num_aux:
        if aux is None:
            aux = ctx.reals('aux', (num_aux,) + tuple(cells))
        st.aux[...] = aux
    if t is not None:
        st.t = t
    return P.Solution(st, dom)


class NoRP:
    """Stand-in Riemann solver for harnesses that replace the hyperbolic step."""
    __name__ = 'advection_1D'


def norp():
    import types
    m = types.ModuleType('advection_1D')
    return m


def var(ctx, name, **kw):
    """input shared by several runs inside one harness"""
    d = ctx.__dict__.setdefault('_vars', {})
    if name not in d:
        d[name] = ctx.real(name, **kw)
    return d[name]


def arr(ctx, name, shape, **kw):
    d = ctx.__dict__.setdefault('_vars', {})
    if name not in d:
        d[name] = ctx.reals(name, shape, **kw)
    return d[name].copy()


def vec(ctx, name, n, **kw):
    return [ctx.real('%s%d' % (name, i), **kw) for i in range(n)]


# ------------------------------------------------------------------ time stepping
INTEGRATORS = {'Euler': 1, 'SSP22': 2, 'SSP33': 3, 'SSP104': 10}


def step_solver(ctx, kind, integrator='Euler', variable=True, num_dim=1, sym_cfl=True):
    """A solver whose spatial update will be replaced by an arbitrary one."""
    P = pyclaw()
    if kind == 'classic':
        s = getattr(P, 'ClawSolver%dD' % num_dim)(norp())
    else:
        s = getattr(P, 'SharpClawSolver%dD' % num_dim)(norp())
        s.time_integrator = integrator
    s.kernel_language = 'Python'
    s.num_eqn, s.num_waves = 1, 1
    s.all_bcs = P.BC.periodic
    s.dt_variable = variable
    s.cfl_max, s.cfl_desired = var(ctx, 'cfl_max', pos=True), var(ctx, 'cfl_des', pos=True)
    ctx.assume(s.cfl_desired <= s.cfl_max)
    return s


def env_update(ctx, s, kind, log, rates=None, zero=True):
    """Arbitrary spatial update: new values and wave speed (Courant number per
    unit time step) are functions of the data it is given."""
    n = [0]

    def rate():
        n[0] += 1
        if zero and ctx.boolean('still%d' % n[0]):
            return ctx.const(0)
        return ctx.real('rate%d' % n[0], pos=True)
    if kind == 'classic':
        def hyp(solution):
            st = solution.states[0]
            r = rate()
            s.cfl.update_global_max(r * s.dt)
            old = st.q.copy()
            new = ctx.uf('hyp', list(old.ravel(order='F')) + [s.dt], old.size)
            st.q[...] = np.array(list(new), dtype=old.dtype).reshape(old.shape, order='F')
            log.append(('hyp', old, s.dt, r, solution.t))
        s.step_hyperbolic = hyp
    else:
        def dq(state):
            r = rate()
            s.cfl.update_global_max(r * s.dt)
            old = state.q.copy()
            new = ctx.uf('rhs', list(old.ravel(order='F')) + [state.t], old.size)
            out = np.array([s.dt * x for x in new], dtype=old.dtype).reshape(old.shape, order='F')
            log.append(('dq', old, s.dt, r, state.t))
            return out
        s.dq_hyperbolic = dq


def num(ctx, text):
    """number read from a file (symbolic values are represented by their codes)"""
    if ctx.symbolic:
        from vlib import sym
        v = sym.decode(float(text))
        return v if isinstance(v, sym.R) else ctx.const(v)
    return float(text)


class scratch:
    """directory for the files of one run"""
    def __enter__(self):
        import tempfile
        self.d = tempfile.mkdtemp(prefix='verif-io-')
        return self.d

    def __exit__(self, *a):
        import shutil
        shutil.rmtree(self.d, ignore_errors=True)
