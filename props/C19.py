"""C19: what is written reads back unchanged."""
import os
from .common import *

ENCODED = ['fileio/ascii.py: write, write_patch_header, write_array, read, read_t, read_patch_header, read_array', 'fileio/hdf5.py: write, read',
           'fileio/binary.py: read', 'fileio/claw_vtk.py: write and overlap marking', 'util.read_data_line', 'Solution.write/read/get_read_func/get_write_func/__init__(frame)', 'OutputController.get_time']
ASSUMPTIONS = ['rounding to the digits of the format is outside the claim: in files an arbitrary value is represented by its own machine number, which at least 8 significant digits identify',
               'h5py, pickle and the file system store what they are given', 'the binary files are those of the AMRClaw layout (written by the harness)',
               'VTK library objects are replaced by recorders']


def BOUNDS(tier):
    return '1-3 dimensions, 1-3 patches of 1-%d cells per axis (different per patch), 1-3 equations, 0-2 auxiliary fields, 0-2 ghost layers (binary); arbitrary values, times and grid bounds' % (3 if tier == 'quick' else 4)


IRR = 0.12345678912345


def val(ctx, name, **kw):
    """arbitrary value that no short decimal happens to represent"""
    return ctx.real(name, **kw) + IRR


def vals(ctx, name, shape):
    return ctx.reals(name, shape) + (IRR if not ctx.symbolic else ctx.const(IRR))


def build(ctx, cells, ne, na, levels=None, mp=0, pd=True, tag=''):
    """cells: one tuple per patch"""
    P = pyclaw()
    patches, states = [], []
    t = val(ctx, 't' + tag)
    for k, c in enumerate(cells):
        lo = [val(ctx, 'lo%s%d_%d' % (tag, k, j)) for j in range(len(c))]
        w = [val(ctx, 'w%s%d_%d' % (tag, k, j), pos=True) for j in range(len(c))]
        pt = P.Patch([P.Dimension(lo[j], lo[j] + w[j] * c[j], c[j], name='xyz'[j]) for j in range(len(c))])
        pt.level, pt.patch_index = (levels or [1, 2, 2])[k], k + (3 if levels else 1)
        patches.append(pt)
    dom = P.Domain(patches)
    for k, (pt, c) in enumerate(zip(patches, cells)):
        s = P.State(pt, ne, na)
        s.q[...] = vals(ctx, 'q%s%d' % (tag, k), (ne,) + tuple(c))
        if na:
            s.aux[...] = vals(ctx, 'aux%s%d' % (tag, k), (na,) + tuple(c))
        if mp:
            s.mp = mp
            s.p[...] = vals(ctx, 'p%s%d' % (tag, k), (mp,) + tuple(c))
        s.t = t
        if pd:
            s.problem_data = {'gamma': var(ctx, 'gamma' + tag) + IRR, 'name': 'abc'}
        states.append(s)
    return P.Solution(states, dom)


def describe(sol, which='q'):
    out = []
    for s in sol.states:
        pt = s.patch
        out.append(dict(t=s.t, ne=s.num_eqn, na=s.num_aux, level=pt.level, index=pt.patch_index, n=[d.num_cells for d in pt.dimensions],
                        lower=[d.lower for d in pt.dimensions], upper=[d.upper for d in pt.dimensions], delta=list(s.grid.delta),
                        names=[str(d.name) for d in pt.dimensions],
                        q=np.array(s.q), p=None if s.p is None else np.array(s.p), aux=None if s.aux is None else np.array(s.aux),
                        pd=None if s.problem_data is None else dict(s.problem_data)))
    return out


def compare(ctx, label, got, want, aux=True, p=False, pd=False):
    if len(got) != len(want):
        ctx.fail(label + ': number of patches')
        return
    for g, w in zip(got, want):
        ctx.check_eq(label + ': time', g['t'], w['t'])
        src = w['p'] if p else w['q']
        ctx.check(label + ': number of equations', int(g['ne']) == src.shape[0])
        ctx.check(label + ': level and patch number', int(g['level']) == w['level'] and int(g['index']) == w['index'])
        ctx.check(label + ': cells and names', [int(x) for x in g['n']] == w['n'] and g['names'] == w['names'])
        for k in range(len(w['n'])):
            ctx.check_eq(label + ': lower bound', g['lower'][k], w['lower'][k])
            ctx.check_eq(label + ': upper bound', g['upper'][k], w['upper'][k])
            ctx.check_eq(label + ': cell width', g['delta'][k], w['delta'][k])
        if g['q'].shape != src.shape:
            ctx.fail(label + ': shape of q')
            continue
        for i in np.ndindex(*src.shape):
            ctx.check_eq(label + ': values', g['q'][i], src[i])
        if aux:
            ctx.check(label + ': number of auxiliary fields', int(g['na']) == w['na'])
            if w['aux'] is not None:
                if g['aux'] is None or g['aux'].shape != w['aux'].shape:
                    ctx.fail(label + ': shape of aux')
                    continue
                for i in np.ndindex(*w['aux'].shape):
                    ctx.check_eq(label + ': auxiliary values', g['aux'][i], w['aux'][i])
        if pd:
            ctx.check(label + ': problem data', g['pd'] is not None and sorted(g['pd']) == sorted(w['pd']) and g['pd']['name'] == 'abc')
            ctx.check_eq(label + ': problem data', g['pd']['gamma'], w['pd']['gamma'])


def tolerance(ctx, tol):
    if not ctx.symbolic:
        ctx.RTOL = tol


def roundtrip(ctx, fmt, cells, ne=1, na=0, frame=0, prefix='fort', how='read', levels=None, write_aux=True, read_aux=True, p=False, history=None, opts=None, auxframe=None):
    P = pyclaw()
    tolerance(ctx, 2e-7 if fmt == 'ascii' else 1e-12)
    cells = [tuple(c) for c in cells]
    sol = build(ctx, cells, ne, na, levels, mp=(ne + 1 if p else 0))
    before = describe(sol)
    with scratch() as d:
        d = os.path.join(d, 'sub', 'dir')
        other = None
        if history:
            other = build(ctx, [tuple(reversed(c)) for c in cells] + ([cells[0]] if history == 'more' else []), ne + (history == 'more'), na, None, tag='o')
            other.write(frame + 1, path=d, file_format=fmt, file_prefix=prefix, write_aux=write_aux)
        kw = dict(options=opts) if opts is not None else {}
        pk = dict(file_prefix=prefix) if prefix else {}
        if auxframe is not None:
            ctx.run('writing', sol.write, auxframe, path=d, file_format=fmt, write_aux=True, **pk)
        ctx.run('writing', sol.write, frame, path=d, file_format=fmt, write_aux=write_aux, write_p=p, **pk, **kw)
        compare(ctx, 'writing leaves the solution alone', describe(sol), before, pd=True)
        for s in sol.states:
            s.q[...] = 0            # the files must not depend on what happens later
            if s.aux is not None:
                s.aux[...] = 0
        rk = dict(path=d, file_format=fmt, file_prefix=prefix, read_aux=read_aux)
        if how == 'frame':
            new = ctx.run('reading', P.Solution, frame, **rk)
        elif how == 'kw':
            new = ctx.run('reading', P.Solution, frame=frame, **rk)
        else:
            new = P.Solution()
            if history:
                ctx.run('reading another frame first', new.read, frame + 1, **rk)
                compare(ctx, 'the other frame reads back', describe(new), describe(other), aux=bool(na and write_aux))
            ctx.run('reading', new.read, frame, **rk)
        has_aux = bool(na and (write_aux or auxframe is not None) and read_aux)
        label = 'a frame reads back' if not p else 'derived output reads back'
        compare(ctx, label, describe(new), before, aux=has_aux and not p, p=p, pd=fmt == 'ascii')
        ctx.check('the patches read belong to the domain', len(new.domain.patches) == len(cells) and all(s.patch is q for s, q in zip(new.states, new.domain.patches)))
        ctx.check_eq('solution time', new.t, before[0]['t'])
        if fmt == 'ascii':
            oc = P.controller.OutputController(d, file_format='ascii', file_prefix=prefix or 'fort')
            ctx.check_eq('time of a frame', oc.get_time(frame), before[0]['t'])
    ctx.reach('roundtrip')


def cnum(ctx, x):
    if ctx.symbolic:
        from vlib import sym
        return sym.encode(x)
    return float(x)


def binary(ctx, cells, ne=1, na=0, ng=0, bits=64, frame=0, levels=None, read_aux=True, auxframe=None, stated=True):
    """files in the AMRClaw layout, ghost cells included"""
    P = pyclaw()
    tolerance(ctx, 2e-7 if bits == 64 else 2e-6)
    cells = [tuple(c) for c in cells]
    sol = build(ctx, cells, ne, na, levels)
    want = describe(sol)
    dt = np.float64 if bits == 64 else np.float32

    def dump(name, which):
        with open(name, 'wb') as f:
            for k, w in enumerate(want):
                a = w[which]
                full = tuple([a.shape[0]] + [n + 2 * ng for n in a.shape[1:]])
                b = vals(ctx, 'ghost_%s%d' % (which, k), full)
                b[(slice(None),) + tuple(slice(ng, ng + n) for n in a.shape[1:])] = a
                f.write(np.array([cnum(ctx, v) for v in b.ravel(order='F')]).astype(dt).tobytes())
    with scratch() as d:
        nm = lambda c, fr=frame: os.path.join(d, 'fort.%s%04d' % (c, fr))
        with open(nm('t'), 'w') as f:
            f.write('%18.8e     time\n' % cnum(ctx, want[0]['t']))
            for v, n in ((ne, 'num_eqn'), (len(cells), 'nstates'), (na, 'num_aux'), (len(cells[0]), 'num_dim'), (ng, 'num_ghost')):
                f.write('%5i                  %s\n' % (v, n))
            if stated:
                f.write('binary%d             file_format\n' % bits)
        with open(nm('q'), 'w') as f:
            for w in want:
                f.write('%5i    grid_number\n%5i    AMR_level\n' % (w['index'], w['level']))
                for n in w['n']:
                    f.write('%5i    m\n' % n)
                for x in w['lower'] + w['delta']:
                    f.write('%18.8e    x\n' % cnum(ctx, x))
                f.write('\n')
        dump(nm('b'), 'q')
        if na:
            dump(nm('a', frame if auxframe is None else auxframe), 'aux')
        new = P.Solution()
        ctx.run('reading', new.read, frame, path=d, file_format=None if stated else 'binary%d' % bits, read_aux=read_aux)
        compare(ctx, 'a binary frame reads back', describe(new), want, aux=bool(na and read_aux))
    ctx.reach('binary')


class Rec:
    """stand-in for VTK objects"""
    made = []

    def __init__(self, *a):
        self.args, self.calls = a, []
        Rec.made.append(self)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        def f(*a, **k):
            self.calls.append((n, a))
            if n == 'Write':
                return 1
            if n == 'IsInvalid':
                return False
            if n == 'GetCellData':
                return self
            if n == 'GetNumberOfCells':
                dims = dict((c[0], c[1][0]) for c in self.calls if c[0] == 'SetDimensions')['SetDimensions']
                return int(np.prod([max(x - 1, 1) for x in dims]))
        return f

    def get(self, n):
        return [c[1] for c in self.calls if c[0] == n]


class RecArray:
    def __init__(self, a, t):
        self.a, self.t, self.name = a, t, None

    def SetName(self, n):
        self.name = n


def vtk(ctx, fine, ne=1, reverse=False, off=0, off2=None):
    """data, placement and covered cells of VTK output; fine: cells of the finer patch"""
    P = pyclaw()
    import types
    import clawpack.pyclaw.fileio.claw_vtk as V
    ratio = 2
    nx, ny = 2, 2
    fx, fy = fine
    h = ctx.real('h', pos=True)
    x0, y0 = ctx.real('x0'), ctx.real('y0')
    ox, oy = (off, off2 if off2 is not None else off)
    def patch(lx, ly, n, m, d, level, index):
        pt = P.Patch([P.Dimension(lx, lx + n * d, n, name='x'), P.Dimension(ly, ly + m * d, m, name='y')])
        pt.level, pt.patch_index = level, index
        return pt
    pts = [patch(x0, y0, nx, ny, h, 1, 1), patch(x0 + nx * h, y0, nx, ny, h, 1, 2),
           patch(x0 + ox * h, y0 + oy * h, fx * ratio, fy * ratio, h / ratio, 2, 3)]
    if reverse:
        pts = pts[::-1]
    states = []
    for k, pt in enumerate(pts):
        s = P.State(pt, ne)
        s.q[...] = ctx.reals('q%d' % k, s.q.shape)
        states.append(s)
    sol = P.Solution(states, P.Domain(pts))
    before = describe(sol)
    class Numpy_to_vtk:
        def numpy_to_vtk(self, num_array=None, deep=None, array_type=None):
            return RecArray(np.array(num_array), array_type)
    Rec.made = []
    old = {n: getattr(V, n) for n in ('vtkOverlappingAMR', 'vtkUniformGrid', 'vtkAMRBox', 'vtkXMLUniformGridAMRWriter', 'numpy_support')}
    try:
        for n in old:
            setattr(V, n, Rec if n != 'numpy_support' else Numpy_to_vtk())
        with scratch() as d:
            ctx.run('writing', sol.write, 3, path=d, file_format='vtk', options={})
    finally:
        for n in old:
            setattr(V, n, old[n])
    compare(ctx, 'writing leaves the solution alone', describe(sol), before)
    amr = [r for r in Rec.made if r.get('SetDataSet')][0]
    sets = amr.get('SetDataSet')
    ctx.check('one block per patch', len(sets) == len(states) and amr.get('Initialize') == [(2, [2, 1])])
    seen = set()
    for level, index, g in sets:
        org = g.get('SetOrigin')[0][0]
        arrays = {a[0].name: a[0] for a in g.get('AddArray')}
        # the state whose data this block holds, by its dimensions and level
        cand = [s for s in states if s.patch.level - 1 == level]
        pick = [s for k, s in enumerate(cand) if k == index][0]
        seen.add(id(pick))
        ctx.check_eq('block origin', org[0], pick.patch.x.lower)
        ctx.check_eq('block origin', org[1], pick.patch.y.lower)
        sp = list(g.get('SetSpacing')[0][0])
        ctx.check_eq('block spacing', sp[0], pick.patch.x.delta)
        ctx.check_eq('block spacing', sp[1], pick.patch.y.delta)
        ctx.check('block dimensions', list(g.get('SetDimensions')[0][0])[:2] == [n + 1 for n in pick.patch.num_cells_global])
        for e in range(ne):
            a = arrays.get('q_%d' % e)
            if a is None or a.a.size != pick.q[e].size:
                ctx.fail('block data (size)')
                continue
            for v, w in zip(a.a.ravel(), np.array(pick.q[e]).ravel(order='F')):
                ctx.check_eq('block data', v, w)
        cov = np.zeros(pick.q.shape[1:])
        if level == 0:
            bx = 0 if pick.patch.patch_index == 1 else nx
            for i in range(nx):
                for j in range(ny):
                    if ox <= bx + i < ox + fx and oy <= j < oy + fy:
                        cov[i, j] = 8
        gh = arrays['vtkGhostType'].a
        for v, w in zip(gh.ravel(), cov.ravel(order='F')):
            ctx.check_eq('cells covered by a finer patch are marked', v, w)
    ctx.check('every patch written', len(seen) == len(states))
    ctx.reach('vtk')


def cases(tier):
    T = tier != 'quick'
    out = []
    one = {1: [[3]], 2: [[3, 2]], 3: [[2, 3, 1]]}
    multi = {1: [[2], [3], [1]], 2: [[2, 3], [3, 1]], 3: [[1, 2, 3], [2, 1, 1]]}
    if T:
        one = {1: [[4]], 2: [[3, 4]], 3: [[2, 3, 4]]}
        multi = {1: [[2], [3], [4]], 2: [[2, 3], [3, 1], [4, 2]], 3: [[1, 2, 3], [2, 1, 1], [2, 2, 2]]}
    for fmt in ('ascii', 'hdf5'):
        for nd in (1, 2, 3):
            out.append(dict(_h='roundtrip', fmt=fmt, cells=one[nd], ne=1, na=0, how='frame', _w=2))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=one[nd], ne=3, na=2, frame=7, prefix='claw', _w=2))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=multi[nd], ne=2, na=1, frame=12, how='kw', _w=3))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=multi[nd], ne=2, na=1, write_aux=False, levels=[1, 1, 3], _w=3))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=multi[nd], ne=2, na=2, read_aux=False, _w=3))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=multi[nd], ne=1, na=1, p=True, prefix='claw_p', write_aux=False, _w=3))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=multi[nd], ne=2, na=1, history='same', frame=3, _w=3))
            out.append(dict(_h='roundtrip', fmt=fmt, cells=one[nd], ne=1, na=1, history='more', frame=1, _w=3))
    out.append(dict(_h='roundtrip', fmt='hdf5', cells=multi[2], ne=1, na=1, prefix=None))
    out.append(dict(_h='roundtrip', fmt='hdf5', cells=multi[2], ne=1, na=1, opts={'compression': 'gzip'}))
    for nd in (1, 2, 3):
        out.append(dict(_h='roundtrip', fmt='ascii', cells=multi[nd], ne=1, na=3 - nd if nd < 3 else 1, frame=5, write_aux=False, auxframe=0))
    out.append(dict(_h='roundtrip', fmt='ascii', cells=[[2, 2]], ne=5, na=1, frame=10000))
    for nd in (1, 2, 3):
        for ng in (0, 1, 2):
            out.append(dict(_h='binary', cells=multi[nd], ne=2, na=1, ng=ng, bits=64, frame=ng))
            out.append(dict(_h='binary', cells=one[nd], ne=1, na=2, ng=ng, bits=32, frame=2, auxframe=0 if ng else None, stated=ng != 1))
    out.append(dict(_h='binary', cells=multi[2], ne=2, na=0, ng=1))
    out.append(dict(_h='binary', cells=multi[2], ne=2, na=2, ng=1, read_aux=False))
    for off, off2 in ((0, 0), (1, 0), (1, 1), (2, 1), (3, 0), (-1, 0), (0, -1)):
        out.append(dict(_h='vtk', fine=[1, 2] if off2 <= 0 else [2, 1], off=off, off2=off2, ne=2))
    out.append(dict(_h='vtk', fine=[2, 1], off=1, off2=0, ne=1, reverse=True))
    return out
