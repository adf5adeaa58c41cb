"""C27: gauge record files read back unchanged (clawpack.pyclaw.gauges)."""
import os
from .common import *
from .C19 import val, vals, cnum, tolerance, IRR

ENCODED = ['gauges.py: GaugeSolution.__init__/read/write/is_valid/__repr__/__str__, convert_gauges, compare_old_gauges']
ASSUMPTIONS = ['rounding to the digits of the format is outside the claim: in files an arbitrary value is represented by its own machine number, which at least 8 significant digits identify',
               'numpy.loadtxt/fromfile return the numbers a file holds', 'at least one record per gauge']


def BOUNDS(tier):
    return '1-3 coordinates, 1-%d records, 1-4 quantities, all header variants (with and without type line and format line), text, 64- and 32-bit records; arbitrary locations, times and values; old files with up to 3 interleaved gauges' % (3 if tier == 'quick' else 5)


def mod():
    pyclaw()
    import clawpack.pyclaw.gauges as G
    return G


def data(ctx, nd, n, ne, tag=''):
    return dict(loc=[val(ctx, 'x%s%d' % (tag, k)) for k in range(nd)], t=vals(ctx, 't' + tag, (n,)), q=vals(ctx, 'q' + tag, (ne, n)),
                level=[1 + (3 * i + len(tag)) % 4 for i in range(n)])


def compare(ctx, label, g, d, gid, gtype='stationary', loc=True):
    n, ne = len(d['t']), d['q'].shape[0]
    ctx.check(label + ': number', int(g.id) == gid)
    if loc:
        if len(g.location) != len(d['loc']):
            ctx.fail(label + ': number of coordinates')
        else:
            for a, b in zip(g.location, d['loc']):
                ctx.check_eq(label + ': location', a, b)
    ctx.check(label + ': type', g.gtype == gtype)
    if np.shape(g.t) != (n,) or np.shape(g.q) != (ne, n) or len(g.level) != n:
        ctx.fail(label + ': shape')
        return
    for i in range(n):
        ctx.check(label + ': level', int(g.level[i]) == d['level'][i])
        ctx.check_eq(label + ': time', g.t[i], d['t'][i])
        for m in range(ne):
            ctx.check_eq(label + ': values', g.q[m, i], d['q'][m, i])
    ctx.check(label + ': is valid', g.is_valid())
    if loc and len(d['loc']) == 2:
        if gtype == 'lagrangian':
            want = [[d['t'][i], d['q'][1, i], d['q'][2, i]] for i in range(n)]
        else:
            want = [[d['t'][0]] + list(d['loc'])]
        p = np.asarray(g.particle_path)
        if p.shape != (len(want), 3):
            ctx.fail(label + ': particle path (shape)')
        else:
            for i, j in np.ndindex(*p.shape):
                ctx.check_eq(label + ': particle path', p[i, j], want[i][j])


def fill(G, d, gid, gtype):
    g = G.GaugeSolution()
    g.id, g.location, g.gtype = gid, tuple(d['loc']), gtype
    g.level, g.t, g.q = np.array(d['level']), d['t'].copy(), d['q'].copy()
    return g


def roundtrip(ctx, nd, n, ne, gid=7, gtype='stationary', how='init', again=False):
    """what write() stores, read() returns"""
    G = mod()
    tolerance(ctx, 1e-12)
    d = data(ctx, nd, n, ne)
    with scratch() as p:
        g = fill(G, d, gid, gtype)
        other = fill(G, data(ctx, nd, n + 1, ne, 'o'), gid + 1, 'stationary')
        ctx.run('writing', g.write, p)
        ctx.run('writing another gauge', other.write, p)
        for m in range(ne):
            ctx.check_eq('writing leaves the gauge alone', g.q[m, n - 1], d['q'][m, n - 1])
        if how == 'init':
            r = ctx.run('reading', G.GaugeSolution, gid, p)
        else:
            r = G.GaugeSolution()
            if how == 'reuse':
                ctx.run('reading another gauge first', r.read, gid + 1, p)
            ctx.run('reading', r.read, gid, p)
        compare(ctx, 'a gauge reads back', r, d, gid, gtype)
        if again:
            os.makedirs(os.path.join(p, 'b'))
            ctx.run('writing again', r.write, os.path.join(p, 'b'))
            compare(ctx, 'a gauge read and written again', ctx.run('reading again', G.GaugeSolution, gid, os.path.join(p, 'b')), d, gid, gtype)
    ctx.reach('roundtrip')


def layout(ctx, nd, n, ne, fmt, gtype=None, stated=True, gid=12):
    """files in the layout the Fortran packages write"""
    G = mod()
    tolerance(ctx, 2e-7 if fmt != 'binary32' else 2e-6)
    d = data(ctx, nd, n, ne)
    rows = [[float(d['level'][i]), cnum(ctx, d['t'][i])] + [cnum(ctx, d['q'][m, i]) for m in range(ne)] for i in range(n)]
    with scratch() as p:
        with open(os.path.join(p, 'gauge%05d.txt' % gid), 'w') as f:
            f.write('# gauge_id= %5d location=( %s ) num_eqn= %2d\n' % (gid, ' '.join('%17.10e' % cnum(ctx, x) for x in d['loc']), ne))
            if gtype == 'stationary':
                f.write('# Stationary gauge\n')
            elif gtype == 'lagrangian':
                f.write('# Lagrangian particle, q[1,:] and q[2,:] are the path\n')
            f.write('# level, time, q[1,2,...]\n')
            if stated:
                f.write('# file format %s, time series follow%s\n' % (fmt, ' in .bin file' if fmt != 'ascii' else ' below'))
            if fmt == 'ascii':
                for r in rows:
                    f.write('%5d ' % r[0] + ' '.join('%17.10e' % x for x in r[1:]) + '\n')
        if fmt != 'ascii':
            with open(os.path.join(p, 'gauge%05d.bin' % gid), 'wb') as f:
                f.write(np.array(rows, dtype=float).astype(np.float32 if fmt == 'binary32' else np.float64).tobytes())
        g = ctx.run('reading', G.GaugeSolution, gid, p)
        compare(ctx, 'a gauge file reads back', g, d, gid, gtype or 'stationary')
        bad = G.GaugeSolution()
        try:
            os.rename(os.path.join(p, 'gauge%05d.txt' % gid), os.path.join(p, 'gauge%05d.txt' % (gid + 1)))
            bad.read(gid + 1, p)
            ctx.fail('a file holding another gauge is refused')
        except ValueError:
            pass
    ctx.reach('layout')


def convert(ctx, ids, ne):
    """each gauge of an old combined file gets exactly its own rows, in order"""
    G = mod()
    tolerance(ctx, 1e-12)
    n = len(ids)
    d = data(ctx, 1, n, ne)
    with scratch() as p:
        old = os.path.join(p, 'fort.gauge')
        with open(old, 'w') as f:
            for i, gid in enumerate(ids):
                f.write('%5d %3d ' % (gid, d['level'][i]) + ' '.join('%.17e' % cnum(ctx, x) for x in [d['t'][i]] + list(d['q'][:, i])) + '\n')
        out = os.path.join(p, 'new')
        os.makedirs(out)
        ctx.run('converting', G.convert_gauges, old, out)
        ctx.check('one file per gauge', sorted(os.listdir(out)) == sorted('gauge%05d.txt' % i for i in set(ids)))
        for gid in sorted(set(ids)):
            ix = [i for i in range(n) if ids[i] == gid]
            w = dict(loc=[], t=np.array([d['t'][i] for i in ix]), q=np.array([[d['q'][m, i] for i in ix] for m in range(ne)]), level=[d['level'][i] for i in ix])
            compare(ctx, 'a converted gauge', ctx.run('reading', G.GaugeSolution, gid, out), w, gid, loc=False)
            ctx.check('the comparison confirms the conversion', bool(ctx.run('comparing', G.compare_old_gauges, old, out, gid)))
    ctx.reach('convert')


def cases(tier):
    T = tier != 'quick'
    out = []
    ns = (1, 2, 3) if not T else (1, 2, 3, 5)
    for nd in (1, 2, 3):
        for n in ns:
            out.append(dict(_h='roundtrip', nd=nd, n=n, ne=1 + (n + nd) % 3, how=('init', 'read', 'reuse')[(n + nd) % 3], again=n == 2, gid=(3, 70000, 420)[nd - 1]))
    for n in (1, 2):
        out.append(dict(_h='roundtrip', nd=2, n=n, ne=3 + n % 2, gtype='lagrangian', how='init' if n == 1 else 'reuse', again=True))
    for fmt in ('ascii', 'binary64', 'binary32', 'binary'):
        for nd in (1, 2, 3):
            for gtype in (None, 'stationary') + (('lagrangian',) if nd == 2 else ()):
                for n in (1, 3):
                    out.append(dict(_h='layout', nd=nd, n=n, ne=3 if gtype == 'lagrangian' else nd, fmt=fmt, gtype=gtype, stated=not (fmt in ('ascii', 'binary') and n == 3 and nd != 2)))
    for ids in ([4], [1, 2], [3, 1, 3, 3, 1], [12, 5, 12, 400, 5]):
        for ne in (1, 2, 4):
            out.append(dict(_h='convert', ids=ids, ne=ne))
    return out
