"""Planted-bug bookkeeping (development aid; no check reads this).
  tools_seed.py make FILE.py     FILE defines SEEDS = [dict(id, property, edits=[(file, old, new)], needs, breaks, demo)]
  tools_seed.py run ID...        apply to /repo, build, run demo, stable tests (with -t) and the property's quick check, undo
"""
import sys, os, json, subprocess, tempfile, shutil
H = os.path.dirname(os.path.abspath(__file__))
SH = '#!/bin/bash\n# exit 0: behaves; nonzero: broken\nhere="$(cd "$(dirname "$0")" && pwd)"\nd=$(mktemp -d)\ncd "$d"\nPYTHONDONTWRITEBYTECODE=1 timeout 250 /opt/venv/bin/python "$here/demo.py"\nrc=$?\ncd /\nrm -rf "$d"\nexit $rc\n'

def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)

def make(f):
    ns = {}
    exec(open(f).read(), ns)
    for s in ns['SEEDS']:
        d = os.path.join(H, 'seeded', s['id'])
        w = tempfile.mkdtemp(prefix='wt')
        sh('git -C /repo archive HEAD | tar x -C %s; cd %s; git init -q; git add -A; git -c user.email=a -c user.name=a commit -qm x' % (w, w))
        for fn, old, new in s['edits']:
            p = os.path.join(w, 'src/pyclaw', fn)
            t = open(p).read()
            assert t.count(old) == 1, (s['id'], fn, t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        os.makedirs(d, exist_ok=True)
        open(os.path.join(d, 'patch.diff'), 'w').write(sh('git -C %s diff' % w).stdout)
        shutil.rmtree(w)
        open(os.path.join(d, 'demo.py'), 'w').write(s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write(SH)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)

def run(ids, tests):
    for i in ids:
        d = os.path.join(H, 'seeded', i)
        prop = json.load(open(d + '/meta.json'))['property']
        demo0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        r = sh('git -C /repo apply %s/patch.diff' % d)
        if r.returncode:
            print(i, 'DOES NOT APPLY', r.stderr); continue
        try:
            b = sh('bash /opt/vp/build.sh')
            demo1 = sh('bash %s/demo.sh' % d, cwd='/repo')
            c = sh('timeout 880 bash run.sh %s quick' % prop, cwd=H)
            t = ''
            if tests:
                sh('bash /opt/vp/test.sh /tmp/ts.json')
                p = json.load(open('/tmp/ts.json'))
                st = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
                t = 'tests missing %s' % sorted(st - set(p['passed']))[:3]
        finally:
            sh('git -C /repo checkout -- .')
        sh('bash /opt/vp/build.sh')
        print(i, prop, 'build', b.returncode, 'demo clean/bug', demo0.returncode, demo1.returncode, 'check', c.returncode,
              'CAUGHT' if c.returncode == 1 and 'VIOLATION property=' + prop in c.stdout else 'MISSED', t, flush=True)
        if demo0.returncode or not demo1.returncode:
            print(demo0.stderr[-500:], demo1.stderr[-500:])
        if c.returncode == 2:
            print('   ', [l for l in c.stdout.splitlines() if 'INCON' in l][:2])

if __name__ == '__main__':
    if sys.argv[1] == 'make':
        make(sys.argv[2])
    else:
        a = [x for x in sys.argv[2:] if x != '-t']
        run(a, '-t' in sys.argv)
