"""Rewrites the 'fixed' list of known_findings.json from /repo's fix commits (run by hand)."""
import json, subprocess, os
H = os.path.dirname(os.path.abspath(__file__))
PROP = [('SSP22', 'C16'), ('general RK', 'C16'), ('limiter', 'C09'), ('source term', 'C05'), ('last step of a fixed', 'C03'), ('fixed steps were', 'C03'),
        ('dt_max', 'C04'), ('tvd2_wave', 'C14'), ('tvd2 divided', 'C13'), ('weno5_', 'C22'), ('capacity function shifted', 'C15'), ('short grid', 'C22'),
        ('deallocate', 'C22'), ('step limit', 'C01'), ('max_steps', 'C01')] + json.load(open(os.path.join(H, 'fixmap.json')))
p = os.path.join(H, 'known_findings.json')
d = json.load(open(p)) if os.path.exists(p) else {'findings': []}
out = []
for l in subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines():
    h, m = l.split(' ', 1)
    if not m.startswith('fix:'):
        continue
    pr = [b for a, b in reversed(PROP) if a in m]
    if not pr:
        raise SystemExit('no property for ' + m)
    out.append('fixed: property=%s %s %s' % (pr[0], h, m[5:]))
d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1)
print(len(out), 'fixed', len(d['findings']), 'known')
