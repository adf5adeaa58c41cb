"""Generates MANIFEST.json from the checks present (run by hand)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
NA = {
 'C23': 'petsc4py is not installed and cannot be built offline, so the parallel package cannot be imported or replayed, and the data exchange it relies on is PETSc C code outside the repository: nothing of it can be encoded or replayed here.',
 'C24': 'the NetCDF module does not import/run on the installed Python 3 stack (Python 2 code paths), and the stored bytes are produced by the netCDF C library, which cannot be encoded; there is no working behaviour to decide.',
}
LEVEL = 'other'
checks, na = [], []
for l in open(os.path.join(H, 'properties.jsonl')):
    d = json.loads(l)
    i = d['id']
    if os.path.exists(os.path.join(H, 'props', i + '.py')) and i not in NA:
        fortran = 'kcommon' in open(os.path.join(H, 'props', i + '.py')).read()
        checks.append(dict(property=i, quick_cmd='bash run.sh %s quick' % i, thorough_cmd='bash run.sh %s thorough' % i,
            technique='symbolic execution of the real %s with z3 deciding every branch and assertion; counterexamples replayed on the real code' % ('Python and Fortran (gcc GIMPLE) code' if fortran else 'Python code'),
            level=LEVEL,
            level_note='Bounded: all real values of the inputs, within the grid sizes, step counts and configurations stated in the evidence; solver verdict over exact real arithmetic, not floating point.'))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), len(na))
