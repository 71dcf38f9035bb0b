"""python3-vt tools/cr.py [-s SECS] [-n PROCS] KEY-SUBSTRING|PROPERTY...  -- run contracts against the real code (cross-validation of specifications)."""
import os, sys, tempfile, shutil, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
import check
from specs import registry as R
a = sys.argv[1:]
secs, n = 20, 8
while a and a[0] in ('-s', '-n'):
    if a[0] == '-s': secs = int(a[1])
    else: n = int(a[1])
    a = a[2:]
ids = [c.id for c in R.CONTRACTS if not a or any(x in c.id or x in c.props for x in a)]
d = check.describe(ids)
print(len(d), 'contracts')
t = tempfile.mkdtemp(prefix='cr_')
try:
    for r in check.Search('contract', secs, list(range(1, n + 1)), t, d).finish():
        print({k: r.get(k) for k in ('cases', 'distinct', 'failure', 'error', 'log', 'case') if r.get(k)})
finally:
    shutil.rmtree(t)
