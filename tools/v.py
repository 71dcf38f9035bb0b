"""python3-vt tools/v.py [-b SECS] [-j N] KEY-SUBSTRING...   -- verify the contracts whose key (or property) matches; development aid."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
sys.dont_write_bytecode = True
import check
from specs import registry as R
a = sys.argv[1:]
b, n, keep = 60, 8, {}
while a and a[0] in ('-b', '-j'):
    if a[0] == '-b': b = int(a[1])
    else: n = int(a[1])
    a = a[2:]
jobs = [('fn', c.id) for c in R.CONTRACTS if not a or any(x in c.id or x in c.props for x in a)] + [('lemma', l[0]) for l in R.LEMMAS if not a or any(x in l[0] or x in l[3] for x in a)]
jobs += [('symbol', k) for k, y in R.SYMBOLS.items() if not a or any(x in k or x in y['props'] for x in a)]
for j, r in zip(jobs, check.verify_all(jobs, n, b)):
    keep[':'.join(j)] = round(r['s'])
    print('%-12s %s: %d/%d obl, %d paths, %.1f s %s %s' % (r['status'], r['function'], r['discharged'], r['obligations'], r['paths'], r['s'], str(r.get('reason', ''))[:300], 'used: ' + ' '.join(r['contracts_used'] + r['models_used']) if r['contracts_used'] or r['models_used'] else ''))
    for f in r['failures'][:1]:
        print('     FAILED %s\n        model: %s\n        path: %s\n        goal: %s' % (f['name'], str(f.get('model'))[:200], str(f.get('path'))[:500], str(f.get('goal'))[:700]))
if not a:       # a full run: kept to start the long proofs first
    import json
    json.dump({k: v for k, v in sorted(keep.items()) if v > 3}, open(os.path.join(check.HERE, 'specs', 'timings.json'), 'w'), indent=0)
