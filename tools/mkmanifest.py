"""Writes MANIFEST.json from properties.jsonl and specs/registry.py (run by hand: python3-vt tools/mkmanifest.py)."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from specs import registry as R
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks = []
for p in props:
    i = p['id']
    fns = [c.key.split(':')[1] for c in R.CONTRACTS if i in c.props]
    fns = [f if fns.count(f) == 1 else '%s (%d cases)' % (f, fns.count(f)) for f in dict.fromkeys(fns)]
    lem = [l[0] for l in R.LEMMAS if i in l[3]]
    lev = R.LEVEL.get(i, 'exploration')
    if fns:
        tech = 'contracts proved on the extracted source (pyvc, z3/cvc5); counterexample search on the real code' + ('' if lev == 'proof' else ' decides the rest (bounded)')
        note = ('Proved for all inputs: %s%s. Bounded (searched on the real code, not proved): %s. Assumes: see trusted_base in the evidence.'
                % (', '.join(fns), '; lemmas ' + ', '.join(lem) if lem else '', R.BOUNDED.get(i, 'nothing')))
    else:
        tech = 'bounded stand-in for contracts: reference specification checked on generated inputs of the real code'
        note = 'Bounded: no function of this property is within the verifier\'s reach yet; searched on the real code.'
    checks.append({'property': i, 'quick_cmd': 'python3-vt /verif/check.py %s quick' % i, 'thorough_cmd': 'python3-vt /verif/check.py %s thorough' % i,
                   'technique': tech, 'level': lev, 'level_note': note})
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': checks, 'not_applicable': [],
     'notes': 'See DESIGN.md. No hooks in /repo; /repo has only "fix:" commits.'}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
