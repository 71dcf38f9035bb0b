"""Writes /verif/seeded/<id>/ from the list below, against /repo's HEAD (run by hand; no check reads it).
   python3 tools/mkseed.py [ids...]    builds; confirms each in a scratch copy (applies, stable tests pass, demo passes without and fails with it)."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = '''#!/bin/bash
# run with cwd = the repository; exit 0 when the property holds
d=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$d"' EXIT
export METAPACK_CACHE="$d/cache" METATAB_CACHE="$d/cache" PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
/opt/venv/bin/python -W ignore "$(cd "$(dirname "$0")" && pwd)/demo.py" "$d"
'''
PRE = '''import sys, os
from metatab import MetatabDoc, TermParser
from metatab.terms import Term
from metatab.rowgen import MetatabRowGenerator, TextRowGenerator
tmp = sys.argv[1]
def mk(*rows): return MetatabDoc(MetatabRowGenerator([list(r) for r in rows]))
'''
B = []


def bug(id, prop, edits, needs, breaks, demo):
    B.append((id, prop, edits if isinstance(edits, list) else [edits], needs, breaks, demo))


T, D, P, G, U, C, DP = ['metatab/%s.py' % x for x in ('terms', 'doc', 'parser', 'rowgen', 'util', 'cli', 'datapackage')]
exec(open(os.path.join(HERE, 'tools', 'bugs.py')).read())


def main():
    ids = sys.argv[1:]
    for id, prop, edits, needs, breaks, demo in B:
        if ids and id not in ids:
            continue
        d = tempfile.mkdtemp(prefix='seed_')
        try:
            r = os.path.join(d, 'repo')
            subprocess.check_call(['cp', '-a', '/repo', r])
            sd = os.path.join(HERE, 'seeded', id)
            os.makedirs(sd, exist_ok=True)
            open(os.path.join(sd, 'demo.sh'), 'w').write(SH)
            os.chmod(os.path.join(sd, 'demo.sh'), 0o755)
            open(os.path.join(sd, 'demo.py'), 'w').write(PRE + demo.strip() + '\n')
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(sd, 'meta.json'), 'w'), indent=1)
            ok0 = subprocess.run(['bash', os.path.join(sd, 'demo.sh')], cwd=r, capture_output=True, text=True)
            for f, a, b in edits:
                p = os.path.join(r, f)
                s = open(p).read()
                if s.count(a) != 1:
                    print(id, 'TEXT FOUND', s.count(a), 'TIMES', repr(a)[:80])
                    break
                open(p, 'w').write(s.replace(a, b))
            else:
                diff = subprocess.check_output(['git', '-C', r, 'diff'], text=True)
                open(os.path.join(sd, 'patch.diff'), 'w').write(diff)
                ok1 = subprocess.run(['bash', os.path.join(sd, 'demo.sh')], cwd=r, capture_output=True, text=True)
                # the stable tests
                t = subprocess.run('cd %s && PYTHONPATH=%s PYTHONDONTWRITEBYTECODE=1 timeout 200 /opt/venv/bin/python -W ignore -m pytest -q -p no:cacheprovider %s 2>&1 | tail -3'
                                   % (r, r, ' '.join(STABLE)), shell=True, capture_output=True, text=True).stdout
                good = ok0.returncode == 0 and ok1.returncode != 0 and '5 passed' in t and 'failed' not in t
                print(id, prop, 'OK' if good else 'NOT OK: without %d with %d %s' % (ok0.returncode, ok1.returncode, t))
                if ok0.returncode:
                    print(ok0.stderr[-800:])
        finally:
            shutil.rmtree(d)


base = json.load(open('/opt/vp/BASELINE.json'))
STABLE = ['metatab/test/test_parser.py::TestParser::' + x.split('::')[1] for x in base['stable']]
if __name__ == '__main__':
    main()
