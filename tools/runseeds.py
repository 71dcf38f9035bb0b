"""python3 tools/runseeds.py [-j N] [ids or prefixes...]: run the check of its property against each seeded bug, in scratch copies."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
a = sys.argv[1:]
j = 2
if a[:1] == ['-j']:
    j = int(a[1]); a = a[2:]
ids = [x for x in sorted(os.listdir(os.path.join(HERE, 'seeded'))) if not a or any(x.startswith(y) for y in a)]


def one(i):
    sd = os.path.join(HERE, 'seeded', i)
    prop = json.load(open(os.path.join(sd, 'meta.json')))['property']
    d = tempfile.mkdtemp(prefix='rs_')
    try:
        subprocess.check_call(['cp', '-a', '/repo', d + '/repo'])
        subprocess.check_call(['git', '-C', d + '/repo', 'apply', sd + '/patch.diff'])
        r = subprocess.run(['python3-vt', HERE + '/check.py', prop, 'quick'], env=dict(os.environ, VERIF_REPO=d + '/repo', VERIF_OUT=d, VERIF_SEED='1'), capture_output=True, text=True)
        out = r.stdout
        v = [l for l in out.splitlines() if l.startswith('VIOLATION')]
        ob = [l.strip() for l in out.splitlines() if 'failed obligation' in l]
        st = [l.split()[1] + '=' + l.split()[0] for l in out.splitlines() if l.split() and l.split()[0] in ('failed', 'unsupported', 'absent', 'vacuous')]
        f = [l for l in out.splitlines() if l.startswith('failure:')]
        print('%s %s exit %d %s\n    %s %s %s' % ('CAUGHT' if r.returncode == 1 and v else 'MISSED', i, r.returncode, v[0].split('replay')[-1][-40:] if v else '', f[0][:200] if f else '', ob[:2], st), flush=True)
        if r.returncode not in (0, 1):
            print(out[-1500:], r.stderr[-1500:])
    finally:
        shutil.rmtree(d)


with ThreadPoolExecutor(j) as ex:
    list(ex.map(one, ids))
