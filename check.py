"""python3-vt check.py PROPERTY [quick|thorough]   -- decide one property on /repo's working tree.

1. Verification: every contract registered for the property (specs/registry.py) is checked against the function's source as it
   is in /repo now, one process per function.
2. Replay and search: the real code is run on generated inputs (harness/) to find a failing input for a failed obligation, and
   as the bounded stand-in for what is not under contract or not decided.
Exit 0: held; exit 1: VIOLATION line."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
OUT = os.environ.get('VERIF_OUT', HERE)      # development only
PY = '/opt/venv/bin/python'


def load_verifier(budget, off=()):
    from pyvc.source import Repo
    from pyvc.verify import Verifier
    from specs import registry as R
    repo = Repo(REPO)
    for s in R.SPECS:
        repo.add_spec(s, os.path.join(HERE, 'specs', s + '.py'))
    return R, Verifier(repo, R.CONTRACTS, R.FIELDS, R.MODELS, R.EXT_EXC, R.SYMBOLS, budget=budget, off=off, invs=R.INVS, merged=R.MERGED)


def blank(key, reason):
    return {'function': key, 'status': 'unsupported', 'reason': reason, 'obligations': 0, 'discharged': 0, 'failures': [],
            'paths': 0, 's': 0, 'solver_s': 0, 'queries': 0, 'cvc5_discharged': 0, 'inlined': [], 'contracts_used': [], 'models_used': []}


def work(kind, key, budget, q, off):
    sys.setrecursionlimit(20000)
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    except Exception:
        pass
    try:
        R, v = load_verifier(budget, off)
        if kind == 'lemma':
            l = [x for x in R.LEMMAS if x[0] == key][0]
            r = v.lemma(l[0], l[1], l[2], *l[4:])
        elif kind == 'symbol':
            r = v.frame(key)
        else:
            r = v.verify(key)
    except BaseException as e:
        r = blank(key, 'verifier: %s: %s' % (type(e).__name__, e))
    json.dumps(r, default=str)
    q.put(json.loads(json.dumps(r, default=str)))


def timings():
    try:
        return json.load(open(os.path.join(HERE, 'specs', 'timings.json')))
    except (OSError, ValueError):
        return {}


def verify_all(jobs, nproc, budget, off=(), total=None, hard=None, found=None):
    """jobs: (kind, key).  One process each, killed at twice the budget; none is started after `total` seconds.  off: contracts whose
    function is used by its body and not by its contract."""
    known = timings()
    todo, live, out = sorted(jobs, key=lambda j: -known.get(':'.join(j), 0)), [], {}       # the long ones first
    start = time.time()
    while todo or live:
        if found is not None and found() and (hard is None or hard > time.time() + 45):
            hard = time.time() + 45         # there is a failing input: the verdict is known, and the proofs only add to the report
        if todo and (total and time.time() - start > total or hard and time.time() > hard):
            for kind, key in todo:
                out[(kind, key)] = blank((kind + ':' if kind != 'fn' else '') + key, 'time limit of the whole check')
            todo = []
        while todo and len(live) < nproc:
            kind, key = todo.pop(0)
            q = mp.SimpleQueue()
            p = mp.Process(target=work, args=(kind, key, budget, q, off), daemon=True)
            p.start()
            live.append((p, q, kind, key, time.time()))
        time.sleep(0.05)
        for x in list(live):
            p, q, kind, key, t = x
            r = None
            if not q.empty():
                r = q.get()
            elif not p.is_alive():
                if not q.empty():
                    r = q.get()
                else:
                    r = {'status': 'unsupported', 'reason': 'the verifier process died'}
            elif time.time() - t > 1.3 * budget + 20 or hard and time.time() > hard:
                r = {'status': 'unsupported', 'reason': 'time limit'}
            if r is not None:
                if p.is_alive():
                    p.join(1)
                    if p.is_alive():
                        p.kill()
                for k, d in (('obligations', 0), ('discharged', 0), ('failures', []), ('solver_s', 0), ('cvc5_discharged', 0), ('queries', 0), ('inlined', []),
                             ('contracts_used', []), ('models_used', []), ('s', round(time.time() - t, 2)), ('paths', 0)):
                    r.setdefault(k, d)
                r['function'] = (kind + ':' if kind != 'fn' else '') + key
                out[(kind, key)] = r
                live.remove(x)
    return [out[j] for j in jobs]


def type_text(t):
    from pyvc import values as V
    if isinstance(t, V.TOr):
        return ['or', [type_text(a) for a in t.alts]]
    if isinstance(t, V.TConst):
        return ['const', list(t.vals)]
    if isinstance(t, V.TList):
        return ['list', type_text(t.elem) if t.elem is not None else None]
    if isinstance(t, V.TDict):
        return ['dict', type_text(t.val) if t.val is not None else None]
    if isinstance(t, V.TTup):
        return ['tup', [type_text(a) for a in t.items]]
    if isinstance(t, V.TObj):
        return ['obj', list(t.classes) + ([] if t.exact else ['SectionTerm', 'RootSectionTerm'] if 'Term' in t.classes else ['RootSectionTerm'] if 'SectionTerm' in t.classes else [])]
    return ['kind', list(t.kinds)]


def describe(ids):
    """The contracts, for the replay of harness/contract.py."""
    R, v = load_verifier(1)
    out = []
    for c in R.CONTRACTS:
        fi = v.repo.func(c.key, c.params)
        if c.id not in ids or fi is None or not c.replay or fi.kind == 'decorated':
            continue
        e = v.engine()
        names = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args]
        params = {}
        for i, n in enumerate(names):
            if i == 0 and fi.kind == 'classmethod':
                continue
            t = c.params.get(n)
            if t is None and i == 0 and fi.cls is not None and fi.kind != 'staticmethod':
                t = e.self_type(fi)
            if t is not None:
                params[n] = type_text(t)
        kw = fi.node.args.kwarg.arg if fi.node.args.kwarg else None
        if kw and '**' in c.params:
            params[kw] = type_text(c.params['**'])
        out.append({'id': c.id, 'result': c.result, 'key': c.key, 'spec': c.spec, 'requires': c.requires, 'params': params, 'kwname': kw, 'inv': list(c.inv), 'fields': sorted({a for _, a in R.FIELDS}),
                    'first': names[0] if fi.cls is not None and fi.kind not in ('staticmethod', 'classmethod') and names else None})
    return out


def decide(R, prop, nproc, quick, t0, found=None):
    """Results for the contracts, symbols and lemmas of the property and for every contract their proofs use.
    Where a contract is not proved, the proofs that use it are redone with the function's body in its place."""
    budget, total, hard = (180, 280, t0 + 560) if quick else (400, 1200, None)
    own = [('fn', c.id) for c in R.CONTRACTS if prop in c.props] + [('symbol', k) for k, v in R.SYMBOLS.items() if prop in v['props']] + \
          [('lemma', l[0]) for l in R.LEMMAS if prop in l[3]]
    con = {c.id: c for c in R.CONTRACTS}
    res, todo = {}, list(own)
    while todo:
        left = max(5, total - (time.time() - t0))
        for r, j in zip(verify_all(todo, nproc, budget, (), left, hard, found), todo):
            res[j] = r
        used = {('fn', u) for r in res.values() for u in r['contracts_used']}
        unf = {('symbol', k) for j in res if j[0] == 'fn' for k in con[j[1]].unfold}
        todo = sorted((used | unf) - set(res))
    off, redone = set(), {}
    while True:
        new = {j[1] for j, r in res.items() if j[0] == 'fn' and r['status'] != 'proved'} - off
        if not new:
            break
        off |= new
        again = [j for j, r in res.items() if j[0] == 'fn' and r['status'] == 'proved' and set(r['contracts_used']) & off]
        for r, j in zip(verify_all(again, nproc, budget, tuple(sorted(off)), max(5, total + (120 if quick else 600) - (time.time() - t0)), hard, found), again):
            r['redone_without'] = sorted(set(res[j]['contracts_used']) & off)
            r['status'] = r['status'] if r['status'] == 'proved' else 'unsupported'       # a proof that rested on a contract that failed
            res[j] = r
            redone[j] = r
    aux = {j for j in res if j[0] == 'fn' and (con[j[1]].aux or (prop not in con[j[1]].props))}
    return [(j, r, j not in own or j in aux) for j, r in res.items()]


class Search:
    """Parallel runs of the concrete harness."""

    def __init__(self, prop, secs, seeds, scratch, contracts=None):
        self.ps, self.secs = [], secs
        cons = ''
        if contracts is not None:
            cons = os.path.join(scratch, 'contracts.json')
            json.dump(contracts, open(cons, 'w'))
        for s in seeds:
            cache, tmp = os.path.join(scratch, 'cache%d' % s), os.path.join(scratch, 'tmp%d' % s)      # nothing shared between the processes
            os.makedirs(cache)
            os.makedirs(tmp)
            env = dict(os.environ, METAPACK_CACHE=cache, METATAB_CACHE=cache, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TMPDIR=tmp, VERIF_REPO=REPO, VERIF_CONTRACTS=cons)
            out = os.path.join(scratch, 's%d.json' % s)
            log = open(os.path.join(scratch, 's%d.log' % s), 'w')
            self.ps.append((subprocess.Popen([PY, '-W', 'ignore', os.path.join(HERE, 'harness', 'run.py'), prop, str(secs), str(s), out],
                                             cwd=tmp, env=env, stdout=log, stderr=log, preexec_fn=limits), out, log.name))
        self.t0, self.seen = time.time(), False

    def failing(self):
        """Some process has ended with a failing input."""
        for p, out, log in self.ps:
            if not self.seen and p.poll() is not None:
                try:
                    self.seen = bool(json.load(open(out)).get('failure'))
                except Exception:
                    pass
        return self.seen

    def finish(self):
        res = []
        for p, out, log in self.ps:
            try:
                p.wait(max(1, self.t0 + self.secs + 120 - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                res.append({'error': 'the search did not end within its time limit', 'log': tail(log)})
                continue
            try:
                res.append(json.load(open(out)))
            except Exception:
                res.append({'error': 'harness ended with %s' % p.returncode, 'log': tail(log)})
        return res


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def tail(p):
    try:
        return open(p).read()[-3000:]
    except OSError:
        return ''


def known(prop):
    """known-findings.txt: lines 'known: property=<id> match=<text in the failure> | <what fails>' and 'fixed: ...' (which suppress nothing)."""
    out = []
    for l in open(os.path.join(HERE, 'known-findings.txt')):
        if l.startswith('known: property=%s ' % prop):
            rest = l.split(' ', 2)[2]
            m, what = rest.split(' | ', 1)
            out.append((m.split('=', 1)[1], what.strip()))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    from specs import registry as R
    quick = tier == 'quick'
    ncpu = min(8, os.cpu_count() or 4)
    jobs = any(prop in c.props for c in R.CONTRACTS)
    nsearch = 3 if jobs else 5
    secs = 25 if quick else 600
    scratch = tempfile.mkdtemp(prefix='vcheck_')
    viol, undecided, notes = [], [], []
    try:
        s = Search(prop, secs, [seed * 1000 + i for i in range(nsearch)], scratch)
        decided = decide(R, prop, max(2, ncpu - nsearch), quick, t0, s.failing)
        results = [r for _, r, _ in decided]
        found = s.finish()
        # a helper whose contract is not proved does not matter where its callers are proved with its body
        covered = {u for _, r, aux in decided if r['status'] == 'proved' and not aux for u in r.get('redone_without', ())}
        core = [r for j, r, aux in decided if r['status'] != 'proved' and not aux]
        undecided = core + [r for j, r, aux in decided if r['status'] != 'proved' and aux and j[1] not in covered]
        refuted = [r for r in core if r['status'] == 'failed' and any(str(f.get('model', '')).startswith('refuted') for f in r['failures'])]
        bad = [f for f in found if f.get('failure') or f.get('error')]
        if undecided and not bad:
            n = ncpu // 2 if core else ncpu
            ext = [Search(prop, 60 if quick else 600, [seed * 1000 + 100 + i for i in range(n)], scratch)]
            cons = describe({r['function'] for r in core})
            if cons:
                ext.append(Search('contract', 60 if quick else 600, [seed * 1000 + 200 + i for i in range(ncpu - n)], scratch, cons))
            more = [dict(r, contract=i) for i, x in enumerate(ext) for r in x.finish()]
            found += more
            bad = [f for f in more if f.get('failure') or f.get('error')]
        # without a failing input, an obligation counts as refuted only where its counterexample leaves no definition by recursion open
        refuted = [r for r in refuted if any(str(f.get('model', '')).startswith('refuted') and not f.get('open') for f in r['failures'])]
        undecided = [r for r in undecided if r not in refuted]
        for f in bad:
            if f.get('error'):
                notes.append(f['error'] + '\n' + f.get('log', ''))
        bad = [f for f in bad if f.get('failure')]
        kf = known(prop)
        listed = []
        for f in bad:
            hit = [w for m, w in kf if f.get('failure') and m in f['failure']]
            if hit:
                listed += hit
            else:
                viol.append(f)
        for w in sorted(set(w for _, w in kf)):
            print('KNOWN-FINDING: property=%s %s' % (prop, w))
        replay = None
        if viol or refuted:
            os.makedirs(os.path.join(OUT, 'replays'), exist_ok=True)
            replay = os.path.join(OUT, 'replays', '%s-%s-%d.json' % (prop, tier, seed))
            f = viol[0] if viol else {}
            json.dump({'property': prop, 'contract': describe({f['case']['contract']}) if f.get('contract') else None, 'case': f.get('case'), 'failure': f.get('failure') or f.get('error'), 'log': f.get('log'),
                       'how_to_replay': 'VERIF_REPO=/repo %s -W ignore /verif/harness/run.py %s 1 1 /tmp/out.json %s' % (PY, 'contract' if f.get('contract') else prop, replay),
                       'failed_obligations': [{'function': r['function'], 'obligations': r['failures'][:5]} for r in refuted],
                       'not_proved': [{'function': r['function'], 'status': r['status'], 'reason': r.get('reason')} for r in undecided]}, open(replay, 'w'), indent=1)
        ev = evidence(R, prop, tier, seed, results, found, undecided, refuted, viol, time.time() - t0)
        os.makedirs(os.path.join(OUT, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(OUT, 'evidence', prop + '.json'), 'w'), indent=1)
        for r in results:
            print('%-12s %s: %d obligations, %d discharged, %d paths, %.1f s%s' % (r['status'], r['function'], r['obligations'], r['discharged'], r['paths'], r['s'],
                                                                             ' (%s)' % r['reason'] if r.get('reason') else ''))
            for f in r['failures'][:2]:
                print('     failed obligation: %s\n         %s' % (f['name'], str(f.get('model'))[:300]))
        n = sum(f.get('cases', 0) for f in found)
        print('search: %d inputs, %d distinct, %d failing' % (n, sum(f.get('distinct', 0) for f in found), len(viol)))
        if viol:
            print('failing input: %s' % json.dumps(viol[0].get('case'), ensure_ascii=False)[:2000])
            print('failure: %s' % str(viol[0].get('failure') or viol[0].get('error'))[:1500])
            if viol[0].get('log'):
                print(viol[0]['log'][-800:])
            print('VIOLATION property=%s replay=%s' % (prop, replay))
            return 1
        if notes:
            print('error: the search could not run\n' + notes[0])
            return 3
        if refuted:
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, replay))
            return 1
        print('property %s: held on everything explored (%d of %d contracts, symbols and lemmas proved)' % (prop, sum(r['status'] == 'proved' for r in results), len(results)))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def evidence(R, prop, tier, seed, results, found, undecided, refuted, viol, wall):
    proved = bool(results) and not undecided and not refuted
    lev = R.LEVEL.get(prop, 'exploration')
    cov = {
        'evaluations': sum(f.get('cases', 0) for f in found),
        'distinct_nontrivial': sum(f.get('distinct', 0) for f in found),
        'rule': next((f['rule'] for f in found if f.get('rule')), '') + '; distinct: different JSON text of the case within one search process; every case runs the real code',
        'samples': [x for f in found for x in f.get('samples', [])][:3],
    }
    if results:
        cov.update({
            'obligations': sum(r['obligations'] for r in results), 'discharged': sum(r['discharged'] for r in results),
            'checker_cmd': 'python3-vt /verif/check.py %s %s' % (prop, tier),
            'trusted_base': R.COMMON_TRUST + R.TRUST.get(prop, []) + sorted({'assumed contract on a dependency: ' + m for r in results for m in r['models_used']}),
            'functions_under_contract': [{k: r.get(k) for k in ('function', 'status', 'reason', 'obligations', 'discharged', 'cvc5_discharged', 'paths', 'solver_s', 's', 'inlined', 'contracts_used', 'models_used')} for r in results],
            'solver_s': round(sum(r['solver_s'] for r in results), 2),
            'back_ends': {'z3': sum(r['discharged'] for r in results) - sum(r['cvc5_discharged'] for r in results), 'cvc5': sum(r['cvc5_discharged'] for r in results)},
        })
    cov['bounded_stand_in'] = R.BOUNDED.get(prop, 'the whole property, by search on the real code')
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': lev if (proved or lev != 'proof') else 'exploration', 'coverage': cov,
            'assumptions': R.COMMON_TRUST + R.TRUST.get(prop, []), 'wall_s': round(wall, 2), 'violations': len(viol) or (1 if refuted else 0)}


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':      # the same queries on every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED='0'))
    sys.exit(main())
