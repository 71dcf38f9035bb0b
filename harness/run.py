"""python run.py PROPERTY SECONDS SEED OUT.json [CASEFILE]  -- search for, or replay, a failing input on the real code."""
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback
import warnings

warnings.simplefilter('ignore')
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common  # noqa


class Hang(BaseException):
    pass


def on_alarm(*a):
    raise Hang()


def run_case(mod, case, limit=20):
    signal.signal(signal.SIGALRM, on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        mod.check(json.loads(json.dumps(case)))
        signal.setitimer(signal.ITIMER_REAL, 0)
        return None
    except Hang:
        return 'the case does not end within %d s' % limit
    except common.Bad as e:
        return str(e)[:2000]
    except RecursionError as e:
        return 'RecursionError: %s' % e
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])
        return ('unexpected %s: %s (%s)' % (type(e).__name__, e, where))[:2000]
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def is_valid(mod, c):
    try:
        return getattr(mod, 'valid', lambda c: True)(c)
    except Exception:
        return False


def shrink(mod, case, deadline):
    """Greedy removal of list elements and shortening of strings, keeping the failure."""
    best = case

    def paths(x, p=()):
        if isinstance(x, dict):
            for k in x:
                yield from paths(x[k], p + (k,))
        elif isinstance(x, list):
            yield p
            for i, y in enumerate(x):
                yield from paths(y, p + (i,))

    def get(x, p):
        for k in p:
            x = x[k]
        return x
    changed = True
    while changed and time.time() < deadline:
        changed = False
        for p in sorted(paths(best), key=len):
            try:
                n = len(get(best, p))
            except (KeyError, IndexError, TypeError):
                continue
            i = n - 1
            while i >= 0 and time.time() < deadline:
                c = json.loads(json.dumps(best))
                try:
                    del get(c, p)[i]
                except (KeyError, IndexError, TypeError):
                    break
                if is_valid(mod, c) and run_case(mod, c):
                    best = c
                    changed = True
                i -= 1
    return best


def main():
    prop, secs, seed, out = sys.argv[1], float(sys.argv[2]), int(sys.argv[3]), sys.argv[4]
    mod = importlib.import_module(prop.lower())
    res = {'property': prop, 'seed': seed, 'cases': 0, 'distinct': 0, 'failure': None, 'hot_literals': common.HOT_S[:20], 'samples': []}
    if len(sys.argv) > 5:
        case = json.load(open(sys.argv[5]))
        if case.get('contract') and 'case' in case:
            mod.CON[:] = case['contract']
        case = case.get('case', case)
        res['failure'] = run_case(mod, case)
        res['cases'] = 1
        json.dump(res, open(out, 'w'))
        print(res['failure'] or 'holds')
        return
    rng = random.Random(seed)
    t0 = time.time()
    seen = set()
    fixed = list(getattr(mod, 'FIXED', []))
    stats = {}
    while time.time() - t0 < secs or fixed:
        case = fixed.pop(0) if fixed else mod.gen(rng)
        res['cases'] += 1
        k = json.dumps(case, sort_keys=True)
        if hash(k) not in seen:
            seen.add(hash(k))
        if len(res['samples']) < 3 and res['cases'] > len(getattr(mod, 'FIXED', [])):
            res['samples'].append(k[:400])
        f = run_case(mod, case)
        if f:
            small = shrink(mod, case, time.time() + 15)
            res['failure'] = run_case(mod, small) or f
            res['case'] = small if run_case(mod, small) else case
            break
    res['distinct'] = len(seen)
    res['seconds'] = round(time.time() - t0, 2)
    res['rule'] = getattr(mod, 'RULE', '')
    json.dump(res, open(out, 'w'))


main()
