"""Replay of contracts on the real code: for random objects and arguments that satisfy the precondition, the function of /repo and the
specification function, run by CPython in equal states, have the same outcome and leave equal states."""
import importlib
import types
from docs import *
import c10

RULE = 'random documents, perturbed fields and random arguments; the function and its specification run from equal states'
CON = json.load(open(os.environ['VERIF_CONTRACTS'])) if os.environ.get('VERIF_CONTRACTS') else []
sys.path.append(os.path.join(os.path.dirname(HERE), 'specs'))
import metatab.doc  # noqa
import metatab.terms  # noqa


def gen_type(rng, ty, pool):
    k = ty[0]
    if k == 'or':
        return gen_type(rng, rng.choice(ty[1]), pool)
    if k == 'const':
        return rng.choice(ty[1])
    if k == 'list':
        return [gen_type(rng, ty[1] or ['kind', ['str']], pool) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
    if k == 'tup':
        return {'tup': [gen_type(rng, t, pool) for t in ty[1]]}
    if k == 'dict':
        return {'dict': [[rng.choice(pool), gen_type(rng, ty[1] or ['kind', ['str']], pool)] for _ in range(rng.choice([0, 1, 1, 2]))]}
    if k == 'obj' and ty[1] == ['TextRowGenerator']:
        bits = [':', ':', '|', '|', '\\|', '\\', '#', '====', '=', ' ', '\t', 'Section', '']
        return {'text': [''.join(rng.choice(bits if rng.random() < 0.6 else pool) for _ in range(rng.randint(0, 8))).replace('\n', ' ').replace('\r', ' ') for _ in range(rng.randint(0, 5))]}
    if k == 'obj':
        return {'obj': rng.randint(0, 60), 'cls': ty[1]}
    c = rng.choice(ty[1])
    if c == 'str':
        return rng.choice(pool)
    if c == 'int':
        return rng.choice([0, 1, 2, 3, 7] + HOT_I)
    if c == 'bool':
        return rng.choice([False, False, False, True])
    return None


def strings(rng, rows):
    names = [n for r in rows if r and r[0] for n in str(r[0]).split('.')]
    names = [n.strip() for n in names if n.strip()] or ['Name']
    cols = [str(c) for r in rows if r and len(r) > 2 and r[0] and r[0].strip().lower() in ('section', 'header') for c in r[2:]]
    vals = [str(r[1]) for r in rows if len(r) > 1 and r[1]]
    pool = names * 3 + cols * 3 + vals
    pool += [rng.choice(names) + '.' + rng.choice(names) for _ in range(6)] + ['Root.' + n for n in names] + ['*.' + rng.choice(names), rng.choice(names) + '.*', '*.*', 'Root.*', '*']
    pool += [rng.choice(VALUES), name(rng), '', '@value', 'value', 'Root', 'root', 'name', 'url', 'description', 'schema', '__setstate__', 'x.y.z', ' ' + rng.choice(names)]
    pool += [s for s in HOT_S] * 2
    return [mixcase(rng, s) if rng.random() < 0.4 else s for s in pool]


def gen(rng):
    i = rng.randrange(len(CON))
    c = CON[i]
    rows = gen_rows(rng, n=rng.randint(1, 10))
    pool = strings(rng, rows)
    if c['spec'].startswith('identity:') and 'self' in c['params']:
        rows = c10.gen(rng)['rows'] + (rows if rng.random() < 0.2 else [])
        pool = strings(rng, rows) + ['+', '-', '+1', '+2', '-1', '-3', '3', 'x', '+x', '+1', '+', '-'] * 3
    muts = []
    for _ in range(rng.choice([0, 0, 1, 2, 4])):
        f = rng.choice(['record_term', 'value', 'term_value_name', 'args', 'header_args', 'derived', 'parent_term', 'sectionless', 'childcase'])
        muts.append([f, rng.randint(0, 60), [rng.choice(pool) for _ in range(rng.randint(0, 3))] if f in ('args', 'header_args', 'derived') else
                     rng.choice([None, 0, 1, True, False, rng.choice(pool), rng.choice(pool)]) if f == 'value' else rng.choice(pool)])
    return {'contract': c['id'], 'rows': rows, 'muts': muts, 'args': {p: gen_type(rng, t, pool) for p, t in c['params'].items()}}


def valid(c):
    return {'contract', 'rows', 'muts', 'args'} <= set(c) and all(len(m) == 3 for m in c['muts'])


def objects(doc):
    out = [doc, doc.root] if hasattr(doc, 'root') else [doc]
    for s in doc.sections.values():
        out.append(s)
        out.extend(walk(s.terms))
    return out


def build(case):
    try:
        doc = mkdoc(case['rows'])
    except Exception:
        raise Skip()
    for f, i, v in case['muts']:
        ts = [o for o in objects(doc) if isinstance(o, metatab.terms.Term)]
        plain = [t for t in ts if not isinstance(t, metatab.terms.SectionTerm)]
        secs = list(doc.sections.values())
        if f == 'derived':
            names = [t.join_lc for t in plain]
            if names and v:
                doc.derived_terms[v[0].lower() if i % 2 else names[i % len(names)]] = [names[(i + 1) % len(names)]] + [x for x in v[1:] if x.count('.') < 2]
        elif f == 'header_args':
            secs[i % len(secs)].header_args = v
        elif f in ('args',):
            ts[i % len(ts)].args = v
        elif f == 'sectionless':
            if plain:
                plain[i % len(plain)]._section = None
        elif f == 'childcase':
            if plain:
                t = plain[i % len(plain)]
                t.record_term = t.record_term.swapcase()
        elif plain:
            t = plain[i % len(plain)]
            if f in ('record_term', 'parent_term') and (not isinstance(v, str) or '.' in v):
                continue
            setattr_raw(t, f, v)
    return doc


def setattr_raw(t, f, v):
    t.__dict__[f] = v


def pick(doc, ty):
    exact = {n: getattr(metatab.terms, n, None) or getattr(metatab.doc, n, None) for n in ty['cls']}
    cs = [o for o in objects(doc) if type(o) in exact.values()]
    return cs[ty['obj'] % len(cs)] if cs else None


class Skip(Exception):
    pass


def conv(doc, v):
    if isinstance(v, dict):
        if 'obj' in v:
            o = pick(doc, v)
            if o is None:
                raise Skip()
            return o
        if 'text' in v:
            from metatab.rowgen import TextRowGenerator
            g = TextRowGenerator('Name: x')
            g._text_lines = list(v['text'])
            return g
        if 'tup' in v:
            return tuple(conv(doc, x) for x in v['tup'])
        return {k: conv(doc, x) for k, x in v['dict']}
    if isinstance(v, list):
        return [conv(doc, x) for x in v]
    return v


def resolve(key):
    m, q = key.split(':')
    mod = importlib.import_module(m)
    parts = q.split('.')
    setter = parts[-1] == 'setter'
    if setter:
        parts = parts[:-1]
    if len(parts) == 1:
        return getattr(mod, parts[0])
    raw = getattr(mod, parts[0]).__dict__[parts[1]]
    if isinstance(raw, property):
        return raw.fset if setter else raw.fget
    if isinstance(raw, staticmethod):
        return raw.__func__
    if isinstance(raw, classmethod):
        return raw.__get__(None, getattr(mod, parts[0]))
    return raw


def spec(name):
    m, n = name.split(':')
    return getattr(importlib.import_module(m), n)


def call_spec(name, bound, order):
    f = spec(name)
    ps = f.__code__.co_varnames[:f.__code__.co_argcount]
    return f(*[bound[p] if p in bound else bound[order[i]] for i, p in enumerate(ps)])


def canon(roots, fields=()):
    """A value and everything reachable from it, with identity of objects."""
    ids, out = {}, []

    def go(v):
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            out.append((type(v).__name__, v))
        elif id(v) in ids:
            out.append(('ref', ids[id(v)]))
        elif isinstance(v, (types.GeneratorType, map, filter, zip)) or type(v).__name__ in ('chain', 'list_iterator'):
            go(list(v))
        elif isinstance(v, dict):
            out.append(('dict', len(v)))
            for k, x in v.items():
                go(k)
                go(x)
        elif isinstance(v, (list, tuple)):
            out.append((type(v).__name__, len(v)))
            for x in v:
                go(x)
        elif isinstance(v, (set, frozenset)):
            out.append(('set', sorted(map(repr, v))))
        elif type(v).__module__.startswith('metatab'):
            ids[id(v)] = len(ids)
            keep.append(v)
            out.append((type(v).__name__,))
            for k, x in sorted(v.__dict__.items()):
                if fields and k not in fields:       # what no contract speaks about (a cache, say) may differ
                    continue
                out.append(k)
                go(x)
        else:
            out.append((type(v).__name__,))
    keep = []
    for r in roots:
        go(r)
    return out


def outcome(f):
    try:
        r = f()
        if isinstance(r, types.GeneratorType) or type(r).__name__ in ('chain', 'map', 'filter'):
            r = list(r)
        return ('value', r)
    except RecursionError:
        raise Skip()
    except Exception as e:
        return ('raise', e)


def check(case):
    c = [x for x in CON if x['id'] == case['contract']]
    if not c:
        return
    c = c[0]
    try:
        a, b = build(case), build(case)
        f = resolve(c['key'])
        order = [p for p in case['args']]
        ba, bb = {p: conv(a, v) for p, v in case['args'].items()}, {p: conv(b, v) for p, v in case['args'].items()}
    except Skip:
        return
    if 'record names are lower case' in c['inv'] and any(o.record_term != o.record_term.lower() for o in objects(a)[1:] + list(ba.values()) if isinstance(o, metatab.terms.Term)):
        return
    fields = set(c['fields'])
    for rq in c['requires']:
        if outcome(lambda: call_spec(rq, bb, order)) != ('value', True):
            return
    if c['key'].endswith('.__getattr__'):       # Python calls it for absent attributes only
        try:
            object.__getattribute__(ba[c['first']], ba[order[1]])
            return
        except AttributeError:
            pass
    kw = {p: v for p, v in ba.items() if p != c['first'] and p != c['kwname']}
    if c['kwname'] in ba:
        if set(ba[c['kwname']]) & (set(kw) | {'self'}):
            return
        kw.update(ba[c['kwname']])
    try:
        x = outcome(lambda: f(*([ba[c['first']]] if c['first'] in ba else []), **kw))
        y = outcome(lambda: call_spec(c['spec'], bb, order))
    except Skip:
        return
    what = '%s(%s)' % (c['id'], ', '.join('%s=%r' % (p, v) for p, v in ba.items())[:500])
    if x[0] != y[0] or (x[0] == 'raise' and not isinstance(x[1], type(y[1]))):
        raise Bad('%s: %s where the specification has %s' % (what, show(x), show(y)))
    need(x[0] == 'raise' or not c['result'] or canon([x[1]], fields) == canon([y[1]], fields), '%s: the result is %s; the specification has %s', what, show(x), show(y))
    if not c['result'] and x[0] != 'raise':
        x, y = ('value', None), ('value', None)
    ca, cb = canon([a, ba, x[1] if x[0] == 'value' else None], fields), canon([b, bb, y[1] if y[0] == 'value' else None], fields)
    if ca != cb:
        i = [k for k in range(min(len(ca), len(cb))) if ca[k] != cb[k]][:1]
        raise Bad('%s: the effects differ from those of the specification%s' % (what, ': %s instead of %s' % (ca[max(0, i[0] - 3):i[0] + 2], cb[max(0, i[0] - 3):i[0] + 2]) if i else ''))


def show(o):
    return 'raises %s: %s' % (type(o[1]).__name__, o[1]) if o[0] == 'raise' else repr(o[1])[:300]
