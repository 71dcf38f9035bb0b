"""C05 property access: reads see exactly the last writes, and a write changes nothing else."""
from docs import *

RULE = 'random documents and random histories of item, attribute, get-or-create, new-child and remove operations on random terms, compared after every step with a plain tree'
PROPS = ['Alpha', 'beta', 'GAMMA', 'Delta One', 'note', 'Title', 'Url', 'Description', 'Schema', 'Name', 'alt_name', 'Valueish', 'termx'] + \
        [n for n in HOT_NAMES if n.replace('_', 'a').isalnum()]
COMMON = ['url', 'name', 'description', 'schema']


def attr_ok(n):
    from metatab.terms import Term
    return n.isidentifier() and not hasattr(Term, n) and not hasattr(Term, n.lower()) and n.lower() not in (
        'parent', 'args', 'doc', 'file_name', 'file_type', 'row', 'col', 'valid', 'options', 'children', 'parent_term', 'record_term', 'term_value_name',
        'child_property_type', 'value', 'terms', 'section') and not n.startswith('_')


def pname(rng):
    n = rng.choice(PROPS)
    return mixcase(rng, n) if rng.random() < 0.5 else n


def gen(rng):
    cols = unique([rng.choice(PROPS) for _ in range(rng.randint(0, 4))])
    rows = [['Section', 'Resources'] + cols]
    if rng.random() < 0.4:
        rows.append(['Header', rng.choice(['Label', 'label', 'Main Label', 'VAL'])] + cols)
    for i in range(rng.randint(1, 3)):
        rows.append(['Datafile', 'v%d' % i] + [value(rng) for _ in range(rng.randint(0, len(cols)))])
        for _ in range(rng.randint(0, 3)):
            rows.append(['Datafile.' + rng.choice(PROPS), value(rng)] + ([value(rng) for _ in cols] if rng.random() < 0.3 else []))
            if rng.random() < 0.3:
                rows.append(['.' + rng.choice(PROPS), value(rng)])
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(['set', 'set', 'set', 'del', 'attr', 'attr', 'new', 'gon', 'gonv', 'remove', 'setval', 'setval', 'setvattr', 'newp', 'gonp', 'newq'])
        o = {'op': k, 't': rng.randint(0, 30), 'n': pname(rng), 'v': value(rng) if rng.random() < 0.9 else ''}
        if k == 'attr':
            o['n'] = rng.choice([c for c in cols if attr_ok(c)] or ['name'])
        if k in ('newp', 'gonp'):
            o['p'] = {rng.choice(['alpha', 'beta', 'note', 'Gamma']): value(rng) for _ in range(rng.randint(1, 2))}
        if k == 'setval':
            o['n'] = rng.choice(['value', 'Value', 'VALUE', '@', '@', '@l', '@u', '@t'])
        ops.append(o)
    return {'rows': rows, 'ops': ops}


def valid(c):
    return bool(c['rows']) and len(c['rows'][0]) > 1 and c['rows'][0][:2] == ['Section', 'Resources'] and all(len(r) > 1 for r in c['rows']) and len(c['rows']) > 1 and \
        'Datafile' in (c['rows'][1][0], c['rows'][-1][0], (c['rows'] + [['']])[2][0]) and c['rows'][1][0] in ('Datafile', 'Header') and (c['rows'][1][0] != 'Header' or c['rows'][2][0] == 'Datafile' and c['rows'][1][1]) and all({'op', 't', 'n', 'v'} <= set(o) for o in c['ops'])


class M:
    """Plain tree of one term."""
    def __init__(self, rec, v):
        self.rec, self.v, self.ch, self.args = rec, v, [], []

    def first(self, n):
        for c in self.ch:
            if c.rec == n.lower():
                return c


def model(t):
    m = M(t.record_term, t.value)
    m.args = list(t.args)
    m.ch = [model(c) for c in t.children]
    return m


def pairs(m, t, out):
    out.append((m, t))
    need(len(m.ch) == len(t.children), 'children of %s: %r, expected %r', t.join, [(c.record_term, c.value) for c in t.children], [(c.rec, c.v) for c in m.ch])
    for a, b in zip(m.ch, t.children):
        pairs(a, b, out)
    return out


def verify(roots, doc, touched=None):
    ps = []
    for m, t in roots:
        pairs(m, t, ps)
    for m, t in ps:
        eq(t.record_term, m.rec, 'name')
        eq(t.value or None, m.v or None, 'value of ' + m.rec)
        need(t.doc is doc, 'document of %s', m.rec)
        need(t.section is doc['Resources'], 'section of %s', m.rec)
        for c in t.children:
            need(c.parent is t, 'parent of %s', c.join)
            eq(c.parent_term, t.record_term, 'parent name of ' + c.record_term)
        eq({a: b or None for a, b in t.props.items()}, {c.rec: c.v or None for c in m.ch}, 'props of ' + m.rec)
        w = dict(zip([str(x).lower() for x in doc['Resources'].property_names], m.args))
        w[t.term_value_name.lower()] = m.v or None
        eq({a: b or None for a, b in t.arg_props.items()}, {a: b or None for a, b in w.items()}, 'arg_props of ' + m.rec)
        w.update({c.rec: c.v for c in m.ch})
        eq({a: b or None for a, b in t.all_props.items()}, {a: b or None for a, b in w.items()}, 'all_props of ' + m.rec)
        if touched is not None and m is not touched:
            continue
        for n in ['alpha', 'beta', 'Gamma', 'note', 'NAME', 'url', 'zzz', 'delta one', 'description']:
            f = m.first(n)
            need((n in t) == (f is not None or n.lower() in COMMON), '%r in %s', n, m.rec)
            if f is None:
                try:
                    t[n]
                    need(False, '%s[%r] does not raise KeyError', m.rec, n)
                except KeyError:
                    pass
                need(t.get(n) is None and t.get(n, 'd') == 'd' and t.get_value(n, 'd') == 'd', 'get(%r)', n)
                if attr_ok(n):
                    if n.lower() in COMMON:
                        need(getattr(t, n) is None, 'attribute %r', n)
                    else:
                        need(not hasattr(t, n), 'attribute %r of %s', n, m.rec)
            else:
                i = m.ch.index(f)
                need(t[n] is t.children[i], 'item %r', n)
                need(t.get(n) is t.children[i], 'get(%r)', n)
                eq(t.get_value(n, 'd') or None, f.v or None, 'get_value(%r)' % n)
                if attr_ok(n):
                    eq(getattr(t, n) or None, f.v or None, 'attribute %r' % n)
                    eq(getattr(t, n.upper()) or None, f.v or None, 'attribute %r' % n.upper())
        vn = t.term_value_name
        for n in (vn, vn.lower(), vn.upper(), vn.title()):
            need(t[n] is t, 'item %r is not the term', n)
            eq(t.get_value(n) or None, m.v or None, 'get_value(%r)' % n)
            if n.isidentifier():
                eq(getattr(t, n) or None, m.v or None, 'attribute %r' % n)
        need('value' in t, "'value' in term")
    return ps


def check(c):
    doc = mkdoc(c['rows'])
    roots = [(model(t), t) for t in doc['Resources']]
    cols = [x.lower() for x in doc['Resources'].property_names]
    ps = verify(roots, doc)
    for o in c['ops']:
        m, t = ps[o['t'] % len(ps)]
        k, n, v = o['op'], o['n'], o['v']
        if k == 'set' or k == 'attr' and n.lower() in cols and attr_ok(n):
            if k == 'set':
                t[n] = v
            else:
                setattr(t, n, v)
            f = m.first(n)
            if f:
                f.v = v
            else:
                m.ch.append(M(n.lower(), v))
        elif k == 'del':
            t[n] = None
            f = m.first(n)
            if f:
                m.ch.remove(f)
        elif k in ('setval', 'setvattr'):
            vn = t.term_value_name
            n = {'@': vn, '@l': vn.lower(), '@u': vn.upper(), '@t': vn.title()}.get(n, n if k == 'setval' else vn)
            if k == 'setval':
                t[n] = v
            elif n.isidentifier():
                setattr(t, n, v)
            else:
                continue
            m.v = v
        elif k in ('new', 'newp', 'newq'):
            r = t.new_child(m.rec + '.' + n if k == 'newq' else n, v, **o.get('p', {}))
            x = M(n.lower(), v)
            x.ch = [M(a.lower(), b) for a, b in o.get('p', {}).items()]
            m.ch.append(x)
            need(r is t.children[-1], 'new_child returns another term')
        elif k in ('gon', 'gonv', 'gonp'):
            kw = {a: b for a, b in o.get('p', {}).items()}
            f = m.first(n)
            if k == 'gonv' and f is None:
                continue       # unspecified: a new term needs a value
            r = t.get_or_new_child(n, *([] if k == 'gonv' else [v]), **kw)
            if f is None:
                f = M(n.lower(), v)
                m.ch.append(f)
            elif k != 'gonv':
                f.v = v
            for a, b in kw.items():
                g = f.first(a)
                if g:
                    g.v = b
                else:
                    f.ch.append(M(a.lower(), b))
            need(r is t.children[m.ch.index(f)], 'get_or_new_child returns another term')
        elif k == 'remove':
            if not m.ch:
                continue
            i = o['t'] % len(m.ch)
            t.remove_child(t.children[i])
            del m.ch[i]
        ps = verify(roots, doc, m)
        need([id(x) for x in doc['Resources']] == [id(t) for _, t in roots] and [id(x) for x in doc.terms if x.section.name != 'Root'] == [id(t) for _, t in roots],
             'top level terms changed')
    verify(roots, doc)
