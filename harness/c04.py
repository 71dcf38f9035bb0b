"""C04 searches."""
from docs import *

RULE = 'random documents, searched by qualified, unqualified, wildcard and list patterns, values, sections, section lists and property values drawn from and near the content of the document'


def gen(rng):
    names = [name(rng) for _ in range(4)]
    vals = [value(rng) for _ in range(3)]
    rows = gen_rows(rng, rng.randint(2, 16), headers=rng.choice([0, 0, 0.08]), names=names, cells=lambda: rng.choice(vals))
    secs = [r[1] for r in rows if r and r[0] and r[0].strip().lower() == 'section'] + ['Root']
    qs = []
    for _ in range(rng.randint(3, 10)):
        pat = lambda: mixcase(rng, rng.choice([rng.choice(names), 'Root.' + rng.choice(names), rng.choice(names) + '.' + rng.choice(names), '*.' + rng.choice(names),
                                               'Root.*', '*.*', rng.choice(names) + '.*', 'nothing', rng.choice(names) + 'x', '*.nothing']))
        q = {'term': pat() if rng.random() < 0.8 else [pat() for _ in range(rng.randint(1, 3))]}
        if rng.random() < 0.4:
            q['value'] = rng.choice(vals + ['zzz', '', None])
        if rng.random() < 0.4:
            sec = lambda: mixcase(rng, rng.choice(secs + ['Nosuch', rng.choice(secs)[:-1] or 'x', rng.choice(secs) + 's']))
            q['section'] = sec() if rng.random() < 0.7 else [sec() for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.25 and '*.' not in str(q['term']):
            q['props'] = {rng.choice(names).lower().replace(' ', '_'): rng.choice(vals + ['zzz', None]) for _ in range(rng.randint(1, 2))}
            q['props'] = {k: v for k, v in q['props'].items() if k.isidentifier() and k not in ('term', 'value', 'section')}
        qs.append(q)
    eds = [{'op': rng.choice(['new', 'kid', 'value', 'remove', 'rmkid', 'move']), 't': rng.randint(0, 20), 's': rng.choice(secs), 'n': rng.choice(names), 'v': rng.choice(vals)} for _ in range(rng.choice([0, 0, 1, 3]))]
    return {'rows': rows, 'qs': qs, 'eds': eds}


def valid(c):
    try:
        refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows']) and all('term' in q for q in c['qs'])


def match(t, pat):
    p, r = nameparts(pat)
    return (p == '*' or p == t.parent_term) and (r == '*' or r == t.record_term)


def all_of(doc):
    """(term, section name or None) for every term, in document order."""
    out = []
    for s in doc:
        if s.name != 'Root':
            out.append((s, None))
        for t in s:
            for x in walk([t]):
                out.append((x, s.name))
    return out


def prop(t, k):
    """Value of the property k of a term: the term's own value for its value name, else the first such child's value."""
    if k.lower() == t.term_value_name.lower():
        return t.value
    for c in t.children:
        if c.record_term.lower() == k.lower():
            return c.value
    return None


def expected(doc, q, edited=False):
    pats = q['term'] if isinstance(q['term'], list) else [q['term']]
    out = []
    for pat in pats:
        p, _ = nameparts(pat)
        terms = all_of(doc)
        if p == 'root':     # root level terms come in the order they were read, all others section by section
            terms = [x for x in terms if x[1] is not None and x[0].parent_term == 'root']
            pos = {id(t): i for i, t in enumerate(doc.terms)}
            terms = sorted(terms, key=lambda x: pos.get(id(x[0]), -1) if edited else x[0].row)
        for t, s in terms:
            if s is None and (p == 'root' or q.get('props')):
                continue
            if not match(t, pat):
                continue
            if 'value' in q and t.value != q['value']:
                continue
            if 'section' in q and (s is None or s.lower() not in [x.lower() for x in ([q['section']] if isinstance(q['section'], str) else q['section'])]):
                continue
            if not all(prop(t, k) == v for k, v in (q.get('props') or {}).items()):
                continue
            out.append(t)
    return out


def check(c):
    try:
        doc = mkdoc(c['rows'])
    except Exception as e:
        from metatab import ParserError
        if isinstance(e, ParserError):
            return
        raise
    search(doc, c['qs'])
    for o in c.get('eds') or []:
        ts = [t for s in doc for t in walk(list(s))]
        k, t = o['op'], ts[o['t'] % len(ts)] if ts else None
        if k == 'new':
            doc.get_or_new_section(o['s']).new_term(o['n'], o['v'])
        elif t is None:
            continue
        elif k == 'kid':
            t.new_child(o['n'], o['v'])
        elif k == 'value':
            t.value = o['v']
        elif k in ('remove', 'move') and t.parent_term == 'root':
            t.section.remove_term(t) if k == 'remove' else doc.get_or_new_section(o['s']).add_term(t)
        elif k == 'rmkid' and t.children:
            t.remove_child(t.children[0])
    if c.get('eds'):
        search(doc, c['qs'], True)


def search(doc, qs, edited=False):
    for q in qs:
        kw = {k: q[k] for k in ('value', 'section') if k in q}
        kw.update(q.get('props') or {})
        want = expected(doc, q, edited)
        got = doc.find(q['term'], **kw)
        eq([(t.join, t.value, t.row, t.col) for t in got], [(t.join, t.value, t.row, t.col) for t in want], 'find(%r)' % q)
        need([id(t) for t in got] == [id(t) for t in want], 'find(%r) returns other objects', q)
        f = doc.find_first(q['term'], **kw)
        need(f is (want[0] if want else None), 'find_first(%r) = %r', q, f)
        eq(doc.find_first_value(q['term'], **kw), want[0].value if want else None, 'find_first_value(%r)' % q)
        if not isinstance(q['term'], list) and not kw:
            need(doc.get(q['term'], 'dflt') is (want[0] if want else 'dflt'), 'get(%r)', q)
        if not isinstance(q['term'], list) and not q.get('props') and 'value' not in kw:
            eq(doc.get_value(q['term'], 'dflt', **kw), want[0].value if want else 'dflt', 'get_value(%r)' % q)
        if isinstance(q.get('section'), list):
            need([id(t) for t in doc.find(q['term'], **dict(kw, section=tuple(q['section'])))] == [id(t) for t in want], 'find(%r) in a tuple of sections', q)
        elif 'section' in q and q['section'] in doc and not q.get('props') and not isinstance(q['term'], list):
            s = doc[q['section']]
            k2 = {'value': q['value']} if 'value' in q else {}
            need([id(t) for t in s.find(q['term'], **k2)] == [id(t) for t in want], 'section find(%r)', q)
            need(s.find_first(q['term'], **k2) is (want[0] if want else None), 'section find_first(%r)', q)
            need(s.get_term(q['term'], **k2) is (want[0] if want else None), 'section get_term(%r)', q)
            eq(s.find_first_value(q['term'], **k2), want[0].value if want else None, 'section find_first_value(%r)' % q)
    # searches that name the children of one term
    for s in doc:
        for t in walk(list(s)):
            names = {x.record_term for x in t.children} | {'nosuch'}
            for n in names:
                want = [x for x in t.children if x.record_term == n]
                for pat in (n, n.upper() if n.upper().lower() == n else n, t.record_term + '.' + n):
                    need([id(x) for x in t.find(pat)] == [id(x) for x in want], 'Term.find(%r) of %s', pat, t.join)
                    need(t.find_first(pat) is (want[0] if want else None), 'Term.find_first(%r) of %s', pat, t.join)
                    eq(t.find_first_value(pat), want[0].value if want else None, 'Term.find_first_value')
                for v in {x.value for x in want} | {'zzz'}:
                    w2 = [x for x in want if x.value == v]
                    need([id(x) for x in t.find(n, value=v)] == [id(x) for x in w2], 'Term.find(%r, value=%r)', n, v)
                    need(t.find_first(n, value=v) is (w2[0] if w2 else None), 'Term.find_first(%r, value=%r)', n, v)
            need([id(x) for x in t.descendents] == [id(x) for x in walk(t.children)], 'descendents of %s', t.join)
    need([id(t) for t in doc.all_terms] == [id(t) for t, _ in all_of(doc)], 'all_terms')
