"""C08 conversion to plain data structures."""
from docs import *

RULE = 'random documents under declarations with every property type, converted whole, by section and by term, compared with a reference conversion; conversion is repeated and the document compared before and after'

TYPES = ['scalar', 'sequence', 'sconcat', 'bconcat', 'any', None]


def gen(rng):
    names = unique([name(rng) for _ in range(5)])
    rows = gen_rows(rng, rng.randint(1, 16), headers=0.02, names=names, deep=True, clash=False)
    recs = set()
    decl = {}
    for n in names:
        for p in ['root'] + names:
            if rng.random() < 0.4:
                d = {}
                t = rng.choice(TYPES)
                if t:
                    d['childpropertytype'] = t
                if rng.random() < 0.3:
                    d['termvaluename'] = rng.choice(['Name', 'label', 'Val Name'])
                decl[p.lower() + '.' + n.lower()] = d
    return {'rows': rows, 'decl': decl, 'rep': rng.random() < 0.8}


def valid(c):
    try:
        refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows'])


def conv(n, rep):
    if not n.children:
        return n.value
    d = {}
    for c in n.children:
        v, k, ty = conv(c, rep), c.rec, c.cpt
        if ty == 'scalar':
            d[k] = v
        elif ty == 'sequence':
            d[k] = d[k] + [v] if isinstance(d.get(k), list) else [v]
        elif ty in ('sconcat', 'bconcat'):
            if isinstance(v, dict) or not isinstance(d.get(k, ''), str):
                raise Skip
            v = v or ''
            if ty == 'sconcat':
                d[k] = d[k] + ' ' + v if k in d else v
            else:
                d[k] = d.get(k, '') + v
        elif k not in d:
            d[k] = v
        elif isinstance(d[k], list):
            d[k] = d[k] + [v]
        else:
            d[k] = [d[k], v]
    if n.value:
        k = n.tvn.lower() if rep else '@value'
        d[k] = n.value
    return d


class Skip(Exception):
    pass


def mixed(n):
    """Properties of one name with different types have no specified conversion."""
    by = {}
    for c in n.children:
        by.setdefault(c.rec, set()).add(c.cpt)
        if mixed(c):
            return True
    return any(len(x) > 1 for x in by.values())


def spoil(d):
    """What the caller does with the result is not the document's business."""
    if isinstance(d, dict):
        [spoil(x) for x in d.values()]
        d['spoilt'] = 1
    elif isinstance(d, list):
        [spoil(x) for x in d]
        d.append('spoilt')


def edit(n, t):
    """Append to a value somewhere below, in the document and in the reference."""
    while n.children and t.children:
        n, t = n.children[-1], t.children[-1]
    if n.value:
        n.value = t.value = n.value + '~'


def snap(doc):
    return [[s.name, list(s.args), [real_tree(t, True) for t in s], len(s.children), len(s.terms)] for s in doc] + [[id(t) for t in doc.terms]]


def check(c):
    from metatab import MetatabDoc, ParserError
    from metatab.rowgen import MetatabRowGenerator
    from metatab.terms import Term
    ref = refparse(c['rows'])
    try:
        doc = mkdoc(c['rows'])
    except ParserError:
        return
    # types and value names as declared
    todo = [(n, t) for s in ref.values() for n, t in zip(s.terms, list(doc[s.name]))]
    while todo:
        n, t = todo.pop()
        d = c['decl'].get(t.join, {})
        n.cpt = t.child_property_type = d.get('childpropertytype', 'any')
        n.tvn = t.term_value_name = d.get('termvaluename', '@value')
        todo += list(zip(n.children, t.children))
    rep = c['rep']
    before = snap(doc)
    root = Node('root', 'root', 'Root')
    root.children = [t for s in ref.values() for t in s.terms]
    try:
        for s in ref.values():
            for n, t in zip(s.terms, list(doc[s.name])):
                if not mixed(n):
                    w = conv(n, rep)
                    same(t.as_dict(rep), w, 'as_dict of ' + t.join)
                    spoil(t.as_dict(rep))
                    same(t.as_dict(rep), w, 'second as_dict of ' + t.join)
                    need(snap(doc) == before, 'conversion changed the document')
                    edit(n, t)
                    before = snap(doc)
                    w = conv(n, rep)
                    same(t.as_dict(rep), w, 'as_dict of %s after an edit' % t.join)
            sn = Node('section', 'root', s.name)
            sn.children = s.terms
            if not mixed(sn) and s.terms and s.name != 'Root':
                w = conv(sn, rep)
                g = doc[s.name].as_dict(rep)
                for x in (w, g):
                    [x.pop(k) for k in list(x) if k in ('@value', 'name') and x[k] == s.name]
                same(g, w, 'as_dict of section ' + s.name)
        if not mixed(root):
            if root.children:
                w = conv(root, rep)
                if rep:
                    w.pop('@value', None)
                g = doc.as_dict(rep)
                same(g, w, 'as_dict of the document')
                spoil(doc.as_dict(rep))
                same(doc.as_dict(rep), w, 'second as_dict of the document')
        if ref['root'].terms:
            rn = Node('root', 'root', 'Root')
            rn.children = ref['root'].terms
            if not mixed(rn):
                w = conv(rn, rep)
                if rep:
                    w.pop('@value', None)
                same(doc['root'].as_dict(rep), w, 'as_dict of the root section')
    except Skip:
        pass
    need(snap(doc) == before, 'conversion changed the document')


def plain(x):
    if isinstance(x, dict):
        return [[k, plain(v)] for k, v in x.items()]
    if isinstance(x, list):
        return ['list'] + [plain(v) for v in x]
    return x


def same(g, w, what):
    if plain(g) != plain(w):
        raise Bad('%s: got %r, expected %r' % (what, plain(g), plain(w)))
