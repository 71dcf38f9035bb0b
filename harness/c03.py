"""C03 rows -> terms."""
from docs import *

RULE = 'random documents of up to 14 rows: sections with and without columns, repeated sections, headers, comments, blank rows and cells, qualified, unqualified and elided names, ragged argument cells'
FIXED = []


def gen(rng):
    rows = gen_rows(rng, args_none=True, far=rng.choice([0, 0.1]))
    c = {'rows': rows}
    if rng.random() < 0.15:      # a row that names a parent of another document
        pre = [r for r in gen_rows(rng) if not (r and r[0] and r[0].strip().startswith('.'))]
        names = [nameparts(r[0])[1] for r in pre if r and r[0] and r[0].strip() and not r[0].strip().startswith('#')]
        if names:
            c['pre'] = pre
            rows.insert(rng.randint(0, len(rows)), [rng.choice(names) + '.' + name(rng), 'x'])
    return c


def valid(c):
    rows = c['rows']
    try:
        refparse(rows)
    except KeyError as e:       # kept only with the other document that has the parent, so that the case stands alone
        if e.args[0] not in [nameparts(r[0])[1] for r in c.get('pre') or [] if r and r[0] and r[0].count('.') < 2]:
            return False
    except Exception:
        return False
    return not has_elided_args(rows)


def check(c):
    rows = c['rows']
    if c.get('pre'):
        from metatab import ParserError
        try:
            mkdoc(c['pre'])
        except ParserError:
            pass
    try:
        want = refparse(rows)
        bad = None
    except KeyError as e:
        bad = e
    if bad is not None:
        from metatab import ParserError
        try:
            mkdoc(rows)
        except ParserError:
            return
        raise Bad('a term whose parent %s does not occur is accepted' % bad)
    doc = mkdoc(rows)
    eq([s.name for s in doc], [s.name for s in want.values()], 'sections')
    for s, w in zip(doc, want.values()):
        eq([real_tree(t, True) for t in s], [t.tree(True) for t in w.terms], 'terms of section %r' % s.name)
        eq(list(s.args), list(w.args), 'columns of section %r' % s.name)
        eq(list(s.property_names), list(w.columns()), 'property names of section %r' % s.name)
    for s, w in zip(doc, want.values()):
        for t, n in zip(walk(list(s)), walk(w.terms)):
            eq(t.section.name, n.section.name, 'section of %s at row %s' % (t.join, t.row))
            eq(t.term_value_name, n.tvn, 'value name of %s' % t.join)
            eq(t.child_property_type, n.cpt, 'child property type of %s' % t.join)
    eq(sorted([t.row, t.join] for t in doc.terms), sorted([t.row, t.par + '.' + t.rec] for w in want.values() for t in w.terms), 'terms of the document')
    eq(len(list(doc.all_terms)), sum(1 for w in want.values() for _ in walk(w.terms)) + len(want) - 1, 'number of all terms')
    for s in doc:
        for t in s:
            for ch in walk(t.children):
                need(ch.parent is not None and any(x is ch for x in ch.parent.children), 'parent of %s', ch.join)
