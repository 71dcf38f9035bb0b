"""C14 conversion to a datapackage."""
from docs import *

RULE = 'random documents with tables, columns and data files (names, tables and types present, absent, unknown or repeated), converted and compared with a reference conversion'
TYPES = ['int', 'float', 'str', 'text', 'unicode', 'date', 'bool', '', 'INT', 'number'] + [s for s in HOT_S if s.isalpha()]
TM = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}


def gen(rng):
    tabs = [rng.choice(['t1', 't2', 'People', 'a b', value(rng)]) for _ in range(rng.randint(0, 3))]
    tabs = list(dict.fromkeys(tabs))
    tables = []
    for t in tabs:
        cols = [[rng.choice(['id', 'name', 'age', 'title', 'Größe', value(rng)]), rng.choice(TYPES), rng.choice(['', '', 'Some text', 'id', value(rng)]), rng.choice(['', '', 'A Title', 'Some text', 'id'])] for _ in range(rng.randint(0, 4) if rng.random() < 0.15 else rng.randint(1, 4))]
        tables.append([t, cols])
    res = []
    for _ in range(rng.randint(0, 4)):
        res.append([rng.choice(['Datafile', 'Datafile', 'Datafile', 'Reference']), 'http://example.com/' + word(rng), rng.choice(tabs + ['nope', word(rng)]), rng.choice(tabs + ['', 'nope']), rng.choice(['', 'Res Title'])])
    root = [['Title', value(rng)]]
    if rng.random() < 0.7:
        root.append(['Name', value(rng) if rng.random() < 0.85 else ''])
    if rng.random() < 0.5:
        root.append(['Identifier', value(rng) if rng.random() < 0.85 else ''])
    return {'root': root, 'tables': tables, 'res': res, 'identity': [['Name', value(rng)]] if rng.random() < 0.15 else [], 'schema': rng.random() < 0.95,
            'form': rng.choice(['rows', 'rows', 'rows', 'lines', 'edit'])}


def valid(c):
    return {'root', 'tables', 'res', 'identity', 'schema'} <= set(c) and all(len(r) == 5 for r in c['res']) and all(len(r) == 2 for r in c['root'] + c['identity']) and \
        all(len(t) == 2 and all(len(x) == 4 for x in t[1]) for t in c['tables']) and all(len(x) == 4 for t in c['tables'] for x in t[1])


def build(c, rows):
    """The document: from rows, from its lines (where properties are rows of their own), or by editing."""
    from metatab import MetatabDoc
    from metatab.rowgen import TextRowGenerator
    if c.get('form') == 'lines':
        out, cols = [], []
        for r in rows:
            if r[0] == 'Section':
                cols = r[2:]
                out.append('Section: ' + '|'.join(r[1:]))
            else:
                out.append('%s: %s' % (r[0], r[1].replace('|', '\\|')))
                out += ['    .%s: %s' % (k, v.replace('|', '\\|')) for k, v in zip(cols, r[2:]) if v]
        return MetatabDoc(TextRowGenerator('\n'.join(out)))
    if c.get('form') == 'edit':
        keep = [r for r in rows if r not in c['res']]
        doc = mkdoc(keep)
        for k, url, n, t, title in c['res']:
            doc['Resources'].new_term('Root.' + k, url, **{a: b for a, b in (('Name', n), ('Table', t), ('Title', title)) if b})
        return doc
    return mkdoc(rows)


def check(c):
    from metatab import MetatabDoc
    from metatab.exc import ConversionError
    from metatab.datapackage import convert_to_datapackage
    rows = [['Declare', 'metatab-latest']] + c['root']
    if c['identity']:
        rows += [['Section', 'Identity']] + c['identity']
    rows += [['Section', 'Resources', 'Name', 'Table', 'Title']] + c['res']
    if c['schema']:
        rows += [['Section', 'Schema', 'Datatype', 'Description', 'Title']]
        for t, cols in c['tables']:
            rows.append(['Table', t])
            rows += [['Table.Column'] + x for x in cols]
    doc = build(c, rows)
    before = doc_tree(doc, True)
    d = {k.lower(): v or None for k, v in c['root'] + c['identity']}
    bad = not (d.get('name') or d.get('identifier')) or not c['schema'] or any(not cols for _, cols in c['tables'])
    try:
        dp = convert_to_datapackage(doc)
    except ConversionError:
        need(bad, 'ConversionError')
        return
    need(not bad, 'no ConversionError for a document without a name or schema')
    for k, v in d.items():
        if k != 'name':
            eq(dp.get(k), v, k)
    eq(dp['name'], d.get('name') or d.get('identifier'), 'name')
    tabs = {t: cols for t, cols in c['tables']}
    want = []
    for k, url, n, t, _ in c['res']:
        if k == 'Datafile' and (n in tabs or t in tabs):
            fields = []
            for x in tabs[n if n in tabs else t]:
                f = {'name': x[0]}
                if x[3]:
                    f['title'] = x[3]
                if x[2]:
                    f['description'] = x[2]
                f['type'] = TM.get(x[1], x[1] or None)
                fields.append(f)
            want.append({'path': url, 'name': n, 'schema': {'fields': fields}})
    eq(dp['resources'], want, 'resources')
    need(doc_tree(doc, True) == before, 'conversion changed the document')
