"""C09 writing a document as rows, CSV text or lines and reading it back loses nothing."""
import atexit
import csv
import io
import shutil
import tempfile
from docs import *

RULE = 'random documents, then random edits, written as rows, CSV and line text, read back and compared section by section and term by term (order of the properties of a term aside)'


DECL = '''Section,DeclaredSections
DeclareSection,Resources,Name,Title,Url
DeclareSection,Schema,DataType,Description
Section,DeclaredTerms,TermValueName,ChildPropertyType,Section
DeclareTerm,Root.Datafile,URL,sequence,Resources
DeclareTerm,Root.Resource,url,,Resources
DeclareTerm,Datafile.Name,Title,scalar,Resources
DeclareTerm,Root.Table,Name,sequence,Schema
DeclareTerm,Table.Column,Name,sequence,Schema
DeclareTerm,Root.Foo,Foo Bar,scalar,
DeclareTerm,Root.Title,Description,scalar,
DeclareTerm,Foo.Note,BAR,sequence,
'''
_path = []


def decl():
    if not _path:
        d = tempfile.mkdtemp(prefix='c09_')
        atexit.register(shutil.rmtree, d, True)
        _path.append(os.path.join(d, 'decl.csv'))
        with open(_path[0], 'w') as f:
            f.write(DECL)
    return _path[0]


def gen(rng):
    rows = []
    for r in gen_rows(rng, rng.randint(1, 14), headers=0.02, args_on_root=0, ragged=False, clash=False):
        rows.append(r)
    ops = []
    for _ in range(rng.randint(0, 6)):
        k = rng.choice(['newterm', 'newchild', 'newchild', 'set', 'setvalue', 'addarg', 'rmarg', 'gon', 'clear', 'rename'])
        ops.append({'op': k, 's': rng.randint(0, 9), 't': rng.randint(0, 30), 'n': name(rng), 'v': value(rng), 'p': {name(rng): value(rng) for _ in range(rng.randint(0, 2))}})
    return {'rows': rows, 'ops': ops, 'decl': rng.random() < 0.4}


def valid(c):
    try:
        secs = refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows']) and all({'op', 's', 't', 'n', 'v', 'p'} <= set(o) for o in c['ops'])


def shape(t, up):
    """A term as nested lists, empty properties left out; None where the name of an ancestor is reused or a name is not usable."""
    kids = []
    up = up | {t.record_term_lc}
    for x in t.children:
        if x.record_term_lc in up or not ok_name(x.record_term):
            return None
        k = shape(x, up)
        if k is None:
            return None
        if k[1] or k[2]:
            kids.append(k)
    return [t.record_term_lc, t.value or '', sorted(kids)]


def tree(doc, root=False):
    out = []
    for s in doc:
        cols = [x.strip() for x in s.property_names]
        if '' in cols or len({x.lower() for x in cols}) != len(cols):
            return None
        ts = []
        for t in s:
            if t.join == 'root.declare':
                ts.append(t.value)
                continue
            if not ok_name(t.record_term):
                return None
            x = shape(t, {'root'})
            if x is None:
                return None
            ts.append(x)
        out.append([s.name, ts, cols if s.name != 'Root' or root else []])
    return out


def readback(rows):
    return mkdoc(rows)


def check(c):
    from metatab import ParserError
    from metatab.rowgen import TextRowGenerator
    from metatab import MetatabDoc
    try:
        doc = mkdoc(([['Declare', decl()]] if c.get('decl') else []) + c['rows'])
    except ParserError:
        return
    for o in c['ops']:
        secs = list(doc)
        s = secs[o['s'] % len(secs)]
        ts = [x for q in doc for x in walk(list(q)) if x.join != 'root.declare']
        t = ts[o['t'] % len(ts)] if ts else None
        k = o['op']
        if k == 'newterm':
            s.new_term(o['n'], o['v'], **o['p'])
        elif k in ('addarg', 'rmarg'):
            if not s.header_args:
                (s.add_arg if k == 'addarg' else s.remove_arg)(o['n'])
        elif t is None:
            continue
        elif k == 'newchild':
            t.new_child(o['n'], o['v'], **o['p'])
        elif k in ('set', 'gon'):
            t.get_or_new_child(o['n'], o['v'])
        elif k == 'setvalue':
            t.value = o['v']
        elif k == 'clear':
            t.value = None
    want = tree(doc)
    if want is None:
        return
    state = tree(doc)
    rows = [list(r) for r in doc.rows]
    want2 = tree(doc, True)
    got = tree(readback(rows), True)
    need(got == want2, 'rows: %r, read back: %r', want, got)
    text = doc.as_csv()
    got = tree(readback(list(csv.reader(io.StringIO(text)))), True)
    need(got == want2, 'csv: %r, read back: %r', want, got)
    lines = doc.as_lines()
    got = tree(MetatabDoc(TextRowGenerator(lines)))
    need(got == want, 'lines: %r, read back: %r', want, got)
    for s in doc:
        if s.name != 'Root':
            g = tree(MetatabDoc(TextRowGenerator(s.as_lines())))
            need([x for x in g if x[0] != 'Root'] == [x for x in want if x[0] == s.name], 'lines of section %s: %r', s.name, g)
    need(tree(doc) == state, 'writing changed the document')
    for s in list(doc)[-1:]:
        for t in [x for x in walk(list(s)) if x.join != 'root.declare'][-1:]:
            old, t.value = t.value, 'changed since'
            need('changed since' in doc.as_csv() and 'changed since' in doc.as_lines() and any('changed since' in map(str, r) for r in list(doc.rows)), 'an edit after writing is not written')
            t.value = old
    need([list(r) for r in doc.rows] == rows and doc.as_csv() == text and doc.as_lines() == lines, 'writing twice differs')
