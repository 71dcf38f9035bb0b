"""C13 includes and declarations found by name; failures contained as include errors."""
import csv
import tempfile
from docs import *

RULE = 'random trees of CSV files in several directories that include one another by relative path (shared files, missing files, direct and indirect loops), loaded and compared with the rows spliced in place'
FILES = ['a.csv', 'sub/b.csv', 'sub/c.csv', 'sub/deep/d.csv', 'other/e.csv', 'f.csv', 'sub/g.csv', 'other/h.csv']
MISSING = ['sub/missing.csv', 'sub', 'other/a-directory.csv', 'sub/' + 'n' * 300 + '.csv', 'a.csv/x.csv', 'no/such/dir.csv']


def gen(rng):
    fs = {}
    n = rng.randint(1, len(FILES))
    loop = rng.random() < 0.15
    chain = rng.random() < 0.15
    miss = rng.random() < 0.15
    names = [name(rng) for _ in range(3)]
    for i in range(n):
        rows = []
        if not i and rng.random() < 0.25:
            rows.append(['Header', rng.choice(['', name(rng)])] + unique([name(rng) for _ in range(rng.randint(1, 3))]))
        elif i or rng.random() < 0.4:
            rows.append(['Section', rng.choice(SECTIONS[:5])] + unique([name(rng) for _ in range(rng.randint(0, 3))]))
        for _ in range(rng.randint(0, 4)):
            r = rng.random()
            later = FILES[i + 1:n]
            if r < 0.35 and later:
                rows.append(['*', rng.choice(later)])
                rows.append([rng.choice(names), value(rng)])
            elif r < 0.42 and loop:
                rows.append(['*', rng.choice(FILES[:i + 1])])
            elif r < 0.49 and miss:
                rows.append(['*', rng.choice(MISSING)])
            elif r < 0.6:
                rows.append(['Section', rng.choice(SECTIONS[:5])])
            else:
                rows.append([rng.choice(['', 'Root.']) + rng.choice(names), value(rng)] + ([value(rng)] if rng.random() < 0.3 else []))
                if rng.random() < 0.3:
                    rows.append(['.' + name(rng), value(rng)])
        if chain and i + 1 < n:
            rows.append(['*', FILES[i + 1]])
        elif chain and loop:
            rows.append(['*', rng.choice(FILES[:n])])
        fs[FILES[i]] = rows
    return {'files': fs, 'case': rng.choice(['Include', 'include', 'INCLUDE']), 'dot': rng.random() < 0.3, 'mode': rng.choice(['inc'] * 6 + ['decl', 'nodecl'])}


def valid(c):
    if not {'files', 'case', 'dot', 'mode'} <= set(c) or 'a.csv' not in c['files']:
        return False
    for f, rows in c['files'].items():
        prev = None
        for r in rows:
            if len(r) < 2 or r[0].startswith('.') and (prev is None or prev[0] in ('*', 'Section', 'Header')):
                return False
            prev = r
        if any(r[0] == 'Header' for r in rows[1:]) or rows and rows[0][0] == 'Header' and f != 'a.csv':
            return False
        if f != 'a.csv' and (not rows or rows[0][0] != 'Section') and any(r[0] == '*' for r in rows):
            return False
    return True


def rel(frm, to, dot):
    r = os.path.relpath(to, os.path.dirname(frm) or '.')
    return './' + r if dot and not r.startswith('.') else r


class Broken(Exception):
    pass


def splice(c, f, stack, cur, head=None):
    """Rows of the file with the included files in place of the include rows."""
    out = []
    if f not in c['files']:
        raise Broken('missing', f)
    for r in c['files'][f]:
        if r[0] == 'Section':
            cur = r
        if r[0] == 'Header':
            head = r
        if r[0] != '*':
            out.append(r)
            continue
        t = r[1]
        if t in stack:
            raise Broken('loop', t)
        out.append([c['case'], rel(f, t, c['dot'])])
        out += splice(c, t, stack + [t], cur if f == 'a.csv' or cur is not None else None)
        if cur is not None:
            out.append(['Section', cur[1]])
        else:
            out.append(['Section', 'Root'])
            if head:
                out.append(head)
    return out


def check(c):
    from metatab import MetatabDoc, IncludeError, MetatabError
    with tempfile.TemporaryDirectory() as d:
        d = os.path.realpath(d)
        for f, rows in c['files'].items():
            p = os.path.join(d, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'w', newline='', encoding='utf8') as fh:
                w = csv.writer(fh)
                for r in rows:
                    w.writerow([c['case'], rel(f, r[1], c['dot'])] if r[0] == '*' else r)
        if c['files']:
            os.makedirs(os.path.join(d, 'other', 'a-directory.csv'), exist_ok=True)
            os.makedirs(os.path.join(d, 'sub'), exist_ok=True)
        if c['mode'] == 'decl':
            os.makedirs(os.path.join(d, 'q'), exist_ok=True)
            with open(os.path.join(d, 'q', 'mydecl.csv'), 'w') as fh:
                fh.write('Section,DeclaredSections\nDeclareSection,Stuff,Aaa,Bbb\nSection,DeclaredTerms,TermValueName,Section\nDeclareTerm,Root.Thing,Label,Stuff\n')
            with open(os.path.join(d, 'q', 'mydecl.csv.csv'), 'w') as fh:
                fh.write('Section,DeclaredSections\nDeclareSection,Stuff,Ccc\nSection,DeclaredTerms,TermValueName,Section\nDeclareTerm,Root.Thing,Wrong,Stuff\n')
            for nm in ('mydecl', 'mydecl.csv', os.path.join(d, 'q', 'mydecl.csv')):
                with open(os.path.join(d, 'q', 'main.csv'), 'w') as fh:
                    fh.write('Declare,%s\nThing,x\n' % nm)
                doc = MetatabDoc(os.path.join(d, 'q', 'main.csv'))
                eq(doc.decl_terms.get('root.thing', {}).get('termvaluename'), 'Label', 'declaration found by %r' % nm)
                eq(doc.decl_sections.get('stuff', {}).get('args'), ['Aaa', 'Bbb'], 'declaration found by %r' % nm)
                eq(doc.find_first('Root.Thing').term_value_name, 'Label', 'value name')
            return
        top = os.path.join(d, 'a.csv')
        if c['mode'] == 'nodecl':
            with open(top, 'w') as fh:
                fh.write('Title,x\nDeclare,no-such-declaration\n')
            try:
                MetatabDoc(top)
                need(False, 'a missing declaration is not an error')
            except IncludeError:
                pass
            return
        try:
            rows = splice(c, 'a.csv', ['a.csv'], None)
            want, why = refparse(rows), None
        except Broken as e:
            want, why = None, e.args
        try:
            doc = MetatabDoc(top)
        except IncludeError as e:
            need(want is None, 'IncludeError: %s', e)
            need(os.path.basename(why[1]) in str(e), 'the error does not name the file %r: %s', why[1], e)
            return
        need(want is not None, 'no error for %r', why)
        eq(doc_tree(doc), ref_tree(want), 'document with includes')
        doc2 = MetatabDoc(top)
        eq(doc_tree(doc2), doc_tree(doc), 'loading again')
