"""C12 file output: written files hold the document, guards refuse wrong targets, creation never overwrites."""
import csv
import io
import tempfile
from pathlib import Path
from c09 import tree
from docs import *

RULE = 'random documents written to new and existing scratch files with right and wrong extensions and URLs, through every write method and the create command, with all files of the scratch directory compared before and after'


def gen(rng):
    rows = gen_rows(rng, rng.randint(1, 7), headers=0, args_on_root=0, ragged=False, clash=False)
    rows = [r for r in rows if not (r and r[0] and r[0].strip().lower() in ('name', 'dataset', 'version', 'identifier', 'root.name', 'root.version'))]
    ops = []
    for _ in range(rng.randint(1, 4)):
        e = rng.choice(['.csv', '.csv', '.txt', '.txt', '.CSV', '.json', '', '.cs', '.text', '.csv.txt', '.txt.csv', '.xlsx', '.Txt', '.csvx'])
        ops.append({'op': rng.choice(['csv', 'lines', 'write', 'create', 'edit', 'url', 'inplace', 'strpath']), 'f': rng.choice(['a', 'b', 'my doc', 'x.y', 'ü', 'new/a', 'new/sub/b']) + e, 'pre': rng.random() < 0.4, 'pc': rng.choice(['', 'precious: data', '\n', 'Title,x\n', ' ']),
                    'v': value(rng)})
    return {'rows': [['Title', 'T']] + ([['Name', 'Some Name']] if rng.random() < 0.5 else []) + ([['Identifier', 'abc-1']] if rng.random() < 0.5 else []) + rows, 'ops': ops}


def valid(c):
    try:
        refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows']) and all({'op', 'f', 'pre', 'v'} <= set(o) for o in c['ops'])


def files(d):
    return {str(p.relative_to(d)): p.read_bytes() if p.is_file() else None for p in Path(d).rglob('*')}


def check(c):
    from metatab import MetatabDoc, MetatabError, ParserError, FormatError, parse_app_url
    from metatab.rowgen import TextRowGenerator
    from metatab.cli import new_metatab_file
    try:
        doc = mkdoc(c['rows'])
    except ParserError:
        return
    with tempfile.TemporaryDirectory() as d:
        for o in c['ops']:
            p = Path(d) / o['f']
            k = o['op']
            if '/' in o['f'] and (p.suffix in ('.csv', '.txt') or k not in ('csv', 'lines', 'write', 'strpath')):
                continue
            if o['pre'] and '/' not in o['f']:
                p.write_bytes(o.get('pc', 'precious: data').encode('utf8'))
            before = files(d)
            if k == 'edit':
                doc['Root'].new_term('Edited', o['v'])
                continue
            if k == 'url':
                for m in (doc.write_csv, doc.write_lines, doc.write):
                    try:
                        m('http://example.com/' + o['f'].replace(' ', '_'))
                        need(False, 'writing to a URL does not fail')
                    except MetatabError:
                        pass
                need(files(d) == before, 'files changed')
                continue
            if k == 'create':
                made = new_metatab_file(str(p), None) if o['f'].endswith('.csv') or p.exists() else None
                if made is None:
                    continue
                after = files(d)
                if o['f'] in before:
                    need(made is False and after == before, 'creating %r changed an existing file (%r)', o['f'], made)
                else:
                    need(made is True and set(after) == set(before) | {o['f']}, 'creating %r', o['f'])
                    need(all(after[x] == before[x] for x in before), 'other files changed')
                    t = MetatabDoc(str(p))
                    need(t.find_first_value('Root.Identifier') and len(t.terms) > 1, 'new file is empty')
                continue
            if k == 'inplace':
                src = Path(d) / ('in' + ('.txt' if o['f'].endswith('.txt') else '.csv'))
                (doc.write_lines if src.suffix == '.txt' else doc.write_csv)(src)
                before = files(d)
                q = MetatabDoc(parse_app_url(str(src), proto='metatab'))
                q['Root'].new_term('Inplace', o['v'])
                [q.write_csv, q.write_lines][src.suffix == '.txt']() if o['pre'] else q.write()
                after = files(d)
                need(all(after[x] == before[x] for x in before if x != src.name) and set(after) == set(before), 'other files changed')
                content(after[src.name], q, src.suffix)
                need(MetatabDoc(parse_app_url(str(src), proto='metatab')).find_first_value('Root.Inplace') == o['v'], 'the edit was not written')
                continue
            arg = str(p) if k == 'strpath' else p
            m, ext = {'csv': (doc.write_csv, '.csv'), 'lines': (doc.write_lines, '.txt'), 'write': (doc.write, p.suffix), 'strpath': (doc.write_csv, '.csv')}[k]
            ok = p.suffix == ext and ext in ('.csv', '.txt')
            try:
                r = m(arg)
                need(ok, '%s(%r) does not fail', k, o['f'])
            except MetatabError:
                need(not ok, '%s(%r) fails', k, o['f'])
                need(files(d) == before, 'a refused write changed files')
                continue
            after = files(d)
            need(set(after) == set(before) | {o['f']} and all(after[x] == before[x] for x in before if x != o['f']), 'files after %s(%r): %r', k, o['f'], sorted(after))
            if k != 'write':
                eq(str(r), str(p), 'returned path')
            content(after[o['f']], doc, ext)
            t = doc.find_first('Root.Title')
            if t is not None and t.value:      # another document of the same size over it
                t.value = t.value[:-1] + ('a' if t.value[-1:] != 'a' else 'b')
                m(arg)
                content(files(d)[o['f']], doc, ext)
            need(doc.find_first_value('Root.Identifier', section='Root'), 'no identifier')


def content(data, doc, ext):
    from metatab.rowgen import TextRowGenerator
    from metatab import MetatabDoc
    text = data.decode('utf8')
    eq(text, doc.as_csv() if ext == '.csv' else doc.as_lines(), 'content of the file')
    want = tree(doc)
    if want is not None:
        got = tree(mkdoc(list(csv.reader(io.StringIO(text)))) if ext == '.csv' else MetatabDoc(TextRowGenerator(text)))
        eq(got, want, 'document read from the file')
