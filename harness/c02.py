"""C02 the line format: text -> rows."""
from common import *
from metatab.rowgen import TextRowGenerator

RULE = 'random texts of up to 10 lines: comments, section rules, terms with pipe separated columns, escaped pipes, colons inside values, blank lines, surrounding whitespace, terms without a value'


def cell(rng):
    v = value(rng)
    r = rng.random()
    if r < 0.15:
        v = v + ':' + word(rng)
    if r > 0.85:
        v = v[:1] + '|' + v[1:]
    v = v.strip()
    return v if not v.endswith('\\') else v + 'x'


def gen(rng):
    lines = []
    for _ in range(rng.randint(0, 10)):
        r = rng.random()
        ws = lambda: rng.choice(['', '', ' ', '   ', '\t'])
        if r < 0.1:
            lines.append(['c', ws() + '#' + cell(rng)])
        elif r < 0.18:
            lines.append(['b', ws()])
        elif r < 0.3:
            lines.append(['s', '=' * rng.randint(4, 9), ws() + section_name(rng), [ws() + cell(rng) for _ in range(rng.choice([0, 0, 1, 3]))]])
        elif r < 0.37:
            lines.append(['n', ws() + rng.choice(['', '.']) + name(rng) + ws()])
        else:
            lines.append(['t', ws() + rng.choice(['', '.', 'Root.', '', '.', rng.choice(['=', '==', '=== ', ' ====']) if rng.random() < 0.1 else '']) + name(rng) + ws(), [ws() + cell(rng) for _ in range(rng.choice([1, 1, 1, 2, 4]))]])
    return {'lines': lines, 'nl': rng.choice(['\n', '\n', '\r\n', '\r']), 'end': rng.random() < 0.5, 'sp': rng.random() < 0.8, 'src': rng.choice(['text'] * 9 + ['name', 'path', 'file', 'io'])}


def valid(c):
    return all((len(l) == {'c': 2, 'b': 2, 'n': 2, 't': 3, 's': 4}[l[0]]) and not (l[0] == 't' and not l[2]) for l in c['lines'])


def sources(c, t, want):
    import io
    import pathlib
    import tempfile
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'doc.txt')
        with open(p, 'w', newline='') as f:
            f.write(t)
        k = c['src']
        if k == 'name':
            g = TextRowGenerator(p)
        elif k == 'path':
            g = TextRowGenerator(pathlib.Path(p))
        elif k == 'file':
            with open(p) as f:
                g = TextRowGenerator(f)
        else:
            g = TextRowGenerator(io.StringIO(t))
        eq([list(r) for r in g], want, 'rows of %r given as %s' % (t, k))
        eq([list(r) for r in g], want, 'rows of %r given as %s, read again' % (t, k))


def check(c):
    text, want = [], []
    for l in c['lines']:
        if l[0] == 'c':
            text.append(l[1])
        elif l[0] == 'b':
            text.append(l[1])
            want.append([''])
        elif l[0] == 'n':
            text.append(l[1])
            want.append([l[1].strip()])
        else:
            esc = [x.replace('|', '\\|') for x in l[-1]]
            if l[0] == 's':
                text.append(l[1] + (' ' if c.get('sp', True) else '') + '|'.join([l[2]] + esc))
                row = ['Section', l[2]] + l[3]
            else:
                text.append(l[1] + ':' + '|'.join(esc))
                row = [l[1].strip()] + l[2]
            want.append([row[0]] + [x.strip() for x in row[1:]])
    t = c['nl'].join(text) + (c['nl'] if c['end'] and text else '')
    if any(x.startswith('====') for l, x in zip(c['lines'], text) if l[0] == 't') or not c.get('sp', True) and any(l[0] == 's' and l[2].startswith('=') for l in c['lines']):
        return
    if not t.strip() or '\n' not in t:
        t = t + '\n#\n'
    got = [[str(e).strip() for e in r] for r in TextRowGenerator(t)]
    if not text:
        want = [r for r in want if r != ['']]
        got = [r for r in got if r != ['']]
    eq([r for r in got if r != ['']], [r for r in want if r != ['']], 'rows of %r' % t)
    if c.get('src', 'text') != 'text':
        sources(c, t, [list(r) for r in TextRowGenerator(t)])
    # read a second time: the same rows
    g = TextRowGenerator(t)
    eq([list(r) for r in g], [list(r) for r in g], 'second reading of %r' % t)
    # the document read from the text is the document read from the rows
    from docs import doc_tree
    from metatab import MetatabDoc, ParserError
    rows = [r for r in want]
    if any(r[0].lower() == 'section' and not (len(r) > 1 and r[1]) for r in rows):
        return
    a = b = None
    try:
        a = doc_tree(mkdoc(rows))
    except (ParserError, ValueError, TypeError):
        a = None
    try:
        b = doc_tree(MetatabDoc(TextRowGenerator(t)))
    except (ParserError, ValueError, TypeError):
        b = None
    eq(b, a, 'document of %r' % t)
