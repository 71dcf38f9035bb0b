"""Shared parts of the concrete replay and search harness (runs the real code of /repo under CPython)."""
import ast
import json
import os
import sys

REPO = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, REPO)
sys.dont_write_bytecode = True


try:
    # Loading an entry point checks the requirements of its distribution every time; skipping that only saves time
    import pkg_resources
    pkg_resources.EntryPoint.require = lambda *a, **k: None
except Exception:
    pass


def constants(root):
    """String and integer literals of the package's current source (a fuzzing dictionary)."""
    strs, ints = set(), set()
    d = os.path.join(root, 'metatab')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.py'):
            continue
        with open(os.path.join(d, fn), encoding='utf8') as f:
            try:
                tree = ast.parse(f.read())
            except SyntaxError:
                continue
        docs = set()
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr):
                docs.add(id(n.body[0].value))
        for n in ast.walk(tree):
            if isinstance(n, ast.Constant) and id(n) not in docs:
                if isinstance(n.value, str) and 0 < len(n.value) <= 60:
                    strs.add(n.value)
                elif isinstance(n.value, int) and not isinstance(n.value, bool):
                    ints.add(n.value)
    return strs, ints


def hot():
    """Literals that the unchanged tree does not have: values a change might single out."""
    p = os.path.join(HERE, 'baseline_literals.json')
    base = json.load(open(p)) if os.path.exists(p) else {'strs': [], 'ints': []}
    s, i = constants(REPO)
    return sorted(s - set(base['strs'])), sorted(i - set(base['ints']))


HOT_S, HOT_I = hot()

NAMES = ['Name', 'Title', 'Description', 'Resource', 'Table', 'Column', 'Datafile', 'Reference', 'Note', 'Url', 'Version', 'Creator',
         'Email', 'Grain', 'Space', 'Time', 'Foo', 'BAR', 'baz', 'fooBar', 'Foo Bar', 'x', 'Q1', 'a-b', 'a_b', 'Überschrift', 'данные',
         'Org/Unit', 'Dist', 'value1', 'Rooted', 'Subroot', 'Sectional', 'Headers', 'Included', 'Termx', 'Synonymy', 'Fooroot']
SECTIONS = ['Resources', 'Schema', 'Contacts', 'References', 'Documentation', 'bibliography', 'SOURCES', 'Foo Section', 'Überblick', 'S1', 'Data']
VALUES = ['1', '0', 'a', 'Hello World', 'http://example.com/a.csv#frag', 'x y', 'None', 'False', '-', '3.14', "it's", '"q"', 'a,b', 'ünï', 'ß',
          'root.name', 'a.b.c', '@value', 'title', '201404', 'x' * 70, 'A', 'zz', '#tag', 'a: b', 'Σ', 'name', '00', '-1', '2nd', 'true', 'a;b', 'Root',
          'mailto:x@example.com', '100%', '{}', '{0}', '%s', '\\', 'a\\b', '*', '=x', '====', 'a|b', '|x|y|z|']
RESERVED = {'root', 'section', 'header', 'include', 'declare', 'declareterm', 'declaresection', 'declarevalueset', 'synonym', 'value', ''}


def is_int(s):
    try:
        int(s)
        return True
    except ValueError:
        return False


ALPHA = 'abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'


def word(rng, lo=1, hi=9):
    return ''.join(rng.choice(ALPHA) for _ in range(rng.randint(lo, hi)))


def ok_name(n):
    n2 = n.strip()
    return (n2 != '' and '.' not in n2 and ':' not in n2 and '|' not in n2 and '\n' not in n2 and '\r' not in n2 and not n2.startswith('#')
            and n2.lower() not in RESERVED and not is_int(n2) and n2.title().lower() == n2.lower() and '*' not in n2 and '<' not in n2
            and not n2.startswith('=') and n2.lower().strip() == n2.lower() and n2.isprintable() and len(n2.splitlines()) == 1)


HOT_NAMES = [x for s in HOT_S for x in ([s] + s.split('.')) if ok_name(x)]


def name(rng):
    r = rng.random()
    if HOT_NAMES and r < 0.25:
        n = rng.choice(HOT_NAMES)
    elif r < 0.8:
        n = rng.choice(NAMES)
    else:
        n = word(rng)
    for _ in range(20):
        if ok_name(n):
            break
        n = word(rng) + 'z'
    r = rng.random()
    return n.lower() if r < 0.2 else n.upper() if r < 0.3 and n.upper().lower() == n.lower() else n


def section_name(rng):
    r = rng.random()
    n = rng.choice(HOT_NAMES) if HOT_NAMES and r < 0.15 else rng.choice(SECTIONS) if r < 0.85 else word(rng) + 's'
    return n if n.lower() != 'root' and n.strip() else 'Resources'


def value(rng, single_line=True, nonempty=True, stripped=True):
    r = rng.random()
    if HOT_S and r < 0.15:
        v = rng.choice(HOT_S)
    elif HOT_I and r < 0.22:
        v = str(rng.choice(HOT_I) + rng.choice([-1, 0, 0, 1]))
    elif r < 0.7:
        v = rng.choice(VALUES)
    elif r < 0.85:
        v = ' '.join(word(rng) for _ in range(rng.randint(1, 4)))
    elif r < 0.93:
        v = str(rng.randint(-3, 300))
    else:
        v = ''.join(chr(rng.choice([rng.randint(33, 126), rng.randint(0xa1, 0x17f), rng.randint(0x400, 0x4ff), 0x1f600])) for _ in range(rng.randint(1, 8)))
    if single_line:
        v = ' '.join(v.splitlines())
    if stripped:
        v = v.strip()
    if nonempty and not v.strip():
        v = 'v'
    return v


def mixcase(rng, s):
    r = rng.random()
    t = s.lower() if r < 0.3 else s.upper() if r < 0.6 else s.title() if r < 0.8 else ''.join(c.upper() if rng.random() < 0.5 else c.lower() for c in s)
    return t if t.lower() == s.lower() else s


def mkdoc(rows, **kw):
    from metatab import MetatabDoc
    from metatab.rowgen import MetatabRowGenerator
    return MetatabDoc(MetatabRowGenerator([list(r) for r in rows]), **kw)


class Bad(Exception):
    """The property does not hold for the case."""


def need(c, msg, *a):
    if not c:
        raise Bad(msg % a if a else msg)


def eq(got, want, what):
    if got != want or type(got) is not type(want) and not (isinstance(got, (str, dict, list, tuple)) and isinstance(want, (str, dict, list, tuple))):
        raise Bad('%s: got %r, expected %r' % (what, got, want))
