"""C01 term names and patterns."""
from common import *
from metatab.terms import Term

RULE = 'random term names, qualified or not, with random case and surrounding whitespace, against patterns related and unrelated to them'
WS = ['', '', '', ' ', '  ', '\t', '\u00a0']


def part(rng):
    r = rng.random()
    if r < 0.1:
        return rng.choice(HOT_S) if HOT_S else word(rng)
    if r < 0.2:
        return word(rng) + rng.choice([' ', '  ', '\t', ' - ', '*', '  \u00a0']) + word(rng)
    return name(rng)


def clean(s):
    return s.replace('.', '').strip() or 'x'


def gen(rng):
    p, r = clean(part(rng)), clean(part(rng))
    kind = rng.choice(['q', 'q', 'u', 'e'])
    pad = lambda: rng.choice(WS)
    pats = []
    for _ in range(rng.randint(1, 4)):
        a = rng.choice(['*', p, r, 'root', clean(part(rng)), 'Root', p + 'x', p[:-1] or 'y', '*' + p, p + '*', 'x' + p])
        b = rng.choice(['*', p, r, clean(part(rng)), r + 'x', r[:-1] or 'y', 'root', '*' + r, r + '*', 'x' + r])
        a, b = mixcase(rng, a), mixcase(rng, b)
        pats.append(rng.choice([[a, b], [a, b], [None, b]]))
    return {'kind': kind, 'p': p, 'r': r, 'pad': [pad(), pad(), pad(), pad()], 'pats': pats, 'case': rng.random()}


def valid(c):
    return len(c['pad']) == 4 and all(len(p) == 2 for p in c['pats'])


def check(c):
    w = c['pad']
    p, r = c['p'], c['r']
    if c['kind'] == 'q':
        text, want = w[0] + p + w[1] + '.' + w[2] + r + w[3], (p, r)
    elif c['kind'] == 'e':
        text, want = '.' + w[2] + r + w[3], ('<elided_term>', r)
    else:
        text, want = w[0] + r + w[3], ('root', r)
    low = (want[0].lower(), want[1].lower())
    eq(tuple(Term.split_term(text)), want, 'split_term(%r)' % text)
    eq(tuple(Term.split_term_lower(text)), low, 'split_term_lower(%r)' % text)
    eq(Term.normalize_term(text), low[0] + '.' + low[1], 'normalize_term(%r)' % text)
    t = Term(text, 'v')
    eq((t.parent_term, t.record_term), low, 'names of Term(%r)' % text)
    eq((t.parent_term_lc, t.record_term_lc), low, 'lower case names of Term(%r)' % text)
    eq(t.join, '%s.%s' % low, 'join')
    eq(t.join_lc, '%s.%s' % low, 'join_lc')
    eq(bool(t.has_elided_parent), c['kind'] == 'e', 'has_elided_parent of %r' % text)
    any_ = False
    texts = []
    for a, b in c['pats']:
        pat = b if a is None else a + '.' + b
        texts.append(pat)
        a2 = ('root' if a is None else a).lower()
        m = (a2 == '*' or a2 == low[0]) and (b == '*' or b.lower() == low[1])
        any_ = any_ or m
        eq(t.term_is(pat), m, 'Term(%r).term_is(%r)' % (text, pat))
    eq(bool(t.term_is(texts)), any_, 'Term(%r).term_is(%r)' % (text, texts))
    eq(bool(t.term_is(tuple(texts))), any_, 'Term(%r).term_is(%r)' % (text, texts))
    if c['kind'] == 'u':
        par = Term('root.' + c['p'], 'pv')
        ch = Term(text, 'v', parent=par)
        eq((ch.parent_term, ch.record_term), (par.record_term, low[1]), 'names of a child')
        eq(ch.qualified_term, par.record_term_lc + '.' + low[1], 'qualified_term of a child')
        eq(t.qualified_term, 'root.' + low[1], 'qualified_term')
