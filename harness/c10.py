"""C10 identity: names, versions, identifiers, slugs."""
import re
from docs import *

RULE = 'random sets of identity terms (present, blank, absent, repeated outside the root section), plain and semantic versions, forced, removed, shifted and explicit versions, and random text for slugs'
PARTS = ['Origin', 'Dataset', 'Time', 'Space', 'Grain', 'Variant']


def gen(rng):
    rows = []
    for p in PARTS:
        if rng.random() < (0.85 if p == 'Dataset' else 0.5):
            rows.append([mixcase(rng, p), rng.choice(['', ' ', value(rng), 'a-b c', 'Foo_Bar', 'Ünï', '2010-2012', 'x', 'A.B'])])
    r = rng.random()
    if r < 0.35:
        rows.append(['Version', rng.choice(['1', '12', '0', 'abc', '1.2', '007', value(rng), '', '-3'])])
    elif r < 0.8:
        rows.append(['Version', rng.choice(['', 'zz'])])
        for k in ('Major', 'Minor', 'Patch') + (('Build',) if rng.random() < 0.4 else ()):
            if rng.random() < 0.93:
                rows.append(['Version.' + k, rng.choice(['0', '1', '2', '10', '99', '1', '7', rng.choice(['', '5'])])])
        # the version terms follow their parent
    vrows = [x for x in rows if x[0].lower().startswith('version')]
    rows = [x for x in rows if not x[0].lower().startswith('version')]
    rng.shuffle(rows)
    rows = rows + vrows if rng.random() < 0.5 else vrows + rows
    if rng.random() < 0.75:
        rows.append(['Name', rng.choice(['', 'old-name', 'Some Name!', value(rng)])])
    if rng.random() < 0.5:
        rows.append(['Identifier', rng.choice(['', 'abcd-ef', '3d4c'])])
    if rng.random() < 0.3:
        rows += [['Section', 'Other'], [rng.choice(PARTS), 'decoy'], ['Origin', 'decoy2']]
    ops = []
    for _ in range(rng.randint(1, 6)):
        ops.append(rng.choice([['as', '+1'], ['as', '-1'], ['as', '+'], ['as', '-'], ['as', '+7'], ['as', '-2'], ['as', None], ['as', '5'], ['as', 'beta'], ['as', False],
                               ['update'], ['force'], ['create'], ['cleanse'], ['updv'], ['mod', '+1'], ['mod', '3'], ['mod', None]]))
    return {'rows': rows, 'ops': ops, 'text': ''.join(chr(rng.choice([rng.randint(32, 126), rng.randint(32, 126), 9, 10, 45, 32, 95, 46, 0xe9, 0xa0, 0x2013, 0x1e9e, 0x130, 0xbd])) for _ in range(rng.randint(0, 14)))}


def valid(c):
    return {'rows', 'ops', 'text'} <= set(c) and all(len(r) >= 2 for r in c['rows']) and all(o and (o[0] not in ('as', 'mod') or len(o) > 1) for o in c['ops']) and \
        all(c['rows'].index(r) > [x[0].lower() for x in c['rows']].index('version') if 'version' in [x[0].lower() for x in c['rows']] else False
            for r in c['rows'] if r[0].startswith('Version.'))


def slug(s):
    import unicodedata
    s = unicodedata.normalize('NFKD', s)
    s = ''.join(ch for ch in s if ord(ch) < 128).strip().lower()
    out = ''
    for ch in s:
        if ch in '- \t\n\r\x0b\x0c\x1c\x1d\x1e\x1f':
            if not out.endswith('-'):
                out += '-'
        elif ch.isalnum() or ch in '_.':
            out += ch
    # runs of separators that only removed characters kept apart are also one run
    return re.sub('-+', '-', out)


class V:
    """Identity of a document as read from its rows."""
    def __init__(self, rows):
        self.d, self.v = {}, None
        sec = 'root'
        for r in rows:
            n, v = r[0].lower(), norm(r[1])
            if n == 'section':
                sec = v
            elif sec != 'root':
                continue
            elif n.startswith('version.'):
                self.sem[n[8:]] = v
            elif n not in self.d:
                self.d[n] = v
                if n == 'version':
                    self.sem = {}
        self.has = 'version' in self.d
        self.sem = getattr(self, 'sem', {})

    def version(self):
        if not self.has:
            return None
        if {'major', 'minor', 'patch'} & set(self.sem):
            ks = ['major', 'minor', 'patch'] + (['build'] if 'build' in self.sem else [])
            return '.'.join(str((self.sem[k] if self.sem[k] is not None or k == 'build' else 0) if k in self.sem else 1) for k in ks)
        return self.d['version']

    def name(self, ver):
        vals = [self.d.get(p.lower()) for p in PARTS] + [ver]
        return '-'.join(slug(str(e).replace('-', '_')) for e in vals if e and str(e).strip())

    def changed(self, mod):
        """Version with a modification, or an exception type."""
        import copy
        if mod is False:
            return self.version()
        if mod is None:
            return None
        cur = self.sem.get('patch') if {'major', 'minor', 'patch'} & set(self.sem) else self.d.get('version') if self.has else None
        if mod[0] in '+-':
            if cur is None or not re.fullmatch(r'\s*[-+]?[0-9]+(_[0-9]+)*\s*', cur):
                return Bad
            n = int(mod[1:] or 1)
            new = str(int(cur) + (n if mod[0] == '+' else -n))
        else:
            new = mod
            if not self.has:
                return Skip
        x = copy.deepcopy(self)
        if {'major', 'minor', 'patch'} & set(x.sem):
            x.sem['patch'] = new
        else:
            x.d['version'] = new
        return x.version()


class Skip(Exception):
    pass


def snap(doc):
    return doc_tree(doc)


def check(c):
    from metatab import MetatabError
    from metatab.util import slugify
    g = slugify(c['text'])
    eq(g, slug(c['text']), 'slug of %r' % c['text'])
    need(re.fullmatch(r'[a-z0-9_.\-]*', g) and '--' not in g, 'slug of %r is %r', c['text'], g)
    eq(slugify(g), g, 'slug of a slug')
    doc = mkdoc(c['rows'])
    v = V(c['rows'])
    if len({'major', 'minor', 'patch'} & set(v.sem)) in (1, 2) or None in v.sem.values():
        # missing parts of a semantic version count as 1 and blank ones as 0, and updating the version adds them
        eq(doc.update_version(), v.version(), 'version of %r' % v.sem)
        eq(doc.find_first_value('Root.Version', section='Root'), v.version(), 'version term of %r' % v.sem)
        eq(doc.update_version(), v.version(), 'version of %r, again' % v.sem)
        return
    for o in c['ops']:
        m = V([[t.record_term, t.value] if t.parent_term == 'root' else ['version.' + t.record_term, t.value] for x in doc['Root'] for t in [x] + list(x.children)] )
        k = o[0]
        before = snap(doc)
        if k == 'updv':
            eq(doc.update_version(), m.version(), 'version')
            if m.has:
                eq(doc.find_first_value('Root.Version'), m.version(), 'version term')
        elif k == 'as':
            want = m.changed(o[1])
            if want is Skip:
                continue
            try:
                got = doc.as_version(o[1])
            except MetatabError:
                got = Bad
            if want is Bad or got is Bad:
                need(got is want, 'as_version(%r): %r, expected %r', o[1], got, want)
            else:
                eq(got, m.name(want), 'as_version(%r)' % o[1])
            if m.sem:
                doc.update_version()
                [x.__setitem__(2, m.version()) for s in before for x in s[1] if s[0] == 'Root' and x[1] == 'version'][:1]
            need(snap(doc) == before, 'as_version(%r) changed the document: %r, was %r', o[1], snap(doc), before)
        elif k in ('update', 'force', 'create', 'mod'):
            mod = o[1] if k == 'mod' else False
            want = m.changed(mod)
            if want is Skip or want is Bad or k == 'mod' and mod is None:
                continue
            r = doc.update_name(force=k == 'force', create_term=k == 'create', mod_version=mod)
            need(isinstance(r, list) and len(r) == 1, 'update_name reports %r', r)
            ident = doc.find_first_value('Root.Identifier')
            need(ident, 'no identifier')
            if m.d.get('identifier'):
                eq(ident, m.d['identifier'], 'identifier')
            g = doc.find_first('Root.Name')
            if 'name' not in m.d and k != 'create':
                need(g is None, 'a name appeared')
                continue
            old = m.d.get('name')
            if m.d.get('dataset'):
                want = m.name(want)
            elif not old:
                want = ident
            else:
                want = old
            eq(g.value, want, 'name (%s)' % k)
            if k == 'mod' and m.d.get('dataset') and m.has:
                eq(doc.find_first_value('Root.Version'), m.changed(mod), 'version after update_name')
        elif k == 'cleanse':
            doc.cleanse()
            need(doc.find_first_value('Root.Identifier', section='Root'), 'no identifier')
            if m.d.get('identifier'):
                eq(doc.find_first_value('Root.Identifier', section='Root'), m.d['identifier'], 'identifier')
            if m.d.get('name') and m.d.get('dataset'):
                eq(doc.find_first_value('Root.Name'), m.name(m.version()), 'name')
            old = doc.find_first_value('Root.Identifier')
            doc.cleanse()
            eq(doc.find_first_value('Root.Identifier'), old, 'identifier changes')
