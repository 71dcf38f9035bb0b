"""C11 declarations: declared names, types, value names, sections, inheritance, synonyms, term classes."""
import csv
import tempfile
from docs import *

RULE = 'random declaration files (sections, terms with value names, types, inheritance, synonyms, redeclarations, undeclared sections) and documents that use them, compared with a reference reading'
COLS = ['TermValueName', 'ChildPropertyType', 'Section', 'InheritsFrom', 'Synonym', 'Options']


def gen(rng):
    base = unique([name(rng) for _ in range(5)])
    secs = unique([section_name(rng) for _ in range(3)])
    ds = [[s] + unique([name(rng) for _ in range(rng.randint(0, 3))]) for s in secs]
    dt = []
    full = []
    for n in base:
        s = rng.choice(secs)
        inh = rng.choice([x for x in full if x[1] == s and x[2]] or [None]) if rng.random() < 0.4 else None
        r = ['Root.' + n if rng.random() < 0.8 else n, rng.choice(['', '', 'Label', 'url', 'Xval']), rng.choice(['', 'scalar', 'sequence', 'any']), s, 'Root.' + inh[0] if inh else '', '', rng.choice(['', 'wrap', 'a,b'])]
        dt.append(r)
        full.append([n, s, inh is None])
        if inh is None:
            for k in unique([name(rng) for _ in range(rng.randint(0, 3))]):
                if k.lower() not in [b.lower() for b in base]:
                    dt.append([n + '.' + k, rng.choice(['', 'Kv']), rng.choice(['', 'sconcat', 'sequence']), s, '', '', ''])
    for i in range(rng.randint(0, 2)):
        t = rng.choice(base)
        dt.append([rng.choice(['Root.', '']) + 'Syn%dof' % i, '', '', rng.choice(secs), '', 'Root.' + mixcase(rng, t), ''])
    for _ in range(rng.choice([0, 0, 1, 2])):       # declared again, with other properties
        r = rng.choice(dt)
        if not r[4] and not r[5]:
            dt.append([mixcase(rng, r[0]), rng.choice(['', 'Other']), rng.choice(['', 'scalar', 'sequence']), r[3], '', '', ''])
    ds2 = [[mixcase(rng, rng.choice(secs))] + unique([name(rng) for _ in range(rng.randint(0, 2))]) for _ in range(rng.choice([0, 0, 0, 1, 1]))]
    if rng.random() < 0.1:
        dt.append(['Root.Lost', '', '', 'Never Declared', '', '', ''])
    rows = []
    kids = [r[0] for r in dt if not r[0].lower().startswith('root.') and '.' in r[0]]
    for _ in range(rng.randint(1, 10)):
        if rng.random() < 0.2:
            rows.append(['Section', rng.choice(secs)] + ([] if rng.random() < 0.3 else unique([name(rng) for _ in range(2)])))
        n = rng.choice(base + ['Syn0of', 'Syn1of'] + [name(rng)])
        rows.append([rng.choice(['Root.', '']) + mixcase(rng, n), value(rng)])
        for _ in range(rng.randint(0, 2)):
            rows.append(['.' + (rng.choice(kids).split('.')[1] if kids and rng.random() < 0.7 else name(rng)), value(rng)])
    return {'ds': ds, 'dt': dt, 'rows': rows, 'cls': rng.choice(base), 'via': rng.choice(['row', 'row', 'row', 'arg']), 'header': rng.random() < 0.3, 'ds2': ds2, 'cut': rng.choice([None, None, rng.randint(0, len(dt))])}


def valid(c):
    return {'ds', 'dt', 'rows', 'cls', 'via', 'header'} <= set(c) and all(len(r) == 7 for r in c['dt']) and all(c['ds']) and all(c.get('ds2') or []) and (c.get('cut') is None or 0 <= c['cut'] <= len(c['dt'])) and all(c['ds'][i] for i in range(len(c['ds']))) and \
        all(len(r) > 1 for r in c['rows']) and len(c['rows']) > 0 and not any(r[0].startswith('.') for r in c['rows'][:1]) and \
        not any(r[0].startswith('.') and q[0] == 'Section' for q, r in zip(c['rows'], c['rows'][1:]))


def files(c):
    """The declaration files as (sections, terms): all in one, or cut in two."""
    k, ds2 = c.get('cut'), c.get('ds2') or []
    if k is None:
        return [(c['ds'] + ds2, c['dt'])]
    return [(c['ds'], c['dt'][:k]), (ds2, c['dt'][k:])]


def reference(c):
    secs = {'root': {'args': [], 'terms': []}}
    terms = {}
    for r in [x for ds, dt in files(c) for x in [['s'] + s for s in ds] + [['t'] + t for t in dt]]:
        kind, r = r[0], r[1:]
        if kind == 's':
            secs[r[0].lower()] = {'args': r[1:], 'terms': []}
            continue
        n = '.'.join(nameparts(r[0]))
        d = {k.lower(): v for k, v in zip(COLS, r[1:]) if v.strip()}
        d['values'] = {}
        d['term'] = r[0]
        terms[n] = d
        if d.get('section'):
            if d['section'].lower() not in secs:
                return None
            st = secs[d['section'].lower()]['terms']
            if r[0] not in st:
                st.append(r[0])
        if d.get('inheritsfrom'):
            rec = r[0].split('.')[-1]
            b = d['inheritsfrom'].split('.')[-1]
            for x in list(st):
                if x.lower().startswith(b.lower() + '.'):
                    e = dict(terms[x.lower()])
                    e['inheritsfrom'] = ''
                    e['term'] = rec + '.' + x.split('.')[1]
                    terms['.'.join(nameparts(e['term']))] = e
                    if e['term'] not in st:
                        st.append(e['term'])
    return terms, secs


def check(c):
    from metatab import MetatabDoc, TermParser, DeclarationError
    from metatab.terms import Term
    with tempfile.TemporaryDirectory() as td:
        ps = []
        for i, (ds, dt) in enumerate(files(c)):
            p = os.path.join(td, 'decl%d.csv' % i)
            ps.append(p)
            with open(p, 'w', newline='', encoding='utf8') as f:
                w = csv.writer(f)
                w.writerow(['Section', 'DeclaredSections'])
                for s in ds:
                    w.writerow(['DeclareSection'] + s)
                if c['header']:
                    w.writerow(['Section', 'DeclaredTerms'])
                    w.writerow(['Header', 'Term'] + COLS)
                else:
                    w.writerow(['Section', 'DeclaredTerms'] + COLS)
                for t in dt:
                    w.writerow(['DeclareTerm'] + t)
        ref = reference(c)

        class Special(Term):
            pass
        cls = 'Root.' + c['cls']
        old = dict(TermParser.term_classes)
        try:
            MetatabDoc.register_term_class(cls, Special)
            if c['via'] == 'arg':
                try:
                    doc = MetatabDoc(decl=ps if len(ps) > 1 else ps[0])
                except DeclarationError:
                    need(ref is None, 'DeclarationError')
                    return
                need(ref is not None, 'a term was declared in an undeclared section')
                same_decl(doc, ref)
                for v in ('Old', 'New'):
                    q = os.path.join(td, v + '.csv')
                    with open(q, 'w') as f:
                        f.write('Section,DeclaredTerms,TermValueName\nDeclareTerm,Root.Zed,%s\n' % v)
                    doc.load_declarations([q])
                    eq(doc.decl_terms['root.zed'].get('termvaluename'), v, 'value name of a term that is declared again')
                for s in c['ds']:
                    if s[0].lower() == 'root':
                        continue
                    sec = doc.get_or_new_section(mixcase_fixed(s[0]))
                    eq(list(sec.property_names), ref[1][s[0].lower()]['args'], 'columns of declared section')
                for n, d in ref[0].items():
                    par, rec = n.split('.')
                    if par == 'root' and ok_name(rec):
                        t = doc['Root'].new_term(n, 'v')
                        eq(t.child_property_type, d.get('childpropertytype', 'any'), 'type of ' + n)
                        eq(t.term_value_name, d.get('termvaluename', '@value'), 'value name of ' + n)
                        need(isinstance(t, Special) == (n == cls.lower()), 'class of %s', n)
                return
            rows = [['Declare', p] for p in ps] + c['rows']
            try:
                doc = mkdoc(rows)
            except DeclarationError:
                need(ref is None, 'DeclarationError')
                return
            need(ref is not None, 'a term was declared in an undeclared section')
            same_decl(doc, ref)
            terms, secs = ref
            syn = {k: '.'.join(nameparts(d['synonym'])) for k, d in terms.items() if d.get('synonym')}
            rows2 = [[canon(r[0], syn)] + r[1:] for r in c['rows']]
            want = refparse(rows2)
            sup = {k: d['inheritsfrom'].lower() for k, d in terms.items() if d.get('inheritsfrom')}
            wl = [[s.name, [t.tree() for t in s.terms]] for s in want.values()]
            gl = [[s.name, [real_tree(t) for t in s if t.join != 'root.declare']] for s in doc]
            eq(gl, wl, 'document with declarations')
            for s in doc:
                for t in walk(list(s)):
                    if t.join == 'root.declare':
                        continue
                    d = terms.get(t.join, {})
                    eq(t.child_property_type, d.get('childpropertytype', 'any'), 'type of ' + t.join)
                    eq(t.term_value_name, d.get('termvaluename', '@value'), 'value name of ' + t.join)
            # classes are by the name in the file
            for r, t in zip([r for r in c['rows'] if r[0] != 'Section' and not r[0].startswith('.')], sorted([t for s in doc for t in s if t.join != 'root.declare'], key=lambda t: t.row)):
                n = '.'.join(nameparts(r[0]))
                need(isinstance(t, Special) == (n == cls.lower() or sup.get(n) == cls.lower()), 'class of %s', n)
            for b in {d for d in sup.values()} | {t.join for s in doc for t in s}:
                hits = {b} | {k for k, v in sup.items() if v == b}
                g = doc.find(b)
                need(sorted(id(t) for t in g) == sorted(id(t) for s in doc for t in s if t.join in hits), 'find(%r) = %r', b, g)
                g = doc.find([b])
                need(sorted(id(t) for t in g) == sorted(id(t) for s in doc for t in s if t.join in hits), 'find([%r]) = %r', b, g)
            other = mkdoc(c['rows'])
            need(set(other.decl_terms) <= BUILTIN and set(other.decl_sections) <= {'root', 'declaredterms', 'declaredsections'} and not other.super_terms and not other.derived_terms,
                 'declarations of another document: %r %r', sorted(other.decl_terms), sorted(other.decl_sections))
            for s in other:
                for t in walk(list(s)):
                    eq((t.child_property_type, t.term_value_name), ('any', '@value'), 'type and value name of %s without declarations' % t.join)
            t = doc['Root'].new_term(cls, 'v')
            need(isinstance(t, Special), 'class of a new term')
            MetatabDoc.register_term_class(cls, Term)
            TermParser.unregister_term_class(cls)
            t = doc['Root'].new_term(cls, 'v')
            need(not isinstance(t, Special), 'class of a new term after unregistering')
        finally:
            TermParser.term_classes.clear()
            TermParser.term_classes.update(old)


def mixcase_fixed(s):
    return s.swapcase() if s.swapcase().lower() == s.lower() else s


def canon(n, syn):
    if n == 'Section' or n.startswith('.'):
        return n
    k = '.'.join(nameparts(n))
    return syn.get(k, n)


BUILTIN = {'root.section', 'root.synonym', 'root.declareterm', 'root.declaresection', 'root.declarevalueset', 'declarevalueset.value'}


def same_decl(doc, ref):
    terms, secs = ref
    eq({k: v for k, v in doc.decl_terms.items() if k not in BUILTIN}, terms, 'declared terms')
    eq({k: v for k, v in doc.decl_sections.items() if k not in ('declaredterms', 'declaredsections')}, secs, 'declared sections')
