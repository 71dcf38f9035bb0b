"""C07 sections: one per name whatever the case, creation order, lookup, deletion, reordering, columns."""
from docs import *

RULE = 'random documents and random histories of section lookups, get-or-create, creation, deletion, reordering and column edits, compared after every step with an ordered list of names'


def gen(rng):
    rows = gen_rows(rng, rng.randint(0, 8), headers=0)
    pool = unique([r[1] for r in rows if r and r[0] and r[0].strip().lower() == 'section'] + [section_name(rng) for _ in range(4)])
    ops = []
    for _ in range(rng.randint(1, 12)):
        k = rng.choice(['gon', 'gon', 'gon', 'new', 'del', 'get', 'sort', 'sort', 'addarg', 'rmarg', 'list', 'default', 'addpre', 'addsec'])
        o = {'op': k, 'n': mixcase(rng, rng.choice(pool)), 'a': [name(rng) for _ in range(rng.randint(0, 3))]}
        if k == 'sort':
            o['order'] = [mixcase(rng, rng.choice(pool + ['Root', 'Nosuch'])) for _ in range(rng.randint(0, 6))]
        if k == 'list':
            o['order'] = [mixcase(rng, rng.choice(pool)) for _ in range(rng.randint(0, 3))]
        ops.append(o)
    return {'rows': rows, 'ops': ops}


def valid(c):
    try:
        refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows']) and all({'op', 'n', 'a'} <= set(o) and (o['op'] not in ('sort', 'list') or 'order' in o) for o in c['ops'])


def check(c):
    from metatab import ParserError
    try:
        doc = mkdoc(c['rows'])
    except ParserError:
        return
    ref = refparse(c['rows'])
    m = {k: [s.name, list(s.args), None] for k, s in ref.items()}      # key -> [name, columns, section]
    for s in doc:
        m[s.name.lower()][2] = s
    terms = {k: list(m[k][2]) for k in m}

    def verify():
        eq([s.name for s in doc], [x[0] for x in m.values()], 'sections')
        for k, (n, a, s) in m.items():
            for v in (n, n.lower(), n.upper() if n.upper().lower() == n.lower() else n):
                need(doc[v] is s and doc.get_section(v) is s and v in doc, 'lookup of section %r', v)
            eq(list(s.property_names), a, 'columns of ' + n)
            need([id(t) for t in s] == [id(t) for t in terms[k]], 'terms of %s', n)
        need('No such section' not in doc, 'No such section')
        try:
            doc['No such section']
            need(False, 'missing section does not raise KeyError')
        except KeyError:
            pass
        need(doc.get_section('No such section', None) is None, 'default')
        need(sorted(id(t) for t in doc.terms) == sorted(id(t) for ts in terms.values() for t in ts), 'terms of the document')
    verify()
    for o in c['ops']:
        k, n = o['op'], o['n']
        key = n.lower()
        a = unique(o['a'])
        if k == 'gon':
            s = doc.get_or_new_section(n, list(a))
            if key in m:
                need(s is m[key][2], 'get_or_new_section(%r) is a new section', n)
            else:
                m[key] = [n, a, s]
                terms[key] = []
                eq(s.name, n, 'name')
        elif k == 'addsec':
            from metatab.terms import SectionTerm
            new = SectionTerm(None, n, term_args=list(a), doc=doc)
            s = doc.add_section(new)
            if key in m:
                need(s is m[key][2], 'add_section of another %r', n)
            else:
                need(s is new, 'add_section(%r)', n)
                m[key] = [n, a, s]
                terms[key] = []
        elif k == 'new' and key not in m:
            s = doc.new_section(n, list(a))
            m[key] = [n, a, s]
            terms[key] = []
        elif k == 'del' and key != 'root':
            del doc[n]
            m.pop(key, None)
            terms.pop(key, None)
            need(n not in doc, '%r still in the document', n)
        elif k == 'get' or k == 'default':
            if key in m:
                need(doc.get_section(n, None) is m[key][2], 'get_section(%r, None)', n)
            else:
                need(doc.get_section(n, 'dflt') == 'dflt', 'get_section(%r, dflt)', n)
                try:
                    doc.get_section(n)
                    need(False, 'get_section(%r) does not raise KeyError', n)
                except KeyError:
                    pass
        elif k == 'sort':
            doc.sort_sections(list(o['order']))
            first = unique([x.lower() for x in o['order'] if x.lower() in m])
            m = {x: m[x] for x in first + [y for y in m if y not in first]}
        elif k == 'list':
            order = [x for x in o['order'] if x.lower() in m]
            need([id(s) for s in doc[order]] == [id(m[x.lower()][2]) for x in order], 'lookup of %r', order)
        elif k in ('addarg', 'addpre', 'rmarg') and key in m:
            s = m[key][2]
            cols = [x.strip() for x in m[key][1] if x.strip()]
            for x in a:
                if k == 'rmarg':
                    s.remove_arg(x)
                    cols = [y for y in cols if y.lower() != x.lower()]
                else:
                    s.add_arg(x, prepend=(k == 'addpre'))
                    if x.lower() not in [y.lower() for y in cols]:
                        cols = [x.title()] + cols if k == 'addpre' else cols + [x.title()]
            if a:
                m[key][1] = cols
        verify()
