"""Random Metatab documents (as rows) and a reference reading of them, written from the format's description."""
from common import *


class Node:
    def __init__(self, rec, par, value, row=None, col=1, section='root', tvn='@value', cpt='any'):
        self.rec, self.par, self.value, self.row, self.col, self.section, self.tvn, self.cpt = rec, par, value, row, col, section, tvn, cpt
        self.children = []

    def tree(self, pos=False):
        t = [self.par, self.rec, self.value] + ([self.row, self.col] if pos else [])
        return t + [[c.tree(pos) for c in self.children]]


class Sec:
    def __init__(self, name, args):
        self.name, self.args, self.header, self.terms = name, args, None, []

    def columns(self):
        return self.header or self.args


def gen_rows(rng, n=None, sections=True, headers=0.04, comments=True, args_on_root=0.2, dup_sections=True, deep=True, ragged=True, args=True,
             cells=None, clash=True, names=None, args_none=False, far=0):
    """Rows of a document.  The names of parents are kept unambiguous unless `clash`."""
    nm = (lambda: rng.choice(names)) if names else (lambda: name(rng))
    cell = cells or (lambda: value(rng))
    rows = []
    parents = []          # record names that can be a parent here
    seen = []             # record names of all rows so far
    used = []
    cols = 0
    can_elide = False
    for _ in range(n if n is not None else rng.randint(1, 14)):
        r = rng.random()
        if comments and r < 0.06:
            rows.append(rng.choice([[], [''], ['  ', 'x'], ['# comment', 'a'], ['  #x'], [None, 'x']]))
            continue
        if sections and r < 0.18:
            s = rng.choice(used) if used and dup_sections and rng.random() < 0.25 else section_name(rng)
            used.append(s)
            a = []
            if args:
                a = unique([rng.choice(['', nm(), nm(), nm()]) if rng.random() < 0.15 else nm() for _ in range(rng.randint(0, 4))])
            rows.append([rng.choice(['Section', 'section', 'SECTION', ' Section ']), mixcase(rng, s) if rng.random() < 0.3 else s] + a)
            cols = len(a)
            parents, can_elide = [], False
            continue
        if r < 0.18 + headers:
            a = unique([nm() for _ in range(rng.randint(1, 4))])
            rows.append(['Header', nm()] + a)
            cols = len(a)
            continue
        argv = []
        if args and cols and rng.random() < 0.7:
            k = cols + (rng.choice([-1, 0, 0, 1]) if ragged else 0)
            argv = [cell() if rng.random() < 0.8 else rng.choice(['', ' ', None] if args_none else ['', ' ']) for _ in range(max(0, k))]
        elif args and rng.random() < args_on_root * 0.3:
            argv = [cell()]
        v = cell() if rng.random() < 0.93 else ''
        r = rng.random()
        if (can_elide and r < 0.25) or r < 0.008:
            rows.append([rng.choice(['.', ' .', '. ']) + nm(), v or 'v'])
        elif seen and far and r < 0.25 + far:      # a child of an earlier term, of whatever place and section
            c = nm()
            rows.append([mixcase(rng, rng.choice(seen)) + '.' + c, v] + argv)
            seen.append(c.lower())
            parents, can_elide = [c.lower()], True
        elif parents and deep and r < 0.55:
            p = rng.choice(parents)
            c = nm()
            if not clash:
                c = fresh(c, parents)
            rows.append([mixcase(rng, p) + '.' + c, v] + argv)
            i = parents.index(p)
            parents = parents[:i + 1] + [c.lower()]
            seen.append(c.lower())
            can_elide = True
        else:
            c = nm()
            rows.append([rng.choice(['', '', 'Root.', 'root.']) + c, v] + argv)
            parents = [c.lower()]
            seen.append(c.lower())
            can_elide = True
    return rows


def fresh(c, taken):
    while c.lower() in taken:
        c = c + 'q'
    return c


def unique(xs):
    out, seen = [], set()
    for x in xs:
        if x.lower() not in seen or x == '':
            seen.add(x.lower())
            out.append(x)
    return out


def norm(v):
    return v.strip() if v else None


def refparse(rows, terms=None, sections=None):
    """The sections of the document that the rows describe (terms, sections: declarations)."""
    terms, sections = terms or {}, sections or {}
    root = Sec('Root', [])
    secs = {'root': root}
    cur, cols = root, []
    defname = '@value'
    last = {}              # most recent term that can be a parent, by name
    last_full = None       # name of the last term whose row names it
    for n, row in enumerate(rows, 1):
        if not row or not row[0] or not row[0].strip() or row[0].strip().startswith('#'):
            continue
        p, r = nameparts(row[0])
        v = norm(row[1]) if len(row) > 1 else None
        cells = [(c or '').strip() for c in row[2:]]
        if (p, r) == ('root', 'section'):
            key = v.lower()
            if key not in secs:
                secs[key] = Sec(v, cells if cells else list(sections.get(key, {}).get('args', [])))
            cur = secs[key]
            cols = cur.args
            last_full = None
            defname = '@value'
            continue
        if (p, r) == ('root', 'header'):
            cols = cells
            cur.header = cells
            defname = v.lower() if v else '@value'
            continue
        d = lambda j: terms.get(j, {})
        node = Node(r, p, v, n, 1, cur)
        if p == '':
            node.par = last_full.rec if last_full else 'root'
            if last_full:
                last_full.children.append(node)
            else:
                cur.terms.append(node)
            holder = last_full
        else:
            if p == 'root':
                cur.terms.append(node)
            else:
                last[p].children.append(node)
            last[r] = node
            last_full = holder = node
        j = node.par + '.' + node.rec
        node.tvn = d(j).get('termvaluename', defname)
        node.cpt = d(j).get('childpropertytype', 'any')
        for i, c in enumerate(cells):
            if c:
                nm = cols[i].lower() if i < len(cols) and cols[i] else str(i)
                ch = Node(nm, node.rec, c, n, i + 2, cur)
                ch.tvn = d(node.rec + '.' + nm).get('termvaluename', defname)
                ch.cpt = d(node.rec + '.' + nm).get('childpropertytype', 'any')
                holder.children.append(ch)
    return secs


def nameparts(text):
    if '.' in text:
        p, r = text.split('.')
        return p.strip().lower(), r.strip().lower()
    return 'root', text.strip().lower()


def has_elided_args(rows):
    for r in rows:
        if r and r[0] and r[0].strip().startswith('.') and any(x and str(x).strip() for x in r[2:]):
            return True
    return False


def real_tree(t, pos=False):
    return [t.parent_term, t.record_term, t.value] + ([t.row, t.col] if pos else []) + [[real_tree(c, pos) for c in t.children]]


def doc_tree(doc, pos=False):
    return [[s.name, [real_tree(t, pos) for t in s]] for s in doc]


def ref_tree(secs, pos=False):
    return [[s.name, [t.tree(pos) for t in s.terms]] for s in secs.values()]


def walk(terms):
    for t in terms:
        yield t
        yield from walk(t.children)
