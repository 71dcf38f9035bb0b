"""C06 membership of terms in documents and sections over histories of edits."""
from docs import *

RULE = 'random documents and random histories of creating, adding, moving, removing and deleting terms and sections, with membership checked after every step against plain lists'
SN = ['Resources', 'Schema', 'Notes', 'Root', 'Data']


def gen(rng):
    names = [name(rng) for _ in range(3)]
    rows = gen_rows(rng, rng.randint(0, 8), headers=0, names=names)
    ops = []
    for _ in range(rng.randint(1, 14)):
        k = rng.choice(['new', 'new', 'new', 'newp', 'move', 'move', 'remove', 'docremove', 'readd', 'delname', 'clean', 'delsec', 'gon', 'gonv', 'gonp', 'set_terms', 'sort', 'foreign', 'setitem'])
        o = {'op': k, 's': mixcase(rng, rng.choice(SN)), 't': rng.randint(0, 20), 'n': rng.choice(names), 'v': value(rng)}
        if k in ('newp', 'gonp'):
            o['p'] = {rng.choice(['alpha', 'beta']): value(rng)}
        if rng.random() < 0.3:
            o['n'] = 'Root.' + o['n']
        if k == 'set_terms':
            o['kw'] = [[rng.choice(names).replace(' ', '').replace('/', '').replace('-', '') + 'x', value(rng)] for _ in range(rng.randint(1, 2))]
        ops.append(o)
    return {'rows': rows, 'ops': ops}


def valid(c):
    try:
        refparse(c['rows'])
    except Exception:
        return False
    return not has_elided_args(c['rows']) and all({'op', 's', 't', 'n', 'v'} <= set(o) for o in c['ops'])


def verify(doc, model, order):
    """model: section key -> list of terms;  order: root terms of the document."""
    eq([s.name.lower() for s in doc], list(model), 'sections')
    for s in doc:
        need([id(t) for t in s] == [id(t) for t in model[s.name.lower()]], 'terms of section %s: %r, expected %r', s.name, [t.join for t in s], [t.join for t in model[s.name.lower()]])
        for t in s:
            need(t.section is s, '%s in section %s says its section is %s', t.join, s.name, t.section and t.section.name)
            for x in walk([t]):
                need(x.doc is doc, 'document of %s', x.join)
                need(x.section is s, 'section of the child %s is %s not %s', x.join, x.section and x.section.name, s.name)
                for ch in x.children:
                    need(ch.parent is x, 'parent of %s', ch.join)
        need(s.doc is doc, 'document of section %s', s.name)
    ids = [id(t) for t in doc.terms]
    need(len(set(ids)) == len(ids), 'a term is in the document twice')
    need(sorted(ids) == sorted(id(t) for ts in model.values() for t in ts), 'terms of the document are not those of its sections: %r, expected %r',
         [t.join for t in doc.terms], [t.join for ts in model.values() for t in ts])


def check(c):
    from metatab import ParserError, MetatabDoc
    try:
        doc = mkdoc(c['rows'])
    except ParserError:
        return
    other = mkdoc([['Section', 'Notes'], ['Foreign', 'f1'], ['Foreign.Kid', 'k'], ['Foreign', 'f2']])
    for n in SN:
        doc.get_or_new_section(n)
    model = {s.name.lower(): list(s) for s in doc}
    removed = []
    rest = list(other.terms)
    verify(doc, model, None)
    for o in c['ops']:
        k, sn = o['op'], o['s'].lower()
        if sn not in model and k != 'delsec':
            doc.get_or_new_section(o['s'])
            model[sn] = []
        if sn in model:
            sec = doc[o['s']]
        live = [t for ts in model.values() for t in ts]
        t = live[o['t'] % len(live)] if live else None
        rec = o['n'].split('.')[-1].strip().lower()
        if k in ('new', 'newp'):
            x = sec.new_term(o['n'], o['v'], **o.get('p', {}))
            eq((x.join, x.value), ('root.' + rec, o['v']), 'new term')
            eq({q.record_term: q.value for q in x.children}, {a.lower(): b for a, b in o.get('p', {}).items()}, 'properties of a new term')
            model[sn].append(x)
        elif k == 'move' and t is not None:
            (sec.move_term if o['t'] % 2 else sec.add_term)(t)
            if t not in model[sn]:
                for ts in model.values():
                    if t in ts:
                        ts.remove(t)
                model[sn].append(t)
        elif k in ('remove', 'docremove') and t is not None:
            if k == 'remove':
                t.section.remove_term(t)
            else:
                doc.remove_term(t)
            for ts in model.values():
                if t in ts:
                    ts.remove(t)
            removed.append(t)
        elif k == 'readd' and removed:
            x = removed.pop()
            sec.add_term(x)
            model[sn].append(x)
        elif k == 'foreign':
            if other.terms:
                x = other.terms[0]
                other.remove_term(x)
                rest.remove(x)
                sec.add_term(x)
                model[sn].append(x)
        elif k == 'delname':
            del sec[o['n']]
            gone = [x for x in model[sn] if x.record_term == rec]
            model[sn] = [x for x in model[sn] if x.record_term != rec]
        elif k == 'clean':
            sec.clean()
            model[sn] = []
        elif k == 'delsec':
            if sn == 'root':
                continue
            del doc[o['s']]
            model.pop(sn, None)
        elif k in ('gon', 'gonp', 'gonv', 'setitem'):
            args = [] if k == 'gonv' else [o['v']]
            hit = [x for x in model[sn] if x.record_term == rec and (k == 'gonv' or x.value == o['v'])]
            if k == 'gonv' and not hit:
                continue
            before = hit and [y.value for y in hit]
            if k == 'setitem':
                sec[o['n']] = o['v']
                x = hit[0] if hit else list(sec)[-1]
            else:
                x = sec.get_or_new_term(o['n'], *args, **o.get('p', {}))
            if hit:
                need(x in hit, 'get_or_new_term returns another term')
                eq([y.value for y in hit], before, 'values')
            else:
                model[sn].append(x)
                eq((x.join, x.value), ('root.' + rec, o['v']), 'new term')
            for a, b in o.get('p', {}).items():
                eq(x.get_value(a), b, 'property set by get_or_new_term')
        elif k == 'set_terms':
            kw = {a: b for a, b in o['kw'] if len(b) != 2}
            sec.set_terms(*([t] if t is not None and o['t'] % 3 == 0 else []), **kw)
            if t is not None and o['t'] % 3 == 0 and t not in model[sn]:
                for ts in model.values():
                    if t in ts:
                        ts.remove(t)
                model[sn].append(t)
            new = list(sec)[len(model[sn]):]
            eq([(x.record_term, x.value) for x in new], [(a.lower(), b) for a, b in kw.items()], 'set_terms')
            model[sn] += new
        elif k == 'sort':
            sec.sort_by_term(*([] if o['t'] % 2 else [['root.' + rec]]))
            model[sn] = sorted(model[sn], key=lambda x: ((0 if x.record_term == rec else 1) if o['t'] % 2 == 0 else 0, x.join if not (o['t'] % 2 == 0 and x.record_term == rec) else ''))
        verify(doc, model, None)
        verify(other, {'root': [], 'notes': rest}, None)
