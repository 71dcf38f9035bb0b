"""Specification of searches (property C04)."""
from metatab.terms import SectionTerm
from names import is_match


def child_name(self, term):
    """The record name searched for among the children of a term; a qualified name has to name the term itself."""
    if '.' in term:
        p, r = term.split('.')
        assert p.lower() == self.record_term.lower()
        return r
    return term


def sp_find(self, term, value):
    """Exactly the children with the name, ignoring case, and the value if one is given, in order."""
    name = child_name(self, term)
    return [c for c in self.children if c.record_term.lower() == name.lower() and (value is False or c.value == value)]


def child(self, name):
    """The first child with the name, ignoring case; None when there is none."""
    cs = [c for c in self.children if c.record_term.lower() == name.lower()]
    return cs[0] if cs else None


def en_child(c, self, name):
    return c is None or c.record_term.lower() == name.lower()


def sp_find_first(self, term, value):
    if value is False:
        return child(self, child_name(self, term))
    found = sp_find(self, term, value)
    return found[0] if found else None


def sp_find_first_value(self, term):
    c = sp_find_first(self, term, False)
    return c.value if c is not None else None


def desc(self):
    """A term's children, each followed by its own descendents."""
    out = []
    for c in self.children:
        out.append(c)
        out.extend(desc(c))
    return out


def sp_all_terms(self):
    """Section by section: the section itself, unless it is the root section, then its terms, each followed by its descendents."""
    out = []
    for s in self.sections.values():
        if s.value != 'Root':
            out.append(s)
        for t in s.terms:
            out.append(t)
            out.extend(desc(t))
    return out


def in_section(t, section):
    if section is None:
        return True
    if t._section is None:
        return False
    if isinstance(section, str):
        return section.lower() == t._section.value.lower()
    return any(e.lower() == t._section.value.lower() for e in section)


def join_lc(t):
    return t.parent_term.lower() + '.' + t.record_term.lower()


def full_name(pattern):
    name = pattern.lower()
    return name if '.' in name else 'root.' + name


def named(self, pattern, section):
    """All terms of the document that match the pattern and are in the section, in document order."""
    full = full_name(pattern)
    terms = self.terms if full.startswith('root.') else sp_all_terms(self)
    return [t for t in terms if join_lc(t) != 'root.root' and is_match(t.parent_term, t.record_term, full) and in_section(t, section)]


def scan(self, pattern, value, section):
    """All terms of the document that match the pattern, are in the section and have the value, in document order."""
    if value is False:
        return named(self, pattern, section)
    full = full_name(pattern)
    terms = self.terms if full.startswith('root.') else sp_all_terms(self)
    return [t for t in terms if join_lc(t) != 'root.root' and is_match(t.parent_term, t.record_term, full)
            and in_section(t, section) and value == t.value]


def owned(self):
    """Every term of the document that is not a section is in a section."""
    return (all(t._section is not None or join_lc(t) == 'root.root' or join_lc(t) == 'root.section' for t in self.terms)
            and all(t._section is not None or join_lc(t) == 'root.root' or join_lc(t) == 'root.section' for t in sp_all_terms(self)))


def one_dot(pattern):
    return '.' not in pattern or '.' not in pattern.split('.', 1)[1]


def rq_scan(self, term):
    return one_dot(term) and owned(self)


def sp_scan(self, term, value, section):
    return scan(self, term, value, section)


def patterns(self, term):
    """The names searched for: a name stands for itself and for the names of the terms derived from it."""
    if isinstance(term, str):
        return list(self.derived_terms.get(term.lower(), [])) + [term]
    out = []
    for t in term:
        out.append(t)
        out.extend(self.derived_terms.get(t.lower(), []))
    return out


def rq_found(self, term):
    return owned(self) and all(one_dot(p) for p in patterns(self, term))


def all_named(self, term, section):
    return [t for p in patterns(self, term) for t in named(self, p, section)]


def found(self, term, value, section):
    """The matches of each name in turn."""
    if value is False:
        return all_named(self, term, section)
    return [t for p in patterns(self, term) for t in scan(self, p, value, section)]


def sp_doc_find(self, term, value, section):
    return found(self, term, value, section)


def first_named(self, term, section):
    ts = all_named(self, term, section)
    return ts[0] if ts else None


def first_found(self, term, value, section):
    if value is False:
        return first_named(self, term, section)
    ts = found(self, term, value, section)
    return ts[0] if ts else None


def sp_doc_find_first(self, term, value, section):
    return first_found(self, term, value, section)


def first_value(self, term, section):
    t = first_named(self, term, section)
    return None if t is None else t.value


def sp_doc_find_first_value(self, term, value, section):
    if value is False:
        return first_value(self, term, section)
    t = first_found(self, term, value, section)
    return None if t is None else t.value


def sp_doc_get(self, term, default):
    t = first_named(self, term, None)
    return default if t is None else t


def sp_doc_get_value(self, term, default, section):
    if default is None:
        return first_value(self, term, section)
    t = first_named(self, term, section)
    return default if t is None else t.value


# A section searches its document, restricted to itself
def rq_sfound(self, term):
    return rq_found(self.doc, term)


def sp_sec_find(self, term, value):
    return found(self.doc, term, value, self.value)


def sp_sec_find_first(self, term, value):
    return first_found(self.doc, term, value, self.value)


def sp_sec_find_first_value(self, term, value):
    return sp_doc_find_first_value(self.doc, term, value, self.value)


# Property values as criteria
def rq_terms(self, term, value, section):
    return not any(isinstance(t, SectionTerm) for t in found(self, term, value, section))


def rq_plain(kwargs):
    return bool(kwargs) and not any('.' in k for k in kwargs)


def sp_doc_find_props(self, term, value, section, kwargs):
    return [t for t in found(self, term, value, section) if all(prop_value(t, k) == v for k, v in kwargs.items())]


def prop_value(t, k):
    if k.lower() == t.term_value_name.lower():
        return t.value
    c = child(t, k)
    return None if c is None else c.value
