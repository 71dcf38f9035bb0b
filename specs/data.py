"""Specification of the conversion to plain data (property C08)."""
from metatab.terms import RootSectionTerm


def put(d, k, ty, v):
    """One more value under a name, by the declared type of the property."""
    if ty == 'scalar':
        d[k] = v
    elif ty == 'sequence':
        if k in d and isinstance(d[k], list):
            d[k].append(v)
        else:
            d[k] = [v]
    elif ty == 'sconcat':
        d[k] = (d[k] + ' ' if k in d else '') + (v or '')
    elif ty == 'bconcat':
        d[k] = (d[k] if k in d else '') + (v or '')
    elif k not in d:
        d[k] = v
    elif isinstance(d[k], list):
        d[k].append(v)
    else:
        d[k] = [d[k], v]


def conv(term, replace_value_names):
    """The value of a term without children; else its children by name in order, and its own value under its value name."""
    return conv_body(term, replace_value_names)


def conv_body(term, replace_value_names):
    if not term.children:
        return term.value
    d = {}
    for c in term.children:
        put(d, c.record_term.lower(), c.child_property_type, conv(c, replace_value_names))
    if term.value:
        d[term.term_value_name.lower() if replace_value_names else '@value'] = term.value
    return d


def sp_as_dict(self, replace_value_names):
    return conv(self, replace_value_names)


def sp_section_as_dict(self, replace_value_names):
    """A section is converted as if its terms were its children; the section is as it was."""
    old = self.children
    self.children = self.terms
    d = conv(self, replace_value_names)
    self.children = old
    return d


def sp_root_as_dict(self, replace_value_names):
    """The root section has no value of its own."""
    d = sp_section_as_dict(self, replace_value_names)
    if replace_value_names and '@value' in d:
        del d['@value']
    return d


def sp_doc_as_dict(self, replace_value_names):
    """A document is converted as if all the terms of its sections were in one root section."""
    r = RootSectionTerm(doc=self)
    r.terms = [t for s in self.sections.values() for t in s.terms]
    return sp_root_as_dict(r, replace_value_names)
