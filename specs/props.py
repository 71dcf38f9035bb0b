"""Specification of the properties of a term (property C05)."""
from search import sp_find_first


def prop(self, item):
    """The child, or the term itself for its own value name, that holds a property; None when there is none."""
    if item.lower() == self.term_value_name.lower():
        return self
    return sp_find_first(self, item, False)


def sp_getitem(self, item):
    c = prop(self, item)
    if c is None:
        raise KeyError(item)
    return c


def sp_get(self, item, default):
    c = prop(self, item)
    return default if c is None else c


def sp_get_value(self, item, default):
    c = prop(self, item)
    return default if c is None else c.value


def sp_getattr(self, item):
    """An attribute that is not one of the object is the value of the property; the common ones are None when absent."""
    if item == '__setstate__':
        raise AttributeError(item)
    c = prop(self, item)
    if c is not None:
        return c.value
    if item.lower() in ('url', 'name', 'description', 'schema'):
        return None
    raise AttributeError(item)


def sp_props(self):
    """The values of the children by name, the last one winning."""
    d = {}
    for c in self.children:
        d[c.record_term.lower()] = c.value
    return d


def sp_contains(self, item):
    return item.lower() in ('value', 'url', 'name', 'description', 'schema') or any(item.lower() == c.record_term.lower() for c in self.children)


def columns(s):
    return s.header_args if s.header_args else s.args


def sp_property_names(self):
    return [] if self._section is None else columns(self._section)


def sp_section_property_names(self):
    return columns(self)


def rq_section(self):
    return self._section is not None


def sp_arg_props(self):
    """The arguments of the row by column, and the value of the term under its value name."""
    d = {}
    for n, v in zip(columns(self._section), self.args):
        d[n.lower()] = v
    d[self.term_value_name.lower()] = self.value
    return d


def sp_all_props(self):
    d = sp_arg_props(self)
    for c in self.children:
        d[c.record_term.lower()] = c.value
    return d
