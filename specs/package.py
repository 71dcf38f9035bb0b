"""Specification of the conversion to a datapackage (property C14)."""


def sp_field(c):
    """The name, title and description that a column has, and its type by the name it has in a datapackage; a column without properties is its name."""
    if not isinstance(c, dict):
        c = {'name': c}
    d = {}
    for k in ('name', 'title', 'description'):
        if c.get(k):
            d[k] = c[k]
    names = {'str': 'string', 'text': 'string', 'unicode': 'string', 'int': 'integer', 'float': 'number'}
    t = c.get('datatype')
    d['type'] = names.get(t, t)
    return d
