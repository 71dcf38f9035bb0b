"""Specification of writing documents as rows and lines (property C09)."""
from props import columns


def qualified(t):
    """The name of a term, with its parent's."""
    assert t.parent is not None or t.parent_term.lower() == 'root'
    return (t.parent.record_term.lower() if t.parent is not None else 'root') + '.' + t.record_term.lower()


def sp_qualified(self):
    return qualified(self)


def rows(self):
    """A row for the term, with a property for each name its terminal children have, the first child of a name; the other terminal children
    have rows of their own and the other children the rows they make, in the order of the children."""
    declared = self._section.doc.decl_terms
    name = qualified(self)
    value_name = declared.get(name, {}).get('termvaluename', '@value')
    assert value_name
    props = {value_name: self.value}
    names = {value_name.lower()}
    again = []
    for c in self.children:
        n = c.record_term.lower()
        if not c.children and n in names:
            again.append(c)
        elif not c.children and n:
            props[n] = c.value
            names.add(n)
    out = [(name, props)]
    for c in self.children:
        if c.children:
            out.extend(rows(c))
        elif c in again:
            out.append((qualified(c), c.value))
    return out


def cells(self, term, d):
    """The values for the value column and the columns of the section, nothing for an absent one, and the properties that have no column."""
    value_name = self.doc.decl_terms.get(term, {}).get('termvaluename', '@value')
    left = {}
    for k, v in d.items():
        left[k.lower()] = v
    out = []
    for n in [value_name] + columns(self):
        k = n.lower()
        if k in left:
            out.append(left[k])
            del left[k]
        else:
            out.append('')
    return term, out, left


def sp_args(self, term, d):
    return cells(self, term, d)


def section_rows(self):
    """The rows of the terms in order: properties go to the columns, and have rows of their own where there is no column."""
    out = []
    for t in self.terms:
        for name, value in rows(t):
            if isinstance(value, dict):
                name, args, left = cells(self, name, value)
                out.append((name, args))
                for k, v in left.items():
                    out.append((name.split('.')[-1] + '.' + k, v))
            else:
                out.append((name, value))
    return out


def doc_rows(self):
    """For each section its row with its columns, after an empty one, or for a root section with columns a header row; then the rows of its terms."""
    out = []
    for s in self.sections.values():
        if s.value != 'Root':
            out.append([''])
            out.append(['Section', s.value] + columns(s))
        elif columns(s):
            out.append(['Header', ''] + columns(s))
        for name, value in section_rows(s):
            n = title(name)
            out.append([n] + value if isinstance(value, list) else [n, value])
    return out


def title(name):
    return (name[5:] if name.startswith('root.') else name).title()


def esc(v):
    return v.replace('|', '\\|') if isinstance(v, str) else v


def section_lines(self):
    """A line for the section and its columns, unless it is the root section, then for each row a line, and one for each column with a value."""
    out = []
    if self.value != 'Root':
        out.append(('Section', '|'.join(esc(e) for e in [self.value] + columns(self))))
    for name, value in section_rows(self):
        if isinstance(value, list):
            out.append((title(name), esc(value[0])))
            for prop, v in zip(columns(self), value[1:]):
                if v and v.strip():
                    out.append(('    .' + prop.title(), esc(v)))
        else:
            out.append((title(name), esc(value)))
    return out


def doc_lines(self):
    return [l for s in self.sections.values() for l in section_lines(s)]


def sp_as_lines(self):
    """One line of text for each line, a section after an empty one."""
    out = []
    for t, v in doc_lines(self):
        if t == 'Section':
            out.append('')
        out.append('{}: {}'.format(t, v if v is not None else ''))
    return '\n'.join(out)


def sp_section_as_lines(self):
    return '\n'.join('{}: {}'.format(t, v if v is not None else '') for t, v in section_lines(self))
