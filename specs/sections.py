"""Specification of sections (properties C06 and C07)."""
from metatab.terms import SectionTerm
from names import sp_split_lower
from os.path import basename
from identity import slug


def declared_columns(self, section_name):
    """The columns declared for a section, none when it is not declared."""
    d = self.decl_sections.get(section_name.lower(), {})
    return d.get('args', [])


def sp_section_args(self, section_name):
    return declared_columns(self, section_name)


def sp_get_section(self, name, default):
    """The section with the name, ignoring case; a missing one is an error unless there is a default."""
    if name.lower() in self.sections:
        return self.sections[name.lower()]
    if default is False:
        raise KeyError(name)
    return default


def sp_getitem(self, item):
    return sp_get_section(self, item, False)


def sp_contains(self, item):
    return item.lower() in self.sections


def sp_iter(self):
    return list(self.sections.values())


def sp_add_section(self, s):
    """A section is added at the end unless there is one with its name, which it then gives way to."""
    s.doc = self
    if s.value.lower() not in self.sections:
        self.sections[s.value.lower()] = s
    return self.sections[s.value.lower()]


def sp_get_or_new_section(self, name, params):
    if name.lower() not in self.sections:
        self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
    return self.sections[name.lower()]


def sp_new_section(self, name, params):
    s = SectionTerm(None, name, term_args=params, doc=self)
    self.sections[name.lower()] = s
    if name.lower() in self.decl_sections:
        s.args = self.decl_sections[name.lower()]['args']
    return s


def sp_delitem(self, item):
    """A section is removed with its terms; an absent one is not an error."""
    if item.lower() in self.sections:
        for t in self.sections[item.lower()].terms:
            self.terms.remove(t)
        del self.sections[item.lower()]


# Columns
def clean(args):
    return [a.strip() for a in args if a.strip()]


def sp_add_arg(self, arg, prepend):
    """Empty columns go, and the column is added, at the front or at the end, unless it is there in any case."""
    args = clean(self.args)
    if not any(a.lower() == arg.lower() for a in args):
        args = [arg.title()] + args if prepend else args + [arg.title()]
    self.args = args


def sp_remove_arg(self, arg):
    """Empty columns go, and the column in any case; no other."""
    self.args = [a.strip() for a in self.args if a.strip() and a.strip().lower() != arg.lower()]


def sp_set_section(self, v):
    self._section = v
    if v is not None:
        self._doc = v.doc


# Construction
def rq_name(term):
    return '.' not in term or '.' not in term.split('.', 1)[1]


def clean_value(value):
    """The value of a term: stripped text, and nothing for an empty or false one."""
    if not value:
        return None
    return value.strip() if isinstance(value, str) else value


def rq_new(self, parent):
    return self is not parent


def sp_init(self, term, value, term_args, row, col, file_name, file_type, parent, doc, section):
    """A new term has the two parts of its name, its cleaned value and arguments, its owners, and no children."""
    p, r = sp_split_lower(None, term)
    if parent is not None and p == 'root':
        p = parent.record_term
    self.parent = parent
    self._term = term
    self.parent_term = p
    self.record_term = r
    self._orig_term = term
    self.value = clean_value(value)
    self.args = [a.strip() for a in term_args] if term_args else []
    self._section = section
    if section is not None:
        self._doc = section.doc
    self.doc = doc
    self.file_name = slug(basename(file_name)) if file_name else '<none>'
    self.file_type = file_type
    self.row = row
    self.col = col
    assert parent is None or parent.record_term.lower() == p.lower()
    self.term_value_name = '@value'
    self.child_property_type = 'any'
    self.valid = None
    self.options = []
    self.children = []
    self._Term__initialised = True


def sp_section_init(self, term, value, term_args, row, file_name, file_type, doc):
    """A new section has the columns given, or else the ones declared for its name."""
    self.doc = doc
    self.default_term_value_name = '@value'
    self.terms = []
    sp_init(self, 'Root.Section' if term is None else term, value, term_args if term_args else declared_columns(doc, value), row, row, file_name, file_type, None, doc, None)
    self.header_args = []


def sp_root_init(self, file_name, file_type, doc):
    """The root section; it has the columns declared for it."""
    self.doc = doc
    self.default_term_value_name = '@value'
    self.terms = []
    sp_init(self, 'Root.Root', 'Root', declared_columns(doc, 'Root'), 0, 0, file_name, file_type, None, doc, None)
    self.header_args = []


def sp_sort_sections(self, order):
    """The named sections in the order of the names, then all others in the order they had."""
    names = [n.lower() for n in order]
    new = {}
    for n in names:
        if n in self.sections:
            new[n] = self.sections[n]
    for k in self.sections:
        if k not in names:
            new[k] = self.sections[k]
    assert len(self.sections) == len(new)
    self.sections = new
