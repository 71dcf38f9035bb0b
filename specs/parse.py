"""Specification of one step of parsing (property C03): what a term that comes from a row does to the document."""
from names import sp_split_lower
from sections import sp_set_section
from writes import sp_add_child, sp_sec_add_term, rq_add
from props import columns as section_columns
from metatab.exc import ParserError
from metatab.parser import TermParser
from metatab.terms import Term, SectionTerm
from metatab.util import import_name_or_class

ELIDED = '<elided_term>'


def synonyms(self):
    """For every declared name that has a synonym, the name it stands for, unqualified names being children of the root."""
    out = {}
    for k, v in self._declared_terms.items():
        k = k.strip()
        if v.get('synonym'):
            out[k.lower()] = v['synonym']
            if '.' not in k:
                out['root.' + k.lower()] = v['synonym']
    return out


def final_name(self, t):
    """A synonym is replaced by what it stands for, and a number by the column with that number."""
    p = t.parent_term
    r = t.record_term
    syn = synonyms(self)
    if p.lower() + '.' + r.lower() in syn:
        p, r = sp_split_lower(None, syn[p.lower() + '.' + r.lower()])
    try:
        return (p, str(self._param_map[int(r)]))
    except ValueError:
        return (p, r)
    except IndexError:
        return (p, r)


def renamed(self, t):
    p, r = final_name(self, t)
    t.parent_term = p
    t.record_term = r


def columns(args):
    """The names of columns in lower case, or their number if they have none."""
    return [a.lower() if a else i for i, a in enumerate(args)]


def declared(self, name, key, default):
    return self._declared_terms.get(name, {}).get(key, default)


def describe(self, t, value_name):
    """A term has the type and value name declared for its name."""
    n = t.parent_term + '.' + t.record_term
    t.child_property_type = declared(self, n, 'childpropertytype', 'any')
    t.term_value_name = declared(self, n, 'termvaluename', value_name)
    t.valid = t.parent_term.lower() + '.' + t.record_term.lower() in self._declared_terms
    t.options = declared(self, n, 'options', '').split(',')


def sp_term(self, t, last_parent_term, last_term_map, default_term_value_name, last_section):
    """A header row gives the section its columns. Any other becomes a child of its parent: of the latest term of its parent's name, or, if that is elided
    or the term comes from a cell, of the latest term that is neither. Children of the root are the terms of the section."""
    renamed(self, t)
    sp_set_section(t, last_section)
    if t.parent_term.lower() == 'root' and t.record_term.lower() == 'header':
        self._param_map = columns(t.args)
        name = t.value.lower() if t.value else '@value'
        last_section.header_args = t.args
        last_section.default_term_value_name = name
        return ([], last_parent_term, last_term_map, name, last_section)
    elided = t.parent_term == ELIDED
    if elided:
        t.parent_term = last_parent_term
    describe(self, t, default_term_value_name)
    if elided or t.col > 1:
        sp_add_child(last_term_map[last_parent_term], t)
    else:
        if t.parent_term not in last_term_map:
            raise ParserError()
        sp_add_child(last_term_map[t.parent_term], t)
        last_parent_term = t.record_term
        last_term_map[ELIDED] = t
        last_term_map[t.record_term] = t
    if t.parent_term.lower() == 'root':
        sp_sec_add_term(last_section, t)
    return ([t], last_parent_term, last_term_map, default_term_value_name, last_section)


def rq_synonym(self, t):
    """A synonym stands for a name of at most two parts."""
    syn = synonyms(self)
    n = t.parent_term.lower() + '.' + t.record_term.lower()
    return n not in syn or '.' not in syn[n] or '.' not in syn[n].split('.', 1)[1]


def rq_term(self, t):
    """A term that does not come from a declaration, and is not a section."""
    if not rq_synonym(self, t):
        return False
    p, r = final_name(self, t)
    n = p.lower() + '.' + r.lower()
    return t.file_type != 'declare' and n != 'root.section' and n != 'root.root'


def column_of(t):
    try:
        return int(t.record_term)
    except ValueError:
        return None


def rq_named(self, t):
    """A term with a name of its own: not a synonym, and no number."""
    n = t.parent_term.lower() + '.' + t.record_term.lower()
    return n not in synonyms(self) and column_of(t) is None and t.file_type != 'declare' and n != 'root.section' and n != 'root.root'


def rq_row(t):
    """A term from the first cell of a row."""
    return t.col == 1


def rq_header(t):
    return t.parent_term.lower() + '.' + t.record_term.lower() == 'root.header'


def rq_no_header(t):
    return t.parent_term.lower() + '.' + t.record_term.lower() != 'root.header'


def rq_top(t):
    return t.parent_term.lower() == 'root'


def rq_elided(t):
    return t.parent_term == ELIDED


def rq_child(t):
    return t.parent_term.lower() != 'root' and t.parent_term != ELIDED


def rq_cell(self, t):
    """A term from another cell, named by the number of its column."""
    n = t.parent_term.lower() + '.' + t.record_term.lower()
    return n not in synonyms(self) and isinstance(t.col, int) and t.col > 1 and column_of(t) is not None and t.file_type != 'declare' and t.parent_term.lower() != 'root'


def rq_stands(self, t):
    """A term whose name is a synonym of another name, which is no number and that of no section."""
    n = t.parent_term.lower() + '.' + t.record_term.lower()
    syn = synonyms(self)
    if n not in syn or not rq_synonym(self, t) or t.file_type == 'declare':
        return False
    p, r = sp_split_lower(None, syn[n])
    return no_number(r) and p + '.' + r != 'root.section' and p + '.' + r != 'root.root' and p + '.' + r != 'root.header'


def no_number(s):
    try:
        int(s)
    except ValueError:
        return True
    return False


def rq_own(self, t):
    n = t.parent_term.lower() + '.' + t.record_term.lower()
    return n not in synonyms(self) and column_of(t) is None and t.file_type != 'declare'


def rq_section(t):
    return t.parent_term.lower() + '.' + t.record_term.lower() == 'root.section'


def rq_root(t):
    return t.parent_term.lower() + '.' + t.record_term.lower() == 'root.root'


def sp_section(self, t, last_parent_term, last_term_map, default_term_value_name, last_section):
    """A section row: its columns are in force, and the rows that follow are in it; parents are those of the section."""
    sp_set_section(t, last_section)
    self._param_map = columns(t.args)
    sp_set_section(t, None)
    return ([t], self.root.record_term, last_term_map, '@value', t)


def sp_root(self, t, last_parent_term, last_term_map, default_term_value_name, last_section):
    """Back in the root section: its columns and its value name are in force again."""
    sp_set_section(t, last_section)
    self._param_map = columns(section_columns(t))
    sp_set_section(t, None)
    return ([t], last_parent_term, last_term_map, t.default_term_value_name, t)


# Classes
def super_terms(self):
    """What each name inherits from: as the document knows already, or as declared."""
    if self._doc.super_terms:
        return self._doc.super_terms
    return {k.lower(): v['inheritsfrom'].lower() for k, v in self._declared_terms.items() if 'inheritsfrom' in v}


def term_class(self, term_name):
    """The class registered for the name, else the one for the name it inherits from, else the plain class."""
    n = term_name.lower()
    if n in TermParser.term_classes:
        return import_name_or_class(TermParser.term_classes[n])
    sup = super_terms(self)
    if n in sup and sup[n] in TermParser.term_classes:
        return import_name_or_class(TermParser.term_classes[sup[n]])
    return Term


# Rows
def is_comment(row):
    """A row that is empty, has no name, or starts with a comment sign."""
    return len(row) == 0 or row[0].strip() == '' or row[0].strip()[0] == '#'


def rq_blank(row):
    return is_comment(row)


def row_name(row):
    p, r = sp_split_lower(None, row[0])
    return p + '.' + r


def rq_one_dot(row):
    return not is_comment(row) and ('.' not in row[0] or '.' not in row[0].split('.', 1)[1])


def rq_plain_row(row):
    """A row with a name, not that of a section, an include or a declaration."""
    return rq_one_dot(row) and row_name(row) != 'root.include' and row_name(row) != 'root.declare' and row_name(row) != 'root.section' and row_name(row) != 'root.root'


def rq_no_cells(row):
    return len(row) <= 2


def sp_row(self, row, line_n, ref_path, file_type, root, included_from, last_section):
    """A blank row or a comment is nothing; another one is a term of the class for its name, with the value in its second cell and the others as its arguments."""
    if is_comment(row):
        return ([], ref_path, file_type, root, included_from, last_section)
    Term(row[0], None)
    t = term_class(self, row_name(row))(row_name(row), row[1] if len(row) > 1 else '', row[2:] if len(row) > 2 else [], row=line_n, col=1, file_name=ref_path, file_type=file_type, doc=self._doc)
    return ([t], ref_path, file_type, root, included_from, last_section)


def rq_cell_name(t):
    return '.' not in t.record_term and t.record_term.strip() == t.record_term and t.record_term != ''


def sp_cell(self, col, value, t, ref_path, file_type, line_n):
    """A cell that is not blank is a term named by its column's number, child of the term of the row."""
    if value.strip() == '':
        return ([], t, ref_path, file_type, line_n)
    n = t.record_term.lower() + '.' + str(col)
    c = term_class(self, n)(n, value, [], row=line_n, col=col + 2, file_name=ref_path, file_type=file_type, parent=t)
    return ([c], t, ref_path, file_type, line_n)


def rq_header_row(row):
    return rq_one_dot(row) and row_name(row) == 'root.header'


def rq_section_row(row):
    return rq_one_dot(row) and row_name(row) == 'root.section' and len(row) > 1 and row[1].strip() != ''


def rq_section_class(self):
    """Sections have their own class."""
    return 'root.section' in TermParser.term_classes and TermParser.term_classes['root.section'] == 'metatab.terms.SectionTerm'


def sp_section_row(self, row, line_n, ref_path, file_type, root, included_from, last_section):
    """A section row is the section of that name if the document has one, and a new section otherwise."""
    Term(row[0], None)
    t = SectionTerm('root.section', row[1], row[2:] if len(row) > 2 else [], row=line_n, col=1, file_name=ref_path, file_type=file_type, doc=self._doc)
    if row[1].strip().lower() in self._doc.sections:
        t = self._doc.sections[row[1].strip().lower()]
    return ([t], ref_path, file_type, root, included_from, t)


def rq_sections(self, row):
    """The section of that name is an ordinary one, not the root section."""
    n = row[1].strip().lower()
    if n not in self._doc.sections:
        return True
    s = self._doc.sections[n]
    return s.parent_term.lower() + '.' + s.record_term.lower() == 'root.section'
