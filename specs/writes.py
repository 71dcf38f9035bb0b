"""Specification of term classes, and of adding terms and properties (properties C05, C06, C11)."""
from metatab.parser import TermParser
from metatab.terms import Term
from metatab.util import import_name_or_class
from names import sp_split
from search import child
from props import prop
from sections import clean_value, sp_add_section, sp_set_section
from edits import rq_child_doc, rq_child_section, sp_remove_child, once, sp_sec_take, rq_in_doc, rq_in_section, sp_remove_term, registered
from metatab.exc import GenerateError


def sp_register(cls, term_name, class_or_name):
    TermParser.term_classes[term_name.lower()] = class_or_name


def sp_unregister(cls, term_name):
    if term_name.lower() in TermParser.term_classes:
        del TermParser.term_classes[term_name.lower()]


def term_class(self, term_name):
    """The class registered for the name, else the one for the name it inherits from, else the plain class."""
    n = term_name.lower()
    if n in TermParser.term_classes:
        return import_name_or_class(TermParser.term_classes[n])
    if n in self.super_terms and self.super_terms[n] in TermParser.term_classes:
        return import_name_or_class(TermParser.term_classes[self.super_terms[n]])
    return Term


def declared(self, name, key, default):
    """What the declarations say about the terms of a name."""
    return self.decl_terms.get(name, {}).get(key, default)


def rq_declared(self):
    return self.doc is not None


def rq_plain(self, term):
    """The property has a simple name, and the term a normal one."""
    return '.' not in term and '.' not in self.record_term and self.record_term == self.record_term.lower() and self.record_term == self.record_term.strip() and self.record_term != ''


def make(self, term, value):
    """A new term with this one as its parent, in the same document and section, of the class for the name."""
    return term_class(self.doc, term)(term, value, parent=self, doc=self.doc, section=self._section)


def sp_new_child(self, term, value):
    c = make(self, term, value)
    c.term_value_name = declared(self.doc, c.parent_term + '.' + c.record_term, 'termvaluename', '@value')
    assert c.record_term != 'section'
    self.children.append(c)
    return c


def sp_add_child(self, child):
    self.children.append(child)
    child.parent = self
    assert not (child.parent_term.lower() == 'datafile' and child.record_term.lower() == 'section')


def sp_get_or_new_child(self, term, value):
    """The first property with the name gets the value, unless there is no value; if there is none, a new property is the last one."""
    rt = sp_split(None, term)[1]
    c = child(self, rt)
    if c is None:
        c = make(self, self.record_term + '.' + rt, value)
        assert not (self.record_term.lower() == 'datafile' and rt.lower() == 'section')
        self.children.append(c)
    elif value is not False:
        c.value = value
    return c


def rq_set_name(self, item):
    return rq_plain(self, item) and item == item.strip()


def rq_set_value(value):
    """A value that is kept as it is: text without padding, or nothing; numbers other than zero."""
    return value is None or value == '' or clean_value(value) == value


def rq_set_doc(self, item):
    """A property that is to be removed is in the document as it should be."""
    c = child(self, item)
    return c is None or rq_child_doc(self, c)


def rq_set_section(self, item):
    c = child(self, item)
    return c is None or rq_child_section(self, c)


def sp_setitem(self, item, value):
    """Sets the value of the term, or of its first property with the name, which is made if need be, and removed for None."""
    if item.lower() == self.term_value_name.lower() or item.lower() == 'value':
        self.value = value
    elif value is None:
        c = child(self, item)
        if c is not None:
            sp_remove_child(self, c)
    else:
        sp_get_or_new_child(self, item, value)


# Lemmas
def lm_set_get(self, item, value, name):
    """After setting a property its value is read back, under any case of the name; None is read back as absence."""
    if not (rq_declared(self) and rq_set_name(self, item) and rq_set_value(value)) or value is None or value == '' or name.lower() != item.lower() or item.lower() in ('value', 'section'):
        return True
    sp_setitem(self, item, value)
    return prop(self, name) is not None and prop(self, name).value == value


def lm_set_other(self, item, value, other):
    """Setting a property changes no other one."""
    if not (rq_declared(self) and rq_set_name(self, item) and rq_set_value(value)) or value is None or '.' in other or item.lower() == 'section' or child(self, item) is self:
        return True
    v = self.value
    a = prop(self, other)
    av = None if a is None else a.value
    sp_setitem(self, item, value)
    if item.lower() == other.lower() or item.lower() == self.term_value_name.lower() or item.lower() == 'value':
        return True
    b = prop(self, other)
    return self.value == v and b is a and (b is None or b.value == av)


# Terms
def is_root(t):
    return t.parent_term.lower() + '.' + t.record_term.lower() == 'root.root'


def doc_add(self, t):
    """The term is at the end of the document, once, with the type and value name that are declared for it."""
    t.doc = self
    if t in self.terms:
        return
    assert t._section is not None or is_root(t)
    self.terms.append(t)


def doc_declared(self, t):
    join = t.parent_term + '.' + t.record_term
    if not t.child_property_type or t.child_property_type == 'any':
        t.child_property_type = declared(self, join, 'childpropertytype', 'any')
    if not t.term_value_name or t.term_value_name == t._section.default_term_value_name:
        t.term_value_name = declared(self, join, 'termvaluename', t._section.default_term_value_name)


def sp_doc_add_only(self, t):
    if t in self.terms:
        t.doc = self
        return
    doc_add(self, t)
    doc_declared(self, t)


def rq_add(self, t):
    """The document of a section is known, and a term is in a section at most once."""
    return t._section is None or t._section is self or once(t._section.terms, t)


def sp_sec_add_term(self, t):
    """A top level term moves to the end of the section, and to the end of its document unless it is there."""
    if t not in self.terms:
        if t.parent_term.lower() != 'root':
            raise GenerateError()
        old = t._section
        if old is not None and old is not self and old.doc is self.doc:
            sp_sec_take(old, t)
        self.terms.append(t)
        t._section = self
        sp_doc_add_only(self.doc, t)
        t.set_ownership()
    assert t._section is not None or is_root(t)


def rq_add_doc(self, t):
    return t._section is None or (t._section.value.lower() in self.sections) == False or self.sections[t._section.value.lower()].doc is self


def sp_doc_add_term(self, t):
    """A top level term is at the end of the document and of the section of its name there, which is made if need be."""
    if t in self.terms:
        t.doc = self
        return
    doc_add(self, t)
    if t._section is not None and t.parent_term.lower() == 'root':
        sp_set_section(t, sp_add_section(self, t._section))
        sp_sec_add_term(t._section, t)
    doc_declared(self, t)


def sp_new_term(self, term, value):
    """A new top level term of the class for its name, in this section."""
    t = term_class(self.doc, term)(term, value, parent=None, doc=self.doc, section=self)
    sp_doc_add_term(self.doc, t)
    return t


def rq_top(self, term):
    """A simple name, and a section of its document."""
    return '.' not in term and registered(self.doc, self)


# Lemmas: what adding a term establishes
def lm_added(self, t):
    """After adding a top level term it is in the section and the document, the section is its section, and its old section in the document does not have it."""
    if t.parent_term.lower() != 'root':
        return True
    old = t._section
    if old is not None and not once(old.terms, t):
        return True
    if t in self.terms and (old is not self or t not in self.doc.terms):
        return True
    doc = self.doc
    left = old is not None and old is not self and old.doc is doc
    sp_sec_add_term(self, t)
    return t in self.terms and t in doc.terms and t._section is self and (not left or t not in old.terms)


def lm_removed(self, t):
    """After removing a top level term neither the document nor its section has it, and no other term has gone."""
    if t.parent_term.lower() != 'root' or t._section is None or not rq_in_doc(self, t) or not rq_in_section(self, t):
        return True
    sec = t._section
    sp_remove_term(self, t)
    return t not in self.terms and t not in sec.terms


def lm_remove_frame(self, t, u):
    if u is t or not rq_in_doc(self, t) or not rq_in_section(self, t) or u not in self.terms:
        return True
    sp_remove_term(self, t)
    return u in self.terms
