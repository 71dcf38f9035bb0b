"""Specification of edits of a document (property C06)."""


def once(xs, x):
    """x is at most once in the list."""
    ys = list(xs)
    if x in ys:
        ys.remove(x)
    return x not in ys


def sp_sec_take(self, term):
    """Exactly the term goes from the section; one that is not there is not an error."""
    if term in self.terms:
        self.terms.remove(term)


def drop(self, t):
    """The term goes from the document and from its section."""
    if t in self.terms:
        self.terms.remove(t)
    if t._section is not None and t.parent_term.lower() == 'root':
        t._doc = self
        if t in t._section.terms:
            t._section.terms.remove(t)


def rq_in_doc(self, t):
    """The term is at most once in its document, and its parent is in the same document."""
    return once(self.terms, t) and (t.parent is None or (t.parent is not t and t.parent.doc is self and once(t.parent.children, t)))


def registered(self, s):
    """The section is the one of the document with its name."""
    return s.doc is self and s.value.lower() in self.sections and self.sections[s.value.lower()] is s


def rq_in_section(self, t):
    return t._section is None or (registered(self, t._section) and once(t._section.terms, t))


def sp_remove_term(self, t):
    drop(self, t)
    if t.parent is not None and t in t.parent.children:
        t.parent.children.remove(t)


def rq_child_doc(self, child):
    return self.doc is not None and child.parent is self and rq_in_doc(self.doc, child)


def rq_child_section(self, child):
    return rq_in_section(self.doc, child)


def sp_remove_child(self, child):
    self.children.remove(child)
    drop(self.doc, child)


def rq_sec_doc(self, term):
    return rq_in_doc(self.doc, term)


def rq_sec_section(self, term):
    return rq_in_section(self.doc, term) and once(self.terms, term)


def sp_sec_remove_term(self, term):
    sp_sec_take(self, term)
    sp_remove_term(self.doc, term)
