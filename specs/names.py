"""Specification of term names (properties C01)."""


def sp_split(cls, term):
    if '.' in term:
        p, r = term.split('.')
        p = p.strip()
        r = r.strip()
        return (p if p != '' else '<elided_term>', r)
    return ('root', term.strip())


def sp_split_lower(cls, term):
    p, r = sp_split(None, term)
    return (p.lower(), r.lower())


def sp_normalize(cls, term):
    p, r = sp_split(None, term)
    return p.lower() + '.' + r.lower()


def sp_join(self):
    return self.parent_term + '.' + self.record_term


def sp_join_lc(self):
    return self.parent_term.lower() + '.' + self.record_term.lower()


def sp_record_lc(self):
    return self.record_term.lower()


def sp_parent_lc(self):
    return self.parent_term.lower()


def sp_term_is(self, v):
    """A pattern or a list of patterns; a term matches exactly by its joined name, or part by part where a part is the wildcard.
    A pattern of more than two parts is an error."""
    if isinstance(v, str):
        if '.' in v and '.' in v.split('.', 1)[1]:
            raise ValueError
        return is_match(self.parent_term, self.record_term, v)
    return any(sp_term_is(self, e) for e in v)


def is_match(parent, record, v):
    """The pattern has at most one dot; one with more matches nothing."""
    full = v if '.' in v else 'root.' + v
    if '.' in full.split('.', 1)[1]:
        return False
    p, r = sp_split_lower(None, full)
    exact = parent.lower() + '.' + record.lower() == full.lower()
    if p == '*':
        return r == '*' or r == record.lower() or exact
    if r == '*':
        return p == parent.lower() or exact
    return exact


def sp_set_term(self, v):
    self._term = v
    p, r = sp_split_lower(None, v)
    self.record_term = r
    self.parent_term = self.parent.record_term if self.parent is not None and p == 'root' else p


def lm_match(self, v):
    """For names and patterns without padding, the match is the one of the documentation, part by part."""
    if '.' in self.parent_term or '.' in self.record_term:
        return True
    if '.' in v:
        parts = v.split('.', 1)
        if parts[0].strip() != parts[0] or parts[1].strip() != parts[1] or parts[0] == '' or '.' in parts[1]:
            return True
        p, r = parts[0].lower(), parts[1].lower()
    else:
        if v.strip() != v:
            return True
        p, r = 'root', v.lower()
    want = (p == '*' or p == self.parent_term.lower()) and (r == '*' or r == self.record_term.lower())
    return is_match(self.parent_term, self.record_term, v) == want


def lm_match_case(self, v):
    """Matching ignores case: every pattern matches what its lower case form matches."""
    if '.' in v and '.' in v.split('.', 1)[1]:
        return True
    return is_match(self.parent_term, self.record_term, v) == is_match(self.parent_term, self.record_term, v.lower())


def lm_normal_idempotent(term):
    """Normalising a normalised name changes nothing."""
    if '.' in term and '.' in term.split('.', 1)[1]:
        return True
    n = sp_normalize(None, term)
    return sp_normalize(None, n) == n


def lm_join_split(self):
    """Splitting the joined name gives back the two parts (of a name without padding)."""
    a, b = self.parent_term, self.record_term
    if '.' in a or '.' in b or a.strip() != a or b.strip() != b or a == '':
        return True
    return sp_split(None, sp_join(self)) == (a, b)
