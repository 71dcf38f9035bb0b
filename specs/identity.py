"""Specification of names and versions (property C10)."""
import re
import unicodedata
from uuid import uuid4
from metatab.terms import SectionTerm
from metatab.exc import MetatabError
from search import first_named, first_value, child, owned, rq_found


def slug(value):
    """Lower case ASCII without other characters than letters, digits, underscores, periods and hyphens; a hyphen for a run of hyphens and white space."""
    v = unicodedata.normalize('NFKD', value).encode('ascii', 'ignore').decode('ascii').strip().lower()
    return re.sub(r'[-\s]+', '-', re.sub(r'[^\w\s.-]', '', v))


def sp_slugify(value):
    return slug(str(value))


def lm_slug_chars(value):
    return bool(re.fullmatch(r'[a-z0-9_.-]*', slug(value))) and '--' not in slug(value)


def lm_slug_slug(value):
    return slug(slug(value)) == slug(value)


# Terms of the root section
def rq_root(self):
    """The document has a root section of its own, and its terms are in sections."""
    return 'root' in self.sections and self.sections['root'].value == 'Root' and self.sections['root'].doc is self and owned(self)


def first(self, name):
    return first_named(self, name, 'Root')


def value_of(self, name):
    return first_value(self, name, 'Root')


def rq_plain(self):
    """Names of terms derived from these have one dot."""
    return rq_found(self, 'Root.Version')


def rq_version(self):
    """What is found as a version is a term named so, with all of its major, minor and patch parts or with none of them."""
    v = first(self, 'Root.Version')
    return v is None or (not isinstance(v, SectionTerm) and v.record_term.lower() == 'version' and (semver(v) or no_semver(v)))


def semver(v):
    return child(v, 'Major') is not None and child(v, 'Minor') is not None and child(v, 'Patch') is not None


def no_semver(v):
    return child(v, 'Major') is None and child(v, 'Minor') is None and child(v, 'Patch') is None


def sp_has_semver(self):
    v = first(self, 'Root.Version')
    return v is not None and not no_semver(v)


def or_zero(x):
    return 0 if x is None else x


def joined(v):
    text = '{}.{}.{}'.format(child(v, 'Major').value, child(v, 'Minor').value, child(v, 'Patch').value)
    build = child(v, 'Build')
    return text if build is None else text + '.{}'.format(build.value)


def sp_update_version(self):
    """The version is its major, minor, patch and build parts joined by dots, if it has them, a part without a value being 0."""
    v = first(self, 'Root.Version')
    if v is None:
        return None
    if no_semver(v):
        return v.value
    for n in ('Major', 'Minor', 'Patch'):
        c = child(v, n)
        c.value = or_zero(c.value)
    v.value = joined(v)
    return v.value


def lm_version(self):
    """What is found as a version is a term named so."""
    v = first(self, 'Root.Version')
    return 'root.version' in self.derived_terms or v is None or (not isinstance(v, SectionTerm) and v.record_term.lower() == 'version')


def rq_names(self):
    return (rq_found(self, 'Root.Dataset') and rq_found(self, 'Root.Origin') and rq_found(self, 'Root.Time') and rq_found(self, 'Root.Space')
            and rq_found(self, 'Root.Grain') and rq_found(self, 'Root.Variant') and rq_found(self, 'Version.Patch') and rq_found(self, 'Version'))


def rq_parts(self):
    return not isinstance(first(self, 'Version.Patch'), SectionTerm) and not isinstance(first(self, 'Version'), SectionTerm)


def rq_unversioned(self):
    return first(self, 'Root.Version') is None and first(self, 'Version') is None


def rq_whole(self):
    """The version has no parts, and is the term found as such."""
    v = first(self, 'Root.Version')
    return v is not None and first(self, 'Version') is v and no_semver(v)


def rq_semver(self):
    """The version has its parts, of which the patch is the term found as such."""
    v = first(self, 'Root.Version')
    return v is not None and semver(v) and first(self, 'Version.Patch') is child(v, 'Patch')


def rq_new(mod_version):
    return mod_version != '' and mod_version[0] != '+' and mod_version[0] != '-'


def rq_up(mod_version):
    return mod_version != '' and mod_version[0] == '+'


def rq_down(mod_version):
    return mod_version != '' and mod_version[0] == '-'


def rq_text_whole(self):
    return isinstance(first(self, 'Version').value, str)


def rq_text_semver(self):
    return isinstance(first(self, 'Version.Patch').value, str)


def shifted(mv, shift):
    """The number, shifted by a number of one or more after a sign."""
    try:
        n = int(mv)
    except (ValueError, TypeError):
        raise MetatabError()
    by = int(shift[1:]) if shift[1:] else 1
    return str(n + by if shift[0] == '+' else n - by)


def sp_name(self, mod_version):
    """Slugs of the parts that are there and not blank, joined by hyphens; the version is the one of the document (False), none (None), the given one, or shifted."""
    dataset = value_of(self, 'Root.Dataset')
    origin = value_of(self, 'Root.Origin')
    time = value_of(self, 'Root.Time')
    space = value_of(self, 'Root.Space')
    grain = value_of(self, 'Root.Grain')
    variant = value_of(self, 'Root.Variant')
    sp_update_version(self)
    part = first(self, 'Version.Patch' if sp_has_semver(self) else 'Version')
    mv = None if part is None else part.value
    if mod_version is None:
        mv = None
    elif mod_version is not False:
        mv = shifted(mv, mod_version) if mod_version[0] == '+' or mod_version[0] == '-' else mod_version
    version = None
    if mv is not None:
        part.value = mv
        version = sp_update_version(self)
    return '-'.join([slug(str(e).replace('-', '_')) for e in (origin, dataset, time, space, grain, variant, version) if e and str(e).strip()])


def rq_as_new(ver):
    return rq_new(ver)


def rq_as_up(ver):
    return rq_up(ver)


def rq_as_down(ver):
    return rq_down(ver)


def sp_as_version(self, ver):
    """The name for the version; the document is left with its version up to date and nothing else changed."""
    sp_update_version(self)
    v = first(self, 'Root.Version')
    value = None if v is None else v.value
    patch = None if v is None else child(v, 'Patch')
    number = None if patch is None else patch.value
    try:
        return sp_name(self, ver)
    finally:
        if v is not None:
            v.value = value
        if patch is not None:
            patch.value = number


def identifier(self):
    return first(self, 'Root.Identifier')


def rq_identifier(self):
    """The root section has an identifier term."""
    return rq_found(self, 'Root.Identifier') and identifier(self) is not None and not isinstance(identifier(self), SectionTerm)


def sp_ensure_identifier(self):
    """The identifier has a value: the one it had, or else a new one."""
    t = identifier(self)
    if not t.value:
        t.value = str(uuid4())


def rq_update(self):
    """The document has a name term, and its identifier has a value."""
    n = first_named(self, 'Root.Name', None)
    return rq_found(self, 'Root.Name') and n is not None and not isinstance(n, SectionTerm) and bool(identifier(self).value)


def rq_no_dataset(self):
    return not value_of(self, 'Root.Dataset')


def rq_dataset(self):
    return bool(value_of(self, 'Root.Dataset'))


def sp_update_name(self, force, mod_version):
    """The name is the identity name if there is a dataset; else a name that is there stays, and an empty one becomes the identifier."""
    n = first_named(self, 'Root.Name', None)
    old = n.value
    ident = first_value(self, 'Root.Identifier', None)
    if value_of(self, 'Root.Dataset'):
        name = sp_name(self, mod_version)
        if name != old or force:
            n.value = name
    elif not old and ident:
        n.value = ident
