"""Specification of where included files and declarations are found (property C13)."""
from os.path import join, exists, dirname
from metatab.exc import IncludeError
from rowgenerators import parse_app_url
from rowgenerators.exceptions import RowGeneratorError
from os.path import normpath
from rowgenerators import get_generator
from metatab.exc import GenerateError
from metatab.terms import Term
from parse import term_class, row_name, rq_one_dot
import metatabdecl


def sp_find_include(self, d, name):
    """An address on the web, or a file relative to the directory of the including file, which must be known."""
    ref = name.strip('/')
    if ref.startswith('http'):
        return parse_app_url(ref)
    if not d:
        raise IncludeError()
    return parse_app_url(join(d, ref))


def sp_declaration_path(name):
    """A standard declaration, with or without its extension."""
    d = dirname(metatabdecl.__file__)
    if exists(join(d, name)):
        return join(d, name)
    if exists(join(d, name + '.csv')):
        return join(d, name + '.csv')
    raise IncludeError()


def sp_find_declare(self, d, name):
    """The first there is of: the file of that path, a standard declaration, a file beside the document, each with or without extension; or an address on the web."""
    std = dirname(metatabdecl.__file__)
    if exists(name):
        return parse_app_url(name)
    for p in (join(std, name), join(std, name + '.csv'), join(d, name), join(d, name + '.csv')):
        if exists(p):
            return parse_app_url(p)
    if name.startswith('http'):
        return parse_app_url(name.strip('/'))
    raise IncludeError()


def rq_path(d, name):
    """Paths that join makes are not empty."""
    return join(d, name) != '' and join(d, name + '.csv') != ''


def rq_include(row):
    return rq_one_dot(row) and row_name(row) == 'root.include' and len(row) == 2 and row[1].strip() != ''


def rq_declare(row):
    return rq_one_dot(row) and row_name(row) == 'root.declare' and len(row) == 2 and row[1].strip() != ''


def rq_paths(row, ref_path):
    return rq_path(dirname(ref_path), row[1].strip())


def spliced(self, row, line_n, ref_path, file_type, root, included_from, last_section):
    """The term of an include or declaration row, then the terms of the file it names, then the section that was in force, so that it is again. A file
    that is being included already is an error, and so is one that cannot be read; these are include errors."""
    Term(row[0], None)
    t = term_class(self, row_name(row))(row_name(row), row[1], [], row=line_n, col=1, file_name=ref_path, file_type=file_type, doc=self._doc)
    if row_name(row) == 'root.include':
        url = sp_find_include(self, dirname(ref_path), row[1].strip())
    else:
        url = sp_find_declare(self, dirname(ref_path), row[1].strip())
    if normpath(url.path) in included_from:
        raise IncludeError()
    try:
        terms = self.generate_terms(get_generator(url.get_resource().get_target()), root, t.record_term.lower(), included_from)
    except (OSError, GenerateError, RowGeneratorError):
        raise IncludeError()
    return ([t] + terms + [last_section], ref_path, file_type, root, included_from, last_section)
