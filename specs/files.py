"""Specification of writing to files (property C12)."""
import csv
import io
import pathlib
from metatab import DEFAULT_METATAB_FILE
from metatab.exc import MetatabError, FormatError
from metatab.cli import make_metatab_file
from rowgenerators import parse_app_url
from stubs import world
from rows import doc_rows, sp_as_lines


def sp_as_csv(self):
    """The rows, as CSV."""
    s = io.StringIO()
    w = csv.writer(s)
    for row in doc_rows(self):
        w.writerow(row)
    return s.getvalue()


def target(self, path):
    """The local file that a path or URL, or else the reference of the document, names."""
    u = parse_app_url(str(path)) if path else self._ref
    if u.scheme != 'file':
        raise MetatabError()
    return pathlib.Path(u.fspath)


def rq_ref(self, path):
    """A document written without a path was read from a URL; the URL of a local file has a path."""
    u = parse_app_url(str(path)) if path else self._ref
    return (path or not isinstance(u, str)) and u is not None and (u.scheme != 'file' or u.fspath is not None)


def rq_again(self, path):
    """The path of a local file is the URL of that file."""
    u = parse_app_url(str(path)) if path else self._ref
    return u.scheme != 'file' or (str(pathlib.Path(u.fspath)) != '' and rq_ref(self, pathlib.Path(u.fspath)))


def put(path, text):
    world().files[str(path)] = text


def sp_write_path(self, path):
    return target(self, path)


def sp_write(self, content, path):
    """The file holds the content, and no other file changes."""
    self.cleanse()
    put(path, content)
    return path


def sp_write_csv(self, path):
    """A file that is not local or is not named so is refused with nothing changed; else it holds the document that writing brings up to date."""
    p = target(self, path)
    if p.suffix != '.csv':
        raise MetatabError()
    self.cleanse()
    put(p, sp_as_csv(self))
    return p


def sp_write_lines(self, path):
    p = target(self, path)
    if p.suffix != '.txt':
        raise MetatabError()
    self.cleanse()
    put(p, sp_as_lines(self))
    return p


def sp_write_any(self, path):
    p = target(self, path)
    if p.suffix == '.txt':
        sp_write_lines(self, p)
    elif p.suffix == '.csv':
        sp_write_csv(self, p)
    else:
        raise FormatError()


def sp_new_file(mt_file, template):
    """A file that is there stays as it is; else it is made from the template."""
    if mt_file in world().files:
        return False
    sp_write_csv(make_metatab_file(template if template else 'metatab'), mt_file)
    return True


def rq_new_file(mt_file):
    u = parse_app_url(mt_file)
    return mt_file != '' and (u.scheme != 'file' or u.fspath is not None)
