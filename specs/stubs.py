"""Assumed contracts of dependencies (pathlib, open files, application URLs), as classes the verifier runs in their place.

The state of the file system is one object: the text of each file, by the text of its path."""


def world():
    """The file system (given by the verifier)."""


def path_text(text):
    """The text of the path that a text names, which is its own text (given by the verifier)."""


def path_suffix(text):
    """The extension of a path (given by the verifier)."""


def file_of(text):
    """The open file at a path (given by the verifier)."""


def url_scheme(text):
    """The scheme of an application URL (given by the verifier)."""


def url_fspath(text):
    """The path in the file system of an application URL, or None (given by the verifier)."""


def url_path(text):
    """The path of an application URL (given by the verifier)."""


def url_resource(text):
    """What an application URL gives once it is fetched (given by the verifier)."""


def url_target(text):
    """The part of a resource that an application URL means (given by the verifier)."""


class Rows(object):
    pass


class World(object):
    pass


class File(object):

    def __enter__(self):
        return self

    def write(self, content):
        world().files[self.text] = world().files[self.text] + content.decode('utf8')

    def close(self):
        pass


class Path(object):

    @property
    def suffix(self):
        return path_suffix(self.text)

    def __str__(self):
        return self.text

    def open(self, mode):
        if mode != 'wb':
            raise NotImplementedError()
        world().files[self.text] = ''
        return file_of(self.text)

    def write_bytes(self, content):
        world().files[self.text] = content.decode('utf8')


class Url(object):

    @property
    def scheme(self):
        return url_scheme(self.text)

    @property
    def fspath(self):
        return url_fspath(self.text)

    def __str__(self):
        return self.text

    @property
    def path(self):
        return url_path(self.text)

    def get_resource(self):
        return url_resource(self.text)

    def get_target(self):
        return url_target(self.text)
