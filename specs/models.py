"""Assumed contracts of what the verifier does not execute: dependencies, and the few language features it has no rule for."""
import ast
import z3
from pyvc.values import *
from pyvc.engine import *
from pyvc import strs as ST

T = 'metatab.terms:Term.'

CLASSES = z3.IntVal(-7)        # the object that holds the class-level registry of term classes
IMPORTED = z3.Function('imported', Val, Val)


def term_classes(eng):
    return eng.read_field(Obj(CLASSES, ['TermParser']), 'term_classes', eng.fieldtypes[('TermParser', 'term_classes')])


def imported(eng, args, kwargs):
    """A class, or the class a dotted name names: a function of the name (importing has no other effect)."""
    z = eng.zval(args[0])
    for n, c in (('metatab.terms.SectionTerm', 'SectionTerm'), ('metatab.terms.RootSectionTerm', 'RootSectionTerm')):
        if eng.must(z == Val.VStr(z3.StringVal(n))):
            return ClassV(eng.repo.classes[c])
    return ValS(IMPORTED(eng.zval(args[0])))


def call_value(eng, f, args, kwargs):
    """An object of a class that is only known at run time: of class Term or one that behaves like it. Which class it was is kept in a ghost field."""
    eng.used_models.add('call_value')
    o = eng.alloc('Term')
    eng.hwrite(o.z, '$class', f.z)
    eng.call_func(eng.repo.lookup('Term', '__init__')[1], [o] + args, kwargs)
    return o


MODELS = {
    ('classattr', 'TermParser', 'term_classes'): term_classes,
    'metatab.util:import_name_or_class': imported,
    'call_value': call_value,
}


def set_ownership(eng, args, kwargs):
    """The descendents of a term get its document and section, and each child its parent; nothing else changes (not the term itself: it is not its own descendent)."""
    t = args[0]
    sec = eng.getattr_(t, '_section')
    if eng.fork(eng.eq(sec, PyC(None))):
        raise PyRaise(ExcV('AssertionError'))
    sec = eng.kind(sec)
    doc = eng.getattr_(t, 'doc')
    ch = eng.harr('children')
    for a, v in (('parent', eng.zval(t)), ('_section', eng.zval(sec)), ('doc', eng.zval(doc))):
        old = eng.harr(a)
        f = ST.uf('owned_' + a, HEAP, HEAP, z3.IntSort(), Val, HEAP)
        new = f(old, ch, t.z, v)
        eng.st.heap[a] = new
        for r in (t.z, sec.z):
            eng.fact(z3.Select(new, r) == z3.Select(old, r))
    return PyC(None)


MODELS[T + 'set_ownership'] = set_ownership


def record_lower(eng, z):
    return z3.Implies(Val.is_VStr(z), eng.S.lower(Val.vs(z)) == Val.vs(z))


# Invariants of fields that a contract may assume: what it rests on is established by the contracts of the functions that set the field
INVS = {'record names are lower case': ('record_term', record_lower)}


# Paths, application URLs and files: values of their text (specs/stubs.py); the file system is one object
WORLD = z3.IntVal(-9)


def value_object(cname):
    ref = z3.Function('ref_' + cname, STR, INT)
    text = z3.Function('text_of_' + cname, INT, STR)

    def make(eng, s):
        z = eng.zstr(s)
        r = ref(z)
        eng.fact(text(r) == z)
        eng.fact(r < -100)
        eng.fact(eng.cls_of(r) == eng.cid[cname])
        o = Obj(r, [cname])
        eng.fact(z3.Select(eng.harr(eng.heap_name(o, 'text')), r) == Val.VStr(z))
        return o
    return make


mk_path, mk_file, mk_url = value_object('Path'), value_object('File'), value_object('Url')


def str_arg(eng, v):
    v = eng.kind(v)
    if isinstance(v, Obj) and 'Path' in v.cls:
        return eng.to_str(v)
    if not isinstance(v, Str) and not (isinstance(v, PyC) and isinstance(v.v, str)):
        raise PyRaise(ExcV('TypeError'))
    return v


def path(eng, args, kwargs):
    if len(args) != 1 or kwargs:
        raise Unsupported('Path of several parts')
    return mk_path(eng, path_text(eng, [str_arg(eng, args[0])], {}))


def path_text(eng, args, kwargs):
    f = ST.uf('path_text', STR, STR)
    z = f(eng.zstr(args[0]))
    eng.fact(f(z) == z)
    return Str(z)


def of_text(name, sort, wrap):
    def m(eng, args, kwargs):
        return wrap(eng, ST.uf(name, STR, sort)(eng.zstr(str_arg(eng, args[0]))))
    return m


def opt_str(eng, z):
    eng.fact(z3.Or(Val.is_VNone(z), Val.is_VStr(z)))
    return ValS(z, TOr(TNone, TStr))


def silent(eng, args, kwargs):
    return PyC(None)


MODELS.update({
    'stubs:world': lambda eng, args, kwargs: Obj(WORLD, ['World']),
    'stubs:path_text': path_text,
    'stubs:path_suffix': of_text('path_suffix', STR, lambda eng, z: Str(z)),
    'stubs:file_of': lambda eng, args, kwargs: mk_file(eng, args[0]),
    'stubs:url_scheme': of_text('url_scheme', STR, lambda eng, z: Str(z)),
    'stubs:url_fspath': of_text('url_fspath', Val, opt_str),
    'pathlib.Path': path,
    'rowgenerators.parse_app_url': lambda eng, args, kwargs: mk_url(eng, str_arg(eng, args[0])),
    'logging.getLogger': lambda eng, args, kwargs: ExtV('logger'),
    'logger.debug': silent, 'logger.info': silent, 'logger.warning': silent, 'logger.error': silent,
})


def opaque_method(key, keep=()):
    """A method whose effects on the document are not looked into: some function of the state, the same wherever it is called; doing it again changes nothing more."""
    def m(eng, args, kwargs):
        self = args[0]
        names = sorted(eng.arrays({a for _, a in eng.fieldtypes} - set(keep)))
        old = [eng.harr(a) for a in names]
        if all(z3.is_app(z) and z.decl().name() == 'opaque:%s:%s' % (key, a) and z.arg(0).eq(self.z) for a, z in zip(names, old)) and \
                all(z.children()[1:] == old[0].children()[1:] for z in old):
            return PyC(None)
        for a in names:
            eng.st.heap[a] = ST.uf('opaque:%s:%s' % (key, a), INT, *([HEAP] * len(old) + [HEAP]))(self.z, *old)
        eng.st.next = ST.uf('opaque:%s:next' % key, INT, *([HEAP] * len(old) + [INT, INT]))(*([self.z] + old + [eng.st.next]))
        return PyC(None)
    return m


def stream(eng, args, kwargs):
    if args or kwargs:
        raise Unsupported('StringIO with an argument')
    return eng.new_cell(ListV([]))


def csv_writer(eng, args, kwargs):
    if len(args) != 1 or kwargs or not isinstance(args[0], Loc):
        raise Unsupported('csv.writer')
    return args[0]


MODELS.update({
    'metatab.doc:MetatabDoc.cleanse': opaque_method('cleanse', ('files', 'text', '$class')),
    'io.StringIO': stream, 'csv.writer': csv_writer,
})


def uuid4(eng, args, kwargs):
    """The next of a stream of identifiers, none of them empty."""
    w = Obj(WORLD, ['World'])
    n = eng.read_field(w, 'uuids', TInt)
    eng.write_field(w, 'uuids', Int(eng.zint(n) + 1))
    z = ST.uf('uuid', INT, STR)(eng.zint(n))
    eng.fact(z != z3.StringVal(''))
    return Str(z)


MODELS['uuid.uuid4'] = uuid4


def file_exists(eng, args, kwargs):
    files = eng.read_field(Obj(WORLD, ['World']), 'files', eng.fieldtypes[('World', 'files')])
    return eng.mkbool(eng.contains(files, args[0]))


def template_doc(eng, args, kwargs):
    """The document read from a template: which one depends on its name only, and it is none of the documents there are."""
    r = ST.uf('template_doc', STR, INT)(eng.zstr(str_arg(eng, args[0])))
    eng.fact(r < -1000)
    eng.fact(eng.cls_of(r) == eng.cid['MetatabDoc'])
    return Obj(r, ['MetatabDoc'])


MODELS.update({'os.path.exists': file_exists, 'genericpath.exists': file_exists, 'metatab.cli:make_metatab_file': template_doc})


def never_stale(eng, args, kwargs):
    """A cached function whose cache is cleared whenever what it reads changes: the value of its body."""
    from pyvc.source import FuncInfo
    f = eng.repo.func('metatab.parser:TermParser.super_terms')
    if [ast.unparse(d) for d in f.node.decorator_list] != ['lru_cache()']:
        raise Unsupported('decorated function ' + f.key)
    return eng.inline(FuncInfo(f.module, f.qual, f.node, f.cls, 'method'), args, kwargs)


MODELS['metatab.parser:TermParser.super_terms'] = never_stale
MODELS['posixpath.basename'] = MODELS['os.path.basename'] = of_text('basename', STR, lambda eng, z: Str(z))


def path_join(eng, args, kwargs):
    if len(args) != 2 or kwargs:
        raise Unsupported('join of several parts')
    z = ST.uf('path_join', STR, STR, STR)(*[eng.zstr(str_arg(eng, a)) for a in args])
    return Str(z)


def path_dirname(eng, args, kwargs):
    if isinstance(args[0], ExtV):
        return Str(ST.uf('dirname', STR, STR)(z3.StringVal(args[0].name)))
    return Str(ST.uf('dirname', STR, STR)(eng.zstr(str_arg(eng, args[0]))))


for m in ('os.path.', 'posixpath.'):
    MODELS[m + 'join'] = path_join
    MODELS[m + 'dirname'] = path_dirname


mk_rows = value_object('Rows')
FAILURES = ['IncludeError', 'OSError', 'GenerateError', 'RowGeneratorError', 'UnicodeDecodeError']


def outcome(eng, z):
    """Which of the failures, if any, a call ends with: a function of what it was given."""
    for i, n in enumerate(FAILURES):
        if eng.fork(z == i):
            raise PyRaise(ExcV(n))


def get_generator(eng, args, kwargs):
    """The rows of what is at an address, if it can be read."""
    u = args[0]
    files = eng.harr('files')
    outcome(eng, ST.uf('generator_fails', INT, HEAP, INT)(u.z, files))
    return mk_rows(eng, eng.getattr_(u, 'text'))


def nested_terms(eng, args, kwargs):
    """The terms of an included file (the contract of the recursive call): a function of the file, the state, and the files it is included from."""
    b = eng.bind_args(eng.repo.func('metatab.parser:TermParser.generate_terms'), args, kwargs, eng.default_cx(eng.repo.func('metatab.parser:TermParser.generate_terms')))
    zs = [eng.zval(b[n]) for n in ('self', 'ref', 'root', 'file_type', 'included_from')]
    names = sorted(eng.arrays({a for _, a in eng.fieldtypes} - {'files', 'text', '$class', 'term_classes'}))
    old = [eng.harr(a) for a in names]
    sig = [Val] * len(zs) + [HEAP] * len(old)
    outcome(eng, ST.uf('nested:fails', *(sig + [INT]))(*(zs + old)))
    r = ST.uf('nested:terms', *(sig + [Val]))(*(zs + old))
    for a in names:
        eng.st.heap[a] = ST.uf('nested:' + a, *(sig + [HEAP]))(*(zs + old))
    eng.st.next = ST.uf('nested:next', *(sig + [INT, INT]))(*(zs + old + [eng.st.next]))
    v = ValS(r, TList(TObj('Term')))
    eng.fact(eng.type_fact(r, v.ty))
    return v


MODELS.update({
    'stubs:url_path': of_text('url_path', STR, lambda eng, z: Str(z)),
    'stubs:url_resource': of_text('url_resource', STR, lambda eng, z: mk_url(eng, Str(z))),
    'stubs:url_target': of_text('url_target', STR, lambda eng, z: mk_url(eng, Str(z))),
    'rowgenerators.get_generator': get_generator,
    'metatab.parser:TermParser.generate_terms': nested_terms,
})
for m in ('os.path.', 'posixpath.'):
    MODELS[m + 'normpath'] = of_text('normpath', STR, lambda eng, z: Str(z))
