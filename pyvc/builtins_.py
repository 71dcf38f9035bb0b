"""Models of Python builtins, str/list/dict/set methods and external functions (mixin of Engine).

Everything here is part of the trusted base: it states what CPython does, and is cross-checked by running the specs and
the real code under CPython on the same inputs (the concrete harness)."""
import re
import string
import z3
from .values import *
from .values import Val
from . import strs as ST
from .strs import sval, concat, const
from .loops import Facts
from .engine import zand, is_strlike, basic_kind, repr_key, flatcat

TYPE_KINDS = {'builtins.str': ('str',), 'builtins.int': ('int', 'bool'), 'builtins.bool': ('bool',), 'builtins.list': ('list',),
              'builtins.tuple': ('tup',), 'builtins.dict': ('dict',), 'builtins.set': (), 'builtins.float': (),
              'collections.OrderedDict': ('dict',),
              'collections.abc.Iterable': ('str', 'list', 'tup', 'dict'), 'collections.abc.MutableSequence': ('list',),
              'collections.abc.Sequence': ('list', 'tup', 'str'), 'collections.abc.Mapping': ('dict',),
              'collections.abc.MutableMapping': ('dict',), 'collections.MutableMapping': None, 'collections.MutableSequence': None}


class Builtins:
    # ------------------------------------------------------------------ str()
    def to_str(self, v):
        v = self.kind(v) if isinstance(v, ValS) and v.ty is not None and len(self.kinds_of(v)) == 1 else v
        if isinstance(v, PyC):
            return PyC(str(v.v))
        if isinstance(v, Str):
            return v
        if isinstance(v, Int):
            return self.mkstr(self.S.istr(v.z))
        if isinstance(v, Bool):
            return Str(z3.If(v.z, sval('True'), sval('False')))
        if isinstance(v, ValS):
            return self.mkstr(z3.simplify(self.S.pystr(v.z)))
        if isinstance(v, Obj):
            f = self.repo.lookup(v.cls[0], '__str__')
            if len(v.cls) == 1 and f is not None and f[1].spec:
                return self.call_func(f[1], [v], {})
            return Str(ST.uf('objstr', INT, STR)(v.z))
        if isinstance(v, (ExcV, ClassV, ExtV, FuncV, BoundV, MethV, IterV)):
            return Str(self.fresh('someStr', STR))
        return Str(ST.uf('pystr', Val, STR)(self.zval(v)))

    def to_repr(self, v):
        if isinstance(v, (ExcV, ClassV, ExtV, FuncV, BoundV, MethV, IterV)):
            return Str(self.fresh('someStr', STR))
        return Str(ST.uf('pyrepr', Val, STR)(self.zval(v)))

    def percent_format(self, fmt, args):
        if fmt is None:
            return Str(self.fresh('fmt', STR))
        out, args = [], list(args)
        pos = 0
        for m in re.finditer(r'%(.)', fmt):
            out.append(sval(fmt[pos:m.start()]))
            pos = m.end()
            if m.group(1) == '%':
                out.append(sval('%'))
            elif m.group(1) == 's':
                out.append(self.zstr(self.to_str(args.pop(0))))
            else:
                out.append(ST.uf('fmt%' + m.group(1), Val, STR)(self.zval(args.pop(0))))
        out.append(sval(fmt[pos:]))
        return self.mkstr(concat(*out))

    def str_format(self, fmt, args, kwargs):
        if fmt is None:
            return Str(self.fresh('fmt', STR))
        out, n = [], 0
        try:
            fields = list(string.Formatter().parse(fmt))
        except ValueError:
            raise PyRaise(ExcV('ValueError'))
        for lit, field, spec, conv in fields:
            out.append(sval(lit))
            if field is None:
                continue
            if spec or conv or (field and not field.isalnum() and not field.isidentifier()):
                out.append(self.fresh('fmt', STR))
                n += 1
                continue
            if field == '':
                v = args[n] if n < len(args) else None
                n += 1
            elif field.isdigit():
                v = args[int(field)] if int(field) < len(args) else None
            else:
                v = kwargs.get(field)
            if v is None:
                raise PyRaise(ExcV('IndexError'))
            out.append(self.zstr(self.to_str(v)))
        return self.mkstr(concat(*out))

    # ------------------------------------------------------------------ methods of builtin values
    def builtin_method(self, o, name, args, kwargs):
        if isinstance(o, SuperV):
            if name in ('__init__',):
                return PyC(None)
            if name == '__setattr__':
                self.write_field(o.obj, const(self.zstr(args[0])), args[1])
                return PyC(None)
            raise Unsupported('super().%s' % name)
        if isinstance(o, (BoundV, FuncV)):
            if name == 'cache_clear':
                return PyC(None)
            raise Unsupported('method %s of function' % name)
        if isinstance(o, PyC) and isinstance(o.v, str) or isinstance(o, Str):
            return self.str_method(o, name, [self.kind(a) for a in args], kwargs)
        if isinstance(o, BytesV):
            enc = [a.v if isinstance(a, PyC) else None for a in args] or ['utf8']
            if name == 'decode' and not kwargs and len(enc) == 1 and str(enc[0]).lower().replace('-', '').replace('_', '') in ('utf8', o.enc) and o.enc in ('utf8', 'ascii'):
                return self.mkstr(o.z)
            raise Unsupported('bytes.' + name)
        if isinstance(o, IterV) and o.kind == 'split':
            o = self.new_cell(self.as_list(o))
        if isinstance(o, Loc):
            cv = self.content(o)
            if isinstance(cv, ListV):
                return self.list_method(o, cv, name, args, kwargs)
            if isinstance(cv, DictV):
                return self.dict_method(o, cv, name, args, kwargs)
            if isinstance(cv, SetV):
                if name == 'add':
                    self.setcontent(o, SetV(ListV(cv.items.segs + (('e', self.stored(args[0])),))))
                    return PyC(None)
        raise Unsupported('method %s of %r' % (name, o))

    def str_method(self, o, name, args, kwargs):
        z = self.zstr(o)
        S = self.S
        cargs = []
        for a in args:
            cargs.append(a.v if isinstance(a, PyC) else None)
        if const(z) is not None and all(isinstance(a, PyC) for a in args) and not kwargs and name != 'format' and name != 'join':
            try:
                r = getattr(const(z), name)(*cargs)
            except (ValueError, TypeError) as e:
                raise PyRaise(ExcV(type(e).__name__))
            if isinstance(r, bytes):
                return self.encode(z, *cargs)
            return self.lift(r)
        if name in ('lower', 'casefold') and not args:
            return self.mkstr(S.lower(z))
        if name == 'upper':
            return self.mkstr(S.upper(z))
        if name == 'title':
            return self.mkstr(S.title(z))
        if name in ('strip', 'lstrip', 'rstrip'):
            if not args or cargs[0] is None and isinstance(args[0], PyC):
                return self.mkstr(getattr(S, name)(z))
            if cargs[0] is not None:
                return self.mkstr(S.strip_chars(z, cargs[0], name))
            raise Unsupported('strip with symbolic characters')
        if name == 'format':
            return self.str_format(const(z), args, kwargs)
        if name == 'startswith':
            a = args[0]
            if isinstance(a, TupS):
                return self.mkbool(self._or([self.truth(self.str_method(o, name, [x], {})) for x in a.items]))
            if cargs[0] is not None:
                return self.mkbool(S.startswith(z, cargs[0]))
            return self.mkbool(self.sym_startswith(z, self.zstr(a)))
        if name == 'endswith':
            if cargs and cargs[0] is not None:
                return self.mkbool(z3.SuffixOf(sval(cargs[0]), z))
            raise Unsupported('endswith')
        if name == 'split':
            if len(args) == 1 and cargs[0]:
                return IterV('split', z, cargs[0])
            if len(args) == 2 and cargs[0] and cargs[1] == 1:
                if self.fork(S.has(z, cargs[0])):
                    h, t = S.split_first(z, cargs[0])
                    return self.new_list([self.mkstr(h), self.mkstr(t)])
                return self.new_list([self.mkstr(z)])
            return self.new_cell(ListV([('s', ST.uf('split%s' % (cargs,), STR, SEQ)(z), TStr)]))
        if name == 'partition' and cargs[0]:
            if self.fork(S.has(z, cargs[0])):
                h, t = S.split_first(z, cargs[0])
                return TupS([self.mkstr(h), args[0], self.mkstr(t)])
            return TupS([self.mkstr(z), PyC(''), PyC('')])
        if name == 'rsplit' and cargs and cargs[0] and len(cargs) == 2 and cargs[1] == 1:
            if self.fork(S.has(z, cargs[0])):
                t = S.last_seg(z, cargs[0])
                h = ST.uf('rh_' + cargs[0], STR, STR)(z)
                self.fact(z == concat(h, sval(cargs[0]), t))
                return self.new_list([self.mkstr(h), self.mkstr(t)])
            return self.new_list([self.mkstr(z)])
        if name == 'replace':
            if len(args) == 2 and cargs[0] is not None and cargs[1] is not None:
                return self.mkstr(S.replace(z, cargs[0], cargs[1]))
            if len(args) == 3 and all(isinstance(a, PyC) for a in args):
                return Str(ST.uf('repl[%s|%s|%s]' % tuple(cargs), STR, STR)(z))
            raise Unsupported('replace')
        if name == 'join':
            return self.str_join(z, args[0])
        if name == 'splitlines':
            return self.new_cell(ListV([('s', ST.uf('splitlines', STR, SEQ)(z), TStr)]))
        if name == 'encode' and not kwargs and all(c is not None for c in cargs):
            return self.encode(z, *cargs)
        if name in ('isdigit', 'isalpha', 'isspace', 'isnumeric', 'isalnum', 'isidentifier'):
            return self.mkbool(ST.uf(name, STR, BOOL)(z))
        if name == 'index' or name == 'find' or name == 'count':
            if cargs and cargs[0] is not None:
                return Int(ST.uf('%s[%s]' % (name, cargs[0]), STR, INT)(z))
        if name == 'zfill' or name == 'ljust':
            return Str(ST.uf('%s%s' % (name, cargs), STR, STR)(z))
        raise Unsupported('str.%s' % name)

    def encode(self, z, enc='utf8', errors='strict'):
        enc = enc.lower().replace('-', '').replace('_', '')
        if enc == 'utf8' and errors == 'strict':
            return BytesV(z, enc)                   # lone surrogates aside
        if enc == 'ascii' and errors == 'ignore':
            return BytesV(self.S.ascii(z), enc)
        raise Unsupported('encode')

    def sym_startswith(self, z, p):
        ps, zs = ST.parts(p), ST.parts(z)
        if len(zs) >= len(ps) and all(a.eq(b) for a, b in zip(ps, zs)):
            return True
        return ST.uf('startswith', STR, STR, BOOL)(z, p)

    def str_join(self, sep, v):
        lv = self.as_list(v)
        if lv.concrete():
            out = []
            for i, s in enumerate(lv.segs):
                x = self.kind(s[1])
                if not is_strlike(x):
                    raise PyRaise(ExcV('TypeError'))
                if i:
                    out.append(sep)
                out.append(self.zstr(x))
            return self.mkstr(concat(*out)) if out else PyC('')
        return Str(ST.uf('join', STR, SEQ, STR)(sep, self.seq(lv)))

    def list_method(self, o, cv, name, args, kwargs):
        if name in ('writerow', 'writerows', 'getvalue') and len(args) == (name != 'getvalue') and not kwargs:
            # a stream that CSV rows are written to (models of io.StringIO and csv.writer): its text is a function of the rows
            if name == 'getvalue':
                return Str(ST.uf('csv_text', SEQ, STR)(self.seq(cv)))
            name = 'append' if name == 'writerow' else 'extend'
        if name == 'append':
            self.setcontent(o, ListV(cv.segs + (('e', self.stored(args[0])),), cv.kind))
            return PyC(None)
        if name == 'extend':
            self.setcontent(o, ListV(cv.segs + self.as_list(args[0]).segs, cv.kind))
            return PyC(None)
        if name == 'insert' and isinstance(args[0], PyC):
            if args[0].v == 0:
                self.setcontent(o, ListV((('e', self.stored(args[1])),) + cv.segs, cv.kind))
                return PyC(None)
        if name == 'remove':
            m = self.mem(cv, args[0])
            if not self.fork(m):
                raise PyRaise(ExcV('ValueError'))
            self.setcontent(o, self.list_remove(cv, args[0]))
            return PyC(None)
        if name == 'copy':
            return self.new_cell(cv)
        if name == 'clear':
            self.setcontent(o, ListV())
            return PyC(None)
        if name == 'index':
            if not self.fork(self.mem(cv, args[0])):
                raise PyRaise(ExcV('ValueError'))
            return Int(ST.uf('seq.index', SEQ, Val, INT)(self.seq(cv), self.zval(args[0])))
        if name == 'sort':
            r = self.sorted_(o, kwargs)
            self.setcontent(o, self.content(r))
            return PyC(None)
        if name == 'reverse' and cv.concrete():
            self.setcontent(o, ListV(tuple(reversed(cv.segs)), cv.kind))
            return PyC(None)
        if name == 'pop' and not args and cv.segs and cv.segs[-1][0] == 'e':
            self.setcontent(o, ListV(cv.segs[:-1], cv.kind))
            return cv.segs[-1][1]
        raise Unsupported('list.%s' % name)

    def dict_method(self, o, cv, name, args, kwargs):
        if name == 'get':
            z = self.dkey(args[0])
            d = args[1] if len(args) > 1 else kwargs.get('default', PyC(None))
            h = self.dict_has(cv, args[0])
            if h is False:
                return d
            if h is True:
                return self.dict_val(o, cv, z)
            if isinstance(cv.ty, (TDict, TList)) or isinstance(d, Loc):
                if self.fork(h):
                    return self.dict_val(o, cv, z)
                return d

            def run():
                if self.fork(h):
                    return self.dict_val(o, cv, z)
                return d
            return self.pure(run)
        if name in ('items', 'keys', 'values'):
            return IterV(name, self.new_cell(cv))
        if name == 'update':
            if args:
                self.dict_update(o, args[0])
            for k, v in kwargs.items():
                if k == '**':
                    raise Unsupported('update **')
                self.dict_set(o, PyC(k), v)
            return PyC(None)
        if name == 'setdefault':
            z = self.dkey(args[0])
            if self.fork(self.dict_has(cv, args[0])):
                return self.dict_val(o, cv, z)
            d = args[1] if len(args) > 1 else PyC(None)
            self.dict_set(o, args[0], d)
            return self.dict_val(o, self.content(o), z)
        if name == 'pop':
            z = self.dkey(args[0])
            if self.fork(self.dict_has(cv, args[0])):
                v = self.dict_val(None, cv, z)
                self.dict_del(o, args[0])
                return v
            if len(args) > 1:
                return args[1]
            raise PyRaise(ExcV('KeyError'))
        if name == 'copy':
            return self.new_cell(cv)
        if name == 'clear':
            self.setcontent(o, DictV(None, EMPTYARR, cv.ty))
            return PyC(None)
        raise Unsupported('dict.%s' % name)

    # ------------------------------------------------------------------ builtin functions and external calls
    def call_ext(self, f, args, kwargs):
        n = f.name
        m = self.models.get(n)
        if m is not None:
            self.used_models.add(n)
            return m(self, args, kwargs)
        if n.startswith('exc.'):
            return ExcV(n[4:], args)
        h = getattr(self, 'bi_' + n.replace('builtins.', '').replace('.', '_'), None)
        if h is not None:
            return h(args, kwargs)
        last = n.split('.')[-1]
        if last in self.ext_exc:
            return ExcV(last, args)
        raise Unsupported('external call ' + n)

    def bi_len(self, args, kw):
        v = self.kind(args[0])
        if isinstance(v, PyC):
            try:
                return PyC(len(v.v))
            except TypeError:
                raise PyRaise(ExcV('TypeError'))
        if isinstance(v, TupS):
            return PyC(len(v.items))
        if isinstance(v, Str):
            return Int(z3.Length(v.z))
        if isinstance(v, Loc):
            cv = self.content(v)
            if isinstance(cv, DictV):
                cv = cv.keys
            if isinstance(cv, SetV):
                raise Unsupported('len of set')
            return self.len_of(cv)
        if isinstance(v, IterV):
            return self.len_of(self.as_list(v))
        raise Unsupported('len')

    def len_of(self, cv):
        if cv.concrete():
            return PyC(len(cv.segs))
        z = self.seq(cv)
        L = z3.Length(z)
        self.shape(z, 0)
        self.fact((L == 0) == (z == EMPTY))
        return Int(L)

    def bi_str(self, args, kw):
        return self.to_str(args[0]) if args else PyC('')

    def bi_repr(self, args, kw):
        return self.to_repr(args[0])

    def bi_bool(self, args, kw):
        return self.mkbool(self.truth(args[0]))

    def bi_int(self, args, kw):
        v = self.kind(args[0])
        if isinstance(v, PyC):
            try:
                return PyC(int(v.v))
            except (ValueError, TypeError) as e:
                raise PyRaise(ExcV(type(e).__name__))
        if isinstance(v, (Int, Bool)):
            return Int(self.zint(v))
        if isinstance(v, Str):
            if ST.is_uf(v.z, 'istr'):
                return Int(v.z.arg(0))
            if not self.fork(ST.uf('is_int', STR, BOOL)(v.z)):
                raise PyRaise(ExcV('ValueError'))
            return Int(ST.uf('int_of', STR, INT)(v.z))
        raise PyRaise(ExcV('TypeError'))

    def bi_float(self, args, kw):
        """A number that is only compared; text may not be one."""
        v = self.kind(args[0])
        if not (is_strlike(v) or basic_kind(v) in ('int', 'bool')):
            raise PyRaise(ExcV('TypeError'))
        z = self.zval(v)
        if self.fork(z3.Not(ST.uf('is_float', Val, BOOL)(z))):
            raise PyRaise(ExcV('ValueError'))
        return FloatV(ST.uf('float_of', Val, Val)(z))

    def bi_unicodedata_normalize(self, args, kw):
        f, s = [self.kind(a) for a in args]
        if isinstance(f, PyC) and is_strlike(s):
            return self.mkstr(self.S.normalize(f.v, self.zstr(s)))
        raise Unsupported('normalize')

    def bi_list(self, args, kw):
        if not args:
            return self.new_cell(ListV())
        return self.new_cell(ListV(self.as_list(args[0]).segs))

    def bi_tuple(self, args, kw):
        if not args:
            return TupS([])
        lv = self.as_list(args[0])
        if lv.concrete():
            return TupS([s[1] for s in lv.segs])
        return self.new_cell(ListV(lv.segs, 'tup'))

    def bi_dict(self, args, kw):
        loc = self.new_cell(DictV())
        if args:
            self.dict_update(loc, args[0])
        for k, v in kw.items():
            if k == '**':
                self.dict_update(loc, v)
            else:
                self.dict_set(loc, PyC(k), v)
        return loc

    bi_collections_OrderedDict = bi_dict

    def bi_set(self, args, kw):
        if not args:
            return self.new_cell(SetV(ListV()))
        v = args[0]
        if isinstance(v, Loc) and isinstance(self.content(v), SetV):
            return self.new_cell(self.content(v))
        return self.new_cell(SetV(self.as_list(v)))

    def bi_any(self, args, kw):
        return self.mkbool(self.any_of(args[0], False))

    def bi_all(self, args, kw):
        c = self.any_of(args[0], True)
        return self.mkbool((not c) if isinstance(c, bool) else z3.Not(c))

    def any_of(self, v, neg):
        lv = self.as_list(v)
        out = []
        for s in lv.segs:
            if s[0] == 'e':
                t = self.truth(s[1])
                out.append(((not t) if isinstance(t, bool) else z3.Not(t)) if neg else t)
            else:
                X = self.fresh('x', Val)
                n = len(self.st.facts)
                save = self.st
                self.st = save.copy()
                self.push()
                try:
                    self.st.facts, self.st.fids = [], {}
                    t = self.truth(self.wrap(X, s[2]))
                    facts = Facts(self.st.facts, repr(s[2]))
                finally:
                    self.pop()
                    self.st = save
                t = z3.BoolVal(t) if isinstance(t, bool) else t
                out.append(self.fold_any(s[1], X, z3.Not(t) if neg else t, None, facts))
        return self._or(out)

    def bi_isinstance(self, args, kw):
        v, ts = args
        ts = ts.items if isinstance(ts, TupS) else [ts]
        return self.mkbool(self._or([self.isinst(v, t) for t in ts]))

    def isinst(self, v, t):
        if isinstance(t, PyC) and t.v is type(None):
            return self.is_(v, PyC(None))
        if isinstance(t, ClassV):
            if isinstance(v, ValS):
                if 'ref' not in self.kinds_of(v):
                    return False
                return z3.And(Val.is_VRef(v.z), self.cls_fact(Val.vr(v.z), [t.ci.name]))
            if isinstance(v, Obj):
                sub = self.expand_cls([t.ci.name])
                yes = [c for c in v.cls if c in sub]
                if len(yes) == len(v.cls):
                    return True
                if not yes:
                    return False
                return z3.Or(*[self.cls_of(v.z) == self.cid[c] for c in sorted(yes, key=self.cid.get)])
            return False
        if isinstance(t, ExtV):
            ks = TYPE_KINDS.get(t.name)
            if ks is None:
                m = self.models.get('isinstance:' + t.name)
                if m is not None:
                    return m(self, v)
                if isinstance(v, Obj) or basic_kind(v) is not None and not isinstance(v, Loc):
                    if basic_kind(v) in ('str', 'int', 'bool', 'none'):
                        return False
                raise Unsupported('isinstance with ' + t.name)
            if isinstance(v, ValS):
                cs = [KINDS[k](v.z) for k in ks if k in self.kinds_of(v)]
                return self._or(cs)
            if isinstance(v, Loc):
                cv = self.content(v)
                k = 'dict' if isinstance(cv, DictV) else cv.kind if isinstance(cv, ListV) else 'set'
                return k in ks
            if isinstance(v, IterV):
                return k_iter(v) in ks
            if isinstance(v, Obj):
                if t.name == 'collections.abc.Iterable':
                    return all(self.repo.lookup(c, '__iter__') for c in v.cls)
                return False
            return basic_kind(v) in ks
        raise Unsupported('isinstance %r' % (t,))

    def bi_zip(self, args, kw):
        return IterV('zip', *args)

    def bi_enumerate(self, args, kw):
        start = args[1] if len(args) > 1 else kw.get('start', PyC(0))
        if not isinstance(start, PyC):
            raise Unsupported('enumerate start')
        return IterV('enumerate', args[0], start.v)

    def bi_reversed(self, args, kw):
        return IterV('reversed', args[0])

    def bi_range(self, args, kw):
        vals = [self.kind(a) for a in args]
        if all(isinstance(a, PyC) for a in vals):
            return self.new_list([PyC(i) for i in range(*[a.v for a in vals])])
        if len(vals) == 1:
            z = ST.uf('range', INT, SEQ)(self.zint(vals[0]))
            return self.new_cell(ListV([('s', z, TInt)]))
        raise Unsupported('range')

    def bi_sorted(self, args, kw):
        return self.sorted_(args[0], kw)

    def sorted_(self, v, kw):
        lv = self.as_list(v)
        if 'reverse' in kw:
            raise Unsupported('sorted reverse')
        if len(lv.segs) <= 1 and lv.concrete():
            return self.new_cell(ListV(lv.segs))
        base = self.new_cell(ListV(lv.segs))
        if 'key' in kw:
            acc = self.new_cell(ListV())
            box = {}

            def body():
                k = self.call(kw['key'], [box['x']], {})
                self.setcontent(acc, ListV(self.content(acc).segs + (('e', k),)))
            self.loop(base, lambda x: box.__setitem__('x', x), body, None)
            keys = self.seq(self.content(acc))
        else:
            keys = self.seq(lv)
        z = self.seq(lv)
        r = ST.uf('sorted', SEQ, SEQ, SEQ)(z, keys)
        self.fact(z3.Length(r) == z3.Length(z))
        ty = lv.segs[0][2] if lv.segs and lv.segs[0][0] == 's' else None
        return self.new_cell(ListV([('s', r, ty)]))

    def bi_hasattr(self, args, kw):
        o, a = args
        if isinstance(o, ExcV):
            return PyC(a.v in o.attrs)
        try:
            self.getattr_(o, a.v)
            return PyC(True)
        except PyRaise as e:
            if e.exc.name == 'AttributeError':
                return PyC(False)
            raise

    def bi_getattr(self, args, kw):
        if isinstance(args[1], PyC):
            try:
                return self.getattr_(args[0], args[1].v)
            except PyRaise as e:
                if e.exc.name == 'AttributeError' and len(args) > 2:
                    return args[2]
                raise
        raise Unsupported('getattr')

    def bi_type(self, args, kw):
        return ExtV('type-of')

    def bi_print(self, args, kw):
        self.st.trace = self.st.trace + (('print',),)
        return PyC(None)

    def bi_iter(self, args, kw):
        return self.new_cell(self.as_list(args[0]))

    def bi_next(self, args, kw):
        lv = self.as_list(args[0])
        try:
            return self.list_index(lv, PyC(0))
        except PyRaise:
            if len(args) > 1:
                return args[1]
            raise PyRaise(ExcV('StopIteration'))

    def bi_itertools_chain(self, args, kw):
        segs = []
        for a in args:
            segs.extend(self.as_list(a).segs)
        return self.new_cell(ListV(segs))

    def bi_itertools_chain_from_iterable(self, args, kw):
        return self.new_cell(self.flatten(self.as_list(args[0])))

    def flatten(self, lv):
        acc = self.new_cell(ListV())
        box = {}

        def body():
            self.setcontent(acc, ListV(self.content(acc).segs + self.as_list(box['x']).segs))
        self.loop(self.new_cell(lv), lambda x: box.__setitem__('x', x), body, None)
        return self.content(acc)

    def bi_object___setattr__(self, args, kw):
        self.write_field(args[0], const(self.zstr(args[1])), args[2])
        return PyC(None)

    def bi_re_sub(self, args, kw):
        pat, rep, s = [self.kind(a) for a in args[:3]]
        if isinstance(pat, PyC) and isinstance(rep, PyC) and is_strlike(s) and len(args) == 3 and not kw:
            c = const(self.zstr(s))
            if c is not None:
                return PyC(re.sub(pat.v, rep.v, c))
            return Str(self.S.regex('sub', pat.v, rep.v, self.zstr(s), STR))
        raise Unsupported('re.sub')

    def bi_re_match(self, args, kw):
        return self._re_test('match', args, kw)

    def bi_re_search(self, args, kw):
        return self._re_test('search', args, kw)

    def bi_re_fullmatch(self, args, kw):
        return self._re_test('fullmatch', args, kw)

    def _re_test(self, fn, args, kw):
        pat, s = [self.kind(a) for a in args[:2]]
        if isinstance(pat, PyC) and is_strlike(s) and len(args) == 2 and not kw:
            c = const(self.zstr(s))
            if c is not None:
                return PyC(True) if getattr(re, fn)(pat.v, c) else PyC(None)
            b = self.S.regex(fn, pat.v, '', self.zstr(s), BOOL)
            return ValS(z3.If(b, Val.VBool(True), Val.VNone), TKind('bool', 'none'))
        raise Unsupported('re.' + fn)

    def bi_re_split(self, args, kw):
        pat, s = [self.kind(a) for a in args[:2]]
        if isinstance(pat, PyC) and is_strlike(s) and len(args) == 2 and not kw:
            z = self.S.regex('split', pat.v, '', self.zstr(s), SEQ)
            return self.new_cell(ListV([('s', z, TStr)]))
        raise Unsupported('re.split')


def k_iter(v):
    return 'iter'
