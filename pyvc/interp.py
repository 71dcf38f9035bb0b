"""Expression and statement interpreter (mixin of Engine)."""
import ast
import z3
from .values import *
from .values import Val
from . import strs as ST
from .strs import sval, concat, const
from .source import FuncInfo, import_from
from .loops import Facts, mentions
from .engine import zand, flatcat, is_strlike, basic_kind, repr_key, loc_same, BUILTIN_EXC, EXC_ALIAS

BUILTINS = {'len', 'str', 'int', 'float', 'bool', 'list', 'tuple', 'dict', 'set', 'any', 'all', 'isinstance', 'zip',
            'enumerate', 'sorted', 'repr', 'hasattr', 'getattr', 'type', 'super', 'open', 'print', 'range', 'reversed',
            'object', 'next', 'iter', 'min', 'max', 'exit', 'callable', '__import__', 'filter', 'map', 'frozenset', 'sum',
            'setattr', 'id', 'hash', 'abs'}


class Cx:
    """Activation of a function: frame id, function, class (for super), module."""
    __slots__ = ('fid', 'fi', 'module', 'cls', 'selfv', 'ylist')

    def __init__(self, fid, fi, module, cls, selfv, ylist=None):
        self.fid, self.fi, self.module, self.cls, self.selfv, self.ylist = fid, fi, module, cls, selfv, ylist


class Interp:
    # ------------------------------------------------------------------ frames and names
    def new_frame(self, parent=None):
        self.frames_n += 1
        self.fparent[self.frames_n] = parent
        self.st.frames[self.frames_n] = {}
        return self.frames_n

    def setvar(self, cx, name, v):
        g = self.st.frames[cx.fid].get('$nonlocal')
        fid = cx.fid
        if g and name in g:
            fid = self.fparent[fid]
            while name not in self.st.frames[fid]:
                fid = self.fparent[fid]
        self.st.frames[fid][name] = v

    def getvar(self, cx, name):
        f = cx.fid
        while f is not None:
            fr = self.st.frames.get(f)
            if fr is None:
                raise Unsupported('dead frame')
            if name in fr:
                v = fr[name]
                if isinstance(v, Poison):
                    raise Unsupported('read of loop temporary %s: %s' % (name, v.why))
                return v
            f = self.fparent[f]
        v = self.global_name(cx.module, name)
        if v is None:
            if name in self.local_names(cx.fi):
                raise PyRaise(ExcV('UnboundLocalError'))
            raise PyRaise(ExcV('NameError'))
        return v

    def local_names(self, fi):
        return ()

    def global_name(self, module, name):
        r = self.repo.resolve(module.name, name)
        v = self.ent_value(r, module, name)
        if v is not None:
            return v
        if name in BUILTINS:
            return ExtV('builtins.' + name)
        if name in BUILTIN_EXC:
            return ExtV('exc.' + name)
        if name == '__name__':
            return PyC(module.name)
        if name == '__file__':
            return PyC(module.path)
        return None

    def ent_value(self, r, module, name):
        if r is None:
            return None
        if r[0] == 'func':
            return FuncV(r[1])
        if r[0] == 'class':
            return ClassV(r[1])
        if r[0] == 'module':
            return ModV(r[1])
        if r[0] == 'ext':
            return ExtV(r[1])
        if r[0] == 'const':
            return self.const_value(r[1], r[2], name)
        raise Unsupported('name %s: %r' % (name, r[0]))

    def const_value(self, node, module, name=None):
        v = self.const_value_(node, module)
        if isinstance(v, Loc):
            # a container at module or class level: nothing in the package may change it, and it is read only here
            cv = self.content(v)
            if not module.is_spec and (name in self.repo.mutated or isinstance(cv, ListV) and not cv.segs or isinstance(cv, DictV) and not cv.keys.segs or isinstance(cv, SetV)):
                raise Unsupported('shared container %s' % name)
            self.st.frozen.add(('cell', v.id))
        return v

    def const_value_(self, node, module):
        k = id(node)
        if k in self.constcache:
            v = self.constcache[k]
            return v
        try:
            c = ast.literal_eval(node)
            v = self.lift(c)
            if isinstance(v, Loc):
                return v
        except (ValueError, TypeError, SyntaxError):
            cx = Cx(self.new_frame(), None, module, None, None)
            try:
                v = self.ev(node, cx)
            except Unsupported:
                v = ExtV('%s.<const %d>' % (module.name, node.lineno))
            if isinstance(v, Loc):
                return v
        self.constcache[k] = v
        return v

    def lift(self, c):
        if isinstance(c, list):
            return self.new_list([self.lift(x) for x in c])
        if isinstance(c, tuple):
            return TupS([self.lift(x) for x in c])
        if isinstance(c, dict):
            loc = self.new_cell(DictV())
            for k, v in c.items():
                self.dict_set(loc, PyC(k), self.lift(v))
            return loc
        if isinstance(c, (set, frozenset)):
            return self.new_cell(SetV(ListV([('e', self.lift(x)) for x in sorted(c, key=repr)])))
        return PyC(c)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, cx):
        m = getattr(self, 'ev_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, cx)

    def ev_Constant(self, e, cx):
        return PyC(e.value)

    def ev_Name(self, e, cx):
        return self.getvar(cx, e.id)

    def ev_Tuple(self, e, cx):
        return self._seq_display(e, cx, 'tup')

    def ev_List(self, e, cx):
        return self._seq_display(e, cx, 'list')

    def ev_Set(self, e, cx):
        return self.new_cell(SetV(ListV([('e', self.ev(x, cx)) for x in e.elts])))

    def _seq_display(self, e, cx, kind):
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                segs.extend(self.as_list(self.ev(x.value, cx)).segs)
            else:
                segs.append(('e', self.stored(self.ev(x, cx))))
        if kind == 'tup' and all(s[0] == 'e' for s in segs):
            return TupS([s[1] for s in segs])
        return self.new_cell(ListV(segs, kind))

    def stored(self, v):
        """A value placed inside another container: containers are held by value; the original may not be mutated."""
        if isinstance(v, ValS) and isinstance(v.ty, TOr):
            ty = self.narrow(v)
            return v if ty is v.ty else ValS(v.z, ty)
        if isinstance(v, Loc):
            d = self.deref(v)
            if isinstance(d, CellLoc):
                self.st.frozen.add(('cell', d.id))
            elif isinstance(d, FieldLoc):
                self.st.frozen.add(('field', d.ref.get_id(), d.attr))
        if isinstance(v, TupS):
            for i in v.items:
                self.stored(i)
        return v

    def ev_Dict(self, e, cx):
        loc = self.new_cell(DictV())
        for k, v in zip(e.keys, e.values):
            if k is None:
                self.dict_update(loc, self.ev(v, cx))
            else:
                kk = self.ev(k, cx)
                self.dict_set(loc, kk, self.ev(v, cx))
        return loc

    def ev_JoinedStr(self, e, cx):
        out = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                out.append(sval(p.value))
            else:
                v = self.ev(p.value, cx)
                if p.format_spec is not None:
                    raise Unsupported('format spec')
                out.append(self.zstr(self.to_str(v)) if p.conversion != 114 else self.zstr(self.to_repr(v)))
        return self.mkstr(concat(*out))

    def mkstr(self, z):
        c = const(z)
        return PyC(c) if c is not None else Str(z)

    def mkbool(self, c):
        if isinstance(c, bool):
            return PyC(c)
        c = z3.simplify(c)
        return PyC(True) if z3.is_true(c) else PyC(False) if z3.is_false(c) else Bool(c)

    def ev_BoolOp(self, e, cx):
        def run():
            v = None
            for i, x in enumerate(e.values):
                v = self.ev(x, cx)
                if i == len(e.values) - 1:
                    return v
                t = self.fork(self.truth(v))
                if isinstance(e.op, ast.And) != t:
                    return v
            return v
        return self.pure(run)

    def ev_UnaryOp(self, e, cx):
        v = self.ev(e.operand, cx)
        if isinstance(e.op, ast.Not):
            t = self.truth(v)
            return PyC(not t) if isinstance(t, bool) else self.mkbool(z3.Not(t))
        v = self.kind(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, PyC):
                return PyC(-v.v)
            return Int(-self.zint(v))
        raise Unsupported('unary op')

    def ev_IfExp(self, e, cx):
        c = self.truth(self.pure(lambda: self.ev(e.test, cx)))
        if isinstance(c, bool):
            return self.ev(e.body if c else e.orelse, cx)
        return self.pure(lambda: self.ev(e.body, cx) if self.fork(c) else self.ev(e.orelse, cx))

    def cond(self, e, cx):
        """Truth of a test expression as python bool or z3 Bool, without forking when it is pure."""
        return self.truth(self.pure(lambda: self.ev(e, cx)))

    def ev_Compare(self, e, cx):
        left = self.ev(e.left, cx)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, cx)
            out.append(self.compare(op, left, right))
            left = right
        return self.mkbool(zand(out))

    def compare(self, op, a, b):
        n = type(op).__name__
        if n in ('Eq', 'NotEq'):
            c = self.eq(a, b)
            if n == 'Eq':
                return c
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if n in ('Is', 'IsNot'):
            c = self.is_(a, b)
            if n == 'Is':
                return c
            return (not c) if isinstance(c, bool) else z3.Not(c)
        if n in ('In', 'NotIn'):
            c = self.contains(b, a)
            if n == 'In':
                return c
            return (not c) if isinstance(c, bool) else z3.Not(c)
        a, b = self.kind(a), self.kind(b)
        if isinstance(a, PyC) and isinstance(b, PyC):
            try:
                return {'Lt': lambda: a.v < b.v, 'LtE': lambda: a.v <= b.v, 'Gt': lambda: a.v > b.v, 'GtE': lambda: a.v >= b.v}[n]()
            except TypeError:
                raise PyRaise(ExcV('TypeError'))
        if (basic_kind(a) in ('int', 'bool')) and (basic_kind(b) in ('int', 'bool')):
            x, y = self.zint(a), self.zint(b)
            return {'Lt': x < y, 'LtE': x <= y, 'Gt': x > y, 'GtE': x >= y}[n]
        if is_strlike(a) and is_strlike(b):
            r = ST.uf('str.lt', STR, STR, BOOL)
            x, y = self.zstr(a), self.zstr(b)
            return {'Lt': r(x, y), 'Gt': r(y, x), 'LtE': z3.Not(r(y, x)), 'GtE': z3.Not(r(x, y))}[n]
        if basic_kind(a) and basic_kind(b):
            raise PyRaise(ExcV('TypeError'))
        raise Unsupported('ordering comparison')

    def contains(self, c, x):
        c = self.kind(c) if isinstance(c, ValS) else c
        if is_strlike(c):
            x = self.kind(x)
            if not is_strlike(x):
                raise PyRaise(ExcV('TypeError'))
            xs = const(self.zstr(x))
            if xs is None:
                if isinstance(c, PyC):
                    return ST.uf('substr_of', STR, STR, BOOL)(self.zstr(x), self.zstr(c))
                raise Unsupported('symbolic substring test')
            return self.S.has(self.zstr(c), xs)
        if isinstance(c, TupS):
            return self._or([self.eq(i, x) for i in c.items])
        if isinstance(c, Loc):
            cv = self.content(c)
            if isinstance(cv, DictV):
                return self.dict_has(cv, x)
            return self.mem(cv, x)
        if isinstance(c, IterV):
            if c.kind == 'keys':
                return self.dict_has(self.content(c.args[0]), x)
            return self.mem(self.as_list(c), x)
        if isinstance(c, Obj):
            return self.truth(self.call_method(c, '__contains__', [x], {}))
        if isinstance(c, (Int, Bool)) or isinstance(c, PyC) and (c.v is None or isinstance(c.v, (int, bool))):
            raise PyRaise(ExcV('TypeError'))
        raise Unsupported('in %r' % (c,))

    def _or(self, cs):
        if any(c is True for c in cs):
            return True
        cs = [c for c in cs if c is not False]
        if not cs:
            return False
        return cs[0] if len(cs) == 1 else z3.Or(*cs)

    def ev_BinOp(self, e, cx):
        a = self.ev(e.left, cx)
        b = self.ev(e.right, cx)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        n = type(op).__name__
        a, b = self.kind(a), self.kind(b)
        if n == 'Mod' and is_strlike(a):
            fmt = const(self.zstr(a))
            args = b.items if isinstance(b, TupS) else [b]
            return self.percent_format(fmt, args)
        if isinstance(a, PyC) and isinstance(b, PyC):
            try:
                r = {'Add': lambda: a.v + b.v, 'Sub': lambda: a.v - b.v, 'Mult': lambda: a.v * b.v, 'FloorDiv': lambda: a.v // b.v, 'Mod': lambda: a.v % b.v}[n]()
                return PyC(r)
            except KeyError:
                raise Unsupported('binop ' + n)
            except TypeError:
                raise PyRaise(ExcV('TypeError'))
        if n == 'Add':
            if is_strlike(a) and is_strlike(b):
                return self.mkstr(concat(self.zstr(a), self.zstr(b)))
            ka, kb = basic_kind(a), basic_kind(b)
            if ka in ('int', 'bool') and kb in ('int', 'bool'):
                return Int(z3.simplify(self.zint(a) + self.zint(b)))
            if isinstance(a, TupS) and isinstance(b, TupS):
                return TupS(a.items + b.items)
            la, lb = self.listlike(a), self.listlike(b)
            if la is not None and lb is not None:
                if la.kind != lb.kind:
                    raise PyRaise(ExcV('TypeError'))
                return self.new_cell(ListV(la.segs + lb.segs, la.kind))
            if ka and kb:
                raise PyRaise(ExcV('TypeError'))
        if n in ('Sub', 'Mult') and basic_kind(a) in ('int', 'bool') and basic_kind(b) in ('int', 'bool'):
            x, y = self.zint(a), self.zint(b)
            return Int(z3.simplify(x - y if n == 'Sub' else x * y))
        if n == 'Sub' and isinstance(a, Loc) and isinstance(b, Loc):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, SetV) and isinstance(cb, SetV):
                raise Unsupported('set difference')
        raise Unsupported('binop %s on %r, %r' % (n, a, b))

    def listlike(self, v):
        if isinstance(v, Loc):
            cv = self.content(v)
            return cv if isinstance(cv, ListV) else None
        if isinstance(v, TupS):
            return ListV([('e', i) for i in v.items], 'tup')
        return None

    def ev_Lambda(self, e, cx):
        return FuncV(FuncInfo(cx.module, '<lambda>@%d' % e.lineno, LambdaNode(e), None, 'function'), cx.fid)

    def ev_NamedExpr(self, e, cx):
        v = self.ev(e.value, cx)
        self.setvar(cx, e.target.id, v)
        return v

    def ev_Starred(self, e, cx):
        raise Unsupported('starred')

    def ev_Yield(self, e, cx):
        v = self.ev(e.value, cx) if e.value is not None else PyC(None)
        loc = cx.ylist
        cv = self.content(loc)
        self.setcontent(loc, ListV(cv.segs + (('e', self.snapshot(v)),)))
        return PyC(None)

    def snapshot(self, v):
        return self.stored(v)

    def ev_YieldFrom(self, e, cx):
        v = self.as_list(self.ev(e.value, cx))
        cv = self.content(cx.ylist)
        self.setcontent(cx.ylist, ListV(cv.segs + v.segs))
        return PyC(None)

    # -- comprehensions: desugared to loops over an accumulator
    def comp(self, e, cx, add, init):
        acc = self.new_cell(init)
        fid = self.new_frame(cx.fid)
        c2 = Cx(fid, cx.fi, cx.module, cx.cls, cx.selfv, cx.ylist)
        self.st.frames[fid]['$acc'] = acc

        def level(i):
            if i == len(e.generators):
                add(c2, self.st.frames[fid]['$acc'])
                return
            g = e.generators[i]
            it = self.ev(g.iter, cx if i == 0 else c2)

            def body():
                for c in g.ifs:
                    if not self.fork(self.cond(c, c2)):
                        return
                level(i + 1)
            self.loop(it, lambda x: self.assign(g.target, x, c2), body, c2)
        level(0)
        v = self.st.frames[fid]['$acc']
        return v

    def ev_ListComp(self, e, cx):
        def add(c2, acc):
            v = self.stored(self.pure(lambda: self.ev(e.elt, c2)))
            self.setcontent(acc, ListV(self.content(acc).segs + (('e', v),)))
        return self.comp(e, cx, add, ListV())

    def ev_GeneratorExp(self, e, cx):
        return self.ev_ListComp(e, cx)

    def ev_SetComp(self, e, cx):
        loc = self.ev_ListComp(e, cx)
        return self.new_cell(SetV(self.content(loc)))

    def ev_DictComp(self, e, cx):
        def add(c2, acc):
            k = self.ev(e.key, c2)
            v = self.pure(lambda: self.ev(e.value, c2))
            self.dict_set(acc, k, v)
        return self.comp(e, cx, add, DictV())

    # -- attribute access
    def ev_Attribute(self, e, cx):
        o = self.ev(e.value, cx)
        return self.getattr_(o, self.mangle(e.attr, cx))

    def mangle(self, a, cx):
        if a.startswith('__') and not a.endswith('__') and cx.cls is not None:
            return '_%s%s' % (cx.cls.name.lstrip('_'), a)
        return a

    def getattr_(self, o, attr):
        o = self.kind(o) if isinstance(o, ValS) else o
        if isinstance(o, Obj):
            return self.obj_getattr(o, attr)
        if isinstance(o, PyC) and o.v is None:
            raise PyRaise(ExcV('AttributeError'))
        if isinstance(o, ModV):
            r = self.repo.resolve(o.name, attr)
            v = self.ent_value(r, self.repo.modules.get(o.name), attr) if o.name in self.repo.modules else None
            if v is not None:
                return v
            if o.name + '.' + attr in self.repo.modules:
                return ModV(o.name + '.' + attr)
            return ExtV(o.name + '.' + attr)
        if isinstance(o, ExtV):
            return ExtV(o.name + '.' + attr)
        if isinstance(o, ClassV):
            if attr == '__name__':
                return PyC(o.ci.name)
            r = self.repo.lookup(o.ci.name, attr)
            if r is None:
                raise PyRaise(ExcV('AttributeError'))
            if r[0] == 'method':
                if r[1].kind == 'classmethod':
                    return BoundV(o, r[1])
                return FuncV(r[1])
            if r[0] == 'attr':
                return self.class_attr(r[2], attr, r[1])
            raise Unsupported('class attribute ' + attr)
        if isinstance(o, SuperV):
            mro = self.repo.mro(self.the_cls(o.obj))
            names = [c.name for c in mro]
            rest = mro[names.index(o.ci.name) + 1:]
            for ci in rest:
                if attr in ci.methods:
                    return BoundV(o.obj, ci.methods[attr])
                if attr in ci.getters:
                    return self.call_func(ci.getters[attr], [o.obj], {})
            return MethV(o, attr)
        if isinstance(o, ExcV):
            if attr in o.attrs:
                return o.attrs[attr]
            if attr == 'args':
                return TupS(o.args)
            raise PyRaise(ExcV('AttributeError'))
        if isinstance(o, FuncV):
            return MethV(o, attr)
        if isinstance(o, BoundV):
            return MethV(o, attr)
        if isinstance(o, (PyC, Str, Int, Bool, TupS, Loc, IterV)):
            if not self.has_builtin_method(o, attr):
                raise PyRaise(ExcV('AttributeError'))
            return MethV(o, attr)
        if isinstance(o, BytesV):
            return MethV(o, attr)
        raise Unsupported('attribute %s of %r' % (attr, o))

    def has_builtin_method(self, o, attr):
        if isinstance(o, Str):
            return hasattr('', attr)
        if isinstance(o, Int):
            return hasattr(1, attr)
        if isinstance(o, Bool):
            return hasattr(True, attr)
        if isinstance(o, PyC):
            return hasattr(o.v, attr)
        if isinstance(o, TupS):
            return hasattr((), attr)
        if isinstance(o, Loc):
            cv = self.content(o)
            if isinstance(cv, DictV):
                from collections import OrderedDict
                return hasattr({}, attr) or attr in ('move_to_end',)
            if isinstance(cv, SetV):
                return hasattr(set(), attr)
            if attr in ('writerow', 'writerows', 'getvalue') and 'io.StringIO' in self.used_models:
                return True
            return hasattr([], attr) if cv.kind == 'list' else hasattr((), attr)
        return True

    def class_attr(self, ci, attr, node):
        k = ('classattr', ci.name, attr)
        if k in self.models:
            return self.models[k](self)
        return self.const_value(node, ci.module, attr)

    def the_cls(self, v):
        if isinstance(v, ClassV):
            return v.ci.name
        if isinstance(v, Obj):
            return self.split_cls(v, lambda c: c)
        raise Unsupported('class of %r' % (v,))

    def split_cls(self, o, keyfn):
        """Fork on groups of o's possible classes by keyfn(class); returns the key of the chosen group (o is narrowed)."""
        groups = {}
        for c in sorted(o.cls, key=self.cid.get):
            groups.setdefault(keyfn(c), []).append(c)
        if len(groups) == 1:
            return next(iter(groups))
        ks = list(groups)
        i = self.choose([z3.Or(*[self.cls_of(o.z) == self.cid[c] for c in sorted(groups[k], key=self.cid.get)]) for k in ks])
        o.cls = tuple(groups[ks[i]])
        return ks[i]

    def field_type(self, o, attr):
        tys = []
        for c in o.cls:
            t = None
            for ci in self.repo.mro(c):
                if (ci.name, attr) in self.fieldtypes:
                    t = self.fieldtypes[(ci.name, attr)]
                    break
            if t is None:
                return None
            if not any(t is x for x in tys):
                tys.append(t)
        return tys[0] if len(tys) == 1 else TOr(*tys)

    def obj_getattr(self, o, attr):
        o = Obj(o.z, o.cls)
        if attr == '__dict__':
            return MethV(o, '__dict__')
        if attr == '__class__':
            return ClassV(self.repo.classes[self.the_cls(o)])
        if attr == '__getattribute__':
            return MethV(o, '__getattribute__')

        def key(c):
            r = self.repo.lookup(c, attr)
            if r is not None and r[0] in ('method', 'property'):
                return (r[0], id(r[1]))
            if r is not None and ('classattr', r[2].name, attr) in self.models:
                return ('attr', id(r[1]))
            for ci in self.repo.mro(c):
                if (ci.name, attr) in self.fieldtypes:
                    return ('field', ci.name)
            return (r[0], id(r[1])) if r is not None else ('none',)
        k = self.split_cls(o, key)
        r = self.repo.lookup(o.cls[0], attr)
        if k[0] == 'method':
            if r[1].kind == 'staticmethod':
                return FuncV(r[1])
            if r[1].kind == 'classmethod':
                return BoundV(ClassV(self.repo.classes[o.cls[0]]) if len(o.cls) == 1 else ClassV(r[1].cls), r[1])
            return BoundV(o, r[1])
        if k[0] == 'property':
            return self.pure(lambda: self.call_func(r[1], [o], {}))
        if k[0] == 'field':
            ty = self.field_type(o, attr)
            return self.read_field(o, attr, ty)
        if k[0] == 'attr':
            return self.class_attr(r[2], attr, r[1])
        z = self.st.heap.get(attr)
        if z is not None and z3.is_store(z):
            v = self.hread(o.z, attr)
            if not (z3.is_app(v) and v.decl().kind() == z3.Z3_OP_SELECT):
                return self.known(ValS(v))
        g = self.repo.lookup(o.cls[0], '__getattr__')
        if g is not None:
            return self.call_func(g[1], [o, PyC(attr)], {})
        raise PyRaise(ExcV('AttributeError'))

    def owner(self, c, attr):
        """The class that has the field, of a class or its bases."""
        for ci in self.repo.mro(c):
            if (ci.name, attr) in self.fieldtypes:
                return ci.name
        return None

    def heap_name(self, o, attr):
        """Fields of the same name that classes have separately are in separate arrays; the object's class is narrowed to one of them."""
        own = self.split_cls(o, lambda c: self.owner(c, attr))
        first = next((c for c, a in self.fieldtypes if a == attr), None)
        return attr if own is None or own == first else attr + '@' + own

    def arrays(self, reads):
        """The names of the arrays of a list of fields: a name stands for the field in every class."""
        out = []
        for r in reads:
            if '@' in r:
                c, a = r.split('@')[1], r.split('@')[0]
                first = next(x for x, b in self.fieldtypes if b == a)
                out.append(a if c == first else r)
            else:
                cs = [c for c, a in self.fieldtypes if a == r]
                out += [r] + [r + '@' + c for c in cs[1:]]
        return [x for i, x in enumerate(out) if x not in out[:i]]

    def read_field(self, o, attr, ty):
        o = Obj(o.z, o.cls)
        hn = self.heap_name(o, attr)
        z = self.hread(o.z, hn)
        for a, f in self.inv.values():
            if a == attr:
                self.fact(f(self, z))
        attr = hn
        if isinstance(ty, (TList, TDict)):
            self.fact(self.type_fact(z, ty))
            return FieldLoc(o.z, attr, 'list' if isinstance(ty, TList) else 'dict', ty)
        if ty is None:
            return self.known(ValS(z))
        v = self.wrap(z, ty)
        return v

    def setattr_(self, o, attr, v, cx=None):
        o = self.kind(o) if isinstance(o, ValS) else o
        if isinstance(o, ExcV):
            o.attrs[attr] = v
            return
        if isinstance(o, ClassV):
            raise Unsupported('class attribute assignment')
        if isinstance(o, PyC) and o.v is None:
            raise PyRaise(ExcV('AttributeError'))
        if not isinstance(o, Obj):
            raise Unsupported('attribute assignment on %r' % (o,))
        o = Obj(o.z, o.cls)

        def key(c):
            s = self.repo.lookup_setter(c, attr)
            r = self.repo.lookup(c, attr)
            return (id(s) if s else None, r is not None and r[0] == 'property')
        self.split_cls(o, key)
        s = self.repo.lookup_setter(o.cls[0], attr)
        if s is not None:
            self.call_func(s, [o, v], {})
            return
        r = self.repo.lookup(o.cls[0], attr)
        if r is not None and r[0] == 'property':
            raise PyRaise(ExcV('AttributeError'))
        if self.repo.lookup(o.cls[0], '__setattr__') is not None and self.field_type(o, attr) is None:
            raise Unsupported('dynamic attribute assignment: ' + attr)
        if r is not None and r[0] == 'attr' and ('classattr', r[2].name, attr) in self.models:
            raise Unsupported('an attribute hides one of the class: ' + attr)
        self.write_field(o, attr, v)

    def write_field(self, o, attr, v):
        o = Obj(o.z, o.cls)
        hn = self.heap_name(o, attr)
        ty = self.field_type(o, attr)
        attr = hn
        self.detach(o.z, attr)
        if isinstance(v, Loc):
            d = self.deref(v)
            cv = self.content(d)
            if isinstance(cv, SetV):
                raise Unsupported('set stored in a field')
            val = self.cv_val(cv)
            self.hwrite(o.z, attr, val)
            if isinstance(d, CellLoc) and ('cell', d.id) not in self.st.frozen:
                self.st.cells[d.id] = FieldLoc(o.z, attr, 'dict' if isinstance(cv, DictV) else 'list', ty)
            elif isinstance(d, CellLoc):
                pass
            else:
                self.st.frozen.add(('field', d.ref.get_id(), d.attr) if isinstance(d, FieldLoc) else ('item', d.key.get_id()))
                self.st.frozen.add(('field', o.z.get_id(), attr))
        else:
            self.hwrite(o.z, attr, self.zval(v))
        self.st.frozen.discard(('field', o.z.get_id(), attr)) if not isinstance(v, Loc) else None

    def detach(self, ref, attr):
        """The field is about to be rebound: variables naming its old container keep the old value."""
        for fid, fr in list(self.st.frames.items()):
            for k, v in list(fr.items()):
                if isinstance(v, FieldLoc) and v.attr == attr and (v.ref.eq(ref) or not self.must(v.ref != ref)):
                    fr[k] = self.new_cell(self.content(v))
        for cid, cv in list(self.st.cells.items()):
            if isinstance(cv, FieldLoc) and cv.attr == attr and (cv.ref.eq(ref) or not self.must(cv.ref != ref)):
                self.st.cells[cid] = self.content(cv)

    # -- subscripts
    def ev_Subscript(self, e, cx):
        o = self.ev(e.value, cx)
        if isinstance(e.slice, ast.Slice):
            return self.slice(o, e.slice, cx)
        k = self.ev(e.slice, cx)
        return self.getitem(o, k)

    def slice(self, o, s, cx):
        o = self.kind(o)
        lo = self.kind(self.ev(s.lower, cx)) if s.lower else PyC(None)
        hi = self.kind(self.ev(s.upper, cx)) if s.upper else PyC(None)
        if s.step is not None or not isinstance(lo, PyC) or not isinstance(hi, PyC):
            raise Unsupported('slice')
        if isinstance(o, PyC):
            return PyC(o.v[lo.v:hi.v])
        if isinstance(o, TupS):
            return TupS(o.items[lo.v:hi.v])
        if is_strlike(o):
            z = self.zstr(o)
            if hi.v is None and isinstance(lo.v, int) and lo.v >= 0:
                ps = ST.parts(z)
                c0 = const(ps[0])
                if c0 is not None and len(c0) >= lo.v:
                    return self.mkstr(concat(sval(c0[lo.v:]), *ps[1:]))
                return Str(ST.uf('str.from[%d]' % lo.v, STR, STR)(z))
            r = ST.uf('str.slice[%s:%s]' % (lo.v, hi.v), STR, STR)(z)
            if lo.v in (None, 0) and isinstance(hi.v, int) and hi.v >= 0:
                self.fact(z3.PrefixOf(r, z))
                self.fact(z3.Length(r) == z3.If(z3.Length(z) < hi.v, z3.Length(z), z3.IntVal(hi.v)))
            return Str(r)
        lv = self.listlike(o)
        if lv is None:
            raise Unsupported('slice of %r' % (o,))
        if lv.concrete():
            return self.new_cell(ListV(lv.segs[lo.v:hi.v], lv.kind))
        if hi.v is None and isinstance(lo.v, int) and lo.v >= 0:
            n, segs = lo.v, list(lv.segs)
            while n and segs and segs[0][0] == 'e':
                segs.pop(0)
                n -= 1
            if n == 0:
                return self.new_cell(ListV(segs, lv.kind))
            segs2 = [('s', ST.uf('seq.drop[%d]' % n, SEQ, SEQ)(self.seq(ListV(segs))), segs[0][2] if len(segs) == 1 and segs[0][0] == 's' else None)]
            return self.new_cell(ListV(segs2, lv.kind))
        return self.new_cell(ListV([('s', ST.uf('seq.slice[%s:%s]' % (lo.v, hi.v), SEQ, SEQ)(self.seq(lv)), None)], lv.kind))

    def getitem(self, o, k):
        o = self.kind(o)
        if isinstance(o, Obj):
            return self.call_method(o, '__getitem__', [k], {})
        if isinstance(o, MethV) and o.name == '__dict__':
            raise Unsupported('__dict__')
        if isinstance(o, PyC) and o.v is None:
            raise PyRaise(ExcV('TypeError'))
        k = self.kind(k)
        if isinstance(o, TupS) and isinstance(k, PyC):
            try:
                return o.items[k.v]
            except IndexError:
                raise PyRaise(ExcV('IndexError'))
        if is_strlike(o):
            if isinstance(o, PyC) and isinstance(k, PyC):
                try:
                    return PyC(o.v[k.v])
                except IndexError:
                    raise PyRaise(ExcV('IndexError'))
            if isinstance(k, PyC) and isinstance(k.v, int):
                z = self.zstr(o)
                if self.fork(z == sval('')):
                    raise PyRaise(ExcV('IndexError'))
                if k.v == 0:
                    c0 = const(ST.parts(z)[0])
                    if c0:
                        return PyC(c0[0])
                    return Str(z3.SubString(z, 0, 1))
            raise Unsupported('string index')
        if isinstance(o, IterV) and o.kind == 'split':
            z, sep = o.args
            if isinstance(k, PyC) and k.v == -1:
                return self.mkstr(self.S.last_seg(z, sep))
            if isinstance(k, PyC) and k.v == 0:
                if self.fork(self.S.has(z, sep)):
                    return self.mkstr(self.S.split_first(z, sep)[0])
                return self.mkstr(z)
            o = self.new_cell(self.as_list(o))
        if isinstance(o, IterV):
            if o.kind in ('items', 'keys', 'values', 'zip', 'enumerate'):
                raise PyRaise(ExcV('TypeError'))
            o = self.new_cell(self.as_list(o))
        if isinstance(o, Loc):
            cv = self.content(o)
            if isinstance(cv, DictV):
                return self.dict_get(o, cv, k)
            if isinstance(cv, ListV):
                return self.list_index(cv, k)
        raise Unsupported('subscript of %r' % (o,))

    def list_index(self, cv, k):
        if is_strlike(k) or (isinstance(k, PyC) and not isinstance(k.v, int)):
            raise PyRaise(ExcV('TypeError'))
        if isinstance(k, PyC):
            n = k.v
            if cv.concrete():
                try:
                    return cv.segs[n][1]
                except IndexError:
                    raise PyRaise(ExcV('IndexError'))
            if n >= 0:
                segs = list(cv.segs)
                while segs and segs[0][0] == 'e' and n:
                    segs.pop(0)
                    n -= 1
                if segs and segs[0][0] == 'e' and n == 0:
                    return segs[0][1]
                if not segs:
                    raise PyRaise(ExcV('IndexError'))
                z = self.seq(ListV(segs))
                ty = segs[0][2]
                self.shape(z, n + 1)
                if n == 0:
                    if self.fork(z == EMPTY):
                        raise PyRaise(ExcV('IndexError'))
                else:
                    if not self.fork(z3.Length(z) > n):
                        raise PyRaise(ExcV('IndexError'))
                self.picked(z, z[n])
                return self.wrap(z[n], ty)
            if n == -1 and cv.segs[-1][0] == 'e':
                return cv.segs[-1][1]
            z = self.seq(cv)
            self.shape(z, 2)
            if not self.fork(z3.Length(z) >= -n):
                raise PyRaise(ExcV('IndexError'))
            return self.wrap(z[z3.Length(z) + n], cv.segs[-1][2] if cv.segs[-1][0] == 's' else None)
        if isinstance(k, Int):
            z = self.seq(cv)
            L = z3.Length(z)
            if not self.fork(z3.And(k.z < L, k.z >= -L)):
                raise PyRaise(ExcV('IndexError'))
            ty = cv.segs[0][2] if cv.segs and all(s[0] == 's' for s in cv.segs) else None
            return self.wrap(z3.If(k.z >= 0, z[k.z], z[L + k.z]), ty)
        raise Unsupported('list index %r' % (k,))

    def shape(self, z, n):
        """Length and first n elements of a sequence that maps another one element by element, or that splits a string."""
        if not (z3.is_app(z) and z.num_args()):
            return
        name = z.decl().name()
        if name.startswith('split_all['):
            t, L = z.arg(0), z3.Length(z)
            sep = name[len('split_all['):-1]
            self.fact(L >= 1)
            for i in range(max(n, 2)):
                has = self.S.has(t, sep)
                h, r = self.S.split_first(t, sep)
                self.fact(z3.Implies(L > i, z3.And((L > i + 1) == has, z[i] == Val.VStr(z3.If(has, h, t)))))
                t = r
            return
        F = self.fold_by_uf.get(name)
        if F is None or F.kind != 'FM' or F.idx is not None or not z3.is_app_of(F.body, z3.Z3_OP_SEQ_UNIT):
            return
        S, P = z.arg(0), z.children()[1:]
        self.fact(z3.Length(z) == z3.Length(S))
        for i in range(n):
            inside = z3.Length(S) > i
            self.fact(z3.Implies(inside, z[i] == F.at(S[i], P).arg(0)))
            for f in self.inst_facts(F, S[i], P):
                self.fact(z3.Implies(inside, f))
        self.shape(S, n)

    def picked(self, z, v):
        """v is an element of z: where z selects elements of a sequence, v is one that is selected."""
        F = self.fold_by_uf.get(z.decl().name()) if z3.is_app(z) and z.num_args() else None
        if F is None or F.kind != 'FM' or F.idx is not None:
            return
        b = z3.simplify(F.body)
        if z3.is_app_of(b, z3.Z3_OP_ITE) and {b.arg(1).get_id(), b.arg(2).get_id()} == {EMPTY.get_id(), z3.simplify(z3.Unit(F.X)).get_id()}:
            self.fact(F.at(v, z.children()[1:]) == z3.Unit(v))

    # ------------------------------------------------------------------ dicts
    def dkey(self, k):
        k = self.kind(k)
        if is_strlike(k):
            return self.zstr(k)
        if isinstance(k, PyC) and isinstance(k.v, int):
            return sval('\x00int:%d' % k.v)
        if isinstance(k, PyC) and k.v is None:
            return sval('\x00none')
        if isinstance(k, Int):
            return concat(sval('\x00int:'), self.S.istr(k.z))
        raise Unsupported('dict key %r' % (k,))

    def dict_has(self, cv, k):
        z = self.dkey(k)
        v = z3.simplify(z3.Select(cv.map, z))
        self.du_facts(cv.map, z)
        return z3.Not(v == Val.VAbs) if not v.eq(Val.VAbs) else False

    def dict_get(self, loc, cv, k):
        z = self.dkey(k)
        h = self.dict_has(cv, k)
        if not self.fork(h):
            raise PyRaise(ExcV('KeyError'))
        return self.dict_val(loc, cv, z)

    def dict_val(self, loc, cv, z):
        v = self.sel(cv.map, z)
        if isinstance(cv.ty, (TList, TDict)):
            self.fact(self.type_fact(v, cv.ty))
            if loc is not None:
                return ItemLoc(self.deref(loc), z, 'list' if isinstance(cv.ty, TList) else 'dict', cv.ty)
        r = self.wrap(v, cv.ty)
        if isinstance(r, ValS) and r.ty is None and z3.is_app(v):
            n = v.decl().name()
            if n in ('VList', 'VDict') and loc is not None:
                return ItemLoc(self.deref(loc), z, 'list' if n == 'VList' else 'dict', None)
        return r

    def sel(self, m, z):
        while z3.is_store(m):
            a, k, v = m.children()
            if k.eq(z) or self.must(k == z):
                return v
            if self.must(k != z):
                m = a
                continue
            break
        return z3.simplify(z3.Select(m, z))

    def dict_set(self, loc, k, v):
        cv = self.content(loc)
        if not isinstance(cv, DictV):
            raise Unsupported('item assignment')
        z = self.dkey(k)
        h = self.dict_has(cv, k)
        ty = self.sv_ty(v) if not cv.keys.segs and cv.ty is None else self.join_ty(cv.ty, self.sv_ty(v))
        val = self.zval(self.stored(v))
        if isinstance(h, bool) or cv.keys.concrete():
            new = not self.fork(h)
        else:
            new = False if self.must(h) else True if self.must(z3.Not(h)) else None
        keys = cv.keys
        if new:
            keys = ListV(keys.segs + (('e', self.mkstr(z)),))
        elif new is None:
            keys = ListV(keys.segs + (('s', z3.If(h, EMPTY, z3.Unit(Val.VStr(z))), TStr),))
        self.setcontent(loc, DictV(keys, z3.Store(cv.map, z, val), ty))

    def du(self, cv, P, ty):
        """Content of a dict after it is updated with a sequence of pairs."""
        if P.eq(EMPTY):
            return cv
        if ST.is_concat(P):
            for p in flatcat([P]):
                cv = self.du(cv, p, ty)
            return cv
        nty = ty if not cv.keys.segs and cv.ty is None else self.join_ty(cv.ty, ty)
        K = self.seq(cv.keys)
        k = ST.uf('du.keys', SEQ, ARR, SEQ, SEQ)(K, cv.map, P)
        m = ST.uf('du.map', ARR, SEQ, ARR)(cv.map, P)
        self.fact(z3.And((k == EMPTY) == z3.And(K == EMPTY, P == EMPTY), z3.Implies(P == EMPTY, z3.And(k == K, m == cv.map))))
        return DictV(ListV([('s', k, TStr)]), m, nty)

    def du_facts(self, m, z):
        """A key is in an updated dict when it was before or one of the pairs has it."""
        while True:
            if z3.is_store(m):
                m = m.arg(0)
            elif z3.is_app(m) and m.num_args() == 2 and m.decl().name() == 'du.map':
                M0, P = m.arg(0), m.arg(1)
                X = self.fresh('x', Val)
                a = self.fold_any(P, X, Val.vs(Val.vt(X)[0]) == z, None, Facts([], 'pair'))
                self.fact((z3.Select(m, z) == Val.VAbs) == z3.And(z3.Select(M0, z) == Val.VAbs, z3.Not(a)))
                m = M0
            else:
                return

    def dict_del(self, loc, k):
        cv = self.content(loc)
        z = self.dkey(k)
        if not self.fork(self.dict_has(cv, k)):
            raise PyRaise(ExcV('KeyError'))
        self.setcontent(loc, DictV(self.list_remove(cv.keys, self.mkstr(z)), z3.Store(cv.map, z, Val.VAbs), cv.ty))

    def list_remove(self, lv, x):
        """Content after removing the first occurrence of x, which is known to be present."""
        if lv.concrete():
            conds = []
            for i, s in enumerate(lv.segs):
                c = self.eq(s[1], x)
                if c is True:
                    if not conds:
                        return ListV(lv.segs[:i] + lv.segs[i + 1:], lv.kind)
                    break
                if c is not False:
                    conds.append(i)
            for i, s in enumerate(lv.segs):
                if self.fork(self.eq(s[1], x)):
                    return ListV(lv.segs[:i] + lv.segs[i + 1:], lv.kind)
            raise Infeasible()
        z = self.seq(lv)
        ty = next((s[2] for s in lv.segs if s[0] == 's'), None)
        return ListV([('s', ST.uf('seq.remove', SEQ, Val, SEQ)(z, self.zval(x)), ty)], lv.kind)

    def dict_update(self, loc, other):
        other = self.kind(other)
        if isinstance(other, Loc) and isinstance(self.content(other), DictV):
            ocv = self.content(other)
            if ocv.keys.concrete():
                for s in ocv.keys.segs:
                    self.dict_set(loc, s[1], self.wrap(self.sel(ocv.map, self.zstr(s[1])), ocv.ty))
                return
            cv = self.content(loc)
            if not cv.keys.segs:
                self.setcontent(loc, DictV(ocv.keys, ocv.map, cv.ty or ocv.ty))
                return
            m, ks = ocv.map, ocv.keys.segs
            if z3.is_app(m) and m.decl().name() == 'du.map' and m.arg(0).eq(EMPTYARR) and len(ks) == 1 and ks[0][0] == 's' and z3.is_app(ks[0][1]) \
                    and ks[0][1].decl().name() == 'du.keys' and ks[0][1].arg(0).eq(EMPTY) and ks[0][1].arg(2).eq(m.arg(1)):
                self.setcontent(loc, self.du(cv, m.arg(1), ocv.ty))
                return
            other = IterV('items', self.new_cell(ocv))
        # iterable of pairs
        def bind(x):
            self._pair = x
        pair = {}

        def body():
            a, b = self.unpack(pair['x'], 2)
            self.dict_set(loc, a, b)
        self.loop(other, lambda x: pair.__setitem__('x', x), body, None)

    # ------------------------------------------------------------------ calls
    def ev_Call(self, e, cx):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and not e.args:
            return SuperV(cx.selfv, cx.cls)
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return SuperV(self.ev(e.args[1], cx), self.ev(e.args[0], cx).ci)
        f = self.ev(e.func, cx)
        args, kwargs = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                lv = self.as_list(self.ev(a.value, cx))
                if not lv.concrete():
                    if isinstance(f, ExtV) and f.name == 'itertools.chain':
                        return self.new_cell(self.flatten(lv))
                    raise Unsupported('symbolic *args')
                args.extend(s[1] for s in lv.segs)
            else:
                args.append(self.ev(a, cx))
        for k in e.keywords:
            if k.arg is None:
                d = self.kind(self.ev(k.value, cx))
                cv = self.content(d) if isinstance(d, Loc) else None
                if not isinstance(cv, DictV):
                    raise Unsupported('** of non-dict')
                if cv.keys.concrete():
                    for s in cv.keys.segs:
                        kwargs[const(self.zstr(s[1]))] = self.wrap(self.sel(cv.map, self.zstr(s[1])), cv.ty)
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = self.ev(k.value, cx)
        return self.call(f, args, kwargs)

    def call(self, f, args, kwargs):
        if isinstance(f, FuncV):
            return self.call_func(f.fi, args, kwargs, f.fid)
        if isinstance(f, BoundV):
            return self.call_func(f.fi, [f.obj] + args, kwargs)
        if isinstance(f, MethV) and f.name == '__getattribute__':
            # Python calls __getattr__ only for an attribute the object does not have
            if self.fnames[-1:] == ['__getattr__']:
                raise PyRaise(ExcV('AttributeError'))
            raise Unsupported('__getattribute__')
        if isinstance(f, MethV):
            return self.builtin_method(f.obj, f.name, args, kwargs)
        if isinstance(f, ClassV):
            return self.construct(f.ci, args, kwargs)
        if isinstance(f, ExtV):
            return self.call_ext(f, args, kwargs)
        if isinstance(f, ValS):
            m = self.models.get('call_value')
            if m:
                return m(self, f, args, kwargs)
        if isinstance(f, Obj):
            return self.call_method(f, '__call__', args, kwargs)
        if isinstance(f, PyC) and f.v is None:
            raise PyRaise(ExcV('TypeError'))
        raise Unsupported('call of %r' % (f,))

    def call_method(self, o, name, args, kwargs):
        f = self.obj_getattr(o, name) if isinstance(o, Obj) else self.getattr_(o, name)
        return self.call(f, args, kwargs)

    def bind_args(self, fi, args, kwargs, cx_defaults):
        """Map arguments to parameters; returns dict name->SV."""
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        out = {}
        rest = list(args)
        for n in names:
            if rest:
                out[n] = rest.pop(0)
        if rest:
            if a.vararg is None:
                raise PyRaise(ExcV('TypeError'))
            out[a.vararg.arg] = TupS(rest)
        elif a.vararg is not None:
            out[a.vararg.arg] = TupS([])
        extra = {}
        star = None
        for k, v in kwargs.items():
            if k == '**':
                star = v
            elif k in names or k in [p.arg for p in a.kwonlyargs]:
                if k in out:
                    raise PyRaise(ExcV('TypeError'))
                out[k] = v
            else:
                extra[k] = v
        if a.kwarg is not None:
            if star is not None:
                if extra:
                    raise Unsupported('mixed ** arguments')
                out[a.kwarg.arg] = self.new_cell(self.content(star))
            else:
                loc = self.new_cell(DictV())
                for k, v in extra.items():
                    self.dict_set(loc, PyC(k), v)
                out[a.kwarg.arg] = loc
        elif extra:
            raise PyRaise(ExcV('TypeError'))
        elif star is not None:
            raise Unsupported('** to a function without **kwargs')
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in out:
                out[n] = self.default_value(d, cx_defaults)
        for p, d in zip(a.kwonlyargs, a.kw_defaults):
            if p.arg not in out:
                if d is None:
                    raise PyRaise(ExcV('TypeError'))
                out[p.arg] = self.default_value(d, cx_defaults)
        for n in names:
            if n not in out:
                raise PyRaise(ExcV('TypeError'))
        return out

    def default_value(self, d, cx):
        v = self.ev(d, cx)
        if isinstance(v, Loc):
            self.st.frozen.add(('cell', self.deref(v).id))       # shared between calls
        return v

    def call_func(self, fi, args, kwargs, fid=None):
        cons = self.contracts.get(fi.key, ()) if fi.cls is not None or fid is None else ()
        if not self.spec_mode and (fi.key != self.active or self.depth > 0):
            for i, con in enumerate(cons):
                r = con.apply(self, fi, args, kwargs, cons[i + 1:])
                if r is not None:
                    return r
            if cons and any(isinstance(a, ValS) and isinstance(a.ty, TOr) for a in list(args) + list(kwargs.values())):
                # contracts by argument type: decide which of its types the argument has
                args = [self.kind(a) if isinstance(a, ValS) and isinstance(a.ty, TOr) else a for a in args]
                kwargs = {k: self.kind(a) if isinstance(a, ValS) and isinstance(a.ty, TOr) else a for k, a in kwargs.items()}
                for i, con in enumerate(cons):
                    r = con.apply(self, fi, args, kwargs, cons[i + 1:])
                    if r is not None:
                        return r
        m = self.models.get(fi.key)
        if m is not None:
            self.used_models.add(fi.key)
            return m(self, args, kwargs)
        if fi.kind == 'decorated' and not fi.spec:
            raise Unsupported('decorated function ' + fi.key)
        if fi.key in self.symbols:
            b = self.bind_args(fi, args, kwargs, self.default_cx(fi))
            b = [b[p.arg] for p in fi.node.args.args]
            if self.as_symbol(fi.key, b):
                return self.rec_apply(fi, b)
        if self.spec_mode and fi.spec and fi.key in self.contract_specs:
            return self.pure(lambda: self.inline(fi, args, kwargs, fid))     # as where the contract is used
        return self.inline(fi, args, kwargs, fid)

    def inline(self, fi, args, kwargs, fid=None):
        if self.inline_stack.count(id(fi.node)) > 0 and not fi.qual.startswith('<lambda') :
            if self.inline_stack.count(id(fi.node)) > self.rec_limit:
                raise Unsupported('recursion through ' + fi.key)
        if len(self.inline_stack) > 40:
            raise Unsupported('call depth')
        if not fi.spec and self.depth > 0:
            self.inlined.add(fi.key)
        frame = self.new_frame(fid)
        cls = fi.cls
        if cls is None and fid is not None:
            cls = self.st.frames[fid].get('$cls') if fid in self.st.frames else None
        dcx = Cx(self.new_frame(fid), fi, fi.module, cls, None)
        bound = self.bind_args(fi, args, kwargs, dcx)
        self.st.frames[frame].update(bound)
        if cls is not None:
            self.st.frames[frame]['$cls'] = cls
        selfv = args[0] if fi.cls is not None and args else None
        if selfv is None and fid is not None:
            selfv = self.st.frames[fid].get('$self') if fid in self.st.frames else None
        if selfv is not None:
            self.st.frames[frame]['$self'] = selfv
        cx = Cx(frame, fi, fi.module, cls, selfv)
        if fi.is_gen:
            cx.ylist = self.new_cell(ListV())
            self.st.frames[frame]['$yield'] = cx.ylist
        self.inline_stack.append(id(fi.node))
        self.fnames.append(fi.node.name)
        self.depth += 1
        try:
            v = PyC(None)
            try:
                if isinstance(fi.node, LambdaNode):
                    v = self.ev(fi.node.lam.body, cx)
                else:
                    self.block(fi.node.body, cx)
            except RetSig as r:
                v = r.v
            if fi.is_gen:
                return cx.ylist
            return v
        finally:
            self.depth -= 1
            self.inline_stack.pop()
            self.fnames.pop()

    def construct(self, ci, args, kwargs):
        mro = self.repo.mro(ci.name)
        if self.is_exc_class(ci.name):
            return ExcV(ci.name, args)
        m = self.models.get('new:' + ci.name)
        if m is not None:
            self.used_models.add('new:' + ci.name)
            return m(self, args, kwargs)
        o = self.alloc(ci.name)
        if 'call_value' in self.models and any(c.name == 'Term' for c in mro):
            self.hwrite(o.z, '$class', self.zval(ClassV(ci)))
        init = self.repo.lookup(ci.name, '__init__')
        if init is not None:
            self.call_func(init[1], [o] + args, kwargs)
        return o

    def alloc(self, cname):
        r = self.st.next
        self.st.next = z3.simplify(r + 1)
        self.fact(self.cls_of(r) == self.cid[cname])
        return Obj(r, [cname])

    def is_exc_class(self, name):
        if name in BUILTIN_EXC:
            return True
        ci = self.repo.classes.get(name)
        return ci is not None and any(self.is_exc_class(b) for b in ci.bases)

    def exc_isa(self, name, base):
        name, base = EXC_ALIAS.get(name, name), EXC_ALIAS.get(base, base)
        if name == base:
            return True
        if name in BUILTIN_EXC:
            p = BUILTIN_EXC[name]
            return p is not None and self.exc_isa(p, base)
        ci = self.repo.classes.get(name)
        if ci is not None:
            return any(self.exc_isa(b, base) for b in ci.bases)
        if base in ('Exception', 'BaseException'):
            return True
        for p in self.ext_exc.get(name, ()):
            if self.exc_isa(p, base):
                return True
        return False

    # ------------------------------------------------------------------ unpacking and assignment
    def unpack(self, v, n):
        v = self.kind(v)
        if isinstance(v, TupS):
            if len(v.items) != n:
                raise PyRaise(ExcV('ValueError'))
            return v.items
        if isinstance(v, PyC):
            if isinstance(v.v, str):
                if len(v.v) != n:
                    raise PyRaise(ExcV('ValueError'))
                return [PyC(c) for c in v.v]
            raise PyRaise(ExcV('TypeError'))
        if isinstance(v, (Int, Bool)):
            raise PyRaise(ExcV('TypeError'))
        if isinstance(v, IterV) and v.kind == 'split' and n == 2:
            z, sep = v.args
            if not self.fork(self.S.has(z, sep)):
                raise PyRaise(ExcV('ValueError'))
            h, t = self.S.split_first(z, sep)
            if self.fork(self.S.has(t, sep)):
                raise PyRaise(ExcV('ValueError'))
            return [self.mkstr(h), self.mkstr(t)]
        if isinstance(v, IterV):
            v = self.new_cell(self.as_list(v))
        if isinstance(v, Loc):
            cv = self.content(v)
            if isinstance(cv, DictV):
                cv = cv.keys
            if isinstance(cv, ListV):
                if cv.concrete():
                    if len(cv.segs) != n:
                        raise PyRaise(ExcV('ValueError'))
                    return [s[1] for s in cv.segs]
                z = self.seq(cv)
                self.shape(z, n)
                if not self.fork(z3.Length(z) == n):
                    raise PyRaise(ExcV('ValueError'))
                ty = next((s[2] for s in cv.segs if s[0] == 's'), None)
                return [self.wrap(z[i], ty) for i in range(n)]
        if isinstance(v, Str):
            raise Unsupported('unpacking a symbolic string')
        raise Unsupported('unpack %r' % (v,))

    def assign(self, t, v, cx):
        if isinstance(t, ast.Name):
            self.setvar(cx, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                raise Unsupported('starred assignment')
            for x, y in zip(t.elts, self.unpack(v, len(t.elts))):
                self.assign(x, y, cx)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, cx)
            self.setattr_(o, self.mangle(t.attr, cx), v, cx)
        elif isinstance(t, ast.Subscript):
            o = self.kind(self.ev(t.value, cx))
            k = self.ev(t.slice, cx)
            self.setitem(o, k, v)
        else:
            raise Unsupported('assignment target')

    def setitem(self, o, k, v):
        if isinstance(o, Obj):
            self.call_method(o, '__setitem__', [k, v], {})
        elif isinstance(o, Loc) and isinstance(self.content(o), DictV):
            self.dict_set(o, k, v)
        else:
            raise Unsupported('item assignment on %r' % (o,))

    # ------------------------------------------------------------------ statements
    def block(self, body, cx):
        for s in body:
            self.stmt(s, cx)

    def stmt(self, s, cx):
        m = getattr(self, 'st_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        self.line = (cx.module.name, s.lineno)
        return m(s, cx)

    def st_Expr(self, s, cx):
        if isinstance(s.value, ast.Constant):
            return
        self.ev(s.value, cx)

    def st_Pass(self, s, cx):
        pass

    def st_Assign(self, s, cx):
        v = self.ev(s.value, cx)
        for t in s.targets:
            self.assign(t, v, cx)

    def st_AnnAssign(self, s, cx):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, cx), cx)

    def st_AugAssign(self, s, cx):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.getvar(cx, t.id)
            self.setvar(cx, t.id, self.aug(s.op, cur, self.ev(s.value, cx)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, cx)
            a = self.mangle(t.attr, cx)
            cur = self.getattr_(o, a)
            r = self.aug(s.op, cur, self.ev(s.value, cx))
            if r is not cur:
                self.setattr_(o, a, r, cx)
        elif isinstance(t, ast.Subscript):
            o = self.kind(self.ev(t.value, cx))
            k = self.ev(t.slice, cx)
            cur = self.getitem(o, k)
            r = self.aug(s.op, cur, self.ev(s.value, cx))
            if r is not cur:
                self.setitem(o, k, r)
        else:
            raise Unsupported('augmented assignment')

    def aug(self, op, cur, v):
        cur = self.kind(cur)
        if isinstance(op, ast.Add) and isinstance(cur, Loc):
            cv = self.content(cur)
            if isinstance(cv, ListV) and cv.kind == 'list':
                self.setcontent(cur, ListV(cv.segs + self.as_list(v).segs))
                return cur
        return self.binop(op, cur, v)

    def st_Return(self, s, cx):
        v = self.ev(s.value, cx) if s.value is not None else PyC(None)
        raise RetSig(v)

    def st_Raise(self, s, cx):
        if s.exc is None:
            if not self.current_exc:
                raise PyRaise(ExcV('RuntimeError'))
            raise PyRaise(self.current_exc[-1])
        raise PyRaise(self.as_exc(self.ev(s.exc, cx)))

    def as_exc(self, v):
        if isinstance(v, ExcV):
            return v
        if isinstance(v, ExtV):
            return ExcV(v.name.split('.')[-1])
        if isinstance(v, ClassV):
            return ExcV(v.ci.name)
        raise Unsupported('raise %r' % (v,))

    def st_Assert(self, s, cx):
        c = self.cond(s.test, cx)
        if not self.fork(c):
            raise PyRaise(ExcV('AssertionError'))

    def st_If(self, s, cx):
        c = self.cond(s.test, cx)
        self.block(s.body if self.fork(c) else s.orelse, cx)

    def st_Break(self, s, cx):
        raise BrkSig()

    def st_Continue(self, s, cx):
        raise ContSig()

    def st_Global(self, s, cx):
        raise Unsupported('global')

    def st_Nonlocal(self, s, cx):
        self.st.frames[cx.fid].setdefault('$nonlocal', ())
        self.st.frames[cx.fid]['$nonlocal'] = self.st.frames[cx.fid]['$nonlocal'] + tuple(s.names)

    def st_Import(self, s, cx):
        for a in s.names:
            self.setvar(cx, a.asname or a.name.split('.')[0], ModV(a.name if a.asname else a.name.split('.')[0]))

    def st_ImportFrom(self, s, cx):
        for nm, (_, base, name) in import_from(cx.module, s):
            r = self.repo.resolve(base, name) if base in self.repo.modules else None
            v = self.ent_value(r, self.repo.modules.get(base), name) if r is not None else ExtV(base + '.' + name)
            self.setvar(cx, nm, v)

    def st_FunctionDef(self, s, cx):
        if s.decorator_list:
            raise Unsupported('decorated local function')
        fi = FuncInfo(cx.module, '%s.<locals>.%s' % (cx.fi.qual if cx.fi else '', s.name), s, None, 'function')
        self.setvar(cx, s.name, FuncV(fi, cx.fid))

    def st_Delete(self, s, cx):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                o = self.kind(self.ev(t.value, cx))
                k = self.ev(t.slice, cx)
                if isinstance(o, Obj):
                    self.call_method(o, '__delitem__', [k], {})
                elif isinstance(o, Loc) and isinstance(self.content(o), DictV):
                    self.dict_del(o, k)
                elif isinstance(o, (Str, Int, Bool, PyC, TupS)) or isinstance(o, Loc) and isinstance(self.content(o), ListV) and is_strlike(self.kind(k)):
                    raise PyRaise(ExcV('TypeError'))
                else:
                    raise Unsupported('del item')
            elif isinstance(t, ast.Name):
                self.st.frames[cx.fid].pop(t.id, None)
            else:
                raise Unsupported('del')

    def st_Try(self, s, cx):
        def final():
            if s.finalbody:
                self.block(s.finalbody, cx)
        try:
            try:
                self.block(s.body, cx)
            except PyRaise as r:
                for h in s.handlers:
                    if self.handler_matches(h, r.exc, cx):
                        if r.exc.wild:
                            raise Unsupported('an exception is caught after which the effects are not specified')
                        if h.name:
                            self.setvar(cx, h.name, r.exc)
                        self.current_exc.append(r.exc)
                        try:
                            self.block(h.body, cx)
                        finally:
                            self.current_exc.pop()
                        break
                else:
                    raise
            else:
                self.block(s.orelse, cx)
        except (PyRaise, Sig):
            final()
            raise
        final()

    def handler_matches(self, h, exc, cx):
        if h.type is None:
            return True
        ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        for t in ts:
            v = self.ev(t, cx)
            n = v.name.split('.')[-1] if isinstance(v, ExtV) else v.ci.name if isinstance(v, ClassV) else None
            if isinstance(v, TupS):
                for i in v.items:
                    n2 = i.name.split('.')[-1] if isinstance(i, ExtV) else i.ci.name
                    if self.exc_isa(exc.name, n2):
                        return True
                continue
            if n is None:
                raise Unsupported('except clause')
            if self.exc_isa(exc.name, n):
                return True
        return False

    def st_With(self, s, cx):
        """Objects of the assumed classes of dependencies (specs/stubs.py), whose exit does nothing and lets exceptions pass."""
        for it in s.items:
            v = self.ev(it.context_expr, cx)
            if not (isinstance(v, Obj) and all(self.repo.classes[c].module.is_spec and self.repo.lookup(c, '__enter__') for c in v.cls)):
                raise Unsupported('with statement')
            r = self.call_method(v, '__enter__', [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, r, cx)
        self.block(s.body, cx)

    def st_While(self, s, cx):
        # `while True` with breaks on every path of the first iteration, or a loop whose test becomes concrete
        n = 0
        while True:
            n += 1
            if n > 12:
                raise Unsupported('while loop')
            if not self.fork(self.cond(s.test, cx)):
                self.block(s.orelse, cx)
                return
            try:
                self.block(s.body, cx)
            except BrkSig:
                return
            except ContSig:
                continue

    def st_For(self, s, cx):
        it = self.ev(s.iter, cx)
        if self.remove_loop(s, it, cx):
            return
        broke = self.loop(it, lambda x: self.assign(s.target, x, cx), lambda: self.block(s.body, cx), cx)
        if not broke:
            self.block(s.orelse, cx)


    def remove_loop(self, s, it, cx):
        """Two loop rules for removal.
        for x in L': if P(x): L.remove(x)    from L equal to L', P not reading L, leaves the elements of L without P.  (After i steps L is
          the first i elements without P, then the others; an x with P is not among the former, so its first occurrence is the i-th.)
        for x in S: L.remove(x)              is a symbol of L and S; both that some x is missing and what is left are."""
        b, test = s.body, None
        if s.orelse or len(b) != 1 or not isinstance(s.target, ast.Name):
            return False
        if isinstance(b[0], ast.If) and not b[0].orelse and len(b[0].body) == 1:
            test, b = b[0].test, b[0].body
        c = b[0].value if isinstance(b[0], ast.Expr) else None
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'remove' and not c.keywords and len(c.args) == 1
                and isinstance(c.args[0], ast.Name) and c.args[0].id == s.target.id):
            return False
        X = c.func.value
        if any(isinstance(n, ast.Name) and n.id == s.target.id for n in ast.walk(X)) or not all(isinstance(n, (ast.Name, ast.Attribute, ast.Load)) for n in ast.walk(X)):
            return False
        loc = self.ev(X, cx)
        if not isinstance(loc, Loc) or (isinstance(it, Loc) and loc_same(it, loc)):
            return False
        cv = self.content(loc)
        if not isinstance(cv, ListV) or cv.kind != 'list':
            return False
        lv = self.as_list(it)
        if lv.concrete() or not all(s_[0] == 's' for s_ in lv.segs):
            return False
        L, S = self.seq(cv), self.seq(lv)
        if test is None:
            self.fact(z3.Implies(S == EMPTY, z3.And(z3.Not(ST.uf('seq.minus.fails', SEQ, SEQ, BOOL)(L, S)), ST.uf('seq.minus', SEQ, SEQ, SEQ)(L, S) == L)))
            ty = self.elem_type(cv, self.st)
            if self.fork(ST.uf('seq.minus.fails', SEQ, SEQ, BOOL)(L, S)):
                self.setcontent(loc, ListV([('s', ST.uf('seq.minus.left', SEQ, SEQ, SEQ)(L, S), ty)]))
                raise PyRaise(ExcV('ValueError'))
            self.setcontent(loc, ListV([('s', ST.uf('seq.minus', SEQ, SEQ, SEQ)(L, S), ty)]))
            self.assign(s.target, Poison('loop variable'), cx)
            return True
        tys = [s_[2] for s_ in cv.segs if s_[0] == 's']
        if not L.eq(S) or len(tys) != len(cv.segs) or not all(isinstance(t, TObj) or isinstance(t, TKind) and tuple(t.kinds) == ('str',) for t in tys):
            return False
        Z = self.fresh('L', SEQ)
        self.setcontent(loc, ListV([('s', Z, tys[0])]))
        acc = self.new_cell(ListV())
        box = {}

        def body():
            if not self.fork(self.cond(test, cx)):
                self.setcontent(acc, ListV(self.content(acc).segs + (('e', box['x']),)))

        def bind(x):
            box['x'] = x
            self.assign(s.target, x, cx)
        self.loop(it, bind, body, cx)
        out = self.content(acc)
        if mentions(self.seq(out), {Z.get_id()}):
            raise Unsupported('the condition of a removal reads the list')
        self.setcontent(loc, out)
        return True


class LambdaNode:
    """Presents a lambda as a function node."""

    def __init__(self, lam):
        self.lam, self.args, self.body, self.decorator_list, self.lineno = lam, lam.args, [], [], lam.lineno
        self.name = '<lambda>'
