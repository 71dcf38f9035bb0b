"""Symbolic values: a universal z3 datatype for Python values, plus meta-level wrappers."""
import z3

STR, INT, BOOL = z3.StringSort(), z3.IntSort(), z3.BoolSort()
_V = z3.Datatype('Val')
_V.declare('VAbs')
_V.declare('VNone')
_V.declare('VBool', ('vb', BOOL))
_V.declare('VInt', ('vi', INT))
_V.declare('VStr', ('vs', STR))
_V.declare('VRef', ('vr', INT))
_V.declare('VTup', ('vt', z3.SeqSort(z3.DatatypeSort('Val'))))
_V.declare('VList', ('vl', z3.SeqSort(z3.DatatypeSort('Val'))))
_V.declare('VDict', ('vk', z3.SeqSort(z3.DatatypeSort('Val'))), ('vm', z3.ArraySort(STR, z3.DatatypeSort('Val'))))
_V.declare('VOpaque', ('vo', INT))
Val = _V.create()
SEQ = z3.SeqSort(Val)
ARR = z3.ArraySort(STR, Val)
HEAP = z3.ArraySort(INT, Val)
EMPTY = z3.Empty(SEQ)
EMPTYARR = z3.K(STR, Val.VAbs)

KINDS = {
    'none': Val.is_VNone, 'bool': Val.is_VBool, 'int': Val.is_VInt, 'str': Val.is_VStr, 'ref': Val.is_VRef,
    'tup': Val.is_VTup, 'list': Val.is_VList, 'dict': Val.is_VDict, 'opaque': Val.is_VOpaque,
}


class Unsupported(Exception):
    """The construct is outside the verifier's subset (a tool limit, never a violation)."""


class Infeasible(Exception):
    pass


# ---------------------------------------------------------------- types (descriptors used by contracts)
class T:
    def __repr__(self):
        return self.__class__.__name__ + repr(self.__dict__)


class TKind(T):
    def __init__(self, *kinds):
        self.kinds = kinds


class TObj(T):
    def __init__(self, *classes, exact=False):
        self.classes, self.exact = classes, exact


class TList(T):
    def __init__(self, elem=None):
        self.elem = elem


class TTup(T):
    def __init__(self, *items):
        self.items = items


class TDict(T):
    def __init__(self, val=None):
        self.val = val


class TOr(T):
    def __init__(self, *alts):
        self.alts = alts


class TConst(T):
    """A single concrete python constant, or one of several."""

    def __init__(self, *vals):
        self.vals = vals


TStr, TInt, TBool, TNone = TKind('str'), TKind('int'), TKind('bool'), TKind('none')
TOptStr = TKind('str', 'none')
TScalar = TKind('str', 'none', 'int', 'bool')
TAny = TKind('str', 'none', 'int', 'bool', 'ref', 'list', 'dict', 'tup', 'opaque')


# ---------------------------------------------------------------- meta-level values
class SV:
    pass


class PyC(SV):
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return 'PyC(%r)' % (self.v,)


class Str(SV):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z

    def __repr__(self):
        return 'Str(%s)' % self.z


class FloatV(SV):
    """A floating point number, known only by the value it was made from."""
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z


class BytesV(SV):
    """Encoded text: the text (z), and the encoding."""
    __slots__ = ('z', 'enc')

    def __init__(self, z, enc):
        self.z, self.enc = z, enc


class Int(SV):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z


class Bool(SV):
    __slots__ = ('z',)

    def __init__(self, z):
        self.z = z


class ValS(SV):
    __slots__ = ('z', 'ty')

    def __init__(self, z, ty=None):
        self.z, self.ty = z, ty

    def __repr__(self):
        return 'ValS(%s)' % self.z


class Obj(SV):
    __slots__ = ('z', 'cls')

    def __init__(self, z, cls):
        self.z, self.cls = z, tuple(cls)

    def __repr__(self):
        return 'Obj(%s:%s)' % (self.z, '|'.join(self.cls))


class TupS(SV):
    __slots__ = ('items', 'orig')

    def __init__(self, items, orig=None):
        self.items = list(items)
        self.orig = orig           # the value it is the unpacking of, and the contents its containers had then

    def __repr__(self):
        return 'Tup%r' % (self.items,)


class Loc(SV):
    pass


class CellLoc(Loc):
    __slots__ = ('id',)

    def __init__(self, id):
        self.id = id

    def __repr__(self):
        return 'Cell%d' % self.id


class FieldLoc(Loc):
    __slots__ = ('ref', 'attr', 'kind', 'ty')

    def __init__(self, ref, attr, kind, ty=None):
        self.ref, self.attr, self.kind, self.ty = ref, attr, kind, ty

    def __repr__(self):
        return 'Field(%s.%s)' % (self.ref, self.attr)


class ItemLoc(Loc):
    __slots__ = ('base', 'key', 'kind', 'ty')

    def __init__(self, base, key, kind, ty=None):
        self.base, self.key, self.kind, self.ty = base, key, kind, ty

    def __repr__(self):
        return 'Item(%r[%s])' % (self.base, self.key)


class FuncV(SV):
    def __init__(self, fi, fid=None, defaults=None):
        self.fi, self.fid, self.defaults = fi, fid, defaults


class BoundV(SV):
    def __init__(self, obj, fi):
        self.obj, self.fi = obj, fi


class ClassV(SV):
    def __init__(self, ci):
        self.ci = ci


class ModV(SV):
    def __init__(self, name):
        self.name = name


class ExtV(SV):
    """External (non-repository) function, class or object, by dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return 'Ext(%s)' % self.name


class MethV(SV):
    """Method of a builtin-typed value."""

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class SuperV(SV):
    def __init__(self, obj, ci):
        self.obj, self.ci = obj, ci


class ExcV(SV):
    wild = False            # raised by a callee whose effects are then not specified

    def __init__(self, name, args=(), attrs=None):
        self.name, self.args, self.attrs = name, tuple(args), dict(attrs or {})


class IterV(SV):
    """Lazily evaluated iterable: kind in items/keys/values/enumerate/zip/gen/list/reversed."""

    def __init__(self, kind, *args):
        self.kind, self.args = kind, args


class Poison(SV):
    """Value of a loop temporary after a summarised loop; reading it is outside the subset."""

    def __init__(self, why):
        self.why = why


class ListV:
    """Immutable list content: segments ('e', SV) or ('s', z3 Seq(Val), elemtype)."""
    __slots__ = ('segs', 'kind')

    def __init__(self, segs=(), kind='list'):
        self.segs, self.kind = tuple(segs), kind

    def concrete(self):
        return all(s[0] == 'e' for s in self.segs)


class DictV:
    __slots__ = ('keys', 'map', 'ty')

    def __init__(self, keys=None, map=EMPTYARR, ty=None):
        self.keys, self.map, self.ty = keys or ListV(), map, ty


class SetV:
    """Set content: a list of (possibly repeated) members; only order-insensitive uses are supported."""
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = items


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc
        Exception.__init__(self, exc.name)


class Sig(Exception):
    pass


class RetSig(Sig):
    def __init__(self, v):
        self.v = v


class BrkSig(Sig):
    pass


class ContSig(Sig):
    pass
