"""String model: uninterpreted symbols for unicode-dependent operations, with rewriting that is valid for every
str without U+03A3 (the one context-dependent lower() mapping); see selfcheck.py for the exhaustive
per-code-point validation of these facts against CPython."""
import re
import z3
from .values import STR, INT, BOOL, Val

_U = {}


def uf(name, *sorts):
    k = (name,) + tuple(s.sexpr() for s in sorts)
    if k not in _U:
        _U[k] = z3.Function(name, *sorts)
    return _U[k]


def sval(s):
    return z3.StringVal(s)


def const(z):
    """Python string of a z3 string literal, else None."""
    if z3.is_string_value(z):
        s = z.as_string()
        return re.sub(r'\\u\{([0-9a-fA-F]+)\}', lambda m: chr(int(m.group(1), 16)), s)
    return None


def is_uf(z, name):
    return z3.is_app(z) and z.decl().kind() == z3.Z3_OP_UNINTERPRETED and z.decl().name() == name and z.num_args() > 0


def is_concat(z):
    return z3.is_app(z) and z.decl().kind() == z3.Z3_OP_SEQ_CONCAT


def is_ite(z):
    return z3.is_app(z) and z.decl().kind() == z3.Z3_OP_ITE


def parts(z):
    if is_concat(z):
        out = []
        for c in z.children():
            out.extend(parts(c))
        return out
    return [z]


def concat(*zs):
    out = []
    for z in zs:
        for p in parts(z):
            c = const(p)
            if c == '':
                continue
            if c is not None and out and const(out[-1]) is not None:
                out[-1] = sval(const(out[-1]) + c)
            else:
                out.append(p)
    if not out:
        return sval('')
    if len(out) == 1:
        return out[0]
    return z3.Concat(*out)


class Strs:
    def __init__(self, emit, must):
        self.emit = emit  # callback for facts (valid instances of axioms)
        self.must = must  # callback: the condition holds on the current path
        self.seen = set()
        self.subs = {}    # substitutions of a class of characters: function name -> (one/run, characters of the class in ASCII, replacement)

    # -- which characters a string has
    def chars(self, z):
        """ASCII characters that are all the string can have, or None."""
        c = const(z)
        if c is not None:
            return frozenset(c) if c.isascii() else None
        if is_concat(z) or is_ite(z):
            out = frozenset()
            for x in (parts(z) if is_concat(z) else z.children()[1:]):
                k = self.chars(x)
                if k is None:
                    return None
                out |= k
            return out
        if is_uf(z, 'ascii'):
            return ASCII
        if is_uf(z, 'istr'):
            return frozenset('-0123456789')
        for n in ('strip', 'lstrip', 'rstrip'):
            if is_uf(z, n):
                return self.chars(z.arg(0))
        if is_uf(z, 'lower'):
            k = self.chars(z.arg(0))
            return None if k is None else frozenset(x.lower() for x in k)
        if z3.is_app(z) and z.decl().name() in self.subs:
            how, cls, rep = self.subs[z.decl().name()]
            k = self.chars(z.arg(0))
            return None if k is None or not rep.isascii() else (k - cls) | (frozenset(rep) if k & cls else frozenset())
        return None

    def ascii(self, z):
        """The string without its characters that are not ASCII."""
        c = const(z)
        if c is not None:
            return sval(c.encode('ascii', 'ignore').decode('ascii'))
        return z if self.chars(z) is not None else uf('ascii', STR, STR)(z)

    def normalize(self, form, z):
        import unicodedata
        c = const(z)
        if c is not None:
            return sval(unicodedata.normalize(form, c))
        return z if self.chars(z) is not None else uf('normalize_' + form, STR, STR)(z)

    def fact(self, f):
        self.emit(f)

    def ite(self, z, fn):
        c, a, b = z.children()
        return z3.If(c, fn(a), fn(b))

    # -- case and whitespace
    def lower(self, z):
        c = const(z)
        if c is not None:
            return sval(c.lower())
        if is_concat(z):
            return concat(*[self.lower(p) for p in parts(z)])
        if is_ite(z):
            return self.ite(z, self.lower)
        if is_uf(z, 'lower') or is_uf(z, 'istr'):
            return z
        k = self.chars(z)
        if k is not None and not any(x.isupper() for x in k):
            return z
        if is_uf(z, 'title') or is_uf(z, 'upper'):
            return self.lower(z.arg(0))
        m = re.match(r'(sh|st)_(.+)$', z.decl().name()) if z3.is_app(z) and z.num_args() == 1 else None
        r = uf('lower', STR, STR)(z)
        self.fact((r == sval('')) == (z == sval('')))
        return r

    def upper(self, z):
        c = const(z)
        return sval(c.upper()) if c is not None else uf('upper', STR, STR)(z)

    def title(self, z):
        c = const(z)
        if c is not None:
            return sval(c.title())
        if is_ite(z):
            return self.ite(z, self.title)
        r = uf('title', STR, STR)(z)
        self.fact((r == sval('')) == (z == sval('')))
        self.fact(self.lower(z) == uf('lower', STR, STR)(r))
        return r

    def strip(self, z):
        c = const(z)
        if c is not None:
            return sval(c.strip())
        if is_ite(z):
            return self.ite(z, self.strip)
        if is_uf(z, 'strip') or is_uf(z, 'istr'):
            return z
        k = self.chars(z)
        if k is not None and not any(x.isspace() for x in k):
            return z
        if is_uf(z, 'lower'):
            return self.lower(self.strip(z.arg(0)))
        r = uf('strip', STR, STR)(z)
        self.fact(z3.Implies(z == sval(''), r == sval('')))
        return r

    def lstrip(self, z):
        c = const(z)
        return sval(c.lstrip()) if c is not None else uf('lstrip', STR, STR)(z)

    def rstrip(self, z):
        c = const(z)
        return sval(c.rstrip()) if c is not None else uf('rstrip', STR, STR)(z)

    def strip_chars(self, z, chars, how='strip'):
        c = const(z)
        if c is not None:
            return sval(getattr(c, how)(chars))
        return uf('%sc_%s' % (how, chars), STR, STR)(z)

    # -- containment of one caseless, non-space character
    def has(self, z, ch):
        c = const(z)
        if c is not None:
            return z3.BoolVal(ch in c)
        simple = len(ch) == 1 and not ch.isalpha() and not ch.isspace() and ord(ch) < 128
        if not simple:
            if is_concat(z):
                for p in parts(z):
                    if const(p) is not None and ch in const(p):
                        return z3.BoolVal(True)
            r = uf('hasx_' + ch, STR, BOOL)(z)
            if len(ch) >= 1:
                self.fact(z3.Implies(r, z != sval('')))
            return r
        if is_concat(z):
            rs = [self.has(p, ch) for p in parts(z)]
            if any(z3.is_true(r) for r in rs):
                return z3.BoolVal(True)
            rs = [r for r in rs if not z3.is_false(r)]
            return z3.BoolVal(False) if not rs else rs[0] if len(rs) == 1 else z3.Or(*rs)
        if is_ite(z):
            return self.ite(z, lambda x: self.has(x, ch))
        for n in ('lower', 'strip', 'title', 'upper'):
            if is_uf(z, n):
                return self.has(z.arg(0), ch)
        if is_uf(z, 'istr') and ch not in '-':
            return z3.BoolVal(False)
        if is_uf(z, 'sh_' + ch):
            return z3.BoolVal(False)
        if is_uf(z, 'rt_' + ch):
            return z3.BoolVal(False)
        r = uf('has_' + ch, STR, BOOL)(z)
        self.fact(z3.Implies(r, z != sval('')))
        return r

    # -- split at the first separator (given that it occurs)
    def split_first(self, z, ch):
        c = const(z)
        if c is not None and ch in c:
            a, _, b = c.partition(ch)
            return sval(a), sval(b)
        if is_concat(z) and len(ch) == 1:
            ps = parts(z)
            for i, p in enumerate(ps):
                pc = const(p)
                if pc is not None and ch in pc:
                    a, _, b = pc.partition(ch)
                    return concat(*(ps[:i] + [sval(a)])), concat(*([sval(b)] + ps[i + 1:]))
                if not self.must(z3.Not(self.has(p, ch))):
                    break
        if is_uf(z, 'lower') and not ch.isalpha():
            a, b = self.split_first(z.arg(0), ch)
            return self.lower(a), self.lower(b)
        if is_ite(z):
            k, x, y = z.children()
            (a, b), (c2, d) = self.split_first(x, ch), self.split_first(y, ch)
            return z3.If(k, a, c2), z3.If(k, b, d)
        h, t = uf('sh_' + ch, STR, STR)(z), uf('st_' + ch, STR, STR)(z)
        self.fact(z3.Implies(self.has(z, ch), z == concat(h, sval(ch), t)))
        return h, t

    def last_seg(self, z, ch):
        """z.split(ch)[-1] / z.rsplit(ch,1)[-1]"""
        c = const(z)
        if c is not None:
            return sval(c.split(ch)[-1])
        if is_concat(z):
            ps = parts(z)
            for i in range(len(ps) - 1, -1, -1):
                pc = const(ps[i])
                if pc is not None and ch in pc:
                    return concat(*([sval(pc.rsplit(ch, 1)[1])] + ps[i + 1:]))
                if not self.must(z3.Not(self.has(ps[i], ch))):
                    break
        r = uf('rt_' + ch, STR, STR)(z)
        self.fact(z3.Implies(z3.Not(self.has(z, ch)), r == z))
        return r

    def link(self, z, ch='.'):
        """Make the split functions known on a concrete concat/literal, so equalities are injective."""
        k = (z.get_id(), ch)
        h, t = uf('sh_' + ch, STR, STR), uf('st_' + ch, STR, STR)
        c = const(z)
        if c is not None:
            if ch in c:
                a, _, b = c.partition(ch)
                self.fact(z3.And(h(z) == sval(a), t(z) == sval(b)))
                self.fact(uf('has_' + ch, STR, BOOL)(z) == True)  # noqa
            else:
                self.fact(uf('has_' + ch, STR, BOOL)(z) == False)  # noqa
            return
        if is_ite(z):
            self.link(z.arg(1), ch), self.link(z.arg(2), ch)
            return
        if is_concat(z):
            ps = parts(z)
            for i, p in enumerate(ps):
                pc = const(p)
                if pc is not None and ch in pc:
                    a, _, b = pc.partition(ch)
                    pre = concat(*(ps[:i] + [sval(a)]))
                    self.fact(z3.Implies(z3.Not(self.has(pre, ch)),
                                         z3.And(h(z) == pre, t(z) == concat(*([sval(b)] + ps[i + 1:])))))
                    break
            self.fact(uf('has_' + ch, STR, BOOL)(z) == self.has(z, ch))
            return
        self.fact(uf('has_' + ch, STR, BOOL)(z) == self.has(z, ch))
        hh, tt = self.split_first(z, ch)
        self.fact(z3.Implies(self.has(z, ch), z3.And(h(z) == hh, t(z) == tt, z == concat(hh, sval(ch), tt))))

    def replace(self, z, a, b):
        c = const(z)
        if c is not None:
            return sval(c.replace(a, b))
        if is_concat(z) and len(a) == 1:
            return concat(*[self.replace(p, a, b) for p in parts(z)])
        if is_ite(z):
            return self.ite(z, lambda x: self.replace(x, a, b))
        r = uf('repl[%s|%s]' % (a, b), STR, STR)(z)
        self.fact(z3.Implies(z3.Not(self.has(z, a)), r == z))
        return r

    def startswith(self, z, p):
        c = const(z)
        if c is not None:
            return z3.BoolVal(c.startswith(p))
        if is_concat(z):
            f = parts(z)[0]
            fc = const(f)
            if fc is not None:
                if len(fc) >= len(p):
                    return z3.BoolVal(fc.startswith(p))
                if not p.startswith(fc):
                    return z3.BoolVal(False)
        if is_ite(z):
            return self.ite(z, lambda x: self.startswith(x, p))
        return z3.PrefixOf(sval(p), z)

    def istr(self, z):
        z = z3.simplify(z)
        if z3.is_int_value(z):
            return sval(str(z.as_long()))
        r = uf('istr', INT, STR)(z)
        self.fact(r != sval(''))
        return r

    def pystr(self, z):
        """str(v) for a Val of unknown kind."""
        other = uf('pystr', Val, STR)(z)
        return z3.If(Val.is_VStr(z), Val.vs(z),
                     z3.If(Val.is_VNone(z), sval('None'),
                           z3.If(Val.is_VInt(z), uf('istr', INT, STR)(Val.vi(z)),
                                 z3.If(Val.is_VBool(z), z3.If(Val.vb(z), sval('True'), sval('False')), other))))

    def regex(self, fn, pat, extra, z, out):
        shape = re_shape(pat)
        if fn == 'match' and shape and shape[0] == 'spaces then':
            return self.startswith(self.lstrip(z), shape[1])
        if fn == 'sub' and shape and shape[0] == 'run at start' and '\\' not in extra:
            return concat(sval(extra), self.strip_chars(z, shape[1], "lstrip"))
        cls = re_class(pat)
        if cls and fn == 'sub' and cls[0] in ('one', 'run') and '\\' not in extra:
            k = self.chars(z)
            n = 're.sub[%s %s|%s]' % (cls[0], cls[2] if k is None else repr(''.join(sorted(cls[1] & k))), extra)
            if k is not None and not k & cls[1]:
                return z
            if k is not None and k & cls[1] == {extra} and (cls[0] == 'one' or self.single(z, extra)):
                return z
            self.subs[n] = (cls[0], cls[1], extra)
            r = uf(n, STR, STR)(z)
            if cls[0] == 'run' and len(extra) == 1 and extra in cls[1]:
                self.fact(z3.Not(self.has(r, extra + extra)))
            return r
        if cls and fn == 'fullmatch' and cls[0] == 'any':
            k = self.chars(z)
            if k is not None and k <= cls[1]:
                return z3.BoolVal(True)
        return uf('re.%s[%s|%s]' % (fn, pat, extra), STR, out)(z)

    def single(self, z, ch):
        """No two of the character in a row: runs of it were replaced by one."""
        how, cls, rep = self.subs.get(z.decl().name(), (None, (), '')) if z3.is_app(z) else (None, (), '')
        return how == 'run' and rep == ch and ch in cls


ASCII = frozenset(chr(i) for i in range(128))


def re_class(pat):
    """(one/run/any, the ASCII characters) of a pattern that is one class of characters, a run of it or any number of it."""
    import re._parser as sre
    import re._constants as C
    try:
        t = list(sre.parse(pat))
        if len(t) != 1:
            return None
        how = 'one'
        if t[0][0] is C.MAX_REPEAT and t[0][1][1] is C.MAXREPEAT and t[0][1][0] in (0, 1):
            how = 'run' if t[0][1][0] else 'any'
            t = list(t[0][1][2])
        if len(t) != 1 or t[0][0] not in (C.IN, C.LITERAL, C.NOT_LITERAL):
            return None
        r = re.compile(pat)
        items = sorted(str(x) for x in t[0][1]) if t[0][0] is C.IN else [str(t[0])]
        return how, frozenset(c for c in ASCII if r.fullmatch(c)), '%s/%d' % (items, r.flags)
    except Exception:
        return None


def re_shape(pat):
    """Patterns with a meaning in terms of the string methods: white space then a literal at the start, a run of one character at the start."""
    import re._parser as sre
    import re._constants as C
    try:
        t = list(sre.parse(pat))
    except Exception:
        return None
    at = bool(t) and t[0] == (C.AT, C.AT_BEGINNING)
    if at:
        t = t[1:]
    if not t or t[0][0] is not C.MAX_REPEAT or t[0][1][0] != 0 or t[0][1][1] is not C.MAXREPEAT:
        return None
    rep = list(t[0][1][2])
    if len(rep) != 1:
        return None
    if rep[0] == (C.IN, [(C.CATEGORY, C.CATEGORY_SPACE)]) and t[1:] and all(x[0] is C.LITERAL and not chr(x[1]).isspace() for x in t[1:]):
        return ('spaces then', ''.join(chr(x[1]) for x in t[1:]))
    if at and rep[0][0] is C.LITERAL and len(t) == 1:
        return ('run at start', chr(rep[0][1]))
    return None
