"""Contracts and the verification driver."""
import re
import time
import traceback
import z3
from .values import *
from .values import Val
from . import strs as ST
from .strs import sval, const
from .engine import Engine as _Core, State, zand
from .interp import Interp
from .loops import Loops, free_consts
from .builtins_ import Builtins


class Engine(Interp, Loops, Builtins, _Core):
    pass


class Contract:
    """A function of /repo under contract: for all arguments of the declared types that satisfy `requires`, its result,
    exception and heap effects are exactly those of the specification function `spec` started in the same state."""

    def __init__(self, key, spec, params=None, requires=None, modular=True, note='', props=(), variant=None, unfold=(), replay=True, aux=False, inv=(), raises=False, result=True, partial=False):
        self.partial = partial          # after an exception the effects are not specified (and no caller may catch it)
        self.result = result            # the result is specified (else the contract is not used at calls)
        modular = modular and result
        self.raises = raises            # it may be that it never returns
        self.key, self.spec, self.params = key, spec, params or {}
        self.requires = [requires] if isinstance(requires, str) else list(requires or ())     # all of them
        self.modular, self.note, self.props = modular, note, tuple(props)
        self.replay = replay            # the specification can be run by CPython
        self.aux = aux                  # an internal helper: where its contract fails, its callers are proved with its body
        self.inv = tuple(inv)           # invariants of fields (Verifier.invs) that the proof assumes
        self.unfold = tuple(unfold)     # specification symbols whose definition this proof uses
        self.variant = variant          # another set of argument types for the same function and specification
        self.id = key + ('#' + variant if variant else '')

    def fits(self, eng, fi, bound):
        """The arguments of a call are known to have the types the contract was proved for."""
        names = [p.arg for p in fi.node.args.posonlyargs + fi.node.args.args]
        if not set(self.inv) <= set(eng.inv):
            return False
        for i, n in enumerate(names):
            if n not in bound or (i == 0 and fi.kind == 'classmethod'):
                continue
            ty = self.params.get(n)
            if ty is None and i == 0 and fi.cls is not None and fi.kind != 'staticmethod':
                ty = eng.self_type(fi)
            if ty is None:
                d = fi.node.args.defaults
                di = i - (len(names) - len(d))
                if di < 0:
                    return False
                dv = eng.ev(d[di], eng.default_cx(fi))
                if not (isinstance(dv, PyC) and isinstance(bound[n], PyC) and repr(dv.v) == repr(bound[n].v)):
                    return False
                continue
            if not eng.has_type(bound[n], ty):
                return False
        kw = fi.node.args.kwarg
        if kw is not None and kw.arg in bound:
            cv = eng.content(bound[kw.arg])
            if ('**' in self.params) == (cv.keys.concrete() and not cv.keys.segs):
                return False
        return True

    def spec_fi(self, eng):
        m, n = self.spec.split(':')
        return eng.repo.modules[m].ns[n][1]

    def apply(self, eng, fi, args, kwargs, rest=()):
        """Use of the contract at a call site; of several contracts for these types, the first whose preconditions hold."""
        bound = eng.bind_args(fi, args, kwargs, eng.default_cx(fi))
        if not self.fits(eng, fi, bound):
            return None
        rest = [c for c in rest if c.fits(eng, fi, bound)]
        con = self
        if rest:
            con = next((c for c in [self] + rest if all(eng.prove(g) for g in c.required(eng, fi, bound))), self)
        eng.used_contracts.add(con.id)
        if con is self:
            for g in self.required(eng, fi, bound):
                eng.obligation('precondition of %s at a call' % self.key, g)
        sfi = con.spec_fi(eng)
        sargs = eng.spec_args(fi, sfi, bound)
        try:
            return eng.pure(lambda: eng.spec_eval(sfi, sargs))
        except PyRaise as r:
            if con.partial:
                x = ExcV(r.exc.name, r.exc.args, r.exc.attrs)
                x.wild = True
                raise PyRaise(x)
            raise

    def required(self, eng, fi, bound):
        for rq in self.requires:
            m, n = rq.split(':')
            rfi = eng.repo.modules[m].ns[n][1]
            c = eng.truth(eng.pure(lambda: eng.spec_eval(rfi, eng.spec_args(fi, rfi, bound))))
            if c is not True:
                yield c if not isinstance(c, bool) else z3.BoolVal(c)


def self_type(self, fi):
    """The classes whose objects run this method: the defining class and the subclasses that inherit it."""
    name = fi.qual.split('.')[1]
    out = []
    for c in self.repo.subclasses(fi.cls.name):
        r = self.repo.lookup_setter(c, name) if fi.qual.endswith('.setter') else (self.repo.lookup(c, name) or (None, None))[1]
        if r is fi:
            out.append(c)
    return TObj(*(out or [fi.cls.name]), exact=True)


def default_cx(self, fi):
    from .interp import Cx
    return Cx(self.new_frame(), fi, fi.module, fi.cls, None)


def spec_args(self, fi, sfi, bound):
    """Specification functions take the same parameter names as the function (any subset, in any order)."""
    names = [p.arg for p in sfi.node.args.args]
    ours = [p.arg for p in fi.node.args.args] + ([fi.node.args.kwarg.arg] if fi.node.args.kwarg else [])
    pos = {}
    for i, n in enumerate(names):
        if n in bound:
            pos[n] = bound[n]
        elif i < len(ours) and ours[i] in bound:
            pos[n] = bound[ours[i]]
        else:
            raise Unsupported('parameter %s of %s is gone' % (n, fi.key))
    return [pos[n] for n in names]


def spec_eval(self, sfi, sargs, unfold=False):
    """Value of a specification function.  One kept as a symbol (symbols) is its symbol, or its body once when unfold."""
    save = self.spec_mode
    self.spec_mode = True
    try:
        if self.as_symbol(sfi.key, sargs) and not unfold:
            return self.rec_apply(sfi, sargs)
        return self.inline(sfi, sargs, {})
    finally:
        self.spec_mode = save


def as_symbol(self, key, args):
    """A call kept as an application of a symbol; one on constants is evaluated."""
    if key not in self.symbols:
        return False
    if any(isinstance(args[i], PyC) and args[i].v is v for i, v in self.symbols[key].get('inline', {}).items()):
        return False                     # a case that has a symbol of its own
    return bool(self.symbols[key].get('rec')) or not all(isinstance(a, PyC) or isinstance(a, Str) and const(a.z) is not None for a in args)


def rec_apply(self, sfi, args):
    """Application of a specification symbol: an uninterpreted function of its arguments and the fields it reads."""
    sym = self.symbols[sfi.key]
    zs = [self.zval(a) for a in args] + [self.harr(a) for a in self.arrays(sym['reads'])]
    for x in sym.get('raises', ()):
        if self.fork(ST.uf('rec:%s:%s' % (sfi.key, x), *([z.sort() for z in zs] + [z3.BoolSort()]))(*zs)):
            raise PyRaise(ExcV(x))
    f = ST.uf('rec:' + sfi.key, *([z.sort() for z in zs] + [Val]))
    v = self.wrap(f(*zs), sym['result'])
    if sym.get('ensures') and not self.ensuring and sfi.key != self.active:
        self.fact(self.ensured(sym['ensures'], v, args))
    return v


def ensured(self, name, v, args):
    """What is known (and proved where the symbol is checked) of the value of a symbol."""
    m, n = name.split(':')
    self.ensuring = True
    try:
        t = self.truth(self.pure(lambda: self.spec_eval(self.repo.modules[m].ns[n][1], [v] + list(args))))
    finally:
        self.ensuring = False
    return z3.BoolVal(t) if isinstance(t, bool) else t


def has_type(self, v, ty):
    """The value is known to be of the type (syntactically, or by the solver on this path)."""
    if isinstance(ty, TOr):
        if any(self.has_type(v, a) for a in ty.alts):
            return True
    if isinstance(v, Obj):
        for t in ([ty] if not isinstance(ty, TOr) else ty.alts):
            if isinstance(t, TObj) and all(c in self.expand_cls(t.classes, t.exact) for c in v.cls):
                return True
    if isinstance(v, ValS) and v.ty is not None and repr(v.ty) == repr(ty):
        return True
    if isinstance(v, Loc):
        cv = self.content(v)
        if isinstance(ty, TKind):
            return ('dict' if isinstance(cv, DictV) else cv.kind if isinstance(cv, ListV) else '') in ty.kinds
        if isinstance(ty, TList) and isinstance(cv, ListV) and cv.kind == 'list':
            return ty.elem is None or all(self.has_type(s[1], ty.elem) if s[0] == 'e' else (s[2] is not None and self.sub_type(s[2], ty.elem)) for s in cv.segs)
        if isinstance(ty, TDict) and isinstance(cv, DictV):
            if ty.val is None or (cv.ty is not None and self.sub_type(cv.ty, ty.val)):
                return True
            return cv.keys.concrete() and all(self.has_type(self.wrap(self.sel(cv.map, self.zstr(s[1])), None), ty.val) for s in cv.keys.segs)
        return False
    if isinstance(v, TupS):
        return isinstance(ty, TTup) and len(ty.items) == len(v.items) and all(self.has_type(a, b) for a, b in zip(v.items, ty.items))
    k = {Str: 'str', Int: 'int', Bool: 'bool'}.get(type(v))
    if isinstance(v, PyC):
        k = 'none' if v.v is None else 'bool' if isinstance(v.v, bool) else 'int' if isinstance(v.v, int) else 'str' if isinstance(v.v, str) else None
        if isinstance(ty, TConst):
            return any(type(x) is type(v.v) and x == v.v for x in ty.vals)
    if isinstance(ty, TKind) and k:
        return k in ty.kinds
    if isinstance(v, (ValS, Obj, Str, Int, Bool, PyC)):
        return self.must(self.type_fact(self.zval(v), ty))
    return False


def sub_type(self, a, b):
    if repr(a) == repr(b):
        return True
    if isinstance(a, TOr):
        return all(self.sub_type(x, b) for x in a.alts)
    if isinstance(b, TOr):
        return any(self.sub_type(a, x) for x in b.alts)
    if isinstance(a, TKind) and isinstance(b, TKind):
        return set(a.kinds) <= set(b.kinds)
    if isinstance(a, TObj) and isinstance(b, TObj):
        return set(self.expand_cls(a.classes, a.exact)) <= set(self.expand_cls(b.classes, b.exact))
    if isinstance(a, TList) and isinstance(b, TList):
        return b.elem is None or a.elem is not None and self.sub_type(a.elem, b.elem)
    if isinstance(a, TDict) and isinstance(b, TDict):
        return b.val is None or a.val is not None and self.sub_type(a.val, b.val)
    if isinstance(a, TTup) and isinstance(b, TTup):
        return len(a.items) == len(b.items) and all(self.sub_type(x, y) for x, y in zip(a.items, b.items))
    return False


def obligation(self, name, goal):
    """Prove the goal on the current path and record the outcome."""
    if self.the_memo() is not None and self.ctl.replaying():
        return True                      # checked (and recorded) by the run that this one repeats
    t = time.time()
    self.n_obl += 1
    ok = self.prove(goal)
    rec = {'name': name, 'ok': ok, 's': round(time.time() - t, 3)}
    if not ok:
        rec['model'] = self.model_text(goal)
        ok = rec['ok'] = rec['model'] == 'unsat'       # the solver did it the second time
    if not ok:
        rec['open'] = self.open_symbols(goal)
        rec['path'] = [str(z3.simplify(d))[:300] for d in self.st.decs][:12]
        rec['goal'] = str(z3.simplify(goal))[:900]
        self.failures.append(rec)
    else:
        self.n_ok += 1
    return ok


STRONG = re.compile(r'(lower|strip|istr|pystr|objstr|uuid|mem)$|(has|hasx|sh|st|owned)_')


def open_symbols(self, goal):
    """Some definition by recursion (a loop summary or a specification symbol), or a function of which only some facts are known, is
    involved: a model need not be a counterexample."""
    todo, seen = [goal] + self.st.decs, set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        if t.num_args() and (t.decl().name(),) + tuple(t.decl().domain(i).sexpr() for i in range(t.num_args())) + (t.sort().sexpr(),) in ST._U and not STRONG.match(t.decl().name()):
            return True
        todo.extend(t.children())
    todo, seen = [goal] + [d for sc in self.scopes for d in sc[0] + sc[1]] + self.st.decs + self.st.facts, set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen or not z3.is_app(t):
            continue
        seen.add(t.get_id())
        n = t.decl().name()
        if t.num_args() and (n in self.fold_by_uf or n.startswith(('rec:', 'seq.', 'du'))):
            return True
        todo.extend(t.children())
    return False


def model_text(self, goal):
    self.solver.set('timeout', 1500)
    self.solver.set('rlimit', 0)
    self.push()
    try:
        self.solver.add(z3.Not(goal))
        r = self.solver.check()
        if r == z3.sat:
            m = self.solver.model()
            return 'refuted: ' + '; '.join('%s=%s' % (d.name(), str(m[d])[:120]) for d in m.decls() if d.arity() == 0 and '!' not in d.name())[:1500]
        return str(r)
    finally:
        self.pop()


for f in (self_type, default_cx, spec_args, spec_eval, as_symbol, rec_apply, ensured, has_type, sub_type, obligation, open_symbols, model_text):
    setattr(Engine, f.__name__, f)


class Verifier:
    def __init__(self, repo, contracts, fieldtypes, models, ext_exc, symbols=None, budget=60, off=(), invs=None, merged=()):
        self.invs = invs or {}
        self.merged = set(merged)       # specification functions whose value is one (conditional) term
        self.off = set(off)
        self.repo, self.fieldtypes, self.models, self.ext_exc = repo, fieldtypes, models, ext_exc
        self.all = {c.id: c for c in contracts}
        self.symbols = symbols or {}
        self.budget = budget

    def engine(self):
        cons = {}
        for c in self.all.values():
            fi = self.repo.func(c.key, c.params)
            if fi is not None and c.modular and c.id not in self.off:
                cons.setdefault(c.key, []).append(c)
        e = Engine(self.repo, cons, self.fieldtypes, models=self.models)
        e.ext_exc = self.ext_exc
        e.contract_specs = {c.spec for c in self.all.values()} | self.merged
        e.symbols = dict(self.symbols)
        e.failures, e.n_obl, e.n_ok = [], 0, 0
        e.scopes = []           # decisions and facts of the enclosing explorations
        e.solver = z3.Solver()
        e.solver.set('timeout', 300)
        st = State()
        st.next = z3.Int('NEXT')
        e.st = st
        e.ctl = None
        e.deadline = time.time() + self.budget
        return e

    def symbolic_args(self, e, c, fi):
        from .engine import Ctl
        a = fi.node.args
        names = [p.arg for p in a.posonlyargs + a.args]
        args, kwargs = [], {}
        for i, n in enumerate(names):
            if i == 0 and fi.kind == 'classmethod':
                args.append(ClassV(fi.cls))
                continue
            ty = c.params.get(n, c.params.get(i))
            if ty is None and i == 0 and fi.cls is not None and fi.kind != 'staticmethod':
                ty = e.self_type(fi)
            if ty is None:
                di = i - (len(names) - len(a.defaults))
                if di >= 0:
                    args.append(e.ev(a.defaults[di], e.default_cx(fi)))
                    continue
                raise Unsupported('no type for parameter %s of %s' % (n, fi.key))
            z = z3.Const('arg_' + n, Val)
            args.append(e.wrap(z, ty))
        if a.kwarg is not None:
            ty = c.params.get('**')
            if ty is not None:
                kwargs['**'] = e.wrap(z3.Const('arg_kw', Val), ty)
        if a.vararg is not None and '*' in c.params:
            raise Unsupported('*args contract')
        return args, kwargs

    def verify(self, key):
        from .engine import Ctl
        c = self.all[key]
        t0 = time.time()
        res = {'function': key, 'status': 'proved', 'obligations': 0, 'discharged': 0, 'paths': 0, 'failures': [],
               'inlined': [], 'contracts_used': [], 'models_used': [], 'queries': 0, 'solver_s': 0, 'cvc5_discharged': 0, 's': 0}
        fi = self.repo.func(c.key, c.params)
        if fi is None:
            res['status'] = 'absent'
            return res
        why = 'decorated function' if fi.kind == 'decorated' else 'module level code of %s' % self.repo.odd if self.repo.odd else None
        if why:
            res['status'], res['reason'] = 'unsupported', why
            return res
        e = self.engine()
        e.ctl = Ctl([])
        e.active = c.key
        e.inv = {n: self.invs[n] for n in c.inv}
        for u in c.unfold:
            e.symbols.pop(u)
        try:
            args, kwargs = self.symbolic_args(e, c, fi)
            sfi = c.spec_fi(e)
            bound = e.bind_args(fi, args, kwargs, e.default_cx(fi))
            sargs = e.spec_args(fi, sfi, bound)
            for rq in c.requires:
                m, n = rq.split(':')
                rfi = self.repo.modules[m].ns[n][1]
                r = e.truth(e.pure(lambda: e.spec_eval(rfi, e.spec_args(fi, rfi, bound))))
                if r is not True:
                    e.fact(r if not isinstance(r, bool) else z3.BoolVal(r))
            if e.check(ms=2000) == z3.unsat:
                res['status'] = 'vacuous'
                return res
            pre = e.st.copy()
            npaths, returns = [0], [0]

            def on_path(st, out):
                npaths[0] += 1
                returns[0] += out[0] != 'raise'
                body_state = st

                def spec_thunk():
                    return e.spec_eval(sfi, sargs, unfold=True)

                got = [0]

                def on_spec(sst, sout):
                    got[0] += 1
                    cur = e.st
                    self.compare(e, fi, body_state, out, sst, sout, c)
                e.st = st
                sp = pre.copy()
                sp.decomp = list(st.decomp)
                e.explore(spec_thunk, sp, lambda a, b: self.with_decs(e, st, a, b, on_spec), 400, memo={})
                if not got[0] and e.check(ms=2000) != z3.unsat:
                    raise Unsupported('specification has no outcome on a path')
                # a path whose specification is infeasible is itself infeasible
            np = e.explore(lambda: e.inline(fi, args, kwargs), e.st, on_path, memo={})
            res['paths'] = npaths[0]
            if npaths[0] == 0 or e.n_obl == 0 or (not returns[0] and not e.failures and not c.raises):
                res['status'] = 'vacuous'
            elif e.failures:
                res['status'] = 'failed'
        except Unsupported as u:
            res['status'] = 'unsupported'
            res['reason'] = '%s at %s' % (u, e.line)
            if e.failures:
                res['status'] = 'failed'
        except RecursionError:
            res['status'] = 'unsupported'
            res['reason'] = 'recursion depth'
        except z3.Z3Exception as x:
            res['status'] = 'unsupported'
            res['reason'] = 'z3: %s' % x
        res['obligations'], res['discharged'], res['failures'] = e.n_obl, e.n_ok, e.failures
        res['inlined'] = sorted(e.inlined)
        res['contracts_used'] = sorted(e.used_contracts)
        res['models_used'] = sorted(e.used_models)
        res['queries'], res['solver_s'] = e.queries + e.cvc_queries, round(e.qtime + e.cvc_time, 2)
        res['cvc5_discharged'] = e.cvc_unsat
        res['s'] = round(time.time() - t0, 2)
        return res

    def with_decs(self, e, bodyst, a, b, fn):
        sav = a.decs, a.facts
        a.decs, a.facts = bodyst.decs + a.decs, bodyst.facts + a.facts
        fn(a, b)
        a.decs, a.facts = sav

    def compare(self, e, fi, bst, bout, sst, sout, c):
        """Outcome and effects of the body (bst, bout) against those of the specification (sst, sout)."""
        norm = lambda o: ('value', o[1]) if o[0] in ('ret', 'return') else o
        (bk, bv), (sk, sv) = norm(bout), norm(sout)
        if bk != sk or bk not in ('value', 'raise'):
            e.obligation('%s: %s where the specification has %s' % (fi.key, self.show(bk, bv), self.show(sk, sv)), z3.BoolVal(False))
            return
        if bk == 'raise':
            if not (bv.name == sv.name or e.exc_isa(bv.name, sv.name)):
                e.obligation('%s: raises %s where the specification raises %s' % (fi.key, bv.name, sv.name), z3.BoolVal(False))
                return
            if c.partial:
                e.obligation('%s: exception' % fi.key, z3.BoolVal(True))
                return
            if bv.wild:
                raise Unsupported('the effects of an exception of a callee are not specified')
            goal = True
        else:
            goal = self.eq_across(e, bv, bst, sv, sst) if c.result else True
        e.obligation('%s: result' % fi.key, goal if not isinstance(goal, bool) else z3.BoolVal(goal))
        attrs = {a for a in list(bst.heap) + list(sst.heap)}
        for a in sorted(attrs):
            x = bst.heap.get(a)
            y = sst.heap.get(a)
            x = x if x is not None else z3.Const('H_' + a, HEAP)
            y = y if y is not None else z3.Const('H_' + a, HEAP)
            if not x.eq(y):
                r = z3.Int('someref')
                # objects that existed before the call, and the ones the specification creates
                e.obligation('%s: effect on field %s' % (fi.key, a), z3.Select(x, r) == z3.Select(y, r))
        if not bst.next.eq(sst.next):
            e.obligation('%s: objects created' % fi.key, bst.next == sst.next)
        if bst.trace != sst.trace:
            e.obligation('%s: external effects' % fi.key, self.trace_eq(e, bst.trace, sst.trace))

    def trace_eq(self, e, a, b):
        if len(a) != len(b):
            return z3.BoolVal(False)
        cs = []
        for x, y in zip(a, b):
            if len(x) != len(y) or x[0] != y[0]:
                return z3.BoolVal(False)
            for u, v in zip(x[1:], y[1:]):
                if isinstance(u, z3.ExprRef):
                    cs.append(u == v)
                elif u != v:
                    return z3.BoolVal(False)
        return z3.And(*cs) if cs else z3.BoolVal(True)

    def show(self, k, v):
        return 'raises %s' % v.name if k == 'raise' else 'returns'

    def eq_across(self, e, a, ast_, b, bst):
        """Equality of values living in two states."""
        if isinstance(a, PyC) and isinstance(b, PyC):
            return type(a.v) is type(b.v) and a.v == b.v
        if isinstance(a, (Loc, IterV, TupS)) or isinstance(b, (Loc, IterV, TupS)):
            cur = e.st
            try:
                e.st = self.scoped(e, cur, ast_)
                x = self.val_of(e, a)
                e.st = self.scoped(e, cur, bst)
                y = self.val_of(e, b)
            finally:
                e.st = cur
            if x is None or y is None:
                raise Unsupported('comparison of results')
            if isinstance(x, tuple) or isinstance(y, tuple):
                if not (isinstance(x, tuple) and isinstance(y, tuple)):
                    return False
                return x[0] == y[0] if x[1] is None else z3.And(x[0] == y[0], x[1] == y[1])
            return x == y
        c = e.eq(a, b)
        if isinstance(a, (ExtV, ClassV, FuncV)) or isinstance(b, (ExtV, ClassV, FuncV)):
            return c
        ka, kb = e.zval(a), e.zval(b)
        return ka == kb

    def scoped(self, e, cur, st):
        s = st.copy()
        s.decs, s.facts, s.decomp = cur.decs, cur.facts, cur.decomp
        return s

    def val_of(self, e, v):
        if isinstance(v, Loc):
            cv = e.content(v)
            if isinstance(cv, SetV):
                return (e.seq(cv.items), None)
        return e.zval(v)

    def lemma(self, name, spec_fn, params, keep=()):
        """A theorem over specification functions: spec_fn(args) is true for all arguments of the types."""
        from .engine import Ctl
        t0 = time.time()
        e = self.engine()
        e.active = name
        e.link_lower = True
        e.symbols = {k: v for k, v in e.symbols.items() if v.get('rec') or k in keep}
        e.ctl = Ctl([])
        res = {'function': 'lemma:' + name, 'status': 'proved', 'failures': []}
        m, n = spec_fn.split(':')
        sfi = self.repo.modules[m].ns[n][1]
        try:
            args = [e.wrap(z3.Const('arg_' + p.arg, Val), params[p.arg]) for p in sfi.node.args.args]
            got = [0]

            def on(st, out):
                got[0] += 1
                if out[0] not in ('ret', 'return'):
                    e.obligation('%s: raises %s' % (name, out[1].name), z3.BoolVal(False))
                    return
                t = e.truth(out[1])
                e.obligation(name, t if not isinstance(t, bool) else z3.BoolVal(t))
            e.explore(lambda: e.spec_eval(sfi, args), e.st, on, memo={})
            if not got[0]:
                res['status'] = 'vacuous'
            elif e.failures:
                res['status'] = 'failed'
        except Unsupported as u:
            res['status'], res['reason'] = 'unsupported', str(u)
        res['obligations'], res['discharged'], res['failures'] = e.n_obl, e.n_ok, e.failures
        res['s'] = round(time.time() - t0, 2)
        res['queries'], res['solver_s'] = e.queries + e.cvc_queries, round(e.qtime + e.cvc_time, 2)
        res['cvc5_discharged'] = e.cvc_unsat
        res['inlined'], res['contracts_used'], res['models_used'] = [], [], []
        return res

    def frame(self, key):
        """A specification symbol is sound: its definition has a value of the declared type for all arguments and reads only the fields listed."""
        from .engine import Ctl
        t0 = time.time()
        e = self.engine()
        e.active = key
        e.ctl = Ctl([])
        sym = self.symbols[key]
        res = {'function': 'symbol:' + key, 'status': 'proved', 'failures': []}
        m, n = key.split(':')
        sfi = self.repo.modules[m].ns[n][1]
        try:
            args = [e.wrap(z3.Const('arg_' + p.arg, Val), sym['params'][p.arg]) for p in sfi.node.args.args]
            allowed = {'H_' + a for a in e.arrays(sym['reads'])}
            got = [0]

            def on(st, out):
                got[0] += 1
                if out[0] not in ('ret', 'return'):
                    e.obligation('%s: raises %s' % (key, out[1].name), z3.BoolVal(out[0] == 'raise' and out[1].name in sym.get('raises', ())))
                    return
                e.obligation('%s: type of the value' % key, z3.BoolVal(e.has_type(out[1], sym['result'])))
                if sym.get('ensures'):
                    e.obligation('%s: ensures' % key, e.ensured(sym['ensures'], out[1], args))
                zs = [e.zval(out[1])] + list(st.decs)
                bad = {c.decl().name() for z in zs for c in free_consts(z) if c.decl().name().startswith('H_')} - allowed
                e.obligation('%s: reads only the fields listed %s' % (key, sorted(bad) or ''), z3.BoolVal(not bad))
                e.obligation('%s: changes nothing' % key, z3.BoolVal(all(v.eq(z3.Const('H_' + a, HEAP)) for a, v in st.heap.items()) and st.next.eq(e_next)))
            e_next = e.st.next
            e.explore(lambda: e.spec_eval(sfi, args, unfold=True), e.st, on, memo={})
            res['status'] = 'vacuous' if not got[0] else 'failed' if e.failures else 'proved'
        except Unsupported as u:
            res['status'], res['reason'] = 'unsupported', str(u)
        res['obligations'], res['discharged'], res['failures'] = e.n_obl, e.n_ok, e.failures
        res['s'] = round(time.time() - t0, 2)
        res['queries'], res['solver_s'] = e.queries + e.cvc_queries, round(e.qtime + e.cvc_time, 2)
        res['cvc5_discharged'] = e.cvc_unsat
        res['inlined'], res['contracts_used'], res['models_used'] = [], [], []
        return res
