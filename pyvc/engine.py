"""Symbolic execution of the real functions' ASTs, with contracts at calls and fold summaries at loops.

Direct-style interpreter; every fork consults a decision list and all decision lists are enumerated, so an
exploration covers every path.  Loops over symbolic sequences are never unrolled: they are replaced by fold
symbols whose step is obtained by executing the loop body once from an arbitrary iteration state.
"""
import ast
import time
import z3
from .values import *
from .values import Val
from . import strs as ST
from .strs import sval, concat, const

BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException', 'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'LookupError': 'Exception', 'ValueError': 'Exception', 'TypeError': 'Exception', 'AttributeError': 'Exception',
    'AssertionError': 'Exception', 'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'OSError': 'Exception', 'IOError': 'OSError', 'FileNotFoundError': 'OSError', 'IsADirectoryError': 'OSError',
    'NameError': 'Exception', 'UnicodeDecodeError': 'ValueError', 'StopIteration': 'Exception', 'SystemExit': 'BaseException',
    'GeneratorExit': 'BaseException', 'RecursionError': 'RuntimeError',
}
EXC_ALIAS = {'IOError': 'OSError', 'EnvironmentError': 'OSError'}


class State:
    __slots__ = ('frames', 'cells', 'heap', 'decs', 'facts', 'frozen', 'trace', 'next', 'decomp', 'fids')

    def __init__(self):
        self.frames, self.cells, self.heap = {}, {}, {}
        self.decs, self.facts, self.frozen, self.trace = [], [], set(), ()
        self.next = None
        self.decomp = []
        self.fids = {}       # id of a fact -> number of decisions before it

    def copy(self):
        s = State()
        s.frames = {k: dict(v) for k, v in self.frames.items()}
        s.cells, s.heap = dict(self.cells), dict(self.heap)
        s.decs, s.facts = list(self.decs), list(self.facts)
        s.frozen, s.trace, s.next = set(self.frozen), self.trace, self.next
        s.decomp = list(self.decomp)
        s.fids = dict(self.fids)
        return s


def rebase(st, old, new):
    """The state st reached from old, reached from new: what it left as in old is as in new."""
    r = st.copy()
    for k, fr in r.frames.items():
        o, n = old.frames.get(k), new.frames.get(k)
        if o is not None and n is not None:
            for x, v in fr.items():
                if x in n and o.get(x) is v:
                    fr[x] = n[x]
    for k, v in r.cells.items():
        if k in new.cells and old.cells.get(k) is v:
            r.cells[k] = new.cells[k]
    return r


NEXT0 = z3.Int('NEXT')


class Ctl:
    def __init__(self, pre, memo=None):
        self.pre, self.pos, self.taken, self.alts = pre, 0, [], []
        self.memo, self.gathers, self.depth = memo, 0, None

    def replaying(self):
        """The path so far is one of an earlier run of the same exploration."""
        return self.pos < len(self.pre)


class Frame:
    pass


_FC = {}


def free_consts(z):
    """Uninterpreted constants of a term, in a fixed order (memoised; the memo keeps the term alive, so ids stay valid)."""
    hit = _FC.get(z.get_id())
    if hit is not None:
        return hit[1]
    todo = [z]
    while todo:
        t = todo[-1]
        k = t.get_id()
        if k in _FC:
            todo.pop()
            continue
        ch = t.children() if z3.is_app(t) else []
        if not ch:
            _FC[k] = (t, [t] if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED else [])
            todo.pop()
            continue
        miss = [c for c in ch if c.get_id() not in _FC]
        if miss:
            todo.extend(miss)
            continue
        out, seen = [], set()
        for c in ch:
            for x in _FC[c.get_id()][1]:
                if x.get_id() not in seen:
                    seen.add(x.get_id())
                    out.append(x)
        _FC[k] = (t, out)
        todo.pop()
    return _FC[z.get_id()][1]


class ElemFacts(list):
    """Facts about the element of a loop: consequences of the type of the elements (tkey) and of the conditions they are under."""

    def __init__(self, fs, tkey):
        list.__init__(self, fs)
        self.tkey = tkey


class Fold:
    def __init__(self, kind, name, uf, X, A, P, body, idx=None):
        self.kind, self.name, self.uf, self.X, self.A, self.P, self.body, self.idx = kind, name, uf, X, A, P, body, idx
        self.facts = []  # facts over X, P valid for every element

    def at(self, x, params, acc=None, i=None):
        sub = [(self.X, x)] + list(zip(self.P, params))
        if self.A is not None and acc is not None:
            sub.append((self.A, acc))
        if self.idx is not None and i is not None:
            sub.append((self.idx, i))
        return z3.substitute(self.body, *sub)


class Engine:
    MAXPATHS = 4000

    def __init__(self, repo, contracts=None, fieldtypes=None, classes=None, models=None, log=None):
        self.repo = repo
        self.contracts = contracts or {}
        self.fieldtypes = fieldtypes or {}
        self.models = models or {}
        self.cid = {c: i + 1 for i, c in enumerate(sorted(repo.classes))}
        self.cls_of = z3.Function('cls_of', INT, INT)
        self.solver = None
        self.st = None
        self.ctl = None
        self.n = 0
        self.S = ST.Strs(self.fact, self.must)
        self.folds = {}
        self.fold_by_uf = {}
        self.foldapps = {}
        self.opaque = []
        self.queries = 0
        self.qtime = 0.0
        self.cells_n = 0
        self.frames_n = 0
        self.depth = 0
        self.inline_stack = []
        self.fnames = []
        self.active = None  # key of the function being verified (never replaced by its own contract, except recursion)
        self.log = log
        self.symbols = {}
        self.used_contracts = set()
        self.used_models = set()
        self.initial = {}    # elements of sequences that are made of the arguments and the initial heap alone
        self.inv = {}        # name -> (attribute, value -> fact): invariants assumed of fields
        self.inlined = set()
        self.current_exc = []
        self.deadline = None
        self.dead = {}
        self.quick_ms = 1000
        self.quick_rl = 8000
        self.fparent = {}
        self.constcache = {}
        self.spec_mode = False
        self.rec_limit = 2
        self.ext_exc = {}
        self.line = None
        self.link_lower = False
        self.pwcache = {}
        self.nscope = 0
        self.fused = {}
        self.in_loops = 0
        self.ensuring = False
        self.images = {}
        self.guards = []
        self.asserted, self.keep = [set()], []
        self.lemma_seen = {}
        self.outer_apps = {}
        self.use_cvc5 = True
        self.cvc_deep = False
        self.cvc_ms = 4000
        self.cvc_queries = self.cvc_unsat = 0
        self.cvc_time = 0.0

    # ------------------------------------------------------------------ basics
    def fresh(self, name, sort):
        self.n += 1
        return z3.Const('%s!%d' % (name, self.n), sort)

    def fact(self, f):
        if z3.is_true(f):
            return
        k = f.get_id()
        if k not in self.st.fids:
            self.st.fids[k] = len(self.st.decs)
            self.st.facts.append(f)
        if not any(k in s for s in self.asserted):
            self.asserted[-1].add(k)
            self.keep.append(f)          # ids stay valid while the term lives
            self.solver.add(f)

    def dec(self, c):
        self.st.decs.append(c)
        self.solver.add(c)

    def push(self):
        self.solver.push()
        self.asserted.append(set())

    def pop(self):
        self.solver.pop()
        self.asserted.pop()

    def check(self, *cs, ms=None):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        t = time.time()
        # pruning checks get a small deterministic resource limit: 'unknown' counts as feasible
        self.solver.set('rlimit', self.quick_rl if ms is None else 0)
        self.solver.set('timeout', ms or self.quick_ms)
        r = self.solver.check(*cs)
        self.queries += 1
        self.qtime += time.time() - t
        return r

    def feasible(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.check(c) != z3.unsat

    def must(self, c):
        """c holds on this path (decided by the solver)."""
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        memo = self.the_memo()
        if memo is None:
            return self.check(z3.Not(c)) == z3.unsat
        k = ('must', tuple(self.ctl.taken), c.get_id())
        if k not in memo:
            memo[k] = (self.check(z3.Not(c)) == z3.unsat, c)
        return memo[k][0]

    def the_memo(self):
        """Results of earlier runs of the same path: usable unless something is assumed for the moment."""
        return self.ctl.memo if self.ctl is not None and self.ctl.depth == len(self.asserted) else None

    def choose(self, conds):
        """Pick one of the mutually exclusive, exhaustive conditions; enumerates all feasible ones over the exploration."""
        ctl = self.ctl
        if ctl.pos < len(ctl.pre):
            i = ctl.pre[ctl.pos]
            ctl.pos += 1
            ctl.taken.append(i)
            if conds[i] is not True:
                self.dec(conds[i])
            return i
        feas = []
        for i, c in enumerate(conds):
            if c is True:
                feas.append(i)
                continue
            c = z3.simplify(c)
            if z3.is_true(c):
                feas = [i]
                break
            if z3.is_false(c):
                continue
            if len(conds) == 2 and i == 1 and not feas:
                feas.append(i)           # the other one is infeasible
                continue
            if self.check(c) != z3.unsat:
                feas.append(i)
        if not feas:
            raise Infeasible()
        for i in feas[1:]:
            ctl.alts.append(ctl.taken + [i])
        i = feas[0]
        ctl.taken.append(i)
        ctl.pos += 1
        if len(feas) > 1 or not (conds[i] is True):
            if conds[i] is not True:
                self.dec(conds[i])
        return i

    def fork(self, c):
        if isinstance(c, bool):
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        return self.choose([c, z3.Not(c)]) == 0

    def explore(self, thunk, state, on_path, limit=None, memo=None):
        """Run thunk over every path from `state`; on_path(state, outcome) is called inside the path's solver scope."""
        work = [[]]
        npaths = 0
        save = (self.st, self.ctl)
        scopes = self.scopes
        self.nscope += 1
        self.scopes = scopes + [(list(save[0].decs), list(save[0].facts), self.nscope)] if save[0].decs or save[0].facts else scopes
        try:
            return self._explore(thunk, state, on_path, limit, work, npaths, save, memo)
        finally:
            self.scopes = scopes

    def _explore(self, thunk, state, on_path, limit, work, npaths, save, memo):
        base = (self.frames_n, self.cells_n)
        while work:
            pre = work.pop()
            npaths += 1
            if npaths > (limit or self.MAXPATHS):
                self.st, self.ctl = save
                raise Unsupported('too many paths')
            self.push()
            self.st, self.ctl = state.copy(), Ctl(pre, memo)
            if memo is not None:
                # paths that are not merged: the runs of a common prefix number their frames and cells alike, so its parts are run once
                self.frames_n, self.cells_n = base
                self.ctl.depth = len(self.asserted)
            self.st.decs, self.st.facts, self.st.fids = [], [], {}
            ok = False
            try:
                try:
                    out = ('ret', thunk())
                except RetSig as r:
                    out = ('return', r.v)
                except BrkSig:
                    out = ('break', None)
                except ContSig:
                    out = ('continue', None)
                except PyRaise as r:
                    out = ('raise', r.exc)
                on_path(self.st, out)
                ok = True
            except Infeasible:
                ok = True
            finally:
                work.extend(self.ctl.alts)
                self.pop()
                self.st, self.ctl = save
                if not ok:
                    pass
        return npaths

    def gather(self, thunk, limit=600):
        """All paths of thunk from the current state: list of (cond, facts, endstate, outcome)."""
        res = []

        def on(st, out):
            res.append((z3.And(*st.decs) if len(st.decs) != 1 else st.decs[0], list(st.facts), st, out))

        base = self.st
        ctl = self.ctl
        memo = self.the_memo()
        if memo is None:
            self.explore(thunk, base, on, limit)
            return res
        ctl.gathers += 1
        key = self.memo_key(base, thunk)
        if key in memo:
            res, self.frames_n, self.cells_n, par = memo[key][:4]
            self.fparent.update(par)
            return [(c, list(fs), rebase(st, memo[key][4], base), out) for c, fs, st, out in res]
        f0 = self.frames_n
        alive = base.copy()
        self.explore(thunk, base, on, limit)
        memo[key] = ([(c, list(fs), st.copy(), out) for c, fs, st, out in res], self.frames_n, self.cells_n, {i: self.fparent[i] for i in range(f0 + 1, self.frames_n + 1) if i in self.fparent}, alive)
        return res

    def memo_key(self, base, thunk):
        return (tuple(self.ctl.taken), self.ctl.gathers, thunk.__code__, self.frames_n, self.cells_n, tuple(f.get_id() for f in base.facts), tuple(d.get_id() for d in base.decs),
                tuple(sorted((k, z.get_id()) for k, z in base.heap.items())), base.next.get_id())

    def guarded(self, res):
        """The facts of the paths, each under the decisions it was made after on the paths it is from."""
        by = {}
        for c, facts, st, out in res:
            for f in facts:
                n = st.fids.get(f.get_id(), len(st.decs))
                g = z3.BoolVal(True) if n == 0 else zand(st.decs[:n])
                by.setdefault(f.get_id(), (f, {}))[1][g.get_id()] = g
        out = []
        for f, gs in by.values():
            gs = list(gs.values())
            if any(z3.is_true(g) for g in gs):
                out.append(f)
            else:
                out.append(z3.Implies(gs[0] if len(gs) == 1 else z3.Or(*gs), f))
        return out

    def pure(self, thunk, limit=600):
        """Evaluate thunk over all its sub-paths and merge them into one value (no fork in the caller).
        Falls back to a fork among outcome groups when sub-paths differ in kind of outcome or in effects."""
        base = self.st
        res = self.gather(thunk, limit)
        if not res:
            raise Infeasible()
        if len(res) == 1:
            c, facts, st, out = res[0]
            self._adopt(st, facts, None)
            return self._outcome(out)
        for f in self.guarded(res):
            self.fact(f)
        groups = {}
        for r in res:
            c, facts, st, out = r
            key = (out[0], out[1].name if out[0] == 'raise' else '', self._effect_sig(base, st))
            groups.setdefault(key, []).append(r)
        keys = list(groups)
        if len(keys) > 1:
            i = self.choose([z3.Or(*[r[0] for r in groups[k]]) for k in keys])
        else:
            i = 0
        g = groups[keys[i]]
        if keys[i][0] == 'raise' or keys[i][2] != '':
            j = self.choose([r[0] for r in g]) if len(g) > 1 else 0
            self._adopt(g[j][2], [], None)
            return self._outcome(g[j][3])
        if len(g) == 1:
            self._adopt(g[0][2], [], None)
            return self._outcome(g[0][3])
        vals = [(r[0], r[3][1], r[2]) for r in g]
        try:
            v = self.merge(vals)
        except Unsupported:
            j = self.choose([r[0] for r in g])
            self._adopt(g[j][2], [], None)
            return self._outcome(g[j][3])
        if keys[i][0] == 'return':
            raise RetSig(v)
        return v

    def _outcome(self, out):
        k, v = out
        if k == 'ret':
            return v
        if k == 'return':
            raise RetSig(v)
        if k == 'raise':
            raise PyRaise(v)
        if k == 'break':
            raise BrkSig()
        raise ContSig()

    def _adopt(self, st, facts, cond):
        decs, fs = self.st.decs, self.st.facts
        self.st.frames, self.st.cells, self.st.heap = st.frames, st.cells, st.heap
        self.st.frozen, self.st.trace, self.st.next, self.st.decomp = st.frozen, st.trace, st.next, st.decomp
        for f in facts:
            self.fact(f)
        for d in st.decs:
            # decided inside a single-path exploration: implied by the path; asserted to help the solver
            self.solver.add(d)

    def _effect_sig(self, a, b):
        """'' when b differs from a only by new cells/frames; else a description of the effects."""
        out = []
        for k, v in a.heap.items():
            w = b.heap.get(k)
            if w is None or not v.eq(w):
                out.append('h:' + k + ':' + str(w.hash() if w is not None else 0))
        for k, w in b.heap.items():
            if k not in a.heap and not w.eq(z3.Const('H_' + k, HEAP)):
                out.append('h:%s:%d' % (k, w.hash()))
        if not a.next.eq(b.next):
            out.append('n:%d' % b.next.hash())
        for k, v in a.cells.items():
            if b.cells.get(k) is not v:
                out.append('c:%d:%d' % (k, id(b.cells.get(k))))
        for f, d in a.frames.items():
            e = b.frames.get(f, {})
            for k in set(d) | set(e):
                if d.get(k) is not e.get(k):
                    out.append('v:%s:%d' % (k, id(e.get(k))))
        if a.trace is not b.trace:
            out.append('t:%d' % len(b.trace))
        return ';'.join(out)

    def merge(self, vals):
        """vals: [(cond, SV, state)] -> SV (ITE); imports fresh cells as needed."""
        svs = [v for _, v, _ in vals]
        if all(isinstance(v, PyC) for v in svs) and len({(type(v.v), v.v) for v in svs}) == 1:
            return svs[0]
        if all(isinstance(v, Obj) for v in svs):
            z = svs[-1].z
            for c, v, _ in reversed(vals[:-1]):
                z = z3.If(c, v.z, z)
            return Obj(z, sorted({c for v in svs for c in v.cls}))
        if all(isinstance(v, (Str, PyC)) and (isinstance(v, Str) or isinstance(v.v, str)) for v in svs):
            z = self.zstr(svs[-1])
            for c, v, _ in reversed(vals[:-1]):
                z = z3.If(c, self.zstr(v), z)
            return Str(z)
        if all(isinstance(v, (Bool, PyC)) and (isinstance(v, Bool) or isinstance(v.v, bool)) for v in svs):
            z = self.zbool(svs[-1])
            for c, v, _ in reversed(vals[:-1]):
                z = z3.If(c, self.zbool(v), z)
            return Bool(z3.simplify(z))
        if all(isinstance(v, (Int, PyC)) and (isinstance(v, Int) or (isinstance(v.v, int) and not isinstance(v.v, bool))) for v in svs):
            z = self.zint(svs[-1])
            for c, v, _ in reversed(vals[:-1]):
                z = z3.If(c, self.zint(v), z)
            return Int(z)
        if all(isinstance(v, TupS) for v in svs) and len({len(v.items) for v in svs}) == 1:
            return TupS([self.merge([(c, v.items[i], s) for c, v, s in vals]) for i in range(len(svs[0].items))])
        if all(isinstance(v, (FuncV, ClassV, ExtV, BoundV, ModV)) for v in svs):
            if all(repr_key(v) == repr_key(svs[0]) for v in svs):
                return svs[0]
            raise Unsupported('merging different functions')
        if all(isinstance(v, Loc) for v in svs):
            if all(loc_same(v, svs[0]) for v in svs) and not (isinstance(svs[0], CellLoc) and svs[0].id not in self.st.cells):
                return svs[0]
            cvs = []
            for c, v, s in vals:
                cur = self.st
                if not (isinstance(v, CellLoc) and v.id not in cur.cells):
                    raise Unsupported('merging shared containers')
                self.st = s
                try:
                    cv = self.content(v)
                finally:
                    self.st = cur
                cvs.append((c, cv))
            if all(isinstance(cv, ListV) for _, cv in cvs):
                kinds = {cv.kind for _, cv in cvs}
                if len(kinds) == 1:
                    tys = [self.elem_type(cv, s) for (c, cv), (_, _, s) in zip(cvs, vals) if cv.segs]
                    ty = tys[0] if tys else None
                    for t in tys[1:]:
                        ty = self.join_ty(ty, t)
                    return self.new_cell(ListV([('s', self._ite_chain([(c, self.seq_in(cv, s)) for (c, cv), (_, _, s) in zip(cvs, vals)]), ty)], kinds.pop()))
            if all(isinstance(cv, DictV) for _, cv in cvs):
                ks = self._ite_chain([(c, self.seq_in(cv.keys, s)) for (c, cv), (_, _, s) in zip(cvs, vals)])
                mp = self._ite_chain([(c, cv.map) for c, cv in cvs])
                return self.new_cell(DictV(ListV([('s', ks, TStr)]), mp))
            raise Unsupported('merging containers of different kinds')
        if any(isinstance(v, (Poison, IterV, ExcV, FuncV, BoundV, ClassV, MethV)) for v in svs):
            raise Unsupported('merging %s' % [type(v).__name__ for v in svs])
        zs = []
        for c, v, s in vals:
            cur = self.st
            self.st = s
            try:
                zs.append((c, self.zval(v)))
            finally:
                self.st = cur
        ty = self.type_of(svs[0], vals[0][2])
        for _, v, s in vals[1:]:
            ty = self.join_ty(ty, self.type_of(v, s)) if ty is not None else None
        return ValS(self._ite_chain(zs), ty)

    def type_of(self, v, st):
        """A type the value is known to have, or None."""
        if isinstance(v, PyC):
            return TNone if v.v is None else TBool if isinstance(v.v, bool) else TInt if isinstance(v.v, int) else TStr if isinstance(v.v, str) else None
        if isinstance(v, (Str, Int, Bool)):
            return {Str: TStr, Int: TInt, Bool: TBool}[type(v)]
        if isinstance(v, Obj):
            return TObj(*v.cls, exact=True)
        if isinstance(v, ValS):
            return v.ty
        if isinstance(v, Loc):
            cur, self.st = self.st, st
            try:
                cv = self.content(v)
            finally:
                self.st = cur
            if isinstance(cv, ListV) and cv.kind == 'list':
                return TList(self.elem_type(cv, st))
            if isinstance(cv, DictV):
                return TDict(cv.ty) if cv.ty is not None or not (cv.keys.concrete() and not cv.keys.segs) else None
        return None

    def elem_type(self, cv, st):
        """A type of all elements of a list, or None; an empty list has elements of no type."""
        ty = TKind()
        for i, s in enumerate(cv.segs):
            t = self.type_of(s[1], st) if s[0] == 'e' else s[2]
            if t is None:
                return None
            ty = t if i == 0 else self.join_ty(ty, t)
        return ty

    def _ite_chain(self, zs):
        z = zs[-1][1]
        for c, v in reversed(zs[:-1]):
            if not v.eq(z):
                z = z3.If(c, v, z)
        return z

    def seq_in(self, lv, st):
        cur = self.st
        self.st = st
        try:
            return self.seq(lv)
        finally:
            self.st = cur

    # ------------------------------------------------------------------ conversions
    def zstr(self, sv):
        if isinstance(sv, Str):
            return sv.z
        if isinstance(sv, PyC) and isinstance(sv.v, str):
            return sval(sv.v)
        raise Unsupported('not a string: %r' % (sv,))

    def zint(self, sv):
        if isinstance(sv, Int):
            return sv.z
        if isinstance(sv, PyC) and isinstance(sv.v, int):
            return z3.IntVal(int(sv.v))
        if isinstance(sv, Bool):
            return z3.If(sv.z, z3.IntVal(1), z3.IntVal(0))
        raise Unsupported('not an int: %r' % (sv,))

    def zbool(self, sv):
        if isinstance(sv, Bool):
            return sv.z
        if isinstance(sv, PyC) and isinstance(sv.v, bool):
            return z3.BoolVal(sv.v)
        raise Unsupported('not a bool: %r' % (sv,))

    def zval(self, sv):
        if isinstance(sv, ValS):
            return sv.z
        if isinstance(sv, PyC):
            v = sv.v
            if v is None:
                return Val.VNone
            if isinstance(v, bool):
                return Val.VBool(v)
            if isinstance(v, int):
                return Val.VInt(v)
            if isinstance(v, str):
                return Val.VStr(sval(v))
            return Val.VOpaque(self.opaque_id(('const', repr(v))))
        # a wrapper around the payload of a value is only made where the kind of the value is known: boxing it again gives the value
        if isinstance(sv, Str):
            return sv.z.arg(0) if payload(sv.z, 'vs') else Val.VStr(sv.z)
        if isinstance(sv, Int):
            return sv.z.arg(0) if payload(sv.z, 'vi') else Val.VInt(sv.z)
        if isinstance(sv, Bool):
            return Val.VBool(sv.z)
        if isinstance(sv, Obj):
            return sv.z.arg(0) if payload(sv.z, 'vr') else Val.VRef(sv.z)
        if isinstance(sv, TupS):
            if sv.orig is not None and all(not isinstance(x, Loc) or c is not None and self.content(x) is c for x, c in zip(sv.items, sv.orig[1])):
                return sv.orig[0]
            return Val.VTup(self.units(sv.items))
        if isinstance(sv, Loc):
            cv = self.content(sv)
            if isinstance(cv, ListV):
                return Val.VTup(self.seq(cv)) if cv.kind == 'tup' else Val.VList(self.seq(cv))
            if isinstance(cv, DictV):
                return Val.VDict(self.seq(cv.keys), cv.map)
            raise Unsupported('set as value')
        if isinstance(sv, (FuncV, ClassV, ExtV, ModV, BoundV)):
            return Val.VOpaque(self.opaque_id(repr_key(sv), sv))
        if isinstance(sv, ExcV):
            return Val.VOpaque(self.opaque_id(('exc', sv.name), sv))
        if isinstance(sv, IterV):
            return Val.VList(self.seq(self.as_list(sv)))
        raise Unsupported('cannot store %r' % (sv,))

    def opaque_id(self, key, sv=None):
        for i, (k, _) in enumerate(self.opaque):
            if k == key:
                return i
        self.opaque.append((key, sv))
        return len(self.opaque) - 1

    def units(self, items):
        us = [z3.Unit(self.zval(i)) for i in items]
        if not us:
            return EMPTY
        return us[0] if len(us) == 1 else z3.Concat(*us)

    def seq(self, lv):
        """z3 Seq(Val) of a ListV."""
        out = []
        for s in lv.segs:
            if s[0] == 'e':
                out.append(z3.Unit(self.zval(s[1])))
            elif not s[1].eq(EMPTY):
                out.append(s[1])
        if not out:
            return EMPTY
        return out[0] if len(out) == 1 else z3.Concat(*flatcat(out))

    def type_fact(self, z, ty):
        """Shallow constraint that Val z has type ty."""
        if ty is None:
            return z3.Not(Val.is_VAbs(z))
        if isinstance(ty, TKind):
            return z3.Or(*[KINDS[k](z) for k in ty.kinds])
        if isinstance(ty, TObj):
            return z3.And(Val.is_VRef(z), self.cls_fact(Val.vr(z), ty.classes, ty.exact),
                          Val.vr(z) >= 0, Val.vr(z) < (NEXT0 if self.is_initial(z) else self.st.next))
        if isinstance(ty, TList):
            return Val.is_VList(z)
        if isinstance(ty, TTup):
            return z3.And(Val.is_VTup(z), z3.Length(Val.vt(z)) == len(ty.items))
        if isinstance(ty, TDict):
            return Val.is_VDict(z)
        if isinstance(ty, TOr):
            return z3.Or(*[self.type_fact(z, a) for a in ty.alts])
        if isinstance(ty, TConst):
            return z3.Or(*[z == self.zval(PyC(v)) for v in ty.vals])
        raise Unsupported('type %r' % (ty,))

    def expand_cls(self, classes, exact=False):
        out = []
        for c in classes:
            for s in ([c] if exact else self.repo.subclasses(c)):
                if s not in out:
                    out.append(s)
        return out

    def cls_fact(self, ref, classes, exact=False):
        cs = self.expand_cls(classes, exact)
        return z3.Or(*[self.cls_of(ref) == self.cid[c] for c in sorted(cs, key=self.cid.get)])

    def wrap(self, z, ty, loc=None):
        """SV for a Val term of declared type; adds the type fact. loc: where a container lives (for mutation)."""
        z = z3.simplify(z) if z.num_args() and z.decl().kind() != z3.Z3_OP_UNINTERPRETED else z
        if ty is None:
            return self.known(ValS(z))
        self.fact(self.type_fact(z, ty))
        if isinstance(ty, TKind):
            if len(ty.kinds) == 1:
                return self.unwrap(z, ty.kinds[0], ty)
            return self.known(ValS(z, ty))
        if isinstance(ty, TObj):
            return Obj(z3.simplify(Val.vr(z)), self.expand_cls(ty.classes, ty.exact))
        if isinstance(ty, TList):
            return loc if loc is not None else self.new_cell(ListV([('s', z3.simplify(Val.vl(z)), ty.elem)]))
        if isinstance(ty, TDict):
            return loc if loc is not None else self.new_cell(
                DictV(ListV([('s', z3.simplify(Val.vk(z)), TStr)]), z3.simplify(Val.vm(z)), ty.val))
        if isinstance(ty, TTup):
            return self.unpacked(z, [self.wrap(Val.vt(z)[i], t) for i, t in enumerate(ty.items)])
        if isinstance(ty, TConst) and len(ty.vals) == 1:
            return PyC(ty.vals[0])
        return self.known(ValS(z, ty))

    def known(self, v):
        """Resolve a ValS whose top constructor is syntactically known."""
        z = v.z
        if z3.is_app(z):
            n = z.decl().name()
            if n == 'VNone':
                return PyC(None)
            if n in ('VStr', 'VInt', 'VBool', 'VRef') and z.num_args() == 1:
                return self.unwrap(z, {'VStr': 'str', 'VInt': 'int', 'VBool': 'bool', 'VRef': 'ref'}[n], v.ty)
        return v

    def unwrap(self, z, kind, ty=None):
        if kind == 'none':
            return PyC(None)
        if kind == 'str':
            s = z3.simplify(Val.vs(z)) if z.num_args() else Val.vs(z)
            c = const(s)
            return PyC(c) if c is not None else Str(s)
        if kind == 'int':
            s = z3.simplify(Val.vi(z))
            return PyC(s.as_long()) if z3.is_int_value(s) else Int(s)
        if kind == 'bool':
            s = z3.simplify(Val.vb(z))
            return PyC(True) if z3.is_true(s) else PyC(False) if z3.is_false(s) else Bool(s)
        if kind == 'ref':
            r = z3.simplify(Val.vr(z))
            classes = None
            for t in (ty.alts if isinstance(ty, TOr) else [ty]):
                if isinstance(t, TObj):
                    classes = (classes or []) + self.expand_cls(t.classes, t.exact)
            if classes is None:
                classes = self.expand_cls(['Term'])
                self.fact(self.cls_fact(r, ['Term']))
            return Obj(r, classes)
        if kind == 'list':
            e = None
            for t in (ty.alts if isinstance(ty, TOr) else [ty]):
                if isinstance(t, TList):
                    e = t.elem
            return self.new_cell(ListV([('s', z3.simplify(Val.vl(z)), e)]))
        if kind == 'tup':
            for t in (ty.alts if isinstance(ty, TOr) else [ty]):
                if isinstance(t, TTup):
                    return self.unpacked(z, [self.wrap(Val.vt(z)[i], x) for i, x in enumerate(t.items)])
            return self.new_cell(ListV([('s', z3.simplify(Val.vt(z)), None)], 'tup'))
        if kind == 'dict':
            e = None
            for t in (ty.alts if isinstance(ty, TOr) else [ty]):
                if isinstance(t, TDict):
                    e = t.val
            return self.new_cell(DictV(ListV([('s', z3.simplify(Val.vk(z)), TStr)]), z3.simplify(Val.vm(z)), e))
        if kind == 'opaque':
            o = z3.simplify(Val.vo(z))
            if z3.is_int_value(o) and self.opaque[o.as_long()][1] is not None:
                return self.opaque[o.as_long()][1]
            return ValS(z)
        raise Unsupported(kind)

    def kinds_of(self, v):
        ty = v.ty
        if isinstance(ty, TKind):
            return list(ty.kinds)
        if isinstance(ty, TOr):
            out = []
            for a in ty.alts:
                for k in self.kinds_of(ValS(v.z, a)):
                    if k not in out:
                        out.append(k)
            return out
        if isinstance(ty, TObj):
            return ['ref']
        if isinstance(ty, TList):
            return ['list']
        if isinstance(ty, TDict):
            return ['dict']
        if isinstance(ty, TTup):
            return ['tup']
        if isinstance(ty, TConst):
            return list({'none' if x is None else 'bool' if isinstance(x, bool) else 'int' if isinstance(x, int) else 'str' for x in ty.vals})
        return list(KINDS)

    def kind(self, sv):
        """Fork until the dynamic kind of sv is known; returns a resolved SV."""
        if not isinstance(sv, ValS):
            if isinstance(sv, Poison):
                raise Unsupported('read of loop temporary: ' + sv.why)
            return sv
        sv2 = self.known(sv)
        if not isinstance(sv2, ValS):
            return sv2
        ks = self.kinds_of(sv)
        conds = [KINDS[k](sv.z) for k in ks]
        i = self.choose(conds) if len(ks) > 1 else 0
        return self.unwrap(sv.z, ks[i], sv.ty)

    # ------------------------------------------------------------------ containers
    def new_cell(self, cv):
        self.cells_n += 1
        self.st.cells[self.cells_n] = cv
        return CellLoc(self.cells_n)

    def new_list(self, items, kind='list'):
        return self.new_cell(ListV([('e', i) for i in items], kind))

    def content(self, loc):
        if isinstance(loc, CellLoc):
            cv = self.st.cells[loc.id]
            if isinstance(cv, Loc):
                return self.content(cv)
            return cv
        if isinstance(loc, FieldLoc):
            z = self.hread(loc.ref, loc.attr)
            return self.cv_of(z, loc.kind, loc.ty)
        if isinstance(loc, ItemLoc):
            base = self.content(loc.base)
            if isinstance(base, DictV):
                return self.cv_of(z3.simplify(z3.Select(base.map, loc.key)), loc.kind, loc.ty)
        raise Unsupported('content of %r' % (loc,))

    def cv_of(self, z, kind, ty):
        if kind == 'list':
            e = ty.elem if isinstance(ty, TList) else None
            l = z3.simplify(Val.vl(z))
            return self.segs_of(l, e)
        if kind == 'dict':
            v = ty.val if isinstance(ty, TDict) else None
            return DictV(self.segs_of(z3.simplify(Val.vk(z)), TStr), z3.simplify(Val.vm(z)), v)
        raise Unsupported('container kind ' + kind)

    def segs_of(self, l, e):
        if l.eq(EMPTY):
            return ListV()
        segs = []
        for p in (flatcat([l])):
            if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                segs.append(('e', self.wrap_elem(p.arg(0), e)))
            elif p.eq(EMPTY):
                continue
            else:
                segs.append(('s', p, e))
        return ListV(segs)

    def wrap_elem(self, z, e):
        return self.known(ValS(z, e)) if e is None or not isinstance(e, (TObj,)) else Obj(z3.simplify(Val.vr(z)), self.expand_cls(e.classes, e.exact))

    def setcontent(self, loc, cv):
        loc = self.deref(loc)
        if isinstance(loc, CellLoc):
            if ('cell', loc.id) in self.st.frozen:
                raise Unsupported('mutation of an aliased container')
            self.st.cells[loc.id] = cv
        elif isinstance(loc, FieldLoc):
            if ('field', loc.ref.get_id(), loc.attr) in self.st.frozen:
                raise Unsupported('mutation of an aliased container')
            self.hwrite(loc.ref, loc.attr, self.cv_val(cv))
        elif isinstance(loc, ItemLoc):
            base = self.content(loc.base)
            self.setcontent(loc.base, DictV(base.keys, z3.Store(base.map, loc.key, self.cv_val(cv)), base.ty))
        else:
            raise Unsupported('set %r' % (loc,))

    def cv_val(self, cv):
        if isinstance(cv, ListV):
            return Val.VTup(self.seq(cv)) if cv.kind == 'tup' else Val.VList(self.seq(cv))
        if isinstance(cv, DictV):
            return Val.VDict(self.seq(cv.keys), cv.map)
        raise Unsupported('storing %r' % (cv,))

    def deref(self, loc):
        while isinstance(loc, CellLoc) and isinstance(self.st.cells.get(loc.id), Loc):
            loc = self.st.cells[loc.id]
        return loc

    def unpacked(self, z, items):
        return TupS(items, (z, [self.content(x) if isinstance(x, Loc) else None for x in items]))

    def is_initial(self, z):
        """The value is made of the arguments and the initial heap alone, so objects in it are not new."""
        return all(c.decl().name().startswith(('H_', 'arg_')) or c.get_id() in self.initial for c in free_consts(z))

    def harr(self, attr):
        if attr not in self.st.heap:
            # every path starts from the same initial heap symbol
            self.st.heap[attr] = z3.Const('H_' + attr, HEAP)
        return self.st.heap[attr]

    def hread(self, ref, attr):
        a = self.harr(attr)
        # walk the store chain: syntactic or solver-decided equality of references
        while z3.is_store(a):
            arr, k, v = a.children()
            if k.eq(ref) or self.must(k == ref):
                return v
            if self.must(k != ref):
                a = arr
                continue
            break
        return z3.Select(a, ref)

    def hwrite(self, ref, attr, z):
        self.st.heap[attr] = z3.Store(self.harr(attr), ref, z)

    # ------------------------------------------------------------------ truth, equality
    def truth(self, sv):
        """z3 Bool (or python bool) truth value."""
        if isinstance(sv, PyC):
            return bool(sv.v)
        if isinstance(sv, Bool):
            return sv.z
        if isinstance(sv, Str):
            return sv.z != sval('')
        if isinstance(sv, Int):
            return sv.z != 0
        if isinstance(sv, (Obj,)):
            for c in sv.cls:
                if self.repo.lookup(c, '__bool__') or self.repo.lookup(c, '__len__'):
                    raise Unsupported('__bool__/__len__ on object')
            return True
        if isinstance(sv, TupS):
            return len(sv.items) > 0
        if isinstance(sv, Loc):
            cv = self.content(sv)
            if isinstance(cv, DictV):
                cv = cv.keys
            if isinstance(cv, SetV):
                cv = cv.items
            if any(s[0] == 'e' for s in cv.segs):
                return True
            if not cv.segs:
                return False
            z = self.seq(cv)
            return z != EMPTY
        if isinstance(sv, ValS):
            z = sv.z
            ks = set(self.kinds_of(sv))
            e = z3.BoolVal(True)
            if 'dict' in ks:
                e = z3.If(Val.is_VDict(z), Val.vk(z) != EMPTY, e)
            if 'list' in ks:
                e = z3.If(Val.is_VList(z), Val.vl(z) != EMPTY, e)
            if 'tup' in ks:
                e = z3.If(Val.is_VTup(z), Val.vt(z) != EMPTY, e)
            if 'int' in ks:
                e = z3.If(Val.is_VInt(z), Val.vi(z) != 0, e)
            if 'bool' in ks:
                e = z3.If(Val.is_VBool(z), Val.vb(z), e)
            if 'str' in ks:
                e = z3.If(Val.is_VStr(z), Val.vs(z) != sval(''), e)
            if 'none' in ks:
                e = z3.If(Val.is_VNone(z), z3.BoolVal(False), e)
            return z3.simplify(e)
        if isinstance(sv, (FuncV, ClassV, ExtV, BoundV, ModV, ExcV)):
            return True
        raise Unsupported('truth of %r' % (sv,))

    def eq(self, a, b):
        """z3 Bool / python bool for a == b."""
        if isinstance(a, PyC) and isinstance(b, PyC):
            return a.v == b.v
        if isinstance(a, FloatV) or isinstance(b, FloatV):
            x, y = [v.z if isinstance(v, FloatV) else self.zval(v) for v in ((a, b) if isinstance(a, FloatV) else (b, a))]
            return ST.uf('float_eq', Val, Val, BOOL)(x, y)
        sa, sb = is_strlike(a), is_strlike(b)
        if sa and sb:
            x, y = self.zstr(a), self.zstr(b)
            if x.eq(y):
                return True
            cx, cy = const(x), const(y)
            if '.' in (cx or '') or '.' in (cy or '') or dotted(x) or dotted(y) or (self.link_lower and (ST.is_uf(x, 'lower') or ST.is_uf(y, 'lower'))):
                self.S.link(x)
                self.S.link(y)
            return x == y
        if isinstance(a, TupS) and isinstance(b, TupS):
            if len(a.items) != len(b.items):
                return False
            cs = [self.eq(x, y) for x, y in zip(a.items, b.items)]
            return zand(cs)
        if isinstance(a, Loc) and isinstance(b, Loc):
            ca, cb = self.content(a), self.content(b)
            if isinstance(ca, ListV) and isinstance(cb, ListV):
                if ca.kind != cb.kind:
                    return False
                if ca.concrete() and cb.concrete():
                    if len(ca.segs) != len(cb.segs):
                        return False
                    return zand([self.eq(x[1], y[1]) for x, y in zip(ca.segs, cb.segs)])
                return self.seq(ca) == self.seq(cb)
            if isinstance(ca, DictV) and isinstance(cb, DictV):
                return z3.And(self.seq(ca.keys) == self.seq(cb.keys), ca.map == cb.map)
            if isinstance(ca, SetV) or isinstance(cb, SetV):
                raise Unsupported('set equality')
            return False
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.z == b.z
        ka, kb = basic_kind(a), basic_kind(b)
        if ka and kb and ka != kb and {ka, kb} != {'int', 'bool'}:
            return False
        if isinstance(a, (FuncV, ClassV, ExtV)) and isinstance(b, (FuncV, ClassV, ExtV)):
            return repr_key(a) == repr_key(b)
        if ka == 'int' and kb == 'int':
            return self.zint(a) == self.zint(b)
        if isinstance(a, ValS) and sb:
            return z3.And(Val.is_VStr(a.z), self._bool(self.eq(Str(Val.vs(a.z)), b)))
        if isinstance(b, ValS) and sa:
            return z3.And(Val.is_VStr(b.z), self._bool(self.eq(a, Str(Val.vs(b.z)))))
        return self.zval(a) == self.zval(b)

    def _bool(self, c):
        return z3.BoolVal(c) if isinstance(c, bool) else c

    def is_(self, a, b):
        if isinstance(b, PyC) and (b.v is None or isinstance(b.v, bool)):
            a2 = self.known(a) if isinstance(a, ValS) else a
            if isinstance(a2, PyC):
                return a2.v is b.v
            if isinstance(a2, Bool) and isinstance(b.v, bool):
                return a2.z == z3.BoolVal(b.v)
            if isinstance(a2, ValS):
                return a2.z == self.zval(b)
            return False
        if isinstance(a, PyC) and (a.v is None or isinstance(a.v, bool)):
            return self.is_(b, a)
        if isinstance(a, Obj) and isinstance(b, Obj):
            return a.z == b.z
        if isinstance(a, Loc) and isinstance(b, Loc):
            return loc_same(self.deref(a), self.deref(b))
        if isinstance(a, (ValS, Obj)) and isinstance(b, (ValS, Obj)):
            return self.zval(a) == self.zval(b)
        if isinstance(a, (ClassV, FuncV, ExtV)) and isinstance(b, (ClassV, FuncV, ExtV)):
            return repr_key(a) == repr_key(b)
        raise Unsupported('is on %r, %r' % (a, b))

    # ------------------------------------------------------------------ membership in a sequence
    def mem(self, lv, x):
        """x in list content."""
        if isinstance(lv, SetV):
            lv = lv.items
        cs = []
        for s in lv.segs:
            if s[0] == 'e':
                c = self.eq(s[1], x)
                if c is True:
                    return True
                if c is not False:
                    cs.append(c)
            else:
                cs.append(self.zmem(s[1], self.zval(x)))
        cs = [c for c in cs if not (z3.is_false(c))]
        if not cs:
            return False
        return cs[0] if len(cs) == 1 else z3.Or(*cs)

    def zmem(self, s, x):
        if s.eq(EMPTY):
            return z3.BoolVal(False)
        if ST.is_concat(s):
            return z3.Or(*[self.zmem(c, x) for c in s.children()])
        if z3.is_app(s) and s.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            return s.arg(0) == x
        if ST.is_ite(s):
            c, a, b = s.children()
            return z3.If(c, self.zmem(a, x), self.zmem(b, x))
        F = self.fold_by_uf.get(s.decl().name()) if z3.is_app(s) else None
        if isinstance(F, Fold) and F.kind == 'FM':
            X = self.fresh('x', Val)
            return self.fold_any(s, X, X == x, None, ElemFacts([], 'mem'))
        m = ST.uf('mem', SEQ, Val, BOOL)(s, x)
        self.fact(z3.Implies(m, s != EMPTY))
        if z3.is_app(s) and s.decl().name() == 'seq.remove':
            L, t = s.children()
            self.fact(z3.Implies(x != t, m == self.zmem(L, x)))
            self.fact(z3.Implies(m, self.zmem(L, x)))
        return m


def payload(z, sel):
    return z3.is_app(z) and z.num_args() == 1 and z.decl().kind() == z3.Z3_OP_DT_ACCESSOR and z.decl().name() == sel


def zand(cs):
    if any(c is False for c in cs):
        return False
    cs = [c for c in cs if c is not True]
    if not cs:
        return True
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def flatcat(zs):
    out = []
    for z in zs:
        if ST.is_concat(z):
            out.extend(flatcat(z.children()))
        else:
            out.append(z)
    return out


def is_strlike(v):
    return isinstance(v, Str) or (isinstance(v, PyC) and isinstance(v.v, str))


def dotted(z):
    return ST.is_concat(z) and any('.' in (const(p) or '') for p in ST.parts(z))


def basic_kind(v):
    if isinstance(v, PyC):
        return 'none' if v.v is None else 'bool' if isinstance(v.v, bool) else 'int' if isinstance(v.v, int) else 'str' if isinstance(v.v, str) else None
    return {Str: 'str', Int: 'int', Bool: 'bool', Obj: 'ref', TupS: 'tup', CellLoc: 'cont', FieldLoc: 'cont', ItemLoc: 'cont'}.get(type(v))


def repr_key(v):
    if isinstance(v, FuncV):
        return ('func', v.fi.key, id(v.fi.node))
    if isinstance(v, ClassV):
        return ('class', v.ci.name)
    if isinstance(v, ExtV):
        return ('ext', v.name)
    if isinstance(v, ModV):
        return ('mod', v.name)
    if isinstance(v, BoundV):
        return ('bound', v.fi.key, id(v.obj))
    return ('?', id(v))


def loc_same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, CellLoc):
        return a.id == b.id
    if isinstance(a, FieldLoc):
        return a.attr == b.attr and a.ref.eq(b.ref)
    return loc_same(a.base, b.base) and a.key.eq(b.key)
