"""Loop summaries (fold symbols) and the lemma engine that reasons about them (mixin of Engine).

A loop over an arbitrary sequence S is replaced by symbols
  FM_k(S, params)   = concatenation over the elements x of S of g_k(x, params)      (list accumulators)
  ANY_k(S, params)  = some element x of S satisfies p_k(x, params)                  (exits, flags)
  GEN_k(S, init, params)                                                            (any other accumulator)
whose step terms g_k / p_k come from executing the loop body once, from an arbitrary iteration state, over all its
paths.  The only facts used about them are consequences of list induction:
  FM(a++b) = FM(a)++FM(b);  pointwise equal steps give equal folds;  steps that are empty wherever p is false give an
  empty FM where ANY is false.
"""
import z3
from .values import *
from .values import Val
from . import strs as ST
from .strs import sval, const
from .engine import flatcat, Fold, ElemFacts, zand, loc_same, rebase, free_consts, NEXT0


def mentions(z, ids):
    seen = set()
    todo = [z]
    while todo:
        t = todo.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in ids:
            return True
        todo.extend(t.children())
    return False


_AP = {}


def apps(z, pred, out=None, seen=None):
    """Fold applications in a term (memoised per term)."""
    out = {} if out is None else out
    k = z.get_id()
    if k not in _AP:
        mine, seen, todo = {}, set(), [z]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_app(t):
                n = t.num_args()
                if n:
                    if pred(t):
                        mine[i] = t
                    todo.extend(t.arg(j) for j in range(n))
        _AP[k] = (z, mine)
    out.update(_AP[k][1])
    return out


Facts = ElemFacts


class GenFold:
    tkey = ''

    def __init__(self, name, X, syms, P, steps, ufs, idx):
        self.name, self.X, self.syms, self.P, self.steps, self.ufs, self.idx = name, X, syms, P, steps, ufs, idx
        self.facts = []


def written(g):
    """For a goal A[i] == Store(A, r, v)[i]: A[r] == v, from which it follows."""
    if not z3.is_eq(g) or not all(z3.is_select(x) for x in g.children()) or not g.arg(0).arg(1).eq(g.arg(1).arg(1)):
        return None
    a, b = g.arg(0).arg(0), g.arg(1).arg(0)
    for x, y in ((a, b), (b, a)):
        if z3.is_store(y) and y.arg(0).eq(x):
            return z3.Select(x, y.arg(1)) == y.arg(2)
    return None


class Loops:
    # ------------------------------------------------------------------ streams
    def as_list(self, v):
        v = self.kind(v) if isinstance(v, ValS) else v
        if isinstance(v, TupS):
            return ListV([('e', i) for i in v.items], 'tup')
        if isinstance(v, Loc):
            cv = self.content(v)
            if isinstance(cv, DictV):
                return cv.keys
            if isinstance(cv, SetV):
                raise Unsupported('iteration order of a set')
            return cv
        if isinstance(v, PyC) and isinstance(v.v, (str, tuple, list)):
            return ListV([('e', self.lift(c)) for c in v.v])
        if isinstance(v, PyC):
            raise PyRaise(ExcV('TypeError'))
        if isinstance(v, IterV):
            if v.kind == 'list':
                return v.args[0]
            if v.kind == 'keys':
                return self.content(v.args[0]).keys
            if v.kind == 'split':
                z, sep = v.args
                c = const(z)
                if c is not None:
                    return ListV([('e', PyC(x)) for x in c.split(sep)])
                u = ST.uf('split_all[%s]' % sep, STR, SEQ)(z)
                self.fact(u != EMPTY)
                return ListV([('s', u, TStr)])
            acc = self.new_cell(ListV())
            box = {}

            def body():
                self.setcontent(acc, ListV(self.content(acc).segs + (('e', box['x']),)))
            self.loop(v, lambda x: box.__setitem__('x', x), body, None)
            return self.content(acc)
        if isinstance(v, Obj):
            r = self.call_method(v, '__iter__', [], {})
            return self.as_list(r)
        if isinstance(v, Str):
            return ListV([('s', ST.uf('chars', STR, SEQ)(v.z), TStr)])
        if isinstance(v, (Int, Bool)):
            raise PyRaise(ExcV('TypeError'))
        raise Unsupported('iteration over %r' % (v,))

    def stream(self, v):
        """[('e', SV)] / [('s', z3 seq, make(x, i) -> SV)]"""
        v = self.kind(v) if isinstance(v, ValS) else v
        if isinstance(v, IterV) and v.kind in ('items', 'values'):
            loc = v.args[0]
            cv = self.content(loc)
            out = []
            for s in cv.keys.segs:
                if s[0] == 'e':
                    val = self.dict_val(None, cv, self.zstr(s[1]))
                    out.append(('e', TupS([s[1], val]) if v.kind == 'items' else val))
                else:
                    def mk(x, i, cv=cv, kind=v.kind):
                        self.fact(Val.is_VStr(x))
                        k = z3.simplify(Val.vs(x))
                        self.fact(z3.Not(z3.Select(cv.map, k) == Val.VAbs))
                        val = self.dict_val(None, cv, k)
                        return TupS([self.mkstr(k), val]) if kind == 'items' else val
                    mk.tkey = '%s:%r' % (v.kind, cv.ty)
                    out.append(('s', s[1], mk))
            return out
        if isinstance(v, IterV) and v.kind == 'enumerate':
            base = self.stream(v.args[0])
            start = v.args[1]
            out = []
            off = z3.IntVal(start)
            for s in base:
                if s[0] == 'e':
                    out.append(('e', TupS([self.mkint(off), s[1]])))
                    off = z3.simplify(off + 1)
                else:
                    def mk(x, i, m=s[2], o=off):
                        return TupS([self.mkint(z3.simplify(o + i)), m(x, i)])
                    mk.indexed = True
                    mk.tkey = 'enum:' + getattr(s[2], 'tkey', '?')
                    out.append(('s', s[1], mk))
                    off = off + z3.Length(s[1])
            return out
        if isinstance(v, IterV) and v.kind == 'zip':
            ls = [self.as_list(a) for a in v.args]
            out = []
            segs = [list(l.segs) for l in ls]
            while all(s and s[0][0] == 'e' for s in segs):
                out.append(('e', TupS([s.pop(0)[1] for s in segs])))
            if any(not s for s in segs):
                return out
            if len(ls) == 2 and len(segs[0]) == 1 and len(segs[1]) == 1 and segs[0][0][0] == 's' and segs[1][0][0] == 's':
                tys = [s[0][2] for s in segs]
            else:
                tys = [None, None]
            if len(ls) != 2:
                raise Unsupported('zip of %d symbolic lists' % len(ls))
            zs, maps = [], []
            for s in segs:
                z = self.seq(ListV(s))
                fs = []
                # an element of a sequence mapped one to one is the image of the element at the same place
                while z3.is_app(z) and isinstance(self.fold_by_uf.get(z.decl().name()), Fold):
                    F = self.fold_by_uf[z.decl().name()]
                    if F.kind != 'FM' or F.idx is not None or not (z3.is_app(F.body) and F.body.decl().kind() == z3.Z3_OP_SEQ_UNIT):
                        break
                    fs.append((F, z.children()[1:]))
                    z = z.arg(0)
                zs.append(z)
                maps.append(fs)
            z = ST.uf('zip', SEQ, SEQ, SEQ)(*zs)

            def mk(x, i):
                self.fact(z3.And(Val.is_VTup(x), z3.Length(Val.vt(x)) == 2))
                out = []
                for n, fs, ty in zip(('fst', 'snd'), maps, tys):
                    v = ST.uf(n, Val, Val)(x)
                    for F, ps in reversed(fs):
                        for f in self.inst_facts(F, v, ps):
                            self.fact(f)
                        v = F.at(v, ps).arg(0)
                    out.append(self.wrap(v, ty))
                return TupS(out)
            mk.tkey = 'zip:%r:%r' % (tys, [[F.tkey for F, _ in fs] for fs in maps])
            out.append(('s', z, mk))
            return out
        if isinstance(v, IterV) and v.kind == 'reversed':
            return list(reversed(self.stream(v.args[0]))) if self.as_list(v.args[0]).concrete() else self._unsup('reversed')
        lv = self.as_list(v)
        out = []
        for s in lv.segs:
            if s[0] == 'e':
                out.append(s)
            else:
                for p in flatcat([s[1]]):
                    if z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                        out.append(('e', self.wrap_elem(p.arg(0), s[2])))
                    elif not p.eq(EMPTY):
                        mk = lambda x, i, ty=s[2]: self.wrap(x, ty)
                        mk.tkey = repr(s[2])
                        out.append(('s', p, mk))
        return out

    def _unsup(self, m):
        raise Unsupported(m)

    def mkint(self, z):
        z = z3.simplify(z)
        return PyC(z.as_long()) if z3.is_int_value(z) else Int(z)

    # ------------------------------------------------------------------ loops
    def loop(self, it, bind, body, cx):
        """Returns True when the loop ended by break."""
        todo = list(self.stream(it))
        nconc = sum(1 for s in todo if s[0] == 'e')
        while todo:
            s = todo.pop(0)
            if s[0] == 'e':
                def step(s=s):
                    bind(s[1])
                    try:
                        body()
                    except ContSig:
                        pass
                try:
                    if nconc >= 3:
                        self.merged_step(step)
                    else:
                        step()
                except BrkSig:
                    return True
            else:
                z = s[1]
                if ST.is_ite(z):
                    c, a, b = z.children()
                    z2 = a if self.fork(c) else b
                    todo = [x for x in [('s', p, s[2]) if not (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_SEQ_UNIT) else ('e', s[2](p.arg(0), None))
                                        for p in flatcat([z2]) if not p.eq(EMPTY)]] + todo
                    continue
                if self.summarise(z, s[2], bind, body) == 'break':
                    return True
        return False

    def merged_step(self, step):
        """Execute one concrete iteration; merge its paths when they only differ in mergeable state."""
        base = self.st
        res = self.gather(step)
        if not res:
            raise Infeasible()
        if len(res) == 1:
            self._adopt(res[0][2], res[0][1], None)
            self._outcome(res[0][3])
            return
        for f in self.guarded(res):
            self.fact(f)
        norm = [r for r in res if r[3][0] == 'ret']
        ex = [r for r in res if r[3][0] != 'ret']
        if ex:
            conds = [z3.Or(*[r[0] for r in norm])] if norm else []
            i = self.choose(conds + [r[0] for r in ex])
            if not norm or i > 0:
                r = ex[i - (1 if norm else 0)]
                self._adopt(r[2], [], None)
                self._outcome(r[3])
                return
        try:
            self.merge_states(base, norm)
        except Unsupported:
            j = self.choose([r[0] for r in norm])
            self._adopt(norm[j][2], [], None)

    def merge_states(self, base, rs):
        if len(rs) == 1:
            self._adopt(rs[0][2], [], None)
            return
        for r in rs:
            if r[2].next is not base.next and not r[2].next.eq(rs[0][2].next):
                raise Unsupported('merge with allocation')
            if r[2].trace != rs[0][2].trace:
                raise Unsupported('merge with effects')
        newheap, newcells, newframes = {}, {}, {}
        attrs = {a for r in rs for a in r[2].heap}
        for a in attrs:
            hs = [(r[0], r[2].heap.get(a, base.heap.get(a))) for r in rs]
            hs = [(c, h if h is not None else z3.Const('H_' + a, HEAP)) for c, h in hs]
            newheap[a] = self._ite_chain(hs)
        for k, v in base.cells.items():
            vs = [r[2].cells[k] for r in rs]
            if all(x is v for x in vs):
                continue
            if not all(isinstance(x, type(vs[0])) for x in vs) or isinstance(vs[0], Loc):
                raise Unsupported('merge cells')
            if isinstance(vs[0], ListV):
                newcells[k] = self.merge_lists([(r[0], x, r[2]) for r, x in zip(rs, vs)])
            elif isinstance(vs[0], DictV):
                ks = self.merge_lists([(r[0], x.keys, r[2]) for r, x in zip(rs, vs)])
                newcells[k] = DictV(ks, self._ite_chain([(r[0], x.map) for r, x in zip(rs, vs)]), vs[0].ty)
            else:
                raise Unsupported('merge sets')
        for f, d in base.frames.items():
            for n in set().union(*[set(r[2].frames.get(f, {})) for r in rs]):
                vs = [r[2].frames.get(f, {}).get(n) for r in rs]
                if all(x is d.get(n) for x in vs):
                    continue
                if any(x is None for x in vs):
                    newframes[(f, n)] = Poison('conditionally assigned')
                    continue
                try:
                    newframes[(f, n)] = self.merge([(r[0], x, r[2]) for r, x in zip(rs, vs)])
                except Unsupported:
                    newframes[(f, n)] = Poison('unmergeable')
        st = self.st
        for r in rs:
            st.frozen |= r[2].frozen
        st.heap.update(newheap)
        st.cells.update(newcells)
        for (f, n), v in newframes.items():
            st.frames[f][n] = v
        st.next, st.trace = rs[0][2].next, rs[0][2].trace

    def merge_lists(self, xs):
        """[(cond, ListV, state)]: common prefix kept, differing tails become an ITE segment."""
        ls = [x[1].segs for x in xs]
        n = 0
        while all(len(l) > n for l in ls) and all(self.same_seg(l[n], ls[0][n]) for l in ls):
            n += 1
        tails = [(c, self.seq_in(ListV(lv.segs[n:]), s)) for c, lv, s in xs]
        ty = None
        tys = {id(s[2]): s[2] for l in ls for s in l[n:] if s[0] == 's'}
        if len(tys) == 1 and all(s[0] == 's' for l in ls for s in l[n:]):
            ty = list(tys.values())[0]
        elif all(s[0] == 'e' and (is_str(s[1])) for l in ls for s in l[n:]):
            ty = TStr
        return ListV(ls[0][:n] + (('s', self._ite_chain(tails), ty),), xs[0][1].kind)

    def same_seg(self, a, b):
        if a is b:
            return True
        if a[0] != b[0]:
            return False
        if a[0] == 's':
            return a[1].eq(b[1])
        return a[1] is b[1]

    def in_state(self, st, fn):
        save, self.st = self.st, st
        try:
            return fn()
        finally:
            self.st = save

    def absent(self, S, X):
        """What is known to hold of no element of S (false ANY folds over S), as conditions on its element X."""
        pool = {}
        for d in [d for sc in self.scopes for d in sc[0] + sc[1]] + self.st.decs + self.st.facts:
            apps(d, self.is_fold_app, pool)
        out = []
        for t in pool.values():
            F = self.fold_by_uf[t.decl().name()]
            if not isinstance(F, GenFold) and F.kind == 'ANY' and F.idx is None and t.arg(0).eq(S) and self.must(z3.Not(t)):
                P = self.fold_args(F, t)[2]
                out.extend(self.inst_facts(F, X, P))
                out.append(z3.Not(F.at(X, P)))
        for _, X0, body, facts, r in self.fused.get(S.get_id(), ()):
            if self.must(z3.Not(r)):
                out.extend(z3.substitute(f, (X0, X)) for f in facts)
                out.append(z3.Not(z3.substitute(body, (X0, X))))
        return out

    # ------------------------------------------------------------------ summary of one symbolic segment
    def stabilise(self, S, mk, bind, body, pre, ends):
        """The loop body run once from an arbitrary iteration: what it changes (M), the state it starts from and its paths.
        ends: the outcomes after which changes matter."""
        memo, f0 = self.the_memo(), self.frames_n
        if memo is not None:
            self.ctl.gathers += 1
            key = ('loop', S.get_id(), ends) + self.memo_key(pre, body)
            if key in memo:
                X, I, A, M, old, res, self.frames_n, self.cells_n, par = memo[key][:9]
                self.fparent.update(par)
                M = {k: dict(m) for k, m in M.items()}
                base = pre.copy()
                self.havoc(base, M)
                return X, I, A, M, base, [(c, list(fs), rebase(st, old, base), out) for c, fs, st, out in res]
        X = self.fresh('x', Val)
        I = self.fresh('i', INT)
        if self.is_initial(S):
            self.initial[X.get_id()] = X
        indexed = getattr(mk, 'indexed', False)
        A = [] if indexed else self.absent(S, X)
        M = {}

        def thunk():
            if indexed:
                self.fact(I >= 0)
            bind(mk(X, I))
            body()
        for rnd in range(12):
            base = pre.copy()
            self.havoc(base, M)
            save = self.st
            self.st = base.copy()
            self.st.decs, self.st.facts, self.st.fids = [], [], {}
            self.push()
            self.in_loops += 1
            try:
                for k in M:
                    for f in M[k].get('facts', ()):
                        self.solver.add(f)
                for f in A:
                    self.solver.add(f)
                res = self.gather(thunk)
            finally:
                self.in_loops -= 1
                self.pop()
                self.st = save
            new = False
            for c, facts, st, out in res:
                if ends and out[0] not in ends:
                    continue
                for k, endv in self.modified(base, st):
                    if k[0] == 'h' and k not in M:
                        r = self.one_field(k[1], endv, base, pre, M, X, I)
                        if r is not None:
                            fk = ('f', k[1], r[0].get_id())
                            if fk not in M:
                                M[fk] = {'syms': [self.fresh('fld', SEQ)], 'ref': r[0], 'old': pre.heap[k[1]]}
                                new = True
                            continue
                        for fk in [x for x in M if x[0] == 'f' and x[1] == k[1]]:
                            del M[fk]
                    if k not in M:
                        M[k] = self.in_state(st, lambda: self.havoc_symbol(pre, k, endv))
                        new = True
                    elif self.in_state(st, lambda: self.widen(M[k], k, endv, st)):
                        new = True
            if not new:
                break
        else:
            raise Unsupported('loop state does not stabilise')
        if memo is not None:
            par = {i: self.fparent[i] for i in range(f0 + 1, self.frames_n + 1) if i in self.fparent}
            memo[key] = (X, I, A, {k: dict(m) for k, m in M.items()}, base.copy(), [(c, list(fs), st.copy(), out) for c, fs, st, out in res], self.frames_n, self.cells_n, par, S, pre.copy())
        return X, I, A, M, base, res

    def elem_key(self, mk, X, pre):
        """What the facts about an element rest on: its type, and how new the objects in it may be."""
        return '%s<%s' % (getattr(mk, 'tkey', '?%d' % X.get_id()), NEXT0 if X.get_id() in self.initial else pre.next)

    def one_field(self, attr, v, base, pre, M, X, I):
        """(object, list) where the only change to the field is to the list that one object, the same in every iteration, has in it."""
        w = base.heap.get(attr)
        if w is None or attr not in pre.heap:
            return None
        ref = val = None
        while z3.is_store(v) and not v.eq(w):
            v, r, x = v.children()
            if ref is not None and not r.eq(ref):
                return None
            ref, val = r, x if val is None else val
        if ref is None or not v.eq(w) or not (z3.is_app(val) and val.decl().eq(Val.VList)):
            return None
        syms = {s.get_id() for m in M.values() for s in m.get('syms', ())} | {X.get_id(), I.get_id()}
        if mentions(ref, syms) or any(k[0] == 'f' and k[1] == attr and k[2] != ref.get_id() for k in M):
            return None
        old = self.in_state(pre, lambda: self.field_at(pre.heap[attr], ref))
        return (ref, val.arg(0)) if z3.is_app(old) and old.decl().eq(Val.VList) else None

    def field_at(self, h, ref):
        while z3.is_store(h):
            h, r, x = h.children()
            if r.eq(ref):
                return x
            if not self.must(r != ref):
                break
        return z3.Select(h, ref)

    def summarise(self, S, mk, bind, body):
        indexed = getattr(mk, 'indexed', False)
        pre = self.st.copy()
        X, I, A, M, base, res = self.stabilise(S, mk, bind, body, pre, ('ret', 'continue'))
        if not res:
            # the body is infeasible for every element: the sequence is empty
            self.fact(S == EMPTY)
            return None
        norm = [r for r in res if r[3][0] in ('ret', 'continue')]
        exits = [r for r in res if r[3][0] not in ('ret', 'continue')]
        symids = {}
        for k, m in M.items():
            for s in m.get('syms', ()):
                symids[s.get_id()] = k
        if any(r[2].trace != pre.trace for r in norm):
            raise Unsupported('external effects in a loop')
        for r in norm:
            if not r[2].next.eq(pre.next) and ('next',) not in M:
                raise Unsupported('object creation in a loop')
        facts = Facts([z3.Implies(zand_(A), f) for f in self.guarded(res)] if A else self.guarded(res), self.elem_key(mk, X, pre))
        ctx = (S, X, I if indexed else None, facts, bool(exits))
        applied = lambda seq: self.apply_summary(seq, pre, base, M, norm, symids, ctx)
        if exits:
            E = z3.Or(*[r[0] for r in exits]) if len(exits) > 1 else exits[0][0]
            if mentions(E, set(symids)):
                return self.sticky(S, mk, bind, body, indexed, pre)
            if not norm:
                # every element exits: the first one does
                E = z3.BoolVal(True)
            anyE = self.fold_any(S, X, E, ctx[2], facts)
            if not self.fork(anyE):
                applied(S)
                return None
            if self.in_loops:
                self.same_exit(exits, pre, base, M)
            p, x, rest = self.decompose(S, X, E, ctx[2], facts)
            if not p.eq(EMPTY):
                applied(p)
            i = z3.Length(p) if not p.eq(EMPTY) else z3.IntVal(0)
            self.fact(z3.substitute(E, (X, x), (I, i)))
            for f in A:
                self.fact(z3.substitute(f, (X, x)))
            try:
                bind(mk(x, i))
                body()
            except ContSig:
                raise Infeasible()
            except BrkSig:
                return 'break'
            raise Infeasible()
        applied(S)
        return None

    def same_exit(self, exits, pre, base, M):
        """A loop inside another that ends in one kind of exception, having changed local variables only: which element raised does not matter."""
        outs = [r[3] for r in exits]
        if any(o[0] != 'raise' or o[1].attrs or o[1].name != outs[0][1].name for o in outs) or any(k[0] in 'hfx' for k in M) or ('next',) in M:
            return
        names = []
        for r in exits:
            if r[2].trace != pre.trace or not r[2].next.eq(pre.next):
                return
            for k, _ in self.modified(base, r[2]):
                if k[0] == 'v':
                    names.append(k)
                elif k not in M:
                    return
        fresh = {k: dict(m, syms=[self.fresh('any', x.sort()) for x in m['syms']]) if m.get('syms') else m for k, m in M.items()}
        self.havoc(self.st, fresh)
        for _, f, n in names:
            if n in self.st.frames.get(f, {}):
                self.st.frames[f][n] = Poison('loop variable')
        x = ExcV(outs[0][1].name)
        x.wild = any(o[1].wild for o in outs)
        raise PyRaise(x)

    def sticky(self, S, mk, bind, body, indexed, pre):
        """A loop whose exits depend on what it accumulates: the exit is one more accumulator, and nothing changes once it is set."""
        X, I, A, M, base, res = self.stabilise(S, mk, bind, body, pre, ())
        if any(r[2].trace != pre.trace for r in res):
            raise Unsupported('external effects in a loop')
        if any(not r[2].next.eq(pre.next) for r in res):
            raise Unsupported('object creation in a loop')
        ex = self.fresh('ex', Val)
        codes, names, rty = [], [], []
        for c, facts, st, out in res:
            if out[0] in ('ret', 'continue'):
                codes.append(Val.VNone)
            elif out[0] in ('raise', 'break'):
                if out[0] == 'raise' and out[1].wild:
                    raise Unsupported('the effects of an exception in a loop are not specified')
                n = 'break' if out[0] == 'break' else 'raise:' + out[1].name
                names.append(n) if n not in names else None
                codes.append(Val.VStr(z3.StringVal(n)))
            else:
                if isinstance(out[1], Loc):
                    raise Unsupported('loop returns a container, depending on the accumulated state')
                v = self.in_state(st, lambda: self.zval(out[1]))
                rty.append(self.in_state(st, lambda: self.sv_ty(out[1])))
                codes.append(Val.VTup(z3.Concat(z3.Unit(Val.VStr(z3.StringVal('return'))), z3.Unit(v))))
        M[('x',)] = {'syms': [ex], 'codes': codes + [ex]}
        live = ex == Val.VNone
        norm = [(z3.And(live, c), facts, st, out) for c, facts, st, out in res] + [(z3.Not(live), [], base, ('ret', None))]
        symids = {}
        for k, m in M.items():
            for x in m.get('syms', ()):
                symids[x.get_id()] = k
        g = self.guarded(res)
        facts = Facts([z3.Implies(zand_([live] + A), f) for f in g], self.elem_key(mk, X, pre))
        self.exit_code = None
        self.apply_summary(S, pre, base, M, norm, symids, (S, X, I if indexed else None, facts, False))
        z = self.exit_code
        conds = [z == Val.VNone] + [z == Val.VStr(z3.StringVal(n)) for n in names] + ([Val.is_VTup(z)] if rty else [])
        self.fact(z3.Or(*conds))
        i = self.choose(conds)
        if i == 0:
            return None
        if i <= len(names):
            if names[i - 1] == 'break':
                return 'break'
            raise PyRaise(ExcV(names[i - 1][6:]))
        t = rty[0]
        for x in rty[1:]:
            t = self.join_ty(t, x)
        raise RetSig(self.wrap(Val.vt(z)[1], t))

    def modified(self, a, b):
        out = []
        for k, v in b.heap.items():
            w = a.heap.get(k)
            if w is None:
                w = z3.Const('H_' + k, HEAP)
            if not v.eq(w):
                out.append((('h', k), v))
        for k, v in a.cells.items():
            w = b.cells.get(k)
            if w is not v and not self.same_cv(v, w):
                out.append((('c', k), w))
        for f, d in a.frames.items():
            e = b.frames.get(f, {})
            for n in set(d) | set(e):
                if d.get(n) is not e.get(n) and not same_sv(d.get(n), e.get(n)):
                    out.append((('v', f, n), e.get(n)))
        return out

    def same_cv(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, ListV):
            return len(a.segs) == len(b.segs) and all(self.same_seg(x, y) for x, y in zip(a.segs, b.segs))
        if isinstance(a, DictV):
            return self.same_cv(a.keys, b.keys) and a.map.eq(b.map)
        if isinstance(a, Loc):
            return loc_same(a, b)
        return False

    def havoc_symbol(self, pre, k, endv):
        if k[0] == 'h':
            s = self.fresh('h_' + k[1], HEAP)
            return {'syms': [s]}
        if k[0] == 'c':
            cv = pre.cells[k[1]]
            if isinstance(cv, Loc) or isinstance(endv, Loc):
                raise Unsupported('container rebound in a loop')
            if isinstance(cv, ListV):
                return {'syms': [self.fresh('acc', SEQ)], 'kind': cv.kind, 'ty': self.elem_ty(cv, endv)}
            if isinstance(cv, DictV):
                return {'syms': [self.fresh('acck', SEQ), self.fresh('accm', ARR)], 'ty': endv.ty if not cv.keys.segs else self.join_ty(cv.ty, endv.ty)}
            if isinstance(cv, SetV):
                return {'syms': [self.fresh('accs', SEQ)], 'ty': None}
            raise Unsupported('cell kind')
        init = pre.frames.get(k[1], {}).get(k[2])
        if init is None:
            return {'temp': True}
        if isinstance(init, (PyC, Str, Int, Bool, Obj, ValS)) and isinstance(endv, (PyC, Str, Int, Bool, Obj, ValS)):
            s = self.fresh('var_' + k[2], Val)
            ty = self.join_ty(self.sv_ty(init), self.sv_ty(endv))
            return {'syms': [s], 'ty': ty, 'var': True}
        return {'temp': True}

    def elem_ty(self, a, b):
        tys = []
        for lv in (a, b):
            for s in lv.segs:
                t = s[2] if s[0] == 's' else self.sv_ty(s[1])
                tys.append(t)
        t = None
        for i, x in enumerate(tys):
            if x is None:
                return None
            t = x if i == 0 else self.join_ty(t, x)
        return t

    def sv_ty(self, v):
        if isinstance(v, PyC):
            return TNone if v.v is None else TBool if isinstance(v.v, bool) else TInt if isinstance(v.v, int) else TStr if isinstance(v.v, str) else None
        if isinstance(v, Str):
            return TStr
        if isinstance(v, Int):
            return TInt
        if isinstance(v, Bool):
            return TBool
        if isinstance(v, Obj):
            return TObj(*v.cls, exact=True)
        if isinstance(v, ValS):
            return self.narrow(v)
        if isinstance(v, TupS):
            ts = [self.sv_ty(i) for i in v.items]
            return TTup(*ts) if all(t is not None for t in ts) else None
        if isinstance(v, Loc):
            cv = self.content(v)
            if isinstance(cv, ListV) and cv.kind == 'list':
                return TList(self.elem_ty(ListV(), cv)) if cv.segs else None
        return None

    def narrow(self, v):
        """The type of a value without the containers it cannot be on this path."""
        if not isinstance(v.ty, TOr):
            return v.ty
        is_ = {TList: Val.is_VList, TDict: Val.is_VDict}
        alts = [a for a in v.ty.alts if not (type(a) in is_ and self.must(z3.Not(is_[type(a)](v.z))))]
        return v.ty if len(alts) == len(v.ty.alts) or not alts else alts[0] if len(alts) == 1 else TOr(*alts)

    def join_ty(self, a, b):
        if a is None or b is None:
            return None
        if a is b or repr(a) == repr(b):
            return a
        if isinstance(a, TKind) and not a.kinds:
            return b
        if isinstance(b, TKind) and not b.kinds:
            return a
        if isinstance(a, TList) and isinstance(b, TList):
            return TList(self.join_ty(a.elem, b.elem))
        if isinstance(a, TKind) and isinstance(b, TKind):
            return TKind(*sorted(set(a.kinds) | set(b.kinds)))
        aa = list(a.alts) if isinstance(a, TOr) else [a]
        for x in (b.alts if isinstance(b, TOr) else [b]):
            if isinstance(x, TList) and any(isinstance(y, TList) for y in aa):
                aa = [self.join_ty(y, x) if isinstance(y, TList) else y for y in aa]
            elif not any(repr(x) == repr(y) for y in aa):
                aa.append(x)
        return TOr(*aa)

    def widen(self, m, k, endv, st):
        if 'ty' not in m or m['ty'] is None:
            return False
        if k[0] == 'c' and isinstance(endv, ListV):
            t = self.elem_ty(ListV(), endv)
            t = self.join_ty(m['ty'], t) if endv.segs else m['ty']
        elif k[0] == 'c' and isinstance(endv, DictV):
            t = self.join_ty(m['ty'], endv.ty)
        elif k[0] == 'v' and m.get('var'):
            t = self.join_ty(m['ty'], self.sv_ty(endv))
        else:
            return False
        if repr(t) != repr(m['ty']):
            m['ty'] = t
            return True
        return False

    def havoc(self, st, M):
        for k, m in M.items():
            if m.get('temp'):
                if k[2] in st.frames.get(k[1], {}):
                    st.frames[k[1]][k[2]] = Poison('loop variable')
                continue
            s = m['syms']
            if k[0] == 'h':
                st.heap[k[1]] = s[0]
            elif k[0] == 'f':
                st.heap[k[1]] = z3.Store(m['old'], m['ref'], Val.VList(s[0]))
            elif k[0] == 'c':
                cv = st.cells[k[1]]
                if isinstance(cv, ListV):
                    st.cells[k[1]] = ListV([('s', s[0], m['ty'])], m['kind'])
                elif isinstance(cv, DictV):
                    st.cells[k[1]] = DictV(ListV([('s', s[0], TStr)]), s[1], m['ty'])
                else:
                    st.cells[k[1]] = SetV(ListV([('s', s[0], None)]))
            else:
                save = self.st
                self.st = st
                facts = []
                try:
                    if m['ty'] is not None:
                        m['facts'] = [self.type_fact(s[0], m['ty'])]
                finally:
                    self.st = save
                st.frames[k[1]][k[2]] = ValS(s[0], m['ty'])

    def apply_summary(self, S, pre, base, M, norm, symids, ctx):
        _, X, I, facts = ctx[:4]
        st = self.st
        conds = [r[0] for r in norm]
        anysym = set(symids)
        gen = []
        newv = {}
        for k, m in M.items():
            if m.get('temp'):
                newv[k] = Poison('assigned in a loop')
                continue
            if k[0] == 'x':
                gen.append(k)
                continue
            own = {s.get_id() for s in m['syms']}
            # temporaries: nobody reads the symbol
            if k[0] == 'v':
                used = any(mentions(r[0], own) for r in norm)
                used = used or any(mentions(f, own) for f in facts) and False
                if not used:
                    for r in norm:
                        for k2, endv in self.modified(base, r[2]):
                            if k2 == k:
                                continue
                            if self.sv_mentions(endv, own, r[2]):
                                used = True
                ends = [r[2].frames.get(k[1], {}).get(k[2]) for r in norm]
                selfdep = any(self.sv_mentions(e, own, r[2]) for e, r in zip(ends, norm))
                if not used:
                    unchanged = [isinstance(e, ValS) and e.z.get_id() in own for e in ends]
                    others = [e for e, u in zip(ends, unchanged) if not u]
                    if not selfdep:
                        newv[k] = Poison('assigned in every iteration')
                        continue
                    if all(isinstance(e, PyC) for e in others) and len({repr(e) for e in others}) == 1 \
                            and not any(mentions(r[0], anysym) for r in norm):
                        c = [r[0] for r, u in zip(norm, unchanged) if not u]
                        a = self.fold_any(S, X, z3.Or(*c) if len(c) > 1 else c[0], I, facts)
                        init = st.frames[k[1]][k[2]]
                        newv[k] = self.merge([(a, others[0], st), (z3.Not(a), init, st)])
                        continue
                gen.append(k)
                continue
            if k[0] == 'f':
                sym, gs = m['syms'][0], []
                if not any(mentions(c, anysym) for c in conds):
                    for r in norm:
                        z = flatcat([unlist(self.field_end(k, m, r[2]))])
                        g = z[1:]
                        g = EMPTY if not g else g[0] if len(g) == 1 else z3.Concat(*g)
                        if not z[0].eq(sym) or mentions(g, anysym):
                            break
                        gs.append((r[0], g))
                    else:
                        body = self._ite_chain(gs + [(None, EMPTY)] if ctx[4] else gs)
                        if all(g.eq(EMPTY) for _, g in gs):
                            body = EMPTY
                        segs = self.fold_fm(S, X, body, I, facts, None)
                        z = flatcat([unlist(self.field_at(st.heap[k[1]], m['ref']))] + [x[1] if x[0] == 's' else z3.Unit(self.zval(x[1])) for x in segs])
                        newv[k] = z3.Concat(*z) if len(z) > 1 else z[0] if z else EMPTY
                        continue
                gen.append(k)
                continue
            if k[0] == 'c' and isinstance(pre.cells[k[1]], ListV):
                sym = m['syms'][0]
                ok = not any(mentions(c, anysym) for c in conds)
                gs = []
                if ok:
                    for r in norm:
                        cv = r[2].cells[k[1]]
                        if not (isinstance(cv, ListV) and cv.segs and cv.segs[0][0] == 's' and cv.segs[0][1].eq(sym)):
                            ok = False
                            break
                        g = self.seq_in(ListV(cv.segs[1:]), r[2])
                        if mentions(g, anysym):
                            ok = False
                            break
                        gs.append((r[0], g))
                if ok:
                    body = self._ite_chain(gs + [(None, EMPTY)] if len(ctx) > 4 and ctx[4] else gs)
                    if len(gs) > 1 and all(g.eq(EMPTY) for _, g in gs):
                        body = EMPTY
                    # exhaustive over normal paths; exit paths contribute nothing
                    ety = None
                    tys = []
                    for r in norm:
                        for s in r[2].cells[k[1]].segs[1:]:
                            tys.append(s[2] if s[0] == 's' else self.in_state(r[2], lambda: self.sv_ty(s[1])))
                    if tys and all(t is not None for t in tys):
                        ety = tys[0]
                        for t in tys[1:]:
                            ety = self.join_ty(ety, t)
                    segs = self.fold_fm(S, X, body, I, facts, ety)
                    newv[k] = ListV(st.cells[k[1]].segs + segs, m['kind'])
                    continue
            if k[0] == 'c' and isinstance(pre.cells[k[1]], DictV) and not any(mentions(c, anysym) for c in conds):
                gs = []
                for r in norm:
                    P = self.pairs_of(r[2].cells[k[1]], m['syms'], anysym)
                    if P is None:
                        break
                    gs.append((r[0], P))
                else:
                    body = self._ite_chain(gs + [(None, EMPTY)] if ctx[4] else gs)
                    segs = self.fold_fm(S, X, body, I, facts, None)
                    cv = st.cells[k[1]]
                    for seg in segs:
                        cv = self.du(cv, seg[1], m['ty'])
                    newv[k] = cv
                    continue
            gen.append(k)
        if gen:
            self.apply_gen(S, pre, base, M, norm, ctx, gen, newv, symids)
        for k, v in newv.items():
            if k[0] == 'h':
                st.heap[k[1]] = v
            elif k[0] == 'f':
                st.heap[k[1]] = z3.Store(M[k]['old'], M[k]['ref'], Val.VList(v))
            elif k[0] == 'c':
                st.cells[k[1]] = v
            else:
                st.frames[k[1]][k[2]] = v
        for r in norm:
            st.frozen |= r[2].frozen

    def field_end(self, k, m, st):
        h = st.heap[k[1]]
        return h.arg(2) if z3.is_store(h) and h.arg(1).eq(m['ref']) else z3.Select(h, m['ref'])

    def pairs_of(self, cv, syms, anysym):
        """The pairs an iteration sets in a dict accumulator (keys syms[0], map syms[1]); None when it does anything else."""
        K, M = syms
        if not isinstance(cv, DictV):
            return None
        sets, m = [], cv.map
        while z3.is_store(m):
            m, k, v = m.children()
            sets.append((k, v))
        if not m.eq(M) or not cv.keys.segs or cv.keys.segs[0][0] != 's' or not cv.keys.segs[0][1].eq(K):
            return None
        sets.reverse()
        out = []
        for k, v in sets:
            if mentions(k, anysym) or mentions(v, anysym) or v.eq(Val.VAbs):
                return None
            out.append(z3.Unit(Val.VTup(z3.Concat(z3.Unit(Val.VStr(k)), z3.Unit(v)))))
        # every key is added where it was not one before, in the same order
        segs, m = list(cv.keys.segs[1:]), M
        for k, v in sets:
            h = z3.Not(z3.simplify(z3.Select(m, k)) == Val.VAbs)
            if segs and segs[0][0] == 's' and ST.is_ite(segs[0][1]) and segs[0][1].arg(0).eq(h) and segs[0][1].arg(1).eq(EMPTY) and segs[0][1].arg(2).eq(z3.Unit(Val.VStr(k))):
                segs.pop(0)
            elif len(sets) > 1 and self.must(h):
                pass
            else:
                return None
            m = z3.Store(m, k, v)
        if segs:
            return None
        return EMPTY if not out else out[0] if len(out) == 1 else z3.Concat(*out)

    def sv_mentions(self, v, ids, st):
        if v is None or isinstance(v, (Poison, FuncV, ClassV, ExtV, ModV)):
            return False
        if isinstance(v, z3.ExprRef):
            return mentions(v, ids)
        if isinstance(v, ListV):
            return any(mentions(s[1], ids) if s[0] == 's' else self.sv_mentions(s[1], ids, st) for s in v.segs)
        if isinstance(v, DictV):
            return self.sv_mentions(v.keys, ids, st) or mentions(v.map, ids)
        if isinstance(v, SetV):
            return self.sv_mentions(v.items, ids, st)
        if isinstance(v, TupS):
            return any(self.sv_mentions(i, ids, st) for i in v.items)
        if isinstance(v, (Str, Int, Bool, ValS, Obj)):
            return mentions(v.z, ids)
        if isinstance(v, PyC):
            return False
        if isinstance(v, CellLoc):
            return v.id in st.cells and self.sv_mentions(st.cells[v.id], ids, st)
        if isinstance(v, FieldLoc):
            return mentions(v.ref, ids)
        return True

    def apply_gen(self, S, pre, base, M, norm, ctx, gen, newv, symids):
        _, X, I, facts = ctx[:4]
        st = self.st
        syms, inits, ends = [], [], []
        for k in gen:
            m = M[k]
            syms.extend(m['syms'])
            if k[0] == 'x':
                inits.append(Val.VNone)
                ends.append(m['codes'])
            elif k[0] == 'h':
                inits.append(st.heap.get(k[1], z3.Const('H_' + k[1], HEAP)))
                ends.append([r[2].heap.get(k[1], m['syms'][0]) for r in norm])
            elif k[0] == 'f':
                inits.append(unlist(self.field_at(st.heap[k[1]], m['ref'])))
                ends.append([unlist(self.field_end(k, m, r[2])) for r in norm])
            elif k[0] == 'c':
                cv = st.cells[k[1]]
                if isinstance(cv, ListV):
                    inits.append(self.seq(cv))
                    ends.append([self.seq_in(r[2].cells[k[1]], r[2]) for r in norm])
                elif isinstance(cv, DictV):
                    inits.extend([self.seq(cv.keys), cv.map])
                    ends.append([self.seq_in(r[2].cells[k[1]].keys, r[2]) for r in norm])
                    ends.append([r[2].cells[k[1]].map for r in norm])
                else:
                    inits.append(self.seq(cv.items))
                    ends.append([self.seq_in(r[2].cells[k[1]].items, r[2]) for r in norm])
            else:
                inits.append(self.zval(st.frames[k[1]][k[2]]))
                es = []
                for r in norm:
                    cur = self.st
                    self.st = r[2]
                    try:
                        es.append(self.zval(r[2].frames[k[1]][k[2]]))
                    finally:
                        self.st = cur
                ends.append(es)
        other = set(symids) - {s.get_id() for s in syms}
        steps = [self._ite_chain(list(zip([r[0] for r in norm], e))) for e in ends]
        for t in steps:
            if mentions(t, other):
                raise Unsupported('accumulators depend on each other')
        outs = self.fold_gen(S, X, syms, inits, steps, I, facts)
        i = 0
        for k in gen:
            m = M[k]
            if k[0] == 'x':
                self.exit_code = outs[i]
                i += 1
            elif k[0] in ('h', 'f'):
                newv[k] = outs[i]
                i += 1
            elif k[0] == 'c':
                cv = st.cells[k[1]]
                if isinstance(cv, ListV):
                    newv[k] = ListV([('s', outs[i], m['ty'])], m['kind'])
                    i += 1
                elif isinstance(cv, DictV):
                    newv[k] = DictV(ListV([('s', outs[i], TStr)]), outs[i + 1], m['ty'])
                    i += 2
                else:
                    newv[k] = SetV(ListV([('s', outs[i], None)]))
                    i += 1
            else:
                newv[k] = self.known(ValS(outs[i], m['ty']))
                i += 1

    # ------------------------------------------------------------------ fold symbols
    def canon(self, terms, bound):
        """Abstract the free constants of terms (other than bound) into canonical parameters."""
        bid = {b.get_id() for b in bound}
        P, seen = [], set()
        for t in terms:
            for c in free_consts(t):
                if c.get_id() not in bid and c.get_id() not in seen:
                    seen.add(c.get_id())
                    P.append(c)
        sub = []
        for i, b in enumerate(bound):
            sub.append((b, z3.Const('B%d_%s' % (i, sname(b.sort())), b.sort())))
        Q = []
        for i, c in enumerate(P):
            q = z3.Const('P%d_%s' % (i, sname(c.sort())), c.sort())
            Q.append(q)
            sub.append((c, q))
        outs = [z3.substitute(t, *sub) if sub else t for t in terms]
        return P, Q, [s[1] for s in sub[:len(bound)]], outs, sub

    def clean_facts(self, facts, sub, extra):
        """Facts valid for every element: those whose free constants are all bound or parameters."""
        ok = {s[0].get_id() for s in sub}
        out = []
        for f in facts:
            if all(c.get_id() in ok or c.decl().name() == 'NEXT' for c in free_consts(f)):
                out.append(z3.substitute(f, *sub))
        return out

    def mkfold(self, kind, X, body, I, facts):
        bound = [X] + ([I] if I is not None else [])
        P, Q, B, (b,), sub = self.canon([body], bound)
        tkey = facts.tkey
        key = (kind, I is not None, tkey, b.sexpr())
        F = self.folds.get(key)
        if F is None:
            name = '%s_%d' % (kind, len(self.folds))
            rng = {'FM': SEQ, 'ANY': BOOL}[kind]
            ufn = z3.Function(name, *([SEQ] + ([INT] if I is not None else []) + [q.sort() for q in Q] + [rng]))
            F = Fold(kind, name, ufn, B[0], None, Q, b, B[1] if I is not None else None)
            F.tkey = tkey
            self.folds[key] = F
            self.fold_by_uf[name] = F
        have = {f.get_id() for f in F.facts}
        for f in self.clean_facts(facts, sub, None):
            if f.get_id() not in have:
                F.facts.append(f)
        return F, P

    def fold_any(self, S, X, E, I, facts):
        E = z3.simplify(E)
        if z3.is_false(E):
            return z3.BoolVal(False)
        if z3.is_true(E):
            return z3.Not(S == EMPTY)
        return self.fold_app('ANY', S, X, E, I, facts)

    def fold_fm(self, S, X, body, I, facts, ety):
        if body.eq(EMPTY):
            return ()
        if body.eq(z3.Unit(X)) or (z3.is_app(body) and z3.simplify(body).eq(z3.simplify(z3.Unit(X)))):
            return (('s', S, ety),)
        z = self.fold_app('FM', S, X, body, I, facts)
        return tuple(('s', p, ety) for p in flatcat([z]) if not p.eq(EMPTY))

    def unit_val(self, t):
        """VStr(vs(x)) etc. built from an element of known kind are x itself (justified by its type fact)."""
        return t

    def fold_app(self, kind, S, X, body, I, facts):
        """Application of a fold to S; homomorphically expanded over the structure of S."""
        if S.eq(EMPTY):
            return EMPTY if kind == 'FM' else z3.BoolVal(False)
        if ST.is_concat(S) and I is None:
            return self.combine(kind, [self.fold_app(kind, c, X, body, I, facts) for c in S.children()])
        if z3.is_app(S) and S.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            x = S.arg(0)
            sub = [(X, x)] + ([(I, z3.IntVal(0))] if I is not None else [])
            for f in facts:
                self.fact(self.under(z3.substitute(f, *sub)))
            return z3.substitute(body, *sub)
        if ST.is_ite(S) and I is None:
            c, a, b = S.children()
            return self.split_ite(c, lambda: self.fold_app(kind, a, X, body, I, facts), lambda: self.fold_app(kind, b, X, body, I, facts))
        F0 = self.fold_by_uf.get(S.decl().name()) if z3.is_app(S) else None
        if F0 is not None and isinstance(F0, Fold) and F0.kind == 'FM' and F0.idx is None and I is None:
            x0 = self.fresh('x', Val)
            params = S.children()[1:]
            g0 = F0.at(x0, params)
            sub = [(F0.X, x0)] + list(zip(F0.P, params))
            f0 = [z3.substitute(f, *sub) for f in F0.facts]
            extra = []
            guards, self.guards = self.guards, []
            b2 = self.hom(kind, g0, X, body, facts, extra)
            self.guards = guards
            if kind == 'FM' and b2.eq(z3.Unit(x0)):
                return S.arg(0)
            r = self.fold_app(kind, S.arg(0), x0, b2, None, Facts(f0 + extra, F0.tkey))
            if kind == 'ANY':
                self.fused.setdefault(S.get_id(), []).append((S, X, body, list(facts), r))
                # S itself may be the image of a sequence whose own fold was fused away
                for _, S0, X0, e, f0 in self.images.get(S.get_id(), ()):
                    self.fused.setdefault(S0.get_id(), []).append(
                        (S0, X0, z3.substitute(body, (X, e)), f0 + [z3.substitute(f, (X, e)) for f in facts], r))
            elif z3.is_app(body) and body.decl().kind() == z3.Z3_OP_SEQ_UNIT:
                self.images.setdefault(r.get_id(), []).append((r, S, X, body.arg(0), list(facts)))
            return r
        F, P = self.mkfold(kind, X, body, I, facts)
        app = F.uf(*([S] + ([z3.IntVal(0)] if I is not None else []) + P))
        if kind == 'ANY':
            self.fact(z3.Implies(app, S != EMPTY))
        else:
            self.fact(z3.Implies(S == EMPTY, app == EMPTY))
        return app

    def under(self, f):
        return z3.Implies(zand_(self.guards), f) if self.guards else f

    def split_ite(self, c, f, g):
        save = self.guards
        try:
            self.guards = save + [c]
            a = f()
            self.guards = save + [z3.Not(c)]
            return z3.If(c, a, g())
        finally:
            self.guards = save

    def hom(self, kind, t, X, body, facts, extra):
        if t.eq(EMPTY):
            return EMPTY if kind == 'FM' else z3.BoolVal(False)
        if ST.is_concat(t):
            return self.combine(kind, [self.hom(kind, c, X, body, facts, extra) for c in t.children()])
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_SEQ_UNIT:
            for f in facts:
                extra.append(self.under(z3.substitute(f, (X, t.arg(0)))))
            return z3.substitute(body, (X, t.arg(0)))
        if ST.is_ite(t):
            c, a, b = t.children()
            return self.split_ite(c, lambda: self.hom(kind, a, X, body, facts, extra), lambda: self.hom(kind, b, X, body, facts, extra))
        n = len(self.st.facts)
        r = self.fold_app(kind, t, X, body, None, facts)
        return r

    def combine(self, kind, zs):
        if kind == 'FM':
            zs = [z for z in flatcat(zs) if not z.eq(EMPTY)]
            return EMPTY if not zs else zs[0] if len(zs) == 1 else z3.Concat(*zs)
        zs = [z for z in zs if not z3.is_false(z)]
        return z3.BoolVal(False) if not zs else zs[0] if len(zs) == 1 else z3.Or(*zs)

    def fold_gen(self, S, X, syms, inits, steps, I, facts):
        bound = [X] + list(syms) + ([I] if I is not None else [])
        P, Q, B, outs, sub = self.canon(steps, bound)
        key = ('GEN', I is not None, facts.tkey, tuple(o.sexpr() for o in outs))
        G = self.folds.get(key)
        if G is None:
            ufs = []
            nm = 'GEN_%d' % len(self.folds)
            for i, s in enumerate(syms):
                sorts = [SEQ] + [q.sort() for q in syms] + [q.sort() for q in Q] + [s.sort()]
                ufs.append(z3.Function('%s.%d' % (nm, i), *sorts))
            G = GenFold(nm, B[0], B[1:1 + len(syms)], Q, outs, ufs, B[-1] if I is not None else None)
            self.folds[key] = G
            for u in ufs:
                self.fold_by_uf[u.name()] = G
        have = {f.get_id() for f in G.facts}
        for f in self.clean_facts(facts, sub, None):
            if f.get_id() not in have:
                G.facts.append(f)
        res = []
        for i, u in enumerate(G.ufs):
            a = u(*([S] + list(inits) + P))
            self.fact(z3.Implies(S == EMPTY, a == inits[i]))
            res.append(a)
        return res

    def decompose(self, S, X, E, I, facts):
        """S = p ++ [x] ++ rest with E false on p and true at x; the same split is reused for equivalent exits."""
        for (S2, p, x, rest, F2, P2) in self.st.decomp:
            if S2.eq(S):
                F, P = self.mkfold('ANY', X, E, I, facts) if not z3.is_true(E) else (None, None)
                if (F is None and F2 is None) or (F is not None and F2 is F and all(a.eq(b) for a, b in zip(P, P2))):
                    return p, x, rest
                if F is not None and F2 is not None and (F.idx is None) == (F2.idx is None):
                    if self.pointwise(F, P, F2, P2, 'iff', 1):
                        return p, x, rest
        p, rest = self.fresh('pre', SEQ), self.fresh('post', SEQ)
        x = self.fresh('el', Val)
        if z3.is_true(E):
            p = EMPTY
            self.fact(S == z3.Concat(z3.Unit(x), rest))
            self.fact(self.zmem(S, x))
            self.st.decomp.append((S, p, x, rest, None, None))
            return p, x, rest
        self.fact(S == z3.Concat(p, z3.Unit(x), rest))
        self.fact(self.zmem(S, x))
        F, P = self.mkfold('ANY', X, E, I, facts)
        idx = [z3.IntVal(0)] if I is not None else []
        self.fact(z3.Not(F.uf(*([p] + idx + P))))
        for f in F.facts:
            self.fact(z3.substitute(f, *([(F.X, x)] + list(zip(F.P, P)) + ([(F.idx, z3.Length(p))] if F.idx is not None else []))))
        self.st.decomp.append((S, p, x, rest, F, P))
        return p, x, rest

    # ------------------------------------------------------------------ lemmas
    def is_fold_app(self, t):
        return t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name() in self.fold_by_uf

    def fold_args(self, F, t):
        ch = t.children()
        if isinstance(F, GenFold):
            n = len(F.syms)
            return ch[0], ch[1:1 + n], ch[1 + n:]
        return ch[0], None, ch[1 + (1 if F.idx is not None else 0):]

    def inst_facts(self, F, x, P, i=None, accs=None):
        sub = [(F.X, x)] + list(zip(F.P, P))
        if F.idx is not None and i is not None:
            sub.append((F.idx, i))
        if accs is not None:
            sub.extend(zip(F.syms, accs))
        return [z3.substitute(f, *sub) for f in F.facts]

    def pointwise(self, F, P, F2, P2, rel, depth, never=()):
        """For every element: F.body rel F2.body (eq / iff / impl / empty_unless: not F2 => F == []).
        never: (ANY fold, parameters) known to be false of the sequence, so false of each of its elements."""
        if depth > 4:
            return False
        key = (F.name, tuple(p.get_id() for p in P), F2.name, tuple(p.get_id() for p in P2), rel, self.pathkey(),
               tuple((N.name, tuple(p.get_id() for p in Q)) for N, Q in never))
        if key in self.pwcache:
            return self.pwcache[key][0]
        x = self.fresh('x', Val)
        i = self.fresh('i', INT) if F.idx is not None or F2.idx is not None else None
        self.push()
        save = self.st
        self.st = save.copy()
        try:
            for f in self.inst_facts(F, x, P, i) + self.inst_facts(F2, x, P2, i):
                self.fact(f)
            if i is not None:
                self.fact(i >= 0)
            for N, Q in never:
                if N is not F and N is not F2:
                    for f in self.inst_facts(N, x, Q):
                        self.fact(f)
                    self.fact(z3.Not(N.at(x, Q)))
            a, b = F.at(x, P, i=i), F2.at(x, P2, i=i)
            goal = {'eq': lambda: a == b, 'iff': lambda: a == b, 'impl': lambda: z3.Implies(a, b),
                    'empty_unless': lambda: z3.Implies(z3.Not(b), a == EMPTY),
                    'empty_iff': lambda: z3.Not(b) == (a == EMPTY)}[rel]()
            r = self.prove(goal, depth + 1, ms=1500 if depth < 2 else 800)
        finally:
            self.st = save
            self.pop()
        self.pwcache[key] = (r, (P, P2, never, list(self.st.decs), list(self.st.facts)))     # keeps the terms of the key alive
        return r

    def pathkey(self):
        return (tuple(d.get_id() for d in self.st.decs), tuple(d.get_id() for d in self.st.facts), self.scopes[-1][2] if self.scopes else 0)

    def gen_pointwise(self, G, init1, P, G2, init2, P2, depth):
        key = (G.name, G2.name, tuple(z.get_id() for z in list(init1) + list(P) + list(init2) + list(P2)), self.pathkey())
        if key not in self.pwcache:
            # keeps the terms of the key alive
            self.pwcache[key] = (self.gen_pointwise_(G, init1, P, G2, init2, P2, depth), (init1, P, init2, P2, list(self.st.decs), list(self.st.facts)))
        return self.pwcache[key][0]

    def gen_pointwise_(self, G, init1, P, G2, init2, P2, depth):
        if depth > 4 or len(G.syms) != len(G2.syms) or (G.idx is None) != (G2.idx is None):
            return None
        n = len(G.syms)
        import itertools
        for perm in itertools.permutations(range(n)):
            if any(G.syms[i].sort() != G2.syms[perm[i]].sort() for i in range(n)):
                continue
            if not all(init1[i].eq(init2[perm[i]]) or self.must(init1[i] == init2[perm[i]]) for i in range(n)):
                continue
            x = self.fresh('x', Val)
            ii = self.fresh('i', INT)
            acc = [self.fresh('a', s.sort()) for s in G.syms]
            acc2 = [None] * n
            for i in range(n):
                acc2[perm[i]] = acc[i]
            self.push()
            save = self.st
            self.st = save.copy()
            try:
                for f in self.inst_facts(G, x, P, ii, acc) + self.inst_facts(G2, x, P2, ii, acc2):
                    self.fact(f)
                sub1 = [(G.X, x)] + list(zip(G.P, P)) + list(zip(G.syms, acc)) + ([(G.idx, ii)] if G.idx is not None else [])
                sub2 = [(G2.X, x)] + list(zip(G2.P, P2)) + list(zip(G2.syms, acc2)) + ([(G2.idx, ii)] if G2.idx is not None else [])
                ok = True
                for i in range(n):
                    a = z3.substitute(G.steps[i], *sub1)
                    b = z3.substitute(G2.steps[perm[i]], *sub2)
                    if not a.eq(b) and not self.prove(a == b, depth + 1, ms=1500):
                        ok = False
                        break
            finally:
                self.st = save
                self.pop()
            if ok:
                return perm
        return None

    def prove(self, goal, depth=0, ms=None):
        """The goal holds on the current path."""
        g = z3.simplify(goal) if not isinstance(goal, bool) else z3.BoolVal(goal)
        if z3.is_true(g):
            return True
        if z3.is_eq(g) and g.arg(0).decl().eq(g.arg(1).decl()) and g.arg(0).num_args() and self.congruent(g.arg(0), g.arg(1)):
            return True
        first = self.check(z3.Not(g), ms=ms or 2000)
        if first == z3.unsat:
            return True
        if depth == 0 and first == z3.unknown:
            w = written(g)
            if w is not None and self.check(z3.Not(w), ms=8000) == z3.unsat:
                return True
        if z3.is_app(g) and g.decl().kind() == z3.Z3_OP_AND:
            return all(self.prove(c, depth, ms) for c in g.children())
        self.push()
        save = self.st
        self.st = save.copy()
        try:
            added = self.lemmas(g, depth)
            if added:
                if self.check(z3.Not(g), ms=(ms or 2000) * 2) == z3.unsat:
                    return True
                added = self.lemmas(g, depth)
                if added and self.check(z3.Not(g), ms=(ms or 2000) * 2) == z3.unsat:
                    return True
            if depth == 0 or self.cvc_deep:
                if self.cvc5(g):
                    return True
        finally:
            self.st = save
            self.pop()
        return False

    def congruent(self, a, b, limit=6):
        """Terms of the same form, with equal terms (few that differ) in it."""
        seen, diff, todo = set(), {}, [(a, b)]
        while todo:
            x, y = todo.pop()
            if x.eq(y) or (x.get_id(), y.get_id()) in seen:
                continue
            seen.add((x.get_id(), y.get_id()))
            if z3.is_app(x) and z3.is_app(y) and x.decl().eq(y.decl()) and x.num_args() == y.num_args() and x.num_args():
                todo.extend(zip(x.children(), y.children()))
            else:
                if x.sort() != y.sort():
                    return False
                diff[(x.get_id(), y.get_id())] = (x, y)
                if len(diff) > limit:
                    return False
        return all(self.check(x != y, ms=500) == z3.unsat for x, y in diff.values())

    def lemmas(self, g, depth):
        """Add fold lemmas relevant to the goal; returns how many were added."""
        pool = {}
        apps(g, self.is_fold_app, pool)
        outer_decs = [d for s in self.scopes for d in s[0]]
        outer_facts = [d for s in self.scopes for d in s[1]]
        for d in self.st.decs + self.st.facts[-400:] + (outer_decs + outer_facts if depth == 0 else []):
            apps(d, self.is_fold_app, pool)
        items = list(pool.values())
        added = 0

        def add(f):
            nonlocal added
            k = f.get_id()
            if k in self.lemma_seen.get(id(self.st), set()):
                return
            self.lemma_seen.setdefault(id(self.st), set()).add(k)
            self.fact(f)
            derived.append(f)
            added += 1
        derived = []
        self.lemma_seen = {id(self.st): set()}
        # homomorphism over structured or decomposed sequences
        for t in items:
            F = self.fold_by_uf[t.decl().name()]
            if isinstance(F, GenFold):
                continue
            S, _, P = self.fold_args(F, t)
            if F.idx is None:
                if ST.is_concat(S) or ST.is_ite(S) or (z3.is_app(S) and S.decl().kind() == z3.Z3_OP_SEQ_UNIT):
                    sub = list(zip(F.P, P))
                    add(t == self.fold_app(F.kind, S, F.X, z3.substitute(F.body, *sub), None, Facts([z3.substitute(f, *sub) for f in F.facts], F.tkey)))
            for (S2, p, x, rest, F2, P2) in self.st.decomp:
                if S2.eq(S):
                    if F.idx is None:
                        gx = F.at(x, P)
                        for f in self.inst_facts(F, x, P):
                            self.fact(f)
                        parts = ([] if p.eq(EMPTY) else [F.uf(*([p] + P))]) + [gx, F.uf(*([rest] + P))]
                        add(t == self.combine(F.kind, parts))
                        if F.kind == 'FM':
                            add(z3.Implies(rest == EMPTY, F.uf(*([rest] + P)) == EMPTY))
                    else:
                        start = t.children()[1]
                        gx = F.at(x, P, i=start + z3.Length(p))
                        for f in self.inst_facts(F, x, P, start + z3.Length(p)):
                            self.fact(f)
                        parts = ([] if p.eq(EMPTY) else [F.uf(*([p, start] + P))]) + [gx, F.uf(*([rest, start + z3.Length(p) + 1] + P))]
                        add(t == self.combine(F.kind, parts))
        pool = {}
        apps(g, self.is_fold_app, pool)
        if depth == 0:
            for d in derived:
                apps(d, self.is_fold_app, pool)
        near = dict(pool)              # a pair is tried when one of the two is in the goal (at the top: or decides the path)
        if depth == 0:
            for d in self.st.decs + outer_decs:
                apps(d, self.is_fold_app, near)
        for d in (self.st.decs + self.st.facts[-600:] + outer_decs + outer_facts if depth == 0 else ()):
            apps(d, self.is_fold_app, pool)
        items = list(pool.values())
        gitems = apps(g, self.is_fold_app)
        nevers = {}

        def never(S):
            if S.get_id() not in nevers:
                out = []
                for t in items:
                    F = self.fold_by_uf[t.decl().name()]
                    if not isinstance(F, GenFold) and F.kind == 'ANY' and F.idx is None and t.arg(0).eq(S) and self.must(z3.Not(t)):
                        out.append((F, self.fold_args(F, t)[2]))
                nevers[S.get_id()] = (S, out)
            return nevers[S.get_id()][1]
        pairs = [(t, u) for i, t in enumerate(items) for j, u in enumerate(items) if i != j
                 and ((t.get_id() in near and u.get_id() in near) if depth else (t.get_id() in near or u.get_id() in near))]
        order = {t.get_id(): i for i, t in enumerate(items)}
        pairs.sort(key=lambda p: (p[0].get_id() not in gitems) + (p[1].get_id() not in gitems))
        ngoal = sum(1 for p in pairs if p[0].get_id() in gitems and p[1].get_id() in gitems)
        for k, (t, u) in enumerate(pairs):
            if k == ngoal and added and not z3.is_false(g) and self.check(z3.Not(g), ms=1000) == z3.unsat:
                return added
            first = order[t.get_id()] < order[u.get_id()]
            F, G = self.fold_by_uf[t.decl().name()], self.fold_by_uf[u.decl().name()]
            if isinstance(F, GenFold) or isinstance(G, GenFold):
                if isinstance(F, GenFold) and isinstance(G, GenFold) and first:
                    S1, i1, P1 = self.fold_args(F, t)
                    S2, i2, P2 = self.fold_args(G, u)
                    if (S1.eq(S2) or self.must(S1 == S2)):
                        perm = self.gen_pointwise(F, i1, P1, G, i2, P2, depth + 1)
                        if perm is not None:
                            for i in range(len(F.ufs)):
                                add(F.ufs[i](*([S1] + i1 + P1)) == G.ufs[perm[i]](*([S2] + i2 + P2)))
                continue
            S1, _, P1 = self.fold_args(F, t)
            S2, _, P2 = self.fold_args(G, u)
            if (F.idx is None) != (G.idx is None):
                continue
            if not (S1.eq(S2) or (t.get_id() in gitems and self.must(S1 == S2))):
                continue
            if F.kind == G.kind and first:
                if F is G and all(x.eq(y) for x, y in zip(P1, P2)):
                    continue
                nv = never(S1)
                if self.pointwise(F, P1, G, P2, 'eq', depth + 1, nv):
                    add(t == u)
                elif F.kind == 'ANY':
                    if self.pointwise(F, P1, G, P2, 'impl', depth + 1, nv):
                        add(z3.Implies(t, u))
                    elif self.pointwise(G, P2, F, P1, 'impl', depth + 1, nv):
                        add(z3.Implies(u, t))
            elif F.kind == 'FM' and G.kind == 'ANY':
                nv = never(S1)
                if self.pointwise(F, P1, G, P2, 'empty_unless', depth + 1, nv):
                    add(z3.Implies(z3.Not(u), t == EMPTY))
                    if self.pointwise(F, P1, G, P2, 'empty_iff', depth + 1, nv):
                        add((t == EMPTY) == z3.Not(u))
        return added

    def cvc5(self, g):
        import subprocess
        import time
        if not self.use_cvc5:
            return False
        s = z3.Solver()
        s.add(self.solver.assertions())
        s.add(z3.Not(g))
        txt = '(set-logic ALL)\n' + s.to_smt2()
        txt = txt.replace('(check-sat)', '') + '\n(check-sat)\n'
        t = time.time()
        try:
            r = subprocess.run(['cvc5', '--strings-exp', '--tlimit=%d' % self.cvc_ms, '--lang=smt2', '-q'], input=txt,
                               capture_output=True, text=True, timeout=self.cvc_ms / 1000 + 5)
            out = r.stdout.strip().splitlines()
        except (subprocess.TimeoutExpired, OSError):
            out = []
        self.cvc_queries += 1
        self.cvc_time += time.time() - t
        if out and out[-1] == 'unsat':
            self.cvc_unsat += 1
            return True
        return False


def zand_(cs):
    return cs[0] if len(cs) == 1 else z3.And(*cs)


def unlist(z):
    return z.arg(0) if z3.is_app(z) and z.decl().eq(Val.VList) else Val.vl(z)


def is_str(v):
    return isinstance(v, Str) or (isinstance(v, PyC) and isinstance(v.v, str))


def same_sv(a, b):
    if a is None or b is None:
        return False
    if isinstance(a, PyC) and isinstance(b, PyC):
        return type(a.v) is type(b.v) and a.v == b.v
    if type(a) is type(b) and isinstance(a, (Str, Int, Bool, ValS)):
        return a.z.eq(b.z)
    if isinstance(a, Obj) and isinstance(b, Obj):
        return a.z.eq(b.z)
    if isinstance(a, Loc) and isinstance(b, Loc):
        return loc_same(a, b)
    if isinstance(a, FuncV) and isinstance(b, FuncV):
        return a.fi.node is b.fi.node and a.fid == b.fid
    if isinstance(a, (ExtV, ModV)) and isinstance(b, (ExtV, ModV)):
        return a.name == b.name
    if isinstance(a, ClassV) and isinstance(b, ClassV):
        return a.ci is b.ci
    return False


def sname(s):
    return s.sexpr().replace(' ', '_').replace('(', '').replace(')', '')
