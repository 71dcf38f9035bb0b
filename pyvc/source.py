"""Mechanical extraction of the functions under contract from /repo's current source.

Nothing is rewritten: each function is the `ast.FunctionDef` found in the current file, addressed by
'module:Class.method' (a property getter is addressed by its name, its setter by 'name.setter').
What extraction drops: comments, docstrings and type annotations.  A function with a decorator other
than property/setter/classmethod/staticmethod (a cache, say), or in a class or module whose body does more than define names,
is left undecided.
"""
import ast
import copy
import warnings
import os


class FuncInfo:
    __slots__ = ('module', 'qual', 'node', 'cls', 'kind', 'closure', 'is_gen', 'spec')

    def __init__(self, module, qual, node, cls=None, kind='function', closure=None):
        self.module, self.qual, self.node, self.cls, self.kind, self.closure = module, qual, node, cls, kind, closure
        self.is_gen = has_yield(node)
        self.spec = module.is_spec

    @property
    def key(self):
        return self.module.name + ':' + self.qual

    def __repr__(self):
        return '<F %s>' % self.key


class ClassInfo:
    def __init__(self, module, node):
        self.module, self.node, self.name = module, node, node.name
        self.methods, self.getters, self.setters, self.attrs = {}, {}, {}, {}
        self.bases = []
        self.odd = False
        for b in node.bases:
            if isinstance(b, ast.Name):
                self.bases.append(b.id)
            elif isinstance(b, ast.Attribute):
                self.bases.append(b.attr)
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                kind = 'method'
                setter = decorated = False
                for d in n.decorator_list:
                    dn = d.func if isinstance(d, ast.Call) else d
                    if isinstance(dn, ast.Name) and dn.id == 'property':
                        kind = 'property'
                    elif isinstance(dn, ast.Name) and dn.id in ('classmethod', 'staticmethod'):
                        kind = dn.id
                    elif isinstance(dn, ast.Attribute) and dn.attr == 'setter':
                        setter = True
                    else:
                        decorated = True
                if decorated and kind != 'property':
                    kind = 'decorated'
                if setter:
                    self.setters[n.name] = FuncInfo(module, '%s.%s.setter' % (node.name, n.name), n, self, 'method')
                elif kind == 'property':
                    self.getters[n.name] = FuncInfo(module, '%s.%s' % (node.name, n.name), n, self, 'decorated' if decorated else 'property')
                else:
                    self.methods[n.name] = FuncInfo(module, '%s.%s' % (node.name, n.name), n, self, kind)
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.attrs[n.targets[0].id] = n.value
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.attrs[n.target.id] = n.value
            elif not plain(n):
                self.odd = True
        if node.decorator_list or node.keywords:
            self.odd = True


def plain(n):
    """A statement of a class or module body that defines nothing this reader would miss."""
    return isinstance(n, ast.Pass) or isinstance(n, ast.Expr) and (isinstance(n.value, (ast.Constant, ast.Name)) or isinstance(n.value, ast.Call) and not (
        isinstance(n.value.func, ast.Name) and n.value.func.id in ('setattr', 'exec', 'eval', 'delattr')))


def has_yield(node):
    todo = list(node.body) if not isinstance(node, ast.Lambda) else [node.body]
    while todo:
        n = todo.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


class Module:
    def __init__(self, name, path, text, is_spec=False):
        self.name, self.path, self.is_spec = name, path, is_spec
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.tree = ast.parse(text, path)
        self.ns = {}
        self.odd = False
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                self.ns[n.name] = ('func', FuncInfo(self, n.name, n, None, 'decorated' if n.decorator_list else 'function'))
            elif isinstance(n, ast.ClassDef):
                self.ns[n.name] = ('class', ClassInfo(self, n))
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                self.ns[n.targets[0].id] = ('const', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                self.ns[n.target.id] = ('const', n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.ns[a.asname or a.name.split('.')[0]] = ('module', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for nm, ent in import_from(self, n):
                    self.ns[nm] = ent
            elif isinstance(n, (ast.Try,)):
                self._scan(n.body)
                if any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for h in n.handlers for x in h.body):
                    self.odd = True
            elif isinstance(n, ast.If):
                self._scan(n.body)
                self._scan(n.orelse)
                if any(isinstance(x, (ast.FunctionDef, ast.ClassDef)) for x in n.body + n.orelse):
                    self.odd = True
            elif isinstance(n, (ast.Assign, ast.AugAssign)) and all(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) for t in (
                    n.targets if isinstance(n, ast.Assign) else [n.target])):
                pass            # found by mutated()
            elif not plain(n):
                self.odd = True


MUTATORS = {'append', 'extend', 'insert', 'add', 'update', 'setdefault', 'pop', 'popitem', 'remove', 'discard', 'clear', 'sort', 'reverse'}


def mutated(tree):
    """Names (of variables or attributes) whose containers are changed somewhere in the module, or that are rebound as globals."""
    out = set()

    def base(t):
        if isinstance(t, ast.Name):
            out.add(t.id)
        elif isinstance(t, ast.Attribute):
            out.add(t.attr)
    for n in ast.walk(tree):
        if isinstance(n, ast.Subscript) and not isinstance(n.ctx, ast.Load):
            base(n.value)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            base(n.func.value)
        elif isinstance(n, ast.AugAssign):
            base(n.target)
        elif isinstance(n, ast.Global):
            out.update(n.names)
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
            out.add(n.attr)
    return out


def import_from(module, n):
    base = n.module or ''
    if n.level:
        pkg = module.name.split('.')
        if not module.path.endswith('__init__.py'):
            pkg = pkg[:-1]
        pkg = pkg[:len(pkg) - (n.level - 1)]
        base = '.'.join(pkg + ([n.module] if n.module else []))
    return [(a.asname or a.name, ('from', base, a.name)) for a in n.names]


def loop_body(node, names):
    """The body of the first `for` loop of a generator over the variable names[0], as a function of the variables `names` and of self: it returns
    what it yields, and then the value that each of the names other than the loop's own has when the iteration ends. None unless
    the loop is one that `names` describes: all that it takes from the function around it is named, and it never leaves the loop by itself."""
    params = [a.arg for a in node.args.args]
    names = [n for n in names if n not in params[:1]]

    def find(body):
        for n in body:
            if isinstance(n, ast.For) and any(isinstance(x, ast.Name) and x.id == names[0] for x in ast.walk(n.target)):
                return n
            if not isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for f in ('body', 'handlers', 'orelse', 'finalbody'):
                    r = find(getattr(n, f, None) or [])
                    if r:
                        return r
    loop = find(node.body)
    if loop is None or loop.orelse:
        return None
    own = [x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)]
    for x in ast.walk(ast.Module(loop.body, [])):
        if isinstance(x, (ast.Global, ast.Nonlocal, ast.ClassDef, ast.YieldFrom, ast.AsyncFor, ast.While)):
            return None
    scan = Loads()
    scan.block(loop.body)
    local = params + [x.id for x in ast.walk(node) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)]
    if not (scan.names & set(local)) - set(params[:1]) <= set(names):
        return None
    keep = [n for n in names if n not in own]
    body = [Once(keep).visit(x) for x in copy.deepcopy(loop.body)]
    f = ast.FunctionDef(name=node.name + '@loop', args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in params[:1] + names],
                        kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.parse('__out = []').body + body + [Once(keep).leave()], decorator_list=[])
    if has_yield(f):
        return None
    return ast.fix_missing_locations(ast.copy_location(f, loop))


class Loads(ast.NodeVisitor):
    """Names that are read before they are set; those bound by a comprehension or a function inside aside."""
    def __init__(self):
        self.names, self.bound = set(), []

    def block(self, body, given=()):
        """Statements in order: what one sets is known to the ones after it, in this block and those inside. Returns what it sets for sure."""
        self.bound.append(set(given))
        for n in body:
            sets = set()
            if isinstance(n, ast.If):
                self.visit(n.test)
                a, b = self.block(n.body), self.block(n.orelse)
                sets = a & b
            elif isinstance(n, ast.For):
                self.visit(n.iter)
                self.block(n.body, {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)})
                self.block(n.orelse)
            elif isinstance(n, ast.Try):
                self.block(n.body)
                for h in n.handlers:
                    self.block(h.body, {h.name})
                self.block(n.orelse)
                self.block(n.finalbody)
            elif isinstance(n, ast.Assign):
                self.visit(n.value)
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        sets.add(t.id)
                    elif isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts):
                        sets |= {x.id for x in t.elts}
                    else:
                        self.visit(t)
            else:
                self.visit(n)
                if isinstance(n, ast.FunctionDef):
                    sets.add(n.name)
            self.bound[-1] |= sets
        return self.bound.pop()

    def visit_Name(self, n):
        if not isinstance(n.ctx, ast.Store) and not any(n.id in b for b in self.bound):
            self.names.add(n.id)

    def comp(self, n):
        self.bound.append({y.id for g in n.generators for y in ast.walk(g.target) if isinstance(y, ast.Name)})
        for i, g in enumerate(n.generators):
            if i == 0:
                b = self.bound.pop()
                self.visit(g.iter)
                self.bound.append(b)
            else:
                self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for f in ('elt', 'key', 'value'):
            if getattr(n, f, None) is not None:
                self.visit(getattr(n, f))
        self.bound.pop()
    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = comp

    def visit_FunctionDef(self, n):
        self.bound.append({a.arg for a in n.args.args} | {y.id for x in n.body for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)})
        for x in n.body:
            self.visit(x)
        self.bound.pop()


class Once(ast.NodeTransformer):
    """One iteration as a function: yield X is an append to the output, continue a return of the output and the variables."""
    def __init__(self, keep):
        self.keep, self.depth = keep, 0

    def leave(self):
        return ast.parse('def f():\n    return (%s,)' % ', '.join(['__out'] + self.keep)).body[0].body[0]

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield) and n.value.value is not None:
            return ast.copy_location(ast.Expr(ast.Call(ast.Attribute(ast.Name('__out', ast.Load()), 'append', ast.Load()), [n.value.value], [])), n)
        return n

    def visit_Continue(self, n):
        return n if self.depth else ast.copy_location(self.leave(), n)

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    def visit_Break(self, n):
        return n if self.depth else ast.Expr(ast.Yield(None))     # leaves the loop: not described

    def visit_Return(self, n):
        return ast.Expr(ast.Yield(None))

    def visit_FunctionDef(self, n):
        return n


class Repo:
    """All modules of the package, parsed from the current working tree, plus spec modules."""

    def __init__(self, root, pkg='metatab'):
        self.root, self.pkg = root, pkg
        self.modules = {}
        d = os.path.join(root, pkg)
        for fn in sorted(os.listdir(d)):
            if fn.endswith('.py'):
                name = pkg if fn == '__init__.py' else pkg + '.' + fn[:-3]
                p = os.path.join(d, fn)
                with open(p, encoding='utf8') as f:
                    self.modules[name] = Module(name, p, f.read())
        self.mutated = set()
        for m in self.modules.values():
            self.mutated |= mutated(m.tree)
        self.odd = [m.name for m in self.modules.values() if m.odd or any(e[0] == 'class' and e[1].odd for e in m.ns.values())]
        self.classes = {}
        for m in self.modules.values():
            for k, (t, *r) in list(m.ns.items()):
                if t == 'class':
                    self.classes.setdefault(k, r[0])

    def add_spec(self, name, path):
        with open(path, encoding='utf8') as f:
            self.modules[name] = m = Module(name, path, f.read(), is_spec=True)
        for k, (t, *r) in list(m.ns.items()):
            if t == 'class':
                self.classes.setdefault(k, r[0])

    def resolve(self, modname, attr, depth=0):
        """Find a name defined in (or re-exported by) a package module. None when external."""
        m = self.modules.get(modname)
        if m is None or depth > 8:
            return None
        ent = m.ns.get(attr)
        if ent is None:
            if modname + '.' + attr in self.modules:
                return ('module', modname + '.' + attr)
            for n in m.tree.body:
                if isinstance(n, ast.ImportFrom) and any(a.name == '*' for a in n.names):
                    (_, (_, base, _)), = import_from(m, n)[:1]
                    r = self.resolve(base, attr, depth + 1)
                    if r:
                        return r
            return None
        if ent[0] == 'from':
            r = self.resolve(ent[1], ent[2], depth + 1)
            return r or ('ext', ent[1] + '.' + ent[2])
        if ent[0] == 'const':
            return ('const', ent[1], m)
        return ent

    def func(self, key, names=()):
        """FuncInfo for 'module:Class.method' or None when the current tree has no such function; '...@loop' is the body of its first loop."""
        if key.endswith('@loop'):
            fi = self.func(key[:-5])
            node = fi and loop_body(fi.node, list(names))
            return node and FuncInfo(fi.module, fi.qual + '@loop', node, fi.cls, fi.kind, fi.closure)
        mod, qual = key.split(':')
        m = self.modules.get(mod)
        if m is None:
            return None
        parts = qual.split('.')
        ent = m.ns.get(parts[0])
        if ent is None:
            return None
        if len(parts) == 1:
            return ent[1] if ent[0] == 'func' else None
        if ent[0] == 'func' and len(parts) == 2:       # a function defined in a function (what it takes from there is not known to its contract)
            for n in ent[1].node.body:
                for d in ast.walk(n):
                    if isinstance(d, ast.FunctionDef) and d.name == parts[1] and not d.decorator_list:
                        return FuncInfo(m, qual, d)
            return None
        if ent[0] != 'class':
            return None
        c = ent[1]
        if len(parts) == 3 and parts[2] == 'setter':
            return c.setters.get(parts[1])
        return c.methods.get(parts[1]) or c.getters.get(parts[1])

    def mro(self, cname):
        out, todo = [], [cname]
        while todo:
            c = todo.pop(0)
            ci = self.classes.get(c)
            if ci is None or ci in out:
                continue
            out.append(ci)
            todo = list(ci.bases) + todo
        return out

    def subclasses(self, cname):
        return [c for c in self.classes if any(x.name == cname for x in self.mro(c))]

    def lookup(self, cname, attr):
        """(kind, info) for attribute `attr` on class `cname` through the MRO."""
        for ci in self.mro(cname):
            if attr in ci.methods:
                return ('method', ci.methods[attr])
            if attr in ci.getters:
                return ('property', ci.getters[attr])
            if attr in ci.attrs:
                return ('attr', ci.attrs[attr], ci)
        return None

    def lookup_setter(self, cname, attr):
        for ci in self.mro(cname):
            if attr in ci.setters:
                return ci.setters[attr]
            if attr in ci.getters:
                return None
        return None
