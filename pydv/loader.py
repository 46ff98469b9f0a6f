"""Loads the modules of /repo from their current source, with a mechanical AST transform and with
numpy / shapely / scipy / matplotlib / time replaced by shims.

The transform (all of it; nothing else of the source changes, and nothing is dropped):
  1. every def gets the innermost decorator  _rt_.fn('<module>.<qualname>')        (contract dispatch)
  2. a / b, a ** b, a /= b  ->  _rt_.div(a, b), _rt_.pow(a, b), a = _rt_.idiv(a, b)   (definedness)
  3. for / while loops get a cut point  _rt_.floop / _rt_.wloop                     (loop invariants)
  4. comprehensions over ITER -> _rt_.comp(...), _rt_.dcomp(_rt_.comp(...)), generator expressions -> _rt_.gen(...)
                                                                                    (symbolic lengths)
  5. list(x), set(x), sorted(x), tuple(x)  ->  _rt_.conv(list, x) ...               (symbolic lengths)
"""
import ast
import builtins
import os
import sys
import types

REPO = os.environ.get('VERIF_REPO', '/repo')


def _assigned(nodes):
    """Names (re)bound by the statements, and roots of objects they visibly mutate."""
    names, roots = set(), set()

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                names.add(n.id)

        def _root(self, n):
            while isinstance(n, (ast.Attribute, ast.Subscript)):
                n = n.value
            if isinstance(n, ast.Name):
                roots.add(n.id)

        def visit_Attribute(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                self._root(n)
            self.generic_visit(n)

        def visit_Subscript(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                self._root(n)
            self.generic_visit(n)

        def visit_Call(self, n):
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'append', 'extend', 'insert', 'pop', 'remove', 'clear', 'add', 'update', 'sort', 'reverse',
                    'discard', 'setdefault', 'popitem'):
                self._root(n.func.value)
            self.generic_visit(n)

        def visit_FunctionDef(self, n):
            names.add(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp
    v = V()
    for s in nodes:
        v.visit(s)
    return names, roots


class Xform(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.loops = [0]
        self.n = 0

    def _rt(self, attr, args, keywords=()):
        return ast.Call(ast.Attribute(ast.Name('_rt_', ast.Load()), attr, ast.Load()), args, list(keywords))

    # -- functions
    def visit_FunctionDef(self, n):
        qual = '.'.join([self.mod] + self.stack + [n.name])
        self.stack.append(n.name)
        self.loops.append(0)
        nested = len(self.stack) > 1 and getattr(self, 'infunc', 0)
        self.infunc = getattr(self, 'infunc', 0) + 1
        a = n.args
        params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [v for v in (a.vararg, a.kwarg) if v]}
        self.locals_stack = getattr(self, 'locals_stack', []) + [params | _assigned(n.body)[0]]
        outer = getattr(self, 'qual', None)
        self.qual = qual
        self.generic_visit(n)
        self.qual = outer
        self.locals_stack = self.locals_stack[:-1]
        self.infunc -= 1
        self.loops.pop()
        self.stack.pop()
        if not nested:
            n.decorator_list = n.decorator_list + [self._rt('fn', [ast.Constant(qual)])]
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()
        return n

    # -- arithmetic
    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return self._rt('div', [n.left, n.right])
        if isinstance(n.op, ast.Pow):
            return self._rt('pow', [n.left, n.right])
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id in ('list', 'set', 'sorted', 'tuple') and len(n.args) == 1 and not n.keywords \
                and not isinstance(n.args[0], ast.Starred):
            return self._rt('conv', [n.func, n.args[0]])
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div) and isinstance(n.target, ast.Name):
            return ast.Assign([n.target], self._rt('idiv', [ast.Name(n.target.id, ast.Load()), n.value]))
        return n

    # -- loops
    def visit_For(self, n):
        k = self.loops[-1]
        self.loops[-1] += 1
        self.generic_visit(n)
        if getattr(self, 'infunc', 0) == 0:
            return n
        self.n += 1
        it = '_it%d_' % self.n
        names, roots = _assigned(n.body + [ast.Expr(ast.Constant(0))])
        tnames, _ = _assigned([ast.Assign([n.target], ast.Constant(0))])
        hv = sorted((names | roots & self.locals_stack[-1]) - {x for x in names if x.startswith('_it') and x.endswith('_')})
        pre = ast.Assign([ast.Name(it, ast.Store())], self._rt('floop', [
            ast.Constant(self.qual), ast.Constant(k), n.iter,
            ast.Call(ast.Name('locals', ast.Load()), [], []),
            ast.Constant(tuple(hv)), ast.Constant(tuple(sorted(roots))), ast.Constant(tuple(sorted(tnames)))]))
        out = [pre]
        if hv:
            body = []
            for v in hv:
                body.append(ast.Assign([ast.Name(v, ast.Store())],
                                       ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'h', ast.Load()),
                                                [ast.Constant(v)], [])))
            out.append(ast.If(ast.Attribute(ast.Name(it, ast.Load()), 'cut', ast.Load()), body, []))
        n.iter = ast.Name(it, ast.Load())
        out.append(n)
        return out

    def visit_While(self, n):
        k = self.loops[-1]
        self.loops[-1] += 1
        self.generic_visit(n)
        if getattr(self, 'infunc', 0) == 0:
            return n
        self.n += 1
        it = '_it%d_' % self.n
        names, roots = _assigned(n.body + [ast.Expr(n.test)])
        hv = sorted((names | roots & self.locals_stack[-1]) - {x for x in names if x.startswith('_it') and x.endswith('_')})
        pre = ast.Assign([ast.Name(it, ast.Store())], self._rt('wloop', [
            ast.Constant(self.qual), ast.Constant(k), ast.Call(ast.Name('locals', ast.Load()), [], []),
            ast.Constant(tuple(hv)), ast.Constant(tuple(sorted(roots)))]))
        out = [pre]
        if hv:
            body = [ast.Assign([ast.Name(v, ast.Store())],
                               ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'h', ast.Load()),
                                        [ast.Constant(v)], [])) for v in hv]
            out.append(ast.If(ast.Attribute(ast.Name(it, ast.Load()), 'cut', ast.Load()), body, []))
        n.test = ast.BoolOp(ast.And(), [ast.Call(ast.Attribute(ast.Name(it, ast.Load()), 'step', ast.Load()), [], []),
                                        n.test])
        out.append(n)
        return out

    # -- comprehensions with one generator: [E for T in ITER if C]
    def visit_ListComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            arg = '_ci_'
            inner = ast.ListComp(n.elt, [ast.comprehension(g.target, ast.Name(arg, ast.Load()), g.ifs, 0)])
            lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), inner)
            return self._rt('comp', [g.iter, lam, ast.Constant(bool(g.ifs))])
        if len(n.generators) == 2 and not any(g.is_async for g in n.generators):     # one list per outer item, then joined
            a, b = n.generators
            inner = self.visit_ListComp1(ast.ListComp(n.elt, [b]))
            return self._rt('flat', [self.visit_ListComp1(ast.ListComp(inner, [a]))])
        return n

    def visit_ListComp1(self, n):
        g = n.generators[0]
        arg = '_ci_'
        inner = ast.ListComp(n.elt, [ast.comprehension(g.target, ast.Name(arg, ast.Load()), g.ifs, 0)])
        lam = ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), inner)
        return self._rt('comp', [g.iter, lam, ast.Constant(bool(g.ifs))])

    def visit_DictComp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async:
            pair = ast.Tuple([n.key, n.value], ast.Load())
            return self._rt('dcomp', [self.visit_ListComp1(ast.ListComp(pair, n.generators))])
        return n

    def visit_GeneratorExp(self, n):
        # lazy over a sequence of known length; over one of symbolic length as the list of the same elements
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].is_async:
            g = n.generators[0]
            arg = '_ci_'
            lam = lambda make: ast.Lambda(ast.arguments([], [ast.arg(arg)], None, [], [], None, []), make(
                n.elt, [ast.comprehension(g.target, ast.Name(arg, ast.Load()), g.ifs, 0)]))
            return self._rt('gen', [g.iter, lam(ast.GeneratorExp), lam(ast.ListComp), ast.Constant(bool(g.ifs))])
        return n


class Shims:
    """name -> module object"""
    def __init__(self, table):
        self.table = table


_code_cache = {}


def _transformed(path, modname):
    st = os.stat(path)
    key = (path, modname, st.st_mtime_ns, st.st_size)
    if key not in _code_cache:
        with open(path) as f:
            src = f.read()
        tree = ast.parse(src)
        tree = Xform(modname).visit(tree)
        ast.fix_missing_locations(tree)
        _code_cache[key] = compile(tree, '<repo>/' + os.path.relpath(path, REPO), 'exec')
    return _code_cache[key]


class Loader:
    def __init__(self, rt, shims, repo=REPO, extra_builtins=None):
        self.rt, self.shims, self.repo = rt, shims, repo
        self.mods = {}
        b = dict(vars(builtins))
        b['__import__'] = self._import
        b.update(extra_builtins or {})
        self.builtins = b
        self.loaded_files = []

    def _find(self, name):
        rel = name.replace('.', '/')
        p = os.path.join(self.repo, rel, '__init__.py')
        if os.path.isfile(p):
            return p, True
        p = os.path.join(self.repo, rel + '.py')
        if os.path.isfile(p):
            return p, False
        d = os.path.join(self.repo, rel)
        if os.path.isdir(d) and any(f.endswith('.py') for f in os.listdir(d)):
            return d, None                    # namespace package
        return None, None

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.shims:
            return self.shims[name]
        path, ispkg = self._find(name)
        if path is None:
            __import__(name)
            return sys.modules[name]
        parent = None
        if '.' in name:
            parent = self.load(name.rpartition('.')[0])
            if name in self.mods:
                return self.mods[name]
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if ispkg or ispkg is None else name.rpartition('.')[0]
        if ispkg or ispkg is None:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = self.builtins
        m.__dict__['_rt_'] = self.rt
        self.mods[name] = m
        if ispkg is not None:
            self.loaded_files.append(path)
            try:
                exec(_transformed(path, name), m.__dict__)
            except BaseException:
                del self.mods[name]
                raise
        m.__dict__.setdefault('__all__', [k for k in m.__dict__ if not k.startswith('_')])
        del m.__dict__['__all__']
        if parent is not None:
            setattr(parent, name.rpartition('.')[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get('__package__') or ''
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + '.' + name if name else pkg
        root = name.split('.')[0]
        known = root in self.mods or root in self.shims or self._find(root)[0]
        if not known:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        parts = name.split('.')
        m = None
        for i in range(len(parts)):
            m = self.load('.'.join(parts[:i + 1]))
        if not fromlist:
            return self.load(root)
        for f in fromlist:
            if f != '*' and not hasattr(m, f):
                full = name + '.' + f
                if full in self.shims or self._find(full)[0]:
                    sub = self.load(full)
                    if not hasattr(m, f):
                        setattr(m, f, sub)
        return m
