"""Mechanical extraction: loads the real modules of /repo/raytracing, read from the working tree on every run.

The source is parsed, rewritten as follows, compiled and executed by CPython.  Nothing of the
program text is dropped; the rewriting only routes to the engine what symbolic values cannot do natively:
  * for/while loops inside functions go through a loop object (unbounded sequences -> invariant reasoning),
  * comprehensions / generator expressions call an engine helper that loops the same way,
  * list displays build engine lists, `is` and `in` go through engine helpers,
  * a bare `except:` becomes `except Exception:` (engine control flow is not catchable),
  * builtins and numeric modules (math, cmath, numpy, ...) are replaced by symbolic-aware versions.
"""
import ast, sys, types, importlib.abc, importlib.machinery, os, builtins

REPO = os.environ.get('RTV_REPO', '/repo')


def pure(t):
    """a test on variables alone"""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.UnaryOp, ast.Not, ast.Compare, ast.cmpop, ast.BoolOp, ast.boolop, ast.Load)) for x in ast.walk(t))

def early(body, i):
    """`..; i += 1; rest` -> `..; rest with i + 1 in place of i; i += 1`"""
    import copy
    at = [j for j, s in enumerate(body) if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i
          and isinstance(s.value, ast.Constant) and type(s.value.value) is int and s.value.value == 1]
    if len(at) != 1 or at[0] == len(body) - 1: return body
    j = at[0]
    rest = body[j + 1:]
    for x in (y for s in rest for y in ast.walk(s)):
        if isinstance(x, (ast.Break, ast.Continue, ast.FunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp, ast.Try)): return body
        if isinstance(x, ast.Name) and x.id == i and not isinstance(x.ctx, ast.Load): return body
        if isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec'): return body
    class Next(ast.NodeTransformer):
        def visit_Name(self, x):
            return ast.copy_location(ast.BinOp(x, ast.Add(), ast.copy_location(ast.Constant(1), x)), x) if x.id == i else x
    return body[:j] + [Next().visit(copy.deepcopy(s)) for s in rest] + [body[j]]

def assigned_names(nodes):
    """names (re)bound by these statements, not descending into nested scopes"""
    out = []
    def add(n):
        if n not in out: out.append(n)
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): add(n.id)
        def visit_FunctionDef(self, n): add(n.name)
        def visit_AsyncFunctionDef(self, n): add(n.name)
        def visit_ClassDef(self, n): add(n.name)
        def visit_Lambda(self, n): pass
        def _comp(self, n):
            for g in n.generators: self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp
        def visit_Import(self, n):
            for a in n.names: add((a.asname or a.name).split('.')[0])
        visit_ImportFrom = visit_Import
        def visit_ExceptHandler(self, n):
            if n.name: add(n.name)
            self.generic_visit(n)
    v = V()
    for n in nodes: v.visit(n)
    return [n for n in out if not n.startswith('rtv_')]


def N(id, ctx=None): return ast.Name(id, ctx or ast.Load())
def call(f, *args): return ast.Call(func=ast.Attribute(N('__rtv__'), f, ast.Load()), args=list(args), keywords=[])
def const(v): return ast.Constant(v)


class Tr(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.infunc = 0
        self.scope = []
        self.n = 0

    def site(self, node):
        self.n += 1
        return "%s:%s:%d" % (self.mod, '.'.join(self.scope), self.n)

    def visit_FunctionDef(self, n):
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        self.visit(n.args)
        self.scope.append(n.name); self.infunc += 1
        n.body = self.stmts(n.body)
        self.infunc -= 1; self.scope.pop()
        return n
    visit_AsyncFunctionDef = visit_FunctionDef
    def visit_ClassDef(self, n):
        self.scope.append(n.name)
        saved, self.infunc = self.infunc, 0
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.body = self.stmts(n.body)
        self.infunc = saved
        self.scope.pop()
        return n

    def stmts(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            if r is None: continue
            if isinstance(r, list): out.extend(r)
            else: out.append(r)
        return out

    def visit_ExceptHandler(self, n):
        if n.type is None: n.type = N('Exception')
        self.generic_visit(n)
        return n

    def _havoc(self, var, names):
        body = []
        for v in names:
            body.append(ast.Try(body=[ast.Assign([N(v, ast.Store())], ast.Call(ast.Attribute(N(var), 'hv', ast.Load()), [const(v), N(v)], []))],
                handlers=[ast.ExceptHandler(type=N('NameError'), name=None,
                    body=[ast.Assign([N(v, ast.Store())], ast.Call(ast.Attribute(N(var), 'hu', ast.Load()), [const(v)], [])),
                          ast.If(ast.Call(ast.Attribute(N(var), 'unbound', ast.Load()), [const(v)], []),
                                 [ast.Delete([N(v, ast.Del())])], [])])],
                orelse=[], finalbody=[]))
        return body

    def visit_For(self, n):
        if not self.infunc:
            self.generic_visit(n); return n
        if self.appends(n) and not getattr(n, 'rtv_plain', False):
            import copy
            self.n += 1
            var = 'rtv_a%d_' % self.n
            plain = copy.deepcopy(n); plain.rtv_plain = True
            plain.iter = N(var)
            lst = lambda: copy.deepcopy(n.body[0].value.func.value)
            return [ast.Assign([N(var, ast.Store())], self.visit(n.iter)),
                    ast.If(call('extends', self.visit(lst()), N(var)),
                           self.stmts([ast.Expr(ast.Call(ast.Attribute(lst(), 'extend', ast.Load()), [N(var)], []))]), self.visit_For(plain))]
        site = self.site(n)
        names = assigned_names(n.body)
        tnames = assigned_names([n.target])
        it = self.visit(n.iter)
        num = self.n
        body = self.stmts(n.body); orelse = self.stmts(n.orelse)
        target = self.visit(n.target)
        var = 'rtv_L%d_' % num
        import copy
        # the sequence is walked piece by piece: known elements natively, each abstract segment by induction
        pre = [ast.If(ast.Attribute(N(var), 'sym', ast.Load()),
            [ast.Expr(ast.Call(ast.Attribute(N(var), 'enter', ast.Load()), [ast.Call(N('locals'), [], [])], []))] +
            self._havoc(var, [x for x in names if x not in tnames]) +
            [ast.Expr(ast.Call(ast.Attribute(N(var), 'start', ast.Load()), [ast.Call(N('locals'), [], [])], [])),
             ast.If(ast.Attribute(N(var), 'exit_nonempty', ast.Load()),
                [ast.Assign([copy.deepcopy(target)], ast.Call(ast.Attribute(N(var), 'last', ast.Load()), [], []))], [])], [])]
        loop = ast.For(target, N(var), body, [ast.Continue()], None)
        return [ast.For(N(var, ast.Store()), call('for_', it, const(site), const(tuple(names)), const(tuple(tnames))),
                        pre + [loop, ast.Break()], orelse, None)]

    def appends(self, n):
        """`for x in ..: l.append(x)`"""
        if n.orelse or len(n.body) != 1 or not isinstance(n.target, ast.Name): return False
        e = n.body[0]
        if not isinstance(e, ast.Expr) or not isinstance(e.value, ast.Call): return False
        c = e.value
        if not isinstance(c.func, ast.Attribute) or c.func.attr != 'append' or c.keywords or len(c.args) != 1: return False
        x = c.func.value
        while isinstance(x, ast.Attribute): x = x.value
        return isinstance(x, ast.Name) and x.id != n.target.id and isinstance(c.args[0], ast.Name) and c.args[0].id == n.target.id
    def counted(self, n):
        """`while i < bound [and cond]: ..; i += 1` with a bound that the body does not assign -> (i, bound, cond, body)"""
        test, conds = n.test, []
        if isinstance(test, ast.BoolOp) and isinstance(test.op, ast.And):
            if n.orelse: return None
            j = 0
            if all(pure(v) for v in test.values):          # the order of tests that compute nothing does not matter
                j = ([j for j, v in enumerate(test.values) if isinstance(v, ast.Compare) and isinstance(v.ops[0], (ast.Lt, ast.Gt))] + [0])[0]
            test, conds = test.values[j], test.values[:j] + test.values[j + 1:]
        if not isinstance(test, ast.Compare) or len(test.ops) != 1: return None
        a, b = test.left, test.comparators[0]
        if isinstance(test.ops[0], ast.Gt): a, b = b, a
        elif not isinstance(test.ops[0], ast.Lt): return None
        if not isinstance(a, ast.Name): return None
        i = a.id
        if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len' and len(b.args) == 1 and not b.keywords:
            x = b.args[0]
            while isinstance(x, ast.Attribute): x = x.value
            if not isinstance(x, ast.Name): return None
        elif not isinstance(b, ast.Name) and not (isinstance(b, ast.Constant) and type(b.value) is int): return None
        stmts = early(n.body, i)
        last = stmts[-1]
        one = lambda v: isinstance(v, ast.Constant) and type(v.value) is int and v.value == 1
        if isinstance(last, ast.AugAssign): ok = isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == i and one(last.value)
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == i and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add):
            l, r = last.value.left, last.value.right
            ok = isinstance(l, ast.Name) and l.id == i and one(r) or isinstance(r, ast.Name) and r.id == i and one(l)
        else: ok = False
        body = stmts[:-1]
        names = assigned_names(body + [ast.Expr(c) for c in conds])
        if not ok or not body or i in names: return None
        if isinstance(b, ast.Name) and b.id in names + [i] or isinstance(b, ast.Call) and (x.id in names or x.id == i): return None
        def goes_on(stmts):
            for s in stmts:
                if isinstance(s, ast.Continue): return True
                if isinstance(s, (ast.For, ast.While)):
                    if goes_on(s.orelse): return True
                    continue
                if isinstance(s, (ast.FunctionDef, ast.ClassDef)): continue
                for f in ('body', 'orelse', 'finalbody'):
                    if goes_on(getattr(s, f, [])): return True
                for h in getattr(s, 'handlers', []):
                    if goes_on(h.body): return True
            return False
        if goes_on(body): return None
        if any(isinstance(y, (ast.Nonlocal, ast.Global)) for s in body for y in ast.walk(s)): return None
        return i, b, conds, body
    def visit_While(self, n):
        if not self.infunc:
            self.generic_visit(n); return n
        site = self.site(n)
        k = self.counted(n)
        if k is not None and not getattr(n, 'rtv_plain', False):
            import copy
            i, b, conds, body = k
            var = 'rtv_c%d_' % self.n
            thunk = ast.Lambda(ast.arguments([], [], None, [], [], None, []), copy.deepcopy(b))
            start = ast.Assign([N(var, ast.Store())], call('counter', const(site), N(i), thunk))
            cond = copy.deepcopy(ast.BoolOp(ast.And(), conds) if len(conds) > 1 else conds[0]) if conds else None
            stop = [ast.If(ast.UnaryOp(ast.Not(), cond), [ast.Break()], [])] if conds else []
            end = [ast.Assign([N(i, ast.Store())], ast.Call(ast.Attribute(N(var), 'end', ast.Load()), [], []))] + copy.deepcopy(n.orelse)
            if conds and pure(cond) and not any(getattr(x, 'id', None) == i for x in ast.walk(cond)):
                # a condition on the variables alone: decided when they change
                last = ast.If(ast.UnaryOp(ast.Not(), copy.deepcopy(cond)), [ast.AugAssign(N(i, ast.Store()), ast.Add(), const(1)), ast.Break()], [])
                loop = ast.If(cond, [ast.For(N(i, ast.Store()), N(var), copy.deepcopy(body) + [last], end, None)], [])
            else:
                loop = ast.For(N(i, ast.Store()), N(var), stop + copy.deepcopy(body), end, None)
            plain = copy.deepcopy(n); plain.rtv_plain = True
            return ast.If(call('countable', const(site)), self.stmts([start, loop]), self.stmts([plain]))
        names = assigned_names(n.body + [ast.Expr(n.test)])
        walrus = any(isinstance(x, ast.NamedExpr) for x in ast.walk(n.test))
        body = self.stmts(n.body); orelse = self.stmts(n.orelse)
        test = self.visit(n.test)
        var = 'rtv_L%d_' % self.n
        pre = [ast.Assign([N(var, ast.Store())], call('while_', const(site), ast.Call(N('locals'), [], []), const(tuple(names))))]
        pre.append(ast.If(ast.Attribute(N(var), 'sym', ast.Load()),
            self._havoc(var, names) + [ast.Expr(ast.Call(ast.Attribute(N(var), 'start', ast.Load()), [ast.Call(N('locals'), [], [])], []))], []))
        if walrus:
            t = ast.BoolOp(ast.And(), [ast.Call(ast.Attribute(N(var), 'again', ast.Load()), [], []), test])
        else:
            t = ast.Call(ast.Attribute(N(var), 'test', ast.Load()),
                [ast.Lambda(ast.arguments([], [], None, [], [], None, []), test)], [])
        return pre + [ast.While(t, body, orelse)]

    def visit_Assign(self, n):
        self.generic_visit(n)
        if self.infunc and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Tuple, ast.List)) and not isinstance(n.value, (ast.Tuple, ast.List)):
            t = n.targets[0].elts
            stars = [j for j, e in enumerate(t) if isinstance(e, ast.Starred)]
            if not stars: n.value = call('unpack', n.value, const(len(t)), const(False))
            else:
                j = stars[0]
                n.value = call('unstar', n.value, const(j), const(len(t) - j - 1))
                n.targets[0].elts = t[:j] + [t[j].value] + t[j + 1:]
        return n

    # ---- comprehensions
    def _lam(self, target, expr):
        """lambda binding a comprehension target"""
        noargs = lambda names: ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
        if isinstance(target, ast.Name):
            return ast.Lambda(noargs([target.id]), expr)
        if isinstance(target, (ast.Tuple, ast.List)) and all(isinstance(e, ast.Name) for e in target.elts):
            inner = ast.Lambda(noargs([e.id for e in target.elts]), expr)
            return ast.Lambda(noargs(['rtv_p_']), ast.Call(inner, [ast.Starred(N('rtv_p_'), ast.Load())], []))
        # nested patterns: (i, (a, b))
        if isinstance(target, (ast.Tuple, ast.List)):
            params, wrap = [], expr
            subs = []
            for j, e in enumerate(target.elts):
                if isinstance(e, ast.Name): params.append(e.id)
                elif isinstance(e, ast.Starred): return None
                else:
                    params.append('rtv_q%d_' % j); subs.append((j, e))
            for j, e in reversed(subs):
                l = self._lam(e, wrap)
                if l is None: return None
                wrap = ast.Call(l, [N('rtv_q%d_' % j)], [])
            inner = ast.Lambda(noargs(params), wrap)
            return ast.Lambda(noargs(['rtv_p_']), ast.Call(inner, [ast.Starred(N('rtv_p_'), ast.Load())], []))
        return None

    def _comp(self, n, kind):
        if not self.infunc or any(isinstance(x, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) for x in ast.walk(n)):
            self.generic_visit(n); return n
        def build(i):
            g = n.generators[i]
            if i == len(n.generators) - 1:
                if kind != 'dict' and not g.ifs and isinstance(n.elt, ast.Name) and isinstance(g.target, ast.Name) and n.elt.id == g.target.id:
                    it = self.visit(g.iter)
                    return call('comp', it, ast.Attribute(N('__rtv__'), 'identity', ast.Load()), const(None), const(False), const('gen' if kind == 'gen' else 'list'), const(self.site(n)))
                e = self.visit(n.elt) if kind != 'dict' else ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load())
                flat = False
            else:
                e = build(i + 1); flat = True
                if e is None: return None
            f = self._lam(g.target, e)
            if f is None: return None
            conds = [self.visit(c) for c in g.ifs]
            c = const(None)
            if conds:
                cc = conds[0] if len(conds) == 1 else ast.BoolOp(ast.And(), conds)
                c = self._lam(g.target, cc)
            it = self.visit(g.iter)
            lazy = kind == 'gen'
            return call('comp', it, f, c, const(flat), const('gen' if lazy else 'list'), const(self.site(n)))
        import copy
        saved = copy.deepcopy(n)
        r = build(0)
        if r is None:
            self.generic_visit(saved); return saved
        if kind == 'set': r = call('mkset', r)
        if kind == 'dict': r = call('mkdict', r)
        return r
    def visit_ListComp(self, n): return self._comp(n, 'list')
    def visit_GeneratorExp(self, n): return self._comp(n, 'gen')
    def visit_SetComp(self, n): return self._comp(n, 'set')
    def visit_DictComp(self, n): return self._comp(n, 'dict')

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc:
            if any(isinstance(e, ast.Starred) for e in n.elts): return call('joined', self._parts(n))
            return call('mklist', n)
        return n
    def _parts(self, n):
        return ast.List([ast.Tuple([const(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load()) for e in n.elts], ast.Load())
    def visit_Tuple(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and self.infunc and any(isinstance(e, ast.Starred) for e in n.elts): return call('joined_tuple', self._parts(n))
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and self.infunc:
            op = n.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot)):
                return call('is_' if isinstance(op, ast.Is) else 'isnot_', n.left, n.comparators[0])
            if isinstance(op, (ast.In, ast.NotIn)):
                return call('in_' if isinstance(op, ast.In) else 'notin_', n.left, n.comparators[0])
        return n


def transform(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Tr(modname).visit(tree)
    # module level statements are executed natively
    ast.fix_missing_locations(tree)
    return tree


class Loader(importlib.abc.Loader):
    def __init__(self, path, engine): self.path, self.engine = path, engine
    def create_module(self, spec): return None
    def exec_module(self, module):
        with open(self.path, encoding='utf-8') as f: src = f.read()
        tree = transform(src, module.__name__.split('.')[-1], self.path)
        code = compile(tree, self.path, 'exec', dont_inherit=True)
        module.__dict__['__builtins__'] = self.engine.builtins_of(module)
        module.__dict__['__rtv__'] = self.engine.runtime
        exec(code, module.__dict__)
        self.engine.on_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, engine): self.engine = engine
    def find_spec(self, name, path, target=None):
        if name in self.engine.stub_modules:
            return importlib.machinery.ModuleSpec(name, StubLoader(self.engine.stub_modules[name]))
        if name == 'raytracing' or name.startswith('raytracing.'):
            base = os.path.join(REPO, *name.split('.'))
            if os.path.isdir(base):
                p = os.path.join(base, '__init__.py')
                return importlib.machinery.ModuleSpec(name, Loader(p, self.engine), is_package=True, origin=p)
            p = base + '.py'
            if os.path.exists(p):
                return importlib.machinery.ModuleSpec(name, Loader(p, self.engine), origin=p)
        return None

class StubLoader(importlib.abc.Loader):
    def __init__(self, fill): self.fill = fill
    def create_module(self, spec): return None
    def exec_module(self, module): self.fill(module)
