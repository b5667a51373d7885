"""Mechanical extraction: rewrites the AST of every function in the megatron.energon package at import time.

The rewriting keeps the statements of the real source and CPython executes them; it only
  * turns every loop into one with an explicit head (`_pv_.head`) where the engine can cut it with an invariant; loops over
    ordinary concrete iterables keep running as written,
  * makes list displays, comprehensions, tuple displays with `*`, f-strings, `is` and calls with `*` go through the engine, and
  * replaces the builtins (len, range, isinstance, ...) of the module by versions which also accept symbolic values.
Outside of a proof (import time) all of these behave exactly as the originals.
"""
import ast, builtins, importlib.abc, importlib.machinery, os, sys

PREFIX = "megatron.energon"


def _names_stored(nodes):
    """Names bound by the statements (not inside nested functions, classes, comprehensions)."""
    out = []

    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)):
                out.append(n.id)

        def visit_FunctionDef(self, n):
            out.append(n.name)
            for d in n.decorator_list:
                self.visit(d)
        visit_AsyncFunctionDef = visit_FunctionDef

        def visit_ClassDef(self, n):
            out.append(n.name)

        def visit_Lambda(self, n):
            pass

        def _comp(self, n):
            for g in n.generators:
                self.visit(g.iter)
        visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

        def visit_ExceptHandler(self, n):
            if n.name:
                out.append(n.name)
            self.generic_visit(n)

        def visit_Import(self, n):
            for a in n.names:
                out.append((a.asname or a.name).split(".")[0])
        visit_ImportFrom = visit_Import
    for n in nodes:
        V().visit(n)
    return sorted(set(out))


def _has(nodes, kinds, stop=(ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
    def go(n):
        if isinstance(n, kinds):
            return True
        return any(go(c) for c in ast.iter_child_nodes(n) if not isinstance(c, stop))
    return any(go(n) for n in nodes)


def _loose_jumps(nodes):
    """break / continue which belong to an outer loop."""
    def go(n):
        if isinstance(n, (ast.Break, ast.Continue)):
            return True
        if isinstance(n, (ast.For, ast.While, ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return any(go(c) for c in getattr(n, "orelse", [])) if isinstance(n, (ast.For, ast.While)) else False
        return any(go(c) for c in ast.iter_child_nodes(n))
    return any(go(n) for n in nodes)


class Rewriter(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.depth = 0
        self.n = 0
        self.stack = []
        self.starts = []
        self.nonlocals = []

    # ---- helpers
    def _c(self, name, args, node):
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_pv_", ast.Load()), name, ast.Load()), args, []), node)

    def _p(self, src, node):
        b = ast.parse(src).body
        for s in b:
            for x in ast.walk(s):
                ast.copy_location(x, node)
        return b

    # ---- scopes
    def _func(self, n):
        if self.stack and self.stack[-1] == "noinstr":
            return n
        outer, self.depth = self.depth, self.depth + 1
        self.stack.append(n.name)
        self.starts.append(n.lineno)
        # decorators, defaults and annotations are evaluated outside
        nl = [x for m in ast.walk(n) if isinstance(m, ast.Nonlocal) for x in m.names]
        self.nonlocals.append(nl)
        n.body = self._body(n.body)
        self.nonlocals.pop()
        self.stack.pop()
        self.starts.pop()
        self.depth = outer
        return n
    visit_FunctionDef = _func

    def visit_AsyncFunctionDef(self, n):
        return n

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        d, self.depth = self.depth, 0
        n.body = self._body(n.body)
        self.depth = d
        self.stack.pop()
        return n

    def _body(self, body):
        out = []
        for s in body:
            r = self.visit(s)
            out.extend(r if isinstance(r, list) else [r] if r is not None else [])
        return out

    def visit_Lambda(self, n):
        d, self.depth = self.depth, self.depth + 1
        n.body = self.visit(n.body)
        self.depth = d
        return n

    def visit_AnnAssign(self, n):
        if n.value is not None:
            n.value = self.visit(n.value)
        return n

    # ---- loops
    def _loop_id(self, n):
        a = self.starts[-1] if self.starts else 0
        return f"{self.module[len(PREFIX) + 1:]}:{'.'.join(self.stack)}:{n.lineno - a}:{n.end_lineno - a}"

    def _restore(self, names, node, k):
        src = "".join(f"if {v!r} in _pv_h{k}: {v} = _pv_h{k}[{v!r}]\n" for v in names)
        return self._p(f"_pv_h{k} = _pv_.head(_pv_l{k}, locals())\n" + (f"if _pv_h{k}:\n" + "".join("    " + l + "\n" for l in src.splitlines()) if src else ""), node)

    def visit_Assign(self, n):
        self.generic_visit(n)
        # a, *b, c = x
        for t in n.targets:
            if self.depth and len(n.targets) == 1 and isinstance(t, (ast.Tuple, ast.List)) and any(isinstance(e, ast.Starred) for e in t.elts):
                k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
                n.value = self._c("unstar", [n.value, ast.Constant(k), ast.Constant(len(t.elts) - k - 1)], n)
                t.elts[k] = t.elts[k].value
                ast.fix_missing_locations(n)
        return n

    def visit_For(self, n):
        import copy
        if not self.depth or (n.orelse and _loose_jumps(n.orelse)):
            self.generic_visit(n)
            return n
        self.n += 1
        k = self.n
        names = sorted(set(_names_stored(n.body + [n.target])) | set(x for nl in self.nonlocals[-1:] for x in nl))
        it = self.visit(n.iter)
        pre = self._p(f"_pv_l{k} = _pv_.forloop({self._loop_id(n)!r}, None, {names!r})", n)
        pre[0].value.args[1] = it
        native = ast.copy_location(ast.For(copy.deepcopy(n.target), self._p(f"_pv_l{k}.it", n)[0].value, copy.deepcopy(n.body), copy.deepcopy(n.orelse)), n)
        native.body = self._body(native.body)
        native.orelse = self._body(native.orelse)
        body = self._body(n.body)
        orelse = self._body(n.orelse)
        head = self._restore(names, n, k)
        step = self._p(f"_pv_x{k} = _pv_l{k}.step()\nif _pv_x{k} is _pv_.END:\n    break", n)
        step[1].body = orelse + [ast.copy_location(ast.Break(), n)]
        asg = ast.copy_location(ast.Assign([n.target], self._p(f"_pv_x{k}", n)[0].value), n)
        cut = ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), n), head + step + [asg] + body, []), n)
        sel = self._p(f"if _pv_l{k}.cut:\n    pass\nelse:\n    pass", n)[0]
        sel.body, sel.orelse = [cut], [native]
        return pre + [sel]

    def visit_Try(self, n):
        """What the engine raises passes the handlers of the code."""
        def broad(t):
            return t is None or any(isinstance(x, (ast.Name, ast.Attribute)) and (x.id if isinstance(x, ast.Name) else x.attr) == "BaseException" for x in ast.walk(t))
        self.generic_visit(n)
        if any(broad(h.type) for h in n.handlers):
            h = self._p("try:\n    pass\nexcept _pv_.SIGNALS:\n    raise", n)[0].handlers[0]
            n.handlers.insert(0, h)
        return n

    def visit_While(self, n):
        import copy
        if not self.depth or (n.orelse and _loose_jumps(n.orelse)):
            self.generic_visit(n)
            return n
        self.n += 1
        k = self.n
        names = sorted(set(_names_stored(n.body + [n.test])) | set(x for nl in self.nonlocals[-1:] for x in nl))
        pre = self._p(f"_pv_l{k} = _pv_.whileloop({self._loop_id(n)!r}, {names!r})", n)
        native = ast.copy_location(ast.While(self.visit(copy.deepcopy(n.test)), self._body(copy.deepcopy(n.body)), self._body(copy.deepcopy(n.orelse))), n)
        test = self.visit(n.test)
        body = self._body(n.body)
        orelse = self._body(n.orelse)
        head = self._restore(names, n, k)
        chk = ast.copy_location(ast.If(ast.copy_location(ast.UnaryOp(ast.Not(), test), n), orelse + [ast.copy_location(ast.Break(), n)], []), n)
        cut = ast.copy_location(ast.While(ast.copy_location(ast.Constant(True), n), head + [chk] + body, []), n)
        sel = self._p(f"if _pv_l{k}.cut:\n    pass\nelse:\n    pass", n)[0]
        sel.body, sel.orelse = [cut], [native]
        return pre + [sel]

    def visit_Expr(self, n):
        if self.depth and isinstance(n.value, ast.YieldFrom):
            self.n += 1
            f = self._p(f"for _pv_y{self.n} in X: yield _pv_y{self.n}", n)[0]
            f.iter = n.value.value
            return self.visit_For(f)
        self.generic_visit(n)
        return n

    # ---- expressions
    def visit_List(self, n):
        self.generic_visit(n)
        if not self.depth or not isinstance(n.ctx, ast.Load):
            return n
        return self._c("mklist", [n] if not any(isinstance(e, ast.Starred) for e in n.elts) else [self._parts(n.elts, n)], n) if not any(isinstance(e, ast.Starred) for e in n.elts) \
            else self._c("mklist_star", [self._parts(n.elts, n)], n)

    def _parts(self, elts, node):
        """[(is_star, value), ...] as a list display."""
        return ast.copy_location(ast.List([ast.copy_location(ast.Tuple([ast.copy_location(ast.Constant(isinstance(e, ast.Starred)), node), e.value if isinstance(e, ast.Starred) else e], ast.Load()), node) for e in elts], ast.Load()), node)

    def visit_Tuple(self, n):
        self.generic_visit(n)
        if not self.depth or not isinstance(n.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in n.elts):
            return n
        return self._c("mktuple", [self._parts(n.elts, n)], n)

    def visit_Subscript(self, n):
        # do not touch annotations such as Tuple[int, ...]; plain visiting is fine (no starred parts there)
        self.generic_visit(n)
        return n

    BTYPES = {"list", "tuple", "range", "enumerate", "zip", "map", "reversed", "int", "float", "bool", "str", "type", "bytes", "bytearray"}

    def visit_Call(self, n):
        self.generic_visit(n)
        if self.depth and isinstance(n.func, ast.Name) and n.func.id in self.BTYPES and not any(isinstance(a, ast.Starred) for a in n.args):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_pv_", ast.Load()), "bcall", ast.Load()), [n.func] + n.args, n.keywords), n)
        if not self.depth or not any(isinstance(a, ast.Starred) for a in n.args) or (isinstance(n.func, ast.Name) and n.func.id == "super"):
            return n
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_pv_", ast.Load()), "callstar", ast.Load()), [n.func, self._parts(n.args, n)], n.keywords), n)

    def visit_Constant(self, n):
        if self.depth and isinstance(n.value, bytes):
            return self._c("const_bytes", [n], n)
        return n

    def visit_JoinedStr(self, n):
        if not self.depth:
            return n
        vals = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                vals.append(v)
            else:
                vals.append(ast.copy_location(ast.Tuple([self.visit(v.value), ast.copy_location(ast.Constant(v.conversion), n), v.format_spec and ast.copy_location(v.format_spec, n) or ast.copy_location(ast.Constant(""), n)], ast.Load()), n))
        return self._c("fstr", [ast.copy_location(ast.List(vals, ast.Load()), n)], n)

    def visit_Compare(self, n):
        self.generic_visit(n)
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            r = self._c("is_", [n.left, n.comparators[0]], n)
            return r if isinstance(n.ops[0], ast.Is) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        if self.depth and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            r = self._c("in_", [n.left, n.comparators[0]], n)
            return r if isinstance(n.ops[0], ast.In) else ast.copy_location(ast.UnaryOp(ast.Not(), r), n)
        return n

    def _comp(self, n):
        if not self.depth or _has([n], (ast.Yield, ast.YieldFrom, ast.NamedExpr, ast.Await), stop=()):
            self.generic_visit(n)
            return n
        kind = {ast.ListComp: "listcomp", ast.GeneratorExp: "genexp", ast.DictComp: "dictcomp", ast.SetComp: "setcomp"}[type(n)]
        if kind == "setcomp" or len(n.generators) != 1:
            self.generic_visit(n)
            return self._c("mklist", [n], n) if kind == "listcomp" else n
        g = n.generators[0]
        it = self.visit(g.iter)
        elt = self.visit(n.elt) if kind != "dictcomp" else ast.copy_location(ast.Tuple([self.visit(n.key), self.visit(n.value)], ast.Load()), n)
        ifs = [self.visit(i) for i in g.ifs]

        def lam(e):
            # lambda __t: [e for target in (__t,)][0]
            import copy
            b = ast.ListComp(e, [ast.comprehension(copy.deepcopy(g.target), ast.Tuple([ast.Name("_pv_t", ast.Load())], ast.Load()), [], 0)])
            return ast.Lambda(ast.arguments([], [ast.arg("_pv_t")], None, [], [], None, []), ast.Subscript(b, ast.Constant(0), ast.Load()))
        cond = lam(ifs[0] if len(ifs) == 1 else ast.BoolOp(ast.And(), ifs)) if ifs else ast.Constant(None)
        r = self._c(kind, [lam(elt), cond, it], n)
        for x in ast.walk(r):
            if not hasattr(x, "lineno"):
                ast.copy_location(x, n)
        return r
    visit_ListComp = visit_GeneratorExp = visit_DictComp = visit_SetComp = _comp


def transform(src, filename, module):
    t = ast.parse(src, filename)
    t = Rewriter(module).visit(t)
    ast.fix_missing_locations(t)
    return compile(t, filename, "exec", dont_inherit=True)


class Loader(importlib.machinery.SourceFileLoader):
    pv = None
    shadow = {}

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return transform(self.get_data(path).decode(), path, fullname)

    def exec_module(self, module):
        b = dict(vars(builtins))
        b.update(Loader.shadow)
        module.__dict__["__builtins__"] = b
        module.__dict__["_pv_"] = Loader.pv
        exec(self.get_code(module.__name__), module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, src):
        self.src = src

    def find_spec(self, name, path, target=None):
        if name != PREFIX and not name.startswith(PREFIX + "."):
            return None
        base = os.path.join(self.src, *name.split("."))
        for f, pkg in ((os.path.join(base, "__init__.py"), True), (base + ".py", False)):
            if os.path.isfile(f):
                return importlib.machinery.ModuleSpec(name, Loader(name, f), origin=f, is_package=pkg) if not pkg else self._pkg(name, f, base)
        return None

    def _pkg(self, name, f, base):
        s = importlib.machinery.ModuleSpec(name, Loader(name, f), origin=f, is_package=True)
        s.submodule_search_locations = [base]
        return s


def install(src, pv, shadow):
    Loader.pv, Loader.shadow = pv, shadow
    sys.meta_path.insert(0, Finder(src))
