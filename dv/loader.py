"""Loads the modules of /repo/src/torchrir with instrumentation: the source text is parsed on every run, loops and
comprehensions are routed through dv.loops and builtins/imports through the shims; nothing else is changed."""
from __future__ import annotations
import ast, builtins, importlib, os, sys, types
from . import builtins_shim, loops, core, seq, strs, text
from .core import Unsupported

SRC = os.environ.get("DV_SRC", "/repo/src")


class _Names(ast.NodeVisitor):
    """names bound / loaded in a statement list (not descending into nested scopes for bindings)"""

    def __init__(self):
        self.bound, self.loaded, self.has_yield, self.declared = set(), set(), False, set()

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list + n.args.defaults + [x for x in n.args.kw_defaults if x]:
            self.visit(d)
        inner = _Names()
        for s in n.body:
            inner.visit(s)
        self.loaded |= inner.loaded
        self.loaded |= inner.declared

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        inner = _Names()
        inner.visit(n.body)
        self.loaded |= inner.loaded

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def _comp(self, n):
        for g in n.generators:
            inner = _Names()
            inner.visit(g.target)
            self.visit(g.iter)
            for c in g.ifs:
                self.visit(c)
        for f in ("elt", "key", "value"):
            if hasattr(n, f):
                self.visit(getattr(n, f))

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)
        else:
            self.loaded.add(n.id)

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Nonlocal(self, n):
        self.declared |= set(n.names)

    def visit_Global(self, n):
        self.declared |= set(n.names)

    def visit_Yield(self, n):
        self.has_yield = True
        self.generic_visit(n)

    visit_YieldFrom = visit_Await = visit_Yield


def _names(stmts):
    v = _Names()
    for s in stmts:
        v.visit(s)
    return v


class _LoopCtl(ast.NodeTransformer):
    """rewrites break/continue/return of one loop body (not entering nested loops' break/continue or functions)"""

    def __init__(self):
        self.depth = 0

    def visit_FunctionDef(self, n): return n
    def visit_AsyncFunctionDef(self, n): return n
    def visit_Lambda(self, n): return n
    def visit_ClassDef(self, n): return n

    def visit_For(self, n):
        self.depth += 1
        self.generic_visit(n)
        self.depth -= 1
        return n

    visit_While = visit_For

    def visit_Break(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("break")], ast.Load())), n)

    def visit_Continue(self, n):
        if self.depth:
            return n
        return ast.copy_location(ast.Return(ast.Constant(None)), n)

    def visit_Return(self, n):
        v = n.value if n.value is not None else ast.Constant(None)
        return ast.copy_location(ast.Return(ast.Tuple([ast.Constant("return"), v], ast.Load())), n)


class Transformer(ast.NodeTransformer):
    def __init__(self):
        self.fn = []      # stack of function scopes: dict(locals=set, params=set, pre=list)
        self.cls = 0
        self.n = 0

    def visit_AnnAssign(self, node):
        """annotations of local names have no effect at run time"""
        if not self.fn or not isinstance(node.target, ast.Name):
            return self.generic_visit(node)
        if node.value is None:
            return ast.copy_location(ast.Pass(), node)
        return self.visit(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node))

    def _function(self, node):
        args = node.args
        params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        if args.vararg:
            params.add(args.vararg.arg)
        if args.kwarg:
            params.add(args.kwarg.arg)
        nm = _names(node.body)
        loc = (nm.bound | params) - nm.declared
        node.decorator_list = [self.visit(d) for d in node.decorator_list]
        node.args = self.visit(node.args)
        self.fn.append({"locals": loc, "params": params, "hoist": set(), "gen": nm.has_yield})
        cls, self.cls = self.cls, 0
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else ([r] if r is not None else [])
        self.cls = cls
        scope = self.fn.pop()
        hoist = sorted(scope["hoist"] - params)
        if hoist:
            # make the names local to this function without binding them
            pre = ast.If(test=ast.Constant(False),
                         body=[ast.Assign(targets=[ast.Name(h, ast.Store())], value=ast.Constant(None)) for h in hoist], orelse=[])
            pos = 0
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) and isinstance(body[0].value.value, str):
                pos = 1
            nl = [i for i, s in enumerate(body) if isinstance(s, (ast.Nonlocal, ast.Global))]
            if nl:
                pos = max(pos, max(nl) + 1)
            body.insert(pos, pre)
        node.body = body
        return node

    def visit_FunctionDef(self, n): return self._function(n)
    def visit_AsyncFunctionDef(self, n): return n

    def visit_Lambda(self, n):
        params = {a.arg for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs}
        self.fn.append({"locals": params, "params": params, "hoist": set(), "gen": False, "lam": True})
        self.generic_visit(n)
        self.fn.pop()
        return n

    def visit_ClassDef(self, n):
        fn, self.fn = self.fn, []
        self.cls += 1
        self.generic_visit(n)
        self.cls -= 1
        self.fn = fn
        return n

    def _loop_parts(self, node, body_nodes, arg):
        """builds the nested body function + get/set; returns (prelude stmts, names)"""
        scope = self.fn[-1]
        self.n += 1
        u = f"_dv{self.n}"
        nm = _names(body_nodes)
        bound = (nm.bound - nm.declared)
        track = sorted((bound | (nm.loaded & scope["locals"])) - {"_dv"})
        track = [t for t in track if not t.startswith("_dv")]
        scope["hoist"] |= set(bound)
        scope["locals"] |= set(bound)
        return u, bound, track

    def _emit(self, node, u, bound, track, body, arg, cond=None, it=None):
        nonl = [ast.Nonlocal(sorted(track))] if track else []
        fdef = ast.FunctionDef(name=u + "_body", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg)] if arg else [], kwonlyargs=[],
                                                                  kw_defaults=[], defaults=[]),
                               body=nonl + body, decorator_list=[], type_params=[])
        get = ast.FunctionDef(name=u + "_get", args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]),
                              body=[ast.Assign([ast.Name("_dvs", ast.Store())], ast.Dict([], []))] + [
                                  ast.Try(body=[ast.Assign([ast.Subscript(ast.Name("_dvs", ast.Load()), ast.Constant(t), ast.Store())],
                                                           ast.Name(t, ast.Load()))],
                                          handlers=[ast.ExceptHandler(type=ast.Name("NameError", ast.Load()), name=None, body=[ast.Pass()])],
                                          orelse=[], finalbody=[]) for t in track] + [ast.Return(ast.Name("_dvs", ast.Load()))],
                              decorator_list=[], type_params=[])
        setb = [ast.If(ast.Compare(ast.Constant(t), [ast.In()], [ast.Name("_dvs", ast.Load())]),
                       [ast.Assign([ast.Name(t, ast.Store())], ast.Subscript(ast.Name("_dvs", ast.Load()), ast.Constant(t), ast.Load()))], [])
                for t in track]
        sett = ast.FunctionDef(name=u + "_set", args=ast.arguments(posonlyargs=[], args=[ast.arg("_dvs")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                               body=nonl + (setb or [ast.Pass()]), decorator_list=[], type_params=[])
        name = lambda x: ast.Name(x, ast.Load())
        out = [fdef, get, sett]
        if it is not None:
            call = ast.Call(ast.Attribute(name("_dv"), "for_loop", ast.Load()), [it, name(u + "_body"), name(u + "_get"), name(u + "_set")], [])
        else:
            noargs = ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[])
            if any(isinstance(x, ast.NamedExpr) for x in ast.walk(cond)):
                out.append(ast.FunctionDef(name=u + "_cond", args=noargs, body=nonl + [ast.Return(cond)], decorator_list=[], type_params=[]))
                cdef = name(u + "_cond")
            else:
                cdef = ast.Lambda(args=noargs, body=cond)
            call = ast.Call(ast.Attribute(name("_dv"), "while_loop", ast.Load()), [cdef, name(u + "_body"), name(u + "_get"), name(u + "_set")], [])
        out.append(ast.Assign([ast.Name(u + "_r", ast.Store())], call))
        is_ret = ast.BoolOp(ast.And(), [ast.Compare(name(u + "_r"), [ast.IsNot()], [ast.Constant(None)]),
                                        ast.Compare(ast.Subscript(name(u + "_r"), ast.Constant(0), ast.Load()), [ast.Eq()], [ast.Constant("return")])])
        out.append(ast.If(is_ret, [ast.Return(ast.Subscript(name(u + "_r"), ast.Constant(1), ast.Load()))], []))
        if node.orelse:
            out.append(ast.If(ast.Compare(name(u + "_r"), [ast.Is()], [ast.Constant(None)]), node.orelse, []))
        for s in out:
            ast.copy_location(s, node)
        return out

    def _transformable(self, node):
        if not self.fn or self.cls or self.fn[-1].get("lam") or self.fn[-1]["gen"]:
            return False
        nm = _names(node.body)
        return not nm.has_yield and not nm.declared

    def visit_For(self, node):
        if not self._transformable(node):
            self.generic_visit(node)
            return node
        u, bound, track = self._loop_parts(node, [ast.Assign([node.target], ast.Constant(None))] + node.body, "x")
        node.iter = self.visit(node.iter)
        ctl = _LoopCtl()
        body = [ctl.visit(s) for s in node.body]
        # nested transformation happens inside a function whose locals are the same
        inner = []
        for s in body:
            r = self.visit(s)
            inner += r if isinstance(r, list) else ([r] if r is not None else [])
        assign = ast.copy_location(ast.Assign([node.target], ast.Name(u + "_x", ast.Load())), node)
        node.orelse = [y for s in node.orelse for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))]
        return self._emit(node, u, bound, track, [assign] + inner, u + "_x", it=node.iter)

    def visit_While(self, node):
        if not self._transformable(node):
            self.generic_visit(node)
            return node
        u, bound, track = self._loop_parts(node, [ast.Expr(node.test)] + node.body, None)
        ctl = _LoopCtl()
        body = [ctl.visit(s) for s in node.body]
        inner = []
        for s in body:
            r = self.visit(s)
            inner += r if isinstance(r, list) else ([r] if r is not None else [])
        node.test = self.visit(node.test)
        node.orelse = [y for s in node.orelse for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(s))]
        return self._emit(node, u, bound, track, inner, None, cond=node.test)

    # text
    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.fn:
            return node
        ps = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                ps.append(v)
                continue
            spec = v.format_spec
            if isinstance(spec, ast.Call):       # nested, already rewritten: a constant spec only
                spec = ast.Constant("".join(a.value for a in spec.args)) if all(isinstance(a, ast.Constant) for a in spec.args) else spec
            elif isinstance(spec, ast.JoinedStr):
                spec = ast.Constant("".join(a.value for a in spec.values)) if all(isinstance(a, ast.Constant) for a in spec.values) else spec
            ps.append(ast.Tuple([v.value, ast.Constant(v.conversion), spec or ast.Constant("")], ast.Load()))
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), "fstr", ast.Load()), ps, []), node)

    def visit_List(self, node):
        self.generic_visit(node)
        if not self.fn or not isinstance(node.ctx, ast.Load) or not any(isinstance(e, ast.Starred) for e in node.elts):
            return node
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), "lst", ast.Load()),
                                          [ast.Tuple([ast.Constant(isinstance(e, ast.Starred)), e.value if isinstance(e, ast.Starred) else e], ast.Load())
                                           for e in node.elts], []), node)

    def visit_Call(self, node):
        self.generic_visit(node)
        f = node.func
        if self.fn and isinstance(f, ast.Attribute) and f.attr == "get" and not isinstance(f.value, ast.Call):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), "dget", ast.Load()), [f.value] + node.args, node.keywords), node)
        if self.fn and isinstance(f, ast.Attribute) and f.attr in ("join", "extend") and not (isinstance(f.value, ast.Name) and f.value.id in ("super", "_dv")):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), f.attr, ast.Load()), [f.value] + node.args, node.keywords), node)
        return node

    # lookups whose key may be an arbitrary string
    def visit_Compare(self, node):
        self.generic_visit(node)
        if self.fn and len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            f = "member" if isinstance(node.ops[0], ast.In) else "nonmember"
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), f, ast.Load()), [node.left, node.comparators[0]], []), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if self.fn and isinstance(node.ctx, ast.Load) and isinstance(node.slice, (ast.Name, ast.Attribute, ast.Call, ast.BoolOp, ast.IfExp)):
            return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), "item", ast.Load()), [node.value, node.slice], []), node)
        return node

    # comprehensions
    def _compr(self, node, kind):
        self.generic_visit(node)
        if len(node.generators) != 1 or node.generators[0].is_async or self.cls and not self.fn:
            return node
        g = node.generators[0]
        if any(isinstance(x, ast.NamedExpr) for x in ast.walk(node)):
            return node

        def lam(body):
            t = g.target
            if isinstance(t, ast.Name):
                return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(t.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
            if isinstance(t, ast.Tuple) and all(isinstance(e, ast.Name) for e in t.elts):
                inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(e.id) for e in t.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), body)
                return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg("_dvt")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                  ast.Call(inner, [ast.Starred(ast.Name("_dvt", ast.Load()), ast.Load())], []))
            if isinstance(t, ast.Tuple) and all(isinstance(e, (ast.Name, ast.Tuple)) for e in t.elts):
                names = []
                for i, e in enumerate(t.elts):
                    names.append(e.id if isinstance(e, ast.Name) else f"_dvt{i}")
                b = body
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Tuple):
                        if not all(isinstance(x, ast.Name) for x in e.elts):
                            return None
                        b = ast.Call(ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(x.id) for x in e.elts], kwonlyargs=[], kw_defaults=[], defaults=[]), b),
                                     [ast.Starred(ast.Name(f"_dvt{i}", ast.Load()), ast.Load())], [])
                inner = ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg(x) for x in names], kwonlyargs=[], kw_defaults=[], defaults=[]), b)
                return ast.Lambda(ast.arguments(posonlyargs=[], args=[ast.arg("_dvt")], kwonlyargs=[], kw_defaults=[], defaults=[]),
                                  ast.Call(inner, [ast.Starred(ast.Name("_dvt", ast.Load()), ast.Load())], []))
            return None
        elt = ast.Tuple([node.key, node.value], ast.Load()) if kind == "dict" else node.elt
        l = lam(elt)
        if l is None:
            return node
        cs = [lam(c) for c in g.ifs]
        return ast.copy_location(ast.Call(ast.Attribute(ast.Name("_dv", ast.Load()), "comp", ast.Load()),
                                          [ast.Constant(kind), g.iter, l, ast.List(cs, ast.Load())], []), node)

    def visit_ListComp(self, n): return self._compr(n, "list")
    def visit_SetComp(self, n): return self._compr(n, "set")
    def visit_DictComp(self, n): return self._compr(n, "dict")
    def visit_GeneratorExp(self, n): return self._compr(n, "gen")


class _DV:
    for_loop = staticmethod(loops.for_loop)
    while_loop = staticmethod(loops.while_loop)
    comp = staticmethod(loops.comp)
    fstr, join, extend, lst = (staticmethod(f) for f in (text.fstr, text.join, text.extend, text.lst))
    member, nonmember, item, dget = (staticmethod(f) for f in (strs.member, strs.nonmember, strs.item, strs.dget))


THIRD_PARTY = ("soundfile", "matplotlib", "scienceplots")


class _Outside(types.ModuleType):
    """a third-party package without contract here: can be imported, using it is refused"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = _OutsideUse(f"{self.__name__}.{n}")
        self.__dict__[n] = v
        return v


class _OutsideUse:
    def __init__(self, name):
        self.__name__ = name

    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self.__name__}")

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _OutsideUse(f"{self.__name__}.{n}")


_OUT = {}


def outside(full, frm):
    for i in range(len(full.split("."))):
        n = ".".join(full.split(".")[:i + 1])
        if n not in _OUT:
            _OUT[n] = _Outside(n)
            if i:
                setattr(_OUT[n.rpartition(".")[0]], n.rpartition(".")[2], _OUT[n])
    return _OUT[full] if frm else _OUT[full.split(".")[0]]


_COMPILED = {}      # (path, source text) -> instrumented code, within one run


class Loader:
    def __init__(self, shims, src=None):
        self.src = src or SRC
        self.shims = dict(shims)
        self.modules: dict[str, types.ModuleType] = {}
        self.b = dict(vars(builtins))
        self.b.update(builtins_shim.OVERRIDES)
        self.b["__import__"] = self._import
        self.functions = []

    def _path(self, name):
        p = os.path.join(self.src, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
            if name in self.modules:
                return self.modules[name]          # the package's own imports already loaded it
        path, pkg = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(f"No module named {name!r}", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.b
        m.__dict__["_dv"] = _DV
        self.modules[name] = m
        sys.modules.setdefault("__dvmods__." + name, m)
        if "." in name:
            par, _, child = name.rpartition(".")
            setattr(self.modules[par], child, m)
        if name == "torchrir":
            return m          # the package root only re-exports; loaded lazily by attribute
        src = open(path, encoding="utf-8").read()
        code = _COMPILED.get((path, src))
        if code is None:
            tree = ast.parse(src, path)
            from .countwhile import CountedWhile
            tree = CountedWhile().visit(tree)
            tree = Transformer().visit(tree)
            ast.fix_missing_locations(tree)
            code = _COMPILED[path, src] = compile(tree, path, "exec", dont_inherit=True)
        # dataclasses looks classes' modules up in sys.modules
        sys.modules[name] = m
        exec(code, m.__dict__)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__") or ""
            base = pkg.split(".")
            if level > 1:
                base = base[:-(level - 1)]
            full = ".".join(base + ([name] if name else []))
        else:
            full = name
        root = full.split(".")[0]
        if root == "torchrir":
            m = self.load(full)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and hasattr(m, "__path__"):
                        try:
                            self.load(full + "." + f)
                        except ModuleNotFoundError:
                            pass
                return m
            return self.load("torchrir") if not level else m
        if full in self.shims:
            top = self.shims[full]
            if fromlist:
                return top
            return self.shims.get(root, top)
        if root in self.shims:
            m = self.shims[root]
            for part in full.split(".")[1:]:
                m = getattr(m, part)
            return m if fromlist else self.shims[root]
        if root in THIRD_PARTY:
            return outside(full, bool(fromlist))
        return builtins.__import__(name, globals, locals, fromlist, level)

    def close(self):
        for n in list(self.modules):
            if sys.modules.get(n) is self.modules[n]:
                del sys.modules[n]
            sys.modules.pop("__dvmods__." + n, None)
