"""Counting while loops, written as the equal for loops before anything else is done with a module.

    while v < E:            for v in range(v, E, C):
        body         ==>        body
        v += C              v = the value the counter ends with

applied only when that is an equality by the text alone: the counter is stepped once, at the end of the body, by C; E and C
are made of names, attributes and sizes that the body does not touch; no break, continue or else.  A step that is not positive
never ends the loop: reaching it is an error.
"""
from __future__ import annotations
import ast

MUT = {"append", "extend", "pop", "insert", "remove", "clear", "add", "discard", "update", "resize_", "squeeze_", "unsqueeze_", "set_", "popleft", "appendleft"}
_PURE = {"len", "min", "max", "int", "abs"}
_METH = {"numel", "size", "dim", "nelement"}
_loops = 0


def _stored(body):
    names, heads = set(), set()
    for s in body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                names.add(x.id)
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, (ast.Store, ast.Del)):
                heads.add(_head(x))
            elif isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Del):
                heads.add(_head(x))
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUT:
                heads.add(_head(x.func))
            elif isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ClassDef, ast.Import, ast.ImportFrom)):
                names.add("*")
    return names, heads


def _head(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else "*"


def _fixed(e, names, heads):
    """e keeps its value while the loop runs"""
    if isinstance(e, ast.Constant):
        return isinstance(e.value, int) and not isinstance(e.value, bool)
    if isinstance(e, ast.Name):
        return e.id not in names and e.id not in heads
    if isinstance(e, ast.Attribute):
        return _fixed(e.value, names, heads)
    if isinstance(e, ast.Subscript):
        return isinstance(e.value, ast.Attribute) and e.value.attr == "shape" and _fixed(e.value, names, heads) and \
            isinstance(e.slice, (ast.Constant, ast.UnaryOp))
    if isinstance(e, ast.UnaryOp):
        return isinstance(e.op, ast.USub) and _fixed(e.operand, names, heads)
    if isinstance(e, ast.BinOp):
        return isinstance(e.op, (ast.Add, ast.Sub, ast.Mult, ast.FloorDiv)) and _fixed(e.left, names, heads) and _fixed(e.right, names, heads)
    if isinstance(e, ast.Call) and not e.keywords:
        if isinstance(e.func, ast.Name) and e.func.id in _PURE:
            return all(_fixed(a, names, heads) for a in e.args)
        if isinstance(e.func, ast.Attribute) and e.func.attr in _METH:
            return _fixed(e.func.value, names, heads) and all(_fixed(a, names, heads) for a in e.args)
    return False


def _leaves(body):
    """break / continue of this loop"""
    for s in body:
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef)):
            if isinstance(s, (ast.For, ast.While)) and _leaves(s.orelse):
                return True
            continue
        for f in ("body", "orelse", "finalbody"):
            if _leaves(getattr(s, f, []) or []):
                return True
        for h in getattr(s, "handlers", []) or []:
            if _leaves(h.body):
                return True
    return False


def _len_of(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len" and len(e.args) == 1 and not e.keywords and isinstance(e.args[0], ast.Name)


def _at(new, old):
    for x in ast.walk(new):
        if not hasattr(x, "lineno") or getattr(x, "lineno", 0) <= 4:
            ast.copy_location(x, old)
    return new


class CountedWhile(ast.NodeTransformer):
    def __init__(self):
        self.scope = []

    def visit_FunctionDef(self, n):
        self.scope.append(n)
        self.generic_visit(n)
        self.scope.pop()
        return n

    def visit_ClassDef(self, n):
        s, self.scope = self.scope, []
        self.generic_visit(n)
        self.scope = s
        return n

    def visit_While(self, n):
        self.generic_visit(n)
        r = (self._rewrite(n) or self._filling(n)) if self.scope else None
        return r if r is not None else n

    def visit_For(self, n):
        self.generic_visit(n)
        r = self._stopping(n) if self.scope else None
        return r if r is not None else n

    def _filling(self, n):
        """while len(X) < E: ... X.append(...)   ==>   for _ in range(len(X), E): ..."""
        t = n.test
        if n.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and _len_of(t.left)):
            return None
        X, E = t.left.args[0].id, t.comparators[0]
        adds = [s for s in n.body if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute)
                and s.value.func.attr == "append" and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == X]
        uses = sum(isinstance(x, ast.Name) and x.id == X for s in n.body for x in ast.walk(s))
        names, heads = _stored([s for s in n.body if s not in adds])
        if len(adds) != 1 or uses != 1 or "*" in names or "*" in heads or _leaves(n.body) or not _fixed(E, names | {X}, heads):
            return None
        global _loops
        _loops += 1
        f = ast.For(target=ast.Name(f"_w{_loops}", ast.Store()), iter=ast.parse(f"range(len({X}), {ast.unparse(E)})", mode="eval").body, body=n.body, orelse=[])
        return _at(f, n)

    def _stopping(self, n):
        """for _ in range(N): if len(X) >= E: break; ...   ==>   k = 0; while len(X) < E and k < N: k += 1; ..."""
        if n.orelse or len(n.body) < 2 or not isinstance(n.target, ast.Name) or not isinstance(n.body[0], ast.If):
            return None
        i, rest = n.body[0], n.body[1:]
        t, it = i.test, n.iter
        if i.orelse or len(i.body) != 1 or not isinstance(i.body[0], ast.Break) or not (isinstance(t, ast.Compare) and len(t.ops) == 1
                and isinstance(t.ops[0], (ast.GtE, ast.Eq)) and _len_of(t.left) and isinstance(t.ops[0], ast.GtE)):
            return None
        if not (isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and not it.keywords):
            return None
        names, heads = _stored(rest)
        v = n.target.id
        if sum(isinstance(x, ast.Name) and x.id == v for x in ast.walk(self.scope[0])) != 1 or "*" in names or not _fixed(it.args[0], names, heads):
            return None
        global _loops
        _loops += 1
        u = f"_w{_loops}"
        w = ast.parse(f"{u} = 0\nwhile {ast.unparse(t.left)} < {ast.unparse(t.comparators[0])} and {u} < {ast.unparse(it.args[0])}:\n    {u} += 1\n").body
        for s in w:
            _at(s, n)
        w[1].body += rest
        return w

    def _rewrite(self, n):
        t = n.test
        if n.orelse or len(n.body) < 2 or not isinstance(t, ast.Compare) or len(t.ops) != 1:
            return None
        a, op, b = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            a, b, op = b, a, (ast.Lt() if isinstance(op, ast.Gt) else ast.LtE())
        if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(a, ast.Name):
            return None
        v, E = a.id, b
        last, body = n.body[-1], n.body[:-1]
        names, heads = _stored(body)
        if v in names or v in heads or "*" in names or "*" in heads or _leaves(body):
            return None
        clip = False
        if isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isinstance(last.target, ast.Name) and last.target.id == v:
            C = last.value
        elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == v:
            x = last.value
            if isinstance(x, ast.Name) and x.id != v:
                d = [s for s in body if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == x.id]
                if len(d) != 1 or sum(isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == x.id for s in body for y in ast.walk(s)) != 1:
                    return None
                x = d[0].value
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == "min" and len(x.args) == 2 and not x.keywords and isinstance(op, ast.Lt):
                i = [k for k in (0, 1) if ast.dump(x.args[k]) == ast.dump(E)]
                if not i:
                    return None
                x, clip = x.args[1 - i[0]], True
            if not (isinstance(x, ast.BinOp) and isinstance(x.op, ast.Add)):
                return None
            if isinstance(x.left, ast.Name) and x.left.id == v:
                C = x.right
            elif isinstance(x.right, ast.Name) and x.right.id == v:
                C = x.left
            else:
                return None
        else:
            return None
        nn = names | {v}
        if not _fixed(E, nn, heads) or not _fixed(C, nn, heads):
            return None
        if isinstance(C, ast.Constant) and C.value <= 0:
            return None
        global _loops
        _loops += 1
        u = f"_w{_loops}"
        src = lambda e: ast.unparse(e)
        end = f"({src(E)})" + (" + 1" if isinstance(op, ast.LtE) else "")
        pre = f"{u}_s = {v}\n{u}_e = {end}\n{u}_c = {src(C)}\n"
        if not isinstance(C, ast.Constant):
            pre += f"if {u}_s < {u}_e and {u}_c <= 0:\n    raise RuntimeError('the loop does not end')\n"
        inside = {id(x) for x in ast.walk(n)}
        used = any(isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load) and id(x) not in inside for x in ast.walk(self.scope[0]))
        post = (f"{v} = max({u}_s, {u}_e)\n" if clip else f"{v} = {u}_s + {u}_c * max(0, -(({u}_s - {u}_e) // {u}_c))\n") if used else ""
        out = ast.parse(pre).body
        out.append(ast.For(target=ast.Name(v, ast.Store()), iter=ast.parse(f"range({u}_s, {u}_e, {u}_c)", mode="eval").body, body=body, orelse=[]))
        out += ast.parse(post).body
        for s in out:
            for x in ast.walk(s):
                if id(x) not in inside:
                    ast.copy_location(x, n)
        return out
