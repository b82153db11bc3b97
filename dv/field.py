"""Equalities of rational functions over square roots: decided by reducing the numerator of lhs-rhs modulo the ideal of
the defining equations (square root s of a: s*s = a; given equations).  Divisors are non-zero by separate obligations."""
from __future__ import annotations
import z3, sympy
from . import core


class Conv:
    def __init__(self):
        self.atoms, self.eqs, self.args = {}, [], []

    def sym(self, t):
        k = t.get_id()
        if k not in self.atoms:
            self.atoms[k] = (sympy.Symbol(f"v{len(self.atoms)}", real=True), t)
        return self.atoms[k][0]

    def __call__(self, t):
        if z3.is_rational_value(t) or z3.is_int_value(t):
            return sympy.Rational(str(t))
        k = t.decl().kind()
        a = [self(c) for c in t.children()] if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS) else None
        if k == z3.Z3_OP_ADD:
            return sympy.Add(*a)
        if k == z3.Z3_OP_MUL:
            return sympy.Mul(*a)
        if k == z3.Z3_OP_SUB:
            return a[0] - sympy.Add(*a[1:])
        if k == z3.Z3_OP_UMINUS:
            return -a[0]
        if k == z3.Z3_OP_DIV:
            return a[0] / a[1]
        if z3.is_app(t) and t.decl().name() == "SQRT":
            new = t.get_id() not in self.atoms
            s = self.sym(t)
            if new:
                arg = self(t.arg(0))
                self.eqs.append(s * s - arg)
                self.args.append(t.arg(0))
            return s
        return self.sym(t)


def identity(lhs, rhs, eqs=()):
    """lhs == rhs follows from eqs (pairs of equal terms) and the square-root equations; returns (bool, sqrt arguments)"""
    c = Conv()
    d = c(lhs) - c(rhs)
    rel = [c(a) - c(b) for a, b in eqs] + c.eqs
    num = lambda e: sympy.numer(sympy.together(e))
    n = sympy.expand(num(d))
    if n == 0:
        return True, c.args
    gens = [s for s, _ in c.atoms.values()][::-1]
    ps = [sympy.expand(num(r)) for r in rel]
    ps = [p for p in ps if p != 0]
    # saturate by the denominators: they are non-zero
    dens = [sympy.denom(sympy.together(e)) for e in [d] + rel]
    den = sympy.prod({f for q in dens for f, _ in sympy.factor_list(q)[1]})
    z = sympy.Symbol("zz")
    if den != 1:
        ps = ps + [sympy.expand(z * den - 1)]
        gens = [z] + gens
    G = sympy.groebner(ps, *gens, order="grevlex")
    return G.contains(n), c.args
