"""Verification conditions for generated C loop nests: which index tuples the innermost body is executed for."""
import sympy as sp
import z3
from pycparser import c_ast

from vf import cexec


def to_z3(e, env=None):
    """integer SymPy expression -> z3 Int term"""
    e = sp.sympify(e)
    env = env if env is not None else {}
    if e.is_Integer:
        return z3.IntVal(int(e))
    if e.is_Symbol:
        return env.setdefault(e.name, z3.Int(e.name))
    a = [to_z3(x, env) for x in e.args]
    if e.is_Add:
        return z3.Sum(a)
    if e.is_Mul:
        r = a[0]
        for t in a[1:]:
            r = r * t
        return r
    if e.is_Pow and e.args[1].is_Integer and e.args[1] > 0:
        r = a[0]
        for _ in range(int(e.args[1]) - 1):
            r = r * a[0]
        return r
    n = e.func.__name__
    if n == "Min":
        r = a[0]
        for t in a[1:]:
            r = z3.If(t < r, t, r)
        return r
    if n == "Max":
        r = a[0]
        for t in a[1:]:
            r = z3.If(t > r, t, r)
        return r
    if n == "cdiv":
        q = a[0] / a[1]
        return z3.If(z3.Or(a[0] >= 0, a[0] % a[1] == 0), q, q + 1)  # divisor > 0
    if n == "cmod":
        return a[0] - a[1] * to_z3(sp.Function("cdiv")(*e.args), env)
    raise cexec.CUnsupported(f"to_z3 {e}")


class Loop:
    def __init__(self, var, lo, hi, step, before):
        self.var, self.lo, self.hi, self.step, self.before = var, lo, hi, step, before

    def __repr__(self):
        return f"for {self.var} in [{self.lo}, {self.hi}) by {self.step}"


class NotALoopNest(Exception):
    pass


def nest(items, scope):
    """[statements] -> ([Loop...], innermost statements).  scope(name) -> SymPy int.
    Statements before a loop are recorded with it; statements after an inner loop are rejected."""
    loops = []
    cur = list(items)
    while True:
        idx = [i for i, s in enumerate(cur) if isinstance(s, c_ast.For)]
        if not idx:
            return loops, cur
        if len(idx) != 1 or idx[0] != len(cur) - 1:
            raise NotALoopNest("statements after the inner loop")
        f = cur[-1]
        ev = lambda n: cexec.real(_ev(n, scope, loops))
        if not isinstance(f.init, c_ast.DeclList) or len(f.init.decls) != 1:
            raise NotALoopNest("initialiser")
        d = f.init.decls[0]
        v = d.name
        lo = ev(d.init)
        c = f.cond
        if not (isinstance(c, c_ast.BinaryOp) and isinstance(c.left, c_ast.ID) and c.left.name == v and c.op in ("<", "<=")):
            raise NotALoopNest("condition")
        hi = ev(c.right) + (1 if c.op == "<=" else 0)
        n = f.next
        if isinstance(n, c_ast.UnaryOp) and n.op in ("p++", "++") and n.expr.name == v:
            step = sp.Integer(1)
        elif isinstance(n, c_ast.Assignment) and n.op == "+=" and n.lvalue.name == v:
            step = ev(n.rvalue)
        else:
            raise NotALoopNest("increment")
        if assigned(f.stmt, v):
            raise NotALoopNest(f"body assigns {v}")
        loops.append(Loop(v, lo, hi, step, cur[:-1]))
        cur = f.stmt.block_items or [] if isinstance(f.stmt, c_ast.Compound) else [f.stmt]


def assigned(node, var):
    found = []

    class Vis(c_ast.NodeVisitor):
        def visit_Assignment(self, n):
            if isinstance(n.lvalue, c_ast.ID) and n.lvalue.name == var:
                found.append(n)
            self.generic_visit(n)

        def visit_UnaryOp(self, n):
            if n.op in ("p++", "p--", "++", "--") and isinstance(n.expr, c_ast.ID) and n.expr.name == var:
                found.append(n)
            self.generic_visit(n)

    Vis().visit(node)
    return bool(found)


def _ev(n, scope, loops):
    inp = {l.var: cexec.CInt(sp.Symbol(l.var, integer=True)) for l in loops}
    ex = cexec.Exec(inp, resolver=lambda k: scope(k))
    return ex.ev(n)


def parse_nest(text, scope, extra_typedefs=()):
    k = cexec.kernel(text, extra_typedefs)
    return nest(k.block_items or [], scope)
