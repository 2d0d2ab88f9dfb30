"""C14  Every stored time-integration table has the order of accuracy it claims."""
from fractions import Fraction

import sympy as sp

from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary"]
TRUSTED = ["Butcher's theorem (an explicit Runge-Kutta method has order p for all smooth right-hand sides exactly when the rooted-tree conditions up to p hold)",
           "a linear multistep formula has order p for all smooth right-hand sides exactly when it is exact on polynomials of degree < p"]
ASSUMPTIONS = ["DP8 and ADP8 store 10 to 20 digit rational approximations of irrational coefficients: their conditions are required to 1e-15 absolute instead of exactly"]
BOUNDS = ["Adams-Bashforth orders 1..12 (quick) / 1..20 (thorough)"]

APPROX = {"DP8", "ADP8"}
KNOWN = {"Euler": 1, "RK2 Heun": 2, "RK2 MP": 2, "RK2 Ralston": 2, "RK3": 3, "RK3 Heun": 3, "RK3 Ralston": 3, "SSPRK3": 3, "RK4": 4, "DP5": 5, "DP5alt": 5, "CK5": 5, "DP6": 6, "L6": 6, "DP8": 8,
         "AHE": 2, "ABS": 3, "ARKF": 5, "ACK": 5, "ADP5": 5, "ADP8": 8}


class Q:
    """a + b sqrt(d), exact"""
    __slots__ = ("a", "b", "d")

    def __init__(self, a, b=0, d=None):
        self.a, self.b, self.d = Fraction(a), Fraction(b), d if b else None

    def _d(self, o):
        if self.d and o.d and self.d != o.d:
            raise ValueError("two different radicals")
        return self.d or o.d

    def __add__(self, o):
        return Q(self.a + o.a, self.b + o.b, self._d(o))

    def __sub__(self, o):
        return Q(self.a - o.a, self.b - o.b, self._d(o))

    def __mul__(self, o):
        d = self._d(o)
        return Q(self.a * o.a + (self.b * o.b * d if d else 0), self.a * o.b + self.b * o.a, d)

    def zero(self):
        return self.a == 0 and self.b == 0

    def __float__(self):
        return float(self.a) + (float(self.b) * self.d**0.5 if self.d else 0.0)


def to_q(x):
    x = sp.sympify(x)
    if x.is_Rational:
        return Q(Fraction(int(x.p), int(x.q)))
    if x.is_Float:
        return Q(Fraction(sp.Rational(str(x)).p, sp.Rational(str(x)).q))
    x = sp.expand(sp.radsimp(x))
    rads = [p for p in x.atoms(sp.Pow) if p.exp == sp.Rational(1, 2) and p.base.is_Integer]
    if len(set(rads)) != 1:
        raise ValueError(f"coefficient {x}")
    r = rads[0]
    p = sp.Poly(x, r)
    a, b = p.coeff_monomial(1), p.coeff_monomial(r)
    if p.degree() > 1 or not (a.is_Rational and b.is_Rational):
        raise ValueError(f"coefficient {x}")
    return Q(Fraction(int(a.p), int(a.q)), Fraction(int(b.p), int(b.q)), int(r.base))


def trees(n):
    """rooted trees with n nodes as sorted tuples of subtrees"""
    if n == 1:
        return [()]
    if n in _T:
        return _T[n]
    out = set()

    def rec(rem, maxn, acc):
        if rem == 0:
            out.add(tuple(sorted(acc)))
            return
        for k in range(min(rem, maxn), 0, -1):
            for t in trees(k):
                rec(rem - k, k, acc + [t])
    rec(n - 1, n - 1, [])
    _T[n] = sorted(out)
    return _T[n]


_T = {}


def size(t):
    return 1 + sum(map(size, t))


def gamma(t):
    g = size(t)
    for s in t:
        g *= gamma(s)
    return g


def split(table):
    """-> (c, A, [b rows]); the last one (standard) or two (embedded pair) rows hold the weights"""
    nb = 1
    if len(table) > 1 and len(table[-1]) == len(table[-2]) and table[-1][0] != "" or (len(table) > 1 and table[-2][0] in ("", "HO", "LO") and not isinstance(table[-2][0], (int, sp.Basic))):
        nb = 2
    rows, b = table[:-nb], table[-nb:]
    return rows, b


def as_table(ctx, name, table):
    rows, brows = split(table)
    s = len(rows)
    ok = all(len(r) == i + 1 for i, r in enumerate(rows)) and all(len(r) == s + 1 for r in brows)
    ctx.check(f"{name}: {s} stages, strictly lower triangular, one weight per stage", ok, "structural equality", cex=dict(rows=[len(r) for r in rows], weights=[len(r) for r in brows]))
    if not ok:
        return None
    c = [to_q(r[0]) for r in rows]
    A = [[to_q(x) for x in r[1:]] for r in rows]
    return c, A, [(str(r[0]), [to_q(x) for x in r[1:]]) for r in brows]


def phi(t, A, memo):
    """vector of elementary weights Phi_i(t)/ (product over children of A Phi)"""
    if t in memo:
        return memo[t]
    s = len(A)
    v = [Q(1)] * s
    for sub in t:
        p = phi(sub, A, memo)
        w = []
        for i in range(s):
            acc = Q(0)
            for j, a in enumerate(A[i]):
                if not a.zero():
                    acc = acc + a * p[j]
            w.append(acc)
        v = [x * y for x, y in zip(v, w)]
    memo[t] = v
    return v


def tables(ctx):
    from nrpy.infrastructures.BHaH.MoLtimestepping import RK_Butcher_Table_Dictionary as RK
    ctx.under("RK_Butcher_Table_Dictionary.generate_Butcher_tables")
    d = ctx.call("generate_Butcher_tables()", RK.generate_Butcher_tables)
    if d is None:
        return
    ctx.check("every documented method is present", set(KNOWN) <= set(d), "set equality", cex=dict(missing=sorted(set(KNOWN) - set(d))))
    for name, (table, order) in sorted(d.items()):
        if name == "AB":
            continue
        ctx.check(f"{name}: claimed order", order == KNOWN.get(name, order) and isinstance(order, int) and order >= 1, "equality", cex=dict(order=order))
        order = max(order, KNOWN.get(name, order))
        T = as_table(ctx, name, table)
        if T is None:
            continue
        c, A, brows = T
        approx = name in APPROX
        tol = 1e-15
        good = lambda x: abs(float(x)) < tol if approx else x.zero()
        for i in range(len(c)):
            acc = Q(0)
            for a in A[i]:
                acc = acc + a
            ctx.check(f"{name}: c{i + 1} = sum of a{i + 1},j", good(acc - c[i]), "exact arithmetic" if not approx else "interval arithmetic on exact rationals", cex=dict(c=float(c[i]), rowsum=float(acc)))
        ctx.check(f"{name}: first stage is at the start of the step", c[0].zero(), "exact arithmetic")
        memo = {}
        for k, (tag, b) in enumerate(brows):
            # an embedded pair stores the higher-order weights first ("HO"), then the lower-order ones
            p = order if k == 0 else order - 1
            if len(brows) == 2 and tag == "LO" and k == 0:
                p = order - 1
            if len(brows) == 2 and tag == "HO":
                p = order
            bad = []
            n = 0
            for m in range(1, p + 1):
                for t in trees(m):
                    ph = phi(t, A, memo)
                    acc = Q(0)
                    for bi, x in zip(b, ph):
                        acc = acc + bi * x
                    n += 1
                    g = gamma(t)
                    ctx.check(f"{name}{' ' + tag if tag else ''} order {m} tree {t}: weight = 1/{g}", good(acc - Q(Fraction(1, g))), "exact arithmetic" if not approx else "interval arithmetic on exact rationals",
                              cex=dict(tree=str(t), lhs=float(acc), rhs=1 / g))


def ssp(ctx):
    """SSPRK3 is strong-stability preserving with coefficient 1 (Kraaijevanger's criterion at r = 1)"""
    from nrpy.infrastructures.BHaH.MoLtimestepping import RK_Butcher_Table_Dictionary as RK
    T = as_table(ctx, "SSPRK3", RK.generate_Butcher_tables()["SSPRK3"][0])
    if T is None:
        return
    _, A, [(_, b)] = T
    n = len(A)
    f = lambda q: sp.Rational(q.a.numerator, q.a.denominator)
    K = sp.zeros(n + 1, n + 1)
    for i in range(n):
        for j, a in enumerate(A[i]):
            K[i, j] = f(a)
    for j in range(n):
        K[n, j] = f(b[j])
    inv = (sp.eye(n + 1) + K).inv()
    M = K * inv
    v = inv * sp.ones(n + 1, 1)
    ctx.check("SSPRK3: strong stability preserving, coefficient 1", all(x >= 0 for x in M) and all(x >= 0 for x in v), "exact arithmetic", cex=str(M))


def adams_bashforth(ctx):
    from nrpy.infrastructures.BHaH.MoLtimestepping import RK_Butcher_Table_Dictionary as RK
    ctx.under("RK_Butcher_Table_Dictionary.generate_Butcher_tables(adams_bashforth)")
    for order in range(1, (20 if thorough() else 12) + 1):
        d = ctx.call(f"AB order {order}", RK.generate_Butcher_tables, generate_adams_bashforth_method=True, adams_bashforth_order=order)
        if d is None:
            continue
        ctx.check(f"AB{order}: stored with its order", "AB" in d and d["AB"][1] == order, "equality")
        rows = d["AB"][0]
        ctx.check(f"AB{order}: rows for orders 1..{order} at least", len(rows) >= order, "equality", cex=dict(rows=len(rows)))
        for p in ([order] if order < (20 if thorough() else 12) else range(1, order + 1)):
            b = [sp.sympify(x) for x in rows[p - 1]]
            ctx.check(f"AB{order} row {p}: {p} coefficients", len(b) == p or all(x == 0 for x in b[p:]), "equality", cex=dict(row=str(b)))
            for m in range(p):
                ctx.check(f"AB{order} row {p}: exact for x^{m}", sum(bj * sp.Integer(-j)**m for j, bj in enumerate(b)) == sp.Rational(1, m + 1), "exact arithmetic", cex=dict(row=str(b), degree=m))
    d1 = RK.generate_Butcher_tables()
    ctx.check("without the option there is no AB entry", "AB" not in d1, "set membership")


def units():
    return [Unit("tables", tables), Unit("ssp", ssp), Unit("adams_bashforth", adams_bashforth)]
