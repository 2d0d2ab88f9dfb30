"""Truncated Taylor arithmetic: functions of (t, x0, x1, x2) up to first order in t and a given order in x, coefficients in high-precision reals.
Used to evaluate both sides of a differential identity for random smooth fields without finite differences."""
import itertools

import mpmath
import sympy as sp

ORDER = 3
MON = []
POS = {}
TABLE = []


def setup(order=3, torder=1):
    global ORDER, MON, POS, TABLE, TOP
    ORDER, TOP = order, order + torder
    MON = [(t, *e) for t in range(torder + 1) for e in sorted((e for e in itertools.product(range(order + 1), repeat=3) if sum(e) <= order), key=lambda e: (sum(e), e))]
    POS = {m: i for i, m in enumerate(MON)}
    TABLE = []
    for i, a in enumerate(MON):
        row = []
        for j, b in enumerate(MON):
            k = POS.get(tuple(x + y for x, y in zip(a, b)))
            if k is not None:
                row.append((j, k))
        TABLE.append(row)


setup()


class J:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    @staticmethod
    def const(v):
        c = [mpmath.mpf(0)] * len(MON)
        c[0] = mpmath.mpf(v)
        return J(c)

    @staticmethod
    def var(d, v):
        """coordinate d with value v at the expansion point"""
        j = J.const(v)
        e = [0, 0, 0, 0]
        e[d + 1] = 1
        j.c[POS[tuple(e)]] = mpmath.mpf(1)
        return j

    def __add__(self, o):
        if isinstance(o, J):
            return J([a + b for a, b in zip(self.c, o.c)])
        c = list(self.c)
        c[0] = c[0] + o
        return J(c)
    __radd__ = __add__

    def __neg__(self):
        return J([-a for a in self.c])

    def __sub__(self, o):
        return self + (-o)

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if not isinstance(o, J):
            if o == 0:
                return J.const(0)
            return J([a * o for a in self.c])
        r = [mpmath.mpf(0)] * len(MON)
        oc = o.c
        for i, a in enumerate(self.c):
            if a:
                for j, k in TABLE[i]:
                    b = oc[j]
                    if b:
                        r[k] += a * b
        return J(r)
    __rmul__ = __mul__

    def compose(self, taylor):
        """f(self) given the Taylor coefficients of f at self.c[0]"""
        n = J(list(self.c))
        n.c[0] = mpmath.mpf(0)
        r = J.const(taylor[-1])
        for t in reversed(taylor[:-1]):
            r = r * n + t
        return r

    def pow(self, p):
        if p == int(p) and 0 <= p <= 4:
            r = J.const(1)
            for _ in range(int(p)):
                r = r * self
            return r
        a = self.c[0]
        t, co = [], mpmath.mpf(1)
        for k in range(TOP + 1):
            t.append(co * mpmath.power(a, p - k))
            co = co * (p - k) / (k + 1)
        return self.compose(t)

    def inv(self):
        return self.pow(mpmath.mpf(-1))

    def __truediv__(self, o):
        return self * o.inv() if isinstance(o, J) else self * (1 / mpmath.mpf(o))

    def __rtruediv__(self, o):
        return self.inv() * o

    def d(self, *dirs):
        """derivative in x (the highest order is lost)"""
        r = self
        for d in dirs:
            c = [mpmath.mpf(0)] * len(MON)
            for m, v in zip(MON, r.c):
                if m[d + 1]:
                    q = list(m)
                    q[d + 1] -= 1
                    c[POS[tuple(q)]] += v * m[d + 1]
            r = J(c)
        return r

    def val(self, *dirs):
        e = [0, 0, 0, 0]
        f = 1
        for d in dirs:
            e[d + 1] += 1
            f *= e[d + 1]
        return self.c[POS[tuple(e)]] * f

    def dt(self):
        """time derivative at t=0, as a function of x"""
        c = [mpmath.mpf(0)] * len(MON)
        for m, v in zip(MON, self.c):
            if m[0] == 1:
                c[POS[(0, *m[1:])]] = v
        return J(c)

    def at0(self):
        return J([v if m[0] == 0 else mpmath.mpf(0) for m, v in zip(MON, self.c)])

    def with_dt(self, rate):
        """self + t * rate"""
        c = list(self.at0().c)
        for m, v in zip(MON, rate.c):
            if m[0] == 0:
                c[POS[(1, *m[1:])]] = v
        return J(c)


def _trig(f, g, s):
    # f' = g, g' = s f
    def tay(a):
        v = [f(a), g(a)]
        t, fac = [], mpmath.mpf(1)
        sg = mpmath.mpf(1)
        for k in range(TOP + 1):
            if k:
                fac = fac * k
            t.append(v[k % 2] * sg / fac)
            if k % 2 == 1:
                sg = sg * s
        return t
    return tay


def exp_t(a):
    e, t, fac = mpmath.exp(a), [], mpmath.mpf(1)
    for k in range(TOP + 1):
        if k:
            fac = fac * k
        t.append(e / fac)
    return t


def log_t(a):
    return [mpmath.log(a)] + [(-1) ** (k + 1) / (k * mpmath.power(a, k)) for k in range(1, TOP + 1)]


FUN = {"sin": _trig(mpmath.sin, mpmath.cos, -1), "cos": _trig(mpmath.cos, lambda a: -mpmath.sin(a), -1), "sinh": _trig(mpmath.sinh, mpmath.cosh, 1), "cosh": _trig(mpmath.cosh, mpmath.sinh, 1), "exp": exp_t, "log": log_t}


def ev(e, env, memo=None):
    """value of a SymPy expression with jets (or numbers) for its symbols"""
    memo = {} if memo is None else memo
    e = sp.sympify(e)

    def go(x):
        if x in memo:
            return memo[x]
        if x.is_Symbol:
            r = env[x]
        elif x.is_Number or x.is_NumberSymbol:
            r = mpmath.mpf(x.p) / x.q if x.is_Rational else mpmath.mpf(sp.N(x, mpmath.mp.dps + 5))
        elif x.is_Add:
            r = mpmath.mpf(0)
            for a in x.args:
                r = go(a) + r
        elif x.is_Mul:
            r = mpmath.mpf(1)
            for a in x.args:
                r = go(a) * r
        elif x.is_Pow:
            b, p = go(x.args[0]), x.args[1]
            if x.args[0] == sp.E:
                q = go(p)
                r = q.compose(exp_t(q.c[0])) if isinstance(q, J) else mpmath.exp(q)
            elif p.is_Number:
                pv = int(p) if p.is_Integer else mpmath.mpf(p.p) / p.q
                r = b.pow(mpmath.mpf(pv) if not isinstance(pv, int) or pv < 0 else pv) if isinstance(b, J) else mpmath.power(b, pv)
            else:
                raise NotImplementedError(str(x))
        else:
            n = x.func.__name__
            a = [go(y) for y in x.args]
            if n in ("tanh", "tan", "coth", "cot"):
                s, c = (FUN["sinh"], FUN["cosh"]) if "h" in n else (FUN["sin"], FUN["cos"])
                q = a[0] if isinstance(a[0], J) else J.const(a[0])
                u, v = q.compose(s(q.c[0])), q.compose(c(q.c[0]))
                r = u / v if n in ("tanh", "tan") else v / u
            elif n == "Abs" or n == "nrpyAbs":
                q = a[0]
                r = (-q if q.c[0] < 0 else q) if isinstance(q, J) else abs(q)
            elif n in FUN:
                q = a[0]
                r = q.compose(FUN[n](q.c[0])) if isinstance(q, J) else getattr(mpmath, n)(q)
            else:
                raise NotImplementedError(str(x))
        memo[x] = r
        return r
    import sys
    sys.setrecursionlimit(20000)
    return go(e)


def poly(rng, scale, centre=0.0, deg=None):
    """random polynomial in x - x0 (t-independent)"""
    deg = ORDER if deg is None else deg
    c = []
    for m in MON:
        c.append(mpmath.mpf(rng.randint(-1000, 1000)) / 1000 * scale if m[0] == 0 and 0 < sum(m) <= deg else (mpmath.mpf(rng.randint(-1000, 1000)) / 1000 * scale + centre if sum(m) == 0 else mpmath.mpf(0)))
    return J(c)


def inv3(g):
    R3 = range(3)
    cof = [[g[(i + 1) % 3][(j + 1) % 3] * g[(i + 2) % 3][(j + 2) % 3] - g[(i + 1) % 3][(j + 2) % 3] * g[(i + 2) % 3][(j + 1) % 3] for j in R3] for i in R3]
    det = g[0][0] * cof[0][0] + g[0][1] * cof[0][1] + g[0][2] * cof[0][2]
    di = det.inv()
    return [[cof[j][i] * di for j in R3] for i in R3], det


def christoffel(g, gi):
    R3 = range(3)
    dg = [[[g[i][j].d(k) for k in R3] for j in R3] for i in R3]
    return [[[sum((gi[i][m] * (dg[m][j][k] + dg[m][k][j] - dg[j][k][m]) for m in R3), J.const(0)) * mpmath.mpf("0.5") for k in R3] for j in R3] for i in R3]


def ricci(G):
    R3 = range(3)
    Z = lambda: J.const(0)
    return [[sum((G[k][i][j].d(k) - G[k][i][k].d(j) + sum((G[k][k][m] * G[m][i][j] - G[k][j][m] * G[m][i][k] for m in R3), Z()) for k in R3), Z()) for j in R3] for i in R3]
