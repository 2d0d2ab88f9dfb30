"""Algebraic back end:  forall x . lhs(x) == rhs(x)  by normal form.

Terms are rewritten to rational functions over Q in a finite set of atoms
(symbols, sin/cos of an argument, exponentials of a monomial, radicals, and
uninterpreted function applications); sin^2+cos^2=1 and q^n=base are applied as
reduction rules.  If the reduced numerator is the zero polynomial the identity
holds wherever both sides are defined: this is a proof for all real inputs.
A difference is refuted by evaluating both sides of the terms the real code
produced at concrete points with 50 digits.  If the normal form cannot be
computed within its budget the identity is tested at random points and the
obligation is reported as `bounded` (backend PIT), never as proved.
"""

import random
import signal
import time
from collections import namedtuple
from math import gcd

import mpmath
import sympy as sp
from sympy.polys.rings import ring
from sympy.polys.domains import QQ

Result = namedtuple("Result", "status backend detail cex")


class Budget(Exception):
    pass


class time_limit:
    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise Budget()

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- pass 1
class Atomizer:
    def __init__(self):
        self.memo = {}
        self.atoms = {}
        self.trig = {}  # base arg -> (s, c)
        self.expb = {}  # monomial key -> symbol, denominators handled by lcm
        self.rad = {}
        self.rels = []  # (sym, n, base_expr) in creation order
        self.n = 0
        self.expden = {}
        self.trigden = {}

    def prescan(self, e):
        """common denominators of the trigonometric arguments (half angles)"""
        for f in e.atoms(sp.sin, sp.cos, sp.tan, sp.cot, sp.sec, sp.csc):
            for t in sp.Add.make_args(sp.expand(f.args[0])):
                c, rest = t.as_coeff_Mul()
                if c.is_Rational:
                    q = self.trigden.get(rest, 1)
                    self.trigden[rest] = q * c.q // gcd(q, c.q)

    def fresh(self, p):
        self.n += 1
        return sp.Symbol(f"_{p}{self.n}")

    def atom(self, e):
        if e not in self.atoms:
            self.atoms[e] = self.fresh("a")
        return self.atoms[e]

    def trig_pair(self, arg):
        """(sin, cos) of arg as rational expressions."""
        arg = sp.expand(arg)
        if arg == 0:
            return sp.S.Zero, sp.S.One
        if isinstance(arg, sp.Add):
            s, c = sp.S.Zero, sp.S.One
            for t in arg.args:
                s2, c2 = self.trig_pair(t)
                s, c = s * c2 + c * s2, c * c2 - s * s2
            return s, c
        coeff, rest = arg.as_coeff_Mul()
        if rest == sp.pi:
            return self.conv_num_trig(sp.sin(arg)), self.conv_num_trig(sp.cos(arg))
        if not coeff.is_Rational:
            coeff, rest = sp.S.One, arg
        q = self.trigden.get(rest, 1)
        q = q * coeff.q // gcd(q, coeff.q)
        p = coeff.p * (q // coeff.q)
        key = rest / q
        if key not in self.trig:
            s, c = self.fresh("s"), self.fresh("c")
            self.trig[key] = (s, c)
            self.rels.append((c, 2, 1 - s**2))
        s1, c1 = self.trig[key]
        s, c = sp.S.Zero, sp.S.One
        for _ in range(abs(p)):
            s, c = s * c1 + c * s1, c * c1 - s * s1
        if p < 0:
            s = -s
        return s, c

    def conv_num_trig(self, e):
        if e.has(sp.sin, sp.cos):
            return self.atom(e)
        return self.conv(e)

    def exp_of(self, arg):
        arg = sp.expand(arg)
        out = sp.S.One
        for t in sp.Add.make_args(arg):
            if t == 0:
                continue
            coeff, rest = t.as_coeff_Mul()
            if not coeff.is_Rational:
                coeff, rest = sp.S.One, t
            if rest.func is sp.log and coeff.is_Integer:
                out *= self.conv(rest.args[0]) ** coeff
                continue
            den = self.expden.setdefault(rest, 12)
            if den % coeff.q:
                raise Unsupported("exp denominators")
            if rest not in self.expb:
                self.expb[rest] = self.fresh("E")
            out *= self.expb[rest] ** (coeff.p * (den // coeff.q))
        return out

    def conv(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.conv_(e)
            self.memo[e] = r
        return r

    def conv_(self, e):
        if e.is_Rational:
            return e
        if e.is_Float:
            return sp.Rational(str(e)) if False else sp.Rational(e)
        if e.is_Symbol:
            return e
        if e is sp.pi or e is sp.E or e is sp.EulerGamma or e is sp.GoldenRatio:
            return self.atom(e) if e is not sp.E else self.exp_of(sp.S.One)
        if e is sp.I:
            if e not in self.atoms:
                self.atoms[e] = self.fresh("i")
                self.rels.append((self.atoms[e], 2, sp.S.NegativeOne))
            return self.atoms[e]
        if isinstance(e, sp.Add):
            return sp.Add(*[self.conv(a) for a in e.args], evaluate=False)
        if isinstance(e, sp.Mul):
            return sp.Mul(*[self.conv(a) for a in e.args], evaluate=False)
        if isinstance(e, sp.exp):
            return self.exp_of(e.args[0])
        if isinstance(e, sp.Pow):
            b, x = e.args
            if b is sp.E:
                return self.exp_of(x)
            if x.is_Integer:
                return sp.Pow(self.conv(b), x, evaluate=False)
            if x.is_Float and x == int(x):
                return sp.Pow(self.conv(b), int(x), evaluate=False)
            if x.is_Rational:
                return sp.Pow(self.radical(b, x.q), x.p, evaluate=False)
            c, rest = sp.expand(x).as_coeff_Mul()
            # b**(symbolic): exp(x log b)
            return self.exp_like(b, x)
        if isinstance(e, (sp.sin, sp.cos, sp.tan, sp.cot, sp.sec, sp.csc)):
            s, c = self.trig_pair(e.args[0])
            if isinstance(e, sp.sin):
                return s
            if isinstance(e, sp.cos):
                return c
            if isinstance(e, sp.tan):
                return s / c
            if isinstance(e, sp.cot):
                return c / s
            if isinstance(e, sp.sec):
                return 1 / c
            return 1 / s
        if isinstance(e, (sp.sinh, sp.cosh, sp.tanh, sp.coth, sp.sech, sp.csch)):
            E = self.exp_of(e.args[0])
            sh, ch = (E - 1 / E) / 2, (E + 1 / E) / 2
            return {sp.sinh: sh, sp.cosh: ch, sp.tanh: sh / ch, sp.coth: ch / sh, sp.sech: 1 / ch, sp.csch: 1 / sh}[e.func]
        if isinstance(e, sp.Abs):
            a = e.args[0]
            if e not in self.atoms:
                y = self.fresh("b")
                self.atoms[e] = y
                self.rels.append((y, 2, self.conv(a) ** 2))
            return self.atoms[e]
        if isinstance(e, sp.Tuple) or not isinstance(e, sp.Expr):
            raise Unsupported(type(e).__name__)
        # uninterpreted application: arguments normalised
        return self.atom(e)

    def exp_like(self, b, x):
        key = sp.Pow(b, x)
        terms = sp.Add.make_args(sp.expand(x))
        out = sp.S.One
        for t in terms:
            if t.is_Integer:
                out *= self.conv(b) ** t
            else:
                out *= self.atom(sp.Pow(b, t, evaluate=False))
        return out

    def radical(self, b, n):
        """b**(1/n) with its defining relation; positive monomial factors are kept."""
        b = sp.factor_terms(b) if not b.is_Symbol else b
        key = (b, n)
        if key not in self.rad:
            base = self.conv(b)
            y = self.fresh("r")
            self.rad[key] = y
            self.rels.append((y, n, base))
        return self.rad[key]


# ---------------------------------------------------------------- pass 2
class Frac:
    __slots__ = ("num", "den")

    def __init__(self, num, den):
        self.num, self.den = num, den


class ToPoly:
    def __init__(self, gens):
        self.R, *_ = ring(gens, QQ) if gens else ring([sp.Symbol("_dummy")], QQ)
        self.map = {g: self.R.gens[i] for i, g in enumerate(gens)}
        self.memo = {}

    def dpoly(self, den):
        out = self.R.one
        for f, k in den.items():
            out = out * f**k
        return out

    def add(self, fs):
        den = {}
        for f in fs:
            for p, k in f.den.items():
                if den.get(p, 0) < k:
                    den[p] = k
        num = self.R.zero
        for f in fs:
            n = f.num
            for p, k in den.items():
                d = k - f.den.get(p, 0)
                if d:
                    n = n * p**d
            num = num + n
        return Frac(num, den)

    def mul(self, fs):
        num, den = self.R.one, {}
        for f in fs:
            num = num * f.num
            for p, k in f.den.items():
                den[p] = den.get(p, 0) + k
        return self.cancel(Frac(num, den))

    def cancel(self, f):
        """cheap cancellation: exact division of the numerator by denominator factors"""
        if not f.den or not f.num:
            return f if f.num else Frac(f.num, {})
        den = dict(f.den)
        num = f.num
        for p in list(den):
            if len(p) > 12 and len(num) > 400:
                continue
            while den.get(p, 0) > 0:
                q, r = num.div(p)
                if r:
                    break
                num = q
                den[p] -= 1
            if den.get(p) == 0:
                del den[p]
        return Frac(num, den)

    def inv(self, f):
        if not f.num:
            raise ZeroDivisionError
        num = self.dpoly(f.den)
        c = f.num.LC
        p = f.num.quo_ground(c)
        num = num.quo_ground(c)
        den = {}
        # split off monomial factor
        terms = p.listterms() if hasattr(p, "listterms") else list(p.terms())
        if len(terms) == 1:
            mon = terms[0][0]
            for g, k in zip(self.R.gens, mon):
                if k:
                    den[g] = k
        else:
            exps = list(map(min, zip(*[m for m, _ in terms])))
            if any(exps):
                mono = self.R.one
                for g, k in zip(self.R.gens, exps):
                    if k:
                        den[g] = den.get(g, 0) + k
                        mono = mono * g**k
                p = p.exquo(mono)
            den[p] = den.get(p, 0) + 1
        return self.cancel(Frac(num, den))

    def conv(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.conv_(e)
            self.memo[e] = r
        return r

    def conv_(self, e):
        if e.is_Rational:
            return Frac(self.R.ground_new(QQ(e.p, e.q)), {})
        if e.is_Symbol:
            return Frac(self.map[e], {})
        if isinstance(e, sp.Add):
            return self.add([self.conv(a) for a in e.args])
        if isinstance(e, sp.Mul):
            return self.mul([self.conv(a) for a in e.args])
        if isinstance(e, sp.Pow) and e.args[1].is_Integer:
            f, k = self.conv(e.args[0]), int(e.args[1])
            if k < 0:
                f, k = self.inv(f), -k
            return self.cancel(Frac(f.num**k, {p: n * k for p, n in f.den.items()}))
        raise Unsupported(f"{type(e)} {e}")


def reduce_rel(P, num, gen, n, base):
    """replace gen**n by base in the polynomial num (times a denominator power)."""
    R = P.R
    i = R.gens.index(gen)
    groups = {}
    for mon, c in num.terms():
        k = mon[i]
        m = list(mon)
        m[i] = 0
        groups.setdefault(k, {})[tuple(m)] = c
    mx = max(groups, default=0) // n
    if mx == 0:
        return num
    bn, bd = base.num, P.dpoly(base.den)
    out = R.zero
    for k, d in groups.items():
        q, r = divmod(k, n)
        p = R.from_dict(d) * gen**r
        out = out + p * bn**q * bd ** (mx - q)
    return out


def is_zero_nf(expr):
    A = Atomizer()
    A.prescan(sp.sympify(expr))
    t = A.conv(sp.sympify(expr))
    rel = [(y, n, b) for y, n, b in A.rels]
    syms = set(t.free_symbols)
    for y, n, b in rel:
        syms.add(y)
        syms |= b.free_symbols
    P = ToPoly(sorted(syms, key=str))
    f = P.conv(t)
    num = f.num
    for _ in range(40):
        before = num
        for y, n, b in reversed(rel):
            num = reduce_rel(P, num, P.map[y], n, P.conv(b))
        if not num:
            return True
        if num == before:
            break
    return False


# ---------------------------------------------------------------- numerics
def default_point(syms, rng):
    return {s: mpmath.mpf(rng.randint(1, 10**12)) / mpmath.mpf(7 * 10**11) + mpmath.mpf(rng.randint(1, 10**9)) / 10**19 for s in syms}


_FUN = {sp.sin: mpmath.sin, sp.cos: mpmath.cos, sp.tan: mpmath.tan, sp.cot: mpmath.cot, sp.sec: mpmath.sec, sp.csc: mpmath.csc,
        sp.sinh: mpmath.sinh, sp.cosh: mpmath.cosh, sp.tanh: mpmath.tanh, sp.coth: mpmath.coth, sp.sech: mpmath.sech, sp.csch: mpmath.csch,
        sp.exp: mpmath.exp, sp.log: mpmath.log, sp.asin: mpmath.asin, sp.acos: mpmath.acos, sp.atan: mpmath.atan,
        sp.asinh: mpmath.asinh, sp.acosh: mpmath.acosh, sp.atanh: mpmath.atanh, sp.atan2: mpmath.atan2, sp.Abs: abs, sp.sign: mpmath.sign, sp.Max: lambda *a: max(a), sp.Min: lambda *a: min(a)}


class DagEval:
    """value of a term at a point, each shared subterm evaluated once"""

    def __init__(self, point):
        self.point, self.memo = point, {}

    def __call__(self, e):
        r = self.memo.get(e)
        if r is None:
            r = self.ev(e)
            self.memo[e] = r
        return r

    def ev(self, e):
        if e.is_Symbol:
            return self.point[e]
        if e.is_Integer:
            return mpmath.mpf(int(e))
        if e.is_Rational:
            return mpmath.mpf(int(e.p)) / int(e.q)
        if isinstance(e, sp.Add):
            return mpmath.fsum([self(a) for a in e.args])
        if isinstance(e, sp.Mul):
            r = self(e.args[0])
            for a in e.args[1:]:
                r = r * self(a)
            return r
        if isinstance(e, sp.Pow):
            b, x = e.args
            if x.is_Integer:
                return self(b) ** int(x)
            if x.is_Rational and x.q == 2:
                return mpmath.sqrt(self(b)) ** int(x.p)
            return mpmath.power(self(b), self(x))
        f = _FUN.get(e.func)
        if f is not None:
            return f(*[self(a) for a in e.args])
        syms = sorted(e.free_symbols, key=str)
        if not syms:
            return mpmath.mpmathify(sp.N(e, mpmath.mp.dps + 5))
        return mpmath.mpmathify(sp.lambdify(syms, e, "mpmath")(*[self.point[s] for s in syms]))


def numeric(expr, point, dps=50):
    with mpmath.workdps(dps):
        return DagEval(point)(sp.sympify(expr))


def numeric_pair(lhs, rhs, point, dps=50):
    with mpmath.workdps(dps):
        ev = DagEval(point)
        return mpmath.mpmathify(ev(lhs)), mpmath.mpmathify(ev(rhs))


def differ(a, b, dps=50):
    with mpmath.workdps(dps):
        if mpmath.isnan(a) or mpmath.isnan(b):
            return None
        sc = max(abs(a), abs(b), mpmath.mpf(1))
        return abs(a - b) > sc * mpmath.mpf(10) ** (-dps * 3 // 5)


def funcs_to_symbols(*es):
    """uninterpreted applications / derivatives -> symbols (for numerics)"""
    reps = {}
    for e in es:
        for a in e.atoms(sp.Function, sp.Derivative):
            if isinstance(a, sp.Derivative) or isinstance(a, sp.core.function.AppliedUndef):
                reps[a] = sp.Symbol("_u_" + str(len(reps)), real=True)
    if not reps:
        return es
    ders = {k: v for k, v in reps.items() if isinstance(k, sp.Derivative)}
    out = []
    for e in es:
        e = e.xreplace(ders)
        e = e.xreplace(reps)
        out.append(e)
    return out


def prove_eq(lhs, rhs, sampler=None, budget=60.0, tries=3, pit_tries=12, seed=1, dps=50, tol=None):
    lhs, rhs = sp.sympify(lhs), sp.sympify(rhs)
    diff = lhs - rhs
    if diff == 0:
        return Result("proved", "term identity", "", None)
    lhs, rhs = funcs_to_symbols(lhs, rhs)
    rng = random.Random(seed)
    syms = sorted(lhs.free_symbols | rhs.free_symbols, key=str)
    sampler = sampler or default_point
    done = 0
    for _ in range(tries * 4):
        pt = sampler(syms, rng)
        try:
            a, b = numeric_pair(lhs, rhs, pt, dps)
            d = differ(a, b, dps) if tol is None else (abs(a - b) > tol * max(abs(a), abs(b), 1))
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if d is None:
            continue
        if d:
            cex = "at " + ", ".join(f"{s}={mpmath.nstr(pt[s], 12)}" for s in syms[:40]) + f": code gives {mpmath.nstr(a, 20)}, contract requires {mpmath.nstr(b, 20)}"
            return Result("refuted", "numeric replay (50 digits)", f"difference {mpmath.nstr(a-b, 10)}", cex)
        done += 1
        if done >= tries:
            break
    if done == 0:
        return Result("unknown", "numeric", "no sample point in the domain", None)
    if tol is None:
        try:
            with time_limit(budget):
                if is_zero_nf(lhs - rhs):
                    return Result("proved", "algebraic normal form", "", None)
                why = "normal form nonzero (missing side relations)"
        except (Budget, Unsupported, RecursionError, MemoryError, OverflowError, ZeroDivisionError) as e:
            why = f"{type(e).__name__} {e}"
    else:
        why = "finite-precision constants"
    done = 0
    for _ in range(pit_tries * 4):
        pt = sampler(syms, rng)
        try:
            a, b = numeric_pair(lhs, rhs, pt, dps + 10)
            d = differ(a, b, dps + 10) if tol is None else (abs(a - b) > tol * max(abs(a), abs(b), 1))
        except (ZeroDivisionError, ValueError, OverflowError):
            continue
        if d is None:
            continue
        if d:
            cex = "at " + ", ".join(f"{s}={mpmath.nstr(pt[s], 12)}" for s in syms[:40]) + f": code gives {mpmath.nstr(a, 20)}, contract requires {mpmath.nstr(b, 20)}"
            return Result("refuted", "numeric replay", "", cex)
        done += 1
        if done >= pit_tries:
            break
    return Result("bounded", f"PIT ({done} random points, {dps+10} digits; {why})", "", None)
