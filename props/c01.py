"""C01  Finite-difference coefficients: exactness of every stencil."""
from math import comb

import sympy as sp

from vf.core import Unit, thorough

LEVEL = "proof"
BOUNDS = ["fd_order: every even order 2..12 (quick), 2..18 (thorough); arbitrary-offset stencils: every width 2..9/11 points (quick/thorough), every offset that keeps the point inside"]
ASSUMPTIONS = ["moment conditions through degree p are equivalent to exactness on all polynomials of degree <= p, hence O(h^(p+1-m)) for every smooth function (Taylor)",
               "the order of accuracy is a configuration value and is enumerated, not quantified"]
TRUSTED = []


def exact1d(pts, m, deg):
    """unique coefficients on pts reproducing the m-th derivative on all polynomials of degree <= deg"""
    # Lagrange: independent of the code's LU route
    x = sp.Symbol("x")
    out = {}
    for i, pi in enumerate(pts):
        poly = sp.Poly(1, x)
        for j, pj in enumerate(pts):
            if i != j:
                poly = poly * sp.Poly(x - pj, x) * sp.Rational(1, pi - pj)
        c = poly.coeff_monomial(x**m) * sp.factorial(m)
        out[pi] = c
    return out


def to_map(coeffs, stencl):
    d = {}
    for c, s in zip(coeffs, stencl):
        k = tuple(int(v) for v in s)
        d[k] = d.get(k, 0) + sp.sympify(c)
    return {k: v for k, v in d.items() if v != 0}


def spec(op, order):
    """contract: the operator as a map  offset -> coefficient (all in units of the grid spacing)"""
    r = order // 2
    dirs = [int(ch) for ch in op if ch.isdigit()]
    name = op.rstrip("0123456789")

    def place(cs, dirn):
        out = {}
        for p, c in cs.items():
            k = [0, 0, 0]
            k[dirn] = p
            if c != 0:
                out[tuple(k)] = c
        return out

    if name == "dD":
        return place(exact1d(list(range(-r, r + 1)), 1, order), dirs[0])
    if name == "dupD":
        return place(exact1d(list(range(-r + 1, r + 2)), 1, order), dirs[0])
    if name == "ddnD":
        return place(exact1d(list(range(-r - 1, r)), 1, order), dirs[0])
    if name == "dfullupD":
        return place(exact1d(list(range(0, order + 1)), 1, order), dirs[0])
    if name == "dfulldnD":
        return place(exact1d(list(range(-order, 1)), 1, order), dirs[0])
    if name == "dKOD":
        m = r + 1
        return place({k - m: sp.Rational((-1) ** (m + 1) * (-1) ** k * comb(2 * m, k), 2 ** (2 * m)) for k in range(2 * m + 1)}, dirs[0])
    if name == "dDD":
        if dirs[0] == dirs[1]:
            return place(exact1d(list(range(-r, r + 1)), 2, order), dirs[0])
        d1 = exact1d(list(range(-r, r + 1)), 1, order)
        out = {}
        for p, c in d1.items():
            for q, e in d1.items():
                if c * e != 0:
                    k = [0, 0, 0]
                    k[dirs[0]], k[dirs[1]] = p, q
                    out[tuple(k)] = c * e
        return out
    raise KeyError(op)


OPS = [f"{n}{d}" for n in ("dD", "dupD", "ddnD", "dfullupD", "dfulldnD", "dKOD") for d in range(3)] + [f"dDD{a}{b}" for a in range(3) for b in range(3)]


def check_map(ctx, tag, got, want, inp):
    bad = [(k, got.get(k, 0), want.get(k, 0)) for k in sorted(set(got) | set(want)) if got.get(k, 0) != want.get(k, 0)]
    ctx.check(tag, not bad, "exact rational arithmetic", cex=f"{inp}: offset,coefficient,required = {bad[:4]}")


def u_ops(ctx, order, history):
    import nrpy.finite_difference as fin

    ctx.under("finite_difference.compute_fdcoeffs_fdstencl", "finite_difference.setup_FD_matrix__return_inverse",
              "finite_difference.setup_FD_matrix__return_inverse_lowlevel", "finite_difference.Matrix_dict.__getitem__")
    ops = OPS if history == "fwd" else list(reversed(OPS))
    if history == "rev":  # a history in which other orders were requested first
        for o in (2, 4, 6):
            for op in ("dKOD0", "dupD1", "dDD02"):
                fin.compute_fdcoeffs_fdstencl(op, o)
    for op in ops:
        c, s = ctx.call(f"compute_fdcoeffs_fdstencl({op!r},{order})", fin.compute_fdcoeffs_fdstencl, op, order)
        ctx.check(f"{op} order {order}: one coefficient per point, no point twice", len(c) == len(s) == len({tuple(k) for k in s}), "exact rational arithmetic",
                  cex=f"compute_fdcoeffs_fdstencl({op!r},{order}) -> {s}")
        got = to_map(c, s)
        want = spec(op, order)
        check_map(ctx, f"{op} order {order}: coefficients", got, want, f"compute_fdcoeffs_fdstencl({op!r}, {order})")
        # property level: moments (exactness on polynomials) and reach, independent of the Lagrange route
        name, dirs = op.rstrip("0123456789"), [int(ch) for ch in op if ch.isdigit()]
        if name != "dKOD":
            der = [0, 0, 0]
            for d in dirs:
                der[d] += 1
            ok, bad = True, None
            for a in range(order + 1):
                for b in range(order + 1) if len(set(dirs)) == 2 else [0]:
                    e = [0, 0, 0]
                    e[dirs[0]] += a
                    if len(set(dirs)) == 2:
                        e[dirs[1]] += b
                    mom = sum(v * sp.prod([sp.Integer(k[d]) ** e[d] if e[d] else 1 for d in range(3)]) for k, v in got.items())
                    want_m = sp.prod([sp.factorial(der[d]) for d in range(3)]) if e == der else 0
                    if mom != want_m:
                        ok, bad = False, (e, mom, want_m)
            ctx.check(f"{op} order {order}: exact on every monomial through degree {order}", ok, "exact rational arithmetic", cex=f"{op} order {order}: monomial exponents {bad}")
        else:
            d = dirs[0]
            moms = [sum(v * sp.Integer(k[d]) ** e if e else v for k, v in got.items()) for e in range(order + 2)]
            ctx.check(f"{op} order {order}: annihilates polynomials of degree < {order+2}", all(m == 0 for m in moms), "exact rational arithmetic", cex=f"moments {moms}")
            top = sum(v * (-1) ** abs(k[d]) for k, v in got.items())
            sgn = (-1) ** (order // 2 + 1 + 1) * (-1) ** (order // 2 + 1)
            ctx.check(f"{op} order {order}: grid-frequency mode damped with factor exactly -1", top == -1, "exact rational arithmetic", cex=f"highest-frequency response {top}")
        if not (len(set(dirs)) == 2):
            ctx.check(f"{op} order {order}: only the named direction is touched", all(k[d] == 0 for k in got for d in range(3) if d not in dirs), "exact rational arithmetic",
                      cex=f"{op} {order}: {got}")
    # frame: repeated call returns the same values (the cached matrices are not mutated)
    for op in ("dKOD0", "dupD1", "dDD01", "dD2"):
        c1 = to_map(*fin.compute_fdcoeffs_fdstencl(op, order))
        check_map(ctx, f"{op} order {order}: second call, same result", c1, spec(op, order), f"2nd compute_fdcoeffs_fdstencl({op!r},{order})")


def u_third(ctx):
    import nrpy.finite_difference as fin

    ctx.under("finite_difference.compute_fdcoeffs_fdstencl")
    ctx.raises("third derivatives are rejected", lambda: fin.compute_fdcoeffs_fdstencl("dDDD012", 4), ValueError)


def u_arb(ctx, width):
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cb
    import nrpy.finite_difference as fin

    ctx.under("CurviBoundaryConditions.get_arb_offset_FD_coeffs_indices", "finite_difference.setup_FD_matrix__return_inverse_lowlevel")
    n = width - 1
    for off in range(-(n // 2), n // 2 + 1):
        if n % 2:
            # odd orders put the expansion point half-way: the code documents (3,0,1)
            pass
        for deriv in (1,):
            c, idx = ctx.call(f"get_arb_offset_FD_coeffs_indices({n},{off},{deriv})", cb.get_arb_offset_FD_coeffs_indices, n, off, deriv)
            half = sp.Rational(n, 2) - n // 2  # 0 for even widths
            pts = [i - half for i in idx]
            ctx.check(f"order {n} offset {off}: contiguous ascending points", idx == list(range(-(n // 2) + off, n - n // 2 + off + 1)) or idx == list(range(idx[0], idx[0] + n + 1)) and idx[0] == -(n // 2) + off,
                      "exact rational arithmetic", cex=f"{n},{off}: indices {idx}")
            moms = [sum(sp.sympify(ci) * (p**k if k else 1) for ci, p in zip(c, pts)) for k in range(n + 1)]
            ok = all(m == (1 if k == deriv else 0) for k, m in enumerate(moms))
            ctx.check(f"order {n} offset {off} first derivative: exact through degree {n}", ok, "exact rational arithmetic", cex=f"get_arb_offset_FD_coeffs_indices({n},{off},1): moments {moms}")
        M = ctx.call("setup_FD_matrix__return_inverse", fin.setup_FD_matrix__return_inverse, width, off)
        V = sp.Matrix(width, width, lambda i, j: (j - sp.Rational(width - 1, 2) + off) ** i if i else 1)
        ctx.check(f"width {width} shift {off}: inverse of the Vandermonde matrix", M * V == sp.eye(width), "exact rational arithmetic",
                  cex=f"setup_FD_matrix__return_inverse({width},{off}) = {M}")


def units():
    mx = 18 if thorough() else 12
    us = [Unit(f"operators/order{o}/{h}", u_ops, (o, h), weight=o) for o in range(2, mx + 1, 2) for h in ("fwd", "rev")]
    us += [Unit(f"arbitrary-offset/width{w}", u_arb, (w,), weight=w) for w in range(2, (14 if thorough() else 12))]
    us.append(Unit("third-derivative", u_third))
    return us
