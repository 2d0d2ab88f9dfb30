"""C24  The relativistic-hydrodynamics expressions are the conservation laws of a perfect fluid; HLL fluxes and speeds are those of the Riemann fan."""
import contextlib
import io
import itertools
import random

import mpmath
import sympy as sp
import z3

from props.c12 import CFS, R, R3, X, e4phi, field, pre_map, sampler, setcf
from vf import algnf, smt
from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.reference_metric", "nrpy.equations.grhd.GRHD_equations", "nrpy.equations.grhd.HLL_fluxes"]
EXPLANATION = "GRHD_equations, characteristic speeds, HLL fluxes and the branch-free minimum/maximum functions carry contracts stated with the four-dimensional line element; source and connection terms are compared with the divergence of the stress-energy tensor computed from four-dimensional Christoffel symbols."
BOUNDS = "coordinate systems and conformal factors as listed in the units; identities for which the normal form does not finish are tested at random points (bounded rows)"
ASSUMPTIONS = ["the conformal metric has the determinant of the reference metric (BSSN convention), so alpha e^(6 phi) sqrt(ghat) is the four-volume density",
               "lapse, metric determinants and conformal factors positive; characteristic quadratic with positive leading coefficient and real roots where roots are claimed",
               "reference-metric fields are those of the coordinate map (C10); arithmetic is real"]
TRUSTED = ["sympy differentiation and rational normal forms", "z3"]
R4 = range(4)
G = "nrpy.equations.grhd."
UND = tuple(G + "GRHD_equations.GRHD_Equations." + n for n in ("__init__", "compute_T4UU", "compute_T4UD", "compute_rho_star", "compute_Ye_star", "compute_tau_tilde", "compute_S_tildeD", "compute_vU_from_u4U__no_speed_limit", "compute_rho_star_fluxU", "compute_Ye_star_fluxU", "compute_tau_tilde_fluxU", "compute_S_tilde_fluxUD", "compute_tau_source_term", "compute_rho_star__Ye_star__and_tau_connection_terms", "compute_S_tilde_connection_termsD", "compute_S_tilde_source_termD", "construct_all_equations"))


def adj_inv(g):
    c = [[g[(j + 1) % 3][(i + 1) % 3] * g[(j + 2) % 3][(i + 2) % 3] - g[(j + 1) % 3][(i + 2) % 3] * g[(j + 2) % 3][(i + 1) % 3] for j in R3] for i in R3]
    det = sum(g[0][k] * c[k][0] for k in R3)
    return [[c[i][j] / det for j in R3] for i in R3]


def four(g, b, a):
    """g_{mu nu} and g^{mu nu} of ds^2 = -a^2 dt^2 + g_ij (dx^i + b^i dt)(dx^j + b^j dt)"""
    gU = adj_inv(g)
    bD = [sum(g[i][j] * b[j] for j in R3) for i in R3]
    D = [[-a ** 2 + sum(bD[i] * b[i] for i in R3)] + bD] + [[bD[i]] + [g[i][j] for j in R3] for i in R3]
    U = [[-1 / a ** 2] + [b[i] / a ** 2 for i in R3]] + [[b[i] / a ** 2] + [gU[i][j] - b[i] * b[j] / a ** 2 for j in R3] for i in R3]
    return D, U


def samp(syms, rng):
    out = sampler(syms, rng)
    for s in syms:
        n = str(s)
        if n.startswith("alpha") and "D" not in n:
            out[s] = mpmath.mpf(rng.uniform(0.5, 1.4))
    return out


EQ = lambda flat: dict(budget=60 if thorough() else (6 if flat else 1), sampler=samp, pit_tries=3)


def unfloat(e):
    return sp.sympify(e).replace(lambda t: t.is_Float and t == sp.nsimplify(t), lambda t: sp.nsimplify(t))


def u_equations(ctx, name, cf, pre):
    import nrpy.reference_metric as refmetric
    from nrpy.equations.grhd.GRHD_equations import GRHD_Equations
    ctx.under(*UND)
    setcf(cf)
    o = ctx.call(f"GRHD_Equations({name}, {pre})", GRHD_Equations, CoordSystem=name, enable_rfm_precompute=pre)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.call("construct_all_equations", o.construct_all_equations)
        ctx.call("compute_vU_from_u4U__no_speed_limit", o.compute_vU_from_u4U__no_speed_limit)
    rfm = refmetric.reference_metric[name]
    pm = pre_map(name) if pre else {}
    C = lambda e: unfloat(field(R(e).xreplace(pm)))  # the code's value, fields as functions of the coordinates
    ReU, ghat, ReDD = [R(t) for t in rfm.ReU], rfm.ghatDD, rfm.ReDD
    Gh = [[[R(rfm.GammahatUDD[i][j][k]) for k in R3] for j in R3] for i in R3]
    f = lambda n: sp.Function(n)(*X)
    srt = lambda i, j: "".join(sorted(f"{i}{j}"))
    al, trK, c = f("alpha"), f("trK"), f("cf")
    be = [f(f"vetU{i}") * ReU[i] for i in R3]
    e4 = e4phi(cf, c)
    gam = [[e4 * (f("hDD" + srt(i, j)) * R(ReDD[i][j]) + R(ghat[i][j])) for j in R3] for i in R3]
    K = [[e4 * f("aDD" + srt(i, j)) * R(ReDD[i][j]) + gam[i][j] * trK / 3 for j in R3] for i in R3]
    e6 = {"phi": sp.exp(6 * c), "W": c ** -3, "chi": c ** sp.Rational(-3, 2)}[cf]
    ut, rho, P, h, Ye = (sp.Symbol(n, real=True) for n in ("u4Ut", "rhob", "P", "h", "Ye"))
    v = [sp.Symbol(f"rescaledvU{i}", real=True) * ReU[i] for i in R3]
    u = [ut] + [v[i] * ut for i in R3]
    gD, gU = four(gam, be, al)
    T = [[rho * h * u[m] * u[n] + P * gU[m][n] for n in R4] for m in R4]
    TD = [[rho * h * u[m] * sum(u[d] * gD[d][n] for d in R4) + (P if m == n else 0) for n in R4] for m in R4]
    E = EQ(name == "Cartesian")
    q = lambda nm, a, b: ctx.eq(nm, C(a), b, **E)
    re4 = [sp.S.One] + ReU
    for m in R4:
        for n in R4:
            q(f"T4UU[{m}][{n}] of a perfect fluid", o.T4UU[m][n], T[m][n])
            q(f"T4UD[{m}][{n}] = T^m_n", o.T4UD[m][n], TD[m][n])
            q(f"rescaledT4UU[{m}][{n}]", o.rescaledT4UU[m][n], C(o.T4UU[m][n]) / (re4[m] * re4[n]))
            q(f"rescaledT4UD[{m}][{n}]", o.rescaledT4UD[m][n], C(o.T4UD[m][n]) * re4[n] / re4[m])
    vol = al * e6
    rs = vol * rho * ut
    q("rho_star", o.rho_star, rs)
    q("Ye_star", o.Ye_star, Ye * rs)
    q("tau_tilde", o.tau_tilde, al * vol * T[0][0] - rs)
    for j in R3:
        q(f"v^{j}", o.VU[j], v[j])
        q(f"v^{j} from the four-velocity", o.VU_from_u4U[j], v[j])
        q(f"S_tildeD[{j}]", o.S_tildeD[j], vol * TD[0][j + 1])
        q(f"rescaled S_tildeD[{j}]", o.rescaledS_tildeD[j], vol * TD[0][j + 1] * ReU[j])
        for nm, val in (("rho_star_fluxU", rs * v[j]), ("Ye_star_fluxU", Ye * rs * v[j]), ("tau_tilde_fluxU", al * vol * T[0][j + 1] - rs * v[j])):
            q(f"{nm}[{j}]", getattr(o, nm)[j], val)
            q(f"rescaled_{nm}[{j}]", getattr(o, "rescaled_" + nm)[j], val / ReU[j])
        for i in R3:
            q(f"S_tilde_fluxUD[{j}][{i}]", o.S_tilde_fluxUD[j][i], vol * TD[j + 1][i + 1])
            q(f"rescaled_S_tilde_fluxUD[{j}][{i}]", o.rescaled_S_tilde_fluxUD[j][i], vol * TD[j + 1][i + 1] * ReU[i] / ReU[j])
    # sources: what the divergence of T leaves over
    at, bt = sp.Symbol("dt_alpha", real=True), [sp.Symbol(f"dt_beta{i}", real=True) for i in R3]
    gt = [[-2 * al * K[i][j] + sum(be[k] * gam[i][j].diff(X[k]) + gam[k][j] * be[k].diff(X[i]) + gam[i][k] * be[k].diff(X[j]) for k in R3) for j in R3] for i in R3]

    def dg(m, a, b):
        """partial_m g_{ab}"""
        if m:
            return gD[a][b].diff(X[m - 1])
        if a and b:
            return gt[a - 1][b - 1]
        if a or b:
            i = max(a, b) - 1
            return sum(gt[i][j] * be[j] + gam[i][j] * bt[j] for j in R3)
        return -2 * al * at + sum(gt[i][j] * be[i] * be[j] + 2 * gam[i][j] * be[i] * bt[j] for i in R3 for j in R3)

    DG = [[[dg(m, a, b) for b in R4] for a in R4] for m in R4]
    Gam0 = [[sum(gU[0][l] * (DG[m][l][n] + DG[n][l][m] - DG[l][m][n]) for l in R4) / 2 for n in R4] for m in R4]
    dal = [at] + [al.diff(X[k]) for k in R3]
    q("tau_source_term = alpha e^(6 phi) (T^{0 m} d_m alpha - alpha Gamma^0_{mn} T^{mn})", o.tau_source_term, vol * (sum(T[0][m] * dal[m] for m in R4) - al * sum(Gam0[m][n] * T[m][n] for m in R4 for n in R4)))
    div = lambda F: sum(Gh[i][i][j] * F[j] for i in R3 for j in R3)
    q("rho_star connection term", o.rho_star_connection_term, div([rs * v[j] for j in R3]))
    q("Ye_star connection term", o.Ye_star_connection_term, div([Ye * rs * v[j] for j in R3]))
    q("tau connection term", o.tau_connection_term, div([al * vol * T[0][j + 1] - rs * v[j] for j in R3]))
    for i in R3:
        F = [[vol * TD[j + 1][l + 1] for l in R3] for j in R3]
        con = sum(Gh[l][j][i] * F[j][l] for j in R3 for l in R3)
        q(f"S_tilde connection term [{i}]", o.S_tilde_connection_termsD[i], div([F[j][i] for j in R3]) - con)
        q(f"S_tilde_source_termD[{i}] = alpha e^(6 phi) T^{{mn}} d_i g_mn / 2 - Gammahat", o.S_tilde_source_termD[i], vol * sum(T[m][n] * DG[i + 1][m][n] for m in R4 for n in R4) / 2 - con)


def u_minmax(ctx):
    """branch-free minimum, maximum and comparisons, for all real arguments"""
    import nrpy.equations.grhd.Min_Max_and_Piecewise_Expressions as noif
    M = G + "Min_Max_and_Piecewise_Expressions."
    ctx.under(*[M + n for n in ("min_noif", "max_noif", "coord_leq_bound", "coord_geq_bound", "coord_less_bound", "coord_greater_bound")])
    a, b = sp.symbols("a b", real=True)
    za, zb, zt = z3.Real("a"), z3.Real("b"), z3.Real("tiny")

    def tz(e):
        e = unfloat(e)
        if e == noif.TINYDOUBLE:
            return zt
        if e.is_Symbol:
            return {"a": za, "b": zb}[str(e)]
        if e.is_Number:
            return z3.RealVal(str(e))
        if e.is_Add:
            return sum((tz(t) for t in e.args[1:]), tz(e.args[0]))
        if e.is_Mul:
            r = tz(e.args[0])
            for t in e.args[1:]:
                r = r * tz(t)
            return r
        if e.is_Pow and e.exp == -1:
            return 1 / tz(e.base)
        if e.func == noif.nrpyAbs:
            x = tz(e.args[0])
            return z3.If(x >= 0, x, -x)
        raise ValueError(str(e))

    mn, mx = (lambda x, y: z3.If(x <= y, x, y)), (lambda x, y: z3.If(x >= y, x, y))
    for fn, sf in ((noif.min_noif, mn), (noif.max_noif, mx)):
        for x, y in itertools.product((a, b, sp.S.Zero, 0, 0.0, sp.Integer(3), a - b, a * 2), repeat=2):
            if all(not isinstance(t, sp.Basic) or t.is_Number for t in (x, y)):
                continue
            r = ctx.call(f"{fn.__name__}({x}, {y})", fn, x, y)
            ctx.z3(f"{fn.__name__}({x!r}, {y!r}) for all values", tz(r) == sf(tz(sp.sympify(x)), tz(sp.sympify(y))))
    d = za - zb
    for fn, one, zero in ((noif.coord_leq_bound, d <= 0, d > zt), (noif.coord_geq_bound, d >= 0, d < -zt)):
        r = tz(ctx.call(fn.__name__, fn, a, b))
        ctx.z3(f"{fn.__name__} is 1 where the bound holds", z3.Implies(z3.And(zt > 0, one), r == 1))
        ctx.z3(f"{fn.__name__} is 0 beyond it", z3.Implies(z3.And(zt > 0, zero), r == 0))
    for fn, one, zero in ((noif.coord_less_bound, d < 0, z3.And(d >= 0, d != zt)), (noif.coord_greater_bound, d > 0, z3.And(d <= 0, d != -zt))):
        r = tz(ctx.call(fn.__name__, fn, a, b))
        dd = z3.If(d >= 0, d, -d)
        ctx.z3(f"{fn.__name__} is 1 up to tiny/|x - x*| where the bound holds", z3.Implies(z3.And(zt > 0, one), z3.And(r <= 1, (1 - r) * dd <= zt)))
        ctx.z3(f"{fn.__name__} is 0 where it does not", z3.Implies(z3.And(zt > 0, zero), r == 0))


def phys(syms, rng):
    """a metric with shift, two fluid states with normalised four-velocities, sound speeds below one"""
    S = lambda n: sp.Symbol(n, real=True)
    U = lambda a, b: mpmath.mpf(rng.uniform(a, b))
    out = samp(syms, rng)
    al, be = U(0.5, 1.5), [U(-1.5, 1.5) for _ in R3]
    g = {(i, j): U(-0.3, 0.3) + (2 if i == j else 0) for i in R3 for j in R3 if i <= j}
    out[S("alp")] = al
    for k in R3:
        out[S(f"bU{k}")] = be[k]
    for (i, j), v in g.items():
        out[S(f"gammaDD{i}{j}")] = v
    for s in "rl":
        w = [U(-2, 2) for _ in R3]
        ut = mpmath.sqrt(1 + sum(g[min(a, b), max(a, b)] * w[a] * w[b] for a in R3 for b in R3)) / al
        for m, v in enumerate([ut] + [w[a] - be[a] * ut for a in R3]):
            out[S(f"u{s}{m}")] = v
        out[S("cs2" + s)] = U(0.02, 0.9)
    return out


def u_speeds(ctx, dirn):
    """find_cp_cm: the two roots of the dispersion relation, ordered; find_cmax_cmin: the fan of both sides and zero"""
    from nrpy.equations.grhd.characteristic_speeds import find_cmax_cmin, find_cp_cm
    ctx.under(G + "characteristic_speeds.find_cp_cm", G + "characteristic_speeds.find_cmax_cmin")
    import nrpy.equations.grhd.Min_Max_and_Piecewise_Expressions as noif
    S = lambda n: sp.Symbol(n, real=True)
    g4 = [[S(f"g4UU{min(m,n)}{max(m,n)}") for n in R4] for m in R4]
    u = [S(f"u4U{m}") for m in R4]
    cs2 = S("cs2")
    cm, cp = ctx.call(f"find_cp_cm({dirn})", find_cp_cm, dirn, g4, u, cs2)
    ctx.check("arguments unchanged", all(g4[m][n] == S(f"g4UU{min(m,n)}{max(m,n)}") for m in R4 for n in R4) and u == [S(f"u4U{m}") for m in R4], "frame")
    rng = random.Random(5 + dirn)
    i = dirn + 1
    with mpmath.workdps(40):
        for case in range(60 if thorough() else 25):
            mp = mpmath.mpf
            # a metric and a fluid four-velocity of any size; sound speed in (0,1)
            al = mp(rng.uniform(0.3, 1.5))
            L = [[mp(rng.uniform(-0.5, 0.5)) if j < k else (mp(rng.uniform(0.5, 1.5)) if j == k else mp(0)) for j in R3] for k in R3]
            gam = [[sum(L[a][k] * L[b][k] for k in R3) for b in R3] for a in R3]
            be = [mp(rng.uniform(-1, 1)) for _ in R3]
            gD, gU = four(gam, be, al)
            w = [mp(rng.uniform(-3, 3)) for _ in R3]
            ut = mpmath.sqrt(1 + sum(gam[a][b] * w[a] * w[b] for a in R3 for b in R3)) / al
            uu = [ut] + [w[a] - be[a] * ut for a in R3]
            cc = mp(rng.uniform(0.01, 0.99))
            if case == 0:
                cc = mp(0)
            pt = {g4[m][n]: gU[m][n] for m in R4 for n in R4}
            pt.update({u[m]: uu[m] for m in R4})
            pt[cs2] = cc
            ev = lambda e: algnf.DagEval(pt)(e.replace(noif.nrpyAbs, sp.Abs))
            lo, hi = ev(cm), ev(cp)
            disp = lambda x: (1 - cc) * (uu[i] - x * uu[0]) ** 2 - cc * (gU[i][i] - 2 * x * gU[0][i] + x * x * gU[0][0])
            big = 1 + abs(lo) + abs(hi) + uu[0] ** 2 + uu[i] ** 2
            ok = abs(disp(lo)) < big ** 2 * mp(10) ** -15 and abs(disp(hi)) < big ** 2 * mp(10) ** -15 and lo <= hi
            if case:
                ok = ok and hi - lo > mp(10) ** -8  # two distinct roots: both found
            ctx.check(f"direction {dirn} case {case}: both roots of (u.k)^2 (1 - cs2) = cs2 k.k, c- <= c+", ok, "exact evaluation", cex=f"c- = {mpmath.nstr(lo, 15)} residual {mpmath.nstr(disp(lo), 5)}, c+ = {mpmath.nstr(hi, 15)} residual {mpmath.nstr(disp(hi), 5)} at metric {gU}, u = {uu}, cs2 = {cc}", bounded=True)
    # cmax / cmin
    g3 = [[S(f"gammaDD{min(m,n)}{max(m,n)}") for n in R3] for m in R3]
    be, al = [S(f"bU{k}") for k in R3], S("alp")
    ur, ul, cr, cl = [S(f"ur{m}") for m in R4], [S(f"ul{m}") for m in R4], S("cs2r"), S("cs2l")
    cmin, cmax = ctx.call(f"find_cmax_cmin({dirn})", find_cmax_cmin, dirn, g3, be, al, ur, ul, cr, cl)
    _, gU = four(g3, be, al)
    ab = lambda e: sp.sympify(e).replace(noif.nrpyAbs, sp.Abs)

    def roots(uu, cc):
        a = (1 - cc) * uu[0] ** 2 - cc * gU[0][0]
        b = 2 * cc * gU[0][i] - 2 * uu[0] * uu[i] * (1 - cc)
        c = (1 - cc) * uu[i] ** 2 - cc * gU[i][i]
        d = sp.sqrt(sp.Max(0, b * b - 4 * a * c))
        return (-b - d) / (2 * a), (-b + d) / (2 * a)
    (lr, hr), (ll, hl) = roots(ur, cr), roots(ul, cl)

    EE = dict(sampler=phys, budget=1, tries=10, pit_tries=30)
    ctx.eq(f"direction {dirn}: cmax = max(0, c+ of both sides)", ab(cmax), sp.Max(0, hr, hl, lr, ll, evaluate=False), **EE)
    ctx.eq(f"direction {dirn}: cmin = -min(0, c- of both sides)", ab(cmin), -sp.Min(0, lr, ll, hr, hl, evaluate=False), **EE)


def u_hll(ctx, dirn):
    from nrpy.equations.grhd.HLL_fluxes import HLL_solver, calculate_GRHD_Tmunu_and_contractions, calculate_HLL_fluxes
    ctx.under(G + "HLL_fluxes.HLL_solver", G + "HLL_fluxes.calculate_GRHD_Tmunu_and_contractions", G + "HLL_fluxes.calculate_HLL_fluxes")
    S = lambda n: sp.Symbol(n, real=True)
    cM, cm, Fr, Fl, Ur, Ul = (sp.Symbol(n, positive=True) for n in ("cM", "cm", "Fr", "Fl", "Ur", "Ul"))
    F = ctx.call("HLL_solver", HLL_solver, cM, cm, Fr, Fl, Ur, Ul)
    ctx.eq("HLL flux: conservation over the fan (right state moves at cM, left at -cm)", F, (cm * Fr + cM * Fl - cm * cM * (Ur - Ul)) / (cM + cm))
    Us = (cM * Ur + cm * Ul - Fr + Fl) / (cM + cm)
    ctx.eq("HLL flux: Rankine-Hugoniot on the right", F - Fr, cM * (Us - Ur))
    ctx.eq("HLL flux: Rankine-Hugoniot on the left", F - Fl, -cm * (Us - Ul))
    g3 = [[S(f"gammaDD{min(m,n)}{max(m,n)}") for n in R3] for m in R3]
    be, al, e6 = [S(f"bU{k}") for k in R3], S("alp"), S("esix")
    sd = {s: dict(u=[S(f"u{s}{m}") for m in R4], rho=S("rho" + s), Ye=S("Ye" + s), P=S("P" + s), h=S("h" + s), c=S("cs2" + s)) for s in "rl"}
    gD, gU = four(g3, be, al)
    vol = al * e6

    def cons(d):
        u, rho, Ye, P, h = d["u"], d["rho"], d["Ye"], d["P"], d["h"]
        k = dirn + 1
        T = lambda m, n: rho * h * u[m] * u[n] + P * gU[m][n]
        TD = lambda m, n: rho * h * u[m] * sum(u[q] * gD[q][n] for q in R4) + (P if m == n else 0)
        U = [vol * rho * u[0], vol * rho * u[0] * Ye, al * vol * T(0, 0) - vol * rho * u[0]] + [vol * TD(0, i + 1) for i in R3]
        Fx = [vol * rho * u[k], vol * rho * u[k] * Ye, al * vol * T(0, k) - vol * rho * u[k]] + [vol * TD(k, i + 1) for i in R3]
        return U, Fx
    names = ["rho_star", "Ye_star", "tau_tilde", "S_tilde0", "S_tilde1", "S_tilde2"]
    E = dict(sampler=samp, budget=10, pit_tries=6)
    CF = {}
    for s in "rl":
        d = sd[s]
        r = ctx.call(f"calculate_GRHD_Tmunu_and_contractions({dirn})", calculate_GRHD_Tmunu_and_contractions, dirn, g3, be, al, e6, d["rho"], d["Ye"], d["P"], d["h"], d["u"])
        u_, f_ = [r[0], r[2], r[4]] + list(r[6]), [r[1], r[3], r[5]] + list(r[7])
        CF[s] = (u_, f_)
        U, Fx = cons(d)
        for n, a, b, c, e in zip(names, u_, U, f_, Fx):
            ctx.eq(f"side {s} U_{n}", a, b, **E)
            ctx.eq(f"side {s} F_{n} in direction {dirn}", c, e, **E)
    r = ctx.call(f"calculate_HLL_fluxes({dirn})", calculate_HLL_fluxes, dirn, al, g3, be, e6, sd["r"]["u"], sd["l"]["u"], sd["r"]["rho"], sd["l"]["rho"], sd["r"]["Ye"], sd["l"]["Ye"], sd["r"]["P"], sd["l"]["P"], sd["r"]["h"], sd["l"]["h"], sd["r"]["c"], sd["l"]["c"])
    ctx.check("arguments unchanged", be == [S(f"bU{k}") for k in R3] and sd["r"]["u"] == [S(f"ur{m}") for m in R4], "frame")
    from nrpy.equations.grhd.characteristic_speeds import find_cmax_cmin
    import nrpy.equations.grhd.Min_Max_and_Piecewise_Expressions as noif
    lo, hi = find_cmax_cmin(dirn, g3, be, al, sd["r"]["u"], sd["l"]["u"], sd["r"]["c"], sd["l"]["c"])  # its contract: units "characteristic speeds"
    ab = lambda e: sp.sympify(e).replace(noif.nrpyAbs, sp.Abs)
    (U_r, F_r), (U_l, F_l) = cons(sd["r"]), cons(sd["l"])
    lo, hi = ab(lo), ab(hi)

    for k, (n, v) in enumerate(zip(names, list(r[:3]) + list(r[3]))):
        ctx.eq(f"{n} HLL flux in direction {dirn}", ab(v), (lo * F_r[k] + hi * F_l[k] - lo * hi * (U_r[k] - U_l[k])) / (lo + hi), sampler=phys, budget=1, pit_tries=8)


def units():
    us = [Unit("branch-free minimum and maximum", u_minmax)]
    for d in R3:
        us.append(Unit(f"characteristic speeds[{d}]", u_speeds, (d,)))
        us.append(Unit(f"HLL fluxes[{d}]", u_hll, (d,)))
    L = [("Cartesian", cf, False) for cf in CFS] + [("Spherical", "W", False), ("Spherical", "chi", True), ("SinhSpherical", "phi", True), ("SinhCylindrical", "chi", False), ("SinhSymTP", "W", False), ("SinhCylindricalv2n2", "W", True)]
    if thorough():
        L += [("SymTP", "phi", True), ("NobleSphericalThetaOptionOne", "W", False), ("Cylindrical", "W", True), ("SinhCartesian", "chi", False), ("HoleySinhSpherical", "chi", True)]
    for n, cf, pre in L:
        us.append(Unit(f"conservation laws[{n},{cf}{',precomputed' if pre else ''}]", u_equations, (n, cf, pre), weight=20, timeout=800))
    return us
