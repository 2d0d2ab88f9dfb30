"""C12  ADM, BSSN and four-metric variables describe the same geometry; derivatives and matter sources follow from the definitions."""
import itertools
import re

import mpmath
import sympy as sp

from vf import algnf, coords
from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.reference_metric", "nrpy.equations.general_relativity.T4munu", "nrpy.equations.general_relativity.ADM_to_BSSN",
             "nrpy.equations.general_relativity.g4munu_conversions", "nrpy.equations.general_relativity.BSSN_quantities", "nrpy.equations.general_relativity.BSSN_to_ADM"]
ASSUMPTIONS = ["metric determinants and conformal factors positive; radicals and logarithms taken of positive numbers",
               "reference-metric fields are those of the coordinate map (C10); 3x3 inverters return the inverse (C09)",
               "EvolvedConformalFactor_cf is set before the first BSSN quantity of a coordinate system is requested (quantities are cached per coordinate system)"]
R3, R4 = range(3), range(4)
CFS = ("W", "chi", "phi")
FIELDS = ("hDD", "aDD", "lambdaU", "vetU", "betU", "trK", "cf", "alpha")
PAT = re.compile(r"^(hDD|aDD|lambdaU|vetU|betU|trK|cf|alpha)(?:_(d(?:up)?D|dDD))?(\d*)$")
RANK = dict(hDD=2, aDD=2, lambdaU=1, vetU=1, betU=1, trK=0, cf=0, alpha=0)


def R(e):
    e = sp.sympify(e)
    return e.xreplace({s: sp.Symbol(str(s), real=True) for s in e.free_symbols})


X = [sp.Symbol(f"xx{i}", real=True) for i in R3]


def field(e, up=False):
    """evolved fields become functions of the coordinates, derivative symbols their derivatives.
    up=True: X_dupD stands for the same derivative."""
    e = R(e)
    rep = {}
    for s in e.free_symbols:
        m = PAT.match(str(s))
        if not m:
            continue
        base, d, idx = m.groups()
        r = RANK[base]
        if d is None:
            if len(idx) != r:
                continue
            rep[s] = sp.Function(base + idx)(*X)
        else:
            comp, der = idx[:r], idx[r:]
            if r == 2:
                comp = "".join(sorted(comp))
            f = sp.Function(base + comp)(*X)
            rep[s] = sp.Derivative(f, *[X[int(k)] for k in der]).doit() if False else f.diff(*[X[int(k)] for k in der])
    return e.xreplace(rep)


def get(t, ix):
    for i in ix:
        t = t[i]
    return t


def setcf(cf):
    import nrpy.params as par
    par.set_parval_from_str("EvolvedConformalFactor_cf", cf)


def phi_of(cf, c):
    return {"phi": c, "W": -sp.log(c) / 2, "chi": -sp.log(c) / 4}[cf]


def e4phi(cf, c):
    return {"phi": sp.exp(4 * c), "W": 1 / c ** 2, "chi": 1 / c}[cf]


def sampler(syms, rng):
    """metric-like values: diagonally dominant symmetric matrices, everything else of order one"""
    out = {}
    for s in syms:
        n = str(s)
        v = mpmath.mpf(rng.uniform(0.25, 1.4))
        m = re.match(r"^(gammaDD|g4DD|gamDD|hDD)(\d)(\d)$", n)
        if m:
            a, b = m.group(2), m.group(3)
            if m.group(1) == "hDD":
                v = mpmath.mpf(rng.uniform(-0.2, 0.2))
            elif m.group(1) == "g4DD":
                v = mpmath.mpf(rng.uniform(-0.3, 0.3)) + ((2 if a != "0" else -2) if a == b else 0)
            else:
                v = mpmath.mpf(rng.uniform(-0.3, 0.3)) + (2 if a == b else 0)
        elif n.startswith("SINHW"):
            v = mpmath.mpf(rng.uniform(0.3, 0.9))
        out[s] = v
    return out


EQ = lambda: dict(budget=60 if thorough() else 8, sampler=sampler)


def sym_metric(name="gammaDD"):
    import nrpy.indexedexp as ixp
    return ixp.declarerank2(name, symmetry="sym01")


def u_adm_to_bssn(ctx, name, cf, pre):
    import nrpy.indexedexp as ixp
    import nrpy.reference_metric as refmetric
    from nrpy.equations.general_relativity.ADM_to_BSSN import ADM_to_BSSN
    ctx.under("nrpy.equations.general_relativity.ADM_to_BSSN.ADM_to_BSSN.__init__")
    setcf(cf)
    g, K, b, B = sym_metric(), ixp.declarerank2("KDD", symmetry="sym01"), ixp.declarerank1("betaU"), ixp.declarerank1("BU")
    o = ctx.call("ADM_to_BSSN", ADM_to_BSSN, g, K, b, B, CoordSystem=name, enable_rfm_precompute=pre)
    rfm = refmetric.reference_metric[name + ("_rfm_precompute" if pre else "")]
    gU, gdet = ixp.symm_matrix_inverter3x3(g)
    E = EQ()
    e4 = lambda: e4phi(cf, R(o.cf))
    # gammabar and gamma: same conformal class, determinant of the reference metric
    lam = R(rfm.detgammahat / gdet)
    for i in R3:
        for j in R3:
            ctx.eq(f"e^(4 phi) gammabarDD = gammaDD [{i}{j}] (cubed)", (e4() * R(o.gammabarDD[i][j])) ** 3 if cf != "phi" else e4() ** 3 * R(o.gammabarDD[i][j]) ** 3, R(g[i][j]) ** 3, **E)
            ctx.eq(f"gammabarDD[{i}][{j}]^3 = detghat/det gammaDD^3", R(o.gammabarDD[i][j]) ** 3, lam * R(g[i][j]) ** 3, **E)
            ctx.eq(f"hDD[{i}][{j}] rescaled", R(o.hDD[i][j] * rfm.ReDD[i][j] + rfm.ghatDD[i][j]), R(o.gammabarDD[i][j]), **E)
            ctx.eq(f"AbarDD[{i}][{j}]", R(o.AbarDD[i][j]), lam ** sp.Rational(1, 3) * R(K[i][j] - g[i][j] * o.trK / 3), **E)
            ctx.eq(f"aDD[{i}][{j}] rescaled", R(o.aDD[i][j] * rfm.ReDD[i][j]), R(o.AbarDD[i][j]), **E)
    ctx.eq("trK", R(o.trK), R(sum(gU[i][j] * K[i][j] for i in R3 for j in R3)), **E)
    for i in R3:
        ctx.eq(f"vetU[{i}]", R(o.vetU[i] * rfm.ReU[i]), R(b[i]), **E)
        ctx.eq(f"betU[{i}]", R(o.betU[i] * rfm.ReU[i]), R(B[i]), **E)
    only = ctx.call("compute_cf_only", ADM_to_BSSN, g, K, b, B, CoordSystem=name, enable_rfm_precompute=pre, compute_cf_only=True)
    ctx.eq("compute_cf_only gives the same cf", R(only.cf), R(o.cf), **E)
    if name == "Cartesian" and not pre:
        d = ctx.call("defaults", ADM_to_BSSN, None, None, None, None)
        for i in R3:
            ctx.eq(f"default arguments vetU[{i}]", R(d.vetU[i]), R(o.vetU[i]), **E)
            ctx.eq(f"default arguments betU[{i}]", R(d.betU[i]), R(o.betU[i]), **E)
            for j in R3:
                ctx.eq(f"default arguments aDD[{i}][{j}]", R(d.aDD[i][j]), R(o.aDD[i][j]), **E)
                ctx.eq(f"default arguments hDD[{i}][{j}]", R(d.hDD[i][j]), R(o.hDD[i][j]), **E)
        import nrpy.params as par
        par.set_parval_from_str("EvolvedConformalFactor_cf", "psi")
        ctx.raises("unknown conformal factor rejected", lambda: ADM_to_BSSN(g, K, b, B), ValueError)


def bq_of(ctx, name, cf, suffix=""):
    from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
    setcf(cf)
    return ctx.call("BSSN_quantities", lambda: BSSN_quantities[name + suffix])


def u_quantities(ctx, name, cf):
    import nrpy.reference_metric as refmetric
    ctx.under("nrpy.equations.general_relativity.BSSN_quantities.BSSNQuantities.__init__", "BSSNQuantities_dict.__getitem__")
    q = bq_of(ctx, name, cf)
    rfm = refmetric.reference_metric[name]
    E = EQ()
    S = lambda n: sp.Symbol(n, real=True)
    srt = lambda i, j: f"{min(i,j)}{max(i,j)}"
    for i in R3:
        ctx.eq(f"LambdabarU[{i}]", R(q.LambdabarU[i]), S(f"lambdaU{i}") * R(rfm.ReU[i]), **E)
        ctx.eq(f"betaU[{i}]", R(q.betaU[i]), S(f"vetU{i}") * R(rfm.ReU[i]), **E)
        ctx.eq(f"BU[{i}]", R(q.BU[i]), S(f"betU{i}") * R(rfm.ReU[i]), **E)
        for j in R3:
            ctx.eq(f"gammabarDD[{i}][{j}]", R(q.gammabarDD[i][j]), S("hDD" + srt(i, j)) * R(rfm.ReDD[i][j]) + R(rfm.ghatDD[i][j]), **E)
            ctx.eq(f"AbarDD[{i}][{j}]", R(q.AbarDD[i][j]), S("aDD" + srt(i, j)) * R(rfm.ReDD[i][j]), **E)
            ctx.eq(f"gammabarUU is the inverse [{i}{j}]", R(sum(q.gammabarUU[i][k] * q.gammabarDD[k][j] for k in R3)), int(i == j), **E)
    # derivatives of the composite quantities
    F = field
    D = lambda e, *k: F(e).diff(*[X[a] for a in k])
    dup = lambda e: R(e).xreplace({s: sp.Symbol(re.sub(r"_dD(?=\d)", "_dupD", str(s)), real=True) for s in R(e).free_symbols})
    for i in R3:
        for j in R3:
            for k in R3:
                ctx.eq(f"gammabarDD_dD[{i}][{j}][{k}]", F(q.gammabarDD_dD[i][j][k]), D(q.gammabarDD[i][j], k), **E)
                ctx.eq(f"AbarDD_dD[{i}][{j}][{k}]", F(q.AbarDD_dD[i][j][k]), D(q.AbarDD[i][j], k), **E)
                ctx.eq(f"gammabarDD_dupD[{i}][{j}][{k}]", R(q.gammabarDD_dupD[i][j][k]), dup(q.gammabarDD_dD[i][j][k]), **E)
                ctx.eq(f"AbarDD_dupD[{i}][{j}][{k}]", R(q.AbarDD_dupD[i][j][k]), dup(q.AbarDD_dD[i][j][k]), **E)
                ctx.eq(f"betaU_dDD[{i}][{j}][{k}]", F(q.betaU_dDD[i][j][k]), D(q.betaU[i], j, k), **E)
                ctx.eq(f"gammabarDD_dHatD[{i}][{j}][{k}]", F(q.gammabarDD_dHatD[i][j][k]),
                       D(q.gammabarDD[i][j], k) - F(sum(rfm.GammahatUDD[m][i][k] * q.gammabarDD[m][j] + rfm.GammahatUDD[m][j][k] * q.gammabarDD[i][m] for m in R3)), **E)
                ctx.eq(f"DGammaUDD[{i}][{j}][{k}]", R(q.DGammaUDD[i][j][k]), R(q.GammabarUDD[i][j][k] - rfm.GammahatUDD[i][j][k]), **E)
                ctx.eq(f"GammabarUDD[{i}][{j}][{k}]", R(q.GammabarUDD[i][j][k]),
                       R(sp.Rational(1, 2) * sum(q.gammabarUU[i][m] * (q.gammabarDD_dD[m][j][k] + q.gammabarDD_dD[m][k][j] - q.gammabarDD_dD[j][k][m]) for m in R3)), **E)
                for l in R3:
                    if i <= j and k <= l or thorough():
                        ctx.eq(f"gammabarDD_dDD[{i}][{j}][{k}][{l}]", F(q.gammabarDD_dDD[i][j][k][l]), D(q.gammabarDD[i][j], k, l), **E)
            ctx.eq(f"betaU_dD[{i}][{j}]", F(q.betaU_dD[i][j]), D(q.betaU[i], j), **E)
            ctx.eq(f"betaU_dupD[{i}][{j}]", R(q.betaU_dupD[i][j]), dup(q.betaU_dD[i][j]), **E)
            ctx.eq(f"AbarUU[{i}][{j}]", R(q.AbarUU[i][j]), R(sum(q.gammabarUU[i][k] * q.gammabarUU[j][l] * q.AbarDD[k][l] for k in R3 for l in R3)), **E)
            ctx.eq(f"AbarUD[{i}][{j}]", R(q.AbarUD[i][j]), R(sum(q.gammabarUU[i][k] * q.AbarDD[k][j] for k in R3)), **E)
            ctx.eq(f"detgammabar_dDD[{i}][{j}]", R(q.detgammabar_dDD[i][j]), R(rfm.detgammahat).diff(X[i], X[j]), **E)
        ctx.eq(f"detgammabar_dD[{i}]", R(q.detgammabar_dD[i]), R(rfm.detgammahat).diff(X[i]), **E)
        ctx.eq(f"DGammaU[{i}]", R(q.DGammaU[i]), R(sum(q.gammabarUU[j][k] * q.DGammaUDD[i][j][k] for j in R3 for k in R3)), **E)
    ctx.eq("detgammabar", R(q.detgammabar), R(rfm.detgammahat), **E)
    ctx.eq("trAbar", R(q.trAbar), R(sum(q.gammabarUU[i][j] * q.AbarDD[i][j] for i in R3 for j in R3)), **E)
    # conformal factor
    c = sp.Function("cf")(*X)
    phi = phi_of(cf, c)
    ctx.eq("exp_m4phi", R(q.exp_m4phi), 1 / e4phi(cf, S("cf")), **E)
    for i in R3:
        ctx.eq(f"phi_dD[{i}]", F(q.phi_dD[i]), phi.diff(X[i]), **E)
        ctx.eq(f"phi_dupD[{i}]", R(q.phi_dupD[i]), dup(q.phi_dD[i]), **E)
        ctx.eq(f"phi_dBarD[{i}]", F(q.phi_dBarD[i]), phi.diff(X[i]), **E)
        for j in R3:
            ctx.eq(f"phi_dDD[{i}][{j}]", F(q.phi_dDD[i][j]), phi.diff(X[i], X[j]), **E)
            ctx.eq(f"phi_dBarDD[{i}][{j}]", R(q.phi_dBarDD[i][j]), R(q.phi_dDD[i][j] - sum(q.GammabarUDD[k][i][j] * q.phi_dD[k] for k in R3)), **E)
    want = sorted((f"RbarDD{i}{j}", (i, j)) for i in R3 for j in R3 if j >= i)
    ctx.check("Ricci_varnames", list(q.Ricci_varnames) == [w[0] for w in want], "exact", cex=str(q.Ricci_varnames))
    for e, (n, (i, j)) in zip(q.Ricci_exprs, want):
        ctx.check(f"Ricci_exprs {n}", e == q.RbarDD[i][j], "term identity", cex=n)


def u_ricci(ctx, name):
    """RbarDD is the Ricci tensor of gammabarDD once LambdabarU = Delta^i (independent oracle: curvature of gammabar)"""
    import nrpy.reference_metric as refmetric
    q = bq_of(ctx, name, "W")
    rfm = refmetric.reference_metric[name]
    # numeric jets: h_ij = polynomials in (x - x0); everything evaluated with exact chain rule at random points
    import random
    rng = random.Random(7)
    n_pts = 6 if thorough() else 3
    dps = 60
    syms = set()
    for i in R3:
        for j in R3:
            syms |= {sp.Symbol(str(s), real=True) for s in q.RbarDD[i][j].free_symbols}
    RB = {(i, j): R(q.RbarDD[i][j]) for i in R3 for j in range(i, 3)}
    for i in R3:
        for j in range(i):
            ctx.eq(f"RbarDD symmetric [{i}{j}]", R(q.RbarDD[i][j]), RB[j, i], budget=1, tries=1, pit_tries=1, sampler=sampler)
    par = sorted((s for s in syms if not PAT.match(str(s)) and s not in X), key=str)
    worst = None
    with mpmath.workdps(dps):
        for t in range(n_pts):
            pv = sampler(par, rng)
            for s in par:  # sizes that keep the coordinates in the domain
                if str(s).startswith("AMPL") or str(s) in ("RMAX",):
                    pv[s] = mpmath.mpf(rng.uniform(2, 5))
            x0 = [mpmath.mpf(rng.uniform(0.35, 0.9)) for _ in R3]
            # polynomial h_ij up to third order
            co = {}
            hpoly = {}
            for i in R3:
                for j in range(i, 3):
                    p = 0
                    for e in itertools.product(range(4), repeat=3):
                        if sum(e) <= 3:
                            cval = sp.Rational(rng.randint(-30, 30), 200)
                            p += cval * sp.prod([(X[d] - S0) ** e[d] for d, S0 in zip(R3, XS0)]) if False else cval * X[0] ** e[0] * X[1] ** e[1] * X[2] ** e[2]
                    hpoly[(i, j)] = p
            G = [[R(rfm.ghatDD[i][j]) + hpoly[(min(i, j), max(i, j))] * R(rfm.ReDD[i][j]) for j in R3] for i in R3]
            sub = {X[d]: x0[d] for d in R3}
            sub.update(pv)
            dag = algnf.DagEval(sub)
            ev = lambda e: dag(R(e))
            g = mpmath.matrix(3, 3)
            dg = {}
            ddg = {}
            for i in R3:
                for j in R3:
                    g[i, j] = ev(G[i][j])
                    for k in R3:
                        dg[i, j, k] = ev(G[i][j].diff(X[k]))
                        for l in R3:
                            ddg[i, j, k, l] = ev(G[i][j].diff(X[k], X[l]))
            gi = g ** -1
            dgi = {(i, j, k): -sum(gi[i, a] * dg[a, b, k] * gi[b, j] for a in R3 for b in R3) for i in R3 for j in R3 for k in R3}
            Gam = {(i, j, k): sum(gi[i, m] * (dg[m, j, k] + dg[m, k, j] - dg[j, k, m]) for m in R3) / 2 for i in R3 for j in R3 for k in R3}
            dGam = {(i, j, k, l): sum(dgi[i, m, l] * (dg[m, j, k] + dg[m, k, j] - dg[j, k, m]) + gi[i, m] * (ddg[m, j, k, l] + ddg[m, k, j, l] - ddg[j, k, m, l]) for m in R3) / 2
                    for i in R3 for j in R3 for k in R3 for l in R3}
            Ric = {(i, j): sum(dGam[k, i, j, k] - dGam[k, i, k, j] + sum(Gam[k, k, m] * Gam[m, i, j] - Gam[k, j, m] * Gam[m, i, k] for m in R3) for k in R3) for i in R3 for j in R3}
            Gh = {(i, j, k): ev(rfm.GammahatUDD[i][j][k]) for i in R3 for j in R3 for k in R3}
            dGh = {(i, j, k, l): ev(sp.sympify(rfm.GammahatUDD[i][j][k]).diff(rfm.xx[l])) for i in R3 for j in R3 for k in R3 for l in R3}
            Lam = {i: sum(gi[j, k] * (Gam[i, j, k] - Gh[i, j, k]) for j in R3 for k in R3) for i in R3}
            dLam = {(i, l): sum(dgi[j, k, l] * (Gam[i, j, k] - Gh[i, j, k]) + gi[j, k] * (dGam[i, j, k, l] - dGh[i, j, k, l]) for j in R3 for k in R3) for i in R3 for l in R3}
            ReU = {i: ev(rfm.ReU[i]) for i in R3}
            dReU = {(i, l): ev(sp.sympify(rfm.ReU[i]).diff(rfm.xx[l])) for i in R3 for l in R3}
            val = dict(sub)
            for s in syms:
                m = PAT.match(str(s))
                if not m:
                    continue
                base, d, idx = m.groups()
                ii = [int(c) for c in idx]
                if base == "hDD":
                    p = hpoly[tuple(sorted(ii[:2]))]
                    for k in ii[2:]:
                        p = p.diff(X[k])
                    val[s] = ev(p)
                elif base == "lambdaU":
                    if d is None:
                        val[s] = Lam[ii[0]] / ReU[ii[0]]
                    else:
                        val[s] = dLam[ii[0], ii[1]] / ReU[ii[0]] - Lam[ii[0]] * dReU[ii[0], ii[1]] / ReU[ii[0]] ** 2
            dag2 = algnf.DagEval(val)
            for i in R3:
                for j in range(i, 3):
                    got = dag2(RB[i, j])
                    sc = max(abs(v) for v in Ric.values()) + 1
                    ok = abs(got - Ric[i, j]) < sc * mpmath.mpf(10) ** (-35)
                    ctx.check(f"RbarDD[{i}][{j}] = Ricci(gammabar) when LambdabarU = Delta^i, point {t}", bool(ok), "curvature of random polynomial metrics, 60 digits", bounded=True,
                              cex=f"{name}, h_ij={hpoly}, x={[mpmath.nstr(v, 8) for v in x0]}: code {mpmath.nstr(got, 15)}, Ricci tensor {mpmath.nstr(Ric[i, j], 15)}")


XS0 = X


def _num(e, sub):
    from vf import algnf
    return algnf.DagEval(sub)(R(e))


def u_bssn_to_adm(ctx, name, cf):
    from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
    ctx.under("nrpy.equations.general_relativity.BSSN_to_ADM.BSSN_to_ADM.__init__")
    q = bq_of(ctx, name, cf)
    a = ctx.call("BSSN_to_ADM", BSSN_to_ADM, CoordSystem=name)
    E = EQ()
    e4 = e4phi(cf, sp.Symbol("cf", real=True))
    F = field
    D = lambda e, *k: F(e).diff(*[X[m] for m in k])
    for i in R3:
        ctx.eq(f"betaU[{i}]", R(a.betaU[i]), R(q.betaU[i]), **E)
        for j in R3:
            ctx.eq(f"gammaDD[{i}][{j}]", R(a.gammaDD[i][j]), e4 * R(q.gammabarDD[i][j]), **E)
            ctx.eq(f"KDD[{i}][{j}]", R(a.KDD[i][j]), e4 * R(q.AbarDD[i][j]) + e4 * R(q.gammabarDD[i][j]) * sp.Symbol("trK", real=True) / 3, **E)
            ctx.eq(f"gammaUU inverse [{i}{j}]", R(sum(a.gammaUU[i][k] * a.gammaDD[k][j] for k in R3)), int(i == j), **E)
            for k in R3:
                ctx.eq(f"gammaDDdD[{i}][{j}][{k}]", F(a.gammaDDdD[i][j][k]), D(a.gammaDD[i][j], k), **E)
                ctx.eq(f"KDDdD[{i}][{j}][{k}]", F(a.KDDdD[i][j][k]), D(a.KDD[i][j], k), **E)
                ctx.eq(f"GammaUDD[{i}][{j}][{k}]", R(a.GammaUDD[i][j][k]), R(sp.Rational(1, 2) * sum(a.gammaUU[i][m] * (a.gammaDDdD[m][j][k] + a.gammaDDdD[m][k][j] - a.gammaDDdD[j][k][m]) for m in R3)), **E)
                for l in R3:
                    if i <= j and k <= l or thorough():
                        ctx.eq(f"gammaDDdDD[{i}][{j}][{k}][{l}]", F(a.gammaDDdDD[i][j][k][l]), D(a.gammaDD[i][j], k, l), **E)
    g = a.gammaDD
    ctx.eq("detgamma", R(a.detgamma), R(g[0][0] * (g[1][1] * g[2][2] - g[1][2] ** 2) - g[0][1] * (g[0][1] * g[2][2] - g[1][2] * g[0][2]) + g[0][2] * (g[0][1] * g[1][2] - g[1][1] * g[0][2])), **E)


def u_precompute(ctx, name, cf):
    """precomputed reference metric and RbarDD gridfunctions are only another way to write the same quantities"""
    import nrpy.grid as gri
    import nrpy.reference_metric as refmetric
    from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
    import nrpy.equations.general_relativity.T4munu as T
    import nrpy.equations.general_relativity.g4munu_conversions as g4
    q = bq_of(ctx, name, cf)
    p = bq_of(ctx, name, cf, "_rfm_precompute")
    fs = pre_map(name)
    E = EQ()
    sub = lambda e: R(R(e).xreplace(fs))

    def same(label, u, v):
        if isinstance(u, (list, tuple)):
            for i, (a, b) in enumerate(zip(u, v)):
                same(f"{label}[{i}]", a, b)
        elif isinstance(u, sp.Basic):
            ctx.eq(f"precomputed {label}", sub(v), R(u), budget=4 if thorough() else 0.7, sampler=sampler, tries=2, pit_tries=4)
    for k in sorted(q.__dict__):
        if k.startswith("Ricci") or k in ("AbarUU", "GammabarUDD", "DGammaUDD", "DGammaU", "phi_dBarDD") and not thorough():
            continue
        if k == "RbarDD":
            for i in R3:
                for j in range(i, 3):
                    ctx.eq(f"precomputed RbarDD[{i}][{j}]", sub(p.RbarDD[i][j]), R(q.RbarDD[i][j]), budget=1, sampler=sampler)
            continue
        same(k, q.__dict__[k], p.__dict__[k])
    a, b = BSSN_to_ADM(CoordSystem=name), ctx.call("BSSN_to_ADM", BSSN_to_ADM, CoordSystem=name, enable_rfm_precompute=True)
    for k in ("betaU", "gammaDD", "gammaDDdD", "KDD", "KDDdD", "detgamma"):
        same("ADM " + k, getattr(a, k), getattr(b, k))
    same("g4DD", g4.BSSN_to_g4DD(name), ctx.call("g4DD", g4.BSSN_to_g4DD, name, True))
    same("sources", T.T4UU_and_BSSN_to_SDD_SD_S_rho(name), ctx.call("sources", T.T4UU_and_BSSN_to_SDD_SD_S_rho, name, True))
    same("rhs sources", T.BSSN_RHSs_T4UU_source_terms(name), ctx.call("rhs sources", T.BSSN_RHSs_T4UU_source_terms, name, True))
    same("constraint sources", T.BSSN_constraints_T4UU_source_terms(name), ctx.call("constraint sources", T.BSSN_constraints_T4UU_source_terms, name, True))
    r = bq_of(ctx, name, cf, "_RbarDD_gridfunctions")
    ctx.check("RbarDD gridfunctions registered as AUXEVOL", all(gri.glb_gridfcs_dict.get(f"RbarDD{i}{j}") is not None and gri.glb_gridfcs_dict[f"RbarDD{i}{j}"].group == "AUXEVOL" for i in R3 for j in range(i, 3)),
              "exact", cex=str([k for k in gri.glb_gridfcs_dict if "Rbar" in k]))
    for i in R3:
        for j in R3:
            ctx.check(f"RbarDD gridfunction symbol [{i}][{j}]", str(r.RbarDD[i][j]) == f"RbarDD{min(i,j)}{max(i,j)}", "exact", cex=str(r.RbarDD[i][j]))
    for k in ("gammabarDD", "AbarDD", "betaU", "phi_dDD", "exp_m4phi", "DGammaU"):
        if r.__dict__[k] != q.__dict__[k]:
            same("RbarDD option " + k, q.__dict__[k], r.__dict__[k])


def pre_map(name):
    """precomputed symbols -> values, from the reference metric itself (C10 proves the tables)"""
    import nrpy.reference_metric as refmetric
    rfm, pre = refmetric.reference_metric[name], refmetric.reference_metric[name + "_rfm_precompute"]
    out = {}
    import nrpy.infrastructures.BHaH.rfm_precompute as rp
    syms = set()
    stack = [v for v in pre.__dict__.values()]
    while stack:
        v = stack.pop()
        if isinstance(v, (list, tuple)):
            stack += list(v)
        elif isinstance(v, sp.Basic):
            syms |= v.free_symbols
    for s in syms:
        n = str(s)
        if "_of_xx" not in n:
            continue
        base, _, ders = n.partition("__")
        val = R(getattr(rfm, base))
        for d in re.findall(r"D(\d+)", ders):
            for k in d:
                val = val.diff(X[int(k)])
        out[sp.Symbol(n, real=True)] = val
    return out


def u_g4(ctx):
    import nrpy.indexedexp as ixp
    import nrpy.equations.general_relativity.g4munu_conversions as g4
    ctx.under(*["nrpy.equations.general_relativity.g4munu_conversions." + f for f in ("ADM_to_g4DD", "ADM_to_g4UU", "g4DD_to_ADM")])
    g, b, al = sym_metric(), ixp.declarerank1("betaU"), sp.Symbol("alpha", real=True)
    GD = ctx.call("ADM_to_g4DD", g4.ADM_to_g4DD, g, b, al)
    GU = ctx.call("ADM_to_g4UU", g4.ADM_to_g4UU, g, b, al)
    E = EQ()
    # definition: line element -alpha^2 dt^2 + gamma_ij (dx^i + beta^i dt)(dx^j + beta^j dt)
    dx = [sp.Symbol(f"dx{m}", real=True) for m in R4]
    ds2 = -R(al) ** 2 * dx[0] ** 2 + sum(R(g[i][j]) * (dx[i + 1] + R(b[i]) * dx[0]) * (dx[j + 1] + R(b[j]) * dx[0]) for i in R3 for j in R3)
    P = sp.Poly(sp.expand(ds2), *dx)
    for m in R4:
        for n in R4:
            mon = [0] * 4
            mon[m] += 1
            mon[n] += 1
            c = P.coeff_monomial(sp.prod([d ** e for d, e in zip(dx, mon)])) / (1 if m == n else 2)
            ctx.eq(f"g4DD[{m}][{n}]", R(GD[m][n]), c, **E)
            ctx.eq(f"g4UU g4DD = 1 [{m}{n}]", R(sum(GU[m][k] * GD[k][n] for k in R4)), int(m == n), **E)
    gU = ixp.declarerank2("gammaUU", symmetry="sym01")
    GU2 = ctx.call("ADM_to_g4UU gammaUU", g4.ADM_to_g4UU, g, b, al, gU)
    for m in R4:
        for n in R4:
            want = -1 / al ** 2 if m == n == 0 else (b[max(m, n) - 1] / al ** 2 if m * n == 0 else gU[m - 1][n - 1] - b[m - 1] * b[n - 1] / al ** 2)
            ctx.eq(f"g4UU with gammaUU given [{m}][{n}]", R(GU2[m][n]), R(want), **E)
    gm, al2, b2 = ctx.call("g4DD_to_ADM", g4.g4DD_to_ADM, GD)
    for i in R3:
        ctx.eq(f"g4DD_to_ADM recovers betaU[{i}]", R(b2[i]), R(b[i]), **E)
        for j in R3:
            ctx.eq(f"g4DD_to_ADM recovers gammaDD[{i}][{j}]", R(gm[i][j]), R(g[i][j]), **E)
    ctx.eq("g4DD_to_ADM recovers alpha^2", R(al2) ** 2, R(al) ** 2, **E)


def u_g4_bssn(ctx, name, cf):
    import nrpy.indexedexp as ixp
    import nrpy.equations.general_relativity.g4munu_conversions as g4
    import nrpy.reference_metric as refmetric
    from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
    ctx.under(*["nrpy.equations.general_relativity.g4munu_conversions." + f for f in ("BSSN_to_g4DD", "BSSN_to_g4UU", "g4DD_to_BSSN")])
    q = bq_of(ctx, name, cf)
    a = BSSN_to_ADM(CoordSystem=name)
    al = sp.Symbol("alpha", real=True)
    D1, D2 = ctx.call("BSSN_to_g4DD", g4.BSSN_to_g4DD, name), g4.ADM_to_g4DD(a.gammaDD, a.betaU, al)
    U1, U2 = ctx.call("BSSN_to_g4UU", g4.BSSN_to_g4UU, name), g4.ADM_to_g4UU(a.gammaDD, a.betaU, al)
    E = EQ()
    for m in R4:
        for n in R4:
            ctx.eq(f"BSSN_to_g4DD[{m}][{n}]", R(D1[m][n]), R(D2[m][n]), **E)
            ctx.eq(f"BSSN_to_g4UU[{m}][{n}]", R(U1[m][n]), R(U2[m][n]), **E)
    G = ixp.declarerank2("g4DD", symmetry="sym01", dimension=4)
    gm, al2, b2 = g4.g4DD_to_ADM(G)
    from nrpy.equations.general_relativity.ADM_to_BSSN import ADM_to_BSSN
    o = ADM_to_BSSN(gm, ixp.zerorank2(), b2, ixp.zerorank1(), CoordSystem=name)
    h, c, v, al3 = ctx.call("g4DD_to_BSSN", g4.g4DD_to_BSSN, G, name)
    ctx.eq("g4DD_to_BSSN cf", R(c), R(o.cf), **E)
    ctx.eq("g4DD_to_BSSN alpha^2", R(al3) ** 2, R(al2) ** 2, **E)
    for i in R3:
        ctx.eq(f"g4DD_to_BSSN vetU[{i}]", R(v[i]), R(o.vetU[i]), **E)
        for j in R3:
            ctx.eq(f"g4DD_to_BSSN hDD[{i}][{j}]", R(h[i][j]), R(o.hDD[i][j]), **E)


def u_sources_adm(ctx, given):
    import nrpy.indexedexp as ixp
    import nrpy.equations.general_relativity.T4munu as T
    ctx.under("nrpy.equations.general_relativity.T4munu.T4UU_and_ADM_to_SDD_SD_S_rho")
    if given:
        g, b = sym_metric("gamDD"), ixp.declarerank1("bbU")
        SDD, SD, S, rho = ctx.call("sources", T.T4UU_and_ADM_to_SDD_SD_S_rho, g, b)
    else:
        g, b = sym_metric(), ixp.declarerank1("betaU")
        SDD, SD, S, rho = ctx.call("sources", T.T4UU_and_ADM_to_SDD_SD_S_rho)
    al = sp.Symbol("alpha", real=True)
    T4 = ixp.declarerank2("T4UU", symmetry="sym01", dimension=4)
    gU, _ = ixp.symm_matrix_inverter3x3(g)
    E = EQ()
    # lower with the four-metric, project with the unit normal n^mu = (1, -beta)/alpha
    bl = [sum(g[i][j] * b[j] for j in R3) for i in R3]
    G4 = [[-al ** 2 + sum(b[i] * bl[i] for i in R3) if m == n == 0 else (bl[max(m, n) - 1] if m * n == 0 else g[m - 1][n - 1]) for n in R4] for m in R4]
    TDD = [[R(sum(G4[m][a] * G4[n][c] * T4[a][c] for a in R4 for c in R4)) for n in R4] for m in R4]
    n4 = [1 / al, -b[0] / al, -b[1] / al, -b[2] / al]
    n4 = [R(x) for x in n4]
    for i in R3:
        ctx.eq(f"SD[{i}] = -n^mu T_(mu i)", R(SD[i]), -sum(n4[m] * TDD[m][i + 1] for m in R4), **E)
        for j in R3:
            ctx.eq(f"SDD[{i}][{j}] = T_ij", R(SDD[i][j]), TDD[i + 1][j + 1], **E)
    ctx.eq("rho = n^mu n^nu T_(mu nu)", R(rho), sum(n4[m] * n4[n] * TDD[m][n] for m in R4 for n in R4), **E)
    ctx.eq("S = gamma^ij S_ij", R(S), R(sum(gU[i][j] * SDD[i][j] for i in R3 for j in R3)), **E)


def u_sources_bssn(ctx, name, cf):
    import nrpy.equations.general_relativity.T4munu as T
    from nrpy.equations.general_relativity.BSSN_to_ADM import BSSN_to_ADM
    ctx.under(*["nrpy.equations.general_relativity.T4munu." + f for f in ("T4UU_and_BSSN_to_SDD_SD_S_rho", "BSSN_RHSs_T4UU_source_terms", "BSSN_constraints_T4UU_source_terms")])
    q = bq_of(ctx, name, cf)
    a = BSSN_to_ADM(CoordSystem=name)
    E = EQ()
    w = T.T4UU_and_ADM_to_SDD_SD_S_rho(a.gammaDD, a.betaU)
    SDD, SD, S, rho = ctx.call("sources", T.T4UU_and_BSSN_to_SDD_SD_S_rho, name)
    for i in R3:
        ctx.eq(f"SD[{i}]", R(SD[i]), R(w[1][i]), **E)
        for j in R3:
            ctx.eq(f"SDD[{i}][{j}]", R(SDD[i][j]), R(w[0][i][j]), **E)
    ctx.eq("S", R(S), R(w[2]), **E)
    ctx.eq("rho", R(rho), R(w[3]), **E)
    al, PI = sp.Symbol("alpha", real=True), sp.Symbol("PI", real=True)
    k, A, L = ctx.call("rhs sources", T.BSSN_RHSs_T4UU_source_terms, name)
    ctx.eq("trK source", R(k), 4 * PI * al * R(rho + S), **E)
    tr = sum(q.gammabarUU[m][n] * SDD[m][n] for m in R3 for n in R3)
    for i in R3:
        ctx.eq(f"LambdabarU source [{i}]", R(L[i]), -16 * PI * al * R(sum(q.gammabarUU[i][j] * SD[j] for j in R3)), **E)
        for j in R3:
            ctx.eq(f"AbarDD source [{i}][{j}]", R(A[i][j]), -8 * PI * al / e4phi(cf, sp.Symbol("cf", real=True)) * R(SDD[i][j] - q.gammabarDD[i][j] * tr / 3), **E)
    H, M = ctx.call("constraint sources", T.BSSN_constraints_T4UU_source_terms, name)
    ctx.eq("H source", R(H), -16 * PI * R(rho), **E)
    for i in R3:
        ctx.eq(f"MU source [{i}]", R(M[i]), -8 * PI * R(sum(a.gammaUU[i][j] * SD[j] for j in R3)), **E)


def units():
    us = []
    main = ["Cartesian", "Spherical", "SinhCylindrical"]
    for c in main + ["SinhSymTP"]:
        for cf in CFS:
            us.append(Unit(f"ADM_to_BSSN[{c},{cf}]", u_adm_to_bssn, (c, cf, False)))
    for cf in CFS:
        us.append(Unit(f"ADM_to_BSSN[SinhSpherical precomputed,{cf}]", u_adm_to_bssn, ("SinhSpherical", cf, True)))
    for c in ["Cartesian", "Spherical"] + (["SinhCylindrical"] if thorough() else []):
        for cf in CFS:
            us.append(Unit(f"BSSN quantities[{c},{cf}]", u_quantities, (c, cf), weight=20, timeout=800))
            us.append(Unit(f"BSSN_to_ADM[{c},{cf}]", u_bssn_to_adm, (c, cf), weight=20, timeout=800))
    us.append(Unit("BSSN quantities[SinhCylindricalv2n2,W]", u_quantities, ("SinhCylindricalv2n2", "W"), weight=20, timeout=800))
    us.append(Unit("BSSN_to_ADM[SymTP,chi]", u_bssn_to_adm, ("SymTP", "chi"), weight=20, timeout=800))
    for c in ["Cartesian", "Spherical", "SinhCylindrical", "SymTP"]:
        us.append(Unit(f"Ricci[{c}]", u_ricci, (c,), weight=10))
    us.append(Unit("precomputed[SinhSpherical,chi]", u_precompute, ("SinhSpherical", "chi"), weight=15))
    us.append(Unit("precomputed[SinhSymTP,phi]", u_precompute, ("SinhSymTP", "phi"), weight=15))
    us.append(Unit("four-metric", u_g4))
    for cf in CFS:
        us.append(Unit(f"four-metric and BSSN[Cartesian,{cf}]", u_g4_bssn, ("Cartesian", cf)))
        us.append(Unit(f"matter sources[Cartesian,{cf}]", u_sources_bssn, ("Cartesian", cf)))
    us.append(Unit("four-metric and BSSN[SinhSpherical,chi]", u_g4_bssn, ("SinhSpherical", "chi")))
    us.append(Unit("matter sources[Cylindrical,phi]", u_sources_bssn, ("Cylindrical", "phi")))
    us.append(Unit("matter projections[default]", u_sources_adm, (False,)))
    us.append(Unit("matter projections[given metric]", u_sources_adm, (True,)))
    return us
