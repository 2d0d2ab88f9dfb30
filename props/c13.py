"""C13  The BSSN evolution, gauge and constraint expressions are Einstein's equations for the stored variables."""
import itertools
import random
import re

import mpmath
import sympy as sp

from vf import algnf, jets
from vf.core import Unit, thorough
from vf.jets import J
from props.c12 import PAT, R, X, R3, RANK, pre_map, setcf

LEVEL = "other"
EXPLANATION = ("Each right-hand side is compared with the ADM form of Einstein's equations (3+1 evolution of gamma_ij and K_ij, Hamiltonian and momentum constraint) for random smooth fields, by Taylor arithmetic at 50 digits: a polynomial-identity "
               "test of the postcondition at random points (bounded, failure probability negligible); upwinding, advection and option contracts are checked the same way.")
PREIMPORT = ["nrpy.equations.general_relativity.BSSN_gauge_RHSs", "nrpy.equations.general_relativity.BSSN_constraints"]
ASSUMPTIONS = ["smooth fields, det gammabar = det gammahat, trace-free Abar and Lambdabar equal to its defining value (the algebraic constraints of the BSSN system)", "reference-metric fields are those of the coordinate map (C10)",
               "EvolvedConformalFactor_cf is set before the first use of a coordinate system (expressions are cached)"]
BOUNDS = ["two (thorough: six) random field configurations per coordinate system and option set, agreement to 1e-25 relative"]
GR = "nrpy.equations.general_relativity."
DPS = 50
LAPSE = ["OnePlusLog", "HarmonicSlicing", "Frozen", "OnePlusLogAlt"]
SHIFT = ["Frozen", "GammaDriving2ndOrder_NoCovariant", "GammaDriving2ndOrder_Covariant", "GammaDriving2ndOrder_Covariant__Hatted", "GammaDriving1stOrder_Covariant", "GammaDriving1stOrder_Covariant__Hatted", "NonAdvectingGammaDriving"]
Z = lambda: J.const(0)


class World:
    """random ADM data and its BSSN variables to first order in time"""

    def __init__(self, name, cf, seed, matter=True):
        import nrpy.reference_metric as refmetric
        rng = random.Random(f"{name}{cf}{seed}")
        self.rfm = rfm = refmetric.reference_metric[name]
        self.cfname = cf
        env = {X[d]: J.var(d, mpmath.mpf(rng.randint(350, 900)) / 1000) for d in R3}
        fs = set()
        for e in itertools.chain.from_iterable((rfm.ghatDD[i] for i in R3)):
            fs |= R(e).free_symbols
        for e in list(rfm.ReU) + [x for r in rfm.ReDD for x in r]:
            fs |= R(e).free_symbols
        self.params = {}
        for s in sorted(fs - set(X), key=str):
            n = str(s)
            v = mpmath.mpf(rng.randint(300, 900)) / 1000 if "SINHW" in n else (mpmath.mpf(rng.randint(2000, 5000)) / 1000 if n.startswith(("AMPL", "AMAX", "RMAX")) else mpmath.mpf(rng.randint(300, 1300)) / 1000)
            self.params[s] = mpmath.pi if n == "PI" else v
        env.update({s: J.const(v) for s, v in self.params.items()})
        memo = {}
        E = lambda e: (lambda v: v if isinstance(v, J) else J.const(v))(jets.ev(R(e), env, memo))
        self.x = {X[d]: env[X[d]].c[0] for d in R3}
        gh = [[E(rfm.ghatDD[i][j]) for j in R3] for i in R3]
        self.ReU = ReU = [E(rfm.ReU[i]) for i in R3]
        self.ReDD = ReDD = [[E(rfm.ReDD[i][j]) for j in R3] for i in R3]
        ghi, dgh = jets.inv3(gh)
        self.Gh = Gh = jets.christoffel(gh, ghi)
        P = lambda s, c=0.0: jets.poly(rng, mpmath.mpf(s), c)
        sym = lambda f: (lambda M: [[M[min(i, j), max(i, j)] for j in R3] for i in R3])({(i, j): f(i, j) for i in R3 for j in range(i, 3)})
        q = sym(lambda i, j: P(0.12, 1.3 if i == j else 0.0))
        gam = [[q[i][j] * ReDD[i][j] for j in R3] for i in R3]
        k = sym(lambda i, j: P(0.3))
        K = [[k[i][j] * ReDD[i][j] for j in R3] for i in R3]
        al = P(0.2, 0.9)
        be = [P(0.3) * ReU[i] for i in R3]
        B = [P(0.3) * ReU[i] for i in R3]
        T = sym4(lambda a, b: mpmath.mpf(rng.randint(-1000, 1000)) / 1000 if matter else mpmath.mpf(0))
        self.T, self.al, self.be, self.B = T, al, be, B
        gi, det = jets.inv3(gam)
        G = jets.christoffel(gam, gi)
        Ric = jets.ricci(G)
        self.gam, self.K, self.gi, self.G = gam, K, gi, G
        Kmix = [[sum((gi[i][m] * K[m][j] for m in R3), Z()) for j in R3] for i in R3]
        trK = sum((Kmix[i][i] for i in R3), Z())
        # matter projections
        v = lambda a: a.c[0]
        a0, b0, g0 = v(al), [v(x) for x in be], [[v(x) for x in r] for r in gam]
        bl = [sum(g0[i][j] * b0[j] for j in R3) for i in R3]
        g4 = [[-a0 ** 2 + sum(bl[i] * b0[i] for i in R3)] + bl] + [[bl[i]] + g0[i] for i in R3]
        self.rho = a0 ** 2 * T[0][0]
        self.Si = [a0 * sum(g4[i + 1][m] * T[m][0] for m in range(4)) for i in R3]
        self.Sij = [[sum(g4[i + 1][m] * g4[j + 1][n] * T[m][n] for m in range(4) for n in range(4)) for j in R3] for i in R3]
        S = sum(v(gi[i][j]) * self.Sij[i][j] for i in R3 for j in R3)
        pi8 = 8 * mpmath.pi
        # ADM evolution
        lie = lambda M, i, j: sum((be[m] * M[i][j].d(m) + M[m][j] * be[m].d(i) + M[i][m] * be[m].d(j) for m in R3), Z())
        gdot = [[lie(gam, i, j) - al * K[i][j] * 2 for j in R3] for i in R3]
        Kdot = [[lie(K, i, j) - al.d(i, j) + sum((G[m][i][j] * al.d(m) for m in R3), Z()) + al * (Ric[i][j] + trK * K[i][j] - sum((K[i][m] * Kmix[m][j] for m in R3), Z()) * 2)
                 - J.const(pi8 * a0 * (self.Sij[i][j] - g0[i][j] * (S - self.rho) / 2)) for j in R3] for i in R3]
        # constraints
        K2 = sum((Kmix[i][j] * Kmix[j][i] for i in R3 for j in R3), Z())
        Rs = sum((gi[i][j] * Ric[i][j] for i in R3 for j in R3), Z())
        self.H0 = v(Rs + trK * trK - K2)
        self.H = self.H0 - 2 * pi8 * self.rho
        V = [[sum((Kmix[i][m] * gi[m][j] for m in R3), Z()) - gi[i][j] * trK for j in R3] for i in R3]  # K^ij - g^ij K
        self.M0 = [v(sum((V[i][j].d(j) + sum((G[i][j][m] * V[m][j] + G[j][j][m] * V[i][m] for m in R3), Z()) for j in R3), Z())) for i in R3]
        self.M = [self.M0[i] - pi8 * sum(v(gi[i][j]) * self.Si[j] for j in R3) for i in R3]
        # BSSN variables, first order in t
        gt = [[gam[i][j].with_dt(gdot[i][j]) for j in R3] for i in R3]
        Kt = [[K[i][j].with_dt(Kdot[i][j]) for j in R3] for i in R3]
        gti, dett = jets.inv3(gt)
        lam = (dgh / dett).pow(mpmath.mpf(1) / 3)
        gb = [[lam * gt[i][j] for j in R3] for i in R3]
        trKt = sum((gti[i][j] * Kt[i][j] for i in R3 for j in R3), Z())
        third = mpmath.mpf(1) / 3
        Ab = [[lam * (Kt[i][j] - gt[i][j] * trKt * third) for j in R3] for i in R3]
        gbi, _ = jets.inv3(gb)
        self.Gb = Gb = jets.christoffel(gb, gbi)
        self.Rb = jets.ricci(Gb)
        Lam = [sum((gbi[j][m] * (Gb[i][j][m] - Gh[i][j][m]) for j in R3 for m in R3), Z()) for i in R3]
        phi = lam.compose(jets.log_t(lam.c[0])) * mpmath.mpf("-0.25")
        self.phi = phi
        self.e4phi = 1 / lam.c[0]
        self.gb0 = [[v(x) for x in r] for r in gb]
        self.Lam, self.trKt = Lam, trKt
        self.F = {"trK": trKt, "alpha": al, "cf": {"W": lam.pow(mpmath.mpf("0.5")), "chi": lam, "phi": phi}[cf]}
        for i in R3:
            self.F[f"lambdaU{i}"] = Lam[i] / ReU[i]
            self.F[f"vetU{i}"] = be[i] / ReU[i]
            self.F[f"betU{i}"] = B[i] / ReU[i]
            for j in range(i, 3):
                self.F[f"hDD{i}{j}"] = (gb[i][j] - gh[i][j]) / ReDD[i][j]
                self.F[f"aDD{i}{j}"] = Ab[i][j] / ReDD[i][j]
        self.eta = mpmath.mpf(rng.randint(500, 3000)) / 1000
        self.rng = rng
        self.delta = {}

    def symbol(self, n, up=None):
        """value of an expression's symbol; up: extra part of upwinded derivatives"""
        m = PAT.match(n)
        if m:
            base, d, idx = m.groups()
            r = RANK[base]
            comp, der = idx[:r], idx[r:]
            if r == 2:
                comp = "".join(sorted(comp))
            v = self.F[base + comp].val(*[int(c) for c in der])
            if d == "dupD" and up is not None:
                v = v + up(base + comp, int(der))
            return v
        m = re.match(r"T4UU(\d)(\d)$", n)
        if m:
            return self.T[int(m.group(1))][int(m.group(2))]
        m = re.match(r"RbarDD(\d)(\d)$", n)
        if m:
            return self.Rb[int(m.group(1))][int(m.group(2))].c[0]
        if n == "PI":
            return mpmath.pi
        if n == "eta":
            return self.eta
        raise KeyError(n)

    def evaluator(self, exprs=None, up=None, pre=None):
        base = {str(k): v for d in (self.x, self.params) for k, v in d.items()}
        pre = {str(k): v for k, v in pre.items()} if pre else {}
        memo = {}

        def value(n):
            if n not in base:
                base[n] = dag(pre[n]) if n in pre else self.symbol(n, up)
            return base[n]

        class ByName(algnf.DagEval):
            """symbols are identified by name, each shared subterm evaluated once"""
            def ev(self, e):
                return value(e.name) if e.is_Symbol else super().ev(e)
        dag = ByName(None)
        return lambda e: dag(sp.sympify(e))


def sym4(f):
    M = {(i, j): f(i, j) for i in range(4) for j in range(i, 4)}
    return [[M[min(i, j), max(i, j)] for j in range(4)] for i in range(4)]


def near(a, b, scale=1):
    return abs(a - b) <= mpmath.mpf(10) ** -25 * (1 + abs(a) + abs(b) + abs(scale))


def st(x):
    return mpmath.nstr(x, 15)


def u_rhs(ctx, name, cf, opts):
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
    from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
    ctx.under(GR + "BSSN_RHSs.BSSNRHSs.__init__", GR + "BSSN_RHSs.BSSNRHSs_dict.__getitem__", GR + "BSSN_constraints.BSSNconstraints.__init__", GR + "BSSN_constraints.BSSNconstraints_dict.__getitem__")
    setcf(cf)
    r = ctx.call("BSSN_RHSs", lambda: BSSN_RHSs[name + opts])
    c = ctx.call("BSSN_constraints", lambda: BSSN_constraints[name + opts])
    matter = "T4munu" in opts
    pre = pre_map(name) if "precompute" in opts else None
    D = r.BSSN_RHSs_varname_to_expr_dict
    want = ["cf_rhs", "trK_rhs"] + [f"lambda_rhsU{i}" for i in R3] + [f"{a}_rhsDD{i}{j}" for a in "ah" for i in R3 for j in range(i, 3)]
    ctx.check("one right-hand side per evolved variable, sorted", list(D) == sorted(want), "exact", bounded=True, cex=str(list(D)))
    with mpmath.workdps(DPS):
        for t in range(6 if thorough() else 2):
            w = World(name, cf, t, matter)
            exprs = list(D.values()) + [c.H, c.Msquared] + list(c.MU) + list(c.mU) + list(r.Lambdabar_rhsU)
            ev = w.evaluator(exprs, pre=pre)
            a0, v = w.al.c[0], lambda j: j.dt().c[0]
            B = lambda nm, got, wnt: ctx.check(f"{nm}, fields {t}", bool(near(got, wnt)), "Taylor arithmetic", bounded=True, cex=f"{name} cf={cf} {opts}: {nm}: expression {st(got)}, Einstein's equations {st(wnt)} (seed {t})")
            B("Hamiltonian constraint", ev(c.H), w.H)
            for i in R3:
                B(f"momentum constraint {i}", ev(c.MU[i]), w.M[i])
                B(f"rescaled momentum constraint {i}", ev(c.mU[i]) * w.ReU[i].c[0], w.M[i])
            B("norm of the momentum constraint", ev(c.Msquared), sum(w.gb0[i][j] * w.M[i] * w.M[j] for i in R3 for j in R3))
            B("d/dt cf", ev(D["cf_rhs"]), v(w.F["cf"]))
            B("d/dt K (Hamiltonian constraint added)", ev(D["trK_rhs"]), v(w.F["trK"]) - a0 * w.H)
            for i in R3:
                wl = v(w.Lam[i]) + 2 * a0 * w.e4phi * w.M[i]
                B(f"d/dt Lambdabar^{i} (momentum constraint added)", ev(r.Lambdabar_rhsU[i]), wl)
                B(f"d/dt lambda^{i}", ev(D[f"lambda_rhsU{i}"]), wl / w.ReU[i].c[0])
                for j in range(i, 3):
                    B(f"d/dt h_{i}{j}", ev(D[f"h_rhsDD{i}{j}"]), v(w.F[f"hDD{i}{j}"]))
                    B(f"d/dt a_{i}{j}", ev(D[f"a_rhsDD{i}{j}"]), v(w.F[f"aDD{i}{j}"]))
            for i in R3:
                for j in range(i):
                    ctx.check(f"h_rhs, a_rhs symmetric {i}{j}, fields {t}", bool(near(ev(r.h_rhsDD[i][j]), ev(D[f"h_rhsDD{min(i,j)}{max(i,j)}"])) and near(ev(r.a_rhsDD[i][j]), ev(D[f"a_rhsDD{min(i,j)}{max(i,j)}"]))), "Taylor arithmetic", bounded=True, cex=f"{i}{j}")
            # upwinding: only advection terms, along the shift
            dl = {}
            up = lambda n, d: dl.setdefault((n, d), mpmath.mpf(w.rng.randint(-1000, 1000)) / 1000)
            evu = w.evaluator(exprs, up=up, pre=pre)
            for nm, e in D.items():
                base = nm.replace("_rhs", "")
                dv = evu(e) - ev(e)
                adv = sum(w.be[k].c[0] * up(base, k) for k in R3)
                B(f"upwinded derivatives enter {nm} as the advection term", dv, adv)


def gauge_oracle(w, lapse, shift, LamRhs, cfr, cf, up=None):
    """definitions of the gauge conditions, evaluated on the fields"""
    be = [x.c[0] for x in w.be]
    e = (lambda n, d: mpmath.mpf(0)) if up is None else up
    da = sum(be[k] * (w.al.val(k) + e("alpha", k)) for k in R3)
    a, K = w.al.c[0], w.trKt.c[0]
    ph = w.phi.c[0]
    phidot = {"W": lambda: cfr / (-2 * w.F["cf"].c[0]), "phi": lambda: cfr, "chi": lambda: cfr / (-4 * w.F["cf"].c[0])}[cf]()
    A = {"OnePlusLog": da - 2 * a * K, "OnePlusLogAlt": da - a * (1 - a) * K, "Frozen": mpmath.mpf(0), "HarmonicSlicing": 6 * mpmath.exp(6 * ph) * phidot}[lapse]
    Re = [x.c[0] for x in w.ReU]
    # upwinded derivative of a vector whose rescaled components are upwinded
    dv = lambda V, nm, i, k: V[i].val(k) + e(f"{nm}{i}", k) * Re[i]
    G = w.Gh if "Hatted" in shift else w.Gb
    adv = lambda V, nm, cov: [sum(be[k] * (dv(V, nm, i, k) + (sum(G[i][m][k].c[0] * V[m].c[0] for m in R3) if cov else 0)) for k in R3) for i in R3]
    B = [x.c[0] for x in w.B]
    zero = [mpmath.mpf(0)] * 3
    if shift == "Frozen":
        return A, zero, zero
    if shift == "NonAdvectingGammaDriving":
        return A, B, [3 * LamRhs[i] / 4 - w.eta * B[i] for i in R3]
    if "1stOrder" in shift:
        ab = adv(w.be, "vetU", True)
        return A, [ab[i] + 3 * w.Lam[i].c[0] / 4 - w.eta * be[i] for i in R3], zero
    cov = "NoCov" not in shift
    ab, aB, aL = adv(w.be, "vetU", cov), adv(w.B, "betU", cov), adv(w.Lam, "lambdaU", cov)
    return A, [ab[i] + B[i] for i in R3], [aB[i] + mpmath.mpf(3) / 4 * (LamRhs[i] - aL[i]) - w.eta * B[i] for i in R3]


def u_gauge(ctx, name, cf, pre_on, matter):
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
    ctx.under(GR + "BSSN_gauge_RHSs.BSSN_gauge_RHSs")
    setcf(cf)
    pre = pre_map(name) if pre_on else None
    br = BSSN_RHSs[name + ("_rfm_precompute" if pre_on else "") + ("_T4munu" if matter else "")]
    combos = [(l, s) for s in SHIFT if s != "Frozen" for l in LAPSE] + [(l, "Frozen") for l in LAPSE]
    if not thorough():
        combos = [(LAPSE[k % 4], s) for k, s in enumerate(SHIFT) if s != "Frozen"] + [(l, "GammaDriving2ndOrder_Covariant") for l in LAPSE[1:]] + [("OnePlusLog", "Frozen")]
    got = {}
    for l, s in combos:
        if cf == "chi" and l == "HarmonicSlicing":
            ctx.raises(f"harmonic slicing with chi rejected ({s})", lambda l=l, s=s: BSSN_gauge_RHSs(name, pre_on, matter, l, s), ValueError)
            continue
        got[l, s] = ctx.call("BSSN_gauge_RHSs", BSSN_gauge_RHSs, name, pre_on, matter, l, s)
    for bad in (("Nope", "Frozen"), ("Frozen", "Nope")):
        ctx.raises(f"unknown gauge rejected {bad}", lambda bad=bad: BSSN_gauge_RHSs(name, pre_on, matter, *bad), ValueError)
    with mpmath.workdps(DPS):
        for t in range(3 if thorough() else 1):
            w = World(name, cf, 100 + t, matter)
            dl = {}
            up = lambda n, d: dl.setdefault((n, d), mpmath.mpf(w.rng.randint(-1000, 1000)) / 1000)
            for (l, s), (A, V, Bt) in got.items():
                ev = w.evaluator([A, *V, *Bt, *br.Lambdabar_rhsU, br.cf_rhs], up=up, pre=pre)
                oa, ov, ob = gauge_oracle(w, l, s, [ev(x) for x in br.Lambdabar_rhsU], ev(br.cf_rhs), cf, up)
                lab = f"{l}/{s}"
                C = lambda nm, g, o: ctx.check(f"{lab}: {nm}, fields {t}", bool(near(g, o)), "Taylor arithmetic", bounded=True, cex=f"{name} cf={cf} {lab} {nm}: expression {st(g)}, definition {st(o)}")
                C("d/dt alpha", ev(A), oa)
                for i in R3:
                    C(f"d/dt beta^{i}", ev(V[i]) * w.ReU[i].c[0], ov[i])
                    C(f"d/dt B^{i}", ev(Bt[i]) * w.ReU[i].c[0], ob[i])


def u_history(ctx):
    """the expressions for a gauge do not depend on which gauges were requested before"""
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
    setcf("W")
    ref = {s: BSSN_gauge_RHSs("Cartesian", False, False, "OnePlusLog", s) for s in SHIFT if s != "Frozen"}
    for first in SHIFT[1:] + SHIFT[:1]:
        for l in LAPSE:
            ctx.call("gauge", BSSN_gauge_RHSs, "Cartesian", False, False, l, first)
        for s, e in ref.items():
            now = BSSN_gauge_RHSs("Cartesian", False, False, "OnePlusLog", s)
            ctx.check(f"{s} after {first}", now == e, "term identity", cex=f"beta rhs 0 was {str(e[1][0])[:300]}, is now {str(now[1][0])[:300]}")


def units():
    from vf import coords
    u = [Unit("gauge histories", u_history, weight=2)]
    cfs = ("W", "chi", "phi")
    for k, c in enumerate(coords.ALL):
        for cf in cfs:
            u.append(Unit(f"{c} {cf} evolution", u_rhs, (c, cf, "_T4munu"), weight=8, timeout=600))
        cf = cfs[k % 3]
        u.append(Unit(f"{c} {cf} vacuum evolution", u_rhs, (c, cf, ""), weight=8))
        cf = cfs[(k + 1) % 3]
        u.append(Unit(f"{c} {cf} precompute evolution", u_rhs, (c, cf, "_rfm_precompute_T4munu"), weight=9))
        cf = cfs[(k + 2) % 3]
        u.append(Unit(f"{c} {cf} precompute Ricci evolution", u_rhs, (c, cf, "_rfm_precompute_RbarDD_gridfunctions"), weight=8))
        u.append(Unit(f"{c} {cf} Ricci matter evolution", u_rhs, (c, cf, "_RbarDD_gridfunctions_T4munu"), weight=8))
        u.append(Unit(f"{c} {cf} precompute Ricci matter evolution", u_rhs, (c, cf, "_rfm_precompute_RbarDD_gridfunctions_T4munu"), weight=8))
        for q, (p, m) in enumerate(((False, True), (False, False), (True, False), (True, True))):
            cf = cfs[(k + q) % 3]
            u.append(Unit(f"{c} {cf} gauge precompute={p} matter={m}", u_gauge, (c, cf, p, m), weight=9, timeout=600))
    return u
