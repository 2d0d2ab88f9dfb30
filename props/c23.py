"""C23  Generated Einstein Toolkit thorn functions (Carpet and CarpetX) evolve and convert the BSSN variables as scheduled."""
import importlib
import random
import re
import types

import numpy as np

from vf import cactus
from vf.core import Unit, thorough
from props.c12 import R, R3, setcf
from props.c19 import agree
from props.c20 import EVOL, T4, Grid, expected, magnitude, nev

LEVEL = "other"
EXPLANATION = ("All functions of a generated thorn are compiled against a stand-in for the Cactus flesh that declares exactly the variables each schedule entry reads and writes, run on random smooth fields and compared at every point with their contracts: "
               "C12/C13 expressions with the C01 stencils and the option terms for the kernels, the definitions of the variables for the conversions; calls into other thorns are recorded and compared (bounded).")
PREIMPORT = ["props.c20"]
ASSUMPTIONS = ["the direct-form BSSN, gauge and constraint expressions are right (C12, C13)", "Cartesian coordinates, the ones the Toolkit provides", "vectorised thorns: interior size a multiple of the vector width", "without curvature-aware dissipation one strength (diss_strength) is used for all variables"]
BOUNDS = ["one patch and random field per option set; agreement to 1e-9 of the largest term"]
TRUSTED = ["gcc/g++ and sanitizers", "the stand-in for the Cactus flesh in vf/cactus.py"]
INF = {False: "nrpy.infrastructures.ETLegacy.", True: "nrpy.infrastructures.CarpetX."}


def field(rng, base, amp, lsh, pos=False):
    k, j, i = np.meshgrid(*[np.arange(n) / n for n in lsh[::-1]], indexing="ij")
    a = [rng.choice([-1, 1]) * rng.uniform(1.5, 4.0) for _ in R3]
    return base + amp * np.sin(a[0] * i + a[1] * j + a[2] * k + rng.uniform(0, 6))


def inv3(M):
    return np.moveaxis(np.linalg.inv(np.moveaxis(np.array(M), (0, 1), (-2, -1))), (-2, -1), (0, 1))


def u_thorn(ctx, cx, thorn, o):
    import nrpy.grid as gri
    import nrpy.params as par
    import nrpy.c_function as cfc
    import nrpy.finite_difference  # registers fd_order
    import nrpy.validate_expressions.validate_expressions as ve
    ve.compare_or_generate_trusted_results = lambda *a, **k: None  # writes into the package
    ve.process_dictionary_of_expressions = lambda *a, **k: {}
    par.set_parval_from_str("Infrastructure", "CarpetX" if cx else "ETLegacy")
    import nrpy.equations.general_relativity.BSSN_constraints  # registers register_MU_gridfunctions
    par.set_parval_from_str("register_MU_gridfunctions", True)
    setcf(o["cf"])
    fd, simd = o["fd"], o["simd"]
    cfc.CFunction_dict.clear()
    if not (o["golden"] or thorough()):
        # the caller against c_codegen's contract: the values do not depend on the search for common factors (C02, C03)
        import nrpy.c_codegen as ccg
        real = ccg.c_codegen
        ccg.c_codegen = lambda *a, **k: real(*a, **{**k, "enable_GoldenKernels": False} if "enable_GoldenKernels" in k else k)
    G = INF[cx] + "general_relativity."

    def reg(mod, fn, **k):
        m = importlib.import_module(mod)
        ctx.under(f"{mod}.{fn}")
        before = par.parval_from_str("fd_order")
        r = ctx.call(f"{fn} succeeds", getattr(m, fn), **k)
        ctx.check(f"{fn} restores the finite-difference order", par.parval_from_str("fd_order") == before, "contract-exec", bounded=True)
        return r
    par.register_CodeParameter("CCTK_REAL", __name__, "lapse_floor", "1e-15", add_to_glb_code_params_dict=True)
    par.register_CodeParameter("CCTK_INT", __name__, "FD_order", "4", add_to_glb_code_params_dict=True)
    C = "Cartesian"
    par.set_parval_from_str("fd_order", fd)
    if o["T4"]:
        reg(G + "T4DD_to_T4UU", "register_CFunction_T4DD_to_T4UU", thorn_name=thorn, CoordSystem=C, enable_rfm_precompute=False)
    par.set_parval_from_str("fd_order", 10 - fd)  # each generator has to use its own argument
    reg(G + "ADM_to_BSSN", "register_CFunction_ADM_to_BSSN", thorn_name=thorn, CoordSystem=C, fd_order=fd)
    reg(G + "Ricci_eval", "register_CFunction_Ricci_eval", thorn_name=thorn, CoordSystem=C, enable_rfm_precompute=False, enable_simd=simd, fd_order=fd)
    reg(G + "rhs_eval", "register_CFunction_rhs_eval", thorn_name=thorn, CoordSystem=C, enable_rfm_precompute=False, enable_T4munu=o["T4"], enable_simd=simd, fd_order=fd, LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"],
        enable_KreissOliger_dissipation=o["ko"], KreissOliger_strength_gauge=0.3, KreissOliger_strength_nongauge=0.3, enable_CAKO=o["cako"], enable_CAHD=o["cahd"], enable_SSL=o["ssl"])
    reg(G + "BSSN_constraints", "register_CFunction_BSSN_constraints", thorn_name=thorn, CoordSystem=C, enable_rfm_precompute=False, enable_T4munu=o["T4"], enable_simd=simd, fd_order=fd)
    par.set_parval_from_str("fd_order", fd)
    reg(G + "BSSN_to_ADM", "register_CFunction_BSSN_to_ADM", thorn_name=thorn, CoordSystem=C)
    reg(G + "floor_the_lapse", "register_CFunction_floor_the_lapse", thorn_name=thorn)
    reg(G + "enforce_detgammahat_constraint", "register_CFunction_enforce_detgammahat_constraint", thorn_name=thorn, CoordSystem=C, enable_rfm_precompute=False)
    reg(INF[cx] + "zero_rhss", "register_CFunction_zero_rhss", thorn_name=thorn)
    reg(INF[cx] + "boundary_conditions", "register_CFunctions", thorn_name=thorn)
    if not cx:
        reg(G + "RegisterSlicing", "register_CFunction_RegisterSlicing", thorn_name=thorn)
        reg(INF[cx] + "Symmetry_registration", "register_CFunction_Symmetry_registration_oldCartGrid3D", thorn_name=thorn)
        reg(INF[cx] + "MoL_registration", "register_CFunction_MoL_registration", thorn_name=thorn)
    names = list(cfc.CFunction_dict)
    evol = sorted(n for n, g in gri.glb_gridfcs_dict.items() if g.group == "EVOL")
    aux = sorted(n for n, g in gri.glb_gridfcs_dict.items() if g.group == "AUX")
    auxevol = sorted(n for n, g in gri.glb_gridfcs_dict.items() if g.group == "AUXEVOL")
    ctx.check("exactly the BSSN variables are evolved", set(evol) == set(EVOL), "contract-exec", bounded=True, cex=str(evol))

    # parameters of the thorn: what its functions registered, with values of our own
    rng = random.Random(thorn + str(o))
    own = {"eta": 1.7, "PI": 3.3, "diss_strength": 0.31, "diss_strength_gauge": 0.37, "diss_strength_nongauge": 0.23, "SSL_h": 0.66, "SSL_sigma": 2.3, "C_CAHD": 0.19, "CFL_FACTOR__ignore_repeats_Carpet_timeref_factors": 0.45, "lapse_floor": 0.83, "FD_order": fd}
    params, unknown = {}, []
    for f in cfc.CFunction_dict.values():
        for n in f.ET_current_thorn_CodeParams_used or []:
            cp = par.glb_code_params_dict.get(n)
            if cp is None:
                unknown.append((f.name, n))
                continue
            t = {"REAL": "double", "CCTK_REAL": "double", "CCTK_INT": "int", "int": "int"}[cp.cparam_type]
            params[n] = (t, own.get(n, 1.234) if t == "double" else own.get(n, 3))
    ctx.check("every parameter a function of the thorn uses is registered", not unknown, "contract-exec", bounded=True, cex=str(unknown))
    P = {n: v for n, (t, v) in params.items()}
    ng = fd // 2 + 1
    lsh = [8 + 2 * ng, 3 + 2 * ng, 4 + 2 * ng]
    dx = [0.11, 0.13, 0.1] if o["cahd"] else [0.1, 0.11, 0.13]
    time = 1.9
    F0 = {}
    for n in EVOL:
        F0[n + "GF"] = field(rng, {"alpha": 0.9, "cf": 0.8}.get(n, 0.0), 0.08 if n.startswith(("hDD", "cf")) else 0.3, lsh)
    for n in cactus.FOREIGN["tmunubase::stress_energy_scalar"] + cactus.FOREIGN["tmunubase::stress_energy_vector"] + cactus.FOREIGN["tmunubase::stress_energy_tensor"]:
        F0[n] = field(rng, 0.0, 0.3, lsh)
    T = cactus.Thorn(cx, thorn, names, params, lsh, [ng] * 3, dx, time, simd=simd)
    pick = lambda s: next((n for n in names if n.startswith(f"{thorn}_{s}")), None)
    seq = [("T4DD_to_T4UU" if o["T4"] else None), "Ricci_eval", "rhs_eval", "specify_NewRad", "BSSN_constraints", "floor_the_lapse", "enforce_detgammahat", "BSSN_to_ADM", "ADM_to_BSSN", "zero_rhss"]
    seq += [] if cx else ["specify_Driver", "specify_evol", "specify_aux", "MoL_registration", "Symmetry_registration", "RegisterSlicing"]
    order = [pick(s) for s in seq if s]
    if not ctx.check("the thorn's functions are registered under their names", None not in order and set(order) == set(names), "contract-exec", bounded=True, cex=f"{names}"):
        return
    out = T.run(ctx, F0, order)
    if out is None:
        return
    inn = tuple(slice(ng, n - ng) for n in lsh[::-1])
    whole = tuple(slice(0, n) for n in lsh[::-1])
    prev = {v: (lambda a: (a.__setitem__(whole, F0[v]) if v in F0 else None, a)[1])(T.canary.copy()) for v in T.vars}
    S = dict(prev)

    def step(name):
        """frame of one call: which variables changed, where"""
        new = out[name]
        ch = {v for v in T.vars if not np.array_equal(new[v], S[v], equal_nan=True)}
        return new, ch

    def frame(name, new, ch, allowed, region):
        ctx.check(f"{name} writes only its outputs", ch <= set(allowed), "native-frame", bounded=True, cex=str(sorted(ch - set(allowed))))
        bad = []
        for v in ch & set(allowed):
            m = np.ones(new[v].shape, bool)
            m[region] = False
            if not np.array_equal(new[v][m], S[v][m]):
                bad.append(v)
        ctx.check(f"{name} writes only the points of its region", not bad, "native-frame", bounded=True, cex=str(sorted(bad)))

    def vals(A):
        return {n[:-2] if n.endswith("GF") else n: T.core(a) for n, a in A.items()}

    W_of = lambda cf: {"W": cf, "chi": np.sqrt(np.abs(cf)), "phi": np.exp(-2 * cf)}[o["cf"]]
    sym = lambda A, b: [[A[f"{b}{min(i, j)}{max(i, j)}"] for j in R3] for i in R3]
    gbar = lambda A: [[A[f"hDD{min(i, j)}{max(i, j)}"] + (i == j) for j in R3] for i in R3]
    for s, name in zip([s for s in seq if s], order):
        new, ch = step(name)
        A, B = vals(S), vals(new)
        log = [l for l in T.calls.get(name, []) if l]
        p = types.SimpleNamespace(ng=ng, dx=dx)
        Gd = Grid(p, fd, {n: A[n] for n in EVOL + [q for q in auxevol]})
        memo = {}
        xs = np.zeros(tuple(n - 2 * ng for n in lsh[::-1]))

        def val(n):
            if n in ("xx0", "xx1", "xx2"):
                return xs
            if n in P:
                return P[n]
            return Gd.sym(n)
        lab = s
        if s == "T4DD_to_T4UU":
            frame(lab, new, ch, [n + "GF" for n in T4], whole)
            g = np.array(gbar(A)) / W_of(A["cf"]) ** 2
            b = [A[f"vetU{i}"] for i in R3]
            gi = inv3(g)
            g4 = [[None] * 4 for _ in range(4)]
            g4[0][0] = -1 / A["alpha"] ** 2
            for i in R3:
                g4[0][i + 1] = g4[i + 1][0] = b[i] / A["alpha"] ** 2
                for j in R3:
                    g4[i + 1][j + 1] = gi[i][j] - b[i] * b[j] / A["alpha"] ** 2
            t = lambda a, c: A["eT" + cactus.TXYZ[min(a, c)] + cactus.TXYZ[max(a, c)]]
            for a in range(4):
                for c in range(a, 4):
                    terms = [g4[a][m] * g4[c][n] * t(m, n) for m in range(4) for n in range(4)]
                    agree(ctx, f"{lab}: T4UU{a}{c} at all points", B[f"T4UU{a}{c}"], sum(terms), 1e-11, scale=np.max(np.abs(terms), axis=0) + 1e-9)
        elif s == "Ricci_eval":
            from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
            Bq = BSSN_quantities[C]
            rb = [f"RbarDD{i}{j}" for i in R3 for j in range(i, 3)]
            frame(lab, new, ch, [n + "GF" for n in rb], inn)
            for i in R3:
                for j in range(i, 3):
                    e = R(Bq.RbarDD[i][j])
                    agree(ctx, f"{lab}: RbarDD{i}{j}", B[f"RbarDD{i}{j}"][inn], nev(e, val, memo), 1e-9, scale=magnitude(e, val, memo) + 1e-6)
        elif s == "rhs_eval":
            ex, ReU, H = ctx.call("direct-form expressions", expected, C, dict(o, Rbar=True))
            frame(lab, new, ch, [n + "_rhsGF" for n in EVOL], inn)
            W = W_of(A["cf"])[inn]
            for n in EVOL:
                e = ex[n]
                w, sc = nev(e, val, memo) + xs, magnitude(e, val, memo) + 1e-3
                gauge = n == "alpha" or n.startswith(("vet", "bet"))
                if o["ko"] and not (n.startswith("bet") and "2ndOrder" not in o["shift"]):
                    q = P["diss_strength_gauge" if gauge else "diss_strength_nongauge"] * W if o["cako"] else P["diss_strength"]
                    for k in R3:
                        t = q * Gd.get(n, "dKOD", [k])
                        w, sc = w + t, sc + np.abs(t)
                if n == "cf" and o["cahd"]:
                    cfv = A["cf"][inn]
                    pre = P["C_CAHD"] * P["CFL_FACTOR__ignore_repeats_Carpet_timeref_factors"] * min(dx)
                    w, sc = w - pre * nev(H, val, memo) * {"W": -2 * cfv, "chi": -4 * cfv, "phi": 1.0}[o["cf"]], sc + pre * magnitude(H, val, memo)
                if n == "alpha" and o["ssl"]:
                    t = W * P["SSL_h"] * np.exp(-time ** 2 / (2 * P["SSL_sigma"] ** 2)) * (A["alpha"][inn] - W)
                    w, sc = w - t, sc + np.abs(t)
                agree(ctx, f"{lab}: {n}", B[f"{n}_rhs"][inn], w, 1e-9, scale=sc)
        elif s == "BSSN_constraints":
            from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
            K = BSSN_constraints[C + ("_T4munu" if o["T4"] else "")]
            frame(lab, new, ch, [n + "GF" for n in aux], inn)
            for n, e in [("H", K.H), ("MSQUARED", K.Msquared)] + [(f"MU{i}", K.MU[i]) for i in R3]:
                e = R(e)
                sc = magnitude(e, val, memo)
                agree(ctx, f"{lab}: {n}", B[n][inn], nev(e, val, memo), 1e-8, scale=sc + 1e-2 * sc.max())
        elif s == "floor_the_lapse":
            frame(lab, new, ch, ["alphaGF"], whole)
            ctx.cover("the lapse was below the floor somewhere, not everywhere", bool((A["alpha"] < P["lapse_floor"]).any() and (A["alpha"] > P["lapse_floor"]).any()))
            ctx.check("the lapse is max(lapse, lapse_floor) at all points", np.array_equal(B["alpha"], np.maximum(A["alpha"], P["lapse_floor"])), "native-vs-contract", bounded=True)
        elif s == "enforce_detgammahat":
            frame(lab, new, ch, [f"hDD{i}{j}GF" for i in R3 for j in range(i, 3)], whole)
            m = np.array(gbar(A))
            d = np.linalg.det(np.moveaxis(m, (0, 1), (-2, -1)))
            ctx.cover("the determinant was violated before", np.abs(d - 1).max() > 1e-2)
            for i in R3:
                for j in range(i, 3):
                    agree(ctx, f"{lab}: hDD{i}{j} at all points", B[f"hDD{i}{j}"], m[i][j] / np.cbrt(d) - (i == j), 1e-12, scale=np.ones(d.shape))
        elif s == "BSSN_to_ADM":
            nm = [v for k in ("metric", "curv", "lapse", "shift", "dtshift") for v in cactus.FOREIGN["admbase::" + k]]
            frame(lab, new, ch, nm, whole)
            W = W_of(A["cf"])
            gb, X = gbar(A), cactus.XYZ
            agree(ctx, f"{lab}: alp", B["alp"], A["alpha"], 1e-15)
            for i in R3:
                agree(ctx, f"{lab}: beta{X[i]}", B["beta" + X[i]], A[f"vetU{i}"], 1e-15)
                agree(ctx, f"{lab}: dtbeta{X[i]}", B["dtbeta" + X[i]], A[f"betU{i}"], 1e-15)
                for j in range(i, 3):
                    agree(ctx, f"{lab}: g{X[i]}{X[j]} at all points", B["g" + X[i] + X[j]], gb[i][j] / W ** 2, 1e-12, scale=1 / W ** 2)
                    agree(ctx, f"{lab}: k{X[i]}{X[j]} at all points", B["k" + X[i] + X[j]], (A[f"aDD{i}{j}"] + gb[i][j] * A["trK"] / 3) / W ** 2, 1e-12, scale=1 / W ** 2)
        elif s == "ADM_to_BSSN":
            X = cactus.XYZ
            frame(lab, new, {v for v in ch if not v.startswith("lambdaU")}, [n + "GF" for n in EVOL], whole)
            frame(lab + " (lambdaU)", new, {v for v in ch if v.startswith("lambdaU")}, [n + "GF" for n in EVOL], inn)
            g = [[A["g" + X[min(i, j)] + X[max(i, j)]] for j in R3] for i in R3]
            k = [[A["k" + X[min(i, j)] + X[max(i, j)]] for j in R3] for i in R3]
            d = np.linalg.det(np.moveaxis(np.array(g), (0, 1), (-2, -1)))
            gi = inv3(g)
            tr = sum(gi[i][j] * k[i][j] for i in R3 for j in R3)
            W = d ** (-1 / 6)
            agree(ctx, f"{lab}: cf", B["cf"], {"W": W, "chi": W ** 2, "phi": -np.log(W) / 2}[o["cf"]], 1e-12, scale=1 + W)
            agree(ctx, f"{lab}: trK", B["trK"], tr, 1e-11, scale=1 + np.abs(tr))
            agree(ctx, f"{lab}: alpha", B["alpha"], A["alp"], 1e-15)
            h = {}
            for i in R3:
                agree(ctx, f"{lab}: vetU{i}", B[f"vetU{i}"], A["beta" + X[i]], 1e-15)
                agree(ctx, f"{lab}: betU{i}", B[f"betU{i}"], A["dtbeta" + X[i]], 1e-15)
                for j in range(i, 3):
                    h[f"hDD{i}{j}"] = g[i][j] * W ** 2 - (i == j)
                    agree(ctx, f"{lab}: hDD{i}{j}", B[f"hDD{i}{j}"], h[f"hDD{i}{j}"], 1e-12, scale=1 + W)
                    agree(ctx, f"{lab}: aDD{i}{j}", B[f"aDD{i}{j}"], W ** 2 * (k[i][j] - g[i][j] * tr / 3), 1e-11, scale=1 + W)
            Hd = Grid(p, fd, h)
            gbi = inv3([[h[f"hDD{min(i, j)}{max(i, j)}"][inn] + (i == j) for j in R3] for i in R3])
            D = lambda i, j, q: Hd.get(f"hDD{min(i, j)}{max(i, j)}", "dD", [q])
            for i in R3:
                w = sum(gbi[j][q] * gbi[i][m] * (D(m, j, q) + D(m, q, j) - D(j, q, m)) / 2 for j in R3 for q in R3 for m in R3)
                agree(ctx, f"{lab}: lambdaU{i} is the connection vector of the converted metric", B[f"lambdaU{i}"][inn], w, 1e-9, scale=1 + np.abs(w))
            want = [] if cx else [["EXTRAP", "1", f"lambdaU{i}GF"] for i in R3]
            ctx.check("the connection vector is extrapolated to the boundary, each component once", sorted(log) == sorted(want), "native-vs-contract", bounded=True, cex=str(log))
        elif s == "zero_rhss":
            frame(lab, new, ch, [n + "_rhsGF" for n in EVOL], whole)
            ctx.check("all right-hand sides are zero at all points", all((B[f"{n}_rhs"] == 0).all() for n in evol), "native-vs-contract", bounded=True)
        else:
            ctx.check(f"{lab} changes no gridfunction", not ch, "native-frame", bounded=True, cex=str(ch))
            th = thorn + "::"
            if s == "specify_NewRad":
                want = {}
                for n in evol:
                    g = gri.glb_gridfcs_dict[n]
                    want[n] = (float(g.f_infinity), float(g.wavespeed))
                got = [l for l in log if l[0] == "NEWRAD"]
                ok = len(got) == len(log) == len(want) and all(l[1] == "1" and l[3] == l[2][:-2] + "_rhsGF" and l[2][:-2] in want and np.allclose(want[l[2][:-2]], (float(l[4]), float(l[5])), rtol=1e-13, atol=0) and l[6] == "1" for l in got) and {l[2][:-2] for l in got} == set(want)
                ctx.check("each right-hand side gets the radiation condition of its variable: value at infinity, speed, 1/r fall-off", ok, "native-vs-contract", bounded=True, cex=str(got)[:800])
                flat = {n: 1.0 if n == "alpha" or (n == "cf" and o["cf"] != "phi") else 0.0 for n in EVOL}
                bad = {n: want[n] for n in want if n in flat and abs(want[n][0] - flat[n]) > 1e-12}
                ctx.check("values at infinity are those of flat space", not bad, "native-vs-contract", bounded=True, cex=str(bad))
            elif s == "specify_Driver":
                want = [["DRIVERBC", "1", "63", "1", "-1", f"{th}{n}GF", "none"] for n in evol] + [["DRIVERBC", "1", "63", str(ng), "-1", f"{th}{n}GF", "flat"] for n in aux]
                ctx.check("driver boundary conditions: none for evolved, flat over all ghost zones for diagnostic variables", sorted(want) == sorted(log), "native-vs-contract", bounded=True, cex=str(log)[:800])
            elif s == "specify_evol":
                ctx.check("evolved variables have boundary condition none", sorted(log) == sorted(["BOUNDARYBC", "1", "63", "1", "-1", f"{th}{n}GF", "none"] for n in evol), "native-vs-contract", bounded=True, cex=str(log)[:800])
            elif s == "specify_aux":
                ctx.check("diagnostic variables have flat boundary conditions over all ghost zones", sorted(log) == sorted(["BOUNDARYBC", "1", "63", str(ng), "-1", f"{th}{n}GF", "flat"] for n in aux), "native-vs-contract", bounded=True, cex=str(log)[:800])
            elif s == "MoL_registration":
                ctx.check("the evolved group is registered with its right-hand sides", log == [["MOL", th + "evol_variables", th + "evol_variables_rhs"]], "native-vs-contract", bounded=True, cex=str(log))
            elif s == "RegisterSlicing":
                ctx.check("the slicing is registered under the thorn's name", log == [["SLICING", thorn]], "native-vs-contract", bounded=True, cex=str(log))
            elif s == "Symmetry_registration":
                want = []
                for n, g in gri.glb_gridfcs_dict.items():
                    q = [1, 1, 1]
                    m = re.search(r"\d+$", n)
                    for c in (m.group(0) if m else ""):
                        c = int(c) - (1 if g.dimension == 4 else 0)
                        if c >= 0:
                            q[c] *= -1
                    want.append(["SYM", "1", *map(str, q), f"{th}{n}GF"])
                ctx.check("each variable has the reflection symmetries of its tensor indices", sorted(want) == sorted(log), "native-vs-contract", bounded=True, cex=str([l for l in log if l not in want])[:800])
        S = new

    # order of the scheduled functions
    E = {n: [e for e in T.entries[n] if e.ok] for n in names}

    def precedes(a, b, where):
        nodes = [(n, e) for n in names for e in E[n] if e.at == where]
        edge = lambda x, y: (y[0] in x[1].before or y[1].alias in x[1].before or x[0] in y[1].after or x[1].alias in y[1].after)
        src = [q for q in nodes if q[0] == a]
        seen, todo = set(), list(src)
        while todo:
            x = todo.pop()
            for y in nodes:
                if id(y[1]) not in seen and edge(x, y):
                    seen.add(id(y[1]))
                    todo.append(y)
        return bool(src) and any(id(q[1]) in seen for q in nodes if q[0] == b)
    rb, ps = ("ODESolvers_RHS", "ODESolvers_PostStep") if cx else ("MoL_CalcRHS", "MoL_PostStep")
    n = dict(zip([s for s in seq if s], order))
    req = [("Ricci_eval", "rhs_eval", rb), ("rhs_eval", "specify_NewRad", rb), ("floor_the_lapse", "enforce_detgammahat", ps)]
    if o["T4"]:
        req += [("T4DD_to_T4UU", "rhs_eval", rb), ("T4DD_to_T4UU", "BSSN_constraints", ps if cx else "MoL_PseudoEvolution")]
    for a, b, w in req:
        ctx.check(f"{a} is scheduled before {b} in {w}", precedes(n[a], n[b], w), "contract-exec", bounded=True, cex=str([(q, vars(e)) for q in (n[a], n[b]) for e in E[q]])[:900])
    for q in ("ADM_to_BSSN", "Ricci_eval", "rhs_eval", "BSSN_constraints"):
        ctx.check(f"{q} runs only when its order of accuracy is selected", all(re.sub(r"\s", "", e.cond) == f"FD_order=={fd}" for e in E[n[q]]), "contract-exec", bounded=True, cex=str([e.cond for e in E[n[q]]]))
    for q in names:
        if q not in [n[k] for k in ("ADM_to_BSSN", "Ricci_eval", "rhs_eval", "BSSN_constraints")]:
            ctx.check(f"{q} runs for every order of accuracy", all(not e.cond for e in E[q]), "contract-exec", bounded=True)
    at = {"ADM_to_BSSN": "CCTK_INITIAL", "Ricci_eval": rb, "rhs_eval": rb, "specify_NewRad": rb, "floor_the_lapse": ps, "enforce_detgammahat": ps, "BSSN_to_ADM": ps, "zero_rhss": "BASEGRID", "BSSN_constraints": ps if cx else "MoL_PseudoEvolution", "MoL_registration": "MoL_Register",
          "specify_Driver": "Driver_BoundarySelect", "specify_evol": ps, "specify_aux": "MoL_PseudoEvolution", "Symmetry_registration": "BASEGRID", "RegisterSlicing": "STARTUP"}
    for q, w in at.items():
        if q in n:
            ctx.check(f"{q} is scheduled in {w}", any(e.at == w for e in E[n[q]]), "contract-exec", bounded=True, cex=str([e.at for e in E[n[q]]]))


def opt(**k):
    d = dict(golden=False, cf="W", fd=4, simd=False, T4=False, ko=True, cako=False, cahd=False, ssl=False, lapse="OnePlusLog", shift="GammaDriving2ndOrder_NoCovariant")
    d.update(k)
    return d


def units():
    l = [(False, "Baikal", opt(simd=True, T4=True)), (False, "BaikalVacuum", opt(fd=6, simd=True)), (False, "MyThorn", opt(cf="chi", fd=2, cako=True, cahd=True, ssl=True, shift="GammaDriving2ndOrder_Covariant")),
         (False, "Baikal", opt(cf="chi", fd=4, simd=True, T4=True, cako=True, cahd=True, ssl=True, lapse="OnePlusLogAlt", shift="GammaDriving2ndOrder_Covariant__Hatted")),
         (True, "BaikalX", opt(golden=True)), (True, "BaikalX", opt(cf="chi", fd=2, T4=True, cako=True)), (True, "Baikal", opt(cf="phi", fd=6, T4=True, cako=True, cahd=True, ssl=True, shift="GammaDriving2ndOrder_Covariant"))]
    lab = lambda o: ",".join(str(k if v is True else v) for k, v in o.items() if v is not False and k not in ("lapse", "shift"))
    return [Unit(f"{'CarpetX' if cx else 'Carpet'} {t} {lab(o)}", u_thorn, (cx, t, o), timeout=800, weight=o["fd"] + 5 * o["T4"]) for cx, t, o in l]
