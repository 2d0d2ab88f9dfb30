"""C20  The generated BlackHoles@Home GR kernels evaluate the BSSN system with exactly the requested options, and initial data are set from the given ADM data."""
import os
import random
import re
from math import comb

import numpy as np
import sympy as sp

from vf import bhah
from vf.core import Unit, thorough
from props.c12 import PAT, R, RANK, R3, X, setcf
from props.c19 import DUMP, NANFILL, Prog, agree

LEVEL = "other"
EXPLANATION = ("Every kernel is generated with the real option combinations, compiled, run on non-polynomial random fields and compared at every grid point with its contract: the direct-form (not precomputed) BSSN expressions, whose correctness is C13, with each derivative "
               "replaced by the stencil of C01, plus the option terms written out independently; frame conditions (which points and gridfunctions are written) are checked on every array (bounded: enumerated option sets).")
PREIMPORT = ["nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library", "nrpy.equations.general_relativity.BSSN_gauge_RHSs", "props.c19"]
ASSUMPTIONS = ["the direct-form BSSN, gauge and constraint expressions are right (C12, C13)", "the inverse coordinate maps are right (C10, C18; systems with a known finding there are left out of the initial-data units)",
               "vectorised kernels: Nxx0 a multiple of the vector width, reference-metric precomputation on", "ADM initial data smooth across the axes, with a positive-definite metric"]
BOUNDS = ["one grid and random field per coordinate system and option set; agreement to 1e-9 of the largest term"]
TRUSTED = ["gcc and its sanitizers for the native comparisons"]
LIB = "nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library."
ADM = "nrpy.infrastructures.BHaH.general_relativity.ADM_Initial_Data_Reader__BSSN_Converter."
EVOL = ["alpha", "cf", "trK"] + [f"{v}U{i}" for v in ("vet", "bet", "lambda") for i in R3] + [f"{v}DD{i}{j}" for v in "ha" for i in R3 for j in range(i, 3)]
T4 = [f"T4UU{a}{b}" for a in range(4) for b in range(a, 4)]
RB = [f"RbarDD{i}{j}" for i in R3 for j in range(i, 3)]


# ------------------------------------------------------------------ stencils of the contract
def fdco(pts, der):
    M = sp.Matrix([[sp.Integer(p) ** k for p in pts] for k in range(len(pts))])
    b = sp.Matrix([sp.factorial(k) if k == der else 0 for k in range(len(pts))])
    return {p: float(c) for p, c in zip(pts, M.LUsolve(b)) if c != 0}


class Grid:
    """derivatives of the arrays of one program, by the stencils of order fd"""

    def __init__(self, p, fd, arrays):
        self.p, self.A = p, arrays
        m = fd // 2
        self.c1, self.c2 = fdco(list(range(-m, m + 1)), 1), fdco(list(range(-m, m + 1)), 2)
        self.up = fdco(list(range(-m + 1, m + 2)), 1)
        self.dn = {-k: -v for k, v in self.up.items()}
        self.ko = {j: (-1) ** (j + 1) * comb(2 * m + 2, m + 1 + j) / 2 ** (2 * m + 2) for j in range(-m - 1, m + 2)}
        self.memo = {}

    def sh(self, n, o):
        A, g = self.A[n], self.p.ng
        return A[tuple(slice(g + o[d], A.shape[2 - d] - g + o[d]) for d in (2, 1, 0))]

    def one(self, n, c, d):
        s = 0
        for k, v in c.items():
            o = [0, 0, 0]
            o[d] = k
            s = s + v * self.sh(n, o)
        return s / self.p.dx[d]

    def get(self, n, kind="", idx=()):
        key = (n, kind, tuple(idx))
        if key not in self.memo:
            self.memo[key] = self._get(n, kind, idx)
        return self.memo[key]

    def _get(self, n, kind, idx):
        if not kind:
            return self.sh(n, (0, 0, 0))
        if kind == "dD":
            return self.one(n, self.c1, idx[0])
        if kind == "dKOD":
            return self.one(n, self.ko, idx[0])
        if kind == "dupD":
            return np.where(self.get(f"vetU{idx[0]}") > 0, self.one(n, self.up, idx[0]), self.one(n, self.dn, idx[0]))
        if kind == "dDD":
            i, j = idx
            if i == j:
                return self.one(n, self.c2, i) / self.p.dx[i]
            s = 0
            for k, v in self.c1.items():
                for m, w in self.c1.items():
                    o = [0, 0, 0]
                    o[i], o[j] = k, m
                    s = s + v * w * self.sh(n, o)
            return s / self.p.dx[i] / self.p.dx[j]
        raise AssertionError(kind)

    def sym(self, n):
        m = PAT.match(n)
        if m:
            base, d, idx = m.groups()
            r = RANK[base]
            c = idx[:r]
            if r == 2:
                c = "".join(sorted(c))
            der = [int(q) for q in idx[r:]]
            if d == "dDD":
                der = sorted(der)
            return self.get(base + c, d or "", der)
        if n in self.A:
            return self.get(n)
        raise KeyError(n)


FUN = {sp.sin: np.sin, sp.cos: np.cos, sp.tan: np.tan, sp.exp: np.exp, sp.log: np.log, sp.sinh: np.sinh, sp.cosh: np.cosh, sp.tanh: np.tanh, sp.Abs: np.abs, sp.asinh: np.arcsinh, sp.atan: np.arctan, sp.acos: np.arccos}


def nev(e, val, memo):
    """value of an expression (shared subexpressions once); val: symbol -> array"""
    if e in memo:
        return memo[e]
    if e.is_Number or e.is_NumberSymbol:
        v = float(e)
    elif e.is_Symbol:
        v = val(str(e))
    elif e.is_Add:
        v = 0.0
        for a in e.args:
            v = v + nev(a, val, memo)
    elif e.is_Mul:
        v = 1.0
        for a in e.args:
            v = v * nev(a, val, memo)
    elif e.is_Pow:
        b = nev(e.base, val, memo)
        if e.exp.is_Integer:
            v = np.asarray(b, float) ** int(e.exp)
        elif e.exp.is_Rational:
            v = np.sqrt(b) ** int(e.exp.p) if e.exp.q == 2 else b ** float(e.exp)
        else:
            v = b ** nev(e.exp, val, memo)
    elif e.func in FUN:
        v = FUN[e.func](nev(e.args[0], val, memo))
    elif str(e.func) == "nrpyAbs":
        v = np.abs(nev(e.args[0], val, memo))
    else:
        raise NotImplementedError(str(e.func))
    memo[e] = v
    return v


def magnitude(e, val, memo):
    """size of the largest term of a sum, for the tolerance"""
    return np.max([np.abs(nev(a, val, memo) + 0 * val("xx0")) for a in (e.args if e.is_Add else [e])], axis=0)


# ------------------------------------------------------------------ fields set by the harness
def wavefill(names, seed, array, lead):
    """C code: names[i] = base + amp sin(k.s + phase)"""
    rng = random.Random(seed)
    o = ""
    for n in names:
        base = {"alpha": 0.9, "cf": 0.8, "cahdprefactor": 0.3}.get(n, 0.0)
        amp = 0.08 if n.startswith(("hDD", "cf")) else 0.3
        k = [rng.choice([-1, 1]) * rng.uniform(1.5, 4.0) for _ in R3]
        o += f" {array}[q + np * {n.upper()}GF] = {base} + {amp} * sin({k[0]:.4f}*s0 + {k[1]:.4f}*s1 + {k[2]:.4f}*s2 + {rng.uniform(0, 6):.4f});\n"
    return o


def fill(code):
    return ("for (int i2 = 0; i2 < N2; i2++) for (int i1 = 0; i1 < N1; i1++) for (int i0 = 0; i0 < N0; i0++) {\n const size_t q = i0 + (size_t)N0 * (i1 + (size_t)N1 * i2);\n"
            " const REAL s0 = (griddata[0].xx[0][i0] - params->xxmin0) / (params->xxmax0 - params->xxmin0), s1 = (griddata[0].xx[1][i1] - params->xxmin1) / (params->xxmax1 - params->xxmin1), s2 = (griddata[0].xx[2][i2] - params->xxmin2) / (params->xxmax2 - params->xxmin2);\n" + code + "}\n")


def index_lines(names):
    return "".join(f'printf("GFI{n} %d\\n", {n.upper()}GF);\n' for n in names) + 'printf("NUMS %d %d %d\\n", NUM_EVOL_GFS, NUM_AUXEVOL_GFS, NUM_AUX_GFS);\n'


def named(p, block, names):
    return {n: block[int(p.lines["GFI" + n][1])] for n in names}


KO_G, KO_N, SSLV, CC, CFL, ETA = 0.37, 0.23, 0.71, 0.19, 0.4, 1.7


def expected(name, o):
    """contract of rhs_eval: direct-form expressions by evolved variable (base expression, list of option terms)"""
    from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
    from nrpy.equations.general_relativity.BSSN_gauge_RHSs import BSSN_gauge_RHSs
    from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
    import nrpy.reference_metric as refmetric
    key = name + ("_RbarDD_gridfunctions" if o["Rbar"] else "") + ("_T4munu" if o["T4"] else "")
    r = BSSN_RHSs[key]
    d = {}
    for i in R3:
        d[f"lambdaU{i}"] = r.lambda_rhsU[i]
        for j in range(i, 3):
            d[f"hDD{i}{j}"], d[f"aDD{i}{j}"] = r.h_rhsDD[i][j], r.a_rhsDD[i][j]
    d["cf"], d["trK"] = r.cf_rhs, r.trK_rhs
    al, ve, be = BSSN_gauge_RHSs(CoordSystem=name, enable_rfm_precompute=False, enable_T4munu=o["T4"], LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"])
    d["alpha"] = al
    for i in R3:
        d[f"vetU{i}"], d[f"betU{i}"] = ve[i], be[i]
    ReU = refmetric.reference_metric[name].ReU
    H = BSSN_constraints[key].H
    return {n: R(e) for n, e in d.items()}, [R(q) for q in ReU], R(H)


def aux_names(o):
    return (RB if o["Rbar"] else []) + (T4 if o["T4"] else []) + (["cahdprefactor"] if o["cahd"] else [])


def u_rhs(ctx, name, o):
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as lib
    for f in ("rhs_eval", "Ricci_eval", "constraints", "enforce_detgammabar_equals_detgammahat", "cahdprefactor_auxevol_gridfunction"):
        ctx.under(LIB + "register_CFunction_" + f)
    setcf(o["cf"])
    pre, simd, fd = o["pre"], o["simd"], o["fd"]
    arg = "&griddata[0].rfmstruct" if pre else "griddata[0].xx"
    st = {}

    def gen():
        import nrpy.grid as gri
        import nrpy.params as par
        from nrpy.equations.general_relativity.BSSN_RHSs import BSSN_RHSs
        c = BSSN_RHSs[name + ("_rfm_precompute" if pre else "") + ("_RbarDD_gridfunctions" if o["Rbar"] else "") + ("_T4munu" if o["T4"] else "")]
        g = lambda: {k: v for k, v in c.BSSN_RHSs_varname_to_expr_dict.items() if not k.startswith(("alpha", "vet", "bet"))}
        a = g()
        lib.register_CFunction_rhs_eval(CoordSystem=name, enable_rfm_precompute=pre, enable_RbarDD_gridfunctions=o["Rbar"], enable_T4munu=o["T4"], enable_simd=simd, enable_fd_functions=o["fdf"], LapseEvolutionOption=o["lapse"], ShiftEvolutionOption=o["shift"],
                                        enable_KreissOliger_dissipation=o["ko"], KreissOliger_strength_gauge=KO_G, KreissOliger_strength_nongauge=KO_N, enable_CAKO=o["cako"], enable_CAHD=o["cahd"], enable_SSL=o["ssl"], OMP_collapse=o["omp"])
        b = g()
        st["cache"] = a == b
        if o["Rbar"]:
            lib.register_CFunction_Ricci_eval(name, pre, simd, o["fdf"], o["omp"])
        lib.register_CFunction_constraints(name, pre, o["Rbar"], o["T4"], simd, o["fdf"], o["omp"])
        lib.register_CFunction_enforce_detgammabar_equals_detgammahat(name, pre, o["fdf"], o["omp"])
        if o["cahd"]:
            lib.register_CFunction_cahdprefactor_auxevol_gridfunction([name])
        st["gfs"] = {n: gri.glb_gridfcs_dict[n] for n in gri.glb_gridfcs_dict}
        for n in ("H", "MSQUARED"):  # as the projects do
            if n not in gri.glb_gridfcs_dict:
                gri.register_gridfunctions(n, group="AUX")
        st["codep"] = {n: par.glb_code_params_dict[n] for n in ("KreissOliger_strength_gauge", "KreissOliger_strength_nongauge") if n in par.glb_code_params_dict}
    aux = aux_names(o)
    body = index_lines(EVOL + aux + ["H", "MSQUARED"])
    body += "REAL *aux = malloc(sizeof(REAL) * np * (NUM_AUXEVOL_GFS + 1)), *dg = malloc(sizeof(REAL) * np * NUM_AUX_GFS);\n"
    body += NANFILL % ("aux", "NUM_AUXEVOL_GFS")
    body += fill(wavefill(EVOL, name + "y", "y", "") + wavefill([n for n in aux if n not in RB + ["cahdprefactor"]], name + "a", "aux", ""))
    if o["cahd"]:
        body += "cahdprefactor_auxevol_gridfunction(&commondata, params, griddata[0].xx, aux);\n"
    if o["Rbar"]:
        body += f"Ricci_eval(&commondata, params, {arg}, y, aux);\n"
    body += DUMP % ("y", "NUM_EVOL_GFS") + DUMP % ("aux", "NUM_AUXEVOL_GFS") + NANFILL % ("rhs", "NUM_EVOL_GFS") + f"rhs_eval(&commondata, params, {arg}, aux, y, rhs);\n" + DUMP % ("rhs", "NUM_EVOL_GFS")
    body += NANFILL % ("dg", "NUM_AUX_GFS") + f"constraints_eval(&commondata, params, {arg}, y, aux, dg);\n" + DUMP % ("dg", "NUM_AUX_GFS") + DUMP % ("y", "NUM_EVOL_GFS") + DUMP % ("aux", "NUM_AUXEVOL_GFS")
    body += f"enforce_detgammabar_equals_detgammahat(&commondata, params, {arg}, y);\n" + DUMP % ("y", "NUM_EVOL_GFS")
    sets = "commondata.CFL_FACTOR = %r;\n" % CFL
    if o["ko"]:
        sets += f"if (commondata.KreissOliger_strength_gauge != {KO_G} || commondata.KreissOliger_strength_nongauge != {KO_N}) printf(\"BADKO\\n\");\n"
    if o["ssl"]:
        sets += f"commondata.SSL_Gaussian_prefactor = {SSLV};\n"
    if o["cahd"]:
        sets += f"commondata.C_CAHD = {CC};\n"
    sets += f"commondata.eta = {ETA};\n" if "GammaDriving" in o["shift"] and "Frozen" not in o["shift"] else ""
    p = Prog(ctx, name, gen, pre, simd, True, fd, o["N"], sets=sets, body=body, size=3.0)
    try:
        if not p.ok:
            return
        ctx.check("generating the kernels leaves the cached BSSN right-hand sides unchanged", st["cache"], "contract-exec", bounded=True)
        ctx.check("dissipation strengths are those requested", "BADKO" not in p.lines, "native-vs-contract", bounded=True)
        nE, nA, nD = (int(q) for q in p.lines["NUMS"][1:])
        ctx.check("exactly the BSSN variables are evolved", nE == len(EVOL), "native-vs-contract", cex=f"{nE}", bounded=True)
        Y, A, RH, D, Y2, A2, Y3 = (p.gf(k) for k in (nE, nA, nE, nD, nE, nA, nE))
        F = named(p, Y, EVOL)
        F.update(named(p, A, aux))
        G = Grid(p, fd, F)
        inn = p.inner
        pv = {str(k): v for k, v in p.pv.items()}

        def val(n):
            if n in ("xx0", "xx1", "xx2"):
                return p.xx[int(n[2])][inn]
            if n in pv:
                return pv[n]
            if n == "eta":
                return ETA
            return G.sym(n)
        memo = {}
        ex, ReU, H = ctx.call("direct-form expressions", expected, name, o)
        # kernels feeding rhs_eval
        if o["cahd"]:
            h = [np.abs(p.fn(q)) * p.dx[d] for d, q in enumerate(p.scale)]
            agree(ctx, "cahdprefactor = C_CAHD CFL_FACTOR times the smallest proper spacing, at all points", F["cahdprefactor"], CC * CFL * np.minimum(h[0], np.minimum(h[1], h[2])), 1e-10)
        frame = np.ones(p.xx[0].shape, bool)
        frame[inn] = False
        if o["Rbar"]:
            from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
            B = BSSN_quantities[name]
            for i in R3:
                for j in range(i, 3):
                    e = R(B.RbarDD[i][j])
                    agree(ctx, f"Ricci_eval: RbarDD{i}{j}", F[f"RbarDD{i}{j}"][inn], nev(e, val, memo), 1e-9, scale=magnitude(e, val, memo) + 1e-6)
            rb = np.array([F[n] for n in RB])
            ctx.check("Ricci_eval writes interior points only", bool(np.isnan(rb[:, frame]).all()), "native-frame", bounded=True)
        # right-hand sides
        W = {"W": F["cf"], "chi": np.sqrt(np.abs(F["cf"])), "phi": np.exp(-2 * F["cf"])}[o["cf"]][inn]
        hk = [nev(q, val, memo) for q in ReU]
        RHS = named(p, RH, EVOL)
        for n in EVOL:
            e = ex[n]
            w, sc = nev(e, val, memo) + 0 * p.xx[0][inn], magnitude(e, val, memo) + 1e-3
            if o["ko"] and not (n.startswith("bet") and "2ndOrder" not in o["shift"]):
                s = (KO_G if n in ("alpha",) or n.startswith(("vet", "bet")) else KO_N) * (W if o["cako"] else 1.0)
                for k in R3:
                    t = s * G.get(n, "dKOD", [k]) * hk[k]
                    w, sc = w + t, sc + np.abs(t)
            if n == "cf" and o["cahd"]:
                cfv = F["cf"][inn]
                t = -F["cahdprefactor"][inn] * nev(H, val, memo) * {"W": -2 * cfv, "chi": -4 * cfv, "phi": 1.0}[o["cf"]]
                w, sc = w + t, sc + F["cahdprefactor"][inn] * magnitude(H, val, memo)
            if n == "alpha" and o["ssl"]:
                t = W * SSLV * (F["alpha"][inn] - W)
                w, sc = w - t, sc + np.abs(t)
            agree(ctx, f"rhs_eval: {n}", RHS[n][inn], w, 1e-9, scale=sc)
        ctx.check("rhs_eval writes interior points only", bool(np.isnan(RH[:, frame]).all()), "native-frame", bounded=True)
        # constraints
        from nrpy.equations.general_relativity.BSSN_constraints import BSSN_constraints
        C = BSSN_constraints[name + ("_RbarDD_gridfunctions" if o["Rbar"] else "") + ("_T4munu" if o["T4"] else "")]
        DG = named(p, D, ["H", "MSQUARED"])
        for n, e in (("H", R(C.H)), ("MSQUARED", R(C.Msquared))):
            sc = magnitude(e, val, memo)
            agree(ctx, f"constraints_eval: {n}", DG[n][inn], nev(e, val, memo), 1e-8, scale=sc + 1e-2 * sc.max())
        ctx.check("constraints_eval writes interior points only", bool(np.isnan(D[:, frame]).all()), "native-frame", bounded=True)
        ctx.check("the kernels leave the evolved and auxiliary fields unchanged", np.array_equal(Y, Y2) and np.array_equal(A, A2, equal_nan=True), "native-frame", bounded=True)
        # det(gammabar) = det(gammahat)
        Z = named(p, Y3, EVOL)
        M = lambda q: np.moveaxis(np.array([[q[f"hDD{min(i, j)}{max(i, j)}"] + (i == j) for j in R3] for i in R3]), (0, 1), (-2, -1))
        m0, m1 = M(F), M(Z)
        ctx.cover("the determinant was violated before", np.abs(np.linalg.det(m0) - 1).max() > 1e-2)
        agree(ctx, "enforce: det(gammabar) = det(gammahat) at all points", np.linalg.det(m1), np.ones(m1.shape[:-2]), 1e-11)
        sc = np.linalg.det(m0) ** (-1 / 3)
        agree(ctx, "enforce: the conformal metric is only rescaled", m1, m0 * sc[..., None, None], 1e-11, scale=1.0)
        ctx.check("enforce: nothing but hDD is written", all(np.array_equal(Z[n], F[n]) for n in EVOL if not n.startswith("hDD")), "native-frame", bounded=True)
    finally:
        p.close()
        setcf("W")

# ------------------------------------------------------------------ initial data
ADMF = ["alpha"] + [f"{v}U{i}" for v in ("beta", "B") for i in R3] + [f"{v}DD{i}{j}" for v in ("gamma", "K") for i in R3 for j in range(i, 3)]


def adm_fields(seed, t4):
    """random smooth Cartesian ADM data: name -> (base, amp, k, phase)"""
    rng = random.Random(seed)
    o = {}
    for n in ADMF + (T4 if t4 else []):
        base = 1.4 if n in ("gammaDD00", "gammaDD11", "gammaDD22") else 0.8 if n == "alpha" else 0.0
        o[n] = (base + round(rng.uniform(-0.1, 0.1), 3), 0.12 if n.startswith("gamma") else 0.25, [round(rng.uniform(-0.5, 0.5), 3) for _ in R3], round(rng.uniform(0, 6), 3))
    return o


def adm_c(fields, basis, t4):
    """C function giving these data in the Cartesian or spherical basis"""
    b = "REAL C[40] = {0};\n"
    ix = {n: i for i, n in enumerate(fields)}
    for n, (base, amp, k, ph) in fields.items():
        b += f"C[{ix[n]}] = {base} + {amp} * sin({k[0]}*xCart[0] + {k[1]}*xCart[1] + {k[2]}*xCart[2] + {ph});\n"
    b += "REAL L[3][3] = {{1,0,0},{0,1,0},{0,0,1}}, M[3][3] = {{1,0,0},{0,1,0},{0,0,1}};\n"
    if basis == "Spherical":  # L[i][a] = dx^a/dq^i, M[i][a] = dq^i/dx^a
        b += """{ const REAL x = xCart[0], y = xCart[1], z = xCart[2], rho = sqrt(x*x + y*y), r = sqrt(rho*rho + z*z), st = rho/r, ct = z/r, cp = x/rho, sp = y/rho;
  const REAL A[3][3] = {{st*cp, st*sp, ct}, {r*ct*cp, r*ct*sp, -r*st}, {-r*st*sp, r*st*cp, 0}}, h2[3] = {1, r*r, rho*rho};
  for (int i = 0; i < 3; i++) for (int a = 0; a < 3; a++) { L[i][a] = A[i][a]; M[i][a] = A[i][a] / h2[i]; } }
"""
    b += f"initial_data->alpha = C[{ix['alpha']}];\n"
    for v in ("beta", "B"):
        for i in R3:
            b += f"initial_data->{v}SphorCartU{i} = " + " + ".join(f"M[{i}][{a}] * C[{ix[f'{v}U{a}']}]" for a in R3) + ";\n"
    for v in ("gamma", "K"):
        for i in R3:
            for j in range(i, 3):
                b += f"initial_data->{v}SphorCartDD{i}{j} = " + " + ".join(f"L[{i}][{a}]*L[{j}][{c}] * C[{ix[f'{v}DD{min(a, c)}{max(a, c)}']}]" for a in R3 for c in R3) + ";\n"
    if t4:
        b += "REAL M4[4][4] = {{1,0,0,0}}; for (int i = 0; i < 3; i++) for (int a = 0; a < 3; a++) M4[i+1][a+1] = M[i][a];\n"
        for m in range(4):
            for n in range(m, 4):
                b += f"initial_data->T4SphorCartUU{m}{n} = " + " + ".join(f"M4[{m}][{a}]*M4[{n}][{c}] * C[{ix[f'T4UU{min(a, c)}{max(a, c)}']}]" for a in range(4) for c in range(4)) + ";\n"
    return b


def mv(M, k):
    return np.moveaxis(M, tuple(range(k)), tuple(range(-k, 0)))


def rescaled(p, cf, al, be, B, gam, K):
    """contract: evolved variables from Cartesian ADM data on the grid arrays (leading tensor axes)"""
    J1 = np.array([[p.fn(p.xc[a].diff(X[i])) for i in R3] for a in R3])  # dx^a/dq^i
    Ji = np.moveaxis(np.linalg.inv(mv(J1, 2)), (-2, -1), (0, 1))
    h = np.array([p.fn(q) for q in p.scale])
    E = J1 / h  # columns: the basis in which the stored components are taken
    det = np.linalg.det(mv(gam, 2))
    e4 = det ** (1 / 3)  # det of the flat Cartesian metric is 1
    gi = np.moveaxis(np.linalg.inv(mv(gam, 2)), (-2, -1), (0, 1))
    trK = np.einsum("ab...,ab...->...", gi, K)
    gb, Ab = gam / e4, (K - gam * trK / 3) / e4
    pr = lambda T: np.einsum("ai...,bj...,ab...->ij...", E, E, T)
    v = lambda U: np.einsum("ia...,a...->i...", Ji, U) * h
    hD, aD = pr(gb), pr(Ab)
    phi = np.log(e4) / 4
    o = {"alpha": al, "trK": trK, "cf": {"phi": phi, "W": np.exp(-2 * phi), "chi": np.exp(-4 * phi)}[cf]}
    vb, vB = v(be), v(B)
    for i in R3:
        o[f"vetU{i}"], o[f"betU{i}"] = vb[i], vB[i]
        for j in range(i, 3):
            o[f"hDD{i}{j}"], o[f"aDD{i}{j}"] = hD[i][j] - (i == j), aD[i][j]
    return o, Ji


def u_id(ctx, name, idc, cf, t4, origin, idtype=None):
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as lib
    import nrpy.params as par
    for f in ("Cfunction_ADM_SphorCart_to_Cart", "Cfunction_ADM_Cart_to_BSSN_Cart", "Cfunction_BSSN_Cart_to_rescaled_BSSN_rfm", "Cfunction_initial_data_lambdaU_grid_interior", "register_CFunction_initial_data_reader__convert_ADM_Sph_or_Cart_to_BSSN", "register_CFunction_exact_ADM_ID_function"):
        ctx.under(ADM + f)
    ctx.under(LIB + "register_CFunction_initial_data")
    setcf(cf)
    fields = adm_fields(name + idc, t4)
    fd = 4
    st = {}

    def gen():
        from nrpy.equations.general_relativity.BSSN_quantities import BSSN_quantities
        st["Bq"] = BSSN_quantities[name]
        if t4:
            gri.register_gridfunctions_for_single_rank2("T4UU", symmetry="sym01", dimension=4, group="AUXEVOL")
        lib.register_CFunction_initial_data(CoordSystem=name, IDtype=idtype or "vf_ID", IDCoordSystem=idc, ID_persist_struct_str="int vf_state;", populate_ID_persist_struct_str="ID_persist.vf_state = 77;\n",
                                            free_ID_persist_struct_str='if (ID_persist.vf_state != 77) abort();\nprintf("FREED\\n");\n', enable_T4munu=t4)
        if not idtype:
            cfc.register_CFunction(name="vf_ID", desc="data", includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], cfunc_type="void", params="const commondata_struct *restrict commondata, const params_struct *restrict params, const REAL xCart[3], const ID_persist_struct *restrict ID_persist, initial_data_struct *restrict initial_data",
                                   body="if (ID_persist->vf_state != 77) abort();\n" + adm_c(fields, idc, t4))
        st["pars"] = {n: q.defaultvalue for n, q in par.glb_code_params_dict.items()}
    aux = T4 if t4 else []
    body = index_lines(EVOL + aux) + NANFILL % ("y", "NUM_EVOL_GFS") + "REAL *aux = griddata[0].gridfuncs.auxevol_gfs;\n"
    if t4:
        body += NANFILL % ("aux", "NUM_AUXEVOL_GFS")
    body += f"ID_persist_struct ID_persist; ID_persist.vf_state = 77;\ninitial_data_reader__convert_ADM_{idc}_to_BSSN(&commondata, params, griddata[0].xx, &griddata[0].bcstruct, &griddata[0].gridfuncs, &ID_persist, {idtype or 'vf_ID'});\n" + DUMP % ("y", "NUM_EVOL_GFS")
    body += DUMP % ("aux", "NUM_AUXEVOL_GFS") if t4 else ""
    body += NANFILL % ("y", "NUM_EVOL_GFS") + "initial_data(&commondata, griddata);\n" + DUMP % ("y", "NUM_EVOL_GFS") + "apply_bcs_outerextrap_and_inner(&commondata, params, &griddata[0].bcstruct, y);\n" + DUMP % ("y", "NUM_EVOL_GFS")
    body = "".join(f"params->Cart_origin{c} = {v};\n" for c, v in zip("xyz", origin)) + body
    p = Prog(ctx, name, gen, False, False, True, fd, [8, 6, 10] if name != "Cartesian" else [7, 6, 5], body=body, size=3.0, curvi=True, maps=True)
    try:
        if not p.ok:
            return
        ctx.check("the data's own set-up and clean-up code is run once", p.out.count("FREED") == 1, "native-vs-contract", cex=p.out[-300:], bounded=True)
        nE, nA, _ = (int(q) for q in p.lines["NUMS"][1:])
        Y = p.gf(nE)
        A = p.gf(nA) if t4 else None
        Y1, Y2 = p.gf(nE), p.gf(nE)
        xc = np.array([p.fn(q) + origin[a] for a, q in enumerate(p.xc)])
        if idtype is None:
            V = {n: b + a * np.sin(k[0] * xc[0] + k[1] * xc[1] + k[2] * xc[2] + ph) for n, (b, a, k, ph) in fields.items()}
            sy = lambda v, n=3: np.array([[V[f"{v}{min(i, j)}{max(i, j)}"] for j in range(n)] for i in range(n)])
            al, be, B, gam, K = V["alpha"], np.array([V[f"betaU{i}"] for i in R3]), np.array([V[f"BU{i}"] for i in R3]), sy("gammaDD"), sy("KDD")
        else:
            al, be, B, gam, K = exact_adm(idtype, idc, xc, st["pars"])
        want, Ji = rescaled(p, cf, al, be, B, gam, K)
        F = named(p, Y, EVOL)
        for n in EVOL:
            if not n.startswith("lambda"):
                agree(ctx, f"{n} is the given ADM data in the coordinate basis, at every point", F[n], want[n], 1e-8, scale=1 + np.abs(want[n]))
        if t4:
            T = named(p, A, T4)
            M4 = np.zeros((4, 4) + Ji.shape[2:])
            M4[0, 0] = 1
            M4[1:, 1:] = Ji
            w = np.einsum("ma...,nb...,ab...->mn...", M4, M4, sy("T4UU", 4))
            # stored values at inner-boundary points are taken at the image point: compare where the coordinates are those of the point
            for m in range(4):
                for n in range(m, 4):
                    agree(ctx, f"T4UU{m}{n} in the coordinate basis, at interior points", T[f"T4UU{m}{n}"][p.inner], w[m][n][p.inner], 1e-8, scale=1 + np.abs(w[m][n][p.inner]))
        # lambda^i from finite differences of h_ij
        G = Grid(p, fd, want)
        pv = {str(k): v for k, v in p.pv.items()}
        val = lambda n: p.xx[int(n[2])][p.inner] if n in ("xx0", "xx1", "xx2") else pv[n] if n in pv else G.sym(n)
        import nrpy.reference_metric as refmetric
        rfm, Bq, memo = refmetric.reference_metric[name], st["Bq"], {}
        for i in R3:
            t = [nev(R(Bq.gammabarUU[j][k]), val, memo) * (nev(R(Bq.GammabarUDD[i][j][k]), val, memo) - nev(R(rfm.GammahatUDD[i][j][k]), val, memo)) for j in R3 for k in R3]
            h = nev(R(rfm.ReU[i]), val, memo)
            w = sum(t) / h + 0 * p.xx[0][p.inner]
            sc = sum(np.abs(nev(R(Bq.gammabarUU[j][k]), val, memo) * nev(R(Bq.GammabarUDD[i][j][k]), val, memo)) for j in R3 for k in R3) / np.abs(h)
            agree(ctx, f"lambdaU{i} is the connection vector of the conformal metric, at interior points", F[f"lambdaU{i}"][p.inner], w, 1e-7, scale=1 + sc)
        ctx.check("initial_data: interior points hold the converted data", np.array_equal(Y1[(slice(None),) + p.inner], Y[(slice(None),) + p.inner]), "native-vs-contract", bounded=True)
        ctx.check("initial_data: boundary conditions have been applied to every evolved field", np.allclose(Y1, Y2, rtol=1e-12, atol=1e-12), "native-vs-contract", cex=f"largest change {np.nanmax(np.abs(Y1 - Y2))}, unset values {int(np.isnan(Y1).sum())}", bounded=True)
    finally:
        p.close()
        setcf("W")


def exact_adm(idtype, idc, xc, pars):
    """Cartesian ADM data of the named exact solution (its expressions are C19)"""
    if idc == "Cartesian":
        from nrpy.equations.general_relativity.InitialData_Cartesian import InitialData_Cartesian as C
        co = dict(zip("xyz", xc))
    else:
        from nrpy.equations.general_relativity.InitialData_Spherical import InitialData_Spherical as C
        r, rho = np.sqrt((xc ** 2).sum(0)), np.sqrt(xc[0] ** 2 + xc[1] ** 2)
        th, ph = np.arctan2(rho, xc[2]), np.arctan2(xc[1], xc[0])
        co = dict(r=r, th=th, ph=ph, xx0=r, xx1=th, xx2=ph)
    o = C(IDtype=idtype)
    memo = {}
    val = lambda n: co[n] if n in co else float(pars[n])
    ev = lambda e: nev(R(e), val, memo) + 0 * xc[0]
    al = ev(o.alpha)
    v = lambda U: np.array([ev(q) for q in U])
    t = lambda T: np.array([[ev(q) for q in r] for r in T])
    be, B, g, K = v(o.betaU), v(o.BU), t(o.gammaDD), t(o.KDD)
    if idc != "Cartesian":
        st, ct, sp_, cp = np.sin(th), np.cos(th), np.sin(ph), np.cos(ph)
        D = np.array([[st * cp, st * sp_, ct], [r * ct * cp, r * ct * sp_, -r * st], [-r * st * sp_, r * st * cp, 0 * r]])  # dx^a/dq^i as [i][a]
        I = D / np.array([1 + 0 * r, r * r, rho * rho])[:, None]
        be, B = np.einsum("ia...,i...->a...", D, be), np.einsum("ia...,i...->a...", D, B)
        g, K = (np.einsum("ia...,jb...,ij...->ab...", I, I, q) for q in (g, K))
    return al, be, B, g, K


def opts(**k):
    d = dict(cf="W", pre=False, simd=False, fd=4, Rbar=False, T4=False, fdf=False, ko=True, cako=False, cahd=False, ssl=False, omp=1, lapse="OnePlusLog", shift="GammaDriving2ndOrder_Covariant", N=[8, 4, 6])
    d.update(k)
    return d


def units():
    U = []
    for n, o in [("Spherical", opts(pre=True, Rbar=True, T4=True, fdf=True, cako=True, cahd=True, ssl=True, omp=2)),
                 ("SinhSpherical", opts(pre=True, simd=True, Rbar=True, fdf=True, cako=True, cahd=True, ssl=True, shift="GammaDriving2ndOrder_NoCovariant")),
                 ("Spherical", opts(cf="chi", fd=2, lapse="OnePlusLogAlt", shift="GammaDriving1stOrder_Covariant", ko=False, cahd=True, ssl=True)),
                 ("Cartesian", opts(cf="phi", T4=True, fd=6, cako=True, cahd=True, ssl=True, N=[5, 4, 6])),
                 ("SinhCylindrical", opts(cf="chi", pre=True, simd=True, Rbar=True, T4=True, cako=True, fdf=True, shift="GammaDriving1stOrder_Covariant__Hatted", omp=2)),
                 ("SymTP", opts(cf="phi", pre=True, T4=True, fd=2, cako=True, cahd=True, lapse="HarmonicSlicing", shift="NonAdvectingGammaDriving")),
                 ("SinhCartesian", opts(cf="chi", Rbar=True, cako=True, ssl=True, cahd=True, lapse="OnePlusLog", shift="GammaDriving2ndOrder_Covariant__Hatted")),
                 ("HoleySinhSpherical", opts(cf="W", pre=True, Rbar=True, fdf=True, lapse="Frozen", shift="Frozen", ssl=True))]:
        U.append(Unit("kernels " + n + " " + ",".join(f"{k}" if v is True else f"{v}" for k, v in o.items() if v and k in ("cf", "pre", "simd", "Rbar", "T4", "ko", "cako", "cahd", "ssl", "fd")), u_rhs, (n, o), weight=20, timeout=600))
    O = (0.0, 0.0, 0.0)
    for n, idc, cf, t4, org, idt in [("Spherical", "Spherical", "W", True, O, None), ("Spherical", "Cartesian", "chi", False, O, None), ("SinhSpherical", "Cartesian", "W", True, O, None), ("SinhSpherical", "Spherical", "phi", False, O, None), ("Cartesian", "Spherical", "phi", True, (0.3, -0.4, 0.5), None),
                                     ("Cartesian", "Cartesian", "W", True, (0.3, -0.4, 0.5), None), ("SinhCartesian", "Cartesian", "chi", True, (-0.7, 0.2, 0.1), None), ("Cylindrical", "Spherical", "chi", True, O, None), ("SinhCylindrical", "Cartesian", "phi", False, (0.2, 0.6, -0.5), None),
                                     ("SymTP", "Cartesian", "W", True, O, None), ("HoleySinhSpherical", "Spherical", "W", False, O, None), ("Spherical", "Cartesian", "W", True, (0.5, -0.3, 0.4), None),
                                     ("SinhSpherical", "Spherical", "W", False, O, "UIUCBlackHole"), ("Cylindrical", "Spherical", "chi", False, O, "OffsetKerrSchild"), ("Spherical", "Spherical", "phi", False, O, "StaticTrumpet"), ("Spherical", "Cartesian", "W", False, O, "BrillLindquist")]:
        U.append(Unit(f"initial data {n} from {idt or idc} cf={cf} T4={t4} origin={org[0]}", u_id, (n, idc, cf, t4, org, idt), weight=10, timeout=600))
    return U
