"""C21  psi4, its tetrad and its spin-weight -2 modes."""
import itertools
import os
import random
import re

import mpmath
import numpy as np
import sympy as sp

from vf import bhah, jets
from vf.core import Unit, thorough
from props.c12 import R, R3, X, setcf
from props.c13 import DPS, World, near, st
from props.c19 import DUMP, NANFILL, Prog, agree
from props.c20 import EVOL, Grid, fill, index_lines, named, nev, wavefill

LEVEL = "other"
EXPLANATION = ("The tetrad and psi4 expressions are compared, for random ADM data, with the Weyl tensor built from the Gauss, Codazzi and vacuum Ricci equations by Taylor arithmetic at 50 digits; the harmonics with the rotation-matrix definition at 40 digits; "
               "the generated kernels and the mode decomposition are compiled and compared point by point with these contracts (bounded).")
PREIMPORT = ["nrpy.infrastructures.BHaH.general_relativity.psi4_C_codegen_library", "nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library", "nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics", "props.c20"]
ASSUMPTIONS = ["vacuum (the electric part of the Weyl tensor is taken from the spatial Ricci tensor)", "points off the z axis, where the tetrad is defined", "without use_metric_to_construct_unit_normal the unit normal is (1, 0, 0, 0), as documented",
               "grids centred on the origin (the generated psi4 stops otherwise)"]
BOUNDS = ["two random field configurations per coordinate system", "harmonics: l up to 8 (thorough 12), spin weights -2 to 2, 12 points each", "C kernels: one grid and field per coordinate system"]
TRUSTED = ["gcc and its sanitizers for the native comparisons"]
EQ = "nrpy.equations.general_relativity."
LIB = "nrpy.infrastructures.BHaH.general_relativity."


# ------------------------------------------------------------------ harmonics
def wigner(l, th):
    """exp(-i th J_y) in the basis m = -l..l"""
    n = 2 * l + 1
    A = mpmath.matrix(n, n)
    for a in range(n - 1):  # J_+ |m> = sqrt((l-m)(l+m+1)) |m+1>
        m = a - l
        c = mpmath.sqrt((l - m) * (l + m + 1))
        # -i J_y = -(J_+ - J_-)/2
        A[a + 1, a] += -c / 2
        A[a, a + 1] += c / 2
    return mpmath.expm(A * th, method="taylor")


def u_harm(ctx, l, s):
    from nrpy.equations.special_functions.spin_weighted_spherical_harmonics import Y
    ctx.under("nrpy.equations.special_functions.spin_weighted_spherical_harmonics.Y")
    th, ph = sp.symbols("th ph", real=True)
    rng = random.Random(l * 10 + s)
    with mpmath.workdps(40):
        pts = [(mpmath.mpf(rng.randint(50, 3090)) / 1000, mpmath.mpf(rng.randint(-3100, 3100)) / 1000) for _ in range(12 if l < 5 else 4)]
        ds = [wigner(l, p[0]) for p in pts]
        for m in range(-l, l + 1):
            e = sp.sympify(ctx.call("Y", Y, s, l, m, th, ph))
            e = e.xreplace({q: mpmath_pi for q in e.free_symbols if str(q) in ("M_PI", "PI")})
            f = sp.lambdify((th, ph), e, "mpmath")
            ok, bad = True, ""
            for (a, b), d in zip(pts, ds):
                got = mpmath.mpmathify(f(a, b)) if abs(s) <= l else mpmath.mpmathify(f(a, b))
                w = (-1) ** s * mpmath.sqrt((2 * l + 1) / (4 * mpmath.pi)) * d[m + l, -s + l] * mpmath.expj(m * b)
                if abs(got - w) > mpmath.mpf(10) ** -25:
                    ok, bad = False, f"theta={a} phi={b}: {mpmath.nstr(got, 12)}, definition {mpmath.nstr(w, 12)}"
            ctx.check(f"Y(s={s}, l={l}, m={m}) is the spin-weighted harmonic", ok, "rotation matrices, 40 digits", cex=bad, bounded=True)


mpmath_pi = sp.pi


# ------------------------------------------------------------------ tetrad and psi4
def u_psi4(ctx, name, cf, pre):
    from nrpy.equations.general_relativity.psi4 import Psi4
    from nrpy.equations.general_relativity.psi4_tetrads import Psi4Tetrads
    from props.c12 import pre_map
    ctx.under(EQ + "psi4.Psi4.__init__", EQ + "psi4_tetrads.Psi4Tetrads.__init__")
    setcf(cf)
    try:
        T = ctx.call("Psi4Tetrads", Psi4Tetrads, name, pre)
        TM = ctx.call("Psi4Tetrads", Psi4Tetrads, name, pre, use_metric_to_construct_unit_normal=True)
        P = ctx.call("Psi4", Psi4, name, pre)
        ctx.raises("unknown tetrads are rejected", lambda: Psi4Tetrads(name, pre, tetrad="none"), ValueError)
        pm = pre_map(name) if pre else None
        with mpmath.workdps(DPS):
            for t in range(4 if thorough() else 2):
                w = World(name, cf, 100 + t, matter=False)
                w.F0 = w.F
                import nrpy.reference_metric as refmetric
                rfm = refmetric.reference_metric[name]
                evs = w.evaluator(pre=pm)
                e1 = lambda e: evs(sp.sympify(e).xreplace({q: 1 / sp.sqrt(2) for q in sp.sympify(e).free_symbols if str(q) == "M_SQRT1_2"}))
                v = lambda a: a.c[0]
                g0 = [[v(w.gam[i][j]) for j in R3] for i in R3]
                a0, b0 = v(w.al), [v(q) for q in w.be]
                bl = [sum(g0[i][j] * b0[j] for j in R3) for i in R3]
                flat4 = [[mpmath.mpf(-1), 0, 0, 0]] + [[0] + g0[i] for i in R3]
                full4 = [[-a0 ** 2 + sum(bl[i] * b0[i] for i in R3)] + bl] + [[bl[i]] + g0[i] for i in R3]
                C = lambda nm, got, want: ctx.check(f"{nm}, fields {t}", bool(near(got, want)), "Taylor arithmetic", bounded=True, cex=f"{name} cf={cf}: {nm}: {st(got)}, contract {st(want)}")
                # Cartesian position and azimuthal vector in the coordinate basis
                ev0 = lambda e: evs(R(e))
                xc = [ev0(q) for q in rfm.xx_to_Cart]
                Jm = mpmath.matrix(3, 3)
                for a in R3:
                    for i in R3:
                        Jm[a, i] = ev0(sp.diff(R(rfm.xx_to_Cart[a]), X[i]))
                Ji = Jm ** -1
                up = lambda u: [sum(Ji[i, a] * u[a] for a in R3) for i in R3]
                vphi, vr = up([-xc[1], xc[0], 0]), up(xc)
                ip = lambda a, b: sum(g0[i][j] * a[i] * b[j] for i in R3 for j in R3)
                orient = mpmath.sign(mpmath.det(Jm))
                for nm, o, g4 in (("", T, flat4), ("with the metric's normal: ", TM, full4)):
                    l, n, mr, mi = ([e1(q) for q in q4] for q4 in (o.l4U, o.n4U, o.mre4U, o.mim4U))
                    dot = lambda a, b: sum(g4[i][j] * a[i] * b[j] for i in range(4) for j in range(4))
                    for q, a, b, want in (("l.l = 0", l, l, 0), ("n.n = 0", n, n, 0), ("l.n = -1", l, n, -1), ("Re m.Re m = 1/2", mr, mr, mpmath.mpf(1) / 2), ("Im m.Im m = 1/2", mi, mi, mpmath.mpf(1) / 2), ("Re m.Im m = 0", mr, mi, 0), ("l.Re m = 0", l, mr, 0), ("l.Im m = 0", l, mi, 0), ("n.Re m = 0", n, mr, 0), ("n.Im m = 0", n, mi, 0)):
                        C(nm + q, dot(a, b), mpmath.mpf(want))
                    s2 = mpmath.sqrt(2)
                    u = [(l[k] + n[k]) / s2 for k in range(4)]
                    r = [(l[k] - n[k]) / s2 for k in range(4)]
                    un = [1, 0, 0, 0] if g4 is flat4 else [1 / a0] + [-q / a0 for q in b0]
                    for k in range(4):
                        C(f"{nm}l + n along the unit normal [{k}]", u[k], mpmath.mpf(un[k]))
                    C(nm + "spatial legs have no time component", abs(r[0]) + abs(mr[0]) + abs(mi[0]), mpmath.mpf(0))
                    nphi = mpmath.sqrt(ip(vphi, vphi))
                    for i in R3:
                        C(f"{nm}Im m along the azimuthal direction [{i}]", mi[i + 1] * s2, vphi[i] / nphi)
                    # radial leg: position vector with its azimuthal part removed, pointing outwards
                    c = ip(vr, vphi) / nphi ** 2
                    q = [vr[i] - c * vphi[i] for i in R3]
                    nq = mpmath.sqrt(ip(q, q))
                    for i in R3:
                        C(f"{nm}l - n along the outward radial direction [{i}]", r[i + 1], q[i] / nq)
                    vol = sum(int(sp.LeviCivita(i, j, k)) * vphi[i] * vr[j] * mr[k + 1] for i in R3 for j in R3 for k in R3)
                    ctx.check(f"{nm}Re m completes (azimuthal, radial, polar) with the coordinate orientation, fields {t}", vol > 0, "Taylor arithmetic", bounded=True, cex=st(vol))
                # metric-derivative inputs of the kernel
                names = dict(zip(P.metric_derivs_varname_list, P.metric_derivs_expr_list))
                val = {}
                for i, j in itertools.combinations_with_replacement(R3, 2):
                    for k, l_ in itertools.combinations_with_replacement(R3, 2):
                        val[f"gammaDDdDD{i}{j}{k}{l_}"] = v(w.gam[i][j].d(k, l_))
                    for k in R3:
                        val[f"KDDdD{i}{j}{k}"] = v(w.K[i][j].d(k))
                        val[f"GammaUDD{k}{i}{j}"] = v(w.G[k][i][j])
                ctx.check(f"the kernel's inputs are the distinct derivatives, fields {t}", set(names) == set(val) and len(P.metric_derivs_varname_list) == len(val), "exact", bounded=True, cex=str(set(names) ^ set(val)))
                for q in sorted(set(val) & set(names)):
                    C(q, evs(names[q]), val[q])
                # psi4 for an arbitrary tetrad
                rng = random.Random(t)
                tet = {f"{q}4U{k}": mpmath.mpf(rng.randint(-1000, 1000)) / 1000 for q in ("n", "mre", "mim") for k in range(4)}
                K0 = [[v(q) for q in r_] for r_ in w.K]
                gi0 = [[v(q) for q in r_] for r_ in w.gi]
                G = w.G
                Ru = lambda i, j, k, l_: v(G[i][j][l_].d(k) - G[i][j][k].d(l_) + sum((G[i][k][m] * G[m][j][l_] - G[i][l_][m] * G[m][j][k] for m in R3), jets.J.const(0)))
                RU = {q: Ru(*q) for q in itertools.product(R3, repeat=4)}
                W = {}
                R3d = {}
                for i, j, k, l_ in itertools.product(R3, repeat=4):
                    R3d[i, j, k, l_] = sum(g0[i][m] * RU[m, j, k, l_] for m in R3) + K0[i][k] * K0[j][l_] - K0[i][l_] * K0[j][k]
                    W[i + 1, j + 1, k + 1, l_ + 1] = R3d[i, j, k, l_]
                DK = {(j, k, l_): v(w.K[j][k].d(l_)) - sum(v(G[p][l_][j]) * K0[p][k] + v(G[p][l_][k]) * K0[j][p] for p in R3) for j, k, l_ in itertools.product(R3, repeat=3)}  # D_l K_jk
                for j, k, l_ in itertools.product(R3, repeat=3):
                    c = DK[j, l_, k] - DK[j, k, l_]
                    W[0, j + 1, k + 1, l_ + 1], W[j + 1, 0, k + 1, l_ + 1] = c, -c
                    W[k + 1, l_ + 1, 0, j + 1], W[k + 1, l_ + 1, j + 1, 0] = c, -c
                for j, l_ in itertools.product(R3, repeat=2):
                    E = sum(gi0[i][k] * R3d[i, j, k, l_] for i in R3 for k in R3)
                    W[0, j + 1, 0, l_ + 1] = W[j + 1, 0, l_ + 1, 0] = E
                    W[0, j + 1, l_ + 1, 0] = W[j + 1, 0, 0, l_ + 1] = -E
                n = [tet[f"n4U{k}"] for k in range(4)]
                mb = [mpmath.mpc(tet[f"mre4U{k}"], -tet[f"mim4U{k}"]) for k in range(4)]
                want = sum(x * n[a] * mb[b] * n[c] * mb[d] for (a, b, c, d), x in W.items())
                allv = {**val, **tet}
                sub = lambda e: w_eval(w, e, allv, pm)
                C("Re psi4 = Re C(n, mbar, n, mbar)", sub(P.psi4_re), want.real)
                C("Im psi4 = Im C(n, mbar, n, mbar)", sub(P.psi4_im), want.imag)
        # storage of the kernel's inputs: any layout, as long as distinct inputs have distinct slots inside the arrays
        seen, room = {}, {"gammaDDdDD": 81, "GammaUDD": 27, "KDDdD": 27}
        for nm, arr in zip(P.metric_derivs_varname_list, P.metric_derivs_varname_arr_list):
            base = nm.rstrip("0123456789")
            m = re.fullmatch(r"\s*(\w+)\s*\[\s*(\d+)\s*\]\s*", arr)
            ok = bool(m) and m.group(1) == "arr_" + base and int(m.group(2)) < room.get(base, 0) and m.groups() not in seen
            ctx.check(f"array slot of {nm} is its own and inside the array", ok, "exact", bounded=True, cex=f"{arr} {seen.get(m.groups()) if m else ''}")
            if m:
                seen[m.groups()] = nm
    finally:
        setcf("W")


def w_eval(w, e, allv, pm):
    from vf import algnf
    ev = w.evaluator(pre=pm)

    class N(algnf.DagEval):
        def ev(self, x):
            if x.is_Symbol:
                return allv[x.name] if x.name in allv else ev(x)
            return super().ev(x)
    return N(None)(sp.sympify(e))


# ------------------------------------------------------------------ kernels
def u_kernel(ctx, name, cf, fd, N, metricnormal=False):
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.general_relativity.psi4_C_codegen_library as pl
    for f in ("psi4", "psi4_metric_deriv_quantities", "psi4_tetrad"):
        ctx.under(LIB + "psi4_C_codegen_library.register_CFunction_" + f)
    setcf(cf)
    st_ = {}

    def gen():
        pl.register_CFunction_psi4_tetrad(name)
        pl.register_CFunction_psi4_metric_deriv_quantities(name, enable_fd_functions=fd != 2)
        pl.register_CFunction_psi4(name, OMP_collapse=1)
    body = index_lines(EVOL + ["psi4_re", "psi4_im"]) + "REAL *dg = malloc(sizeof(REAL) * np * NUM_AUX_GFS);\n"
    body += fill(wavefill(EVOL, name + "p", "y", "")) + NANFILL % ("dg", "NUM_AUX_GFS") + DUMP % ("y", "NUM_EVOL_GFS")
    body += "psi4(&commondata, params, griddata[0].xx, y, dg);\n" + DUMP % ("dg", "NUM_AUX_GFS") + DUMP % ("y", "NUM_EVOL_GFS")
    p = Prog(ctx, name, gen, False, False, True, fd, N, body=body, size=3.0)
    try:
        if not p.ok:
            return
        nE, _, nD = (int(q) for q in p.lines["NUMS"][1:])
        Y, D, Y2 = p.gf(nE), p.gf(nD), p.gf(nE)
        F = named(p, Y, EVOL)
        G = Grid(p, fd, F)
        from nrpy.equations.general_relativity.psi4 import Psi4
        from nrpy.equations.general_relativity.psi4_tetrads import Psi4Tetrads
        P, T = Psi4(name, False), Psi4Tetrads(name, False)
        pv = {str(k): v for k, v in p.pv.items()}
        pv["M_SQRT1_2"] = float(np.sqrt(0.5))
        memo = {}
        base = lambda n: p.xx[int(n[2])][p.inner] if n in ("xx0", "xx1", "xx2") else pv[n] if n in pv else G.sym(n)
        tet = {f"{q}4U{k}": nev(R(e), base, memo) for q, o in (("n", T.n4U), ("mre", T.mre4U), ("mim", T.mim4U)) for k, e in enumerate(o)}
        md = {n: nev(R(e), base, memo) for n, e in zip(P.metric_derivs_varname_list, P.metric_derivs_expr_list)}
        val = lambda n: tet[n] if n in tet else md[n] if n in md else base(n)
        memo2 = {}
        O = named(p, D, ["psi4_re", "psi4_im"])
        wr, wi = nev(R(P.psi4_re), val, memo2) + 0 * p.xx[0][p.inner], nev(R(P.psi4_im), val, memo2) + 0 * p.xx[0][p.inner]
        sc = np.sqrt(wr ** 2 + wi ** 2)
        agree(ctx, "psi4_re kernel", O["psi4_re"][p.inner], wr, 1e-7, scale=sc + sc.max() * 1e-2)
        agree(ctx, "psi4_im kernel", O["psi4_im"][p.inner], wi, 1e-7, scale=sc + sc.max() * 1e-2)
        fr = np.ones(p.xx[0].shape, bool)
        fr[p.inner] = False
        ctx.check("psi4 writes interior points only", bool(np.isnan(D[:, fr]).all()), "native-frame", bounded=True)
        ctx.check("psi4 leaves the evolved fields unchanged", np.array_equal(Y, Y2), "native-frame", bounded=True)
    finally:
        p.close()
        setcf("W")


def u_modes(ctx, name, N, lmax, fd):
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.general_relativity.BSSN_C_codegen_library as lib
    import nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics as sw
    import nrpy.params as par
    ctx.under(LIB + "BSSN_C_codegen_library.register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids", "nrpy.infrastructures.BHaH.special_functions.spin_weight_minus2_spherical_harmonics.register_CFunction_spin_weight_minus2_sph_harmonics")

    def gen():
        gri.register_gridfunctions(["psi4_re", "psi4_im"], group="AUX")
        gri.register_gridfunctions(["uu"], group="EVOL")
        par.set_parval_from_str("swm2sh_maximum_l_mode_generated", lmax)
        par.adjust_CodeParam_default("swm2sh_maximum_l_mode_to_compute", lmax)
        sw.register_CFunction_spin_weight_minus2_sph_harmonics()
        lib.register_CFunction_psi4_spinweightm2_decomposition_on_sphlike_grids()
    body = index_lines(["psi4_re", "psi4_im"]) + "REAL *dg = malloc(sizeof(REAL) * np * NUM_AUX_GFS);\n" + NANFILL % ("dg", "NUM_AUX_GFS")
    body += fill("if (i0 < NGHOSTS || i1 < NGHOSTS || i2 < NGHOSTS || i0 >= N0 - NGHOSTS || i1 >= N1 - NGHOSTS || i2 >= N2 - NGHOSTS) continue;\n" + wavefill(["psi4_re", "psi4_im"], name + "m", "dg", "")) + DUMP % ("dg", "NUM_AUX_GFS")
    # radii: between interior points everywhere, including next to the boundaries, and outside the grid
    body += """REAL rl[5]; { REAL xc[3]; int k[4] = {NGHOSTS, NGHOSTS + 3, N0 / 2, N0 - NGHOSTS - 2};
 for (int w = 0; w < 4; w++) { REAL a, b; xx_to_Cart(&commondata, params, griddata[0].xx, k[w], NGHOSTS, NGHOSTS, xc); a = sqrt(xc[0]*xc[0] + xc[1]*xc[1] + xc[2]*xc[2]);
  xx_to_Cart(&commondata, params, griddata[0].xx, k[w] + 1, NGHOSTS, NGHOSTS, xc); b = sqrt(xc[0]*xc[0] + xc[1]*xc[1] + xc[2]*xc[2]); rl[w] = floor(10 * (a + 0.31 * (b - a)) + 0.5) / 10; }
 rl[4] = 1000.0; }
for (int w = 0; w < 5; w++) printf("R%d %.17g\\n", w, rl[w]);
"""
    body += f"for (int q = 0; q < 3; q++) {{ commondata.time = 0.75 * q; psi4_spinweightm2_decomposition_on_sphlike_grids(&commondata, params, dg, rl, 5, {lmax}, griddata[0].xx); }}\n" + DUMP % ("dg", "NUM_AUX_GFS")
    body += "for (int l = 0; l <= %d; l++) for (int m = -l; m <= l; m++) for (int k = 0; k < 6; k++) { REAL a, b; spin_weight_minus2_sph_harmonics(l, m, 0.2 + 0.5 * k, -2.9 + k, &a, &b); printf(\"Y%%d,%%d,%%d %%.17g %%.17g\\n\", l, m, k, a, b); }\n" % lmax
    p = Prog(ctx, name, gen, False, False, True, fd, N, body=body, size=60.0, maps=True)
    try:
        if not p.ok:
            return
        _, _, nD = (int(q) for q in p.lines["NUMS"][1:])
        D, D2 = p.gf(nD), p.gf(nD)
        ctx.check("the decomposition leaves psi4 unchanged", np.array_equal(D, D2, equal_nan=True), "native-frame", bounded=True)
        with mpmath.workdps(20):
            def swsh(l, m, th, ph):
                if l < 2:
                    return 0j
                return complex(mpmath.sqrt((2 * l + 1) / (4 * mpmath.pi)) * WIG(l, th)[m + l, 2 + l] * mpmath.expj(m * ph))
            wc = {}

            def WIG(l, th):
                k = (l, float(th))
                if k not in wc:
                    wc[k] = wigner(l, mpmath.mpf(float(th)))
                return wc[k]
            bad = ""
            for l in range(lmax + 1):
                for m in range(-l, l + 1):
                    for k in range(6):
                        g = p.lines[f"Y{l},{m},{k}"]
                        w = swsh(l, m, 0.2 + 0.5 * k, -2.9 + k)
                        if not abs(complex(float(g[1]), float(g[2])) - w) < 1e-11:
                            bad = f"l={l} m={m} k={k}: got {g[1:]}, definition {w}"
            ctx.check("generated harmonics are the spin-weight -2 harmonics for every l, m", not bad, "native-vs-contract", cex=bad, bounded=True)
            F = named(p, D, ["psi4_re", "psi4_im"])
            A = F["psi4_re"] + 1j * F["psi4_im"]
            A = A[p.inner]
            x0, th, ph = (q[p.ng:-p.ng] for q in p.xx1)
            import nrpy.reference_metric as refmetric
            inv = R(refmetric.reference_metric[name].Cart_to_xx[0]).xreplace({k: sp.Float(v, 20) for k, v in p.pv.items()})
            cx = [sp.Symbol(q, real=True) for q in ("Cartx", "Carty", "Cartz")]
            half = min(2, p.ng - 1)
            for w in range(5):
                Re = float(p.lines[f"R{w}"][1])
                fn = [os.path.join(p.d, f"Rpsi4_l{l}-r{Re:06.1f}.txt") for l in range(2, lmax + 1)]
                if w == 4:
                    ctx.check("no output for radii outside the grid", not any(os.path.exists(f) for f in fn), "native-vs-contract", bounded=True)
                    continue
                x = float(inv.xreplace({cx[0]: sp.Float(Re, 20), cx[1]: 0, cx[2]: 0}))
                k = int(np.argmin(np.abs(x0 - x)))
                lo = min(max(k - half, 0), len(x0) - 1 - 2 * half)
                nodes = x0[lo:lo + 2 * half + 1]
                co = [np.prod([(x - nodes[b]) / (nodes[a] - nodes[b]) for b in range(len(nodes)) if b != a]) for a in range(len(nodes))]
                S = sum(co[a] * A[:, :, lo + a] for a in range(len(nodes)))  # [phi, theta]
                for l, f in zip(range(2, lmax + 1), fn):
                    rows = [q for q in open(f).read().split("\n") if q and q[0] != "#"] if os.path.exists(f) else []
                    head = [q for q in open(f).read().split("\n") if q.startswith("#")] if os.path.exists(f) else []
                    wm = []
                    for m in range(-l, l + 1):
                        Yc = np.array([[np.conj(swsh(l, m, b, a)) for b in th] for a in ph]) if m == -l else None
                        if Yc is None:
                            Yc = np.array([np.conj(complex(mpmath.sqrt((2 * l + 1) / (4 * mpmath.pi)) * WIG(l, b)[m + l, 2 + l])) for b in th])[None, :] * np.exp(-1j * m * ph)[:, None]
                        wm.append(Re * (S * Yc * np.sin(th)[None, :]).sum() * p.dx[1] * p.dx[2])
                    ok = len(rows) == 3
                    msg = f"{len(rows)} rows"
                    for q, row in enumerate(rows):
                        c = [float(z) for z in row.split()]
                        want = [0.75 * q - Re] + [z for m in wm for z in (m.real, m.imag)]
                        if len(c) != len(want) or abs(c[0] - want[0]) > 1e-4 * (1 + abs(want[0])) or not np.allclose(c[1:], want[1:], rtol=1e-9, atol=1e-9 * max(abs(np.array(want[1:])))):
                            ok, msg = False, f"row {q}: got {c[:5]}, contract {want[:5]}"
                    ctx.check(f"radius {w} l={l}: one row per output: retarded time, then R_ext times each mode's real and imaginary part", ok, "native-vs-contract", cex=msg, bounded=True)
                    hw = ["1: t-R_ext"] + [f"{2 + 2 * i + j}: {('Re', 'Im')[j]}(psi4_{{l={l},m={m}}})" for i, m in enumerate(range(-l, l + 1)) for j in (0, 1)]
                    ctx.check(f"radius {w} l={l}: the header names the columns, once", len(head) == len(hw) and all(b in a for a, b in zip(head, hw)), "native-vs-contract", cex=str(head[:4]), bounded=True)
    finally:
        p.close()


def units():
    u = [Unit(f"harmonics l={l} s={s}", u_harm, (l, s), weight=3) for l in range(0, 13 if thorough() else 9) for s in ((-2, -1, 0, 1, 2) if l < 4 else (-2,)) if l >= abs(s)]
    for n, cf, pre in [("Spherical", "W", False), ("Cartesian", "chi", False), ("Cylindrical", "phi", False), ("SinhSpherical", "W", True)] + ([("SymTP", "chi", False), ("SinhSpherical", "phi", False)] if thorough() else []):
        u.append(Unit(f"psi4 {n} cf={cf} precompute={pre}", u_psi4, (n, cf, pre), weight=20, timeout=600))
    for n, cf, fd, N in [("Spherical", "W", 4, [6, 4, 6]), ("Cartesian", "phi", 2, [6, 4, 6]), ("SinhSpherical", "chi", 2, [6, 4, 6])]:
        u.append(Unit(f"psi4 kernel {n} cf={cf}", u_kernel, (n, cf, fd, N), weight=25, timeout=600))
    u += [Unit("modes Spherical", u_modes, ("Spherical", [14, 6, 8], 3, 4), weight=8), Unit("modes SinhSpherical", u_modes, ("SinhSpherical", [16, 5, 6], 4, 2), weight=8)]
    return u
