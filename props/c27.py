"""C27: the generated initial-data solvers (two punctures, neutron star, quasicircular momenta) return solutions of their equations."""
import contextlib
import io
import os
import re
import shutil
import tempfile

from vf import bhah
from vf.core import Unit, thorough

LEVEL = "other"
EXPLANATION = ("The contract of each solver is the equation it is named for. The pieces are proved for all inputs on the real C text: the Bowen-York tensor and its square, the nonlinear constraint and its linearisation, the three coordinate transformations of first and second derivatives (chain rule for the coordinates they return), the right-hand sides of the stellar structure equations and their starting values. The whole is checked by running it (bounded): the real generators write the solver's C code, which is compiled and run; its answers at many points are put into the equation: "
               "for two punctures the Hamiltonian constraint (Laplacian of the returned conformal factor by eighth-order differences), the Bowen-York extrinsic curvature of the requested momenta and spins at the requested positions in the rotated frame, regularity and the ADM masses at the punctures, total mass and angular momentum at infinity; "
               "for the star the Tolman-Oppenheimer-Volkoff equations as an independent integration solves them, the equation of state, isotropic coordinates, and Schwarzschild outside; for the momenta the post-Newtonian formulas with each hole's own mass and spin.")
BOUNDS = "4 binaries (equal and unequal masses, momenta and spins in all directions, bare or target masses), about 30 points each; 3 polytropes, points from the centre to far outside; 4 sets of masses and spins for the momenta; the table normalisation for 4 points; tolerances of the spectral resolution used"
ASSUMPTIONS = ["default options of the solver where the generated program offers no parameter (lapse psi^n, evaluation of the spectral series, no sources, no swap)", "GSL's integrator and linear algebra; the post-Newtonian expressions are nrpypn's"]
TRUSTED = ["gcc 13, GSL 2.7.1 and the C library", "scipy's DOP853 integrator as the independent solution"]
PREIMPORT = ["nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.TwoPunctures_lib", "nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve", "nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_interp", "nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.ID_persist_struct"]

ID = """typedef struct __initial_data_struct__ {
  REAL alpha, betaSphorCartU0, betaSphorCartU1, betaSphorCartU2, BSphorCartU0, BSphorCartU1, BSphorCartU2;
  REAL gammaSphorCartDD00, gammaSphorCartDD01, gammaSphorCartDD02, gammaSphorCartDD11, gammaSphorCartDD12, gammaSphorCartDD22;
  REAL KSphorCartDD00, KSphorCartDD01, KSphorCartDD02, KSphorCartDD11, KSphorCartDD12, KSphorCartDD22;
  REAL T4SphorCartUU00, T4SphorCartUU01, T4SphorCartUU02, T4SphorCartUU03, T4SphorCartUU11, T4SphorCartUU12, T4SphorCartUU13, T4SphorCartUU22, T4SphorCartUU23, T4SphorCartUU33;
} initial_data_struct;
typedef struct __ID_persist_struct__ {
%s
} ID_persist_struct;
"""
NV = 29  # fields of initial_data_struct
READ = """
  double x[3];
  while (scanf("%lf %lf %lf", &x[0], &x[1], &x[2]) == 3) {
    initial_data_struct id;
    for (int i = 0; i < (int)(sizeof(id) / sizeof(REAL)); i++) ((REAL *)&id)[i] = NAN;
    FUNC(&commondata, NULL, x, &par, &id);
    printf("VF");
    for (int i = 0; i < (int)(sizeof(id) / sizeof(REAL)); i++) printf(" %.17g", ((REAL *)&id)[i]);
    printf("\\n");
  }
"""


def setpar(names):
    s = ""
    for i, (n, t) in enumerate(names):
        s += f"  commondata.{n} = ({t})atof(argv[{i + 1}]);\n"
    return s


def project(d, which, san=True):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.ID_persist_struct as ts
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_interp as ti
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve as to
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.ID_persist_struct as ps
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.TwoPunctures_lib as tl
    from nrpy.helpers.generic import copy_files
    bhah.reset()
    import nrpy.infrastructures.BHaH.general_relativity.NRPyPN_quasicircular_momenta as pn
    kw = {}
    with contextlib.redirect_stdout(io.StringIO()):
        if which == "star":
            ti.register_CFunction_TOVola_interp()
            to.register_CFunction_TOVola_solve()
            bd.register_BHaH_defines(__name__, ID % ts.ID_persist_str())
            main = "  ID_persist_struct par;\n" + setpar(STAR) + "  TOVola_solve(&commondata, &par);\n  printf(\"N %d %.17g %.17g %.17g\\n\", par.numpoints_arr, par.M_arr[par.numpoints_arr - 1], par.r_Schw_arr[par.numpoints_arr - 1], par.r_iso_arr[par.numpoints_arr - 1]);\n" + READ.replace("FUNC", "TOVola_interp")
            main += "  free(par.r_Schw_arr); free(par.rho_baryon_arr); free(par.rho_energy_arr); free(par.P_arr); free(par.M_arr); free(par.expnu_arr); free(par.exp4phi_arr); free(par.r_iso_arr);\n"
        elif which == "punctures":
            tl.register_C_functions()
            cfc.register_CFunction(includes=["BHaH_defines.h"], desc="stand-in that records the call", cfunc_type="void", name="NRPyPN_quasicircular_momenta", params="commondata_struct *restrict commondata",
                                   body='printf("PNCALL\\n"); commondata->initial_p_t = 0.11; commondata->initial_p_r = 0.02;')
            bd.register_BHaH_defines(__name__, ID % ps.ID_persist_str())
            copy_files(package="nrpy.infrastructures.BHaH.general_relativity.TwoPunctures", filenames_list=["TwoPunctures.h", "TP_utilities.h"], project_dir=d, subdirectory="TwoPunctures")
            kw = dict(defines_kw=dict(additional_includes=[os.path.join("TwoPunctures", "TwoPunctures.h")]))
            main = "  ID_persist_struct par;\n" + setpar(PUNC) + """  initialize_ID_persist_struct(&commondata, &par);
  TP_solve(&par);
  printf("N %.17g %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d %d %d\\n", par.mp, par.mm, par.mp_adm, par.mm_adm, par.E, par.J1, par.J2, par.J3, par.npoints_A, par.npoints_B, par.npoints_phi);
""" + READ.replace("FUNC", "TP_Interp") + "  { extern void free_derivs(derivs *v, int n); const int n = par.npoints_A * par.npoints_B * par.npoints_phi; free_derivs(&par.v, n); free_derivs(&par.cf_v, n); }\n"
        else:
            pn.register_CFunction_NRPyPN_quasicircular_momenta()
            main = setpar(PNP) + "  NRPyPN_quasicircular_momenta(&commondata);\n  printf(\"N %.17g %.17g\\n\", commondata.initial_p_t, commondata.initial_p_r);\n"
        cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="driver", cfunc_type="int", name="main", params="int argc, const char *argv[]",
                               body="  commondata_struct commondata;\n  commondata_struct_set_to_default(&commondata);\n" + main + "  return 0;\n")
        bhah.write(d, **kw)
    return bhah.compile_(d, san={"momenta": False, "star": True, "punctures": ["-fsanitize=address"] if san else False}[which], opt="-O2" if which == "punctures" else "-O1", libs=("-lgsl", "-lgslcblas"))


STAR = [("initial_central_density", "REAL"), ("poly_eos_K", "REAL"), ("poly_eos_Gamma", "REAL"), ("max_step_size", "REAL"), ("ode_error_limit", "REAL"), ("interpolation_stencil_size", "int")]
PNP = [(n, "REAL") for n in ("initial_sep", "mass_ratio", "bbhxy_BH_M_chix", "bbhxy_BH_M_chiy", "bbhxy_BH_M_chiz", "bbhxy_BH_m_chix", "bbhxy_BH_m_chiy", "bbhxy_BH_m_chiz", "initial_p_t", "initial_p_r")]
PUNC = PNP + [("TP_bare_mass_M", "REAL"), ("TP_bare_mass_m", "REAL"), ("TP_npoints_A", "int"), ("TP_npoints_B", "int"), ("TP_npoints_phi", "int")]


def run(d, args, pts):
    import subprocess
    from vf.native import _lift
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="2")
    try:
        p = subprocess.run([os.path.join(d, "vfproj"), *map(repr, args)], input="".join("%.17g %.17g %.17g\n" % tuple(x) for x in pts), capture_output=True, text=True, errors="replace", timeout=400, cwd=d, preexec_fn=_lift, env=env)
    except subprocess.TimeoutExpired:
        return None, None, "no answer within 400 s"
    n = [x.split()[1:] for x in p.stdout.splitlines() if x.startswith("N ")]
    v = [[float(y) for y in x.split()[1:]] for x in p.stdout.splitlines() if x.startswith("VF ")]
    if p.returncode or len(n) != 1 or len(v) != len(pts):
        return None, None, f"exit status {p.returncode}: {p.stdout[-200:]} {p.stderr[-800:]}"
    return [float(x) for x in n[0]], v, p.stdout


class Case:
    """a unit's scratch directory with the compiled program"""
    def __init__(self, ctx, which, funcs, san=True):
        for f in funcs:
            ctx.under("nrpy.infrastructures.BHaH.general_relativity." + f)
        self.d = tempfile.mkdtemp(prefix="vf27.")
        self.err = project(self.d, which, san)
        ctx.check("the generated program compiles", not self.err, "gcc", bounded=True, cex=self.err[-1500:])

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def close(ctx, name, got, want, tol, where=""):
    import numpy as np
    got, want = np.asarray(got, float), np.asarray(want, float)
    d = np.abs(got - want)
    ok = bool(np.all(np.isfinite(got)) and d.size and d.max() <= tol)
    q = int(np.argmax(np.where(np.isfinite(d), d, np.inf))) if d.size else 0
    ctx.check(name, ok, "run of the generated program", bounded=True, cex="" if ok else f"{where} value {got.ravel()[q]!r}, the equation gives {want.ravel()[q]!r} (entry {q}, tolerance {tol})")


def u_momenta(ctx):
    from nrpypn.eval_p_t_and_p_r import eval__P_t__and__P_r as ev
    with Case(ctx, "momenta", ["NRPyPN_quasicircular_momenta.register_CFunction_NRPyPN_quasicircular_momenta"]) as c:
        if c.err:
            return
        for sep, q, M, m in [(10.8, 2.0, (-0.3535, 0.3535, 0.5), (0.1, 0.2, -0.3)), (12.0, 1.0, (0, 0, 0), (0, 0, 0)), (9.5, 4.0, (0.2, -0.1, 0.6), (0.0, 0.3, 0.1)), (11.0, 1.0, (0, 0, 0.5), (0, 0, -0.4))]:
            n, _, e = run(c.d, [sep, q, *M, *m, -1.0, -1.0], [])
            w = ev(q, sep, *m, *M)  # nrpypn: q = m2/m1 >= 1, object 2 is the heavier hole
            nm = f"q={q} separation {sep} chi_M={M} chi_m={m}: tangential and radial momentum belong to the masses and spins"
            if n is None:
                ctx.check(nm, False, "run of the generated program", bounded=True, cex=e)
            else:
                close(ctx, nm, n, w, 1e-11)
        n, _, e = run(c.d, [10.0, 1.0, *[0.0] * 6, 0.3, 0.0], [])
        ctx.check("momenta given by the user are kept", n == [0.3, 0.0], "run of the generated program", bounded=True, cex=f"{n} {e}")


def bowen_york(x, c, P, S):
    import numpy as np
    r = np.linalg.norm(x - c)
    n = (x - c) / r
    A = 3 / (2 * r ** 2) * (np.outer(P, n) + np.outer(n, P) - (np.eye(3) - np.outer(n, n)) * (n @ P))
    v = np.cross(S, n)
    return A + 3 / r ** 3 * (np.outer(v, n) + np.outer(n, v))


def rot(v):
    """the plane of the orbit is rotated from xy to zx: x -> z, y -> x, z -> y"""
    import numpy as np
    return np.array([v[1], v[2], v[0]], float)


C8 = [-1 / 560, 8 / 315, -1 / 5, 8 / 5, -205 / 72, 8 / 5, -1 / 5, 8 / 315, -1 / 560]


def u_punctures(ctx, tag, q, sep, M, m, pt, pr, bare, res, tol):
    import numpy as np
    funcs = ["TwoPunctures." + f for f in ("ID_persist_struct.register_CFunction_initialize_ID_persist_struct", "CoordTransf.register_CFunction_TP_CoordTransf", "Equations.register_CFunction_TP_Equations", "FuncAndJacobian.register_CFunction_TP_FuncAndJacobian",
                                           "Newton.register_CFunction_TP_Newton", "TP_interp.register_CFunction_TP_Interp", "TP_solve.register_CFunction_TP_solve", "TP_utilities.register_CFunction_TP_utilities", "TwoPunctures_lib.register_C_functions")]
    with Case(ctx, "punctures", funcs, san=max(res) < 16) as c:
        if c.err:
            return
        mM, mm = q / (1 + q), 1 / (1 + q)
        cM, cm = rot([sep * mm, 0, 0]), rot([-sep * mM, 0, 0])  # centre of mass at the origin
        ep, er = (0.11, 0.02) if -1.0 in (pt, pr) else (abs(pt), abs(pr))
        PM, Pm = rot([-er, ep, 0]), rot([er, -ep, 0])
        SM, Sm = rot(np.array(M) * mM ** 2), rot(np.array(m) * mm ** 2)
        rng = np.random.default_rng(27)
        pts = []
        for k in range(22 if not thorough() else 80):
            for _ in range(999):
                x = rng.normal(size=3) * sep * (0.3, 0.6, 1.5)[k % 3]
                if min(np.linalg.norm(x - cM), np.linalg.norm(x - cm)) > 0.22 * sep:
                    break
            pts.append(x)
        for cc in (cM, cm):  # nearer to the holes
            for _ in range(3):
                v = rng.normal(size=3)
                pts.append(cc + v / np.linalg.norm(v) * 0.12 * sep)
        pts += [np.array([0.0, 0.0, z * sep]) for z in (0.05, 1.4, -1.6)] + [np.array([0.4 * sep, 0, 0]), np.array([0, -0.3 * sep, 0.1 * sep])]
        allp, ex = [], []
        for x in pts:
            dist = min(np.linalg.norm(x - cM), np.linalg.norm(x - cm))
            h = 0.05 * dist
            allp.append(x)
            for i in range(3):
                for k in range(-4, 5):
                    if k:
                        y = np.array(x)
                        y[i] += k * h
                        allp.append(y)
            ex.append(h)
        # close to the punctures and far away
        near = [(cc + s * dd * sep * np.eye(3)[i]) for cc in (cM, cm) for i in range(3) for s in (-1, 1) for dd in (1e-3, 2e-3)]
        far = [200.0 * sep * v for v in (np.array([0.6, 0, 0.8]), np.array([0, 1.0, 0]), np.array([-0.48, 0.64, 0.6]), -np.array([0.6, 0, 0.8]), np.array([0, -1.0, 0]), -np.array([-0.48, 0.64, 0.6]))]
        n, v, out = run(c.d, [sep, q, *M, *m, pt, pr, *(bare or (-1.0, -1.0)), *res], allp + near + far)
        if n is None:
            ctx.check(f"{tag}: the solver returns data at every point", False, "run of the generated program", bounded=True, cex=out)
            return
        ctx.check(f"{tag}: momenta are computed exactly when not given", ("PNCALL" in out) == (-1.0 in (pt, pr)), "run of the generated program", bounded=True, cex=out[-200:])
        bp, bm = n[0], n[1]
        v = np.array(v)
        g = v[:, 7:13]
        base = np.array(allp + near + far)
        psi = g[:, 0] ** 0.25
        rM, rm = np.linalg.norm(base - cM, axis=1), np.linalg.norm(base - cm, axis=1)
        U = psi - 1 - bp / (2 * rM) - bm / (2 * rm)
        A = np.array([bowen_york(x, cM, PM, SM) + bowen_york(x, cm, Pm, Sm) for x in base])
        close(ctx, f"{tag}: the metric is psi^4 times the flat metric", np.stack([g[:, 3], g[:, 5], g[:, 1], g[:, 2], g[:, 4]]), np.stack([g[:, 0], g[:, 0], 0 * psi, 0 * psi, 0 * psi]), 1e-9)
        K = v[:, 13:19]
        want = np.stack([A[:, i, j] for i in range(3) for j in range(i, 3)], 1) / psi[:, None] ** 2
        sc = np.abs(want).max(axis=1, keepdims=True) + 1e-30
        far0 = len(allp) + len(near)
        sel = np.r_[0:len(allp), far0:len(base)]
        close(ctx, f"{tag}: extrinsic curvature is Bowen-York's for the momenta and spins of both holes at their positions", (K / sc)[sel], (want / sc)[sel], 1e-8)
        close(ctx, f"{tag}: lapse", v[sel, 0], (1 + bp / (2 * rM[sel]) + bm / (2 * rm[sel])) ** -2, 1e-9)
        close(ctx, f"{tag}: shift and its driver vanish", v[:, 1:7], 0 * v[:, 1:7], 0.0)
        lap, rhs = [], []
        for k, h in enumerate(ex):
            o = k * 25
            u = U[o:o + 25]
            s = 0.0
            for i in range(3):
                w = list(u[1 + 8 * i:5 + 8 * i]) + [u[0]] + list(u[5 + 8 * i:9 + 8 * i])
                s += sum(a * b for a, b in zip(C8, w)) / h ** 2
            lap.append(s)
            rhs.append(-0.125 * np.sum(A[o] ** 2) * psi[o] ** -7)
        scale = np.max(np.abs(rhs)) + 1e-12
        quiet = not np.any(A)
        close(ctx, f"{tag}: the Hamiltonian constraint holds", np.array(lap) / scale if not quiet else lap, np.array(rhs) / scale if not quiet else rhs, tol)
        # relative to the local source as well, so that a wrong answer far from the holes shows
        if not quiet:
            loc = np.abs(rhs) + 5e-3 * scale
            close(ctx, f"{tag}: the Hamiltonian constraint holds relative to the local source", np.array(lap) / loc, np.array(rhs) / loc, 40 * tol)
        u_p = np.mean(U[len(allp):len(allp) + 12].reshape(6, 2)[:, 0])
        u_m = np.mean(U[len(allp) + 12:far0].reshape(6, 2)[:, 0])
        spread = max(np.ptp(U[len(allp):len(allp) + 12]), np.ptp(U[len(allp) + 12:far0]))
        ctx.check(f"{tag}: the correction is regular at both punctures", spread < 0.02 and abs(u_p) < 1, "run of the generated program", bounded=True, cex=f"U near the holes varies by {spread}")
        adm = [(1 + u_p) * bp + bp * bm / (2 * sep), (1 + u_m) * bm + bp * bm / (2 * sep)]
        close(ctx, f"{tag}: stored puncture masses are those of the returned data", n[2:4], adm, 1e-4)
        if bare:
            close(ctx, f"{tag}: bare masses are the given ones", n[:2], bare, 0.0)
        else:
            close(ctx, f"{tag}: puncture masses are the requested ones", n[2:4], [mM, mm], 1e-8)
        # at infinity U = (E - sum of bare masses) / (2 r) + O(1/r^2), odd terms cancel between opposite points
        f = U[far0:] * 2 * 200 * sep
        close(ctx, f"{tag}: total mass is that of the data at infinity", [n[4]] * 3, bp + bm + (f[:3] + f[3:]) / 2, 2e-5)
        rM0, rm0 = np.array([sep * mm, 0, 0]), np.array([-sep * mM, 0, 0])
        J = np.cross(rM0, [-er, ep, 0]) + np.cross(rm0, [er, -ep, 0]) + np.array(M) * mM ** 2 + np.array(m) * mm ** 2
        close(ctx, f"{tag}: total angular momentum", n[5:8], J, 1e-10)
        r = list(res) if min(res) >= 0 else ([66, 66, 28] if q >= 2 else [48, 48, 20])
        ctx.check(f"{tag}: resolution", [int(z) for z in n[8:11]] == r, "run of the generated program", bounded=True, cex=str(n[8:11]))


def tov(rho_c, K, G):
    """independent solution in Schwarzschild radius: dense output of P, m, nu, log(r_iso) up to the surface"""
    import numpy as np
    from scipy.integrate import solve_ivp
    e_of_P = lambda P: (P / K) ** (1 / G) + P / (G - 1) if P > 0 else 0.0  # noqa: E731
    Pc = K * rho_c ** G
    ec = e_of_P(Pc)

    # pressure's logarithmic enthalpy h as independent variable: regular at the centre and the surface (Lindblom 1992)
    def eP(h):
        w = np.expm1(h)  # enthalpy per rest mass minus one = G/(G-1) K rho^(G-1)
        rho = (max(w, 0.0) * (G - 1) / (G * K)) ** (1 / (G - 1))
        P = K * rho ** G
        return rho, P, rho + P / (G - 1)
    hc = np.log(1 + G / (G - 1) * K * rho_c ** (G - 1))

    def f(h, y):
        r, m, lq = y
        _, P, e = eP(h)
        drdh = -r * (r - 2 * m) / (m + 4 * np.pi * r ** 3 * P)
        return [drdh, 4 * np.pi * r ** 2 * e * drdh, ((1 - 2 * m / r) ** -0.5 - 1) / r * drdh]
    d = 1e-8 * hc
    r0 = np.sqrt(3 * d / (2 * np.pi * (ec + 3 * Pc)))
    y0 = [r0, 4 * np.pi / 3 * ec * r0 ** 3, 0.0]
    s = solve_ivp(f, [hc - d, 0.0], y0, method="DOP853", rtol=1e-12, atol=1e-14, dense_output=True)
    R, Mst, lq = s.y[:, -1]
    # log(r_iso) = log(r) + lq + const, matched to the exterior at the surface
    ri = 0.5 * (np.sqrt(R * (R - 2 * Mst)) + R - Mst)
    off = np.log(ri) - np.log(R) - lq
    nuS = np.log(1 - 2 * Mst / R)
    return s.sol, hc - d, R, Mst, ri, off, nuS, eP


def u_star(ctx, rho_c, K, G, stencil, step):
    import numpy as np
    from scipy.optimize import brentq
    with Case(ctx, "star", ["TOVola.TOVola_solve.register_CFunction_TOVola_solve", "TOVola.TOVola_interp.register_CFunction_TOVola_interp", "TOVola.ID_persist_struct.ID_persist_str"]) as c:
        if c.err:
            return
        sol, h0, R, Mst, ri, off, nuS, eP = tov(rho_c, K, G)
        rng = np.random.default_rng(3)
        n, _, _ = run(c.d, [rho_c, K, G, step, 1e-10, stencil], [])
        rs_ = n[3] if n else ri  # where the code's table ends: the last points of the table, and just outside it
        rad = [1e-3 * ri, 0.01 * ri, 0.1 * ri, 0.25 * ri, 0.4 * ri, 0.55 * ri, 0.7 * ri, 0.8 * ri, 0.9 * ri, 0.96 * ri, rs_ * (1 - 1e-4), rs_ * (1 - 5e-6), rs_ * (1 - 2e-6), rs_ * (1 - 7e-7), rs_ * (1 - 1e-9), rs_ * (1 + 1e-6), 1.02 * ri, 1.3 * ri, 3 * ri, 40 * ri]
        dirs = rng.normal(size=(len(rad), 3))
        dirs[3] = (0.3, 0.4, -0.8)
        dirs /= np.linalg.norm(dirs, axis=1)[:, None]
        pts = dirs * np.array(rad)[:, None]
        n, v, out = run(c.d, [rho_c, K, G, step, 1e-10, stencil], pts)
        tag = f"polytrope K={K} Gamma={G} central density {rho_c}"
        if n is None:
            ctx.check(f"{tag}: the solver returns data at every point", False, "run of the generated program", bounded=True, cex=out)
            return
        close(ctx, f"{tag}: mass, radius and isotropic radius of the star", [n[1] / Mst, n[2] / R, n[3] / ri], [1, 1, 1], 1e-5)
        g, s = [], []
        for x, r, y in zip(pts, rad, v):
            th = np.arccos(x[2] / r)
            if r < ri:
                h = brentq(lambda h: np.log(sol(h)[0]) + sol(h)[2] + off - np.log(r), 0.0, h0) if r > np.exp(np.log(sol(h0)[0]) + sol(h0)[2] + off) else h0
                rs, m, _ = sol(h)
                _, P, e = eP(h)
                nu = nuS - 2 * h
            else:
                rs = r * (1 + Mst / (2 * r)) ** 2
                P = e = 0.0
                nu = np.log(1 - 2 * Mst / rs)
            e4 = (rs / r) ** 2
            st = np.sin(th)
            w = [np.exp(nu / 2)] + [0.0] * 6 + [e4, 0, 0, e4 * r * r, 0, e4 * r * r * st * st] + [0.0] * 6 + [e * np.exp(-nu), 0, 0, 0, P / e4, 0, 0, P / (e4 * r * r), 0, P / (e4 * r * r * st * st)]
            S = [1.0] * 7 + [e4, e4 * r, e4 * r, e4 * r * r, e4 * r * r, e4 * r * r * st * st] + [1.0] * 6 + [rho_c, rho_c, rho_c, rho_c] + [K * rho_c ** G / e4 * z for z in (1, 1, 1, 1 / (r * r), 1, 1 / (r * st) ** 2)]
            g.append([a / b for a, b in zip(y, S)])
            s.append([a / b for a, b in zip(w, S)])
        g, s = np.array(g), np.array(s)
        ins = np.array(rad) < ri
        # density and pressure have fractional powers at the surface, which a polynomial does not reproduce: the last points of the table with a wider tolerance
        edge = np.abs(np.array(rad) / rs_ - 1) < 2e-4
        for nm, cols in (("lapse and shift", range(0, 7)), ("metric", range(7, 13)), ("extrinsic curvature", range(13, 19)), ("stress-energy tensor", range(19, 29))):
            close(ctx, f"{tag}: {nm} inside the star", g[ins & ~edge][:, cols], s[ins & ~edge][:, cols], 1e-5)
            close(ctx, f"{tag}: {nm} outside the star", g[~ins & ~edge][:, cols], s[~ins & ~edge][:, cols], 1e-5)
            close(ctx, f"{tag}: {nm} at the surface", g[edge][:, cols], s[edge][:, cols], 1e-3 if "stress" in nm else 1e-5)


# ---------------------------------------------------------------- the solvers' pieces under contract, for all inputs

DER = ("d0", "d1", "d2", "d3", "d11", "d12", "d13", "d22", "d23", "d33")


def mkexec(text, header=""):
    """symbolic execution of hand-written C: numeric macros of the text, addresses of locals, GSL's complex numbers as pairs"""
    import sympy as sp
    from pycparser import c_ast
    from vf import cexec
    macros = {}
    for ln in (header + "\n" + text).splitlines():
        m = re.match(r"\s*#define\s+(\w+)\s+([-+\w.]+)", ln)
        if m:
            try:
                macros[m.group(1)] = int(m.group(2))
            except ValueError:
                try:
                    v = float(m.group(2))
                except ValueError:
                    continue
                q = sp.nsimplify(v / 3.141592653589793, rational=True)
                macros[m.group(1)] = q * sp.pi if q.q <= 8 and q else sp.Rational(repr(v))
    text = re.sub(r"typedef struct \{.*?\}\s*\w+\s*;", "", text, flags=re.S)
    funcs = cexec.functions_of(text, extra_typedefs=("gsl_complex", "derivs", "ID_persist_struct", "TOVola_data_struct", "commondata_struct", "gsl_odeiv2_system", "gsl_odeiv2_driver"))

    class LRef:
        def __init__(self, scope, name):
            self.scope, self.name = scope, name

    class X(cexec.Exec):
        def ev_UnaryOp(self, n):
            if n.op == "&" and isinstance(n.expr, c_ast.ID):
                for sc in reversed(self.scopes):
                    if n.expr.name in sc and not isinstance(sc[n.expr.name], cexec.Ref):
                        return LRef(sc, n.expr.name)
            if n.op == "*":
                v = self.ev(n.expr)
                if isinstance(v, LRef):
                    return v.scope[v.name]
            return super().ev_UnaryOp(n)

        def store(self, lv, v):
            if isinstance(lv, c_ast.UnaryOp) and lv.op == "*":
                r = self.ev(lv.expr)
                if isinstance(r, LRef):
                    r.scope[r.name] = v
                    return
            super().store(lv, v)

    def cm(a, b):
        return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]
    G = {"rect": lambda a, b: (a, b), "mul": cm, "add": lambda a, b: (a[0] + b[0], a[1] + b[1]), "sub": lambda a, b: (a[0] - b[0], a[1] - b[1]), "mul_real": lambda a, b: (a[0] * b, a[1] * b), "add_real": lambda a, b: (a[0] + b, a[1]),
         "negative": lambda a: (-a[0], -a[1]), "conjugate": lambda a: (a[0], -a[1]), "inverse": lambda a: (a[0] / (a[0] ** 2 + a[1] ** 2), -a[1] / (a[0] ** 2 + a[1] ** 2)), "abs2": lambda a: a[0] ** 2 + a[1] ** 2,
         "div": lambda a, b: cm(a, (b[0] / (b[0] ** 2 + b[1] ** 2), -b[1] / (b[0] ** 2 + b[1] ** 2))),
         "cosh": lambda a: (sp.cosh(a[0]) * sp.cos(a[1]), sp.sinh(a[0]) * sp.sin(a[1])), "sinh": lambda a: (sp.sinh(a[0]) * sp.cos(a[1]), sp.cosh(a[0]) * sp.sin(a[1]))}

    def on_call(ex, name, argn):
        if name.startswith("gsl_complex_") and name[12:] in G:
            return G[name[12:]](*[cexec.real(ex.ev(a)) for a in argn])
        if name in ("GSL_REAL", "GSL_IMAG"):
            return ex.ev(argn[0])[name == "GSL_IMAG"]
        if name == "isnan":
            return 0
        return None

    def run_(fn, args, mem, stub=None):
        """stub: {name: value} calls answered by their contract; the names called are in ex.stubbed"""
        def res(k):
            return mem.get(k, macros.get(k, 0 if k == "GSL_SUCCESS" else None))
        out = []
        for cond, ex in cexec.explore(lambda p: call(fn, args, res, p, stub or {})):
            out.append((cond, ex))
        return out

    def call(fn, args, res, p, stub):
        def hook(ex, name, argn):
            if name in stub:
                ex.stubbed.append((name, [ex.ev(a) for a in argn]))
                return stub[name]
            return on_call(ex, name, argn)
        ex = X(functions=funcs, resolver=res, path=p, on_call=hook)
        ex.stubbed = []
        ex.ret = ex.call(funcs[fn], list(args))
        return ex
    return run_, cexec


def under_contract(ctx, what, f):
    """a function outside the reach of the executor is left to the bounded units, never reported"""
    from vf import cexec
    try:
        f()
    except (cexec.CUnsupported, cexec.CParseError, KeyError, cexec.CUndeclared) as e:
        ctx.assume(f"{what}: not proved, outside the executor's reach ({type(e).__name__}: {str(e)[:80]}); judged by the runs of the compiled solver alone")


def text_of(reg):
    import nrpy.c_function as cfc
    bhah.reset()
    with contextlib.redirect_stdout(io.StringIO()):
        reg()
    return "\n".join(c.prefunc for c in cfc.CFunction_dict.values())


def u_equations(ctx):
    import sympy as sp
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.Equations as eq
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures as tp
    from vf.cexec import Ref
    ctx.under("nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.Equations.register_CFunction_TP_Equations")
    head = open(os.path.join(os.path.dirname(eq.__file__), "TP_utilities.h"), encoding="utf-8").read()
    x, y, z = sp.symbols("x y z", real=True)
    b, mp, mm = sp.symbols("b m_p m_m", positive=True)
    P = {k: sp.symbols(f"P{k}0:3", real=True) for k in "pm"}
    S = {k: sp.symbols(f"S{k}0:3", real=True) for k in "pm"}
    mem = {"par.par_b": b, "par.par_m_plus": mp, "par.par_m_minus": mm, "par.TP_epsilon": sp.S.Zero, "par.TP_Tiny": sp.S.Zero}
    for k, nm in (("p", "plus"), ("m", "minus")):
        for i in range(3):
            mem[f"par.par_P_{nm}[{i}]"], mem[f"par.par_S_{nm}[{i}]"] = P[k][i], S[k][i]
    Rp, Rm = sp.symbols("R_p R_m", positive=True)
    X = {"p": (x - b, y, z), "m": (x + b, y, z)}
    R = {"p": sp.sqrt((x - b) ** 2 + y ** 2 + z ** 2), "m": sp.sqrt((x + b) ** 2 + y ** 2 + z ** 2)}
    A = sp.zeros(3)
    for k in "pm":
        n = [c / R[k] for c in X[k]]
        nP = sum(n[i] * P[k][i] for i in range(3))
        v = sp.Matrix(S[k]).cross(sp.Matrix(n))
        for i in range(3):
            for j in range(3):
                A[i, j] += sp.Rational(3, 2) / R[k] ** 2 * (P[k][i] * n[j] + P[k][j] * n[i] - (int(i == j) - n[i] * n[j]) * nP) + 3 / R[k] ** 3 * (v[i] * n[j] + v[j] * n[i])
    KK = sum(A[i, j] ** 2 for i in range(3) for j in range(3))
    import random
    run_, ce = mkexec(text_of(eq.register_CFunction_TP_Equations), head)

    def equal(name, got, want):
        """with the two distances as variables where that is enough (both sides then are rational functions), else as they stand"""
        sb = {(x - b) ** 2 + y ** 2 + z ** 2: Rp ** 2, (b - x) ** 2 + y ** 2 + z ** 2: Rp ** 2, (x + b) ** 2 + y ** 2 + z ** 2: Rm ** 2}
        g, w = sp.sympify(got).subs(sb), want.subs(sb)
        rg = random.Random(5)
        for _ in range(2):
            pt = {v: sp.Rational(rg.randint(1, 99), rg.randint(1, 99)) for v in sorted((g - w).free_symbols, key=str)}
            if g.subs(pt) - w.subs(pt) != 0:
                return ctx.eq(name, got, want)
        return ctx.eq(name, g, w)
    par, U, dU = Ref("par"), Ref("U"), Ref("dU")

    def aij():
        (_, ex), = run_("BY_Aijofxyz", [par, x, y, z, Ref("A")], mem)
        for i in range(3):
            for j in range(3):
                equal(f"BY_Aijofxyz: component {i}{j} is Bowen and York's", ex.mem[f"A[{i}][{j}]"], A[i, j])
    under_contract(ctx, "BY_Aijofxyz", aij)

    def kk():
        (_, ex), = run_("BY_KKofxyz", [par, x, y, z], mem)
        equal("BY_KKofxyz: the square of Bowen and York's tensor", ex.ret, KK)
    under_contract(ctx, "BY_KKofxyz", kk)
    u, du, rho = sp.symbols("u du rho", positive=True)
    l1, l2 = sp.symbols("l1:4", real=True), sp.symbols("dl1:4", real=True)
    m2 = dict(mem, **{"U.d0[0]": u, "dU.d0[0]": du})
    for i, k in enumerate(("d11", "d22", "d33")):
        m2[f"U.{k}[0]"], m2[f"dU.{k}[0]"] = l1[i], l2[i]
    dummy = sp.symbols("cA cB cX cR", real=True)
    r, ph = sp.symbols("r_ phi_", real=True)
    psi = 1 + mp / (2 * R["p"]) + mm / (2 * R["m"]) + u

    Ks = sp.Symbol("KK", positive=True)

    def square(ex):
        """the square by its contract where the function asks for it at this point, else written out"""
        if not ex.stubbed:
            return KK
        for _, a in ex.stubbed:
            if getattr(a[0], "key", None) != "par" or list(a[1:]) != [x, y, z]:
                return None
        return Ks

    def whole(fn, args, want):
        (_, ex), = run_(fn, args, m2, {"BY_KKofxyz": Ks})
        k = square(ex)
        if k is None:
            (_, ex), = run_(fn, args, m2)
            k = KK
        return ex.mem["val[0]"], want(k)

    def nonlin():
        equal("NonLinEquations: the Hamiltonian constraint", *whole("NonLinEquations", [par, rho, *dummy, x, r, ph, y, z, U, Ref("val")], lambda k: sum(l1) + k / 8 * psi ** -7 + 2 * sp.pi * rho * psi ** -3))
    under_contract(ctx, "NonLinEquations", nonlin)

    def lin():
        equal("LinEquations: derivative of the vacuum constraint in the direction dU", *whole("LinEquations", [par, *dummy, x, r, ph, y, z, dU, U, Ref("val")], lambda k: sum(l2) - sp.Rational(7, 8) * k * psi ** -8 * du))
    under_contract(ctx, "LinEquations", lin)


def u_transf(ctx):
    """Each transformation receives the derivatives of one function in the old coordinates and must return those in the new: with an arbitrary jet in the new
    coordinates, the chain rule (derivatives of the very coordinates the code returns) gives the input, and the output must be the jet."""
    import sympy as sp
    import nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.CoordTransf as ct
    from vf.cexec import Ref
    ctx.under("nrpy.infrastructures.BHaH.general_relativity.TwoPunctures.CoordTransf.register_CFunction_TP_CoordTransf")
    head = open(os.path.join(os.path.dirname(ct.__file__), "TP_utilities.h"), encoding="utf-8").read()
    run_, ce = mkexec(text_of(ct.register_CFunction_TP_CoordTransf), head)
    jet = {k: sp.Symbol("J" + k, real=True) for k in DER}
    idx = {(0, 0): "d11", (0, 1): "d12", (0, 2): "d13", (1, 1): "d22", (1, 2): "d23", (2, 2): "d33"}

    def pulled(new, old):
        """derivatives with respect to old of the function with the jet in new(old)"""
        J = [[sp.diff(f, o) for o in old] for f in new]
        H = [[[sp.diff(f, o, p) for p in old] for o in old] for f in new]
        g = [jet["d1"], jet["d2"], jet["d3"]]
        h = [[jet[idx[min(a, b), max(a, b)]] for b in range(3)] for a in range(3)]
        m = {"d0": jet["d0"]}
        for i, k in enumerate(("d1", "d2", "d3")):
            m[k] = sum(g[a] * J[a][i] for a in range(3))
        for (i, j), k in idx.items():
            m[k] = sum(g[a] * H[a][i][j] for a in range(3)) + sum(h[a][c] * J[a][i] * J[c][j] for a in range(3) for c in range(3))
        return m

    def go(fn, args, coords, third, old):
        sym = {f"U.{k}[0]": sp.Symbol("I" + k, real=True) for k in DER}
        def f():
            (_, ex), = run_(fn, args, dict(sym, **{"par.par_b": sp.Symbol("b", positive=True)}))
            new = [c(ex) for c in coords]
            new = [n for n in new] if third is None else new + [third]
            inp = pulled(new, old)
            for k in DER:
                got = sp.sympify(ex.mem.get(f"U.{k}[0]", sym[f"U.{k}[0]"])).subs({sym[f"U.{q}[0]"]: v for q, v in inp.items()}, simultaneous=True)
                ctx.eq(f"{fn}: derivative {k} in the coordinates it returns", alg(got), jet[k])
        under_contract(ctx, fn, f)

    # hyperbolic and circular functions as rational functions of a half-angle parameter: identities in them become identities of rational functions
    def alg(e):
        t, w = sp.Symbol("t_", positive=True), sp.Symbol("w_", real=True)
        Xs, Rs, ps = sp.Symbol("X", real=True), sp.Symbol("R", real=True), sp.Symbol("ph", real=True)
        e = e.subs({sp.cosh(Xs): (t + 1 / t) / 2, sp.sinh(Xs): (t - 1 / t) / 2})
        for a in (Rs, ps):
            e = e.subs({sp.cos(a): (1 - w ** 2) / (1 + w ** 2), sp.sin(a): 2 * w / (1 + w ** 2)})
        return e
    Aa, Bb, ph, X, R, xx, rr = [sp.Symbol(n, real=True) for n in ("A", "B", "ph", "X", "R", "x", "r")]
    go("AB_To_XR", [1, Aa, Bb, Ref("X"), Ref("R"), Ref("U")], [lambda e: e.mem["X[0]"], lambda e: e.mem["R[0]"]], ph, [Aa, Bb, ph])
    go("C_To_c", [Ref("par"), 1, X, R, Ref("x"), Ref("r"), Ref("U")], [lambda e: e.mem["x[0]"], lambda e: e.mem["r[0]"]], ph, [X, R, ph])
    go("rx3_To_xyz", [1, xx, rr, ph, Ref("y"), Ref("z"), Ref("U")], [lambda e: xx, lambda e: e.mem["y[0]"], lambda e: e.mem["z[0]"]], None, [xx, rr, ph])


def u_tov_ode(ctx):
    import sympy as sp
    import nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve as to
    from vf.cexec import Ref
    ctx.under("nrpy.infrastructures.BHaH.general_relativity.TOVola.TOVola_solve.register_CFunction_TOVola_solve")
    ctx.under("nrpy.equations.tov.TOV_equations.TOV_Equations")
    run_, ce = mkexec(text_of(to.register_CFunction_TOVola_solve))
    P, nu, M, ri, r, K, rc = sp.symbols("P nu M r_iso r K rho_c", positive=True)

    def ode(G):
        mem = {"y[0]": P, "y[1]": nu, "y[2]": M, "y[3]": ri, "par->commondata->poly_eos_K": K, "par->commondata->poly_eos_Gamma": G, "par->rho_baryon": sp.Symbol("old", positive=True), "par->rho_energy": sp.Symbol("old2", positive=True), "par->commondata->initial_central_density": rc}
        e = (P / K) ** (1 / G) + P / (G - 1)
        w = [-(e + P) * (M + 4 * sp.pi * r ** 3 * P) / (r * (r - 2 * M)), 2 * (M + 4 * sp.pi * r ** 3 * P) / (r * (r - 2 * M)), 4 * sp.pi * r ** 2 * e, ri / r / sp.sqrt(1 - 2 * M / r)]
        # fourth roots made rational: P = K q^(numerator), so that the density is a power of q
        q = sp.Symbol("q", positive=True)
        for _, ex in run_("TOVola_ODE", [r, Ref("y"), Ref("f"), Ref("par")], mem):
            for i, nm in enumerate(("pressure", "nu", "mass", "isotropic radius")):
                ctx.eq(f"TOVola_ODE, Gamma={G}: radial derivative of the {nm}", sp.powsimp(sp.powdenest(sp.sympify(ex.mem[f"f[{i}]"]).subs(P, K * q ** G.p), force=True)), sp.powsimp(sp.powdenest(w[i].subs(P, K * q ** G.p), force=True)))
        for _, ex in run_("TOVola_get_initial_condition", [Ref("y"), Ref("par")], mem):
            for i, v in enumerate((K * rc ** G, 0, 0, 0)):
                ctx.eq(f"TOVola_get_initial_condition, Gamma={G}: variable {i}", sp.sympify(ex.mem[f"y[{i}]"]), sp.sympify(v))
    for G in (sp.Integer(2), sp.Rational(5, 3), sp.Rational(5, 2)):
        under_contract(ctx, "TOVola_ODE", lambda: ode(G))

    def norm():
        N = 4
        mem = {"d->numpoints_actually_saved": N}
        arr = {"r_Schw": "r", "rho_energy": "e", "rho_baryon": "b", "P": "p", "M": "m", "nu": "n", "r_iso": "i"}
        S = {k: sp.symbols(f"{v}0:{N}", positive=True) for k, v in arr.items()}
        for k in arr:
            for i in range(N):
                mem[f"d->{k}_arr[{i}]"] = S[k][i]
        names = ["r_Schw", "rho_energy", "rho_baryon", "P", "M", "expnu", "exp4phi", "r_iso"]
        (_, ex), = run_("TOVola_Normalize_and_set_data_integrated", [Ref("d")] + [Ref("o" + n) for n in names], mem)
        R, Ms, ns, rs = (S[k][N - 1] for k in ("r_Schw", "M", "nu", "r_iso"))
        c = (sp.sqrt(R * (R - 2 * Ms)) + R - Ms) / 2 / rs

        def held(name, got, want):
            from vf import algnf
            q = algnf.prove_eq(got, want)
            ctx.check(name, q.status in ("proved", "bounded"), q.backend, cex=q.cex, detail=q.detail, bounded=True)
        for i in range(N):
            for n in ("r_Schw", "rho_energy", "rho_baryon", "P", "M"):
                ctx.check(f"normalisation: {n}[{i}] is kept", sp.expand(ex.mem[f"o{n}[{i}]"] - S[n][i]) == 0, "normal form", bounded=True)
            held(f"normalisation: r_iso[{i}] matches the exterior", ex.mem[f"or_iso[{i}]"], S["r_iso"][i] * c)
            held(f"normalisation: conformal factor at {i}", ex.mem[f"oexp4phi[{i}]"], (S["r_Schw"][i] / (S["r_iso"][i] * c)) ** 2)
            got = sp.expand(sp.log(ex.mem[f"oexpnu[{i}]"]), log=False)
            held(f"normalisation: lapse at {i} matches the exterior", sp.expand_log(got, force=True), sp.expand_log(S["nu"][i] - ns + sp.log(1 - 2 * Ms / R), force=True))
    under_contract(ctx, "TOVola_Normalize_and_set_data_integrated", norm)


def units():
    z3 = (0.0, 0.0, 0.0)
    P = [("equal masses, orbit", 1.0, 2.337285746, z3, z3, 0.3331917498, 0.0, (0.453, 0.453), (24, 24, 12), 5e-4),
         ("q=1.5 with momenta and spins", 1.5, 6.0, (0.2, -0.1, 0.3), (-0.15, 0.25, 0.1), 0.12, 0.02, None, (30, 30, 12), 1e-3),
         ("q=2 with momenta from the post-Newtonian routine", 2.0, 5.0, (0.0, 0.3, 0.0), (0.2, 0.0, -0.2), -1.0, -1.0, (0.55, 0.25), (24, 24, 10), 3e-3),
         ("no momenta or spins", 3.0, 4.0, z3, z3, 0.0, 0.0, None, (12, 12, 6), 1e-6),
         ]
    return [Unit("two-puncture equations", u_equations, (), timeout=600, weight=60), Unit("two-puncture coordinates", u_transf, (), timeout=600, weight=60), Unit("stellar structure equations", u_tov_ode, (), timeout=600, weight=60),
            Unit("quasicircular momenta", u_momenta, (), timeout=600, weight=40)] + \
           [Unit("two punctures: " + p[0], u_punctures, p, timeout=700, weight=100) for p in P] + \
           [Unit(f"star {a}", u_star, a, timeout=500, weight=30) for a in ((0.129285, 1.0, 2.0, 11, 1.0), (0.05, 1.3, 1.8, 9, 1.0), (0.2, 0.7, 2.5, 11, 0.5))]
