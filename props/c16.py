"""C16  Curvilinear boundary conditions fill every ghost point, once, with the value the geometry or the wave condition prescribes."""
import itertools
import math
import os
import random
import re
import tempfile

import sympy as sp

from vf import bhah, cexec
from vf.coords import ALL, EXTRA
from vf.core import Unit, thorough
from props.c15 import cpp

LEVEL = "other"
EXPLANATION = ("The pieces that carry the mathematics (parity dot products, radius and radial derivative, one-sided difference formulas, stencil placement, the radiation formula) are symbolically executed from the generated C and "
               "proved for all data and coordinates; the index maps and the order in which points are filled are executed natively, exhaustively over every point of the listed grids, against a geometric oracle (bounded).")
PREIMPORT = ["nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions", "nrpy.infrastructures.BHaH.numerical_grids_and_timestep", "nrpy.infrastructures.BHaH.rfm_wrapper_functions"]
ASSUMPTIONS = ["Nxx >= 3 in directions with outer faces and >= 2*radius+1 points for the radiation stencil", "the reference-metric expressions satisfy C10"]
BOUNDS = ["native: 16 coordinate systems, two grids each, NGHOSTS 2 and 3, 10 gridfunctions (all parity types); radiation order 2, 4, 6"]

GFS = ["hDD00", "hDD01", "hDD02", "hDD11", "hDD12", "hDD22", "uu", "vU0", "vU1", "vU2"]
PTYPE = {"uu": 0, "vU0": 1, "vU1": 2, "vU2": 3, "hDD00": 4, "hDD01": 5, "hDD02": 6, "hDD11": 7, "hDD12": 8, "hDD22": 9}

MAIN = r'''
  commondata_struct commondata;
  commondata_struct_set_to_default(&commondata);
  griddata_struct *restrict griddata = (griddata_struct *restrict)calloc(MAXNUMGRIDS, sizeof(griddata_struct));
  numerical_grids_and_timestep(&commondata, griddata, true);
  params_struct *params = &griddata[0].params;
  const int Nx[3] = { atoi(argv[1]), atoi(argv[2]), atoi(argv[3]) };
  numerical_grid_params_Nxx_dxx_xx(&commondata, params, griddata[0].xx, Nx, true);
  bc_struct *bc = &griddata[0].bcstruct;
  bcstruct_set_up(&commondata, params, griddata[0].xx, bc);
  const int N0=params->Nxx_plus_2NGHOSTS0, N1=params->Nxx_plus_2NGHOSTS1, N2=params->Nxx_plus_2NGHOSTS2;
  const int Nxx_plus_2NGHOSTS0=N0, Nxx_plus_2NGHOSTS1=N1, Nxx_plus_2NGHOSTS2=N2;
  printf("N %d %d %d %d %d\n", N0, N1, N2, NGHOSTS, NUM_EVOL_GFS);
  for(int g=0;g<NUM_EVOL_GFS;g++) printf("PAR %d\n", evol_gf_parity[g]);
@PARAMS@
  for(int d=0;d<3;d++) for(int j=0;j<(d==0?N0:d==1?N1:N2);j++) printf("XX %d %d %.17g\n", d, j, griddata[0].xx[d][j]);
  for(int p=0;p<bc->bc_info.num_inner_boundary_points;p++) {
    printf("I %d %d", bc->inner_bc_array[p].dstpt, bc->inner_bc_array[p].srcpt);
    for(int q=0;q<10;q++) printf(" %d", bc->inner_bc_array[p].parity[q]);
    printf("\n");
  }
  for(int gz=0;gz<NGHOSTS;gz++) for(int d=0;d<3;d++) for(int p=0;p<bc->bc_info.num_pure_outer_boundary_points[gz][d];p++) {
    outerpt_bc_struct *o = &bc->pure_outer_bc_array[d+3*gz][p];
    printf("O %d %d %d %d %d %d\n", o->i0, o->i1, o->i2, o->FACEX0, o->FACEX1, o->FACEX2);
  }
  const int ntot = N0*N1*N2;
  REAL *gfs = (REAL*)malloc(sizeof(REAL)*ntot*NUM_EVOL_GFS), *rhs = (REAL*)malloc(sizeof(REAL)*ntot*NUM_EVOL_GFS);
  // 1: inner only, 2: extrapolation: quadratic in the indices; NaN in all ghost points
  for(int mode=0;mode<2;mode++) {
    for(int g=0;g<NUM_EVOL_GFS;g++) LOOP_NOOMP(i0,0,N0, i1,0,N1, i2,0,N2) {
      const int idx[3] = {i0,i1,i2};
      const REAL x=i0-3.5, y=i1-4.25, z=i2-2.75;
      const REAL v = 1.0+g + (0.5+g)*x - 0.25*y*(g+1) + 0.125*z + 0.0625*x*x*(g-3) + 0.03125*y*y*(g+2) - 0.0625*z*z + 0.25*x*y;
      gfs[IDX4pt(g, IDX3(i0,i1,i2))] = (mode==0 || IS_IN_GRID_INTERIOR(idx,N0,N1,N2,NGHOSTS)) ? v : NAN;
    }
    if(mode==0) apply_bcs_inner_only(&commondata, params, bc, gfs);
    else        apply_bcs_outerextrap_and_inner(&commondata, params, bc, gfs);
    for(int g=0;g<NUM_EVOL_GFS;g++) for(int i=0;i<ntot;i++) printf("G%d %.17g\n", mode, gfs[IDX4pt(g,i)]);
  }
  // 3: radiation: gfs everywhere a polynomial of the order of the formula in each index, rhs known in the interior only
  REAL ws[NUM_EVOL_GFS], finf[NUM_EVOL_GFS];
  for(int g=0;g<NUM_EVOL_GFS;g++) {
    ws[g] = 0.5 + 0.25*g; finf[g] = g - 4.5;
    LOOP_NOOMP(i0,0,N0, i1,0,N1, i2,0,N2) {
      const int idx[3] = {i0,i1,i2};
      const REAL x=(i0-3.5)/4, y=(i1-4.25)/4, z=(i2-2.75)/4;
      REAL v = 1.0+g, xp=x, yp=y, zp=z;
      for(int k=1;k<=@ORD@;k++) { v += (0.5+g/(k+1.0))*xp + (0.25-0.125*g*k)*yp + (g-2.0*k)/8*zp; xp*=x; yp*=y; zp*=z; }
      gfs[IDX4pt(g, IDX3(i0,i1,i2))] = v;
      rhs[IDX4pt(g, IDX3(i0,i1,i2))] = IS_IN_GRID_INTERIOR(idx,N0,N1,N2,NGHOSTS) ? 0.3*g + 0.01*i0 - 0.02*i1 + 0.015*i2 : NAN;
    }
  }
  apply_bcs_outerradiation_and_inner(&commondata, params, bc, griddata[0].xx, ws, finf, gfs, rhs);
  for(int g=0;g<NUM_EVOL_GFS;g++) for(int i=0;i<ntot;i++) printf("R %.17g\n", rhs[IDX4pt(g,i)]);
  return 0;
'''


def setup(ctx, coord, fd_order, rad):
    import contextlib
    import io
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL  # noqa: F401  registers the CFL and time parameters
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    import nrpy.infrastructures.BHaH.rfm_wrapper_functions as rw
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    bhah.reset()
    par.set_parval_from_str("fd_order", fd_order)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", coord)
    with contextlib.redirect_stdout(io.StringIO()):
        rfm = refmetric.reference_metric[coord]
        gri.register_gridfunctions("uu", group="EVOL", f_infinity=0.0, wavespeed=1.0)
        gri.register_gridfunctions_for_single_rank1("vU", group="EVOL", f_infinity=0.0, wavespeed=1.0)
        gri.register_gridfunctions_for_single_rank2("hDD", symmetry="sym01", group="EVOL", f_infinity=0.0, wavespeed=1.0)
        ctx.call("numerical grids", ng.register_CFunctions, list_of_CoordSystems=[coord], list_of_grid_physical_sizes=[7.5], Nxx_dict={coord: [4, 4, 4]}, enable_CurviBCs=True)
        ctx.call("CurviBCs", cbc.CurviBoundaryConditions_register_C_functions, list_of_CoordSystems=[coord], radiation_BC_fd_order=rad)
        rw.register_CFunctions_CoordSystem_wrapper_funcs()
    return rfm, cfc, par


def u_native(ctx, coord, fd_order, rad, grids):
    ctx.under("nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.register_CFunction_bcstruct_set_up", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.register_CFunction_apply_bcs_inner_only",
              "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.register_CFunction_apply_bcs_outerextrap_and_inner", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.register_CFunction_apply_bcs_outerradiation_and_inner",
              "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.register_BHaH_defines_h")
    rfm, cfc, par = setup(ctx, coord, fd_order, rad)
    names = sorted(n for n, p in par.glb_code_params_dict.items() if p.cparam_type == "REAL" and not p.commondata)
    pr = "\n".join(f'  printf("P {n} %.17g\\n", params->{n});' for n in names)
    cfc.register_CFunction(name="main", desc="d", cfunc_type="int", params="int argc, char *argv[]", includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], body=MAIN.replace("@PARAMS@", pr).replace("@ORD@", str(rad)))
    with tempfile.TemporaryDirectory() as d:
        ctx.call("project files", bhah.write, d)
        err = bhah.compile_(d)
        if not ctx.check("generated boundary code compiles", not err, "native", bounded=True, cex=err[:2000]):
            return
        for gridN in grids:
            rc, out, se = bhah.run(d, gridN)
            if ctx.check(f"grid {gridN}: runs (address and undefined-behaviour checks on)", rc == 0, "native", bounded=True, cex=f"exit {rc} {se[:1500]}"):
                judge(ctx, coord, rfm, gridN, rad, out)


def judge(ctx, coord, rfm, gridN, rad, out):
    import numpy as np
    I, O, P, PAR, XX, G = [], [], {}, [], ({}, {}, {}), {"G0": [], "G1": [], "R": []}
    for ln in out.splitlines():
        w = ln.split()
        if w[0] == "N":
            N, NG, NEV = list(map(int, w[1:4])), int(w[4]), int(w[5])
        elif w[0] == "P":
            P[w[1]] = float(w[2])
        elif w[0] == "PAR":
            PAR.append(int(w[1]))
        elif w[0] == "XX":
            XX[int(w[1])][int(w[2])] = float(w[3])
        elif w[0] == "I":
            I.append(tuple(map(int, w[1:])))
        elif w[0] == "O":
            O.append(tuple(map(int, w[1:])))
        elif w[0] in G:
            G[w[0]].append(float(w[1]))
    t = f"grid {gridN}"
    import nrpy.grid as gri
    order = gri.BHaHGridFunction.gridfunction_lists()[0]
    ctx.check(f"{t}: parity type of each gridfunction follows its tensor indices", PAR == [PTYPE[x] for x in order], "exhaustive", bounded=True, cex=str(list(zip(order, PAR))))
    xx = [np.array([XX[d][j] for j in range(N[d])]) for d in range(3)]
    syms = list(rfm.xx)
    subs = {}
    def lam(e):
        fs = sorted(sp.sympify(e).free_symbols - set(syms), key=str)
        f = sp.lambdify(syms + fs, e, "numpy")
        pv = [P[str(s)] if str(s) in P else {"PI": math.pi, "SQRT1_2": math.sqrt(0.5)}[str(s)] for s in fs]
        return lambda a, b, c: f(a, b, c, *pv) + 0 * a
    A, B, C = np.meshgrid(*xx, indexing="ij")
    X = np.stack([lam(rfm.xx_to_Cart[i])(A, B, C) for i in range(3)], -1)
    J = np.stack([np.stack([lam(sp.diff(rfm.xx_to_Cart[i], s))(A, B, C) for s in syms], -1) for i in range(3)], -2)  # J[...,cart,coord]
    h = np.sqrt((J ** 2).sum(-2))
    ReU = np.stack([lam(rfm.ReU[i])(A, B, C) for i in range(3)], -1)  # the basis that rescaled components refer to
    E = J * ReU[..., None, :]
    idx3 = lambda i, j, k: i + N[0] * (j + N[1] * k)
    unidx = lambda p: (p % N[0], (p // N[0]) % N[1], p // (N[0] * N[1]))
    interior = lambda i: all(NG <= i[d] < N[d] - NG for d in range(3))
    ghosts = {i for i in itertools.product(*map(range, N)) if not interior(i)}
    inner = {unidx(r[0]): unidx(r[1]) for r in I}
    outer = [r[:3] for r in O]
    so = set(outer)
    ctx.check(f"{t}: every ghost point is filled exactly once, interior points never", len(inner) == len(I) and len(so) == len(outer) and not (set(inner) & so) and set(inner) | so == ghosts, "exhaustive", bounded=True,
              cex=f"missing {sorted(ghosts - set(inner) - so)[:4]}, extra {sorted((set(inner) | so) - ghosts)[:4]}, both {sorted(set(inner) & so)[:4]}, duplicates {len(I) - len(inner)} {len(outer) - len(so)}")
    tol = 1e-9 * (1 + np.abs(X).max())
    bad = [(a, b, X[a].tolist(), X[b].tolist()) for a, b in inner.items() if np.abs(X[a] - X[b]).max() > tol or a == b]
    ctx.check(f"{t}: an inner point copies a point at the same physical place", not bad, "exhaustive", bounded=True, cex=str(bad[:2]))
    bad = [(a, b) for a, b in inner.items() if b in inner]
    ctx.check(f"{t}: sources of inner points are final values", not bad, "exhaustive", bounded=True, cex=str(bad[:3]))
    key = lambda a: tuple(np.round(X[a] / (tol * 50)).astype(int).tolist())
    places = {}
    for i in itertools.product(*map(range, N)):
        if i not in inner:
            for s in itertools.product((0,), repeat=1):
                places.setdefault(key(i), []).append(i)
    bad = [v for v in places.values() if len(v) > 1]
    ctx.check(f"{t}: outer points are not copies of other grid points", not bad, "exhaustive", bounded=True, cex=str(bad[:2]))
    bad = []
    for r in I:
        a, b = unidx(r[0]), unidx(r[1])
        dot = [float(E[a][:, i] @ E[b][:, i]) for i in range(3)]
        want = [1] + [round(x) for x in dot] + [round(dot[i]) * round(dot[j]) for i in range(3) for j in range(i, 3)]
        if any(abs(abs(x) - 1) > 1e-6 for x in dot) or list(r[2:]) != want:
            bad.append((a, b, r[2:], want))
    ctx.check(f"{t}: parity factors are the unit-vector products of source and destination", not bad, "exhaustive", bounded=True, cex=str(bad[:2]))
    # outer order: the neighbours an outer point uses are final when it is filled
    done = {i for i in itertools.product(*map(range, N)) if interior(i)}
    bad = []
    for r in O:
        i, f = r[:3], r[3:]
        nb = [tuple(i[d] + k * f[d] for d in range(3)) for k in (1, 2, 3)]
        if sum(map(abs, f)) != 1 or any(n not in done for n in nb) or not all(f[d] == 0 or (i[d] < NG if f[d] == 1 else i[d] >= N[d] - NG) for d in range(3)):
            bad.append((r, [n for n in nb if n not in done]))
        done.add(i)
    ctx.check(f"{t}: outer points are filled from the inside out", not bad, "exhaustive", bounded=True, cex=str(bad[:3]))
    # values
    def poly(g, i):
        x, y, z = i[0] - 3.5, i[1] - 4.25, i[2] - 2.75
        return 1.0 + g + (0.5 + g) * x - 0.25 * y * (g + 1) + 0.125 * z + 0.0625 * x * x * (g - 3) + 0.03125 * y * y * (g + 2) - 0.0625 * z * z + 0.25 * x * y
    ntot = N[0] * N[1] * N[2]
    par_of = {unidx(r[0]): r[2:] for r in I}
    for mode in (0, 1):
        V = G[f"G{mode}"]
        bad = []
        for g in range(NEV):
            for i in itertools.product(*map(range, N)):
                v = V[g * ntot + idx3(*i)]
                w = poly(g, i) if i not in inner else par_of[i][PTYPE[order[g]]] * poly(g, inner[i])
                if not abs(v - w) <= 1e-8 * (1 + abs(w)):
                    bad.append((order[g], i, v, w))
        ctx.check(f"{t}: {'inner points are parity x source, everything else unchanged' if mode == 0 else 'extrapolation is exact for quadratics, then inner points are parity x source'}", not bad, "exhaustive", bounded=True, cex=str(bad[:3]))
    # radiation
    R = G["R"]
    val = {}
    dxx = [P[f"dxx{d}"] for d in range(3)]
    bad = []
    def gfv(g, i):
        x = [(i[0] - 3.5) / 4, (i[1] - 4.25) / 4, (i[2] - 2.75) / 4]
        v, dv = 1.0 + g, [0.0] * 3
        for k in range(1, rad + 1):
            co = [0.5 + g / (k + 1.0), 0.25 - 0.125 * g * k, (g - 2.0 * k) / 8]
            for d in range(3):
                v += co[d] * x[d] ** k
                dv[d] += co[d] * k * x[d] ** (k - 1) / 4 / dxx[d]
        return v, dv
    def prf(g, i):
        _, dv = gfv(g, i)
        r = math.sqrt(float(X[i] @ X[i]))
        dxdr = [float(J[i][:, d] @ X[i]) / r / float(h[i][d]) ** 2 for d in range(3)]
        return sum(dxdr[d] * dv[d] for d in range(3)), r
    for g in range(NEV):
        c, fi = 0.5 + 0.25 * g, g - 4.5
        rhs = {i: 0.3 * g + 0.01 * i[0] - 0.02 * i[1] + 0.015 * i[2] for i in itertools.product(*map(range, N)) if interior(i)}
        for r in O:
            i, n = r[:3], tuple(r[d] + r[3 + d] for d in range(3))
            pi, ri = prf(g, n)
            po, ro = prf(g, i)
            k = ri ** 3 * (rhs[n] + c * (pi + (gfv(g, n)[0] - fi) / ri)) if n in rhs else float("nan")
            rhs[i] = -c * (po + (gfv(g, i)[0] - fi) / ro) + k / ro ** 3
        for a, b in inner.items():
            rhs[a] = par_of[a][PTYPE[order[g]]] * rhs[b] if b in rhs else float("nan")
        for i, w in rhs.items():
            v = R[g * ntot + idx3(*i)]
            if not abs(v - w) <= 1e-7 * (1 + abs(w)):
                bad.append((order[g], i, v, w))
    ctx.check(f"{t}: radiation condition of order {rad}, then inner points", not bad, "exhaustive", bounded=True, cex=str(bad[:3]))
    ctx.cover("inner and outer points occur", bool(O) and (bool(I) or "Cart" in coord or "Wedge" in coord))


def sample(rfm):
    """points in the coordinate box, ghost region included, away from coordinate singularities"""
    from props.c10 import nums
    return nums


def u_sym(ctx, coord):
    """contracts of the pieces, for all data and all points"""
    import contextlib
    import io
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    par.set_parval_from_str("Infrastructure", "BHaH")
    with contextlib.redirect_stdout(io.StringIO()):
        rfm = refmetric.reference_metric[coord]
    res = lambda k: sp.Symbol(k, real=True) if re.fullmatch(r"[A-Za-z_]\w*", k) else None
    X = rfm.xx_to_Cart
    syms = list(rfm.xx)

    def sampler(extra):
        from props.c10 import nums as cn
        import mpmath
        def s(fs, rng):
            pt = dict(cn(rfm, rng))
            lo = [0.15, 0.2, 0.2]
            for k, q in enumerate(syms):
                pt[q] = mpmath.mpf(rng.uniform(lo[k], 0.8))
                pt[sp.Symbol(f"xx{k}_inbounds", real=True)] = mpmath.mpf(rng.uniform(lo[k], 0.8))
            byname = {str(k): v for k, v in pt.items()}
            return {f: byname[str(f)] if str(f) in byname else mpmath.mpf(rng.uniform(0.3, 1.5)) for f in fs}
        return s
    # parity dot products
    if hasattr(cbc, "parity_conditions_symbolic_dot_products"):
        ctx.under("nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.parity_conditions_symbolic_dot_products")
        txt = ctx.call("parity_conditions_symbolic_dot_products", cbc.parity_conditions_symbolic_dot_products, coord)
        ex = cexec.run_kernel(txt, resolver=res)
        inb = {s: sp.Symbol(f"xx{k}_inbounds", real=True) for k, s in enumerate(syms)}
        J = [[sp.diff(X[c], s) for c in range(3)] for s in syms]
        dots = []
        for i in range(3):
            n2 = sum(x * x for x in J[i])
            # e_i(x).e_i(x') with e_i = J_i/|J_i|
            Ji = [x.subs(inb, simultaneous=True) for x in J[i]]
            dots.append(sum(a * b for a, b in zip(J[i], Ji)) / (sp.sqrt(n2) * sp.sqrt(n2.subs(inb, simultaneous=True))))
        U = rfm.UnitVectors
        ud = [sum(U[i][c] * U[i][c].subs(inb, simultaneous=True) if hasattr(U[i][c], "subs") else U[i][c] ** 2 for c in range(3)) for i in range(3)]
        want = [sp.Integer(1)] + ud + [ud[i] * ud[j] for i in range(3) for j in range(i, 3)]
        for q in range(10):
            got = ex.mem.get(f"REAL_parity_array[{q}]")
            if ctx.check(f"parity {q} is computed", got is not None, "symexec", cex=txt[:300]):
                ctx.eq(f"parity type {q} = product of unit vectors at the point and its image", cexec.real(got), want[q], sampler=sampler(0), budget=25 if thorough() else 8)
    text = rad_text(ctx, coord, 4)
    F = cexec.functions_of(cpp(text), extra_typedefs=("commondata_struct", "params_struct", "bc_struct", "bc_info_struct"))
    if "r_and_partial_xi_partial_r_derivs" in F:
        ctx.under("nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.setup_Cfunction_r_and_partial_xi_partial_r_derivs")
        ex = cexec.Exec(functions=F, resolver=res)
        ex.call(F["r_and_partial_xi_partial_r_derivs"], [cexec.Ref("commondata"), cexec.Ref("params"), *syms] + [cexec.Ref(f"o{k}") for k in range(4)])
        o = [cexec.real(ex.mem.get(f"o{k}[0]", sp.nan)) for k in range(4)]
        ctx.eq("r^2 = x^2+y^2+z^2", o[0] ** 2, sum(x ** 2 for x in X), sampler=sampler(0), budget=25 if thorough() else 8)
        for c in range(3):
            ctx.eq(f"r (d xCart[{c}]/dx^i)(dx^i/dr) = xCart[{c}]", o[0] * sum(sp.diff(X[c], syms[i]) * o[1 + i] for i in range(3)), X[c], sampler=sampler(0), budget=40 if thorough() else 12)


def rad_text(ctx, coord, rad, fd_order=4):
    import contextlib
    import io
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.params as par
    cfc.CFunction_dict.clear()
    par.set_parval_from_str("fd_order", fd_order)
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.call("register_CFunction_apply_bcs_outerradiation_and_inner", cbc.register_CFunction_apply_bcs_outerradiation_and_inner, coord, radiation_BC_fd_order=rad)
    ctx.check("the global finite-difference order is restored", par.parval_from_str("fd_order") == fd_order, "frame", bounded=True, cex=str(par.parval_from_str("fd_order")))
    return cfc.CFunction_dict[f"apply_bcs_outerradiation_and_inner__rfm__{coord}"].full_function


def u_fd(ctx, rad):
    """one-sided formulas, stencil placement, radiation formula (SinhSymTP: all three directions contribute)"""
    import z3
    from vf.loops import to_z3
    ctx.under("nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.setup_Cfunction_FD1_arbitrary_upwind", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.get_arb_offset_FD_coeffs_indices",
              "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.setup_Cfunction_compute_partial_r_f", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.setup_Cfunction_radiation_bcs")
    text = rad_text(ctx, "SinhCartesian", rad, fd_order=max(2, rad - 2))
    F = cexec.functions_of(cpp(text), extra_typedefs=("commondata_struct", "params_struct", "bc_struct", "bc_info_struct"))
    R = rad // 2
    for d in range(3):
        fn = F.get(f"FD1_arbitrary_upwind_x{d}_dirn")
        if fn is None:
            continue
        for off in range(-R, R + 1):
            taps = {}

            def res(k, taps=taps):
                m = re.fullmatch(r"gf\[IDX3\((.*)\)\]", k)
                if m:
                    j = [int(x) for x in m.group(1).split(",")]
                    return taps.setdefault(tuple(j), sp.Symbol("f_%d_%d_%d" % tuple(x + 50 for x in j), real=True))
                return sp.Symbol(k, real=True) if re.fullmatch(r"\w+", k) else None
            ex = cexec.Exec(functions=F, resolver=res)
            v = ex.call(fn, [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("gf"), 0, 0, 0, off])
            t = f"order {rad} direction {d} offset {off}"
            ok_line = all(all(j[e] == 0 for e in range(3) if e != d) for j in taps)
            ctx.check(f"{t}: stencil along the direction, within offset +- {R}", ok_line and all(off - R <= j[d] <= off + R for j in taps) and len(taps) > 0, "symexec", cex=str(sorted(taps)))
            inv = sp.Symbol(f"invdxx{d}", real=True)
            for p in range(rad + 1):
                w = sp.expand(v.subs({s: sp.Integer(j[d]) ** p if not (p == 0) else 1 for j, s in taps.items()}, simultaneous=True))
                want = inv if p == 1 else 0
                w2 = sp.nsimplify(w, rational=True)
                ctx.check(f"{t}: exact for degree {p}", sp.simplify(w2 - want).subs(inv, 1).is_number and abs(float(sp.simplify(w2 - want).subs(inv, 1))) < 1e-12 and (w2.subs(inv, 0) == 0), "exact arithmetic", cex=str(w))
    if "compute_partial_r_f" in F:
        n_paths = 0
        G = {k: v for k, v in F.items() if not k.startswith("FD1_")}
        I = [sp.Symbol(f"i{d}", integer=True) for d in range(3)]
        N = [sp.Symbol(f"N{d}", integer=True) for d in range(3)]
        FA = [sp.Symbol(f"F{d}", integer=True) for d in range(3)]
        NGH = sp.Symbol("NG", integer=True)

        def run(path):
            calls = {}

            def on_call(ex, name, argn):
                m = re.fullmatch(r"FD1_arbitrary_upwind_x(\d)_dirn", name)
                if m:
                    a = [ex.ev(x) for x in argn]
                    calls[int(m.group(1))] = a
                    return sp.Symbol(f"D{m.group(1)}", real=True)
                return None

            def res(k):
                m = re.fullmatch(r"Nxx_plus_2NGHOSTS(\d)", k)
                if m:
                    return cexec.CInt(N[int(m.group(1))])
                return cexec.Ref(k) if k.startswith("gfs") else (sp.Symbol(k, real=True) if re.fullmatch(r"\w+", k) else None)
            ex = cexec.Exec(functions=G, resolver=res, path=path, on_call=on_call)
            pr = [sp.Symbol(f"pr{d}", real=True) for d in range(3)]
            v = ex.call(F["compute_partial_r_f"], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("xx"), cexec.Ref("gfs"), 2, *map(cexec.CInt, I), *map(cexec.CInt, FA), *pr])
            return v, calls, pr
        paths = cexec.explore(run, max_paths=600)
        for cond, (v, calls, pr) in paths:
            n_paths += 1
            env = {}
            zc = [conv(c, env, to_z3) for c in cond]
            for d, a in calls.items():
                dest = [cexec.real(x) for x in a[3:6]]
                off = to_z3(cexec.real(a[6]), env)
                i, n, f = (to_z3(s, env) for s in (I[d], N[d], FA[d]))
                ng = to_z3(NGH, env)
                pre = [i >= 0, i < n, n >= 2 * ng + 2, ng >= R, n >= 2 * R + 2, f >= -1, f <= 1, z3.Implies(f == 1, i <= ng), z3.Implies(f == -1, i >= n - ng - 1), *zc]
                ctx.z3(f"path {n_paths} direction {d}: stencil inside the grid, formula defined", z3.And(off >= -R, off <= R, i + off - R >= 0, i + off + R < n), pre)
                ctx.check(f"path {n_paths} direction {d}: evaluated at the destination point of the right gridfunction", dest == I and isinstance(a[2], cexec.Ref) and re.sub(r"\s", "", a[2].key) in ("gfs[2*N0*N1*N2]",), "symexec", cex=str(a))
            got = sp.expand(v - sum(pr[d] * sp.Symbol(f"D{d}", real=True) for d in range(3)))
            ctx.check(f"path {n_paths}: chain rule", got == 0, "symexec", cex=str(v))
        ctx.cover("paths of compute_partial_r_f", n_paths >= 27)
    if "radiation_bcs" in F:
        calls = []
        at = lambda i: "_".join(str(x) for x in i)

        def on_call(ex, name, argn):
            if name == "r_and_partial_xi_partial_r_derivs":
                a = [ex.ev(x) for x in argn]
                tag = "|".join(str(x) for x in a[2:5])
                for k, ref in enumerate(a[5:9]):
                    nm = ref.key
                    val = sp.Symbol(f"r{k}({tag})", positive=True)
                    ex.assign(nm, val) if re.fullmatch(r"\w+", nm) else ex.mem.__setitem__(nm, val)
                return 0
            if name == "compute_partial_r_f":
                a = [ex.ev(x) for x in argn]
                calls.append(a)
                return sp.Symbol("PRF(" + "|".join(str(cexec.real(x)) for x in a[4:]) + ")", real=True)
            return None
        i, f = (3, 8, 5), (0, 1, 0)
        n = (3, 9, 5)

        def res(k):
            m = re.fullmatch(r"(\w+)\[(?:IDX4pt|IDX4P)\((\d+), (.*)\)\]", k)
            if m:
                return sp.Symbol(f"{m.group(1)}:{m.group(2)}:{m.group(3)}", real=True)
            return sp.Symbol(k, real=True)
        ex = cexec.Exec(functions={"radiation_bcs": F["radiation_bcs"]}, resolver=res, on_call=on_call)
        c, fi = sp.symbols("c finf", real=True)
        v = ex.call(F["radiation_bcs"], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("bcstruct"), cexec.Ref("xx"), cexec.Ref("gfs"), cexec.Ref("gfs_rhss"), 4, c, fi, *i, *f])
        pt = lambda q: "|".join(f"xx[{d}][{q[d]}]" for d in range(3))
        r = lambda k, q: sp.Symbol(f"r{k}({pt(q)})", positive=True)
        PRF = lambda q: sp.Symbol("PRF(" + "|".join(map(str, [4, *q, *f] + [r(k, q) for k in (1, 2, 3)])) + ")", real=True)
        g = lambda arr, q: sp.Symbol(f"{arr}:4:IDX3({', '.join(map(str, q))})", real=True)
        k = r(0, n) ** 3 * (g("gfs_rhss", n) + c * (PRF(n) + (g("gfs", n) - fi) / r(0, n)))
        want = -c * (PRF(i) + (g("gfs", i) - fi) / r(0, i)) + k / r(0, i) ** 3
        ctx.eq("radiation formula: outgoing wave plus 1/r^3 correction matched at the inward neighbour", v, want)


def conv(c, env, to_z3):
    import z3
    if isinstance(c, sp.Not):
        return z3.Not(conv(c.args[0], env, to_z3))
    a, b = (to_z3(x, env) for x in c.args)
    return {"StrictLessThan": a < b, "StrictGreaterThan": a > b, "LessThan": a <= b, "GreaterThan": a >= b, "Equality": a == b, "Unequality": a != b}[c.func.__name__]


def u_parity_tables(ctx):
    import contextlib
    import io
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    ctx.under("nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions.BHaH_defines_set_gridfunction_defines_with_parity_types")
    for aux, aev in itertools.product((False, True), repeat=2):
        for present in itertools.product((False, True), repeat=3):
            bhah.reset()
            want = {}
            for grp, on, pre in zip(("EVOL", "AUX", "AUXEVOL"), present, "abc"):
                if on:
                    gri.register_gridfunctions(f"{pre}s", group=grp)
                    gri.register_gridfunctions_for_single_rank2(f"{pre}hDD", symmetry="sym01", group=grp)
                    gri.register_gridfunctions_for_single_rank1(f"{pre}vU", group=grp)
            lists = gri.BHaHGridFunction.gridfunction_lists()[:3]
            with contextlib.redirect_stdout(io.StringIO()):
                txt = ctx.call("parity defines", cbc.BHaH_defines_set_gridfunction_defines_with_parity_types, set_parity_on_aux=aux, set_parity_on_auxevol=aev)
            got = {m.group(1): (int(m.group(2)), [int(x) for x in m.group(3).split(",")]) for m in re.finditer(r"(\w+)_gf_parity\[(\d+)\]\s*=\s*\{([^}]*)\}", txt)}
            T = {"s": 0, "vU0": 1, "vU1": 2, "vU2": 3, "hDD00": 4, "hDD01": 5, "hDD02": 6, "hDD11": 7, "hDD12": 8, "hDD22": 9}
            for nm, l, on in (("evol", lists[0], True), ("aux", lists[1], aux), ("auxevol", lists[2], aev)):
                if l and on:
                    want[nm] = (len(l), [T[x[1:]] for x in l])
            ctx.check(f"parity tables aux={aux} auxevol={aev} present={present}", got == want, "exhaustive", bounded=True, cex=f"{got} want {want}")


def units():
    u = [Unit("parity tables", u_parity_tables)]
    for k, c in enumerate(ALL + EXTRA):
        u.append(Unit(f"{c} pieces", u_sym, (c,), weight=5, timeout=500))
        two = "Wedge" in c or "Ring" in c or "Cart" in c
        grids = [(7, 6, 4), (8, 8, 6)] if not two else [(7, 6, 5), (8, 7, 6)]
        u.append(Unit(f"{c} grids order 2", u_native, (c, 4, 2, grids), weight=6))
        if k % 3 == 0 or thorough():
            u.append(Unit(f"{c} grids order {4 if k % 2 else 6}", u_native, (c, 6, 4 if k % 2 else 6, [(9, 8, 8)]), weight=8))
    u += [Unit(f"radiation order {r}", u_fd, (r,), weight=4) for r in (2, 4, 6, 8)]
    return u
