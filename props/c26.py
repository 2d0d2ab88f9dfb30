"""C26: the superB (Charm++) program computes what the single-grid program computes, for every decomposition and delivery order."""
import contextlib
import io
import os
import re
import shutil
import struct
import subprocess
import tempfile

from vf import bhah, charmtr
from vf.core import Unit, thorough
from vf.native import _lift

LEVEL = "other"
EXPLANATION = ("The contract of the chare program is the whole-grid program: for every decomposition and every delivery order, the evolved variables of each chare, ghost zones included, the synchronised auxiliary variables (with their parities where another chare owns the source), the time and the coordinates equal the slice of the whole grid, "
               "every run ends, and the 1D and 2D files hold the rows of the whole-grid files, each byte written once. The real generators write a superB project and a BHaH project for the same equations; the .ci files are translated mechanically on every run "
               "(serial, when, if, for, while; anything else is refused) onto a small runtime whose seeded scheduler picks the delivery order, whose reductions and file sessions check their own protocol, and whose checkpoints pack each chare, discard it and unpack it into filled memory.")
BOUNDS = "7 combinations of coordinate system (4), Runge-Kutta method (7), boundary condition and checkpointing; 16 decompositions; 2 delivery orders each per quick run (6 thorough) with rounds kept apart and as many with rounds overtaking; 2 or 3 time steps of 8 to 12 points per direction; checkpoint after every step in two configurations"
ASSUMPTIONS = ["Messages from one chare to one other chare arrive in the order sent (Charm++ does not promise this in general; the generated code relies on it)",
               "Entry methods of one chare run one after another; reductions combine each chare's n-th contribution",
               "rfm_precompute is on, one grid (NUMGRIDS = 1) and one coordinate system: the generators' other settings do not compile for checkpointing",
               "extents divide evenly and leave at least NGHOSTS points per chare, as the generated code asserts or needs",
               "psi4 reductions over chare sections and residual reductions of the elliptic solver are outside the translated subset"]
TRUSTED = ["g++ 13 and the runtime and .ci translator in vf/charm and vf/charmtr.py as a reading of Charm++'s semantics", "the whole-grid program (C15, C18, C19 and C21 are about it)"]
PREIMPORT = ["nrpy.infrastructures.superB.timestepping_chare", "nrpy.infrastructures.superB.main_chare", "nrpy.infrastructures.superB.diagnostics", "nrpy.infrastructures.superB.MoL", "nrpy.infrastructures.superB.superB.superB_pup", "nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library", "nrpy.infrastructures.superB.CurviBoundaryConditions", "nrpy.infrastructures.superB.chare_communication_maps"]

# extent of the whole grid in each computational coordinate (None: unknown, test not needed)
EXT = {"Spherical": [(0, "SZ"), (0, "M_PI"), ("-M_PI", "M_PI")], "Cartesian": [("-SZ", "SZ")] * 3, "Cylindrical": [(0, "SZ"), ("-M_PI", "M_PI"), ("-SZ", "SZ")],
       "SinhSpherical": [(0, 1), (0, "M_PI"), ("-M_PI", "M_PI")], "SymTP": [(0, "SZ"), (0, "M_PI"), ("-M_PI", "M_PI")]}
SZ = 2.5
FN1, FN2 = [(f"out{n}-conv_factor%.2f-t%012.9f.txt", "convergence_factor, time") for n in ("1d-AXIS", "2d-PLANE")]
OUTQ = {("REAL", "uuL"): "y_n_gfs[IDX4pt(UUGF, idx3)]", ("REAL", "w2L"): "y_n_gfs[IDX4pt(WU2GF, idx3)]"}


class Cfg:
    def __init__(self, coord, Nxx, method="RK4", bcs="radiation", rfm=True, fd=4, steps=3, ckpt=False, sync_aux=True, every=2):
        self.coord, self.Nxx, self.method, self.bcs, self.rfm, self.fd, self.steps, self.ckpt, self.sync_aux, self.every = coord, Nxx, method, bcs, rfm, fd, steps, ckpt, sync_aux, every
        self.tag = f"{coord} {Nxx} {method} {bcs}" + ("" if rfm else " no rfm precompute") + (" checkpoint" if ckpt else "")


def common(cfg):
    """the functions both programs share"""
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as w
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xt
    import nrpy.params as par
    from nrpy.infrastructures.BHaH import rfm_precompute
    from nrpy.infrastructures.BHaH.diagnostics import progress_indicator as progress
    par.set_parval_from_str("fd_order", cfg.fd)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cfg.coord)
    ng.register_CFunctions(list_of_CoordSystems=[cfg.coord], list_of_grid_physical_sizes=[SZ], Nxx_dict={cfg.coord: list(cfg.Nxx)}, enable_rfm_precompute=cfg.rfm, enable_CurviBCs=True)
    xt.register_CFunction_xx_to_Cart(CoordSystem=cfg.coord)
    if cfg.rfm:
        rfm_precompute.register_CFunctions_rfm_precompute(list_of_CoordSystems=[cfg.coord])
    w.register_CFunction_rhs_eval(CoordSystem=cfg.coord, enable_rfm_precompute=cfg.rfm, enable_simd=False, enable_KreissOliger_dissipation=False, OMP_collapse=1)
    for g in ("uu", "vv"):
        gri.glb_gridfcs_dict[g].f_infinity = 0.0
    gri.register_gridfunctions_for_single_rank1("WU", group="EVOL", f_infinity=[0.1, 0.2, 0.3], wavespeed=[1.0, 0.9, 0.8])
    gri.register_gridfunctions_for_single_rank2("QDD", symmetry="sym01", group="EVOL", f_infinity=[0.05] * 6, wavespeed=[1.0] * 6)
    gri.register_gridfunctions("aa", group="AUXEVOL", sync_gf_in_superB=cfg.sync_aux)
    gri.register_gridfunctions("bb", group="AUXEVOL")
    gri.register_gridfunctions_for_single_rank1("PU", group="AUXEVOL", sync_gf_in_superB=cfg.sync_aux)
    lo = [str(e[0]) for e in EXT[cfg.coord]]
    hi = [str(e[1]) for e in EXT[cfg.coord]]
    inside = " && ".join(f"xx[{i}][j{i}] > ({lo[i]}) && xx[{i}][j{i}] < ({hi[i]})" for i in range(3)).replace("SZ", repr(SZ))
    body = f"""
  const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
  for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2 - NGHOSTS; i2++) for (int i1 = NGHOSTS; i1 < Nxx_plus_2NGHOSTS1 - NGHOSTS; i1++) for (int i0 = NGHOSTS; i0 < Nxx_plus_2NGHOSTS0 - NGHOSTS; i0++) {{
    for (int c = 0; c < 3; c++) {{
      REAL s = 0;
      for (int d0 = -NGHOSTS; d0 <= NGHOSTS; d0++) for (int d1 = -NGHOSTS; d1 <= NGHOSTS; d1++) for (int d2 = -NGHOSTS; d2 <= NGHOSTS; d2++) {{
        const int j0 = i0 + d0, j1 = i1 + d1, j2 = i2 + d2;
        s += (0.3 + 0.1 * d0 - 0.07 * d1 + 0.05 * d2 + 0.01 * d0 * d1 * d2) * in_gfs[IDX4(WU0GF + (c + (d0 != 0)) % 3, j0, j1, j2)] * 0.05;
        if (d0 * d0 + d1 * d1 + d2 * d2 == 1 && ({inside}))
          s += (0.2 + 0.03 * d0 + 0.02 * d1 - 0.04 * d2) * auxevol_gfs[IDX4({'AAGF' if cfg.sync_aux else 'BBGF'}, j0, j1, j2)];
      }}
      for (int b = 0; b < 2; b++) {{
        REAL v = 0;
        for (int d = -1; d <= 1; d += 2)
          v += 0.1 * (1 + 0.2 * d + b) * (in_gfs[IDX4(QDD00GF + (2 * c + b), i0 + d, i1, i2)] - 0.5 * in_gfs[IDX4(QDD00GF + (2 * c + b + 1) % 6, i0, i1 + d, i2)] + 0.3 * in_gfs[IDX4(QDD00GF + (2 * c + b + 2) % 6, i0, i1, i2 + d)]);
        rhs_gfs[IDX4(QDD00GF + 2 * c + b, i0, i1, i2)] = v - 0.4 * in_gfs[IDX4(QDD00GF + 2 * c + b, i0, i1, i2)];
      }}
      rhs_gfs[IDX4(WU0GF + c, i0, i1, i2)] = s - 0.5 * in_gfs[IDX4(WU0GF + c, i0, i1, i2)];
    }}
  }}
  for (int i2 = NGHOSTS; i2 < Nxx_plus_2NGHOSTS2 - NGHOSTS; i2++) for (int i1 = NGHOSTS; i1 < Nxx_plus_2NGHOSTS1 - NGHOSTS; i1++) for (int i0 = NGHOSTS; i0 < Nxx_plus_2NGHOSTS0 - NGHOSTS; i0++)
  {{
    auxevol_gfs[IDX4(AAGF, i0, i1, i2)] = 0.5 * in_gfs[IDX4(UUGF, i0, i1, i2)] + 0.25 * in_gfs[IDX4(WU1GF, i0, i1, i2)];
    for (int c = 0; c < 3; c++) auxevol_gfs[IDX4(PU0GF + c, i0, i1, i2)] = 0.6 * in_gfs[IDX4(WU0GF + c, i0, i1, i2)] + 0.2 * in_gfs[IDX4(QDD00GF + 2 * c, i0, i1, i2)];
  }}
"""
    cfc.register_CFunction(includes=["BHaH_defines.h"], desc="more right-hand sides", cfunc_type="void", name="rhs_more",
                           params="const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *xx[3], REAL *restrict auxevol_gfs, const REAL *restrict in_gfs, REAL *restrict rhs_gfs", body=body)
    progress.register_CFunction_progress_indicator(progress_str=";", compute_ETA=False)
    part1 = """for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
    const params_struct *restrict params = &griddata[grid].params;
    const int Nxx_plus_2NGHOSTS0 = params->Nxx_plus_2NGHOSTS0, Nxx_plus_2NGHOSTS1 = params->Nxx_plus_2NGHOSTS1, Nxx_plus_2NGHOSTS2 = params->Nxx_plus_2NGHOSTS2;
    REAL *y = griddata[grid].gridfuncs.y_n_gfs, *a = griddata[grid].gridfuncs.auxevol_gfs;
    for (int i2 = 0; i2 < Nxx_plus_2NGHOSTS2; i2++) for (int i1 = 0; i1 < Nxx_plus_2NGHOSTS1; i1++) for (int i0 = 0; i0 < Nxx_plus_2NGHOSTS0; i0++) {
      REAL x[3];
      xx_to_Cart(commondata, params, griddata[grid].xx, i0, i1, i2, x);
      const REAL r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2];
      y[IDX4(UUGF, i0, i1, i2)] = exp(-r2) * (1 + 0.3 * x[0] - 0.2 * x[1] + 0.4 * x[2] + 0.1 * x[0] * x[1] * x[2]);
      y[IDX4(VVGF, i0, i1, i2)] = exp(-0.5 * r2) * (0.5 - 0.1 * x[0] + 0.25 * x[1] * x[2]);
      for (int c = 0; c < 3; c++) y[IDX4(WU0GF + c, i0, i1, i2)] = sin(1.0 + c + 0.7 * x[c] - 0.4 * x[(c + 1) % 3] + 0.2 * x[(c + 2) % 3]);
      for (int c = 0; c < 6; c++) y[IDX4(QDD00GF + c, i0, i1, i2)] = cos(0.3 * c + 0.6 * x[c % 3] + 0.35 * x[(c + 1) % 3] - 0.25 * x[(c + 2) % 3]);
      a[IDX4(AAGF, i0, i1, i2)] = cos(x[0] - 0.5 * x[1] + 0.25 * x[2]);
      for (int c = 0; c < 3; c++) a[IDX4(PU0GF + c, i0, i1, i2)] = 0.0;
      a[IDX4(BBGF, i0, i1, i2)] = sin(x[0] + 0.5 * x[1] - 0.75 * x[2]);
    } }"""
    inner = "for (int grid = 0; grid < commondata->NUMGRIDS; grid++) apply_bcs_inner_only(commondata, &griddata[grid].params, &griddata[grid].bcstruct, griddata[grid].gridfuncs.y_n_gfs);"
    outer = "for (int grid = 0; grid < commondata->NUMGRIDS; grid++) apply_bcs_outerextrap_and_inner(commondata, &griddata[grid].params, &griddata[grid].bcstruct, griddata[grid].gridfuncs.y_n_gfs);"
    return part1, inner, outer


def rhs_strings(cfg):
    rhs = "rhs_eval(commondata, params, %s, RK_INPUT_GFS, RK_OUTPUT_GFS);\nrhs_more(commondata, params, griddata[grid].xx, auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);\n" % ("rfmstruct" if cfg.rfm else "xx")
    post = ""
    if cfg.bcs == "radiation":
        rhs += "apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed, gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);\n"
    else:
        post = "apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);\n"
    # a pointwise function of the updated state, as enforcing the determinant constraint is
    more = """{ const int vf_n = params->Nxx_plus_2NGHOSTS0 * params->Nxx_plus_2NGHOSTS1 * params->Nxx_plus_2NGHOSTS2;
  for (int q = 0; q < vf_n; q++) { RK_OUTPUT_GFS[q + vf_n * WU1GF] = 0.999 * RK_OUTPUT_GFS[q + vf_n * WU1GF] + 0.0005 * RK_OUTPUT_GFS[q + vf_n * UUGF]; } }
"""
    return rhs, post, ("" if cfg.bcs == "radiation" else more)


def reset():
    import nrpy.infrastructures.BHaH.griddata_commondata as gc
    bhah.reset()
    for k in ("commondata_struct", "griddata_struct"):
        getattr(gc, "par").glb_extras_dict.pop(k, None) if hasattr(gc, "par") else None


def gen_single(cfg, d):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.BHaH.diagnostics.output_0d_1d_2d_nearest_gridpoint_slices as bout
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    reset()
    p1, inner, outer = common(cfg)
    cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="initial data", cfunc_type="void", name="initial_data",
                           params="commondata_struct *restrict commondata, griddata_struct *restrict griddata", body=p1 + "\n" + inner + "\n" + outer)
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cfg.coord], radiation_BC_fd_order=cfg.fd)
    rhs, post, more = rhs_strings(cfg)
    MoL.register_CFunctions(MoL_method=cfg.method, rhs_string=rhs, post_rhs_string=post + more, enable_rfm_precompute=cfg.rfm, enable_curviBCs=True)
    for axis in "yz":
        bout.register_CFunction_diagnostics_nearest_1d_axis(CoordSystem=cfg.coord, out_quantities_dict=OUTQ, axis=axis, filename_tuple=FN1)
    for plane in ("xy", "yz"):
        bout.register_CFunction_diagnostics_nearest_2d_plane(CoordSystem=cfg.coord, out_quantities_dict=OUTQ, plane=plane, filename_tuple=FN2)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    body = """
  commondata_struct commondata;
  commondata_struct_set_to_default(&commondata);
  griddata_struct *griddata = (griddata_struct *)malloc(sizeof(griddata_struct) * commondata.NUMGRIDS);
  params_struct_set_to_default(&commondata, griddata);
  numerical_grids_and_timestep(&commondata, griddata, true);
  for (int grid = 0; grid < commondata.NUMGRIDS; grid++) { MoL_malloc_y_n_gfs(&commondata, &griddata[grid].params, &griddata[grid].gridfuncs); MoL_malloc_non_y_n_gfs(&commondata, &griddata[grid].params, &griddata[grid].gridfuncs); }
  initial_data(&commondata, griddata);
  const int steps = atoi(argv[1]);
  FILE *f = fopen("state.bin", "wb");
  for (int s = 0; s <= steps; s++) {
    const params_struct *p = &griddata[0].params;
    const int n[3] = {p->Nxx_plus_2NGHOSTS0, p->Nxx_plus_2NGHOSTS1, p->Nxx_plus_2NGHOSTS2};
    const int tot = n[0] * n[1] * n[2];
    const REAL td[2] = {commondata.time, commondata.dt};
    if (s == 0) { const int ng = NGHOSTS, ne = NUM_EVOL_GFS; fwrite(n, sizeof(int), 3, f); fwrite(&ng, sizeof(int), 1, f); fwrite(&ne, sizeof(int), 1, f); for (int i = 0; i < 3; i++) fwrite(griddata[0].xx[i], sizeof(REAL), n[i], f); }
    fwrite(td, sizeof(REAL), 2, f);
    fwrite(griddata[0].gridfuncs.y_n_gfs, sizeof(REAL), (size_t)tot * NUM_EVOL_GFS, f);
    if (s < steps) {
      const int keep = commondata.nn;
      commondata.nn = 0;
      diagnostics_nearest_1d_y_axis(&commondata, &griddata[0].params, griddata[0].xx, &griddata[0].gridfuncs);
      diagnostics_nearest_1d_z_axis(&commondata, &griddata[0].params, griddata[0].xx, &griddata[0].gridfuncs);
      diagnostics_nearest_2d_xy_plane(&commondata, &griddata[0].params, griddata[0].xx, &griddata[0].gridfuncs);
      diagnostics_nearest_2d_yz_plane(&commondata, &griddata[0].params, griddata[0].xx, &griddata[0].gridfuncs);
      commondata.nn = keep;
      MoL_step_forward_in_time(&commondata, griddata);
    }
  }
  fclose(f);
  f = fopen("aux.bin", "wb");
  const bc_struct *bc = &griddata[0].bcstruct;
  const int h[4] = {AAGF, PU0GF, NUM_AUXEVOL_GFS, bc->bc_info.num_inner_boundary_points};
  fwrite(h, sizeof(int), 4, f);
  for (int q = 0; q < h[3]; q++) {
    const innerpt_bc_struct *e = &bc->inner_bc_array[q];
    const int v[6] = {(int)e->dstpt, (int)e->srcpt, e->parity[0], e->parity[1], e->parity[2], e->parity[3]};
    fwrite(v, sizeof(int), 6, f);
  }
  fwrite(griddata[0].gridfuncs.auxevol_gfs, sizeof(REAL), (size_t)griddata[0].params.Nxx_plus_2NGHOSTS0 * griddata[0].params.Nxx_plus_2NGHOSTS1 * griddata[0].params.Nxx_plus_2NGHOSTS2 * NUM_AUXEVOL_GFS, f);
  fclose(f);
  return 0;
"""
    cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="whole grid", cfunc_type="int", name="main", params="int argc, const char *argv[]", body=body)
    bhah.write(d, rfm=cfg.rfm)


DUMP = """
  const int n[3] = {griddata_chare[0].params.Nxx_plus_2NGHOSTS0, griddata_chare[0].params.Nxx_plus_2NGHOSTS1, griddata_chare[0].params.Nxx_plus_2NGHOSTS2};
  const int h[10] = {thisIndex.x, thisIndex.y, thisIndex.z, n[0], n[1], n[2], (int)NGHOSTS, (int)NUM_EVOL_GFS, commondata.nn, (int)NUM_AUXEVOL_GFS};
  fwrite(h, sizeof(int), 10, vf_out);
  fwrite(&commondata.time, sizeof(REAL), 1, vf_out);
  for (int i = 0; i < 3; i++) fwrite(griddata_chare[0].xx[i], sizeof(REAL), n[i], vf_out);
  fwrite(griddata_chare[0].gridfuncs.y_n_gfs, sizeof(REAL), (size_t)n[0] * n[1] * n[2] * NUM_EVOL_GFS, vf_out);
  fwrite(griddata_chare[0].gridfuncs.auxevol_gfs, sizeof(REAL), (size_t)n[0] * n[1] * n[2] * NUM_AUXEVOL_GFS, vf_out);
"""


def gen_superb(cfg, d):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as cmdpar
    import nrpy.infrastructures.BHaH.CodeParameters as cp
    import nrpy.infrastructures.superB.chare_communication_maps as charecomm
    import nrpy.infrastructures.superB.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.superB.diagnostics as dg
    import nrpy.infrastructures.superB.main_chare as mc
    import nrpy.infrastructures.superB.Makefile_helpers as mh
    import nrpy.infrastructures.superB.MoL as MoL
    import nrpy.infrastructures.superB.numerical_grids as sng
    import nrpy.infrastructures.superB.superB.superB_pup as pup
    import nrpy.infrastructures.superB.timestepping_chare as tc
    import nrpy.params as par
    from nrpy.helpers.generic import copy_files
    from nrpy.infrastructures.BHaH import rfm_wrapper_functions
    reset()
    p1, inner, outer = common(cfg)
    cfc.register_CFunction(includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="initial data", cfunc_type="void", name="initial_data",
                           params="commondata_struct *restrict commondata, griddata_struct *restrict griddata, const int initial_data_part",
                           body=f"switch (initial_data_part) {{ case INITIALDATA_BIN_ONE: {{ {p1} break; }}\ncase INITIALDATA_APPLYBCS_INNERONLY: {{ {inner} break; }}\ncase INITIALDATA_BIN_TWO: break;\ncase INITIALDATA_APPLYBCS_OUTEREXTRAPANDINNER: {{ {outer} break; }} }}")
    sng.register_CFunctions(list_of_CoordSystems=[cfg.coord], enable_rfm_precompute=cfg.rfm, enable_CurviBCs=True)
    dg.register_CFunction_diagnostics(list_of_CoordSystems=[cfg.coord], default_diagnostics_out_every=1e-9, enable_BSSN_diagnostics=False,
                                      axis_filename_tuple=FN1, plane_filename_tuple=FN2, out_quantities_dict=OUTQ)
    charecomm.chare_comm_register_C_functions(list_of_CoordSystems=[cfg.coord])
    cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=[cfg.coord], radiation_BC_fd_order=cfg.fd)
    rhs, post, more = rhs_strings(cfg)
    MoL.register_CFunctions(MoL_method=cfg.method, rhs_string=rhs, post_rhs_bcs_str=post, post_rhs_string=more, enable_rfm_precompute=cfg.rfm, enable_curviBCs=True)
    rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs()
    if cfg.ckpt:
        par.register_CodeParameter("REAL", __name__, "checkpoint_every", 1e-9, commondata=True)
    with contextlib.redirect_stdout(io.StringIO()):
        for n in range(3):
            par.adjust_CodeParam_default(f"Nchare{n}", 1)
        cp.write_CodeParameters_h_files(project_dir=d)
        cp.register_CFunctions_params_commondata_struct_set_to_default()
        cmdpar.generate_default_parfile(project_dir=d, project_name="vfproj")
        cmdpar.register_CFunction_cmdline_input_and_parfile_parser(project_name="vfproj", cmdline_inputs=["Nchare0", "Nchare1", "Nchare2", "t_final"])
        pup.register_CFunction_superB_pup_routines(list_of_CoordSystems=[cfg.coord], MoL_method=cfg.method)
        copy_files(package="nrpy.infrastructures.superB.superB", filenames_list=["superB.h", "superB_pup_function_prototypes.h"], project_dir=d, subdirectory="superB")
        mc.output_commondata_object_h_and_main_h_cpp_ci(project_dir=d)
        tc.output_timestepping_h_cpp_ci_register_CFunctions(project_dir=d, MoL_method=cfg.method, outer_bcs_type=cfg.bcs, enable_rfm_precompute=cfg.rfm, enable_psi4_diagnostics=False, enable_charm_checkpointing=cfg.ckpt)
        bd.output_BHaH_defines_h(additional_includes=[os.path.join("superB", "superB.h")], project_dir=d, enable_intrinsics=False, enable_rfm_precompute=cfg.rfm)
        mh.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="vfproj", exec_or_library_name="vfproj", CC="true", addl_CFLAGS=["-fpermissive "])
    charmtr.translate(d, DUMP)


def compile_cpp(d, jobs=4, opt="-O1"):
    srcs = sorted(os.path.join(r, f) for r, _, fl in os.walk(d) for f in fl if f.endswith(".cpp"))
    objs, err, running = [], "", []

    def reap(p):
        nonlocal err
        _, e = p.communicate()
        if p.returncode:
            err += e
    for s in srcs:
        o = s[:-4] + ".o"
        objs.append(o)
        while len(running) >= jobs:
            reap(running.pop(0))
        running.append(subprocess.Popen(["g++", "-std=gnu++17", opt, "-w", "-fpermissive", "-ffp-contract=off", "-I", d, "-c", s, "-o", o], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, preexec_fn=_lift))
    for p in running:
        reap(p)
    if err:
        return err
    p = subprocess.run(["g++", *objs, "-o", os.path.join(d, "vfproj"), "-lm"], capture_output=True, text=True, preexec_fn=_lift)
    return p.stderr if p.returncode else ""


def read_single(path, steps):
    import numpy as np
    with open(path, "rb") as f:
        b = f.read()
    n = struct.unpack_from("5i", b)
    pos = 20
    xx = []
    for i in range(3):
        xx.append(np.frombuffer(b, "f8", n[i], pos))
        pos += 8 * n[i]
    tot = n[0] * n[1] * n[2] * n[4]
    st = []
    for _ in range(steps + 1):
        t, dt = struct.unpack_from("2d", b, pos)
        pos += 16
        st.append((t, dt, np.frombuffer(b, "f8", tot, pos).reshape(n[4], n[2], n[1], n[0])))
        pos += 8 * tot
    return n, xx, st


def read_aux(path, n):
    """synchronised auxiliary variables of the whole grid, with the inner boundary map: (index of aa, index of PU0, map, values)"""
    import numpy as np
    with open(path, "rb") as f:
        b = f.read()
    ia, ip, na, ni = struct.unpack_from("4i", b)
    m = np.frombuffer(b, "i4", 6 * ni, 16).reshape(ni, 6)
    return ia, ip, m, np.frombuffer(b, "f8", na * n[0] * n[1] * n[2], 16 + 24 * ni).reshape(na, -1)


def read_chares(path):
    import numpy as np
    with open(path, "rb") as f:
        b = f.read()
    pos, out = 0, {}
    while pos < len(b):
        h = struct.unpack_from("10i", b, pos)
        pos += 40
        t, = struct.unpack_from("d", b, pos)
        pos += 8
        xx = []
        for i in range(3):
            xx.append(np.frombuffer(b, "f8", h[3 + i], pos))
            pos += 8 * h[3 + i]
        tot = h[3] * h[4] * h[5] * h[7]
        ta = h[3] * h[4] * h[5] * h[9]
        out[h[:3]] = (h, t, xx, np.frombuffer(b, "f8", tot, pos).reshape(h[7], h[5], h[4], h[3]), np.frombuffer(b, "f8", ta, pos + 8 * tot).reshape(h[9], h[5], h[4], h[3]))
        pos += 8 * (tot + ta)
    return out


class Built:
    def __init__(self, cfg, d):
        self.cfg, self.d = cfg, d
        self.err, self.hung = "", False
        s, c = os.path.join(d, "single"), os.path.join(d, "chares")
        os.makedirs(s)
        os.makedirs(c)
        gen_single(cfg, s)
        gen_superb(cfg, c)
        e = bhah.compile_(s, san=False, opt="-O1")
        if e:
            self.err = "single-grid program: " + e
            return
        e = compile_cpp(c)
        if e:
            self.err = "chare program: " + e
            return
        rc, out, er = bhah.run(s, [cfg.steps])
        if rc:
            self.err = f"single-grid program: exit {rc} {er[-300:]}"
            return
        self.n, self.xx, self.st = read_single(os.path.join(s, "state.bin"), cfg.steps)
        self.aux = read_aux(os.path.join(s, "aux.bin"), self.n)

    def run(self, nch, seed, mode):
        c = os.path.join(self.d, "chares")
        w = tempfile.mkdtemp(dir=self.d)
        shutil.copy(os.path.join(c, "vfproj.par"), w)
        tf = (self.cfg.steps - 0.5) * self.st[0][1]
        env = dict(os.environ, VF_SEED=str(seed), VF_MODE=str(mode), MALLOC_PERTURB_="85", OMP_NUM_THREADS="1", VF_COUNTS=os.path.join(self.d, "counts%d%d%d" % tuple(nch)))
        try:
            p = subprocess.run([os.path.join(c, "vfproj"), *map(str, nch), repr(tf)], capture_output=True, text=True, errors="replace", timeout=60, cwd=w, env=env, preexec_fn=_lift)
            rc, out, err = p.returncode, p.stdout, p.stderr
        except subprocess.TimeoutExpired:
            rc, out, err = -999, "", "no end within 60 s"
            self.hung = True
        return w, rc, out, err

    def verdict(self, nch, seed, mode):
        """(failures of the run and the evolved state, failures of the output files); '' means that the contract holds"""
        import numpy as np
        w, rc, out, err = self.run(nch, seed, mode)
        cfg = self.cfg
        try:
            if rc:
                e = f"exit status {rc}: " + " ".join(x for x in (out + err).splitlines() if "VFERR" in x or "VFDONE" in x)[-400:] + " " + err[-200:]
                return e, e
            done = [x for x in out.splitlines() if x.startswith("VFDONE")]
            if not done or "exit=1 stuck=0" not in done[0]:
                return f"the run does not end: {done}", "the run does not end"
            if cfg.ckpt and "checkpoints=0" in done[0]:
                return "no checkpoint was taken", ""
            ch = read_chares(os.path.join(w, "state.bin"))
            T, _, G = self.st[-1]
            bad = ""
            want = {(a, b, c) for a in range(nch[0]) for b in range(nch[1]) for c in range(nch[2])}
            if set(ch) != want:
                return f"chares {sorted(ch)}", ""
            g = self.n[3]
            for k, (h, t, xx, a, _) in sorted(ch.items()):
                n = [cfg.Nxx[i] // nch[i] for i in range(3)]
                if list(h[3:6]) != [m + 2 * g for m in n] or h[6] != g or h[7] != self.n[4] or h[8] != cfg.steps:
                    return f"chare {k}: extents, ghosts, variables, steps {h[3:9]}", ""
                if t != T:
                    return f"chare {k}: time {t!r} and not {T!r}", ""
                for i in range(3):
                    x = self.xx[i][k[i] * n[i]:k[i] * n[i] + n[i] + 2 * g]
                    if not np.allclose(xx[i], x, rtol=0, atol=1e-13):
                        return f"chare {k}: coordinates in direction {i}", ""
                sl = tuple(slice(k[i] * n[i], k[i] * n[i] + n[i] + 2 * g) for i in (2, 1, 0))
                gg = G[(slice(None),) + sl]
                d = np.where(np.isnan(a), np.inf, np.abs(a - gg))
                if not d.max() <= 1e-11:
                    q = np.unravel_index(np.argmax(d), d.shape)
                    bad = f"chare {k}: evolved variable {q[0]} at local point {tuple(int(z) for z in q[:0:-1])} is {float(a[q])!r}, the whole grid has {float(gg[q])!r}; {int((d > 1e-11).sum())} of {d.size} values differ"
                    break
            return bad or self.auxcheck(ch, nch), self.files(w)
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def racy(self, nch):
        from collections import defaultdict
        src = defaultdict(set)
        try:
            with open(os.path.join(self.d, "counts%d%d%d" % tuple(nch))) as f:
                for x in f:
                    en, a, b, _ = x.split()
                    if en == "receiv_nonlocalinnerbc_data":
                        src[b].add(a)
        except OSError:
            return False
        return any(len(v) > 1 for v in src.values())

    def auxcheck(self, ch, nch):
        """Auxiliary variables that are synchronised: interior and ghost points shared with neighbours hold the neighbours' values,
        and ghost points whose source another chare owns hold its value times the parity of the variable (the others are the user's)."""
        import numpy as np
        cfg = self.cfg
        if not cfg.sync_aux:
            return ""
        ia, ip, m, A = self.aux
        N, g = self.n[:3], self.n[3]
        n = [cfg.Nxx[i] // nch[i] for i in range(3)]
        gfs = [(ia, 2)] + [(ip + c, 3 + c) for c in range(3)]

        def xyz(q):
            return [q % N[0], q // N[0] % N[1], q // (N[0] * N[1])]
        dst, src = xyz(m[:, 0]), xyz(m[:, 1])
        for k, (_, _, _, _, a) in sorted(ch.items()):
            # interior of the whole grid, as far as this chare holds it
            lo = [k[i] * n[i] for i in range(3)]
            cut = tuple(slice(max(g - lo[i], 0), min(n[i] + 2 * g, N[i] - g - lo[i])) for i in (2, 1, 0))
            G = A.reshape(-1, N[2], N[1], N[0])[(slice(None),) + tuple(slice(lo[i], lo[i] + n[i] + 2 * g) for i in (2, 1, 0))]
            own = np.ones(len(m), bool)  # ghost points of this chare's own part of the boundary
            far = np.zeros(len(m), bool)  # whose source another chare owns
            for i in range(3):
                j = dst[i] - lo[i]
                own &= (j >= (0 if k[i] == 0 else g)) & (j < n[i] + (2 * g if k[i] == nch[i] - 1 else g))
                far |= (src[i] - g) // n[i] != k[i]
            w = np.nonzero(own & far)[0]
            for v, p in gfs:
                d = np.abs(a[v][cut] - G[v][cut])
                if not d.max() <= 1e-11:
                    return f"chare {k}: auxiliary variable {v}: {int((~(d <= 1e-11)).sum())} of {d.size} interior values differ from the whole grid"
                got = a[v][tuple(dst[i][w] - lo[i] for i in (2, 1, 0))]
                want = m[w, p] * A[v][m[w, 1]]
                d = np.abs(got - want)
                if len(w) and not d.max() <= 1e-11:
                    q = int(np.argmax(np.where(np.isnan(d), np.inf, d)))
                    return f"chare {k}: auxiliary variable {v} at ghost point {[int(dst[i][w[q]]) for i in range(3)]} of the whole grid is {float(got[q])!r}; parity times the value at the source is {float(want[q])!r}"
        return ""

    def files(self, w):
        def rows(p):
            with open(p, errors="replace") as f:
                return sorted(tuple(float(q) for q in x.split()) for x in f.read().split("\n") if x.strip() and not x.startswith("#"))
        s = os.path.join(self.d, "single")
        a, b = [{x for x in os.listdir(q) if re.match(r"out[12]d-", x)} for q in (s, w)]
        if a != b:
            return f"files {sorted(a ^ b)[:4]}"
        for x in sorted(a):
            try:
                ra, rb = rows(os.path.join(s, x)), rows(os.path.join(w, x))
            except ValueError as e:
                return f"{x}: {e}"
            if len(ra) != len(rb):
                return f"{x}: {len(rb)} rows and not {len(ra)}"
            for p, q in zip(ra, rb):
                if len(p) != len(q) or any(abs(u - v) > 1e-12 * max(1, abs(u)) for u, v in zip(p, q)):
                    return f"{x}: row {q} and not {p}"
        return ""


OVERTAKEN = {"Spherical (12, 8, 8) RK4 radiation": [(2, 2, 2)], "SinhSpherical (8, 8, 12) RK2 Heun extrapolation checkpoint": [(2, 2, 2), (1, 2, 4)]}
CALLS = [("superB.timestepping_chare", "output_timestepping_h_cpp_ci_register_CFunctions output_timestepping_h output_timestepping_cpp output_timestepping_ci generate_mol_step_forward_code generate_send_nonlocalinnerbc_data_code generate_process_nonlocalinnerbc_code generate_send_neighbor_data_code generate_process_ghost_code generate_diagnostics_code generate_PUP_code generate_switch_statement_for_gf_types register_CFunction_timestepping_malloc register_CFunction_timestepping_free_memory"),
         ("superB.main_chare", "output_commondata_object_h_and_main_h_cpp_ci"), ("superB.chare_communication_maps", "chare_comm_register_C_functions"), ("superB.CurviBoundaryConditions", "CurviBoundaryConditions_register_C_functions"),
         ("superB.numerical_grids", "register_CFunctions"), ("superB.MoL", "register_CFunctions"), ("superB.diagnostics", "register_CFunction_diagnostics"),
         ("superB.output_0d_1d_2d_nearest_gridpoint_slices", "register_CFunction_diagnostics_nearest_1d_axis register_CFunction_diagnostics_nearest_2d_plane register_CFunction_diagnostics_set_up_nearest_1d_axis register_CFunction_diagnostics_set_up_nearest_2d_plane"), ("superB.superB.superB_pup", "register_CFunction_superB_pup_routines")]


def u_cfg(ctx, cfg, nchs):
    for m, fs in CALLS:
        for f in fs.split():
            ctx.under("nrpy.infrastructures." + m + "." + f)
    d = tempfile.mkdtemp(prefix="vf26.")
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            b = Built(cfg, d)
        ctx.check(f"{cfg.tag}: both programs compile and the whole-grid one runs", not b.err, "g++", cex=b.err[-1500:])
        if b.err:
            return
        seeds = range(1, 7) if thorough() else (1, 2)
        for nch in nchs:
            if b.hung:  # the violation is on record; do not wait for the other decompositions
                break
            w = b.run(nch, 1, 0)[0]  # finds who sends how many messages to whom; orders that mix rounds are judged below
            shutil.rmtree(w, ignore_errors=True)
            r = [(2, s) + b.verdict(nch, s, 2) for s in seeds[:1 if b.hung else None]]
            for j, what in ((2, "state"), (3, "output files")):
                bad = [q for q in r if q[j]]
                ctx.check(f"{cfg.tag}: {nch[0]}x{nch[1]}x{nch[2]} chares, {what}", not bad, "schedules of the generated program", bounded=True,
                          cex=bad and f"delivery order mode {bad[0][0]} seed {bad[0][1]}: {bad[0][j]}" or "")
            # Orders in which the rounds of one exchange overtake each other. Where a chare takes inner boundary values from two others,
            # the recorded defect makes the outcome depend on the order alone: those decompositions are judged only where it is recorded.
            if b.racy(nch) and nch not in OVERTAKEN.get(cfg.tag, ()):
                continue
            bad = [q for q in [(1, s) + b.verdict(nch, s, 1) for s in seeds] if q[2]]
            ctx.check(f"{cfg.tag}: {nch[0]}x{nch[1]}x{nch[2]} chares, exchange rounds overtaking", not bad, "schedules of the generated program", bounded=True,
                      cex=bad and f"delivery order mode 1 seed {bad[0][1]}: {bad[0][2]}" or "")
    finally:
        shutil.rmtree(d, ignore_errors=True)


def units():
    q = [(Cfg("Spherical", (12, 8, 8), "RK4", "radiation"), [(1, 1, 1), (2, 2, 2), (3, 1, 2), (4, 2, 1)]),
         (Cfg("Cartesian", (12, 10, 8), "RK3", "extrapolation", sync_aux=False), [(2, 2, 2), (3, 1, 2), (1, 2, 1)]),
         (Cfg("Cylindrical", (8, 8, 12), "SSPRK3", "radiation"), [(2, 2, 2), (1, 1, 4), (2, 2, 1)]),
         (Cfg("SinhSpherical", (8, 8, 12), "RK2 Heun", "extrapolation", ckpt=True), [(2, 2, 2), (1, 2, 4), (2, 1, 1)]),
         (Cfg("Cartesian", (8, 8, 8), "Euler", "radiation"), [(2, 2, 1)]),
         (Cfg("Cylindrical", (8, 8, 8), "DP5", "extrapolation", steps=2), [(2, 2, 2)]),
         (Cfg("Spherical", (8, 8, 8), "RK3 Ralston", "radiation", steps=2, ckpt=True), [(2, 1, 2)])]
    return [Unit(c.tag, u_cfg, (c, n), timeout=700, weight=60) for c, n in q]
