"""C22  Generated BHaH programs: checkpoint and resume, output times, memory discipline and convergence of the complete program."""
import contextlib
import io
import os
import re
import shutil
import struct
import tempfile

from vf import bhah
from vf.core import Unit

LEVEL = "other"
EXPLANATION = ("Whole programs are assembled by the real generators, compiled and run; state hashes at every step give the histories on which the contracts of write_checkpoint, read_checkpoint, griddata_free and main are evaluated (bounded: enumerated "
               "coordinate systems, time steppers and crash points).")
PREIMPORT = ["nrpy.infrastructures.BHaH.checkpointing", "nrpy.infrastructures.BHaH.main_c", "nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions",
             "nrpy.infrastructures.BHaH.cmdline_input_and_parfiles", "nrpy.infrastructures.BHaH.diagnostics.progress_indicator"]
ASSUMPTIONS = ["one OpenMP thread for the bitwise comparisons", "the resumed program is the same executable, run with the same parameter file", "the file system keeps what was written"]
BOUNDS = ["programs: scalar wave in the listed coordinate systems, sizes and Runge-Kutta methods", "interruptions at every step, and in the middle of writing a checkpoint at every write call"]
TRUSTED = ["gcc and its address/undefined-behaviour sanitizers"]

# (name, [coordinate systems], Nxx per system, MoL method, rfm_precompute, outer bc, checkpoint interval in steps, grid sizes)
CFG = {
    "Spherical RK4": dict(cs=["Spherical"], N={"Spherical": [14, 4, 6]}, mol="RK4", pre=False, bc="radiation", every=2.6),
    "Cartesian Euler": dict(cs=["Cartesian"], N={"Cartesian": [6, 8, 10]}, mol="Euler", pre=True, bc="extrapolation", every=1.0),
    "SinhCylindrical SSPRK3": dict(cs=["SinhCylindrical"], N={"SinhCylindrical": [8, 4, 10]}, mol="SSPRK3", pre=True, bc="radiation", every=3.4),
    "two grids DP5": dict(cs=["Spherical", "SinhCartesian"], N={"Spherical": [12, 4, 4], "SinhCartesian": [6, 8, 4]}, mol="DP5", pre=False, bc="radiation", every=2.0),
    "horizon data RK2": dict(cs=["Spherical"], N={"Spherical": [8, 4, 4]}, mol="RK2 Heun", pre=True, bc="extrapolation", every=2.0, bah=True),
    "SinhSymTP RK8": dict(cs=["SinhSymTP"], N={"SinhSymTP": [12, 4, 6]}, mol="DP8", pre=True, bc="radiation", every=4.4),
}

TRACK = r"""
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
void *vf_malloc(size_t n, const char *f, int l);
void *vf_calloc(size_t n, size_t m, const char *f, int l);
void vf_free(void *p);
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f);
#define malloc(n) vf_malloc(n, __FILE__, __LINE__)
#define calloc(n, m) vf_calloc(n, m, __FILE__, __LINE__)
#define free(p) vf_free(p)
#define fwrite(p, s, n, f) vf_fwrite(p, s, n, f)
"""
TRACKC = r"""
#include <stdlib.h>
#include <stdio.h>
#include <string.h>
#include <unistd.h>
static struct { void *p; const char *f; int l; size_t n; } tab[4096];
static int nt, bad;
static void *keep(void *p, size_t n, const char *f, int l) { if (p) { tab[nt].p = p; tab[nt].f = f; tab[nt].l = l; tab[nt++].n = n; } return p; }
void *vf_malloc(size_t n, const char *f, int l) { void *p = (malloc)(n); if (p) memset(p, 0xff, n); return keep(p, n, f, l); }
void *vf_calloc(size_t n, size_t m, const char *f, int l) { return keep((calloc)(n, m), n * m, f, l); }
void vf_free(void *p) {
  if (!p) return;
  for (int i = nt - 1; i >= 0; i--) if (tab[i].p == p) { tab[i] = tab[--nt]; (free)(p); return; }
  bad++; fprintf(stdout, "BADFREE\n"); fflush(stdout);
}
static int nw;
size_t vf_fwrite(const void *p, size_t s, size_t n, FILE *f) {
  if (getenv("VF_CRASHWRITE") && nw++ == atoi(getenv("VF_CRASHWRITE"))) { (fwrite)(p, s, n / 2, f); fflush(f); _exit(77); }
  return (fwrite)(p, s, n, f);
}
void vf_report(void) { for (int i = 0; i < nt; i++) { const char *b = strrchr(tab[i].f, '/'); printf("LIVE %zu %s:%d\n", tab[i].n, b ? b + 1 : tab[i].f, tab[i].l); } printf("END %d %d\n", nt, bad); fflush(stdout); }
__attribute__((constructor)) static void vf_init(void) { if (!getenv("VF_NOREPORT")) atexit(vf_report); }
"""
DUMP = r"""
  unsigned long long h = 1469598103934665603ULL, hp = h;
  for (int grid = 0; grid < commondata->NUMGRIDS; grid++) {
    const params_struct *restrict p = &griddata[grid].params;
    const unsigned char *q = (const unsigned char *)griddata[grid].gridfuncs.y_n_gfs;
    const size_t n = sizeof(REAL) * NUM_EVOL_GFS * (size_t)(p->Nxx_plus_2NGHOSTS0 * p->Nxx_plus_2NGHOSTS1 * p->Nxx_plus_2NGHOSTS2);
    for (size_t i = 0; i < n; i++) { h ^= q[i]; h *= 1099511628211ULL; }
    q = (const unsigned char *)p;
    for (size_t i = 0; i < sizeof *p; i++) { hp ^= q[i]; hp *= 1099511628211ULL; }
  }
@BAH@
  unsigned long long t, dt, t0, dtn = 0; memcpy(&t, &commondata->time, 8); memcpy(&dt, &commondata->dt, 8); memcpy(&t0, &commondata->t_0, 8);
  FILE *f = fopen(vf_cp(commondata), "r"); long sz = -1; if (f) { fseek(f, 0, SEEK_END); sz = ftell(f); fclose(f); }
  printf("STATE %s %d %016llx %016llx %016llx %016llx %d %ld\n", tag, commondata->nn, t, dt, h, hp, commondata->nn_0, sz); fflush(stdout);
  if (!strcmp(tag, "post") && getenv("VF_UNLINK")) unlink(vf_cp(commondata));
  if (!strcmp(tag, "post") && getenv("VF_STOP") && atoi(getenv("VF_STOP")) == commondata->nn) _exit(78);
"""
BAHHASH = r"""
  for (int i = 0; i < commondata->bah_num_horizons; i++) {
    const bhahaha_params_and_data_struct *b = &commondata->bhahaha_params_and_data[i];
    REAL s[3] = {b->a, b->z, b->k};
    for (size_t k = 0; k < sizeof s; k++) { h ^= ((unsigned char *)s)[k]; h *= 1099511628211ULL; }
    const REAL *m[3] = {b->prev_horizon_m1, b->prev_horizon_m2, b->prev_horizon_m3};
    for (int j = 0; j < 3; j++) for (size_t k = 0; k < sizeof(REAL) * 64 * 32; k++) { h ^= ((const unsigned char *)m[j])[k]; h *= 1099511628211ULL; }
  }
"""
BAHINIT = r"""
for (int i = 0; i < commondata.bah_num_horizons; i++) {
  bhahaha_params_and_data_struct *b = &commondata.bhahaha_params_and_data[i];
  if (!commondata.vf_ready) {
    b->prev_horizon_m1 = malloc(sizeof(REAL) * 64 * 32);
    b->prev_horizon_m2 = malloc(sizeof(REAL) * 64 * 32);
    b->prev_horizon_m3 = malloc(sizeof(REAL) * 64 * 32);
    b->a = 1.5 + i; b->z = 2.5 + i; b->k = 3 + i;
    for (int k = 0; k < 64 * 32; k++) { b->prev_horizon_m1[k] = 1e4 * i + k; b->prev_horizon_m2[k] = 2e4 * i + k + 0.25; b->prev_horizon_m3[k] = 3e4 * i + k + 0.5; }
  }
}
commondata.vf_ready = 1;
"""
BAHSTEP = "for (int i = 0; i < commondata.bah_num_horizons; i++) { commondata.bhahaha_params_and_data[i].a += 1 + i; commondata.bhahaha_params_and_data[i].k += 2; for (int k = 0; k < 64 * 32; k++) { commondata.bhahaha_params_and_data[i].prev_horizon_m1[k] *= 1.25; commondata.bhahaha_params_and_data[i].prev_horizon_m3[k] += k; } }\n"


def build(ctx, d, cfg, fname=None):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.infrastructures.BHaH.checkpointing as chk
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as ci
    import nrpy.infrastructures.BHaH.CodeParameters as cp
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.infrastructures.BHaH.diagnostics.progress_indicator as pi
    import nrpy.infrastructures.BHaH.griddata_commondata as gc
    import nrpy.infrastructures.BHaH.main_c as mc
    import nrpy.infrastructures.BHaH.Makefile_helpers as mh
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    import nrpy.infrastructures.BHaH.rfm_precompute as rp
    import nrpy.infrastructures.BHaH.rfm_wrapper_functions as rw
    import nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library as wl
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xt
    import nrpy.params as par
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    bhah.reset()
    par.set_parval_from_str("fd_order", cfg.get("fd", 2))
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", cfg["cs"][0] if len(cfg["cs"]) == 1 else "All")
    par.adjust_CodeParam_default("NUMGRIDS", len(cfg["cs"]))
    bah = cfg.get("bah", False)
    if bah:
        par.register_CodeParameter("int", "vf", "bah_num_horizons", 2, commondata=True, add_to_parfile=False)
        par.register_CodeParameter("int", "vf", "vf_ready", 0, commondata=True, add_to_parfile=False)
        bd.register_BHaH_defines("after_general", "typedef struct { REAL a; REAL *prev_horizon_m1; int k; REAL *prev_horizon_m2, *prev_horizon_m3; REAL z; } bhahaha_params_and_data_struct;")
        gc.register_griddata_commondata("vf", "bhahaha_params_and_data_struct bhahaha_params_and_data[3]", is_commondata=True)
    for f in ("read_checkpoint", "write_checkpoint"):
        ctx.under("nrpy.infrastructures.BHaH.checkpointing.register_CFunction_" + f)
    ctx.under("nrpy.infrastructures.BHaH.main_c.register_CFunction_main_c")
    ctx.under("nrpy.infrastructures.BHaH.griddata_commondata.register_CFunction_griddata_free")
    ctx.under("nrpy.infrastructures.BHaH.wave_equation.wave_equation_C_codegen_library.register_CFunction_initial_data")
    fn = fname or ("checkpoint-conv_factor%.2f.dat", "commondata->convergence_factor")

    def go():
        wl.register_CFunction_exact_solution_single_Cartesian_point(WaveType=cfg.get("wave", "SphericalGaussian"), default_sigma=3.0)
        wl.register_CFunction_initial_data(enable_checkpointing=True, OMP_collapse=1)
        ng.register_CFunctions(list_of_CoordSystems=cfg["cs"], list_of_grid_physical_sizes=cfg.get("size", [6.0, 5.0][:len(cfg["cs"])]), Nxx_dict=cfg["N"], enable_rfm_precompute=cfg["pre"], enable_CurviBCs=True)
        for c in cfg["cs"]:
            xt.register_CFunction_xx_to_Cart(CoordSystem=c)
            wl.register_CFunction_rhs_eval(CoordSystem=c, enable_rfm_precompute=cfg["pre"], enable_simd=False, enable_KreissOliger_dissipation=False, OMP_collapse=1)
        if cfg["pre"]:
            rp.register_CFunctions_rfm_precompute(list_of_CoordSystems=cfg["cs"])
        if cfg.get("diag"):
            wl.register_CFunction_diagnostics(list_of_CoordSystems=cfg["cs"], default_diagnostics_out_every=cfg["diag"])
        else:
            cfc.register_CFunction(name="diagnostics", desc="d", cfunc_type="void", params="commondata_struct *restrict commondata, griddata_struct *restrict griddata", includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], body="progress_indicator(commondata, griddata);")
        cbc.CurviBoundaryConditions_register_C_functions(list_of_CoordSystems=cfg["cs"], radiation_BC_fd_order=2)
        a = "rfmstruct" if cfg["pre"] else "xx"
        MoL.register_CFunctions(MoL_method=cfg["mol"], rhs_string=f"""rhs_eval(commondata, params, {a}, RK_INPUT_GFS, RK_OUTPUT_GFS);
if (strncmp(commondata->outer_bc_type, "radiation", 50) == 0)
  apply_bcs_outerradiation_and_inner(commondata, params, bcstruct, griddata[grid].xx, gridfunctions_wavespeed,gridfunctions_f_infinity, RK_INPUT_GFS, RK_OUTPUT_GFS);""",
                                post_rhs_string="""if (strncmp(commondata->outer_bc_type, "extrapolation", 50) == 0)
  apply_bcs_outerextrap_and_inner(commondata, params, bcstruct, RK_OUTPUT_GFS);""", enable_rfm_precompute=cfg["pre"], enable_curviBCs=True)
        chk.register_CFunctions(filename_tuple=fn, default_checkpoint_every=50.0, enable_bhahaha=bah)
        pi.register_CFunction_progress_indicator()
        rw.register_CFunctions_CoordSystem_wrapper_funcs()
        cfc.register_CFunction(name="vf_state", desc="d", cfunc_type="void", params="const char *tag, const commondata_struct *restrict commondata, griddata_struct *restrict griddata", includes=["BHaH_defines.h", "<unistd.h>", "<string.h>"],
                               prefunc=f'static const char *vf_cp(const commondata_struct *restrict commondata) {{ static char b[256]; snprintf(b, 256, "{fn[0]}", {fn[1]}); return b; }}', body=DUMP.replace("@BAH@", BAHHASH if bah else ""))
        cp.write_CodeParameters_h_files(project_dir=d)
        cp.register_CFunctions_params_commondata_struct_set_to_default()
        ci.generate_default_parfile(project_dir=d, project_name="vfproj")
        ci.register_CFunction_cmdline_input_and_parfile_parser(project_name="vfproj", cmdline_inputs=["convergence_factor"])
        bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=cfg["pre"])
        mc.register_CFunction_main_c(MoL_method=cfg["mol"], initial_data_desc="wave", pre_MoL_step_forward_in_time='vf_state("pre", &commondata, griddata);\nwrite_checkpoint(&commondata, griddata);\nvf_state("post", &commondata, griddata);\n', post_MoL_step_forward_in_time=(BAHSTEP if bah else "") + 'vf_state("end", &commondata, griddata);\n', post_non_y_n_auxevol_mallocs=BAHINIT if bah else "")
        gc.register_CFunction_griddata_free(enable_rfm_precompute=cfg["pre"], enable_CurviBCs=True, enable_bhahaha=bah)
        mh.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="vfproj", exec_or_library_name="vfproj")
    with contextlib.redirect_stdout(io.StringIO()):
        ctx.call("program generation", go)
    with open(os.path.join(d, "vf_track.h"), "w") as f:
        f.write(TRACK)
    with open(os.path.join(d, "vf_track.c"), "w") as f:
        f.write(TRACKC)
    for r, _, fl in os.walk(d):
        for f in fl:
            if f.endswith(".c") and f != "vf_track.c":
                p = os.path.join(r, f)
                s = open(p, encoding="utf-8").read()
                with open(p, "w", encoding="utf-8") as o:
                    o.write(f'#include "{d}/vf_track.h"\n#line 1\n' + s)
    err = bhah.compile_(d)
    ctx.check("the generated program compiles", not err, "gcc", cex=err[:1500], bounded=True)
    return not err


class Run:
    def __init__(self, d, w, par, env=None, args=()):
        old = {k: os.environ.get(k) for k in (env or {})}
        os.environ.update(env or {})
        try:
            self.rc, self.out, self.err = bhah.run(d, args, cwd=w, timeout=300)
        finally:
            for k, v in old.items():
                if v is None:
                    os.environ.pop(k, None)
                else:
                    os.environ[k] = v
        self.st = [x.split()[1:] for x in self.out.split("\n") if x.startswith("STATE")]
        self.live = [x for x in self.out.split("\n") if x.startswith("LIVE")]
        self.bad = "BADFREE" in self.out
        self.ended = re.search(r"^END (\d+) (\d+)", self.out, re.M)

    def seq(self, tag):
        """[(nn, time, dt, state hash, params hash)]"""
        return [(int(s[1]), s[2], s[3], s[4], s[5]) for s in self.st if s[0] == tag]


def dbl(h):
    return struct.unpack("d", struct.pack("Q", int(h, 16)))[0]


def work(d, name, text):
    w = os.path.join(d, name)
    os.makedirs(w)
    with open(os.path.join(w, "vfproj.par"), "w") as f:
        f.write(text)
    return w


def u_program(ctx, name):
    cfg = CFG[name]
    d = tempfile.mkdtemp(prefix="c22.")
    try:
        if not build(ctx, d, cfg):
            return
        bc = f'outer_bc_type = "{cfg["bc"]}"\n'
        w = work(d, "probe", f"t_final = 1e-9\ncheckpoint_every = 1e9\n{bc}")
        r = Run(d, w, None, {"VF_UNLINK": "1"})
        ctx.check("the program runs one step", r.rc == 0 and len(r.seq("end")) == 1, "native-asan", cex=f"status {r.rc}\n{r.err[-1500:]}{r.out[-300:]}", bounded=True)
        if not r.st:
            return
        dt = dbl(r.seq("pre")[0][2])
        T, ev = 9.7 * dt, cfg["every"] * dt
        par = f"t_final = {T!r}\ncheckpoint_every = {ev!r}\n{bc}"
        A = Run(d, work(d, "A", par), None, {"VF_UNLINK": "1"})
        ctx.check("uninterrupted run: no memory error", A.rc == 0, "native-asan", cex=f"status {A.rc}\n{A.err[-1500:]}", bounded=True)
        pre, post, end = A.seq("pre"), A.seq("post"), A.seq("end")
        ctx.check("steps run from 0 until t_final is reached, time advancing by dt", [p[0] for p in pre] == list(range(10)) and all(abs(dbl(p[1]) - p[0] * dt) < 1e-9 * dt * (1 + p[0]) for p in pre) and [e[0] for e in end] == list(range(1, 11)), "native-asan", cex=str([(p[0], dbl(p[1]) / dt) for p in pre]), bounded=True)
        ctx.check("write_checkpoint leaves state, parameters and time unchanged", pre == post and len(pre) == 10, "native-asan", cex=str([a for a, b in zip(pre, post) if a != b][:2]), bounded=True)
        ctx.check("every step changes the state", len({p[3] for p in pre}) == len(pre), "native-asan", cex=str(pre), bounded=True)
        # a checkpoint is written at exactly the steps nearest to multiples of the interval
        got = [int(s[1]) for s in A.st if s[0] == "post" and int(s[7]) > 0]
        want = [n for n in range(10) if abs(round(n * dt / ev) * ev - n * dt) < 0.5 * dt * (1 - 1e-6)]
        ctx.check("checkpoints are written at the steps nearest to multiples of checkpoint_every", got == want, "native-asan", cex=f"steps {got}, contract {want}", bounded=True)
        ctx.check("every allocation is freed exactly once by the end", A.ended is not None and not A.live and not A.bad, "allocation-history", cex="\n".join(A.live[:8]) or A.out[-300:], bounded=True)
        # interruption after every step, then resume
        bad, leak, n = None, None, 0
        for stop in range(10):
            wk = work(d, f"s{stop}", par)
            B = Run(d, wk, None, {"VF_STOP": str(stop), "VF_NOREPORT": "1"})
            last = max(x for x in want if x <= stop)
            C = Run(d, wk, None)
            n += 1
            cp_, cn = C.seq("pre"), [x for x in pre if x[0] >= last]
            nn0 = {int(s[6]) for s in C.st}
            if B.rc != 78 or C.rc != 0 or cp_ != cn or C.seq("end") != [x for x in end if x[0] > last] or nn0 != {last}:
                bad = bad or f"interrupted after step {stop}, last checkpoint at step {last}: status {B.rc}/{C.rc}\nresumed: {cp_[:2]} (n_0 {nn0})\nuninterrupted: {cn[:2]}\n{C.err[-600:]}"
            elif C.live or C.bad or C.ended is None:
                leak = leak or f"interrupted after step {stop}: " + ("double free " if C.bad else "") + "\n".join(C.live[:6])
        ctx.check("a run interrupted after any step and resumed passes through the same states as an uninterrupted one", bad is None and n == 10, "native-asan", cex=bad, bounded=True)
        ctx.check("resumed runs free every allocation exactly once", leak is None, "allocation-history", cex=leak, bounded=True)
        # interruption while a checkpoint is being written
        nwr = 0
        bad = None
        if len(want) > 1:
            wk0 = work(d, "cw", par)
            Run(d, wk0, None, {"VF_STOP": str(want[1] - 1), "VF_NOREPORT": "1"})
            for k in range(40):
                wk = os.path.join(d, f"cw{k}")
                shutil.copytree(wk0, wk)
                B = Run(d, wk, None, {"VF_CRASHWRITE": str(k), "VF_NOREPORT": "1", "VF_STOP": str(want[1])})
                if B.rc != 77:
                    break
                nwr += 1
                at = int(B.st[-1][1])
                C = Run(d, wk, None, {"VF_NOREPORT": "1"})
                ok = C.rc == 0 and C.seq("pre") and C.seq("pre")[0][0] <= at and C.seq("pre") == [x for x in pre if x[0] >= C.seq("pre")[0][0]]
                if not ok:
                    bad = bad or f"killed in write call {k} of the checkpoint at step {at}; the resumed run has status {C.rc} and starts from {C.seq('pre')[:1]}, the uninterrupted run had {pre[:2]}...\n{C.err[-500:]}"
            ctx.check("a run killed while it writes a checkpoint resumes from a state of the uninterrupted run", bad is None and nwr >= 4, "native-asan", cex=bad or f"{nwr} write calls", bounded=True)
        # no checkpoint file: initial data
        C = Run(d, work(d, "fresh", par.replace(repr(ev), "1e9")), None)
        ctx.check("without a checkpoint file the run starts from the initial data", C.rc == 0 and C.seq("pre") == pre, "native-asan", cex=f"{C.rc} {C.seq('pre')[:1]} {pre[:1]}", bounded=True)
        # different convergence factor does not pick up the checkpoint
        wk = work(d, "cf", par)
        Run(d, wk, None, {"VF_STOP": "4", "VF_NOREPORT": "1"}, args=())
        C = Run(d, wk, None, {"VF_STOP": "0", "VF_NOREPORT": "1"}, args=("2.0",))
        ctx.check("a run with another convergence factor does not read that checkpoint", C.seq("pre") and C.seq("pre")[0][0] == 0, "native-asan", cex=str(C.seq("pre")[:1]) + C.err[-300:], bounded=True)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def units():
    return [Unit(f"complete program, {n}", u_program, (n,), timeout=800, weight=9) for n in CFG]
