"""Assemble a small BlackHoles@Home project from the functions registered in this process and run it in a scratch directory."""
import contextlib
import io
import os
import subprocess
import tempfile

from vf.native import SAN, _lift


def reset(keep_params=False):
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.helpers.parallel_codegen  # noqa: F401  registers its parameter
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.set_parval_from_str("parallel_codegen_enable", False)
    cfc.CFunction_dict.clear()
    gri.glb_gridfcs_dict.clear()
    par.glb_extras_dict.clear()


def write(d, headers=True, rfm=False, defines_kw=None, set_default=True):
    """write headers, sources and prototypes with the real generators"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.infrastructures.BHaH.CodeParameters as cp
    import nrpy.infrastructures.BHaH.Makefile_helpers as mh
    with contextlib.redirect_stdout(io.StringIO()):
        cp.write_CodeParameters_h_files(project_dir=d)
        if set_default:
            cp.register_CFunctions_params_commondata_struct_set_to_default()
        bd.output_BHaH_defines_h(project_dir=d, **dict(dict(enable_intrinsics=False, enable_rfm_precompute=rfm), **(defines_kw or {})))
        if "main" not in cfc.CFunction_dict:
            raise AssertionError("no main")
        mh.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=d, project_name="vfproj", exec_or_library_name="vfproj")


def compile_(d, san=True, opt="-O1", cc="gcc", libs=()):
    srcs = [os.path.join(r, f) for r, _, fl in os.walk(d) for f in fl if f.endswith(".c")]
    objs = []
    procs = []
    for s in srcs:
        o = s[:-2] + ".o"
        objs.append(o)
        procs.append(subprocess.Popen([cc, "-std=gnu99", opt, "-w", "-march=native", *(san if isinstance(san, list) else SAN if san else ()), "-c", s, "-o", o], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, preexec_fn=_lift))
    err = ""
    for p in procs:
        _, e = p.communicate()
        if p.returncode:
            err += e
    if err:
        return err
    p = subprocess.run([cc, *(san if isinstance(san, list) else SAN if san else ()), *objs, "-o", os.path.join(d, "vfproj"), *libs, "-lm"], capture_output=True, text=True, preexec_fn=_lift)
    return p.stderr if p.returncode else ""


def run(d, args=(), timeout=120, cwd=None):
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="1")
    try:
        p = subprocess.run([os.path.join(d, "vfproj"), *map(str, args)], capture_output=True, text=True, errors="replace", timeout=timeout, cwd=cwd or d, preexec_fn=_lift, env=env)
    except subprocess.TimeoutExpired:
        return -999, "", "timeout"
    return p.returncode, p.stdout, p.stderr
