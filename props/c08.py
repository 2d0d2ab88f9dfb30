"""C08  Registered functions reach the project: written once, declared as defined, built, dispatched, scheduled."""
import contextlib
import io
import itertools
import os
import re
import shutil
import subprocess
import sys
import tempfile

from vf import cexec, native
from vf.core import Unit, thorough
from props.c06 import Spy

LEVEL = "other"
EXPLANATION = ("Registry steps are discharged with a footprint obligation (only the entry being registered is read or written), so they hold for every history. Text contracts of CFunction are "
               "exhaustive over the enumerated attribute combinations; wrapper dispatch is decided by symbolic execution of the generated switch for every value of the hash (z3); the generated build files "
               "are executed with the real make and compiler on a project containing every kind of function (bounded).")
PREIMPORT = ["nrpy.c_function", "nrpy.infrastructures.BHaH.Makefile_helpers", "nrpy.infrastructures.BHaH.rfm_wrapper_functions", "nrpy.infrastructures.ETLegacy.make_code_defn", "nrpy.infrastructures.CarpetX.make_code_defn",
             "nrpy.infrastructures.ETLegacy.schedule_ccl", "nrpy.infrastructures.CarpetX.schedule_ccl", "nrpy.infrastructures.superB.Makefile_helpers", "nrpy.helpers.parallel_codegen"]
ASSUMPTIONS = ["subdirectories are relative paths inside the project", "function parameters of wrapped functions are plain C declarators: types, pointers, fixed arrays, functions written as T f(args)",
               "parallel code-generation tasks write disjoint registry entries", "clang-format, make and gcc are correct"]
BOUNDS = ["paths of up to 4 components; all subsets of the listed includes; projects of 9 functions", "parallel_codegen: 6 tasks on the machine's process pool"]

TOK = re.compile(r"\s*(#[^\n]*|[A-Za-z_]\w*|\d[\w.]*|\"(?:\\.|[^\"])*\"|'(?:\\.|[^'])*'|->|\+\+|--|[-+*/%&|=<>!]=|&&|\|\||<<|>>|.)", re.S)


def toks(s):
    s = cexec.strip_comments(s)
    return [re.sub(r"\s+", " ", t.strip()) for t in TOK.findall(s) if t.strip()]


def split_inc(ts):
    return sorted(t for t in ts if t.startswith("#include")), [t for t in ts if not t.startswith("#include")]


CORE = ["BHaH_defines.h", "BHaH_function_prototypes.h", "intrinsics/simd_intrinsics.h"]
INCS = [None, [], ["BHaH_defines.h"], ["BHaH_function_prototypes.h", "BHaH_defines.h"], ["<math.h>", "BHaH_defines.h", "other.h"], ["intrinsics/simd_intrinsics.h"], ["loop.h", "math.h", "<omp.h>"]]
SUBS = [".", "", "./", "a", "a/", "a/b", "./a//b/", "a/../b", "a/b/c/d", "a.b", "./a/./b"]


def u_paths(ctx):
    from nrpy.c_function import CFunction
    ctx.under("nrpy.c_function.CFunction.subdirectory_depth")
    comps = ["", ".", "a", "bc", "a.b", "x.c"]
    bad = []
    n = 0
    for L in range(0, 5):
        for t in itertools.product(comps, repeat=L):
            p = "/".join(t)
            if p.startswith("/"):
                continue
            for q in (p, p + "/", "./" + p):
                n += 1
                want = len([c for c in q.split("/") if c not in ("", ".")])
                if CFunction.subdirectory_depth(q) != want:
                    bad.append((q, CFunction.subdirectory_depth(q), want))
    ctx.check(f"depth counts the folders ({n} paths)", not bad, "exhaustive", bounded=True, cex=str(bad[:3]))
    bad = [p for p in SUBS + ["a/b/../c", "a/b/../../p/q"] if os.path.normpath(os.path.join(p, *[".."] * CFunction.subdirectory_depth(p))) != "."]
    ctx.check("depth x .. leads back to the root", not bad, "exhaustive", bounded=True, cex=str(bad))


def u_text(ctx, infra):
    import nrpy.params as par
    from nrpy.c_function import CFunction
    ctx.under("nrpy.c_function.CFunction.__init__", "nrpy.c_function.CFunction.generate_full_function", "nrpy.helpers.generic.prefix_with_star", "nrpy.helpers.generic.clang_format")
    par.set_parval_from_str("Infrastructure", infra)
    BODIES = ["int q = 3;\nfor(int i=0;i<q;i++) g(i);\n", "for(int i0=0;i0<N;i0+=simd_width) g(i0);\n"]
    k = 0
    combos = list(itertools.product(SUBS, INCS, (False, True), (False, True), (0, 1)))
    for sub, incs, simd, cph, b in combos:
        k += 1
        par_s = ["", "void", "const commondata_struct *restrict commondata, REAL x[3], int (*f)(int)", "REAL *restrict auxevol_gfs,\n const REAL dt"][k % 4]
        typ, dec = ["void", "int", "static inline REAL", "REAL *"][k % 4], ["", "__device__", "extern"][k % 3]
        pre, post = ["", "static int h(void) { return 3; }"][k % 2], ["", "int tail_(void) { return 2; }"][k % 5 == 0]
        kw = dict(subdirectory=sub, includes=None if incs is None else list(incs), enable_simd=simd, include_CodeParameters_h=cph, prefunc=pre, desc="line one\nline two", cfunc_decorators=dec, cfunc_type=typ, name="my_func",
                  params=par_s, body=BODIES[b], postfunc=post)
        # the ColumnLimit-formatted text is compared for a third of the combinations: formatting does not depend on the flags
        fmt = k % 3 == 0 or thorough()
        if not fmt:
            import nrpy.c_function as cfc
            saved = cfc.clang_format
            cfc.clang_format = lambda s, **_: s
        try:
            f = ctx.call(f"CFunction {kw}", CFunction, **kw)
        finally:
            if not fmt:
                cfc.clang_format = saved
        depth = len([c for c in os.path.normpath(sub).split("/") if c not in (".", "")])
        up = "../" * depth
        want = []
        for i in incs or []:
            if i.startswith("<"):
                want.append(f"#include {i}")
            elif infra == "BHaH" and i in CORE:
                want.append(f'#include "{up}{i}"')
            else:
                want.append(f'#include "{i}"')
        decl = toks(f"{dec} {typ} my_func({par_s})")
        cp = []
        if cph:
            cp = [f'#include "{up if infra == "BHaH" else ""}set_CodeParameters{"-simd" if simd or b == 1 else ""}.h"']
        tail = toks(pre) + decl + ["{"] + cp + toks(BODIES[b]) + ["}"] + toks(post)
        name = f"{infra} {k}"
        got = toks(f.raw_function)
        ok = got == want + tail
        ctx.check(f"definition text {name}", ok, "exhaustive", bounded=True, cex=f"{kw}\n{f.raw_function}")
        ctx.check(f"prototype declares the definition {name}", toks(f.function_prototype) == decl + [";"], "exhaustive", bounded=True, cex=f"{f.function_prototype} | {kw}")
        ctx.check(f"description kept {name}", "line one" in f.raw_function and "line two" in f.raw_function, "exhaustive", bounded=True, cex=f.raw_function[:400])
        if fmt:
            ctx.check(f"formatting keeps the code {name}", split_inc(toks(f.full_function)) == split_inc(got), "exhaustive", bounded=True, cex=f"{f.full_function[:800]}")
    for miss in ("name", "desc", "body"):
        kw = dict(name="n", desc="d", body="b;")
        kw[miss] = ""
        ctx.raises(f"{miss} must be given", lambda: CFunction(**kw), ValueError)
    ctx.raises("includes list", lambda: CFunction(name="n", desc="d", body="b;", includes="x.h"), ValueError)
    ctx.raises("includes strings", lambda: CFunction(name="n", desc="d", body="b;", includes=["x.h", 3]), TypeError)
    ctx.raises("griddata in a coordinate-specific function", lambda: CFunction(name="n", desc="d", body="b;", params="griddata_struct *restrict griddata", CoordSystem_for_wrapper_func="Cartesian"), ValueError)


def u_registry(ctx):
    import nrpy.c_function as cfc
    import nrpy.params as par
    ctx.under("nrpy.c_function.register_CFunction", "nrpy.c_function.function_name_and_subdir_with_CoordSystem")
    par.set_parval_from_str("Infrastructure", "BHaH")
    cfc.CFunction_dict = Spy()
    n = 0
    for sub, coord, et in itertools.product([".", "a/b", ""], ["", "Cartesian", "SinhSpherical"], [False, True]):
        n += 1
        nm = f"fn{n}"
        kw = dict(subdirectory=sub, enable_simd=n % 2 == 0, includes=["BHaH_defines.h"], prefunc="int p;", desc="d", cfunc_decorators="extern", cfunc_type="void", name=nm, params="int x", include_CodeParameters_h=n % 3 == 0, body="g(x);", postfunc="int q;",
                  CoordSystem_for_wrapper_func=coord)
        if et:
            kw.update(ET_thorn_name="T", ET_schedule_bins_entries=[("b", "e")], ET_current_thorn_CodeParams_used=["p"], ET_other_thorn_CodeParams_used=["q"])
        d = cfc.CFunction_dict
        d.reads, d.writes, d.scans = set(), set(), 0
        before = dict(dict.items(d))
        ctx.call(f"register {kw}", cfc.register_CFunction, **kw)
        act = nm + (f"__rfm__{coord}" if coord else "")
        ctx.check(f"exactly the entry {act} is added", d.writes == {act} and d.reads <= {act} and {k: v for k, v in dict.items(d) if k != act} == before and act in dict.keys(d), "frame", cex=f"reads {d.reads} writes {d.writes}")
        f = dict.get(d, act)
        want_sub = os.path.normpath(os.path.join(sub, coord)) if coord else os.path.normpath(sub or ".")
        ctx.check(f"stored attributes {act}", f is not None and f.name == act and os.path.normpath(f.subdirectory or ".") == want_sub and f.CoordSystem_for_wrapper_func == coord
                  and all(getattr(f, k) == v for k, v in kw.items() if k not in ("subdirectory", "name", "cfunc_decorators")) and f.cfunc_decorators.strip() == "extern", "exhaustive", bounded=True, cex=str(f and f.__dict__)[:900])
        ctx.raises(f"duplicate {act}", lambda: cfc.register_CFunction(**kw), ValueError, frame=lambda: dict(dict.items(cfc.CFunction_dict)))
        if coord:
            ctx.raises(f"griddata_struct {act}", lambda: cfc.register_CFunction(**dict(kw, name=nm + "g", params="griddata_struct *g")), ValueError, frame=lambda: dict(dict.items(cfc.CFunction_dict)))
        ctx.raises(f"missing body {act}", lambda: cfc.register_CFunction(**dict(kw, name=nm + "m", body="")), ValueError, frame=lambda: dict(dict.items(cfc.CFunction_dict)))
    ctx.check("same base name, other coordinate system", ctx.call("r", lambda: cfc.register_CFunction(name="fn2", desc="d", body="b;", CoordSystem_for_wrapper_func="Cylindrical")) is None and "fn2__rfm__Cylindrical" in dict.keys(cfc.CFunction_dict), "exhaustive", bounded=True)


SYSTEMS = ["Cartesian", "Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "GeneralRFM_fisheyeN1"]
WRAPPED = {  # params, argument names
    "w_plain": ("const commondata_struct *restrict commondata, const params_struct *restrict params, REAL *restrict xx[3], const REAL *restrict in_gfs, REAL *restrict out_gfs", ["commondata", "params", "xx", "in_gfs", "out_gfs"]),
    "w_arr": ("const params_struct *restrict params, REAL *xx[3],\n     const REAL xCart[3],  int NUM[NUM_GFS], const int8_t b", ["params", "xx", "xCart", "NUM", "b"]),
    "w_fn": ("const params_struct *restrict params, REAL f(REAL x, int y), int k", ["params", "f", "k"]),
    "w_fn2": ("const params_struct *restrict params, REAL f(REAL x), int k, void gg(int, int), REAL *restrict last", ["params", "f", "k", "gg", "last"]),
    "w_one": ("const params_struct *params", ["params"]),
}


def u_wrappers(ctx, subdir):
    import z3
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.rfm_wrapper_functions as rw
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.BHaH.rfm_wrapper_functions.register_CFunctions_CoordSystem_wrapper_funcs", "nrpy.infrastructures.BHaH.rfm_wrapper_functions.get_CoordSystem_hash")
    par.set_parval_from_str("Infrastructure", "BHaH")
    par.glb_extras_dict.clear()
    cfc.CFunction_dict.clear()
    cfc.register_CFunction(name="unrelated", desc="d", body="b;", params="int x")
    for i, (nm, (p, _)) in enumerate(WRAPPED.items()):
        for s in SYSTEMS[: len(SYSTEMS) - i]:
            cfc.register_CFunction(subdirectory=subdir, name=nm, desc="d", params=p, body=f"g_{s}();", CoordSystem_for_wrapper_func=s)
    before = dict(cfc.CFunction_dict)
    ctx.call("register wrappers", rw.register_CFunctions_CoordSystem_wrapper_funcs)
    ctx.check("exactly one wrapper per function", set(cfc.CFunction_dict) - set(before) == set(WRAPPED) and all(cfc.CFunction_dict[k] is v for k, v in before.items()), "exhaustive", bounded=True, cex=str(set(cfc.CFunction_dict) - set(before)))
    H = {s: rw.get_CoordSystem_hash(s) for s in SYSTEMS}
    defs = "\n".join(v for v in par.glb_extras_dict["BHaH_defines"].values())
    got = re.findall(r"#define\s+(\w+)\s+(\d+)", defs)
    ctx.check("one #define per coordinate system", sorted(got) == sorted((s.upper(), str(H[s])) for s in SYSTEMS), "exhaustive", bounded=True, cex=str(got))
    from vf.coords import ALL
    allsys = list(dict.fromkeys(list(ALL) + SYSTEMS + ["Fisheye", "NobleSphericalThetaOptionOne", "HoleySinhSpherical", "UWedgeHSinhSph", "RingHoleySinhSpherical"]))
    hs = [rw.get_CoordSystem_hash(s) for s in allsys]
    ctx.check("hashes are distinct non-negative ints for all coordinate systems", len(set(hs)) == len(allsys) and all(isinstance(h, int) and 0 <= h < 2 ** 31 for h in hs), "exhaustive", bounded=True, cex=str(list(zip(allsys, hs))))
    D = dict(got)
    for i, (nm, (p, args)) in enumerate(WRAPPED.items()):
        f = cfc.CFunction_dict[nm]
        ctx.check(f"{nm} has the signature of the wrapped functions", toks(f.function_prototype) == toks(f"void {nm}({p});") and not f.CoordSystem_for_wrapper_func, "exhaustive", bounded=True, cex=f.function_prototype)
        ctx.check(f"{nm} lives where the wrapped functions' parent is", os.path.normpath(f.subdirectory or ".") == os.path.normpath(subdir or "."), "exhaustive", bounded=True, cex=f.subdirectory)
        src = re.sub(r"fprintf\(.*?\);", "ERR_();", cexec.strip_comments(f.raw_function), flags=re.S)
        src = re.sub(r"#include[^\n]*", "", src).replace("exit(1)", "EXIT_()")
        for s, h in D.items():
            src = re.sub(rf"\b{s}\b", h, src)
        src = re.sub(r"params->CoordSystem_hash", "hash__", src)
        body = src[src.index("{"):]
        calls = {}
        hv = z3.Int("hash")
        systems = SYSTEMS[: len(SYSTEMS) - i]
        # decide the switch for every hash value: parse it and turn it into guarded calls
        g = parse_switch(body)
        if not ctx.check(f"{nm} is a switch on the hash", g is not None, "parse", cex=body[:600]):
            continue
        cases, default = g
        for s in systems:
            # the first case equal to the hash, then fall-through to the break
            ex = run_switch(cases, default, H[s])
            ctx.check(f"{nm}: hash of {s} calls exactly {nm}__rfm__{s} with the arguments in order", [toks(c) for c in ex] == [toks(f"{nm}__rfm__{s}({', '.join(args)})")], "symexec", cex=f"{ex}")
        cond = z3.And(*[hv != H[s] for s in systems])
        labels = [int(c) for c, _ in cases if c is not None and c.isdigit()]
        ctx.z3(f"{nm}: any other hash reaches the error", z3.Implies(cond, z3.And(*[hv != L for L in labels])))
        other = run_switch(cases, default, -12345)
        ctx.check(f"{nm}: the error path stops the program", other[:1] == ["ERR_()"] and other[-1:] == ["EXIT_()"] and len(other) == 2, "symexec", cex=str(other))
    cfc.CFunction_dict.clear()
    cfc.register_CFunction(name="nv", desc="d", params="const params_struct *params", cfunc_type="int", body="return 1;", CoordSystem_for_wrapper_func="Cartesian")
    ctx.raises("non-void wrapped function", rw.register_CFunctions_CoordSystem_wrapper_funcs, ValueError, frame=lambda: dict(cfc.CFunction_dict))


def parse_switch(body):
    m = re.search(r"switch\s*\(\s*hash__\s*\)\s*\{(.*)\}\s*\}\s*$", body, re.S)
    if not m:
        return None
    cases, cur, default = [], None, None
    for st in re.split(r"(?<=[;:])", m.group(1)):
        st = st.strip()
        if not st:
            continue
        c = re.fullmatch(r"case\s+(\w+)\s*:", st)
        if c:
            cur = (c.group(1), [])
            cases.append(cur)
        elif re.fullmatch(r"default\s*:", st):
            cur = (None, [])
            cases.append(cur)
        else:
            if cur is None:
                return None
            cur[1].append(st.rstrip(";").strip())
    return cases, None


def run_switch(cases, default, h):
    start = [k for k, (c, _) in enumerate(cases) if c is not None and c == str(h)] or [k for k, (c, _) in enumerate(cases) if c is None]
    out = []
    for c, sts in cases[start[0]:] if start else []:
        for s in sts:
            if s == "break":
                return out
            out.append(s)
    return out


NAMES = [("main", "."), ("aaa", ""), ("Zed", "sub1"), ("b_c", "sub1/deep"), ("codec", "my.code"), ("dotc_c", "x.c"), ("Abc", "."), ("abd", "sub2/Cartesian"), ("last_one", "./sub2")]


def project(cfc, lib):
    cfc.CFunction_dict.clear()
    fs = [(n, s) for n, s in NAMES if not (lib and n == "main")]
    for k, (n, s) in enumerate(fs):
        if n == "main":
            body = "".join(f"acc = acc*3 + {m}({j}, 0.5);\n" for j, (m, _) in enumerate(fs) if m != "main")
            cfc.register_CFunction(subdirectory=s, includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="d", cfunc_type="int", name=n, params="int argc, char *argv[]", body="long acc=0;\n" + body + 'printf("%ld\\n", acc); return 0;')
        else:
            cfc.register_CFunction(subdirectory=s, includes=["BHaH_defines.h", "BHaH_function_prototypes.h"], desc="d", cfunc_type="int", name=n, params="const int k, const REAL x", body=f"return 7*k + {k} + ADDL + (int)(2*x);")
    return fs


def u_make(ctx, mode):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.Makefile_helpers as mh
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.BHaH.Makefile_helpers.output_CFunctions_function_prototypes_and_construct_Makefile", "nrpy.infrastructures.BHaH.Makefile_helpers.compile_Makefile")
    par.set_parval_from_str("Infrastructure", "BHaH")
    lib = mode in ("shared", "static", "prefix")
    fs = project(cfc, lib)
    pre = "pfx_" if mode == "prefix" else ""
    ext = {"execpp": "cc"}.get(mode, "c")
    kw = dict(project_name="proj", exec_or_library_name={"exec": "", "shared": "libq", "static": "libq", "prefix": "libq.so", "execpp": "named", "debug": "", "compile": "binx"}[mode], addl_CFLAGS=["-DADDL=100", "-DOTHER"], addl_libraries=["-lpthread"],
              include_dirs=["/opt/none", "inc2"], create_lib=lib, static_lib=mode == "static", lib_function_prefix=pre, src_code_file_ext=ext, compiler_opt_option={"debug": "debug", "static": "fast"}.get(mode, "default"))
    with tempfile.TemporaryDirectory() as d:
        P = os.path.join(d, "p", "q")
        if mode == "compile":
            os.makedirs(P)
            open(os.path.join(P, "BHaH_defines.h"), "w").write("#include <stdio.h>\n#define REAL double\n")
            cwd = os.getcwd()
            ctx.call("compile_Makefile", mh.compile_Makefile, project_dir=P, project_name="proj", exec_or_library_name="binx", addl_CFLAGS=["-DADDL=100"], addl_libraries=["-lpthread"])
            ctx.check("the working directory is restored", os.getcwd() == cwd, "native", bounded=True, cex=os.getcwd())
        else:
            ctx.call("Makefile", mh.output_CFunctions_function_prototypes_and_construct_Makefile, project_dir=P, **kw)
            open(os.path.join(P, "BHaH_defines.h"), "w").write("#include <stdio.h>\n#define REAL double\n#ifdef __cplusplus\nextern \"C\" {}\n#endif\n")
        found = {}
        for r, _, fl in os.walk(P):
            for x in fl:
                if x.endswith("." + ext):
                    found[os.path.relpath(os.path.join(r, x), P)] = open(os.path.join(r, x), encoding="utf-8").read()
        want = {os.path.normpath(os.path.join(s or ".", f"{pre}{n}.{ext}")): n for n, s in fs}
        ctx.check("every function in its own file, and nothing else", set(found) == set(want), "native", bounded=True, cex=f"{set(found) ^ set(want)}")
        for f, n in want.items():
            ctx.check(f"{n}: the file is the registered function", found.get(f) == cfc.CFunction_dict[n].full_function, "native", bounded=True, cex=str(found.get(f))[:400])
            ctx.check(f"{n}: defined under its (prefixed) name", len(re.findall(rf"\b{pre}{n}\s*\([^;{{]*\)\s*\{{", found.get(f, ""))) == 1, "native", bounded=True, cex=str(found.get(f))[:400])
        proto = toks(open(os.path.join(P, "BHaH_function_prototypes.h"), encoding="utf-8").read())
        got = sorted(" ".join(x) for x in split_semi(proto))
        exp = sorted(" ".join(toks(f"int {pre}{n}(" + ("int argc, char *argv[]" if n == "main" else "const int k, const REAL x") + ")")) for n, s in fs)
        ctx.check("the prototype header declares every function once", got == exp, "native", bounded=True, cex=f"{set(got) ^ set(exp)} {len(got)}")
        env = {k: v for k, v in os.environ.items() if k not in ("CC", "CFLAGS", "MAKEFLAGS")}
        lib_ext = {"shared": ".so", "prefix": ".so", "static": ".a"}.get(mode, "")
        tgt = kw["exec_or_library_name"] or "proj"
        tgt = tgt if tgt.endswith(lib_ext) else tgt + lib_ext
        if mode != "compile":
            dry = subprocess.run(["make", "-n"], cwd=P, capture_output=True, text=True, env=env, preexec_fn=native._lift)
            comp = [l for l in dry.stdout.splitlines() if re.search(r"\s-c\s", l)]
            link = [l for l in dry.stdout.splitlines() if l.strip() and not re.search(r"\s-c\s", l)]
            srcs = sorted(os.path.normpath(re.search(r"-c\s+(\S+)", l).group(1)) for l in comp)
            objs = sorted(os.path.normpath(re.search(r"-o\s+(\S+)", l).group(1)) for l in comp)
            ctx.check("make compiles every file exactly once", srcs == sorted(want), "native", bounded=True, cex=f"{dry.stdout[:600]} {dry.stderr[:300]}")
            lo = [os.path.normpath(w) for w in (link[-1].split() if link else []) if w.endswith(".o")]
            ctx.check("the target links every object exactly once", sorted(lo) == objs and len(set(objs)) == len(want), "native", bounded=True, cex=str(link))
            ctx.check("requested flags reach every compilation", all(all(x in l.split() for x in ("-DADDL=100", "-DOTHER", "-I/opt/none", "-Iinc2")) for l in comp), "native", bounded=True, cex=str(comp[:1]))
            if mode != "static":
                ctx.check("requested libraries reach the link", bool(link) and "-lpthread" in link[-1].split() and "-lm" in link[-1].split() and link[-1].split().index("-lpthread") > link[-1].split().index(link[-1].split()[[w.endswith(".o") for w in link[-1].split()].index(True)]),
                          "native", bounded=True, cex=str(link))
            opt = {"fast": "-O3", "debug": "-O2"}.get(kw["compiler_opt_option"], "-O2")
            ctx.check("optimisation option", all(opt in l.split() for l in comp), "native", bounded=True, cex=str(comp[:1]))
            p = subprocess.run(["make", "-j8"], cwd=P, capture_output=True, text=True, env=env, preexec_fn=native._lift)
            ctx.check("the project builds", p.returncode == 0, "native", bounded=True, cex=p.stderr[-1500:])
        T = os.path.join(P, tgt)
        if ctx.check("the target is produced under its name", os.path.isfile(T), "native", bounded=True, cex=str(os.listdir(P))):
            if lib:
                nm = subprocess.run(["nm", *(["-D"] if lib_ext == ".so" else []), T], capture_output=True, text=True).stdout
                defd = sorted(l.split()[-1] for l in nm.splitlines() if re.search(r"\sT\s", l))
                ctx.check("the library defines every function once", [x for x in defd if x not in ("_init", "_fini")] == sorted(pre + n for n, s in fs), "native", bounded=True, cex=str(defd))
            else:
                acc = 0
                for j, (n, s) in enumerate(fs):
                    if n != "main":
                        acc = acc * 3 + 7 * j + j + 100 + 1
                o = subprocess.run([T], capture_output=True, text=True)
                ctx.check("the executable runs the registered functions", o.returncode == 0 and o.stdout.strip() == str(acc), "native", bounded=True, cex=f"{o.stdout} want {acc}")
        if mode == "exec":
            mk = lambda **k: mh.output_CFunctions_function_prototypes_and_construct_Makefile(project_dir=os.path.join(d, "zz"), project_name="z", **k)
            ctx.raises("static without create_lib", lambda: mk(static_lib=True), ValueError)
            ctx.raises("unknown compiler", lambda: mk(CC="no_such_compiler_q"), FileNotFoundError)
            ctx.raises("flags list", lambda: mk(addl_CFLAGS="-O"), TypeError)
            ctx.raises("libraries list", lambda: mk(addl_libraries="-lm"), TypeError)
            ctx.raises("include dirs list", lambda: mk(include_dirs="x"), TypeError)
            del cfc.CFunction_dict["main"]
            ctx.raises("no main", mk, ValueError)


def split_semi(ts):
    out, cur = [], []
    for t in ts:
        if t == ";":
            out.append(cur)
            cur = []
        else:
            cur.append(t)
    return out + ([cur] if cur else [])


def u_superb(ctx):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.superB.Makefile_helpers as mh
    ctx.under("nrpy.infrastructures.superB.Makefile_helpers.output_CFunctions_function_prototypes_and_construct_Makefile")
    fs = project(cfc, True)
    for lib in (False, True):
        with tempfile.TemporaryDirectory() as d:
            ctx.call("superB Makefile", mh.output_CFunctions_function_prototypes_and_construct_Makefile, project_dir=d, project_name="proj", exec_or_library_name="ex", addl_CFLAGS=["-DADDL=100"], addl_libraries=["-lq"], include_dirs=["inc2"], CC="CHARM", create_lib=lib)
            for n in ("timestepping", "main"):
                for e in (".cpp", ".ci", ".h"):
                    open(os.path.join(d, n + e), "w").close()
            found = {os.path.relpath(os.path.join(r, x), d) for r, _, fl in os.walk(d) for x in fl if x.endswith(".cpp")} - {"timestepping.cpp", "main.cpp"}
            want = {os.path.normpath(os.path.join(s or ".", f"{n}.cpp")): n for n, s in fs}
            ctx.check(f"files lib={lib}", found == set(want) and all(open(os.path.join(d, f), encoding="utf-8").read() == cfc.CFunction_dict[n].full_function for f, n in want.items()), "native", bounded=True, cex=str(found ^ set(want)))
            got = sorted(" ".join(x) for x in split_semi(toks(open(os.path.join(d, "BHaH_function_prototypes.h"), encoding="utf-8").read())))
            exp = sorted(" ".join(toks(f"int {n}(const int k, const REAL x)")) for n, s in fs)
            ctx.check(f"prototypes lib={lib}", got == exp, "native", bounded=True, cex=str(got))
            dry = subprocess.run(["make", "-n"], cwd=d, capture_output=True, text=True, preexec_fn=native._lift, env={k: v for k, v in os.environ.items() if k != "MAKEFLAGS"})
            comp = [l for l in dry.stdout.splitlines() if re.search(r"\s-c\s", l)]
            link = [l for l in dry.stdout.splitlines() if "-language charm++" in l]
            srcs = sorted(os.path.normpath(re.search(r"-c\s+(\S+)", l).group(1)) for l in comp)
            ctx.check(f"make compiles every file exactly once lib={lib}", srcs == sorted([*want, "timestepping.cpp", "main.cpp"]), "native", bounded=True, cex=f"{dry.stdout[:600]} {dry.stderr[:400]}")
            lo = sorted(os.path.normpath(w) for w in (link[-1].split() if link else []) if w.endswith(".o"))
            ctx.check(f"link lib={lib}", len(link) == 1 and lo == sorted(s[:-4] + ".o" for s in srcs) and "-lq" in link[-1].split() and all("-DADDL=100" in l.split() and "-Iinc2" in l.split() for l in comp), "native", bounded=True, cex=str(link))


def u_et(ctx, infra):
    import importlib
    import nrpy.c_function as cfc
    import nrpy.params as par
    mk = importlib.import_module(f"nrpy.infrastructures.{infra}.make_code_defn")
    sc = importlib.import_module(f"nrpy.infrastructures.{infra}.schedule_ccl")
    ctx.under(f"nrpy.infrastructures.{infra}.make_code_defn.output_CFunctions_and_construct_make_code_defn", f"nrpy.infrastructures.{infra}.schedule_ccl.construct_schedule_ccl", "nrpy.helpers.conditional_file_updater.ConditionalFileUpdater.__exit__")
    par.set_parval_from_str("Infrastructure", infra)
    ext = "c" if infra == "ETLegacy" else "cxx"
    cfc.CFunction_dict.clear()
    BINS = ["STARTUP", "BASEGRID", "CCTK_INITIAL", "CCTK_ANALYSIS", "MoL_CalcRHS", "mol_register", "ODESolvers_RHS", "odesolvers_poststep", "Driver_BoundarySelect", "MoL_PseudoEvolution", "MoL_PostStep", "weird_bin", "CCTK_PARAMCHECK"]
    fns = {"T1": ["zeta", "Alpha", "beta", "alpha2"], "T2": ["only"], "T12": ["xx1", "xx2"], "T0": []}
    entries = {}
    k = 0
    for t, ns in fns.items():
        for n in ns:
            e = []
            for j in range({"beta": 0, "zeta": 7, "only": 13}.get(n, 2)):
                b = BINS[(k + j) % len(BINS)]
                e.append((b, f"\nschedule FUNC_NAME in {b} as FUNC_NAME_{t}_{n}_{j}\n{{\n LANG: C\n}} \"e{k}_{j}\"\n"))
            k += 3
            entries[n] = e
            cfc.register_CFunction(subdirectory=t, name=n, desc="d", body=f"f_{n}();", ET_thorn_name=t, ET_schedule_bins_entries=e or None)
    extra = [("CCTK_INITIAL", "\nextra_one\n"), ("nowhere", "\nextra_two\n"), ("STARTUP", "\nSTORAGE: evolvedgfs\n")]
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()):
        for t, ns in fns.items():
            for rerun in (0, 1):
                ctx.call(f"make.code.defn {t}", mk.output_CFunctions_and_construct_make_code_defn, d, t)
                txt = open(os.path.join(d, t, "src", "make.code.defn"), encoding="utf-8").read()
                probe = os.path.join(d, "probe.mk")
                open(probe, "w").write(f"include {t}/src/make.code.defn\nall:\n\t@echo $(SRCS)\n")
                o = subprocess.run(["make", "-s", "-f", "probe.mk"], cwd=d, capture_output=True, text=True, preexec_fn=native._lift, env={k: v for k, v in os.environ.items() if k != "MAKEFLAGS"})
                ctx.check(f"SRCS of {t} (run {rerun})", o.returncode == 0 and sorted(o.stdout.split()) == sorted(f"{n}.{ext}" for n in ns), "native", bounded=True, cex=txt + o.stderr)
                files = {f for f in os.listdir(os.path.join(d, t, "src")) if f != "make.code.defn"}
                ctx.check(f"source files of {t} (run {rerun})", files == {f"{n}.{ext}" for n in ns} and all(open(os.path.join(d, t, "src", f"{n}.{ext}"), encoding="utf-8").read() == cfc.CFunction_dict[n].full_function for n in ns), "native", bounded=True, cex=str(files))
                if rerun == 0:
                    for n in ns[:1]:
                        open(os.path.join(d, t, "src", f"{n}.{ext}"), "w").write("stale")
        for t, ns in fns.items():
            for ex in (None, extra):
                ctx.call(f"schedule.ccl {t} extra={bool(ex)}", sc.construct_schedule_ccl, d, t, "STORAGE: mygfs[3]", ex)
                txt = open(os.path.join(d, t, "schedule.ccl"), encoding="utf-8").read()
                code = "\n".join(l for l in txt.splitlines() if not l.startswith("#"))
                want = [e.replace("FUNC_NAME", n).strip() for n in ns for b, e in entries[n]] + [e.strip() for b, e in (ex or [])]
                ok = all(code.count(w) == 1 for w in want)
                rest = code
                for w in want:
                    rest = rest.replace(w, "", 1)
                ctx.check(f"schedule of {t} extra={bool(ex)}: every entry once, nothing else", ok and rest.split() == ["STORAGE:", "mygfs[3]"], "exhaustive", bounded=True, cex=f"{[w for w in want if code.count(w) != 1][:2]} rest={rest.split()[:10]}")
                per = {}
                for m in re.finditer(r"schedule (\w+) in (\w+) as", code):
                    per.setdefault(m.group(2), []).append(m.group(1))


HELPER = '''
import nrpy.c_function as cfc, nrpy.grid as gri, nrpy.params as par
import nrpy.helpers.parallel_codegen as pcg
from inspect import currentframe as cfr
from types import FrameType as FT
from typing import cast
def task(k, tag="t"):
    if pcg.pcg_registration_phase():
        pcg.register_func_call(f"{__name__}.{cast(FT, cfr()).f_code.co_name}", cast(dict, locals()))
        return None
    cfc.register_CFunction(name=f"fn_{tag}_{k}", desc="d", params="int a", body=f"g({k});", subdirectory="s%d" % (k % 2))
    par.register_CodeParameter("REAL", "m%d" % k, f"cp_{tag}_{k}", 0.5*k)
    par.glb_extras_dict.setdefault("BHaH_defines", {})[f"mod_{tag}_{k}"] = f"#define M{k}\\n"
    par.glb_extras_dict.setdefault("deep", {}).setdefault("l1", {})[f"k{tag}{k}"] = {"v": k}
    gri.register_gridfunctions(f"gf_{k}{tag}", group="EVOL")
    return pcg.NRPyEnv()
class Holder:
    @staticmethod
    def method(k):
        if pcg.pcg_registration_phase():
            pcg.register_func_call(f"{__name__}.Holder.method", {"k": k})
            return None
        cfc.register_CFunction(name=f"meth_{k}", desc="d", body=f"g({k});")
        return pcg.NRPyEnv()
def failing(k):
    if pcg.pcg_registration_phase():
        pcg.register_func_call(f"{__name__}.failing", {"k": k})
        return None
    raise ValueError("planned")
'''


def u_parallel(ctx):
    import importlib
    import logging
    ctx.under("nrpy.helpers.parallel_codegen.do_parallel_codegen", "nrpy.helpers.parallel_codegen.register_func_call", "nrpy.helpers.parallel_codegen.unpack_NRPy_environment_dict", "nrpy.helpers.parallel_codegen.deep_update",
              "nrpy.helpers.parallel_codegen.parallel_function_call", "nrpy.helpers.parallel_codegen.wrapper_func", "nrpy.helpers.parallel_codegen.pcg_registration_phase")
    d = tempfile.mkdtemp()
    try:
        open(os.path.join(d, "vf_pcg_tasks.py"), "w").write(HELPER)
        sys.path.insert(0, d)
        import nrpy.c_function as cfc
        import nrpy.grid as gri
        import nrpy.helpers.parallel_codegen as pcg
        import nrpy.params as par
        logging.disable(logging.CRITICAL)
        par.set_parval_from_str("Infrastructure", "BHaH")
        T = importlib.import_module("vf_pcg_tasks")

        def clear():
            cfc.CFunction_dict.clear()
            gri.glb_gridfcs_dict.clear()
            par.glb_code_params_dict.clear()
            par.glb_extras_dict.clear()
            pcg.ParallelCodeGen_dict.clear()
            cfc.register_CFunction(name="pre", desc="d", body="b;")
            par.glb_extras_dict["BHaH_defines"] = {"earlier": "x"}

        def snap():
            v = lambda o: {k: x for k, x in sorted(o.__dict__.items())}
            return ({k: v(x) for k, x in cfc.CFunction_dict.items()}, {k: v(x) for k, x in gri.glb_gridfcs_dict.items()}, {k: v(x) for k, x in par.glb_code_params_dict.items()}, par.glb_extras_dict)

        def run(enable):
            clear()
            par.set_parval_from_str("parallel_codegen_enable", enable)
            par.set_parval_from_str("parallel_codegen_stage", "register")
            for k in range(4):
                T.task(k)
            T.task(2, tag="u")
            T.task(2, tag="w")
            if enable:
                n = len(pcg.ParallelCodeGen_dict)
                ctx.check("calls are recorded, not executed", n == 6 and set(cfc.CFunction_dict) == {"pre"}, "exhaustive", bounded=True, cex=str(n))
                ctx.raises("same call twice", lambda: T.task(3), ValueError, frame=lambda: len(pcg.ParallelCodeGen_dict))
            ctx.call("do_parallel_codegen", pcg.do_parallel_codegen)
            import copy
            return copy.deepcopy(snap())

        s = run(False)
        p = run(True)
        for i, what in enumerate(("functions", "gridfunctions", "code parameters", "extras")):
            ctx.check(f"parallel == serial: {what}", p[i] == s[i], "native", bounded=True, cex=f"{set(p[i]) ^ set(s[i])}\n{str([(k, p[i][k], s[i][k]) for k in s[i] if k in p[i] and p[i][k] != s[i][k]])[:800]}")
        clear()
        par.set_parval_from_str("parallel_codegen_enable", True)
        par.set_parval_from_str("parallel_codegen_stage", "register")
        T.task(1)
        T.failing(1)
        ctx.raises("a failing task is reported", pcg.do_parallel_codegen, RuntimeError)
        # deep_update: contract by structural enumeration
        vals = [1, "s", {"a": 1}, {"a": {"b": 2}}, {}]
        bad = []
        for x, y, z, w in itertools.product(vals, repeat=4):
            dd, u = {"k1": x, "k2": y}, {"k1": z, "k3": w}
            import copy
            d0, u0 = copy.deepcopy(dd), copy.deepcopy(u)
            if isinstance(z, dict) and not isinstance(x, dict):
                continue
            if isinstance(z, dict) and any(isinstance(v, dict) and not isinstance(x.get(kk, {}), dict) for kk, v in z.items()):
                continue
            pcg.deep_update(dd, u)
            if dd != merge(d0, u0) or u != u0:
                bad.append((d0, u0, dd))
        ctx.check("deep_update merges", not bad, "exhaustive", bounded=True, cex=str(bad[:2]))
        ctx.check("nested functions are found", pcg.get_nested_function("vf_pcg_tasks", "Holder.method") is T.Holder.method and pcg.get_nested_function("vf_pcg_tasks", "task") is T.task, "exhaustive", bounded=True)
        ctx.raises("unknown module", lambda: pcg.parallel_function_call(pcg.ParallelCodeGen("no_such_mod_q.f", {})), RuntimeError)
        ctx.raises("unknown function", lambda: pcg.parallel_function_call(pcg.ParallelCodeGen("vf_pcg_tasks.nope", {})), RuntimeError)
    finally:
        sys.path.remove(d) if d in sys.path else None
        shutil.rmtree(d)


def merge(a, b):
    out = dict(a)
    for k, v in b.items():
        out[k] = merge(out.get(k, {}), v) if isinstance(v, dict) else v
    return out


def units():
    u = [Unit("paths", u_paths), Unit("registry", u_registry)]
    u += [Unit(f"text {i}", u_text, (i,), weight=8) for i in ("BHaH", "ETLegacy", "CarpetX")]
    u += [Unit(f"rfm wrappers in {s or 'root'}", u_wrappers, (s,)) for s in (".", "", "grid/sub")]
    u += [Unit(f"make {m}", u_make, (m,), weight=3) for m in ("exec", "shared", "static", "prefix", "debug", "compile")]
    u += [Unit("superB make", u_superb), Unit("ET ETLegacy", u_et, ("ETLegacy",)), Unit("ET CarpetX", u_et, ("CarpetX",)), Unit("parallel codegen", u_parallel)]
    return u
