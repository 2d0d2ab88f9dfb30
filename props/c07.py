"""C07  Parameters reach the generated code with their own name, type, storage and default."""
import itertools
import os
import re
import tempfile

import sympy as sp

from vf import cexec, native
from vf.core import Unit, thorough
from props.c06 import Spy

LEVEL = "other"
EXPLANATION = ("Access headers: each generated local is proved equal to its struct member for all values (symbolic execution). Struct layout, defaults and registry steps: exhaustive over the enumerated "
               "attribute combinations, the registry steps with a footprint obligation that makes them independent of the history; defaults are additionally executed natively (bounded).")
PREIMPORT = ["nrpy.params", "nrpy.infrastructures.BHaH.CodeParameters", "nrpy.infrastructures.BHaH.BHaH_defines_h", "nrpy.infrastructures.ETLegacy.CodeParameters", "nrpy.infrastructures.CarpetX.CodeParameters",
             "nrpy.infrastructures.ETLegacy.param_ccl", "nrpy.infrastructures.CarpetX.param_ccl"]
ASSUMPTIONS = ["parameter names are C identifiers distinct from each other", "struct members are distinct memory (C semantics)"]
BOUNDS = ["types REAL, int, bool, char[n], REAL[n], int[n], #define x commondata x add_to_parfile x add_to_set_CodeParameters_h; sizes 1..200; native run on 2 grids"]

TYPES = [("REAL", [0.5, -3, "1.25e-3", 7]), ("int", [3, -17, 0]), ("bool", [True, False]), ("char[100]", ["cheese"]), ("char[7]", ["abcdef"]), ("REAL[5]", [0.25]), ("int[3]", [42]), ("REAL[200]", [-1.5]), ("#define", [15])]


def reset(par):
    par.glb_code_params_dict.clear()
    par.glb_extras_dict.clear()


def populate(par):
    """one parameter per attribute combination; -> {name: (type, default, commondata, to_h)}"""
    out = {}
    k = 0
    for typ, defs in TYPES:
        for cd, pf, th, unset in itertools.product((True, False), repeat=4):
            arr = typ.startswith(("REAL[", "int["))
            if arr and (not cd or th):
                continue
            if typ == "#define" and (unset or pf or th):
                continue
            if unset and pf:
                continue
            d = "unset" if unset else defs[k % len(defs)]
            n = f"{'Pq'[k % 2]}ar_{k}" + "xY"[k % 3 == 0]
            k += 1
            par.register_CodeParameter(typ, f"mod{k % 3}", n, d, commondata=cd, add_to_parfile=pf, add_to_set_CodeParameters_h=th, description="some text" if k % 4 == 0 else "")
            out[n] = (typ, d, cd, th and typ != "#define", pf)
    return out


def members(txt, struct):
    m = re.search(r"typedef struct \w+ \{([^}]*)\}\s*" + struct + r"\s*;", txt)
    if not m:
        return None
    out = []
    for st in cexec.strip_comments(m.group(1)).split(";"):
        st = st.strip()
        if not st:
            continue
        mm = re.fullmatch(r"([\w \*]+?)\s*(\w+)\s*(\[\s*\w+\s*\])?", st)
        out.append((mm.group(2), mm.group(1).strip() + (re.sub(r"\s", "", mm.group(3)) if mm.group(3) else "")) if mm else (st, "?"))
    return out


def u_structs(ctx):
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.infrastructures.BHaH.griddata_commondata as gc
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.BHaH.BHaH_defines_h.output_BHaH_defines_h", "nrpy.infrastructures.BHaH.griddata_commondata.register_griddata_commondata", "nrpy.infrastructures.BHaH.BHaH_defines_h.register_BHaH_defines")
    par.set_parval_from_str("Infrastructure", "BHaH")
    reset(par)
    P = populate(par)
    gc.register_griddata_commondata("m1", "double *restrict extra_ptr", "d", is_commondata=True)
    gc.register_griddata_commondata("m1", "int gd_one", "d")
    gc.register_griddata_commondata("m2", "int gd_two", "")
    bd.register_BHaH_defines("zz_extra", "#define FIRST_ 1\n")
    bd.register_BHaH_defines("zz_extra", "#define SECOND_ 2\n")
    with tempfile.TemporaryDirectory() as d:
        ctx.call("output_BHaH_defines_h", bd.output_BHaH_defines_h, project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False, additional_includes=["my_inc.h"], supplemental_defines_dict={"sup": "#define SUP_ 3\n"})
        txt = open(os.path.join(d, "BHaH_defines.h"), encoding="utf-8").read()
    want = {"commondata_struct": {}, "params_struct": {}}
    for n, (t, df, cd, th, pf) in P.items():
        if t != "#define":
            want["commondata_struct" if cd else "params_struct"][n] = t
    want["commondata_struct"]["extra_ptr"] = "double *restrict"
    for s in want:
        got = members(txt, s)
        names = [n for n, _ in got or []]
        ctx.check(f"{s} has every parameter once, with its type and size", got is not None and len(set(names)) == len(names) and {n: re.sub(r"\s*\*\s*", " *", t) for n, t in got} == want[s], "exhaustive",
                  bounded=True, cex=f"{[x for x in set(got or []) ^ set(want[s].items())][:8]}")
    for n, (t, df, cd, th, pf) in P.items():
        if t == "#define":
            ctx.check(f"#define parameter {n}", len(re.findall(rf"#define {n} {df}\b", txt)) == 1, "exhaustive", bounded=True, cex=txt[:500])
    for k in ("FIRST_ 1", "SECOND_ 2", "SUP_ 3"):
        ctx.check(f"registered define {k}", len(re.findall(rf"#define {k}\b", txt)) == 1, "exhaustive", bounded=True, cex=k)
    g = members(txt, "griddata_struct") or []
    gm = re.search(r"typedef struct __griddata__ \{(.*?)\} griddata_struct;", txt, re.S)
    for k in ("int gd_one;", "int gd_two;", "params_struct params;"):
        ctx.check(f"griddata member {k}", bool(gm) and gm.group(1).count(k) == 1, "exhaustive", bounded=True, cex=str(gm and gm.group(1)))
    ctx.raises("duplicate griddata declaration", lambda: gc.register_griddata_commondata("m2", "int gd_two", ""), ValueError)
    ctx.raises("semicolon in declaration", lambda: gc.register_griddata_commondata("m9", "int q;", ""), ValueError)
    for fp in ("double", "float"):
        par.set_parval_from_str("fp_type", fp)
        reset(par)
        with tempfile.TemporaryDirectory() as d:
            bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False)
            t2 = open(os.path.join(d, "BHaH_defines.h"), encoding="utf-8").read()
        ctx.check(f"REAL is {fp}", re.findall(r"#define REAL (\w+)", t2) == [fp], "exhaustive", bounded=True, cex=str(re.findall(r"#define REAL .*", t2)))
    par.set_parval_from_str("fp_type", "double")


def u_headers(ctx, commondata_only):
    """each local declared by set_CodeParameters*.h equals its struct member, for all values"""
    import nrpy.infrastructures.BHaH.CodeParameters as cp
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.BHaH.CodeParameters.write_CodeParameters_h_files")
    reset(par)
    P = populate(par)
    with tempfile.TemporaryDirectory() as d:
        ctx.call("write_CodeParameters_h_files", cp.write_CodeParameters_h_files, d, set_commondata_only=commondata_only)
        H = {k: open(os.path.join(d, k), encoding="utf-8").read() for k in ("set_CodeParameters.h", "set_CodeParameters-nopointer.h", "set_CodeParameters-simd.h")}
    memb = {}

    def res(key):
        m = re.fullmatch(r"(?:\(\*)?(commondata|params)\)?(?:->|\.)(\w+)", key)
        if m:
            n = m.group(2)
            if n not in P:
                return None
            ok = (m.group(1) == "commondata") == P[n][2]
            if not ok:
                return None
            return sp.Symbol(f"member_{n}", real=True) if P[n][0] == "REAL" else cexec.CInt(sp.Symbol(f"member_{n}", integer=True))
        return None

    for h, txt in H.items():
        simd = "simd" in h
        want = {n for n, v in P.items() if v[3] and not (commondata_only and not v[2]) and not (simd and "char" in v[0])}
        scal = {n for n in want if "[" not in P[n][0]}
        # scalar part: symbolic execution (char arrays are cut out and run natively below)
        body = re.sub(r"char (\w+)\[\d+\];[^{]*\{[^}]*\}", "", cexec.strip_comments(txt))
        op = "." if "nopointer" in h else "->"
        other = "->" if op == "." else "."
        ctx.check(f"{h} uses {op} access", not re.search(r"(commondata|params)" + re.escape(other), body), "structure", bounded=True, cex=body[:300])
        try:
            ex = cexec.run_kernel(body, resolver=res)
        except (cexec.CUndeclared, cexec.CParseError) as e:
            ctx.check(f"{h} is well formed", False, "c-symexec", cex=f"{e}\n{txt[:1500]}")
            continue
        got = set(re.findall(r"const \w+ (\w+) =", body)) - {x for x in re.findall(r"const REAL (NOSIMD\w+) =", body)}
        ctx.check(f"{h} declares exactly the parameters meant for it", got == scal, "exhaustive", bounded=True, cex=f"{sorted(got ^ scal)[:6]}")
        for n in sorted(got & scal):
            v = ex.lookup(n)
            ctx.eq(f"{h}: {n} is the value of its struct member", cexec.real(v), sp.Symbol(f"member_{n}", real=True) if P[n][0] == "REAL" else sp.Symbol(f"member_{n}", integer=True))
            t = re.search(rf"const (\w+) {n} =", body).group(1)
            wt = "REAL_SIMD_ARRAY" if simd and P[n][0] == "REAL" else P[n][0]
            ctx.check(f"{h}: type of {n}", t == wt, "structure", bounded=True, cex=f"{t} {wt}")
        if not simd:
            arrs = sorted(want - scal)
            src = "#include <stdio.h>\n#include <string.h>\n#include <stdbool.h>\n#define REAL double\n#define MAYBE_UNUSED __attribute__((unused))\n"
            for s in ("commondata", "params"):
                src += "typedef struct {" + "".join(f"{t.split('[')[0]} {n}{'[' + t.split('[')[1] if '[' in t else ''};" for n, (t, df, cd, th, pf) in P.items() if t != "#define" and cd == (s == "commondata")) + "int dummy_;" + "} " + s + "_t;\n"
            src += "int main(void) { static commondata_t c_; static params_t p_;\n"
            for n in arrs:
                t = P[n][0]
                sz = int(t.split("[")[1][:-1])
                s = "c_" if P[n][2] else "p_"
                src += f'memset({s}.{n}, \'A\'+{len(n)}, {sz}-1); {s}.{n}[0] = \'{n[0]}\';\n'
            src += "{ const commondata_t *commondata = &c_; const params_t *params = &p_;\n" if op == "->" else "{ const commondata_t commondata = c_; const params_t params = p_;\n"
            src += txt + "\n" + "".join(f'printf("{n} %d %d\\n", strcmp({n}, {"c_" if P[n][2] else "p_"}.{n}), (int)(sizeof {n}));\n' for n in arrs) + "} return 0; }\n"
            stage, rc, out, err = native.build_run(src)
            ok = stage == "run" and rc == 0 and all(f"{n} 0 {P[n][0].split('[')[1][:-1]}\n" in out for n in arrs)
            ctx.check(f"{h}: character arrays are copied whole and terminated", ok, "native run (asan)", bounded=True, cex=f"{stage} {rc} {out[:400]} {err[:1500]}")


def u_defaults(ctx):
    """the two set_to_default functions assign every default, on every grid, and nothing else"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.CodeParameters as cp
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.BHaH.CodeParameters.register_CFunctions_params_commondata_struct_set_to_default")
    par.set_parval_from_str("Infrastructure", "BHaH")
    reset(par)
    P = populate(par)
    for n, nd in (("Par_0Y", "-2.75"), ):
        if n in P and P[n][0] == "REAL":
            par.adjust_CodeParam_default(n, -2.75)
            P[n] = (P[n][0], -2.75) + P[n][2:]
    cfc.CFunction_dict.clear()
    ctx.call("register set_to_default", cp.register_CFunctions_params_commondata_struct_set_to_default)
    f1, f2 = (cfc.CFunction_dict[k].full_function for k in ("commondata_struct_set_to_default", "params_struct_set_to_default"))
    src = "#include <stdio.h>\n#include <string.h>\n#include <stdbool.h>\n#define REAL double\n"
    for s in ("commondata", "params"):
        src += "typedef struct {" + "".join(f"{t.split('[')[0]} {n}{'[' + t.split('[')[1] if '[' in t else ''};" for n, (t, df, cd, th, pf) in P.items() if t != "#define" and cd == (s == "commondata"))
        src += ("int NUMGRIDS;" if s == "commondata" else "int dummy_;") + "} " + s + "_struct;\n"
    src += "typedef struct { params_struct params; } griddata_struct;\n" + re.sub(r"#include.*", "", f1 + f2)
    src += "int main(void) { static commondata_struct c; static griddata_struct g[3]; memset(&c, 0x5a, sizeof c); memset(g, 0x5a, sizeof g); c.NUMGRIDS = 2;\n"
    src += "commondata_struct_set_to_default(&c); c.NUMGRIDS = 2; params_struct_set_to_default(&c, g);\n"
    src += '#define SHOW(tag, o, t) { const unsigned char *q = (const unsigned char *)&(o); int un = 1; for (size_t i = 0; i < sizeof(o); i++) un &= q[i] == 0x5a; printf("%s %d ", tag, un); t }\n'
    for n, (t, df, cd, th, pf) in P.items():
        if t == "#define":
            continue
        for g in ((None,) if cd else (0, 1, 2)):
            o = f"c.{n}" if cd else f"g[{g}].params.{n}"
            b = t.split("[")[0]
            fm = {"REAL": "%.17g", "int": "%d", "bool": "%d", "char": "%s"}[b]
            if "[" in t and b != "char":
                body = "for (int i = 0; i < %s; i++) printf(\"%s,\", %s[i]); printf(\"\\n\");" % (t.split("[")[1][:-1], fm, o)
            else:
                body = ('if (!un) ' if b in ("char", "bool") else "") + f'printf("{fm}", {o}); printf("\\n");'
            src += f'SHOW("{n}:{g}", {o}, {body})\n'
    src += "return 0; }\n"
    stage, rc, out, err = native.build_run(src, san=False)
    if not (stage == "run" and rc == 0):
        ctx.check("the default functions compile and run", False, "gcc", cex=f"{stage} {rc} {err[:2000]}")
        return
    got = {l.split(" ", 2)[0]: l.split(" ", 2)[1:] for l in out.strip().split("\n")}
    for n, (t, df, cd, th, pf) in P.items():
        if t == "#define":
            continue
        for g in ((None,) if cd else (0, 1, 2)):
            un, val = got[f"{n}:{g}"][0], (got[f"{n}:{g}"] + [""])[1].strip()
            if df == "unset" or g == 2:
                ctx.check(f"{n} grid {g} is left alone", un == "1", "native run", bounded=True, cex=f"{un} {val}")
                continue
            b = t.split("[")[0]
            if b == "char":
                ok = val == df
            elif "[" in t:
                vals = [float(x) for x in val.split(",") if x]
                ok = len(vals) == int(t.split("[")[1][:-1]) and all(v == float(df) for v in vals)
            else:
                ok = float(val) == float(df)
            ctx.check(f"{n} ({t}) grid {g} gets its default", un == "0" and ok, "native run", bounded=True, cex=f"want {df} got {val} (untouched: {un})")


def u_registry(ctx):
    import nrpy.params as par
    ctx.under("nrpy.params.register_CodeParameter", "nrpy.params.register_CodeParameters", "nrpy.params.CodeParameter.__init__", "nrpy.params.adjust_CodeParam_default", "nrpy.params.register_param",
              "nrpy.params.set_parval_from_str", "nrpy.params.parval_from_str", "nrpy.params.NRPyParameter.__init__")
    # step contracts for an arbitrary pre-state: footprint + case split
    for present in (False, True):
        for add in (True, False):
            for asm in ("Real", "RealPositive"):
                reset(par)
                if present:
                    par.register_CodeParameter("int", "first", "pp", 4)
                par.register_CodeParameter("REAL", "oth", "other", 9.0)
                keep = {k: dict(v.__dict__) for k, v in par.glb_code_params_dict.items()}
                par.glb_code_params_dict = Spy(par.glb_code_params_dict)
                s = par.register_CodeParameter("REAL", "second", "pp", 1.5, assumption=asm, commondata=True, add_to_parfile=False, add_to_glb_code_params_dict=add, description="dd")
                d = par.glb_code_params_dict
                tag = f"register_CodeParameter present={present} add={add} {asm}"
                ctx.check(f"{tag}: footprint", (d.reads | d.writes) <= {"pp"} and d.writes == ({"pp"} if add and not present else set()), "footprint", cex=f"{d.reads} {d.writes}")
                want = sp.Symbol("pp", real=True, positive=True) if asm == "RealPositive" else sp.Symbol("pp", real=True)
                ctx.check(f"{tag}: symbol", s == want, "contract-exec", bounded=True, cex=f"{s} {s.assumptions0}")
                now = {k: dict(v.__dict__) for k, v in dict.items(d)}
                ctx.check(f"{tag}: others unchanged and first registration kept", all(now.get(k) == v for k, v in keep.items()), "contract-exec", bounded=True, cex=str(now))
                if add and not present:
                    v = now.get("pp", {})
                    exp = dict(cparam_type="REAL", module="second", name="pp", defaultvalue=1.5, assumption=asm, commondata=True, add_to_parfile=False, description="dd", add_to_set_CodeParameters_h=True)
                    ctx.check(f"{tag}: stored as given", all(v.get(k) == x for k, x in exp.items()), "contract-exec", bounded=True, cex=str(v))
                elif not add and not present:
                    ctx.check(f"{tag}: not stored", "pp" not in now, "contract-exec", bounded=True, cex=str(now))
                par.glb_code_params_dict = {}
    # lists: pairing of names, defaults and descriptions
    for n in (1, 2, 3, 5):
        names = [f"nm{i}" for i in range(n)]
        for dv in (2.5, [float(10 + i) for i in range(n)]):
            for ds in ("", [f"desc {i}" for i in range(n)]):
                reset(par)
                syms = par.register_CodeParameters("REAL", "m", list(names), dv, commondata=True, descriptions=ds)
                got = [(str(s), par.glb_code_params_dict[nm].defaultvalue, par.glb_code_params_dict[nm].description, par.glb_code_params_dict[nm].commondata) for s, nm in zip(syms, names)]
                want = [(nm, dv[i] if isinstance(dv, list) else dv, ds[i] if isinstance(ds, list) else "", True) for i, nm in enumerate(names)]
                ctx.check(f"register_CodeParameters {n} {type(dv).__name__} {type(ds).__name__}", got == want and list(par.glb_code_params_dict) == names, "exhaustive", bounded=True, cex=f"{got} {want}")
    fr = lambda: sorted((k, str(sorted(map(str, v.__dict__.items())))) for k, v in par.glb_code_params_dict.items())
    reset(par)
    R = par.register_CodeParameter
    RS = par.register_CodeParameters
    ctx.raises("default required with add_to_parfile", lambda: R("REAL", "m", "q1"), ValueError, fr)
    ctx.raises("unknown assumption", lambda: R("REAL", "m", "q2", 1.0, assumption="Complex"), ValueError, fr)
    for t in ("REAL[4]", "int[4]"):
        for cd, th in ((False, False), (False, True), (True, True)):
            ctx.raises(f"{t} array needs commondata and no header {cd} {th}", lambda t=t, cd=cd, th=th: R(t, "m", "q3", 1, commondata=cd, add_to_set_CodeParameters_h=th), ValueError, fr)
    ctx.raises("list lengths", lambda: RS("REAL", "m", ["a", "b"], [1.0]), ValueError, fr)
    ctx.raises("description lengths", lambda: RS("REAL", "m", ["a", "b"], 1.0, descriptions=["x"]), ValueError, fr)
    ctx.raises("single description", lambda: RS("REAL", "m", ["a", "b"], 1.0, descriptions="x"), ValueError, fr)
    ctx.raises("names must be a list", lambda: RS("REAL", "m", "ab", 1.0), ValueError, fr)
    ctx.raises("empty name list", lambda: RS("REAL", "m", [], 1.0), ValueError, fr)
    ctx.raises("name must be a string", lambda: R("REAL", "m", ["ab"], 1.0), TypeError, fr)
    ctx.raises("adjust unknown", lambda: par.adjust_CodeParam_default("nope", 1.0), ValueError, fr)
    R("#define", "m", "DD", 3)
    ctx.check("#define parameters stay out of parfiles and headers", not par.glb_code_params_dict["DD"].add_to_parfile and not par.glb_code_params_dict["DD"].add_to_set_CodeParameters_h, "contract-exec", bounded=True)
    R("REAL", "m", "z1", 1.0)
    R("REAL", "m", "z2", 2.0)
    par.adjust_CodeParam_default("z1", 5.0)
    ctx.check("adjust_CodeParam_default changes one default", par.glb_code_params_dict["z1"].defaultvalue == 5.0 and par.glb_code_params_dict["z2"].defaultvalue == 2.0, "contract-exec", bounded=True)
    # NRPy parameters
    for typ, v0, v1 in ((int, 3, 4), (str, "a", "b"), (float, 1.5, 2.5), (bool, False, True)):
        par.glb_params_dict.pop("zz_par", None)
        par.register_param(typ, "modz", "zz_par", v0, "text")
        others = {k: v.value for k, v in par.glb_params_dict.items() if k != "zz_par"}
        ok = par.parval_from_str("zz_par") == v0 and par.parval_from_str("modz::zz_par") == v0 and par.glb_params_dict["zz_par"].description == "text"
        par.register_param(typ, "other", "zz_par", v1)
        ok1 = par.parval_from_str("zz_par") == v0
        par.set_parval_from_str("zz_par", v1)
        ok2 = par.parval_from_str("zz_par") == v1 and {k: v.value for k, v in par.glb_params_dict.items() if k != "zz_par"} == others
        ctx.check(f"NRPy parameter {typ.__name__}: register, re-register, set, read", ok and ok1 and ok2, "contract-exec", bounded=True, cex=f"{ok} {ok1} {ok2}")
    fp = lambda: sorted((k, str(v.value)) for k, v in par.glb_params_dict.items())
    ctx.raises("parameter type rejected", lambda: par.register_param(list, "m", "zz_bad", []), ValueError, fp)
    ctx.raises("unknown parameter read", lambda: par.parval_from_str("nope_"), ValueError, fp)
    ctx.raises("unknown parameter set", lambda: par.set_parval_from_str("nope_", 1), ValueError, fp)


def u_et(ctx):
    """Cactus parameter access and param.ccl"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.CarpetX.CodeParameters as cxp
    import nrpy.infrastructures.CarpetX.param_ccl as cxc
    import nrpy.infrastructures.ETLegacy.CodeParameters as etp
    import nrpy.infrastructures.ETLegacy.param_ccl as etc
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.ETLegacy.CodeParameters.read_CodeParameters", "nrpy.infrastructures.CarpetX.CodeParameters.read_CodeParameters", "nrpy.infrastructures.*.param_ccl.construct_param_ccl")
    reset(par)
    nm = ["alp", "bet", "Zed", "eta_d"]
    par.register_CodeParameters("CCTK_REAL", "m", nm, [0.5, 1.5, 2.5, 3.5])
    par.register_CodeParameter("CCTK_INT", "m", "Npt", 3)
    par.register_CodeParameter("CCTK_REAL", "m", "Wid", 3.25)
    tup = [("ThB", "Zed"), ("ThA", "bet"), ("ThB", "alp"), ("ThC", "Npt"), ("ThA", "Wid")]
    for name, mod in (("ETLegacy", etp), ("CarpetX", cxp)):
        for simd in (True, False):
            for inv in (True, False):
                for sel in ([], tup, tup[:1]):
                    txt = ctx.call("read_CodeParameters", mod.read_CodeParameters, list_of_tuples__thorn_CodeParameter=sel, enable_simd=simd, declare_invdxxs=inv)
                    tag = f"{name} simd={simd} invdxx={inv} {len(sel)} parameters"
                    if name == "CarpetX" and not simd:
                        t2 = txt.replace("DECLARE_CCTK_PARAMETERS", "")
                        ctx.check(f"{tag}: parameters declared through DECLARE_CCTK_PARAMETERS", ("DECLARE_CCTK_PARAMETERS" in txt) or not sel, "structure", bounded=True, cex=txt)
                        want_par = []
                    else:
                        t2, want_par = txt, sel
                    t2 = re.sub(r'CCTK_ParameterGet\("(\w+)",\s*"(\w+)",\s*NULL\)', r"&par__\2__\1", t2)
                    t2 = re.sub(r"CCTK_DELTA_SPACE\((\d)\)", r"delta_\1", t2)
                    t2 = re.sub(r"\*\(\s*const CCTK_INT\s*\*\s*\)\s*&", "", t2)
                    val = lambda k: cexec.CInt(sp.Symbol(re.sub(r"\[0\]$", "", k), integer=True)) if "Npt" in k else sp.Symbol(re.sub(r"\[0\]$", "", k), real=True) if re.fullmatch(r"(par__\w+|delta_\d)(\[0\])?", k) else None
                    try:
                        ex = cexec.run_kernel(t2, resolver=val)
                    except (cexec.CUndeclared, cexec.CParseError) as e:
                        ctx.check(f"{tag}: well formed", False, "c-symexec", cex=f"{e}\n{txt}")
                        continue
                    decl = set(re.findall(r"const (?:CCTK_REAL|REAL_SIMD_ARRAY|CCTK_INT) (?!NOSIMD)(\w+) =", t2))
                    want = {p for _, p in want_par} | ({f"invdxx{i}" for i in range(3)} if inv else set())
                    ctx.check(f"{tag}: declared names", decl == want, "exhaustive", bounded=True, cex=f"{decl} {want}\n{txt}")
                    for th, p in want_par:
                        if p in decl:
                            ctx.eq(f"{tag}: {p}", cexec.real(ex.lookup(p)), sp.Symbol(f"par__{th}__{p}", integer=True) if p == "Npt" else sp.Symbol(f"par__{th}__{p}", real=True))
                    if inv:
                        for i in range(3):
                            if f"invdxx{i}" in decl:
                                ctx.eq(f"{tag}: invdxx{i}", cexec.real(ex.lookup(f"invdxx{i}")), 1 / sp.Symbol(f"delta_{i}", real=True))
        ctx.raises(f"{name}: unregistered parameter", lambda mod=mod: mod.read_CodeParameters([("T", "nope_")], True, True), KeyError)
    par.register_CodeParameter("char[10]", "m", "strp", "x")
    for name, mod in (("ETLegacy", etp), ("CarpetX", cxp)):
        ctx.raises(f"{name}: char array", lambda mod=mod: mod.read_CodeParameters([("T", "strp")], True, True), ValueError)
    for name, mod in (("ETLegacy", etc), ("CarpetX", cxc)):
        cfc.CFunction_dict.clear()
        for fn, th, used in (("f1", "ThA", ["bet", "alp"]), ("f2", "ThA", ["alp", "Zed"]), ("f3", "ThB", ["eta_d"]), ("f4", "ThA", None), ("f5", "ThA", []), ("f6", "ThB", ["Npt"])):
            cfc.register_CFunction(subdirectory=th, desc="d", name=fn, params="", body="x=1;", ET_thorn_name=th, ET_current_thorn_CodeParams_used=used)
        with tempfile.TemporaryDirectory() as d:
            for th, want in (("ThA", ["Zed", "alp", "bet"]), ("ThB", ["Npt", "eta_d"]), ("ThC", [])):
                share = f"shares: Base{th}" if th != "ThC" else ""
                ret = mod.construct_param_ccl(d, th, share) if share else mod.construct_param_ccl(d, th)
                txt = open(os.path.join(d, th, "param.ccl"), encoding="utf-8").read()
                live = "\n".join(x for x in txt.split("\n") if not x.strip().startswith("#"))
                got = re.findall(r"^\s*(\w+) (\w+) \"[^\"]*\"\s*\{\s*\*:\* :: \"[^\"]*\"\s*\} (\S+)", live, re.M)
                rest = re.sub(r"^\s*(\w+) (\w+) \"[^\"]*\"\s*\{\s*\*:\* :: \"[^\"]*\"\s*\} (\S+)", "", live, flags=re.M).split()
                ctx.check(f"{name} param.ccl of {th}: shared blocks first, then one restricted block", rest == share.split() + ["restricted:"], "exhaustive", bounded=True, cex=txt)
                exp = [(par.glb_code_params_dict[n].cparam_type, n, str(par.glb_code_params_dict[n].defaultvalue)) for n in want]
                ctx.check(f"{name} param.ccl of {th} declares each used parameter once", sorted(got) == sorted(exp) and sorted(ret) == sorted(want), "exhaustive", bounded=True, cex=f"{got} {ret}\n{txt}")


def units():
    return [Unit("structs", u_structs), Unit("headers", u_headers, (False,)), Unit("headers commondata only", u_headers, (True,)), Unit("defaults", u_defaults), Unit("registries", u_registry), Unit("Cactus parameters", u_et)]
