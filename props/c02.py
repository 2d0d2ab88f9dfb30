"""C02  Generated finite-difference kernels compute the requested derivatives."""
import itertools

import sympy as sp

from props.c01 import spec as fd_spec
from vf import algnf, cexec, fdk
from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.c_codegen", "nrpy.finite_difference", "nrpy.grid", "nrpy.indexedexp"]
ASSUMPTIONS = ["REAL arithmetic in the generated C is treated as exact real arithmetic",
               "IDX4 / CCTK_GFINDEX3D / GF(p.I+..) are injective index maps (their own contract: property C05 for IDX4)",
               "SIMD intrinsics obey the lane-wise contracts that property C04 proves for the shipped headers",
               "UPWIND_ALG(x) is 1 for x>0 and 0 otherwise (proved for the shipped macro definitions in this check and in C04)"]
BOUNDS = ["enumerated configurations: infrastructures x orders x SIMD x FD functions x CSE options x memory layout; expression shapes: all derivative operators on rank 0,1,2 gridfunctions",
          "for each configuration the identity is proved for all values of all grid points, parameters and grid spacings"]


def setup(infra, order):
    import nrpy.finite_difference  # noqa: registers fd_order
    import nrpy.grid as gri
    import nrpy.indexedexp as ixp
    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", infra)
    par.set_parval_from_str("fd_order", order)
    gri.glb_gridfcs_dict.clear()
    return gri, ixp, par


def fd_value(infra, var_gf, arrays, op, order):
    inv = [sp.Symbol(f"invdxx{d}", real=True) for d in range(3)]
    name, dirs = op.rstrip("0123456789"), [int(c) for c in op if c.isdigit()]
    fac = sp.prod([inv[d] for d in dirs])
    return fac * sum(c * fdk.mem_sym(infra, var_gf, arrays[var_gf], off) for off, c in fd_spec(op, order).items())


def family(infra, order, which, ixp, gri, par):
    """-> exprs, free parameters, gf->array, deriv symbol -> (gf, op), upwind control"""
    arr = {}

    def reg(kind, base, group="EVOL", **kw):
        g = dict(group=group)
        if kind == 0:
            r = gri.register_gridfunctions(base, **g)[0]
            names = [base]
        elif kind == 1:
            r = gri.register_gridfunctions_for_single_rank1(base, **g)
            names = [f"{base}{i}" for i in range(3)]
        else:
            r = gri.register_gridfunctions_for_single_rank2(base, symmetry=kw.get("symmetry"), **g)
            names = sorted({str(r[i][j]) for i in range(3) for j in range(3)})
        for n in names:
            arr[n] = {"EVOL": "in_gfs", "AUXEVOL": "auxevol_gfs", "AUX": "aux_gfs"}[group]
        return r

    D = {}
    ctrl = None
    c0, c1 = sp.symbols("c0 c1", real=True)
    if which == "scalar":
        uu = reg(0, "uu")
        vv = reg(0, "vv", "AUXEVOL")
        exprs = []
        u_dD, u_dDD, u_KO, v_dD = ixp.declarerank1("uu_dD"), ixp.declarerank2("uu_dDD", symmetry="sym01"), ixp.declarerank1("uu_dKOD"), ixp.declarerank1("vv_dD")
        for i in range(3):
            D[u_dD[i]] = ("uu", f"dD{i}")
            D[u_KO[i]] = ("uu", f"dKOD{i}")
            D[v_dD[i]] = ("vv", f"dD{i}")
            for j in range(i, 3):
                D[u_dDD[i][j]] = ("uu", f"dDD{i}{j}")
        exprs.append(sum(u_dDD[i][i] for i in range(3)) * c0 + vv * u_dD[0] - u_dD[1] * v_dD[2] / 3)
        exprs.append(c1 * u_dDD[0][1] + u_dDD[0][2] * uu**2 - u_dDD[1][2] / vv + sp.Rational(2, 7) * v_dD[0])
        exprs.append(sum((i + 1) * u_KO[i] for i in range(3)) + u_dD[2] * u_dD[1])
        exprs.append(sp.sin(uu) * vv + c0)
    elif which == "vector":
        w = reg(1, "wU")
        b = reg(1, "bU")
        ph = reg(0, "ph", "AUXEVOL")
        w_up = ixp.declarerank2("wU_dupD", symmetry="nosym")
        w_dD = ixp.declarerank2("wU_dD", symmetry="nosym")
        p_up = ixp.declarerank1("ph_dupD")
        w_dDD = ixp.declarerank3("wU_dDD", symmetry="sym12")
        for i in range(3):
            D[p_up[i]] = ("ph", f"dupD{i}")
            for j in range(3):
                D[w_up[i][j]] = (f"wU{i}", f"dupD{j}")
                D[w_dD[i][j]] = (f"wU{i}", f"dD{j}")
                for k in range(j, 3):
                    D[w_dDD[i][j][k]] = (f"wU{i}", f"dDD{j}{k}")
        ctrl = b
        exprs = [sum(b[j] * w_up[i][j] for j in range(3)) + c0 * w_dD[i][(i + 1) % 3] for i in range(3)]
        exprs.append(sum(b[j] * p_up[j] for j in range(3)) - sum(w_dDD[j][j][0] for j in range(3)) + w_dDD[2][1][2])
    elif which == "updirs":  # only two of the three directions are upwinded
        w = reg(1, "wU")
        b = reg(1, "bU", "AUXEVOL")
        w_up = ixp.declarerank2("wU_dupD", symmetry="nosym")
        for i in range(3):
            for j in range(3):
                D[w_up[i][j]] = (f"wU{i}", f"dupD{j}")
        ctrl = b
        exprs = [b[0] * w_up[1][0] + b[2] * w_up[0][2] + c0 * w[1], w_up[2][2] ** 2 - w[0]]
    elif which == "tensor":
        h = reg(2, "hDD", symmetry="sym01")
        h_dD = ixp.declarerank3("hDD_dD", symmetry="sym01")
        h_dDD = ixp.declarerank4("hDD_dDD", symmetry="sym01_sym23")
        h_KO = ixp.declarerank3("hDD_dKOD", symmetry="sym01")
        for i in range(3):
            for j in range(i, 3):
                for k in range(3):
                    D[h_dD[i][j][k]] = (f"hDD{i}{j}", f"dD{k}")
                    D[h_KO[i][j][k]] = (f"hDD{i}{j}", f"dKOD{k}")
                    for ll in range(k, 3):
                        D[h_dDD[i][j][k][ll]] = (f"hDD{i}{j}", f"dDD{k}{ll}")
        exprs = [h_dD[0][1][2] * h_dD[1][2][0] + c0 * h[0][2] - h_dD[2][0][1], h_dDD[0][1][1][2] / 2 + h_dDD[2][2][0][0] * h[1][1] - h_dDD[1][1][2][1],
                 h_KO[0][0][0] + c1 * h_KO[1][2][2] - h_KO[2][2][1]]
    return exprs, [c0, c1], arr, D, ctrl


def u_kernel(ctx, infra, order, which, opts):
    gri, ixp, par = setup(infra, order)
    import nrpy.c_codegen as ccg
    import nrpy.finite_difference as fin

    ctx.under("c_codegen.c_codegen", "c_codegen.gridfunction_management_and_FD_codegen", "finite_difference.read_gfs_from_memory",
              "finite_difference.extract_list_of_deriv_var_strings_from_sympyexpr_list",
              "finite_difference.extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars",
              "finite_difference.proto_FD_operators_to_sympy_expressions", "finite_difference.fd_temp_variable_name",
              "finite_difference.FDFunction.c_function_call", "finite_difference.FDFunction.CFunction_fd_function",
              "finite_difference.construct_FD_functions_prefunc", f"grid.{infra}GridFunction.read_gf_from_memory_Ccode_onept")
    opts = dict(opts)
    hist = opts.pop("history", False)
    exprs, free, arr, D, ctrl = family(infra, order, which, ixp, gri, par)
    free = free + [sp.Symbol(f"invdxx{d}", real=True) for d in range(3)]
    if ctrl is not None:
        opts["upwind_control_vec"] = ctrl
    simd = opts.get("enable_simd", False)
    if infra == "BHaH":
        outs = [f"rhs_gfs[IDX4({sorted(arr)[0].upper()}GF, i0, i1+{n}, i2)]" for n in range(len(exprs))]
        okeys = [f"rhs_gfs[IDX4({sorted(arr)[0].upper()}GF, i0, {sp.expand(fdk.i1 + n)}, i2)]" for n in range(len(exprs))]
    elif infra == "ETLegacy":
        outs = [f"out{n}GF[CCTK_GFINDEX3D(cctkGH, i0, i1, i2)]" for n in range(len(exprs))]
        okeys = outs
    else:
        outs = [f"out{n}GF(p.I)" for n in range(len(exprs))]
        okeys = outs
    if hist:  # an earlier, different request must not leak into this one
        gri2 = gri
        ccg.c_codegen([list(D)[0] * 3 + list(D)[-1]], ["hist_out"], enable_fd_codegen=True, enable_fd_functions=True, verbose=False, include_braces=False,
                      **({"upwind_control_vec": ctrl} if ctrl is not None else {}))
    snap = [sp.srepr(e) for e in exprs]
    code = ctx.call("c_codegen", ccg.c_codegen, exprs, outs[:], enable_fd_codegen=True, verbose=False, include_braces=False, **opts)
    ctx.check("frame: input expressions unchanged", snap == [sp.srepr(e) for e in exprs], "term identity", cex="c_codegen modified its input list")
    funcs = {}
    if opts.get("enable_fd_functions"):
        pre = ctx.call("construct_FD_functions_prefunc", fin.construct_FD_functions_prefunc)
        funcs = cexec.functions_of(pre)
    m = fdk.GFMachine(infra, list(arr) + [f"out{n}" for n in range(len(exprs))], arr, free)
    try:
        paths = cexec.explore(lambda p: cexec.run_kernel(code, functions=funcs, resolver=m.resolver, on_call=m.on_call, path=p))
    except (cexec.CUndeclared, cexec.CParseError) as e:
        ctx.add("generated code is well formed (every identifier declared before use)", "refuted", "cexec", f"{e}\n{code[:3000]}", f"{type(e).__name__} {str(e)[:300]} in code generated for {which} {infra} order {order} {opts}")
        return
    ctx.cover("paths", len(paths) == (2 ** len({op[-1] for g, op in D.values() if op.startswith("dupD")} & ({str(d) for s in exprs for d in []} | {"0", "1", "2"})) if ctrl is not None and which == "vector" else len(paths)), f"{len(paths)} paths")
    for cond, ex in paths:
        # decode the path condition: sign of the control vector components
        sign = {}
        if ctrl is not None:
            for c in cond:
                for d in range(3):
                    cs = fdk.mem_sym(infra, str(ctrl[d]), arr[str(ctrl[d])], (0, 0, 0))
                    if c == sp.Gt(cs, 0):
                        sign[d] = True
                    elif c == sp.Not(sp.Gt(cs, 0)) or c == sp.Le(cs, 0):
                        sign[d] = False
        sub = {}
        for s, (g, op) in D.items():
            if op.startswith("dupD"):
                d = int(op[-1])
                if d not in sign:
                    if not any(e.has(s) for e in exprs):
                        continue
                    ctx.add(f"upwind direction {d} controlled by component {d} of the control vector", "refuted", "cexec", f"path conditions {cond}", f"derivative {s}: no test of {ctrl[d]}>0 on a path; path conditions {cond}")
                    return
                op = op if sign[d] else op.replace("dupD", "ddnD")
            sub[s] = fd_value(infra, g, arr, op, order)
        base = {f: fdk.mem_sym(infra, str(f), arr[str(f)], (0, 0, 0)) for e in exprs for f in e.free_symbols if str(f) in arr}
        base.update({f: sp.Symbol(str(f), real=True) for e in exprs for f in e.free_symbols if f not in base and f not in D})
        tag = "".join("+" if sign[d] else "-" for d in sorted(sign))
        for n, (e, k) in enumerate(zip(exprs, okeys)):
            if k in ex.mem:
                got = ex.mem[k]
            else:
                ctx.add(f"output {n} written{tag}", "refuted", "cexec", f"writes {sorted(ex.writes)}\n{code[:2000]}", f"no store to {outs[n]}")
                continue
            want = e.xreplace(sub).xreplace(base)
            ctx.eq(f"output {n} {tag} == stencil applied to memory", cexec.real(got), want)
        extra = [w for w in ex.writes if w not in okeys and ("[" in w or "(" in w)]
        ctx.check(f"frame {tag}: nothing else written", not extra, "cexec", cex=f"extra stores {extra}")


def u_names(ctx):
    """derivative names parse back to (gridfunction, operator) for every rank, operator and component"""
    import nrpy.finite_difference as fin

    ctx.under("finite_difference.extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars", "finite_difference.fd_temp_variable_name")
    bases = {0: ["u", "phi", "a_b", "alpha", "uu"], 1: ["vU", "betU", "lambdaU", "x_yU"], 2: ["hDD", "aUU", "mUD", "q_rDU"]}
    n = 0
    for rank, bl in bases.items():
        for b in bl:
            for comp in itertools.product("012", repeat=rank):
                for op in ("dD", "dDD", "dupD", "ddnD", "dKOD"):
                    for dirs in itertools.product("012", repeat=2 if op == "dDD" else 1):
                        v = sp.Symbol(f"{b}_{op}{''.join(comp)}{''.join(dirs)}")
                        g, o = fin.extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars([v])
                        n += 1
                        if g != [b + "".join(comp)] or o != [op + "".join(dirs)]:
                            ctx.add("derivative name parses back", "refuted", "exhaustive", "", f"{v} -> {g} {o}")
                            return
    ctx.check(f"{n} derivative names parse back to (gridfunction, operator)", True, "exhaustive", bounded=True)
    for bad in ("hDD_dD01", "vU_dD0", "u_dDD0", "hDD_dDD012"):
        ctx.raises(f"{bad}: index count mismatch rejected", lambda: fin.extract_base_gfs_and_deriv_ops_lists__from_list_of_deriv_vars([sp.Symbol(bad)]), TypeError)
    seen = {}
    ok = True
    for off in itertools.product(range(-6, 7), repeat=3):
        nm = fin.fd_temp_variable_name("gf", *off)
        if nm in seen:
            ok = False
            ctx.add("temporaries for distinct points have distinct names", "refuted", "exhaustive", "", f"{off} and {seen[nm]} -> {nm}")
            break
        seen[nm] = off
    if ok:
        ctx.check("temporaries for distinct points have distinct names", True, "exhaustive", bounded=True)


def u_upwind_macro(ctx, simd):
    """the UPWIND_ALG macro shipped in BHaH_defines.h (no-SIMD) / scalar simd header"""
    import os
    import subprocess
    import tempfile
    from pathlib import Path as P

    import nrpy.params as par

    par.set_parval_from_str("Infrastructure", "BHaH")
    ctx.under("BHaH_defines_h.output_BHaH_defines_h")
    if simd:
        src = f'#include "{os.environ.get("VERIF_REPO", "/repo")}/nrpy/helpers/simd_intrinsics.h"\n'
        flags = ["-mno-avx", "-mno-sse2", "-U__SSE2__", "-U__AVX__", "-U__AVX512F__"]
    else:
        import nrpy.infrastructures.BHaH.BHaH_defines_h as bh
        import nrpy.infrastructures.BHaH.CodeParameters  # noqa

        d = tempfile.mkdtemp()
        ctx.call("output_BHaH_defines_h", bh.output_BHaH_defines_h, project_dir=d, enable_intrinsics=False, define_no_simd_UPWIND_ALG=True)
        txt = P(d, "BHaH_defines.h").read_text()
        # the macro layer only: no #include of system headers
        src = "\n".join(ln for ln in txt.split("\n") if not ln.strip().startswith("#include"))
        flags = []
    pre = subprocess.run(["gcc", "-E", "-P", *flags, "-x", "c", "-"], input=src + "\n@@@\nconst REAL r = UPWIND_ALG(x);\n", capture_output=True, text=True)
    if pre.returncode:
        raise cexec.CUnsupported(pre.stderr[-800:])
    line = pre.stdout.split("@@@")[1]
    x = sp.Symbol("x", real=True)
    paths = cexec.explore(lambda p: cexec.run_kernel(line, inputs={"x": x}, path=p))
    ctx.cover("both signs reachable", len(paths) == 2)
    for cond, ex in paths:
        pos = cond == [sp.Gt(x, 0)]
        neg = cond == [sp.Le(x, 0)] or cond == [sp.Not(sp.Gt(x, 0))]
        v = ex.scopes[0]["r"]
        ctx.check(f"UPWIND_ALG on {cond}", (pos and v == 1) or (neg and v == 0), "cexec", cex=f"{line.strip()} on {cond} gives {v}")


def units():
    us = [Unit("names", u_names), Unit("upwind-macro/defines", u_upwind_macro, (False,)), Unit("upwind-macro/scalar-simd", u_upwind_macro, (True,))]
    orders = [2, 4, 6, 8] if not thorough() else [2, 4, 6, 8, 10, 12]
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        for order in orders:
            for which in ("scalar", "vector", "tensor", "updirs"):
                for simd in (False, True):
                    for fdf in (False, True):
                        full = thorough() or order in (2, 4)
                        if not full and (simd and fdf and infra != "BHaH"):
                            continue
                        o = dict(enable_simd=simd, enable_fd_functions=fdf)
                        us.append(Unit(f"{infra}/o{order}/{which}/{'simd' if simd else 'scalar'}/{'fdfun' if fdf else 'inline'}", u_kernel, (infra, order, which, o), weight=order))
    for which in ("scalar", "vector", "tensor"):
        for nm, o in (("golden", dict(enable_GoldenKernels=True)), ("golden-simd", dict(enable_GoldenKernels=True, enable_simd=True)),
                      ("golden-simd-fd", dict(enable_GoldenKernels=True, enable_simd=True, enable_fd_functions=True)),
                      ("nocse", dict(enable_cse=False)), ("pre", dict(enable_cse_preprocess=True)), ("mem012", dict(mem_alloc_style="012")),
                      ("moresubs", dict(enable_simd=True, simd_find_more_subs=True)), ("nofma", dict(enable_simd=True, simd_find_more_FMAsFMSs=False)),
                      ("history", dict(history=True)), ("history-fd", dict(history=True, enable_fd_functions=True)),
                      ("cse-none", dict(cse_sorting="none")), ("float", dict(fp_type="float")), ("longdouble", dict(fp_type="long double", enable_fd_functions=True))):
            us.append(Unit(f"BHaH/o4/{which}/{nm}", u_kernel, ("BHaH", 4, which, o), weight=4))
    return us
