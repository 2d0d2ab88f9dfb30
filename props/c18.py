"""C18  Generated grids are the uniform cell-centred grids requested, with consistent maps to Cartesian space and a CFL-limited timestep."""
import itertools
import os
import re
import tempfile

import sympy as sp

from vf import bhah, cexec
from vf.coords import ALL, EXTRA
from vf.core import Unit
from props.c15 import cpp
from props.c12 import sampler

LEVEL = "other"
EXPLANATION = ("The generated C is executed symbolically along every path and each postcondition is an identity of the resulting terms, discharged for all parameter values (proved); inverse coordinate maps with piecewise or inverse functions are "
               "evaluated at points of every coordinate range (bounded).")
PREIMPORT = ["nrpy.infrastructures.BHaH.numerical_grids_and_timestep", "nrpy.infrastructures.BHaH.xx_tofrom_Cart", "nrpy.infrastructures.superB.numerical_grids", "nrpy.infrastructures.BHaH.BHaH_defines_h"]
ASSUMPTIONS = ["machine arithmetic treated as real arithmetic (conversion to int modelled as truncation)", "Nxx >= 1, xxmax > xxmin, points inside the grid including ghost zones for the nearest-index contract", "superB: one grid (NUMGRIDS == 1), Nxx divisible by Nchare"]
BOUNDS = ["coordinate systems and options enumerated"]
TYPEDEFS = ("commondata_struct", "params_struct", "griddata_struct", "bc_struct", "rfm_struct", "bool")

NG = "nrpy.infrastructures.BHaH.numerical_grids_and_timestep."
XT = "nrpy.infrastructures.BHaH.xx_tofrom_Cart."


def setup(coord, size=True):
    import contextlib
    import io
    import nrpy.infrastructures.BHaH.MoLtimestepping.MoL  # noqa: F401
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    bhah.reset()
    par.set_parval_from_str("fd_order", 4)
    par.set_parval_from_str("CoordSystem_to_register_CodeParameters", "All")
    with contextlib.redirect_stdout(io.StringIO()):
        return refmetric.reference_metric[coord]


def texts(ctx, names):
    """preprocessed generated sources: project headers' macros and parameter declarations expanded, other includes dropped"""
    import nrpy.c_function as cfc
    if "main" not in cfc.CFunction_dict:
        cfc.register_CFunction(name="main", desc="d", cfunc_type="int", params="int argc, char *argv[]", body="return 0;")
    with tempfile.TemporaryDirectory() as d:
        ctx.call("project files", bhah.write, d)
        defs = open(os.path.join(d, "BHaH_defines.h"), encoding="utf-8").read().replace("\\\n", " ")
        lines = [ln for ln in defs.split("\n") if ln.startswith("#define") and "__attribute__" not in ln]
        defs = "\n".join(ln for ln in lines if "({" not in ln) + "\n#define MAYBE_UNUSED\n#define restrict\n"
        for ln in lines:  # GNU statement expressions become functions of doubles with the same body
            m = re.match(r"#define\s+(\w+)\(([^)]*)\)\s*\(\{(.*)\}\)\s*$", ln)
            if m:
                st = [x.strip() for x in m.group(3).split(";") if x.strip()]
                st = [re.sub(r"__typeof__\s*\(\w+\)", "double", x) for x in st]
                defs += f"static double {m.group(1)}({', '.join('double ' + a.strip() for a in m.group(2).split(','))}) {{ {'; '.join(st[:-1] + ['return ' + st[-1]])}; }}\n"
        out = {}
        for n in names:
            s = cfc.CFunction_dict[n].full_function

            def inc(m):
                f = os.path.join(d, os.path.basename(m.group(1)))
                return open(f, encoding="utf-8").read().replace("MAYBE_UNUSED", "") if "CodeParameters" in f else ""
            s = re.sub(r'^\s*#include\s+"([^"]+)"', inc, s, flags=re.M)
            out[n] = cpp(defs + s)
    return out


def kinds():
    import nrpy.params as par
    return {n.split("[")[0]: p.cparam_type for n, p in par.glb_code_params_dict.items()}


def machine(F, path=None, ptrs=("params", "commondata"), on_call=None, arrays=()):
    K = kinds()

    def typ(key):
        m = re.fullmatch(r".*(?:->|\.)(\w+)", key)
        if m and m.group(1) in K:
            return "int" if K[m.group(1)].startswith(("int", "#define")) else ("real" if K[m.group(1)] == "REAL" else "other")
        return "real"

    def res(key):
        if re.fullmatch(r"[A-Z][A-Z0-9_]*", key) and "->" not in key:
            return None
        t = typ(key)
        if t == "int" or re.match(r"(Nx|chare_index)\[", key):
            return cexec.CInt(sp.Symbol(key, integer=True))
        if t == "other":
            return cexec.Ref(key)
        return sp.Symbol(key, real=True)
    ex = cexec.Exec(functions=F, resolver=res, path=path, on_call=on_call or heap([]))
    ex.generic, ex.ftype = True, typ
    return ex


def heap(log):
    def on_call(ex, name, argn):
        if name == "malloc":
            r = cexec.Ref(f"heap{len(log)}")
            log.append(cexec.real(ex.ev(argn[0])))
            return r
        if name in ("snprintf",):
            log.append([a.value if hasattr(a, "value") else ex.key_of(a) for a in argn if not hasattr(a, "expr")])
            return 0
        if name == "exit":
            raise Exit()
        if name == "strncpy":
            return 0
        return None
    return on_call


def visible(ex):
    return {w for w in ex.writes if re.match(r"(params|commondata|griddata|xx|xCart|idx)\b", w)}


class Exit(Exception):
    pass


def rsub(e, mem, pre):
    """rfm expression -> the stored parameter values"""
    e = sp.sympify(e)
    return e.subs({s: cexec.real(mem.get(f"{pre}{s}", sp.Symbol(f"{pre}{s}", real=True))) for s in e.free_symbols}, simultaneous=True)


def same(ctx, name, a, b, **kw):
    if sp.expand(a - b) == 0:
        return ctx.add(name, "proved", "expand", "", None, 0.0)
    return ctx.eq(name, a, b, **kw)


def u_grid(ctx, coord):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    ctx.under(NG + "register_CFunction_numerical_grid_params_Nxx_dxx_xx")
    rfm = setup(coord)
    dflt = [5, 2, 9]
    ctx.raises("no resolution for this coordinate system is rejected", lambda: ng.register_CFunction_numerical_grid_params_Nxx_dxx_xx(coord, {"Other": dflt}), ValueError, frame=lambda: sorted(cfc.CFunction_dict))
    ctx.call("register", ng.register_CFunction_numerical_grid_params_Nxx_dxx_xx, coord, {coord: dflt, "Other": [7, 7, 7]})
    name = f"numerical_grid_params_Nxx_dxx_xx__rfm__{coord}"
    F = cexec.functions_of(texts(ctx, [name])[name], TYPEDEFS)

    def run(path):
        log = []
        ex = machine(F, path, on_call=heap(log))
        ex.call(F[name], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("xx"), cexec.Ref("Nx"), cexec.CBool(sp.Ne(sp.Symbol("setdef", integer=True), 0))])
        return ex, log
    cf = sp.Symbol("commondata->convergence_factor", real=True)
    L = sp.Symbol("params->grid_physical_size", real=True)
    trunc = sp.Function("ctrunc")
    n = 0
    for cond, (ex, log) in cexec.explore(run, max_paths=600):
        n += 1
        cs = set(cond)
        Nx = [sp.Symbol(f"Nx[{d}]", integer=True) for d in range(3)]
        over = all(sp.Ne(x, -1) in cs for x in Nx)
        setdef = sp.Ne(sp.Symbol("setdef", integer=True), 0) in cs
        some = any(sp.Eq(x, -1) in cs or sp.Not(sp.Ne(x, -1)) in cs for x in Nx)
        ctx.check(f"path {n}: decides whether sizes are overridden", over != some, "symexec", cex=str(cond))
        P = lambda k: cexec.real(ex.mem.get(f"params->{k}", sp.Symbol(f"params->{k}", real=True)))
        t = f"path {n} ({'given' if over else 'default'} sizes, {'default' if setdef else 'kept'} ranges)"
        bad = []
        for d in range(3):
            base = Nx[d] if over else sp.Integer(dflt[d])
            two = sp.Eq(base, 2) in cs or sp.Not(sp.Ne(base, 2)) in cs or base == 2
            want = base if two else trunc(base * cf)
            N = P(f"Nxx{d}")
            if sp.expand(N - want) != 0 or (two and base != 2 and N.subs(base, 2) != 2):
                bad.append(f"Nxx{d} = {N}, want {want} under {cond}")
            if sp.expand(P(f"Nxx_plus_2NGHOSTS{d}") - N - 4) != 0:
                bad.append(f"Nxx_plus_2NGHOSTS{d} = {P(f'Nxx_plus_2NGHOSTS{d}')}")
            dx = P(f"dxx{d}")
            if sp.simplify(dx * N - (P(f"xxmax{d}") - P(f"xxmin{d}"))) != 0:
                bad.append(f"dxx{d} = {dx}")
            if sp.simplify(dx * P(f"invdxx{d}") - 1) != 0:
                bad.append(f"invdxx{d} = {P(f'invdxx{d}')}")
            keys = [k for k in ex.writes if re.match(rf"xx\[{d}\]\[", k)]
            ix = lambda key: sp.sympify(key.split("[", 2)[2].rstrip("]").replace("'", "_q"), locals={str(y[0]).replace("'", "_q"): y[0] for y in ex.loops})
            lp = [x for x in ex.loops if keys and x[0] in ix(keys[0]).free_symbols]
            N4 = P(f"Nxx_plus_2NGHOSTS{d}")
            if N4.is_Integer:  # a concrete number of points: every value written
                for j in range(int(N4)):
                    v = ex.mem.get(f"xx[{d}][{j}]")
                    if v is None or sp.simplify(cexec.real(v) - (P(f"xxmin{d}") + (j - 2 + sp.Rational(1, 2)) * dx)) != 0:
                        bad.append(f"xx[{d}][{j}] = {v}")
                if len(keys) != int(N4):
                    bad.append(f"xx[{d}] written as {keys}")
            elif len(keys) != 1 or len(lp) != 1:
                bad.append(f"xx[{d}] written as {keys} in loops {ex.loops}")
            else:
                j, lo, hi, op = lp[0]
                jj = ix(keys[0])
                v = cexec.real(ex.mem[keys[0]])
                if sp.expand(jj - j) != 0 or lo != 0 or op != "<" or sp.expand(hi - P(f"Nxx_plus_2NGHOSTS{d}")) != 0:
                    bad.append(f"xx[{d}] filled for {lp[0]} at {jj}")
                if sp.simplify(v - (P(f"xxmin{d}") + (j - 2 + sp.Rational(1, 2)) * dx)) != 0:
                    bad.append(f"xx[{d}][{jj}] = {v}")
            a = ex.mem.get(f"xx[{d}]")
            sz = log[int(a.key[4:])] if isinstance(a, cexec.Ref) and re.fullmatch(r"heap\d+", a.key) else None
            q = sp.simplify(sz / P(f"Nxx_plus_2NGHOSTS{d}")) if sz is not None else None
            if q is None or not (q.is_Symbol and str(q).startswith("sizeof")):
                bad.append(f"xx[{d}] allocated with {sz}")
            for mm in ("min", "max"):
                got = P(f"xx{mm}{d}")
                want = rsub(getattr(rfm, "xx" + mm)[d], ex.mem, "params->") if setdef else sp.Symbol(f"params->xx{mm}{d}", real=True)
                if sp.expand((got - want).subs(sp.Symbol("params->PI", real=True), sp.pi)) != 0 and sp.simplify((got - want).subs(sp.Symbol("params->PI", real=True), sp.pi)) != 0:
                    bad.append(f"xx{mm}{d} = {got}, want {want}")
        if not any(isinstance(x, list) and any("CoordSystemName" in y for y in x) and f'"{coord}"' in x for x in log):
            bad.append(f"coordinate system name not stored: {log}")
        ctx.check(f"{t}: sizes, spacings, ranges and every coordinate value", not bad, "symexec", cex="; ".join(bad)[:1500])
        if setdef and over and n < 80 and not getattr(u_grid, "done", None) == coord:
            u_grid.done = coord
            extent(ctx, coord, rfm, ex, L)
    ctx.cover("paths", n >= 8)


def extent(ctx, coord, rfm, ex, L):
    """the outer boundary lies at grid_physical_size, the inner one of a hollow grid at grid_hole_radius"""
    Lp = sp.Symbol("Lp", positive=True)
    hole = sp.Symbol("params->grid_hole_radius", real=True)
    H = sp.Symbol("Hp", positive=True)
    mn = [rsub(x, ex.mem, "params->") for x in rfm.xxmin]
    mx = [rsub(x, ex.mem, "params->") for x in rfm.xxmax]

    def X(pt):
        e = []
        for c in rfm.xx_to_Cart:
            c = sp.sympify(c)
            m = {s: (pt[list(rfm.xx).index(s)] if s in rfm.xx else cexec.real(ex.mem.get(f"params->{s}", sp.Symbol(f"params->{s}", real=True)))) for s in c.free_symbols}
            c = c.subs(m, simultaneous=True).subs({L: Lp, hole: H, sp.Symbol("params->PI", real=True): sp.pi, sp.Symbol("PI", real=True): sp.pi})
            e.append(c.subs({s: sp.Symbol(re.sub(r"\W", "_", str(s)), positive=True) for s in c.free_symbols if "params" in str(s)}))
        return e
    a, b = sp.symbols("a b", real=True)
    r2 = lambda v: sum(x ** 2 for x in v)
    if "Spherical" in coord or "SinhSph" in coord:
        same(ctx, "outer boundary at radius grid_physical_size", r2(X([mx[0], a, b])), Lp ** 2, budget=30)
        if "Holey" in coord or "Wedge" in coord:
            same(ctx, "inner boundary at radius grid_hole_radius", r2(X([mn[0], a, b])), H ** 2, budget=30)
    elif "Cylindrical" in coord:
        v = X([mx[0], a, b])
        same(ctx, "outer boundary at cylindrical radius grid_physical_size", v[0] ** 2 + v[1] ** 2, Lp ** 2, budget=30)
        for s, e in ((1, mx[2]), (-1, mn[2])):
            same(ctx, f"outer boundary at z = {s} grid_physical_size", X([a, b, e])[2], s * Lp, budget=30)
    elif "Cartesian" in coord:
        for d in range(3):
            for s, e in ((1, mx[d]), (-1, mn[d])):
                pt = [a, b, a]
                pt[d] = e
                same(ctx, f"outer boundary at x{d} = {s} grid_physical_size", X(pt)[d], s * Lp, budget=30)
    elif "SymTP" in coord:
        v = X([mx[0], sp.pi / 2, b])
        same(ctx, "outer boundary at equatorial radius grid_physical_size", r2(v), Lp ** 2, budget=30)


def u_maps(ctx, coord):
    """xx_to_Cart and Cart_to_xx_and_nearest_i0i1i2"""
    import z3
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.xx_tofrom_Cart as xt
    ctx.under(XT + "register_CFunction_xx_to_Cart", XT + "register_CFunction__Cart_to_xx_and_nearest_i0i1i2")
    rfm = setup(coord)
    for f in (xt.register_CFunction_xx_to_Cart, xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2):
        ctx.raises(f"{f.__name__}: unknown gridding approach rejected", lambda f=f: f(coord, gridding_approach="other"), ValueError, frame=lambda: sorted(cfc.CFunction_dict))
    for approach in ("independent grid(s)", "multipatch"):
        rfm = setup(coord)
        ctx.call("xx_to_Cart", xt.register_CFunction_xx_to_Cart, coord, gridding_approach=approach)
        ctx.call("Cart_to_xx local", xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2, coord, gridding_approach=approach)
        ctx.call("Cart_to_xx global", xt.register_CFunction__Cart_to_xx_and_nearest_i0i1i2, coord, relative_to="global_grid_center", gridding_approach=approach)
        n1, n2, n3 = f"xx_to_Cart__rfm__{coord}", f"Cart_to_xx_and_nearest_i0i1i2__rfm__{coord}", f"Cart_to_xx_and_nearest_i0i1i2_global_grid_center__rfm__{coord}"
        T = texts(ctx, [n1, n2, n3])
        F = cexec.functions_of(T[n1], TYPEDEFS)
        ex = machine(F)
        i = [cexec.CInt(sp.Symbol(f"i{d}", integer=True)) for d in range(3)]
        ex.call(F[n1], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("xx"), *i, cexec.Ref("xCart")])
        pos = lambda e: e.subs({s: sp.Symbol(re.sub(r"\W+", "_", str(s)), **({"real": True} if re.match(r"xx\[|xCart|params->(Cart|xxm|dxx)|Cart_or", str(s)) else {"positive": True})) for s in sp.sympify(e).free_symbols})
        want = [rsub2(rfm, rfm.xx_to_Cart[c], {f"xx{d}": sp.Symbol(f"xx[{d}][i{d}]", real=True) for d in range(3)}) + sp.Symbol(f"params->Cart_origin{'xyz'[c]}", real=True) for c in range(3)]
        for c in range(3):
            same(ctx, f"{approach}: xCart[{c}] = map of the grid coordinates + grid origin", pos(cexec.real(ex.mem[f"xCart[{c}]"])), pos(want[c]), budget=15)
        ctx.check(f"{approach}: xx_to_Cart writes its result only", sorted(visible(ex)) == [f"xCart[{c}]" for c in range(3)], "symexec", cex=str(ex.writes))
        if not ctx.check("the inverse map is implemented", any(sp.sympify(x) != 0 for x in rfm.Cart_to_xx), "exhaustive", bounded=True, cex=f"Cart_to_xx = {rfm.Cart_to_xx}: the generated function returns xx = 0 for every point"):
            return
        for which, nm in (("local", n2), ("global", n3)):
            try:
                F = cexec.functions_of(T[nm], TYPEDEFS)
            except cexec.CParseError as e:
                ctx.check(f"{approach} {which}: generated function is valid C", False, "parser", cex=str(e)[:800])
                continue

            def run(path, F=F, nm=nm):
                ex = machine(F, path)
                ex.call(F[nm], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("xCart"), cexec.Ref("xx"), cexec.Ref("idx")])
                return ex
            paths = cexec.explore(run)
            for k, (cond, ex) in enumerate(paths):
                off = {f"Cart{x}": sp.Symbol(f"xCart[{c}]", real=True) - (sp.Symbol(f"params->Cart_origin{x}", real=True) if which == "local" else 0) for c, x in enumerate("xyz")}
                for c in range(3):
                    w = rsub2(rfm, rfm.Cart_to_xx[c], off)
                    same(ctx, f"{approach} {which} path {k}: xx[{c}] = inverse map of the point relative to the {which} origin", pos(cexec.real(ex.mem[f"xx[{c}]"])), pos(w), budget=15)
                    e = cexec.real(ex.mem[f"idx[{c}]"])
                    xs, d, i0 = z3.Real("x"), z3.Real("dxx"), z3.Real("xxmin")
                    # idx = ctrunc(arg); arg as a function of xx[c]
                    ok = e.func.__name__ == "ctrunc"
                    a = sp.expand(e.args[0].subs(cexec.real(ex.mem[f"xx[{c}]"]), sp.Symbol("X"))) if ok else None
                    want_a = (sp.Symbol("X") - sp.Symbol(f"params->xxmin{c}", real=True)) / sp.Symbol(f"params->dxx{c}", real=True) + 2
                    diff = sp.simplify(a - want_a) if ok else None
                    if not ctx.check(f"{approach} {which} path {k}: index {c} is computed from xx[{c}], the lower bound and the spacing", ok and diff.is_number, "symexec", cex=str(e)[:600]):
                        continue
                    off_ = sp.nsimplify(diff)
                    A = (xs - i0) / d + 2 + z3.RealVal(str(off_))
                    I = z3.Int("I")
                    N = z3.Int("N")
                    pre = [d > 0, N >= 1, xs >= i0 - 2 * d, xs < i0 + (z3.ToReal(N) + 2) * d, z3.If(A >= 0, z3.And(z3.ToReal(I) <= A, A < z3.ToReal(I) + 1), z3.And(z3.ToReal(I) >= A, A > z3.ToReal(I) - 1))]
                    cell = i0 + (z3.ToReal(I) - 2 + z3.RealVal("1/2")) * d
                    ctx.z3(f"{approach} {which} path {k}: index {c} names the nearest grid point, inside the grid", z3.And(xs - cell <= d / 2, cell - xs <= d / 2, I >= 0, I < N + 4), pre)


def rsub2(rfm, e, names):
    e = sp.sympify(e)
    return e.subs({s: names[str(s)] if str(s) in names else (sp.pi if str(s) == "PI" else sp.Symbol(f"params->{s}", real=True)) for s in e.free_symbols}, simultaneous=True)


def u_cfl(ctx, coord):
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    ctx.under(NG + "register_CFunction_cfl_limited_timestep")
    rfm = setup(coord)
    ctx.call("register", ng.register_CFunction_cfl_limited_timestep, coord)
    name = f"cfl_limited_timestep__rfm__{coord}"
    F = cexec.functions_of(texts(ctx, [name])[name], TYPEDEFS)

    def run(path):
        ex = machine(F, path)
        ex.call(F[name], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("xx")])
        return ex
    paths = cexec.explore(run, max_paths=64)
    pos = lambda e: sp.sympify(e).subs({s: sp.Symbol(re.sub(r"\W+", "_", str(s)), **({"real": True} if re.match(r"xx\[", str(s)) else {"positive": True})) for s in sp.sympify(e).free_symbols if "@" not in str(s)})
    shown = {}
    for k, (cond, ex) in enumerate(paths):
        lp = [(str(a), b, str(c), o) for a, b, c, o in ex.loops]
        ctx.check(f"path {k}: every grid point is visited", sorted(x[0] for x in lp) == ["i0", "i1", "i2"] and all(x[1] == 0 and x[2] == f"params->Nxx_plus_2NGHOSTS{x[0][1]}" and x[3] == "<" for x in lp), "symexec", cex=str(lp))
        inner = ex.carried[0]
        red = {inner[0]} == {c[0] for c in ex.carried} and any(c[3] and re.search(rf"reduction\s*\(\s*min\s*:\s*{inner[0]}\s*\)", c[3]) for c in ex.carried)
        ctx.check(f"path {k}: a parallel loop declares the reduction of the value it carries", red or not any(c[3] and "parallel" in c[3] for c in ex.carried), "symexec", cex=str([(c[0], c[3]) for c in ex.carried]))
        cand = {"previous": inner[1]}
        for d in range(3):
            h = rsub2(rfm, rfm.scalefactor_orthog[d], {f"xx{e}": sp.Symbol(f"xx[{e}][i{e}]", real=True) for e in range(3)})
            cand[f"direction {d}"] = sp.Abs(h * sp.Symbol(f"params->dxx{d}", real=True))
        end = sp.Symbol(inner[0] + "@end", real=True)
        dt0, cfl = sp.Symbol("commondata->dt", real=True), sp.Symbol("commondata->CFL_FACTOR", real=True)
        cand["dt"], cand["limit"] = dt0, end * cfl

        def ident(e):
            if e not in shown:
                shown[e] = None
                fs = sorted((pos(e)).free_symbols, key=str)
                for nm, c in cand.items():
                    if e == c or sp.expand(e - c) == 0:
                        shown[e] = nm
                        break
                    if (pos(c)).free_symbols == set(fs):
                        pt = {s: sp.Float(0.31 + 0.17 * q, 40) for q, s in enumerate(fs)}
                        if abs(sp.N((pos(e) - pos(c)).subs(pt), 30)) < 1e-20:
                            shown[e] = nm
                            same(ctx, f"compared quantity is the proper distance between neighbours: {nm}", pos(e), pos(c), budget=20)
                            break
            return shown[e]
        order = []
        for c in cond:
            neg = isinstance(c, sp.Not)
            r = c.args[0] if neg else c
            a, b = ident(r.lhs), ident(r.rhs)
            if isinstance(r, (sp.Gt, sp.Ge)):
                a, b = b, a
            if neg:
                a, b = b, a
            order.append((a, b))  # a <= b

        def least(v, group):
            le = {v}
            for _ in range(8):
                le |= {b for a, b in order if a in le}
            return v in group and set(group) <= le
        g1, g2 = ["previous", "direction 0", "direction 1", "direction 2"], ["dt", "limit"]
        after, dt = cexec.real(inner[2]), cexec.real(ex.mem.get("commondata->dt", dt0))
        ctx.check(f"path {k}: the carried value becomes the minimum over this point's three neighbour distances", ident(after) is not None and least(ident(after), g1), "symexec", cex=f"{ident(after)} under {order}")
        ctx.check(f"path {k}: dt = min(dt, CFL_FACTOR x smallest distance)", ident(dt) is not None and least(ident(dt), g2), "symexec", cex=f"{dt} under {order}")
        ctx.check(f"path {k}: nothing else is changed", visible(ex) <= {"commondata->dt"}, "symexec", cex=str(ex.writes))
    ctx.cover("paths", len(paths) >= 4)


def u_sequence(ctx):
    """numerical_grids_and_timestep: calls, arguments and order for all options"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.numerical_grids_and_timestep as ng
    ctx.under(NG + "register_CFunction_numerical_grids_and_timestep", NG + "register_CFunctions")
    grids = ["Spherical", "SinhCartesian", "SinhSymTP"]
    sizes = [10.5, 0.25, 3.0]
    for ngr, rfmp, cur, cfl, mp in itertools.product((1, 2, 3), (False, True), (False, True), (False, True), (False, True)):
        setup("Spherical")
        nxx = {g: [4 + k, 6, 8] for k, g in enumerate(grids)}
        ctx.call("register_CFunctions", ng.register_CFunctions, list_of_CoordSystems=grids[:ngr], list_of_grid_physical_sizes=sizes[:ngr], Nxx_dict=nxx, gridding_approach="multipatch" if mp else "independent grid(s)", enable_rfm_precompute=rfmp, enable_CurviBCs=cur,
                 enable_set_cfl_timestep=cfl)
        t = f"{ngr} grid(s) precompute={rfmp} boundary={cur} cfl={cfl} multipatch={mp}"
        want = {"numerical_grids_and_timestep"} | {f"numerical_grid_params_Nxx_dxx_xx__rfm__{g}" for g in grids[:ngr]} | ({f"cfl_limited_timestep__rfm__{g}" for g in grids[:ngr]} if cfl else set())
        ctx.check(f"{t}: functions registered", set(cfc.CFunction_dict) == want, "exhaustive", bounded=True, cex=str(sorted(cfc.CFunction_dict)))
        src = cfc.CFunction_dict["numerical_grids_and_timestep"].full_function
        F = cexec.functions_of(cpp(src), TYPEDEFS)
        for first in (0, 1):
            log = []

            def on_call(ex, name, argn, log=log):
                a = [ex.key_of(x) if not hasattr(x, "value") else x.value for x in argn]
                a = [x[1:] if x.startswith("&") else x for x in a]
                snap = {k: str(cexec.real(v)) for k, v in ex.mem.items()}
                if name == "numerical_grid_params_Nxx_dxx_xx":
                    snap["Nx"] = [ex.mem.get(f"{a[3]}[{d}]") for d in range(3)]
                    snap["set"] = ex.ev(argn[4])
                log.append((name, a, snap))
                return 0

            def res(key):
                if re.fullmatch(r"[A-Z0-9_]+", key):
                    return sp.Symbol("hash_" + key)
                return cexec.Ref(key)
            ex = cexec.Exec(functions=F, resolver=res, on_call=on_call)
            ex.call(F["numerical_grids_and_timestep"], [cexec.Ref("commondata"), cexec.Ref("griddata"), first])
            g = lambda k, f: f"griddata[{k}].{f}"
            names = [(n, a) for n, a, _ in log]
            exp = [("params_struct_set_to_default", ["commondata", "griddata"])]
            if mp:
                exp.append(("multipatch_grids_set_up", ["commondata", "griddata"]))
            else:
                exp += [("numerical_grid_params_Nxx_dxx_xx", ["commondata", g(k, "params"), g(k, "xx")]) for k in range(ngr)]
            rest = []
            if rfmp:
                rest.append([[("rfm_precompute_malloc", ["commondata", g(k, "params"), g(k, "rfmstruct")]), ("rfm_precompute_defines", ["commondata", g(k, "params"), g(k, "rfmstruct"), g(k, "xx")])] for k in range(ngr)])
            if cur:
                rest.append([[("bcstruct_set_up", ["commondata", g(k, "params"), g(k, "xx"), g(k, "bcstruct")])] for k in range(ngr)])
            if cfl:
                rest.append([[("cfl_limited_timestep", ["commondata", g(k, "params"), g(k, "xx")])] for k in range(ngr)])
            got = [(n, a[:3] if n == "numerical_grid_params_Nxx_dxx_xx" else a) for n, a in names]
            ok = got[:1] == exp[:1] and sorted(got[1:len(exp)]) == sorted(exp[1:])  # grids are set up after defaults and before everything else
            tail = got[len(exp):]
            for grp in rest:
                for seq in grp:
                    p = [tail.index(c) if tail.count(c) == 1 else -1 for c in seq]
                    ok = ok and -1 not in p and p == sorted(p)
            ok = ok and len(tail) == sum(len(s) for grp in rest for s in grp)
            ctx.check(f"{t} first={first}: every grid is set up once, in a valid order, with its own data", ok, "symexec", cex=str(got))
            bad = []
            if not mp:
                for n, a, snap in log:
                    if n == "numerical_grid_params_Nxx_dxx_xx":
                        k = int(re.search(r"\[(\d+)\]", a[1]).group(1))
                        if snap.get(g(k, "params.CoordSystem_hash")) != f"hash_{grids[k].upper()}" or sp.sympify(snap.get(g(k, "params.grid_physical_size"), "nan")) != sp.Rational(str(sizes[k])) or snap["Nx"] != [-1, -1, -1] or snap["set"] not in (1, True):
                            bad.append((k, {x: y for x, y in snap.items() if f"[{k}]" in x}, snap["Nx"], snap["set"]))
            ctx.check(f"{t} first={first}: coordinate system and size are set before the grid is built", not bad, "symexec", cex=str(bad))
            m = {k: cexec.real(v) for k, v in ex.mem.items() if k.startswith("commondata->")}
            ok = m.get("commondata->NUMGRIDS") == ngr
            z = [f"commondata->{v}" for v in ("nn", "nn_0", "t_0", "time")]
            ok = ok and all((m.get(k) == 0) if first else (k not in m) for k in z)
            if cfl:
                dts = [s.get("commondata->dt") for n, _, s in log if n == "cfl_limited_timestep"]
                ok = ok and all(x is not None and sp.sympify(x) >= 10 ** 20 for x in dts)
            else:
                ok = ok and "commondata->dt" not in m
            if mp:
                u = [[m.get(f"commondata->cumulative_regrid_{x}hatU[{d}]") for d in range(3)] for x in "xyz"]
                ok = ok and u == ([[1, 0, 0], [0, 1, 0], [0, 0, 1]] if first else [[None] * 3] * 3)
            ctx.check(f"{t} first={first}: number of grids, time and step counters", ok, "symexec", cex=str(m))
    ctx.raises("unknown gridding approach rejected", lambda: ng.register_CFunction_numerical_grids_and_timestep(["Spherical"], [1.0], gridding_approach="x"), ValueError)


def u_chare(ctx, coord):
    import z3
    import nrpy.infrastructures.superB.numerical_grids as sg
    ctx.under("nrpy.infrastructures.superB.numerical_grids.register_CFunction_numerical_grid_params_Nxx_dxx_xx_chare")
    rfm = setup(coord)
    ctx.call("register", sg.register_CFunction_numerical_grid_params_Nxx_dxx_xx_chare, coord)
    name = f"numerical_grid_params_Nxx_dxx_xx_chare__rfm__{coord}"
    F = cexec.functions_of(texts(ctx, [name])[name], TYPEDEFS)
    import nrpy.params as par

    def run(path):
        log = []
        ex = machine(F, path, on_call=heap(log))
        old = ex.resolver
        ex.resolver = lambda k: cexec.CInt(sp.Symbol(k, integer=True)) if re.fullmatch(r"commondata->Nchare\d", k) else old(k)
        try:
            ex.call(F[name], [cexec.Ref("commondata"), cexec.Ref("params"), cexec.Ref("params_chare"), cexec.Ref("xx"), cexec.Ref("chare_index")])
        except Exit:
            return None, cexec
        return ex, log
    NC = [sp.Symbol(f"commondata->Nchare{d}", integer=True) for d in range(3)]
    N = [sp.Symbol(f"params->Nxx{d}", integer=True) for d in range(3)]
    ci = [sp.Symbol(f"chare_index[{d}]", integer=True) for d in range(3)]
    from vf.loops import to_z3
    from props.c16 import conv
    n = live = 0
    env = {}
    zi = lambda e: to_z3(e, env)
    dead = []
    for cond, (ex, log) in cexec.explore(run, max_paths=400):
        n += 1
        zc = [conv(c, env, to_z3) for c in cond]
        legal = [zi(NC[d]) >= 1 for d in range(3)] + [zi(N[d]) >= 1 for d in range(3)]
        good = [z3.And(zi(N[d]) % zi(NC[d]) == 0, z3.Or(zi(NC[d]) == 1, zi(N[d]) >= 2 * zi(NC[d]))) for d in range(3)]
        if ex is None:
            dead.append(z3.And(*zc) if zc else z3.BoolVal(True))
            continue
        live += 1
        P = lambda k: cexec.real(ex.mem.get(f"params_chare->{k}", sp.Symbol(f"params_chare->{k}", real=True)))
        G = lambda k: sp.Symbol(f"params->{k}", real=True)
        bad = []
        for d in range(3):
            q = sp.Function("cdiv")(N[d], NC[d])
            Nc = P(f"Nxx{d}")
            if Nc not in (q, N[d]) and sp.simplify(Nc - q) != 0:
                bad.append(f"Nxx{d} = {Nc}")
            M = sp.Symbol("M", integer=True)
            s = lambda e: sp.expand(sp.sympify(e).subs(Nc, M).subs(q, M))
            if s(P(f"Nxx_plus_2NGHOSTS{d}") - M - 4) != 0:
                bad.append(f"Nxx_plus_2NGHOSTS{d}")
            if P(f"dxx{d}") != G(f"dxx{d}") or P(f"invdxx{d}") != G(f"invdxx{d}"):
                bad.append(f"dxx{d} {P(f'dxx{d}')} {P(f'invdxx{d}')}")
            lo = G(f"xxmin{d}") + M * ci[d] * G(f"dxx{d}")
            if s(P(f"xxmin{d}") - lo) != 0:
                bad.append(f"xxmin{d} = {P(f'xxmin{d}')}")
            if s(P(f"xxmax{d}") - lo - M * G(f"dxx{d}")) != 0:
                bad.append(f"xxmax{d} = {P(f'xxmax{d}')}, want lower bound of this piece + its width")
            keys = [k for k in ex.writes if re.match(rf"xx\[{d}\]\[", k)]
            lp = [x for x in ex.loops if keys and f"[{x[0]}]" in keys[0]]
            if len(keys) != 1 or len(lp) != 1 or lp[0][1] != 0 or lp[0][3] != "<" or s(lp[0][2] - M - 4) != 0:
                bad.append(f"xx[{d}] filled as {keys} {ex.loops}")
            elif s(cexec.real(ex.mem[keys[0]]) - (lo + (lp[0][0] - 2 + sp.Rational(1, 2)) * G(f"dxx{d}"))) != 0:
                bad.append(f"xx[{d}] = {ex.mem[keys[0]]}")
            a = ex.mem.get(f"xx[{d}]")
            if not isinstance(a, cexec.Ref) or not s(log[int(a.key[4:])] / (M + 4)).subs(M, 3).is_Symbol and not sp.simplify(s(log[int(a.key[4:])]) / (M + 4)).is_Symbol:
                bad.append(f"xx[{d}] allocation")
        for k, v in rfm.grid_physical_size_dict.items():
            L = sp.Symbol("params_chare->grid_physical_size", real=True)
            if sp.expand(P(k) - sp.sympify(v).subs(sp.Symbol("grid_physical_size"), L)) != 0:
                bad.append(f"{k} = {P(k)}")
        if not any(isinstance(x, list) and any("CoordSystemName" in y and "chare" in y for y in x) and f'"{coord}"' in x for x in log):
            bad.append("coordinate system name")
        ctx.check(f"path {n}: a chare's piece is the matching block of the whole grid", not bad, "symexec", cex="; ".join(bad)[:1200])
        ctx.z3(f"path {n}: reached only for sizes that split evenly into pieces at least as wide as the ghost zone", z3.And(*good), legal + zc)
    ctx.z3("the function stops only for sizes that cannot be split", z3.Not(z3.And(*good, z3.Or(*dead))), [zi(NC[d]) >= 1 for d in range(3)] + [zi(N[d]) >= 1 for d in range(3)])
    ctx.cover("paths", live >= 1 and dead)


def units():
    u = [Unit("grid setup sequence", u_sequence, weight=3)]
    for c in ALL + EXTRA:
        u += [Unit(f"{c} grid", u_grid, (c,), weight=3), Unit(f"{c} maps", u_maps, (c,), weight=4), Unit(f"{c} timestep", u_cfl, (c,), weight=2)]
        u.append(Unit(f"{c} chare", u_chare, (c,), weight=2))
    return u
