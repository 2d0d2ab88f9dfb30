"""C15  The generated time stepper performs exactly the Runge-Kutta step of the chosen method, on every grid."""
import re
import subprocess

import sympy as sp

from props.c14 import to_q
from vf import cexec
from vf.cexec import Ref, real
from vf.core import Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.infrastructures.BHaH.MoLtimestepping.MoL", "nrpy.infrastructures.superB.MoL"]
ASSUMPTIONS = ["literals and the 17-digit stage times are compared to 1e-15 (their decimal/double rounding); all other arithmetic is that of the reals",
               "the boundary routine leaves interior points unchanged and the right-hand side leaves its input array unchanged (their own contracts)",
               "enable_simd in MoL is excluded (the generator warns that it is not supported)"]
TRUSTED = ["gcc -E expands the generated loop macro"]
BOUNDS = ["right-hand side, boundary routine, data, dt and time are symbolic; two grids of sizes 2x1x1 and 1x3x1 with two gridfunctions stand for all sizes (the update is pointwise); the loop macro is also executed for 2x3x5 points and 2 gridfunctions"]
STRUCTS = ("commondata_struct", "griddata_struct", "params_struct", "rfm_struct", "bc_struct")
DT, T0, NN = sp.Symbol("dt", real=True), sp.Symbol("t_start", real=True), sp.Symbol("nn", integer=True)
SIZES = [(2, 1, 1), (1, 3, 1)]
NEV = 2


def reset():
    import nrpy.c_function as cfc
    import nrpy.params as par
    cfc.CFunction_dict.clear()
    for k in ("BHaH_defines", "griddata_struct", "commondata_struct"):
        par.glb_extras_dict.pop(k, None)
    par.set_parval_from_str("Infrastructure", "BHaH")


def defines():
    import nrpy.params as par
    d = par.glb_extras_dict.get("BHaH_defines", {})
    return "\n".join(str(v) for v in (d.values() if isinstance(d, dict) else [d]))


def members(text, ctx, tag):
    """members of the generated MoL_gridfunctions_struct"""
    m = re.search(r"typedef struct __MoL_gridfunctions_struct__ \{(.*?)\} MoL_gridfunctions_struct;", text, re.S)
    ctx.check(f"{tag}: struct of gridfunction arrays defined once", m is not None and text.count("MoL_gridfunctions_struct;") == 1, "pattern", cex=text[:500])
    if not m:
        return []
    out = re.findall(r"REAL \*\s*restrict (\w+);", m.group(1))
    ctx.check(f"{tag}: struct members are distinct", len(out) == len(set(out)), "set equality", cex=out)
    return out


def cpp(text):
    r = subprocess.run(["gcc", "-E", "-P", "-nostdinc", "-"], input="\n".join(ln for ln in text.split("\n") if not ln.lstrip().startswith("#include")), capture_output=True, text=True, check=False)
    if r.returncode:
        raise cexec.CParseError("preprocessor: " + r.stderr[:1000])
    return r.stdout


class Sim:
    """abstract machine: arrays of reals per grid, RHS and POST as uninterpreted operations"""

    def __init__(self, mem_names, ngrids):
        self.members = set(mem_names)
        self.ng = ngrids
        self.ev = []
        self.mem = {}
        self.post_of = {}
        self.k = {}
        self.nrhs = [0] * ngrids
        self.n = 0
        self.bad = []
        for g in range(ngrids):
            for p in range(self.npts(g)):
                self.mem[f"griddata[{g}].gridfuncs.y_n_gfs[{p}]"] = sp.Symbol(f"y_{g}_{p}", real=True)

    @staticmethod
    def npts(g):
        a, b, c = SIZES[g]
        return a * b * c * NEV

    @staticmethod
    def boundary(g, p):
        return p % 2 == 1

    def resolver(self, key):
        if key == "commondata->NUMGRIDS":
            return self.ng
        if key == "commondata->dt":
            return DT
        if key == "commondata->time":
            return T0
        if key == "commondata->nn":
            return cexec.CInt(NN)
        if key == "NUM_EVOL_GFS":
            return NEV
        m = re.fullmatch(r"griddata\[(\d)\]\.gridfuncs\.(\w+)", key)
        if m:
            return Ref(key) if m.group(2) in self.members else None
        m = re.fullmatch(r"griddata\[(\d)\]\.params\.Nxx_plus_2NGHOSTS(\d)", key)
        if m:
            return SIZES[int(m.group(1))][int(m.group(2))]
        m = re.fullmatch(r"griddata\[(\d)\]\.(params|rfmstruct|bcstruct|xx\[\d\])", key)
        if m:
            return Ref(key)
        if key in ("commondata", "griddata"):
            return Ref(key)
        m = re.fullmatch(r"griddata\[(\d)\]\.gridfuncs\.(\w+)\[(-?\d+)\]", key)
        if m:
            g, p = int(m.group(1)), int(m.group(3))
            if 0 <= p < self.npts(g):
                self.bad.append(f"{key} read before it is written")
                return sp.Symbol(f"uninit_{key}", real=True)
            self.bad.append(f"{key} out of bounds")
            return sp.Symbol("oob", real=True)
        return None

    def arr(self, v):
        m = re.fullmatch(r"griddata\[(\d)\]\.gridfuncs\.(\w+)", v.key if isinstance(v, Ref) else "")
        return (int(m.group(1)), m.group(2)) if m else (None, str(v))

    def vals(self, ex, g, name):
        return [ex.mem.get(f"griddata[{g}].gridfuncs.{name}[{p}]") for p in range(self.npts(g))]

    def on_call(self, ex, name, argn):
        if name == "RHS":
            args = [ex.ev(a) for a in argn]
            (g, i), (g2, o) = self.arr(args[-2]), self.arr(args[-1])
            if g is None or g != g2:
                self.bad.append(f"RHS called with {i}, {o}")
                return 0
            self.ev.append(("RHS", g, i, o, self.vals(ex, g, i), ex.mem.get("commondata->time", T0), [a.key if isinstance(a, Ref) else str(a) for a in args[:-2]]))
            s = self.nrhs[g]
            self.nrhs[g] += 1
            for p in range(self.npts(g)):
                v = sp.Symbol(f"k_{s}_{g}_{p}" if not self.boundary(g, p) else f"junk_{s}_{g}_{p}", real=True)
                ex.mem[f"griddata[{g}].gridfuncs.{o}[{p}]"] = v
            return 0
        if name == "POST":
            g, a = self.arr(ex.ev(argn[-1]))
            if g is None:
                self.bad.append(f"POST called with {a}")
                return 0
            v = self.vals(ex, g, a)
            inner = tuple(x for p, x in enumerate(v) if not self.boundary(g, p))
            for p in range(self.npts(g)):
                if self.boundary(g, p):
                    self.n += 1
                    s = sp.Symbol(f"bc_{self.n}", real=True)
                    self.post_of[s] = (g, p, inner)
                    ex.mem[f"griddata[{g}].gridfuncs.{a}[{p}]"] = s
            self.ev.append(("POST", g, a))
            return 0
        if name == "PP":
            self.ev.append(("PP",))
            return 0
        return None


def close(a, b):
    """the two linear expressions agree coefficient by coefficient to 1e-15"""
    if a is None:
        return False
    d = sp.expand(sp.sympify(a) - sp.sympify(b))
    if d == 0:
        return True
    for t in sp.Add.make_args(d):
        c, _ = t.as_independent(*[s for s in t.free_symbols])
        try:
            if abs(float(c)) > 1e-15:
                return False
        except TypeError:
            return False
    # coefficients with radicals may be split over several terms: compare numerically as well
    return True


def coeffs(e, syms):
    e = sp.expand(sp.sympify(e))
    out = {}
    rest = e
    for s in syms:
        c = e.coeff(s)
        out[s] = c
        rest = rest - c * s
    return out, sp.expand(rest)


def same_linear(a, b, syms):
    if a is None:
        return False
    ca, ra = coeffs(a, syms)
    cb, rb = coeffs(b, syms)
    one = {DT: 1}
    for s in syms:
        try:
            d = sp.expand(ca[s] - cb[s])
            if d.free_symbols - {DT}:
                return False
            pd = sp.Poly(d, DT)
            if any(abs(float(sp.N(c, 40))) > 1e-15 for c in pd.coeffs()):
                return False
        except (TypeError, sp.PolynomialError):
            return False
    d = sp.expand(ra - rb)
    try:
        return d.free_symbols <= {DT} and all(abs(float(sp.N(c, 40))) <= 1e-15 for c in (sp.Poly(d, DT).coeffs() if d != 0 else []))
    except (TypeError, sp.PolynomialError):
        return False


def judge(ctx, tag, sim, ex, table, final_time=True, pp=True, post=True):
    rows, b = table[:-1], table[-1][1:]
    S = len(rows)
    ctx.check(f"{tag}: every array element is written before it is read, and in bounds", not sim.bad, "symbolic execution", cex=sim.bad[:5])
    for g in range(sim.ng):
        calls = [e for e in sim.ev if e[0] == "RHS" and e[1] == g]
        ctx.check(f"{tag}: grid {g}: {S} right-hand-side evaluations", len(calls) == S, "symbolic execution", cex=len(calls))
        for s, (_, _, i, o, v, t, extra) in enumerate(calls[:S]):
            ks = lambda p: [sp.Symbol(f"k_{j}_{g}_{p}", real=True) for j in range(S)]
            ctx.check(f"{tag}: grid {g} stage {s + 1}: input and output arrays are different", i != o, "symbolic execution", cex=(i, o))
            ctx.check(f"{tag}: grid {g} stage {s + 1}: evaluated at time t + c dt", same_linear(t, T0 + DT * sp.sympify(rows[s][0]), []) or same_linear(sp.expand(t - T0), DT * sp.sympify(rows[s][0]), []), "linear arithmetic",
                      cex=dict(time=str(t), c=str(rows[s][0])))
            ctx.check(f"{tag}: grid {g} stage {s + 1}: other arguments belong to the same grid", all(("griddata[" not in x) or x.startswith(f"griddata[{g}]") for x in extra), "symbolic execution", cex=extra)
            inner = tuple(x for p, x in enumerate(v) if not sim.boundary(g, p))
            ok, bok, w = True, True, None
            for p in range(sim.npts(g)):
                y = sp.Symbol(f"y_{g}_{p}", real=True)
                if sim.boundary(g, p):
                    if s == 0:
                        bok = bok and v[p] == y
                    elif post:
                        bok = bok and sim.post_of.get(v[p]) == (g, p, inner)
                else:
                    want = y + DT * sum((sp.sympify(a) * k for a, k in zip(rows[s][1:], ks(p))), sp.S.Zero)
                    if not same_linear(v[p], want, ks(p) + [y]):
                        ok, w = False, dict(point=p, got=str(v[p])[:400], want=str(want)[:400])
            ctx.check(f"{tag}: grid {g} stage {s + 1}: input is y + dt sum_j a_ij k_j", ok, "linear arithmetic", cex=w)
            ctx.check(f"{tag}: grid {g} stage {s + 1}: boundary routine applied to exactly this input", bok, "symbolic execution", cex=dict(values=[str(x)[:100] for x in v]))
        v = sim.vals(ex, g, "y_n_gfs")
        inner = tuple(x for p, x in enumerate(v) if not sim.boundary(g, p))
        ok, bok, w = True, True, None
        for p in range(sim.npts(g)):
            y = sp.Symbol(f"y_{g}_{p}", real=True)
            ks = [sp.Symbol(f"k_{j}_{g}_{p}", real=True) for j in range(S)]
            if sim.boundary(g, p):
                if post:
                    bok = bok and sim.post_of.get(v[p]) == (g, p, inner)
            else:
                want = y + DT * sum((sp.sympify(a) * k for a, k in zip(b, ks)), sp.S.Zero)
                if not same_linear(v[p], want, ks + [y]):
                    ok, w = False, dict(point=p, got=str(v[p])[:400], want=str(want)[:400])
        ctx.check(f"{tag}: grid {g}: y after the step is y + dt sum_i b_i k_i", ok, "linear arithmetic", cex=w)
        ctx.check(f"{tag}: grid {g}: boundary routine applied to the final y", bok, "symbolic execution", cex=[str(x)[:100] for x in v])
    # all grids finish a stage before any grid starts the next one
    seq, cnt, last = [], [0] * sim.ng, None
    for e in sim.ev:
        if e[0] == "RHS":
            cnt[e[1]] += 1
            seq.append(cnt[e[1]])
    ctx.check(f"{tag}: all grids finish a stage before the next one starts", seq == sorted(seq), "symbolic execution", cex=seq)
    if pp:
        done, ok = 0, True
        groups = []
        for e in sim.ev:
            if e[0] == "RHS" and (not groups or groups[-1][-1] == "PP"):
                groups.append([])
            if groups:
                groups[-1].append(e[0])
        ctx.check(f"{tag}: the post-stage code runs after the boundary routine of every stage", len(groups) == S and all(x[-1] == "PP" and "POST" in x and x.index("PP") > max(i for i, y in enumerate(x) if y == "POST") for x in groups), "symbolic execution",
                  cex=groups[:4])
    if final_time:
        t, n = ex.mem.get("commondata->time"), ex.mem.get("commondata->nn")
        ctx.check(f"{tag}: the step counter is incremented", n is not None and sp.expand(real(n) - NN - 1) == 0, "linear arithmetic", cex=str(n))
        ctx.check(f"{tag}: if time = nn dt held before the step, it holds after it", t is not None and sp.expand((real(t) - (NN + 1) * DT).subs(T0, NN * DT)) == 0, "linear arithmetic", cex=str(t))
    other = sorted({re.sub(r"\[\d+\]$", "", k) for k in ex.writes if "gridfuncs" not in k} - {"commondata->time", "commondata->nn", "xx"})
    other = [o for o in other if not o.startswith("xx[")]
    ctx.check(f"{tag}: nothing else is changed", not other, "frame", cex=other)
    aux = [k for k in ex.writes if "auxevol" in k]
    ctx.check(f"{tag}: auxevol_gfs is not overwritten by the update", not aux, "frame", cex=aux[:3])


def methods():
    from nrpy.infrastructures.BHaH.MoLtimestepping.RK_Butcher_Table_Dictionary import generate_Butcher_tables
    d = generate_Butcher_tables()
    return d, [m for m in d if d[m][0][-1][0] == ""], [m for m in d if d[m][0][-1][0] != ""]


def memory(ctx, tag, names, mem):
    """malloc/free contracts over the generated functions"""
    import nrpy.c_function as cfc
    N = [sp.Symbol(f"Nxx_plus_2NGHOSTS{i}", integer=True, positive=True) for i in range(3)]
    for naux in (0, 3):
        state, freed, errs = {}, [], []

        def on_call(ex, name, argn):
            if name == "malloc":
                v = real(ex.ev(argn[0]))
                ex.cnt = getattr(ex, "cnt", 0) + 1
                state.setdefault("n", 0)
                state["n"] += 1
                r = Ref(f"block{state['n']}")
                state[r.key] = v
                return r
            if name == "free":
                v = ex.ev(argn[0])
                if not isinstance(v, Ref) or v.key not in state or v.key in freed:
                    errs.append(f"free of {v}")
                else:
                    freed.append(v.key)
                return 0
            return None

        def resolver(key):
            m = re.fullmatch(r"gridfuncs->(\w+)", key)
            if m:
                if m.group(1) not in mem:
                    return None
                if store.get(key) is not None:
                    return store[key]
                errs.append(f"{key} used before it is set")
                return Ref("unset")
            return {"NUM_EVOL_GFS": 2, "NUM_AUXEVOL_GFS": naux, **{str(n): cexec.CInt(n) for n in N}}.get(key)

        store = {}

        def run(fname):
            body = cfc.CFunction_dict[fname].full_function
            fns = cexec.functions_of(body, STRUCTS + ("MoL_gridfunctions_struct",))
            ex = cexec.Exec({}, {}, resolver, None, None, on_call)
            ex.mem.update(store)
            ex.stmt(fns[fname].body)
            bad = [w for w in ex.writes if not (w.startswith("gridfuncs->") and w[11:] in mem)]
            if bad:
                errs.append(f"{fname} writes {bad}")
            store.update(ex.mem)

        try:
            run("MoL_malloc_y_n_gfs")
            if "y_n_gfs" not in {k[11:] for k, v in store.items() if isinstance(v, Ref) and v.key in state}:
                errs.append("y_n_gfs not allocated by MoL_malloc_y_n_gfs")
        except cexec.CUndeclared as e:
            # diagnostic pointers of the not yet allocated arrays may be copied; undeclared members may not
            errs.append(f"undeclared {e}")
        errs[:] = [e for e in errs if "used before it is set" not in e]   # diagnostic aliases are set again by the second call
        try:
            run("MoL_malloc_non_y_n_gfs")
        except cexec.CUndeclared as e:
            errs.append(f"undeclared {e}")
        if naux == 0:
            errs[:] = [e for e in errs if "auxevol" not in e]
        ctx.check(f"{tag}: allocation code refers to declared members only (NUM_AUXEVOL_GFS={naux})", not errs, "symbolic execution", cex=errs[:4])
        errs.clear()
        base = sp.Symbol("sizeof_Typename", integer=True, positive=True) * N[0] * N[1] * N[2]
        blocks = {}
        for m in names:
            v = store.get(f"gridfuncs->{m}")
            if m == "auxevol_gfs":
                if naux:
                    ctx.check(f"{tag}: {m} holds all points of all its gridfunctions", isinstance(v, Ref) and sp.expand(state[v.key] - naux * base) == 0, "polynomial identity", cex=str(v))
                    blocks[m] = v
                else:
                    ctx.check(f"{tag}: {m} not allocated when there are none", v is None, "symbolic execution")
            else:
                ctx.check(f"{tag}: {m} holds all points of all its gridfunctions (NUM_AUXEVOL_GFS={naux})", isinstance(v, Ref) and v.key in state and sp.expand(state[v.key] - 2 * base) == 0, "polynomial identity", cex=dict(size=str(state.get(getattr(v, "key", None)))))
                blocks[m] = v
        keys = [v.key for v in blocks.values() if isinstance(v, Ref)]
        ctx.check(f"{tag}: arrays do not share storage (NUM_AUXEVOL_GFS={naux})", len(keys) == len(set(keys)), "set equality", cex=keys)
        diag = [store.get(f"gridfuncs->diagnostic_output_gfs{x}") for x in ("", "2")]
        yk = store.get("gridfuncs->y_n_gfs")
        dk = [d.key if isinstance(d, Ref) else None for d in diag]
        ctx.check(f"{tag}: diagnostic arrays point to two different allocated scratch arrays (NUM_AUXEVOL_GFS={naux})", None not in dk and len(set(dk)) == 2 and all(k in keys for k in dk) and (yk is None or yk.key not in dk)
                  and all(k != getattr(blocks.get("auxevol_gfs"), "key", 0) for k in dk), "symbolic execution", cex=dk)
        try:
            run("MoL_free_memory_y_n_gfs")
            run("MoL_free_memory_non_y_n_gfs")
        except cexec.CUndeclared as e:
            errs.append(f"undeclared {e}")
        ctx.check(f"{tag}: everything allocated is freed exactly once (NUM_AUXEVOL_GFS={naux})", not errs and sorted(freed) == sorted(k for k in state if k.startswith("block")), "symbolic execution", cex=dict(errors=errs, freed=freed, allocated=[k for k in state if k != "n"]))


def bhah(ctx, method):
    import nrpy.c_function as cfc
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    for f in ("register_CFunctions", "register_CFunction_MoL_step_forward_in_time", "single_RK_substep_input_symbolic", "generate_gridfunction_names", "is_diagonal_Butcher", "register_CFunction_MoL_malloc", "register_CFunction_MoL_free_memory"):
        ctx.under(f"BHaH MoL.{f}")
    d, _, _ = methods()
    table = d[method][0]
    for rfm in (False, True):
        for bc in (False, True):
            tag = f"{method} rfm_precompute={rfm} curviBCs={bc}"
            reset()
            rhs = "RHS(commondata, params, %s%s, auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);" % ("rfmstruct" if rfm else "xx", ", bcstruct" if bc else "")
            ctx.call(f"{tag}: generate", MoL.register_CFunctions, MoL_method=method, rhs_string=rhs, post_rhs_string="POST(commondata, params, RK_OUTPUT_GFS);", post_post_rhs_string="PP();\n",
                        enable_rfm_precompute=rfm, enable_curviBCs=bc)
            if "MoL_step_forward_in_time" not in cfc.CFunction_dict:
                continue
            df = defines()
            mem = members(df, ctx, tag)
            fn = cfc.CFunction_dict["MoL_step_forward_in_time"]
            text = cpp(macro(df) + "\n" + fn.full_function)
            fns = cexec.functions_of(text, STRUCTS)
            sim = Sim(mem, 2)
            ex = cexec.Exec({}, {}, sim.resolver, None, None, sim.on_call)
            ex.mem.update(sim.mem)
            try:
                ex.stmt(fns["MoL_step_forward_in_time"].body)
            except cexec.CUndeclared as e:
                ctx.check(f"{tag}: generated code uses only declared names", False, "symbolic execution", cex=str(e))
                continue
            ctx.check(f"{tag}: generated code uses only declared names", True, "symbolic execution")
            judge(ctx, tag, sim, ex, table)
            if not rfm and not bc:
                arrays = ["y_n_gfs"] + [m for m in mem if m not in ("y_n_gfs", "diagnostic_output_gfs", "diagnostic_output_gfs2")]
                ctx.check(f"{tag}: auxevol_gfs and the diagnostic pointers are members", {"auxevol_gfs", "diagnostic_output_gfs", "diagnostic_output_gfs2"} <= set(mem), "set inclusion", cex=mem)
                memory(ctx, tag, arrays, mem)
                loop_macro(ctx, tag, df)


def macro(df):
    out, on = [], False
    for ln in df.split("\n"):
        if ln.lstrip().startswith("#define"):
            on = True
        if on:
            out.append(ln)
        on = on and ln.rstrip().endswith("\\")
    return "\n".join(out)


def loop_macro(ctx, tag, df):
    text = cpp(macro(df) + "\nvoid f(int Nxx_plus_2NGHOSTS0, int Nxx_plus_2NGHOSTS1, int Nxx_plus_2NGHOSTS2, int NUM_EVOL_GFS) { LOOP_ALL_GFS_GPS(i) { hit(i); } }\n")
    fns = cexec.functions_of(text)
    for n in ((2, 3, 5, 2), (1, 1, 1, 1), (4, 2, 1, 3)):
        hits = []

        def on_call(ex, name, argn):
            if name == "hit":
                hits.append(ex.ev(argn[0]))
                return 0
            return None
        ex = cexec.Exec({}, {}, None, None, None, on_call)
        ex.call(fns["f"], list(n))
        ctx.check(f"{tag}: update loop visits every point of every gridfunction once, sizes {n}", sorted(hits) == list(range(n[0] * n[1] * n[2] * n[3])), "symbolic execution", cex=len(hits), bounded=True)


def rejected(ctx):
    from nrpy.infrastructures.BHaH.MoLtimestepping import MoL
    d, _, adaptive = methods()
    import nrpy.c_function as cfc
    for m in adaptive:
        reset()
        ctx.raises(f"adaptive table {m} is rejected", lambda m=m: MoL.register_CFunction_MoL_step_forward_in_time(d, m, "RHS(RK_INPUT_GFS, RK_OUTPUT_GFS);", "POST(RK_OUTPUT_GFS);"), ValueError, frame=lambda: sorted(cfc.CFunction_dict))
    for w in ("y_n", "", "all"):
        reset()
        ctx.raises(f"MoL_malloc of unknown group {w!r}", lambda w=w: MoL.register_CFunction_MoL_malloc(d, "RK4", w), ValueError, frame=lambda: sorted(cfc.CFunction_dict))
        ctx.raises(f"MoL_free of unknown group {w!r}", lambda w=w: MoL.register_CFunction_MoL_free_memory(d, "RK4", w), ValueError, frame=lambda: sorted(cfc.CFunction_dict))


PARTS = ["MOL_PRE_RK_UPDATE", "MOL_RK_UPDATE", "MOL_POST_RK_UPDATE_APPLY_BCS", "MOL_POST_RK_UPDATE"]


def superb(ctx, method):
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    from nrpy.infrastructures.superB import MoL
    for f in ("register_CFunctions", "register_CFunction_MoL_step_forward_in_time", "single_RK_substep_input_symbolic", "generate_post_rhs_output_list", "generate_rhs_output_exprs", "create_gf_constants", "create_rk_substep_constants"):
        ctx.under(f"superB MoL.{f}")
    d, _, _ = methods()
    table = d[method][0]
    S = len(table) - 1
    for rfm in (False, True):
        for bcs in (False, True):
            tag = f"superB {method} rfm_precompute={rfm} boundary call={bcs}"
            reset()
            gri.glb_gridfcs_dict.clear()
            rhs = "RHS(commondata, params, %s, bcstruct, auxevol_gfs, RK_INPUT_GFS, RK_OUTPUT_GFS);" % ("rfmstruct" if rfm else "xx")
            post = "POST(commondata, params, RK_OUTPUT_GFS);"
            ctx.call(f"{tag}: generate", MoL.register_CFunctions, MoL_method=method, rhs_string=rhs, post_rhs_bcs_str=post if bcs else "", post_rhs_string="" if bcs else post, enable_rfm_precompute=rfm, enable_curviBCs=True)
            if "MoL_step_forward_in_time" not in cfc.CFunction_dict:
                continue
            df = defines()
            mem = members(df, ctx, tag)
            consts = "\n".join(f"#define {p} {i}" for i, p in enumerate(PARTS))
            text = cpp(macro(df) + "\n" + consts + "\n" + cfc.CFunction_dict["MoL_step_forward_in_time"].full_function + "\nint __sub[] = {" + ", ".join(f"RK_SUBSTEP_K{s + 1}" for s in range(S)) + "};\n")
            subs = re.search(r"__sub\[\] = \{(.*?)\}", text, re.S).group(1).split(",")
            ctx.check(f"{tag}: the stage constants are defined and different", all(re.fullmatch(r"\s*\d+\s*", x) for x in subs) and len(set(subs)) == S, "gcc -E", cex=subs)
            if not all(re.fullmatch(r"\s*\d+\s*", x) for x in subs):
                continue
            gfc = dict(re.findall(r"#define (\w+_GFS) (\d+)", df))
            names = ["y_n_gfs"] + [m for m in mem if m not in ("y_n_gfs", "diagnostic_output_gfs", "diagnostic_output_gfs2")]
            ctx.check(f"{tag}: one distinct constant per array", set(gfc) == {n.upper() for n in names} and len(set(gfc.values())) == len(gfc), "set equality", cex=dict(constants=gfc, arrays=names))
            fns = cexec.functions_of(text, STRUCTS)
            sim = Sim(mem, 2)
            ex = cexec.Exec({}, {}, sim.resolver, None, None, sim.on_call)
            ex.mem.update(sim.mem)
            try:
                for s in range(S):
                    n0 = len(sim.ev)
                    for i, p in enumerate(PARTS):
                        if p.endswith("BCS") and not bcs:
                            continue
                        fd = fns["MoL_step_forward_in_time"]
                        if i:
                            # the time is set on entry of every part: other code may change it in between
                            ex.mem["commondata->time"] = sp.Symbol("t_other", real=True)
                        ex.call(fd, [Ref("commondata"), Ref("griddata"), T0, int(subs[s]), i])
                    new = sim.ev[n0:]
                    outs = [e[3].upper() for e in new if e[0] == "RHS" and e[1] == 0]
                    posts = [e[2].upper() for e in new if e[0] == "POST" and e[1] == 0]
                    ctx.check(f"{tag}: stage {s + 1}: list of right-hand-side outputs to synchronise", MoL.generate_rhs_output_exprs(d, method, s + 1) == outs, "list equality", cex=dict(listed=MoL.generate_rhs_output_exprs(d, method, s + 1), written=outs))
                    ctx.check(f"{tag}: stage {s + 1}: list of updated arrays to synchronise", sorted(MoL.generate_post_rhs_output_list(d, method, s + 1)) == sorted(posts), "list equality", cex=dict(listed=MoL.generate_post_rhs_output_list(d, method, s + 1), written=posts))
            except cexec.CUndeclared as e:
                ctx.check(f"{tag}: generated code uses only declared names", False, "symbolic execution", cex=str(e))
                continue
            ctx.check(f"{tag}: generated code uses only declared names", True, "symbolic execution")
            judge(ctx, tag, sim, ex, table, final_time=False, pp=False)


def superb_sync(ctx):
    """the list of gridfunctions exchanged between chares is the list of registered ones that ask for it"""
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    from nrpy.infrastructures.superB import MoL
    ctx.under("superB MoL.register_CFunction_MoL_sync_data_defines")
    for hist in ([("uu", "EVOL", True), ("vv", "EVOL", True)], [("uu", "EVOL", False), ("vv", "EVOL", True), ("aa", "AUXEVOL", True), ("bb", "AUX", True)], [], [("Aa", "AUXEVOL", True), ("zz", "EVOL", True), ("mm", "EVOL", False), ("Ab", "AUXEVOL", True)]):
        reset()
        gri.glb_gridfcs_dict.clear()
        for n, g, s in hist:
            gri.register_gridfunctions(n, group=g, sync_gf_in_superB=s)
        r = MoL.register_CFunction_MoL_sync_data_defines()
        want = {g: sorted(n.upper() + "GF" for n, gg, s in hist if gg == g and s) for g in ("EVOL", "AUXEVOL")}
        fns = cexec.functions_of(cfc.CFunction_dict["MoL_sync_data_defines"].full_function, ("MoL_gridfunctions_struct",))
        ex = cexec.Exec({}, {}, lambda k: Ref(k) if k.endswith("GF") else (Ref(k) if k == "gridfuncs" else None))
        ex.stmt(fns["MoL_sync_data_defines"].body)
        tag = f"registry {hist}"
        for g, p in (("EVOL", "evol"), ("AUXEVOL", "auxevol")):
            n = len(want[g])
            got = [ex.mem.get(f"gridfuncs->{p}_gfs_to_sync[{i}]") for i in range(n)]
            ctx.check(f"{tag}: {p} list", sorted(x.key for x in got if x is not None) == want[g] and ex.mem.get(f"gridfuncs->num_{p}_gfs_to_sync") == n, "symbolic execution", cex=str(got), bounded=True)
            extra = [w for w in ex.writes if w.startswith(f"gridfuncs->{p}_gfs_to_sync[")]
            ctx.check(f"{tag}: {p} list stays within its declared size", len(extra) == n, "symbolic execution", cex=extra, bounded=True)
        ctx.check(f"{tag}: returned sizes", tuple(r) == (len(want["EVOL"]), len(want["AUXEVOL"])), "equality", cex=str(r), bounded=True)
        m = ex.mem.get("gridfuncs->max_sync_gfs")
        ctx.check(f"{tag}: buffer size covers the longer list", m is not None and real(m) == max(len(want["EVOL"]), len(want["AUXEVOL"])), "symbolic execution", cex=str(m), bounded=True)


def superb_diag(ctx):
    """MoL_malloc_diagnostic_gfs and MoL_free_memory_diagnostic_gfs: one block with all points of all evolved gridfunctions, freed once"""
    import nrpy.c_function as cfc
    from nrpy.infrastructures.superB import MoL
    ctx.under("superB MoL.register_CFunction_MoL_malloc_diagnostic_gfs", "superB MoL.register_CFunction_MoL_free_memory_diagnostic_gfs")
    reset()
    ctx.call("register_CFunction_MoL_malloc_diagnostic_gfs", MoL.register_CFunction_MoL_malloc_diagnostic_gfs)
    ctx.call("register_CFunction_MoL_free_memory_diagnostic_gfs", MoL.register_CFunction_MoL_free_memory_diagnostic_gfs)
    N = [sp.Symbol(f"Nxx_plus_2NGHOSTS{i}", integer=True, positive=True) for i in range(3)]
    G = sp.Symbol("NUM_EVOL_GFS", integer=True, positive=True)
    blocks, freed = {}, []

    def on_call(ex, name, argn):
        if name == "malloc":
            r = Ref(f"block{len(blocks)}")
            blocks[r.key] = real(ex.ev(argn[0]))
            return r
        if name == "free":
            freed.append(ex.ev(argn[0]).key)
            return 0
        return None
    ex = cexec.Exec({}, {}, lambda k: {str(G): cexec.CInt(G), **{str(n): cexec.CInt(n) for n in N}}.get(k), None, None, on_call)
    try:
        for f in ("MoL_malloc_diagnostic_gfs", "MoL_free_memory_diagnostic_gfs"):
            fn = cfc.CFunction_dict[f]
            ex.stmt(cexec.functions_of(fn.full_function, STRUCTS + ("MoL_gridfunctions_struct",))[f].body)
    except cexec.CUndeclared as e:
        ctx.check("only declared names are used", False, "symbolic execution", cex=str(e))
        return
    want = sp.Symbol("sizeof_Typename", integer=True, positive=True) * N[0] * N[1] * N[2] * G
    ctx.check("one block with all points of all evolved gridfunctions", len(blocks) == 1 and sp.expand(list(blocks.values())[0] - want) == 0, "polynomial identity", cex=str(blocks))
    ctx.check("it is stored in diagnostic_output_gfs and nothing else is written", set(ex.writes) == {"gridfuncs->diagnostic_output_gfs"}, "frame", cex=str(ex.writes))
    ctx.check("it is freed exactly once", freed == list(blocks), "symbolic execution", cex=str(freed))


def units():
    _, ms, _ = methods()
    out = [Unit("rejected", rejected), Unit("superB_sync", superb_sync), Unit("superB_diagnostic_gfs", superb_diag)]
    for m in ms:
        w = 5 if m in ("DP8", "L6", "DP6") else 1
        out.append(Unit(f"BHaH_{m.replace(' ', '_')}", bhah, (m,), weight=w))
        out.append(Unit(f"superB_{m.replace(' ', '_')}", superb, (m,), weight=w))
    return out
