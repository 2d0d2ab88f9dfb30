"""C05  Generated loop nests visit exactly the intended grid points, each exactly once."""
import itertools
import os
import re
import subprocess
import tempfile

import sympy as sp
import z3

from vf import cexec, coords, loops, native
from vf.core import HarnessError, Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.helpers.loop", "nrpy.infrastructures.BHaH.simple_loop", "nrpy.infrastructures.ETLegacy.simple_loop", "nrpy.infrastructures.CarpetX.simple_loop", "nrpy.reference_metric"]
ASSUMPTIONS = ["C int arithmetic does not overflow", "counting-loop rule: for (int i = L; i < U; i += s) with s > 0 and a body that does not assign i visits L, L+s, ... < U once each",
               "CarpetX grid.loop_all/int drivers visit the region they are named after", "OpenMP executes each iteration of a perfectly nested collapsed loop once"]
BOUNDS = ["loop depth 1..3, tile sizes 1..64 (and symbolic), increments 1, 2, simd_width; every loop_region / OMP / precompute option; all coordinate systems for precompute reads",
          "1D/2D diagnostic point selection: enumerated coordinate systems, even Nxx in 2..64 step 2, NGHOSTS 1..5 (bounded)"]


def scope(k):
    m = re.fullmatch(r"[A-Za-z_]\w*", k)
    if m:
        return cexec.CInt(sp.Symbol(k, integer=True))
    m = re.fullmatch(r"(cctk_lsh|cctk_nghostzones)\[(\d)\]", k)
    if m:
        return cexec.CInt(sp.Symbol(f"{m.group(1)}_{m.group(2)}", integer=True))
    return None


def prove_region(ctx, tag, text, body_vars, region, steps, tile=None, assume=(), decl_scope=scope):
    """body_vars[i] ranges over region[i] = (lo, hi) with stride steps[i]: soundness, coverage, exactly once"""
    text = re.sub(r"#\w+.*", "", text)
    try:
        L, inner = loops.parse_nest(text, decl_scope)
    except (loops.NotALoopNest, cexec.CParseError, cexec.CUndeclared) as e:
        ctx.check(f"{tag} is a loop nest", False, "c-symexec", cex=f"{type(e).__name__}: {e}\n{text}")
        return None, None
    env = {}
    pre = [to for to in assume]
    names = [l.var for l in L]
    ok = all(v in names for v in body_vars) and len(set(names)) == len(names)
    ctx.check(f"{tag} declares the index variables", ok, "structure", cex=text)
    if not ok:
        return None, None
    # iteration constraints: for the counting loop of var v there is n_v >= 0 with v = lo + n_v*step and v < hi
    def iter_cons(suffix):
        e, cons = {}, []
        for l in L:
            v, n = z3.Int(l.var + suffix), z3.Int("n_" + l.var + suffix)
            sub = dict(env)
            lo, hi, st = (loops.to_z3(t, _view(env, e)) for t in (l.lo, l.hi, l.step))
            e[l.var] = v
            cons += [n >= 0, v == lo + n * st, v < hi]
        return e, cons

    def _view(base, over):
        class D(dict):
            def setdefault(self, k, d):
                if k in over:
                    return over[k]
                return base.setdefault(k, d)
        return D()

    e1, c1 = iter_cons("")
    e2, c2 = iter_cons("'")
    reg = {v: tuple(loops.to_z3(sp.sympify(t), env) for t in region[i]) for i, v in enumerate(body_vars)}
    st = {v: loops.to_z3(sp.sympify(steps[i]), env) for i, v in enumerate(body_vars)}
    pos = [s >= 1 for s in st.values()] + list(assume(env) if callable(assume) else assume)
    # 1 soundness
    ctx.z3(f"{tag} stays in the region", z3.And([z3.And(reg[v][0] <= e1[v], e1[v] < reg[v][1]) for v in body_vars]), pos + c1,
           replay=lambda m: (False, f"iteration outside the region: {m}\n{text}"))
    # 2 exactly once: equal body indices come from the same iteration
    ctx.z3(f"{tag} visits no point twice", z3.And([e1[n] == e2[n] for n in names]), pos + c1 + c2 + [e1[v] == e2[v] for v in body_vars],
           replay=lambda m: (False, f"point visited twice: {m}\n{text}"))
    # 3 coverage with explicit witnesses: point P_v = lo_v + k_v*step_v < hi_v
    P = {v: z3.Int("P_" + v) for v in body_vars}
    K = {v: z3.Int("K_" + v) for v in body_vars}
    pt = []
    for v in body_vars:
        pt += [K[v] >= 0, P[v] == reg[v][0] + K[v] * st[v], P[v] < reg[v][1]]
    over, wit = {}, []
    for l in L:
        lo, hi, s = (loops.to_z3(t, _view(env, over)) for t in (l.lo, l.hi, l.step))
        if l.var in P:
            val = P[l.var]
        else:  # a tile origin: largest lo + n*T <= P
            base = l.var[:-1]
            if base not in P:
                ctx.check(f"{tag} extra loop {l.var}", False, "structure", cex=text)
                return None, None
            val = lo + ((P[base] - lo) / s) * s
        n = (val - lo) / s
        wit += [n >= 0, val == lo + n * s, val < hi]
        over[l.var] = val
    ctx.z3(f"{tag} covers every point", z3.And(wit), pos + pt, replay=lambda m: (False, f"point not visited: {m}\n{text}"))
    return L, inner


def u_loop(ctx, dim, inc, tile, symbolic):
    import nrpy.helpers.loop as lp
    ctx.under("nrpy.helpers.loop.loop", "nrpy.helpers.loop.loop1D")
    iv = ["i", "j", "k"][:dim]
    lo, hi = ["La", "Lb", "Lc"][:dim], ["Ua", "Ub", "Uc"][:dim]
    incs = [inc] * (dim - 1) + ["1"] if inc != "1" else ["1"] * dim
    tiles = [tile] * dim if tile else ""
    if tile and dim > 1:
        tiles = [str(int(tile) * (1 + k)) for k in range(dim)]
    prag = ["#pragma omp parallel for"] + [""] * (dim - 1)
    body = f"BODY({', '.join(iv)});"
    text = ctx.call("loop", lp.loop, iv if dim > 1 else iv[0], lo if dim > 1 else lo[0], hi if dim > 1 else hi[0], incs if dim > 1 else incs[0], prag if dim > 1 else prag[0],
                    loop_body=body, tile_size=tiles if dim > 1 else (tile or ""))
    L, inner = prove_region(ctx, f"loop{dim} inc={inc} tile={tile}", text, iv, [(a, b) for a, b in zip(lo, hi)], incs)
    if L is None:
        return
    ctx.check("body is the innermost statement, verbatim", len(inner) == 1 and body in text, "structure", cex=text)
    ctx.check("no statements between the loops", all(not l.before for l in L), "structure", cex=text)
    order = [l.var for l in L if l.var in iv]
    ctx.check("loop order is the given order", order == iv, "structure", cex=text)
    # header/footer form concatenates to the same nest
    hf = lp.loop(iv if dim > 1 else iv[0], lo if dim > 1 else lo[0], hi if dim > 1 else hi[0], incs if dim > 1 else incs[0], prag if dim > 1 else prag[0], tile_size=tiles if dim > 1 else (tile or ""))
    ctx.check("header/footer pair returned without a body", isinstance(hf, tuple) and len(hf) == 2, "structure", cex=str(hf))
    L2, _ = prove_region(ctx, f"header+footer loop{dim} inc={inc} tile={tile}", hf[0] + body + hf[1], iv, [(a, b) for a, b in zip(lo, hi)], incs)


def u_loop_misc(ctx):
    import nrpy.helpers.loop as lp
    ctx.under("nrpy.helpers.loop.loop", "nrpy.helpers.loop.loop1D")
    for bad in itertools.product([["i", "j"], ["i"]], repeat=5):
        if len({len(b) for b in bad}) != 1:
            ctx.raises(f"length mismatch {[len(b) for b in bad]} rejected", lambda bad=bad: lp.loop(*bad, loop_body="x;"), ValueError)
    for pos in range(5):
        a = ["i", "0", "N", "1", ""]
        a[pos] = 3
        ctx.raises(f"non-string argument {pos} rejected", lambda a=a: lp.loop1D(*a), ValueError)
    # the pragma immediately precedes its own loop
    for k in range(3):
        pr = ["", "", ""]
        pr[k] = "#pragma MARK"
        t = lp.loop(["a", "b", "c"], ["0"] * 3, ["N"] * 3, ["1"] * 3, pr, loop_body="BODY();")
        lines = [l.strip() for l in t.split("\n") if l.strip()]
        i = lines.index("#pragma MARK")
        ctx.check(f"pragma {k} precedes loop {'abc'[k]}", lines[i + 1].startswith(f"for (int {'abc'[k]} ="), "structure", cex=t)
    for tl in ("4",):
        for k in range(2):
            pr = ["", ""]
            pr[k] = "#pragma MARK"
            t = lp.loop(["a", "b"], ["0"] * 2, ["N"] * 2, ["1"] * 2, pr, loop_body="BODY();", tile_size=["4", "8"])
            lines = [l.strip() for l in t.split("\n") if l.strip()]
            i = lines.index("#pragma MARK")
            ctx.check(f"tiled: pragma {k} precedes loop {'ab'[k]}", lines[i + 1].startswith(f"for (int {'ab'[k]} ="), "structure", cex=t)


REGION = {
    "all points": [("0", f"Nxx_plus_2NGHOSTS{d}") for d in (2, 1, 0)],
    "interior": [("NGHOSTS", f"NGHOSTS+Nxx{d}") for d in (2, 1, 0)],
    "interior plus one upper": [("NGHOSTS", f"NGHOSTS+Nxx{d}+1") for d in (2, 1, 0)],
}


def check_collapse(ctx, tag, text, L, n):
    pr = [l.strip() for l in text.split("\n") if l.strip().startswith("#pragma")]
    ctx.check(f"{tag} the first {n} loops are perfectly nested", all(not l.before for l in L[1:n]), "structure", cex=text)
    want = "#pragma omp parallel for" + (f" collapse({n})" if n > 1 else "")
    ctx.check(f"{tag} pragma", pr == [want], "text", cex=f"{pr} expected {[want]}")
    if pr:
        t = text[text.index(pr[0]) + len(pr[0]):].lstrip()
        ctx.check(f"{tag} pragma precedes the outermost loop", t.startswith("for"), "structure", cex=text)


def u_bhah(ctx, region, simd):
    import nrpy.infrastructures.BHaH.simple_loop as sl
    ctx.under("nrpy.infrastructures.BHaH.simple_loop.simple_loop")
    st = ["1", "1", "simd_width" if simd else "1"]
    body = "BODY(i0, i1, i2);"
    for coll in (1, 2, 3):
        for rx in ((False, True) if not simd else (False,)):
            for omp in (True, False):
                text = ctx.call("simple_loop", sl.simple_loop, body, enable_simd=simd, loop_region=region, read_xxs=rx, enable_OpenMP=omp, OMP_collapse=coll)
                tag = f"{region} simd={simd} collapse={coll} read_xxs={rx} omp={omp}"
                L, inner = prove_region(ctx, tag, text, ["i2", "i1", "i0"], REGION[region], st)
                if L is None:
                    continue
                ctx.check(f"{tag} loop order i2,i1,i0", [l.var for l in L] == ["i2", "i1", "i0"], "structure", cex=text)
                if omp:
                    check_collapse(ctx, tag, text, L, coll)
                else:
                    ctx.check(f"{tag} no pragma without OpenMP", "#pragma" not in text, "text", cex=text)
                ctx.check(f"{tag} body verbatim and last", body in text and inner and isinstance(inner[-1], cexec.c_ast.FuncCall), "structure", cex=text)
                env = run_body(ctx, tag, L, inner)
                if env is None:
                    continue
                if rx:
                    for d in range(3):
                        got = env.get(f"xx{d}")
                        ctx.check(f"{tag} xx{d} is xx[{d}][i{d}]", got == sp.Symbol(f"xx[{d}][i{d}]"), "c-symexec", cex=f"{got}\n{text}")
                else:
                    ctx.check(f"{tag} declares nothing else", not env, "c-symexec", cex=f"{env}")
    ctx.check("custom pragma used verbatim", sl.simple_loop(body, loop_region=region, OMP_custom_pragma="#CUSTOM", enable_OpenMP=False).lstrip().startswith("#CUSTOM\nfor"), "text")


def run_body(ctx, tag, L, inner):
    """execute one iteration symbolically: name -> value of everything declared for the body"""
    ex = cexec.Exec({f"i{d}": cexec.CInt(sp.Symbol(f"i{d}", integer=True)) for d in range(3)},
                    resolver=lambda k: sp.Symbol(k) if "[" in k or "->" in k else cexec.CInt(sp.Symbol(k, integer=True)),
                    on_call=lambda e, n, a: 0 if n == "BODY" else None)
    try:
        for l in L:
            ex.scopes.append({})
            ex.types.append({})
            for s in l.before:
                ex.stmt(s)
        ex.scopes.append({})
        ex.types.append({})
        for s in inner:
            ex.stmt(s)
    except (cexec.CUndeclared, cexec.CParseError) as e:
        ctx.check(f"{tag} compiles", False, "c-symexec", cex=repr(e))
        return None
    env = {}
    for s in ex.scopes:
        env.update(s)
    return env


def u_precompute(ctx, coord):
    """rfm precompute reads: every quantity is read at the index of the coordinate(s) it depends on"""
    import nrpy.infrastructures.BHaH.rfm_precompute as rp
    import nrpy.infrastructures.BHaH.simple_loop as sl
    ctx.under("nrpy.infrastructures.BHaH.simple_loop.simple_loop", "nrpy.infrastructures.BHaH.rfm_precompute.ReferenceMetricPrecompute")
    body = "BODY(i0, i1, i2);"
    base = None
    for region in REGION:
        for simd in (False, True):
            for coll in (1, 2, 3):
                st = ["1", "1", "simd_width" if simd else "1"]
                text = ctx.call("simple_loop", sl.simple_loop, body, enable_simd=simd, loop_region=region, CoordSystem=coord, enable_rfm_precompute=True, OMP_collapse=coll)
                tag = f"{coord} {region} simd={simd} collapse={coll}"
                L, inner = prove_region(ctx, tag, text, ["i2", "i1", "i0"], REGION[region], st)
                if L is None:
                    continue
                check_collapse(ctx, tag, text, L, coll)
                env = run_body(ctx, tag, L, inner)
                if env is None:
                    continue
                names = set()
                for n, v in env.items():
                    m = re.search(r"_of_xx(\d)", n)
                    if not m:
                        continue
                    if n.startswith("Nowarn") or n.startswith("dblNowarn"):
                        continue
                    d = m.group(1)
                    names.add(re.sub(r"^(dbl|const_)", "", n))
                    ctx.check(f"{tag} {n}", v == sp.Symbol(f"rfmstruct->{n}[i{d}]"), "c-symexec", cex=f"{n} = {v}\n{text[:2500]}") if not n.startswith("NOSIMD") else \
                        ctx.check(f"{tag} {n}", v == sp.Symbol(f"rfmstruct->{n[6:]}[i{d}]"), "c-symexec", cex=f"{n} = {v}")
                plain = {n for n in names if not n.startswith("NOSIMD")}
                if base is None:
                    base = plain
                ctx.check(f"{tag} reads the same quantities in every mode", plain == base, "c-symexec", cex=f"{plain ^ base}")


def u_misc(ctx):
    import nrpy.infrastructures.BHaH.simple_loop as sl
    import nrpy.infrastructures.CarpetX.simple_loop as cx
    import nrpy.infrastructures.ETLegacy.simple_loop as et
    ctx.under("nrpy.infrastructures.BHaH.simple_loop.simple_loop", "nrpy.infrastructures.ETLegacy.simple_loop.simple_loop", "nrpy.infrastructures.CarpetX.simple_loop.simple_loop")
    ctx.check("BHaH: no region returns the body", sl.simple_loop("BODY();", loop_region="") == "BODY();", "structure")
    ctx.raises("BHaH: unknown region rejected", lambda: sl.simple_loop("B", loop_region="exterior"), ValueError)
    ctx.raises("BHaH: read_xxs with SIMD rejected", lambda: sl.simple_loop("B", loop_region="interior", read_xxs=True, enable_simd=True), ValueError)
    ctx.raises("BHaH: read_xxs with precompute rejected", lambda: sl.simple_loop("B", loop_region="interior", read_xxs=True, enable_rfm_precompute=True), ValueError)
    ctx.raises("ETLegacy: unknown region rejected", lambda: et.simple_loop("B", loop_region="exterior"), ValueError)
    ctx.raises("CarpetX: unknown region rejected", lambda: cx.simple_loop("B", loop_region="exterior"), ValueError)
    ctx.raises("CarpetX: SIMD rejected", lambda: cx.simple_loop("B", loop_region="interior", enable_simd=True), ValueError)
    for c in ([0, 0], "000", [0, 0, 2], [0, 0, "1"], (0, 0, 0), [0, -1, 0]):
        ctx.raises(f"CarpetX: centering {c!r} rejected", lambda c=c: cx.simple_loop("B", loop_region="interior", loop_centering=c), ValueError)
    ETR = {"all points": [("0", f"cctk_lsh_{d}") for d in (2, 1, 0)], "interior": [(f"cctk_nghostzones_{d}", f"cctk_lsh_{d}-cctk_nghostzones_{d}") for d in (2, 1, 0)]}
    for region in ETR:
        for simd in (False, True):
            for coll in (1, 2, 3):
                for omp in (True, False):
                    text = et.simple_loop("BODY(i0, i1, i2);", enable_simd=simd, loop_region=region, OMP_collapse=coll, enable_OpenMP=omp)
                    tag = f"ETLegacy {region} simd={simd} collapse={coll} omp={omp}"
                    L, inner = prove_region(ctx, tag, text, ["i2", "i1", "i0"], ETR[region], ["1", "1", "simd_width" if simd else "1"])
                    if L is None:
                        continue
                    ctx.check(f"{tag} order", [l.var for l in L] == ["i2", "i1", "i0"], "structure", cex=text)
                    if omp:
                        check_collapse(ctx, tag, text, L, coll)
                    else:
                        ctx.check(f"{tag} no pragma", "#pragma" not in text, "text")
    for region, word in (("all points", "all"), ("interior", "int")):
        for cen in itertools.product((0, 1), repeat=3):
            for dev in (True, False):
                t = re.sub(r"\s+", " ", cx.simple_loop("BODY(p);", loop_region=region, loop_centering=list(cen), run_on_device=dev))
                drv = f"grid.loop_{word}" + ("_device" if dev else "")
                m = re.match(r"(grid\.\w+)<(\d), (\d), (\d)>\( grid\.nghostzones, \[=\] (CCTK_\w+)\(const Loop::PointDesc &p\) CCTK_ATTRIBUTE_ALWAYS_INLINE \{ BODY\(p\); \}\);", t)
                ctx.check(f"CarpetX {region} {cen} device={dev}", bool(m) and m.group(1) == drv and tuple(map(int, m.groups()[1:4])) == cen and m.group(5) == ("CCTK_DEVICE" if dev else "CCTK_HOST"),
                          "structure", cex=t)
        t = cx.simple_loop("BODY(p);", loop_region=region)
        ctx.check(f"CarpetX {region} default centering is 0,0,0 on the device", "<0, 0, 0>" in t and "_device" in t, "structure", cex=t)


def bhah_defines():
    """the macros of the BHaH_defines.h that /repo generates now"""
    import nrpy.finite_difference  # noqa
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    with tempfile.TemporaryDirectory() as d:
        bd.output_BHaH_defines_h(project_dir=d, enable_intrinsics=False, enable_rfm_precompute=False)
        return open(os.path.join(d, "BHaH_defines.h"), encoding="utf-8").read()


def expand(defines, snippet):
    d = re.sub(r"\\\n", " ", defines)
    macros = "\n".join(l for l in d.split("\n") if re.match(r"\s*#define (IDX|LOOP_|IS_IN_GRID|NGHOSTS|UPWIND_ALG|MIN|MAX)", l))
    pr = subprocess.run(["gcc", "-E", "-P", "-undef", "-xc", "-"], input=macros + "\n@@\n" + snippet + "\n", capture_output=True, text=True, timeout=60)
    if pr.returncode:
        raise HarnessError(pr.stderr)
    return pr.stdout.split("@@")[1]


def u_macros(ctx):
    d = ctx.call("output_BHaH_defines_h", bhah_defines)
    ctx.under("BHaH_defines.h: IDX3, IDX4, IDX4pt, LOOP_REGION, LOOP_OMP, LOOP_NOOMP, IS_IN_GRID_INTERIOR, UPWIND_ALG", "nrpy.infrastructures.BHaH.BHaH_defines_h.output_BHaH_defines_h")
    I = lambda n: sp.Symbol(n, integer=True)
    sc = lambda k: cexec.CInt(I(k)) if re.fullmatch(r"\w+", k) else None

    def val(snip):
        t = expand(d, snip)
        ex = cexec.Exec({}, resolver=sc)
        try:
            return cexec.real(ex.ev(cexec.kernel(f"{t.strip()};").block_items[0])), t
        except (cexec.CUndeclared, cexec.CParseError) as e:
            return sp.Symbol("undeclared"), f"{t}: {e}"

    N0, N1, N2 = (I(f"Nxx_plus_2NGHOSTS{k}") for k in range(3))
    g, i, j, k, o = map(I, ("g", "i", "j", "k", "o"))
    for nm, snip, want in (
        ("IDX4", "IDX4(g,i,j,k)", i + N0 * (j + N1 * (k + N2 * g))), ("IDX3", "IDX3(i,j,k)", i + N0 * (j + N1 * k)), ("IDX4pt", "IDX4pt(g,o)", o + N0 * N1 * N2 * g),
        ("IDX4 with compound arguments", "2*IDX4(g+1,i-o,j-o,k+o)*2", 4 * (i - o + N0 * (j - o + N1 * (k + o + N2 * (g + 1))))),
        ("IDX3 with compound arguments", "2*IDX3(i-o,j-o,k+o)*2", 4 * (i - o + N0 * (j - o + N1 * (k + o)))),
        ("IDX4pt(g, IDX3(i,j,k)) = IDX4(g,i,j,k)", "IDX4pt(g,IDX3(i,j,k)) - IDX4(g,i,j,k)", sp.S.Zero),
        ("IDX4pt with compound arguments", "2*IDX4pt(g+1,o-i)*2", 4 * (o - i + N0 * N1 * N2 * (g + 1)))):
        v, t = val(snip)
        ctx.eq(nm, v, want)
    # mixed-radix lemma: the flattening is injective and in bounds; applied to (i | j | k | gf)
    a, b, a2, b2, n, m = z3.Ints("a b a2 b2 n m")
    dv = z3.Int("dv")
    # the product n*dv with dv = b-b2 is split on the sign of dv so that each case is linear in n*dv
    ctx.z3("mixed radix: injective (b > b2)", z3.BoolVal(False), [n > 0, 0 <= a, a < n, 0 <= a2, a2 < n, dv >= 1, a + n * dv == a2, n * dv >= n])
    ctx.z3("mixed radix: n*dv >= n for dv >= 1", n * dv >= n, [n > 0, dv >= 1])
    ctx.z3("mixed radix: bound", a + n * b <= n * m - 1, [n > 0, 0 <= a, a < n, b <= m - 1, n * b <= n * (m - 1)])
    ctx.z3("mixed radix: monotone product", n * b <= n * (m - 1), [n > 0, b <= m - 1])
    # loop macros
    for nm, snip, vars_, reg in (
        ("LOOP_REGION", "LOOP_REGION(La,Ua, Lb,Ub, Lc,Uc) { BODY(i0,i1,i2); }", ["i2", "i1", "i0"], [("Lc", "Uc"), ("Lb", "Ub"), ("La", "Ua")]),
        ("LOOP_NOOMP", "LOOP_NOOMP(a,La,Ua, b,Lb,Ub, c,Lc,Uc) { BODY(a,b,c); }", ["c", "b", "a"], [("Lc", "Uc"), ("Lb", "Ub"), ("La", "Ua")]),
        ("LOOP_OMP", 'LOOP_OMP("omp parallel for", a,La,Ua, b,Lb,Ub, c,Lc,Uc) { BODY(a,b,c); }', ["c", "b", "a"], [("Lc", "Uc"), ("Lb", "Ub"), ("La", "Ua")]),
    ):
        t = expand(d, snip)
        prove_region(ctx, nm, re.sub(r"\((\w+)\)", r" \1 ", t.replace("BODY", "")), vars_, reg, ["1"] * 3)
    # interior test
    t = expand(d, "IS_IN_GRID_INTERIOR(p, n0, n1, n2, NG)")
    P = [z3.Int(f"p{q}") for q in range(3)]
    ns = [z3.Int(f"n{q}") for q in range(3)]
    NG = z3.Int("NG")

    def run(path):
        ex = cexec.Exec({}, resolver=lambda kk: cexec.CInt(I(re.sub(r"[\[\]]", "", kk))), path=path)
        return ex.truth(ex.ev(cexec.kernel(t.strip() + ";").block_items[0]))

    disj = []
    for cond, r in cexec.explore(run):
        cs = []
        for c in cond:
            cs.append(rel(c))
        if r:
            disj.append(z3.And(cs))
    want = z3.And([z3.And(P[q] >= NG, P[q] < ns[q] - NG) for q in range(3)])
    ctx.z3("IS_IN_GRID_INTERIOR is the interior test", z3.Or(disj) == want, [], replay=lambda m: (False, f"{t}: {m}"))
    # NGHOSTS
    for order in (2, 4, 6, 8, 10, 12):
        for up in (True, False):
            pr_check_nghosts(ctx, order, up)
    for snip in ("UPWIND_ALG(x)",):
        tt = expand(d, snip)
        for cond, ex in cexec.explore(lambda p: _upw(tt, p)):
            x = sp.Symbol("x", real=True)
            ctx.check(f"UPWIND_ALG when {cond}", (cond == [sp.Gt(x, 0)] and ex == 1) or (cond in ([sp.Le(x, 0)], [sp.Not(sp.Gt(x, 0))]) and ex == 0), "c-symexec", cex=f"{tt} {cond} {ex}")


def _upw(t, path):
    ex = cexec.Exec({"x": sp.Symbol("x", real=True)}, path=path)
    return ex.ev(cexec.kernel(f"double r; r = {t.strip()};").block_items[1].rvalue)


def pr_check_nghosts(ctx, order, up):
    import nrpy.infrastructures.BHaH.BHaH_defines_h as bd
    import nrpy.params as par
    par.set_parval_from_str("fd_order", order)
    par.glb_extras_dict.clear()
    with tempfile.TemporaryDirectory() as dd:
        bd.output_BHaH_defines_h(project_dir=dd, enable_intrinsics=False, enable_rfm_precompute=False, fin_NGHOSTS_add_one_for_upwinding_or_KO=up)
        txt = open(os.path.join(dd, "BHaH_defines.h"), encoding="utf-8").read()
    m = re.search(r"#define NGHOSTS (\d+)", txt)
    ctx.check(f"NGHOSTS covers the widest stencil of order {order} (upwind={up})", bool(m) and int(m.group(1)) == order // 2 + (1 if up else 0), "exact", cex=str(m and m.group(0)))


def rel(c):
    e = {}
    if isinstance(c, sp.Not):
        return z3.Not(rel(c.args[0]))
    l, r = (loops.to_z3(t, e) for t in c.args)
    return {sp.StrictLessThan: l < r, sp.LessThan: l <= r, sp.StrictGreaterThan: l > r, sp.GreaterThan: l >= r, sp.Equality: l == r, sp.Unequality: l != r}[type(c)]


# ------------------------------------------------------------------ diagnostics along axes and planes (bounded)
COORDS_DIAG = ["Cartesian", "SinhCartesian", "Spherical", "SinhSpherical", "SinhSphericalv2n2", "Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2", "SymTP", "SinhSymTP", "HoleySinhSpherical", "RingHoleySinhSpherical", "UWedgeHSinhSph", "LWedgeHSinhSph"]

DIAG_C = r"""
#include <stdio.h>
#include <stdlib.h>
#include <math.h>
#define REAL double
#define MACROS
typedef struct { int dummy; } commondata_struct;
typedef struct { int dummy; } params_struct;
static void xx_to_Cart(const commondata_struct *c, const params_struct *p, REAL *xx[3], int i0, int i1, int i2, REAL xCart[3]) {
  xCart[0] = i0 + 1000*i1 + 1000000.0*i2; xCart[1] = -xCart[0]; xCart[2] = xCart[0] + 0.5;
}
PREFUNC
int main(void) {
  commondata_struct cs, *commondata = &cs; params_struct ps, *params = &ps; REAL *xx[3];
  FILE *outfile = stdout;
  for (int Nxx = 4; Nxx <= NMAX; Nxx += Nxx < 12 || NMAX > 30 ? 2 : 6) for (int NGHOSTS = 1; NGHOSTS <= (NMAX > 30 ? 5 : 4); NGHOSTS++) {
    const int Nxx0 = Nxx, Nxx1 = Nxx + 2*(NGHOSTS % 3), Nxx2 = Nxx + 2*((NGHOSTS + 1) % 3), Nxx_plus_2NGHOSTS0 = Nxx0 + 2*NGHOSTS, Nxx_plus_2NGHOSTS1 = Nxx1 + 2*NGHOSTS, Nxx_plus_2NGHOSTS2 = Nxx2 + 2*NGHOSTS;
    const size_t tot = (size_t)Nxx_plus_2NGHOSTS0*Nxx_plus_2NGHOSTS1*Nxx_plus_2NGHOSTS2;
    REAL *in_gfs = malloc(tot*sizeof(REAL)); for (size_t i = 0; i < tot; i++) in_gfs[i] = i;
    printf("# %d %d %d %d\n", Nxx0, Nxx1, Nxx2, NGHOSTS);
    {
BODY
    }
    free(in_gfs);
  }
  return 0;
}
"""


def u_diag(ctx, coord, kind, which):
    import nrpy.infrastructures.BHaH.simple_loop as sl
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    ctx.under("nrpy.infrastructures.BHaH.simple_loop.simple_loop_1D", "nrpy.infrastructures.BHaH.simple_loop.simple_loop_2D", "nrpy.infrastructures.BHaH.simple_loop.max_numpts__i012_pts__numpts_2D")
    rfm = refmetric.reference_metric[coord]
    comp_zero = {"y": (0, 2), "z": (0, 1), "xy": (2,), "yz": (0,)}[which]
    comp_out = {"y": (1,), "z": (2,), "xy": (0, 1), "yz": (1, 2)}[which]
    pre = ""
    oq = {("REAL", "q"): "in_gfs[idx3]"}
    if kind == 1:
        pre, text = ctx.call("simple_loop_1D", sl.simple_loop_1D, coord, oq, axis=which)
    else:
        text = ctx.call("simple_loop_2D", sl.simple_loop_2D, coord, oq, plane=which)
    d = re.sub(r"\\\n", " ", bhah_defines())
    macros = "\n".join(l for l in d.split("\n") if re.match(r"\s*#define (IDX|LOOP_)", l))
    nmax = 66 if thorough() else 24
    src = DIAG_C.replace("#define MACROS", macros).replace("NMAX", str(nmax)).replace("PREFUNC", pre).replace("BODY", text)
    stage, rc, out, err = native.build_run(src)
    ctx.check("the diagnostic code compiles", not (stage == "compile" and rc), "gcc", cex=err[:1500] + text, bounded=True)
    if stage == "compile":
        return
    ctx.check("the diagnostic code stays in bounds", rc == 0, "gcc asan/ubsan", cex=err[:1500] + text, bounded=True)
    if rc:
        return
    val = {}
    for e in list(rfm.xx_to_Cart) + list(rfm.xxmin) + list(rfm.xxmax):
        for s in sp.sympify(e).free_symbols - set(rfm.xx):
            cp = par.glb_code_params_dict.get(s.name)
            val[s] = sp.pi if s.name == "M_PI" else sp.Float(float(cp.defaultvalue)) if cp is not None and cp.defaultvalue not in ("unset",) else sp.S.One
    xmin = [float(sp.sympify(e).subs(val)) for e in rfm.xxmin]
    xmax = [float(sp.sympify(e).subs(val)) for e in rfm.xxmax]
    f = sp.lambdify(rfm.xx, [sp.sympify(e).subs(val) for e in rfm.xx_to_Cart], "math")
    bad_dup, bad_out, bad_zero, bad_prod, bad_sign, bad_near, bad_none = [], [], [], [], [], [], []
    grids = out.split("# ")[1:]
    sets = []
    R3 = range(3)
    memo = {}

    def F(*b):
        if b not in memo:
            memo[b] = f(*b)
        return memo[b]
    for g in grids:
        rows = g.strip().split("\n")
        *n, ng = map(int, rows[0].split())
        N = [x + 2 * ng for x in n]
        pts = []
        for r in rows[1:]:
            *xs, q = map(float, r.split())
            q = int(q)
            i = (q % N[0], (q // N[0]) % N[1], q // N[0] // N[1])
            pts.append(i)
            X0 = i[0] + 1000 * i[1] + 1000000.0 * i[2]
            want = [(X0, -X0, X0 + 0.5)[c] for c in comp_out]
            if xs != want:
                bad_out.append((n, ng, i, xs, want))
            if not all(ng <= i[k] < ng + n[k] for k in R3):
                bad_out.append((n, ng, i))
        if len(set(pts)) != len(pts):
            bad_dup.append((n, ng, pts[:6]))
        L = [sorted({p[k] for p in pts}) for k in R3]
        if sorted(pts) != sorted(itertools.product(*L)):
            bad_prod.append((n, ng, L))
        sets.append((n, ng, L))
    ctx.cover("diagnostic grids", len(sets) > 10)
    empty = {not L[0] for n, ng, L in sets}
    ctx.check("points exist on all grids or none", len(empty) == 1, "native run", bounded=True, cex=text)
    sel = [k for k in R3 if len(sets[-1][2][k]) != sets[-1][0][k]]
    dist2 = lambda v: sum(v[c] ** 2 for c in comp_zero)
    for n, ng, L in sets:
        dx = [(xmax[k] - xmin[k]) / n[k] for k in R3]
        X = lambda k, i: xmin[k] + (i - ng + 0.5) * dx[k]
        full = [range(ng, ng + n[k]) for k in R3]
        probe = [(ng, ng + n[k] // 4, ng + 3 * n[k] // 4, ng + n[k] - 1) for k in R3]
        have = {c: {F(*(X(k, p[k]) for k in R3))[c] > 0 for p in itertools.product(*probe)} for c in comp_out}
        if not L[0]:
            # no point requested: the grid must not reach the axis
            for p in itertools.product(*[(ng, ng + n[k] // 2, ng + n[k] // 2 - 1, ng + n[k] - 1, ng + n[k] // 4, ng + 3 * n[k] // 4) for k in R3]):
                vals = [F(*q) for q in itertools.product(*[(X(k, p[k]) - dx[k] / 2, X(k, p[k]) + dx[k] / 2) for k in R3])]
                if n[0] > 12 and all(min(v[c] for v in vals) <= 0 <= max(v[c] for v in vals) for c in comp_zero):
                    bad_none.append((n, ng, p))
            continue
        for k in R3:
            if k not in sel and L[k] != list(full[k]):
                bad_prod.append((n, ng, k, L[k]))
        signs = {c: set() for c in comp_out}
        base = [X(e, L[e][len(L[e]) // 3]) for e in R3]
        for pt in itertools.product(*[L[k] for k in sel]):
            box = [[X(k, i) - dx[k], X(k, i), X(k, i) + dx[k]] for k, i in zip(sel, pt)]
            vals = []
            for corner in itertools.product(*box):
                b = list(base)
                for k, v in zip(sel, corner):
                    b[k] = v
                vals.append(F(*b))
            for c in comp_zero:
                if min(v[c] for v in vals) > 1e-9 or max(v[c] for v in vals) < -1e-9:
                    bad_zero.append((n, ng, pt, c))
            # nearest: no neighbouring index is closer
            at = list(base)
            for k, i in zip(sel, pt):
                at[k] = X(k, i)
            d0 = dist2(F(*at))
            for k, i in zip(sel, pt):
                for s in (-1, 1):
                    if ng <= i + s < ng + n[k]:
                        b = list(at)
                        b[k] = X(k, i + s)
                        if dist2(F(*b)) < d0 * (1 - 1e-9) - 1e-18:
                            bad_near.append((n, ng, pt, k, s))
        for k in R3:
            for i in (L[k][0], L[k][-1]):
                for other in itertools.product(*[(L[e][0], L[e][-1], L[e][len(L[e]) // 3]) for e in R3]):
                    b = [X(e, other[e]) for e in R3]
                    b[k] = X(k, i)
                    v = F(*b)
                    for c in comp_out:
                        signs[c].add(v[c] > 0)
        if any(signs[c] < have[c] for c in comp_out):
            bad_sign.append((n, ng, signs, have))
    ctx.check("no points only where the grid has none on the axis", not bad_none, "native run", cex=str(bad_none[:3]), bounded=True)
    ctx.check("no neighbouring point is closer to the axis/plane", not bad_near, "native run", cex=str(bad_near[:5]) + text, bounded=True)
    b = dict(bounded=True)
    ctx.check("points are distinct interior points, output with their own coordinates and data", not bad_dup and not bad_out, "native run", cex=str((bad_dup[:3], bad_out[:3])) + text, **b)
    ctx.check("points fill a product of index sets, complete in the free directions", not bad_prod, "native run", cex=str(bad_prod[:3]) + text, **b)
    ctx.check("points lie within one cell of the axis/plane", not bad_zero, "native run", cex=str(bad_zero[:3]) + text, **b)
    ctx.check("points cover both sides of the origin", not bad_sign, "native run", cex=str(bad_sign[:3]) + text, **b)


def units():
    U = []
    for dim in (1, 2, 3):
        for inc in ("1", "2", "simd_width"):
            U.append(Unit(f"loop dim={dim} inc={inc}", u_loop, (dim, inc, None, False)))
        for tile in ("1", "3", "16", "64"):
            U.append(Unit(f"loop dim={dim} tile={tile}", u_loop, (dim, "1", tile, False), timeout=300))
    U.append(Unit("loop arguments", u_loop_misc))
    for r in REGION:
        for s in (False, True):
            U.append(Unit(f"BHaH simple_loop {r} simd={s}", u_bhah, (r, s)))
    import nrpy.reference_metric as refmetric
    for c in coords.ALL:
        if "GeneralRFM" in c:
            continue
        U.append(Unit(f"rfm precompute reads {c}", u_precompute, (c,), weight=4))
    U.append(Unit("simple_loop options, ETLegacy, CarpetX", u_misc))
    U.append(Unit("index and loop macros", u_macros))
    for c in COORDS_DIAG:
        if c not in coords.ALL:
            continue
        for kind, which in ((1, "y"), (1, "z"), (2, "xy"), (2, "yz")):
            U.append(Unit(f"diagnostic points {c} {which}", u_diag, (c, kind, which)))
    return U
