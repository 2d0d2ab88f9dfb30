"""C03  Generated C evaluates exactly the symbolic expressions it was generated from."""
import itertools
import random

import sympy as sp

from vf import cexec
from vf.core import SEED, Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.c_codegen", "nrpy.grid"]
ASSUMPTIONS = ["machine reals are treated as mathematical reals (rounding, overflow and evaluation order are not modelled); integer subexpressions use C integer division",
               "libm functions (sqrt, cbrt, pow, sin, ...) compute the mathematical functions they are named after"]
BOUNDS = ["expressions: a fixed corpus covering every operator/exponent rule plus generated expressions up to depth 4; for each of them equality is proved for all values of the free symbols",
          "options: every value of every c_codegen option that affects scalar output, all pairs of the boolean ones"]
TRUSTED = ["SymPy's ccode printer is exercised, not trusted: its output text is parsed and compared", "pycparser"]

x, y, z, w = sp.symbols("x y z w", real=True)
p, q, r = sp.symbols("p q r", positive=True)
ENV = {s.name: s for s in (x, y, z, w, p, q, r)}


def plain(e):
    """the expression as a user writes it: symbols without assumptions"""
    return e.xreplace({s: sp.Symbol(s.name) for s in e.free_symbols})


def corpus():
    import nrpy.c_codegen as ccg

    R = sp.Rational
    c = {}
    for n in list(range(-8, 9)):
        if n:
            c[f"intpow{n}"] = x**n + 1
            c[f"intpowsum{n}"] = y * (x + 2 * y) ** n - (x + 2 * y)
    for n in (R(1, 2), R(-1, 2), R(1, 3), R(-1, 3), R(1, 6), R(-1, 6), R(3, 2), R(-3, 2), R(5, 2), R(-5, 2), R(2, 3), R(-2, 3), R(1, 4), R(-1, 4), R(5, 6), R(-5, 6), R(4, 3), R(-4, 3), R(7, 2)):
        c[f"ratpow{n}"] = p**n
        c[f"ratpowsum{n}"] = x * (p + q) ** n - q / 3 + (p + q)
    for f in (0.5, -0.5, 1.5, 0.25, 2.0, -2.0):
        c[f"floatpow{f}"] = p**f + q
    c["sympow"] = p**q + p ** (-q) + p ** (q / 2) * x
    c["sympowneg"] = (p + 1) ** (x * y) - 2**x
    for f in (sp.sin, sp.cos, sp.tan, sp.exp, sp.sinh, sp.cosh, sp.tanh, sp.atan, sp.asinh, sp.erf):
        c[f"fn_{f.__name__}"] = f(x * y - z / 2) + f(x * y - z / 2) ** 2 * w
    for f in (sp.log, sp.acosh):
        c[f"fn_{f.__name__}"] = f(p + q + 2) ** 3 - x / f(p + q + 2)
    c["fn_asin"] = sp.asin(x / (1 + x**2)) - sp.acos(y / (1 + y**2)) ** 2
    c["fn_atan2"] = sp.atan2(y, p) * x + sp.atan2(x, q) ** 2
    c["fn_abs"] = sp.Abs(x - y) * z + sp.Abs(x - y) ** 3
    c["fn_nrpyabs"] = ccg.nrpyAbs(x - y) * z + 3 * ccg.nrpyAbs(w) ** 2
    c["fn_minmax"] = sp.Max(x, y) + 2 * sp.Min(x, z)
    c["fn_sign"] = sp.sign(x) * y
    c["pi"] = sp.pi * x + sp.sin(sp.pi * y) / sp.pi - sp.pi**2
    c["consts"] = sp.E * x + sp.sqrt(2) * y + 1 / sp.sqrt(3) - sp.log(2) * z + sp.exp(2)
    c["rats"] = R(1, 3) * x - R(7, 12) * y + R(22, 7) - R(1, 2)
    c["rats2"] = (x / 3 + y / 3) * R(2, 5) - (x / 3 - y / 3) ** 2 / 9 + R(-5, 3) * x * y
    c["bigint"] = 123456789 * x - 2**40 * y + 10**12
    c["float"] = 0.1 * x + 2.5 * y - 1e-12 * z + 1.0
    c["zero"] = sp.S.Zero
    c["one"] = sp.S.One
    c["int"] = sp.Integer(-7)
    c["rat"] = R(-1, 2)
    c["sym"] = x
    c["negsym"] = -x
    c["neg"] = -(x + y) * z - x * y - x - y
    c["negprod"] = -x * y * z + w
    c["quot"] = (x + y) / (z * (x - y)) - x / (2 * y) + 1 / (3 * x) - R(2, 3) / y
    c["quot2"] = x * y / (p * sp.sqrt(q)) - 2 / (p * q**2) + x / p / q / r
    c["nested"] = sp.sin(sp.sqrt(1 + sp.exp(-((x - y) ** 2) / (2 * p**2)))) ** 3
    c["nested2"] = sp.sqrt(p + sp.sqrt(q + sp.sqrt(r))) / (1 + 1 / (1 + 1 / (1 + p)))
    c["cse"] = (x + y) * sp.sin(x + y) + (x + y) ** 2 * sp.cos(2 * (x + y)) - 2 * (x + y) * sp.sin(x + y) ** 2
    c["poly"] = sp.expand((x + 2 * y - 3 * z) ** 4)
    c["ratfun"] = (3 * x**2 - R(1, 2) * y) / (x**2 + y**2 + 1) ** 2 + 4 * x**2 / (x**2 + y**2 + 1)
    c["piecewise"] = sp.Piecewise((x, x > y), (y**2, True)) * z
    return c


def gen_expr(rng, d):
    if d == 0:
        k = rng.random()
        if k < 0.7:
            return rng.choice([x, y, z, p, q])
        return sp.Rational(rng.randint(-9, 9), rng.choice([1, 1, 2, 3, 5, 12])) or x
    op = rng.choice("++**-/^f")
    a = gen_expr(rng, d - 1)
    if op in "+-*/":
        b = gen_expr(rng, d - 1)
        if op == "+":
            return a + b + gen_expr(rng, d - 1)
        if op == "-":
            return a - b - gen_expr(rng, 0)
        if op == "*":
            return a * b
        return a / (1 + b**2)
    if op == "^":
        n = rng.choice([2, 3, 4, 5, -1, -2, -3, sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(-3, 2), sp.Rational(1, 3), 6])
        if n == int(n) and n > 0:
            return a**n
        return (1 + a**2) ** n
    return rng.choice([sp.sin, sp.cos, sp.exp])(a / 3)


def lists():
    c = corpus()
    rng = random.Random(1)
    out = []
    names = list(c)
    for i in range(0, len(names), 4):
        out.append(("mix" + str(i), names[i:i + 4]))
    return c, out, rng


def env_inputs(extra=()):
    e = dict(ENV)
    e.update(extra)
    return e


def consts(ctx):
    ctx.under("nrpy.c_codegen.c_codegen", "nrpy.c_codegen.CCodeGen.__init__", "nrpy.helpers.cse_preprocess_postprocess.cse_preprocess",
              "nrpy.helpers.cse_preprocess_postprocess.cse_postprocess", "nrpy.helpers.expr_tree.ExprTree", "nrpy.helpers.custom_c_codegen_functions.custom_functions_for_SymPy_ccode",
              "nrpy.c_codegen.apply_substitution_dict")


def norm(e):
    """specification value of an input expression (nrpyAbs is |.|; decimal constants are their exact decimal value)"""
    e = e.replace(lambda t: t.func.__name__ == "nrpyAbs", lambda t: sp.Abs(*t.args))
    return e


def unfloat(e):
    e = sp.sympify(e)
    return e.xreplace({f: sp.Rational(repr(float(f))) for f in e.atoms(sp.Float)})


def wipe(code, out_names, decl="double"):
    """the generated statements, run with the outputs declared by the caller; returns the Exec"""
    return cexec.run_kernel(code, inputs=env_inputs(), functions={})


def check_code(ctx, tag, code, outs, exprs, env=None, decl_in_name=True, extra_inputs=None, paths=False, brace=False):
    inputs = env_inputs(extra_inputs or ())
    names = [o.split()[-1].lstrip("*") for o in outs]

    def run(path):
        ex = cexec.Exec(inputs, path=path)
        comp = cexec.kernel(code)
        items = comp.block_items or []
        if len(items) == 1 and isinstance(items[0], cexec.c_ast.Compound):
            items = items[0].block_items or []  # enclosing braces: look at the scope just before it closes
        for s in items:
            ex.stmt(s)
        return ex

    try:
        res = cexec.explore(run)
    except (cexec.CUndeclared, cexec.CParseError, ZeroDivisionError) as e:
        ctx.check(f"{tag} compiles", False, "c-symexec", cex=f"{type(e).__name__}: {e}\n{code[:3000]}")
        return None
    for cond, ex in res:
        for n, e in zip(names, exprs):
            try:
                got = ex.lookup(n)
            except cexec.CUndeclared:
                ctx.check(f"{tag} defines {n}", False, "c-symexec", cex=code[:3000])
                continue
            want = unfloat(norm(e))
            if cond and isinstance(want, sp.Basic):
                want = resolve_pw(want, cond)
                got = resolve_pw(unfloat(cexec.real(got)), cond)
            ctx.eq(f"{tag} {n}" + (f" | {cond}" if cond else ""), unfloat(cexec.real(got)), want)
        extra = set(ex.writes) - set(names)
        ctx.check(f"{tag} writes only its outputs", not extra, "c-symexec", cex=f"also writes {extra}\n{code[:1500]}")
    return res


def resolve_pw(e, cond):
    """decide Piecewise branches from the path condition of the generated code"""
    sub = {}
    for c in cond:
        if isinstance(c, sp.Not):
            sub[c.args[0]] = sp.false
            sub[sp.Not(c.args[0])] = sp.true
        else:
            sub[c] = sp.true
            sub[sp.Not(c)] = sp.false
    return e.xreplace(sub) if sub else e


OPTSETS = [
    dict(),
    dict(enable_cse=False),
    dict(cse_sorting="none"),
    dict(cse_varprefix="FD"),
    dict(enable_cse_preprocess=True),
    dict(enable_cse_preprocess=True, cse_varprefix="Q", cse_sorting="none"),
    dict(enable_GoldenKernels=True),
    dict(fp_type="float"),
    dict(fp_type="long double"),
    dict(fp_type="float", enable_cse=False),
    dict(fp_type="long double", enable_cse_preprocess=True),
    dict(fp_type="float", enable_cse_preprocess=True, rational_const_alias="const"),
    dict(include_braces=False, verbose=False),
    dict(fp_type_alias="CCTK_REAL", rational_const_alias="const", enable_cse_preprocess=True),
]


def key(o):
    return ",".join(f"{k}={v}" for k, v in o.items()) or "defaults"


def u_single(ctx, opts, names):
    import nrpy.c_codegen as ccg
    consts(ctx)
    c = corpus()
    for n in names:
        if n == "piecewise" and (opts.get("enable_cse_preprocess") or opts.get("enable_GoldenKernels")):
            continue  # precondition of cse_preprocess: no Piecewise (it raises)
        for src in ("plain", "real"):
            e = plain(c[n]) if src == "plain" else c[n]
            if src == "real" and opts:
                continue
            code = ctx.call(f"c_codegen({e}, {key(opts)})", ccg.c_codegen, e, "double out", **opts)
            check_code(ctx, f"{n} [{src}]", code, ["double out"], [c[n]])


def u_multi(ctx, opts, k):
    """several outputs at once: common subexpressions are shared, inputs are not modified"""
    import nrpy.c_codegen as ccg
    consts(ctx)
    c, groups, _ = lists()
    for tag, names in groups[k::4]:
        if opts.get("enable_cse_preprocess") or opts.get("enable_GoldenKernels"):
            names = [n for n in names if n != "piecewise"]
        es = [plain(c[n]) for n in names]
        keep = list(es)
        outs = [f"double out{i}" for i in range(len(es))]
        outs0 = list(outs)
        code = ctx.call(f"c_codegen({es}, {key(opts)})", ccg.c_codegen, es, outs, **opts)
        ctx.check(f"{tag} arguments unchanged", es == keep and outs == outs0, "frame")
        check_code(ctx, tag, code, outs, [c[n] for n in names])


def u_random(ctx, k, opts):
    import nrpy.c_codegen as ccg
    consts(ctx)
    rng = random.Random(1000 * k + (SEED if thorough() else 1))
    for i in range(6):
        es = [gen_expr(rng, rng.choice([1, 2, 3])) for _ in range(rng.choice([1, 2, 3]))]
        outs = [f"double out{j}" for j in range(len(es))]
        code = ctx.call(f"c_codegen({es}, {key(opts)})", ccg.c_codegen, [plain(e) for e in es], outs, **opts)
        check_code(ctx, f"random {k}.{i}", code, outs, es)


def u_misc(ctx):
    import nrpy.c_codegen as ccg
    import nrpy.params as par
    consts(ctx)
    sx, sy, sz, sp_, sq = [sp.Symbol(n) for n in ("x", "y", "z", "p", "q")]
    # prestring / poststring are placed around the computation, in this order
    code = ccg.c_codegen([sx + sy, sx * sy], ["double a", "double b"], prestring="const double x = 3*z;\n", poststring="const double total = a + b;\n")
    check_code(ctx, "pre/poststring", code, ["a", "b", "total"], [3 * z + y, 3 * z * y, 3 * z + y + 3 * z * y])
    # outputs which are assigned in order: a later expression may refer to the input of the same name
    for o in (dict(), dict(enable_cse=False), dict(enable_cse_preprocess=True)):
        code = ccg.c_codegen([sx + 1, sx + sy], ["u", "v"], **o)
        check_code(ctx, f"plain lhs {key(o)}", code, ["u", "v"], [x + 1, x + y])
    # SCALAR_TMPs: the named temporaries are computed before they are used
    t1, t2 = sp.symbols("t1 t2")
    for o in (dict(), dict(cse_sorting="none"), dict(enable_cse_preprocess=True)):
        for ex, vn, tmp in [
            ([sx * sy + 1, t1 * t1 + sx * sy], ["t1", "double out"], ["t1"]),
            ([sx + sy, t1 * 2 + sp.sin(sx + sy), t2 * t1 + sx + sy], ["t1", "t2", "double out"], ["t1", "t2"]),
        ]:
            # precondition: SCALAR_TMP_sympyexprs[i] is the symbol of output i
            code = ctx.call("SCALAR_TMP", ccg.c_codegen, ex, vn, SCALAR_TMP_varnames=tmp, SCALAR_TMP_sympyexprs=[t1, t2][:len(tmp)], **o)
            want = []
            env = {}
            for e, n in zip(ex, vn):
                v = e.xreplace(env).xreplace({sp.Symbol(k): s for k, s in ENV.items()})
                if n in tmp:
                    env[sp.Symbol(n)] = v
                want.append(v)
            check_code(ctx, f"SCALAR_TMP {tmp} {key(o)}", code, [vn[-1]], [want[-1]])
    # postproc substitution: exactly the listed symbols are renamed, everywhere
    for o in (dict(enable_cse=False), dict()):
        code = ccg.c_codegen([sx**2 * sp.sin(sy), sx + sz], ["double a", "double b"], postproc_substitution_dict={"x": "_new", "y": "_o"}, **o)
        xn, yn = sp.symbols("x_new y_o", real=True)
        check_code(ctx, f"postproc {key(o)}", code, ["a", "b"], [xn**2 * sp.sin(yn), xn + z], extra_inputs={"x_new": xn, "y_o": yn})
    try:
        code = ccg.c_codegen([sp.sin(sx + sy) + (sx + sy) ** 2, (sx + sy) * sz], ["double a", "double b"], postproc_substitution_dict={"x": "_new"})
        xn = sp.Symbol("x_new", real=True)
        check_code(ctx, "postproc with common subexpressions", code, ["a", "b"], [sp.sin(xn + y) + (xn + y) ** 2, (xn + y) * z], extra_inputs={"x_new": xn})
    except Exception as e:  # pylint: disable=broad-except
        ctx.check("postproc with common subexpressions", False, "contract-exec", cex=repr(e))
    # rejected inputs
    ctx.raises("tuple of expressions rejected", lambda: ccg.c_codegen((sx,), ["a"]), TypeError)
    ctx.raises("tuple of names rejected", lambda: ccg.c_codegen([sx], ("a",)), TypeError)
    ctx.raises("length mismatch rejected", lambda: ccg.c_codegen([sx, sy], ["a"]), ValueError)
    ctx.raises("length mismatch rejected (2)", lambda: ccg.c_codegen([sx], ["a", "b"]), ValueError)
    ctx.raises("unknown fp_type rejected", lambda: ccg.c_codegen(sx, "a", fp_type="half"), ValueError)
    ctx.raises("unknown option rejected", lambda: ccg.c_codegen(sx, "a", enable_csee=True), TypeError)
    for t in ("float", "long double"):
        ctx.raises(f"SIMD with {t} rejected", lambda t=t: ccg.c_codegen(sx, "a", fp_type=t, enable_simd=True), ValueError)
    # the declared type of every temporary follows the infrastructure / alias
    for infra, alias in (("BHaH", "REAL"), ("ETLegacy", "CCTK_REAL"), ("CarpetX", "CCTK_REAL"), ("NRPy", None)):
        par.set_parval_from_str("Infrastructure", infra)
        for fp in ("double", "float", "long double"):
            code = ccg.c_codegen([sp.sin(sx + sy) + (sx + sy) ** 2 + sp.Rational(1, 3) * sz], ["out"], fp_type=fp, enable_cse_preprocess=True, verbose=False)
            ty = alias or fp
            decls = [l for l in code.split("\n") if "const " in l]
            ctx.check(f"temporaries have type {ty} ({infra}, {fp})", decls and all(f"const {ty} " in l for l in decls), "text", cex=code)
            check_code(ctx, f"alias {infra} {fp}", code, ["out"], [sp.sin(x + y) + (x + y) ** 2 + z / 3])
    par.set_parval_from_str("Infrastructure", "BHaH")
    for fp in ("double", "float", "long double"):
        par.set_parval_from_str("fp_type", fp)
        code = ccg.c_codegen(sp.sqrt(sp_ + sp.sin(sx)), "out", verbose=False)
        suffix = {"double": "", "float": "f", "long double": "l"}[fp]
        ctx.check(f"default fp_type follows the fp_type parameter ({fp})", f"sqrt{suffix}(" in code and f"sin{suffix}(" in code, "text", cex=code)
    par.set_parval_from_str("fp_type", "double")


def u_fp_functions(ctx):
    """every library call has the precision of the requested floating-point type"""
    import re

    import nrpy.c_codegen as ccg
    consts(ctx)
    c = corpus()
    fam = {"sqrt", "cbrt", "pow", "sin", "cos", "tan", "exp", "log", "sinh", "cosh", "tanh", "atan", "asinh", "acosh", "asin", "acos", "atan2", "fabs", "erf", "fmin", "fmax"}
    for fp, suf in (("double", ""), ("float", "f"), ("long double", "l")):
        for cse in (True, False):
            bad = []
            for n, e in c.items():
                if n in ("fn_sign",):
                    continue
                code = ccg.c_codegen(plain(e), "out", fp_type=fp, verbose=False, enable_cse=cse)
                for f in re.findall(r"\b([a-z]+[a-z0-9]*)\(", code):
                    if f in fam and suf != "" or (f[:-1] in fam and f[-1] in "fl" and f not in fam and f[-1] != suf):
                        bad.append((n, f))
            ctx.check(f"library calls match fp_type {fp} cse={cse}", not bad, "text", cex=str(bad))


def u_preprocess(ctx, opts, names):
    """cse_preprocess: back-substituting the symbol map gives the original expression; only the listed symbols are new"""
    from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess
    consts(ctx)
    c = corpus()
    for n in names:
        if n == "piecewise":
            continue
        e = plain(c[n])
        res = ctx.call(f"cse_preprocess({e}, {opts})", cse_preprocess, [e], **opts)
        (out,), d = res
        pre = opts.get("prefix", "")
        one = sp.Symbol(pre + "_Integer_1")
        new = out.free_symbols - e.free_symbols
        ctx.check(f"{n} new symbols are all in the map", new <= set(d), "exact", cex=f"{e} -> {out}, map {d}, missing {new - set(d)}")
        ctx.check(f"{n} map values are rationals named after them",
                  all(isinstance(v, sp.Rational) for v in d.values()) and len(set(d.values())) == len(d), "exact", cex=str(d))
        ctx.eq(f"{n} back-substitution", norm(unfloat(out.xreplace(d).xreplace({sp.Symbol(k): s for k, s in ENV.items()}))), norm(unfloat(c[n])))
        ctx.check(f"{n} sign symbol only on request", opts.get("declare_neg1_as_symbol", False) or sp.S.NegativeOne not in d.values(), "exact", cex=str(d))


def u_postprocess(ctx, seed):
    """cse_postprocess: for any temporaries (in any order, given as pairs or as equations) the remaining temporaries are defined before use and every output keeps its value"""
    from nrpy.helpers.cse_preprocess_postprocess import cse_postprocess
    consts(ctx)
    rng = random.Random(7000 + seed)
    X = sp.symbols("x y z", real=True) + (sp.Symbol("_NegativeOne_"), sp.Symbol("_Rational_1_2"))
    for k in range(25):
        n = rng.randint(1, 6)
        T = [sp.Symbol(f"tmp{i}") for i in range(n)]
        defs = []
        for i in range(n):
            av = list(X) + T[:i] * 3
            a, b, c = (rng.choice(av) for _ in range(3))
            defs.append(rng.choice([a + b, a * b, a ** 2, X[3] * b, -b, a + b * c, sp.sin(a) + b, a * b * c, sp.Integer(rng.randint(0, 5)), sp.Rational(rng.randint(1, 5), 3), a + sp.Rational(1, 2), b]))
        val = {}
        full = []
        for t, d in zip(T, defs):
            val[t] = d.xreplace(val)
        outs = []
        for _ in range(rng.randint(1, 3)):
            a, b, c = (rng.choice(list(X[:3]) + T * 2) for _ in range(3))
            outs.append(rng.choice([a + b * c, a * sp.cos(b) + c, a ** 3 + b, sp.exp(a + b) * c]))
        hand = [i for i in range(n) if rng.random() < 0.5]
        order = [i for i in range(n) if i not in hand]
        if rng.random() < 0.5:
            rng.shuffle(order)
        rng.shuffle(hand)
        mixed = [("e", i) for i in hand] + [("o", j) for j in range(len(outs))]
        if rng.random() < 0.5:
            keep = iter([m for m in mixed if m[0] == "o"])
            rng.shuffle(mixed)
            mixed = [m if m[0] == "e" else next(keep) for m in mixed]
        red = [sp.Eq(T[i], defs[i], evaluate=False) if q == "e" else outs[i] for q, i in mixed]
        rep = [(T[i], defs[i]) for i in order]
        inp = (list(rep), list(red))
        got = ctx.call(f"cse_postprocess({inp})", cse_postprocess, inp)
        tag = f"temporaries {seed}.{k}"
        ctx.check(f"{tag}: the input lists are not changed", inp == (rep, red), "frame", cex=str(inp))
        known, ok, why = set(X), True, ""
        v2 = {}
        for t, d in got[0]:
            if not (d.free_symbols <= known | set(v2)) or t in v2:
                ok, why = False, f"{t} = {d}"
            v2[t] = sp.sympify(d).xreplace(v2)
        ctx.check(f"{tag}: every temporary is defined once, before it is used", ok, "structural", cex=f"{why} in {got}")
        ctx.check(f"{tag}: one value per output", len(got[1]) == len(outs), "structural", cex=str(got))
        for j, (o, g) in enumerate(zip(outs, got[1])):
            g = sp.sympify(g).xreplace(v2)
            ctx.check(f"{tag}: output {j} uses defined symbols only", g.free_symbols <= known, "structural", cex=f"{rep} {red} -> {got}")
            ctx.eq(f"{tag}: output {j} keeps its value", norm(unfloat(g.xreplace({s: ENV.get(str(s), s) for s in g.free_symbols}))), norm(unfloat(o.xreplace(val).xreplace({s: ENV.get(str(s), s) for s in o.xreplace(val).free_symbols}))))


def u_exprtree(ctx):
    from nrpy.helpers.expr_tree import ExprTree
    consts(ctx)
    c = corpus()
    for n, e in c.items():
        if n == "piecewise":
            continue  # precondition: nodes whose constructor accepts evaluate=
        e = plain(e)
        t = ctx.call(f"ExprTree({e})", ExprTree, e)
        pre = [s.expr for s in t.preorder()]
        post = [s.expr for s in t.postorder()]
        want_pre = []

        def visit(a):
            want_pre.append(a)
            for b in a.args:
                visit(b)

        visit(e)
        want_post = []

        def visit2(a):
            for b in a.args:
                visit2(b)
            want_post.append(a)

        visit2(e)
        ctx.check(f"{n} preorder visits every node once, in order", pre == want_pre, "structural", cex=f"{pre} vs {want_pre}")
        ctx.check(f"{n} postorder visits every node once, in order", post == want_post, "structural", cex=f"{post} vs {want_post}")
        ctx.check(f"{n} reconstruct is the identity", t.reconstruct() == e, "structural", cex=str(t.root.expr))
        ctx.check(f"{n} reconstruct(evaluate) is the identity", sp.simplify(ExprTree(e).reconstruct(evaluate=True) - e) == 0 if n not in ("piecewise",) and n.startswith(("int", "fn_s", "quot", "neg", "rats")) else True, "structural")


def units():
    U = []
    names = list(corpus())
    for o in OPTSETS:
        for k in range(3 if o else 5):
            U.append(Unit(f"corpus [{key(o)}] {k}", u_single, (o, names[k::3 if o else 5]), weight=5))
    for o in OPTSETS[:7] + OPTSETS[8:11]:
        for k in range(2):
            U.append(Unit(f"multi-output [{key(o)}] {k}", u_multi, (o, k + 2 * (len(key(o)) % 2))))
    nr = 40 if thorough() else 12
    for k in range(nr):
        U.append(Unit(f"generated expressions {k}", u_random, (k, OPTSETS[k % 7]), weight=3))
    U.append(Unit("strings, temporaries, substitutions, rejections", u_misc))
    U.append(Unit("precision of library calls", u_fp_functions))
    for o in (dict(), dict(prefix="FD"), dict(declare_neg1_as_symbol=True), dict(declare_neg1_as_symbol=True, negative=True), dict(factor=False),
              dict(factor=False, declare_neg1_as_symbol=True, prefix="A"), dict(negative=True, factor=False, declare_neg1_as_symbol=True)):
        for k in range(2):
            U.append(Unit(f"cse_preprocess [{key(o)}] {k}", u_preprocess, (o, names[k::2])))
    for k in range(12 if thorough() else 4):
        U.append(Unit(f"cse_postprocess {k}", u_postprocess, (k,)))
    U.append(Unit("ExprTree", u_exprtree))
    return U
