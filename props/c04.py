"""C04  SIMD and CUDA output computes the same values as the scalar expression, lane by lane."""
import os
import random
import re
import subprocess
import tempfile

import sympy as sp
import z3

from props import c03
from props.c03 import ENV, key, norm, p, plain, q, r, unfloat, w, x, y, z
from vf import cexec
from vf.core import REPO, SEED, HarnessError, Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.c_codegen", "nrpy.helpers.simd"]
ASSUMPTIONS = ["machine reals are treated as mathematical reals, except for AbsSIMD/UPWIND_ALG which are decided on IEEE-754 binary64 bit patterns",
               "Intel/NVIDIA documented semantics of the primitive intrinsics (_mm*_add_pd, _mm*_fmadd_pd, _mm*_loadu_pd, __dadd_rn, ...): table in props/c04.py",
               "intrinsics without a shipped definition (LogSIMD, CbrtSIMD, SignSIMD) mean the function they are named after"]
BOUNDS = ["expression corpus and generated expressions as in C03 restricted to the functions the SIMD converter knows; every obligation holds for all values",
          "every preprocessor branch of simd_intrinsics.h and cuda_intrinsics.h; the native compile-and-run comparison is bounded (random lanes)"]


# ----------------------------------------------------------------- expression conversion
def corpus():
    R = sp.Rational
    a, b, c, d, e, f = x, y, z, w, p, q
    C = {}
    for n in list(range(-7, 9)):
        if n:
            C[f"intpow{n}"] = x**n + y
            C[f"intpowsum{n}"] = y * (x + 2 * y) ** n - (x + 2 * y)
    for n in (R(1, 2), R(-1, 2), R(-3, 2), R(-5, 2), R(1, 3)):  # other rational powers have no SIMD form (PowSIMD is not shipped)
        C[f"ratpow{n}"] = p**n
        C[f"ratpowsum{n}"] = x * (p + q) ** n - q / 3 + (p + q)
    C["fn"] = sp.sin(x * y) + sp.cos(x - y) ** 2 * sp.exp(-x / 3) - sp.log(p) * sp.Abs(x - z)
    C["fnpow"] = sp.exp(2 * x) ** 2 / sp.sin(1 + x**2) - sp.sqrt(1 + sp.cos(x) ** 2)
    C["sign"] = sp.sign(x) * y + z
    # every fused pattern the converter rewrites, with each sign and operand order
    C["fma1"] = a * b + c
    C["fma2"] = a * b - c
    C["fma3"] = -a * b + c
    C["fma4"] = -a * b - c
    C["dfma1"] = a + b * c + d * e
    C["dfma2"] = a + b * c - d * e
    C["dfma3"] = a - b * c - d * e
    C["dfma4"] = -a + b * c + d * e
    C["dfma5"] = -a - b * c + d * e
    C["dfma6"] = -a - b * c - d * e
    C["tfma1"] = a * b + c * d + e * f + x * z
    C["tfma2"] = a * b - c * d + e * f - x * e
    C["tfma3"] = -a * b - c * d - e * f - x * e
    C["tfma4"] = (a * b - c * d) * (e * f - a) - (a - b) * (c - d)
    C["tfma5"] = (a * b + c) * d - (e * f + a) * b + c
    C["neg1"] = -a - b - c - d
    C["neg2"] = -(a + b) * (c - d) - e
    C["neg3"] = -a * b * c * d - e * f
    C["neg4"] = a * b * (-c) * (d - 1) + 2 * e
    C["neg5"] = (-1) ** 3 * a + (-a) ** 3 + (-b) ** 2
    C["sub1"] = a - b
    C["sub2"] = a - b - c + d - e
    C["sub3"] = 2 * a - 3 * b - R(1, 2) * c
    C["sub4"] = -2 * a * b - 3 * c * d + R(5, 7)
    C["dup1"] = a * b - a * b * c + a * b * d
    C["dup2"] = a + b - (a + b) * c
    C["coef"] = R(1, 12) * (a - 8 * b + 8 * c - d) - R(1, 60) * e
    C["div1"] = a / b - c / d
    C["div2"] = (a + b) / (c * d) - 2 / a + R(1, 3) / (b * c)
    C["div3"] = -a / b - 1 / c - 1 / (d * e)
    C["div4"] = a * b / (c * (d + e / f))
    C["nested"] = 1 / (1 + 1 / (1 + 1 / (1 + p)))
    C["many"] = sum((i - 3) * s for i, s in enumerate((x, y, z, w, p, q, r))) - R(7, 2)
    C["prod"] = x * y * z * w * p * q * r
    C["poly"] = sp.expand((x + 2 * y - 3 * z) ** 3)
    C["ratfun"] = (3 * x**2 - R(1, 2) * y) / (x**2 + y**2 + 1) ** 2 + 4 * x**2 / (x**2 + y**2 + 1)
    C["const"] = sp.Integer(3)
    C["rat"] = R(-2, 3)
    C["zero"] = sp.S.Zero
    C["one"] = sp.S.One
    C["negone"] = sp.S.NegativeOne
    C["sym"] = x
    C["negsym"] = -x
    C["addone"] = x + 1
    C["subone"] = x - 1
    C["oneminus"] = 1 - x
    C["addtwo"] = x * y + 2
    C["two_over_root"] = 2 / sp.sqrt(p) + 2
    C["two_over_root3"] = 2 * p ** R(-3, 2) - 2
    C["fdlike"] = x * (R(1, 12) * (-w + p) + R(2, 3) * (-y + z))
    return C


OPTS = [dict(), dict(simd_find_more_subs=True), dict(simd_find_more_FMAsFMSs=False), dict(simd_clean_NegativeOnes_after_processing=True),
        dict(enable_cse_preprocess=True), dict(enable_GoldenKernels=True), dict(cse_varprefix="FD"), dict(cse_varprefix="FD", enable_GoldenKernels=True, cse_sorting="none"),
        dict(simd_find_more_subs=True, simd_find_more_FMAsFMSs=False, simd_clean_NegativeOnes_after_processing=True)]

UNDER = ("nrpy.helpers.simd.expr_convert_to_simd_intrins", "nrpy.c_codegen.c_codegen", "nrpy.helpers.cse_preprocess_postprocess.cse_preprocess")


def lanewise_only(code):
    """the generated statements apply only *SIMD operations to vectors: no scalar operator survives outside dbl constants"""
    bad = []
    body = cexec.strip_comments(code)
    for line in body.split(";"):
        if "static const double dbl" in line or "=" not in line:
            continue
        rhs = line.split("=", 1)[1]
        if re.search(r"[+\-*/]", rhs) or re.search(r"(?<![A-Za-z_0-9])\d", rhs):
            bad.append(line.strip())
    return bad


def u_codegen(ctx, opts, names):
    import nrpy.c_codegen as ccg
    ctx.under(*UNDER)
    C = corpus()
    for n in names:
        code = ctx.call(f"c_codegen({C[n]}, enable_simd, {key(opts)})", ccg.c_codegen, plain(C[n]), "REAL_SIMD_ARRAY out", enable_simd=True, **opts)
        c03.check_code(ctx, n, code, ["out"], [C[n]])
        bad = lanewise_only(code)
        ctx.check(f"{n} applies SIMD operations only", not bad, "text", cex=str(bad) + "\n" + code)


def u_multi(ctx, opts, k):
    import nrpy.c_codegen as ccg
    ctx.under(*UNDER)
    C = corpus()
    names = list(C)
    for i in range(k * 3, len(names), 9):
        ns = names[i:i + 3]
        es = [plain(C[n]) for n in ns]
        outs = [f"REAL_SIMD_ARRAY out{j}" for j in range(len(es))]
        code = ctx.call(f"c_codegen({es}, enable_simd, {key(opts)})", ccg.c_codegen, es, outs, enable_simd=True, **opts)
        c03.check_code(ctx, "+".join(ns), code, outs, [C[n] for n in ns])


def rnd(rng, d):
    if d == 0:
        return rng.choice([x, y, z, w, p, q, sp.Rational(rng.randint(-5, 5) or 1, rng.choice([1, 2, 3]))])
    k = rng.choice("++--***/^")
    a, b = rnd(rng, d - 1), rnd(rng, rng.randint(0, d - 1))
    if k == "+":
        return a + b
    if k == "-":
        return a - b
    if k == "*":
        return a * b
    if k == "/":
        return a / (2 + b**2)
    return (1 + a**2) ** rng.choice([2, 3, -1, -2, sp.Rational(1, 2), sp.Rational(-1, 2), sp.Rational(-3, 2)])


def u_random(ctx, k, opts):
    import nrpy.c_codegen as ccg
    ctx.under(*UNDER)
    rng = random.Random(77 * k + (SEED if thorough() else 1))
    for i in range(12):
        es = [rnd(rng, rng.choice([2, 3, 4])) for _ in range(rng.choice([1, 1, 2]))]
        outs = [f"REAL_SIMD_ARRAY out{j}" for j in range(len(es))]
        code = ctx.call(f"c_codegen({es}, enable_simd, {key(opts)})", ccg.c_codegen, [plain(e) for e in es], outs, enable_simd=True, **opts)
        c03.check_code(ctx, f"random {k}.{i}", code, outs, es)


def simd_value(e):
    return e.replace(lambda t: isinstance(t, sp.Function) and t.func.__name__ in cexec.SIMD, lambda t: cexec.SIMD[t.func.__name__](*t.args))


def u_direct(ctx):
    """expr_convert_to_simd_intrins called directly (own symbol map; supplied symbol map is extended, not corrupted)"""
    from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess
    from nrpy.helpers.simd import expr_convert_to_simd_intrins as conv
    ctx.under(*UNDER)
    C = corpus()
    back = {sp.Symbol(k): s for k, s in ENV.items()}
    for n, e in C.items():
        for fma in (True, False):
            for pre in ("", "FD"):
                pe, d = cse_preprocess([plain(e)], prefix=pre, declare_neg1_as_symbol=True)
                d0 = dict(d)
                out = ctx.call(f"expr_convert_to_simd_intrins({e})", conv, pe[0], d, pre, fma)
                ctx.check(f"{n} fma={fma} prefix={pre!r} map only extended", all(d.get(k) == v for k, v in d0.items()), "frame", cex=f"{d0} -> {d}")
                vals = dict(d)
                miss = {t for t in out.free_symbols if t.name.startswith(pre + "_") and t not in vals}
                ctx.check(f"{n} fma={fma} prefix={pre!r} every constant used is in the map", not miss, "structural", cex=f"{out} {d}")
                ctx.eq(f"{n} fma={fma} prefix={pre!r}", simd_value(out).xreplace(vals).xreplace(back), norm(e))


MIX = [sp.Symbol(c) for c in "abcdxyzABCXYZ"]  # the order of the operands, and so the rewrites that apply, depends on the names


def mixed(rng, d):
    if d == 0:
        return rng.choice(MIX)
    k = rng.random()
    if k < 0.45:
        return sp.Add(*[rng.choice([1, 1, -1]) * mixed(rng, rng.randint(0, d - 1)) for _ in range(rng.choice([2, 2, 2, 3, 3, 4]))])
    if k < 0.85:
        return sp.Mul(*[rng.choice([1, 1, 1, -1]) * mixed(rng, rng.randint(0, d - 1)) for _ in range(rng.choice([2, 2, 3]))])
    if k < 0.9:
        return mixed(rng, d - 1) / mixed(rng, d - 1)
    return mixed(rng, d - 1) ** rng.choice([2, 3, -1, -2])


def nested_sums():
    """sums kept nested, as partial factoring leaves them, in every operand order and sign"""
    out = []
    for N in ("abcde", "ABCDE", "eDcBa", "aBcDe", "AbCdE"):
        a, b, c, d, e = (sp.Symbol(n) for n in N)
        U = lambda *t: sp.Add(*t, evaluate=False)
        M = lambda *t: sp.Mul(*t, evaluate=False)
        one = sp.S.NegativeOne
        for s1, s2, s3 in ((1, 1, 1), (1, 1, -1), (1, -1, 1), (1, -1, -1), (-1, 1, 1), (-1, 1, -1), (-1, -1, 1), (-1, -1, -1)):
            p1, p2, p3 = (M(b, c) if s1 > 0 else M(one, b, c)), (M(d, e) if s2 > 0 else M(one, d, e)), (a if s3 > 0 else M(one, a))
            out += [U(U(p1, p2), p3), U(p3, U(p1, p2)), U(p2, U(p1, p3)), U(U(p3, p1), p2), M(U(p1, p3), p2), U(M(p1, p3), p2), U(M(one, U(p1, p2)), p3), U(M(a, U(p1, p2)), p3), U(M(p1, d), M(one, e)), U(M(M(a, one), b), p2), U(M(c, M(one, d)), M(one, e))]
    return out


def u_patterns(ctx, k):
    """the converter on random sums of products whose operand order varies: the intrinsics evaluate to the expression, and every constant they use is in the map"""
    from nrpy.helpers.cse_preprocess_postprocess import cse_preprocess
    from nrpy.helpers.simd import expr_convert_to_simd_intrins as conv
    ctx.under(*UNDER)
    rng = random.Random(31 * k + (SEED if thorough() else 1))
    L = nested_sums()
    kws = [dict(), dict(declare_neg1_as_symbol=True), dict(declare_neg1_as_symbol=True, negative=True), dict(declare_neg1_as_symbol=True, factor=False)]
    todo = [(e, None) for e in L[k::NPAT]] + [(mixed(rng, rng.choice([2, 3, 3])), None) for _ in range(240 if thorough() else 80)]
    for i, (e, _) in enumerate(todo):
        if not e.args or e.doit().has(sp.zoo, sp.nan, sp.oo):
            continue
        for fma in ((True, False) if i < len(L) // NPAT else (rng.random() < 0.6,)):
            pre, kw, clean = rng.choice(["", "FD", "zz"]), rng.choice(kws), rng.random() < 0.3
            pe, d = cse_preprocess([e], prefix=pre, **kw)
            d0 = dict(d)
            out = ctx.call(f"expr_convert_to_simd_intrins({sp.srepr(e)}, prefix {pre!r}, {kw}, {fma}, {clean})", conv, pe[0], d, pre, fma, clean)
            miss = {t for t in out.free_symbols if t not in d and t not in MIXALL}
            tag = f"pattern {k}.{i} fma={fma} prefix={pre!r} {kw} clean={clean}"
            ctx.check(f"{tag}: every constant used is in the map", not miss, "structural", cex=f"{e} -> {out}, map {d}, missing {miss}")
            ctx.check(f"{tag}: map only extended", all(d.get(q) == v for q, v in d0.items() if not (clean and v == -1)), "frame", cex=f"{d0} -> {d}")
            v = simd_value(out).xreplace(d)
            ctx.eq(f"{tag}: value", v, norm(e.doit()))
            left = [str(t.func) for t in sp.preorder_traversal(out) if isinstance(t, (sp.Add, sp.Mul, sp.Pow))]
            ctx.check(f"{tag}: only intrinsics are left", not left, "structural", cex=f"{e} -> {out}")


NPAT = 6
MIXALL = {sp.Symbol(c) for c in "abcdexyzABCDEXYZ"}


# ----------------------------------------------------------------- the headers
BLOCKS = {
    "AVX512F": (["-D__AVX512F__", "-D__AVX__", "-D__SSE2__", "-D__FMA__"], 8),
    "AVX+FMA": (["-D__AVX__=1", "-D__SSE2__=1", "-D__FMA__"], 4),
    "AVX": (["-D__AVX__=1", "-D__SSE2__=1"], 4),
    "SSE2+FMA+SSE3": (["-D__SSE2__=1", "-D__FMA__", "-D__SSE3__"], 2),
    "SSE2+FMA": (["-D__SSE2__=1", "-D__FMA__"], 2),
    "SSE2+SSE3": (["-D__SSE2__=1", "-D__SSE3__"], 2),
    "SSE2": (["-D__SSE2__=1"], 2),
    "scalar": ([], 1),
}
CUDA = {"CUDA nvcc": (["-D__NVCC__"], 1), "CUDA fallback": ([], 1)}


def expand(header, defs, snippet, cxx=False):
    """text of `snippet` after preprocessing with the shipped header (system includes replaced by empty files)"""
    with tempfile.TemporaryDirectory() as d:
        for h in ("immintrin.h", "emmintrin.h", "pmmintrin.h", "xmmintrin.h", "math.h", "stdlib.h"):
            open(os.path.join(d, h), "w").close()
        src = os.path.join(d, "t.c")
        with open(src, "w", encoding="utf-8") as f:
            f.write(f'#include "{header}"\n@@BEGIN@@\n{snippet}\n@@END@@\n')
        pr = subprocess.run(["gcc", "-E", "-P", "-undef", "-nostdinc", "-I", d, *defs, src], capture_output=True, text=True, timeout=60)
        if pr.returncode:
            return None, pr.stderr
        return pr.stdout.split("@@BEGIN@@")[1].split("@@END@@")[0], ""


class V:
    def __init__(self, lanes):
        self.l = list(lanes)

    def __eq__(self, o):
        return isinstance(o, V) and self.l == o.l

    def __hash__(self):
        return 0


class Bits:
    """vector of z3 64-bit patterns"""

    def __init__(self, lanes):
        self.l = list(lanes)


RM = None


def intr(ex, name, argn, dom):
    """contracts of the primitive intrinsics; dom is 'real' or 'bits'"""
    m = re.fullmatch(r"_mm(512|256|)_(\w+)", name)
    if name.startswith("__"):
        f2 = {"__dadd_rn": lambda a, b: a + b, "__dsub_rn": lambda a, b: a - b, "__dmul_rn": lambda a, b: a * b, "__ddiv_rn": lambda a, b: a / b,
              "__fma_rn": lambda a, b, c: a * b + c, "__dsqrt_rn": sp.sqrt}
        if name in f2:
            return f2[name](*[cexec.real(ex.ev(a)) for a in argn])
        if name == "__ldg":
            return ex.load(ex.ev(argn[0]).key + "[0]")
        raise cexec.CUndeclared(name)
    if not m:
        return None
    n = {"512": 8, "256": 4, "": 2}[m.group(1)]
    op = m.group(2)
    from pycparser import c_ast
    if op == "set1_pd":
        a = argn[0]
        if dom == "bits":
            neg0 = isinstance(a, c_ast.UnaryOp) and a.op == "-" and isinstance(a.expr, c_ast.Constant) and float(a.expr.value) == 0.0
            val = -0.0 if neg0 else float(ex.ev(a))
            return Bits([z3.fpToIEEEBV(z3.FPVal(val, z3.Float64()))] * n)
        return V([cexec.real(ex.ev(a))] * n)
    if op in ("set1_epi64", "set1_epi64x"):
        return Bits([z3.BitVecVal(ex.ev(argn[0]), 64)] * n)
    if op == "setzero_pd":
        return V([sp.S.Zero] * n) if dom == "real" else Bits([z3.BitVecVal(0, 64)] * n)
    if op in ("loadu_pd",):
        ptr = ex.ev(argn[0])
        return V([ex.load(f"{ptr.key}@{i}") for i in range(n)])
    if op == "storeu_pd":
        ptr = ex.ev(argn[0])
        v = ex.ev(argn[1])
        for i in range(n):
            ex.mem[f"{ptr.key}@{i}"] = v.l[i]
            ex.writes.append(f"{ptr.key}@{i}")
        return 0
    A = [ex.ev(a) for a in argn]

    def need(*vs):
        for v in vs:
            if not isinstance(v, (V, Bits)) or len(v.l) != n:
                raise cexec.CUndeclared(f"{name}: operand is not a {n}-lane vector")

    real2 = {"add_pd": lambda a, b: a + b, "sub_pd": lambda a, b: a - b, "mul_pd": lambda a, b: a * b, "div_pd": lambda a, b: a / b,
             "max_pd": sp.Max, "min_pd": sp.Min}
    real3 = {"fmadd_pd": lambda a, b, c: a * b + c, "fmsub_pd": lambda a, b, c: a * b - c, "fnmadd_pd": lambda a, b, c: c - a * b, "fnmsub_pd": lambda a, b, c: -a * b - c}
    real1 = {"sqrt_pd": sp.sqrt, "exp_pd": sp.exp, "sin_pd": sp.sin, "cos_pd": sp.cos, "log_pd": sp.log, "abs_pd": sp.Abs}
    for tab in (real1, real2, real3):
        if op in tab:
            need(*A)
            if dom == "bits":
                if op == "abs_pd":
                    return Bits([z3.fpToIEEEBV(z3.fpAbs(z3.fpBVToFP(a, z3.Float64()))) for a in A[0].l])
                raise cexec.CUnsupported(name)
            return V([tab[op](*t) for t in zip(*[v.l for v in A])])
    if op in ("and_pd", "andnot_pd", "or_pd", "xor_pd"):
        need(*A)
        f = {"and_pd": lambda a, b: a & b, "andnot_pd": lambda a, b: ~a & b, "or_pd": lambda a, b: a | b, "xor_pd": lambda a, b: a ^ b}[op]
        return Bits([f(a, b) for a, b in zip(A[0].l, A[1].l)])
    if op.startswith("castsi") or op.startswith("castpd_si"):
        return A[0]
    F = z3.Float64()
    fp = lambda b: z3.fpBVToFP(b, F)
    cmpf = {30: z3.fpGT, 14: z3.fpGT, 17: z3.fpLT, 1: z3.fpLT, 29: z3.fpGEQ, 13: z3.fpGEQ, 18: z3.fpLEQ, 2: z3.fpLEQ}
    if op == "cmp_pd":
        need(*A[:2])
        return Bits([z3.If(cmpf[A[2]](fp(a), fp(b)), z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64)) for a, b in zip(A[0].l, A[1].l)])
    if op in ("cmpgt_pd", "cmplt_pd", "cmpge_pd", "cmple_pd"):
        need(*A)
        f = {"cmpgt_pd": z3.fpGT, "cmplt_pd": z3.fpLT, "cmpge_pd": z3.fpGEQ, "cmple_pd": z3.fpLEQ}[op]
        return Bits([z3.If(f(fp(a), fp(b)), z3.BitVecVal(-1, 64), z3.BitVecVal(0, 64)) for a, b in zip(A[0].l, A[1].l)])
    if op == "cmp_pd_mask":
        return [cmpf[A[2]](fp(a), fp(b)) for a, b in zip(A[0].l, A[1].l)]
    if op == "mask_add_pd":
        src, k, a, b = A
        return Bits([z3.If(k[i], z3.fpToIEEEBV(z3.fpAdd(z3.RNE(), fp(a.l[i]), fp(b.l[i]))), src.l[i]) for i in range(n)])
    if op == "reduce_add_pd":
        need(A[0])
        return sum(A[0].l)
    if op == "castpd256_pd128":
        return V(A[0].l[:2])
    if op == "extractf128_pd":
        return V(A[0].l[2 * A[1]:2 * A[1] + 2])
    if op == "cvtsd_f64":
        return A[0].l[0]
    if op == "unpackhi_pd":
        return V([A[0].l[1], A[1].l[1]])
    if op == "unpacklo_pd":
        return V([A[0].l[0], A[1].l[0]])
    if op == "hadd_pd" and n == 2:
        return V([A[0].l[0] + A[0].l[1], A[1].l[0] + A[1].l[1]])
    if op == "shuffle_pd" and n == 2:
        return V([A[0].l[A[2] & 1], A[1].l[(A[2] >> 1) & 1]])
    raise cexec.CUnsupported(name)


def evaluate(text, inputs, dom, resolver=None):
    """value of an expanded expression (GNU statement expressions included); returns [(path condition, value, exec)]"""
    text = text.strip().rstrip(";")
    stmts = None
    m = re.fullmatch(r"\(\{(.*)\}\)", text, flags=re.S)
    if m:
        parts = [s.strip() for s in m.group(1).split(";") if s.strip()]
        stmts, text = parts[:-1], parts[-1]
    for t in ("__m512d", "__m256d", "__m128d"):
        text = text.replace(t, "REAL4")
    body = ""
    for s in stmts or []:
        body += re.sub(r"__m\d+d", "REAL4", s) + ";\n"
    body += f"__result = {text};\n"

    def run(path):
        ex = cexec.Exec({"_CMP_GT_OQ": 30, "_CMP_LT_OQ": 17, "_CMP_GE_OQ": 29, "_CMP_LE_OQ": 18, "_CMP_GT_OS": 14, **inputs}, resolver=resolver, path=path,
                        on_call=lambda e, n, a: intr(e, n, a, dom))
        for s in cexec.kernel(body).block_items:
            ex.stmt(s)
        return ex

    return [(c, ex.lookup("__result"), ex) for c, ex in cexec.explore(run)]


def u_header(ctx, header, block, defs, width, S):
    path = os.path.join(REPO, "nrpy", "helpers", header)
    ctx.under(f"nrpy/helpers/{header} [{block}]")
    scalar = width == 1
    SC = "SIMD" if S == "SIMD" else "CUDA"

    def vec(n):
        return sp.Symbol(n, real=True) if scalar else V([sp.Symbol(f"{n}{i}", real=True) for i in range(width)])

    def lanes(v):
        return [cexec.real(v)] if not isinstance(v, V) else v.l

    def ex_text(snip):
        t, err = expand(path, defs, snip)
        if t is None:
            ctx.check(f"preprocesses [{block}]", False, "gcc -E", cex=err)
        return t

    t = ex_text("simd_width" if SC == "SIMD" else "CUDA_width")
    ctx.check(f"width is {width}", t is not None and t.strip() == str(width), "cpp", cex=t)
    t = ex_text(f"REAL_{SC}_ARRAY")
    want_ty = {8: "__m512d", 4: "__m256d", 2: "__m128d", 1: "REAL"}[width]
    ctx.check("vector type", t is not None and t.strip() == want_ty, "cpp", cex=t)
    A, B, Cc = vec("a"), vec("b"), vec("c")
    inp = {"va": A, "vb": B, "vc": Cc, "s": sp.Symbol("s", real=True), "t": sp.Symbol("t", real=True)}
    spec = {
        "Add": ("va, vb", lambda a, b, c: a + b), "Sub": ("va, vb", lambda a, b, c: a - b), "Mul": ("va, vb", lambda a, b, c: a * b), "Div": ("va, vb", lambda a, b, c: a / b),
        "Sqrt": ("va", lambda a, b, c: sp.sqrt(a)), "Exp": ("va", lambda a, b, c: sp.exp(a)), "Sin": ("va", lambda a, b, c: sp.sin(a)), "Cos": ("va", lambda a, b, c: sp.cos(a)),
        "FusedMulAdd": ("va, vb, vc", lambda a, b, c: a * b + c), "FusedMulSub": ("va, vb, vc", lambda a, b, c: a * b - c),
        "NegFusedMulAdd": ("va, vb, vc", lambda a, b, c: -a * b + c), "NegFusedMulSub": ("va, vb, vc", lambda a, b, c: -a * b - c),
    }

    def compare(nm, snip, want, inputs=inp):
        t = ex_text(snip)
        if t is None:
            return
        try:
            res = evaluate(t, inputs, "real")
        except (cexec.CUndeclared, cexec.CParseError) as e:
            ctx.check(nm, False, "c-symexec", cex=f"{snip} expands to {t.strip()}: {e}")
            return
        for cond, v, _ in res:
            L = lanes(v)
            ctx.check(f"{nm} has {len(want)} lane(s)", len(L) == len(want), "c-symexec", cex=t)
            for i, (g, wv) in enumerate(zip(L, want)):
                ctx.eq(f"{nm} lane {i}", unfloat(g), wv)

    for nm, (args, f) in spec.items():
        want = [f(a, b, c) for a, b, c in zip(lanes(A), lanes(B), lanes(Cc))]
        compare(nm, f"{nm}{SC}({args})", want)
    if scalar:
        # macro hygiene: operand and context precedence
        a, b, c = A, B, Cc
        for nm, (args, f) in spec.items():
            n = args.count(",") + 1
            arg = ", ".join(["va + vb", "vb - vc", "vc + va"][:n])
            vals = [a + b, b - c, c + a]
            compare(nm + " with compound operands", f"s * {nm}{SC}({arg}) * s", [inp["s"] ** 2 * f(*vals)])
        compare("Const with compound operand", f"s * Const{SC}(s + t)", [inp["s"] * (inp["s"] + inp["t"])])
        compare("Abs", f"Abs{SC}(va - vb)", [sp.Abs(a - b)])
        compare("HorizAdd", f"s * HorizAdd{SC}(va + vb)", [inp["s"] * (a + b)])
    compare("Const", f"Const{SC}(s + t)", [inp["s"] + inp["t"]] * width)
    compare("SetZero", f"SetZero{SC}", [sp.S.Zero] * width)
    compare("HorizAdd", f"HorizAdd{SC}(va)", [sum(lanes(A))])
    # load / store
    mem = {}

    def res(k):
        m = re.fullmatch(r"(?:&)?mem\[i0\](?:@(\d+)|\[0\])?", k)
        if m:
            return sp.Symbol(f"mem{m.group(1) or 0}", real=True)
        return None

    iin = dict(inp, i0=cexec.CInt(sp.Symbol("i0", integer=True)), ptr=cexec.Ref("mem[i0]"))
    for snip in (f"Read{SC}(&mem[i0])", f"Read{SC}(ptr)"):
        t = ex_text(snip)
        try:
            out = evaluate(t, iin, "real", resolver=res)
            got = lanes(out[0][1])
        except (cexec.CUndeclared, cexec.CParseError) as e:
            ctx.check(snip, False, "c-symexec", cex=f"{t}: {e}")
            continue
        ctx.check(f"{snip} loads {width} consecutive doubles", got == [sp.Symbol(f"mem{i}", real=True) for i in range(width)], "c-symexec", cex=f"{t} -> {got}")
    t = ex_text(f"Write{SC}(ptr, va)")
    _, _, ex = _store(t, iin, res)
    want = {f"mem[i0]@{i}": v for i, v in enumerate(lanes(A))} if not scalar else {"mem[i0][0]": A}
    ctx.check(f"Write{SC} stores {width} consecutive doubles and nothing else", ex.mem == want, "c-symexec", cex=f"{t} -> {ex.mem}")
    # bit-precise macros
    F = z3.Float64()
    if scalar:
        t = ex_text("s * UPWIND_ALG(va)" if False else "UPWIND_ALG(va - vb)")
        for cond, v, _ in evaluate(t, inp, "real"):
            pos = all(c == sp.Gt(A - B, 0) or c == sp.Lt(0, A - B) for c in cond) and len(cond) == 1
            neg = len(cond) == 1 and cond[0] in (sp.Not(sp.Gt(A - B, 0)), sp.Le(A - B, 0))
            ctx.check(f"UPWIND_ALG is {1 if pos else 0} when {cond}", (pos and v == 1) or (neg and v == 0), "c-symexec", cex=f"{t}: {cond} -> {v}")
    else:
        av = [z3.BitVec(f"a{i}", 64) for i in range(width)]
        zero = Bits([z3.fpToIEEEBV(z3.FPVal(0.0, F))] * width)
        one = Bits([z3.fpToIEEEBV(z3.FPVal(1.0, F))] * width)
        bin_ = {"va": Bits(av), "upwind_Integer_0": zero, "upwind_Integer_1": one}
        nonan = [z3.Not(z3.fpIsNaN(z3.fpBVToFP(a, F))) for a in av]
        for nm, f in (("UPWIND_ALG", lambda a: z3.If(z3.fpGT(a, z3.FPVal(0.0, F)), z3.FPVal(1.0, F), z3.FPVal(0.0, F))), (f"Abs{SC}", z3.fpAbs)):
            t = ex_text(f"{nm}(va)")
            try:
                v = evaluate(t, bin_, "bits")[0][1]
            except (cexec.CUndeclared, cexec.CParseError) as e:
                ctx.check(nm, False, "c-symexec", cex=f"{t}: {e}")
                continue
            for i in range(width):
                ctx.z3(f"{nm} lane {i} (IEEE-754 bits)", z3.fpBVToFP(v.l[i], F) == f(z3.fpBVToFP(av[i], F)), nonan,
                       replay=lambda m, t=t: (False, f"{t.strip()} at {m}"))


def _store(t, inputs, res):
    body = t.strip().rstrip(";") + ";\n"

    ex = cexec.Exec(inputs, resolver=res, on_call=lambda e, n, a: intr(e, n, a, "real"))
    for s in cexec.kernel(body).block_items:
        ex.stmt(s)
    return None, None, ex


NATIVE = {"AVX512F": ("-mavx512f -mavx512dq -mfma", "avx512dq"), "AVX+FMA": ("-mavx2 -mfma", "fma"), "AVX": ("-mavx -mno-fma", "avx"), "SSE3": ("-msse3 -mno-avx", "sse2"), "SSE2": ("-msse2 -mno-sse3 -mno-avx", "sse2"),
          "scalar": ("-U__SSE2__ -U__AVX__", "sse2")}


def u_native(ctx, which):
    """bounded: the macros compiled natively agree with scalar arithmetic on random lanes (validates the assumed intrinsic contracts)"""
    flags, feat = NATIVE[which]
    ctx.under(f"nrpy/helpers/simd_intrinsics.h [{which}, compiled]")
    try:
        cpu = open("/proc/cpuinfo", encoding="utf-8").read()
    except OSError:
        cpu = ""
    runs = re.search(r"\b%s\b" % feat, cpu) is not None
    src = r"""
#include <stdio.h>
#include <math.h>
#define REAL double
#include "%s"
#define W simd_width
int main(void){ unsigned long st=%dUL; double a[16],b[16],c[16],o[16]; int bad=0;
#define RND() (st=st*6364136223846793005UL+1442695040888963407UL, ((double)(long)(st>>20))/(double)(1L<<43)*4.0-2.0)
#define NEAR(x,y) (fabs((x)-(y))<=1e-13*(1+fabs(y)))
 for(int it=0;it<2000;it++){ for(int i=0;i<16;i++){a[i]=RND();b[i]=RND();c[i]=RND();} if(it%%7==0) a[it%%W]=0.0; if(it%%11==0) a[it%%W]=-0.0;
  REAL_SIMD_ARRAY A=ReadSIMD(&a[1]),B=ReadSIMD(&b[3]),C=ReadSIMD(&c[0]); const REAL_SIMD_ARRAY upwind_Integer_0=ConstSIMD(0.0), upwind_Integer_1=ConstSIMD(1.0); (void)upwind_Integer_0;(void)upwind_Integer_1;
#define T(e,s) {for(int i=0;i<16;i++)o[i]=12345.; WriteSIMD(&o[2],e); for(int i=0;i<W;i++){double x=a[1+i],y=b[3+i],z=c[i];(void)x;(void)y;(void)z; if(!NEAR(o[2+i],(s))){bad++; if(bad<5)printf("%%s lane %%d: %%g %%g %%g -> %%g want %%g\n",#e,i,x,y,z,o[2+i],(s));}} if(o[1]!=12345.||o[2+W]!=12345.){bad++;printf("overrun %%s\n",#e);} }
  T(AddSIMD(A,B),x+y) T(SubSIMD(A,B),x-y) T(MulSIMD(A,B),x*y) T(DivSIMD(A,AddSIMD(ConstSIMD(3.0),MulSIMD(B,B))),x/(3+y*y)) T(SqrtSIMD(AbsSIMD(A)),sqrt(fabs(x)))
  T(FusedMulAddSIMD(A,B,C),x*y+z) T(FusedMulSubSIMD(A,B,C),x*y-z) T(NegFusedMulAddSIMD(A,B,C),-x*y+z) T(NegFusedMulSubSIMD(A,B,C),-x*y-z) T(AbsSIMD(A),fabs(x)) T(UPWIND_ALG(A),x>0?1.0:0.0) T(ConstSIMD(a[5]),a[5]) T(SetZeroSIMD,0.0)
  double s=0; for(int i=0;i<W;i++) s+=a[1+i]; double h=HorizAddSIMD(A); if(!NEAR(h,s)){bad++; if(bad<5)printf("HorizAdd %%g want %%g\n",h,s);} }
 printf("bad=%%d\n",bad); return bad!=0; }
""" % (os.path.join(REPO, "nrpy/helpers/simd_intrinsics.h"), 12345 + SEED)
    with tempfile.TemporaryDirectory() as d:
        s, e = os.path.join(d, "t.c"), os.path.join(d, "t")
        open(s, "w", encoding="utf-8").write(src)
        pr = subprocess.run(["gcc", "-O1", "-std=gnu99", "-w", *flags.split(), s, "-o", e, "-lm"], capture_output=True, text=True, timeout=120)
        if pr.returncode and re.search(r"target specific option|unrecognized command|inlining failed", pr.stderr) is not None:
            raise HarnessError(pr.stderr)
        ctx.check("compiles natively", pr.returncode == 0, "gcc", cex=pr.stderr[:2000], bounded=True)
        if pr.returncode == 0 and runs:
            rr = subprocess.run([e], capture_output=True, text=True, timeout=120)
            ctx.check("agrees with scalar arithmetic on 2000 random vectors", rr.returncode == 0, "native run", cex=rr.stdout[:2000], bounded=True)


def units():
    U = []
    names = list(corpus())
    for o in OPTS:
        for k in range(2):
            U.append(Unit(f"simd corpus [{key(o)}] {k}", u_codegen, (o, names[k::2]), weight=3))
        U.append(Unit(f"simd multi-output [{key(o)}]", u_multi, (o, len(key(o)) % 3), weight=2))
    for k in range(40 if thorough() else 12):
        U.append(Unit(f"simd generated expressions {k}", u_random, (k, OPTS[k % len(OPTS)]), weight=3))
    U.append(Unit("expr_convert_to_simd_intrins", u_direct, weight=4))
    for k in range(NPAT):
        U.append(Unit(f"rewrite patterns {k}", u_patterns, (k,), weight=4))
    for b, (defs, wd) in BLOCKS.items():
        U.append(Unit(f"simd_intrinsics.h {b}", u_header, ("simd_intrinsics.h", b, defs, wd, "SIMD")))
    for b, (defs, wd) in CUDA.items():
        U.append(Unit(f"cuda_intrinsics.h {b}", u_header, ("cuda_intrinsics.h", b, defs, wd, "CUDA")))
    for b in NATIVE:
        U.append(Unit(f"native {b}", u_native, (b,)))
    return U
