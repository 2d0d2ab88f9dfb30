"""Symbolic execution of C text generated by /repo (regenerated on every run).

Values: REAL quantities are SymPy expressions (machine reals treated as
mathematical reals); integer quantities are Python ints or `CInt` (symbolic),
with C integer-division semantics, so "1/2" is 0 here as in C.  Conditions on
symbolic values fork: `explore` re-executes the code for every feasible
decision sequence and returns every path with its path condition.
Every identifier must be declared or listed as an input: anything else raises
`CUndeclared` (such code does not compile).
"""

import re

import sympy as sp
from pycparser import c_ast, c_parser

from vf.core import HarnessError


class CUndeclared(Exception):
    pass


class CUnsupported(HarnessError):
    pass


class CParseError(Exception):
    pass


INT_TYPES = {"int", "long", "short", "unsigned", "size_t", "char", "int8_t", "uint8_t", "int16_t", "int32_t", "int64_t",
             "uint32_t", "uint64_t", "CCTK_INT", "bool", "_Bool", "signed", "short int"}

TYPEDEFS = """
typedef double REAL; typedef double CCTK_REAL; typedef double REAL_SIMD_ARRAY; typedef double REAL_CUDA_ARRAY; typedef int CCTK_INT; typedef int bool;
typedef unsigned long size_t; typedef signed char int8_t; typedef unsigned char uint8_t; typedef short int16_t; typedef int int32_t; typedef unsigned uint32_t;
typedef long int64_t; typedef double REAL4; typedef float REAL2; typedef void FILE; typedef double dREAL; typedef double DOUBLE;
"""


class CInt:
    """symbolic integer"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = sp.sympify(e)

    def __repr__(self):
        return f"CInt({self.e})"


class CBool:
    """symbolic condition"""

    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __repr__(self):
        return f"CBool({self.c})"


class Ref:
    """lvalue / pointer: canonical key string"""

    __slots__ = ("key",)

    def __init__(self, key):
        self.key = key

    def __repr__(self):
        return f"Ref({self.key})"


def mk_int(e):
    e = sp.sympify(e)
    return int(e) if e.is_Integer else CInt(e)


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    s = re.sub(r"//[^\n]*", "", s)
    return s


_parser_cache = {}


def parse_c(text, extra_typedefs=(), raw=False):
    t = strip_comments(text)
    t = re.sub(r"\\\n", " ", t)
    t = "\n".join(ln for ln in t.split("\n") if not ln.lstrip().startswith("#"))
    t = re.sub(r"\b(MAYBE_UNUSED|NO_INLINE|restrict|CCTK_DEVICE|CCTK_HOST|CCTK_ATTRIBUTE_ALWAYS_INLINE|__restrict__|__device__|__host__|__global__|__forceinline__|__launch_bounds__\(\d+\))\b", "", t)
    t = re.sub(r"_Pragma\s*\([^)]*\)", "", t)
    t = re.sub(r"__attribute__\s*\(\(.*?\)\)", "", t)
    t = re.sub(r"\btrue\b", "1", re.sub(r"\bfalse\b", "0", t))
    td = TYPEDEFS + "".join(f"typedef struct __{x} {x};\n" for x in extra_typedefs)
    key = td + t
    if key in _parser_cache:
        return _parser_cache[key]
    try:
        ast = c_parser.CParser().parse(td + t)
    except Exception as e:  # pylint: disable=broad-except
        raise CParseError(f"{type(e).__name__}: {e}\n--- text ---\n{t[:3000]}") from e
    if len(_parser_cache) > 50:
        _parser_cache.clear()
    _parser_cache[key] = ast
    return ast


MATH = {
    "sin": sp.sin, "cos": sp.cos, "tan": sp.tan, "exp": sp.exp, "log": sp.log, "sqrt": sp.sqrt, "sinh": sp.sinh, "cosh": sp.cosh,
    "tanh": sp.tanh, "asin": sp.asin, "acos": sp.acos, "atan": sp.atan, "asinh": sp.asinh, "acosh": sp.acosh, "atanh": sp.atanh,
    "fabs": sp.Abs, "abs": sp.Abs, "erf": sp.erf, "cbrt": lambda x: sp.Pow(x, sp.Rational(1, 3)),
    "log10": lambda x: sp.log(x) / sp.log(10), "log2": lambda x: sp.log(x) / sp.log(2), "exp2": lambda x: 2**x,
    "floor": sp.floor, "ceil": sp.ceiling,
}
MATH2 = {"pow": sp.Pow, "atan2": sp.atan2, "hypot": lambda a, b: sp.sqrt(a**2 + b**2), "fmin": sp.Min, "fmax": sp.Max,
         "min": sp.Min, "max": sp.Max, "MIN": sp.Min, "MAX": sp.Max}

CONSTS = {"M_PI": sp.pi, "M_E": sp.E, "M_SQRT2": sp.sqrt(2), "M_SQRT1_2": 1 / sp.sqrt(2), "M_1_PI": 1 / sp.pi, "M_2_PI": 2 / sp.pi, "M_PI_2": sp.pi / 2,
          "M_PI_4": sp.pi / 4, "M_LN2": sp.log(2), "M_LN10": sp.log(10), "M_LOG2E": 1 / sp.log(2), "M_LOG10E": 1 / sp.log(10), "M_2_SQRTPI": 2 / sp.sqrt(sp.pi)}
for _k in list(CONSTS):
    CONSTS[_k + "l"] = CONSTS[_k + "f"] = CONSTS[_k]

# contracts of the SIMD/CUDA intrinsic layer (proved against the headers by property C04)
SIMD = {
    "AddSIMD": lambda a, b: a + b, "SubSIMD": lambda a, b: a - b, "MulSIMD": lambda a, b: a * b, "DivSIMD": lambda a, b: a / b,
    "FusedMulAddSIMD": lambda a, b, c: a * b + c, "FusedMulSubSIMD": lambda a, b, c: a * b - c,
    "NegFusedMulAddSIMD": lambda a, b, c: -a * b + c, "NegFusedMulSubSIMD": lambda a, b, c: -a * b - c,
    "SqrtSIMD": sp.sqrt, "ExpSIMD": sp.exp, "SinSIMD": sp.sin, "CosSIMD": sp.cos, "AbsSIMD": sp.Abs,
    "LogSIMD": sp.log, "CbrtSIMD": lambda a: sp.Pow(a, sp.Rational(1, 3)), "PowSIMD": sp.Pow, "SignSIMD": sp.sign,
    "ConstSIMD": lambda a: a, "SetZeroSIMD": lambda: sp.S.Zero, "NegSIMD": lambda a: -a,
}
for _k in list(SIMD):
    SIMD[_k.replace("SIMD", "CUDA")] = SIMD[_k]


class Path:
    def __init__(self, decisions):
        self.decisions = list(decisions)
        self.pos = 0
        self.cond = []


class Return(Exception):
    def __init__(self, v):
        self.v = v


class Break(Exception):
    pass


class Continue(Exception):
    pass


def real(v):
    if isinstance(v, bool):
        return sp.Integer(int(v))
    if isinstance(v, int):
        return sp.Integer(v)
    if isinstance(v, CInt):
        return v.e
    if isinstance(v, CBool):
        return sp.Piecewise((1, v.c), (0, True))
    return v


class Exec:
    """One symbolic execution of C statements."""

    def __init__(self, inputs=None, functions=None, resolver=None, decide=None, path=None, on_call=None, int_inputs=(), max_steps=2_000_000):
        self.scopes = [dict()]
        self.types = [dict()]
        self.mem = {}
        self.reads = []
        self.writes = []
        self.inputs = inputs or {}
        self.functions = functions or {}
        self.resolver = resolver
        self.on_call = on_call
        self.path = path or Path([])
        self.decider = decide
        self.steps = 0
        self.max_steps = max_steps
        self.arrays = [dict()]
        self.generic = False  # symbolic loop bounds: run the body once for an arbitrary iteration (see st_For)
        self.loops = []  # (symbol, first, bound, relation) of every generic loop
        self.carried = []  # (name, arbitrary value before the body, value after the body)
        self.ftype = None  # type class of a memory location, by key
        self.pragma = None
        self.sizes = {}  # declared lengths of local arrays

    # ----- environment
    def declare(self, name, typ, val):
        self.scopes[-1][name] = val
        self.types[-1][name] = typ

    def lookup(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        if name in self.inputs:
            return self.inputs[name]
        if self.resolver:
            r = self.resolver(name)
            if r is not None:
                return r
        raise CUndeclared(name)

    def typ(self, name):
        for s in reversed(self.types):
            if name in s:
                return s[name]
        return None

    def assign(self, name, val):
        for s, t in zip(reversed(self.scopes), reversed(self.types)):
            if name in s:
                s[name] = self.coerce(val, t.get(name))
                return
        # assignment to an output variable that the caller declares
        self.scopes[0][name] = val
        self.writes.append(name)

    def coerce(self, v, typ):
        if typ == "int":
            if isinstance(v, sp.Expr):
                if v.is_Integer:
                    return int(v)
                if v.is_number:
                    return int(v)  # truncation
                return mk_int(sp.Function("ctrunc")(v))
            return v
        if typ == "real":
            if isinstance(v, (int, CInt, CBool)):
                return real(v)
        return v

    # ----- decisions
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return v != 0
        if isinstance(v, CInt):
            c = sp.Ne(v.e, 0)
        elif isinstance(v, CBool):
            c = v.c
        elif isinstance(v, sp.Expr):
            c = sp.Ne(v, 0)
        elif isinstance(v, Ref):
            return True
        elif v is None:
            raise CUnsupported("truth of unknown value")
        else:
            c = v
        if c is True or c == sp.true:
            return True
        if c is False or c == sp.false:
            return False
        if self.decider is not None:
            d = self.decider(c)
            if d is not None:
                return d
        p = self.path
        # a decision already implied on this path
        for k in p.cond:
            if k == c:
                return True
            if k == sp.Not(c):
                return False
        if p.pos < len(p.decisions):
            d = p.decisions[p.pos]
        else:
            d = True
            p.decisions.append(True)
        p.pos += 1
        p.cond.append(c if d else sp.Not(c))
        return d

    # ----- lvalue keys
    def canon(self, v):
        v = real(v) if not isinstance(v, (Ref, str)) else v
        if isinstance(v, Ref):
            return v.key
        if isinstance(v, sp.Expr):
            return str(sp.expand(v))
        return str(v)

    def key_of(self, n):
        """canonical key of a memory lvalue"""
        if isinstance(n, c_ast.ID):
            for s in reversed(self.scopes):
                if n.name in s:
                    v = s[n.name]
                    if isinstance(v, Ref):
                        return v.key
                    break
            return n.name
        if isinstance(n, c_ast.ArrayRef):
            k, i = self.key_of(n.name), self.ev(n.subscript)
            size = self.sizes.get(k) if isinstance(n.name, c_ast.ID) else None
            if size is not None and isinstance(i, int) and not isinstance(i, bool) and not 0 <= i < size:
                raise CUndeclared(f"{k}[{i}] lies outside the array, which has {size} elements")
            return f"{k}[{self.canon(i)}]"
        if isinstance(n, c_ast.StructRef):
            return f"{self.key_of(n.name)}{n.type}{n.field.name}"
        if isinstance(n, c_ast.UnaryOp) and n.op == "*":
            v = self.ev(n.expr)
            return v.key + "[0]" if isinstance(v, Ref) else f"*{self.key_of(n.expr)}"
        if isinstance(n, c_ast.FuncCall):
            return self.canon(self.ev(n))
        if isinstance(n, c_ast.Cast):
            return self.key_of(n.expr)
        if isinstance(n, c_ast.UnaryOp) and n.op == "&":
            return "&" + self.key_of(n.expr)
        if isinstance(n, c_ast.BinaryOp) and n.op == "+":
            v = self.ev(n)
            if isinstance(v, Ref):
                return v.key
        raise CUnsupported(f"lvalue {type(n).__name__}")

    def load(self, key):
        if key in self.mem:
            return self.mem[key]
        self.reads.append(key)
        if self.resolver:
            r = self.resolver(key)
            if r is not None:
                return r
        raise CUndeclared(key)

    # ----- expressions
    def ev(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise CUnsupported("step limit")
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise CUnsupported(f"expression {type(n).__name__}")
        return m(n)

    def ev_Constant(self, n):
        if n.type == "string":
            return n.value
        if n.type == "char":
            return n.value
        v = n.value
        if re.fullmatch(r"(0[xX][0-9a-fA-F]+|\d+)[uUlL]*", v):
            return int(v.rstrip("uUlL"), 0) if not re.fullmatch(r"0\d+", v) else int(v, 8)
        return sp.Rational(repr(float(v.rstrip("fFlL"))))  # the double nearest to the literal

    def ev_ID(self, n):
        if n.name in ("NULL",):
            return 0
        if n.name in CONSTS:
            return CONSTS[n.name]
        return self.lookup(n.name)

    def ev_ArrayRef(self, n):
        return self.load(self.key_of(n))

    def ev_StructRef(self, n):
        return self.load(self.key_of(n))

    def ev_ExprList(self, n):
        v = None
        for e in n.exprs:
            v = self.ev(e)
        return v

    def ev_InitList(self, n):
        return [self.ev(e) for e in n.exprs]

    def ev_Cast(self, n):
        t = self.type_class(n.to_type.type)
        v = self.ev(n.expr)
        return self.coerce(v, t)

    def ev_TernaryOp(self, n):
        return self.ev(n.iftrue) if self.truth(self.ev(n.cond)) else self.ev(n.iffalse)

    def ev_UnaryOp(self, n):
        if n.op == "sizeof":
            return CInt(sp.Symbol("sizeof_" + re.sub(r"\W+", "_", str(type(n.expr).__name__)), integer=True, positive=True))
        if n.op == "&":
            return Ref(self.key_of(n.expr))
        if n.op == "*":
            return self.load(self.key_of(n))
        if n.op in ("p++", "p--", "++", "--"):
            v = self.ev(n.expr)
            nv = self.binop("+" if "+" in n.op else "-", v, 1)
            self.store(n.expr, nv)
            return v if n.op.startswith("p") else nv
        v = self.ev(n.expr)
        if n.op == "!":
            t = self.truth(v)
            return int(not t)
        if n.op == "-":
            return -v if isinstance(v, int) else (mk_int(-v.e) if isinstance(v, CInt) else -v)
        if n.op == "+":
            return v
        if n.op == "~" and isinstance(v, int):
            return ~v
        raise CUnsupported(f"unary {n.op}")

    def ev_Assignment(self, n):
        if n.op == "=":
            v = self.ev(n.rvalue)
        else:
            v = self.binop(n.op[:-1], self.ev(n.lvalue), self.ev(n.rvalue))
        self.store(n.lvalue, v)
        return v

    def store(self, lv, v):
        if isinstance(lv, c_ast.ID):
            self.assign(lv.name, v)
        else:
            key = self.key_of(lv)
            if self.ftype is not None:
                v = self.coerce(v, self.ftype(key))
            self.mem[key] = v
            self.writes.append(key)

    def ev_BinaryOp(self, n):
        if n.op == "&&":
            return int(self.truth(self.ev(n.left)) and self.truth(self.ev(n.right)))
        if n.op == "||":
            return int(self.truth(self.ev(n.left)) or self.truth(self.ev(n.right)))
        return self.binop(n.op, self.ev(n.left), self.ev(n.right))

    def binop(self, op, a, b):
        isint = lambda v: isinstance(v, (int, CInt)) or isinstance(v, CBool)
        if isinstance(a, Ref) or isinstance(b, Ref):
            if op == "+" and isinstance(a, Ref):
                return Ref(f"{a.key}+({self.canon(b)})")
            raise CUnsupported("pointer arithmetic")
        if isinstance(a, (str, list)) or isinstance(b, (str, list)):
            raise CUnsupported(f"operator {op} on {a!r:.50} {b!r:.50}")
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, int) and isinstance(b, int):
                return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
            ra, rb = real(a), real(b)
            rel = {"<": sp.Lt, ">": sp.Gt, "<=": sp.Le, ">=": sp.Ge, "==": sp.Eq, "!=": sp.Ne}[op](ra, rb)
            if rel == sp.true:
                return 1
            if rel == sp.false:
                return 0
            return CBool(rel)
        if isint(a) and isint(b):
            if isinstance(a, int) and isinstance(b, int):
                if op == "+":
                    return a + b
                if op == "-":
                    return a - b
                if op == "*":
                    return a * b
                if op in "/%":
                    if b == 0:
                        raise ZeroDivisionError("integer division by zero in generated C")
                    q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                    return q if op == "/" else a - q * b
                if op in ("&", "|", "^", "<<", ">>"):
                    return {"&": a & b, "|": a | b, "^": a ^ b, "<<": a << b, ">>": a >> b}[op]
            ea, eb = real(a), real(b)
            if op == "+":
                return mk_int(ea + eb)
            if op == "-":
                return mk_int(ea - eb)
            if op == "*":
                return mk_int(ea * eb)
            if op == "/":
                return mk_int(sp.Function("cdiv")(ea, eb))
            if op == "%":
                return mk_int(sp.Function("cmod")(ea, eb))
            raise CUnsupported(f"integer {op}")
        ra, rb = real(a), real(b)
        if op == "+":
            return ra + rb
        if op == "-":
            return ra - rb
        if op == "*":
            return ra * rb
        if op == "/":
            return ra / rb
        raise CUnsupported(f"binary {op}")

    def ev_FuncCall(self, n):
        if not isinstance(n.name, c_ast.ID):
            raise CUnsupported("indirect call")
        name = n.name.name
        argn = n.args.exprs if n.args else []
        if self.on_call:
            r = self.on_call(self, name, argn)
            if r is not None:
                return r
        if name in ("ReadSIMD", "ReadCUDA"):
            v = self.ev(argn[0])
            if not isinstance(v, Ref):
                raise CUnsupported("ReadSIMD of a non-address")
            return self.load(v.key)
        if name in ("WriteSIMD", "WriteCUDA"):
            a = argn[0]
            if isinstance(a, c_ast.UnaryOp) and a.op == "&" and isinstance(a.expr, c_ast.ID):
                self.assign(a.expr.name, self.ev(argn[1]))
                return None
            v = self.ev(a)
            self.mem[v.key] = self.ev(argn[1])
            self.writes.append(v.key)
            return None
        if name in self.functions:
            return self.call(self.functions[name], [self.ev(a) for a in argn])
        if name in SIMD:
            args = [real(self.ev(a)) for a in argn]
            return SIMD[name](*args)
        base = name
        if base.startswith("std::"):
            base = base[5:]
        for cand in (base, base[:-1] if base[-1:] in "fl" else base):
            if cand in MATH and len(argn) == 1:
                v = self.ev(argn[0])
                if cand == "abs" and isinstance(v, int):
                    return abs(v)
                return MATH[cand](real(v))
            if cand in MATH2 and len(argn) == 2:
                return MATH2[cand](real(self.ev(argn[0])), real(self.ev(argn[1])))
        if name.startswith(("IDX", "CCTK_GFINDEX", "VECTGFINDEX", "CCTK_VECTGFINDEX3D")):
            return Ref(f"{name}({', '.join(self.canon(self.ev(a)) for a in argn)})")
        if name in ("printf", "fprintf", "free", "exit", "perror", "fflush", "snprintf", "sprintf", "fclose"):
            return 0
        raise CUndeclared(f"function {name}")

    def call(self, fd, args):
        """inline a function definition parsed from the generated text"""
        params = fd.decl.type.args.params if fd.decl.type.args else []
        params = [p for p in params if getattr(p, "name", None)]
        if len(params) != len(args):
            raise CUndeclared(f"call of {fd.decl.name} with {len(args)} arguments, {len(params)} declared")
        saved = self.scopes, self.types
        self.scopes, self.types = [self.scopes[0], {}], [self.types[0], {}]
        for p, a in zip(params, args):
            t = self.type_class(p.type)
            self.declare(p.name, t, self.coerce(a, t))
        try:
            self.stmt(fd.body)
            r = None
        except Return as e:
            r = e.v
        finally:
            self.scopes, self.types = saved
        return self.coerce(r, self.type_class(fd.decl.type.type)) if r is not None else None

    # ----- types
    def type_class(self, t):
        if isinstance(t, c_ast.PtrDecl):
            return "ptr"
        if isinstance(t, c_ast.ArrayDecl):
            return "array"
        if isinstance(t, c_ast.TypeDecl):
            return self.type_class(t.type)
        if isinstance(t, c_ast.IdentifierType):
            names = set(t.names)
            if names & {"double", "float", "REAL", "CCTK_REAL", "REAL_SIMD_ARRAY", "REAL_CUDA_ARRAY"}:
                return "real"
            if names & INT_TYPES:
                return "int"
            return "real" if names & {"DOUBLE", "REAL2", "REAL4"} else "other"
        return "other"

    # ----- statements
    def stmt(self, n):
        self.steps += 1
        if self.steps > self.max_steps:
            raise CUnsupported("step limit")
        if n is None:
            return
        m = getattr(self, "st_" + type(n).__name__, None)
        if m:
            m(n)
        else:
            self.ev(n)

    def st_EmptyStatement(self, n):
        pass

    def st_Pragma(self, n):
        self.pragma = n.string

    def generic_loop(self, n):
        """Arbitrary iteration of for(int v = a; v < b; v++): scalars the body assigns are unconstrained before it, so what is shown of one iteration holds of all.
        Returns False where the loop is not of this form or its bounds are concrete."""
        c, v = n.cond, None
        if isinstance(n.init, c_ast.DeclList) and len(n.init.decls) == 1:
            v = n.init.decls[0].name
        if v is None or not (isinstance(c, c_ast.BinaryOp) and isinstance(c.left, c_ast.ID) and c.left.name == v and c.op in ("<", "<=")):
            return False
        if not (isinstance(n.next, c_ast.UnaryOp) and n.next.op in ("p++", "++") and isinstance(n.next.expr, c_ast.ID) and n.next.expr.name == v):
            return False
        hi, lo = self.ev(c.right), self.lookup(v)
        if isinstance(hi, int) and isinstance(lo, int):
            return False
        pragma, self.pragma = self.pragma, None
        sym = sp.Symbol(v if all(str(x[0]) != v for x in self.loops) else f"{v}'{len(self.loops)}", integer=True)
        self.loops.append((sym, real(lo), real(hi), c.op))
        self.scopes[-1][v] = CInt(sym)
        names = [k for k in assigned_names(n.stmt) if k != v and any(k in s for s in self.scopes)]
        before = {}
        for k in names:
            t = self.typ(k)
            before[k] = sp.Symbol(f"{k}@{len(self.carried)}.{k}", integer=True) if t == "int" else sp.Symbol(f"{k}@{len(self.carried)}", real=True)
            self.assign(k, CInt(before[k]) if t == "int" else before[k])
        try:
            self.stmt(n.stmt)
        except Continue:
            pass
        for k in names:
            self.carried.append((k, before[k], self.lookup(k), pragma))
            self.assign(k, sp.Symbol(f"{k}@end", real=True) if self.typ(k) != "int" else CInt(sp.Symbol(f"{k}@end", integer=True)))
        return True

    def st_Compound(self, n):
        self.scopes.append({})
        self.types.append({})
        try:
            for s in n.block_items or []:
                self.stmt(s)
        finally:
            self.scopes.pop()
            self.types.pop()

    def st_DeclList(self, n):
        for d in n.decls:
            self.stmt(d)

    def st_Decl(self, n):
        t = self.type_class(n.type)
        if n.name in self.scopes[-1]:
            raise CUndeclared(f"redeclaration of {n.name}")
        if t == "array":
            self.declare(n.name, t, Ref(n.name))
            try:
                d = self.ev(n.type.dim) if isinstance(n.type, c_ast.ArrayDecl) and n.type.dim is not None else None
            except (CUndeclared, CUnsupported):
                d = None
            self.sizes[n.name] = d if isinstance(d, int) else None
            if n.init is not None and isinstance(n.init, c_ast.InitList):
                self.init_array(n.name, n.init)
            return
        v = None
        if n.init is not None:
            v = self.ev(n.init)
            v = self.coerce(v, t)
        self.declare(n.name, t, v)

    def init_array(self, key, init):
        for i, e in enumerate(init.exprs):
            if isinstance(e, c_ast.InitList):
                self.init_array(f"{key}[{i}]", e)
            else:
                self.mem[f"{key}[{i}]"] = self.ev(e)

    def st_If(self, n):
        if self.truth(self.ev(n.cond)):
            self.stmt(n.iftrue)
        elif n.iffalse is not None:
            self.stmt(n.iffalse)

    def st_For(self, n):
        self.scopes.append({})
        self.types.append({})
        try:
            if n.init is not None:
                self.stmt(n.init)
            if self.generic and self.generic_loop(n):
                return
            while n.cond is None or self.truth(self.ev(n.cond)):
                try:
                    self.stmt(n.stmt)
                except Break:
                    break
                except Continue:
                    pass
                if n.next is not None:
                    self.ev(n.next)
        finally:
            self.scopes.pop()
            self.types.pop()

    def st_While(self, n):
        while self.truth(self.ev(n.cond)):
            try:
                self.stmt(n.stmt)
            except Break:
                break
            except Continue:
                pass

    def st_Return(self, n):
        raise Return(self.ev(n.expr) if n.expr is not None else None)

    def st_Break(self, n):
        raise Break()

    def st_Continue(self, n):
        raise Continue()

    def st_Switch(self, n):
        v = self.ev(n.cond)
        items = n.stmt.block_items
        start = None
        for i, it in enumerate(items):
            if isinstance(it, c_ast.Case):
                c = self.ev(it.expr)
                if self.truth(self.binop("==", v, c)):
                    start = i
                    break
        if start is None:
            for i, it in enumerate(items):
                if isinstance(it, c_ast.Default):
                    start = i
        if start is None:
            return
        try:
            for it in items[start:]:
                for s in (it.stmts or []) if isinstance(it, (c_ast.Case, c_ast.Default)) else [it]:
                    self.stmt(s)
        except Break:
            pass


def assigned_names(n):
    """scalars a statement assigns and does not itself declare"""
    out, decl = [], set()

    class V(c_ast.NodeVisitor):
        def visit_Decl(self, d):
            decl.add(d.name)
            self.generic_visit(d)

        def visit_Assignment(self, a):
            if isinstance(a.lvalue, c_ast.ID):
                out.append(a.lvalue.name)
            self.generic_visit(a)

        def visit_UnaryOp(self, u):
            if u.op in ("p++", "p--", "++", "--") and isinstance(u.expr, c_ast.ID):
                out.append(u.expr.name)
            self.generic_visit(u)
    V().visit(n)
    return [k for k in dict.fromkeys(out) if k not in decl]


def explore(run, max_paths=256):
    """run(path) -> result;   all feasible decision sequences."""
    out, work = [], [[]]
    while work:
        dec = work.pop()
        p = Path(dec)
        r = run(p)
        out.append((list(p.cond), r))
        for i in range(len(dec), len(p.decisions)):
            work.append(p.decisions[:i] + [not p.decisions[i]])
        if len(out) > max_paths:
            raise CUnsupported("too many paths")
    return out


def functions_of(text, extra_typedefs=()):
    ast = parse_c(text, extra_typedefs)
    return {x.decl.name: x for x in ast.ext if isinstance(x, c_ast.FuncDef)}


def kernel(body, extra_typedefs=()):
    """AST of a statement list"""
    ast = parse_c("void __k(void) {\n" + body + "\n}", extra_typedefs)
    return [x for x in ast.ext if isinstance(x, c_ast.FuncDef)][-1].body


def run_kernel(body, inputs=None, functions=None, resolver=None, path=None, on_call=None, decide=None, extra_typedefs=()):
    """Execute a statement list; returns the Exec with its final top-level scope."""
    ex = Exec(inputs, functions, resolver, decide, path, on_call)
    comp = kernel(body, extra_typedefs)
    for s in comp.block_items or []:
        ex.stmt(s)
    return ex
