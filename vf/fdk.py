"""Helpers shared by the finite-difference / codegen properties: memory model of gridfunction reads."""
import re

import sympy as sp
from pycparser import c_ast

from vf import cexec

i0, i1, i2 = sp.symbols("i0 i1 i2", integer=True)
II = (i0, i1, i2)


def mem_key(infra, gf, array, off):
    idx = ", ".join(str(sp.expand(II[d] + off[d])) for d in range(3))
    if infra == "BHaH":
        return f"{array}[IDX4({gf.upper()}GF, {idx})]"
    if infra == "ETLegacy":
        return f"{gf}GF[CCTK_GFINDEX3D(cctkGH, {idx})]"
    return f"{gf}GF({sp.expand(sp.Symbol('p.I', integer=True) + sum(off[d] * sp.Symbol(f'p.DI[{d}]', integer=True) for d in range(3)))})"


def mem_sym(infra, gf, array, off):
    return sp.Symbol(mem_key(infra, gf, array, off), real=True)


def cx_preprocess(text):
    """CarpetX kernels are C++: p.I / p.DI[k] are member accesses (valid C); nothing else needs rewriting."""
    return text


class GFMachine:
    """resolver + call hook for kernels that read gridfunctions"""

    def __init__(self, infra, gfs, arrays, free=()):
        self.infra, self.gfs, self.arrays = infra, set(gfs), dict(arrays)
        self.free = {str(s): s for s in free}
        self.touched = []
        self.base = re.compile(r"^(\w+)\[(IDX4|CCTK_GFINDEX3D)\((.*)\)\]$")

    def resolver(self, name):
        if name in self.free:
            return self.free[name]
        if name in ("i0", "i1", "i2"):
            return cexec.CInt(II[int(name[1])])
        if name in ("p.I",) or re.fullmatch(r"p\.DI\[[012]\]", name):
            return cexec.CInt(sp.Symbol(name, integer=True))
        if name == "cctkGH":
            return cexec.Ref("cctkGH")
        if self.infra == "BHaH" and name.endswith("GF"):
            for g in self.gfs:
                if g.upper() + "GF" == name:
                    return cexec.CInt(sp.Symbol(name, integer=True))
        m = self.base.match(name)
        if m:
            arr, mac, args = m.groups()
            if self.infra == "BHaH" and mac == "IDX4":
                g = args.split(",")[0].strip()
                if g.endswith("GF") and any(x.upper() + "GF" == g and self.arrays.get(x) == arr for x in self.gfs):
                    self.touched.append(name)
                    return sp.Symbol(name, real=True)
            if self.infra == "ETLegacy" and mac == "CCTK_GFINDEX3D" and arr.endswith("GF") and arr[:-2] in self.gfs and args.split(",")[0].strip() == "cctkGH":
                self.touched.append(name)
                return sp.Symbol(name, real=True)
        if self.infra == "CarpetX" and re.match(r"^\w+GF\(.*\)$", name):
            self.touched.append(name)
            return sp.Symbol(name, real=True)
        return None

    def on_call(self, ex, name, argn):
        if self.infra == "CarpetX" and name.endswith("GF") and name[:-2] in self.gfs:
            idx = sp.expand(cexec.real(ex.ev(argn[0])))
            key = f"{name}({idx})"
            if key in ex.mem:
                return ex.mem[key]
            self.touched.append(key)
            return sp.Symbol(key, real=True)
        if name == "UPWIND_ALG":
            v = cexec.real(ex.ev(argn[0]))
            return sp.Integer(1) if ex.truth(cexec.CBool(sp.Gt(v, 0))) else sp.Integer(0)
        return None


# CarpetX: &fooGF(...) is an lvalue call
_old_key_of = cexec.Exec.key_of


def _key_of(self, n):
    if isinstance(n, c_ast.FuncCall) and isinstance(n.name, c_ast.ID) and n.name.name.endswith("GF") and not n.name.name.startswith(("IDX", "CCTK")):
        arg = sp.expand(cexec.real(self.ev(n.args.exprs[0])))
        return f"{n.name.name}({arg})"
    return _old_key_of(self, n)


cexec.Exec.key_of = _key_of
