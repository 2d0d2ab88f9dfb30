"""C06  Gridfunction registry: names, indices, per-index data and parities stay consistent for every registration history."""
import itertools
import os
import re
import tempfile

import sympy as sp

from vf import cexec
from vf.core import HarnessError, Unit, thorough

LEVEL = "other"
EXPLANATION = ("Per-operation contracts: the footprint obligation (only the registered names are looked up or written, for every pre-state) plus the case split name present / absent make each step contract hold for every history; "
               "the parity products are proved for all coordinates; the readers of the registry are checked on exhaustively enumerated histories (bounded).")
PREIMPORT = ["nrpy.grid", "nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions", "nrpy.infrastructures.CarpetX.interface_ccl", "nrpy.infrastructures.ETLegacy.interface_ccl",
             "nrpy.infrastructures.ETLegacy.Symmetry_registration"]
ASSUMPTIONS = ["gridfunction names differ in more than letter case (the C macro names are upper-cased)", "names are treated by the code only through equality, hashing, case folding and their trailing digits (parametricity: established by the footprint obligations, used to lift enumerated names to all names)"]
BOUNDS = ["histories: all ordered selections of up to 3 (quick) / 4 (thorough) registrations from a list of 13 operations; dimensions 2, 3, 4; ranks 0..4; every group; coordinate systems for the parity products enumerated"]


class Spy(dict):
    """records the footprint (keys looked up or written) of code running on the registry"""

    def __init__(self, *a):
        super().__init__(*a)
        self.reads, self.writes, self.scans = set(), set(), 0

    def __contains__(self, k):
        self.reads.add(k)
        return super().__contains__(k)

    def __getitem__(self, k):
        self.reads.add(k)
        return super().__getitem__(k)

    def get(self, k, d=None):
        self.reads.add(k)
        return super().get(k, d)

    def __setitem__(self, k, v):
        self.writes.add(k)
        super().__setitem__(k, v)

    def __delitem__(self, k):
        self.writes.add(k)
        super().__delitem__(k)

    def pop(self, k, *d):
        self.writes.add(k)
        return super().pop(k, *d)


def fields(gf):
    return {k: v for k, v in gf.__dict__.items()}


def sym_name(base, idx):
    return base + "".join(map(str, idx))


def expected_components(rank, symmetry, dim):
    """canonical components (sign 0 dropped) as index tuples -> canonical tuple"""
    out = {}
    for idx in itertools.product(range(dim), repeat=rank):
        c = list(idx)
        for s in (symmetry or "nosym").split("_"):
            m = re.fullmatch(r"sym(\d)(\d)", s)
            if m:
                a, b = map(int, m.groups())
                if c[a] > c[b]:
                    c[a], c[b] = c[b], c[a]
        out[idx] = tuple(c)
    return out


def flat(o, rank):
    if rank == 0:
        yield (), o
        return
    for i, s in enumerate(o):
        for idx, v in flat(s, rank - 1):
            yield (i,) + idx, v


# ---------------------------------------------------------------- operations
def ops(infra):
    O = [
        ("scalar uu EVOL", dict(kind=0, names=["uu"], kw=dict(group="EVOL", f_infinity=2.5, wavespeed=0.5))),
        ("scalar uu again AUX", dict(kind=0, names=["uu"], kw=dict(group="AUX", f_infinity=7.0))),
        ("scalars list", dict(kind=0, names=["Vv", "ab"], kw=dict(group="EVOL", f_infinity=[0.0, 3.0], wavespeed=[1.5, 0.25]))),
        ("scalars aux", dict(kind=0, names=["zeta", "Aux", "mm"], kw=dict(group="AUX"))),
        ("scalar auxevol", dict(kind=0, names=["Kap"], kw=dict(group="AUXEVOL"))),
        ("vector betU", dict(kind=1, base="betU", dim=3, kw=dict(group="EVOL", f_infinity=0.75))),
        ("vector auxevol", dict(kind=1, base="SU", dim=3, kw=dict(group="AUXEVOL"))),
        ("vector with list data", dict(kind=1, base="LamU", dim=3, kw=dict(group="EVOL", f_infinity=[1.0, 2.0, 3.0], wavespeed=[4.0, 5.0, 6.0]))),
        ("vector dim 4", dict(kind=1, base="uU", dim=4, kw=dict(group="AUX"))),
        ("tensor gDD", dict(kind=2, base="gDD", dim=3, sym="sym01", kw=dict(group="EVOL", f_infinity=1.25))),
        ("tensor nosym dim 4", dict(kind=2, base="TUD", dim=4, sym=None, kw=dict(group="AUXEVOL"))),
        ("tensor sym dim 4", dict(kind=2, base="TUU", dim=4, sym="sym01", kw=dict(group="AUXEVOL"))),
        ("rankN rank 2", dict(kind="N", rank=2, base="hDD", dim=3, sym="sym01", kw=dict(group="EVOL", wavespeed=1.5))),
    ]
    return O


def run_op(gri, o):
    kw = dict(o["kw"])
    if o["kind"] == 0:
        r = gri.register_gridfunctions(o["names"] if len(o["names"]) > 1 else o["names"][0], **kw)
        names = list(o["names"])
        comps = {n: (i, 0, 3) for i, n in enumerate(names)}
        return [(str(s), s) for s in r], names, comps, 0, 3
    rank = o["rank"] if o["kind"] == "N" else o["kind"]
    if o["kind"] == 1:
        r = gri.register_gridfunctions_for_single_rank1(o["base"], dimension=o["dim"], **kw)
    elif o["kind"] == 2:
        r = gri.register_gridfunctions_for_single_rank2(o["base"], symmetry=o["sym"], dimension=o["dim"], **kw)
    else:
        r = gri.register_gridfunctions_for_single_rankN(o["base"], rank=rank, symmetry=o["sym"], dimension=o["dim"], **kw)
    exp = expected_components(rank, o.get("sym"), o["dim"])
    got = {idx: v for idx, v in flat(r, rank)}
    ret = [(sym_name(o["base"], exp.get(idx, ("?",))), v) for idx, v in got.items()]
    names = []
    for idx in sorted(exp):
        n = sym_name(o["base"], exp[idx])
        if n not in names:
            names.append(n)
    return ret, names, len(got) == len(exp), rank, o["dim"]


DEF = dict(group="EVOL", f_infinity=0.0, wavespeed=1.0)


def abstract_apply(state, o, names, rank, dim):
    """the contract: state' = state (first registration of a name wins) plus the new components"""
    new = dict(state)
    for i, n in enumerate(names):
        if n in new:
            continue
        v = dict(DEF, rank=rank, dimension=dim, name=n)
        for k, x in o["kw"].items():
            v[k] = x[i] if isinstance(x, list) else x
        new[n] = v
    return new


PAR3 = {(0, 0): 4, (0, 1): 5, (0, 2): 6, (1, 1): 7, (1, 2): 8, (2, 2): 9}


def parity(rank, dim, name):
    """0 scalar; 1..3 vector along direction; 4..9 the product of two directions; a time index is scalar"""
    if rank == 0:
        return 0
    idx = [int(c) - (1 if dim == 4 else 0) for c in name[-rank:]]
    sp_ = sorted(i for i in idx if i >= 0)
    if not sp_:
        return 0
    if len(sp_) == 1:
        return sp_[0] + 1
    return PAR3[tuple(sp_)]


def macros(txt):
    return dict(re.findall(r"^#define (\w+)\s+(\S+)", txt, re.M))


def carray(txt, name):
    m = re.search(re.escape(name) + r"\[(\w+)\]\s*=\s*\{([^}]*)\}", txt)
    return None if not m else (m.group(1), [x.strip() for x in m.group(2).split(",") if x.strip()])


def check_state(ctx, tag, gri, st, infra):
    """data-structure invariant + every reader of the registry"""
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    d = gri.glb_gridfcs_dict
    bad = []
    for n, v in st.items():
        if n not in d:
            bad.append(f"{n} missing")
            continue
        f = fields(d[n])
        for k in ("name", "group", "rank", "dimension", "f_infinity", "wavespeed"):
            if f.get(k) != v[k]:
                bad.append(f"{n}.{k} = {f.get(k)!r}, contract {v[k]!r}")
    extra = set(d) - set(st)
    ctx.check(f"{tag}: registry content", not bad and not extra, "contract-exec", bounded=True, cex=f"{bad[:5]} extra {sorted(extra)[:5]}")
    lists = gri.GridFunction.gridfunction_lists()
    want = [sorted([n for n, v in st.items() if v["group"] == g], key=str.lower) for g in ("EVOL", "AUX", "AUXEVOL")]
    ctx.check(f"{tag}: group lists", [list(l) for l in lists] == want, "contract-exec", bounded=True, cex=f"got {lists} want {want}")
    if infra != "BHaH":
        return
    txt = ctx.call("gridfunction_defines", gri.BHaHGridFunction.gridfunction_defines)
    mac = macros(txt)
    bad = []
    for g, l in zip(("EVOL", "AUX", "AUXEVOL"), want):
        if mac.get(f"NUM_{g}_GFS") != str(len(l)):
            bad.append(f"NUM_{g}_GFS = {mac.get(f'NUM_{g}_GFS')}, want {len(l)}")
        idx = sorted(int(mac.get(n.upper() + "GF", -1)) for n in l)
        if idx != list(range(len(l))):
            bad.append(f"{g} indices {idx}")
    nd = len(re.findall(r"^#define ", txt, re.M))
    if nd != 3 + sum(map(len, want)):
        bad.append(f"{nd} #defines")
    ctx.check(f"{tag}: indices enumerate each group", not bad, "contract-exec", bounded=True, cex=f"{bad}\n{txt}")
    if bad:
        return
    bad = []
    if want[0]:
        for arr, k in (("gridfunctions_f_infinity", "f_infinity"), ("gridfunctions_wavespeed", "wavespeed")):
            c = carray(txt, arr)
            if c is None or len(c[1]) != len(want[0]):
                bad.append(f"{arr}: {c}")
                continue
            for n in want[0]:
                if float(c[1][int(mac[n.upper() + 'GF'])]) != float(st[n][k]):
                    bad.append(f"{arr}[{n.upper()}GF] = {c[1][int(mac[n.upper() + 'GF'])]}, want {st[n][k]}")
    ctx.check(f"{tag}: f_infinity and wavespeed are indexed like the gridfunctions", not bad, "contract-exec", bounded=True, cex=f"{bad}\n{txt}")
    if all(v["rank"] <= 2 for v in st.values()):
        t = ctx.call("parity types", cbc.BHaH_defines_set_gridfunction_defines_with_parity_types, set_parity_on_aux=True, set_parity_on_auxevol=True, verbose=False)
        bad = []
        for g, l, arr in zip(("EVOL", "AUX", "AUXEVOL"), want, ("evol_gf_parity", "aux_gf_parity", "auxevol_gf_parity")):
            c = carray(t, arr)
            if not l:
                continue
            if c is None or c[0] != str(len(l)) or len(c[1]) != len(l):
                bad.append(f"{arr}: {c}")
                continue
            for n in l:
                if int(c[1][int(mac[n.upper() + "GF"])]) != parity(st[n]["rank"], st[n]["dimension"], n):
                    bad.append(f"{arr}[{n.upper()}GF] = {c[1][int(mac[n.upper() + 'GF'])]}, want {parity(st[n]['rank'], st[n]['dimension'], n)}")
        ctx.check(f"{tag}: parity types", not bad, "contract-exec", bounded=True, cex=f"{bad}\n{t}")


def u_histories(ctx, infra, first):
    import nrpy.grid as gri
    import nrpy.params as par
    ctx.under("nrpy.grid.register_gridfunctions", "nrpy.grid.register_gridfunctions_for_single_rank1", "nrpy.grid.register_gridfunctions_for_single_rank2", "nrpy.grid.register_gridfunctions_for_single_rankN",
              "nrpy.grid.GridFunction.gridfunction_lists", "nrpy.grid.BHaHGridFunction.gridfunction_defines", "nrpy.grid.GridFunction.set_parity_types",
              "CurviBoundaryConditions.BHaH_defines_set_gridfunction_defines_with_parity_types", "nrpy.grid.*GridFunction.__init__")
    par.set_parval_from_str("Infrastructure", infra)
    O = ops(infra)
    depth = 4 if thorough() else 3
    if infra != "BHaH":
        depth -= 1
    for L in range(1, depth + 1):
        for seq in itertools.permutations([i for i in range(len(O)) if i != first], L - 1):
            hist = [first, *seq]
            if infra == "BHaH" and not thorough() and L == 3 and (hist[1] > hist[2]) and (hist[1] + hist[2]) % 3:
                continue
            gri.glb_gridfcs_dict.clear()
            st = {}
            tag = " ; ".join(O[i][0] for i in hist)
            for step, i in enumerate(hist):
                o = O[i][1]
                before = Spy(gri.glb_gridfcs_dict)
                gri.glb_gridfcs_dict = before
                ret, names, ok, rank, dim = ctx.call(O[i][0], run_op, gri, o)
                touched = before.reads | before.writes
                st2 = abstract_apply(st, o, names, rank, dim)
                if step == len(hist) - 1:
                    bad = [(w, str(s)) for w, s in ret if str(s) != w or not isinstance(s, sp.Symbol) or (rank == 0 and s.is_real is not True)]
                    ctx.check(f"{tag}: returned symbols", not bad and ok is not False, "contract-exec", bounded=True, cex=str(bad[:4]))
                    ctx.check(f"{tag}: footprint", touched <= set(names) and before.writes == set(names) - set(st), "footprint",
                              cex=f"looked up or wrote {sorted(touched - set(names))[:4]}; wrote {sorted(before.writes)} ; new names {sorted(set(names) - set(st))}")
                st = st2
            check_state(ctx, tag, gri, st, infra)
            gri.glb_gridfcs_dict.clear()


def u_order(ctx):
    """indices do not depend on the order of registration"""
    import nrpy.grid as gri
    import nrpy.params as par
    par.set_parval_from_str("Infrastructure", "BHaH")
    names = ["cf", "RbarDD", "trK", "alpha", "Zz", "hDD", "ab", "Ab_x"]
    ref = None
    n = 0
    for perm in itertools.islice(itertools.permutations(names), 0, 40320, 97 if not thorough() else 7):
        gri.glb_gridfcs_dict.clear()
        for nm in perm:
            gri.register_gridfunctions(nm, f_infinity=float(len(nm) + names.index(nm)))
        t = gri.BHaHGridFunction.gridfunction_defines()
        ref = ref or t
        n += 1
        if t != ref:
            ctx.check("indices independent of registration order", False, "exhaustive", bounded=True, cex=f"order {perm}\n{t}\nvs\n{ref}")
            return
    ctx.check(f"indices independent of registration order ({n} orders)", True, "exhaustive", bounded=True)


def u_rank34(ctx):
    import nrpy.grid as gri
    import nrpy.params as par
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        par.set_parval_from_str("Infrastructure", infra)
        for rank, syms in ((1, [None]), (2, [None, "sym01", "nosym"]), (3, [None, "sym01", "sym12", "sym02", "sym012"]), (4, [None, "sym01", "sym01_sym23", "sym23", "sym0123", "sym02"])):
            for sy in syms:
                for dim in (2, 3, 4):
                    if sy in ("sym012", "sym0123"):
                        exp = {i: tuple(sorted(i)) for i in itertools.product(range(dim), repeat=rank)}
                    else:
                        exp = expected_components(rank, sy, dim)
                    gri.glb_gridfcs_dict.clear()
                    r = ctx.call(f"rankN {rank} {sy} {dim}", gri.register_gridfunctions_for_single_rankN, "RQ", rank=rank, symmetry=sy, dimension=dim, group="EVOL", f_infinity=1.5)
                    got = dict(flat(r, rank))
                    want = {i: "RQ" + "".join(map(str, c)) for i, c in exp.items()}
                    bad = [(i, str(got.get(i)), w) for i, w in want.items() if str(got.get(i)) != w]
                    reg = {k: (v.rank, v.dimension, v.f_infinity, v.group) for k, v in gri.glb_gridfcs_dict.items()}
                    okreg = reg == {n: (rank, dim, 1.5, "EVOL") for n in want.values()}
                    ctx.check(f"{infra} rank {rank} {sy} dim {dim}", not bad and okreg and len(got) == dim**rank, "exhaustive", bounded=True, cex=f"{bad[:4]} {set(reg) ^ set(want.values())}")


def u_reject(ctx):
    import nrpy.grid as gri
    import nrpy.params as par
    fr = lambda: sorted((k, sorted(map(str, v.__dict__.items()))) for k, v in gri.glb_gridfcs_dict.items())
    par.set_parval_from_str("Infrastructure", "BHaH")
    for nm in ("h1", "abc0", "x9", ""):
        ctx.raises(f"basename {nm!r} rejected", lambda nm=nm: gri.register_gridfunctions(nm), (ValueError, TypeError), fr)
    for infra in ("BHaH", "CarpetX"):
        par.set_parval_from_str("Infrastructure", infra)
        for g in ("INVALID", "evol", "EVOLVED", ""):
            ctx.raises(f"{infra} group {g!r} rejected", lambda g=g: gri.register_gridfunctions("okname", group=g), ValueError, fr)
    for c in ("CC", "CXC", "VV", "V", "ccc"):
        ctx.raises(f"centering {c!r} rejected", lambda c=c: gri.register_gridfunctions("okname", centering=c), (ValueError, TypeError), fr)
    par.set_parval_from_str("Infrastructure", "nope")
    ctx.raises("unknown infrastructure rejected", lambda: gri.register_gridfunctions("okname"), ValueError, fr)
    par.set_parval_from_str("Infrastructure", "BHaH")
    for r in (0, 5):
        ctx.raises(f"rank {r} rejected", lambda r=r: gri.register_gridfunctions_for_single_rankN("RR", rank=r), ValueError, fr)
    # default arrays per group, synchronisation default
    for g, arr in (("EVOL", "in_gfs"), ("AUXEVOL", "auxevol_gfs"), ("AUX", "aux_gfs")):
        gri.glb_gridfcs_dict.clear()
        gri.register_gridfunctions("qq", group=g)
        o = gri.glb_gridfcs_dict["qq"]
        ctx.check(f"{g} lives in {arr}", o.gf_array_name == arr, "contract-exec", bounded=True, cex=o.gf_array_name)
        ctx.check(f"{g} synchronised in superB iff evolved", bool(o.sync_gf_in_superB) == (g == "EVOL"), "contract-exec", bounded=True, cex=str(o.sync_gf_in_superB))
        for v in (True, False):
            gri.glb_gridfcs_dict.clear()
            gri.register_gridfunctions("qq", group=g, sync_gf_in_superB=v, gf_array_name="mine")
            o = gri.glb_gridfcs_dict["qq"]
            ctx.check(f"{g} explicit sync {v} and array kept", o.sync_gf_in_superB is v and o.gf_array_name == "mine", "contract-exec", bounded=True, cex=str(fields(o)))
    # rank >= 3 has no parity type
    gri.glb_gridfcs_dict.clear()
    gri.register_gridfunctions_for_single_rankN("QDDD", rank=3)
    ctx.raises("rank-3 parity rejected", lambda: gri.GridFunction.set_parity_types(["QDDD012"]), ValueError)
    gri.glb_gridfcs_dict.clear()
    ctx.raises("unregistered name has no parity", lambda: gri.GridFunction.set_parity_types(["nothere"]), ValueError)


def u_access(ctx):
    """access_gf / read_gf_from_memory: the location named is (gf, i0+o0, i1+o1, i2+o2) for all offsets"""
    import nrpy.grid as gri
    import nrpy.params as par
    ctx.under("nrpy.grid.*GridFunction.access_gf", "nrpy.grid.*GridFunction.read_gf_from_memory_Ccode_onept")
    offs = [-3, -1, 0, 1, 2, 12]
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        par.set_parval_from_str("Infrastructure", infra)
        gri.glb_gridfcs_dict.clear()
        gri.register_gridfunctions("aBc")
        g = gri.glb_gridfcs_dict["aBc"]
        cls = type(g)
        n, bad = 0, []
        for o in itertools.product(offs, repeat=3):
            variants = [("access", cls.access_gf("aBc", *o), False, None), ("read", g.read_gf_from_memory_Ccode_onept(*o), False, None),
                        ("read simd", g.read_gf_from_memory_Ccode_onept(*o, enable_simd=True), True, None)]
            if infra == "BHaH":
                variants += [("access arr", cls.access_gf("aBc", *o, gf_array_name="zz"), False, "zz"), ("read arr", g.read_gf_from_memory_Ccode_onept(*o, gf_array_name="zz"), False, "zz")]
            else:
                variants += [("access nosuf", cls.access_gf("aBc", *o, use_GF_suffix=False), False, "nosuf"), ("read nosuf", g.read_gf_from_memory_Ccode_onept(*o, use_GF_suffix=False, enable_simd=True), True, "nosuf")]
            for kind, s, simd, mod in variants:
                n += 1
                t = s
                if simd:
                    m = re.fullmatch(r"ReadSIMD\(&(.*)\)", t)
                    t = m.group(1) if m else "?"
                if infra == "BHaH":
                    m = re.fullmatch(r"(\w+)\[IDX4\((\w+), *(.*), *(.*), *(.*)\)\]", t)
                    ok = bool(m) and m.group(1) == (mod or "in_gfs") and m.group(2) == "ABCGF"
                    idx = m.groups()[2:] if ok else ()
                    want = [sp.Symbol(f"i{k}") + o[k] for k in range(3)]
                elif infra == "ETLegacy":
                    m = re.fullmatch(r"(\w+)\[CCTK_GFINDEX3D\(cctkGH, *(.*), *(.*), *(.*)\)\]", t)
                    ok = bool(m) and m.group(1) == ("aBc" if mod == "nosuf" else "aBcGF")
                    idx = m.groups()[1:] if ok else ()
                    want = [sp.Symbol(f"i{k}") + o[k] for k in range(3)]
                else:
                    m = re.fullmatch(r"(\w+)\((.*)\)", t)
                    ok = bool(m) and m.group(1) == ("aBc" if mod == "nosuf" else "aBcGF")
                    idx = (m.group(2).replace("p.I", "I_").replace("p.DI[0]", "D0").replace("p.DI[1]", "D1").replace("p.DI[2]", "D2"),) if ok else ()
                    want = [sp.Symbol("I_") + sum(o[k] * sp.Symbol(f"D{k}") for k in range(3))]
                if not ok or [sp.sympify(x) for x in idx] != want:
                    bad.append((kind, o, s))
        ctx.check(f"{infra} memory access expressions ({n} forms)", not bad, "term identity", cex=str(bad[:4]))


def u_parity_products(ctx, coord):
    """parity type t of the boundary conditions is the product of the directions that t stands for"""
    import nrpy.infrastructures.BHaH.CurviBoundaryConditions.CurviBoundaryConditions as cbc
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    ctx.under("CurviBoundaryConditions.parity_conditions_symbolic_dot_products")
    par.set_parval_from_str("Infrastructure", "BHaH")
    txt = ctx.call("parity", cbc.parity_conditions_symbolic_dot_products, coord)
    rfm = refmetric.reference_metric[coord]
    names = {s.name: s for e in sum(rfm.UnitVectors, []) for s in sp.sympify(e).free_symbols}
    inp = dict(names)
    for k in range(3):
        inp[f"xx{k}"] = rfm.xx[k]
        inp[f"xx{k}_inbounds"] = sp.Symbol(f"xx{k}_inbounds", real=True)
    ex = cexec.run_kernel(txt, inputs=inp)
    inb = {rfm.xx[k]: sp.Symbol(f"xx{k}_inbounds", real=True) for k in range(3)}
    dot = [sum(sp.sympify(rfm.UnitVectors[d][i]) * sp.sympify(rfm.UnitVectors[d][i]).xreplace(inb) for i in range(3)) for d in range(3)]
    want = {0: sp.S.One, 1: dot[0], 2: dot[1], 3: dot[2]}
    for (a, b), t in PAR3.items():
        want[t] = dot[a] * dot[b]
    for t in range(10):
        v = ex.mem.get(f"REAL_parity_array[{t}]")
        if v is None:
            ctx.check(f"parity {t} is set", False, "c-symexec", cex=txt)
            continue
        ctx.eq(f"parity type {t}", cexec.real(v), want[t], budget=20)


def u_ccl(ctx):
    """Cactus declarations: every gridfunction of the thorn is declared once, in its group, with its parity"""
    import nrpy.c_function as cfc
    import nrpy.grid as gri
    import nrpy.infrastructures.CarpetX.interface_ccl as cx
    import nrpy.infrastructures.ETLegacy.interface_ccl as et
    import nrpy.infrastructures.ETLegacy.Symmetry_registration as sr
    import nrpy.params as par
    ctx.under("nrpy.infrastructures.CarpetX.interface_ccl.construct_interface_ccl", "nrpy.infrastructures.ETLegacy.interface_ccl.construct_interface_ccl",
              "nrpy.infrastructures.ETLegacy.Symmetry_registration.register_CFunction_Symmetry_registration_oldCartGrid3D")

    def groups(txt):
        out = {}
        for m in re.finditer(r"CCTK_REAL (\w+) type = GF([^\n]*)\n\{\n([^}]*)\n\}", txt):
            par_ = re.search(r"parities=\{([^}]*)\}", m.group(2))
            out[m.group(1)] = ([x.strip() for x in m.group(3).split(",") if x.strip()], None if not par_ else [int(v) for v in par_.group(1).split()], m.group(2))
        return out

    def refl(rank, dim, name):
        s = [1, 1, 1]
        for c in (name[-rank:] if rank else ""):
            d = int(c) - (1 if dim == 4 else 0)
            if d >= 0:
                s[d] *= -1
        return s

    for infra in ("CarpetX", "ETLegacy"):
        for sel in itertools.chain(itertools.combinations(range(13), 2), [tuple(range(13)), (0, 3), (4,), (9,), (3,)]):
            par.set_parval_from_str("Infrastructure", infra)
            gri.glb_gridfcs_dict.clear()
            O = ops(infra)
            st = {}
            for i in sel:
                if O[i][0] == "vector dim 4":
                    continue
                _r, names, _ok, rank, dim = run_op(gri, O[i][1])
                st = abstract_apply(st, O[i][1], names, rank, dim)
            if not st:
                continue
            tag = f"{infra} " + "+".join(map(str, sel))
            for evol in (True, False):
                with tempfile.TemporaryDirectory() as d:
                    (cx if infra == "CarpetX" else et).construct_interface_ccl(project_dir=d, thorn_name="Th", inherits="ADMBase", USES_INCLUDEs="", is_evol_thorn=evol, enable_NewRad=False)
                    txt = open(os.path.join(d, "Th", "interface.ccl"), encoding="utf-8").read()
                g = groups(txt)
                bad = []
                want = {}
                L = {k: sorted([n for n, v in st.items() if v["group"] == k], key=str.lower) for k in ("EVOL", "AUX", "AUXEVOL")}
                if evol and L["EVOL"]:
                    want["evol_variables"] = [n + "GF" for n in L["EVOL"]]
                    want["evol_variables_rhs"] = [n + "_rhsGF" for n in L["EVOL"]]
                if evol and L["AUXEVOL"] and (infra == "CarpetX" or L["EVOL"]):
                    want["auxevol_variables"] = [n + "GF" for n in L["AUXEVOL"]]
                if L["AUX"] and (infra == "CarpetX" or evol):
                    want["aux_variables"] = [n + "GF" for n in L["AUX"]]
                if {k: v[0] for k, v in g.items()} != want:
                    bad.append(({k: v[0] for k, v in g.items()}, want))
                if infra == "CarpetX" and not bad:
                    for k, (names, pars, tags) in g.items():
                        if k.endswith("_rhs"):
                            continue
                        wp = sum((refl(st[n[:-2]]["rank"], st[n[:-2]]["dimension"], n[:-2]) for n in names), [])
                        if pars != wp:
                            bad.append((k, names, pars, wp))
                ctx.check(f"{tag} interface.ccl evol={evol}", not bad, "exhaustive", bounded=True, cex=f"{bad[:2]}\n{txt[-1500:]}")
            if infra == "ETLegacy":
                cfc.CFunction_dict.clear()
                sr.register_CFunction_Symmetry_registration_oldCartGrid3D("Th")
                body = cfc.CFunction_dict["Th_Symmetry_registration_oldCartGrid3D"].body
                got, cur = {}, None
                for stm in re.sub(r"//.*", "", body).split(";"):
                    stm = stm.strip()
                    m = re.fullmatch(r"sym\[(\d)\]\s*(\*?)=\s*(-?\d)", stm)
                    if m:
                        cur = cur or [None] * 3
                        k = int(m.group(1))
                        cur[k] = int(m.group(3)) * (cur[k] if m.group(2) else 1)
                    m = re.fullmatch(r'SetCartSymVN\(cctkGH, sym, "Th::(\w+)GF"\)', stm)
                    if m:
                        got[m.group(1)] = list(cur)
                want = {n: refl(v["rank"], v["dimension"], n) for n, v in st.items()}
                ctx.check(f"{tag} symmetry registration", got == want, "exhaustive", bounded=True, cex=f"{[(n, got.get(n), want.get(n)) for n in set(got) | set(want) if got.get(n) != want.get(n)][:4]}")


def units():
    from vf import coords
    U = []
    for infra in ("BHaH", "ETLegacy", "CarpetX"):
        for i in range(13):
            U.append(Unit(f"histories {infra} starting with {i}", u_histories, (infra, i), weight=3))
    U += [Unit("registration order", u_order), Unit("ranks and symmetries", u_rank34), Unit("rejections and defaults", u_reject), Unit("memory access", u_access), Unit("cactus declarations", u_ccl)]
    for c in coords.ALL:
        U.append(Unit(f"parity products {c}", u_parity_products, (c,), weight=2))
    return U
