"""C10  Reference-metric geometry: every hatted quantity is the one of the coordinate map."""
import itertools
import re

import mpmath
import sympy as sp

from vf import algnf, cexec, coords
from vf.core import HarnessError, Unit, thorough

LEVEL = "proof"
PREIMPORT = ["nrpy.reference_metric", "nrpy.infrastructures.BHaH.rfm_precompute"]
ASSUMPTIONS = ["flat space: the reference metric is the Euclidean metric pulled back by xx_to_Cart; Christoffel symbols are (dx/dX) d2X/dx2",
               "coordinates in the open domain (scale factors nonzero); radicals positive",
               "the inverse map Cart_to_xx is compared on sample points of the domain (bounded) in addition to the symbolic right-inverse identity"]
BOUNDS = ["coordinate systems: the 14 documented ones plus SinhSphericalv2n4 and SinhCylindricalv2n4; inverse-map sampling 25 points per octant"]
WEDGE = ("LWedgeHSinhSph", "UWedgeHSinhSph")


def nums(rfm, rng, octant=None):
    """random parameter values and a random point in the coordinate box"""
    pars = {}
    names = set()
    for e in list(rfm.xx_to_Cart) + list(rfm.Cart_to_xx) + list(rfm.xxmin) + list(rfm.xxmax):
        if isinstance(e, str):
            names.add(sp.Symbol(e, real=True))
        else:
            names |= e.free_symbols
    names -= set(rfm.xx) | {rfm.Cartx, rfm.Carty, rfm.Cartz}
    for s in names:
        n = str(s)
        if n == "PI":
            v = mpmath.pi
        elif n == "SQRT1_2":
            v = 1 / mpmath.sqrt(2)
        elif n.startswith("SINHW"):
            v = mpmath.mpf(rng.uniform(0.15, 0.9))
        elif "slope" in n:
            v = mpmath.mpf(rng.uniform(0.05, 0.8))
        elif n == "RMIN":
            v = mpmath.mpf(rng.uniform(1.0, 2.0))
        elif n.upper() in ("XMIN", "YMIN", "ZMIN"):
            v = mpmath.mpf(-rng.uniform(3, 9))
        elif n == "bScale":
            v = mpmath.mpf(rng.uniform(0.3, 2))
        else:
            v = mpmath.mpf(rng.uniform(3, 12))
        pars[s] = v
    return pars


def ev(e, pt):
    if isinstance(e, str):
        e = sp.Symbol(e, real=True)
        return next(v for k, v in pt.items() if str(k) == str(e))
    e = sp.sympify(e)
    syms = sorted(e.free_symbols, key=str)
    return sp.lambdify(syms, e, "mpmath")(*[next(v for k, v in pt.items() if str(k) == str(s)) for s in syms])


def u_coord(ctx, name):
    import random
    import nrpy.params as par
    import nrpy.reference_metric as refmetric
    ctx.under("nrpy.reference_metric.ReferenceMetric", "nrpy.reference_metric.rfm_dict.__getitem__")
    rfm = ctx.call("reference_metric", lambda: refmetric.reference_metric[name])
    x = rfm.xx
    X = rfm.xx_to_Cart
    R3 = range(3)
    B = dict(budget=40 if thorough() else 12)
    J = [[sp.diff(X[a], x[i]) for i in R3] for a in R3]
    h = rfm.scalefactor_orthog
    for a in R3:
        for i in R3:
            ctx.eq(f"Jac_dUCart_dDrfm[{a}][{i}]", rfm.Jac_dUCart_dDrfmUD[a][i], J[a][i], **B)
            ctx.eq(f"Jac_dUSph_dDrfm[{a}][{i}]", rfm.Jac_dUSph_dDrfmUD[a][i], sp.diff(rfm.xxSph[a], x[i]), **B)
    # inverse jacobians: use the orthogonal frame to keep the terms small:  J^-1 = diag(1/h^2) J^T
    for i in R3:
        for j in R3:
            ctx.eq(f"metric of the map, component {i}{j}", sum(J[a][i] * J[a][j] for a in R3), h[i] ** 2 if i == j else 0, **B)
            ctx.eq(f"inverse Jacobian {i}{j}", rfm.Jac_dUrfm_dDCartUD[i][j], J[j][i] / h[i] ** 2, **B)
            ctx.eq(f"unit vector {i} component {j} times scale factor is the coordinate derivative of the map", rfm.UnitVectors[i][j] * h[i], J[j][i], **B)
            ctx.eq(f"ghatDD {i}{j}", rfm.ghatDD[i][j], h[i] ** 2 if i == j else 0, **B)
            ctx.eq(f"ghatUU {i}{j}", rfm.ghatUU[i][j], 1 / h[i] ** 2 if i == j else 0, **B)
            ctx.eq(f"ReDD {i}{j}", rfm.ReDD[i][j], h[i] * h[j], **B)
        ctx.eq(f"ReU {i}", rfm.ReU[i], 1 / h[i], **B)
        ctx.eq(f"ReD {i}", rfm.ReD[i], h[i], **B)
    Sj, Si = rfm.Jac_dUSph_dDrfmUD, rfm.Jac_dUrfm_dDSphUD
    for i in R3:
        for j in R3:
            ctx.eq(f"Spherical Jacobian times inverse {i}{j}", sum(Sj[i][k] * Si[k][j] for k in R3), int(i == j), **B)
    ctx.eq("detgammahat", rfm.detgammahat, (h[0] * h[1] * h[2]) ** 2, **B)
    # derivative fields: differentiated from the code's own undifferentiated values (each already tied to the map above)
    D = sp.diff
    det = rfm.detgammahat
    for i in R3:
        ctx.eq(f"detgammahatdD {i}", rfm.detgammahatdD[i], D(det, x[i]), **B)
        for j in R3:
            ctx.eq(f"detgammahatdDD {i}{j}", rfm.detgammahatdDD[i][j], D(det, x[i], x[j]), **B)
            ctx.eq(f"ReUdD {i}{j}", rfm.ReUdD[i][j], D(rfm.ReU[i], x[j]), **B)
            ctx.eq(f"ReDdD {i}{j}", rfm.ReDdD[i][j], D(rfm.ReD[i], x[j]), **B)
            for k in R3:
                ctx.eq(f"ReUdDD {i}{j}{k}", rfm.ReUdDD[i][j][k], D(rfm.ReU[i], x[j], x[k]), **B)
                ctx.eq(f"ReDdDD {i}{j}{k}", rfm.ReDdDD[i][j][k], D(rfm.ReD[i], x[j], x[k]), **B)
                ctx.eq(f"ReDDdD {i}{j}{k}", rfm.ReDDdD[i][j][k], D(rfm.ReDD[i][j], x[k]), **B)
                ctx.eq(f"ghatDDdD {i}{j}{k}", rfm.ghatDDdD[i][j][k], D(rfm.ghatDD[i][j], x[k]), **B)
                # flat space: Gamma^i_jk = (dx^i/dX^a) d_j d_k X^a
                ctx.eq(f"GammahatUDD {i}{j}{k}", rfm.GammahatUDD[i][j][k], sum(J[a][i] * D(X[a], x[j], x[k]) for a in R3) / h[i] ** 2, **B)
                for l in R3:
                    ctx.eq(f"ReDDdDD {i}{j}{k}{l}", rfm.ReDDdDD[i][j][k][l], D(rfm.ReDD[i][j], x[k], x[l]), **B)
                    ctx.eq(f"ghatDDdDD {i}{j}{k}{l}", rfm.ghatDDdDD[i][j][k][l], D(rfm.ghatDD[i][j], x[k], x[l]), **B)
                    ctx.eq(f"GammahatUDDdD {i}{j}{k}{l}", rfm.GammahatUDDdD[i][j][k][l], D(rfm.GammahatUDD[i][j][k], x[l]), **B)
    # spherical coordinates of the same point
    r, th, ph = rfm.xxSph
    sph = [r * sp.sin(th) * sp.cos(ph), r * sp.sin(th) * sp.sin(ph), r * sp.cos(th)]

    def sampler(syms, rng):
        pars = nums(rfm, rng)
        pt = {s: mpmath.mpf(rng.uniform(0.2, 1.2)) for s in syms}
        for s in syms:
            for k, v in pars.items():
                if str(k) == str(s):
                    pt[s] = v
        return pt
    for a in R3:
        rhs = X[a]
        ctx.eq(f"xxSph describes the same Cartesian point, component {a}", sph[a], rhs, sampler=sampler, **B)
    # inverse map
    if any(e != 0 for e in rfm.Cart_to_xx):
        C = [rfm.Cartx, rfm.Carty, rfm.Cartz]
        one2 = {s: 1 / sp.sqrt(2) for e in rfm.Cart_to_xx for s in e.free_symbols if str(s) == "SQRT1_2"}
        inv = [sp.sympify(e).subs(one2) for e in rfm.Cart_to_xx]
        rng = random.Random(7)
        if name != "SinhSymTP":
            for a in R3:
                comp = X[a].subs(dict(zip(x, inv)), simultaneous=True)
                comp = comp.rewrite(sp.exp) if not comp.has(sp.asinh) else comp.replace(sp.asinh, lambda u: sp.log(u + sp.sqrt(u ** 2 + 1)))
                ctx.eq(f"xx_to_Cart(Cart_to_xx(X)) = X, component {a}", comp, C[a], **B)
        worst = {}
        with mpmath.workdps(30):
            for octant in itertools.product((0, 1), repeat=3):
                for _ in range(25):
                    pt = nums(rfm, rng)
                    lo, hi = [ev(e, pt) for e in rfm.xxmin], [ev(e, pt) for e in rfm.xxmax]
                    q = []
                    for d in R3:
                        mid = (lo[d] + hi[d]) / 2
                        a, b = (lo[d], mid) if octant[d] == 0 else (mid, hi[d])
                        q.append(a + (b - a) * mpmath.mpf(rng.uniform(0.02, 0.98)))
                    pt.update(dict(zip(x, q)))
                    Y = [ev(e, pt) for e in X]
                    pt.update(dict(zip(C, Y)))
                    z = [ev(e, pt) for e in rfm.Cart_to_xx]
                    for d in R3:
                        if abs(z[d] - q[d]) > 1e-12 * max(1, abs(q[d])) and d not in worst:
                            worst[d] = (f"params {({str(k): mpmath.nstr(v, 8) for k, v in pt.items()})}: xx[{d}]={mpmath.nstr(q[d], 15)} -> Cart {[mpmath.nstr(v, 12) for v in Y]} -> {mpmath.nstr(z[d], 15)}")
        for d in R3:
            ctx.check(f"Cart_to_xx(xx_to_Cart(xx)) = xx on the domain, component {d}", d not in worst, "numeric sampling", cex=worst.get(d), bounded=True)
    # extent of the box
    box(ctx, rfm, name)


def box(ctx, rfm, name):
    """xxmin/xxmax with the grid_physical_size/grid_hole_radius substitutions"""
    G, H, PI = sp.Symbol("grid_physical_size", positive=True), sp.Symbol("grid_hole_radius", positive=True), sp.pi
    mp = {}
    for k, v in list(rfm.grid_physical_size_dict.items()) + list(rfm.grid_hole_radius_dict.items()):
        mp[k] = sp.sympify(v, locals={"grid_physical_size": G, "grid_hole_radius": H})

    def sub(e):
        e = sp.Symbol(e, real=True) if isinstance(e, str) else sp.sympify(e)
        return e.subs({s: (mp[str(s)] if str(s) in mp else sp.pi if str(s) == "PI" else s) for s in e.free_symbols}, simultaneous=True)
    lo, hi = [sub(e) for e in rfm.xxmin], [sub(e) for e in rfm.xxmax]
    X = [sub(e) for e in rfm.xx_to_Cart]

    def at(e, vals):
        e = e.subs(dict(zip(rfm.xx, vals)), simultaneous=True)
        return e.replace(sp.asinh, lambda u: sp.log(u + sp.sqrt(u ** 2 + 1)))
    q = [sp.Symbol(f"q{i}", positive=True) for i in range(3)]
    out = []
    if rfm.CoordSystem in ("Cartesian", "SinhCartesian"):
        for d in range(3):
            v = list(q)
            v[d] = hi[d]
            out.append((f"upper face {d} at +grid_physical_size", at(X[d], v), G))
            v[d] = lo[d]
            out.append((f"lower face {d} at -grid_physical_size", at(X[d], v), -G))
    elif "Cylindrical" in name:
        rho = X[0] ** 2 + X[1] ** 2
        out.append(("outer cylinder at grid_physical_size", at(rho, [hi[0], q[1], q[2]]), G ** 2))
        out.append(("axis", at(rho, [lo[0], q[1], q[2]]), 0))
        out.append(("top at +grid_physical_size", at(X[2], [q[0], q[1], hi[2]]), G))
        out.append(("bottom at -grid_physical_size", at(X[2], [q[0], q[1], lo[2]]), -G))
        out.append(("azimuth range 2 pi from -pi", lo[1], -PI))
        out.append(("azimuth range ends at pi", hi[1], PI))
    else:
        r2 = sum(e ** 2 for e in X)
        if "SymTP" in name:
            r2 = X[0] ** 2 + X[1] ** 2
            out.append(("outer spheroid has equatorial radius grid_physical_size", at(r2, [hi[0], PI / 2, q[2]]), G ** 2))
            out.append(("innermost surface is the focal line", at(r2, [lo[0], q[1], q[2]]), 0))
        else:
            out.append(("outer sphere at grid_physical_size", at(r2, [hi[0], q[1], q[2]]), G ** 2))
            out.append(("inner sphere", at(r2, [lo[0], q[1], q[2]]), H ** 2 if rfm.grid_hole_radius_dict else 0))
        ring = name in WEDGE + ("RingHoleySinhSpherical",)
        out.append(("polar range starts", lo[1], PI / 4 if ring else 0))
        out.append(("polar range ends", hi[1], 3 * PI / 4 if ring else PI))
        out.append(("azimuth range starts", lo[2], -PI / 4 if name in WEDGE else -PI))
        out.append(("azimuth range ends", hi[2], PI / 4 if name in WEDGE else PI))
    ctx.check("hole radius is a parameter exactly of the systems with a hole", bool(rfm.grid_hole_radius_dict) == ("Holey" in name or name in WEDGE), "exact", cex=str(rfm.grid_hole_radius_dict))
    for t, a, b in out:
        ctx.eq(t, a, b, budget=15)


FIELDS = [("detgammahat", 0), ("ReU", 1), ("ReD", 1), ("detgammahatdD", 1), ("ReDD", 2), ("ReUdD", 2), ("ReDdD", 2), ("ghatDD", 2), ("ghatUU", 2), ("detgammahatdDD", 2), ("ReDDdD", 3), ("ReUdDD", 3), ("ReDdDD", 3), ("ghatDDdD", 3),
          ("GammahatUDD", 3), ("ReDDdDD", 4), ("ghatDDdDD", 4), ("GammahatUDDdD", 4)]


def get(T, idx):
    for i in idx:
        T = T[i]
    return T


def u_pre(ctx, name):
    """the precomputed form, with each precomputed symbol replaced by its value, equals the direct form; generated tables hold these values"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.rfm_precompute as rp
    import nrpy.reference_metric as refmetric
    ctx.under("nrpy.reference_metric.ReferenceMetric (rfm_precompute)", "nrpy.infrastructures.BHaH.rfm_precompute.ReferenceMetricPrecompute", "nrpy.infrastructures.BHaH.rfm_precompute.register_CFunctions_rfm_precompute")
    pre = ctx.call("precompute", lambda: refmetric.reference_metric[name + "_rfm_precompute"])
    rfm = refmetric.reference_metric[name]
    B = dict(budget=40 if thorough() else 12)
    obj = ctx.call("ReferenceMetricPrecompute", rp.ReferenceMetricPrecompute, name)
    # 1. the tables: executed symbolically at an arbitrary index
    table, dims = {}, {}
    idxs = [cexec.CInt(sp.Symbol(f"i{d}", integer=True)) if hasattr(cexec, "CInt") else None for d in range(3)]
    txt = obj.rfm_struct__define
    blocks = re.findall(r"((?:for\s*\(\s*int i\d\s*=\s*0\s*;\s*i\d\s*<\s*Nxx_plus_2NGHOSTS\d\s*;\s*i\d\s*\+\+\s*\)\s*)+)\{([^{}]*)\}", txt)
    rest = re.sub(r"((?:for\s*\(\s*int i\d\s*=\s*0\s*;\s*i\d\s*<\s*Nxx_plus_2NGHOSTS\d\s*;\s*i\d\s*\+\+\s*\)\s*)+)\{([^{}]*)\}", "", txt)
    if rest.strip():
        raise HarnessError("unrecognised table code: " + rest[:300])
    for head, body in blocks:
        loops = re.findall(r"int i(\d)\s*=\s*0\s*;\s*i(\d)\s*<\s*Nxx_plus_2NGHOSTS(\d)\s*;\s*i(\d)", head)
        ok = all(len(set(l)) == 1 for l in loops) and len({l[0] for l in loops}) == len(loops)
        dirs = sorted(int(l[0]) for l in loops)
        ctx.check(f"table loop {head.strip()[:60]} runs over whole directions", ok, "structure", cex=head)
        m = re.search(r"rfmstruct->(\w+)\s*\[", body)
        body2 = re.sub(r"xx\[(\d)\]\[i(\d)\]", r"XX_\1_\2", body)
        body2 = re.sub(r"rfmstruct->(\w+)\s*\[([^\]]*)\]\s*=", r"REAL TABLE_\1 =", body2)
        key = re.search(r"rfmstruct->\w+\s*\[([^\]]*)\]\s*=", body).group(1)
        env = lambda k: sp.Symbol(k, real=True)
        ex = cexec.run_kernel(body2, resolver=lambda k: sp.Symbol(k, real=True) if re.fullmatch(r"\w+", k) and not k.startswith("TABLE_") else None)
        val = cexec.real(ex.lookup("TABLE_" + m.group(1)))
        val = val.subs({sp.Symbol(f"XX_{d}_{d}", real=True): sp.Symbol(f"xx{d}", real=True) for d in range(3)})
        table[m.group(1)] = val
        dims[m.group(1)] = (dirs, re.sub(r"\s", "", key))
    norm = {}

    def R(e):
        """all symbols real"""
        e = sp.sympify(e)
        return e.xreplace({s: sp.Symbol(str(s), real=True) for s in e.free_symbols})
    x = [sp.Symbol(f"xx{d}", real=True) for d in range(3)]
    names = sorted(table)
    ctx.check("no coordinate mismatch in the tables", not any("XX_" in str(v) for v in table.values()), "structure", cex=str(table))
    for n in names:
        base = n.split("__")[0]
        if not hasattr(rfm, base):
            raise HarnessError("unknown table " + n)
        want = R(getattr(rfm, base))
        if "__" in n:
            for d in re.search(r"\d+$", n).group(0):
                want = sp.diff(want, x[int(d)])
        ctx.eq(f"table {n} holds the derivative its name states", table[n], want, **B)
        dirs, key = dims[n]
        fd = sorted(int(str(s)[2:]) for s in table[n].free_symbols if re.fullmatch(r"xx\d", str(s)))
        ctx.check(f"table {n} is indexed by the coordinates it depends on", dirs == fd and key == ("i%d" % dirs[0] if len(dirs) == 1 else "i0+Nxx_plus_2NGHOSTS0*i1"), "structure", cex=f"{dirs} {fd} {key}")
        want_sz = "*".join(f"Nxx_plus_2NGHOSTS{d}" for d in dirs)
        mm = re.search(r"rfmstruct->%s\s*=\s*\(REAL\s*\*\)\s*malloc\(sizeof\(REAL\)\s*\*\s*(.*)\);" % n, obj.rfm_struct__malloc)
        ctx.check(f"table {n} allocation", bool(mm) and sp.expand(sp.sympify(mm.group(1)) - sp.sympify(want_sz)) == 0, "exact", cex=obj.rfm_struct__malloc)
        ctx.check(f"table {n} freed once and declared once", len(re.findall(r"free\(rfmstruct->%s\)" % n, obj.rfm_struct__freemem)) == 1 and sum(re.search(r"\*\s*restrict\s+%s;" % n, s) is not None for s in obj.BHaH_defines_list) == 1, "exact", cex=obj.rfm_struct__freemem)
        reads = {}
        for d in range(3):
            for kind, s in (("scalar", obj.readvr_str[d]), ("outer", obj.readvr_SIMD_outer_str[d]), ("inner", obj.readvr_SIMD_inner_str[d])):
                for m in re.finditer(r"(?:REAL|double|REAL_SIMD_ARRAY) (NOSIMD)?%s\s*=\s*(ReadSIMD\(&)?rfmstruct->(\w+)\[([^\]]*)\]" % n, s):
                    reads.setdefault(kind, []).append((d, m.group(3), re.sub(r"\s", "", m.group(4)), bool(m.group(1)), bool(m.group(2))))
                if kind == "outer" and any(r[0] == d for r in reads.get("outer", [])):
                    ctx.check(f"table {n} SIMD outer broadcast", re.search(r"REAL_SIMD_ARRAY %s\s*=\s*ConstSIMD\(NOSIMD%s\)" % (n, n), s) is not None, "structure", cex=s)
        d0 = 0 if len(dirs) > 1 else dirs[0]
        for kind in ("scalar", "outer", "inner"):
            got = reads.get(kind)
            ctx.check(f"table {n} read ({kind}) at its own index, in the loop of its coordinate", got is not None and len(got) == 1 and got[0][:3] == (d0, n, key), "structure", cex=str(got))
    # 2. precomputed expressions
    have = set(names)
    rep = {}
    for n in names:
        rep[sp.Symbol(n)] = table[n]
        rep[sp.Symbol(n, real=True)] = table[n]
    for f, rank in FIELDS:
        for idx in itertools.product(range(3), repeat=rank):
            e = sp.sympify(get(getattr(pre, f), idx))
            used = {str(s) for s in e.free_symbols if "_of_xx" in str(s)}
            if not used <= have:
                ctx.check(f"{f}{list(idx)}: every precomputed symbol has a table", False, "exact", cex=f"{used - have} in {e}")
                continue
            e2 = R(e.xreplace({s: rep[s] for s in e.free_symbols if s in rep}))
            ctx.eq(f"precomputed {f}{list(idx)}", e2, R(get(getattr(rfm, f), idx)), **B)
    for a in range(3):
        ctx.eq(f"precomputed xx_to_Cart {a}", R(pre.xx_to_Cart[a]), R(rfm.xx_to_Cart[a]), **B)
        ctx.eq(f"precomputed Cart_to_xx {a}", R(pre.Cart_to_xx[a]), R(rfm.Cart_to_xx[a]), **B)
        for i in range(3):
            ctx.eq(f"precomputed Jacobian {a}{i}", R(pre.Jac_dUCart_dDrfmUD[a][i]), R(rfm.Jac_dUCart_dDrfmUD[a][i]), **B)
            ctx.eq(f"precomputed inverse Jacobian {a}{i}", R(pre.Jac_dUrfm_dDCartUD[a][i]), R(rfm.Jac_dUrfm_dDCartUD[a][i]), **B)
            ctx.eq(f"precomputed UnitVectors {a}{i}", R(pre.UnitVectors[a][i]), R(rfm.UnitVectors[a][i]), **B)
    # 3. registered C functions
    cfc.CFunction_dict.clear()
    ctx.call("register_CFunctions_rfm_precompute", rp.register_CFunctions_rfm_precompute, [name])
    for fn, part in (("malloc", obj.rfm_struct__malloc), ("defines", obj.rfm_struct__define), ("free", obj.rfm_struct__freemem)):
        f = cfc.CFunction_dict.get(f"rfm_precompute_{fn}__rfm__{name}")
        ctx.check(f"rfm_precompute_{fn} carries the {fn} code", f is not None and f.body.split() == part.split(), "exact", cex=str(f and f.body))


def u_history(ctx):
    """requests are independent of order and of each other"""
    import nrpy.reference_metric as refmetric
    ctx.under("nrpy.reference_metric.rfm_dict")

    def dump(m):
        return [str(get(getattr(m, f), idx)) for f, r in FIELDS for idx in itertools.product(range(3), repeat=r)] + [str(m.xx_to_Cart), str(m.Cart_to_xx), str(m.xxmin), str(m.xxmax), str(m.UnitVectors), m.EigenCoord]
    names = ["Spherical", "SymTP", "SinhCylindrical", "Cartesian"]
    ref = {}
    for n in names:
        for suf in ("", "_rfm_precompute"):
            d = refmetric.rfm_dict()
            ref[n + suf] = dump(d[n + suf])
    for order in (names, names[::-1]):
        for suf in (("", "_rfm_precompute"), ("_rfm_precompute", "")):
            d = refmetric.rfm_dict()
            for n in order:
                for s in suf:
                    ctx.check(f"{n+s} in order {order} {suf}", dump(d[n + s]) == ref[n + s] and d[n + s] is d[n + s] and d[n + s].CoordSystem == n, "exact", bounded=True, cex=n + s)
    eig = {"Cartesian": ["Cartesian", "SinhCartesian", "LWedgeHSinhSph", "UWedgeHSinhSph"], "Spherical": ["Spherical", "SinhSpherical", "SinhSphericalv2n2", "RingHoleySinhSpherical", "HoleySinhSpherical"], "SymTP": ["SymTP", "SinhSymTP"],
           "Cylindrical": ["Cylindrical", "SinhCylindrical", "SinhCylindricalv2n2"]}
    for e, l in eig.items():
        for n in l:
            ctx.check(f"EigenCoord of {n}", refmetric.ReferenceMetric(n, False).EigenCoord == e, "exact", bounded=True)
    for bad in ("Foo", "SinhSphericalv2n3", "SinhCylindricalv2nx", "FooSpherical", "FooCylindrical", "FooSymTP"):
        ctx.raises(f"unknown system {bad}", lambda bad=bad: refmetric.ReferenceMetric(bad, False), ValueError)


def units():
    us = [Unit("history", u_history)]
    for n in coords.ALL + coords.EXTRA:
        w = 10 if "SymTP" in n else 5
        us.append(Unit(f"{n} geometry", u_coord, (n,), weight=w, timeout=3000))
        us.append(Unit(f"{n} precompute", u_pre, (n,), weight=w, timeout=3000))
    return us
