"""C09  Tensor declarations, symmetries and matrix inverters."""
import itertools
import random

import sympy as sp

from vf.core import Unit, thorough, SEED

LEVEL = "proof"
PREIMPORT = ["nrpy.indexedexp"]
ASSUMPTIONS = ["the inverters treat matrix entries as field elements: the generic symbolic matrix plus every zero pattern of it stands for all matrices"]
BOUNDS = ["dimensions 1..4 (rank 4: 1..3 quick, 4 thorough); every symmetry string made of one or two (anti)symmetrised index groups; symmetry axes: every subset of {0,1,2}; zero patterns of the inverters: all for 2x2/3x3, 300/2000 sampled plus structured ones for 4x4"]


def flat(T, rank, dim):
    out = {}
    for idx in itertools.product(range(dim), repeat=rank):
        t = T
        for i in idx:
            t = t[i]
        out[idx] = sp.sympify(t)
    return out


def groups(rank):
    """all single symmetry atoms: (kind, positions)"""
    out = []
    for n in range(2, rank + 1):
        for pos in itertools.combinations(range(rank), n):
            for kind in ("sym", "anti"):
                if n >= 3 and list(pos) != list(range(pos[0], pos[0] + n)):
                    pass
                out.append((kind, pos))
    return out


def adjacent_swaps(atoms):
    for kind, pos in atoms:
        for a, b in zip(pos, pos[1:]):
            yield (1 if kind == "sym" else -1), a, b


def orbit_spec(rank, dim, atoms, base):
    """canonical value of every component: sign * T[smallest index tuple of the orbit], 0 when a sign conflict forces it"""
    rep, sgn, zero = {}, {}, set()
    sw = list(adjacent_swaps(atoms))
    for idx in itertools.product(range(dim), repeat=rank):
        if idx in rep:
            continue
        rep[idx], sgn[idx] = idx, 1
        todo, members, bad = [idx], [idx], False
        while todo:
            x = todo.pop()
            for s, a, b in sw:
                y = list(x)
                y[a], y[b] = y[b], y[a]
                y = tuple(y)
                if y in rep and rep[y] == idx:
                    if sgn[y] != sgn[x] * s:
                        bad = True
                else:
                    rep[y], sgn[y] = idx, sgn[x] * s
                    todo.append(y)
                    members.append(y)
        if bad:
            zero.update(members)
    out = {}
    for idx in rep:
        out[idx] = sp.S.Zero if idx in zero else sgn[idx] * sp.Symbol(base + "".join(map(str, rep[idx])))
    return out


def u_sym(ctx, rank, dim):
    import nrpy.indexedexp as ixp
    ctx.under("nrpy.indexedexp.declare_indexedexp", f"nrpy.indexedexp.symmetrize_rank{rank}", f"nrpy.indexedexp.declarerank{rank}", "nrpy.indexedexp.create_tensor_symbolic")
    decl = {1: ixp.declarerank1, 2: ixp.declarerank2, 3: ixp.declarerank3, 4: ixp.declarerank4}[rank]
    symf = {2: ixp.symmetrize_rank2, 3: ixp.symmetrize_rank3, 4: ixp.symmetrize_rank4}.get(rank)
    at = groups(rank)
    combos = [()] + [(a,) for a in at]
    for a, b in itertools.permutations(at, 2):
        if not set(a[1]) & set(b[1]):
            combos.append((a, b))
    n = 0
    for atoms in combos:
        s = "_".join(k + "".join(map(str, p)) for k, p in atoms)
        want = orbit_spec(rank, dim, atoms, "tQ")
        variants = [("declared", lambda: decl("tQ", dimension=dim, **({"symmetry": s} if s else {})))]
        if not s:
            variants.append(("nosym", lambda: decl("tQ", dimension=dim, symmetry="nosym")))
            if dim == 3:
                variants.append(("default dimension", lambda: decl("tQ")))
        elif symf:
            variants.append(("symmetrized after declaration", lambda: symf(decl("tQ", dimension=dim), s, dim)))
        for tag, f in variants:
            got = flat(ctx.call(f"declarerank{rank}({s})", f), rank, dim)
            bad = [(i, got[i], want[i]) for i in want if sp.expand(got[i] - want[i]) != 0]
            ctx.check(f"rank {rank} dim {dim} '{s}' {tag}: every component is the signed component of the smallest index tuple of its orbit", not bad, "exhaustive-exact", cex=f"symmetry='{s}': (index, got, expected) {bad[:4]}")
            n += 1
    ctx.cover("symmetries exercised", n > 0)


def u_overlap(ctx):
    """two groups sharing an index: the declared symmetries must hold"""
    import nrpy.indexedexp as ixp
    ctx.under("nrpy.indexedexp.symmetrize_rank3")
    rank, dim = 3, 3
    for a, b in itertools.permutations(groups(rank), 2):
        if len(a[1]) == 2 and len(b[1]) == 2 and a[1] != b[1] and a[0] == b[0]:
            s = "_".join(k + "".join(map(str, p)) for k, p in (a, b))
            got = flat(ixp.declarerank3("tQ", dimension=dim, symmetry=s), rank, dim)
            bad = []
            for sg, x, y in adjacent_swaps((a, b)):
                for idx in got:
                    j = list(idx)
                    j[x], j[y] = j[y], j[x]
                    if sp.expand(got[idx] - sg * got[tuple(j)]) != 0:
                        bad.append((idx, got[idx], got[tuple(j)]))
            ctx.check(f"{s}: both symmetries hold", not bad, "exhaustive-exact", cex=f"{s}: {bad[:4]}")


def u_zero(ctx):
    """symmetry axes: exactly the derivative components along an axis vanish"""
    import nrpy.indexedexp as ixp
    import nrpy.params as par
    ctx.under("nrpy.indexedexp.zero_out_derivatives_across_symmetry_axes", "nrpy.indexedexp.get_rank")
    cases = [(1, "trK_dD", 1, ""), (1, "trK_dupD", 1, ""), (1, "trK_ddnD", 1, ""), (1, "trK_dKOD", 1, ""), (1, "betU", 0, ""), (2, "betU_dD", 1, ""), (2, "betU_dupD", 1, ""), (2, "betU_dKOD", 1, ""), (2, "trK_dDD", 2, ""), (2, "trK_dDD", 2, "sym01"),
             (2, "hDD", 0, "sym01"), (2, "hDD", 0, ""), (3, "hDD_dD", 1, "sym01"), (3, "hDD_dupD", 1, "sym01"), (3, "hDD_dKOD", 1, "sym01"), (3, "betU_dDD", 2, "sym12"), (3, "betU_dDD", 2, ""), (3, "GamUDD", 0, "sym12"),
             (4, "hDD_dDD", 2, "sym01_sym23"), (4, "hDD_dDD", 2, ""), (4, "RDDDD", 0, "anti01_anti23"), (4, "GamUDD_dD", 1, "sym12"), (3, "aDD_dD", 1, "anti01"), (4, "fDD_dDD", 2, "anti01_sym23")]
    decl = {1: ixp.declarerank1, 2: ixp.declarerank2, 3: ixp.declarerank3, 4: ixp.declarerank4}
    for axes in ["", "0", "1", "2", "01", "12", "02", "20", "012"]:
        for rank, name, nd, sym in cases:
            par.set_parval_from_str("symmetry_axes", "")
            ref = flat(decl[rank](name, dimension=3, **({"symmetry": sym} if sym else {})), rank, 3)
            par.set_parval_from_str("symmetry_axes", axes)
            got = flat(ctx.call("declare", decl[rank], name, dimension=3, **({"symmetry": sym} if sym else {})), rank, 3)
            bad = []
            for idx in ref:
                want = sp.S.Zero if nd and any(str(i) in axes for i in idx[-nd:]) else ref[idx]
                if got[idx] != want:
                    bad.append((idx, got[idx], want))
            ctx.check(f"symmetry_axes='{axes}' {name} {sym}: exactly the derivatives across the axes vanish", not bad, "exhaustive-exact", cex=f"(index, got, expected) {bad[:4]}")
            got2 = flat(ctx.call("zero_out", ixp.zero_out_derivatives_across_symmetry_axes, decl[rank](name, dimension=3, **({"symmetry": sym} if sym else {}))), rank, 3)
            ctx.check(f"symmetry_axes='{axes}' {name} {sym}: idempotent", got2 == got, "exhaustive-exact", cex=f"{got2}")
    par.set_parval_from_str("symmetry_axes", "1")
    ctx.raises("third derivatives rejected", lambda: ixp.declarerank3("trK_dDDD"), ValueError)
    par.set_parval_from_str("symmetry_axes", "")
    for dim in (1, 2, 3, 4):
        for rank, f in ((1, ixp.zerorank1), (2, ixp.zerorank2), (3, ixp.zerorank3), (4, ixp.zerorank4)):
            Z = f(dimension=dim)
            ctx.check(f"zerorank{rank}({dim}) is zero everywhere", all(v == 0 for v in flat(Z, rank, dim).values()) and ixp.get_rank(Z) == rank, "exhaustive-exact")
            # frame: components are distinct storage
            ok = True
            for idx in itertools.product(range(dim), repeat=rank):
                Z = f(dimension=dim)
                t = Z
                for i in idx[:-1]:
                    t = t[i]
                t[idx[-1]] = sp.Symbol("mark")
                vals = flat(Z, rank, dim)
                ok = ok and [i for i, v in vals.items() if v != 0] == [idx]
            ctx.check(f"zerorank{rank}({dim}): assigning one component changes no other", ok, "exhaustive-exact")
        for rank, f in decl.items():
            if dim ** rank > 81:
                continue
            ok = True
            for idx in itertools.product(range(dim), repeat=rank):
                Z = f("qQ", dimension=dim)
                before = flat(Z, rank, dim)
                t = Z
                for i in idx[:-1]:
                    t = t[i]
                t[idx[-1]] = sp.Symbol("mark")
                after = flat(Z, rank, dim)
                ok = ok and [i for i in before if before[i] != after[i]] == [idx]
            ctx.check(f"declarerank{rank}({dim}): assigning one component changes no other", ok, "exhaustive-exact")
        for rank, f in ((1, ixp.zerorank1), (2, ixp.zerorank2), (3, ixp.zerorank3), (4, ixp.zerorank4)):
            ctx.check(f"zerorank{rank}: default dimension is 3", len(flat(f(), rank, 3)) == 3 ** rank and len(f()) == 3, "exhaustive-exact") if dim == 1 else None
    for name, kw, exc in (("a-b!", dict(rank=1), ValueError), ("a", dict(rank=5), ValueError), ("a", dict(rank=0), ValueError), ("a", dict(), ValueError), ("a", dict(rank=2, DIM=3), ValueError), ("a", dict(rank=2, symmetry="foo01"), ValueError),
                          ("a", dict(rank=2, symmetry="sym02"), ValueError), ("a", dict(rank=3, symmetry="sym03"), ValueError), ("a", dict(rank=1, symmetry="sym01"), ValueError), (7, dict(rank=1), ValueError)):
        ctx.raises(f"declare_indexedexp({name!r}, {kw}) rejected", lambda name=name, kw=kw: ixp.declare_indexedexp(name, **kw), exc)
    for shape in ([2], [3], [2, 3], [2, 2, 2]):
        for ch, conv in (("", str), ("A", lambda n: chr(ord("A") + n)), ("x", lambda n: chr(ord("x") + n)), ("b", lambda n: chr(ord("b") + n))):
            T = ixp.create_tensor_symbolic(shape, "w", character_zero_index=ch)
            ok = True
            for idx in itertools.product(*[range(n) for n in shape]):
                t = T
                for i in idx:
                    t = t[i]
                ok = ok and t == sp.Symbol("w" + "".join(conv(i) for i in idx))
            ctx.check(f"create_tensor_symbolic({shape}, '{ch}') names its components by their indices", ok, "exhaustive-exact", cex=str(T))


def leibniz(M):
    n = len(M)
    tot = sp.S.Zero
    for p in itertools.permutations(range(n)):
        inv = sum(1 for i in range(n) for j in range(i + 1, n) if p[i] > p[j])
        t = sp.S.NegativeOne ** inv
        for i in range(n):
            t *= M[i][p[i]]
        tot += t
    return tot


def u_inv(ctx, n, symm):
    import nrpy.indexedexp as ixp
    fn = getattr(ixp, f"{'symm' if symm else 'generic'}_matrix_inverter{n}x{n}")
    ctx.under(f"nrpy.indexedexp.{fn.__name__}")
    gen = [[sp.Symbol(f"a{min(i, j)}{max(i, j)}" if symm else f"a{i}{j}") for j in range(n)] for i in range(n)]

    def contract(tag, A):
        D = sp.expand(leibniz(A))
        A0 = [list(r) for r in A]
        if D == 0:
            try:
                inv, det = fn(A)
            except ZeroDivisionError:
                ctx.check(f"{tag}: singular matrix rejected", True, "exact")
            else:
                # the determinant need not cancel structurally: then it must at least be identically zero
                ctx.check(f"{tag}: determinant of a singular matrix", sp.expand(det) == 0, "exact", cex=f"{A} -> {det}")
            return
        inv, det = ctx.call(fn.__name__, fn, A)
        ctx.check(f"{tag}: argument unchanged", A == A0, "exact")
        ctx.eq(f"{tag}: determinant = Leibniz formula", det, D)
        for i in range(n):
            for j in range(n):
                ctx.eq(f"{tag}: (A A^-1)[{i}][{j}]", sum(A[i][k] * inv[k][j] for k in range(n)), 1 if i == j else 0)

    contract("generic", gen)
    contract("real symbols", [[sp.Symbol(str(x), real=True) for x in r] for r in gen])
    free = [(i, j) for i in range(n) for j in range(n) if not symm or i <= j]
    pats = list(itertools.product((0, 1), repeat=len(free))) if len(free) <= (9 if thorough() else 6) else []
    rng = random.Random(SEED)
    if not pats:
        pats = [tuple(int(rng.random() < pr) for _ in free) for pr in (0.4, 0.6, 0.8) for _ in range(300 if thorough() else 25)]
    pats += [tuple(int(i == j) for i, j in free), tuple(int(i == j or i == 0 or j == 0) for i, j in free), tuple(int(i == n - 1 - j) for i, j in free)]
    for k, p in enumerate(dict.fromkeys(pats)):
        A = [[gen[i][j] if dict(zip(free, p))[(i, j) if not symm or i <= j else (j, i)] else sp.S.Zero for j in range(n)] for i in range(n)]
        contract(f"zero pattern {''.join(map(str, p))}", A)
    for k in range(12 if thorough() else 4):
        A = [[sp.Integer(0)] * n for _ in range(n)]
        for i, j in free:
            A[i][j] = sp.Rational(rng.randint(-9, 9), rng.randint(1, 5))
            if symm:
                A[j][i] = A[i][j]
        contract(f"numbers {k}", A)
    S = [[gen[0][0]] * n for _ in range(n)]
    contract("rank-one matrix", S)


def u_lc(ctx):
    import nrpy.indexedexp as ixp
    ctx.under("nrpy.indexedexp.LeviCivitaSymbol_dim3_rank3", "nrpy.indexedexp.LeviCivitaTensorUUU_dim3_rank3", "nrpy.indexedexp.LeviCivitaTensorDDD_dim3_rank3")
    q = sp.Symbol("sqrtdet")
    S, U, D = ixp.LeviCivitaSymbol_dim3_rank3(), ixp.LeviCivitaTensorUUU_dim3_rank3(q), ixp.LeviCivitaTensorDDD_dim3_rank3(q)
    for i, j, k in itertools.product(range(3), repeat=3):
        e = sp.LeviCivita(i, j, k)
        ctx.check(f"symbol {i}{j}{k}", S[i][j][k] == e, "exact", cex=str(S[i][j][k]))
        ctx.eq(f"UUU {i}{j}{k}", U[i][j][k], e / q)
        ctx.eq(f"DDD {i}{j}{k}", D[i][j][k], e * q)
    S[0][1][2] = 77
    ctx.check("each call returns fresh storage", ixp.LeviCivitaSymbol_dim3_rank3()[0][1][2] == 1 and ixp.LeviCivitaTensorDDD_dim3_rank3(q)[0][1][2] == q, "exact")


def units():
    us = [Unit(f"declare rank {r} dim {d}", u_sym, (r, d), weight=d ** r) for r in (1, 2, 3, 4) for d in (1, 2, 3, 4) if r < 4 or d < 4 or thorough()]
    us += [Unit("symmetry axes and storage", u_zero), Unit("Levi-Civita", u_lc), Unit("overlapping groups", u_overlap)]
    us += [Unit(f"{'symmetric' if s else 'generic'} inverter {n}", u_inv, (n, s), weight=50 * n) for n in (2, 3, 4) for s in (True, False)]
    return us
