"""Run generated Einstein Toolkit thorn functions (ETLegacy: C, CarpetX: C++) against a stand-in for the Cactus flesh.

The stand-in declares, for each scheduled function, exactly the variables its schedule entry names under READS (const) and WRITES,
as DECLARE_CCTK_ARGUMENTS_<function> does, and the parameters the thorn's functions registered; arrays are padded (ash > lsh)
with canaries.  External routines only record their arguments."""
import os
import re
import shutil
import subprocess
import tempfile

import numpy as np

from vf.native import SAN, _lift

XYZ, TXYZ = "xyz", "txyz"
FOREIGN = {
    "admbase::metric": [f"g{XYZ[i]}{XYZ[j]}" for i in range(3) for j in range(i, 3)],
    "admbase::curv": [f"k{XYZ[i]}{XYZ[j]}" for i in range(3) for j in range(i, 3)],
    "admbase::lapse": ["alp"], "admbase::shift": [f"beta{q}" for q in XYZ], "admbase::dtshift": [f"dtbeta{q}" for q in XYZ], "admbase::dtlapse": ["dtalp"],
    "tmunubase::stress_energy_scalar": ["eTtt"], "tmunubase::stress_energy_vector": [f"eTt{q}" for q in XYZ],
    "tmunubase::stress_energy_tensor": [f"eT{XYZ[i]}{XYZ[j]}" for i in range(3) for j in range(i, 3)],
    "grid::coordinates": ["x", "y", "z", "r"],
}
for k in list(FOREIGN):
    a, b = k.split("::")
    FOREIGN[f"{a}x::{b}"] = FOREIGN[k]


def groups():
    import nrpy.grid as gri
    g = {"evol_variables": [], "evol_variables_rhs": [], "auxevol_variables": [], "aux_variables": []}
    for n, gf in sorted(gri.glb_gridfcs_dict.items()):
        q = {"EVOL": "evol_variables", "AUXEVOL": "auxevol_variables", "AUX": "aux_variables"}[gf.group]
        g[q].append(n + "GF")
        if gf.group == "EVOL":
            g["evol_variables_rhs"].append(n + "_rhsGF")
    return g


class Entry:
    """one schedule block of a function"""

    def __init__(self, bin_, text, name):
        text = re.sub(r"#[^\n]*", "", text).replace("FUNC_NAME", name)
        self.bin = bin_
        m = re.search(r"(?:if\s*\((?P<c>[^{]*)\)\s*\{\s*)?schedule\s+" + re.escape(name) + r"\s+(?P<w>in|at)\s+(?P<b>\w+)(?P<o>[^{]*)\{(?P<body>[^}]*)\}", text)
        self.ok = bool(m)
        if not m:
            return
        self.cond, self.at = (m.group("c") or "").strip(), m.group("b")
        o = m.group("o")
        a = re.search(r"\bas\s+(\w+)", o)
        self.alias = a.group(1) if a else name
        ids = lambda k: [q for s in re.findall(rf"\b{k}\s+(\([^)]*\)|\w+)", o) for q in re.findall(r"\w+", s)]
        self.before, self.after = ids("before"), ids("after")
        body = re.sub(r"\b(LANG|OPTIONS|SYNC|READS|WRITES|TRIGGERS|STORAGE)\s*:", r"\n@\1:", m.group("body"))
        cl = {}
        for s in body.split("@")[1:]:
            k, v = s.split(":", 1)
            cl.setdefault(k, []).extend(q.strip() for q in v.split(",") if q.strip())
        self.clauses = cl
        self.lang = cl.get("LANG", [""])[0]

    def names(self, kind, grp):
        out, bad = {}, []
        for q in self.clauses.get(kind, []):
            m = re.fullmatch(r"([\w:]+)\s*(?:\(\s*(\w+)\s*\))?", q)
            if not m:
                bad.append(q)
                continue
            n, reg = m.group(1), m.group(2) or ""
            short = n.split("::")[-1]
            if n.lower() in FOREIGN:
                l = FOREIGN[n.lower()]
            elif short in grp:
                l = grp[short]
            elif any(short in v for v in grp.values()):
                l = [short]
            else:
                bad.append(q)
                continue
            for v in l:
                out[v] = reg
        return out, bad


CCTK = r"""
#pragma once
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#ifdef __cplusplus
#define restrict __restrict__
extern "C" {
#endif
typedef double CCTK_REAL; typedef int CCTK_INT; typedef const char *CCTK_STRING;
typedef struct { int cctk_lsh[3], cctk_ash[3], cctk_nghostzones[3]; double delta[3], cctk_time; } cGH;
#define CCTK_ARGUMENTS const cGH *restrict cctkGH
#define CCTK_ATTRIBUTE_UNUSED __attribute__((unused))
#define CCTK_ATTRIBUTE_NOINLINE __attribute__((noinline))
#define CCTK_ATTRIBUTE_ALWAYS_INLINE __attribute__((always_inline))
#define CCTK_DEVICE
#define CCTK_HOST
#define CCTK_DELTA_SPACE(d) (cctkGH->delta[d])
#define CCTK_ALL_FACES 63
#define CCTK_ERROR(m) do { printf("CCTK_ERROR %s\n", m); exit(77); } while (0)
#define CCTK_VERROR(...) do { printf("CCTK_ERROR "); printf(__VA_ARGS__); puts(""); exit(77); } while (0)
#define CCTK_VINFO(...) do { } while (0)
static inline int CCTK_GFINDEX3D(const cGH *g, int i, int j, int k) {
  if (i < 0 || j < 0 || k < 0 || i >= g->cctk_ash[0] || j >= g->cctk_ash[1] || k >= g->cctk_ash[2]) { printf("INDEX %d %d %d\n", i, j, k); fflush(stdout); abort(); }
  return i + g->cctk_ash[0] * (j + g->cctk_ash[1] * k); }
double *vf_var(const char *);
const void *CCTK_ParameterGet(const char *, const char *, int *);
int CCTK_GroupIndex(const char *);
int MoLRegisterEvolvedGroup(int, int);
int Driver_SelectVarForBC(const cGH *, int, int, int, const char *, const char *);
int Boundary_SelectVarForBC(const cGH *, int, int, int, const char *, const char *);
int SetCartSymVN(const cGH *, int *, const char *);
int ExtrapolateGammas(const cGH *, double *);
int NewRad_Apply(const cGH *, const double *, double *, double, double, int);
int Einstein_RegisterSlicing(const char *);
#ifdef __cplusplus
}
#endif
"""

LOOPX = r"""
#pragma once
#include "cctk.h"
namespace Loop {
struct vect { int d[3]; };
static inline vect operator+(vect a, vect b) { return {{a.d[0] + b.d[0], a.d[1] + b.d[1], a.d[2] + b.d[2]}}; }
static inline vect operator-(vect a, vect b) { return {{a.d[0] - b.d[0], a.d[1] - b.d[1], a.d[2] - b.d[2]}}; }
static inline vect operator*(int n, vect a) { return {{n * a.d[0], n * a.d[1], n * a.d[2]}}; }
struct PointDesc { vect I, DI[3]; int i, j, k; double x, y, z; };
template <class T> struct GF3D2 { T *p; const cGH *g; T &operator()(const vect &v) const { return p[CCTK_GFINDEX3D(g, v.d[0], v.d[1], v.d[2])]; } };
struct GridDesc {
  const cGH *g; const int *nghostzones;
  template <class F> void go(int all, const F &f) const {
    int lo[3], hi[3];
    for (int d = 0; d < 3; d++) { lo[d] = all ? 0 : nghostzones[d]; hi[d] = g->cctk_lsh[d] - lo[d]; }
    for (int k = lo[2]; k < hi[2]; k++) for (int j = lo[1]; j < hi[1]; j++) for (int i = lo[0]; i < hi[0]; i++) {
      PointDesc p = {{{i, j, k}}, {{{1, 0, 0}}, {{0, 1, 0}}, {{0, 0, 1}}}, i, j, k, i * g->delta[0], j * g->delta[1], k * g->delta[2]};
      f(p);
    }
  }
#define L(n, a) template <int A, int B, int C, class F> void n(const int *, const F &f) const { static_assert(A == 0 && B == 0 && C == 0, "vertex centred"); go(a, f); }
  L(loop_all, 1) L(loop_all_device, 1) L(loop_int, 0) L(loop_int_device, 0)
#undef L
};
}
"""

NEWRADX = r"""
#pragma once
#include "loop_device.hxx"
namespace NewRadX {
static inline void NewRadX_Apply(const cGH *g, Loop::GF3D2<const double> v, Loop::GF3D2<double> r, double v0, double s, double n) { NewRad_Apply(g, v.p, r.p, v0, s, (int)n); if (n != (int)n) puts("BADPOWER"); }
}
"""

MAIN = r"""
#include "cctk.h"
@PROTO@
#define NV @NV@
static const char *vn[] = {@NAMES@};
static double *vd[NV];
static cGH G;
static size_t NP;
#ifdef __cplusplus
extern "C" {
#endif
static const char *who(const double *p) { for (int i = 0; i < NV; i++) if (vd[i] == p) return vn[i]; return "?"; }
double *vf_var(const char *n) { for (int i = 0; i < NV; i++) if (!strcmp(vn[i], n)) return vd[i]; printf("NOVAR %s\n", n); exit(78); }
@PARAMDEFS@
const void *CCTK_ParameterGet(const char *n, const char *t, int *ty) { (void)ty; if (strcmp(t, "@THORN@")) { printf("BADTHORN %s %s\n", n, t); exit(79); }
@PGET@
  printf("NOPARAM %s\n", n); exit(79); }
static char grp[64][200]; static int ngrp;
int CCTK_GroupIndex(const char *n) { strcpy(grp[ngrp], n); return 100 + ngrp++; }
int MoLRegisterEvolvedGroup(int a, int b) { printf("MOL %s %s\n", grp[a - 100], grp[b - 100]); return 0; }
int Driver_SelectVarForBC(const cGH *g, int f, int w, int t, const char *v, const char *b) { printf("DRIVERBC %d %d %d %d %s %s\n", g == &G, f, w, t, v, b); return 0; }
int Boundary_SelectVarForBC(const cGH *g, int f, int w, int t, const char *v, const char *b) { printf("BOUNDARYBC %d %d %d %d %s %s\n", g == &G, f, w, t, v, b); return 0; }
int SetCartSymVN(const cGH *g, int *s, const char *v) { printf("SYM %d %d %d %d %s\n", g == &G, s[0], s[1], s[2], v); return 0; }
int ExtrapolateGammas(const cGH *g, double *v) { printf("EXTRAP %d %s\n", g == &G, who(v)); return 0; }
int NewRad_Apply(const cGH *g, const double *v, double *r, double v0, double s, int n) { printf("NEWRAD %d %s %s %.17g %.17g %d\n", g == &G, who(v), who(r), v0, s, n); return 0; }
int Einstein_RegisterSlicing(const char *n) { printf("SLICING %s\n", n); return 0; }
#ifdef __cplusplus
}
#endif
static void load(FILE *f) { for (int i = 0; i < NV; i++) if (fread(vd[i], 8, NP, f) != NP) exit(80); }
static void dump(FILE *f) { for (int i = 0; i < NV; i++) if (fwrite(vd[i], 8, NP, f) != NP) exit(81); }
int main(int argc, char **argv) {
  FILE *f = fopen("in.bin", "rb"), *o = fopen("out.bin", "wb");
  double h[13]; if (fread(h, 8, 13, f) != 13) return 82;
  for (int d = 0; d < 3; d++) { G.cctk_lsh[d] = h[d]; G.cctk_ash[d] = h[3 + d]; G.cctk_nghostzones[d] = h[6 + d]; G.delta[d] = h[9 + d]; }
  G.cctk_time = h[12];
  NP = (size_t)G.cctk_ash[0] * G.cctk_ash[1] * G.cctk_ash[2];
  for (int i = 0; i < NV; i++) vd[i] = (double *)malloc(8 * NP);
  (void)argc; (void)argv;
  load(f);
@CALLS@
  return 0;
}
"""


def pval(v):
    return v if isinstance(v, str) else repr(v)


class Thorn:
    """functions: names registered in CFunction_dict; params: name -> (C type, value)"""

    def __init__(self, carpetx, thorn, funcs, params, lsh, ng, dx, time, simd=False, pad=(3, 1, 0)):
        import nrpy.c_function as cfc
        self.cx, self.thorn, self.lsh, self.ng = carpetx, thorn, lsh, ng
        self.ash = [a + b for a, b in zip(lsh, pad)]
        self.dx, self.time = dx, time
        self.fn = {n: cfc.CFunction_dict[n] for n in funcs}
        self.grp = groups()
        self.entries = {n: [Entry(b, t, n) for b, t in (f.ET_schedule_bins_entries or [])] for n, f in self.fn.items()}
        self.vars = sorted({v for l in list(self.grp.values()) + list(FOREIGN.values()) for v in l})
        self.params, self.simd = params, simd
        self.bad = []

    def files(self):
        ext = ".cxx" if self.cx else ".c"
        fl = {"cctk.h": CCTK, "loop_device.hxx": LOOPX, "newradx.hxx": NEWRADX, "cctk_Faces.h": '#include "cctk.h"\n', "util_Table.h": "", "Slicing.h": '#include "cctk.h"\n', "Symmetry.h": '#include "cctk.h"\n'}
        arg = '#pragma once\n#include "cctk.h"\n' + ('#include "loop_device.hxx"\nextern "C" {\n' if self.cx else "")
        proto = ""
        for n, f in self.fn.items():
            if self.entries[n]:
                proto += f"{f.cfunc_type.replace(chr(34) + 'C' + chr(34), '').replace('extern', '').strip()} {n}({f.params});\n"
        arg += proto + ("}\n" if self.cx else "")
        for n, f in self.fn.items():
            rd, wr = {}, {}
            es = [e for e in self.entries[n] if e.ok]
            for k, e in enumerate(es):
                r, b1 = e.names("READS", self.grp)
                w, b2 = e.names("WRITES", self.grp)
                if b1 + b2:
                    self.bad.append((n, b1 + b2))
                # a function scheduled more than once may use only what every entry declares
                rd = r if k == 0 else {q: v for q, v in rd.items() if q in r}
                wr = w if k == 0 else {q: v for q, v in wr.items() if q in w}
            d = "const int *restrict cctk_lsh = cctkGH->cctk_lsh, *restrict cctk_nghostzones = cctkGH->cctk_nghostzones; const double cctk_time = cctkGH->cctk_time; (void)cctk_lsh; (void)cctk_nghostzones; (void)cctk_time; "
            x = d + "const Loop::GridDesc grid = {cctkGH, cctkGH->cctk_nghostzones}; (void)grid; "
            for v in sorted(set(rd) | set(wr)):
                c = "" if v in wr else "const "
                cast = f"({c}double *)"
                d += f'{c}double *{v} __attribute__((unused)) = {cast}vf_var("{v}"); '
                x += f'const Loop::GF3D2<{c}double> {v} __attribute__((unused)) = {{{cast}vf_var("{v}"), cctkGH}}; '
            arg += f"#define DECLARE_CCTK_ARGUMENTS_{n} {d}\n"
            if self.cx:
                arg += f"#define DECLARE_CCTK_ARGUMENTSX_{n} {x}\n"
        fl["cctk_Arguments.h"] = arg
        pd = "".join(f"const {t} {n} __attribute__((unused)) = {pval(v)}; " for n, (t, v) in self.params.items())
        fl["cctk_Parameters.h"] = '#pragma once\n#include "cctk.h"\n#define DECLARE_CCTK_PARAMETERS ' + pd + "\n"
        for n, f in self.fn.items():
            fl[n + ext] = f.full_function
        m = MAIN.replace("@PROTO@", ('extern "C" {\n' if self.cx else "") + proto + ("}\n" if self.cx else "")).replace("@NV@", str(len(self.vars))).replace("@NAMES@", ", ".join(f'"{v}"' for v in self.vars)).replace("@THORN@", self.thorn)
        m = m.replace("@PARAMDEFS@", "".join(f"static const {t} par_{n} = {pval(v)};\n" for n, (t, v) in self.params.items()))
        m = m.replace("@PGET@", "".join(f'  if (!strcmp(n, "{n}")) return &par_{n};\n' for n in self.params))
        calls = ""
        for n in self.order:
            f = self.fn[n]
            calls += f'  puts("CALL {n}"); {n}({"&G" if f.params.strip() else ""}); fflush(stdout); dump(o);\n'
        fl["main" + ext] = m.replace("@CALLS@", calls + "  fclose(o);")
        return fl

    def run(self, ctx, fields, order):
        """fields: variable -> array over ash (k, j, i); returns {function: {variable: array}} or None; log lines in self.log"""
        self.order = order
        ok = True
        for n in self.fn:
            es = self.entries[n]
            ok &= ctx.check(f"{n}: scheduled with well-formed entries", bool(es) and all(e.ok and e.lang == "C" for e in es) and self.fn[n].ET_thorn_name == self.thorn, "contract-exec", bounded=True, cex=str([getattr(e, "__dict__", "") for e in es])[:500])
        with tempfile.TemporaryDirectory() as t:
            fl = self.files()
            ctx.check("every variable named under READS or WRITES exists", not self.bad, "contract-exec", bounded=True, cex=str(self.bad))
            for n, c in fl.items():
                with open(os.path.join(t, n), "w", encoding="utf-8") as f:
                    f.write(c)
            import nrpy
            os.makedirs(t + "/simd")
            shutil.copy(os.path.join(os.path.dirname(nrpy.__file__), "helpers", "simd_intrinsics.h"), t + "/simd/simd_intrinsics.h")
            ext = ".cxx" if self.cx else ".c"
            cc = ["g++", "-std=c++17"] if self.cx else ["gcc", "-std=gnu99"]
            flags = ["-O1", "-w", "-I", t, "-Werror=implicit-function-declaration", "-Werror=incompatible-pointer-types", "-Werror=discarded-qualifiers"] if not self.cx else ["-O1", "-w", "-I", t]
            if self.simd:
                flags += ["-mavx2", "-mfma"]
            else:
                flags += SAN
            pr = []
            for n in [f for f in fl if f.endswith(ext)]:
                pr.append((n, subprocess.Popen([*cc, *flags, "-c", os.path.join(t, n), "-o", os.path.join(t, n + ".o")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, preexec_fn=_lift)))
            good = True
            for n, p in pr:
                o, _ = p.communicate()
                good &= ctx.check(f"{n[:-len(ext)]}: compiles with the variables its schedule entry declares and the thorn's parameters", p.returncode == 0, "compiler", bounded=True, cex=o[:1500])
            if not good:
                return None
            p = subprocess.run([cc[0], *(() if self.simd else SAN), *[os.path.join(t, n + ".o") for n, _ in pr], "-o", t + "/prog", "-lm"], capture_output=True, text=True, preexec_fn=_lift)
            if not ctx.check("the thorn links", p.returncode == 0, "compiler", bounded=True, cex=p.stderr[:1500]):
                return None
            sh = tuple(self.ash[::-1])
            self.canary = np.full(sh, -7.25e77)
            with open(t + "/in.bin", "wb") as f:
                np.array([*self.lsh, *self.ash, *self.ng, *self.dx, self.time], float).tofile(f)
                for v in self.vars:
                    a = self.canary.copy()
                    if v in fields:
                        a[tuple(slice(0, n) for n in self.lsh[::-1])] = fields[v]
                    a.tofile(f)
            p = subprocess.run([t + "/prog"], capture_output=True, text=True, cwd=t, preexec_fn=_lift, timeout=300, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
            self.log = [l.split() for l in p.stdout.splitlines()]
            if not ctx.check("the thorn's functions run to the end", p.returncode == 0, "native", bounded=True, cex=(p.stdout[-600:] + p.stderr[:800])):
                return None
            raw = np.fromfile(t + "/out.bin")
        n1 = int(np.prod(sh))
        raw = raw.reshape(len(order), len(self.vars), *sh)
        out, prev = {}, None
        self.calls = {}
        cur = None
        for l in self.log:
            if l and l[0] == "CALL":
                cur = l[1]
                self.calls[cur] = []
            elif cur:
                self.calls[cur].append(l)
        for i, n in enumerate(order):
            out[n] = {v: raw[i, k] for k, v in enumerate(self.vars)}
        return out

    def core(self, a):
        return a[tuple(slice(0, n) for n in self.lsh[::-1])]
