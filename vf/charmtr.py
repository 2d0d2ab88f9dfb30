"""Translate generated Charm++ interface files (.ci) to plain C++ that runs on the stand-in runtime in vf/charm.

Mechanical, on every run: `serial {..}` becomes a block, `when E(params) stmt` becomes a blocking wait on the queue of
entry E followed by stmt, entries with a body become member functions run on a fiber of their own, entries named in a
`when` become queues, every other entry is called when its message is delivered.  Anything outside this subset raises
Unsupported.
"""
import os
import re

HERE = os.path.join(os.path.dirname(os.path.abspath(__file__)), "charm")


class Unsupported(Exception):
    pass


def strip_comments(s):
    out, i = [], 0
    while i < len(s):
        if s[i] == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == "\\" else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith("//", i):
            while i < len(s) and s[i] != "\n":
                i += 1
        elif s.startswith("/*", i):
            i = s.index("*/", i) + 2
        else:
            out.append(s[i])
            i += 1
    return "".join(out)


def match(s, i):
    """index just after the bracket closing the one at s[i]"""
    op = s[i]
    cl = {"(": ")", "{": "}", "[": "]"}[op]
    d = 0
    while True:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == "\\" else 1
        elif c == "'":
            i += 1
            while s[i] != "'":
                i += 2 if s[i] == "\\" else 1
        elif c == op:
            d += 1
        elif c == cl:
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def split_args(s):
    out, d, cur = [], 0, ""
    for c in s:
        if c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        if c == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [o.strip() for o in out if o.strip() and o.strip() != "void"]


def param(p):
    """(kind, type, name, length): kind in val, arr, ptr"""
    m = re.match(r"^(.*?)([A-Za-z_]\w*)\s*\[(.*)\]$", p, re.S)
    if m:
        return "arr", m.group(1).replace("const", "").strip(), m.group(2), m.group(3).strip()
    m = re.match(r"^(.*?)\*\s*([A-Za-z_]\w*)?$", p, re.S)
    if m:
        return "ptr", m.group(1).strip(), m.group(2) or "", None
    m = re.match(r"^(.*?)([A-Za-z_]\w*)$", p.replace("&", " "), re.S)
    return "val", m.group(1).replace("const ", "").strip(), m.group(2), None


class Entry:
    def __init__(self, name, params, body, opts):
        self.name, self.params, self.body, self.opts = name, [param(p) for p in params], body, opts


def parse(text):
    """{class: [Entry]} and the text of the include statements"""
    s = strip_comments(text)
    includes = re.findall(r'\binclude\s+"([^"]+)"', s)
    messages = re.findall(r"\bmessage\s+(\w+)\s*;", s)
    classes = {}
    for m in re.finditer(r"\b(array\s*\[\s*3D\s*\]|mainchare|chare)\s+(\w+)\s*\{", s):
        b = s.index("{", m.end() - 1)
        e = match(s, b)
        inner = s[b + 1:e - 1]
        ents, i = [], 0
        while True:
            k = re.compile(r"\bentry\b\s*(\[[^\]]*\])?\s*(void\s+)?(\w+)\s*\(").search(inner, i)
            if not k:
                break
            if inner[i:k.start()].strip(" \n\t;"):
                raise Unsupported("text between entries: " + inner[i:k.start()].strip()[:80])
            pe = match(inner, k.end() - 1)
            ps = split_args(inner[k.end():pe - 1])
            j = pe
            while inner[j] in " \n\t":
                j += 1
            if inner[j] == "{":
                be = match(inner, j)
                ents.append(Entry(k.group(3), ps, inner[j:be], k.group(1) or ""))
                i = be
            elif inner[j] == ";":
                ents.append(Entry(k.group(3), ps, None, k.group(1) or ""))
                i = j + 1
            else:
                raise Unsupported("entry " + k.group(3))
        if inner[i:].strip(" \n\t;"):
            raise Unsupported("text after the entries: " + inner[i:].strip()[:80])
        classes[m.group(2)] = (m.group(1), ents)
    return classes, includes, messages


KW = re.compile(r"\b(serial|when|overlap|forall|case|atomic)\b")


def body(s, ents, used):
    """translate one SDAG body"""
    by = {e.name: e for e in ents}
    out, i = [], 0
    while True:
        m = KW.search(s, i)
        if not m:
            out.append(s[i:])
            return "".join(out)
        out.append(s[i:m.start()])
        w = m.group(1)
        j = m.end()
        if w in ("serial", "atomic"):
            k = re.compile(r'\s*("[^"]*")?\s*(?=\{)').match(s, j)
            if not k:
                raise Unsupported("serial without a block")
            e = match(s, k.end())
            out.append(s[k.end():e])          # C++ code, untouched
            i = e
        elif w == "when":
            heads = []
            while True:
                k = re.compile(r"\s*(\w+)\s*(\[)?").match(s, j)
                name = k.group(1)
                j = k.end()
                ref = None
                if k.group(2):
                    e = match(s, j - 1)
                    ref = s[j:e - 1]
                    j = e
                k = re.compile(r"\s*\(").match(s, j)
                e = match(s, k.end() - 1)
                heads.append((name, ref, split_args(s[k.end():e - 1])))
                j = e
                k = re.compile(r"\s*,").match(s, j)
                if not k:
                    break
                j = k.end()
            k = re.compile(r"\s*").match(s, j)
            j = k.end()
            if s[j] == "{":
                e = match(s, j)
                st = body(s[j:e], ents, used)
            elif s[j] == ";":
                e = j + 1
                st = ";"
            elif s.startswith("serial", j):
                b = s.index("{", j)
                e = match(s, b)
                st = s[b:e]
            else:
                raise Unsupported("when without a block")
            bind = ""
            for n, (name, ref, ps) in enumerate(heads):
                if name not in by:
                    raise Unsupported("when on an undeclared entry " + name)
                used.add(name)
                v = f"vf_m_{name}_{n}"
                bind += f"auto {v} = " + (f"vf::wait_ref(vf_s().q_{name}, (long)({ref}));" if ref else f"vf::wait(vf_s().q_{name});")
                for a, p in enumerate(ps):
                    kind, ty, nm, _ = param(p)
                    if not nm:
                        continue
                    if kind == "arr":
                        bind += f" {ty} *{nm} = {v}.a{a}.data();"
                    elif kind == "ptr":
                        bind += f" {ty} *{nm} = ({ty} *){v}.a{a};"
                    else:
                        bind += f" {ty} {nm} = {v}.a{a};"
            out.append("{ " + bind + " " + st + " }")
            i = e
        else:
            raise Unsupported(w)


def translate(d, dump):
    """write decl.h and def.h for main.ci and timestepping.ci in d; dump is C++ run as a member of Timestepping at the end"""
    with open(os.path.join(d, "timestepping.ci"), encoding="utf-8") as f:
        tci = f.read()
    with open(os.path.join(d, "main.ci"), encoding="utf-8") as f:
        mci = f.read()
    cl, inc, msgs = parse(tci)
    if msgs:
        raise Unsupported("messages")
    (kind, ents), = cl.values()
    C, = cl
    used = set()
    defs = ""
    for e in ents:
        if e.body is not None:
            args = ", ".join(f"{t} *{n}" if k != "val" else f"{t} {n}" for k, t, n, _ in e.params)
            defs += f"void {C}::{e.name}({args}) {body(e.body, ents, used)}\n"
    names = [e.name for e in ents if e.name != C]
    if len(set(names)) != len(names):
        raise Unsupported("overloaded entries")
    ctor = [e for e in ents if e.name == C]
    decl = '#ifndef VF_DECL_%s\n#define VF_DECL_%s\n#include "charm++.h"\n' % (C, C) + "".join(f'#include "{h}"\n' for h in inc)
    decl += f"class {C};\n"
    for e in ents:
        if e.name == C:
            continue
        decl += f"struct M_{e.name} {{ " + " ".join(f"std::vector<{t}> a{i};" if k == "arr" else f"{t} *a{i};" if k == "ptr" else f"{t} a{i};" for i, (k, t, n, _) in enumerate(e.params)) + " };\n"
    decl += f"struct VfState_{C} : vf::State {{ " + " ".join(f"std::deque<M_{e.name}> q_{e.name};" for e in ents if e.name != C) + " };\n"
    decl += f"void vf_deliver_ep_{C}(int ep, int dst, CkMessage *m);\n"
    sig, fwd = {}, {}
    for e in ents:
        if e.name == C:
            continue
        decl += f"void vf_deliver_{e.name}(int dst, const M_{e.name} &m);\n"
        sig[e.name] = ", ".join(f"const {t} *x{i}" if k == "arr" else f"{t} *x{i}" if k == "ptr" else f"{t} x{i}" for i, (k, t, n, _) in enumerate(e.params))
        lens = {n: f"x{i}" for i, (k, t, n, _) in enumerate(e.params)}

        def ln(expr):
            return re.sub(r"[A-Za-z_]\w*", lambda m: lens.get(m.group(0), m.group(0)), expr)
        fwd[e.name] = f"M_{e.name} m; " + " ".join(f"m.a{i}.assign(x{i}, x{i} + ({ln(L)}));" if k == "arr" else f"m.a{i} = x{i};" for i, (k, t, n, L) in enumerate(e.params))
    decl += f"struct CProxyElement_{C} {{ int idx = -1; void vf_ep(int ep, CkMessage *m) const {{ int d = idx; vf::send(d, [=] {{ vf_deliver_ep_{C}(ep, d, m); }}); }}\n"
    for n in names:
        decl += f"  void {n}({sig[n]}) const {{ {fwd[n]} int d = idx; vf::send(d, [d, m] {{ vf_deliver_{n}(d, m); }}, \"{n}\"); }}\n"
    decl += "};\n"
    decl += f"struct CProxy_{C} {{ void *ckGetArrayID() const {{ return 0; }}\n"
    decl += f"  CProxyElement_{C} operator[](const CkArrayIndex3D &i) const {{ return (*this)(i.x, i.y, i.z); }}\n"
    decl += (f"  CProxyElement_{C} operator()(int x, int y, int z) const {{ if (x < 0 || y < 0 || z < 0 || x >= vf::N[0] || y >= vf::N[1] || z >= vf::N[2]) "
             f'{{ fprintf(stderr, "VFERR message to chare (%d,%d,%d), which does not exist\\n", x, y, z); exit(78); }} CProxyElement_{C} e; e.idx = x + vf::N[0] * (y + vf::N[1] * z); return e; }}\n')
    decl += f"  void vf_ep(int ep, CkMessage *m) const {{ for (int d = 0; d < vf::NT; d++) {{ CkMessage *c = m ? m->clone() : 0; vf::send(d, [=] {{ vf_deliver_ep_{C}(ep, d, c); }}); }} delete m; }}\n"
    for n in names:
        decl += f"  void {n}({sig[n]}) const {{ {fwd[n]} for (int d = 0; d < vf::NT; d++) vf::send(d, [d, m] {{ vf_deliver_{n}(d, m); }}, \"{n}\"); }}\n"
    cp = ctor[0].params
    decl += "  static CProxy_%s ckNew(%s, int n0, int n1, int n2);\n};\n" % (C, ", ".join(f"const {t} &x{i}" for i, (k, t, n, _) in enumerate(cp)))
    decl += f"struct CkIndex_{C} {{ " + " ".join(f"template <class... A> static int {n}(A...) {{ return {i}; }}" for i, n in enumerate(names)) + " };\n"
    decl += f"""class CBase_{C} {{ public: VfState_{C} *vf_st; CkArrayIndex3D thisIndex; CProxy_{C} thisProxy; bool usesAtSync;
  CBase_{C}() {{ thisIndex = vf::creating; }} CBase_{C}(CkMigrateMessage *) {{ thisIndex = vf::creating; }} virtual ~CBase_{C}() {{}}
  int vf_id() const {{ return thisIndex.x + vf::N[0] * (thisIndex.y + vf::N[1] * thisIndex.z); }}
  VfState_{C} &vf_s();
  virtual void pup(PUP::er &p) {{}} void __sdag_pup(PUP::er &p) {{}}
  void contribute(std::vector<double> &v, CkReduction::reducerType t, const CkCallback &cb) {{ vf::contribute(vf_id(), v, t, cb); }}
  void contribute(size_t n, const void *v, CkReduction::reducerType t, const CkCallback &cb) {{ const double *q = (const double *)v; vf::contribute(vf_id(), std::vector<double>(q, q + n / sizeof(double)), t, cb); }}
  void contribute(const CkCallback &cb) {{ vf::contribute(vf_id(), std::vector<double>(), CkReduction::sum_double, cb); }} }};
"""
    decls = " ".join(f"void {e.name}({', '.join(f'{t} *{n}' if k != 'val' else f'{t} {n}' for k, t, n, _ in e.params)});" for e in ents if e.body is not None)
    decl += f"#define {C}_SDAG_CODE public: {decls} void vf_dump(FILE *vf_out);\n#endif\n"
    # definitions
    df = f"static std::vector<{C} *> vf_objs; static std::vector<VfState_{C} *> vf_states;\nVfState_{C} &CBase_{C}::vf_s() {{ return *vf_states.at(vf_id()); }}\n" + defs
    ep = ""
    for i, e in enumerate(x for x in ents if x.name != C):
        if e.body is not None:
            call = ", ".join(f"({t} *)mm->a{a}" + (".data()" if k == "arr" else "") if k != "val" else f"mm->a{a}" for a, (k, t, n, _) in enumerate(e.params))
            df += f"void vf_deliver_{e.name}(int dst, const M_{e.name} &m) {{ auto mm = std::make_shared<M_{e.name}>(m); {C} *o = vf_objs.at(dst); vf::spawn(dst, [o, mm] {{ o->{e.name}({call}); }}); }}\n"
        elif e.name in used:
            df += f"void vf_deliver_{e.name}(int dst, const M_{e.name} &m) {{ vf_states.at(dst)->q_{e.name}.push_back(m); }}\n"
        else:
            call = ", ".join(f"({t} *)m.a{a}" + (".data()" if k == "arr" else "") if k != "val" else f"m.a{a}" for a, (k, t, n, _) in enumerate(e.params))
            # an entry that is declared but never waited for: a member function if the class has one
            df += f"template <class T> auto vf_call_{e.name}(T *o, const M_{e.name} &m, int) -> decltype(o->{e.name}({call})) {{ return o->{e.name}({call}); }}\ntemplate <class T> void vf_call_{e.name}(T *, const M_{e.name} &, long) {{}}\n"
            df += f"void vf_deliver_{e.name}(int dst, const M_{e.name} &m) {{ vf_call_{e.name}(vf_objs.at(dst), m, 0); }}\n"
        if not e.params:
            ep += f"case {i}: {{ M_{e.name} q; delete m; vf_deliver_{e.name}(dst, q); break; }}\n"
        elif len(e.params) == 1 and e.params[0][0] == "ptr":
            ep += f"case {i}: {{ M_{e.name} q; q.a0 = dynamic_cast<{e.params[0][1]} *>(m); if (!q.a0) {{ fprintf(stderr, \"VFERR wrong message type for {e.name}\\n\"); exit(79); }} vf_deliver_{e.name}(dst, q); break; }}\n"
    df += f"void vf_deliver_ep_{C}(int ep, int dst, CkMessage *m) {{ switch (ep) {{ {ep} default: fprintf(stderr, \"VFERR callback to entry %d\\n\", ep); exit(80); }} }}\n"
    df += f"void {C}::vf_dump(FILE *vf_out) {{ {dump} }}\n"
    mk = ", ".join(f"x{i}" for i in range(len(cp)))
    cpx = ", ".join(f"const {t} &x{i}" for i, (k, t, n, _) in enumerate(cp))
    # the constructor's argument travels in a message, so it is packed and unpacked
    trip = "".join(f"{t} y{i} = vf_trip(x{i}); " for i, (k, t, n, _) in enumerate(cp))
    ys = ", ".join(f"std::move(y{i})" for i in range(len(cp)))
    df += f"""template <class T> static T vf_trip(const T &x) {{ T &s = const_cast<T &>(x); PUP::er z(PUP::er::SIZING, 0); s.pup(z); std::vector<char> b(z.pos); PUP::er w(PUP::er::PACKING, &b); s.pup(w); T t; memset((void *)&t, 0x5b, sizeof t); PUP::er r(PUP::er::UNPACKING, &b); t.pup(r); return t; }}
CProxy_{C} CProxy_{C}::ckNew({cpx}, int n0, int n1, int n2) {{
  vf::N[0] = n0; vf::N[1] = n1; vf::N[2] = n2; vf::NT = n0 * n1 * n2;
  for (int k = 0; k < n2; k++) for (int j = 0; j < n1; j++) for (int i = 0; i < n0; i++) {{
    vf::creating = CkArrayIndex3D(i, j, k); vf_states.push_back(new VfState_{C});
    void *mem = malloc(sizeof({C})); memset(mem, 0, sizeof({C}));
    {trip}
    vf_objs.push_back(new (mem) {C}({ys})); }}
  vf::migratable.push_back([](int) {{
    for (auto *o : vf_objs) {{
      PUP::er z(PUP::er::SIZING, 0); o->pup(z);
      std::vector<char> b(z.pos); PUP::er w(PUP::er::PACKING, &b); o->pup(w);
      if (w.pos != z.pos) {{ fprintf(stderr, "VFERR pup: sizing and packing differ\\n"); exit(81); }}
      vf::creating = o->thisIndex;
      memset((void *)o, 0xab, sizeof({C})); new ((void *)o) {C}((CkMigrateMessage *)0);
      PUP::er r(PUP::er::UNPACKING, &b); o->pup(r);
      if (r.pos != w.pos) {{ fprintf(stderr, "VFERR pup: unpacking reads %zu of %zu bytes\\n", r.pos, w.pos); exit(82); }}
    }} }});
  vf::finished = [] {{ FILE *f = fopen("state.bin", "wb"); for (auto *o : vf_objs) o->vf_dump(f); fclose(f); }};
  return CProxy_{C}(); }}
"""
    mcl, minc, _ = parse(mci)
    (mk_, ment), = mcl.values()
    M, = mcl
    md = f'#ifndef VF_DECL_{M}\n#define VF_DECL_{M}\n#include "charm++.h"\n' + "".join(f'#include "{h}"\n' for h in minc) + f"class {M};\nstruct CProxy_{M} {{ "
    md += " ".join(f"void {e.name}() const;" for e in ment if e.name != M) + f" }};\nclass CBase_{M} {{ public: CProxy_{M} thisProxy; CBase_{M}() {{}} CBase_{M}(CkMigrateMessage *) {{}} }};\n#endif\n"
    mdef = f"static {M} *vf_main;\n" + "".join(f"void CProxy_{M}::{e.name}() const {{ vf::send(-1, [] {{ vf_main->{e.name}(); }}); }}\n" for e in ment if e.name != M)
    mdef += f"void vf_start_main(CkArgMsg *m) {{ vf_main = new {M}(m); }}\n"
    for n, t in (("timestepping.decl.h", decl), ("timestepping.def.h", df), ("main.decl.h", md), ("main.def.h", mdef)):
        with open(os.path.join(d, n), "w", encoding="utf-8") as f:
            f.write(t)
    for n in os.listdir(HERE):
        with open(os.path.join(HERE, n), encoding="utf-8") as f, open(os.path.join(d, n if n != "rt.cpp" else "vf_rt.cpp"), "w", encoding="utf-8") as g:
            g.write(f.read())
