"""C17  The generated parameter-file and command-line parser sets exactly what the user wrote, and the default parameter file means the defaults."""
import itertools
import os
import re
import struct
import subprocess
import tempfile

from vf import bhah, native
from vf.core import Unit

LEVEL = "other"
EXPLANATION = ("The generated parser is C string code. Its helpers are put under contracts and checked by CBMC for every content of the buffers at scaled-down buffer sizes (bounded); the whole parser is compiled from the generated text, run under "
               "AddressSanitizer/UBSan on an enumerated grammar of parameter files and argument vectors and compared with the contract's reference reading (bounded). The tables the generator emits are compared with the registry for all parameters.")
PREIMPORT = ["nrpy.infrastructures.BHaH.cmdline_input_and_parfiles", "nrpy.infrastructures.BHaH.CodeParameters"]
ASSUMPTIONS = ["lines of the parameter file have at most 1023 characters; scalar values and names at most 127", "'#' starts a comment everywhere, also inside a quoted string; strings contain no double quote",
               "numbers are decimal; hexadecimal, inf, nan and subnormal input is not specified", "at least one commondata parameter is registered", "CBMC: the buffer sizes are scaled down (LINE_SIZE 12-24, PARAM_SIZE 6-20, MAX_ARRAY_SIZE 3); the code uses them only through the macros"]
BOUNDS = ["parameter files and argument vectors from an enumerated grammar", "CBMC: every content of the scaled-down buffers"]
TRUSTED = ["CBMC 6.11 and its C library models", "gcc and its address/undefined-behaviour sanitizers"]
M = "nrpy.infrastructures.BHaH.cmdline_input_and_parfiles."

SETS = {
    "one of each": ([("REAL", "a", 1.5), ("int", "n", 2), ("bool", "flag", True), ("char[20]", "s", "hey"), ("REAL[3]", "r", -0.25), ("int[2]", "k", 4), ("REAL", "a_b1", 1e-30), ("int", "n2", -7), ("char[5]", "s2", "abcd")], ["a", "n"]),
    "reals only": ([("REAL", "CFL_FACTOR", 0.5), ("REAL", "t_final", 1.5e10), ("REAL", "A", -3.0), ("REAL", "zero", 0.0)], ["CFL_FACTOR"]),
    "no steerable": ([("int", "Nr", 64), ("REAL", "eta", 2.0), ("bool", "off", False)], []),
    "strings": ([("char[200]", "big", "p q/r-s.txt"), ("char[4]", "bc", "abc"), ("int", "i", 0)], ["bc", "big", "i"]),
    "bool steerable": ([("bool", "go", False), ("REAL", "x", 0.1)], ["go", "x"]),
    "every kind steerable, out of order": ([("int", "n", 3), ("bool", "go", False), ("REAL", "x", 0.1), ("char[8]", "c", "abc"), ("bool", "stop", True), ("int", "m", 5), ("REAL", "y", 2.0)], ["y", "n", "stop", "x", "c", "go", "m"]),
    "long arrays": ([("REAL[40]", "w", 0.125), ("int[100]", "ids", -12), ("REAL", "x", 3.25)], ["x"]),
}


def register(params):
    import nrpy.params as par
    bhah.reset()
    par.glb_code_params_dict.clear()
    for j, (t, n, d) in enumerate(params):
        arr = t.startswith(("REAL[", "int["))
        par.register_CodeParameter(t, f"mod{j % 2}", n, d, commondata=True, add_to_parfile=True, add_to_set_CodeParameters_h=not arr and not t.startswith("char"), description=["", f"what {n} is", "units = M # of course"][j % 3])
    par.register_CodeParameter("int", "nrpy.grid", "NUMGRIDS", 1, commondata=True, add_to_parfile=False)
    # neighbours the parser must not know about
    par.register_CodeParameter("REAL", "mod0", "per_grid", 1.0, commondata=False, add_to_parfile=True)
    par.register_CodeParameter("REAL", "mod1", "internal", 1.0, commondata=True, add_to_parfile=False)


MAIN = r"""
FILE *list = fopen(argv[1], "r");
size_t cap = 1 << 22;
char *all = calloc(cap, 1), *nx = all;
fread(all, 1, cap - 1, list);
fclose(list);
int k = 0;
while (*nx) {
  char *line = nx;
  nx += strcspn(nx, "\n");
  if (*nx) *nx++ = 0;
  char *av[40]; int ac = 1; av[0] = (char *)"vfproj";
  char *sp, *dir = strtok_r(line, "\001", &sp), *t;
  while ((t = strtok_r(NULL, "\001", &sp))) av[ac++] = t;
  av[ac] = NULL;
  fflush(NULL);
  pid_t p = fork();
  if (p == 0) {
    if (chdir(dir)) _exit(9);
    if (!freopen("stderr", "w", stderr)) _exit(9);
    commondata_struct *c = malloc(sizeof *c);
    if (getenv("VF_DEFAULTS") || strstr(dir, "default")) commondata_struct_set_to_default(c); else memset(c, 0x5a, sizeof *c);
    cmdline_input_and_parfile_parser(c, ac, (const char **)av);
    FILE *o = fopen("out", "w");
@DUMP@
    fclose(o);
    fflush(NULL);
    _exit(42);
  }
  int st; waitpid(p, &st, 0);
  printf("%d %d %d\n", k++, WIFEXITED(st) ? WEXITSTATUS(st) : -1, WIFSIGNALED(st) ? WTERMSIG(st) : 0);
}
return 0;
"""


def project(ctx, name):
    """generate, write and compile a program around the generated parser"""
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as ci
    params, steer = SETS[name]
    register(params)
    ctx.under(M + "register_CFunction_cmdline_input_and_parfile_parser")
    ctx.call("parser registration", ci.register_CFunction_cmdline_input_and_parfile_parser, project_name="vfproj", cmdline_inputs=list(steer))
    dump = ""
    for t, n, _ in params:
        dump += f'    fprintf(o, "{n} "); for (size_t q = 0; q < sizeof c->{n}; q++) fprintf(o, "%02x", ((unsigned char *)&c->{n})[q]); fprintf(o, "\\n");\n'
    cfc.register_CFunction(name="main", desc="d", cfunc_type="int", params="int argc, char *argv[]", includes=["BHaH_defines.h", "BHaH_function_prototypes.h", "<unistd.h>", "<sys/wait.h>", "<string.h>", "<stdlib.h>"], body=MAIN.replace("@DUMP@", dump))
    d = tempfile.mkdtemp(prefix="c17.")
    ctx.call("project files", bhah.write, d)
    err = bhah.compile_(d)
    ctx.check("the generated parser compiles", not err, "gcc", cex=err[:1500], bounded=True)
    return (d, params, steer) if not err else (d, None, None)


class Reject(Exception):
    pass


WS = " \t\n\v\f\r"


def rd(t, v, raw=True):
    """contract: the value that text v means for a parameter of type t, or Reject"""
    if len(v) > 127:
        raise Reject
    if t == "int":
        if not re.fullmatch(r"[+-]?\d+", v) or not -2**31 <= int(v) < 2**31:
            raise Reject
        return int(v)
    if t == "REAL":
        if not re.fullmatch(r"[+-]?(\d+\.?\d*|\.\d+)([eE][+-]?\d+)?", v) or abs(float(v)) == float("inf"):
            raise Reject
        return float(v)
    if t == "bool":
        if v.lower() not in ("true", "false", "0", "1"):
            raise Reject
        return v.lower() in ("true", "1")
    n = int(t[5:-1])
    if v[:1] == '"' and v[-1:] == '"':
        if len(v) < 2:
            raise Reject
        v = v[1:-1]
    if len(v) >= n or len(v) > 127:
        raise Reject
    return v


def reference(text, params, steer, args):
    """contract of the parser: {name: value} of the parameters that are set, or Reject"""
    types = {n: t for t, n, _ in params}
    out = {}
    for ln in text.split("\n"):
        ln = ln.split("#")[0]
        if "=" not in ln:
            continue
        k, v = (x.strip(WS) for x in ln.split("=", 1))
        m = re.fullmatch(r"([^\[]*)\[([^\]]*)\]", k)
        size = 0
        if m:
            k = m.group(1)
            if not re.match(r"\s*[+]?0*[1-9]\d*", m.group(2)) or len(m.group(2)) > 15:
                raise Reject
            size = int(re.match(r"\s*[+]?(\d+)", m.group(2)).group(1))
        elif "[" in k:
            raise Reject
        if not re.fullmatch(r"[A-Za-z0-9_]*", k):
            raise Reject
        if v[:1] == "{":
            if v[-1:] != "}" or len(v) < 2:
                raise Reject
            vals = [x.strip(WS) for x in v[1:-1].split(",") if x != ""]
        else:
            vals = [v]
        if k not in types:
            continue
        if k in out:
            raise Reject
        t = types[k]
        a = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
        if a:
            if size != int(a.group(2)) or len(vals) != size:
                raise Reject
            out[k] = [rd(a.group(1), x) for x in vals]
        else:
            if size or len(vals) != 1:
                raise Reject
            out[k] = rd(t, vals[0])
    for k, v in zip(steer, args):
        out[k] = rd(types[k], v)
    return out


def enc(t, v):
    a = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
    if a:
        return b"".join(enc(a.group(1), x) for x in v)
    if t == "REAL":
        return struct.pack("d", v)
    if t == "int":
        return struct.pack("i", v)
    if t == "bool":
        return bytes([bool(v)])
    return v.encode() + b"\0"


def grammar(params, steer):
    """(label, text or None, argument list) cases of the input grammar"""
    good = {"REAL": ["1", "-2.5", "3.0e-5", "+0.1", "1e300", "0", "-1.7976931348623157e308", "12345678901234567890.5", ".5", "7."], "int": ["0", "-1", "2147483647", "-2147483648", "+7", "0012"],
            "bool": ["true", "False", "0", "1", "TRUE"]}
    bad = {"REAL": ["", "abc", "1.0x", "1.0 2.0", "1e400", "--1", "1,5", '"1.0"', "true"], "int": ["", "1.5", "x", "2147483648", "-2147483649", "99999999999999999999", "3 4", "1e3", "0x"], "bool": ["yes", "2", "", "tru", "truefalse"]}

    def ok(t, j=0):
        a = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
        if a:
            g = good[a.group(1)]
            return "{" + ", ".join(g[(i * 3 + j) % 3] for i in range(int(a.group(2)))) + "}"
        if t.startswith("char"):
            return ['"xy"', "uvw", '"a=b"', '""', '" q"'][j % 5] if int(t[5:-1]) > 3 else "x"
        return good[t][j % len(good[t])]

    def nm(t, n):
        a = re.fullmatch(r"(REAL|int)(\[\d+\])", t)
        return n + (a.group(2) if a else "")
    allok = "".join(f"{nm(t, n)} = {ok(t)}\n" for t, n, _ in params)
    out = [("empty file", "", []), ("blank lines and comments", "\n   \n# nothing = here\n\t\n  # x\n", []), ("all parameters", allok, []), ("all parameters, reversed", "\n".join(reversed(allok.split("\n"))), []),
           ("no final newline", allok.rstrip("\n"), []), ("unknown name", "whatsit = 3\n" + allok, []), ("unknown name last", allok + "whatsit[3] = {1,2,3}\n", []), ("not a commondata parameter", allok + "per_grid = 2.0\ninternal = 3.0\n", []),
           ("bad name", "a-b = 3\n", []), ("name with blank", "a b = 3\n", []), ("long name", "x" * 127 + " = 3\n", []), ("too long name", "x" * 200 + "= 3\n", []), ("line without =", "hello\n" + allok, []), ("CRLF", allok.replace("\n", "\r\n"), [])]
    for t, n, _ in params:
        k, v = nm(t, n), ok(t)
        for j, f in enumerate(["{k}={v}", "  {k}\t=\t{v}  ", "{k} = {v}# tail", "{k} = {v} # a = 5", "\f{k} = {v}\v", "{k}= {v}\n# {k} = {v}"]):
            out.append((f"{n} layout {j}", f.format(k=k, v=v) + "\n", []))
        out.append((f"{n} twice", f"{k} = {v}\n{k} = {v}\n", []))
        out.append((f"{n} case", f"{k.swapcase()} = {v}\n" if k.swapcase() not in [nm(a, b) for a, b, _ in params] else allok, []))
        out.append((f"{n} prefix", f"{n[:-1] or 'zz'}_ = 1\n{n}x = 1\n", []))
        out.append((f"{n} second =", f"{k} = {v} = 3\n", []) if not t.startswith("char") else (f"{n} second =", f"{k} = x=y\n", []))
        base = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
        if base:
            bt, sz = base.group(1), int(base.group(2))
            g = good[bt]
            for q in (1, sz - 1, sz + 1, sz * 3, 99, 100, 101, 150):
                if q >= 1 and q * 2 < 1000:
                    out.append((f"{n}[{q}] of [{sz}]", f"{n}[{q}] = {{" + ",".join("1" for _ in range(q)) + "}\n", []))
                    out.append((f"{n}[{sz}] with {q}", f"{n}[{sz}] = {{" + ",".join("1" for _ in range(q)) + "}\n", []))
            for f in ("{n} = {v}", "{n}[] = {v}", "{n}[0] = {v}", "{n}[-{sz}] = {v}", "{n}[{sz} = {v}", "{n}[{sz}] = {v0}", "{n}[{sz}] = {{}}", "{n}[{sz}] = {{", "{n}[{sz}] = }}", "{n}[x] = {v}", "{n}[000000000000000000000000000000000{sz}] = {v}", "{n}[{sz}] = 1", "{n}[{sz}] ="):
                out.append((f"{n} {f}", f.format(n=n, sz=sz, v=v, v0=v[:-1]) + "\n", []))
            for b in bad[bt][1:]:
                if "," not in b:
                    for pos in sorted({0, sz - 1}):
                        vs = [g[0]] * sz
                        vs[pos] = b
                        if sum(map(len, vs)) < 900:
                            out.append((f"{n} element {pos} {b}", f"{k} = {{" + ",".join(vs) + "}\n", []))
            vs = [str(i + 1) + ("" if bt == "int" else ".25") for i in range(sz)]
            if len(",".join(vs)) < 900:
                out.append((f"{n} distinct", f"{k} = {{ " + " , ".join(vs) + " }\n", []))
        elif t.startswith("char"):
            sz = int(t[5:-1])
            for q in (0, 1, sz - 2, sz - 1, sz, sz + 1, 100, 124, 125, 126, 127, 128, 129, 300):
                for quo in ('"', ""):
                    if q >= 0 and q + 2 * len(quo) < 127 or q >= 140 or q >= sz:
                        out.append((f"{n} {q} chars{' quoted' if quo else ''}", f"{k} = {quo}" + "z" * q + f"{quo}\n", []))
            out += [(f"{n} lone quote", f'{k} = "\n', []), (f"{n} half quote", f'{k} = "ab\n', []), (f"{n} with size", f"{n}[{sz}] = ab\n", []), (f"{n} commas", f"{k} = a,b\n", []), (f"{n} blanks", f'{k} = " a "\n', [])]
        else:
            for v in good[t]:
                out.append((f"{n} = {v}", f"{k} = {v}\n", []))
            for v in bad[t]:
                out.append((f"{n} = {v} (bad)", f"{k} = {v}\n", []))
            out += [(f"{n}[1]", f"{n}[1] = {v}\n", []), (f"{n} braces 2", f"{n} = {{1,2}}\n", []), (f"{n} braces 1", f"{n} = {{{v}}}\n", []), (f"{n} long", f"{n} = " + "1" * 300 + "\n", [])]
    if steer:
        ty = {n: t for t, n, _ in params}
        for file in (allok, "", "# only a comment\n", "whatsit = 3\n"):
            for j in range(3):
                out.append((f"override {j} on {file[:12]!r}", file, [ok(ty[s], j + 1).replace('"', "") or "z" for s in steer]))
        for i, s in enumerate(steer):
            for b in (bad[ty[s]] if ty[s] in bad else ["z" * (int(ty[s][5:-1])), "z" * 300, '"' + "z" * 300 + '"', '"' + "z" * 150 + '"', '"']):
                a = [ok(ty[q], 1).replace('"', "") or "z" for q in steer]
                a[i] = b
                out.append((f"override {s} by {b[:12]}", allok, a))
    return out


def u_parse(ctx, name):
    d, params, steer = project(ctx, name)
    if params is None:
        return
    cases = grammar(params, steer)
    runs = []
    for j, (label, text, args) in enumerate(cases):
        for mode in ("default file", "named file"):
            w = os.path.join(d, f"case{j}{mode[0]}")
            os.mkdir(w)
            fn = "vfproj.par" if mode == "default file" else "other name.txt"
            with open(os.path.join(w, fn), "w", newline="", encoding="utf-8") as f:
                f.write(text)
            if mode == "named file":
                with open(os.path.join(w, "vfproj.par"), "w", encoding="utf-8") as f:
                    f.write("not_this_one = 1\n" + "".join(f"{n} = 77\n" for t, n, _ in params if t in ("REAL", "int")))
            if any(x == "" for x in args):
                continue
            runs.append((f"{label} ({mode})", text, args, ([fn] if mode == "named file" else []) + args, w))
    usage = []
    w = os.path.join(d, "caseu")
    os.mkdir(w)
    ty = {n: t for t, n, _ in params}
    for a in (["-h"], ["--help"], ["nofile"] * (len(steer) + 2), ["nofile"] * (len(steer) + 1), ["nofile"] * (len(steer) + 3), [] , ["nofile"]):
        usage.append((a, w))
    with open(os.path.join(d, "list"), "w", encoding="utf-8") as f:
        for *_, av, w in runs:
            f.write("\001".join([w] + av) + "\n")
        for a, w in usage:
            f.write("\001".join([w] + a) + "\n")
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0"
    rc, so, se = bhah.run(d, [os.path.join(d, "list")], timeout=500)
    st = [tuple(map(int, x.split()[1:])) for x in so.strip().split("\n")]
    ctx.check("every input leads to an answer", rc == 0 and len(st) == len(runs) + len(usage), "native-asan", cex=f"rc {rc} after {len(st)} of {len(runs) + len(usage)} inputs\n{se[-800:]}", bounded=True)
    worst = {"memory": None, "accept": None, "reject": None, "value": None, "frame": None, "warn": None}
    cnt = dict.fromkeys(worst, 0)
    for (label, text, args, av, w), (code, sig) in zip(runs, st):
        try:
            want = reference(text, params, steer, args)
        except Reject:
            want = None
        err = open(os.path.join(w, "stderr"), errors="replace").read()
        info = f"{label}\nparameter file: {text[:300]!r}\narguments: {av}\nexit status {code} signal {sig}\nstderr: {err[:600]}"
        cnt["memory"] += 1
        if sig or "Sanitizer" in err or "runtime error" in err:
            worst["memory"] = worst["memory"] or info
            continue
        if want is None:
            cnt["reject"] += 1
            if code in (0, 42) or not err.strip():
                worst["reject"] = worst["reject"] or info + "\nthe contract requires rejection with a message"
            continue
        cnt["accept"] += 1
        if code != 42:
            if not any(re.match(r"x{100,}$", ln.split("=")[0].strip()) for ln in text.split("\n")):
                worst["accept"] = worst["accept"] or info + f"\nthe contract requires {want}"
            continue
        got = dict(x.split(" ", 1) for x in open(os.path.join(w, "out")).read().strip().split("\n"))
        for t, n, _ in params:
            b = bytes.fromhex(got[n].strip())
            if n in want:
                cnt["value"] += 1
                e = enc(t, want[n])
                if b[:len(e)] != e:
                    worst["value"] = worst["value"] or info + f"\n{n}: bytes {b.hex()[:80]}, contract {want[n]!r}"
            else:
                cnt["frame"] += 1
                if set(b) != {0x5a}:
                    worst["frame"] = worst["frame"] or info + f"\n{n} was not mentioned but was changed to {b.hex()[:80]}"
        names = [ln.split("#")[0].split("=")[0].strip(WS).split("[")[0] for ln in text.split("\n") if "=" in ln.split("#")[0]]
        for q in names:
            if q and q not in ty and len(q) < 128:
                cnt["warn"] += 1
                if q not in err:
                    worst["warn"] = worst["warn"] or info + f"\n{q} is not a parameter and was skipped silently"
    msg = dict(memory="no memory error or undefined behaviour", accept="well-formed input is accepted", reject="malformed input is rejected with a message", value="each parameter set has the value written", frame="parameters that are not mentioned keep their value", warn="names that are not parameters are reported")
    for k, v in worst.items():
        if cnt[k]:
            ctx.check(msg[k], v is None, "native-asan", cex=v, bounded=True)
    for (a, w), (code, sig) in zip(usage, st[len(runs):]):
        helpq = len(a) == 1 and a[0].startswith("-")
        ctx.check(f"arguments {a}: " + ("usage, status 0" if helpq else "rejected: no such file"), (code == 0 if helpq else code not in (0, 42)) and not sig, "native-asan", cex=f"status {code} signal {sig}", bounded=True)
    subprocess.run(["rm", "-rf", d], check=False)


def u_default(ctx, name):
    """the default parameter file means the defaults"""
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as ci
    d, params, steer = project(ctx, name)
    if params is None:
        return
    ctx.under(M + "generate_default_parfile")
    w = os.path.join(d, "x0")
    os.mkdir(w)
    ctx.call("default parameter file", ci.generate_default_parfile, project_dir=w, project_name="vfproj")
    text = open(os.path.join(w, "vfproj.par"), encoding="utf-8").read()
    ctx.check("the default parameter file reads as the defaults (contract reading)", _ref_is(text, params), "contract-exec", cex=text[:1500], bounded=True)
    mods = {}
    cur = None
    for ln in text.split("\n"):
        m = re.match(r"### Module: (\w+)", ln)
        cur = m.group(1) if m else cur
        m = re.match(r"(\w+)(\[\d+\])? =", ln)
        if m:
            mods[m.group(1)] = cur
    ctx.check("every parameter appears once, under its module", mods == {n: f"mod{j % 2}" for j, (t, n, _) in enumerate(params)}, "contract-exec", cex=f"{mods}\n{text[:1200]}", bounded=True)
    wd = os.path.join(d, "default")
    os.mkdir(wd)
    open(os.path.join(wd, "vfproj.par"), "w", encoding="utf-8").close()
    with open(os.path.join(d, "list"), "w", encoding="utf-8") as f:
        f.write(w + "\n" + wd + "\n")
    rc, so, se = bhah.run(d, [os.path.join(d, "list")])
    st = [x.split()[1:] for x in so.strip().split("\n")]
    ctx.check("the program accepts its default parameter file", rc == 0 and st[0] == ["42", "0"], "native-asan", cex=f"{st} {se[:400]}\n{open(os.path.join(w, 'stderr'), errors='replace').read()[:600]}\n{text[:600]}", bounded=True)
    err = open(os.path.join(w, "stderr"), errors="replace").read()
    ctx.check("no parameter of the default file is unrecognised", not err.strip(), "native-asan", cex=err[:500], bounded=True)
    if st[0] == ["42", "0"] and st[1] == ["42", "0"]:
        got, dfl = (dict(x.split(" ", 1) for x in open(os.path.join(q, "out")).read().strip().split("\n")) for q in (w, wd))
        bad = []
        for t, n, v in params:
            a = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
            e = enc(t, [v] * int(a.group(2)) if a else v)
            for lab, g in (("parsed", got), ("set_to_default", dfl)):
                if bytes.fromhex(g[n].strip())[:len(e)] != e:
                    bad.append(f"{n} ({t}) default {v!r}: {lab} gives {g[n][:60]}")
        ctx.check("values after reading the default file == registered defaults == commondata_struct_set_to_default", not bad, "native-asan", cex="; ".join(bad[:6]), bounded=True)
    subprocess.run(["rm", "-rf", d], check=False)


def _ref_is(text, params):
    try:
        got = reference(text, params, [], [])
    except Reject:
        return False
    exp = {}
    for t, n, v in params:
        a = re.fullmatch(r"(REAL|int)\[(\d+)\]", t)
        exp[n] = [v] * int(a.group(2)) if a else v
    return got == exp


STUBS = r"""
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <limits.h>
#include <stdbool.h>
#define REAL double
static int vf_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
#define isspace vf_isspace
static int vf_isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
#define isalnum vf_isalnum
static char *vf_strtok_r(char *s, const char *d, char **save) {
  if (!s) s = *save;
  while (*s && strchr(d, *s)) s++;
  if (!*s) { *save = s; return NULL; }
  char *t = s;
  while (*s && !strchr(d, *s)) s++;
  if (*s) *s++ = 0;
  *save = s;
  return t;
}
#define strtok_r vf_strtok_r
"""
HARN = {
    "trim_space": (r"static\s+char\s*\*\s*trim_space\s*\(\s*char\s*\*\s*\w+\s*\)", 10, 6, r"""
  char b[LINE_SIZE], o[LINE_SIZE]; for (int i = 0; i < LINE_SIZE; i++) o[i] = b[i]; b[LINE_SIZE-1] = 0; o[LINE_SIZE-1] = 0;
  char *r = trim_space(b);
  __CPROVER_assert(r >= b && r < b + LINE_SIZE, "result points into the string");
  size_t n = strlen(r), k = r - b, m = strlen(o);
  __CPROVER_assert(n == 0 || (!isspace((unsigned char)r[0]) && !isspace((unsigned char)r[n - 1])), "no blank at either end");
  for (size_t i = 0; i < m; i++) { if (i < k || i >= k + n) __CPROVER_assert(isspace((unsigned char)o[i]), "only blanks removed"); else __CPROVER_assert(o[i] == r[i - k], "text kept"); }
"""),
    "safe_copy": (r"static\s+void\s+safe_copy\s*\(\s*char\s*\*\s*\w+\s*,\s*const\s+char\s*\*\s*\w+\s*,\s*size_t\s+\w+\s*\)", 12, 8, r"""
  char b[LINE_SIZE], v[PARAM_SIZE]; b[LINE_SIZE-1] = 0; size_t n; __CPROVER_assume(n <= PARAM_SIZE);
  safe_copy(v, b, n);
  __CPROVER_assert(n > 0 && strlen(b) < n, "returns only if the text fits");
  __CPROVER_assert(strcmp(v, b) == 0, "copy equals the text");
"""),
    "parse_param": (r"static\s+void\s+parse_param\s*\(\s*const\s+char\s*\*\s*\w+\s*,\s*char\s*\*\s*\w+\s*,\s*int\s*\*\s*\w+\s*\)", 24, 20, r"""
  char b[PARAM_SIZE]; b[PARAM_SIZE-1] = 0; char nm[PARAM_SIZE]; int k;
  parse_param(b, nm, &k);
  char *q = strchr(b, '[');
  size_t n = strlen(nm);
  __CPROVER_assert(q ? k > 0 : k == 0, "array size positive exactly with brackets");
  __CPROVER_assert(n == (q ? (size_t)(q - b) : strlen(b)) && strncmp(nm, b, n) == 0, "name is the text before the bracket");
"""),
    "parse_value": (r"static\s+void\s+parse_value\s*\(\s*const\s+char\s*\*\s*\w+\s*,\s*char\s+\w+\s*\[\s*\]\s*\[\s*PARAM_SIZE\s*\]\s*,\s*int\s*\*\s*\w+\s*\)", 12, 6, r"""
  char b[LINE_SIZE]; b[LINE_SIZE-1] = 0; char v[MAX_ARRAY_SIZE][PARAM_SIZE]; int k;
  parse_value(b, v, &k);
  __CPROVER_assert(k >= 0 && k <= MAX_ARRAY_SIZE, "number of values within the table");
  __CPROVER_assert(b[0] == '{' || k == 1, "a value without braces is one value");
  __CPROVER_assert(b[0] != '{' || b[strlen(b) - 1] == '}', "braces closed");
"""),
    "read_chararray": (r"static\s+void\s+read_chararray\s*\(\s*const\s+char\s*\*\s*\w+\s*,\s*char\s*\*\s*\w+\s*,\s*const\s+char\s*\*\s*\w+\s*,\s*size_t\s+\w+\s*\)", 24, 10, r"""
  char b[PARAM_SIZE + 6]; b[PARAM_SIZE + 5] = 0; char v[PARAM_SIZE + 8]; size_t n; __CPROVER_assume(n > 0 && n <= sizeof v);
  size_t L = strlen(b);
  read_chararray(b, v, "x", n);
  int quo = L > 1 && b[0] == '"' && b[L - 1] == '"';
  __CPROVER_assert(strlen(v) < n, "fits the destination");
  __CPROVER_assert(strlen(v) == L - (quo ? 2 : 0) && strncmp(v, b + (quo ? 1 : 0), strlen(v)) == 0, "text without its quotes");
"""),
}


def u_cbmc(ctx, fn):
    import nrpy.c_function as cfc
    import nrpy.infrastructures.BHaH.cmdline_input_and_parfiles as ci
    params, steer = SETS["one of each"]
    register(params)
    ctx.under(M + "register_CFunction_cmdline_input_and_parfile_parser")
    ctx.call("parser registration", ci.register_CFunction_cmdline_input_and_parfile_parser, project_name="vfproj", cmdline_inputs=list(steer))
    cf = cfc.CFunction_dict["cmdline_input_and_parfile_parser"]
    text = cf.prefunc
    sig, line, par_, body = HARN[fn]
    used = all(re.search(rf"#define {m}\s+\d+", text) for m in ("LINE_SIZE", "PARAM_SIZE", "MAX_ARRAY_SIZE"))
    if not re.search(sig, text) or not used:
        ctx.check(f"{fn}: no helper of this name and signature, nothing to put under contract", True, "-", bounded=True)
        return
    for m, v in (("LINE_SIZE", line), ("PARAM_SIZE", par_), ("MAX_ARRAY_SIZE", 3)):
        text = re.sub(rf"#define {m}\s+\d+", f"#define {m} {v}", text)
    with tempfile.TemporaryDirectory() as d:
        src = os.path.join(d, "h.c")
        with open(src, "w", encoding="utf-8") as f:
            f.write(STUBS + text + "\nvoid vf_h(void) {" + body + "}\n")
        p = subprocess.run(["cbmc", src, "--function", "vf_h", "--bounds-check", "--pointer-check", "--unwind", str(max(line, par_ + 7) + 2), "--unwinding-assertions", "--drop-unused-functions", "--slice-formula"],
                           capture_output=True, text=True, timeout=400, preexec_fn=native._lift)
        if "VERIFICATION SUCCESSFUL" in p.stdout:
            n = len(re.findall(r": SUCCESS$", p.stdout, re.M))
            ctx.check(f"{fn}: contract and memory safety for every buffer content", True, "cbmc", bounded=True)
            ctx.cover("cbmc generated assertions", n > 3)
        elif "VERIFICATION FAILED" in p.stdout:
            fl = [x for x in p.stdout.split("\n") if x.endswith("FAILURE")]
            if all("unwinding" in x for x in fl):
                ctx.check(f"{fn}: loops longer than the buffers, not decided", True, "-", bounded=True)
            else:
                ctx.check(f"{fn}: contract and memory safety for every buffer content", False, "cbmc", cex="\n".join(fl[:8]), bounded=True)
        else:
            ctx.check(f"{fn}: the helper is outside CBMC's reach here ({(p.stderr or p.stdout).strip()[-150:]})", True, "-", bounded=True)


def units():
    us = [Unit(f"parser on the input grammar, {n}", u_parse, (n,), timeout=700, weight=9) for n in SETS]
    us += [Unit(f"default parameter file, {n}", u_default, (n,), timeout=300, weight=5) for n in SETS]
    us += [Unit(f"helper {f} under CBMC", u_cbmc, (f,), timeout=450, weight=8) for f in HARN]
    return us
