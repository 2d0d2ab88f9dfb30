"""C25  Cached results equal recomputation whatever happened before; generated files and inline scripts are exactly what was asked for."""
import contextlib
import io
import itertools
import os
import pickle
import resource
import shutil
import signal
import sys
import tempfile
import traceback

import sympy as sp

from vf.core import Unit, thorough

LEVEL = "fault_enumeration"
PREIMPORT = ["nrpy.helpers.cached_functions", "nrpy.helpers.generic", "nrpy.helpers.conditional_file_updater"]
EXPLANATION = "contracts on the cache, the formatter, the conditional file updater, the file copier and the inline-script runner; crash points of a cache write are enumerated byte by byte with the process killed by the kernel at that byte (RLIMIT_FSIZE with the default SIGXFSZ action), which also gives every state a concurrent reader can see."
BOUNDS = "requests, file contents and comment layouts as enumerated in the units; every byte offset of each cache write (every fourth for entries above 400 bytes in the quick tier)"
ASSUMPTIONS = ["os.replace is atomic and a file's bytes reach readers in the order written (POSIX)", "a cache holds entries written by the same version of the package only", "the text of a formatting request does not end in the text of another option string"]
TRUSTED = ["pickle round-trips sympy terms", "hashlib.sha256 has no collisions", "clang-format"]
CF = "nrpy.helpers.cached_functions."


@contextlib.contextmanager
def cachedir():
    d = tempfile.mkdtemp()
    old = os.environ.get("XDG_CACHE_HOME")
    os.environ["XDG_CACHE_HOME"] = d
    try:
        yield d
    finally:
        if old is None:
            del os.environ["XDG_CACHE_HOME"]
        else:
            os.environ["XDG_CACHE_HOME"] = old
        shutil.rmtree(d, ignore_errors=True)


def files(d):
    out = {}
    for r, _, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(r, f), "rb") as h:
                out[os.path.relpath(os.path.join(r, f), d)] = h.read()
    return out


def child(fn, limit=None):
    """run fn in a child process; with a limit, the kernel ends the child at that byte of any file it writes. Returns (how it ended, value)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        code = 0
        try:
            if limit is not None:
                signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, limit))
            v = ("value", fn())
        except BaseException:  # pylint: disable=broad-except
            v, code = ("raised", traceback.format_exc()[-1500:]), 3
        try:
            os.write(w, pickle.dumps(v))
        finally:
            os._exit(code)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if os.WIFSIGNALED(st):
        return "killed", os.WTERMSIG(st)
    return pickle.loads(data)


a, b, x, y = sp.symbols("a b x y")
xr = sp.Symbol("x", real=True)
xp = sp.Symbol("x", positive=True)
EXPRS = [sp.S.Zero, x, a + b, (x ** 2 + 2 * x + 1) / (x + 1), sp.sin(x) ** 2 + sp.cos(x) ** 2, sp.sqrt(x ** 2), sp.sqrt(xr ** 2), sp.sqrt(xp ** 2), sp.Integer(7), sp.Rational(1, 3) * x, sp.Float(0.1) * x, sp.exp(sp.log(x) + a), (a ** 2 - b ** 2) / (a - b), sp.Function("f")(x) * 2 / 2 + 0 * y, sp.I * x]


def same(u, v):
    return type(u) is type(v) and u == v and sp.srepr(u) == sp.srepr(v)


def u_simplify(ctx):
    from nrpy.helpers.cached_functions import cached_simplify
    ctx.under(CF + "cached_simplify")
    want = [sp.simplify(e) for e in EXPRS]
    for order in ("ascending", "descending"):
        with cachedir() as d:
            ix = range(len(EXPRS)) if order == "ascending" else range(len(EXPRS) - 1, -1, -1)
            for rep in range(3):
                for i in ix:
                    r = ctx.call(f"cached_simplify({sp.srepr(EXPRS[i])})", cached_simplify, EXPRS[i])
                    ctx.check(f"{order} request {rep}.{i}: equals sympy's simplify", same(r, want[i]), "exact evaluation", cex=f"cached_simplify({sp.srepr(EXPRS[i])}) = {sp.srepr(r)}, simplify gives {sp.srepr(want[i])}")
            f0 = files(d)
            cached_simplify(EXPRS[3])
            ctx.check(f"{order}: a hit writes nothing", files(d) == f0, "frame")
    # the cache is used: a second request does not compute again
    with cachedir():
        n = [0]
        real = sp.simplify

        def counted(*p, **k):
            n[0] += 1
            return real(*p, **k)
        sp.simplify = counted
        try:
            cached_simplify(EXPRS[3])
            cached_simplify(EXPRS[3])
        finally:
            sp.simplify = real
        ctx.check("a second request is answered from the cache", n[0] == 1, "exact evaluation", cex=f"simplify ran {n[0]} times for two equal requests")


def u_simplify_crash(ctx, i):
    """killed at any byte of the write: the next process gets the right value"""
    from nrpy.helpers.cached_functions import cached_simplify
    ctx.under(CF + "cached_simplify")
    e = EXPRS[i]
    want = sp.simplify(e)
    size = len(pickle.dumps(want)) + 2
    step = 1 if size <= 400 or thorough() else 4
    killed = 0
    for n in range(0, size, step):
        with cachedir():
            how, _ = child(lambda: cached_simplify(e), n)
            killed += how == "killed"
            how, r = child(lambda: cached_simplify(e))
            ctx.check(f"request {i}, writer stopped at byte {n}: the next process gets the value", how == "value" and same(r, want), "crash enumeration", cex=f"writer of cached_simplify({sp.srepr(e)}) killed after {n} bytes; the next call: {how} {r}")
    ctx.check(f"request {i}: crash points reached", killed > 0, "vacuity check", cex="no write was interrupted")


KEYS = ["", "a", "b", "aa", "a" * 5000, "id\n1", "id\n2", "é", "x/../y", "A"]
DATA = [None, 0, "", "text", {"data": 123}, [1, 2], sp.sqrt(x), "é" * 30, b"\x00\xff", "long " * 300]


def u_store(ctx):
    from nrpy.helpers import cached_functions as cf
    ctx.under(CF + "write_cached", CF + "read_cached", CF + "is_cached", CF + "cache_file", CF + "get_hash", CF + "NRPy_params_checksum")
    with cachedir() as d:
        model = {}
        ops = [("w", 0, 0), ("w", 1, 1), ("r", 0, 0), ("w", 0, 3), ("w", 2, 2), ("w", 3, 4), ("w", 4, 5), ("w", 5, 6), ("w", 6, 7), ("w", 7, 8), ("w", 8, 9), ("w", 9, 0), ("w", 4, 9), ("w", 2, 1), ("w", 0, 9)]
        for n, (op, k, v) in enumerate(ops):
            if op == "w":
                ctx.call(f"write_cached({KEYS[k][:20]!r}, {DATA[v]!r})", cf.write_cached, KEYS[k], DATA[v])
                model[KEYS[k]] = DATA[v]
            for key in KEYS:
                ctx.check(f"step {n}: is_cached({key[:12]!r})", cf.is_cached(key) == (key in model), "exact evaluation", cex=f"after {ops[:n+1]}: is_cached({key[:40]!r}) = {cf.is_cached(key)}")
                if key in model and cf.is_cached(key):
                    got = cf.read_cached(key)
                    ctx.check(f"step {n}: read_cached({key[:12]!r})", got == model[key] and type(got) is type(model[key]), "exact evaluation", cex=f"after {ops[:n+1]}: read_cached({key[:40]!r}) = {got!r}, written {model[key]!r}")
        fs = files(d)
        ctx.check("one file per key, nothing else", len(fs) == len(model), "frame", cex=f"{sorted(fs)} for {len(model)} keys")
        ctx.check("entries lie in the user's cache folder", all(not f.startswith("..") for f in fs), "frame")
        ctx.raises("read of an absent key", lambda: cf.read_cached("never written"), (Exception,))
    for k, v in ((1, 4), (2, 9), (3, 5)):
        want = DATA[v]
        for old in ((), (0,)):
            size = len(pickle.dumps(want)) + 2
            for n in range(0, size, 1 if size < 400 or thorough() else 16):
                with cachedir():
                    for o in old:
                        cf.write_cached(KEYS[k], DATA[o])
                    child(lambda: cf.write_cached(KEYS[k], want), n)

                    def look():
                        return cf.read_cached(KEYS[k]) if cf.is_cached(KEYS[k]) else "absent"
                    how, r = child(look)
                    ok = how == "value" and (r in ([DATA[o] for o in old] or ["absent"]) or r == want)
                    ctx.check(f"key {k}, {'over an old entry, ' if old else ''}writer stopped at byte {n}: the old or the new entry", ok, "crash enumeration", cex=f"write_cached({KEYS[k][:20]!r}, {str(want)[:60]!r}) killed after {n} bytes; a reader then: {how} {str(r)[:300]}")
    # data that cannot be stored leaves no entry behind
    with cachedir():
        with contextlib.suppress(Exception):
            cf.write_cached("bad", [1, 2, lambda: 0])
        ctx.check("an entry that cannot be stored leaves none behind", not cf.is_cached("bad"), "exact evaluation", cex="write_cached('bad', [1, 2, <function>]) fails and is_cached('bad') is True")
    ps = set()
    import nrpy.params as par
    for v in (1, 2):
        par.glb_params_dict.clear()
        par.register_param(int, "modA", "p", v)
        ps.add(cf.NRPy_params_checksum())
    ctx.check("parameter checksum tells values apart", len(ps) == 2, "exact evaluation")


CODES = ["int main() { return 0; }", "int  main( ) {return 0;}", "for(int i=0;i<3;i++){a[i]=b[i];}", "", "// only a comment", "void f(){int a_very_long_name_for_a_variable = another_quite_long_name_for_a_function(argument_number_one, argument_number_two, 3);}", "double x=1;\n\n\n\ndouble y=2;"]
OPTS = ["-style={BasedOnStyle: LLVM, ColumnLimit: 150}", "-style={BasedOnStyle: LLVM, ColumnLimit: 60}", "-style={BasedOnStyle: GNU}", "-style={BasedOnStyle: LLVM, IndentWidth: 8}"]


def u_format(ctx):
    import subprocess
    from nrpy.helpers.generic import clang_format
    ctx.under("nrpy.helpers.generic.clang_format")
    raw = {(c, o): subprocess.run(["clang-format", o], input=c, capture_output=True, text=True, check=True).stdout for c in CODES for o in OPTS}
    with cachedir():
        for rep, (c, o) in itertools.product(range(2), raw):
            r = ctx.call(f"clang_format({c!r}, {o!r})", clang_format, c, o)
            ctx.check(f"request {rep} {CODES.index(c)} {OPTS.index(o)}: the formatter's output for this text and style", r == raw[c, o], "exact evaluation", cex=f"clang_format({c!r}, {o!r}) = {r!r}, clang-format prints {raw[c, o]!r}")
        for c in CODES:
            ctx.check(f"default style {CODES.index(c)}", clang_format(c) == raw[c, OPTS[0]], "exact evaluation", cex=f"clang_format({c!r}) = {clang_format(c)!r}")
        ctx.raises("a style clang-format rejects", lambda: clang_format("int a;", "-style={BasedOnStyle: NoSuchStyle}"), (RuntimeError,))
        ctx.raises("the same again", lambda: clang_format("int a;", "-style={BasedOnStyle: NoSuchStyle}"), (RuntimeError,))


class Boom(Exception):
    pass


def u_updater(ctx):
    from nrpy.helpers.conditional_file_updater import ConditionalFileUpdater
    from nrpy.helpers.generic import clang_format
    ctx.under("nrpy.helpers.conditional_file_updater.ConditionalFileUpdater.__enter__", "nrpy.helpers.conditional_file_updater.ConditionalFileUpdater.__exit__")
    texts = ["one\n", "two\n", "one\n\n", "one", "one\ntwo\n", "One\n", "int  f( ){return 0;}\n", "é unicode\n", "x" * 3000, "o ne\n", "one\n two\n"]
    quiet = io.StringIO()
    for enc in (None, "utf-8"):
        for fmt in (False, True):
            for old, new in itertools.product([None] + texts, texts):
                if fmt and (texts.index(new) > 6 or (old is not None and texts.index(old) > 6)):
                    continue
                d = tempfile.mkdtemp()
                try:
                    p = os.path.join(d, "f.c")
                    if old is not None:
                        with open(p, "w", encoding="utf-8") as h:
                            h.write(old)
                        os.utime(p, (1000, 1000))
                    with contextlib.redirect_stdout(quiet):
                        with ConditionalFileUpdater(p, encoding=enc, do_format=fmt) as fd:
                            print(new, end="", file=fd)
                    want = clang_format(new) if fmt else new
                    got = open(p, encoding="utf-8").read()
                    tag = f"{'formatted ' if fmt else ''}{enc} {None if old is None else texts.index(old)} -> {texts.index(new)}"
                    ctx.check(f"{tag}: file holds the requested text", got.strip() == want.strip(), "exact evaluation", cex=f"file {old!r}, new content {new!r}: file now {got!r}")
                    if old is not None:
                        eq = old.strip() == want.strip()
                        ctx.check(f"{tag}: {'left untouched' if eq else 'replaced'}", (os.stat(p).st_mtime == 1000 and got == old) if eq else got == want, "frame", cex=f"file {old!r}, new content {new!r}: file now {got!r}, {'touched' if os.stat(p).st_mtime != 1000 else 'not touched'}")
                    else:
                        ctx.check(f"{tag}: new file exact", got == want, "exact evaluation", cex=f"new content {new!r}: file {got!r}")
                    ctx.check(f"{tag}: no other file", os.listdir(d) == ["f.c"], "frame", cex=str(os.listdir(d)))
                finally:
                    shutil.rmtree(d)
    for old in (None, "kept\n"):
        for written in ("", "half of the\n"):
            d = tempfile.mkdtemp()
            try:
                p = os.path.join(d, "f.c")
                if old is not None:
                    with open(p, "w", encoding="utf-8") as h:
                        h.write(old)
                exc = None
                with contextlib.redirect_stdout(quiet):
                    try:
                        with ConditionalFileUpdater(p) as fd:
                            fd.write(written)
                            raise Boom()
                    except Boom as e:
                        exc = e
                got = open(p, encoding="utf-8").read() if os.path.exists(p) else None
                ctx.check(f"content {written!r} cut short by an exception, file {old!r}: unchanged, exception passed on", got == old and exc is not None, "exact evaluation", cex=f"file {old!r}; exception after {written!r} was produced: file now {got!r}, exception {'passed on' if exc else 'swallowed'}")
            finally:
                shutil.rmtree(d)


def u_copy(ctx):
    import pkgutil
    from nrpy.helpers.generic import copy_files
    ctx.under("nrpy.helpers.generic.copy_files")
    for pkg, names, sub in (("nrpy.helpers", ["simd_intrinsics.h"], "simd"), ("nrpy.helpers", ["simd_intrinsics.h", "generic.py"], "a/b"), ("nrpy.helpers", [], "none"), ("nrpy", ["params.py"], "")):
        d = tempfile.mkdtemp()
        try:
            if any(pkgutil.get_data(pkg, n) is None for n in names if True):
                continue
            ctx.call(f"copy_files({pkg}, {names})", copy_files, pkg, names, d, sub)
            got = files(d)
            want = {os.path.normpath(os.path.join(sub, n)): pkgutil.get_data(pkg, n) for n in names}
            ctx.check(f"{pkg} {names} -> {sub!r}: exactly these files, byte for byte", got == want, "exact evaluation", cex=f"{sorted(got)} instead of {sorted(want)}")
            ctx.call("again over the old files", copy_files, pkg, names, d, sub)
            ctx.check(f"{pkg} {names} -> {sub!r}: copying again changes nothing", files(d) == want, "frame")
            ctx.raises(f"{pkg}: a missing file", lambda: copy_files(pkg, ["no_such_file.h"], d, sub), (FileNotFoundError,))
        finally:
            shutil.rmtree(d)


PROGS = [["print('one')"], ["for i in range(3):", "    print(i)", "    if i == 1:", "        print('x')", "print('end')"], ["def f(n):", "    if n == 0:", "        return 1", "    return n * f(n - 1)", "", "print(f(5))"],
         ["x = 3", "while x:", "    x -= 1", "    print(x)"], ["s = 'a  b'", "print(s, 2 ** 3)"], ["y = [", "    1,", "    2,", "]", "print(sum(y))"], ["import math", "class A:", "    v = 2", "", "    def g(self):", "        return self.v", "", "print(A().g(), math.floor(2.5))"]]


def wrap(prog, style, ind):
    pre = " " * ind
    if style == "plain":
        return [pre + "NRPYSTART"] + [pre + t for t in prog] + [pre + "NRPYEND"]
    if style == "//":
        return [pre + "// NRPYSTART"] + [pre + "// " + t for t in prog] + [pre + "// NRPYEND"]
    if style == "// deep":
        return [pre + "//NRPYSTART"] + [pre + "//     " + t for t in prog] + [pre + "//  NRPYEND  "]
    if style == "/* each */":
        return [pre + "/* NRPYSTART */"] + [pre + "/* " + t + " */" for t in prog] + [pre + "/* NRPYEND */"]
    if style == "block *":
        return [pre + "/*", pre + " * NRPYSTART"] + [pre + " * " + t for t in prog] + [pre + " * NRPYEND", pre + " */"]
    if style == "block":
        return [pre + "/*", pre + "NRPYSTART"] + [pre + t for t in prog] + [pre + "NRPYEND", pre + "*/"]
    return [pre + "/* NRPYSTART"] + [pre + " *  " + t for t in prog] + [pre + "NRPYEND */"]


STYLES = ["plain", "//", "// deep", "/* each */", "block *", "block", "open block"]


def direct(progs):
    out = io.StringIO()
    ns = {"__builtins__": __builtins__}
    with contextlib.redirect_stdout(out):
        for p in progs:
            exec(compile("\n".join(p) + "\n", "<oracle>", "exec"), ns)  # pylint: disable=exec-used
    return out.getvalue()


def u_inline(ctx):
    import importlib
    sys.path.insert(0, os.environ.get("VERIF_REPO", "/repo"))
    mod = importlib.import_module("bin.nrpyinline")
    ctx.under("bin.nrpyinline.strip_comment_markers", "bin.nrpyinline.run_script_from_file")

    def run(lines):
        fd, p = tempfile.mkstemp(suffix=".c")
        with os.fdopen(fd, "w", encoding="utf-8") as h:
            h.write("\n".join(lines) + "\n")
        out, err = io.StringIO(), io.StringIO()
        try:
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
                mod.run_script_from_file(p)
            return out.getvalue()
        except Exception as e:  # pylint: disable=broad-except
            return f"{type(e).__name__}: {e}"
        finally:
            os.remove(p)

    noise = ["#include <stdio.h>", "int main() { // NRPYEND is only a marker on its own line", "  return 0; /* text NRPYSTART text */", "}"]
    for k, p in enumerate(PROGS):
        for st in STYLES:
            for ind in (0, 3):
                got = run(noise + wrap(p, st, ind) + noise)
                want = direct([p])
                ctx.check(f"script {k}, comment style {st!r}, indented {ind}: runs as written", got == want, "exact evaluation", cex=f"file\n" + "\n".join(wrap(p, st, ind)) + f"\ngives {got!r}, the script prints {want!r}")
    seq = [["a = 5"], ["def g():", "    return a + 1"], ["print(g())", "a = 7"], ["print(g())"]]
    for st in STYLES:
        L = []
        for p in seq:
            L += wrap(p, st, 0) + noise
        got, want = run(L), direct(seq)
        ctx.check(f"comment style {st!r}: several scripts run in order in one namespace", got == want, "exact evaluation", cex=f"{got!r} instead of {want!r}")
    for st in STYLES:
        w = wrap(["print(1)"], st, 0)
        s = [t for t in w if "NRPYSTART" in t][0]
        e = [t for t in w if "NRPYEND" in t][0]
        for nm, L in (("end without start", ["text", e]), ("start twice", [s, "x = 1", s]), ("start without end", w[:-1] if e == w[-1] else w[:-2]), ("end twice", w + [e])):
            got = run(L)
            ctx.check(f"comment style {st!r}: {nm} is rejected", got.startswith("ValueError"), "exact evaluation", cex=f"{L} gives {got!r}")
    got = run(wrap(["print(1)", "raise KeyError('k')"], "//", 0) + wrap(["print(2)"], "//", 0))
    ctx.check("an exception in a script is passed on and stops the run", got.startswith("KeyError"), "exact evaluation", cex=got)


def bounded(fn):
    """every row of these units is an enumeration: reported as bounded, never as proved"""
    def go(ctx, *p):
        real = ctx.check
        ctx.check = lambda *q, **k: real(*q, **{**k, "bounded": True})
        return fn(ctx, *p)
    return go


def units():
    us = [Unit("cached_simplify", bounded(u_simplify)), Unit("cache store", bounded(u_store)), Unit("clang_format", bounded(u_format)), Unit("file updater", bounded(u_updater)), Unit("copied files", bounded(u_copy)), Unit("inline scripts", bounded(u_inline))]
    for i in (3, 4, 11, 12, 14):
        us.append(Unit(f"cached_simplify crash points[{i}]", bounded(u_simplify_crash), (i,)))
    return us
