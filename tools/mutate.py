"""mutate.py PROP FILE[:name,name] ... [-n N] [-s SEED] [-j J]: mutation testing of a check on scratch copies of /repo.
Mutants: operator/constant/comparison/name changes of Python source and of C text inside string literals."""
import argparse
import ast
import concurrent.futures as cf
import os
import random
import re
import shutil
import subprocess
import sys

ap = argparse.ArgumentParser()
ap.add_argument("prop")
ap.add_argument("files", nargs="+")
ap.add_argument("-n", type=int, default=20)
ap.add_argument("-s", type=int, default=0)
ap.add_argument("-j", type=int, default=4)
ap.add_argument("--list", action="store_true")
a = ap.parse_args()
rng = random.Random(a.s)

RULES = [(r"(?<![<>=!\-+*/&|])<(?![<=])", "<="), (r"<=", "<"), (r">=", ">"), (r"==", "!="), (r"!=", "=="), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r"&&", "||"), (r"\|\|", "&&"), (r"\b0\b", "1"), (r"\b1\b", "2"), (r"\b1\b", "0"), (r"\b2\b", "1"), (r"\b2\b", "3"), (r"\b3\b", "2"), (r"\bmin\b", "max"), (r"\bmax\b", "min"),
         (r"\bnot ", ""), (r"\band\b", "or"), (r"\bor\b", "and"), (r"\bTrue\b", "False"), (r"\bFalse\b", "True"), (r"(?<=[a-zA-Z])0\b", "1"), (r"(?<=[a-zA-Z])1\b", "0"), (r"(?<=[a-zA-Z])2\b", "1"), (r" in ", " not in "), (r"\+=", "="), (r"\bappend\b", "extend"), (r"\bif ", "if not "), (r"i0", "i1"), (r"\bi1\b", "i2"), (r"\[i\]\[j\]", "[j][i]"), (r"\bcontinue\b", "pass"), (r"\bbreak\b", "pass"), (r"\bsorted\(", "list("), (r"\bfprintf\(fp", "if(0) fprintf(fp"), (r"NGHOSTS", "(NGHOSTS-1)"), (r"ABS\(", "("), (r"fabs\(", "(")]


def spans(path, names):
    """line ranges worth mutating: bodies of functions, without docstrings, raise/print/assert and __main__"""
    src = open(path).read()
    t = ast.parse(src)
    skip, keep = set(), set()
    for n in ast.walk(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(getattr(n.body[0], "value", None), ast.Constant):
            skip |= set(range(n.body[0].lineno, n.body[0].end_lineno + 1))
        if isinstance(n, (ast.Raise, ast.Import, ast.ImportFrom, ast.Assert)):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "print":
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.Assign) and any(getattr(x, "id", "") == "desc" for x in n.targets):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.If) and "__main__" in (ast.get_source_segment(src, n.test) or ""):
            skip |= set(range(n.lineno, n.end_lineno + 1))
        if isinstance(n, ast.FunctionDef) and (not names or n.name in names):
            a0 = n.body[0].lineno
            keep |= set(range(a0, n.end_lineno + 1))
    return src.split("\n"), keep - skip


cands = []
for f in a.files:
    f, _, names = f.partition(":")
    names = set(names.split(",")) if names else set()
    L, ok = spans(os.path.join(os.environ.get("MUTREPO", "/repo"), f), names)
    for i in sorted(ok):
        line = L[i - 1]
        s = line.strip()
        if not s or s.startswith(("#", "//", ":param", "*", "raise", "print")) or "Error" in line:
            continue
        for r, w in RULES:
            for m in re.finditer(r, line):
                pre = line[:m.start()]
                if "//" in pre or re.search(r"#(?!include|pragma|if|else|end|def|undef)", pre):
                    continue
                cands.append((f, i, line, line[:m.start()] + w + line[m.end():]))
        if re.match(r"^\s*[\w\->\[\].]+ (\+|-|\*)?= .*", line) or re.match(r"^\s+(self\.)?\w+\(.*\)$", line):
            cands.append((f, i, line, re.match(r"\s*", line).group(0) + ("pass" if not line.rstrip().endswith(";") else ";")))
rng.shuffle(cands)
seen, picks = set(), []
for c in cands:  # spread over lines
    if (c[0], c[1]) in seen:
        continue
    seen.add((c[0], c[1]))
    picks.append(c)
    if len(picks) >= a.n:
        break
if a.list:
    for c in picks:
        print(c)
    sys.exit()
VER = f"/tmp/mutv.{os.getpid()}"
shutil.copytree("/verif", VER, ignore=shutil.ignore_patterns(".git", "seeded", "evidence"), symlinks=True)
os.makedirs(VER + "/evidence", exist_ok=True)


def run(k):
    f, i, old, new = picks[k]
    d = f"/tmp/mut.{os.getpid()}.{k}"
    v = f"{VER}.{k}"
    shutil.copytree(os.environ.get("MUTREPO", "/repo"), d, ignore=shutil.ignore_patterns(".git", "__pycache__", "project"), symlinks=True)
    shutil.copytree(VER, v, symlinks=True)
    try:
        p = os.path.join(d, f)
        L = open(p).read().split("\n")
        L[i - 1] = new
        open(p, "w").write("\n".join(L))
        try:
            compile(open(p).read(), p, "exec")
        except SyntaxError:
            return k, "syntax", ""
        r = subprocess.run([v + "/run_check.sh", a.prop], env={**os.environ, "VERIF_REPO": d, "VF_JOBS": str(max(1, 8 // a.j))}, capture_output=True, text=True)
        why = [x for x in r.stdout.split("\n") if x.startswith("  failed")]
        return k, r.returncode, (why[0] if why else r.stdout[-200:] + r.stderr[-300:])[:180]
    finally:
        shutil.rmtree(d, ignore_errors=True)
        shutil.rmtree(v, ignore_errors=True)


try:
    res = {}
    with cf.ThreadPoolExecutor(a.j) as ex:
        for k, rc, why in ex.map(run, range(len(picks))):
            f, i, old, new = picks[k]
            res[rc] = res.get(rc, 0) + 1
            if rc not in (1, "syntax"):
                print(f"[{rc}] {f}:{i}\n   - {old.strip()[:150]}\n   + {new.strip()[:150]}" + ("" if rc == 0 else "\n   " + why.replace("\n", " ")), flush=True)
    print(a.prop, "results:", res)
finally:
    shutil.rmtree(VER, ignore_errors=True)
