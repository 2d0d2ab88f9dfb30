"""Compile and run a C harness around generated code (bounded stand-in; scratch directory only)."""
import os
import resource
import subprocess
import tempfile
from vf.core import HarnessError

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]


def _lift():
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def build_run(src, args=(), flags=("-std=gnu99", "-O1", "-w"), san=True, stdin=None, files=None, timeout=200, cc="gcc", cwd=None, link=("-lm",)):
    """-> (stage, returncode, stdout, stderr); stage is 'compile' or 'run'"""
    with tempfile.TemporaryDirectory() as t:
        for n, c in (files or {}).items():
            os.makedirs(os.path.dirname(os.path.join(t, n)) or t, exist_ok=True)
            with open(os.path.join(t, n), "w", encoding="utf-8") as f:
                f.write(c)
        with open(t + "/main_vf.c", "w", encoding="utf-8") as f:
            f.write(src)
        p = subprocess.run([cc, *flags, *(SAN if san else ()), "-I", t, t + "/main_vf.c", "-o", t + "/prog_vf", *link], capture_output=True, text=True, timeout=timeout, preexec_fn=_lift)
        if p.returncode:
            return "compile", p.returncode, p.stdout, p.stderr
        env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0", OMP_NUM_THREADS="1")
        try:
            p = subprocess.run([t + "/prog_vf", *map(str, args)], capture_output=True, text=True, errors="replace", timeout=timeout, input=stdin, cwd=cwd or t, preexec_fn=_lift, env=env)
        except subprocess.TimeoutExpired as e:
            return "run", -999, str(e.stdout or "")[:2000], "timeout"
        return "run", p.returncode, p.stdout, p.stderr
