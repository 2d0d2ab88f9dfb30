#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW DEMO NEEDS BREAKS : write /verif/seeded/ID from an exact replacement (used while developing)."""
import json, os, subprocess, sys, shutil

def mk(id_, prop, edits, demo, needs, breaks):
    """edits: list of (file, old, new); demo: python source (run with /opt/venv/bin/python, cwd /repo)"""
    subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "diff", "--quiet"], check=True)
    try:
        for f, old, new in edits:
            p = os.path.join(os.environ.get("SEEDREPO", "/repo"), f)
            s = open(p).read()
            assert s.count(old) == 1, (f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        d = subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "diff"], check=True, capture_output=True, text=True).stdout
    finally:
        subprocess.run(["git", "-C", os.environ.get("SEEDREPO", "/repo"), "checkout", "-q", "--", "."], check=True)
    o = f"/verif/seeded/{id_}"
    shutil.rmtree(o, ignore_errors=True)
    os.makedirs(o)
    open(o + "/patch.diff", "w").write(d)
    open(o + "/demo.py", "w").write(demo)
    open(o + "/demo.sh", "w").write('''#!/bin/bash
# exit 0: the property holds on this input; nonzero: it is broken
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export HOME=/root PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo XDG_CACHE_HOME="$T/cache" TMPDIR="$T" DEMO_TMP="$T"
mkdir -p "$T/cache"
/opt/venv/bin/python "$HERE/demo.py"
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(o + "/meta.json", "w"), indent=1)
    print("made", id_)
