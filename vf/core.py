"""Obligation bookkeeping, isolation, evidence and verdicts for the contract verifier.

A *unit* is one Python callable that puts one function (or one small group of
functions) of /repo under contract, generates its verification conditions from
the code currently in /repo and hands each of them to a back end.  Every unit
runs in its own forked process, so the global registries of nrpy (parameters,
gridfunctions, C functions, lru caches) start fresh for each of them.

Obligation status
  proved    discharged for all inputs by the named back end
  bounded   held on everything a stated finite bound covers; never counted as proved
  refuted   the back end produced a counterexample which was replayed against the real code
  failed    the obligation is false according to the back end, but no failing input was replayed
  unknown   the back end gave no answer (never reported as a violation)
  error     the machinery itself failed
"""

import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)


def thorough():
    return TIER == "thorough"


class HarnessError(Exception):
    """The machinery (not the code under contract) cannot go on."""


class ContractRaise(Exception):
    """The code under contract raised although its precondition held."""


class Unit:
    def __init__(self, name, fn, args=(), kwargs=None, timeout=600, weight=1):
        self.name, self.fn, self.args, self.kwargs = name, fn, args, kwargs or {}
        self.timeout, self.weight = timeout, weight


class Ctx:
    """What a unit uses to record obligations."""

    def __init__(self, unit):
        self.unit = unit
        self.rows = []
        self.functions = set()
        self.assumptions = set()
        self.solver_s = 0.0
        self.covers = 0

    def under(self, *functions):
        self.functions.update(functions)

    def assume(self, *texts):
        self.assumptions.update(texts)

    def add(self, name, status, backend, detail="", cex=None, dt=0.0, fid=None):
        self.solver_s += dt
        self.rows.append(
            dict(
                unit=self.unit, name=name, status=status, backend=backend,
                detail=str(detail)[:6000], cex=cex, fid=fid or f"{self.unit}:{name}",
            )
        )
        return status in ("proved", "bounded")

    def check(self, name, ok, backend, cex=None, detail="", bounded=False, fid=None):
        """Exact (decidable, already evaluated) obligation."""
        if ok:
            return self.add(name, "bounded" if bounded else "proved", backend, fid=fid)
        return self.add(name, "refuted", backend, detail, cex or detail, fid=fid)

    def eq(self, name, lhs, rhs, **kw):
        """VC  forall symbols: lhs == rhs  (algebraic back end)."""
        from vf import algnf

        t0 = time.time()
        res = algnf.prove_eq(lhs, rhs, **kw)
        dt = time.time() - t0
        return self.add(name, res.status, res.backend, res.detail, res.cex, dt)

    def z3(self, name, claim, assumptions=(), timeout_ms=20000, replay=None):
        from vf import smt

        t0 = time.time()
        res = smt.prove(claim, assumptions, timeout_ms)
        dt = time.time() - t0
        st, cex, det = res.status, res.cex, res.detail
        if st == "failed" and replay is not None:
            ok, txt = replay(res.model)
            if ok is False:
                st, cex = "refuted", txt
            else:
                det = det + " [replay did not reproduce: %s]" % (txt,)
        return self.add(name, st, res.backend, det, cex, dt)

    def cover(self, name, ok, detail=""):
        """Vacuity guard: the situation the contract talks about is reachable."""
        self.covers += 1
        if not ok:
            raise HarnessError(f"vacuous: {name} {detail}")

    def call(self, what, fn, *a, **k):
        """Call code under contract with its precondition established."""
        try:
            return fn(*a, **k)
        except HarnessError:
            raise
        except (Exception, SystemExit) as e:  # pylint: disable=broad-except
            raise ContractRaise(f"{what} raised {type(e).__name__}: {e}\n{traceback.format_exc()}") from e

    def raises(self, name, fn, exc=Exception, frame=None, backend="contract-exec", bounded=True):
        """Exceptional postcondition: fn must raise exc and leave `frame()` unchanged."""
        before = frame() if frame else None
        try:
            fn()
        except exc as e:
            ok = True
            det = f"raised {type(e).__name__}"
        except (Exception, SystemExit) as e:
            ok = False
            det = f"raised {type(e).__name__}: {e}, expected {exc}"
        else:
            ok = False
            det = "did not raise"
        self.check(name, ok, backend, detail=det, bounded=bounded)
        if frame and ok:
            after = frame()
            self.check(name + " [frame unchanged]", before == after, backend,
                       detail=f"before {before!r:.500} after {after!r:.500}", bounded=bounded)


def _raised_in_repo(tb_text):
    return os.path.join(REPO, "nrpy") in tb_text or os.path.join(REPO, "bin") in tb_text


def _child(unit, conn):
    try:
        os.setpgid(0, 0)
    except OSError:
        pass
    ctx = Ctx(unit.name)
    err = None
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (14 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    except Exception:
        pass
    try:
        devnull = open(os.devnull, "w")
        if not os.environ.get("VF_SHOW"):
            sys.stdout = devnull
        unit.fn(ctx, *unit.args, **unit.kwargs)
    except ContractRaise as e:
        ctx.add("no exception under the precondition", "refuted", "contract-exec", str(e), str(e))
    except BaseException as e:  # pylint: disable=broad-except
        tb = traceback.format_exc()
        last = traceback.extract_tb(e.__traceback__)
        frames = [f.filename for f in last]
        mine = [i for i, f in enumerate(frames) if f.startswith(VERIF)]
        repo = [i for i, f in enumerate(frames) if f.startswith(REPO + "/")]
        if repo and (not mine or max(repo) > max(mine)) and isinstance(e, (Exception, SystemExit)) \
                and not isinstance(e, (HarnessError, MemoryError)):
            ctx.add("no exception under the precondition", "refuted", "contract-exec", tb, tb[-3000:])
        else:
            err = tb
    try:
        conn.send((ctx.rows, sorted(ctx.functions), sorted(ctx.assumptions), ctx.solver_s, ctx.covers, err))
        conn.close()
    finally:
        os._exit(0)


def run_units(units, jobs=None):
    jobs = jobs or int(os.environ.get("VF_JOBS", os.cpu_count() or 4))
    pending = sorted(units, key=lambda u: -u.weight)
    running, results = [], {}
    mpc = mp.get_context("fork")
    sys.stdout.flush()
    while pending or running:
        while pending and len(running) < jobs:
            u = pending.pop(0)
            r, w = mpc.Pipe(duplex=False)
            p = mpc.Process(target=_child, args=(u, w))
            p.start()
            w.close()
            running.append((u, p, r, time.time()))
        progressed = False
        for item in list(running):
            u, p, r, t0 = item
            out = None
            if r.poll(0):
                try:
                    out = r.recv()
                except EOFError:
                    p.join()
                    out = ([], [], [], 0.0, 0, f"unit process died (exit code {p.exitcode})")
            elif time.time() - t0 > u.timeout:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError):
                    p.kill()
                out = ([dict(unit=u.name, name="unit", status="unknown", backend="-",
                             detail=f"no answer within {u.timeout} s", cex=None, fid=u.name)], [], [], 0.0, 0, None)
            if out is not None:
                p.join(5)
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except (ProcessLookupError, PermissionError, OSError):
                    pass
                if os.environ.get("VF_TIMES"):
                    print(f"   [{time.time()-t0:7.2f} s] {u.name}", file=sys.stderr)
                results[u.name] = out
                running.remove(item)
                progressed = True
        if not progressed:
            time.sleep(0.02)
    return results


def load_known():
    """known_findings.txt: lines 'known: property=<id> key=<fid> <text>' / 'fixed: ...'."""
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("known: "):
                parts = line.split(" ", 3)
                prop = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out[(prop, key)] = parts[3] if len(parts) > 3 else ""
    return out


def main(prop):
    t0 = time.time()
    mod = importlib.import_module(f"props.{prop.lower()}")
    for m in getattr(mod, 'PREIMPORT', []):
        importlib.import_module(m)
    units = mod.units()
    names = [u.name for u in units]
    if len(set(names)) != len(names):
        raise HarnessError("duplicate unit names " + str([n for n in names if names.count(n) > 1]))
    only = os.environ.get("VF_ONLY")
    if only:
        units = [u for u in units if only in u.name]
    results = run_units(units)
    rows, functions, assumptions, solver_s, covers, errors = [], set(), set(getattr(mod, "ASSUMPTIONS", [])), 0.0, 0, []
    for u in units:
        r, f, a, s, c, e = results[u.name]
        rows += r
        functions.update(f)
        assumptions.update(a)
        solver_s += s
        covers += c
        if e and e.startswith("unit process died"):
            errors.append((u.name, e))
        elif e:  # the contract could not be evaluated on this code: an obligation that is not discharged, without a failing input
            rows.append(dict(unit=u.name, name="the code stays within the contract's reach", status="failed", backend="-", detail=str(e)[:6000], cex=None, fid=f"{u.name}:unit"))
        elif not r:
            errors.append((u.name, "vacuous: the unit generated no obligation"))
    known = load_known()
    viol, known_hit = [], []
    for r in rows:
        if r["status"] in ("refuted", "failed"):
            if (prop, r["fid"].replace(" ", "_")) in known:
                known_hit.append(r)
            else:
                viol.append(r)
    by = {}
    for r in rows:
        by[r["status"]] = by.get(r["status"], 0) + 1
    backends = {}
    for r in rows:
        if r["status"] == "proved":
            backends[r["backend"]] = backends.get(r["backend"], 0) + 1
    proved, bounded = by.get("proved", 0), by.get("bounded", 0)
    level = getattr(mod, "LEVEL", "proof")
    cov = dict(
        obligations=proved + len(viol) + by.get("unknown", 0) + len(known_hit),
        discharged=proved,
        bounded_obligations_held=bounded,
        undecided=by.get("unknown", 0),
        known_findings=len(known_hit),
        discharged_by_backend=backends,
        functions_under_contract=sorted(functions),
        units=len(units),
        cover_checks=covers,
        solver_seconds=round(solver_s, 3),
        checker_cmd=f"./run_check.sh {prop}",
        trusted_base=sorted(set(getattr(mod, "TRUSTED", [])) | set(TRUSTED_COMMON)),
        samples=[f"{r['unit']} :: {r['name']} [{r['status']} by {r['backend']}]" for r in rows[:: max(1, len(rows) // 12)]][:14],
        bounded_list=[f"{r['unit']} :: {r['name']}: {r['backend']}"[:160] for r in rows if r["status"] == "bounded"][:10],
        undecided_list=[f"{r['unit']} :: {r['name']}: {r['detail'][:200]}" for r in rows if r["status"] == "unknown"][:20],
        bounds=getattr(mod, "BOUNDS", []),
    )
    if level == "other":
        cov["explanation"] = getattr(mod, "EXPLANATION", "")
    ev = dict(property=prop, tier=TIER if TIER in ("quick", "thorough") else "quick", seed=SEED, level=level,
              coverage=cov, assumptions=sorted(assumptions), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if not only:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
            json.dump(ev, f, indent=1)
    for r in known_hit:
        print(f"KNOWN-FINDING: property={prop} {known[(prop, r['fid'].replace(' ', '_'))] or r['name']}")
    print(f"{prop}: {len(units)} units, {len(rows)} obligations: " + ", ".join(f"{k}={v}" for k, v in sorted(by.items()))
          + f"; {time.time()-t0:.1f} s")
    for r in rows:
        if r["status"] == "unknown":
            print(f"UNDECIDED {r['unit']} :: {r['name']}: {r['detail'][:300]}")
    stale = os.path.join(VERIF, "evidence", f"{prop}.replay.txt")
    if not viol and os.path.exists(stale):
        os.remove(stale)
    if viol:
        replay = os.path.join(VERIF, "evidence", f"{prop}.replay.txt")
        os.makedirs(os.path.dirname(replay), exist_ok=True)
        with open(replay, "w", encoding="utf-8") as f:
            f.write(f"# property {prop}: {len(viol)} obligation(s) failed on the tree in {REPO}\n"
                    f"# re-run one of them:  VF_ONLY='<unit>' ./run_check.sh {prop}\n")
            for r in viol:
                f.write(f"\n== obligation: {r['unit']} :: {r['name']}\nstatus: {r['status']}  back end: {r['backend']}\n"
                        f"counterexample / failing input:\n{r['cex']}\ndetail:\n{r['detail']}\n")
            for n, e in errors:
                f.write(f"\n== unit with an error: {n}\n{e}\n")
        for r in viol[:8]:
            print(f"  failed: {r['unit']} :: {r['name']} [{r['status']}] {str(r['cex'] or r['detail'])[:240]}")
        concrete = any(r["status"] == "refuted" for r in viol)
        print(f"VIOLATION property={prop} replay={replay}" + ("" if concrete else " no-failing-input-found"))
        return 1
    if errors:
        for n, e in errors:
            print(f"ERROR in unit {n}:\n{e}")
        return 2
    if not rows or proved + bounded == 0:
        print("ERROR: no obligations were generated")
        return 2
    return 0


TRUSTED_COMMON = [
    "CPython 3.12 executing the functions of /repo on symbolic arguments (the extraction step; nothing of the code is dropped)",
    "SymPy 1.14 term construction and exact rational arithmetic",
    "the contract text in /verif/props and the verification-condition generator in /verif/vf",
]
