"""SMT back end (z3, cvc5 as second opinion on unknown)."""
from collections import namedtuple
import subprocess
import z3

Result = namedtuple("Result", "status backend detail cex model")


def prove(claim, assumptions=(), timeout_ms=20000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    for a in assumptions:
        s.add(a)
    s.add(z3.Not(claim))
    r = s.check()
    if r == z3.unsat:
        return Result("proved", "z3", "", None, None)
    if r == z3.sat:
        m = s.model()
        txt = ", ".join(f"{d}={m[d]}" for d in m.decls())
        return Result("failed", "z3", f"counter-model: {txt}; claim: {str(claim)[:1500]}", None, m)
    # second opinion
    try:
        smt2 = "(set-logic ALL)\n" + s.to_smt2()
        p = subprocess.run(["cvc5", f"--tlimit={timeout_ms}"], input=smt2, capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        if p.stdout.strip().startswith("unsat"):
            return Result("proved", "cvc5", "", None, None)
    except Exception:  # pylint: disable=broad-except
        pass
    return Result("unknown", "z3", str(s.reason_unknown()), None, None)


def feasible(constraints, timeout_ms=10000):
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    s.add(*constraints)
    return s.check()
