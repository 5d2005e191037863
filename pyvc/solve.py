"""Discharging obligations: z3 (E-matching only, then with MBQI), then cvc5 on the same SMT-LIB text."""
import os, time, subprocess, tempfile, hashlib
import z3

STATS = {"z3": 0, "cvc5": 0, "time": 0.0, "queries": 0}
_cache = {}
QUICK_RLIMIT = int(os.environ.get("PYVC_QRL", "500000"))


class Result:
    def __init__(self, status, backend, secs, model=None, reason=""):
        self.status, self.backend, self.secs, self.model, self.reason = status, backend, secs, model, reason


def _z3(hyps, goal, ms, mbqi, rlimit=0):
    s = z3.SimpleSolver() if not mbqi else z3.Solver()
    s.set("timeout", ms)
    if rlimit:
        s.set("rlimit", rlimit)
    if not mbqi:
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s


def _text(hyps, goal):
    s = z3.Solver()
    for h in hyps:
        s.add(h)
    s.add(z3.Not(goal))
    return "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")


def _cli(cmd, txt, secs):
    """a solver as a process of its own, so that its time limit holds"""
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        fn = f.name
    try:
        p = subprocess.run(cmd + [fn], capture_output=True, text=True, timeout=secs + 5)
        out = p.stdout.strip().splitlines()
        return out[0] if out else "unknown"
    except subprocess.TimeoutExpired:
        return "unknown"
    finally:
        os.unlink(fn)


def prove(hyps, goal, ms=10000, quick=False):
    goal = z3.simplify(goal) if z3.is_expr(goal) else z3.BoolVal(bool(goal))
    key = None
    if z3.is_true(goal):
        return Result("proved", "simplifier", 0.0)
    t0 = time.time()
    STATS["queries"] += 1
    r, s = _z3(hyps, goal, ms, False, QUICK_RLIMIT if quick else 0)
    if os.environ.get("PYVC_RL"):
        st = {k: v for k, v in [(s.statistics().keys()[i], s.statistics()[i][1]) for i in range(len(s.statistics()))]}
        print("RL", r, st.get("rlimit count"), round(time.time() - t0, 2))
    if r == z3.unsat:
        dt = time.time() - t0
        STATS["time"] += dt
        STATS["z3"] += 1
        return Result("proved", "z3", dt)
    if quick:
        STATS["time"] += time.time() - t0
        return Result("unknown", "z3", time.time() - t0, reason=s.reason_unknown())
    if r == z3.sat:
        STATS["time"] += time.time() - t0
        return Result("refuted", "z3", time.time() - t0, model=s.model())
    reason = s.reason_unknown()
    txt = _text(hyps, goal)
    r2 = _cli(["cvc5", f"--tlimit={ms}"], txt, ms / 1000.0)
    if r2 == "unsat":
        dt = time.time() - t0
        STATS["time"] += dt
        STATS["cvc5"] += 1
        return Result("proved", "cvc5", dt)
    r3 = _cli(["z3-new", f"-T:{max(1, ms // 1000)}"], txt, ms / 1000.0)
    dt = time.time() - t0
    STATS["time"] += dt
    if r3 == "unsat":
        STATS["z3"] += 1
        return Result("proved", "z3-mbqi", dt)
    if r3 == "sat":
        return Result("refuted", "z3-mbqi", dt)
    return Result("unknown", "z3+cvc5", dt, reason=reason)


def sat_check(hyps, ms=3000):
    """Reachability (cover) check: 'unsat' means vacuous."""
    s = z3.SimpleSolver()
    s.set("timeout", ms)
    s.set("auto_config", False)
    s.set("smt.mbqi", False)
    for h in hyps:
        s.add(h)
    r = s.check()
    return str(r)
