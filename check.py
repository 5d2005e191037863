#!/usr/bin/env python3-vt
"""check.py PROPERTY [quick|thorough]

1. generates the proof obligations of every function under contract for the property from /repo's *current* source and
   discharges them (pyvc: z3, then cvc5), together with the lemmas of the list/fold theory they use;
2. runs the property's executable oracle on the real code (the replay search, which is also the labelled bounded
   stand-in for the parts no contract reaches);
3. prints VIOLATION / KNOWN-FINDING lines and rewrites evidence/PROPERTY.json.
Exit 0: every obligation discharged and no failing input.  Exit 1: VIOLATION.  Exit 2: the check itself broke."""
import sys, os, json, time, subprocess, multiprocessing, traceback, hashlib

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV = "/opt/venv/bin/python"
sys.setrecursionlimit(20000)


def replay_cmd(pid, seed, n, secs, jobs, out):
    return [VENV, "-W", "ignore", os.path.join(HERE, "replay", "run.py"), pid, "--seed", str(seed), "--n", str(n), "--time", str(secs), "--jobs", str(jobs),
            "--out", out]


def run_replay(pid, seed, n, secs, jobs, tag, wait=True):
    out = os.path.join(HERE, "replays", f".{pid}.{tag}.{os.getpid()}.json")
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_REPO=REPO, PYTHONHASHSEED="0")
    p = subprocess.Popen(replay_cmd(pid, seed, n, secs, jobs, out), cwd=os.path.join(HERE, "replay"), env=env, stdout=subprocess.PIPE,
                         stderr=subprocess.STDOUT, text=True)
    return p, out


def finish_replay(h):
    p, out = h
    txt = p.communicate()[0]
    try:
        d = json.load(open(out))
        os.unlink(out)
        return d
    except Exception:
        return {"crash": txt[-3000:], "failures": [], "evaluations": 0, "distinct_nontrivial": 0, "samples": [], "rc": p.returncode}


_G = {}


def _work(item):
    """one contract (or the theory lemmas), in a forked process"""
    kind, i, ms = item
    t0 = time.time()
    try:
        from pyvc import contract as C
        if kind == "theory":
            P = _G["prop"]
            obs = C.prove_theory(ms, P.get("folds", []))
            from pyvc import solve
            done = {}
            for lm, hyps in P.get("lemmas", []):
                hs = hyps() + [done[u].formula() for u in lm.use]
                done[lm.name] = lm
                for n, h, g in lm.obligations(hs):
                    r = solve.prove(h, g, ms)
                    obs.append(dict(name="lemma " + n, kind="lemma", status=r.status, backend=r.backend, secs=round(r.secs, 4), reason=r.reason))
            for n, hyps, g in (P["theorems"]() if P.get("theorems") else []):
                r = solve.prove(hyps, g, ms)
                obs.append(dict(name="theorem " + n, kind="theorem", status=r.status, backend=r.backend, secs=round(r.secs, 4), reason=r.reason))
            return dict(key="(theory)", obligations=obs, error=None, vacuous=False, secs=time.time() - t0, inlined=[], called=[], sha="", label=None)
        c = _G["prop"]["contracts"][i]
        P = _G["prop"]
        r = C.verify(_G["src"], _G["reg"], c, ms=ms, jobs=1, fields=P.get("fields"), ref_class=_G["ref_class"], hooks=P.get("hooks"), models=P.get("models"))
        return dict(key=c.key, obligations=r.obligations, error=r.error, vacuous=r.vacuous, secs=time.time() - t0, inlined=r.inlined, called=r.called,
                    sha=r.sha, label=c.label, paths=r.paths, houdini=r.houdini)
    except Exception as e:
        return dict(key=str(item), obligations=[], error=f"engine {type(e).__name__}: {e}\n{traceback.format_exc()[-1500:]}", vacuous=False,
                    secs=time.time() - t0, inlined=[], called=[], sha="", label=None)


def prove_all(pid, ms, jobs, replay=None, limit=520):
    """all contracts in parallel; stops early (rest: not verified) after `limit` seconds, or 100 s after the replay search
    has ended with a failing input (the verdict is then settled; the remaining proofs only name more obligations)"""
    from pyvc.source import Source
    from contracts import registry
    P = registry.prop(pid)
    src = Source(REPO) if REPO != "/repo" else Source()
    reg = {}
    for c in P["contracts"]:
        reg.setdefault(c.key, c)
    _G.update(prop=P, src=src, reg=reg)
    rc = P.get("ref_class")
    try:
        _G["ref_class"] = src.module(rc[0]).classes[rc[1]] if rc else None
    except KeyError:
        _G["ref_class"] = None
    P["trusted"] = list(P["trusted"]) + [f"assumed contract of {c.key}: {c.trusted}" for c in P["contracts"] if c.trusted]
    items = [("theory", 0, ms)] + [("fn", i, ms) for i in range(len(P["contracts"])) if not P["contracts"][i].trusted]
    order = sorted(items, key=lambda it: -getattr(P["contracts"][it[1]], "weight", 1) if it[0] == "fn" else -50)
    rs, t0, bad_at = [], time.time(), None
    with multiprocessing.get_context("fork").Pool(min(jobs, len(items)), maxtasksperchild=1) as p:
        todo = [(it, p.apply_async(_work, (it,))) for it in order]
        while todo:
            for x in [x for x in todo if x[1].ready()]:
                rs.append(x[1].get())
                todo.remove(x)
            if replay and bad_at is None and replay[0].poll() is not None:
                try:
                    bad_at = time.time() if json.load(open(replay[1])).get("failures") else -1
                except Exception:
                    bad_at = -1
            now = time.time()
            if now - t0 > limit or (bad_at and bad_at > 0 and now - bad_at > 100):
                break
            time.sleep(0.05)
        for it, _ in todo:
            c = P["contracts"][it[1]] if it[0] == "fn" else None
            rs.append(dict(key=c.key if c else "(theory)", obligations=[], error="not verified within the time given", vacuous=False, secs=now - t0,
                           inlined=[], called=[], sha="", label=c.label if c else None))
        p.terminate()
    rs.sort(key=lambda r: (r["key"] == "(theory)", r["key"], str(r["label"])))
    return P, rs


def findings(pid):
    out = []
    fn = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(fn):
        for l in open(fn):
            l = l.strip()
            if l.startswith("finding:") and f"property={pid} " in l + " ":
                out.append(l)
    return out


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    from contracts import registry
    R = registry.REPLAY.get(pid, {})
    n = R.get("n", 20000) * (1 if tier == "quick" else 12)
    secs = 80 if tier == "quick" else 500
    h = run_replay(pid, seed, n, secs, 4, "a")
    ms = 15000 if tier == "quick" else 40000
    try:
        P, rs = prove_all(pid, ms, 5, h, 500 if tier == "quick" else 640)
    except Exception:
        traceback.print_exc()
        finish_replay(h)
        return 2
    rep = finish_replay(h)
    obs = [o for r in rs for o in r["obligations"]]
    failed = [o for o in obs if o["status"] != "proved"]
    broken = [(r["key"], r["error"] or ("no reachable normal exit under the precondition" if r["vacuous"] else "no obligation generated"))
              for r in rs if r["error"] or r["vacuous"] or not r["obligations"]]
    if rep.get("crash"):
        # the code under test cannot even be imported / driven: report as violation of nothing but an error of the check
        print(rep["crash"][-2000:])
    fails = rep["failures"]
    if (failed or broken) and not fails and not rep.get("crash"):
        # look harder for a concrete input before reporting an obligation without one
        rep2 = finish_replay(run_replay(pid, seed + 1000, n * 6, 120, 8, "b"))
        if not rep2.get("crash"):
            fails = rep2["failures"]
            rep["evaluations"] += rep2["evaluations"]
            rep["distinct_nontrivial"] += rep2["distinct_nontrivial"]
    known = findings(pid)
    viol = 0
    lines = []
    for f in fails:
        kf = [k for k in known if registry.known_match(k, f)]
        if kf:
            lines.append(f"KNOWN-FINDING: property={pid} {kf[0].split(' ', 2)[-1]}")
            continue
        if viol == 0:
            js = json.dumps(f, sort_keys=True)
            rp = os.path.join(HERE, "replays", f"{pid}-{hashlib.md5(js.encode()).hexdigest()[:10]}.json")
            json.dump(dict(property=pid, **{"class": f["class"]}, case=f["case"], message=f["msg"], seed=seed, index=f["index"],
                           failed_obligations=[o["name"] for o in failed][:20] + [f"{k}: {e}" for k, e in broken][:20],
                           how=f"cd /verif/replay && {VENV} run.py --replay {rp}"), open(rp, "w"), indent=1)
            print(f"failing input ({f['class']}): {f['msg'][:500]}")
            print("input: " + json.dumps(f["case"])[:1500])
            lines.append(f"VIOLATION property={pid} replay={rp}")
        viol += 1
    if not viol and (failed or broken):
        viol = len(failed) + len(broken)
        what = [dict(obligation=o["name"], status=o["status"], backend=o["backend"], solver_output=o.get("reason"), model=o.get("model"),
                     goal=o.get("goal"), path=o.get("path")) for o in failed] + [dict(obligation=k, status="not verified", solver_output=e) for k, e in broken]
        rp = os.path.join(HERE, "replays", f"{pid}-obligation-{hashlib.md5(json.dumps([w['obligation'] for w in what]).encode()).hexdigest()[:10]}.json")
        json.dump(dict(property=pid, failed=what, note="obligations that are discharged on the unchanged tree; no failing input was found by replay"), open(rp, "w"), indent=1)
        for w in what[:8]:
            print(f"obligation not discharged: {w['obligation']} [{w['status']}] {str(w['solver_output'])[:300]}")
        lines.append(f"VIOLATION property={pid} replay={rp} no-failing-input-found")
    fns = []
    for r in rs:
        if r["key"] != "(theory)":
            fns.append(dict(function=r["key"], contract=r["label"] or "", source_sha=r["sha"], obligations=len(r["obligations"]),
                            discharged=sum(o["status"] == "proved" for o in r["obligations"]), seconds=round(r["secs"], 2), paths=r.get("paths"),
                            inlined=r["inlined"], called_by_contract=r["called"], error=r["error"]))
    be = {}
    for o in obs:
        be[o["backend"]] = be.get(o["backend"], 0) + (o["status"] == "proved")
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", wall_s=round(time.time() - t0, 2), violations=viol,
              coverage=dict(obligations=len(obs), discharged=len(obs) - len(failed), checker_cmd=f"python3-vt check.py {pid} {tier}",
                            trusted_base=P["trusted"], functions_under_contract=fns, discharged_by=be,
                            solver_seconds=round(sum(o["secs"] for o in obs), 2),
                            lemmas=[o["name"] for o in obs if o["kind"] in ("lemma", "theorem")],
                            undischarged=[o["name"] for o in failed] + [f"{k}: {e}" for k, e in broken],
                            extraction_drops=registry.DROPPED,
                            bounded_stand_in=dict(what=P.get("bounded", ""), not_counted_as_proved=True, seed=seed),
                            evaluations=rep["evaluations"], distinct_nontrivial=rep["distinct_nontrivial"],
                            rule="pseudo-random cases from the generators of replay/ for this property, run on the real code; non-trivial: the case has a "
                                 "configuration/value beyond the empty one (JSON longer than 40 characters); distinct by content",
                            samples=rep["samples"]),
              assumptions=P.get("assumptions", []))
    json.dump(ev, open(os.path.join(HERE, "evidence", f"{pid}.json"), "w"), indent=1)
    print(f"{pid} {tier}: {len(obs) - len(failed)}/{len(obs)} obligations discharged over {len(fns)} functions under contract, "
          f"replay {rep['evaluations']} cases, {round(time.time() - t0, 1)} s")
    if rep.get("crash"):
        if failed or broken:
            pass
        else:
            print("the replay driver crashed")
            return 2
    for l in dict.fromkeys(lines):
        print(l)
    return 1 if viol else 0


if __name__ == "__main__":
    sys.exit(main())
