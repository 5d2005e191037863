"""run.py PROPERTY --seed S --n N --time T --jobs J --out FILE   |   run.py --replay FILE
Searches for a concrete input of the real code that breaks the property; deterministic for a given seed and N."""
import sys, os, json, time, argparse, multiprocessing, traceback, hashlib, signal

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


def run_case(cls, case, limit=20):
    """None if the property holds on this case, else a message"""
    from core import Fail
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        cls.check(json.loads(json.dumps(case)))
        return None
    except Fail as e:
        return str(e)
    except Timeout:
        return f"no answer within {limit} s"
    except RecursionError:
        return "RecursionError"
    except BaseException as e:      # the library also raises bare BaseException
        if isinstance(e, KeyboardInterrupt):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        loc = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in reversed(tb[-3:]))
        return f"unexpected {type(e).__name__}: {str(e)[:300]} at {loc}"
    finally:
        signal.alarm(0)


def minimise(cls, case, msg, budget=4.0):
    """drop list elements while it still fails"""
    t0 = time.time()
    changed = True
    while changed and time.time() - t0 < budget:
        changed = False
        for k, v in list(case.items()):
            if isinstance(v, list) and v and k not in ("spec", "k"):
                i = 0
                while i < len(v) and time.time() - t0 < budget:
                    c2 = dict(case)
                    c2[k] = v[:i] + v[i + 1:]
                    try:
                        m2 = run_case(cls, c2, 5)
                    except Exception:
                        m2 = None
                    if m2 and m2[:24] == msg[:24]:
                        case, msg, v, changed = c2, m2, c2[k], True
                    else:
                        i += 1
    return case, msg


def worker(a):
    pid, seed, lo, hi, deadline = a
    import core, load  # noqa
    clss = core.PROPS[pid]
    n, keys, fails, samples = 0, set(), [], []
    for i in range(lo, hi):
        if time.time() > deadline:
            break
        cls = clss[i % len(clss)]
        rng = core.rng_of(seed, pid, i)
        case = cls.gen(rng)
        n += 1
        js = json.dumps(case, sort_keys=True)
        if getattr(cls, "nontrivial", lambda c: len(js) > 40)(case):
            keys.add(hashlib.md5(js.encode()).hexdigest()[:12])
        if len(samples) < 1 and i > lo + 3:
            samples.append(case)
        msg = run_case(cls, case)
        if msg:
            case, msg = minimise(cls, case, msg)
            fails.append({"class": cls.__name__, "case": case, "msg": msg, "index": i})
            if len(fails) >= 3:
                break
    return n, keys, fails, samples


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--n", type=int, default=2000)
    ap.add_argument("--time", type=float, default=60)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--out")
    ap.add_argument("--replay")
    a = ap.parse_args()
    if a.replay:
        d = json.load(open(a.replay))
        import core, load  # noqa
        if "case" not in d:
            print(json.dumps(d, indent=1)[:6000])
            return 0
        cls = [c for c in core.PROPS[d["property"]] if c.__name__ == d["class"]][0]
        msg = run_case(cls, d["case"])
        print("FAILS: " + msg if msg else "holds")
        return 1 if msg else 0
    t0 = time.time()
    dl = t0 + a.time
    chunk = max(20, a.n // (a.jobs * 8))
    tasks = [(a.prop, a.seed, lo, min(a.n, lo + chunk), dl) for lo in range(0, a.n, chunk)]
    n, keys, fails, samples = 0, set(), [], []
    with multiprocessing.get_context("fork").Pool(a.jobs) as p:
        for m, k, f, s in p.imap_unordered(worker, tasks):
            n += m
            keys |= k
            fails += f
            samples += s
    fails.sort(key=lambda f: f["index"])
    samples.sort(key=lambda s: json.dumps(s))
    out = {"property": a.prop, "seed": a.seed, "evaluations": n, "distinct_nontrivial": len(keys), "failures": fails[:20], "samples": samples[:3],
           "wall_s": round(time.time() - t0, 2), "planned": a.n}
    js = json.dumps(out, indent=1)
    if a.out:
        open(a.out, "w").write(js)
    else:
        print(js[:8000])
    return 1 if fails else 0


if __name__ == "__main__":
    sys.exit(main())
