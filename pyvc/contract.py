"""Contract objects, invariant templates and the per-function verification driver."""
import itertools, time, traceback, multiprocessing, os
import z3
from . import theory as T
from . import solve
from .engine import (Engine, Unsupported, SymRaise, PathEnd, Restart, Sc, NONE, NoneV, CellV, FieldV, RecV, TupV, RegexV, Ref,
                     Str, IntS, BoolS)
from .source import Source


class Contract:
    """Specification of one repository function.

    key       'module:Class.method'
    params    {name: type}          (missing parameters get their default value)
    result    type of the result    (used at call sites)
    requires(ex, a) / ensures(ex, a, r) -> [(name, formula)]     a: {param: value}
    raises    {exception name: fn(ex, a) -> formula under which it may be raised}
    """
    key = None
    params = {}
    result = "none"
    raises = {}
    folds = ()
    axioms = ()
    templates = None
    trusted = None          # reason, when assumed instead of proved
    always = True
    decreases = None
    label = None
    split = ("recurse",)
    chain = False
    ghost = ()              # specification-only parameters

    def requires(self, ex, a):
        return []

    def ensures(self, ex, a, r):
        return []

    def setup(self, ex):
        pass

    def extra_terms(self, ex, lp):
        """further terms for the parameters of the spec functions in loop invariants"""
        return []

    def at_call(self, ex, fi):
        return True

    def modifies(self, ex, a):
        """heap fields havocked by a call"""
        return []

    def call(self, ex, a):
        for n, f in self.requires(ex, a):
            ex.prove(f"precondition {n} of {self.key} at call", f, "pre")
        if self.decreases is not None and ex.root is self:
            m = self.decreases(ex, a)
            m0 = self.decreases(ex, ex.root_args)
            ex.prove(f"termination measure decreases at recursive call of {self.key}", z3.And(m < m0, m >= 0), "term")
        for f in self.modifies(ex, a):
            ex.heap_arr(f)                                   # a field not read so far has its entry value
        old = dict(ex.heap)
        for f in self.modifies(ex, a):
            ex.note_write(("heap", f))
            arr = ex.heap_arr(f)
            ex.heap[f] = ex.fresh(arr.sort(), "H_" + f)
        r = ex.mk(self.result, "ret")
        ex.call_old = old
        for n, f in self.ensures(ex, a, r):
            ex.assume(f if z3.is_expr(f) else z3.BoolVal(bool(f)))
        return r


def term(v):
    return v.t


def frame(c, ex, a):
    """what the contract does not list as modified is unchanged: heap fields of existing objects, lists passed in"""
    out = []
    mod = set(c.modifies(ex, a))
    for f in sorted(ex.heap):
        if f in mod:
            continue
        old = ex.heap0[f] if f in ex.heap0 else z3.Const(f"H0_{f}", ex.heap[f].sort())
        if ex.heap[f].eq(old):
            continue
        o = z3.Const("o!frame", Ref)
        new = [n.t for n in ex.new_refs]
        g = z3.ForAll([o], z3.Implies(z3.And(z3.BoolVal(True), *[o != n for n in new]), z3.Select(ex.heap[f], o) == z3.Select(old, o)))
        out.append((f"field {f} is not modified", g))
    mutates = getattr(c, "mutates", ())
    for n, v in sorted(a.items()):
        if n in mutates:
            continue
        cells = [(n, v)] if isinstance(v, CellV) else [(f"{n}.{k}", w) for k, w in sorted(ex.recs0.get(v.id, {}).items())] if isinstance(v, RecV) else []
        for m, w in cells:
            if not isinstance(w, CellV) or m in mutates or w.id not in ex.cells0:
                continue
            c0, c1 = ex.cells0[w.id], ex.cells[w.id]
            if c0 is c1:
                continue
            if c0[0] == "list" and c1[0] == "list":
                out.append((f"list {m} is not modified", c0[2] == c1[2]))
            elif c0[0] == "set" and c1[0] == "set":
                out.append((f"set {m} is not modified", c0[2] == c1[2]))
            elif c0[0] == c1[0] and c0[0] in ("clist", "cset", "cdict") and c0[1] == c1[1]:
                continue
            elif c0[0] == "dict" and c1[0] == "dict":
                out.append((f"dict {m} is not modified", z3.And(c0[3] == c1[3], c0[4] == c1[4])))
            else:
                out.append((f"{m} is not modified", z3.BoolVal(False)))
    return out


# ----------------------------------------------------------------------------------------------------- templates
def visible_terms(ex, lp):
    """(name, term) of immutable values visible at the loop, for instantiating template parameters"""
    out = []
    seen = set()

    def add(n, t, lit=False):
        if t.get_id() not in seen and (lit or T.lit_value(t) is None):
            seen.add(t.get_id())
            ex._keep.append(t)
            out.append((n, t))
    for n, v in sorted(lp["prelocals"].items()):
        if n in lp["names"] or v is None:
            continue
        if isinstance(v, Sc) and v.ty != "val":
            add(n, v.t)
        elif isinstance(v, RegexV):
            add(n + ".pat", v.pat)
    for n, v in sorted((ex.root_args or {}).items()):
        if isinstance(v, Sc) and v.ty != "val":
            add("arg:" + n, v.t)
    for n, t in ex.root.extra_terms(ex, lp):
        add(n, t, True)
    return out


def targets(ex, lp):
    """mutable things the loop changes: (name, pre term or None, getter of the current term or None, sort)"""
    out = []
    meta = lp["meta"]
    for m in sorted(meta.mods, key=str):
        if m[0] == "cell":
            cid = ex.root_cell(lp, m[1])
            if cid is None or (m[1][0] == "local" and m[1][1] in lp["names"]):
                continue
            out.append((str(m[1]), ("cell", cid)))
        elif m[0] == "rec":
            rid = ex.root_rec(lp, m[1])
            if rid is not None:
                out.append((f"{m[1]}.{m[2]}", ("rec", rid, m[2])))
    for n in sorted(lp["names"]):
        if lp["prelocals"].get(n) is not None:
            out.append((n, ("local", n)))
    return out


def cur_value(ex, lp, loc):
    if loc[0] == "cell":
        return CellV(loc[1])
    if loc[0] == "rec":
        return ex.recs[loc[1]].get(loc[2])
    return lp["frame"].locals.get(loc[1])


def pre_value(ex, lp, loc):
    if loc[0] == "cell":
        return ("content", lp["precells"][loc[1]])
    if loc[0] == "rec":
        return lp["prerecs"][loc[1]].get(loc[2])
    return lp["prelocals"].get(loc[1])


def as_term(ex, v, sort):
    """term of value v at the given sort, None if it has no such reading"""
    try:
        if isinstance(v, tuple) and v[0] == "content":
            c = v[1]
            if isinstance(sort, z3.ArraySortRef):
                el = sort.domain()
                if c[0] == "set":
                    return c[2] if c[2].sort() == sort else None
                if c[0] == "cset":
                    t = z3.EmptySet(el)
                    for i in c[1]:
                        t = z3.Store(t, ex.term_of(i, el), True)
                    return t
                return None
            lt = T.list_theory_of_sort(sort)
            if lt is None:
                return None
            if c[0] == "list":
                return c[2] if c[2].sort() == sort else None
            if c[0] == "clist":
                return ex.clist_term(c[1], lt)
            return None
        if isinstance(v, Sc):
            return v.t if v.t.sort() == sort else None
        if isinstance(v, (CellV, FieldV)):
            return as_term(ex, ("content", ex.content(v)), sort)
        if isinstance(v, NoneV) and sort == Ref:
            return ex.term_of(v, Ref)
    except Unsupported:
        return None
    return None


def is_list_content(c):
    return c[0] in ("list", "clist")


def fold_template(ex, lp, g):
    """for every list-typed loop:  target == pre (+) F(params, P)   and   F(params,P) == unit (bool folds)"""
    if "P" not in g:
        return []
    out = []
    vis = visible_terms(ex, lp)
    lt = g["lt"]
    tg = targets(ex, lp)
    for F in ex.folds:
        if F.lt is not lt:
            continue
        only = getattr(ex.root, "cand", {}).get(F.name)          # proof hint: variables to try for this spec function
        doms = [[(n, t) for n, t in vis if t.sort() == p.sort() and (only is None or n.replace("arg:", "") in only)] for p in F.params]
        for combo in itertools.islice(itertools.product(*doms), 300):
            ps = [t for _, t in combo]
            nm = f"{F.name}({','.join(n for n, _ in combo)})"

            def ft(ps=ps, F=F):
                return F(*ps, g["P"])
            if F.monoid.sort == BoolS:
                out.append((f"{nm} is unit", lambda ft=ft, F=F: ft() == F.monoid.unit))
            for tn, loc in tg:
                cur = cur_value(ex, lp, loc)
                pre = pre_value(ex, lp, loc)
                if as_term(ex, pre, F.monoid.sort) is None:
                    continue
                if F.monoid.sort == BoolS and not isinstance(cur, Sc):
                    continue

                def eqn(loc=loc, pre=pre, ft=ft, F=F):
                    c = as_term(ex, cur_value(ex, lp, loc), F.monoid.sort)
                    p = as_term(ex, pre, F.monoid.sort)
                    if c is None or p is None:
                        return z3.BoolVal(False)
                    if p.eq(F.monoid.unit) or z3.simplify(p).eq(z3.simplify(F.monoid.unit)):
                        return c == ft()
                    return c == F.monoid.op(p, ft())
                out.append((f"{tn} == pre + {nm}", eqn))
                if F.monoid.sort == IntS or F.monoid.sort == BoolS:
                    out.append((f"{tn} == {nm}", lambda loc=loc, ft=ft, F=F: (as_term(ex, cur_value(ex, lp, loc), F.monoid.sort) == ft())
                                if as_term(ex, cur_value(ex, lp, loc), F.monoid.sort) is not None else z3.BoolVal(False)))
    return out


def count_template(ex, lp, g):
    """int locals that count iterations; bool locals unchanged"""
    out = []
    for tn, loc in targets(ex, lp):
        pre = pre_value(ex, lp, loc)
        if isinstance(pre, Sc):
            if pre.ty == "int" and "P" in g:
                out.append((f"{tn} == pre + |P|", lambda loc=loc, pre=pre: _eqt(ex, lp, loc, pre.t + g["lt"].len(g["P"]))))
            if pre.ty == "int" and "i" in g:
                out.append((f"{tn} == pre + i - lo", lambda loc=loc, pre=pre: _eqt(ex, lp, loc, pre.t + g["i"] - g["lo"])))
            out.append((f"{tn} == pre", lambda loc=loc, pre=pre: _eqt(ex, lp, loc, pre.t)))
    return out


def _eqt(ex, lp, loc, t):
    c = as_term(ex, cur_value(ex, lp, loc), t.sort())
    return c == t if c is not None else z3.BoolVal(False)


DEFAULT_TEMPLATES = [fold_template, count_template]


# ----------------------------------------------------------------------------------------------------- driver
class FunctionResult:
    def __init__(self, key):
        self.key = key
        self.obligations = []     # (name, status, backend, secs, reason)
        self.error = None         # Unsupported reason
        self.paths = self.houdini = 0
        self.inlined, self.called = [], []
        self.invariants = []
        self.secs = 0.0
        self.sha = ""
        self.vacuous = False
        self.label = None


_POOL_DATA = None


def _solve_one(i):
    ax, obl, ms = _POOL_DATA[0], _POOL_DATA[1][i], _POOL_DATA[2]
    name, pc, goal, kind = obl
    if os.environ.get("PYVC_OBL"):
        open(f"/tmp/p/obl.{i}", "w").write(f"{i} {name}\n{goal}\n" + "\n".join(str(f) for f in pc))
    if os.environ.get("PYVC_DUMP") and os.environ["PYVC_DUMP"] in name:
        sv = z3.Solver()
        sv.add(*ax, *pc, z3.Not(goal))
        open("/tmp/p/dump.smt2", "w").write(sv.to_smt2())
    r = solve.prove(ax + pc, goal, ms)
    m = None
    if r.model is not None:
        try:
            m = str(r.model)[:2000]
        except Exception:
            m = None
    return i, r.status, r.backend, r.secs, r.reason, m


def verify(src, contracts, c, ms=20000, jobs=1, log=None, models=None, hooks=None, fields=None, ref_class=None):
    res = FunctionResult(c.key)
    res.label = c.label
    t0 = time.time()
    try:
        fi = src.get(c.key)
    except KeyError:
        res.error = f"function {c.key} not found in the source"
        return res
    res.sha = fi.sha()
    ex = Engine(src, contracts, axioms=[], ref_class=ref_class, fields=fields)
    ex.models = dict(models or {})
    ex.hooks = dict(hooks or {})
    ex.folds = list(c.folds)
    ex.templates = list(c.templates if c.templates is not None else DEFAULT_TEMPLATES)
    ex.root = c
    ax = c.axioms() if callable(c.axioms) else c.axioms
    ex.axioms = list(ax)
    covers = []

    def run(ex):
        ex._keep = getattr(ex, "_keep", [])
        c.setup(ex)
        a = {}
        for n, ty in c.params.items():
            a[n] = ex.mk(ty, n)
        ex.root_args = a
        ex.bound_args = a
        for n, f in c.requires(ex, a):
            ex.assume(f)
        for n in c.split:               # case split over boolean parameters (a proof hint: both cases are verified)
            if n in a:
                ex.truthy(a[n])
        ex.heap0 = dict(ex.heap)
        ex.cells0 = dict(ex.cells)
        ex.recs0 = {k: dict(v) for k, v in ex.recs.items()}
        try:
            # the function body may rebind/mutate its parameters: contract talks about entry values
            r = ex.call_func(fi, [], {k: v for k, v in a.items() if k not in c.ghost}, top=True)
        except SymRaise as e:
            cond = c.raises.get(e.name, c.raises.get("*"))
            if cond is None:
                ex.prove(f"no {e.name} escapes", z3.BoolVal(False), "exc")
            else:
                ex.prove(f"{e.name} only when specified", cond(ex, a), "exc")
            return
        ex.call_old = ex.heap0
        rn = c.raises_iff(ex, a) if hasattr(c, "raises_iff") else []
        for n, f in rn:
            ex.prove(n, f)
        try:
            posts = c.ensures(ex, a, r)
        except (AttributeError, KeyError, TypeError, Unsupported) as e:
            ex.prove(f"result has the specified type ({type(e).__name__}: {str(e)[:80]})", z3.BoolVal(False), "type")
            return
        for n, f in posts:
            ex.prove(n, f)
            if c.chain:                 # later postconditions may use the earlier ones (the conjunction is proved either way)
                ex.assume(f)
        for n, f in frame(c, ex, a):
            ex.prove(n, f, "frame")
        covers.append(list(ex.pc))

    try:
        ex.explore(run)
    except Unsupported as e:
        res.error = f"outside the verified subset: {e}"
        if os.environ.get("PYVC_DEBUG") == "2":
            traceback.print_exc()
    except RecursionError:
        res.error = "outside the verified subset: recursion depth"
    except (AttributeError, TypeError, KeyError, IndexError, z3.Z3Exception) as e:
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res.error = f"outside the verified subset: engine {type(e).__name__} {e} at {os.path.basename(tb.filename)}:{tb.lineno}"
        if os.environ.get("PYVC_DEBUG"):
            traceback.print_exc()
    res.paths, res.houdini = ex.paths, ex.houdini_checks
    res.inlined, res.called = sorted(ex.inlined), sorted(ex.called)
    if res.error:
        res.secs = time.time() - t0
        return res
    axs = ex.all_axioms()
    obls = ex.obls
    # de-duplicate
    seen, uniq = set(), []
    for o in obls:
        k = (o[0], o[2].get_id(), tuple(f.get_id() for f in o[1]))
        if k not in seen:
            seen.add(k)
            uniq.append(o)
    # vacuity: the precondition together with the axioms must not be contradictory
    if not covers:
        res.vacuous = True
    else:
        # at least one normal path must not be refutable
        if all(solve.sat_check(axs + pc, 2000) == "unsat" for pc in covers[:20]):
            res.vacuous = True
    global _POOL_DATA
    _POOL_DATA = (axs, uniq, ms)
    if jobs > 1 and len(uniq) > 3:
        with multiprocessing.get_context("fork").Pool(jobs) as p:
            rs = p.map(_solve_one, range(len(uniq)))
    else:
        rs = [_solve_one(i) for i in range(len(uniq))]
    for i, st, be, secs, reason, model in rs:
        res.obligations.append(dict(name=f"{c.key}: {uniq[i][0]}", kind=uniq[i][3], status=st, backend=be, secs=round(secs, 4),
                                    reason=reason, model=model,
                                    path=[str(f)[:160] for f in uniq[i][1]][:40] if st != "proved" else None,
                                    goal=str(uniq[i][2])[:600] if st != "proved" else None))
    res.invariants = inv_report(ex)
    res.secs = time.time() - t0
    return res


def inv_report(ex):
    return [f"loop in {k}" for k in []]


def prove_theory(ms=10000, folds=()):
    """prove the list lemmas and fold homomorphism lemmas by induction; -> list of obligation dicts"""
    out = []
    for lt in list(T._lists.values()):
        by = {lm.name.split(".")[-1]: lm for lm in lt.lemmas}
        for lm in lt.lemmas:
            hy = list(lt.defs) + [by[u].formula() for u in lm.use]
            for n, h, g in lm.obligations(hy):
                r = solve.prove(h, g, ms)
                out.append(dict(name="lemma " + n, kind="lemma", status=r.status, backend=r.backend, secs=round(r.secs, 4), reason=r.reason))
    for F in folds:
        if not F.homo:
            continue
        hy = list(F.lt.defs) + list(F.defs())
        ml = T.list_theory_of_sort(F.monoid.sort)
        if ml is not None:
            hy += ml.axioms()
        lm = F.homo_lemma()
        for n, h, g in lm.obligations(hy):
            r = solve.prove(h, g, ms)
            out.append(dict(name="lemma " + n, kind="lemma", status=r.status, backend=r.backend, secs=round(r.secs, 4), reason=r.reason))
    return out
