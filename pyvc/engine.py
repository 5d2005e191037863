"""Verification-condition generator for a subset of Python.

Forward symbolic execution, path by path, of the AST of the real function.  Loops (for, while, comprehensions,
filter/any/all over symbolic sequences) are cut by invariants; the invariants are the instances of the contract's
templates that survive Houdini pruning, so every one that is used has been proved initial and inductive.  Calls to
functions under contract use the contract only; other repository functions are executed in place.
"""
import ast, os, time, z3
from . import theory as T
from .source import FuncInfo, ClassInfo
from .theory import Str, Ref, Val, IntS, BoolS, slit


HDEBUG = bool(os.environ.get("PYVC_HOUDINI"))


class Unsupported(Exception):
    pass


class PathEnd(Exception):
    pass


class Restart(Exception):
    pass


class SymRaise(Exception):
    def __init__(self, name, node=None, value=None):
        self.name, self.node, self.value = name, node, value
        super().__init__(name)


class _Return(Exception):
    def __init__(self, v):
        self.v = v


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


# ---------------------------------------------------------------------------------------------------------- values
class V:
    pass


class Sc(V):
    def __init__(self, ty, t, cls=None):
        self.ty, self.t, self.cls = ty, t, cls

    def __repr__(self):
        return f"{self.ty}:{self.t}"


class NoneV(V):
    ty = "none"

    def __repr__(self):
        return "None"


NONE = NoneV()


class CellV(V):
    ty = "cell"

    def __init__(self, id):
        self.id = id


class FieldV(V):
    """a list stored in a field of a heap object"""
    ty = "cell"

    def __init__(self, field, ref, epoch=0):
        self.field, self.ref, self.epoch = field, ref, epoch


class RecV(V):
    ty = "rec"

    def __init__(self, id, cls):
        self.id, self.cls = id, cls


class TupV(V):
    ty = "tuple"

    def __init__(self, items):
        self.items = list(items)


class FuncV(V):
    ty = "func"

    def __init__(self, fi, closure=None, module=None):
        self.fi, self.closure, self.module = fi, closure, module


class BoundV(V):
    ty = "func"

    def __init__(self, selfv, fi):
        self.selfv, self.fi = selfv, fi


class MethV(V):
    ty = "func"

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class ExtV(V):
    ty = "ext"

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f"<ext {self.name}>"


class ClsV(V):
    ty = "class"

    def __init__(self, cls):
        self.cls = cls


class ModV(V):
    ty = "mod"

    def __init__(self, m):
        self.m = m


class PartialV(V):
    ty = "func"

    def __init__(self, f, args, kw):
        self.f, self.args, self.kw = f, args, kw


class RegexV(V):
    ty = "regex"

    def __init__(self, pat):
        self.pat = pat


def group_info(pat, ref):
    """(index, takes part in every match, least length, flags) of a group of a concrete pattern"""
    import re
    try:
        from re import _parser as sp, _constants as sc
    except ImportError:
        import sre_parse as sp, sre_constants as sc
    rx = re.compile(pat)
    if ref == 0:
        return 0, True, sp.parse(pat).getwidth()[0], rx.flags
    if isinstance(ref, str):
        if ref not in rx.groupindex:
            raise SymRaise("IndexError")
        ref = rx.groupindex[ref]

    def walk(p, sure):
        for op, av in p:
            if op is sc.SUBPATTERN:
                if av[0] == ref:
                    return sure, av[3].getwidth()[0]
                r = walk(av[3], sure)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT) or str(op) == "POSSESSIVE_REPEAT":
                r = walk(av[2], sure and av[0] > 0)
            elif op is sc.BRANCH:
                r = None
                for q in av[1]:
                    r = r or walk(q, False)
            elif op in (sc.ASSERT, sc.ASSERT_NOT):
                r = walk(av[1], False)
            elif op is sc.GROUPREF_EXISTS:
                r = walk(av[1], False) or (walk(av[2], False) if av[2] else None)
            elif str(op) == "ATOMIC_GROUP":
                r = walk(av, sure)
            else:
                r = None
            if r is not None:
                return r
        return None
    if not isinstance(ref, int) or not 0 < ref <= rx.groups:
        raise SymRaise("IndexError")
    r = walk(sp.parse(pat), True) or (False, 0)
    return ref, r[0], r[1], rx.flags


class MatchV(V):
    ty = "match"

    def __init__(self, mode, pat, text):
        self.mode, self.pat, self.text = mode, pat, text


class RangeV(V):
    ty = "range"

    def __init__(self, lo, hi, base=None, step=1):
        self.lo, self.hi, self.base, self.step = lo, hi, base, step

    def at(self, i):
        """value at index i of the loop counter"""
        return i if self.base is None else self.base + self.step * i


class IterV(V):
    """symbolic iterable: underlying list term + mapper(index_term, elem_term) -> V"""
    ty = "iter"

    def __init__(self, lt, term, mapper):
        self.lt, self.term, self.mapper = lt, term, mapper


class ConcIterV(V):
    ty = "citer"

    def __init__(self, items):
        self.items = items


def I(n):
    return Sc("int", n if z3.is_expr(n) else z3.IntVal(n))


def B(b):
    return Sc("bool", b if z3.is_expr(b) else z3.BoolVal(bool(b)))


def S(s):
    return Sc("str", slit(s) if isinstance(s, str) else s)


SORT = {"int": IntS, "bool": BoolS, "str": Str, "ref": Ref, "val": Val}


# regular expressions: the stdlib matcher is an external function, abstracted by uninterpreted predicates --------------
RE_FOUND = z3.Function("re_found", Str, Str, BoolS)          # re.search(p, t) is not None
RE_FULL = z3.Function("re_full", Str, Str, BoolS)            # re.fullmatch(p, t) is not None
RE_PREFIX = z3.Function("re_prefix", Str, Str, BoolS)        # re.match(p, t) is not None
RE_GROUP = z3.Function("re_group", Str, Str, IntS, Str)      # re.search(p, t).group(i) when not None
RE_GROUP_NONE = z3.Function("re_group_none", Str, Str, IntS, BoolS)
RE_SUB = z3.Function("re_sub", Str, Str, Str, Str)           # re.sub(p, r, t)
RE_FLAGGED = z3.Function("re_flagged", Str, IntS, Str)       # pattern compiled with these flags
STR_IN = z3.Function("str_in", Str, Str, BoolS)              # a in b
HASH = z3.Function("py_hash", Val, IntS)
BXOR = z3.Function("bxor", IntS, IntS, IntS)
BAND = z3.Function("band", IntS, IntS, IntS)
BOR = z3.Function("bor", IntS, IntS, IntS)
POW2 = z3.Function("pow2", IntS, IntS)
NULL = z3.Const("null", Ref)
NONEVAL = z3.Const("none_val", Val)
MATCHVAL = z3.Function("match_val", Str, Str, Val)
STR_LT = z3.Function("str_lt", Str, Str, BoolS)


def strfn(name, *sorts):
    return z3.Function("str_" + name, *sorts)


class LoopMeta:
    def __init__(self):
        self.mods = set()        # ('local',n) ('cell',root) ('heap',f) ('rec',root,attr)
        self.deadby = {}
        self.types = {}          # local -> list of type descriptors
        self.cellelem = {}       # root -> elem sort
        self.names = set()


class Frame:
    def __init__(self, fi, module, closure=None):
        self.fi, self.module, self.closure = fi, module, closure
        self.locals = {}


class Engine:
    """One verification task: contract of one function."""

    def __init__(self, src, contracts, axioms=(), ref_class=None, fields=None, quick_ms=10000):
        self.src, self.contracts, self.ref_class = src, contracts, ref_class
        self.fields = fields or {}            # heap field -> (type descriptor)
        self.axioms = list(axioms)
        self.loops = {}
        self.obls = []
        self.quick_ms = quick_ms
        self.externals = set()
        self.inlined = set()
        self.called = set()
        self.paths = 0
        self.folds = []
        self.templates = []
        self.root = None
        self.max_paths = 3000
        self.hooks = {}
        self.models = {}
        self.depth_limit = 30
        self.houdini_checks = 0
        self.hcache = {}
        self.fcache = {}
        self.ancache = {}
        self._keep = []
        self.root_args = None

    # ------------------------------------------------------------------------------------------ path exploration
    def explore(self, run):
        from . import solve
        self.solve = solve
        for _ in range(400):
            try:
                self.obls, self.paths = [], 0
                self.decisions = []
                self.covers = []
                while True:
                    self._reset()
                    try:
                        run(self)
                    except PathEnd:
                        pass
                    self.paths += 1
                    if self.paths > self.max_paths:
                        raise Unsupported("too many paths")
                    while self.decisions and not self.decisions[-1][1]:
                        self.decisions.pop()
                    if not self.decisions:
                        return
                    alts = self.decisions[-1][1]
                    self.decisions[-1] = (alts[0], alts[1:])
            except Restart:
                continue
        raise Unsupported("invariant inference does not converge")

    def _reset(self):
        self.pos = 0
        self.pc, self.pcset, self.known = [], set(), []
        self.cells, self.recs, self.heap = {}, {}, {}
        self.ncell = self.nrec = self.nsym = 0
        self.frames = []
        self.loopstack = []
        self.frozen = set()
        self.rebinds = {}
        self.new_refs = []
        self.tuples = set()

    def fresh(self, sort, name="v"):
        self.nsym += 1
        return z3.Const(f"{name}!{self.nsym}", sort)

    def under_pc(self, f):
        """f with the boolean constants decided on this path replaced by their values"""
        if not z3.is_expr(f) or not self.known:
            return f
        return z3.substitute(f, *self.known)

    def assume(self, f):
        f = z3.simplify(self.under_pc(f)) if z3.is_expr(f) else z3.BoolVal(bool(f))
        if z3.is_true(f):
            return
        if z3.is_false(f):
            raise PathEnd()
        self.pc.append(f)
        self.pcset.add(f.get_id())
        g, val = (f.arg(0), z3.BoolVal(False)) if z3.is_not(f) else (f, z3.BoolVal(True))
        if z3.is_const(g) and g.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            self.known.append((g, val))
        self._keep = getattr(self, "_keep", [])
        self._keep.append(f)

    def choose_n(self, n):
        if n == 1:
            return 0
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            self.decisions.append((0, list(range(1, n))))
            d = 0
        self.pos += 1
        return d

    def choose(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = z3.simplify(self.under_pc(cond))
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        neg = z3.simplify(z3.Not(cond))
        if cond.get_id() in self.pcset:
            return True
        if neg.get_id() in self.pcset:
            return False
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos][0]
        else:
            opts = [b for b, f in ((1, cond), (0, neg)) if self._feasible(f)]
            if not opts:
                raise PathEnd()
            self.decisions.append((opts[0], opts[1:]))
            d = opts[0]
        self.pos += 1
        self.assume(cond if d else neg)
        return bool(d)

    def _feasible(self, f):
        key = (tuple(h.get_id() for h in self.pc), f.get_id())
        r = self.fcache.get(key)
        if r is None:
            self._keep.append(f)
            r = self.fcache[key] = self._feasible_(f)
        return r

    def _feasible_(self, f):
        s = z3.SimpleSolver()
        s.set("timeout", 150)
        s.set("auto_config", False)
        s.set("smt.mbqi", False)
        for h in self.pc:
            s.add(h)
        s.add(f)
        return s.check() != z3.unsat

    def prove(self, name, goal, kind="post"):
        if not z3.is_expr(goal):
            goal = z3.BoolVal(bool(goal))
        self.obls.append((name, list(self.pc), self.under_pc(goal), kind))

    def check_now(self, goal):
        goal = z3.simplify(self.under_pc(goal))
        key = (tuple(f.get_id() for f in self.pc), goal.get_id())
        if key in self.hcache:
            return self.hcache[key]
        self._keep.append(goal)
        self.houdini_checks += 1
        hyps = self.all_axioms() + self.pc
        t0 = time.time()
        r = self.solve.prove(hyps, goal, self.quick_ms, quick=True).status == "proved"
        if HDEBUG:
            print("  houdini", round(time.time() - t0, 2), r, str(goal).replace("\n", " ")[:150], flush=True)
        self.hcache[key] = r
        return r

    def all_axioms(self):
        key = (len(T._lists), len(T._lits), len(self.folds), len(self.axioms))
        if getattr(self, "_axc", (None,))[0] != key:
            self._axc = (key, self._all_axioms())
        return list(self._axc[1])

    def _all_axioms(self):
        ax = list(self.axioms)
        p_, t_ = z3.Consts("mp_ mt_", Str)
        ax.append(z3.ForAll([p_, t_], MATCHVAL(p_, t_) != NONEVAL, patterns=[MATCHVAL(p_, t_)]))
        ax.append(z3.ForAll([p_], RE_FLAGGED(p_, 0) == p_, patterns=[RE_FLAGGED(p_, 0)]))
        for lt in list(T._lists.values()):
            ax += lt.axioms()
        for f in self.folds:
            ax += f.axioms()
        return ax + T.string_axioms()

    # ----------------------------------------------------------------------------------------------- memory
    def new_cell(self, content):
        self.ncell += 1
        self.cells[self.ncell] = content
        return CellV(self.ncell)

    def new_list(self, lt, term):
        return self.new_cell(("list", lt, term))

    def new_set(self, elem, term):
        return self.new_cell(("set", elem, term))

    def new_rec(self, cls, attrs):
        self.nrec += 1
        self.recs[self.nrec] = dict(attrs)
        return RecV(self.nrec, cls)

    def content(self, v):
        if isinstance(v, CellV):
            return self.cells[v.id]
        if isinstance(v, FieldV):
            if v.epoch != self.rebinds.get(v.field, 0):
                raise Unsupported(f"list read from .{v.field} before that field was bound anew (aliasing)")
            ty = self.fields[v.field]
            lt = ty[1]
            return ("list", lt, z3.Select(self.heap_arr(v.field), v.ref))
        raise Unsupported(f"content of {v}")

    def set_content(self, v, c):
        if isinstance(v, CellV):
            if v.id in self.frozen:
                raise Unsupported("mutation of a list after it was stored in a heap field (aliasing)")
            self.note_write(("cell", v.id), c)
            self.cells[v.id] = c
        else:
            if c[0] == "clist":
                lt = self.fields[v.field][1]
                c = ("list", lt, self.clist_term(c[1], lt))
            self.note_write(("heap", v.field))
            self.heap[v.field] = z3.Store(self.heap_arr(v.field), v.ref, c[2])

    def heap_arr(self, f):
        if f not in self.heap:
            ty = self.fields[f]
            self.heap[f] = z3.Const(f"H0_{f}", z3.ArraySort(Ref, self.ty_sort(ty)))
        return self.heap[f]

    def ty_sort(self, ty):
        if isinstance(ty, tuple):
            if ty[0] == "list":
                return ty[1].sort
            if ty[0] == "opt_ref":
                return Ref
        return SORT[ty]

    def note_write(self, loc, c=None):
        """record a write for every enclosing loop whose pre-state already contained the location"""
        for lp in self.loopstack:
            meta = lp["meta"]
            if loc[0] == "cell":
                if loc[1] in lp["precells"]:
                    root = self.cell_root(lp, loc[1])
                    if c is not None:
                        self._note_elem(meta, root, c)
                    if ("cell", root) not in meta.mods:
                        meta.mods.add(("cell", root))
                        raise Restart()
            elif loc[0] == "heap":
                if loc not in meta.mods:
                    meta.mods.add(loc)
                    raise Restart()
            elif loc[0] == "rec":
                if loc[1] in lp["prerecs"]:
                    root = self.rec_root(lp, loc[1])
                    if ("rec", root, loc[2]) not in meta.mods:
                        meta.mods.add(("rec", root, loc[2]))
                        raise Restart()

    def _note_elem(self, meta, root, c):
        el = None
        if c[0] == "list":
            el = c[1].elem
        elif c[0] == "set":
            el = c[1]
        elif c[0] in ("clist", "cset") and c[1]:
            el = self.term_of(c[1][-1]).sort()
        elif c[0] == "dict":
            el = (c[1], c[2])
        if el is not None and root not in meta.cellelem:
            meta.cellelem[root] = el
            raise Restart()

    def cell_root(self, lp, cid):
        for n, v in lp["prelocals"].items():
            if isinstance(v, CellV) and v.id == cid:
                return ("local", n)
        for rid, attrs in lp["prerecs"].items():
            for a, v in attrs.items():
                if isinstance(v, CellV) and v.id == cid:
                    return ("recattr", self.rec_root(lp, rid), a)
        return ("id", cid)

    def rec_root(self, lp, rid):
        for n, v in lp["prelocals"].items():
            if isinstance(v, RecV) and v.id == rid:
                return ("local", n)
        return ("id", rid)

    def root_cell(self, lp, root):
        if root[0] == "local":
            v = lp["prelocals"].get(root[1])
            return v.id if isinstance(v, CellV) else None
        if root[0] == "recattr":
            rid = self.root_rec(lp, root[1])
            if rid is None:
                return None
            v = lp["prerecs"][rid].get(root[2])
            return v.id if isinstance(v, CellV) else None
        return root[1] if root[1] in lp["precells"] else None

    def root_rec(self, lp, root):
        if root[0] == "local":
            v = lp["prelocals"].get(root[1])
            return v.id if isinstance(v, RecV) else None
        return root[1] if root[1] in lp["prerecs"] else None

    # ----------------------------------------------------------------------------------------------- terms
    def term_of(self, v, sort=None):
        if isinstance(v, Sc):
            if sort is not None and sort != v.t.sort():
                if v.ty == "bool" and sort == IntS:
                    return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
                raise Unsupported(f"sort mismatch {v.t.sort()} / {sort}")
            return v.t
        if isinstance(v, NoneV):
            if sort in (None, Ref):
                return NULL
            if sort == Val:
                return NONEVAL
            raise Unsupported("None stored where " + str(sort))
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] == "list":
                return c[2]
            if c[0] == "clist":
                lt = T.list_theory_of_sort(sort) if sort is not None else None
                if lt is None:
                    if not c[1]:
                        raise Unsupported("empty list of unknown element type")
                    lt = T.list_of(self.term_of(c[1][0]).sort())
                return self.clist_term(c[1], lt)
            if c[0] == "set":
                return c[2]
        if isinstance(v, MatchV) and sort in (None, Val):
            return MATCHVAL(v.pat, v.text)
        if isinstance(v, TupV):
            lt = T.list_theory_of_sort(sort) if sort is not None else T.list_of(self.term_of(v.items[0]).sort())
            return self.clist_term(v.items, lt)
        raise Unsupported(f"no term for {v!r}")

    def clist_term(self, items, lt):
        t = lt.nil
        for it in items:
            t = lt.snoc(t, self.term_of(it, lt.elem))
        return t

    def wrap(self, t, ty=None):
        """z3 term -> value"""
        s = t.sort()
        if s == IntS:
            return Sc("int", t)
        if s == BoolS:
            return Sc("bool", t)
        if s == Str:
            return Sc("str", t)
        if s == Ref:
            if t.eq(NULL):
                return NONE
            return Sc("ref", t, self.ref_class)
        if s == Val:
            return Sc("val", t)
        lt = T.list_theory_of_sort(s)
        if lt is not None:
            v = self.new_list(lt, t)
            if not self.hooks.get("inner_lists"):
                self.frozen.add(v.id)          # an inner list read out of an outer one is shared: its mutation is outside the subset
            return v
        if isinstance(s, z3.ArraySortRef) and s.range() == BoolS:
            return self.new_set(s.domain(), t)
        raise Unsupported(f"wrap {s}")

    def mk(self, ty, name):
        """fresh symbolic value of a declared type"""
        if ty == "none":
            return NONE
        if isinstance(ty, str) and ty in SORT:
            return self.wrap(self.fresh(SORT[ty], name)) if ty != "ref" else Sc("ref", self.fresh(Ref, name), self.ref_class)
        if isinstance(ty, tuple):
            if ty[0] == "list":
                lt = ty[1] if isinstance(ty[1], T.ListTheory) else T.list_of(SORT[ty[1]])
                return self.new_list(lt, self.fresh(lt.sort, name))
            if ty[0] == "tuplelist":             # a tuple of unknown length
                v = self.new_list(ty[1], self.fresh(ty[1].sort, name))
                self.frozen.add(v.id)
                self.tuples.add(v.id)
                return v
            if ty[0] == "set":
                return self.new_set(SORT[ty[1]], self.fresh(z3.SetSort(SORT[ty[1]]), name))
            if ty[0] == "union":
                return self.mk(ty[1][self.choose_n(len(ty[1]))], name)
            if ty[0] == "const":
                return self.lift(ty[1])
            if ty[0] == "tuple":
                return TupV([self.mk(x, f"{name}_{i}") for i, x in enumerate(ty[1])])
            if ty[0] == "make":
                return ty[1](self, name)
        raise Unsupported(f"type {ty}")

    def lift(self, x):
        if x is None:
            return NONE
        if isinstance(x, bool):
            return B(x)
        if isinstance(x, int):
            return I(x)
        if isinstance(x, str):
            return S(x)
        if isinstance(x, float):
            raise Unsupported("float")
        if isinstance(x, (list,)):
            return self.new_cell(("clist", [self.lift(i) for i in x]))
        if isinstance(x, tuple):
            return TupV([self.lift(i) for i in x])
        if isinstance(x, dict):
            return self.new_cell(("cdict", {k: self.lift(v) for k, v in x.items()}))
        raise Unsupported(f"lift {type(x)}")

    def pyval(self, v):
        """concrete python value or raise KeyError"""
        if isinstance(v, NoneV):
            return None
        if isinstance(v, Sc):
            t = z3.simplify(v.t) if v.ty in ("int", "bool") else v.t
            if v.ty == "int" and z3.is_int_value(t):
                return t.as_long()
            if v.ty == "bool" and (z3.is_true(t) or z3.is_false(t)):
                return z3.is_true(t)
            if v.ty == "str":
                s = T.lit_value(t)
                if s is not None:
                    return s
        if isinstance(v, TupV):
            return tuple(self.pyval(i) for i in v.items)
        raise KeyError

    def is_conc(self, v):
        try:
            self.pyval(v)
            return True
        except KeyError:
            return False

    def tydesc(self, v):
        if isinstance(v, Sc):
            return (v.ty, v.cls)
        if isinstance(v, NoneV):
            return ("none",)
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            return ("cellk", {"clist": "list", "cset": "set", "cdict": "dict"}.get(c[0], c[0]))
        if isinstance(v, RecV):
            return ("rec", v.cls)
        if isinstance(v, TupV):
            return ("tuple",) + tuple(self.tydesc(i) for i in v.items)
        return (type(v).__name__, id(v))

    # ----------------------------------------------------------------------------------------------- truth & equality
    def truth(self, v):
        """z3 bool (or python bool) for bool(v)"""
        if isinstance(v, NoneV):
            return False
        if isinstance(v, Sc):
            if v.ty == "bool":
                return v.t
            if v.ty == "int":
                return v.t != 0
            if v.ty == "str":
                p = T.lit_value(v.t)
                if p is not None:
                    return bool(p)
                return v.t != slit("")
            if v.ty == "ref":
                m = self.src.find_method(v.cls, "__bool__") or self.src.find_method(v.cls, "__len__") if v.cls else None
                if m is not None:
                    return self.truth(self.call(BoundV(v, m), [], {}))
                return True
            if v.ty == "val" and self.hooks.get("match_vals", True):
                return v.t != NONEVAL          # a regex match object or None
            raise Unsupported("truth of opaque")
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] in ("clist", "cset", "cdict"):
                return bool(c[1])
            if c[0] == "list":
                return z3.Not(c[2] == c[1].nil)
            if c[0] == "set":
                return z3.Not(c[2] == z3.EmptySet(c[1]))
            if c[0] == "dict":
                return z3.Not(c[3] == z3.EmptySet(c[1]))
        if isinstance(v, TupV):
            return bool(v.items)
        if isinstance(v, RecV):
            m = self.src.find_method(v.cls, "__bool__") or self.src.find_method(v.cls, "__len__")
            if m is not None:
                return self.truth(self.call(BoundV(v, m), [], {}))
            return True
        if isinstance(v, IterV):
            return True
        return True

    def truthy(self, v):
        return self.choose(self.truth(v))

    def eq(self, a, b):
        """z3 bool / python bool for a == b"""
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if isinstance(a, NoneV) and isinstance(b, NoneV):
                return True
            o = b if isinstance(a, NoneV) else a
            if isinstance(o, RecV):
                return self.rec_eq(o, NONE)
            return False
        if isinstance(a, RecV):
            return self.rec_eq(a, b)
        if isinstance(b, RecV):
            return self.rec_eq(b, a)
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty == "ref" and b.ty == "ref":
                return self.ref_eq(a, b)
            if a.ty == b.ty:
                if a.ty == "str" and T.lit_value(a.t) is not None and T.lit_value(b.t) is not None:
                    return T.lit_value(a.t) == T.lit_value(b.t)
                h = self.hooks.get("str_eq")
                if h is not None and a.ty == "str":
                    r = h(self, a.t, b.t)
                    if r is not None:
                        return r
                return a.t == b.t
            if {a.ty, b.ty} == {"int", "bool"}:
                return self.term_of(a, IntS) == self.term_of(b, IntS)
            if "val" in (a.ty, b.ty):
                raise Unsupported("== on opaque value")
            if "ref" in (a.ty, b.ty):
                r, o = (a, b) if a.ty == "ref" else (b, a)
                return self.ref_eq(r, o)
            return False
        if isinstance(a, TupV) and isinstance(b, TupV):
            if len(a.items) != len(b.items):
                return False
            return self.conj([self.eq(x, y) for x, y in zip(a.items, b.items)])
        for u, w in ((a, b), (b, a)):
            if isinstance(u, CellV) and u.id in self.tuples and isinstance(w, TupV):
                return self.content(u)[2] == self.clist_term(w.items, self.content(u)[1])
        if isinstance(a, (CellV, FieldV)) and isinstance(b, (CellV, FieldV)):
            if (isinstance(a, CellV) and a.id in self.tuples) != (isinstance(b, CellV) and b.id in self.tuples):
                return False
            ca, cb = self.content(a), self.content(b)
            if ca[0] == "clist" and cb[0] == "clist":
                if len(ca[1]) != len(cb[1]):
                    return False
                return self.conj([self.eq(x, y) for x, y in zip(ca[1], cb[1])])
            if ca[0] in ("list", "clist") and cb[0] in ("list", "clist"):
                if ca[0] == "list":
                    return ca[2] == self.term_of(b, ca[1].sort)
                return self.term_of(a, cb[1].sort) == cb[2]
            if ca[0] in ("set", "cset") and cb[0] in ("set", "cset"):
                elem = ca[1] if ca[0] == "set" else (cb[1] if cb[0] == "set" else None)
                if elem is None:
                    raise Unsupported("cset eq")
                return self.set_term(a, elem) == self.set_term(b, elem)
            return False
        if type(a) is not type(b):
            return False
        if isinstance(a, ClsV):
            return a.cls is b.cls
        if isinstance(a, ExtV):
            return a.name == b.name
        raise Unsupported(f"== on {a} {b}")

    def conj(self, fs):
        fs = [f for f in fs if f is not True]
        if any(f is False for f in fs):
            return False
        if not fs:
            return True
        return z3.And(*fs) if len(fs) > 1 else fs[0]

    def ref_eq(self, a, b):
        m = self.src.find_method(self.ref_class, "__eq__") if self.ref_class else None
        if m is None:
            return a.t == b.t if isinstance(b, Sc) and b.ty == "ref" else False
        return self.truth(self.call(BoundV(a, m), [b], {}))

    def rec_eq(self, a, b):
        m = self.src.find_method(a.cls, "__eq__")
        if m is None:
            return isinstance(b, RecV) and b.id == a.id
        return self.truth(self.call(BoundV(a, m), [b], {}))

    def identical(self, a, b):
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            if isinstance(a, NoneV) and isinstance(b, NoneV):
                return True
            o = b if isinstance(a, NoneV) else a
            if isinstance(o, Sc) and o.ty == "ref":
                return o.t == NULL
            if isinstance(o, Sc) and o.ty == "val":
                return o.t == NONEVAL
            return False
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty != b.ty:
                return False
            return a.t == b.t
        if isinstance(a, CellV) and isinstance(b, CellV):
            return a.id == b.id
        if isinstance(a, RecV) and isinstance(b, RecV):
            return a.id == b.id
        if isinstance(a, ClsV) and isinstance(b, ClsV):
            return a.cls is b.cls
        if isinstance(a, ExtV) and isinstance(b, ExtV):
            return a.name == b.name
        return False

    def set_term(self, v, elem):
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] == "set":
                return c[2]
            if c[0] == "cset":
                t = z3.EmptySet(elem)
                for i in c[1]:
                    t = z3.Store(t, self.term_of(i, elem), True)
                return t
            if c[0] == "list":
                return c[1].setof(c[2])
            if c[0] == "clist":
                t = z3.EmptySet(elem)
                for i in c[1]:
                    t = z3.Store(t, self.term_of(i, elem), True)
                return t
        raise Unsupported("set_term")

    # ----------------------------------------------------------------------------------------------- names
    def lookup(self, name):
        fr = self.frames[-1]
        f = fr
        while f is not None:
            if name in f.locals:
                v = f.locals[name]
                if v is None:
                    raise Unsupported(f"variable {name} may be unbound")
                return v
            f = f.closure
        if fr.fi is not None and getattr(fr.fi, "node", None) is not None and not isinstance(fr.fi.node, ast.Lambda):
            if name in self.local_names(fr.fi.node):
                raise SymRaise("UnboundLocalError")
        return self.global_value(fr.module, name)

    def local_names(self, node):
        c = self.__dict__.setdefault("_local_names", {})
        if id(node) not in c:
            g = {n for x in ast.walk(node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
            c[id(node)] = (self.assigned_names(node.body) - g, node)
        return c[id(node)][0]

    def global_value(self, module, name):
        r = self.src.resolve(module, name) if module is not None else None
        if isinstance(r, FuncInfo):
            return FuncV(r)
        if isinstance(r, ClassInfo):
            return ClsV(r)
        if isinstance(r, tuple):
            if r[0] == "mod":
                return ModV(r[1])
            if r[0] == "ext":
                return ExtV(r[1])
            if r[0] == "const":
                self.frames.append(Frame(None, r[1]))
                try:
                    return self.eval(r[2])
                finally:
                    self.frames.pop()
        return ExtV(name)

    # ----------------------------------------------------------------------------------------------- statements
    def block(self, stmts):
        for st in stmts:
            self.stmt(st)

    def is_noop_call(self, node):
        s = ast.unparse(node.func)
        return s.split(".")[0] in ("logger", "warnings", "deprecation_warning") or s in ("print", "_log.debug")

    def stmt(self, st):
        m = getattr(self, "st_" + type(st).__name__, None)
        if m is None:
            raise Unsupported(f"statement {type(st).__name__}")
        m(st)

    def st_Pass(self, st):
        pass

    st_Global = st_Nonlocal = st_Pass

    def st_Import(self, st):
        for a in st.names:
            self.frames[-1].locals[a.asname or a.name.split(".")[0]] = ExtV(a.name)

    def st_ImportFrom(self, st):
        raise Unsupported("local import")

    def st_Expr(self, st):
        if isinstance(st.value, ast.Constant):
            return
        if isinstance(st.value, ast.Call) and self.is_noop_call(st.value):
            return
        self.eval(st.value)

    def st_Assert(self, st):
        if not self.truthy(self.eval(st.test)):
            raise SymRaise("AssertionError", st)

    def st_Return(self, st):
        raise _Return(self.eval(st.value) if st.value is not None else NONE)

    def st_Break(self, st):
        raise _Break()

    def st_Continue(self, st):
        raise _Continue()

    def st_If(self, st):
        if self.truthy(self.eval(st.test)):
            self.block(st.body)
        else:
            self.block(st.orelse)

    def st_Raise(self, st):
        if st.exc is None:
            raise getattr(self, "_cur_exc", None) or SymRaise("Exception", st)
        e = st.exc
        if isinstance(e, ast.Name):
            held = self.frames[-1].locals.get(e.id)
            if isinstance(held, ExtV) and held.name.startswith("exc:"):       # the exception an `except ... as e` caught
                raise SymRaise(held.name[4:], st)
        name = ast.unparse(e.func if isinstance(e, ast.Call) else e).split(".")[-1]
        raise SymRaise(name, st)

    EXC_BASE = {"ValueError": ("Exception",), "TypeError": ("Exception",), "KeyError": ("LookupError", "Exception"),
                "IndexError": ("LookupError", "Exception"), "AttributeError": ("Exception",),
                "AddressValueError": ("ValueError", "Exception"), "NotImplementedError": ("RuntimeError", "Exception"),
                "AssertionError": ("Exception",), "RequirementFailure": ("Exception",), "OverflowError": ("ArithmeticError", "Exception"),
                "NetmaskValueError": ("ValueError", "Exception"), "StopIteration": ("Exception",), "OSError": ("Exception",),
                "FileNotFoundError": ("OSError", "Exception"), "UnicodeDecodeError": ("ValueError", "Exception")}

    def exc_matches(self, name, handler):
        if handler is None:
            return True
        names = handler.elts if isinstance(handler, ast.Tuple) else [handler]
        hs = {ast.unparse(h).split(".")[-1] for h in names}
        if name in hs or "BaseException" in hs:
            return True
        bases = set(self.EXC_BASE.get(name, ("Exception",)))
        r = None
        for m in self.src.modules.values():
            if name in m.classes:
                bases |= self.src.base_names(m.classes[name]) | {"Exception"}
        return bool(bases & hs)

    def st_Try(self, st):
        try:
            try:
                self.block(st.body)
            except SymRaise as e:
                for h in st.handlers:
                    if self.exc_matches(e.name, h.type):
                        if h.name:
                            self.frames[-1].locals[h.name] = ExtV("exc:" + e.name)
                        old = getattr(self, "_cur_exc", None)
                        self._cur_exc = e
                        try:
                            self.block(h.body)
                        finally:
                            self._cur_exc = old
                        break
                else:
                    raise
            else:
                self.block(st.orelse)
        finally:
            if st.finalbody:
                self.block(st.finalbody)

    def st_With(self, st):
        """`with`: the hook "context" says what entering binds and does the leaving; leaving suppresses no exception"""
        h = self.hooks.get("context")
        held = []
        for it in st.items:
            v = self.eval(it.context_expr)
            if h is None or (b := h(self, v, "enter")) is None:
                raise Unsupported(f"with {ast.unparse(it.context_expr)}")
            held.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, b)
        try:
            self.block(st.body)
        finally:
            for v in reversed(held):
                h(self, v, "exit")

    def st_FunctionDef(self, st):
        fi = FuncInfo(self.frames[-1].module, None, st, st.name)
        self.frames[-1].locals[st.name] = FuncV(fi, closure=self.frames[-1])

    def st_Delete(self, st):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.frames[-1].locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                self.del_item(self.eval(t.value), self.eval(t.slice))
            else:
                raise Unsupported("del")

    def st_Assign(self, st):
        v = self.eval(st.value)
        for t in st.targets:
            self.assign(t, v)

    def st_AnnAssign(self, st):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value))

    def st_AugAssign(self, st):
        cur = self.eval(st.target)
        rhs = self.eval(st.value)
        if isinstance(cur, (CellV, FieldV)) and isinstance(st.op, ast.Add):
            self.list_extend(cur, rhs)
            return
        if isinstance(cur, (CellV, FieldV)) and isinstance(st.op, ast.BitOr):
            self.method(cur, "update", [rhs], {})
            return
        self.assign(st.target, self.binop(st.op, cur, rhs))

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.frames[-1].locals[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.concrete_items(v)
            if items is None or len(items) != len(t.elts):
                raise Unsupported("unpack")
            for a, b in zip(t.elts, items):
                self.assign(a, b)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.set_item(self.eval(t.value), self.eval(t.slice), v)
        else:
            raise Unsupported("assign target")

    def concrete_items(self, v):
        if isinstance(v, TupV):
            return v.items
        if isinstance(v, ConcIterV):
            return v.items
        if isinstance(v, CellV):
            c = self.content(v)
            if c[0] in ("clist",):
                return list(c[1])
        return None

    # ----------------------------------------------------------------------------------------------- attributes
    def setattr(self, o, name, v):
        if isinstance(o, Sc) and o.ty == "ref":
            if self.choose(o.t == NULL):
                raise SymRaise("AttributeError")
            st = self.src.find_setter(o.cls, name) if o.cls else None
            if st is not None:
                self.call(BoundV(o, st), [v], {})
                return
            if name not in self.fields:
                if name in self.hooks.get("ignored_fields", ()):
                    return
                raise Unsupported(f"field {name}")
            ty = self.fields[name]
            srt = self.ty_sort(ty)
            if isinstance(v, CellV):
                t = self.term_of(v, srt)
                c = self.content(v)
                if c[0] == "clist":
                    self.cells[v.id] = ("list", T.list_theory_of_sort(srt), t)
                self.frozen.add(v.id)
            elif isinstance(v, NoneV):
                if srt == BoolS:
                    t = z3.BoolVal(False)     # tri-state fields declared 'bool' treat None as False (see contracts)
                elif srt == Ref:
                    t = NULL
                else:
                    raise Unsupported(f"None into {name}")
            else:
                if isinstance(v, FieldV):
                    raise Unsupported("one list stored in two heap fields (aliasing)")
                t = self.term_of(v, srt)
            if isinstance(ty, tuple) and ty[0] == "list":
                self.rebinds[name] = self.rebinds.get(name, 0) + 1
            self.note_write(("heap", name))
            self.heap[name] = z3.Store(self.heap_arr(name), o.t, t)
            return
        if isinstance(o, RecV):
            st = self.src.find_setter(o.cls, name) if o.cls else None
            if st is not None:
                self.call(BoundV(o, st), [v], {})
                return
            self.note_write(("rec", o.id, name))
            self.recs[o.id][name] = v
            return
        if isinstance(o, NoneV):
            raise SymRaise("AttributeError")
        raise Unsupported(f"setattr on {o}")

    def getattr(self, o, name, node=None):
        if isinstance(o, Sc) and o.ty == "ref":
            if self.choose(o.t == NULL):
                raise SymRaise("AttributeError")
            if name in self.fields:
                ty = self.fields[name]
                if isinstance(ty, tuple) and ty[0] == "list":
                    return FieldV(name, o.t, self.rebinds.get(name, 0))
                t = z3.Select(self.heap_arr(name), o.t)
                if name in self.hooks.get("nonnull_fields", ()):
                    self.assume(t != NULL)
                return self.wrap(t)
            if name in self.hooks.get("ref_attrs", {}):
                return self.hooks["ref_attrs"][name](self, o)
            m = self.src.find_method(o.cls, name)
            if m is not None:
                if m.is_property:
                    return self.call(BoundV(o, m), [], {})
                return BoundV(o, m)
            raise Unsupported(f"line attribute {name}")
        if isinstance(o, RecV):
            attrs = self.recs[o.id]
            if name in attrs:
                return attrs[name]
            if o.cls is not None:
                m = self.src.find_method(o.cls, name)
                if m is not None:
                    if m.is_property:
                        return self.call(BoundV(o, m), [], {})
                    return BoundV(o, m)
                a = self.src.find_attr(o.cls, name)
                if a is not None:
                    self.frames.append(Frame(None, a[0].module))
                    try:
                        return self.eval(a[1])
                    finally:
                        self.frames.pop()
            h = self.hooks.get("rec_attr")
            if h is not None:
                r = h(self, o, name)
                if r is not None:
                    return r
            raise SymRaise("AttributeError", node, name)
        if isinstance(o, ModV):
            return self.global_value(o.m, name)
        if isinstance(o, ExtV) and o.name.startswith("opaque "):
            return ExtV(o.name)
        if isinstance(o, ExtV):
            if o.name == "super":
                fr = self.frames[-1]
                me = fr.locals.get(fr.fi.node.args.args[0].arg) if fr.fi is not None and fr.fi.cls is not None else None
                if me is None:
                    raise Unsupported("super() outside a method")
                own = me.cls if getattr(me, "cls", None) is not None else fr.fi.cls
                mro = list(self.src.mro(own))
                names = [c.name for c in mro]
                here = fr.fi.cls.name if hasattr(fr.fi.cls, "name") else fr.fi.cls
                for c in mro[names.index(here) + 1:] if here in names else []:
                    if name in c.methods:
                        return BoundV(me, c.methods[name])
                if name == "__init__":
                    return ExtV("object.__init__")
                raise Unsupported(f"super().{name}")
            if o.name + "." + name == "sys.version_info":
                return TupV([I(3), I(12)])          # the interpreter of this project's environment
            return ExtV(o.name + "." + name)
        if isinstance(o, ClsV):
            m = self.src.find_method(o.cls, name)
            if m is not None:
                return FuncV(m)
            a = self.src.find_attr(o.cls, name)
            if a is not None:
                self.frames.append(Frame(None, a[0].module))
                try:
                    return self.eval(a[1])
                finally:
                    self.frames.pop()
            if name == "__name__":
                return S(o.cls.name)
            raise Unsupported(f"class attr {name}")
        if isinstance(o, NoneV):
            raise SymRaise("AttributeError", node)
        if isinstance(o, RegexV) and name == "pattern":
            return Sc("str", o.pat)
        return MethV(o, name)

    # ----------------------------------------------------------------------------------------------- expressions
    def eval(self, n):
        m = getattr(self, "ev_" + type(n).__name__, None)
        if m is None:
            raise Unsupported(f"expression {type(n).__name__}")
        return m(n)

    def ev_Constant(self, n):
        if isinstance(n.value, bytes) or n.value is Ellipsis or isinstance(n.value, float):
            raise Unsupported("constant")
        return self.lift(n.value)

    def ev_Name(self, n):
        return self.lookup(n.id)

    def ev_Attribute(self, n):
        return self.getattr(self.eval(n.value), n.attr, n)

    def ev_Tuple(self, n):
        return TupV([self.eval(e) for e in n.elts])

    def ev_List(self, n):
        return self.new_cell(("clist", [self.eval(e) for e in n.elts]))

    def ev_Set(self, n):
        return self.new_cell(("cset", [self.eval(e) for e in n.elts]))

    def ev_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                raise Unsupported("dict unpacking")
            d[self.pykey(self.eval(k))] = self.eval(v)
        return self.new_cell(("cdict", d))

    def pykey(self, v):
        if isinstance(v, ExtV):
            return ("ext", v.name)
        if isinstance(v, ClsV):
            return ("cls", v.cls.name)
        try:
            return self.pyval(v)
        except KeyError:
            raise Unsupported("symbolic dict key")

    def ev_IfExp(self, n):
        return self.eval(n.body) if self.truthy(self.eval(n.test)) else self.eval(n.orelse)

    def ev_NamedExpr(self, n):
        v = self.eval(n.value)
        self.assign(n.target, v)
        return v

    def pure_bool(self, n):
        """can this expression be evaluated without forking/side effects into a z3 bool?"""
        return False

    def ev_BoolOp(self, n):
        v = None
        for i, e in enumerate(n.values):
            v = self.eval(e)
            if i == len(n.values) - 1:
                return v
            t = self.truthy(v)
            if isinstance(n.op, ast.And) and not t:
                return v if not (isinstance(v, Sc) and v.ty == "bool") else B(False)
            if isinstance(n.op, ast.Or) and t:
                return v if not (isinstance(v, Sc) and v.ty == "bool") else B(True)
        return v

    def ev_UnaryOp(self, n):
        v = self.eval(n.operand)
        if isinstance(n.op, ast.Not):
            t = self.truth(v)
            return B(not t) if isinstance(t, bool) else B(z3.Not(t))
        if isinstance(n.op, ast.USub) and isinstance(v, Sc) and v.ty == "int":
            return I(-v.t)
        if isinstance(n.op, ast.UAdd) and isinstance(v, Sc) and v.ty == "int":
            return v
        raise Unsupported("unary op")

    def ev_Compare(self, n):
        left = self.eval(n.left)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r)
            c = self.compare(op, left, right)
            if len(n.ops) == 1:
                return B(c)
            if not self.choose(c):
                return B(False)
            left = right
        return B(True)

    def compare(self, op, a, b):
        if isinstance(op, ast.Is):
            return self.identical(a, b)
        if isinstance(op, ast.IsNot):
            r = self.identical(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, ast.Eq):
            return self.eq(a, b)
        if isinstance(op, ast.NotEq):
            for o in (a, b):
                cls = getattr(o, "cls", None) if isinstance(o, (RecV, Sc)) else None
                if cls is not None:
                    m = self.src.find_method(cls, "__ne__")
                    if m is not None:
                        other = b if o is a else a
                        return self.truth(self.call(BoundV(o, m), [other], {}))
                    break
            r = self.eq(a, b)
            return (not r) if isinstance(r, bool) else z3.Not(r)
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            if isinstance(op, ast.NotIn):
                return (not r) if isinstance(r, bool) else z3.Not(r)
            return r
        name = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}[type(op)]
        refl = {"__lt__": "__gt__", "__gt__": "__lt__", "__le__": "__ge__", "__ge__": "__le__"}
        for o, other, nm in ((a, b, name), (b, a, refl[name])):
            cls = getattr(o, "cls", None)
            if cls is not None:
                m = self.src.find_method(cls, nm)
                if m is not None:
                    return self.truth(self.call(BoundV(o, m), [other], {}))
        if isinstance(a, TupV) and isinstance(b, TupV):
            return self.tuple_less(name, a.items, b.items)
        if isinstance(a, (CellV, FieldV)) and isinstance(b, (CellV, FieldV)):
            ca, cb = self.content(a), self.content(b)
            if ca[0] == cb[0] == "clist":
                return self.tuple_less(name, ca[1], cb[1])
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty in ("int", "bool") and b.ty in ("int", "bool"):
            x, y = self.term_of(a, IntS), self.term_of(b, IntS)
            return {"__lt__": x < y, "__gt__": x > y, "__le__": x <= y, "__ge__": x >= y}[name]
        if isinstance(a, Sc) and isinstance(b, Sc) and a.ty == b.ty == "str":
            x, y = a.t, b.t
            lt = STR_LT
            return {"__lt__": lt(x, y), "__gt__": lt(y, x), "__le__": z3.Not(lt(y, x)), "__ge__": z3.Not(lt(x, y))}[name]
        if isinstance(a, NoneV) or isinstance(b, NoneV) or (isinstance(a, Sc) and isinstance(b, Sc)):
            raise SymRaise("TypeError")
        raise Unsupported(f"comparison {a} {b}")

    def tuple_less(self, name, xs, ys):
        strict = name in ("__lt__", "__gt__")
        if not xs or not ys:
            n, m = len(xs), len(ys)
            return {"__lt__": n < m, "__gt__": n > m, "__le__": n <= m, "__ge__": n >= m}[name]
        e = self.eq(xs[0], ys[0])
        if self.choose(e):
            return self.tuple_less(name, xs[1:], ys[1:])
        return self.compare({"__lt__": ast.Lt(), "__le__": ast.Lt(), "__gt__": ast.Gt(), "__ge__": ast.Gt()}[name], xs[0], ys[0])

    def contains(self, c, x):
        if isinstance(c, (CellV, FieldV)):
            k = self.content(c)
            if k[0] in ("clist", "cset"):
                for i in k[1]:
                    if self.choose(self.eq(x, i)):
                        return True
                return False
            if k[0] == "list":
                if isinstance(x, NoneV):
                    if k[1].elem == Ref:
                        return k[1].mem(NULL, k[2])
                    return False
                if isinstance(x, Sc) and x.t.sort() != k[1].elem:
                    return False
                return k[1].mem(self.term_of(x, k[1].elem), k[2])
            if k[0] == "set":
                return z3.Select(k[2], self.term_of(x, k[1]))
            if k[0] == "cdict":
                try:
                    return self.pykey(x) in k[1]
                except Unsupported:
                    return z3.Or(*[e if z3.is_expr(e) else z3.BoolVal(bool(e)) for e in (self.eq(x, self.lift(key)) for key in k[1])])
            if k[0] == "dict":
                return z3.Select(k[3], self.term_of(x, k[1]))
        if isinstance(c, TupV):
            for i in c.items:
                if self.choose(self.eq(x, i)):
                    return True
            return False
        if isinstance(c, Sc) and c.ty == "str" and isinstance(x, Sc) and x.ty == "str":
            if self.is_conc(c) and self.is_conc(x):
                return self.pyval(x) in self.pyval(c)
            h = self.hooks.get("str_in")
            if h is not None:
                r = h(self, x.t, c.t)
                if r is not None:
                    return r
            return STR_IN(x.t, c.t)
        if isinstance(c, RecV):
            m = self.src.find_method(c.cls, "__contains__")
            if m is not None:
                return self.truth(self.call(BoundV(c, m), [x], {}))
            r = self.iterable(c)
            return self.contains(r, x)
        if isinstance(c, RangeV) and c.base is None and isinstance(x, Sc):
            return z3.And(c.lo <= x.t, x.t < c.hi)
        if isinstance(c, IterV):
            raise Unsupported("in on iterator")
        raise Unsupported(f"in {c}")

    def ev_BinOp(self, n):
        return self.binop(n.op, self.eval(n.left), self.eval(n.right))

    def concat(self, parts):
        """left-normalised concatenation of Str terms, adjacent literals merged"""
        flat = []

        def add(t):
            if t.decl().eq(T.sconcat):
                add(t.arg(0))
                add(t.arg(1))
                return
            v = T.lit_value(t)
            if v == "":
                return
            if v is not None and flat and T.lit_value(flat[-1]) is not None:
                flat[-1] = slit(T.lit_value(flat[-1]) + v)
                return
            flat.append(t)
        for p in parts:
            add(p)
        if not flat:
            return slit("")
        r = flat[0]
        for f in flat[1:]:
            r = T.sconcat(r, f)
        return r

    def to_str(self, v):
        if isinstance(v, Sc):
            if v.ty == "str":
                return v.t
            if v.ty == "int":
                if self.is_conc(v):
                    return slit(str(self.pyval(v)))
                return T.str_of_int(v.t)
            if v.ty == "bool" and self.is_conc(v):
                return slit(str(self.pyval(v)))
        if isinstance(v, NoneV):
            return slit("None")
        if isinstance(v, RecV) and v.cls is not None:
            m = self.src.find_method(v.cls, "__str__") or self.src.find_method(v.cls, "__repr__")
            if m is not None:
                r = self.call(BoundV(v, m), [], {})
                return r.t
        h = self.hooks.get("to_str")
        if h is not None:
            r = h(self, v)
            if r is not None:
                return r
        if isinstance(v, ExtV) and v.name.startswith("opaque "):
            return self.fresh(Str, "opaque")
        if isinstance(v, ExtV):
            return slit(f"<class '{v.name}'>")
        if isinstance(v, ClsV):
            return slit(f"<class '{v.cls.name}'>")
        raise Unsupported(f"str() of {v}")

    def binop(self, op, a, b):
        if isinstance(op, ast.Mod) and isinstance(a, Sc) and a.ty == "str":
            fmt = T.lit_value(a.t)
            if fmt is None:
                raise Unsupported("% with symbolic format")
            args = list(b.items) if isinstance(b, TupV) else [b]
            out, i = [], 0
            while i < len(fmt):
                if fmt[i] == "%" and i + 1 < len(fmt):
                    if fmt[i + 1] in "sd":
                        out.append(self.to_str(args.pop(0)))
                        i += 2
                        continue
                    if fmt[i + 1] == "c" and isinstance(args[0], Sc) and args[0].ty == "int":
                        out.append(self.chr_term(args.pop(0).t, "OverflowError"))
                        i += 2
                        continue
                    if fmt[i + 1] == "%":
                        out.append(slit("%"))
                        i += 2
                        continue
                    raise Unsupported("% format")
                out.append(slit(fmt[i]))
                i += 1
            return Sc("str", self.concat(out))
        for o, other, nm in ((a, b, "__%s__"), (b, a, "__r%s__")):
            if isinstance(o, RecV) and o.cls is not None:
                opn = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul"}.get(type(op))
                if opn:
                    m = self.src.find_method(o.cls, nm % opn)
                    if m is not None:
                        return self.call(BoundV(o, m), [other], {})
        if isinstance(a, Sc) and isinstance(b, Sc):
            if a.ty in ("int", "bool") and b.ty in ("int", "bool"):
                x, y = self.term_of(a, IntS), self.term_of(b, IntS)
                if isinstance(op, ast.Add):
                    return I(x + y)
                if isinstance(op, ast.Sub):
                    return I(x - y)
                if isinstance(op, ast.Mult):
                    return I(x * y)
                if isinstance(op, (ast.FloorDiv, ast.Mod)):
                    if self.choose(y == 0):
                        raise SymRaise("ZeroDivisionError")
                    if not self.choose(y > 0):
                        raise Unsupported("division by negative")
                    return I(x / y) if isinstance(op, ast.FloorDiv) else I(x % y)
                if isinstance(op, ast.Pow):
                    if self.is_conc(a) and self.is_conc(b):
                        return I(self.pyval(a) ** self.pyval(b))
                    if self.is_conc(a) and self.pyval(a) == 2:
                        if not self.choose(y >= 0):
                            raise Unsupported("negative exponent")
                        return I(POW2(y))
                    if self.is_conc(a) and self.pyval(a) > 0:
                        if not self.choose(y >= 0):
                            raise Unsupported("negative exponent")
                        return I(z3.Function("int_pow", IntS, IntS, IntS)(x, y))
                    raise Unsupported("pow")
                if isinstance(op, ast.LShift) and self.is_conc(a) and self.pyval(a) == 1:
                    return I(POW2(y))
                if isinstance(op, ast.BitXor):
                    return I(BXOR(x, y))
                if isinstance(op, ast.BitAnd):
                    for u, w in ((x, y), (y, x)):
                        w = z3.simplify(w)
                        if z3.is_int_value(w) and w.as_long() >= 0 and (w.as_long() & (w.as_long() + 1)) == 0:
                            return I(u % z3.IntVal(w.as_long() + 1))
                    return I(BAND(x, y))
                if isinstance(op, ast.BitOr):
                    return I(BOR(x, y))
                raise Unsupported("int op")
            if a.ty == b.ty == "str" and isinstance(op, ast.Add):
                return Sc("str", self.concat([a.t, b.t]))
            if isinstance(op, ast.Mult) and {a.ty, b.ty} == {"str", "int"}:
                s, k = (a, b) if a.ty == "str" else (b, a)
                if self.is_conc(s) and self.is_conc(k):
                    return S(self.pyval(s) * self.pyval(k))
                return Sc("str", strfn("repeat", Str, IntS, Str)(s.t, k.t))
            if isinstance(op, ast.Add):
                raise SymRaise("TypeError")
        if isinstance(op, ast.Add) and isinstance(a, (CellV, FieldV)) and isinstance(b, (CellV, FieldV)):
            ca, cb = self.content(a), self.content(b)
            if ca[0] == "clist" and cb[0] == "clist":
                return self.new_cell(("clist", ca[1] + cb[1]))
            n = self.new_cell(ca)
            self.list_extend(n, b)
            return n
        if isinstance(op, ast.Sub) and isinstance(a, (CellV, FieldV)) and isinstance(b, (CellV, FieldV)):
            ca = self.content(a)
            if ca[0] == "set":
                return self.new_set(ca[1], z3.SetDifference(ca[2], self.set_term(b, ca[1])))
        if isinstance(op, (ast.BitOr, ast.BitAnd)) and isinstance(a, (CellV, FieldV)):
            ca = self.content(a)
            if ca[0] == "set":
                f = z3.SetUnion if isinstance(op, ast.BitOr) else z3.SetIntersect
                return self.new_set(ca[1], f(ca[2], self.set_term(b, ca[1])))
        if isinstance(op, ast.Add) and isinstance(a, TupV) and isinstance(b, TupV):
            return TupV(a.items + b.items)
        if isinstance(op, ast.Mult) and isinstance(a, CellV) and self.is_conc(b):
            c = self.content(a)
            if c[0] == "clist":
                return self.new_cell(("clist", c[1] * self.pyval(b)))
        if isinstance(a, NoneV) or isinstance(b, NoneV):
            raise SymRaise("TypeError")
        raise Unsupported(f"binop {type(op).__name__} {a} {b}")

    def ev_JoinedStr(self, n):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(slit(v.value))
            else:
                if v.conversion == 114 or v.conversion == 97 or v.format_spec is not None:
                    x = self.eval(v.value)
                    spec = ""
                    if v.format_spec is not None:
                        if not all(isinstance(y, ast.Constant) for y in v.format_spec.values):
                            raise Unsupported("computed format spec")
                        spec = "".join(y.value for y in v.format_spec.values)
                    if self.is_conc(x) and v.conversion == -1:
                        parts.append(slit(format(self.pyval(x), spec)))
                    elif isinstance(x, Sc) and x.ty in ("int", "str") and (v.conversion == -1 or x.ty == "str"):
                        # formatting is an uninterpreted function of the value and the format
                        parts.append(strfn(f"format_{v.conversion}_{x.ty}_{spec}", x.t.sort(), Str)(x.t))
                    else:
                        raise Unsupported("format spec")
                    continue
                parts.append(self.to_str(self.eval(v.value)))
        return Sc("str", self.concat(parts))

    def ev_Lambda(self, n):
        return FuncV(n, closure=self.frames[-1], module=self.frames[-1].module)

    def ev_Starred(self, n):
        raise Unsupported("starred")

    # ----------------------------------------------------------------------------------------------- subscripts
    def norm_index(self, i, ln):
        """python index -> (term) with IndexError fork"""
        i = z3.simplify(i)
        if z3.is_int_value(i):
            k = i.as_long()
            idx = i if k >= 0 else ln + i
        elif self.choose(i >= 0):
            idx = i
        else:
            idx = ln + i
        if not self.choose(z3.And(idx >= 0, idx < ln)):
            raise SymRaise("IndexError")
        return z3.simplify(idx)

    def ev_Slice(self, n):
        return ("slice", self.eval(n.lower) if n.lower else None, self.eval(n.upper) if n.upper else None,
                self.eval(n.step) if n.step else None)

    def ev_Subscript(self, n):
        return self.get_item(self.eval(n.value), self.eval(n.slice))

    def get_item(self, o, i):
        if isinstance(i, tuple) and i[0] == "slice":
            return self.get_slice(o, i)
        if isinstance(o, RecV):
            m = self.src.find_method(o.cls, "__getitem__")
            if m is not None:
                return self.call(BoundV(o, m), [i], {})
        if isinstance(o, TupV):
            if not self.is_conc(i) and isinstance(i, Sc) and i.ty == "int":
                return self.pick(o.items, i.t)
            return o.items[self.cindex(i, len(o.items))]
        if isinstance(o, (CellV, FieldV)):
            c = self.content(o)
            if c[0] == "clist":
                if self.is_conc(i):
                    return c[1][self.cindex(i, len(c[1]))]
                lt = T.list_of(self.term_of(c[1][0]).sort())
                idx = self.norm_index(i.t, z3.IntVal(len(c[1])))
                return self.wrap(lt.nth(self.clist_term(c[1], lt), idx))
            if c[0] == "list":
                idx = self.norm_index(i.t, c[1].len(c[2]))
                return self.wrap(c[1].nth(c[2], idx))
            if c[0] == "cdict":
                try:
                    k = self.pykey(i)
                except Unsupported:
                    return self.conc_lookup(c[1], i, None)
                if k not in c[1]:
                    raise SymRaise("KeyError")
                return c[1][k]
            if c[0] == "dict":
                k = self.term_of(i, c[1])
                if not self.choose(z3.Select(c[3], k)):
                    raise SymRaise("KeyError")
                return self.wrap(z3.Select(c[4], k))
        if isinstance(o, Sc) and o.ty == "str":
            if self.is_conc(o) and self.is_conc(i):
                s = self.pyval(o)
                k = self.pyval(i)
                if not -len(s) <= k < len(s):
                    raise SymRaise("IndexError")
                return S(s[k])
            idx = self.norm_index(i.t, T.slen(o.t))
            return Sc("str", strfn("at", Str, IntS, Str)(o.t, idx))
        if isinstance(o, MatchV):
            return self.match_group(o, i)
        if isinstance(o, NoneV):
            raise SymRaise("TypeError")
        if isinstance(o, ExtV) and o.name.startswith("opaque "):
            return ExtV(o.name)
        raise Unsupported(f"subscript of {o}")

    def pick(self, items, i):
        """element of a fixed sequence of scalars of one type at a symbolic index"""
        if not items or any(not isinstance(x, Sc) or x.t.sort() != items[0].t.sort() for x in items):
            raise Unsupported("symbolic index into fixed sequence")
        idx = self.norm_index(i, z3.IntVal(len(items)))
        t = items[-1].t
        for k in range(len(items) - 2, -1, -1):
            t = z3.If(idx == k, items[k].t, t)
        return self.wrap(t)

    def chr_term(self, n, exc):
        """chr(n) / "%c" % n"""
        if not self.choose(z3.And(n >= 0, n < 0x110000)):
            raise SymRaise(exc)
        return strfn("py_chr", IntS, Str)(n)

    def cindex(self, i, n):
        try:
            k = self.pyval(i)
        except KeyError:
            raise Unsupported("symbolic index into fixed sequence")
        if not -n <= k < n:
            raise SymRaise("IndexError")
        return k

    def get_slice(self, o, sl):
        _, lo, hi, step = sl
        if isinstance(o, Sc) and o.ty == "str":
            if self.is_conc(o) and all(x is None or self.is_conc(x) for x in sl[1:]):
                p = [None if x is None else self.pyval(x) for x in sl[1:]]
                return S(self.pyval(o)[slice(*p)])
            if step is not None:
                raise Unsupported("string slice step")
            n = T.slen(o.t)
            a = lo.t if lo is not None and not isinstance(lo, NoneV) else z3.IntVal(0)
            b = hi.t if hi is not None and not isinstance(hi, NoneV) else n
            return Sc("str", strfn("slice", Str, IntS, IntS, Str)(o.t, a, b))
        items = self.concrete_items(o)
        if items is not None and all(x is None or self.is_conc(x) for x in sl[1:]):
            p = [None if x is None else self.pyval(x) for x in sl[1:]]
            r = items[slice(*p)]
            return TupV(r) if isinstance(o, TupV) else self.new_cell(("clist", r))
        if isinstance(o, (CellV, FieldV)):
            c = self.content(o)
            if c[0] == "list" and lo is None and hi is None and step is None:
                return self.new_cell(c)
        h = self.hooks.get("slice")
        if h is not None:
            r = h(self, o, sl)
            if r is not None:
                return r
        raise Unsupported("slice")

    def set_item(self, o, i, v):
        if isinstance(o, CellV):
            c = self.content(o)
            if c[0] == "cdict":
                try:
                    k = self.pykey(i)
                    d = dict(c[1])
                    d[k] = v
                    self.set_content(o, ("cdict", d))
                    return
                except Unsupported:
                    # becomes a symbolic map
                    ks, vs = self.term_of(i).sort(), self.term_of(v).sort()
                    c = self.dict_sym(c, ks, vs)
            if c[0] == "dict":
                k = self.term_of(i, c[1])
                self.set_content(o, ("dict", c[1], c[2], z3.Store(c[3], k, True),
                                     z3.Store(c[4], k, self.term_of(v, c[2]))))
                return
            if c[0] == "clist" and self.is_conc(i):
                l = list(c[1])
                l[self.cindex(i, len(l))] = v
                self.set_content(o, ("clist", l))
                return
        raise Unsupported("item assignment")

    def dict_sym(self, c, ks, vs):
        dom = z3.EmptySet(ks)
        val = z3.K(ks, self.default_of(vs))
        for k, v in c[1].items():
            kt = self.term_of(self.lift(k), ks)
            dom = z3.Store(dom, kt, True)
            val = z3.Store(val, kt, self.term_of(v, vs))
        return ("dict", ks, vs, dom, val)

    def default_of(self, s):
        return z3.Const(f"default_{s}", s)

    def del_item(self, o, i):
        if isinstance(o, CellV):
            c = self.content(o)
            if c[0] == "cdict":
                k = self.pykey(i)
                if k not in c[1]:
                    raise SymRaise("KeyError")
                d = dict(c[1])
                del d[k]
                self.set_content(o, ("cdict", d))
                return
            if c[0] == "dict":
                k = self.term_of(i, c[1])
                if not self.choose(z3.Select(c[3], k)):
                    raise SymRaise("KeyError")
                self.set_content(o, ("dict", c[1], c[2], z3.Store(c[3], k, False), c[4]))
                return
            if c[0] == "clist" and self.is_conc(i):
                l = list(c[1])
                del l[self.cindex(i, len(l))]
                self.set_content(o, ("clist", l))
                return
            if c[0] == "list":
                lt = c[1]
                idx = self.norm_index(i.t, lt.len(c[2]))
                self.set_content(o, ("list", lt, self.remove_at(lt)(c[2], idx)))
                return
        raise Unsupported("del item")

    def remove_at(self, lt):
        return z3.Function(f"removeat_{lt.name}", lt.sort, IntS, lt.sort)

    # ----------------------------------------------------------------------------------------------- calls
    def ev_Call(self, n):
        if self.is_noop_call(n):
            return NONE
        if isinstance(n.func, ast.Name) and n.func.id == "super" and not n.args:
            return ExtV("super")
        f = self.eval(n.func)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                items = self.concrete_items(self.eval(a.value))
                if items is None:
                    raise Unsupported("*args")
                args += items
            elif isinstance(a, ast.GeneratorExp):
                args.append(("gen", a))
            else:
                args.append(self.eval(a))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.eval(k.value)
                c = self.content(d) if isinstance(d, CellV) else None
                if c is None or c[0] != "cdict":
                    raise Unsupported("**kw")
                kw.update(c[1])
                continue
            kw[k.arg] = self.eval(k.value)
        # lazily materialise generator arguments
        if args and isinstance(args[0], tuple) and args[0][0] == "gen":
            if isinstance(f, ExtV) and f.name in ("any", "all"):
                return self.anyall(f.name, args[0][1])
            args = [self.comp(a[1], "list") if isinstance(a, tuple) else a for a in args]
        return self.call(f, args, kw, n)

    def call(self, f, args, kw, node=None):
        if isinstance(f, PartialV):
            return self.call(f.f, f.args + args, {**f.kw, **kw}, node)
        if isinstance(f, BoundV):
            return self.call_func(f.fi, [f.selfv] + args, kw)
        if isinstance(f, FuncV):
            if isinstance(f.fi, ast.Lambda):
                return self.call_lambda(f, args, kw)
            return self.call_func(f.fi, args, kw, f.closure)
        if isinstance(f, MethV):
            return self.method(f.obj, f.name, args, kw)
        if isinstance(f, ExtV):
            return self.call_ext(f.name, args, kw)
        if isinstance(f, ClsV):
            return self.construct(f.cls, args, kw)
        raise Unsupported(f"call {f}")

    def call_lambda(self, f, args, kw):
        fr = Frame(None, f.module, f.closure)
        self.bind(f.fi.args, args, kw, fr)
        self.frames.append(fr)
        try:
            return self.eval(f.fi.body)
        finally:
            self.frames.pop()

    def bind(self, a, args, kw, fr):
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = dict(zip(names, args))
        if len(args) > len(names):
            if a.vararg is None:
                raise SymRaise("TypeError")
            vals[a.vararg.arg] = TupV(args[len(names):])
        elif a.vararg is not None:
            vals[a.vararg.arg] = TupV([])
        extra = {}
        for k, v in kw.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                vals[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise SymRaise("TypeError")
        if a.kwarg is not None:
            vals[a.kwarg.arg] = self.new_cell(("cdict", extra))
        dn = names[len(names) - len(a.defaults):]
        for n, d in zip(dn, a.defaults):
            if n not in vals:
                self.frames.append(Frame(None, fr.module, fr.closure))
                try:
                    vals[n] = self.eval(d)
                finally:
                    self.frames.pop()
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in vals and d is not None:
                self.frames.append(Frame(None, fr.module, fr.closure))
                try:
                    vals[x.arg] = self.eval(d)
                finally:
                    self.frames.pop()
        for n in names:
            if n not in vals:
                raise SymRaise("TypeError")
        fr.locals.update(vals)

    def call_func(self, fi, args, kw, closure=None, top=False):
        if isinstance(fi, FuncInfo) and not top:
            c = self.contracts.get(fi.key)
            if c is not None and c.at_call(self, fi):
                self.called.add(fi.key)
                fr = Frame(fi, fi.module, closure)
                self.bind(fi.node.args, args, kw, fr)
                return c.call(self, fr.locals)
            h = self.models.get(fi.key)
            if h is not None:
                fr = Frame(fi, fi.module, closure)
                self.bind(fi.node.args, args, kw, fr)
                return h(self, fr.locals)
        if len(self.frames) > self.depth_limit:
            raise Unsupported("inline depth")
        if any(fr.fi is fi for fr in self.frames) and not top:
            raise Unsupported(f"recursive call of {fi.qual} without a contract")
        if not top:
            self.inlined.add(fi.key)
        for d in fi.decorators:
            if not (d.startswith("logger.catch") or d in ("property", "staticmethod", "classmethod", "junos_unsupported",
                                                          "abstractmethod") or d.endswith(".setter")):
                raise Unsupported(f"decorator {d}")
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(fi.node)):
            raise Unsupported("generator function")
        fr = Frame(fi, fi.module, closure)
        self.bind(fi.node.args, args, kw, fr)
        self.frames.append(fr)
        try:
            self.block(fi.node.body)
            return NONE
        except _Return as r:
            return r.v
        finally:
            self.frames.pop()

    def construct(self, cls, args, kw):
        h = self.hooks.get("construct")
        if h is not None:
            r = h(self, cls, args, kw)
            if r is not None:
                return r
        if "Exception" in self.src.base_names(cls):
            return ExtV("exc:" + cls.name)
        o = self.new_rec(cls, {})
        m = self.src.find_method(cls, "__init__")
        if m is not None:
            self.call_func(m, [o] + args, kw)
        return o

    # -------------------------------------------------------------------------------------------- builtins / externals
    def iterable(self, v):
        """-> IterV | ConcIterV | RangeV"""
        if isinstance(v, (IterV, ConcIterV, RangeV)):
            return v
        if isinstance(v, TupV):
            return ConcIterV(v.items)
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] in ("clist", "cset"):
                return ConcIterV(list(c[1]))
            if c[0] == "list":
                return IterV(c[1], c[2], lambda i, x: self.wrap(x))
            if c[0] == "cdict":
                return ConcIterV([self.lift(k) for k in c[1]])
            if c[0] == "set":
                lt = T.list_of(c[1])
                # iteration order of a set is unspecified: an arbitrary enumeration of its elements
                t = self.fresh(lt.sort, "enum")
                self.assume(lt.setof(t) == c[2])
                return IterV(lt, t, lambda i, x: self.wrap(x))
            if c[0] == "dict":
                lt = T.list_of(c[1])
                t = self.fresh(lt.sort, "keys")
                self.assume(lt.setof(t) == c[3])
                if self.hooks.get("enum"):
                    self.hooks["enum"](self, lt, t)
                return IterV(lt, t, lambda i, x: self.wrap(x))
        if isinstance(v, RecV):
            m = self.src.find_method(v.cls, "__iter__")
            if m is not None:
                r = self.call(BoundV(v, m), [], {})
                return self.iterable(r)
        if isinstance(v, Sc) and v.ty == "str":
            if self.is_conc(v):
                return ConcIterV([S(c) for c in self.pyval(v)])
            lt = T.list_of(Str)
            return IterV(lt, strfn("chars", Str, lt.sort)(v.t), lambda i, x: self.wrap(x))
        if isinstance(v, NoneV):
            raise SymRaise("TypeError")
        raise Unsupported(f"iteration over {v}")

    PYNAME = {"str": "str", "int": "int", "bool": "bool"}

    def isinstance_one(self, v, t):
        if isinstance(t, TupV):
            return any(self.isinstance_one(v, x) for x in t.items)
        if isinstance(t, CellV):
            return any(self.isinstance_one(v, x) for x in self.concrete_items(t))
        name = t.cls.name if isinstance(t, ClsV) else (t.name.split(".")[-1] if isinstance(t, ExtV) else None)
        if name is None:
            if isinstance(t, Sc):
                raise SymRaise("TypeError")
            raise Unsupported(f"isinstance type {t}")
        if isinstance(v, Sc):
            if v.ty == "str":
                return name in ("str", "Sequence", "object", "Iterable", "Hashable")
            if v.ty == "int":
                return name in ("int", "object", "Integral", "Number")
            if v.ty == "bool":
                return name in ("bool", "int", "object")
            if v.ty == "ref":
                return name in self.src.base_names(v.cls) | {"object"}
            raise Unsupported("isinstance of opaque")
        if isinstance(v, NoneV):
            return name in ("NoneType", "object")
        if isinstance(v, CellV) and v.id in self.tuples:
            return name in ("tuple", "Sequence", "Iterable", "object")
        if isinstance(v, (CellV, FieldV)):
            k = self.tydesc(v)[1]
            return name in {"list": ("list", "Sequence", "MutableSequence", "Iterable", "object"),
                            "set": ("set", "Iterable", "object"),
                            "dict": ("dict", "Iterable", "Mapping", "object")}[k]
        if isinstance(v, TupV):
            return name in ("tuple", "Sequence", "Iterable", "object")
        if isinstance(v, RecV):
            if v.cls is None:
                return name == self.recs[v.id].get("__pyname__")
            return name in self.src.base_names(v.cls) | {"object"}
        if isinstance(v, MatchV):
            return name in ("Match", "object")
        if isinstance(v, RegexV):
            return name in ("Pattern", "object")
        if isinstance(v, ExtV):
            return False
        if isinstance(v, (IterV, ConcIterV)):
            return name in ("Iterable", "Iterator", "object")
        raise Unsupported(f"isinstance of {v}")

    def call_ext(self, name, args, kw):
        m = self.models.get(name)
        if m is not None:
            return m(self, args, kw)
        f = getattr(self, "bi_" + name.replace(".", "_"), None)
        if f is None:
            raise Unsupported(f"external function {name}")
        return f(args, kw)

    def bi_object___init__(self, a, kw):
        return NONE

    def bi_len(self, a, kw):
        v = a[0]
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] in ("clist", "cdict"):
                return I(len(c[1]))
            if c[0] == "cset" and len(c[1]) <= 1:
                return I(len(c[1]))
            if c[0] == "list":
                return I(c[1].len(c[2]))
            if c[0] == "set":
                card = z3.Function(f"card_{c[1]}", z3.SetSort(c[1]), IntS)
                self.assume(card(c[2]) >= 0)
                self.assume((card(c[2]) == 0) == (c[2] == z3.EmptySet(c[1])))
                return I(card(c[2]))
        if isinstance(v, TupV):
            return I(len(v.items))
        if isinstance(v, Sc) and v.ty == "str":
            return I(len(self.pyval(v))) if self.is_conc(v) else I(T.slen(v.t))
        if isinstance(v, RecV):
            return self.call(self.getattr(v, "__len__"), [], {})
        if isinstance(v, NoneV) or isinstance(v, Sc):
            raise SymRaise("TypeError")
        if isinstance(v, ConcIterV):
            return I(len(v.items))
        raise Unsupported("len")

    def bi_isinstance(self, a, kw):
        return B(self.isinstance_one(a[0], a[1]))

    def bi_bool(self, a, kw):
        return B(self.truth(a[0])) if a else B(False)

    def bi_str(self, a, kw):
        return Sc("str", self.to_str(a[0])) if a else S("")

    def bi_repr(self, a, kw):
        return Sc("str", self.to_str(a[0]))

    def bi_int(self, a, kw):
        v = a[0]
        if isinstance(v, Sc):
            if v.ty in ("int", "bool"):
                return I(self.term_of(v, IntS))
            if v.ty == "str" and (len(a) == 1 or (self.is_conc(a[1]) and self.pyval(a[1]) == 10)):
                if self.is_conc(v):
                    try:
                        return I(int(self.pyval(v)))
                    except ValueError:
                        raise SymRaise("ValueError")
                h = self.hooks.get("int_str")
                u = h(self, v.t) if h is not None else v.t
                if u.decl().eq(T.str_of_int):
                    return I(u.arg(0))                            # int(str(n)) == n
                if not self.choose(T.is_int_str(u)):
                    raise SymRaise("ValueError")
                return I(T.int_of_str(u))
            if v.ty == "str" and self.is_conc(a[1]) and self.pyval(a[1]) == 16:
                if not self.choose(strfn("is_hex", Str, BoolS)(v.t)):
                    raise SymRaise("ValueError")
                return I(strfn("hexval", Str, IntS)(v.t))
        if isinstance(v, RecV):
            m = self.src.find_method(v.cls, "__int__") if v.cls else None
            if m is not None:
                return self.call(BoundV(v, m), [], {})
            h = self.hooks.get("int_of_rec")
            if h is not None:
                r = h(self, v)
                if r is not None:
                    return r
        if isinstance(v, NoneV):
            raise SymRaise("TypeError")
        raise Unsupported("int()")

    def bi_abs(self, a, kw):
        return I(z3.If(a[0].t >= 0, a[0].t, -a[0].t))

    def bi_min(self, a, kw):
        if len(a) == 2 and all(isinstance(x, Sc) and x.ty == "int" for x in a):
            return I(z3.If(a[0].t <= a[1].t, a[0].t, a[1].t))
        raise Unsupported("min")

    def bi_max(self, a, kw):
        if len(a) == 2 and all(isinstance(x, Sc) and x.ty == "int" for x in a):
            return I(z3.If(a[0].t >= a[1].t, a[0].t, a[1].t))
        raise Unsupported("max")

    def bi_sum(self, a, kw):
        return self.reduce_list(a[0], "sum")

    def bi_hash(self, a, kw):
        return I(HASH(self.pack(a[0])))

    def pack(self, v):
        """injective encoding of a hashable value as Val"""
        if isinstance(v, Sc):
            if v.ty == "ref":
                m = self.src.find_method(v.cls, "__hash__")
                raise Unsupported("hash of ref")
            return z3.Function(f"pack_{v.ty}", v.t.sort(), Val)(v.t)
        if isinstance(v, NoneV):
            return z3.Const("pack_none", Val)
        if isinstance(v, TupV):
            t = z3.Const("pack_unit", Val)
            for i in v.items:
                t = z3.Function("pack_pair", Val, Val, Val)(t, self.pack(i))
            return t
        h = self.hooks.get("pack")
        if h is not None:
            r = h(self, v)
            if r is not None:
                return r
        raise Unsupported(f"hash of {v}")

    def bi_list(self, a, kw):
        if not a:
            return self.new_cell(("clist", []))
        it = self.iterable(a[0])
        if isinstance(it, ConcIterV):
            return self.new_cell(("clist", list(it.items)))
        if isinstance(it, IterV):
            probe = self.fresh(it.lt.elem, "pr")
            pv = it.mapper(None, probe)
            if isinstance(pv, Sc) and pv.t.eq(probe) or isinstance(pv, CellV):
                return self.new_list(it.lt, it.term)
        raise Unsupported("list()")

    bi_tuple = bi_list

    def bi_iter(self, a, kw):
        return self.iterable(a[0])

    def bi_set(self, a, kw):
        if not a:
            return self.new_cell(("cset", []))
        v = a[0]
        it = self.iterable(v)
        if isinstance(it, ConcIterV):
            return self.new_cell(("cset", self.dedup(it.items)))
        if isinstance(it, IterV):
            return self.new_set(it.lt.elem, it.lt.setof(it.term))
        if isinstance(it, RangeV) and it.base is None:
            lt, t = self.range_list(it)
            return self.new_set(IntS, lt.setof(t))
        raise Unsupported("set()")

    def dedup(self, items):
        out = []
        for i in items:
            if not any(self.choose(self.eq(i, o)) for o in out):
                out.append(i)
        return out

    def bi_dict(self, a, kw):
        if not a and not kw:
            return self.new_cell(("cdict", {}))
        raise Unsupported("dict()")

    def range_list(self, r):
        """list(range(lo, hi)): the function is described by intlists.int_list_axioms"""
        lt = T.list_of(IntS)
        return lt, z3.Function("range_list", IntS, IntS, lt.sort)(r.lo, r.hi)

    def sorted_fn(self, elem):
        lt = T.list_of(elem)
        return z3.Function(f"sorted_{lt.name}", z3.SetSort(elem), lt.sort)

    def sorted_list_fn(self, elem):
        lt = T.list_of(elem)
        return z3.Function(f"sortedl_{lt.name}", lt.sort, lt.sort)

    def bi_sorted(self, a, kw):
        v = a[0]
        rev = kw.get("reverse")
        rv = rev is not None and self.pyval(rev)
        if kw.get("key") is not None:
            raise Unsupported("sorted key")
        if isinstance(v, ConcIterV):
            v = self.new_cell(("clist", list(v.items)))
        elif isinstance(v, IterV):
            v = self.bi_list([v], {})
        elif isinstance(v, RangeV) and v.base is None:
            v = self.new_list(*self.range_list(v))
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] == "cset" or c[0] == "clist":
                if not c[1]:
                    return self.new_cell(("clist", []))
                el = self.term_of(c[1][0]).sort()
                c = ("set", el, self.set_term(v, el)) if c[0] == "cset" else ("list", T.list_of(el), self.term_of(v))
            if c[0] == "set":
                lt = T.list_of(c[1])
                t = self.sorted_fn(c[1])(c[2])
                return self.new_list(lt, lt.rev(t) if rv else t)
            if c[0] == "list":
                h = self.hooks.get("sort_list")
                t = h(self, c[1], c[2]) if h is not None else None
                if t is None:
                    t = self.sorted_list_fn(c[1].elem)(c[2])
                return self.new_list(c[1], c[1].rev(t) if rv else t)
        raise Unsupported("sorted")

    def bi_reversed(self, a, kw):
        it = self.iterable(a[0])
        if isinstance(it, ConcIterV):
            return ConcIterV(list(reversed(it.items)))
        if isinstance(it, IterV):
            return IterV(it.lt, it.lt.rev(it.term), it.mapper)
        raise Unsupported("reversed")

    def bi_enumerate(self, a, kw):
        st = a[1] if len(a) > 1 else kw.get("start", I(0))
        it = self.iterable(a[0])
        if isinstance(it, ConcIterV):
            return ConcIterV([TupV([I(st.t + i), x]) for i, x in enumerate(it.items)])
        if isinstance(it, IterV):
            return IterV(it.lt, it.term, lambda i, x: TupV([I(i + st.t), it.mapper(i, x)]))
        raise Unsupported("enumerate")

    def bi_range(self, a, kw):
        if len(a) == 1:
            lo, hi = z3.IntVal(0), a[0].t
        elif len(a) == 2:
            lo, hi = a[0].t, a[1].t
        else:
            if all(self.is_conc(x) for x in a):
                return ConcIterV([I(k) for k in range(*[self.pyval(x) for x in a])])
            if self.is_conc(a[2]) and self.pyval(a[2]) > 0:
                st = self.pyval(a[2])
                return RangeV(z3.IntVal(0), z3.simplify((a[1].t - a[0].t + (st - 1)) / z3.IntVal(st)), a[0].t, st)
            raise Unsupported("range step")
        lo, hi = z3.simplify(lo), z3.simplify(hi)
        if z3.is_int_value(lo) and z3.is_int_value(hi) and hi.as_long() - lo.as_long() <= 64:
            return ConcIterV([I(k) for k in range(lo.as_long(), hi.as_long())])
        return RangeV(lo, hi)

    def bi_zip(self, a, kw):
        its = [self.iterable(x) for x in a]
        if all(isinstance(i, ConcIterV) for i in its):
            return ConcIterV([TupV(list(t)) for t in zip(*[i.items for i in its])])
        raise Unsupported("zip")

    def bi_filter(self, a, kw):
        f, seq = a
        h = self.hooks.get("filter_str")
        if h is not None and isinstance(seq, Sc) and seq.ty == "str":
            r = h(self, f, seq.t)
            if r is not None:
                return r

        def cond(x):
            return self.truthy(x) if isinstance(f, NoneV) else self.truthy(self.call(f, [x], {}))
        return self.comp_loop(("filter", self.callsite()), self.iterable(seq), lambda x: cond(x), lambda x: x)

    def bi_map(self, a, kw):
        f, seq = a
        return self.comp_loop(("map", self.callsite()), self.iterable(seq), lambda x: True, lambda x: self.call(f, [x], {}))

    def bi_any(self, a, kw):
        return self.reduce_list(a[0], "any")

    def bi_all(self, a, kw):
        return self.reduce_list(a[0], "all")

    def bi_functools_partial(self, a, kw):
        return PartialV(a[0], list(a[1:]), kw)

    def bi_operator_is_not(self, a, kw):
        r = self.identical(a[0], a[1])
        return B(not r) if isinstance(r, bool) else B(z3.Not(r))

    def bi_hasattr(self, a, kw):
        try:
            self.getattr(a[0], self.pyval(a[1]))
            return B(True)
        except SymRaise:
            return B(False)

    def bi_getattr(self, a, kw):
        try:
            return self.getattr(a[0], self.pyval(a[1]))
        except SymRaise:
            if len(a) > 2:
                return a[2]
            raise

    def bi_type(self, a, kw):
        v = a[0]
        if isinstance(v, Sc) and v.ty in ("int", "bool", "str"):
            return ExtV(v.ty)
        if isinstance(v, RecV) and v.cls is not None:
            return ClsV(v.cls)
        return ExtV("type:" + str(self.tydesc(v)[0]))

    def bi_hex(self, a, kw):
        v = a[0]
        if isinstance(v, RecV) and v.cls is not None:
            m = self.src.find_method(v.cls, "__index__")
            if m is None:
                raise SymRaise("TypeError")
            v = self.call(BoundV(v, m), [], {})
        if isinstance(v, Sc) and v.ty == "int":
            return Sc("str", strfn("py_hex", IntS, Str)(v.t))
        raise Unsupported("hex()")

    def bi_chr(self, a, kw):
        return Sc("str", self.chr_term(a[0].t, "ValueError"))

    def bi_ord(self, a, kw):
        return I(z3.Function("py_ord", Str, IntS)(a[0].t))

    def bi_copy_copy(self, a, kw):
        v = a[0]
        if isinstance(v, (CellV, FieldV)):
            return self.new_cell(self.content(v))
        raise Unsupported("copy.copy")

    def bi_copy_deepcopy(self, a, kw):
        v = a[0]
        if isinstance(v, (CellV, FieldV)):
            c = self.content(v)
            if c[0] in ("list", "set") and (c[1].elem if c[0] == "list" else c[1]) in (IntS, Str, BoolS):
                return self.new_cell(c)                 # immutable members: as a shallow copy
            if c[0] in ("clist", "cset") and all(isinstance(x, Sc) and x.ty in ("int", "str", "bool") or isinstance(x, NoneV) for x in c[1]):
                return self.new_cell(c)
        if isinstance(v, Sc) and v.ty in ("int", "str", "bool"):
            return v
        raise Unsupported("deepcopy")

    # regular expressions
    def re_pat(self, v):
        if isinstance(v, RegexV):
            return v.pat
        if isinstance(v, Sc) and v.ty == "str":
            return v.t
        if isinstance(v, NoneV):
            raise SymRaise("TypeError")
        raise Unsupported("regex pattern")

    def _flags(self, a, kw, n, pat):
        """the pattern term, with a flags argument folded into it (flagged(p, 0) == p)"""
        f = a[n] if len(a) > n else kw.get("flags")
        if f is None:
            return pat
        if isinstance(f, ExtV) and f.name in ("re.VERBOSE", "re.X"):
            f = I(64)
        if not (isinstance(f, Sc) and f.ty == "int"):
            raise Unsupported("regex flags")
        if self.is_conc(f) and self.pyval(f) == 64 and T.lit_value(pat) is not None:
            return slit("(?x)" + T.lit_value(pat))                # re.VERBOSE, as an inline flag
        return RE_FLAGGED(pat, f.t)

    def re_do(self, mode, pat, text):
        if not (isinstance(text, Sc) and text.ty == "str"):
            if isinstance(text, NoneV):
                raise SymRaise("TypeError")
            raise Unsupported("regex on non-string")
        h = self.hooks.get("re")
        if h is not None:
            r = h(self, mode, pat, text.t)
            if r is not None:
                return r
        f = {"search": RE_FOUND, "match": RE_PREFIX, "fullmatch": RE_FULL}[mode]
        if self.choose(f(pat, text.t)):
            return MatchV(mode, pat, text.t)
        return NONE

    def bi_re_compile(self, a, kw):
        return RegexV(self._flags(a, kw, 1, self.re_pat(a[0])))

    def bi_re_search(self, a, kw):
        return self.re_do("search", self._flags(a, kw, 2, self.re_pat(a[0])), a[1])

    def bi_re_match(self, a, kw):
        return self.re_do("match", self._flags(a, kw, 2, self.re_pat(a[0])), a[1])

    def bi_re_fullmatch(self, a, kw):
        return self.re_do("fullmatch", self._flags(a, kw, 2, self.re_pat(a[0])), a[1])

    def bi_re_sub(self, a, kw):
        if len(a) > 3 or kw.get("count") is not None:
            raise Unsupported("re.sub count")
        return self.re_sub(self._flags(a, kw, 4, self.re_pat(a[0])), a[1], a[2])

    def re_sub(self, pat, repl, text):
        h = self.hooks.get("re_sub")
        r = h(self, pat, repl, text) if h is not None else None
        return r if r is not None else Sc("str", RE_SUB(pat, self.to_str(repl), text.t))

    def bi_re_escape(self, a, kw):
        if isinstance(a[0], Sc) and a[0].ty == "str" and self.is_conc(a[0]):
            import re
            return S(re.escape(self.pyval(a[0])))
        return Sc("str", strfn("re_escape", Str, Str)(a[0].t))

    def bi_re_split(self, a, kw):
        h = self.hooks.get("re_split")
        pat = self._flags(a, kw, 3, self.re_pat(a[0]))
        r = h(self, pat, a[1].t) if h is not None and len(a) == 2 else None
        if r is None:
            raise Unsupported("re.split")
        return r

    def match_group(self, m, g):
        h = self.hooks.get("group")
        if h is not None:
            r = h(self, m, g)
            if r is not None:
                return r
        if m.mode != "search":
            raise Unsupported("group of match/fullmatch")
        if T.lit_value(m.pat) is not None and self.is_conc(g) and self.hooks.get("group_facts"):
            return self.conc_group(m, self.pyval(g))
        if isinstance(g, Sc) and g.ty == "int":
            if self.choose(RE_GROUP_NONE(m.pat, m.text, g.t)):
                return NONE
            return Sc("str", RE_GROUP(m.pat, m.text, g.t))
        if isinstance(g, Sc) and g.ty == "str":
            i = z3.Function("re_gidx", Str, Str, IntS)(m.pat, g.t)
            if self.choose(RE_GROUP_NONE(m.pat, m.text, i)):
                return NONE
            return Sc("str", RE_GROUP(m.pat, m.text, i))
        raise Unsupported("group")

    def conc_group(self, m, ref):
        """group of a concrete pattern: whether it always takes part in a match and how short it can be (from CPython's own parse of the pattern)"""
        i, always, lo, flags = group_info(T.lit_value(m.pat), ref)
        idx = z3.IntVal(i)
        if always:
            self.assume(z3.Not(RE_GROUP_NONE(m.pat, m.text, idx)))
        elif self.choose(RE_GROUP_NONE(m.pat, m.text, idx)):
            return NONE
        g = RE_GROUP(m.pat, m.text, idx)
        self.assume(T.slen(g) >= lo)
        return Sc("str", g)

    # -------------------------------------------------------------------------------------------- methods of builtin types
    def list_append(self, o, v):
        c = self.content(o)
        if c[0] == "clist":
            self.set_content(o, ("clist", c[1] + [v]))
            return
        t = self.term_of(v, c[1].elem)
        if isinstance(v, CellV):
            self.frozen.add(v.id)
        self.set_content(o, ("list", c[1], c[1].snoc(c[2], t)))

    def list_extend(self, o, v):
        c = self.content(o)
        it = self.iterable(v)
        if isinstance(it, ConcIterV):
            for x in it.items:
                self.list_append(o, x)
            return
        if isinstance(it, IterV):
            if c[0] == "clist":
                c = ("list", it.lt, self.clist_term(c[1], it.lt))
            self.set_content(o, ("list", c[1], c[1].cat(c[2], it.term)))
            return
        raise Unsupported("extend")

    def method(self, o, name, args, kw):
        if isinstance(o, (CellV, FieldV)):
            c = self.content(o)
            k = {"clist": "list", "cset": "set", "cdict": "dict"}.get(c[0], c[0])
            f = getattr(self, f"m_{k}_{name}", None)
            if f is None:
                raise Unsupported(f"{k}.{name}")
            return f(o, c, args, kw)
        if isinstance(o, Sc) and o.ty == "str":
            return self.str_method(o, name, args, kw)
        if isinstance(o, RegexV):
            if name in ("search", "match", "fullmatch"):
                return self.re_do(name, o.pat, args[0])
            if name == "sub":
                return self.re_sub(o.pat, args[0], args[1])
            if name == "split" and len(args) == 1 and not kw:
                h = self.hooks.get("re_split")
                r = h(self, o.pat, args[0].t) if h is not None else None
                if r is not None:
                    return r
        if isinstance(o, MatchV):
            if name == "group":
                return self.match_group(o, args[0] if args else I(0))
            if name == "groupdict" and T.lit_value(o.pat) is not None and o.mode == "search":
                import re
                rx = re.compile(T.lit_value(o.pat))
                if getattr(o, "ps", None) is not None:
                    return self.new_cell(("cdict", {n: self.match_group(o, S(n)) for n in rx.groupindex}))
                return self.new_cell(("cdict", {n: self.conc_group(o, n) for n in rx.groupindex}))
            if name in ("start", "end") and T.lit_value(o.pat) is not None and o.mode == "search" and (not args or self.is_conc(args[0])):
                i = group_info(T.lit_value(o.pat), self.pyval(args[0]) if args else 0)[0]
                r = z3.Function("re_" + name, Str, Str, IntS, IntS)(o.pat, o.text, i)
                self.assume(z3.And(r >= -1, r <= T.slen(o.text)))
                return Sc("int", r)
        if isinstance(o, NoneV):
            raise SymRaise("AttributeError")
        h = self.hooks.get("method")
        if h is not None:
            r = h(self, o, name, args, kw)
            if r is not None:
                return r
        raise Unsupported(f"method {name} of {o}")

    def m_list_append(self, o, c, a, kw):
        self.list_append(o, a[0])
        return NONE

    def m_list_extend(self, o, c, a, kw):
        self.list_extend(o, a[0])
        return NONE

    def m_list_copy(self, o, c, a, kw):
        return self.new_cell(c)

    def m_list_sort(self, o, c, a, kw):
        r = self.bi_sorted([o], kw)
        self.set_content(o, self.content(r))
        return NONE

    def m_list_reverse(self, o, c, a, kw):
        if c[0] == "clist":
            self.set_content(o, ("clist", list(reversed(c[1]))))
        else:
            self.set_content(o, ("list", c[1], c[1].rev(c[2])))
        return NONE

    def insert_at(self, lt):
        return z3.Function(f"insertat_{lt.name}", lt.sort, IntS, lt.elem, lt.sort)

    def m_list_insert(self, o, c, a, kw):
        if c[0] == "clist":
            if self.is_conc(a[0]):
                l = list(c[1])
                l.insert(self.pyval(a[0]), a[1])
                self.set_content(o, ("clist", l))
                return NONE
            c = ("list", T.list_of(self.term_of(a[1]).sort()), self.term_of(o))
        lt = c[1]
        i, n = a[0].t, lt.len(c[2])
        i2 = z3.simplify(z3.If(i < 0, z3.If(n + i < 0, 0, n + i), z3.If(i > n, n, i)))
        if i2.decl().kind() == z3.Z3_OP_ITE:
            at = self.fresh(IntS, "at")             # a name for the position: conditional terms cannot be triggers
            self.assume(at == i2)
            i2 = at
        self.set_content(o, ("list", lt, self.insert_at(lt)(c[2], z3.simplify(i2), self.term_of(a[1], lt.elem))))
        return NONE

    def m_list_pop(self, o, c, a, kw):
        if c[0] == "clist" and (not a or self.is_conc(a[0])):
            l = list(c[1])
            if not l:
                raise SymRaise("IndexError")
            v = l.pop(*[self.pyval(x) for x in a])
            self.set_content(o, ("clist", l))
            return v
        if c[0] == "list" and not a:
            if self.choose(c[2] == c[1].nil):
                raise SymRaise("IndexError")
            i_, l_ = self.fresh(c[1].sort, "init"), self.fresh(c[1].elem, "last")
            y_ = z3.Const("y!pop", c[1].elem)
            self.assume(c[2] == c[1].snoc(i_, l_))
            self.assume(c[1].mem(l_, c[2]))
            self.assume(z3.ForAll([y_], z3.Implies(c[1].mem(y_, i_), c[1].mem(y_, c[2])), patterns=[c[1].mem(y_, i_)]))
            v = self.wrap(l_)
            self.set_content(o, ("list", c[1], i_))
            return v
        raise Unsupported("pop")

    def m_list_remove(self, o, c, a, kw):
        if c[0] == "clist":
            for k, v in enumerate(c[1]):
                if self.choose(self.eq(v, a[0])):
                    self.set_content(o, ("clist", c[1][:k] + c[1][k + 1:]))
                    return NONE
            raise SymRaise("ValueError")
        if c[1].elem in (IntS, Str):
            x = self.term_of(a[0], c[1].elem)
            if not self.choose(c[1].mem(x, c[2])):
                raise SymRaise("ValueError")
            self.set_content(o, ("list", c[1], z3.Function("remove_first_" + c[1].name, c[1].sort, c[1].elem, c[1].sort)(c[2], x)))
            return NONE
        raise Unsupported("list.remove")

    def m_list_index(self, o, c, a, kw):
        if c[0] == "list":
            t = self.term_of(a[0], c[1].elem)
            if not self.choose(c[1].mem(t, c[2])):
                raise SymRaise("ValueError")
            return I(z3.Function(f"indexof_{c[1].name}", c[1].sort, c[1].elem, IntS)(c[2], t))
        raise Unsupported("index")

    def m_list_count(self, o, c, a, kw):
        raise Unsupported("count")

    def m_set_add(self, o, c, a, kw):
        if c[0] == "cset":
            if isinstance(a[0], Sc) and not self.is_conc(a[0]) and not (a[0].ty == "bool"):
                el = a[0].t.sort()
                if all(isinstance(x, Sc) and x.t.sort() == el for x in c[1]):
                    self.set_content(o, ("set", el, z3.Store(self.set_term(o, el), a[0].t, True)))
                    return NONE
            self.set_content(o, ("cset", self.dedup(c[1] + [a[0]])))
            return NONE
        t = self.term_of(a[0], c[1])
        self.set_content(o, ("set", c[1], z3.Store(c[2], t, True)))
        return NONE

    def m_set_update(self, o, c, a, kw):
        it = self.iterable(a[0]) if not (isinstance(a[0], CellV) and self.content(a[0])[0] == "set") else None
        if it is None:
            el = self.content(a[0])[1]
            s = self.content(a[0])[2]
        elif isinstance(it, IterV):
            el, s = it.lt.elem, it.lt.setof(it.term)
        else:
            for x in it.items:
                self.m_set_add(o, self.content(o), [x], {})
            return NONE
        base = self.set_term(o, el)
        self.set_content(o, ("set", el, z3.SetUnion(base, s)))
        return NONE

    def m_set_union(self, o, c, a, kw):
        n = self.new_cell(c)
        self.m_set_update(n, c, a, kw)
        return n

    def m_set_discard(self, o, c, a, kw):
        if c[0] == "set":
            self.set_content(o, ("set", c[1], z3.Store(c[2], self.term_of(a[0], c[1]), False)))
            return NONE
        raise Unsupported("discard")

    def m_set_remove(self, o, c, a, kw):
        if c[0] == "set":
            if not self.choose(z3.Select(c[2], self.term_of(a[0], c[1]))):
                raise SymRaise("KeyError")
            return self.m_set_discard(o, c, a, kw)
        for k, v in enumerate(c[1]):
            if self.choose(self.eq(v, a[0])):
                self.set_content(o, ("cset", c[1][:k] + c[1][k + 1:]))
                return NONE
        raise SymRaise("KeyError")

    def m_dict_get(self, o, c, a, kw):
        d = a[1] if len(a) > 1 else NONE
        if c[0] == "cdict":
            try:
                k = self.pykey(a[0])
            except Unsupported:
                return self.conc_lookup(c[1], a[0], d)
            return c[1].get(k, d)
        k = self.term_of(a[0], c[1])
        if self.choose(z3.Select(c[3], k)):
            return self.wrap(z3.Select(c[4], k))
        return d

    def conc_lookup(self, dic, k, d):
        """value at a symbolic key of a dictionary with fixed keys (d: default, None: KeyError)"""
        hits = []
        for key, v in dic.items():
            e = self.eq(k, self.lift(key))
            e = e if z3.is_expr(e) else z3.BoolVal(bool(e))
            if not z3.is_false(e):
                hits.append((e, v))
        if not hits or not self.choose(z3.Or(*[e for e, _ in hits])):
            if d is None:
                raise SymRaise("KeyError")
            return d
        vs = [v for _, v in hits]
        if all(isinstance(v, Sc) and v.ty == vs[0].ty and v.t.sort() == vs[0].t.sort() for v in vs):
            t = vs[-1].t
            for e, v in reversed(hits[:-1]):
                t = z3.If(e, v.t, t)
            return Sc(vs[0].ty, t)
        for e, v in hits[:-1]:
            if self.choose(e):
                return v
        return hits[-1][1]

    def m_dict_keys(self, o, c, a, kw):
        return self.iterable(o)

    def m_dict_items(self, o, c, a, kw):
        if c[0] == "cdict":
            return ConcIterV([TupV([self.lift(k), v]) for k, v in c[1].items()])
        raise Unsupported("items")

    def m_dict_values(self, o, c, a, kw):
        if c[0] == "cdict":
            return ConcIterV(list(c[1].values()))
        raise Unsupported("values")

    def m_dict_pop(self, o, c, a, kw):
        if c[0] == "dict":
            k = self.term_of(a[0], c[1])
            has = self.choose(z3.Select(c[3], k))
            if not has:
                if len(a) > 1:
                    return a[1]
                raise SymRaise("KeyError")
            v = self.wrap(z3.Select(c[4], k))
            self.set_content(o, ("dict", c[1], c[2], z3.Store(c[3], k, False), c[4]))
            return v
        raise Unsupported("dict.pop")

    STR_STR = {"strip", "lstrip", "rstrip", "lower", "upper", "title", "expandtabs"}
    STR_BOOL = {"isdigit", "isnumeric", "isalpha", "isspace", "islower", "isdecimal", "isalnum"}

    def str_method(self, o, name, args, kw):
        h = self.hooks.get("str_method")
        if h is not None:
            r = h(self, o, name, args)
            if r is not None:
                return r
        if self.is_conc(o) and all(self.is_conc(a) for a in args) and name not in ("join", "format"):
            try:
                r = getattr(self.pyval(o), name)(*[self.pyval(a) for a in args])
                return self.lift(r)
            except Unsupported:
                raise
            except Exception as e:
                raise SymRaise(type(e).__name__)
        if name in self.STR_STR and not args:
            return Sc("str", strfn(name, Str, Str)(o.t))
        if name in ("strip", "lstrip", "rstrip") and len(args) == 1 and isinstance(args[0], Sc):
            return Sc("str", strfn(name + "_c", Str, Str, Str)(o.t, args[0].t))
        if name in self.STR_BOOL:
            return B(strfn(name, Str, BoolS)(o.t))
        if name in ("startswith", "endswith") and len(args) == 1 and isinstance(args[0], Sc):
            return B(strfn(name, Str, Str, BoolS)(o.t, args[0].t))
        if name == "split":
            lt = T.list_of(Str)
            if not args:
                return self.new_list(lt, strfn("split_ws", Str, lt.sort)(o.t))
            if len(args) == 1:
                return self.new_list(lt, strfn("split", Str, Str, lt.sort)(o.t, args[0].t))
        if name == "join":
            lt = T.list_of(Str)
            items = self.concrete_items(args[0])
            if items is not None:
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(o.t)
                    parts.append(self.term_of(x, Str))
                return Sc("str", self.concat(parts))
            return Sc("str", strfn("join", Str, lt.sort, Str)(o.t, self.term_of(args[0], lt.sort)))
        if name == "replace" and len(args) == 2:
            return Sc("str", strfn("replace", Str, Str, Str, Str)(o.t, args[0].t, args[1].t))
        if name == "format" and not kw:
            fmt = T.lit_value(o.t)
            if fmt is not None and self.is_conc(o) and all(self.is_conc(x) for x in args):
                return S(fmt.format(*[self.pyval(x) for x in args]))
            if fmt is not None and fmt.count("{}") == len(args):
                out, rest = [], list(args)
                for i, seg in enumerate(fmt.split("{}")):
                    if i:
                        out.append(self.to_str(rest.pop(0)))
                    out.append(slit(seg))
                return Sc("str", self.concat(out))
        if name == "count" and len(args) == 1:
            return I(strfn("count", Str, Str, IntS)(o.t, args[0].t))
        if name == "find" and len(args) == 1:
            return I(strfn("find", Str, Str, IntS)(o.t, args[0].t))
        raise Unsupported(f"str.{name}")

    # ----------------------------------------------------------------------------------------------- loops
    def callsite(self):
        # structural position: chain of functions + ordinal of this builtin loop in the path of the current frame
        fr = self.frames[-1]
        fr.locals.setdefault("__ord__", 0) if False else None
        return "/".join((f.fi.qual if isinstance(f.fi, FuncInfo) else "?") for f in self.frames)

    def ev_ListComp(self, n):
        return self.comp(n, "list")

    def ev_GeneratorExp(self, n):
        return self.comp(n, "list")

    def ev_SetComp(self, n):
        return self.comp(n, "set")

    def ev_DictComp(self, n):
        raise Unsupported("dict comprehension")

    def comp(self, n, kind):
        """desugar:  _acc = []; for .. in ..: if ..: _acc.append(e)"""
        fr = Frame(self.frames[-1].fi, self.frames[-1].module, self.frames[-1])
        self.frames.append(fr)
        try:
            acc = ast.Name(id="__acc", ctx=ast.Load())
            meth = "append" if kind == "list" else "add"
            body = [ast.Expr(ast.Call(func=ast.Attribute(value=acc, attr=meth, ctx=ast.Load()), args=[n.elt], keywords=[]))]
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            body = self._memo(n, body)
            fr.locals["__acc"] = self.new_cell(("clist", [])) if kind == "list" else self.new_cell(("cset", []))
            self.block(body)
            return fr.locals["__acc"]
        finally:
            self.frames.pop()

    def _memo(self, n, body):
        if not hasattr(n, "_desugared"):
            n._desugared = body
        return n._desugared

    def anyall(self, which, n):
        fr = Frame(self.frames[-1].fi, self.frames[-1].module, self.frames[-1])
        self.frames.append(fr)
        try:
            stop = which == "any"
            setv = ast.Assign(targets=[ast.Name(id="__res", ctx=ast.Store())], value=ast.Constant(value=stop))
            test = n.elt if stop else ast.UnaryOp(op=ast.Not(), operand=n.elt)
            body = [ast.If(test=test, body=[setv, ast.Break()] if len(n.generators) == 1 else [setv], orelse=[])]
            for g in reversed(n.generators):
                for c in reversed(g.ifs):
                    body = [ast.If(test=c, body=body, orelse=[])]
                body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
            body = self._memo(n, body)
            fr.locals["__res"] = B(not stop)
            self.block(body)
            return fr.locals["__res"]
        finally:
            self.frames.pop()

    def reduce_list(self, v, which):
        it = self.iterable(v)
        if isinstance(it, ConcIterV):
            if which == "sum":
                t = z3.IntVal(0)
                for x in it.items:
                    t = t + self.term_of(x, IntS)
                return I(t)
            for x in it.items:
                b = self.truthy(x)
                if which == "any" and b:
                    return B(True)
                if which == "all" and not b:
                    return B(False)
            return B(which == "all")
        if isinstance(it, IterV) and it.lt.elem == BoolS and which in ("any", "all"):
            m = it.lt.mem(z3.BoolVal(which == "any"), it.term)
            return Sc("bool", m if which == "any" else z3.Not(m))
        raise Unsupported(f"{which} of symbolic list")

    def comp_loop(self, key, it, cond, elt):
        """filter()/map(): same loop rule, driven by python callbacks"""
        if isinstance(it, ConcIterV):
            out = []
            for x in it.items:
                if cond(x):
                    out.append(elt(x))
            return self.new_cell(("clist", out))
        fr = Frame(self.frames[-1].fi, self.frames[-1].module, self.frames[-1])
        fr.locals["__acc"] = self.new_cell(("clist", []))
        self.frames.append(fr)
        try:
            def body(x):
                if cond(x):
                    self.list_append(fr.locals["__acc"], elt(x))
            self.run_loop(key, it, lambda v: None, body, set())
            return fr.locals["__acc"]
        finally:
            self.frames.pop()

    def assigned_names(self, stmts):
        key = tuple(id(x) for x in stmts)
        if key not in self.ancache:
            self.ancache[key] = (self._assigned_names(stmts), stmts)
        return set(self.ancache[key][0])

    def _assigned_names(self, stmts):
        out = set()
        for st in stmts:
            for x in ast.walk(st):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
                elif isinstance(x, ast.ExceptHandler) and x.name:
                    out.add(x.name)
        return out

    def loop_key(self, st):
        return (id(st), tuple(id(f.fi.node) if isinstance(f.fi, FuncInfo) else 0 for f in self.frames))

    def st_For(self, st):
        it = self.iterable(self.eval(st.iter))
        if isinstance(it, ConcIterV):
            broke = False
            for x in it.items:
                self.assign(st.target, x)
                try:
                    self.block(st.body)
                except _Break:
                    broke = True
                    break
                except _Continue:
                    continue
            if not broke and st.orelse:
                self.block(st.orelse)
            return
        names = self.assigned_names(st.body) | self.assigned_names([ast.Assign(targets=[st.target], value=ast.Constant(0))])
        broke = self.run_loop(self.loop_key(st), it, lambda v: self.assign(st.target, v), lambda x: self.block(st.body), names)
        if not broke and st.orelse:
            self.block(st.orelse)

    def st_While(self, st):
        t = None
        names = self.assigned_names(st.body) | self.assigned_names([ast.Expr(st.test)])
        broke = self.run_while(self.loop_key(st), st, names)
        if not broke and st.orelse:
            self.block(st.orelse)

    def loop_enter(self, key, names):
        meta = self.loops.setdefault(key, LoopMeta())
        fr = self.frames[-1]
        vis = {}
        f = fr
        chain = []
        while f is not None:
            chain.append(f)
            f = f.closure
        for f in reversed(chain):
            vis.update(f.locals)
        lp = {"meta": meta, "prelocals": dict(vis), "precells": dict(self.cells),
              "prerecs": {k: dict(v) for k, v in self.recs.items()}, "preheap": dict(self.heap), "frame": fr,
              "key": key, "names": names, "fn": self.callsite(),
              "dead": meta.deadby.setdefault(() if getattr(self.root, "share_dead", False) else
                                              tuple(d[0] for d in self.decisions[:self.pos]), set())}
        for n in names:
            v = fr.locals.get(n)
            if v is not None:
                d = self.tydesc(v)
                tl = meta.types.setdefault(n, [])
                if d not in tl:
                    tl.append(d)
                    if len(tl) > 1:
                        raise Restart()
        return lp

    def havoc_loop(self, lp):
        meta, fr = lp["meta"], lp["frame"]
        for n in sorted(lp["names"]):
            v = fr.locals.get(n)
            if v is None:
                fr.locals[n] = None
                continue
            tl = meta.types[n]
            d = tl[self.choose_n(len(tl))]
            fr.locals[n] = self.havoc_value(n, d, v, meta)
        for m in sorted(meta.mods, key=str):
            if m[0] == "cell":
                cid = self.root_cell(lp, m[1])
                if cid is None or (m[1][0] == "local" and m[1][1] in lp["names"]
                                   and not isinstance(fr.locals.get(m[1][1]), CellV)):
                    if cid is None:
                        continue
                self.cells[cid] = self.havoc_content(self.cells[cid], meta.cellelem.get(m[1]))
            elif m[0] == "heap":
                a = self.heap_arr(m[1])
                self.heap[m[1]] = self.fresh(a.sort(), "H_" + m[1])
            elif m[0] == "rec":
                rid = self.root_rec(lp, m[1])
                if rid is None:
                    continue
                v = self.recs[rid].get(m[2])
                if v is None:
                    raise Unsupported("attribute created in loop")
                self.recs[rid][m[2]] = self.havoc_value(m[2], self.tydesc(v), v, meta)

    def havoc_content(self, c, elem):
        if c[0] == "list":
            return ("list", c[1], self.fresh(c[1].sort, "L"))
        if c[0] == "clist":
            if elem is None:
                return c
            lt = T.list_of(elem)
            return ("list", lt, self.fresh(lt.sort, "L"))
        if c[0] == "set":
            return ("set", c[1], self.fresh(z3.SetSort(c[1]), "S"))
        if c[0] == "cset":
            if elem is None:
                return c
            return ("set", elem, self.fresh(z3.SetSort(elem), "S"))
        if c[0] == "dict":
            return ("dict", c[1], c[2], self.fresh(c[3].sort(), "Dd"), self.fresh(c[4].sort(), "Dv"))
        if c[0] == "cdict":
            if elem is None:
                return c
            ks, vs = elem
            return ("dict", ks, vs, self.fresh(z3.SetSort(ks), "Dd"), self.fresh(z3.ArraySort(ks, vs), "Dv"))
        raise Unsupported("havoc " + c[0])

    def havoc_value(self, n, d, v, meta):
        if d[0] in SORT:
            t = self.fresh(SORT[d[0]], n)
            return Sc(d[0], t, d[1])
        if d[0] == "none":
            return NONE
        if d[0] == "cellk":
            if isinstance(v, CellV):
                el = meta.cellelem.get(("local", n))
                c = self.content(v)
                # a rebound list variable: a fresh list of the same kind
                nc = self.havoc_content(c, el)
                if c[0] in ("clist", "cset", "cdict") and el is None:
                    return v
                return self.new_cell(nc)
        if d[0] == "tuple":
            return TupV([self.havoc_value(n + str(i), x, None, meta) for i, x in enumerate(d[1:])])
        if d[0] == "rec":
            h = self.hooks.get("havoc_rec")
            if h is not None:
                return h(self, n, d[1])
        raise Unsupported(f"havoc of {n}: {d[0]}")

    def candidates(self, lp, ghost):
        """{name: fn()->formula over the *current* state}.  ghost: dict with 'lt','P' (prefix) or 'i'."""
        out = {}
        for tm in self.templates:
            for nm, fn in tm(self, lp, ghost):
                if nm not in lp["dead"]:
                    out[nm] = fn
        return out

    def check_cands(self, lp, cands):
        fs = {n: f() for n, f in cands.items()}
        fs = {n: f for n, f in fs.items() if f is not None and not (isinstance(f, bool) and f)}
        if not fs:
            return
        conj = z3.And(*fs.values())
        if len(fs) <= 1 or not self.check_now(conj):
            bad = [n for n, f in fs.items() if not self.check_now(f)]
            if bad:
                if HDEBUG:
                    print("DEAD", lp["fn"], bad, flush=True)
                    for n in bad:
                        if os.environ.get("PYVC_DUMP") and os.environ["PYVC_DUMP"] in n:
                            print("PC:", *[str(f) for f in self.pc], "GOAL:", fs[n], sep="\n   ", flush=True)
                            sv = z3.Solver()
                            sv.add(*self.all_axioms(), *self.pc, z3.Not(self.under_pc(fs[n])))
                            open("/tmp/p/dump.smt2", "w").write(sv.to_smt2())
                            raise Unsupported("dump")
                lp["dead"].update(bad)
                raise Restart()

    def assume_cands(self, lp, cands):
        fs = {n: f() for n, f in cands.items()}
        bad = [n for n, g in fs.items() if g is False or (z3.is_expr(g) and z3.is_false(z3.simplify(g)))]
        if bad:                     # ill-typed for the havocked state: not an invariant
            lp["dead"].update(bad)
            raise Restart()
        for n, g in fs.items():
            if g is not None and not (isinstance(g, bool) and g):
                self.assume(g)

    def end_types(self, lp):
        meta, fr = lp["meta"], lp["frame"]
        for n in lp["names"]:
            if n in meta.types:
                v = fr.locals.get(n)
                if v is None:
                    continue
                d = self.tydesc(v)
                if d not in meta.types[n]:
                    meta.types[n].append(d)
                    raise Restart()
                if isinstance(v, CellV):
                    c = self.content(v)
                    if c[0] in ("list", "set", "dict") or c[1]:
                        self._note_elem(meta, ("local", n), c)

    def run_loop(self, key, it, bind, body, names):
        lp = self.loop_enter(key, names)
        meta = lp["meta"]
        if isinstance(it, RangeV):
            i = None
            g0 = {"i": it.lo, "lo": it.lo, "hi": it.hi, "range": it}
            g = lp["g"] = dict(g0)
            cands = self.candidates(lp, g)
            # init (only meaningful if lo <= hi; for lo > hi the loop is skipped)
            if self.choose(it.hi <= it.lo):
                return False
            self.check_cands(lp, cands)
            self.havoc_loop(lp)
            iv = self.fresh(IntS, "i")
            g["i"] = iv
            self.assume(z3.And(it.lo <= iv, iv <= it.hi))
            self.assume_cands(lp, cands)
            if self.choose_n(2) == 0:
                self.assume(iv < it.hi)
                bind(I(it.at(iv)))
                self.loopstack.append(lp)
                try:
                    try:
                        body(I(it.at(iv)))
                    except _Continue:
                        pass
                    except _Break:
                        return True
                finally:
                    self.loopstack.pop()
                self.end_types(lp)
                g["i"] = iv + 1
                self.check_cands(lp, cands)
                raise PathEnd()
            self.assume(iv == it.hi)
            return False
        lt = it.lt
        g = lp["g"] = {"lt": lt, "P": lt.nil, "xs": it.term, "x": None}
        cands = self.candidates(lp, g)
        self.check_cands(lp, cands)
        self.havoc_loop(lp)
        if self.choose_n(2) == 0:
            P = self.fresh(lt.sort, "P")
            x = self.fresh(lt.elem, "x")
            R = self.fresh(lt.sort, "R")
            Px = lt.snoc(P, x)
            self.assume(it.term == lt.cat(Px, R))
            self.assume(lt.len(R) >= 0)
            self.assume(lt.len(it.term) == lt.len(P) + 1 + lt.len(R))
            self.assume(lt.mem(x, it.term))
            self.assume(lt.nth(it.term, lt.len(P)) == x)
            if lt.elem == Ref and not self.hooks.get("nullable_lists"):
                self.assume(x != NULL)
            g["P"], g["x"], g["R"] = P, x, R
            self.assume_cands(lp, cands)
            v = it.mapper(lt.len(P), x)
            bind(v)
            h = self.hooks.get("loop_elem")
            if h is not None:
                h(self, lp, g, v)
            self.loopstack.append(lp)
            try:
                try:
                    body(v)
                except _Continue:
                    pass
                except _Break:
                    return True
            finally:
                self.loopstack.pop()
            self.end_types(lp)
            g["P"] = Px
            self.check_cands(lp, cands)
            raise PathEnd()
        g["P"] = it.term
        self.assume_cands(lp, cands)
        return False

    def run_while(self, key, st, names):
        lp = self.loop_enter(key, names)
        g = {"while": True}
        cands = self.candidates(lp, g)
        self.check_cands(lp, cands)
        self.havoc_loop(lp)
        self.assume_cands(lp, cands)
        self.loopstack.append(lp)
        m0 = self.variant(lp)
        try:
            if not self.truthy(self.eval(st.test)):
                self.loopstack.pop()
                self.loopstack.append({"meta": LoopMeta(), "precells": {}, "prerecs": {}, "prelocals": {}})
                return False
            try:
                self.block(st.body)
            except _Continue:
                pass
            except _Break:
                return True
        finally:
            self.loopstack.pop()
        self.end_types(lp)
        self.check_cands(lp, cands)
        m1 = self.variant(lp)
        if m0 is not None and m1 is not None:
            self.prove("loop variant decreases and is bounded below", z3.And(m1 < m0, m0 >= 0), "term")
        else:
            self.partial = getattr(self, "partial", set()) | {self.callsite()}
        raise PathEnd()

    def variant(self, lp):
        f = getattr(self.root, "variant", None)
        return f(self, lp) if f is not None else None
