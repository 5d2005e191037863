"""Contracts of the allowed-VLAN set of a trunk port (C23)."""
import z3
from pyvc import theory as T
from pyvc import intlists as IL
from pyvc import shapes as SH
from pyvc.theory import Ref, Str, IntS, BoolS, Fold, m_any, slit
from pyvc.engine import NULL, Sc, RecV, CellV, FieldV, ExtV, NONE, NoneV, S, B, Unsupported, strfn
from pyvc.contract import Contract, DEFAULT_TEMPLATES, targets, cur_value
from . import lines as L
from . import values as VA
from .lines import ABC, LR, LS, FIELDS, txt, bool_of, H
from .values import den, parts, WFR, ASC, LI, lst, mk_range, Members, Combine

MOD = "ciscoconfparse.models_cisco"
FA, I_ = z3.ForAll, z3.Implies
x = z3.Const("x", Ref)
l = z3.Const("l", LR.sort)
w = z3.Const("w", LS.sort)
s = z3.Const("s", Str)
y = z3.Int("y")
WS_ = strfn("split_ws", Str, LS.sort)
STRIP = strfn("strip", Str, Str)
FIRST = z3.Function("first_words", LS.sort, IntS, LS.sort)
KIND = z3.Function("allowed_vlan_kind", Ref, IntS)
VT = z3.Function("vlan_list_of", Ref, Str)
OTHER, ADD, EXCEPT, REMOVE, PLAIN, ALL, NON = range(7)
ALLOWED = z3.Function("vlan_allowed_after", LR.sort, IntS, BoolS)      # THE SPECIFICATION: y is allowed after these lines
LISTED = z3.Function("plain_list_in_force", LR.sort, BoolS)            # a plain list was given since the last all / none
HEAD = ("switchport", "trunk", "allowed", "vlan")
TOP = 4094


def wl(*ws):
    t = LS.nil
    for v in ws:
        t = LS.snoc(t, slit(v))
    return t


def step(P, d, k, v, t):
    """does y stay / become allowed when a line of kind k with the list t follows"""
    m = den(t, v)
    return z3.If(k == ADD, z3.Or(P, m), z3.If(z3.Or(k == EXCEPT, k == REMOVE), z3.And(P, z3.Not(m)),
           z3.If(k == PLAIN, z3.If(d, z3.Or(P, m), m), z3.If(k == ALL, z3.And(1 <= v, v <= TOP), z3.If(k == NON, z3.BoolVal(False), P)))))


def defs():
    k = KIND(x)
    return [FA([y], ALLOWED(LR.nil, y) == z3.And(1 <= y, y <= TOP), patterns=[ALLOWED(LR.nil, y)]),
            FA([l, x, y], ALLOWED(LR.snoc(l, x), y) == step(ALLOWED(l, y), LISTED(l), k, y, VT(x)), patterns=[ALLOWED(LR.snoc(l, x), y)]),
            z3.Not(LISTED(LR.nil)),
            FA([l, x], LISTED(LR.snoc(l, x)) == z3.If(k == PLAIN, z3.BoolVal(True), z3.If(z3.Or(k == ALL, k == NON), z3.BoolVal(False), LISTED(l))), patterns=[LISTED(LR.snoc(l, x))]),
            FA([s], WS_(STRIP(s)) == WS_(s), patterns=[WS_(STRIP(s))]), FA([w], LS.len(FIRST(w, 3)) <= 3, patterns=[FIRST(w, 3)])]


def word(x, i):
    return LS.nth(WS_(txt(x)), i)


Switch = Fold("HasSwitchport", LR, [], m_any(), lambda x: word(x, 0) == slit("switchport"))
Access = Fold("HasModeAccess", LR, [], m_any(), lambda x: FIRST(WS_(txt(x)), 3) == wl("switchport", "mode", "access"))


def shape(ex, x):
    """the text of a child line, by kind"""
    t = txt(x)
    ex.__dict__.setdefault("aliases", {}).pop(t.get_id(), None)           # nothing is known from other paths
    for k, kw in ((ADD, "add"), (EXCEPT, "except"), (REMOVE, "remove"), (PLAIN, None), (ALL, "all"), (NON, "none")):
        if ex.choose(KIND(x) == k):
            b = [ex.fresh(Str, f"blank{i}") for i in range(7)]
            ps = []
            for i, wd in enumerate(HEAD + ((kw,) if kw else ())):
                ps += [b[i], slit(wd)]
            if k in (ADD, EXCEPT, REMOVE, PLAIN):
                ps += [b[6], VT(x)]
                SH.atom(ex, VT(x), r"[0-9]+(?:[,\-][0-9]+)*")
            for q in ps:
                if any(q.eq(z) for z in b):
                    SH.atom(ex, q, " +")
            SH.alias(ex, t, ex.concat(ps))
            return
    z = z3.Const("z!w", Str)
    ex.assume(FIRST(WS_(t), 4) != wl(*HEAD))
    ex.assume(FA([z], FIRST(WS_(t), 5) != LS.snoc(wl(*HEAD), z)))


def loop_elem(ex, lp, g, v):
    if isinstance(ex.root, Trunk) and g["lt"] is LR:
        shape(ex, g["x"])


def h_slice(ex, o, sl):
    c = ex.content(o) if isinstance(o, (CellV, FieldV)) else None
    if c is None or c[0] != "list" or c[1] is not LS:
        return None
    lo, hi, stp = sl[1:]
    if (lo is None or isinstance(lo, NoneV) or (ex.is_conc(lo) and ex.pyval(lo) == 0)) and stp is None and hi is not None and ex.is_conc(hi):
        return ex.new_list(LS, FIRST(c[2], ex.pyval(hi)))
    return None


def havoc_rec(ex, n, d):
    return mk_range(ex, n)


HOOKS = {}
for _k, _v in VA.HOOKS.items():
    HOOKS.setdefault(_k, _v)
HOOKS.update({"loop_elem": loop_elem, "slice": h_slice, "havoc_rec": havoc_rec})
MODELS = dict(getattr(L, "MODELS", {}))
MODELS.update(VA.MODELS)
TRUSTED = VA.C18_TRUSTED + ["str.split() of right- or left-stripped text gives the same words"]
REF_CLASS = ("ciscoconfparse.models_cisco", "IOSIntfLine")


class NewRange(VA.MakeRange):
    """CiscoRange(text, result_type=int) as C18 proves it, with or without a text"""
    trusted = "the two contracts of CiscoRange.__init__ that C18 proves; what a constant text denotes is computed from its definition"

    def __init__(self):
        super().__init__(False)

    def call(self, ex, a):
        t = a.get("text")
        empty = t is None or T.lit_value(t.t) == ""
        rt = a.get("result_type")
        ex.prove("precondition integers asked for at call of CiscoRange", z3.BoolVal(isinstance(rt, ExtV) and rt.name == "int"), "pre")
        v = None if empty else T.lit_value(t.t)
        if v is not None and all(c.isdigit() or c in ",-" for c in v):
            ex.assume(WFR(t.t))
            tok = [p.split("-") for p in v.split(",")]
            ex.assume(FA([y], den(t.t, y) == z3.Or([z3.And(int(p[0]) <= y, y <= int(p[-1])) for p in tok])))
        if not empty:
            ex.prove("precondition well-formed range text at call of CiscoRange", WFR(t.t), "pre")
        r = mk_range(ex, "range")
        ex.recs[a["self"].id].update(ex.recs[r.id])
        self.empty = empty
        for nm, f in self.ensures(ex, a, NONE):
            ex.assume(f if z3.is_expr(f) else z3.BoolVal(bool(f)))
        return NONE


class Combined(Combine):
    """+ and - as C18 proves them: what they return; the left operand may change"""
    trusted = "the contracts of CiscoRange.__add__ and __sub__ that C18 proves"

    def call(self, ex, a):
        for nm, f in self.requires(ex, a):
            ex.prove(f"precondition {nm} of {self.key} at call", f, "pre")
        ex.prove(f"precondition two different ranges at call of {self.key}", z3.BoolVal(a["self"].id != a["other"].id), "pre")
        L0, M = lst(ex, a["self"]), lst(ex, a["other"])
        ex.set_content(ex.recs[a["self"].id]["_list"], ("list", LI, ex.fresh(LI.sort, "left")))
        r = mk_range(ex, "combined")
        L = lst(ex, r)
        want = z3.Or(LI.mem(y, L0), LI.mem(y, M)) if self.op == "__add__" else z3.And(LI.mem(y, L0), z3.Not(LI.mem(y, M)))
        ex.assume(ASC(L))
        ex.assume(FA([y], LI.mem(y, L) == want, patterns=[LI.mem(y, L)]))
        return r


def children(ex, a):
    return z3.Select(H("children"), a["self"].t)


class C23C(Contract):
    params = {"self": "ref"}

    def axioms(self):
        return defs() + VA.r_axioms()

    def modifies(self, ex, a):
        return []

    def requires(self, ex, a):
        c = children(ex, a)
        return [("self is a line", a["self"].t != NULL), ("children are lines", FA([x], I_(LR.mem(x, c), x != NULL), patterns=[LR.mem(x, c)])),
                ("no child line is blank", FA([x], I_(LR.mem(x, c), LS.len(WS_(txt(x))) > 0), patterns=[LR.mem(x, c)]))]


class Flag(C23C):
    result = "bool"

    def __init__(self, name, fold):
        self.key, self.fold, self.folds = f"{MOD}:BaseIOSIntfLine.{name}", fold, (fold,)

    def ensures(self, ex, a, r):
        return [("exactly when a child line says so", bool_of(ex, r) == self.fold(children(ex, a)))]


def state_template(ex, lp, g):
    if g.get("lt") is not LR or not isinstance(ex.root, Trunk):
        return []
    out = []
    for n, v in sorted(lp["prelocals"].items()):
        def range_(n=n):
            r = lp["frame"].locals.get(n)
            if not isinstance(r, RecV) or "_list" not in ex.recs[r.id]:
                return z3.BoolVal(False)
            return z3.And(ASC(lst(ex, r)), FA([y], LI.mem(y, lst(ex, r)) == ALLOWED(g["P"], y), patterns=[LI.mem(y, lst(ex, r))]))

        def flag(n=n):
            r = lp["frame"].locals.get(n)
            return bool_of(ex, r) == LISTED(g["P"]) if isinstance(r, Sc) and r.ty == "bool" else z3.BoolVal(False)
        if isinstance(v, RecV) and "_list" in ex.recs[v.id]:
            out.append((f"{n} is the set allowed so far", range_))
        elif isinstance(v, Sc) and v.ty == "bool":
            out.append((f"{n} says whether a plain list is in force", flag))
    return out


class Trunk(C23C):
    key = f"{MOD}:BaseIOSIntfLine.trunk_vlans_allowed"
    folds = (Switch, Access)
    templates = [state_template] + list(DEFAULT_TEMPLATES)
    result = "val"

    def requires(self, ex, a):
        c = children(ex, a)
        return super().requires(ex, a) + [
            ("lines about allowed VLANs are well formed", FA([x], I_(z3.And(LR.mem(x, c), KIND(x) >= ADD, KIND(x) <= PLAIN), WFR(VT(x))), patterns=[LR.mem(x, c)])),
            ("kinds of lines", FA([x], I_(LR.mem(x, c), z3.And(0 <= KIND(x), KIND(x) <= NON)), patterns=[LR.mem(x, c)]))]

    def ensures(self, ex, a, r):
        c = children(ex, a)
        trunk = z3.And(Switch(c), z3.Not(Access(c)))
        if isinstance(r, RecV):
            L_ = lst(ex, r)
            rt = ex.getattr(r, "result_type")
            return [("a set only on a switchport that is not an access port", trunk),
                    ("the VLANs that the lines leave allowed, in order", FA([y], LI.mem(y, L_) == ALLOWED(c, y), patterns=[LI.mem(y, L_)])),
                    ("ascending, each once", ASC(L_)), ("members are integers", z3.BoolVal(isinstance(rt, ExtV) and rt.name == "int"))]
        return [("0 on any other port", z3.And(z3.Not(trunk), r.t == 0) if isinstance(r, Sc) and r.ty == "int" else z3.BoolVal(False))]


C23 = [Trunk(), Flag("is_switchport", Switch), Flag("has_manual_switch_access", Access), NewRange(), Combined("__add__"), Combined("__sub__")]
