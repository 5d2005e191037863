"""Contracts of the edit operations: insertion, deletion, replacement, commit (C09-C12)."""
import z3
from pyvc import theory as T
from pyvc import intlists as IL
from pyvc.theory import Ref, Val, Str, IntS, BoolS, Fold, m_list, m_any, slit, Lemma
from pyvc.engine import RE_FOUND, RE_FULL, RE_SUB, NULL, NONEVAL, Sc, RecV, CellV, NONE, NoneV, ExtV, strfn, Unsupported, TupV
from pyvc.contract import Contract, targets, as_term, cur_value, DEFAULT_TEMPLATES
from . import lines as L
from . import parse as PA
from .lines import IosCfg, regex_axioms, FindObjects, FindLineObj, RegexTol, CCP, ABC, LR, LS, LI, SetR, FIELDS, H, txt, bool_of, tol, Find, FindFull
from .parse import Texts, Nodup, NumOK, RSTRIP, LSTRIP, STRIP, new_line, valid_syntax, SYNTAXES, comment_text, str_axioms, ind

FA, I_ = z3.ForAll, z3.Implies
x, y, e = z3.Consts("x y e", Ref)
l, Q, m = z3.Consts("l Q m", LR.sort)
S_ = z3.Const("S_", SetR)
p, n = z3.Consts("p n", Str)
i, d, k = z3.Ints("i d k")
il = z3.Const("il", LI.sort)

# --- vocabulary ---------------------------------------------------------------------------------------------------------
INSAT = z3.Function(f"insertat_{LR.name}", LR.sort, IntS, Ref, LR.sort)        # list.insert at a position 0..len
Pos = z3.Function("positions_of", LR.sort, LR.sort, LI.sort)                   # positions of the elements of l that are in Q
PosM = z3.Function("positions_matching", Str, LR.sort, LI.sort)
Marked = z3.Function("inserted", LR.sort, IntS, LR.sort, LR.sort)              # l with a mark before (0) / after (1) every element in Q
Apply = z3.Function("insert_all", LI.sort, IntS, LR.sort, LR.sort)             # marks inserted at the positions, one after the other
Below = z3.Function("all_below", LI.sort, IntS, BoolS)
Abs = Fold("Marks", LR, [S_], m_list(LR), lambda S, x: (z3.BoolVal(True), z3.If(S[x], x, NULL)))   # lines that are not in S become marks
MText = Fold("MarkedTexts", LR, [n], m_list(LS), lambda n, x: (z3.BoolVal(True), z3.If(x == NULL, n, txt(x))))
InsT = z3.Function("InsertedTexts", Str, Str, IntS, LR.sort, LS.sort)          # THE SPECIFICATION of insertion by expression
InsTL = z3.Function("InsertedTextsAt", LR.sort, Str, IntS, LR.sort, LS.sort)   # THE SPECIFICATION of insertion at given lines
OldOrNew = z3.Function("old_or_new", SetR, Str, LR.sort, BoolS)                # every line is in S or has the new text


def one(o):
    return LR.snoc(LR.nil, o)


def put(lt, base, a, b, d_):
    return z3.If(d_ == 0, lt.snoc(lt.snoc(base, a), b), lt.snoc(lt.snoc(base, b), a))


DEFS = [
    FA([i, x], INSAT(LR.nil, i, x) == one(x), patterns=[INSAT(LR.nil, i, x)]),
    FA([l, y, i, x], INSAT(LR.snoc(l, y), i, x) == z3.If(i > LR.len(l), LR.snoc(LR.snoc(l, y), x), LR.snoc(INSAT(l, i, x), y)), patterns=[INSAT(LR.snoc(l, y), i, x)]),
    FA([Q], Pos(Q, LR.nil) == LI.nil, patterns=[Pos(Q, LR.nil)]),
    FA([Q, l, x], Pos(Q, LR.snoc(l, x)) == z3.If(LR.mem(x, Q), LI.snoc(Pos(Q, l), LR.len(l)), Pos(Q, l)), patterns=[Pos(Q, LR.snoc(l, x))]),
    FA([p], PosM(p, LR.nil) == LI.nil, patterns=[PosM(p, LR.nil)]),
    FA([p, l, x], PosM(p, LR.snoc(l, x)) == z3.If(RE_FOUND(p, txt(x)), LI.snoc(PosM(p, l), LR.len(l)), PosM(p, l)), patterns=[PosM(p, LR.snoc(l, x))]),
    FA([Q, d], Marked(Q, d, LR.nil) == LR.nil, patterns=[Marked(Q, d, LR.nil)]),
    FA([Q, d, l, x], Marked(Q, d, LR.snoc(l, x)) == z3.If(LR.mem(x, Q), put(LR, Marked(Q, d, l), NULL, x, d), LR.snoc(Marked(Q, d, l), x)),
       patterns=[Marked(Q, d, LR.snoc(l, x))]),
    FA([p, n, d], InsT(p, n, d, LR.nil) == LS.nil, patterns=[InsT(p, n, d, LR.nil)]),
    FA([p, n, d, l, x], InsT(p, n, d, LR.snoc(l, x)) == z3.If(RE_FOUND(p, txt(x)), put(LS, InsT(p, n, d, l), n, txt(x), d), LS.snoc(InsT(p, n, d, l), txt(x))),
       patterns=[InsT(p, n, d, LR.snoc(l, x))]),
    FA([Q, n, d], InsTL(Q, n, d, LR.nil) == LS.nil, patterns=[InsTL(Q, n, d, LR.nil)]),
    FA([Q, n, d, l, x], InsTL(Q, n, d, LR.snoc(l, x)) == z3.If(LR.mem(x, Q), put(LS, InsTL(Q, n, d, l), n, txt(x), d), LS.snoc(InsTL(Q, n, d, l), txt(x))),
       patterns=[InsTL(Q, n, d, LR.snoc(l, x))]),
    FA([d, l], Apply(LI.nil, d, l) == l, patterns=[Apply(LI.nil, d, l)]),
    FA([il, i, d, l], Apply(LI.snoc(il, i), d, l) == INSAT(Apply(il, d, l), i + d, NULL), patterns=[Apply(LI.snoc(il, i), d, l)]),
    FA([k], Below(LI.nil, k), patterns=[Below(LI.nil, k)]),
    FA([il, i, k], Below(LI.snoc(il, i), k) == z3.And(Below(il, k), 0 <= i, i < k), patterns=[Below(LI.snoc(il, i), k)]),
    FA([S_, n], OldOrNew(S_, n, LR.nil), patterns=[OldOrNew(S_, n, LR.nil)]),
    FA([S_, n, l, x], OldOrNew(S_, n, LR.snoc(l, x)) == z3.And(OldOrNew(S_, n, l), z3.Or(S_[x], txt(x) == n), x != NULL), patterns=[OldOrNew(S_, n, LR.snoc(l, x))]),
]


def lem(name, params, body, pats, use=(), lt=LR):
    return Lemma("edit." + name, lt.sort, lt, params, body, pats, ["edit." + u if not u.startswith("int.") else u for u in use])


D01 = z3.Or(d == 0, d == 1)
LEMMAS = [
    lem("insert_len", [i, x], lambda v: LR.len(INSAT(v, i, x)) == LR.len(v) + 1, lambda v: [INSAT(v, i, x)]),
    lem("insert_mem", [i, x, y], lambda v: LR.mem(y, INSAT(v, i, x)) == z3.Or(y == x, LR.mem(y, v)), lambda v: [LR.mem(y, INSAT(v, i, x))]),
    lem("insert_nodup", [i, x], lambda v: I_(z3.And(Nodup(v), z3.Not(LR.mem(x, v))), Nodup(INSAT(v, i, x))), lambda v: [Nodup(INSAT(v, i, x))], use=["insert_mem"]),
    lem("marks_len", [S_], lambda v: LR.len(Abs(S_, v)) == LR.len(v), lambda v: [Abs(S_, v)]),
    lem("insert_marks", [S_, i, x], lambda v: I_(z3.Not(S_[x]), Abs(S_, INSAT(v, i, x)) == INSAT(Abs(S_, v), i, NULL)), lambda v: [Abs(S_, INSAT(v, i, x))], use=["marks_len"]),
    lem("insert_old", [S_, n, i, x], lambda v: I_(z3.And(OldOrNew(S_, n, v), x != NULL, z3.Or(S_[x], txt(x) == n)), OldOrNew(S_, n, INSAT(v, i, x))),
        lambda v: [OldOrNew(S_, n, INSAT(v, i, x))]),
    lem("marks_none", [S_], lambda v: I_(FA([y], I_(LR.mem(y, v), S_[y])), Abs(S_, v) == v), lambda v: [Abs(S_, v)]),
    lem("old_elim", [S_, n, y], lambda v: I_(z3.And(OldOrNew(S_, n, v), LR.mem(y, v)), z3.Or(S_[y], txt(y) == n)), lambda v: [OldOrNew(S_, n, v), LR.mem(y, v)]),
    lem("old_trans", [S_, m, n], lambda v: I_(z3.And(OldOrNew(S_, n, m), OldOrNew(LR.setof(m), n, v)), OldOrNew(S_, n, v)),
        lambda v: [OldOrNew(S_, n, m), OldOrNew(LR.setof(m), n, v)], use=["old_elim"]),
    lem("abs_abs", [l, m], lambda v: I_(z3.And(FA([y], I_(LR.mem(y, l), LR.mem(y, m))), z3.Not(LR.mem(NULL, l))),
                                        Abs(LR.setof(l), Abs(LR.setof(m), v)) == Abs(LR.setof(l), v)), lambda v: [Abs(LR.setof(l), v), Abs(LR.setof(m), v)]),
    lem("abs_marked", [l, x, d], lambda v: I_(z3.And(LR.mem(x, l), z3.Not(LR.mem(NULL, l)), z3.Not(LR.mem(NULL, v))),
                                              Abs(LR.setof(l), Marked(one(x), d, v)) == Marked(one(x), d, Abs(LR.setof(l), v))), lambda v: [Abs(LR.setof(l), Marked(one(x), d, v))]),
    lem("marked_marked", [Q, x, d], lambda v: I_(z3.And(z3.Not(LR.mem(x, Q)), x != NULL, z3.Not(LR.mem(NULL, v))), Marked(one(x), d, Marked(Q, d, v)) == Marked(LR.snoc(Q, x), d, v)),
        lambda v: [Marked(one(x), d, Marked(Q, d, v))]),
    lem("marked_nil", [d], lambda v: Marked(LR.nil, d, v) == v, lambda v: [Marked(LR.nil, d, v)]),
    lem("find_nodup", [p], lambda v: I_(Nodup(v), Nodup(Find(p, v))), lambda v: [Find(p, v), Nodup(v)], use=["find_mem"]),
    lem("findf_mem", [p, y], lambda v: LR.mem(y, FindFull(p, v)) == z3.And(LR.mem(y, v), RE_FULL(p, txt(y))), lambda v: [LR.mem(y, FindFull(p, v))]),
    lem("findf_nodup", [p], lambda v: I_(Nodup(v), Nodup(FindFull(p, v))), lambda v: [FindFull(p, v), Nodup(v)], use=["findf_mem"]),
    lem("nodup_cat", [l], lambda v: I_(Nodup(LR.cat(l, v)), Nodup(l)), lambda v: [Nodup(LR.cat(l, v))]),
    lem("insert_front", [x], lambda v: INSAT(v, 0, x) == LR.cat(one(x), v), lambda v: [INSAT(v, 0, x)]),
    lem("old_all", [S_, n], lambda v: I_(FA([y], I_(LR.mem(y, v), z3.And(S_[y], y != NULL))), OldOrNew(S_, n, v)), lambda v: [OldOrNew(S_, n, v)]),
    lem("texts_of_marks", [S_, n], lambda v: I_(OldOrNew(S_, n, v), z3.And(Texts(v) == MText(n, Abs(S_, v)))), lambda v: [OldOrNew(S_, n, v)]),
    lem("pos_below", [Q, k], lambda v: I_(LR.len(v) <= k, Below(Pos(Q, v), k)), lambda v: [Below(Pos(Q, v), k)]),
    lem("pos_mem", [Q, i], lambda v: I_(LI.mem(i, Pos(Q, v)), z3.And(0 <= i, i < LR.len(v))), lambda v: [LI.mem(i, Pos(Q, v))]),
    lem("pos_asc", [Q], lambda v: IL.ASC(Pos(Q, v)), lambda v: [Pos(Q, v)], use=["pos_mem"]),
    lem("pos_some", [Q, y], lambda v: I_(z3.And(LR.mem(y, v), LR.mem(y, Q)), Pos(Q, v) != LI.nil), lambda v: [Pos(Q, v), LR.mem(y, v)]),
    lem("posm_pos", [p, Q], lambda v: I_(FA([y], I_(LR.mem(y, v), LR.mem(y, Q) == RE_FOUND(p, txt(y)))), PosM(p, v) == Pos(Q, v)), lambda v: [PosM(p, v), Pos(Q, v)]),
    lem("posm_find", [p], lambda v: PosM(p, v) == Pos(Find(p, v), v), lambda v: [PosM(p, v)], use=["posm_pos", "find_mem"]),
    lem("by_find", [p, n, d], lambda v: InsTL(Find(p, v), n, d, v) == InsT(p, n, d, v), lambda v: [InsTL(Find(p, v), n, d, v)], use=["by_expression", "find_mem"]),
    lem("rev_mem", [i], lambda v: LI.mem(i, LI.rev(v)) == LI.mem(i, v), lambda v: [LI.mem(i, LI.rev(v))], lt=LI),
    lem("find_mem", [p, y], lambda v: LR.mem(y, Find(p, v)) == z3.And(LR.mem(y, v), RE_FOUND(p, txt(y))), lambda v: [LR.mem(y, Find(p, v))]),
    lem("rev_below", [k], lambda v: Below(LI.rev(v), k) == Below(v, k), lambda v: [Below(LI.rev(v), k)], use=["below_cat"], lt=LI),
    lem("below_cat", [il, k], lambda v: Below(LI.cat(il, v), k) == z3.And(Below(il, k), Below(v, k)), lambda v: [Below(LI.cat(il, v), k)], lt=LI),
    lem("below_more", [i, k], lambda v: I_(z3.And(Below(v, i), i <= k), Below(v, k)), lambda v: [Below(v, i), Below(v, k)], lt=LI),
    lem("apply_len", [d, l], lambda v: LR.len(Apply(v, d, l)) >= LR.len(l), lambda v: [Apply(v, d, l)], use=["insert_len"], lt=LI),
    lem("apply_front", [i, d, l], lambda v: Apply(LI.cat(LI.snoc(LI.nil, i), v), d, l) == Apply(v, d, INSAT(l, i + d, NULL)),
        lambda v: [Apply(LI.cat(LI.snoc(LI.nil, i), v), d, l)], lt=LI),
    lem("apply_last", [d, l, x], lambda v: I_(z3.And(D01, Below(v, LR.len(l))), Apply(v, d, LR.snoc(l, x)) == LR.snoc(Apply(v, d, l), x)),
        lambda v: [Apply(v, d, LR.snoc(l, x))], use=["apply_len"], lt=LI),
    lem("insert_end", [x], lambda v: INSAT(v, LR.len(v), x) == LR.snoc(v, x), lambda v: [INSAT(v, LR.len(v), x)]),
    lem("apply_marked", [Q, d], lambda v: I_(D01, Apply(LI.rev(Pos(Q, v)), d, v) == Marked(Q, d, v)), lambda v: [Apply(LI.rev(Pos(Q, v)), d, v)],
        use=["apply_front", "apply_last", "pos_below", "rev_below", "below_more", "insert_end"]),
    lem("marked_texts", [Q, n, d], lambda v: I_(z3.And(D01, z3.Not(LR.mem(NULL, v))), MText(n, Marked(Q, d, v)) == InsTL(Q, n, d, v)), lambda v: [MText(n, Marked(Q, d, v))]),
    lem("by_expression", [Q, p, n, d], lambda v: I_(FA([y], I_(LR.mem(y, v), LR.mem(y, Q) == RE_FOUND(p, txt(y)))), InsTL(Q, n, d, v) == InsT(p, n, d, v)),
        lambda v: [InsTL(Q, n, d, v), InsT(p, n, d, v)]),
]


def by_use(lemmas):
    """in an order in which every lemma uses earlier ones only"""
    out, rest, names = [], list(lemmas), {lm.name for lm in lemmas}
    while rest:
        ready = [lm for lm in rest if not any(u in names and u not in {o.name for o in out} for u in lm.use)]
        assert ready, "circular lemmas"
        out += ready
        rest = [lm for lm in rest if lm not in ready]
    return out


LEMMAS = by_use(LEMMAS)
FOLDS = (Abs, MText, Texts, Find, FindFull, PA.RS, PA.NonBlankT)


def lem_hyps():
    out = list(DEFS) + list(PA.DEFS) + IL.asc_defs() + IL.int_list_axioms()
    for lt in (LR, LS, LI):
        out += lt.axioms()
    for F in FOLDS:
        out += F.axioms()
    return out


def axioms():
    return list(DEFS) + list(PA.DEFS) + IL.asc_defs() + IL.int_list_axioms() + [lm.formula() for lm in LEMMAS]


# --- objects ------------------------------------------------------------------------------------------------------------
def new_edit_line(ex, cls, args, kw):
    """a new line object is not held by any list of lines that exists at that moment"""
    if isinstance(ex.root, (NewLine, LineCtor)):
        o = new_line(ex, cls, args, kw)
        if o is not None:
            fresh_in(ex, o.t)
        return o
    if cls.name != "IOSCfgLine" or set(kw) != {"line", "comment_delimiter"} or args:
        return None
    o = Sc("ref", ex.fresh(Ref, "new"), cls)                # by the contract of the constructor: an object that no variable holds yet
    for _, f in line_facts(ex, o.t, kw["line"].t, kw["comment_delimiter"].t):
        ex.assume(f)
    fresh_in(ex, o.t)
    return o


def line_facts(ex, o, text, delim):
    h = lambda f: ex.heap_arr(f)[o]
    return [("text is the given text without trailing whitespace", h("_text") == RSTRIP(text)),
            ("indent is the width of the leading whitespace", h("indent") == T.slen(h("_text")) - T.slen(LSTRIP(h("_text")))),
            ("own parent", h("parent") == o), ("no children", h("children") == LR.nil),
            ("comment iff the first non-blank character is a delimiter", h("is_comment") == comment_text(h("_text"), delim)), ("a line", o != NULL)]


class LineCtor(Contract):
    key = "ciscoconfparse.models_cisco:IOSCfgLine.__init__"
    params = {"self": ("make", lambda ex, nm: Sc("ref", ex.fresh(Ref, nm), ex.src.module("ciscoconfparse.models_cisco").classes["IOSCfgLine"])),
              "line": "str", "comment_delimiter": "str"}
    result = "none"

    def axioms(self):
        return str_axioms()

    def modifies(self, ex, a):
        return list(FIELDS)

    def at_call(self, ex, fi):
        return False

    def requires(self, ex, a):
        return [("an object", a["self"].t != NULL), ("a comment delimiter", T.slen(a["comment_delimiter"].t) > 0)]

    def ensures(self, ex, a, r):
        o = a["self"].t
        z = z3.Const("z!o", Ref)
        out = line_facts(ex, o, a["line"].t, a["comment_delimiter"].t)
        for f in sorted(ex.heap):
            old = ex.heap0[f] if f in ex.heap0 else z3.Const(f"H0_{f}", ex.heap[f].sort())
            if not ex.heap[f].eq(old):
                out.append((f"field {f} of no other line changes", FA([z], I_(z != o, ex.heap[f][z] == old[z]))))
        return out


def fresh_in(ex, o):
    for c in list(ex.cells.values()):
        if c[0] == "list" and c[1] is LR:
            ex.assume(z3.Not(LR.mem(o, c[2])))


def confobj(ex, o):
    return ex.the_confobj


HOOKS = dict(PA.HOOKS)
HOOKS["construct"] = new_edit_line
HOOKS["ref_attrs"] = {"confobj": confobj}
MODELS = dict(PA.MODELS)
REF_CLASS = PA.REF_CLASS
HOOKS["to_str"] = lambda ex, v: ex.fresh(Str, "shown") if isinstance(v, Sc) and v.ty == "ref" else None      # the text of an error message
MODELS["id"] = lambda ex, a, kw: Sc("int", IDOF(a[0].t)) if isinstance(a[0], Sc) and a[0].ty == "ref" else None
MODELS["inspect.stack"] = lambda ex, a, kw: ExtV("opaque inspect.stack()")
TRUSTED = list(PA.TRUSTED) + ["list.insert(i, x) for 0 <= i <= len puts x at position i", "sorted(xs, reverse=True) of strictly ascending integers is the reversed list",
                              "the confobj of every line of a configuration is the ConfigList that holds it (set by the constructor paths)"]


def mk_cl(syntax=None, factory=None):
    def mk(ex, name):
        cls = ex.src.module(CCP).classes["ConfigList"]
        r = ex.new_rec(cls, {"debug": ex.lift(0), "syntax": ex.lift(syntax) if syntax else ex.mk("str", "syntax"), "comment_delimiter": ex.mk("str", "delim"),
                             "factory": ex.lift(factory) if factory is not None else ex.mk("bool", "factory"), "ignore_blank_lines": ex.mk("bool", "ign"),
                             "_list": ex.new_list(LR, z3.Const("objs", LR.sort))})
        ex.the_confobj = r
        return r
    return ("make", mk)


def mk_ccp(ex, name):
    """a CiscoConfParse object with the settings of the ConfigList it holds"""
    cl = mk_cl()[1](ex, name)
    r = ex.recs[cl.id]
    ccp = ex.new_rec(ex.src.module(CCP).classes["CiscoConfParse"], {"ConfigObjs": cl, "debug": ex.lift(0), "syntax": r["syntax"], "comment_delimiter": r["comment_delimiter"],
                                                                   "factory": r["factory"], "ignore_blank_lines": r["ignore_blank_lines"]})
    return ccp


def lines_of(ex, v=None):
    """the lines the configuration holds now"""
    return ex.term_of(ex.recs[ex.the_confobj.id]["_list"], LR.sort)


def lines_ok(ob):
    return [("no line twice", Nodup(ob)), ("lines", FA([x], I_(LR.mem(x, ob), x != NULL), patterns=[LR.mem(x, ob)]))]


class NewLine(Contract):
    """a new line object (distinct from every existing one: no existing object is constrained)"""
    key = f"{CCP}:ConfigList._new_line_object"
    result = "ref"
    split = ()

    def __init__(self, syntax=None):
        self.label = syntax
        self.params = {"self": mk_cl(syntax, False if syntax else None), "text": "str"}
        if syntax is None:
            self.trusted = ("for the five syntaxes with factory=False this is exactly what the labelled contracts of the same function prove; with factory=True "
                            "it is assumed and exercised by the replay oracle")

    def axioms(self):
        return str_axioms()

    def requires(self, ex, a):
        r = ex.recs[a["self"].id]
        sy = r["syntax"]
        return [("a known syntax", valid_syntax(sy.t if z3.is_expr(getattr(sy, "t", None)) else slit(ex.pyval(sy)))), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]

    def ensures(self, ex, a, r):
        return line_facts(ex, r.t, a["text"].t, ex.recs[a["self"].id]["comment_delimiter"].t) + [("not one of the lines there are", z3.Not(LR.mem(r.t, lines_of(ex))))]


class Positions(Contract):
    """positions of the lines an expression is found in / of one line of the configuration"""
    key = f"{CCP}:ConfigList._insert_positions"
    result = ("list", LI)
    folds = FOLDS

    def __init__(self, ty):
        self.label = {"str": "expression", "ref": "line"}[ty]
        self.params = {"self": mk_cl(), "exist_val": ty}

    def axioms(self):
        return axioms()

    def at_call(self, ex, fi):
        return True

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: pos_template(ex, lp, g)]

    def requires(self, ex, a):
        ob = lines_of(ex, a["self"])
        return lines_ok(ob) + ([("a line of the configuration", LR.mem(a["exist_val"].t, ob))] if a["exist_val"].ty == "ref" else [])

    def ensures(self, ex, a, r):
        ob, v = lines_of(ex, a["self"]), a["exist_val"].t
        return [("positions of exactly these lines, ascending", ex.term_of(r, LI.sort) == (PosM(v, ob) if a["exist_val"].ty == "str" else Pos(one(v), ob)))]


def pos_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LR:
        return []
    out = []
    v = ex.root_args["exist_val"]
    for tn, loc in targets(ex, lp):
        def f(loc=loc):
            c = as_term(ex, cur_value(ex, lp, loc), LI.sort)
            if c is None:
                return z3.BoolVal(False)
            return c == (PosM(v.t, g["P"]) if v.ty == "str" else Pos(one(v.t), g["P"]))
        out.append((f"{tn} positions so far", f))
    return out


def old_lines(ex, a):
    """the lines before the operation"""
    o = getattr(ex, "edit_old", None)
    if o is not None:
        return o
    return ex.cells0[ex.recs0[ex.the_confobj.id]["_list"].id][2]


class EditContract(Contract):
    """operations that change the list of lines of a ConfigList: at a call the list becomes a new one"""
    folds = FOLDS
    mutates = ("_list", "self._list")

    def axioms(self):
        return axioms()

    def modifies(self, ex, a):
        return ["linenum"]

    def call(self, ex, a):
        for nm, f in self.requires(ex, a):
            ex.prove(f"precondition {nm} of {self.key} at call", f, "pre")
        self.note(ex, a)
        for f in self.modifies(ex, a):
            ex.heap_arr(f)                                   # a field not read so far has its entry value
        old = dict(ex.heap)
        for f in self.modifies(ex, a):
            ex.note_write(("heap", f))
            ex.heap[f] = ex.fresh(ex.heap_arr(f).sort(), "H_" + f)
        save = getattr(ex, "edit_old", None)
        old_l = lines_of(ex, a["self"])
        c = ex.recs[ex.the_confobj.id]["_list"]
        ex.set_content(c, ("list", LR, ex.fresh(LR.sort, "lines")))
        r = ex.mk(self.result, "ret") if self.result else NONE
        ex.call_old, ex.edit_old = old, old_l
        for nm, f in self.ensures(ex, a, r):
            ex.assume(f if z3.is_expr(f) else z3.BoolVal(bool(f)))
        ex.edit_old = save
        return r

    def note(self, ex, a):
        pass


def targets_of(a):
    v = a["exist_val"]
    return v.t


class Insert(EditContract):
    """the lines in question get the new line immediately before / after them; nothing else moves"""
    split = ()
    result = "none"

    def __init__(self, name, dd, ty):
        self.key = f"{CCP}:ConfigList.{name}"
        self.dd = z3.IntVal(dd)
        self.label = {"str": "at an expression", "ref": "at a line"}[ty]
        self.params = {"self": mk_cl(), "exist_val": ty, "new_val": "str", "atomic": ("const", False)}
        if dd:
            self.params["new_val_indent"] = ("const", -1)

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: insert_template(ex, lp, g)]

    def requires(self, ex, a):
        ob = lines_of(ex, a["self"])
        r = ex.recs[a["self"].id]
        q = []
        if a["exist_val"].ty == "ref":
            q = [("a line of the configuration", LR.mem(a["exist_val"].t, ob))]
        else:
            q = [("an expression", a["exist_val"].t != slit(""))]
        return lines_ok(ob) + q + [("the new line may be blank only if blank lines are kept", z3.Or(z3.Not(bool_of(ex, r["ignore_blank_lines"])), STRIP(a["new_val"].t) != slit(""))),
                                   ("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]

    def where(self, ex, a):
        v = a["exist_val"]
        return one(v.t) if v.ty == "ref" else Find(v.t, old_lines(ex, a))

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex, a["self"])
        v, t = a["exist_val"], RSTRIP(a["new_val"].t)
        Qt, dd = self.where(ex, a), self.dd
        S0 = LR.setof(ob)
        want = InsTL(Qt, t, dd, ob) if v.ty == "ref" else InsT(v.t, t, dd, ob)
        return [("the new line stands " + ("after" if z3.is_int_value(dd) and dd.as_long() else "before") + " these lines, nowhere else, and no other line moved",
                 Abs(S0, nw) == Marked(Qt, dd, ob)),
                ("every line is an old one or has the new text", OldOrNew(S0, t, nw)),
                ("the sequence of texts", Texts(nw) == want)] + lines_ok(nw) + kept(ob, nw) + [("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))]


def kept(ob, nw):
    return [("every old line is still there", FA([x], I_(LR.mem(x, ob), LR.mem(x, nw)), patterns=[LR.mem(x, ob)]))]


def insert_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LI:
        return []
    a = ex.root_args
    ob = old_lines(ex, a)
    S0, t, dd = LR.setof(ob), RSTRIP(a["new_val"].t), ex.root.dd
    cur = lambda: lines_of(ex, a["self"])
    return [("marks so far", lambda: Abs(S0, cur()) == Apply(g["P"], dd, ob)),
            ("old or new so far", lambda: OldOrNew(S0, t, cur())),
            ("length so far", lambda: LR.len(cur()) == LR.len(ob) + LI.len(g["P"])),
            ("no line twice so far", lambda: Nodup(cur())),
            ("lines so far", lambda: FA([x], I_(LR.mem(x, cur()), x != NULL), patterns=[LR.mem(x, cur())])),
            ("kept so far", lambda: kept(ob, cur())[0][1])]


class InsertCfg(EditContract):
    """insertion by expression on the configuration object"""
    result = ("list", LS)
    split = ("exactmatch", "ignore_ws")

    def __init__(self, name, dd):
        self.key = f"{CCP}:CiscoConfParse.{name}"
        self.dd = z3.IntVal(dd)
        self.params = {"self": ("make", mk_ccp), "exist_val": "str", "new_val": "str", "exactmatch": "bool", "ignore_ws": "bool", "atomic": ("const", False)}

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: inscfg_template(ex, lp, g)]

    def axioms(self):
        return axioms() + regex_axioms()

    def requires(self, ex, a):
        ob = lines_of(ex)
        r = ex.recs[ex.the_confobj.id]
        return lines_ok(ob) + PA.static_rule(ob) + [
            ("texts", z3.And(a["exist_val"].t != slit(""), a["new_val"].t != slit(""))),
            ("the new line may be blank only if blank lines are kept", z3.Or(z3.Not(bool_of(ex, r["ignore_blank_lines"])), STRIP(a["new_val"].t) != slit(""))),
            ("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        t, dd = RSTRIP(a["new_val"].t), self.dd
        out = []
        for nm, cond, Qt in matching(ex, a, a["exist_val"].t, ob):
            out.append((f"the new line stands at the matching lines ({nm}), nowhere else, and no other line moved", I_(cond, Texts(nw) == InsTL(Qt, t, dd, ob))))
            out.append((f"line numbers equal positions ({nm})", I_(z3.And(cond, Qt != LR.nil), NumOK(ex.heap_arr("linenum"), nw))))
            if nm == "found":
                out.append(("the sequence of texts", I_(cond, Texts(nw) == InsT(a["exist_val"].t, t, dd, ob))))
        return out + lines_ok(nw) + kept(ob, nw)


def matching(ex, a, pt, ob):
    """(name, condition, lines) for the ways of matching"""
    em = bool_of(ex, a["exactmatch"]) if "exactmatch" in a else z3.BoolVal(False)
    ws = bool_of(ex, a["ignore_ws"]) if "ignore_ws" in a else z3.BoolVal(False)
    N = z3.Not
    return [("found", z3.And(N(em), N(ws)), Find(pt, ob)), ("whole line", z3.And(em, N(ws)), FindFull(pt, ob)),
            ("found, blanks ignored", z3.And(N(em), ws), Find(tol(pt), ob)), ("whole line, blanks ignored", z3.And(em, ws), FindFull(tol(pt), ob))]


def inscfg_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LR:
        return []
    a = ex.root_args
    ob = old_lines(ex, a)
    S0, t, dd = LR.setof(ob), RSTRIP(a["new_val"].t), ex.root.dd
    cur = lambda: lines_of(ex)
    return [("marks so far", lambda: Abs(S0, cur()) == Marked(g["P"], dd, ob)),
            ("old or new so far", lambda: OldOrNew(S0, t, cur())),
            ("no line twice so far", lambda: Nodup(cur())),
            ("lines so far", lambda: FA([x], I_(LR.mem(x, cur()), x != NULL), patterns=[LR.mem(x, cur())])),
            ("numbered", lambda: I_(g["P"] != LR.nil, NumOK(ex.heap_arr("linenum"), cur()))),
            ("kept so far", lambda: kept(ob, cur())[0][1])]


def new_ok(ex, text):
    r = ex.recs[ex.the_confobj.id]
    return [("the new line may be blank only if blank lines are kept", z3.Or(z3.Not(bool_of(ex, r["ignore_blank_lines"])), STRIP(text) != slit(""))),
            ("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]


class LineInsert(EditContract):
    """insertion relative to one line object"""
    result = "none"
    split = ()

    def __init__(self, name, dd):
        self.key = f"{ABC}:BaseCfgLine.{name}"
        self.dd = z3.IntVal(dd)
        self.params = {"self": "ref", "insertstr": "str"}

    def setup(self, ex):
        mk_cl()[1](ex, "conf")

    def requires(self, ex, a):
        ob = lines_of(ex)
        return lines_ok(ob) + [("a line of the configuration", LR.mem(a["self"].t, ob))] + new_ok(ex, a["insertstr"].t)

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        return [("the new line stands at that line, and no other line moved", Texts(nw) == InsTL(one(a["self"].t), RSTRIP(a["insertstr"].t), self.dd, ob)),
            ("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))] + lines_ok(nw) + kept(ob, nw)


class InsertAt(EditContract):
    key = f"{CCP}:ConfigList.insert"
    result = "none"
    split = ()
    params = {"self": mk_cl(), "ii": "int", "val": "str"}

    def requires(self, ex, a):
        ob = lines_of(ex)
        return lines_ok(ob) + new_ok(ex, a["val"].t)[1:] + [("a position", z3.And(0 <= a["ii"].t, a["ii"].t <= LR.len(ob)))]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        t = RSTRIP(a["val"].t)
        S0 = LR.setof(ob)
        return [("the new line stands at that position, and the other lines around it as before", Abs(S0, nw) == INSAT(ob, a["ii"].t, NULL)),
                ("every line is an old one or has the new text", OldOrNew(S0, t, nw)),
                ("at the start", I_(a["ii"].t == 0, Texts(nw) == LS.cat(LS.snoc(LS.nil, t), Texts(ob)))),
            ("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))] + lines_ok(nw) + kept(ob, nw)


class Prepend(EditContract):
    key = f"{CCP}:CiscoConfParse.prepend_line"
    result = "ref"
    split = ()
    params = {"self": ("make", mk_ccp), "linespec": "str"}

    def requires(self, ex, a):
        return lines_ok(lines_of(ex)) + new_ok(ex, a["linespec"].t)[1:]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        return [("the new line is the first, the others follow as before", Texts(nw) == LS.cat(LS.snoc(LS.nil, RSTRIP(a["linespec"].t)), Texts(ob))),
            ("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))] + lines_ok(nw)


SUPPORT = [PA.TextSetter(), PA.SetCommentBool(), PA.Reassign()]
C09 = [NewLine()] + [NewLine(sy) for sy in SYNTAXES] + SUPPORT + [Positions("ref"), Positions("str")]
C09 += [Insert(f, dd, ty) for f, dd in (("insert_before", 0), ("insert_after", 1)) for ty in ("ref", "str")]
C09 += [RegexTol(), FindLineObj(), FindObjects(), InsertCfg("insert_before", 0), InsertCfg("insert_after", 1)]
C09 += [LineCtor(), InsertAt(), Prepend(), LineInsert("insert_before", 0), LineInsert("insert_after", 1)]

# --- commit (C12) -------------------------------------------------------------------------------------------------------
PARSED = z3.Function("fresh_parse_of", Str, Str, BoolS, BoolS, LS.sort, LR.sort, BoolS)    # syntax, comment delimiter, factory, ignore blank lines, texts, lines


def settings(ex, v):
    r = ex.recs[v.id]
    sy = r["syntax"]
    return [sy.t, r["comment_delimiter"].t, bool_of(ex, r["factory"]), bool_of(ex, r["ignore_blank_lines"])]


class BootCall(PA.Bootstrap):
    """the parse, as seen by its callers"""
    trusted = ("the contract of bootstrap_obj_init_ng that C01 proves for the five syntaxes; in addition its result is called the fresh parse of its input with the "
               "settings of the object (the function reads nothing else, so equal input gives equal lines)")

    def __init__(self):
        super().__init__(None)

    def axioms(self):
        return []

    def modifies(self, ex, a):          # only fields of the lines it creates, which no variable of the caller holds
        return []

    def ensures(self, ex, a, r):
        ob = ex.term_of(r, LR.sort)
        return super().ensures(ex, a, r) + [("the fresh parse", PARSED(*settings(ex, a["self"]), ex.term_of(a["text_list"], LS.sort), ob))]


def parse_facts(ex, nw):
    return PA.static_rule(nw) + PA.LinkInv(nw, ex.heap_arr("parent"), ex.heap_arr("children"), ex.heap_arr("linenum"))


class Atomic(EditContract):
    result = "none"

    def __init__(self, name):
        self.key = f"{CCP}:CiscoConfParse.{name}"
        self.params = {"self": ("make", mk_ccp)}

    def axioms(self):
        return axioms() + [lm.formula() for lm in PA.LEMMAS if lm.name.endswith("num_nodup")]

    def modifies(self, ex, a):
        return []

    def requires(self, ex, a):
        r = ex.recs[ex.the_confobj.id]
        return [("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)] + lines_ok(lines_of(ex))

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        ign = bool_of(ex, ex.recs[ex.the_confobj.id]["ignore_blank_lines"])
        return [("the lines are the fresh parse of the texts there were, with the same settings", PARSED(*settings(ex, a["self"]), Texts(ob), nw)),
                ("every text is kept unless blank lines are ignored", I_(z3.Not(ign), Texts(nw) == PA.RS(Texts(ob)))),
                ("only blank lines are dropped", PA.NonBlankT(Texts(nw)) == PA.NonBlankT(PA.RS(Texts(ob)))),
            ("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))] + lines_ok(nw) + parse_facts(ex, nw)


def commit_posts(ex, a, ob_texts, nw):
    """nw is the fresh parse of these texts"""
    ign = bool_of(ex, ex.recs[ex.the_confobj.id]["ignore_blank_lines"])
    return [("the lines are the fresh parse of these texts, with the same settings", PARSED(*settings(ex, ex.the_confobj), ob_texts, nw)),
            ("every text is kept unless blank lines are ignored", I_(z3.Not(ign), Texts(nw) == PA.RS(ob_texts))),
            ("only blank lines are dropped", PA.NonBlankT(Texts(nw)) == PA.NonBlankT(PA.RS(ob_texts))),
            ("line numbers equal positions", NumOK(ex.heap_arr("linenum"), nw))] + lines_ok(nw) + parse_facts(ex, nw)


def made_posts(ex, a, txts, nw):
    return commit_posts(ex, a, txts, nw) + [("never more lines than texts", LR.len(nw) <= LS.len(txts))]


class Append(Atomic):
    """a new last line, then a commit"""
    key = f"{CCP}:CiscoConfParse.append_line"
    result = "ref"

    def __init__(self):
        self.params = {"self": ("make", mk_ccp), "linespec": "str"}

    def axioms(self):
        s1 = z3.Const("s1!", Str)
        return super().axioms() + str_axioms() + [FA([s1], (T.slen(s1) == 0) == (s1 == slit("")), patterns=[T.slen(s1)]), T.slen(slit("")) == 0]

    def requires(self, ex, a):
        return super().requires(ex, a) + new_ok(ex, a["linespec"].t)[:1]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        t = RSTRIP(a["linespec"].t)
        return commit_posts(ex, a, LS.snoc(Texts(ob), t), nw) + [("the new line is returned", r.t == LR.last(nw))]


class MakeLines(Contract):
    """the constructor of the list of lines parses the given texts with the given settings"""
    key = f"{CCP}:ConfigList.__init__"
    folds = FOLDS
    result = "none"
    split = ()
    params = {"self": ("make", lambda ex, nm: ex.new_rec(ex.src.module(CCP).classes["ConfigList"], {})), "initlist": ("list", LS), "comment_delimiter": "str",
              "debug": ("const", 0), "factory": "bool", "ignore_blank_lines": "bool", "syntax": "str"}

    def axioms(self):
        return axioms() + [lm.formula() for lm in PA.LEMMAS if lm.name.endswith("num_nodup")]

    def modifies(self, ex, a):
        return []

    def requires(self, ex, a):
        return [("a known syntax", valid_syntax(a["syntax"].t)), ("a comment delimiter", T.slen(a["comment_delimiter"].t) > 0)]

    def call(self, ex, a):
        for nm, f in self.requires(ex, a):
            ex.prove(f"precondition {nm} of {self.key} at call", f, "pre")
        rec = ex.recs[a["self"].id]
        rec.update({"debug": ex.lift(0), "syntax": ex.mk("str", "syntax"), "comment_delimiter": ex.mk("str", "delim"), "factory": ex.mk("bool", "factory"),
                    "ignore_blank_lines": ex.mk("bool", "ign"), "_list": ex.new_list(LR, ex.fresh(LR.sort, "lines"))})
        for nm, f in self.ensures(ex, a, NONE):
            ex.assume(f if z3.is_expr(f) else z3.BoolVal(bool(f)))
        return NONE

    def ensures(self, ex, a, r):
        rec = ex.recs[a["self"].id]
        ex.the_confobj = a["self"]
        same = [("comment_delimiter", rec["comment_delimiter"].t == a["comment_delimiter"].t), ("syntax", rec["syntax"].t == a["syntax"].t),
                ("factory", bool_of(ex, rec["factory"]) == bool_of(ex, a["factory"])),
                ("ignore_blank_lines", bool_of(ex, rec["ignore_blank_lines"]) == bool_of(ex, a["ignore_blank_lines"]))]
        return [(f"setting {n} is kept", f) for n, f in same] + made_posts(ex, a, ex.term_of(a["initlist"], LS.sort), lines_of(ex))


NonEmptyT = Fold("NonEmptyTexts", LS, [], m_list(LS), lambda s: (T.slen(s) != 0, s))


LB = T.list_of(BoolS)


def all_true_template(ex, lp, g):
    out = []
    for tn, loc in targets(ex, lp):
        def f(loc=loc):
            c = as_term(ex, cur_value(ex, lp, loc), LB.sort)
            return z3.BoolVal(False) if c is None else z3.Not(LB.mem(z3.BoolVal(False), c))
        out.append((f"{tn} all true", f))
    return out


class Make(Contract):
    """parsing a list of texts"""
    key = f"{CCP}:CiscoConfParse.__init__"
    folds = FOLDS + (NonEmptyT,)
    result = "none"
    split = ()
    params = {"self": ("make", lambda ex, nm: ex.new_rec(ex.src.module(CCP).classes["CiscoConfParse"], {})), "config": ("list", LS), "comment": "str",
              "debug": ("const", 0), "factory": "bool", "linesplit_rgx": ("const", r"\r*\n+"), "ignore_blank_lines": "bool", "syntax": "str",
              "encoding": ("const", "UTF-8"), "read_only": ("const", False)}
    templates = DEFAULT_TEMPLATES + [all_true_template]
    modifies = MakeLines.modifies

    def axioms(self):
        return MakeLines.axioms(self) + LB.axioms()

    def at_call(self, ex, fi):
        return False

    def requires(self, ex, a):
        return [("a known syntax", valid_syntax(a["syntax"].t)), ("indentation based", a["syntax"].t != slit("junos")), ("a comment delimiter", T.slen(a["comment"].t) > 0)]

    def ensures(self, ex, a, r):
        rec = ex.recs[a["self"].id]
        obj = rec["ConfigObjs"]
        ex.the_confobj = obj
        tl = ex.term_of(a["config"], LS.sort)
        drop = z3.And(bool_of(ex, a["ignore_blank_lines"]), z3.Not(bool_of(ex, a["factory"])))
        out = []
        for o, who in ((rec, "configuration"), (ex.recs[obj.id], "list of lines")):
            out += [(f"setting comment_delimiter of the {who}", o["comment_delimiter"].t == a["comment"].t), (f"setting syntax of the {who}", o["syntax"].t == a["syntax"].t),
                    (f"setting factory of the {who}", bool_of(ex, o["factory"]) == bool_of(ex, a["factory"])),
                    (f"setting ignore_blank_lines of the {who}", bool_of(ex, o["ignore_blank_lines"]) == bool_of(ex, a["ignore_blank_lines"]))]
        nw = lines_of(ex)
        for nm, c, txts in (("all lines", z3.Not(drop), tl), ("empty lines left out", drop, NonEmptyT(tl))):
            out += [(f"{nm}: {n}", I_(c, f)) for n, f in made_posts(ex, a, txts, nw)]
        return out


C12 = [NewLine(), BootCall(), MakeLines(), Make(), IosCfg(), Atomic("atomic"), Atomic("commit"), Append()]
C09 += [BootCall(), IosCfg(), Atomic("atomic"), Append()]
C12_LEMMAS = [Lemma("edit.nothing_to_drop", LS.sort, LS, [], lambda v: I_(z3.Not(LS.mem(slit(""), v)), NonEmptyT(v) == v), lambda v: [NonEmptyT(v)], [])]


def c12_hyps():
    s1 = z3.Const("s1!", Str)
    return lem_hyps() + NonEmptyT.axioms() + [FA([s1], (T.slen(s1) == 0) == (s1 == slit("")), patterns=[T.slen(s1)])]


def c12_theorems():
    """commit() then parsing the committed texts afresh: both are the fresh parse of the same texts with the same settings"""
    sy, dl = z3.Consts("syntax delim", Str)
    fac, ign = z3.Bools("factory ign")
    t0 = z3.Const("t0", LS.sort)
    l1, l2 = z3.Consts("l1 l2", LR.sort)
    given = z3.If(z3.And(ign, z3.Not(fac)), NonEmptyT(t0), t0)
    hy = [lm.formula() for lm in C12_LEMMAS] + [z3.Not(LS.mem(slit(""), t0)), PARSED(sy, dl, fac, ign, given, l2)]
    return [("a constructor parse of texts without an empty line is the fresh parse that commit makes of the same texts", hy, PARSED(sy, dl, fac, ign, t0, l2))]

# --- deletion (C10) -----------------------------------------------------------------------------------------------------
ArrL, ArrI, ArrR = z3.ArraySort(Ref, LR.sort), z3.ArraySort(Ref, IntS), z3.ArraySort(Ref, Ref)
C_, C2_ = z3.Consts("C_ C2_", ArrL)
N_, N2_ = z3.Consts("N_ N2_", ArrI)
S2_ = z3.Const("S2_", SetR)
P_ = z3.Const("P_", ArrR)
IDOF = z3.Function("id_of", Ref, IntS)                       # id(): different objects have different ids
OBJ_OF = z3.Function("object_with_id", IntS, Ref)
SetI = z3.SetSort(IntS)
IS_ = z3.Const("IS_", SetI)
IdSet = Fold("IdSet", LR, [], T.m_set(IntS), lambda x: z3.Store(z3.EmptySet(IntS), IDOF(x), True))
KeepIds = Fold("WithoutIds", LR, [IS_], m_list(LR), lambda S, x: (z3.Not(S[IDOF(x)]), x))
Minus = Fold("Minus", LR, [S_], m_list(LR), lambda S, x: (z3.Not(S[x]), x))          # the lines that are not in S
DescC = z3.Function("DescendantsIn", ArrL, Ref, SetR)         # descendants of a line through these lists of children
DescCF = Fold("FamilyIn", LR, [C_], T.m_set(Ref), lambda C, x: z3.SetUnion(z3.Store(z3.EmptySet(Ref), x, True), DescC(C, x)))     # lines with their descendants
Falling = z3.Function("falling_numbers", ArrI, LR.sort, BoolS)
Rising = z3.Function("rising_numbers", ArrI, LR.sort, BoolS)
DEL_DEFS = [
    FA([x], OBJ_OF(IDOF(x)) == x, patterns=[IDOF(x)]),
    FA([C_, x], DescC(C_, x) == DescCF(C_, C_[x]), patterns=[DescC(C_, x)]),
    FA([N_], Falling(N_, LR.nil), patterns=[Falling(N_, LR.nil)]),
    FA([N_, l, x], Falling(N_, LR.snoc(l, x)) == z3.And(Falling(N_, l), FA([y], I_(LR.mem(y, l), N_[y] > N_[x]), patterns=[LR.mem(y, l)])), patterns=[Falling(N_, LR.snoc(l, x))]),
    FA([N_], Rising(N_, LR.nil), patterns=[Rising(N_, LR.nil)]),
    FA([N_, l, x], Rising(N_, LR.snoc(l, x)) == z3.And(Rising(N_, l), FA([y], I_(LR.mem(y, l), N_[y] < N_[x]), patterns=[LR.mem(y, l)])), patterns=[Rising(N_, LR.snoc(l, x))]),
]
Tree = z3.Function("tree", ArrI, ArrR, ArrL, LR.sort, BoolS)     # children are later lines of the list that name the line as their parent
Pruned = z3.Function("pruned", ArrL, ArrL, SetR, LR.sort, BoolS)  # children lists without the lines of S
WithKin = z3.Function("holds_descendants", ArrL, SetR, BoolS)     # a set holds the descendants of its elements
z = z3.Const("z", Ref)
WIT = z3.Function("family_witness", ArrL, LR.sort, Ref, Ref)
DEL_DEFS += [
    FA([N_, P_, C_, l], Tree(N_, P_, C_, l) == FA([x, y], I_(z3.And(LR.mem(x, l), LR.mem(y, C_[x])), z3.And(LR.mem(y, l), P_[y] == x, y != x, N_[x] < N_[y])),
                                                  patterns=[z3.MultiPattern(LR.mem(x, l), LR.mem(y, C_[x]))]), patterns=[Tree(N_, P_, C_, l)]),
    FA([C_, C2_, S_, l], Pruned(C_, C2_, S_, l) == FA([x], I_(z3.And(LR.mem(x, l), z3.Not(S_[x])), C2_[x] == Minus(S_, C_[x])), patterns=[LR.mem(x, l), C2_[x]]),
       patterns=[Pruned(C_, C2_, S_, l)]),
    FA([C_, S_], WithKin(C_, S_) == FA([x, y], I_(z3.And(S_[x], DescC(C_, x)[y]), S_[y]), patterns=[DescC(C_, x)[y]]), patterns=[WithKin(C_, S_)]),
]
DEL_LEMMAS = [
    lem("family_elim", [C_, y], lambda v: I_(DescCF(C_, v)[y], z3.Exists([e], z3.And(LR.mem(e, v), z3.Or(y == e, DescC(C_, e)[y])))), lambda v: [DescCF(C_, v)[y]]),
    lem("family_intro", [C_, y, e], lambda v: I_(z3.And(LR.mem(e, v), z3.Or(y == e, DescC(C_, e)[y])), DescCF(C_, v)[y]), lambda v: [LR.mem(e, v), DescCF(C_, v)[y]]),
    lem("minus_order", [N_, N2_, S_, x, y], lambda v: I_(z3.And(NumOK(N_, v), NumOK(N2_, Minus(S_, v)), LR.mem(x, Minus(S_, v)), LR.mem(y, Minus(S_, v))),
                                                        (N_[x] < N_[y]) == (N2_[x] < N2_[y])),
        lambda v: [NumOK(N_, v), NumOK(N2_, Minus(S_, v)), LR.mem(x, Minus(S_, v)), LR.mem(y, Minus(S_, v))], use=["num_range", "minus_mem"]),
    lem("num_range", [N_, x], lambda v: I_(z3.And(NumOK(N_, v), LR.mem(x, v)), z3.And(0 <= N_[x], N_[x] < LR.len(v))), lambda v: [NumOK(N_, v), LR.mem(x, v)]),
    lem("num_nodup", [N_], lambda v: I_(NumOK(N_, v), Nodup(v)), lambda v: [NumOK(N_, v), Nodup(v)], use=["num_range"]),
    lem("minus_minus", [S_, S2_], lambda v: Minus(S2_, Minus(S_, v)) == Minus(z3.SetUnion(S_, S2_), v), lambda v: [Minus(S2_, Minus(S_, v))]),
    lem("minus_ext", [S_, S2_], lambda v: I_(FA([y], I_(LR.mem(y, v), S_[y] == S2_[y])), Minus(S_, v) == Minus(S2_, v)), lambda v: [Minus(S_, v), Minus(S2_, v)]),
    lem("rising_minus", [N_, p], lambda v: I_(NumOK(N_, v), Rising(N_, Find(p, v))), lambda v: [Rising(N_, Find(p, v))], use=["num_range", "find_mem"]),
    lem("rising_minusf", [N_, p], lambda v: I_(NumOK(N_, v), Rising(N_, FindFull(p, v))), lambda v: [Rising(N_, FindFull(p, v))], use=["num_range", "findf_mem"]),
    lem("falling_rev", [N_], lambda v: I_(Rising(N_, v), Falling(N_, LR.rev(v))), lambda v: [Falling(N_, LR.rev(v))], use=["falling_front", "rev_memr"]),
    lem("falling_front", [N_, x], lambda v: I_(z3.And(Falling(N_, v), FA([y], I_(LR.mem(y, v), N_[y] < N_[x]))), Falling(N_, LR.cat(one(x), v))), lambda v: [Falling(N_, LR.cat(one(x), v))]),
    lem("falling_cat", [N_, l], lambda v: I_(Falling(N_, LR.cat(l, v)), Falling(N_, l)), lambda v: [Falling(N_, LR.cat(l, v))]),
    lem("rev_memr", [y], lambda v: LR.mem(y, LR.rev(v)) == LR.mem(y, v), lambda v: [LR.mem(y, LR.rev(v))]),
    lem("family_rev", [C_], lambda v: DescCF(C_, LR.rev(v)) == DescCF(C_, v), lambda v: [DescCF(C_, LR.rev(v))], use=["family_cat"]),
    lem("family_cat", [C_, l], lambda v: DescCF(C_, LR.cat(l, v)) == z3.SetUnion(DescCF(C_, l), DescCF(C_, v)), lambda v: [DescCF(C_, LR.cat(l, v))]),
    lem("id_mem", [y], lambda v: z3.Select(IdSet(v), IDOF(y)) == LR.mem(y, v), lambda v: [z3.Select(IdSet(v), IDOF(y))]),
    lem("keep_ids", [l], lambda v: KeepIds(IdSet(l), v) == Minus(LR.setof(l), v), lambda v: [KeepIds(IdSet(l), v)], use=["id_mem"]),
    lem("minus_mem", [S_, y], lambda v: LR.mem(y, Minus(S_, v)) == z3.And(LR.mem(y, v), z3.Not(S_[y])), lambda v: [LR.mem(y, Minus(S_, v))]),
    lem("minus_nodup", [S_], lambda v: I_(Nodup(v), Nodup(Minus(S_, v))), lambda v: [Nodup(Minus(S_, v))], use=["minus_mem"]),
    lem("minus_none", [S_], lambda v: I_(FA([y], I_(LR.mem(y, v), z3.Not(S_[y]))), Minus(S_, v) == v), lambda v: [Minus(S_, v)]),
    lem("minus_empty", [], lambda v: Minus(LR.setof(LR.nil), v) == v, lambda v: [Minus(LR.setof(LR.nil), v)]),
    lem("setof_cat", [l], lambda v: LR.setof(LR.cat(l, v)) == z3.SetUnion(LR.setof(l), LR.setof(v)), lambda v: [LR.setof(LR.cat(l, v))]),
    lem("minus_snoc", [l, x], lambda v: PA.Without(x, Minus(LR.setof(l), v)) == Minus(LR.setof(LR.snoc(l, x)), v), lambda v: [Minus(LR.setof(LR.snoc(l, x)), v)]),
    lem("minus_same", [l, x], lambda v: I_(z3.Not(LR.mem(x, v)), Minus(LR.setof(LR.snoc(l, x)), v) == Minus(LR.setof(l), v)), lambda v: [Minus(LR.setof(LR.snoc(l, x)), v)]),
]
DEL_LEMMAS = by_use(DEL_LEMMAS)


def tree_theorems():
    """induction over the number of later lines; the conclusions are used as axioms below"""
    N, P, C, ob = z3.Const("N", ArrI), z3.Const("P", ArrR), z3.Const("C", ArrL), z3.Const("ob", LR.sort)
    C2, G = z3.Const("C2", ArrL), z3.Const("G", SetR)
    X = z3.Const("X", Ref)
    base = del_hyps() + [lm.formula() for lm in DEL_LEMMAS] + [NumOK(N, ob), Tree(N, P, C, ob), LR.mem(X, ob), DescC(C, X) == DescCF(C, C[X])]
    ih = lambda f, *v: FA([x] + list(v), I_(z3.And(LR.mem(x, ob), N[x] > N[X]), f(x, *v)))
    c1 = lambda a, b: I_(DescC(C, a)[b], z3.And(LR.mem(b, ob), N[a] < N[b]))
    c2 = lambda a, b, c: I_(z3.And(DescC(C, a)[b], DescC(C, b)[c]), DescC(C, a)[c])
    c3 = lambda a, b: I_(z3.Not(G[a]), z3.Or(DescC(C2, a)[b], G[b]) == z3.Or(DescC(C, a)[b], G[b]))
    Y, Z = z3.Consts("Y Z", Ref)
    return [("descendants are later lines of the configuration", base + [ih(c1, y)], c1(X, Y)),
            ("descendants of descendants are descendants", base + [ih(c2, y, z)], c2(X, Y, Z)),
            ("descendants when whole families are gone, one way", base + [ih(c3, y), Pruned(C, C2, G, ob), WithKin(C, G), DescC(C2, X) == DescCF(C2, C2[X]), z3.Not(G[X]), DescC(C2, X)[Y]],
             z3.Or(DescC(C, X)[Y], G[Y])),
            ("descendants when whole families are gone, other way", base + [ih(c3, y), Pruned(C, C2, G, ob), WithKin(C, G), DescC(C2, X) == DescCF(C2, C2[X]), z3.Not(G[X]), DescC(C, X)[Y]],
             z3.Or(DescC(C2, X)[Y], G[Y]))]


def pruning_theorems():
    """one more family goes"""
    N, P, C, ob = z3.Const("N", ArrI), z3.Const("P", ArrR), z3.Const("C", ArrL), z3.Const("ob", LR.sort)
    C2, C3, Q1 = z3.Const("C2", ArrL), z3.Const("C3", ArrL), z3.Const("Q1", LR.sort)
    X, Y, Z = z3.Consts("X Y Z", Ref)
    A, B = z3.Consts("A B", SetR)
    G = DescCF(C, Q1)
    hy = del_hyps() + [lm.formula() for lm in DEL_LEMMAS if lm.name != "edit.minus_ext"] + tree_axioms() + [NumOK(N, ob), Tree(N, P, C, ob), LR.mem(X, ob), Pruned(C, C2, G, ob), WithKin(C, G), z3.Not(G[X])]
    G1 = z3.SetUnion(z3.Store(z3.EmptySet(Ref), X, True), DescC(C2, X))
    G2 = DescCF(C, LR.snoc(Q1, X))
    same = z3.SetUnion(DescC(C2, X), G) == z3.SetUnion(DescC(C, X), G)
    hy.append(same)                        # an instance of the theorem above
    touch = z3.Function("touch_list", LR.sort, BoolS)
    sets = ("the same set of lines", hy, z3.Or(G1[Y], G[Y]) == G2[Y])
    eqs = z3.SetUnion(G, G1) == G2
    small = LR.axioms() + [m_.formula() for m_ in DEL_LEMMAS if m_.name in ("edit.minus_minus", "edit.minus_mem")] + DEL_DEFS[-3:]
    return [sets, ("pointwise equal sets are equal", [FA([y], z3.Or(G1[y], G[y]) == G2[y])], eqs),
            ("the lines left", small + [eqs], Minus(G1, Minus(G, ob)) == Minus(G2, ob)),
            ("the children left", small + [eqs, FA([y], z3.Or(G1[y], G[y]) == G2[y]), Pruned(C, C2, G, ob), Pruned(C2, C3, G1, Minus(G, ob)), LR.mem(Y, ob), z3.Not(G2[Y])],
             C3[Y] == Minus(G2, C[Y])),
            ("a family that is gone already", DescCF.axioms() + DEL_DEFS + [WithKin(C, G), G[X]], G2 == G),
            ("whole families again", hy + [z3.Or(G2[Y]), DescC(C, Y)[Z], G2 == z3.SetUnion(G, z3.SetUnion(z3.Store(z3.EmptySet(Ref), X, True), DescC(C, X)))], G2[Z])]


def pruning_axioms():
    Q1 = z3.Const("Q1_", LR.sort)
    C3_ = z3.Const("C3_", ArrL)
    G, G2 = DescCF(C_, Q1), DescCF(C_, LR.snoc(Q1, x))
    G1 = z3.SetUnion(z3.Store(z3.EmptySet(Ref), x, True), DescC(C2_, x))
    pre = [NumOK(N_, l), Tree(N_, P_, C_, l), LR.mem(x, l), Pruned(C_, C2_, G, l), WithKin(C_, G), z3.Not(G[x])]
    return [FA([C_, Q1, x], I_(z3.And(WithKin(C_, G), G[x]), G2 == G), patterns=[G2]),
            FA([N_, P_, C_, l, x, C2_, Q1], I_(z3.And(*pre), z3.And(Minus(G1, Minus(G, l)) == Minus(G2, l), WithKin(C_, G2))),
               patterns=[z3.MultiPattern(Tree(N_, P_, C_, l), Pruned(C_, C2_, G, l), DescC(C2_, x))]),
            FA([N_, P_, C_, l, x, C2_, C3_, Q1, S_], I_(z3.And(*pre, S_ == G1, Pruned(C2_, C3_, S_, Minus(G, l))), Pruned(C_, C3_, G2, l)),
               patterns=[z3.MultiPattern(Tree(N_, P_, C_, l), Pruned(C_, C2_, G, l), DescC(C2_, x), Pruned(C2_, C3_, S_, Minus(G, l)))])]


def tree_axioms():
    pre = [NumOK(N_, l), Tree(N_, P_, C_, l), LR.mem(x, l)]
    return [FA([N_, P_, C_, l, x, y], I_(z3.And(*pre, DescC(C_, x)[y]), z3.And(LR.mem(y, l), N_[x] < N_[y])), patterns=[z3.MultiPattern(Tree(N_, P_, C_, l), DescC(C_, x)[y])]),
            FA([N_, P_, C_, l, x, y, z], I_(z3.And(*pre, DescC(C_, x)[y], DescC(C_, y)[z]), DescC(C_, x)[z]),
               patterns=[z3.MultiPattern(Tree(N_, P_, C_, l), DescC(C_, x)[y], DescC(C_, y)[z])]),
            FA([N_, P_, C_, l, x, C2_, S_], I_(z3.And(*pre, Pruned(C_, C2_, S_, l), WithKin(C_, S_), z3.Not(S_[x])),
                                               z3.SetUnion(DescC(C2_, x), S_) == z3.SetUnion(DescC(C_, x), S_)),
               patterns=[z3.MultiPattern(Tree(N_, P_, C_, l), Pruned(C_, C2_, S_, l), DescC(C2_, x))])]


DEL_FOLDS = (IdSet, KeepIds, Minus, DescCF, PA.Without)


def del_hyps():
    out = lem_hyps() + DEL_DEFS
    for F in DEL_FOLDS:
        out += F.axioms()
    return out


class Delete(EditContract):
    """a line and its descendants go; every other line keeps its text, its place among the others and its links"""
    key = f"{ABC}:BaseCfgLine.delete"
    result = "bool"
    folds = FOLDS + DEL_FOLDS
    params = {"self": "ref", "recurse": ("const", True)}
    cand = {"Minus": ()}

    def setup(self, ex):
        mk_cl()[1](ex, "conf")

    def axioms(self):
        d0 = [FA([x], DescC(H("children"), x) == L.Desc(x), patterns=[L.Desc(x)])] if True else []
        return axioms() + DEL_DEFS + [lm.formula() for lm in DEL_LEMMAS if lm.name != "edit.minus_minus"] + L.family_axioms() + L.tree_axioms() + d0 + tree_axioms()

    def modifies(self, ex, a):
        return ["linenum", "children"]

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: del_template(ex, lp, g)]

    def extra_terms(self, ex, lp):
        return sets_of_ids(ex, lp)

    def requires(self, ex, a):
        ob = lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        return lines_ok(ob) + [("line numbers equal positions", NumOK(Nm, ob)), ("a tree", Tree(Nm, P, Ch, ob)), ("a line of the configuration", LR.mem(a["self"].t, ob))]

    def gone(self, ex, a, Ch):
        s = a["self"].t
        return z3.SetUnion(z3.Store(z3.EmptySet(Ref), s, True), DescC(Ch, s))

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        Ch0 = old_arr(ex, "children")
        G = self.gone(ex, a, Ch0)
        return [("exactly the line and its descendants are gone, the others stand in their order", nw == Minus(G, ob)),
                ("line numbers equal positions", NumOK(Nm, nw)),
                ("the remaining lines lose exactly these children", Pruned(Ch0, Ch, G, ob)), ("still a tree", Tree(Nm, P, Ch, nw))] + lines_ok(nw)


def sets_of_ids(ex, lp):
    out, fr = [], lp["frame"]
    while fr is not None:
        for n_, v in sorted(fr.locals.items()):
            if isinstance(v, CellV) and n_ not in lp["names"]:
                c = ex.content(v)
                if c[0] == "set" and c[1] == IntS:
                    out.append((n_, c[2]))
        fr = fr.closure
    return out


def lines0(ex):
    return ex.cells0[ex.recs0[ex.the_confobj.id]["_list"].id][2]


def old_arr(ex, f):
    o = getattr(ex, "call_old", None)
    if o is not None and getattr(ex, "edit_old", None) is not None:
        return o[f] if f in o else ex.heap_arr(f)
    return z3.Const(f"H0_{f}", ex.heap_arr(f).sort())


def del_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LR:
        return []
    if not any(m[0] == "heap" and m[1] == "children" for m in lp["meta"].mods):
        me, out = ex.root_args["self"].t, []
        for tn, loc in targets(ex, lp):
            def f(loc=loc):
                c = as_term(ex, cur_value(ex, lp, loc), BoolS)
                return z3.BoolVal(False) if c is None else c == LR.mem(me, g["P"])
            out.append((f"{tn} tells whether the line was met", f))
        return out
    Ch0, G = H("children"), LR.setof(g["xs"])
    Ch = lambda: ex.heap_arr("children")
    return [("children so far", lambda: FA([x], I_(LR.mem(x, lines0(ex)), Ch()[x] == z3.If(G[x], Ch0[x], Minus(LR.setof(g["P"]), Ch0[x])))))]


class DeleteLines(EditContract):
    """every matching line goes, with its descendants"""
    key = f"{CCP}:CiscoConfParse.delete_lines"
    result = "none"
    split = ("exactmatch", "ignore_ws")
    folds = FOLDS + DEL_FOLDS
    params = {"self": ("make", mk_ccp), "linespec": "str", "exactmatch": "bool", "ignore_ws": "bool"}
    cand = {"Minus": (), "WithoutIds": ()}

    def axioms(self):
        return (axioms() + DEL_DEFS + [lm.formula() for lm in DEL_LEMMAS if lm.name not in ("edit.minus_minus", "edit.minus_ext")] + tree_axioms()[:2] + pruning_axioms() + regex_axioms())

    def modifies(self, ex, a):
        return ["linenum", "children"]

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: dellines_template(ex, lp, g)]

    def requires(self, ex, a):
        ob = lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        r = ex.recs[ex.the_confobj.id]
        return lines_ok(ob) + PA.static_rule(ob) + [("line numbers equal positions", NumOK(Nm, ob)), ("a tree", Tree(Nm, P, Ch, ob)), ("an expression", a["linespec"].t != slit("")),
                ("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        Ch0 = old_arr(ex, "children")
        out = []
        for nm, cond, Qt in matching(ex, a, a["linespec"].t, ob):
            out.append((f"exactly the matching lines and their descendants are gone, the others stand in their order ({nm})", I_(cond, nw == Minus(DescCF(Ch0, Qt), ob))))
        return out + [("line numbers equal positions", NumOK(Nm, nw)), ("still a tree", Tree(Nm, P, Ch, nw))] + lines_ok(nw)


def dellines_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LR:
        return []
    Ch0, N0, P0 = H("children"), H("linenum"), H("parent")
    ob, cur = lines0(ex), lambda: lines_of(ex)
    G = lambda: DescCF(Ch0, g["P"])
    h = lambda f: ex.heap_arr(f)
    return [("families gone so far", lambda: cur() == Minus(G(), ob)),
            ("children without these families", lambda: Pruned(Ch0, h("children"), G(), ob)),
            ("numbered so far", lambda: NumOK(h("linenum"), cur())),
            ("tree so far", lambda: Tree(h("linenum"), h("parent"), h("children"), cur())),
            ("whole families", lambda: WithKin(Ch0, G())),
            ("visited from the last to the first", lambda: Falling(N0, g["xs"])),
            ("no empty place", lambda: lines_ok(cur())[1][1]),
            ("lines visited are further down", lambda: FA([x], I_(LR.mem(x, g["P"]), LR.mem(x, ob))))]


C10 = SUPPORT + [L.AllChildren(), L.HasChildren(), Delete(), RegexTol(), FindLineObj(), FindObjects(), DeleteLines()]


# --- replacement (C11) --------------------------------------------------------------------------------------------------
def width(t):
    return T.slen(t) - T.slen(LSTRIP(t))


class ReSub(EditContract):
    """one line is rewritten to the substitution of its own text; a line replaced by nothing goes, with its descendants"""
    key = f"{ABC}:BaseCfgLine.re_sub"
    split = ()
    result = "none"
    folds = FOLDS + DEL_FOLDS
    params = {"self": "ref", "regex": "str", "replacergx": "str", "ignore_rgx": ("union", ["none", "str"])}
    cand = {"Minus": (), "WithoutIds": ()}

    def setup(self, ex):
        mk_cl()[1](ex, "conf")

    def axioms(self):
        return axioms() + DEL_DEFS + str_axioms()

    def modifies(self, ex, a):
        return ["_text", "indent", "is_comment", "linenum", "children"]

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: del_template(ex, lp, g)]

    def requires(self, ex, a):
        ob = lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        return lines_ok(ob) + [("line numbers equal positions", NumOK(Nm, ob)), ("a tree", Tree(Nm, P, Ch, ob)), ("a line", a["self"].t != NULL),
                               ("a comment delimiter", T.slen(ex.heap_arr("comment_delimiter")[a["self"].t]) > 0)]

    def cases(self, ex, a):
        s = a["self"].t
        t0 = old_arr(ex, "_text")[s]
        ig = a.get("ignore_rgx")
        skip = z3.And(ig.t != slit(""), RE_FOUND(ig.t, t0)) if isinstance(ig, Sc) else z3.BoolVal(False)
        new = RE_SUB(a["regex"].t, a["replacergx"].t, t0)
        return s, t0, skip, new, z3.And(z3.Not(skip), STRIP(new) == slit(""))

    def call(self, ex, a):
        super().call(ex, a)
        save = getattr(ex, "edit_old", None)
        ex.edit_old = True
        s, t0, skip, new, blank = self.cases(ex, a)
        ex.edit_old = save
        return Sc("val", z3.If(blank, NONEVAL, TEXTVAL(z3.If(skip, t0, new))))

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        s, t0, skip, new, blank = self.cases(ex, a)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        Ch0, Nm0 = old_arr(ex, "children"), old_arr(ex, "linenum")
        G = z3.SetUnion(z3.Store(z3.EmptySet(Ref), s, True), DescC(Ch0, s))
        gone = z3.And(blank, LR.mem(s, ob))
        changed = z3.And(z3.Not(skip), z3.Not(blank))
        tx = RSTRIP(new)
        upd = lambda f, v: ex.heap_arr(f) == z3.If(changed, z3.Store(old_arr(ex, f), s, v), old_arr(ex, f))
        out = [("replaced by nothing: the line and its descendants go", I_(gone, nw == Minus(G, ob))),
               ("replaced by nothing: children of the others", I_(gone, Pruned(Ch0, Ch, G, ob))),
               ("otherwise the lines stay", I_(z3.Not(gone), z3.And(nw == ob, Ch == Ch0, Nm == Nm0))),
               ("exactly this line gets the substitution of its text without trailing whitespace", upd("_text", tx)),
               ("its indent is that of the new text", upd("indent", width(tx))),
               ("its comment flag is that of the new text", upd("is_comment", comment_text(tx, ex.heap_arr("comment_delimiter")[s]))),
               ("line numbers equal positions", NumOK(Nm, nw)), ("still a tree", Tree(Nm, P, Ch, nw))] + lines_ok(nw)
        if getattr(ex, "edit_old", None) is None:
            text = z3.If(skip, t0, new)
            out.append(("returns the new text, nothing for a deleted line", blank if isinstance(r, NoneV) else
                        r.t == z3.If(blank, NONEVAL, TEXTVAL(text)) if r.t.sort() == Val else z3.And(z3.Not(blank), r.t == text)))
        return out


class Replace(ReSub):
    key = f"{ABC}:BaseCfgLine.replace"
    params = {"self": "ref", "linespec": "str", "replacestr": "str", "ignore_rgx": ("union", ["none", "str"])}

    def cases(self, ex, a):
        return super().cases(ex, dict(a, regex=a["linespec"], replacergx=a["replacestr"]))


ex_, he = z3.Const("ex_", Str), z3.Bool("he")
excluded = lambda he, e_, x: z3.And(he, RE_FOUND(e_, txt(x)))
BlankHits = Fold("ReplacedByNothing", LR, [p, n, ex_, he], m_list(LR), lambda p, n, e_, he, x: (z3.And(z3.Not(excluded(he, e_, x)), STRIP(RE_SUB(p, n, txt(x))) == slit("")), x))
LV = L.LV
TEXTVAL = z3.Function("text_value", Str, Val)                # a text as an entry of a list that also holds None
Returned = Fold("Returned", LR, [p, n, ex_, he], m_list(LV),
                lambda p, n, e_, he, x: (z3.Not(excluded(he, e_, x)), z3.If(STRIP(RE_SUB(p, n, txt(x))) == slit(""), NONEVAL, TEXTVAL(RE_SUB(p, n, txt(x))))))
C11_FOLDS = (BlankHits, Returned)
C11_LEMMAS = [
    lem("blank_mem", [p, n, ex_, he, y], lambda v: I_(LR.mem(y, BlankHits(p, n, ex_, he, v)), z3.And(LR.mem(y, v), z3.Not(excluded(he, ex_, y)), STRIP(RE_SUB(p, n, txt(y))) == slit(""))),
        lambda v: [LR.mem(y, BlankHits(p, n, ex_, he, v))]),
]


def c11_hyps():
    return del_hyps() + BlankHits.axioms() + LV.axioms()


class ReplaceLines(EditContract):
    """the matching lines that are not excluded are rewritten, every other line stays as it is"""
    key = f"{CCP}:CiscoConfParse.replace_lines"
    split = ("exactmatch",)
    result = ("list", LV)
    folds = FOLDS + DEL_FOLDS + C11_FOLDS
    params = {"self": ("make", mk_ccp), "linespec": "str", "replacestr": "str", "excludespec": ("union", ["none", "str"]), "exactmatch": "bool", "atomic": ("const", False)}
    cand = {"Minus": (), "WithoutIds": (), "ReplacedByNothing": (), "Returned": (), "Find": (), "FindFull": ()}

    def axioms(self):
        return (axioms() + DEL_DEFS + [lm.formula() for lm in DEL_LEMMAS if lm.name not in ("edit.minus_minus", "edit.minus_ext")] + tree_axioms()[:2] + pruning_axioms()
                + [lm.formula() for lm in C11_LEMMAS] + regex_axioms())

    def modifies(self, ex, a):
        return ["_text", "indent", "is_comment", "linenum", "children"]

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: replace_template(ex, lp, g)]

    def requires(self, ex, a):
        ob = lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        return lines_ok(ob) + PA.static_rule(ob) + [("line numbers equal positions", NumOK(Nm, ob)), ("a tree", Tree(Nm, P, Ch, ob)), ("an expression", a["linespec"].t != slit("")),
                ("comment delimiters", FA([x], I_(LR.mem(x, ob), T.slen(ex.heap_arr("comment_delimiter")[x]) > 0)))]

    def ensures(self, ex, a, r):
        ob, nw = old_lines(ex, a), lines_of(ex)
        P, Ch, Nm = (ex.heap_arr(f) for f in ("parent", "children", "linenum"))
        Ch0 = old_arr(ex, "children")
        out = []
        sp = spec_args(ex, a)
        for nm, cond, Qt in matching(ex, a, a["linespec"].t, ob)[:2]:
            out += [(f"{n_} ({nm})", I_(cond, f)) for n_, f in rewritten(ex, Qt, sp, ob, nw, Ch0)]
            out.append((f"returns the new texts of these lines in order, nothing for a deleted one ({nm})", I_(cond, ex.term_of(r, LV.sort) == Returned(*sp, Qt))))
        return out + [("line numbers equal positions", NumOK(Nm, nw)), ("still a tree", Tree(Nm, P, Ch, nw))] + lines_ok(nw)


def spec_args(ex, a):
    e_ = a.get("excludespec")
    return (a["linespec"].t, a["replacestr"].t, e_.t if isinstance(e_, Sc) else slit(""), e_.t != slit("") if isinstance(e_, Sc) else z3.BoolVal(False))


def rewritten(ex, Qt, sp, ob, nw, Ch0):
    """the effect of rewriting the lines Qt: THE SPECIFICATION of replacement"""
    p_, n_, e_, he_ = sp
    new = lambda x: RE_SUB(p_, n_, txt(x))
    hit = lambda x: z3.And(LR.mem(x, Qt), z3.Not(excluded(he_, e_, x)), STRIP(new(x)) != slit(""))
    h0 = lambda f: z3.Const(f"H0_{f}", ex.heap_arr(f).sort())
    same = lambda f, v: FA([x], I_(LR.mem(x, ob), ex.heap_arr(f)[x] == z3.If(hit(x), v(x), h0(f)[x])))
    return [("lines replaced by nothing are gone with their descendants, all other lines stand in their order", nw == Minus(DescCF(Ch0, BlankHits(p_, n_, e_, he_, Qt)), ob)),
            ("exactly the matching lines that are not excluded get the substitution of their own text", same("_text", lambda x: RSTRIP(new(x)))),
            ("rewritten lines have the indent of their new text, the others keep theirs", same("indent", lambda x: width(RSTRIP(new(x)))))]


def replace_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LR:
        return []
    Ch0 = H("children")
    ob, cur = lines0(ex), lambda: lines_of(ex)
    sp = spec_args(ex, ex.root_args)
    G = lambda: DescCF(Ch0, BlankHits(*sp, g["P"]))
    h = lambda f: ex.heap_arr(f)
    return [(n_ + " so far", lambda i_=i_: rewritten(ex, g["P"], sp, ob, cur(), Ch0)[i_][1]) for i_, (n_, _) in enumerate(rewritten(ex, g["P"], sp, ob, cur(), Ch0))] + [
            ("children without these families", lambda: Pruned(Ch0, h("children"), G(), ob)),
            ("numbered so far", lambda: NumOK(h("linenum"), cur())),
            ("tree so far", lambda: Tree(h("linenum"), h("parent"), h("children"), cur())),
            ("whole families", lambda: WithKin(Ch0, G()))] + [
            (f"{tn} is what was returned so far", lambda loc=loc: (lambda c: z3.BoolVal(False) if c is None else c == Returned(*sp, g["P"]))(as_term(ex, cur_value(ex, lp, loc), LV.sort)))
            for tn, loc in targets(ex, lp)] + [
            ("no line twice among the matching ones", lambda: Nodup(g["xs"])),
            ("no empty place", lambda: lines_ok(cur())[1][1]),
            ("lines visited are lines", lambda: FA([x], I_(LR.mem(x, g["xs"]), LR.mem(x, ob))))]


C11 = SUPPORT + [L.AllChildren(), L.HasChildren(), Delete(), ReSub(), Replace(), RegexTol(), FindLineObj(), ReplaceLines()]
