"""Contracts of the parse: ConfigList.bootstrap_obj_init_ng and its passes (C01, C02, C03, C26; used by C12)."""
import z3
from pyvc import theory as T
from pyvc.theory import Ref, Str, Val, IntS, BoolS, Fold, m_list, m_any, m_all, m_set, slit, Lemma
from pyvc.engine import RE_FOUND, NULL, Sc, RecV, CellV, NONE, NoneV, strfn, Unsupported, TupV, STR_IN, RegexV
from pyvc.contract import Contract, targets, as_term, pre_value, cur_value, DEFAULT_TEMPLATES, visible_terms
from .lines import CCP, ABC, LR, LS, LI, SetR, FIELDS, H, txt, bool_of

ArrR, ArrL, ArrI, ArrB = z3.ArraySort(Ref, Ref), z3.ArraySort(Ref, LR.sort), z3.ArraySort(Ref, IntS), z3.ArraySort(Ref, BoolS)
STRIP, RSTRIP, LSTRIP = strfn("strip", Str, Str), strfn("rstrip", Str, Str), strfn("lstrip", Str, Str)
HOOKS = {"group_facts": True, "ignored_fields": (
    "confobj", "line_id", "_line_id", "all_text", "_uncfgtext_to_be_deprecated", "diff_rendered", "diff_linenum", "_diff_word", "_diff_side", "_mm_results", "ifindex"),
    "construct": lambda ex, cls, args, kw: new_line(ex, cls, args, kw)}
MODELS = {f"{ABC}:BaseCfgLine.calculate_line_id": lambda ex, a: ex.mk("int", "line_id")}


def new_line(ex, cls, args, kw):
    """a new line object: a reference no existing variable or field is known to hold"""
    if "BaseCfgLine" not in ex.src.base_names(cls) and cls.name != "BaseCfgLine":
        return None
    o = Sc("ref", ex.fresh(Ref, "new"), cls)
    ex.assume(o.t != NULL)
    ex.new_refs.append(o)
    ex.call_func(ex.src.find_method(cls, "__init__"), [o] + args, kw)
    return o


def h_enum(ex, lt, t):
    if lt is LI:                        # the keys of a dictionary are pairwise different
        ex.assume(NodupI(t))


HOOKS["enum"] = h_enum

x, y, z = z3.Consts("x y z", Ref)
A, A2 = z3.Consts("A A2", ArrR)
N, N2 = z3.Consts("N N2", ArrI)
C_, C2 = z3.Consts("C C2", ArrL)
K_ = z3.Const("K", ArrB)
k, j = z3.Ints("k j")
l, m = z3.Consts("l m", LR.sort)
s, t = z3.Consts("s t", Str)
S_ = z3.Const("S_", SetR)
FA = z3.ForAll


def ind(o):
    return z3.Select(H("indent"), o)


def cmt(o):
    return z3.Select(H("is_comment"), o)


def blank(o):
    return T.slen(STRIP(txt(o))) == 0


def cfg(o):
    """a configuration line: neither blank nor a comment"""
    return z3.And(z3.Not(blank(o)), z3.Not(cmt(o)))


# --- spec functions --------------------------------------------------------------------------------------------------
def last_nonnull():
    return T.Monoid("lastnn", Ref, NULL, lambda a, b: z3.If(b != NULL, b, a))


NP = Fold("NearestBelow", LR, [k], last_nonnull(), lambda k, x: z3.If(z3.And(cfg(x), ind(x) < k), x, NULL))
Kids = Fold("Kids", LR, [A, y], m_list(LR), lambda A, y, x: (z3.And(A[x] == y, x != y), x))
RS = Fold("RStrips", LS, [], m_list(LS), lambda s: (z3.BoolVal(True), RSTRIP(s)))
Texts = Fold("Texts", LR, [], m_list(LS), lambda x: (z3.BoolVal(True), txt(x)))
NonBlankT = Fold("NonBlankTexts", LS, [], m_list(LS), lambda s: (T.slen(STRIP(s)) != 0, s))
NonBlank = Fold("NonBlankLines", LR, [], m_list(LR), lambda x: (z3.Not(blank(x)), x))
Keep = Fold("KeepLines", LR, [K_], m_list(LR), lambda K, x: (z3.Or(z3.Not(blank(x)), K[x]), x))
GE = Fold("GEq", LI, [k], m_list(LI), lambda k, i: (i >= k, i))
InOrder = Fold("InOrder", LR, [S_], m_list(LR), lambda S, x: (S[x], x))
InOrderOf = Fold("InOrderOf", LR, [l], m_list(LR), lambda l, x: (LR.mem(x, l), x))
Without = Fold("Without", LR, [y], m_list(LR), lambda y, x: (x != y, x))
def last_num(Nm, l_):
    return Nm[LR.nth(l_, LR.len(l_) - 1)]


SORTL = z3.Function("sort_by_linenum", ArrI, LR.sort, LR.sort)          # list.sort() of lines: BaseCfgLine.__lt__ compares line numbers
HOOKS["sort_list"] = lambda ex, lt, t: SORTL(ex.heap_arr("linenum"), t) if lt is LR else None


def last_char_is(s, c):
    return strfn("at", Str, IntS, Str)(s, T.slen(s) - 1) == slit(c)


p = z3.Const("p", Str)
AnyMatch = Fold("AnyMatch", LR, [p], m_any(), lambda p, x: RE_FOUND(p, txt(x)))
MatchT = Fold("FindLines", LR, [p], m_list(LR), lambda p, x: (RE_FOUND(p, txt(x)), x))
AnyMatchT = Fold("AnyMatchT", LS, [p], m_any(), lambda p, s: RE_FOUND(p, s))


def is_brace(s):
    return z3.Or(z3.And(T.slen(RSTRIP(s)) >= 1, last_char_is(RSTRIP(s), "{")),
                 z3.And(T.slen(STRIP(s)) >= 1, strfn("at", Str, IntS, Str)(STRIP(s), 0) == slit("}")))


BraceLine = Fold("AnyBraceLine", LR, [], m_any(), lambda x: is_brace(txt(x)))
BraceLineT = Fold("AnyBraceText", LS, [], m_any(), is_brace)
AnyMacroT = Fold("AnyMacroText", LS, [], m_any(), lambda s: strfn("slice", Str, IntS, IntS, Str)(s, 0, 11) == slit("macro name "))


FOLDS = (BraceLine, BraceLineT, AnyMatch, AnyMatchT, MatchT, AnyMacroT, NP, Kids, RS, Texts, NonBlankT, NonBlank, Keep, GE, InOrder, InOrderOf, Without)

NumOK = z3.Function("NumbersOK", ArrI, LR.sort, BoolS)       # line numbers equal positions
Before = z3.Function("before", LR.sort, Ref, LR.sort)        # the lines before a line
Take = z3.Function("take", LR.sort, IntS, LR.sort)
Nodup = z3.Function("nodup", LR.sort, BoolS)
NodupI = z3.Function("nodup_int", LI.sort, BoolS)

DEFS = [
    FA([N], NumOK(N, LR.nil), patterns=[NumOK(N, LR.nil)]),
    FA([N, l, x], NumOK(N, LR.snoc(l, x)) == z3.And(NumOK(N, l), N[x] == LR.len(l)), patterns=[NumOK(N, LR.snoc(l, x))]),
    FA([y], Before(LR.nil, y) == LR.nil, patterns=[Before(LR.nil, y)]),
    FA([l, x, y], Before(LR.snoc(l, x), y) == z3.If(x == y, l, Before(l, y)), patterns=[Before(LR.snoc(l, x), y)]),
    FA([j], Take(LR.nil, j) == LR.nil, patterns=[Take(LR.nil, j)]),
    FA([l, x, j], Take(LR.snoc(l, x), j) == z3.If(j > LR.len(l), LR.snoc(l, x), Take(l, j)), patterns=[Take(LR.snoc(l, x), j)]),
    Nodup(LR.nil),
    FA([l, x], Nodup(LR.snoc(l, x)) == z3.And(Nodup(l), z3.Not(LR.mem(x, l))), patterns=[Nodup(LR.snoc(l, x))]),
]
il, im = z3.Consts("il im", LI.sort)
DEFSI = [NodupI(LI.nil), FA([il, k], NodupI(LI.snoc(il, k)) == z3.And(NodupI(il), z3.Not(LI.mem(k, il))), patterns=[NodupI(LI.snoc(il, k))])]


def lem(name, params, body, pats, use=(), lt=LR):
    return Lemma(name, lt.sort, lt, params, body, pats, use)


I_ = z3.Implies
LEMMAS = [
    lem("num_range", [N, x], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v)), z3.And(0 <= N[x], N[x] < LR.len(v))), lambda v: [NumOK(N, v), LR.mem(x, v)]),
    lem("num_nth", [N, j], lambda v: I_(z3.And(NumOK(N, v), 0 <= j, j < LR.len(v)), N[LR.nth(v, j)] == j), lambda v: [NumOK(N, v), LR.nth(v, j)]),
    lem("num_nodup", [N], lambda v: I_(NumOK(N, v), Nodup(v)), lambda v: [NumOK(N, v), Nodup(v)], use=["num_range"]),
    lem("num_cat", [N, l], lambda v: I_(NumOK(N, LR.cat(l, v)), NumOK(N, l)), lambda v: [NumOK(N, LR.cat(l, v))]),
    lem("num_frame", [N, x, j], lambda v: I_(z3.Not(LR.mem(x, v)), NumOK(z3.Store(N, x, j), v) == NumOK(N, v)), lambda v: [NumOK(z3.Store(N, x, j), v)]),
    lem("nodup_cat", [l, x], lambda v: I_(Nodup(LR.cat(LR.snoc(l, x), v)), z3.Not(LR.mem(x, l))), lambda v: [Nodup(LR.cat(LR.snoc(l, x), v))]),
    lem("keep_mem", [K_, x], lambda v: LR.mem(x, Keep(K_, v)) == z3.And(LR.mem(x, v), z3.Or(z3.Not(blank(x)), K_[x])), lambda v: [LR.mem(x, Keep(K_, v))]),
    lem("keep_nodup", [K_], lambda v: I_(Nodup(v), Nodup(Keep(K_, v))), lambda v: [Nodup(Keep(K_, v))], use=["keep_mem"]),
    lem("take_all", [], lambda v: Take(v, LR.len(v)) == v, lambda v: [Take(v, LR.len(v))]),
    lem("take_none", [], lambda v: Take(v, 0) == LR.nil, lambda v: [Take(v, 0)]),
    lem("take_step", [j, k], lambda v: I_(z3.And(0 <= j, j < LR.len(v), k == j + 1), Take(v, k) == LR.snoc(Take(v, j), LR.nth(v, j))),
        lambda v: [Take(v, k), LR.nth(v, j)], use=["take_all"]),
    lem("np_mem", [k], lambda v: I_(NP(k, v) != NULL, z3.And(LR.mem(NP(k, v), v), cfg(NP(k, v)), ind(NP(k, v)) < k)), lambda v: [NP(k, v)]),
    lem("kids_frame", [A, x, y, z], lambda v: I_(z3.Not(LR.mem(x, v)), Kids(z3.Store(A, x, z), y, v) == Kids(A, y, v)), lambda v: [Kids(z3.Store(A, x, z), y, v)]),
    lem("kids_none", [A, x], lambda v: I_(FA([y], I_(LR.mem(y, v), A[y] != x)), Kids(A, x, v) == LR.nil), lambda v: [Kids(A, x, v)]),
    lem("kids_mem", [A, x, y], lambda v: LR.mem(x, Kids(A, y, v)) == z3.And(LR.mem(x, v), A[x] == y, x != y), lambda v: [LR.mem(x, Kids(A, y, v))]),
    lem("keep_kids", [A, K_, y], lambda v: I_(FA([x], I_(z3.And(LR.mem(x, v), A[x] == y, x != y), z3.Or(z3.Not(blank(x)), K_[x]))),
                                              Kids(A, y, Keep(K_, v)) == Kids(A, y, v)), lambda v: [Kids(A, y, Keep(K_, v))]),
    lem("before_keep", [K_, y], lambda v: I_(z3.Or(z3.Not(blank(y)), K_[y]), Before(Keep(K_, v), y) == Keep(K_, Before(v, y))), lambda v: [Before(Keep(K_, v), y)]),
    lem("np_keep", [k, K_], lambda v: NP(k, Keep(K_, v)) == NP(k, v), lambda v: [NP(k, Keep(K_, v))]),
    lem("keep_len", [K_], lambda v: LR.len(Keep(K_, v)) <= LR.len(v), lambda v: [Keep(K_, v)]),
    lem("keep_texts", [K_], lambda v: NonBlankT(Texts(Keep(K_, v))) == NonBlankT(Texts(v)), lambda v: [Texts(Keep(K_, v))]),
]
LEMMAS += [
    lem("rev_mem", [k], lambda v: LI.mem(k, LI.rev(v)) == LI.mem(k, v), lambda v: [LI.mem(k, LI.rev(v))], lt=LI),
    lem("ge_mem", [k, j], lambda v: LI.mem(k, GE(j, v)) == z3.And(LI.mem(k, v), k >= j), lambda v: [LI.mem(k, GE(j, v))], lt=LI),
    lem("ge_nodup", [j], lambda v: I_(NodupI(v), NodupI(GE(j, v))), lambda v: [GE(j, v)], use=["ge_mem"], lt=LI),
    lem("nodup_cons", [k], lambda v: NodupI(LI.cat(LI.snoc(LI.nil, k), v)) == z3.And(NodupI(v), z3.Not(LI.mem(k, v))),
        lambda v: [NodupI(LI.cat(LI.snoc(LI.nil, k), v))], lt=LI),
    lem("rev_nodup", [], lambda v: NodupI(LI.rev(v)) == NodupI(v), lambda v: [LI.rev(v)], use=["nodup_cons", "rev_mem"], lt=LI),
    lem("nodup_cat_int", [il, k], lambda v: I_(NodupI(LI.cat(LI.snoc(il, k), v)), z3.Not(LI.mem(k, il))), lambda v: [NodupI(LI.cat(LI.snoc(il, k), v))], lt=LI),
]
LEMMAS += [
    lem("keep_order", [N, N2, K_, x, y], lambda v: I_(z3.And(NumOK(N, v), NumOK(N2, Keep(K_, v)), LR.mem(x, Keep(K_, v)), LR.mem(y, Keep(K_, v))),
                                                      (N[x] < N[y]) == (N2[x] < N2[y])),
        lambda v: [NumOK(N, v), NumOK(N2, Keep(K_, v)), LR.mem(x, Keep(K_, v)), LR.mem(y, Keep(K_, v))], use=["num_range", "keep_mem"]),
    lem("match_texts", [p], lambda v: AnyMatch(p, v) == AnyMatchT(p, Texts(v)), lambda v: [AnyMatch(p, v)]),
    lem("brace_texts", [], lambda v: BraceLine(v) == BraceLineT(Texts(v)), lambda v: [BraceLine(v)]),
]
LEMMAS += [
    lem("kids_other", [A, x, y, z], lambda v: I_(z3.And(z3.Or(A[x] != y, x == y), z3.Or(z != y, x == y)), Kids(z3.Store(A, x, z), y, v) == Kids(A, y, v)),
        lambda v: [Kids(z3.Store(A, x, z), y, v)]),
    lem("kids_without", [A, x, y, z], lambda v: I_(z3.And(A[x] == y, z != y), Kids(z3.Store(A, x, z), y, v) == Without(x, Kids(A, y, v))),
        lambda v: [Kids(z3.Store(A, x, z), y, v)]),
    lem("kids_last", [A, y], lambda v: I_(Kids(A, y, v) != LR.nil, LR.mem(LR.nth(Kids(A, y, v), LR.len(Kids(A, y, v)) - 1), v)), lambda v: [Kids(A, y, v)],
        use=["kids_mem"]),
    lem("kids_append", [A, N, x, y], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v), A[x] != y, x != y, z3.Or(Kids(A, y, v) == LR.nil, last_num(N, Kids(A, y, v)) <= N[x])),
                                                  Kids(z3.Store(A, x, y), y, v) == LR.snoc(Kids(A, y, v), x)),
        lambda v: [NumOK(N, v), Kids(z3.Store(A, x, y), y, v)], use=["kids_frame", "num_range", "num_nodup", "kids_last"]),
    lem("kids_nodup", [A, y], lambda v: I_(Nodup(v), Nodup(Kids(A, y, v))), lambda v: [Kids(A, y, v)], use=["kids_mem"]),
    lem("order_kids", [A, l, y], lambda v: I_(FA([x], I_(LR.mem(x, v), LR.mem(x, l) == z3.And(A[x] == y, x != y))), InOrderOf(l, v) == Kids(A, y, v)),
        lambda v: [InOrderOf(l, v), Kids(A, y, v)]),
]
# trusted: list.sort() orders lines by their line number (BaseCfgLine.__lt__), so lines of one configuration come out in configuration order
SORT_LINES = FA([N, l, m], I_(z3.And(NumOK(N, m), Nodup(l), FA([y], I_(LR.mem(y, l), LR.mem(y, m)))), SORTL(N, l) == InOrderOf(l, m)),
                patterns=[z3.MultiPattern(SORTL(N, l), NumOK(N, m))])
LEMMAS += [
    lem("match_nil", [p], lambda v: I_(z3.Not(AnyMatch(p, v)), MatchT(p, v) == LR.nil), lambda v: [MatchT(p, v)]),
    lem("match_mem", [p, x], lambda v: LR.mem(x, MatchT(p, v)) == z3.And(LR.mem(x, v), RE_FOUND(p, txt(x))), lambda v: [LR.mem(x, MatchT(p, v))]),
    lem("sort_kids", [A, N, x, y], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v), A[x] != y, x != y),
                                                SORTL(N, LR.snoc(Kids(A, y, v), x)) == Kids(z3.Store(A, x, y), y, v)),
        lambda v: [NumOK(N, v), SORTL(N, LR.snoc(Kids(A, y, v), x))], use=["num_nodup", "kids_nodup", "kids_mem", "order_kids"]),
]
LEMBY = {lm.name: lm for lm in LEMMAS}


ADOPT = ("kids_other", "kids_without", "kids_last", "kids_append", "kids_nodup", "order_kids", "sort_kids", "match_nil", "match_mem", "num_cat")


def axioms(adopt=False):
    return DEFS + DEFSI + str_axioms() + [lm.formula() for lm in LEMMAS if adopt or lm.name not in ADOPT] + sort_axioms()


PASS_LEMMAS = ("num_range", "num_nth", "kids_mem", "kids_other", "kids_without", "kids_append", "sort_kids", "match_nil", "match_mem", "num_cat")


def pass_axioms():
    return DEFS + str_axioms() + [LEMBY[n].formula() for n in PASS_LEMMAS]


def lem_hyps():
    out = list(DEFS) + list(DEFSI) + [SORT_LINES]
    for lt in (LR, LS, LI):
        out += lt.axioms()
    for F in FOLDS:
        out += F.axioms()
    return out + T.string_axioms()


def str_axioms():
    return [strfn("slice", Str, IntS, IntS, Str)(slit(""), 0, 11) == slit(""), FA([s], LSTRIP(RSTRIP(s)) == STRIP(s), patterns=[LSTRIP(RSTRIP(s))]),
            FA([s, t], I_(STR_IN(s, t), T.slen(s) <= T.slen(t)), patterns=[STR_IN(s, t)]),
            FA([s], (T.slen(RSTRIP(s)) == 0) == (T.slen(STRIP(s)) == 0), patterns=[RSTRIP(s)]),
            FA([s], RSTRIP(RSTRIP(s)) == RSTRIP(s), patterns=[RSTRIP(RSTRIP(s))]),
            FA([s], STRIP(RSTRIP(s)) == STRIP(s), patterns=[STRIP(RSTRIP(s))])]


def sort_axioms():
    srt = z3.Function("sortedl_Int", LI.sort, LI.sort)
    return [FA([il, k], LI.mem(k, srt(il)) == LI.mem(k, il), patterns=[LI.mem(k, srt(il))]),
            FA([il], NodupI(il) == NodupI(srt(il)), patterns=[srt(il)])]


# --- the link invariant -----------------------------------------------------------------------------------------------
def comment_rule(ob, dl):
    return FA([x], I_(LR.mem(x, ob), cmt(x) == comment_text(txt(x), dl)), patterns=[LR.mem(x, ob)])


def is_const(t_):
    return z3.is_const(t_) and t_.decl().kind() == z3.Z3_OP_UNINTERPRETED


def pat(ob, *arrs):
    """trigger: x is a line of ob and arrs[x] is of interest"""
    if all(is_const(A_) for A_ in arrs):
        return [z3.MultiPattern(LR.mem(x, ob), *[A_[x] for A_ in arrs])]
    return [LR.mem(x, ob)]


def LinkInv(ob, P, Ch, Nm):
    """children lists are exactly the lines naming the line as their parent, in order; parents are earlier lines of the configuration"""
    return [("children of a line are exactly the lines that name it as parent, in line order",
             FA([x], I_(LR.mem(x, ob), Ch[x] == Kids(P, x, ob)), patterns=pat(ob, Ch) + ([Kids(P, x, ob)] if is_const(P) else []))),
            ("parents are lines of the configuration", FA([x], I_(LR.mem(x, ob), LR.mem(P[x], ob)), patterns=pat(ob, P))),
            ("a parent comes before its children", FA([x], I_(LR.mem(x, ob), z3.Or(P[x] == x, Nm[P[x]] < Nm[x])), patterns=pat(ob, P)))]


def par_rule(ob, P):
    return [("a configuration line hangs below the nearest preceding configuration line with a smaller indent, else below itself",
             FA([x], I_(z3.And(LR.mem(x, ob), cfg(x)), P[x] == z3.If(z3.And(ind(x) > 0, NP(ind(x), Before(ob, x)) != NULL), NP(ind(x), Before(ob, x)), x)),
                patterns=pat(ob, P))),
            ("only configuration lines are parents", FA([x], I_(z3.And(LR.mem(x, ob), P[x] != x), cfg(P[x])), patterns=pat(ob, P))),
            ("lines at indent zero and blank lines are their own parent", FA([x], I_(z3.And(LR.mem(x, ob), z3.Or(ind(x) <= 0, blank(x))), P[x] == x),
                                                          patterns=pat(ob, P)))]


def kept_rule(ob, P, Kp):
    return [("blank lines that may be dropped have no links", FA([x], I_(z3.And(LR.mem(x, ob), P[x] != x), z3.And(z3.Or(z3.Not(blank(x)), Kp[x]),
                                                                          z3.Or(z3.Not(blank(P[x])), Kp[P[x]]))), patterns=pat(ob, P)))]


def static_rule(ob):
    return [("indent is the width of the leading whitespace", FA([x], I_(LR.mem(x, ob), z3.And(x != NULL, ind(x) == T.slen(txt(x)) - T.slen(LSTRIP(txt(x))),
                                                                 txt(x) == RSTRIP(txt(x)))), patterns=[LR.mem(x, ob)]))]


# --- contracts ----------------------------------------------------------------------------------------------------------
BANNER_RE = z3.Const("BANNER_RE", Str)
def mk_cl(syntax):
    def mk(ex, name):
        cls = ex.src.module(CCP).classes["ConfigList"]
        return ex.new_rec(cls, {"debug": ex.lift(0), "syntax": ex.lift(syntax) if syntax else ex.mk("str", "syntax"), "comment_delimiter": ex.mk("str", "delim"),
                                "factory": ex.mk("bool", "factory"), "ignore_blank_lines": ex.mk("bool", "ign")})
    return ("make", mk)


def chars_of(s_):
    return LS.setof(strfn("chars", Str, LS.sort)(s_))


def first_char(s_):
    return strfn("at", Str, IntS, Str)(s_, 0)


def comment_text(t_, delims):
    """the first non-blank character of the text is one of the comment delimiters"""
    return z3.And(T.slen(LSTRIP(t_)) > 0, z3.Select(chars_of(delims), first_char(LSTRIP(t_))))


def comment_template(ex, lp, g):
    if "P" not in g or g["lt"] is not LS:
        return []
    o = ex.root_args.get("self")
    if o is None or not isinstance(o, Sc):
        return []

    def inv():
        v = ex.heap_arr("is_comment")[o.t]
        tx = LSTRIP(ex.heap_arr("_text")[o.t])
        return I_(g["P"] != LS.nil, v == z3.And(T.slen(tx) > 0, LS.mem(first_char(tx), g["P"])))
    return [("comment so far", inv), ("not a comment so far", lambda: I_(g["P"] != LS.nil, z3.Not(ex.heap_arr("is_comment")[o.t]))),
            ("only this line", lambda: FA([x], I_(x != o.t, ex.heap_arr("is_comment")[x] == z3.Const("H0_is_comment", ArrB)[x])))]


class SetCommentBool(Contract):
    """a line is a comment iff its first non-blank character is one of the comment delimiters"""
    key = f"{ABC}:BaseCfgLine.set_comment_bool"
    params = {"self": "ref"}
    result = "bool"
    templates = DEFAULT_TEMPLATES + [comment_template]

    def modifies(self, ex, a):
        return ["is_comment"]

    def axioms(self):
        return [FA([s], T.slen(s) >= 0, patterns=[T.slen(s)]),
                FA([s], (T.slen(s) > 0) == (strfn("chars", Str, LS.sort)(s) != LS.nil), patterns=[strfn("chars", Str, LS.sort)(s)]),
                FA([s, t], I_(z3.Select(chars_of(s), t), T.slen(t) == 1), patterns=[z3.Select(chars_of(s), t)])]

    def requires(self, ex, a):
        return [("a line with a comment delimiter", z3.And(a["self"].t != NULL, T.slen(H("comment_delimiter")[a["self"].t]) > 0))]

    def ensures(self, ex, a, r):
        o = a["self"].t
        old = ex.call_old.get("is_comment", z3.Const("H0_is_comment", ArrB))
        want = comment_text(ex.heap_arr("_text")[o], ex.heap_arr("comment_delimiter")[o])
        return [("comment iff the first non-blank character is a delimiter", ex.heap_arr("is_comment") == z3.Store(old, o, want)), ("returned", bool_of(ex, r) == want)]


class TextSetter(Contract):
    """assigning a text: trailing whitespace is dropped, indent and comment flag follow the text, a comment line hangs below itself"""
    key = f"{ABC}:BaseCfgLine.text.setter"
    params = {"self": "ref", "newtext": "str"}
    result = "none"

    def modifies(self, ex, a):
        return ["_text", "indent", "is_comment", "parent"]

    def axioms(self):
        return str_axioms()

    def requires(self, ex, a):
        return [("a line with a comment delimiter", z3.And(a["self"].t != NULL, T.slen(ex.heap_arr("comment_delimiter")[a["self"].t]) > 0))]

    def ensures(self, ex, a, r):
        o, tx = a["self"].t, RSTRIP(a["newtext"].t)
        old = {f: ex.call_old.get(f, z3.Const(f"H0_{f}", ex.heap_arr(f).sort())) for f in ("_text", "indent", "is_comment", "parent")}
        want = comment_text(tx, ex.heap_arr("comment_delimiter")[o])
        return [("the text without trailing whitespace", ex.heap_arr("_text") == z3.Store(old["_text"], o, tx)),
                ("indent is the width of the leading whitespace", ex.heap_arr("indent") == z3.Store(old["indent"], o, T.slen(tx) - T.slen(LSTRIP(tx)))),
                ("comment flag", ex.heap_arr("is_comment") == z3.Store(old["is_comment"], o, want)),
                ("a comment is its own parent", ex.heap_arr("parent") == z3.If(want, z3.Store(old["parent"], o, o), old["parent"]))]


SYNTAXES = ("ios", "nxos", "iosxr", "asa", "junos")


def valid_syntax(t_):
    return z3.Or(*[t_ == slit(x_) for x_ in SYNTAXES])


class CfgObjFromText(Contract):
    """a new line object (distinct from every existing one: no existing object is constrained)"""
    key = f"{CCP}:cfgobj_from_text"
    result = "ref"
    split = ()
    FACTORY_OK = False

    def __init__(self, syntax=None):
        self.label = syntax
        self.params = {"text_list": ("list", LS), "txt": "str", "idx": "int", "syntax": ("const", syntax) if syntax else "str", "comment_delimiter": "str",
                       "factory": ("const", False) if syntax else "bool"}
        if syntax is None:
            self.trusted = ("for the five syntaxes with factory=False this is exactly what the labelled contracts of the same function prove; "
                            "with factory=True (config_line_factory and the specialised line classes) it is assumed and exercised by the replay oracle")

    def axioms(self):
        return str_axioms()

    def requires(self, ex, a):
        sy = a["syntax"]
        return [("a known syntax", valid_syntax(sy.t if z3.is_expr(getattr(sy, "t", None)) else slit(ex.pyval(sy)))),
                ("a comment delimiter", T.slen(a["comment_delimiter"].t) > 0)]

    def ensures(self, ex, a, r):
        o = r.t
        H = ex.heap_arr
        txt, ind, cmt = (lambda o: H("_text")[o]), (lambda o: H("indent")[o]), (lambda o: H("is_comment")[o])
        return [("text is the input without trailing whitespace", txt(o) == RSTRIP(a["txt"].t)),
                ("line number as given", z3.Select(H("linenum"), o) == a["idx"].t),
                ("indent is the width of the leading whitespace", ind(o) == T.slen(txt(o)) - T.slen(LSTRIP(txt(o)))),
                ("own parent", z3.Select(ex.heap_arr("parent"), o) == o),
                ("no children", z3.Select(ex.heap_arr("children"), o) == LR.nil),
                ("comment iff the first non-blank character is a delimiter", cmt(o) == comment_text(txt(o), a["comment_delimiter"].t)),
                ("no blank line kept", z3.Not(z3.Select(ex.heap_arr("blank_line_keep"), o))),
                ("a line", o != NULL)]


def list_vars(ex, lp):
    """names of local/visible lists of lines"""
    out = []
    for n, v in sorted(lp["prelocals"].items()):
        if isinstance(v, (CellV,)) and ex.content(v)[0] in ("list", "clist"):
            out.append(n)
    return out


def now(lp, n):
    v = lp["frame"].locals.get(n)
    return v if v is not None else lp["prelocals"].get(n)


def boot_template(ex, lp, g):
    """invariants of the line loop of the parse, for every list of lines / dictionary / integer variable in sight"""
    if "P" not in g or g["lt"] is not LS:
        return []
    out = []

    def cur(n, sort=LR.sort):
        return as_term(ex, now(lp, n), sort)

    def add(nm, n, f):
        def fn():
            c = cur(n)
            return f(c) if c is not None else z3.BoolVal(False)
        out.append((f"{nm} [{n}]", fn))

    def hp(f):
        return ex.heap_arr(f)
    Nm = H("linenum")
    for n in list_vars(ex, lp):
        if cur(n) is None:
            continue
        add("texts", n, lambda c: Texts(c) == RS(g["P"]))
        add("length", n, lambda c: LR.len(c) == LS.len(g["P"]))
        add("numbers", n, lambda c: NumOK(Nm, c))
        add("static", n, lambda c: z3.And(*[f for _, f in static_rule(c)]))
        dl = ex.recs[ex.root_args["self"].id].get("comment_delimiter")
        if isinstance(dl, Sc):
            add("comments", n, lambda c: comment_rule(c, dl.t))
        add("links", n, lambda c: z3.And(*[f for _, f in LinkInv(c, hp("parent"), hp("children"), Nm)]))
        add("parent rule", n, lambda c: z3.And(*[f for _, f in par_rule(c, hp("parent"))]))
        add("not kept", n, lambda c: FA([x], I_(LR.mem(x, c), z3.Not(hp("blank_line_keep")[x])), patterns=[LR.mem(x, c)]))
        for dn, dv in sorted(lp["prelocals"].items()):
            if not isinstance(dv, CellV) or ex.content(dv)[0] not in ("dict", "cdict"):
                continue

            def dinv(dn=dn, n=n):
                d = dict_terms(ex, now(lp, dn))
                c = cur(n)
                if d is None or c is None:
                    return z3.BoolVal(False)
                return FA([k], I_(d[0][k], z3.And(d[1][k] == NP(k, c), d[1][k] != NULL, k > 0)), patterns=[d[0][k]])
            out.append((f"{dn} caches the nearest lines [{n}]", dinv))
            for im_ in sorted(lp["names"]):
                if isinstance(lp["prelocals"].get(im_), Sc) and lp["prelocals"][im_].ty == "int":
                    def binv(dn=dn, im_=im_):
                        d, v = dict_terms(ex, now(lp, dn)), now(lp, im_)
                        if d is None or not isinstance(v, Sc) or v.ty != "int":
                            return z3.BoolVal(False)
                        return z3.And(v.t >= 0, FA([k], I_(d[0][k], k <= v.t), patterns=[d[0][k]]))
                    out.append((f"keys of {dn} <= {im_}", binv))
    for n in list_vars(ex, lp):
        if as_term(ex, now(lp, n), LI.sort) is not None:
            def nomac(n=n):
                il = as_term(ex, now(lp, n), LI.sort)
                return I_(z3.Not(AnyMacroT(g["P"])), il == LI.nil) if il is not None else z3.BoolVal(False)
            out.append((f"{n} empty without macros", nomac))
        for ln in list_vars(ex, lp):
            if n != ln and cur(ln) is not None and as_term(ex, now(lp, n), LI.sort) is not None:
                def idx(n=n, ln=ln):
                    il, c = as_term(ex, now(lp, n), LI.sort), cur(ln)
                    return FA([k], I_(LI.mem(k, il), z3.And(0 <= k, k < LR.len(c))), patterns=[LI.mem(k, il)]) if il is not None and c is not None else z3.BoolVal(False)
                out.append((f"{n} are positions in {ln}", idx))
    return out


def dict_terms(ex, v):
    if not isinstance(v, CellV):
        return None
    c = ex.content(v)
    if c[0] == "cdict":
        if c[1]:
            return None
        return z3.EmptySet(IntS), z3.K(IntS, NULL)
    if c[0] == "dict" and c[1] == IntS and c[2] == Ref:
        return c[3], c[4]
    return None


def del_template(ex, lp, g):
    """deleting listed keys from a dictionary"""
    if "P" not in g or g["lt"] is not LI:
        return []
    out = []
    for dn, dv in sorted(lp["prelocals"].items()):
        if not isinstance(dv, CellV) or ex.content(dv)[0] not in ("dict", "cdict"):
            continue
        pre = dict_terms(ex, dv)
        prec = lp["precells"].get(dv.id)
        if prec is None or prec[0] != "dict":
            continue

        def inv(dn=dn, prec=prec):
            d = dict_terms(ex, now(lp, dn))
            if d is None:
                return z3.BoolVal(False)
            return z3.And(d[1] == prec[4], FA([k], d[0][k] == z3.And(prec[3][k], z3.Not(LI.mem(k, g["P"]))), patterns=[d[0][k]]))
        out.append((f"{dn} without the keys seen", inv))
    return out


def scan_template(ex, lp, g):
    """scanning a list of lines backwards: what is still above decides the nearest line"""
    if "while" not in g:
        return []
    out = []
    ks = [(n, t) for n, t in visible_terms(ex, lp) if t.sort() == IntS]
    for n in sorted(lp["names"]):
        v = lp["prelocals"].get(n)
        if not (isinstance(v, Sc) and v.ty == "int"):
            continue
        for ln in list_vars(ex, lp):
            c0 = as_term(ex, now(lp, ln), LR.sort)
            if c0 is None:
                continue

            def rng(n=n, c0=c0):
                w = now(lp, n)
                return z3.And(w.t >= -1, w.t < LR.len(c0)) if isinstance(w, Sc) and w.ty == "int" else z3.BoolVal(False)
            out.append((f"{n} within {ln}", rng))
            for kn, kt in ks:
                def inv(n=n, c0=c0, kt=kt):
                    w = now(lp, n)
                    return NP(kt, Take(c0, w.t + 1)) == NP(kt, c0) if isinstance(w, Sc) and w.ty == "int" else z3.BoolVal(False)
                out.append((f"nearest below {kn} in {ln}[:{n}+1]", inv))
    return out


def same_content(c, c0):
    if c[0] != c0[0]:
        return z3.BoolVal(False)
    if c[0] == "list":
        return c[2] == c0[2]
    if c[0] == "dict":
        return z3.And(c[3] == c0[3], c[4] == c0[4])
    if c[0] in ("clist", "cdict"):
        return z3.BoolVal(c[1] is c0[1] or (not c[1] and not c0[1]))
    return z3.BoolVal(False)


def unchanged_template(ex, lp, g):
    """what a loop writes only on its way out is unchanged while it runs"""
    out = []
    for m in sorted(lp["meta"].mods, key=str):
        if m[0] == "cell":
            cid = ex.root_cell(lp, m[1])
            if cid is not None and cid in lp["precells"]:
                out.append((f"{m[1]} unchanged", lambda cid=cid: same_content(ex.cells[cid], lp["precells"][cid])))
        elif m[0] == "heap":
            pre = lp["preheap"].get(m[1])
            if pre is None:
                pre = z3.Const(f"H0_{m[1]}", ex.heap_arr(m[1]).sort())
            out.append((f"field {m[1]} unchanged", lambda m=m, pre=pre: ex.heap_arr(m[1]) == pre))
    return out


class Bootstrap(Contract):
    key = f"{CCP}:ConfigList.bootstrap_obj_init_ng"
    share_dead = True
    weight = 100
    chain = True
    result = ("list", LR)
    folds = FOLDS
    cand = {"KeepLines": ("blank_line_keep",), "GEq": ("indent",), "Without": (), "InOrder": (), "InOrderOf": ()}
    templates = DEFAULT_TEMPLATES + [boot_template, del_template, scan_template, lambda ex, lp, g: unchanged_template(ex, lp, g) if 'while' in g else []]
    split = ()

    def __init__(self, syntax):
        self.label = syntax
        self.params = {"self": mk_cl(syntax), "text_list": ("list", LS)}

    def axioms(self):
        return axioms()

    def extra_terms(self, ex, lp):
        return [("blank_line_keep", ex.heap_arr("blank_line_keep"))]

    def modifies(self, ex, a):          # in truth only fields of the lines it creates
        return ["_text", "linenum", "indent", "parent", "children", "is_comment", "child_indent", "blank_line_keep"]

    def requires(self, ex, a):
        r = ex.recs[a["self"].id]
        return [("a known syntax", valid_syntax(r["syntax"].t)), ("a comment delimiter", T.slen(r["comment_delimiter"].t) > 0)]

    def variant(self, ex, lp):
        c = [v for n in lp["names"] for v in [lp["frame"].locals.get(n)] if isinstance(v, Sc) and v.ty == "int"]
        return c[0].t + 1 if len(c) == 1 else None

    def ensures(self, ex, a, r):
        ob = ex.term_of(r, LR.sort)
        P, Ch, Nm = ex.heap_arr("parent"), ex.heap_arr("children"), ex.heap_arr("linenum")
        tl = ex.term_of(a["text_list"], LS.sort)
        ign = bool_of(ex, ex.recs[a["self"].id]["ignore_blank_lines"])
        out = [("one line per input line, in order, trailing whitespace removed; only blank lines dropped", NonBlankT(Texts(ob)) == NonBlankT(RS(tl))),
               ("every line is kept unless blank lines are ignored", I_(z3.Not(ign), Texts(ob) == RS(tl))),
               ("never more lines than texts", LR.len(ob) <= LS.len(tl)),
               ("line numbers equal positions", NumOK(Nm, ob)),
               ("every element is a line object", FA([x], I_(LR.mem(x, ob), x != NULL), patterns=[LR.mem(x, ob)]))]
        plain = z3.And(z3.Not(AnyMatchT(BANNER_RE, RS(tl))), z3.Not(BraceLineT(RS(tl))), z3.Not(AnyMacroT(tl)))
        out.append(("a line is a comment iff its first non-blank character is a comment delimiter",
                    comment_rule(ob, ex.recs[a["self"].id]["comment_delimiter"].t)))
        return out + static_rule(ob) + LinkInv(ob, P, Ch, Nm) + [("without banners, macros and braces: " + n, I_(plain, f)) for n, f in par_rule(ob, P)]


def line_arrays(ex, old=False):
    h = ex.call_old if old else ex.heap
    return [h[f] if f in h else ex.heap_arr(f) for f in ("parent", "children", "linenum", "blank_line_keep")]


def adopt(P, Ch, Nm, p_, c_):
    """parents and children after adopt_line(p_, c_)"""
    same = P[c_] == p_
    ch1 = z3.If(P[c_] != c_, z3.Store(Ch, P[c_], Without(c_, Ch[P[c_]])), Ch)
    app = LR.snoc(ch1[p_], c_)
    put = z3.If(z3.And(ch1[p_] != LR.nil, last_num(Nm, ch1[p_]) > Nm[c_]), SORTL(Nm, app), app)
    return z3.If(same, P, z3.Store(P, c_, p_)), z3.If(same, Ch, z3.Store(ch1, p_, put))


class AdoptLine(Contract):
    """the child leaves its former parent and enters the new parent's children at the place its line number gives it"""
    key = f"{CCP}:adopt_line"
    params = {"parentobj": "ref", "childobj": "ref"}
    folds = (Without,)
    cand = {"Without": ("childobj",)}

    def axioms(self):
        return axioms()

    def modifies(self, ex, a):
        return ["parent", "children"]

    def requires(self, ex, a):
        p_, c_ = a["parentobj"].t, a["childobj"].t
        kids = ex.heap_arr("children")[p_]
        return [("lines", z3.And(p_ != NULL, c_ != NULL, ex.heap_arr("parent")[c_] != NULL)),
                ("children are lines", FA([x], I_(LR.mem(x, kids), x != NULL), patterns=[LR.mem(x, kids)]))]

    def ensures(self, ex, a, r):
        p_, c_ = a["parentobj"].t, a["childobj"].t
        old = old_arrays(ex)
        P, Ch = adopt(old["parent"], old["children"], ex.heap_arr("linenum"), p_, c_)
        return [("the child's parent is the new parent, no other line's parent changes", ex.heap_arr("parent") == P),
                ("the child leaves its former parent's children and takes its place among the new parent's children; no other children change",
                 ex.heap_arr("children") == Ch)]


def old_arrays(ex):
    return {f: ex.call_old[f] if f in ex.call_old else z3.Const(f"H0_{f}", ex.heap_arr(f).sort()) for f in ("parent", "children", "linenum", "blank_line_keep")}


def pass_template(ex, lp, g):
    """the link invariant holds throughout a pass; what a pass remembers are lines it has seen"""
    if not isinstance(ex.root, Pass):
        return []
    ob = ex.root.lines(ex, ex.root_args)
    out = []

    def now_arr(i):
        return ex.heap_arr(("parent", "children", "linenum", "blank_line_keep")[i])
    for i in range(3):
        out.append((LinkInv(ob, now_arr(0), now_arr(1), now_arr(2))[i][0], lambda i=i: LinkInv(ob, now_arr(0), now_arr(1), now_arr(2))[i][1]))
    out.append(("kept", lambda: kept_rule(ob, now_arr(0), now_arr(3))[0][1]))
    mods = {m[1] for m in lp["meta"].mods if m[0] == "heap"}
    old = {f: z3.Const(f"H0_{f}", ex.heap_arr(f).sort()) for f in ("parent", "children", "blank_line_keep")}

    def same():
        return z3.And(*[ex.heap_arr(f) == old[f] for f in old if f in mods])
    if "P" in g and mods & set(old):
        out.append(("unchanged before the first element", lambda: I_(g["P"] == g["lt"].nil, same())))
        if g["lt"] is LR:
            out.append(("unchanged before the first brace", lambda: I_(z3.Not(BraceLine(g["P"])), same())))
    for n in list_vars(ex, lp):
        if "P" in g and g["lt"] is LR and as_term(ex, now(lp, n), LR.sort) is not None:
            def seen(n=n):
                c = as_term(ex, now(lp, n), LR.sort)
                return FA([x], I_(LR.mem(x, c), z3.And(LR.mem(x, g["P"]), z3.Not(blank(x)))), patterns=[LR.mem(x, c)]) if c is not None else z3.BoolVal(False)
            out.append((f"{n} holds lines seen", seen))

            def seenb(n=n):
                c = as_term(ex, now(lp, n), LR.sort)
                return I_(z3.Not(BraceLine(g["P"])), c == LR.nil) if c is not None else z3.BoolVal(False)
            out.append((f"{n} empty before the first brace", seenb))
    if "while" in g:
        refs = [(n, t) for n, t in visible_terms(ex, lp) if t.sort() == Ref]
        for n in sorted(lp["names"]):
            if isinstance(lp["prelocals"].get(n), Sc) and lp["prelocals"][n].ty == "int":
                for rn, rt in refs:
                    def ge(n=n, rt=rt):
                        w = now(lp, n)
                        return w.t >= H("linenum")[rt] if isinstance(w, Sc) and w.ty == "int" else z3.BoolVal(False)
                    out.append((f"{n} at or below {rn}", ge))
                out.append((f"{n} within", lambda n=n: now(lp, n).t <= LR.len(ob) if isinstance(now(lp, n), Sc) and now(lp, n).ty == "int" else z3.BoolVal(False)))
        for rn, rt in refs:
            out.append((f"{rn} kept", lambda rt=rt: ex.heap_arr("blank_line_keep")[rt]))
    return out


class Pass(Contract):
    """a pass over the list of lines that may move lines below other lines"""
    folds = (BraceLine, AnyMatch, MatchT, Kids, Without, InOrderOf)
    cand = {"KeepLines": (), "GEq": (), "Without": (), "InOrder": (), "InOrderOf": (), "NearestBelow": (), "Kids": ()}
    split = ()
    templates = DEFAULT_TEMPLATES + [pass_template]

    def axioms(self):
        return pass_axioms()

    def variant(self, ex, lp):
        c = [v for n in lp["names"] for v in [lp["frame"].locals.get(n)] if isinstance(v, Sc) and v.ty == "int"]
        return LR.len(self.lines(ex, ex.root_args)) - c[0].t if len(c) == 1 else None

    def lines(self, ex, a):
        raise NotImplementedError

    def trigger(self, ex, a):
        raise NotImplementedError

    def modifies(self, ex, a):
        return ["parent", "children", "child_indent", "blank_line_keep"]

    def requires(self, ex, a):
        ob = self.lines(ex, a)
        P, Ch, Nm, Kp = [ex.heap_arr(f) for f in ("parent", "children", "linenum", "blank_line_keep")]
        return [("numbers", NumOK(Nm, ob))] + static_rule(ob) + LinkInv(ob, P, Ch, Nm) + kept_rule(ob, P, Kp)

    def ensures(self, ex, a, r):
        ob = self.lines(ex, a)
        P, Ch, Nm, Kp = [ex.heap_arr(f) for f in ("parent", "children", "linenum", "blank_line_keep")]
        old = {f: ex.call_old[f] if f in ex.call_old else z3.Const(f"H0_{f}", ex.heap_arr(f).sort()) for f in ("parent", "children", "linenum", "blank_line_keep")}
        out = LinkInv(ob, P, Ch, Nm) + kept_rule(ob, P, Kp)
        out.append(("nothing to do: nothing changes", I_(z3.Not(self.trigger(ex, a)), z3.And(P == old["parent"], Ch == old["children"], Kp == old["blank_line_keep"]))))
        return out


class Braces(Pass):
    key = f"{CCP}:assign_parent_to_closing_braces"
    params = {"input_list": ("list", LR)}
    result = ("list", LR)
    raises = {"ValueError": lambda ex, a: z3.BoolVal(True)}

    def lines(self, ex, a):
        return ex.term_of(a["input_list"], LR.sort)

    def trigger(self, ex, a):
        return BraceLine(self.lines(ex, a))

    def ensures(self, ex, a, r):
        return super().ensures(ex, a, r) + [("the list itself is returned", ex.term_of(r, LR.sort) == self.lines(ex, a))]


class BannerMark(Pass):
    key = f"{CCP}:ConfigList._banner_mark_regex"

    def __init__(self):
        def mk(ex, name):
            cls = ex.src.module(CCP).classes["ConfigList"]
            return ex.new_rec(cls, {"debug": ex.lift(0), "_list": ex.mk(("list", LR), "lines")})
        self.params = {"self": ("make", mk), "regex": ("make", lambda ex, n: RegexV(ex.fresh(Str, "banner_re")))}

    def lines(self, ex, a):
        return ex.term_of(ex.recs[a["self"].id]["_list"], LR.sort)

    def trigger(self, ex, a):
        return AnyMatch(a["regex"].pat, self.lines(ex, a))


class MacroMark(Pass):
    key = f"{CCP}:ConfigList._macro_mark_children"

    def __init__(self):
        def mk(ex, name):
            cls = ex.src.module(CCP).classes["ConfigList"]
            return ex.new_rec(cls, {"debug": ex.lift(0), "_list": ex.mk(("list", LR), "lines")})
        self.params = {"self": ("make", mk), "macro_parent_idx_list": ("list", LI)}

    def lines(self, ex, a):
        return ex.term_of(ex.recs[a["self"].id]["_list"], LR.sort)

    def idxs(self, ex, a):
        return ex.term_of(a["macro_parent_idx_list"], LI.sort)

    def requires(self, ex, a):
        il, ob = self.idxs(ex, a), self.lines(ex, a)
        return super().requires(ex, a) + [("indexes of lines", FA([k], I_(LI.mem(k, il), z3.And(0 <= k, k < LR.len(ob))), patterns=[LI.mem(k, il)]))]

    def trigger(self, ex, a):
        return self.idxs(ex, a) != LI.nil


class Reassign(Contract):
    key = f"{CCP}:ConfigList.reassign_linenums"
    folds = FOLDS

    def __init__(self):
        def mk(ex, name):
            cls = ex.src.module(CCP).classes["ConfigList"]
            return ex.new_rec(cls, {"debug": ex.lift(0), "_list": ex.mk(("list", LR), "lines")})
        self.params = {"self": ("make", mk)}

    def axioms(self):
        return axioms()

    def lines(self, ex, a):
        return ex.term_of(ex.recs[a["self"].id]["_list"], LR.sort)

    def modifies(self, ex, a):
        return ["linenum"]

    def requires(self, ex, a):
        ob = self.lines(ex, a)
        return [("no line twice", Nodup(ob)), ("lines", FA([x], I_(LR.mem(x, ob), x != NULL), patterns=[LR.mem(x, ob)]))]

    templates = DEFAULT_TEMPLATES + [lambda ex, lp, g: [("numbered so far", lambda: NumOK(ex.heap_arr("linenum"), g["P"]))] if "P" in g and g["lt"] is LR else []]

    def ensures(self, ex, a, r):
        return [("line numbers equal positions", NumOK(ex.heap_arr("linenum"), self.lines(ex, a)))]


class IsConfigLine(Contract):
    key = f"{ABC}:BaseCfgLine.is_config_line"
    params = {"self": "ref"}
    result = "bool"

    def requires(self, ex, a):
        return [("a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        return [("neither blank nor a comment", bool_of(ex, r) == cfg(a["self"].t))]


class BannerRe(Contract):
    key = f"{CCP}:ConfigList._build_banner_re_ios"
    trusted = "builds and compiles a fixed expression; its value is not used in the argument"
    params = {"self": mk_cl("ios")}

    @property
    def result(self):
        return ("make", lambda ex, n: RegexV(BANNER_RE))


C01 = [Bootstrap(None), AdoptLine(), CfgObjFromText()] + [CfgObjFromText(sy) for sy in SYNTAXES] + [TextSetter(), SetCommentBool(), Braces(), BannerMark(), MacroMark(), Reassign(), BannerRe(), IsConfigLine()]
REF_CLASS = (ABC, "BaseCfgLine")

TRUSTED = [
    "list.sort() of lines orders them by BaseCfgLine.__lt__ (line numbers): the lines of one configuration come out in configuration order",
    "strip/rstrip/lstrip/startswith/slices of text are pure functions with the stated length and idempotence laws",
    "a new line object occupies a reference not held anywhere else",
    "calculate_line_id (a hash of the text) has no effect on texts, numbers and links",
    "a group of a concrete regular expression takes part in a match, and has at least the width, that CPython's own parse of the expression says",
]
BOUNDED = ("factory=True (config_line_factory and the specialised line classes), the constructors CiscoConfParse.__init__/ConfigList.__init__ around the parse, "
           "and reading from a file: executed by the replay oracle only")
