"""Specification vocabulary for configuration lines and the contracts of the search functions (C04-C08, C21)."""
import z3
from pyvc import theory as T
from pyvc.theory import Ref, Str, Val, IntS, BoolS, Fold, m_list, m_any, m_all, m_set, slit
from pyvc.engine import (MATCHVAL, NONEVAL, RE_FOUND, RE_FULL, RE_SUB, RE_GROUP, RE_GROUP_NONE, STR_IN, NULL, Sc, RecV, CellV, NONE, NoneV, strfn,
                         Unsupported, TupV)
from pyvc.contract import Contract

CCP = "ciscoconfparse.ciscoconfparse"
ABC = "ciscoconfparse.ccp_abc"
LR = T.list_of(Ref)
LS = T.list_of(Str)
LI = T.list_of(IntS)
SetR = z3.SetSort(Ref)

FIELDS = {"comment_delimiter": "str", 
    "_text": "str", "linenum": "int", "indent": "int", "parent": "ref", "children": ("list", LR),
    "is_comment": "bool", "child_indent": "int", "blank_line_keep": "bool",
}


def H(field):
    srt = {"str": Str, "int": IntS, "ref": Ref, "bool": BoolS}
    ty = FIELDS[field]
    return z3.Const(f"H0_{field}", z3.ArraySort(Ref, LR.sort if isinstance(ty, tuple) else srt[ty]))


def txt(x):
    return z3.Select(H("_text"), x)


def num(x):
    return z3.Select(H("linenum"), x)


def par(x):
    return z3.Select(H("parent"), x)


def kids(x):
    return z3.Select(H("children"), x)


x, y = z3.Consts("x y", Ref)
p, q, r = z3.Consts("p q r", Str)
l = z3.Const("l", LR.sort)
S_ = z3.Const("S_", SetR)


# --- what "matches" means ------------------------------------------------------------------------------------------
def M(pat, o):                      # the expression is found in the line's text
    return RE_FOUND(pat, txt(o))


def MC(pat, o):                     # child test: found as regex, or contained literally; blank children never count
    return z3.And(z3.Or(RE_FOUND(pat, txt(o)), STR_IN(pat, txt(o))), txt(o) != slit(""))


def cat3(a, b, c):
    return T.sconcat(T.sconcat(slit(a), b), slit(c))


# --- spec functions -------------------------------------------------------------------------------------------------
Find = Fold("Find", LR, [p], m_list(LR), lambda p, x: (M(p, x), x))                       # lines matching p
FindFull = Fold("FindFull", LR, [p], m_list(LR), lambda p, x: (RE_FULL(p, txt(x)), x))
Texts = Fold("Texts", LR, [], m_list(LS), lambda x: (z3.BoolVal(True), txt(x)))
FindT = Fold("FindT", LS, [p], m_list(LS), lambda p, s: (RE_FOUND(p, s), s))
FindTFull = Fold("FindTFull", LS, [p], m_list(LS), lambda p, s: (RE_FULL(p, s), s))
AnyT = Fold("AnyT", LS, [p], m_any(), lambda p, s: RE_FOUND(p, s))
AnyM = Fold("AnyM", LR, [p], m_any(), lambda p, x: M(p, x))
Matching = Fold("MatchingKids", LR, [p], m_list(LR), lambda p, x: (MC(p, x), x))          # children passing the child test
HasKid = Fold("HasKid", LR, [p], m_any(), lambda p, x: MC(p, x))
LV = T.list_of(Val)
SearchRes = Fold("SearchRes", LS, [p], m_list(LV), lambda p, s: (z3.BoolVal(True), z3.If(RE_FOUND(p, s), MATCHVAL(p, s), NONEVAL)))
SearchResR = Fold("SearchResR", LR, [p], m_list(LV), lambda p, o: (z3.BoolVal(True), z3.If(M(p, o), MATCHVAL(p, txt(o)), NONEVAL)))
NotNone = Fold("NotNone", LV, [], m_list(LV), lambda v: (v != NONEVAL, v))


def sortedR(s):
    return z3.Function("sorted_Ref", SetR, LR.sort)(s)


# descendants / ancestors, least fixpoints over the (acyclic) links
Desc = z3.Function("Desc", Ref, SetR)                     # descendants of a line
DescF = Fold("DescF", LR, [], m_set(Ref), lambda x: z3.SetUnion(z3.Store(z3.EmptySet(Ref), x, True), Desc(x)))
Anc = z3.Function("Anc", Ref, SetR)                       # proper ancestors of a line


def family_axioms():
    return [
        z3.ForAll([x], Desc(x) == DescF(kids(x)), patterns=[Desc(x)]),
        z3.ForAll([x], Anc(x) == z3.If(par(x) == x, z3.EmptySet(Ref), z3.Store(Anc(par(x)), par(x), True)),
                  patterns=[Anc(x)]),
    ]


def family(recurse):
    """the list searched below a line: its children, or all its descendants in line order"""
    return (lambda o: sortedR(Desc(o))) if recurse else (lambda o: kids(o))


ParentsD = Fold("ParentsDirect", LR, [q], m_list(LR), lambda q, x: (HasKid(q, kids(x)), x))
ParentsR = Fold("ParentsRecursive", LR, [q], m_list(LR), lambda q, x: (HasKid(q, sortedR(Desc(x))), x))
OrphansD = Fold("WithoutDirect", LR, [q], m_list(LR), lambda q, x: (z3.Not(HasKid(q, kids(x))), x))
OrphansR = Fold("WithoutRecursive", LR, [q], m_list(LR), lambda q, x: (z3.Not(HasKid(q, sortedR(Desc(x)))), x))


# --- relation between folds, proved by induction -------------------------------------------------------------------
def lemma(name, lt, params, body, pats, use=()):
    return T.Lemma(name, lt.sort, lt, params, body, pats, use)


LEMMAS = [
    lemma("Matching_nonempty", LR, [p], lambda v: (Matching(p, v) == LR.nil) == z3.Not(HasKid(p, v)), lambda v: [Matching(p, v)]),
    lemma("FindT_Texts", LR, [p], lambda v: FindT(p, Texts(v)) == Texts(Find(p, v)), lambda v: [FindT(p, Texts(v))]),
    lemma("FindTFull_Texts", LR, [p], lambda v: FindTFull(p, Texts(v)) == Texts(FindFull(p, v)), lambda v: [FindTFull(p, Texts(v))]),
    lemma("AnyT_Texts", LR, [p], lambda v: AnyT(p, Texts(v)) == z3.Not(Find(p, v) == LR.nil), lambda v: [AnyT(p, Texts(v))]),
    lemma("NotNone_SearchRes", LR, [p], lambda v: (NotNone(SearchRes(p, Texts(v))) == LV.nil) == (Find(p, v) == LR.nil),
          lambda v: [NotNone(SearchRes(p, Texts(v)))]),
    lemma("NotNone_SearchResR", LR, [p], lambda v: (NotNone(SearchResR(p, v)) == LV.nil) == (Find(p, v) == LR.nil),
          lambda v: [NotNone(SearchResR(p, v))]),
    lemma("AnyM_Find", LR, [p], lambda v: AnyM(p, v) == z3.Not(Find(p, v) == LR.nil), lambda v: [AnyM(p, v)]),
]

# --- assumptions about the standard library's regex engine (CPython-checked by replay/cross.py) ------------------------
def regex_axioms():
    t = z3.Const("t", Str)
    anch = T.sconcat(T.sconcat(slit("^(?:"), p), slit(")$"))
    grp = T.sconcat(T.sconcat(slit("("), p), slit(")"))
    return [
        z3.ForAll([p, t], RE_FOUND(anch, t) == RE_FULL(p, t), patterns=[RE_FOUND(anch, t)]),
        z3.ForAll([p, t], RE_FOUND(grp, t) == RE_FOUND(p, t), patterns=[RE_FOUND(grp, t)]),
    ]


TRUSTED = [
    "re.search/re.fullmatch/re.compile are pure functions of (pattern, text); '^(?:p)$' finds t iff p matches all of t; "
    "'(p)' finds t iff p does (no inline flags in p); checked on CPython by replay cross-checks",
    "Python set/sorted over lines: elements are identified by (line number, text) (C14), lines of one configuration have "
    "pairwise different line numbers (C01), so set semantics is that of mathematical sets and sorted() is a function of the set",
    "lists/sets/dicts of the interpreter behave as their mathematical counterparts; logger calls have no effect",
]


def tol(s):
    """ignore_ws: every blank run in the expression becomes \\s+"""
    return RE_SUB(slit("\\s+"), slit("\\\\s+"), s)


def mk_cfg(ex, name):
    """a CiscoConfParse object holding an arbitrary list of lines"""
    src = ex.src
    ccp_cls = src.module(CCP).classes["CiscoConfParse"]
    cl_cls = src.module(CCP).classes["ConfigList"]
    objs = z3.Const("objs", LR.sort)
    lst = ex.new_list(LR, objs)
    cl = ex.new_rec(cl_cls, {"_list": lst, "debug": ex.lift(0), "syntax": ex.lift("ios"),
                             "comment_delimiter": ex.lift("!"), "factory": ex.lift(False), "ignore_blank_lines": ex.lift(False)})
    ccp = ex.new_rec(ccp_cls, {"ConfigObjs": cl, "debug": ex.lift(0), "syntax": ex.lift("ios"),
                               "comment_delimiter": ex.lift("!"), "factory": ex.lift(False), "ignore_blank_lines": ex.lift(False)})
    ex.recs[cl.id]["ccp_ref"] = ccp
    ex.recs[cl.id]["CiscoConfParse"] = ccp
    return ccp


def mk_list(ex, name):
    ccp = mk_cfg(ex, name)
    return ex.recs[ccp.id]["ConfigObjs"]


OBJS = z3.Const("objs", LR.sort)
SELF = ("make", mk_cfg)
SELF_LIST = ("make", mk_list)


def objs_of(ex, selfv):
    """the list of lines a configuration object holds now"""
    v = selfv
    if "ConfigObjs" in ex.recs[v.id]:
        v = ex.recs[v.id]["ConfigObjs"]
    return ex.term_of(ex.recs[v.id]["_list"], LR.sort)


def bool_of(ex, v):
    b = ex.truth(v)
    return b if z3.is_expr(b) else z3.BoolVal(b)


def mkfam(ex, rec, o):
    return z3.If(rec, sortedR(Desc(o)), kids(o))


class LineContract(Contract):
    fold_set = ()

    def axioms(self):
        return regex_axioms() + [lm.formula() for lm in LEMMAS]

    def frame(self, ex, a):
        """nothing about the configuration changed"""
        out = []
        for f in FIELDS:
            if f in ex.heap:
                out.append((f"field {f.strip('_')} of every line unchanged", ex.heap[f] == H(f)))
        return out


class RegexTol(LineContract):
    key = f"{CCP}:build_space_tolerant_regex"
    params = {"linespec": "str"}
    result = "str"

    def ensures(self, ex, a, r):
        return [("every blank run of the expression becomes \\s+", ex.term_of(r, Str) == tol(a["linespec"].t))]


class FindLineObj(LineContract):
    key = f"{CCP}:CiscoConfParse._find_line_OBJ"
    params = {"self": SELF, "linespec": "str", "exactmatch": "bool"}
    result = ("list", LR)
    folds = (Find, FindFull)

    def spec(self, ex, a):
        objs = objs_of(ex, a["self"])
        e = bool_of(ex, a["exactmatch"])
        return z3.If(e, FindFull(a["linespec"].t, objs), Find(a["linespec"].t, objs))

    def ensures(self, ex, a, r):
        return [("result is exactly the matching lines, in order", ex.term_of(r, LR.sort) == self.spec(ex, a))] + self.frame(ex, a)


class FindObjects(FindLineObj):
    key = f"{CCP}:CiscoConfParse.find_objects"
    params = {"self": SELF, "linespec": "str", "exactmatch": "bool", "ignore_ws": "bool"}

    def spec(self, ex, a):
        objs = objs_of(ex, a["self"])
        e = bool_of(ex, a["exactmatch"])
        ls = z3.If(bool_of(ex, a["ignore_ws"]), tol(a["linespec"].t), a["linespec"].t)
        return z3.If(e, FindFull(ls, objs), Find(ls, objs))


class FindLines(LineContract):
    key = f"{CCP}:CiscoConfParse.find_lines"
    params = {"self": SELF, "linespec": "str", "exactmatch": "bool", "ignore_ws": "bool"}
    result = ("list", LS)
    folds = (Find, FindFull, Texts, FindT, FindTFull)

    def ensures(self, ex, a, r):
        objs = objs_of(ex, a["self"])
        ls = z3.If(bool_of(ex, a["ignore_ws"]), tol(a["linespec"].t), a["linespec"].t)
        return [("result is the texts of exactly the matching lines, in order",
                 ex.term_of(r, LS.sort) == z3.If(bool_of(ex, a["exactmatch"]), Texts(FindFull(ls, objs)), Texts(Find(ls, objs))))
                ] + self.frame(ex, a)


class IosCfg(LineContract):
    key = f"{CCP}:CiscoConfParse.ioscfg"
    params = {"self": SELF}
    result = ("list", LS)
    folds = (Texts,)

    def ensures(self, ex, a, r):
        return [("ioscfg is the texts of the lines, in order", ex.term_of(r, LS.sort) == Texts(objs_of(ex, a["self"])))]


class HasLineCcp(LineContract):
    key = f"{CCP}:CiscoConfParse.has_line_with"
    params = {"self": SELF, "linespec": "str"}
    result = "bool"
    folds = (Find, Texts, FindT, AnyT, AnyM, SearchRes, SearchResR, NotNone)

    def ensures(self, ex, a, r):
        return [("true iff some line matches", bool_of(ex, r) == z3.Not(Find(a["linespec"].t, objs_of(ex, a["self"])) == LR.nil))
                ] + self.frame(ex, a)


class HasLineList(HasLineCcp):
    key = f"{CCP}:ConfigList.has_line_with"
    params = {"self": SELF_LIST, "linespec": "str"}


C05 = [RegexTol(), FindLineObj(), FindObjects(), FindLines(), IosCfg(), HasLineCcp(), HasLineList()]


def lemma_hyps():
    s1, s2 = z3.Consts("mp_ mt_", Str)
    out = [z3.ForAll([s1, s2], MATCHVAL(s1, s2) != NONEVAL, patterns=[MATCHVAL(s1, s2)])]
    for lt in (LR, LS, LV):
        out += lt.axioms()
    for F in (Find, FindFull, Texts, FindT, FindTFull, AnyT, AnyM, Matching, HasKid, SearchRes, SearchResR, NotNone, ResSet, AllHave, AddIf):
        out += F.axioms()
    return out


# ======================================================================================================= C04, C06, C07, C14
hgt = z3.Function("height", Ref, IntS)      # height of a line above its deepest descendant: exists because links are acyclic (C03)
dep = z3.Function("depth", Ref, IntS)       # number of parent steps up to the root (C03)
LINE_AT = z3.Function("line_at", IntS, Ref)     # lines of one configuration have pairwise different line numbers (C01)
LINK_ASSUMPTION = ("the links of a parsed configuration are acyclic (C03): children have a smaller height than their parent, and a line that is "
                   "not its own parent is deeper than its parent")


def sorted_axioms():
    srt = z3.Function("sorted_Ref", SetR, LR.sort)
    srtl = z3.Function("sortedl_Ref", LR.sort, LR.sort)
    return [
        z3.ForAll([S_], LR.setof(srt(S_)) == S_, patterns=[srt(S_)]),
        srt(z3.EmptySet(Ref)) == LR.nil,
        z3.ForAll([S_], srtl(srt(S_)) == srt(S_), patterns=[srt(S_)]),
    ]


def tree_axioms():
    return sorted_axioms() + [
        z3.ForAll([x], LINE_AT(num(x)) == x, patterns=[num(x)]),
        z3.ForAll([x, y], z3.Implies(LR.mem(y, kids(x)), hgt(y) < hgt(x)), patterns=[LR.mem(y, kids(x))]),
        z3.ForAll([x], hgt(x) >= 0, patterns=[hgt(x)]),
        z3.ForAll([x], z3.Implies(par(x) != x, dep(par(x)) < dep(x)), patterns=[dep(par(x))]),
        z3.ForAll([x], dep(x) >= 0, patterns=[dep(x)]),
        z3.ForAll([x], z3.Implies(x != NULL, par(x) != NULL), patterns=[par(x)]),
    ]


class TreeContract(LineContract):
    def axioms(self):
        return super().axioms() + family_axioms() + tree_axioms()


class AllChildren(TreeContract):
    key = f"{ABC}:BaseCfgLine.all_children"
    params = {"self": "ref"}
    result = ("list", LR)
    folds = (DescF,)

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def decreases(self, ex, a):
        return hgt(a["self"].t)

    def ensures(self, ex, a, r):
        return [("all_children is the descendants, in line order", ex.term_of(r, LR.sort) == sortedR(Desc(a["self"].t)))] + self.frame(ex, a)


def while_parents(ex, lp, g):
    """while-loop walking up: collected set together with the ancestors still above is the set of all ancestors"""
    if "while" not in g:
        return []
    fr = lp["frame"]
    if "me" not in lp["prelocals"] or "self" not in (ex.root_args or {}):
        return []
    out = []
    s = ex.root_args["self"].t
    for tn, loc in targets(ex, lp):
        if as_term(ex, pre_value(ex, lp, loc), SetR) is None:
            continue

        def inv(loc=loc):
            c = as_term(ex, cur_value(ex, lp, loc), SetR)
            me = fr.locals.get("me")
            if c is None or not isinstance(me, Sc):
                return z3.BoolVal(False)
            return z3.SetUnion(c, Anc(me.t)) == Anc(s)
        out.append((f"{tn} + ancestors(me) == ancestors(self)", inv))
    out.append(("me is a line", lambda: fr.locals["me"].t != NULL if isinstance(fr.locals.get("me"), Sc) else z3.BoolVal(False)))
    return out


from pyvc.contract import targets, as_term, pre_value, cur_value, DEFAULT_TEMPLATES      # noqa: E402


class AllParents(TreeContract):
    key = f"{ABC}:BaseCfgLine.all_parents"
    params = {"self": "ref"}
    result = ("list", LR)
    templates = DEFAULT_TEMPLATES + [while_parents]

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def variant(self, ex, lp):
        me = lp["frame"].locals.get("me")
        return dep(me.t) if isinstance(me, Sc) and me.t.sort() == Ref else None

    def ensures(self, ex, a, r):
        return [("all_parents is exactly the ancestors, in line order", ex.term_of(r, LR.sort) == sortedR(Anc(a["self"].t)))] + self.frame(ex, a)


class HasChildren(TreeContract):
    key = f"{ABC}:BaseCfgLine.has_children"
    params = {"self": "ref"}
    result = "bool"

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        return [("has_children iff the list of children is non-empty", bool_of(ex, r) == z3.Not(kids(a["self"].t) == LR.nil))]


class Lineage(TreeContract):
    key = f"{ABC}:BaseCfgLine.lineage"
    folds = (DescF,)
    params = {"self": "ref"}
    result = ("list", LR)

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        s = a["self"].t
        srt = ex.sorted_list_fn(Ref)
        whole = LR.cat(LR.snoc(sortedR(Anc(s)), s), sortedR(Desc(s)))
        return [("lineage is all_parents, the line and all_children, in line order", ex.term_of(r, LR.sort) == srt(whole))] + self.frame(ex, a)


class Geneology(TreeContract):
    key = f"{ABC}:BaseCfgLine.geneology"
    params = {"self": "ref"}
    result = ("list", LR)

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        s = a["self"].t
        return [("geneology is the ancestors in line order, ending in the line itself",
                 ex.term_of(r, LR.sort) == LR.snoc(sortedR(Anc(s)), s))] + self.frame(ex, a)


class IsChild(TreeContract):
    key = f"{ABC}:BaseCfgLine.is_child"
    params = {"self": "ref"}
    result = "bool"

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        return [("is_child iff the parent is another line", bool_of(ex, r) == (par(a["self"].t) != a["self"].t))]


IND = z3.Array("H0_indent", Ref, IntS)
ni = z3.Int("ni_")
Level = Fold("Level", LR, [ni], m_list(LR), lambda n, x: (z3.Select(IND, x) == n, x))        # the lines of a list indented by n


class Siblings(TreeContract):
    key = f"{ABC}:BaseCfgLine.siblings"
    params = {"self": "ref"}
    result = ("list", LR)
    folds = (Level,)

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        s = a["self"].t
        return [("siblings are the parent's children of the same indentation, in order",
                 ex.term_of(r, LR.sort) == Level(z3.Select(IND, s), kids(par(s))))] + self.frame(ex, a)


class FamilyEndpoint(TreeContract):
    key = f"{ABC}:BaseCfgLine.family_endpoint"
    params = {"self": "ref"}
    result = "int"
    folds = (DescF,)

    def axioms(self):       # theorem "C04 descendants are lines"
        return super().axioms() + [z3.ForAll([x], z3.Not(z3.Select(Desc(x), NULL)), patterns=[Desc(x)])]

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        s = a["self"].t
        d = sortedR(Desc(s))
        return [("family_endpoint is the number of the last descendant, or of the line itself",
                 ex.term_of(r, IntS) == z3.If(d == LR.nil, num(s), num(LR.last(d))))] + self.frame(ex, a)


C04 = [AllChildren(), AllParents(), HasChildren(), Lineage(), Geneology(), IsChild(), Siblings(), FamilyEndpoint()]


class ReSearchLine(TreeContract):
    key = f"{ABC}:BaseCfgLine.re_search"
    params = {"self": "ref", "regex": "str"}
    result = "str"

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        s, rx = a["self"].t, a["regex"].t
        return [("the text when the expression is found in it or contained literally, else empty",
                 ex.term_of(r, Str) == z3.If(z3.Or(RE_FOUND(rx, txt(s)), STR_IN(rx, txt(s))), txt(s), slit("")))] + self.frame(ex, a)


class ReSearchChildren(TreeContract):
    key = f"{ABC}:BaseCfgLine.re_search_children"
    params = {"self": "ref", "regex": "str", "recurse": "bool"}
    result = ("list", LR)
    folds = (Matching,)

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def ensures(self, ex, a, r):
        fam = mkfam(ex, bool_of(ex, a["recurse"]), a["self"].t)
        return [("exactly the matching children (descendants when recursing), in order",
                 ex.term_of(r, LR.sort) == Matching(a["regex"].t, fam))] + self.frame(ex, a)


def specs(ex, a):
    """the two expressions after the requested whitespace tolerance and escaping"""
    def one(v):
        t = txt(v.t) if v.ty == "ref" else v.t
        if "ignore_ws" in a:
            t = z3.If(bool_of(ex, a["ignore_ws"]), tol(t), t)
        if "escape_chars" in a:
            t = z3.If(bool_of(ex, a["escape_chars"]), RE_ESC(t), t)
        return t
    return one(a["parentspec"]), one(a["childspec"])


RE_ESC = strfn("re_escape", Str, Str)


class ParentObjects(TreeContract):
    key = f"{CCP}:CiscoConfParse.find_parent_objects"
    params = {"self": SELF, "parentspec": ("union", ["str", "ref"]), "childspec": ("union", ["str", "ref"]), "ignore_ws": "bool", "recurse": "bool",
              "escape_chars": "bool"}
    result = ("list", LR)
    folds = (ParentsD, ParentsR)
    cand = {F.name: ("childspec",) for F in (ParentsD, ParentsR)}

    def requires(self, ex, a):
        return [(f"{n} is a line", v.t != NULL) for n, v in a.items() if isinstance(v, Sc) and v.ty == "ref"]

    def spec(self, ex, a):
        ps, cs = specs(ex, a)
        rec = bool_of(ex, a["recurse"]) if "recurse" in a else z3.BoolVal(False)
        fo = Find(ps, objs_of(ex, a["self"]))
        return z3.If(rec, ParentsR(cs, fo), ParentsD(cs, fo))

    def ensures(self, ex, a, r):
        return [("exactly the matching lines that have a matching child, in order", ex.term_of(r, LR.sort) == self.spec(ex, a))] + self.frame(ex, a)


class ObjectsWChild(ParentObjects):
    key = f"{CCP}:CiscoConfParse.find_objects_w_child"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool", "recurse": "bool"}


class ParentsWChild(ParentObjects):
    key = f"{CCP}:CiscoConfParse.find_parents_w_child"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool"}
    result = ("list", LS)
    folds = (ParentsD, Texts)

    def ensures(self, ex, a, r):
        return [("exactly the texts of the matching lines that have a matching child", ex.term_of(r, LS.sort) == Texts(self.spec(ex, a)))]


class ParentObjectsWo(ParentObjects):
    key = f"{CCP}:CiscoConfParse.find_parent_objects_wo_child"
    folds = (OrphansD, OrphansR)
    cand = {F.name: ("childspec",) for F in (OrphansD, OrphansR)}

    def spec(self, ex, a):
        ps, cs = specs(ex, a)
        rec = bool_of(ex, a["recurse"]) if "recurse" in a else z3.BoolVal(False)
        fo = Find(ps, objs_of(ex, a["self"]))
        return z3.If(rec, OrphansR(cs, fo), OrphansD(cs, fo))

    def ensures(self, ex, a, r):
        return [("exactly the matching lines that have no matching child, in order", ex.term_of(r, LR.sort) == self.spec(ex, a))] + self.frame(ex, a)


class ObjectsWoChild(ParentObjectsWo):
    key = f"{CCP}:CiscoConfParse.find_objects_wo_child"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool", "recurse": "bool"}


class ParentsWoChild(ParentObjectsWo):
    key = f"{CCP}:CiscoConfParse.find_parents_wo_child"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool"}
    result = ("list", LS)
    folds = (OrphansD, Texts)

    def ensures(self, ex, a, r):
        return [("exactly the texts of the matching lines that have no matching child", ex.term_of(r, LS.sort) == Texts(self.spec(ex, a)))]


cl = z3.Const("cl", LS.sort)
kl = z3.Const("kl", LR.sort)
s_ = z3.Const("s_", Str)
# every expression of a list is matched in the lines kl
AllHave = Fold("AllHave", LS, [kl], m_all(), lambda kl, s: HasKid(s, kl))
WAllD = Fold("WithAllDirect", LR, [cl], m_list(LR), lambda cl, x: (AllHave(kids(x), cl), x))
WAllR = Fold("WithAllRecursive", LR, [cl], m_list(LR), lambda cl, x: (AllHave(sortedR(Desc(x)), cl), x))
MissD = Fold("MissingDirect", LR, [cl], m_list(LR), lambda cl, x: (z3.Not(AllHave(kids(x), cl)), x))
TolL = Fold("TolList", LS, [], m_list(LS), lambda s: (z3.BoolVal(True), tol(s)))
ResSet = Fold("ResultSet", LS, [kl], Monoid_bs := T.m_set(BoolS), lambda kl, s: z3.Store(z3.EmptySet(BoolS), HasKid(s, kl), True))
LEMMAS += [lemma("ResSet_AllHave", LS, [kl], lambda v: z3.Select(ResSet(kl, v), z3.BoolVal(False)) == z3.Not(AllHave(kl, v)),
                 lambda v: [ResSet(kl, v)])]


class WAllChildren(TreeContract):
    key = f"{CCP}:CiscoConfParse.find_objects_w_all_children"
    params = {"self": SELF, "parentspec": "str", "childspec": ("list", LS), "ignore_ws": "bool", "recurse": "bool"}
    result = ("list", LR)
    folds = (WAllD, WAllR, ResSet, TolL)

    def extra_terms(self, ex, lp):
        out = []
        for n, v in sorted(lp["prelocals"].items()):
            if isinstance(v, CellV) and n not in lp["names"]:
                c = as_term(ex, v, LS.sort)
                if c is not None:
                    out.append((n, c))
            elif isinstance(v, Sc) and v.ty == "ref" and n not in lp["names"]:
                rec = bool_of(ex, ex.root_args["recurse"]) if "recurse" in ex.root_args else z3.BoolVal(False)
                out.append((f"family({n})", z3.simplify(ex.under_pc(mkfam(ex, rec, v.t)))))
        return out

    def sp(self, ex, a):
        ws = bool_of(ex, a["ignore_ws"])
        ps = z3.If(ws, tol(a["parentspec"].t), a["parentspec"].t)
        c0 = as_term(ex, ("content", ex.cells0[a["childspec"].id]), LS.sort) if isinstance(a["childspec"], CellV) and a["childspec"].id in ex.cells0 \
            else ex.term_of(a["childspec"], LS.sort)
        return z3.If(ws, TolL(c0), c0), Find(ps, objs_of(ex, a["self"]))

    def ensures(self, ex, a, r):
        cs, fo = self.sp(ex, a)
        return [("exactly the matching lines where every expression is matched by a child",
                 ex.term_of(r, LR.sort) == z3.If(bool_of(ex, a["recurse"]), WAllR(cs, fo), WAllD(cs, fo)))] + self.frame(ex, a)


class WMissing(WAllChildren):
    key = f"{CCP}:CiscoConfParse.find_objects_w_missing_children"
    params = {"self": SELF, "parentspec": "str", "childspec": ("list", LS), "ignore_ws": "bool"}
    folds = (MissD, ResSet, TolL)

    def ensures(self, ex, a, r):
        cs, fo = self.sp(ex, a)
        return [("exactly the matching lines where some expression is matched by no child",
                 ex.term_of(r, LR.sort) == MissD(cs, fo))] + self.frame(ex, a)


C06 = [RegexTol(), FindLineObj(), FindObjects(), AllChildren(), HasChildren(), ReSearchLine(), ReSearchChildren(), ParentObjects(), ObjectsWChild(),
       ParentsWChild(), ParentObjectsWo(), ObjectsWoChild(), ParentsWoChild(), WAllChildren(), WMissing()]

# --- C07 -----------------------------------------------------------------------------------------------------------------
FoundSet = Fold("FoundSet", LR, [p], m_set(Ref), lambda p, x: z3.If(M(p, x), z3.Store(z3.EmptySet(Ref), x, True), z3.EmptySet(Ref)))
KidSetD = Fold("KidSetDirect", LR, [p], m_set(Ref), lambda p, x: FoundSet(p, kids(x)))
KidSetR = Fold("KidSetRecursive", LR, [p], m_set(Ref), lambda p, x: FoundSet(p, sortedR(Desc(x))))
AddIf = Fold("AddIf", LR, [p, y], m_set(Ref), lambda p, y, x: z3.If(M(p, x), z3.Store(z3.EmptySet(Ref), y, True), z3.EmptySet(Ref)))
UnderAnc = Fold("UnderAncestor", LR, [p], m_set(Ref),
                lambda p, x: z3.If(AnyM(p, sortedR(Anc(x))), z3.Store(z3.EmptySet(Ref), x, True), z3.EmptySet(Ref)))
LEMMAS += [lemma("AddIf_AnyM", LR, [p, y], lambda v: AddIf(p, y, v) == z3.If(AnyM(p, v), z3.Store(z3.EmptySet(Ref), y, True), z3.EmptySet(Ref)),
                 lambda v: [AddIf(p, y, v)])]


class ChildObjects(ParentObjects):
    key = f"{CCP}:CiscoConfParse.find_child_objects"
    folds = (KidSetD, KidSetR, FoundSet)
    cand = {F.name: ("childspec",) for F in (KidSetD, KidSetR, FoundSet)}

    def spec(self, ex, a):
        ps, cs = specs(ex, a)
        rec = bool_of(ex, a["recurse"]) if "recurse" in a else z3.BoolVal(False)
        fo = Find(ps, objs_of(ex, a["self"]))
        return z3.If(rec, sortedR(KidSetR(cs, fo)), sortedR(KidSetD(cs, fo)))

    def ensures(self, ex, a, r):
        return [("exactly the matching lines below a matching parent, each once, in line order", ex.term_of(r, LR.sort) == self.spec(ex, a))
                ] + self.frame(ex, a)


class ObjectsWParents(ChildObjects):
    key = f"{CCP}:CiscoConfParse.find_objects_w_parents"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool"}


class ChildrenWParents(ParentObjects):
    key = f"{CCP}:CiscoConfParse.find_children_w_parents"
    params = {"self": SELF, "parentspec": "str", "childspec": "str", "ignore_ws": "bool"}
    result = ("list", LS)
    folds = (UnderAnc, AddIf, AnyM, Texts)
    cand = {"UnderAncestor": ("parentspec",), "AddIf": ("parentspec", "child"), "AnyM": ("parentspec",)}

    def ensures(self, ex, a, r):
        ps, cs = specs(ex, a)
        return [("the texts of exactly the matching lines below a matching ancestor, each once, in line order",
                 ex.term_of(r, LS.sort) == Texts(sortedR(UnderAnc(ps, Find(cs, objs_of(ex, a["self"]))))))] + self.frame(ex, a)


C07 = [RegexTol(), FindLineObj(), FindObjects(), AllChildren(), AllParents(), HasChildren(), ChildObjects(), ObjectsWParents(), ChildrenWParents()]

# --- C14 -----------------------------------------------------------------------------------------------------------------
from pyvc.engine import HASH      # noqa: E402


class RelContract(LineContract):
    """contracts about comparisons use no uniqueness of line numbers: any two line objects"""
    def requires(self, ex, a):
        return [(f"{n} is a line", v.t != NULL) for n, v in a.items() if isinstance(v, Sc) and v.ty == "ref"]


def same(s, v):
    return z3.And(num(s) == num(v), txt(s) == txt(v))


class LineEq(RelContract):
    key = f"{ABC}:BaseCfgLine.__eq__"
    params = {"self": "ref", "val": "ref"}
    result = "bool"

    def ensures(self, ex, a, r):
        return [("equal iff same text and same line number", bool_of(ex, r) == same(a["self"].t, a["val"].t))] + self.frame(ex, a)


class LineEqOther(RelContract):
    key = f"{ABC}:BaseCfgLine.__eq__"
    label = "compared with a string, a number or None"
    params = {"self": "ref", "val": ("union", ["str", "int", "none"])}
    result = "bool"

    def ensures(self, ex, a, r):
        return [("never equal to something that is not a line", z3.Not(bool_of(ex, r)))]


class LineHash(RelContract):
    key = f"{ABC}:BaseCfgLine.__hash__"
    params = {"self": "ref", "other": "ref"}
    result = "int"
    ghost = ("other",)

    def ensures(self, ex, a, r):
        o = a["other"]
        h2 = ex.call_func(ex.src.get(self.key), [o], {}, top=True)
        return [("equal lines have equal hashes", z3.Implies(same(a["self"].t, o.t), ex.term_of(r, IntS) == ex.term_of(h2, IntS)))] + self.frame(ex, a)


class LineLt(RelContract):
    key = f"{ABC}:BaseCfgLine.__lt__"
    params = {"self": "ref", "val": "ref"}
    result = "bool"

    def ensures(self, ex, a, r):
        return [("less iff the line number is less", bool_of(ex, r) == (num(a["self"].t) < num(a["val"].t)))] + self.frame(ex, a)


class LineGt(RelContract):
    key = f"{ABC}:BaseCfgLine.__gt__"
    params = {"self": "ref", "val": "ref"}
    result = "bool"

    def ensures(self, ex, a, r):
        return [("greater iff the line number is greater", bool_of(ex, r) == (num(a["self"].t) > num(a["val"].t)))] + self.frame(ex, a)


C14 = [LineEq(), LineEqOther(), LineHash(), LineLt(), LineGt()]


def c14_theorems():
    a, b, c = z3.Consts("a b c", Ref)
    eq, lt, gt = (z3.Function(n, Ref, Ref, BoolS) for n in ("line_eq", "line_lt", "line_gt"))
    hyps = [z3.ForAll([a, b], eq(a, b) == same(a, b), patterns=[eq(a, b)]), z3.ForAll([a, b], lt(a, b) == (num(a) < num(b)), patterns=[lt(a, b)]),
            z3.ForAll([a, b], gt(a, b) == (num(a) > num(b)), patterns=[gt(a, b)])]
    T_ = [("== is reflexive", eq(a, a)), ("== is symmetric", z3.Implies(eq(a, b), eq(b, a))),
          ("== is transitive", z3.Implies(z3.And(eq(a, b), eq(b, c)), eq(a, c))),
          ("< is irreflexive", z3.Not(lt(a, a))), ("< is transitive", z3.Implies(z3.And(lt(a, b), lt(b, c)), lt(a, c))),
          ("> is the converse of <", gt(a, b) == lt(b, a)), ("< excludes ==", z3.Implies(lt(a, b), z3.Not(eq(a, b)))),
          ("< is total on different line numbers", z3.Implies(num(a) != num(b), z3.Or(lt(a, b), lt(b, a))))]
    return [("C14 " + n, hyps, g) for n, g in T_]


# --- C21 -----------------------------------------------------------------------------------------------------------------
CONV = z3.Function("result_type", Val, Val)               # the caller's result_type, any function
g_ = z3.Const("g_", IntS)
m_first = T.Monoid("first", Ref, NULL, lambda a, b: z3.If(a != NULL, a, b))
FirstLine = Fold("FirstMatching", LR, [p], m_first, lambda p, x: z3.If(M(p, x), x, NULL))
ParentLess = Fold("FirstMatchingRoot", LR, [p], m_first, lambda p, x: z3.If(z3.And(M(p, x), par(x) == x), x, NULL))
PSTR = z3.Function("pack_str", Str, Val)
PNONE = z3.Const("pack_none", Val)


def gval(pat, t, grp):
    return z3.If(RE_GROUP_NONE(pat, t, grp), PNONE, PSTR(RE_GROUP(pat, t, grp)))


from pyvc.engine import ExtV      # noqa: E402


def mk_conv(ex, name):
    return ExtV("result_type")


def m_conv(ex, args, kw):
    v = args[0]
    t = v.t if isinstance(v, Sc) and v.ty == "val" else ex.pack(v)
    return Sc("val", CONV(t))


MODELS21 = {"result_type": m_conv}


def unit_template(ex, lp, g):
    """for folds other than and/or:  F(params, P) is the unit (nothing found so far)"""
    if "P" not in g:
        return []
    from pyvc.contract import visible_terms
    import itertools
    out = []
    vis = visible_terms(ex, lp)
    for F in ex.folds:
        if F.lt is not g["lt"] or F.monoid.name != "first":
            continue
        doms = [[(n, t) for n, t in vis if t.sort() == pp.sort()] for pp in F.params]
        for combo in itertools.product(*doms):
            out.append((f"{F.name}({','.join(n for n, _ in combo)}) nothing yet",
                        lambda F=F, ps=[t for _, t in combo]: F(*ps, g["P"]) == F.monoid.unit))
    return out


def as_val(ex, v):
    return v.t if isinstance(v, Sc) and v.ty == "val" else ex.pack(v)


class ReMatchTyped(TreeContract):
    key = f"{ABC}:BaseCfgLine.re_match_typed"
    params = {"self": "ref", "regex": "str", "group": "int", "untyped_default": "bool", "result_type": ("make", mk_conv), "default": "val"}
    result = "val"

    def requires(self, ex, a):
        return [("self is a line", a["self"].t != NULL)]

    def dflt(self, ex, a):
        return z3.If(bool_of(ex, a["untyped_default"]), a["default"].t, CONV(a["default"].t))

    def ensures(self, ex, a, r):
        t, rx, g = txt(a["self"].t), a["regex"].t, a["group"].t
        hit = z3.And(RE_FOUND(rx, t), z3.Not(RE_GROUP_NONE(rx, t, g)))
        return [("the converted group when it takes part in a match, else the default",
                 as_val(ex, r) == z3.If(hit, CONV(gval(rx, t, g)), self.dflt(ex, a)))] + self.frame(ex, a)


class ReMatch(TreeContract):
    key = f"{ABC}:BaseCfgLine.re_match"
    params = {"self": "ref", "regex": "str", "group": "int", "default": "val"}
    result = "val"
    requires = ReMatchTyped.requires

    def ensures(self, ex, a, r):
        t, rx, g = txt(a["self"].t), a["regex"].t, a["group"].t
        rv = a["default"].t if r is a["default"] else as_val(ex, r)
        return [("the group when the expression is found, else the default", rv == z3.If(RE_FOUND(rx, t), gval(rx, t, g), a["default"].t))
                ] + self.frame(ex, a)


class ReMatchIterLine(ReMatchTyped):
    key = f"{ABC}:BaseCfgLine.re_match_iter_typed"
    params = {"self": "ref", "regex": "str", "group": "int", "result_type": ("make", mk_conv), "default": "val", "untyped_default": "bool",
              "recurse": "bool"}
    folds = (FirstLine,)
    templates = DEFAULT_TEMPLATES + [unit_template]

    def ensures(self, ex, a, r):
        s, rx, g = a["self"].t, a["regex"].t, a["group"].t
        f = FirstLine(rx, mkfam(ex, bool_of(ex, a["recurse"]), s))
        return [("the converted group of the first match among the line and its children (descendants), else the default",
                 as_val(ex, r) == z3.If(M(rx, s), CONV(gval(rx, txt(s), g)),
                                        z3.If(f != NULL, CONV(gval(rx, txt(f), g)), self.dflt(ex, a))))] + self.frame(ex, a)


class ReMatchIterCfg(ReMatchTyped):
    key = f"{CCP}:CiscoConfParse.re_match_iter_typed"
    params = {"self": SELF, "regexspec": "str", "group": "int", "result_type": ("make", mk_conv), "default": "val", "untyped_default": "bool"}
    folds = (ParentLess,)
    templates = DEFAULT_TEMPLATES + [unit_template]

    def requires(self, ex, a):
        return []

    def ensures(self, ex, a, r):
        rx, g = a["regexspec"].t, a["group"].t
        f = ParentLess(rx, objs_of(ex, a["self"]))
        return [("the converted group of the first matching line without a parent, else the default",
                 as_val(ex, r) == z3.If(f != NULL, CONV(gval(rx, txt(f), g)), self.dflt(ex, a)))] + self.frame(ex, a)


C21 = [AllChildren(), HasChildren(), ReMatch(), ReMatchTyped(), ReMatchIterLine(), ReMatchIterCfg()]

# --- C08 -----------------------------------------------------------------------------------------------------------------
from pyvc.engine import RE_FLAGGED      # noqa: E402
LLR = T.list_of(LR.sort)
fl = z3.Const("fl", IntS)
ob_ = z3.Const("ob_", LR.sort)
Seg = Fold("FindFlags", LR, [p, fl], m_list(LR), lambda p, fl, x: (RE_FOUND(RE_FLAGGED(p, fl), txt(x)), x))
AppEach = Fold("AppendEach", LR, [ob_], m_list(LLR), lambda b, x: (z3.BoolVal(True), LR.snoc(b, x)))
Single = Fold("SingleEach", LR, [], m_list(LLR), lambda x: (z3.BoolVal(True), LR.snoc(LR.nil, x)))


def segn(s, f, lst):
    return z3.If(Seg(s, f, lst) == LR.nil, LR.snoc(LR.nil, NULL), Seg(s, f, lst))


ExtBr = Fold("ExtendBranches", LLR, [p, fl], m_list(LLR),
             lambda p, fl, b: z3.If(LR.last(b) != NULL, AppEach(b, segn(p, fl, kids(LR.last(b)))), LLR.snoc(LLR.nil, LR.snoc(b, NULL))))


class LeftFold(Fold):
    """Branches(flags, objs, nil) = nil; (.., [s]) = the matching lines as one-element chains; (.., l + [s]) = extensions of Branches(.., l)"""
    def step(self, acc, params, x):
        raise NotImplementedError

    def defs(self):
        l = z3.Const("l!", LS.sort)
        s = z3.Const("x!", Str)
        F = self.f
        return [z3.ForAll([fl, ob_], F(fl, ob_, LS.nil) == LLR.nil, patterns=[F(fl, ob_, LS.nil)]),
                z3.ForAll([fl, ob_, l, s], F(fl, ob_, LS.snoc(l, s)) == z3.If(l == LS.nil, Single(segn(s, fl, ob_)), ExtBr(s, fl, F(fl, ob_, l))),
                          patterns=[F(fl, ob_, LS.snoc(l, s))])]


Branches = LeftFold("Branches", LS, [fl, ob_], m_list(LLR), None, homo=False)


NonEmpty = Fold("AllNonEmpty", LLR, [], m_all(), lambda b: b != LR.nil)
LEM08 = [
    lemma("AppendEach_ne", LR, [ob_], lambda v: NonEmpty(AppEach(ob_, v)), lambda v: [AppEach(ob_, v)]),
    lemma("SingleEach_ne", LR, [], lambda v: NonEmpty(Single(v)), lambda v: [Single(v)]),
    lemma("ExtendBranches_ne", LLR, [p, fl], lambda v: NonEmpty(ExtBr(p, fl, v)), lambda v: [ExtBr(p, fl, v)], use=["AppendEach_ne"]),
    lemma("Branches_ne", LS, [fl, ob_], lambda v: NonEmpty(Branches(fl, ob_, v)), lambda v: [Branches(fl, ob_, v)],
          use=["SingleEach_ne", "ExtendBranches_ne"]),
]


def lem08_hyps():
    out = []
    for lt in (LR, LS, LLR):
        out += lt.axioms()
    for F in (Seg, AppEach, Single, ExtBr, Branches, NonEmpty):
        out += F.axioms()
    return out


def no_null(lst):
    return z3.Not(LR.mem(NULL, lst))


def hook_inner(ex, v):
    return True


HOOKSC08 = {"nullable_lists": True, "inner_lists": True}


class ObjectBranches(TreeContract):
    key = f"{CCP}:CiscoConfParse.find_object_branches"
    params = {"self": SELF, "branchspec": ("tuplelist", LS), "regex_flags": "int"}
    result = ("list", LLR)
    folds = (Branches, ExtBr, AppEach, Single, Seg, NonEmpty)

    def axioms(self):
        return super().axioms() + [z3.ForAll([x], no_null(kids(x)), patterns=[kids(x)])] + [lm.formula() for lm in LEM08]

    def requires(self, ex, a):
        return [("lines are objects", no_null(objs_of(ex, a["self"]))), ("branchspec is not empty", ex.term_of(a["branchspec"]) != LS.nil)]

    def extra_terms(self, ex, lp):
        out = [("objs", objs_of(ex, ex.root_args["self"]))]
        for n, v in sorted(lp["prelocals"].items()):
            if n not in lp["names"] and isinstance(v, CellV):
                c = as_term(ex, v, LR.sort)
                if c is not None:
                    out.append((n, c))
        return out

    def ensures(self, ex, a, r):
        spec = Branches(a["regex_flags"].t, objs_of(ex, a["self"]), ex.term_of(a["branchspec"]))
        return [("exactly the chains, completed with None, in configuration order", ex.term_of(r, LLR.sort) == spec)] + self.frame(ex, a)


C08 = [ObjectBranches()]

# --- C04: the two closures are the same relation (well-founded induction over height and depth) ---------------------------
_c, _z = z3.Consts("c_ z_", Ref)
LEM04 = [
    lemma("DescF_elim", LR, [y], lambda v: z3.Implies(z3.Select(DescF(v), y), z3.Exists([_c], z3.And(LR.mem(_c, v), z3.Or(y == _c, z3.Select(Desc(_c), y))))),
          lambda v: [z3.Select(DescF(v), y)]),
    lemma("DescF_intro", LR, [y, _c], lambda v: z3.Implies(z3.And(LR.mem(_c, v), z3.Or(y == _c, z3.Select(Desc(_c), y))), z3.Select(DescF(v), y)),
          lambda v: [LR.mem(_c, v), z3.Select(DescF(v), y)]),
]


def lem04_hyps():
    return LR.axioms() + DescF.axioms() + family_axioms()


def c04_theorems():
    link = [z3.ForAll([x, y], LR.mem(y, kids(x)) == z3.And(par(y) == x, x != y), patterns=[LR.mem(y, kids(x))])]
    X, Y, C = z3.Consts("X Y C", Ref)
    touch = z3.Function("touch", BoolS, BoolS)                # makes a term available to the instantiation patterns

    def anc(t):
        return Anc(t) == z3.If(par(t) == t, z3.EmptySet(Ref), z3.Store(Anc(par(t)), par(t), True))
    base = (LR.axioms() + DescF.axioms() + family_axioms()[:1] + tree_axioms() + link + [lm.formula() for lm in LEM04]
            + [anc(Y), anc(par(Y))])

    def D(a, b):
        return z3.Select(Desc(a), b)

    def A(a, b):
        return z3.Select(Anc(b), a)
    # T1: the children of a descendant are descendants;  T2: the parent of an ancestor is an ancestor
    def t1(a, b, c):
        return z3.Implies(z3.And(D(a, b), par(c) == b, c != b), D(a, c))

    def t2(b, c):
        return z3.Implies(z3.And(A(c, b), par(c) != c), A(par(c), b))

    def t3(a, b):
        return z3.Implies(D(a, b), A(a, b))

    def t4(a, b):
        return z3.Implies(A(a, b), D(a, b))
    out = []
    q1 = z3.ForAll([x, y, _c], t1(x, y, _c), patterns=[z3.MultiPattern(D(x, y), par(_c))])
    q2 = z3.ForAll([y, _c], t2(y, _c), patterns=[A(_c, y)])
    ih1 = z3.ForAll([x, y, _c], z3.Implies(hgt(x) < hgt(X), t1(x, y, _c)), patterns=[z3.MultiPattern(D(x, y), par(_c))])
    ih2 = z3.ForAll([y, _c], z3.Implies(dep(y) < dep(Y), t2(y, _c)), patterns=[A(_c, y)])
    ih3 = z3.ForAll([x, y], z3.Implies(hgt(x) < hgt(X), t3(x, y)), patterns=[D(x, y)])
    ih4 = z3.ForAll([x, y], z3.Implies(dep(y) < dep(Y), t4(x, y)), patterns=[A(x, y)])
    nonull = z3.ForAll([x], z3.Not(LR.mem(NULL, kids(x))), patterns=[kids(x)])
    ihn = z3.ForAll([x], z3.Implies(hgt(x) < hgt(X), z3.Not(D(x, NULL))), patterns=[D(x, NULL)])
    out.append(("C04 descendants are lines", base + [nonull, ihn], z3.Not(D(X, NULL))))
    out.append(("C04 children of descendants are descendants", base + [ih1, touch(LR.mem(C, kids(Y))), touch(D(Y, C))], t1(X, Y, C)))
    out.append(("C04 parents of ancestors are ancestors", base + [ih2], t2(Y, C)))
    out.append(("C04 every descendant has the line among its ancestors", base + [q1, q2, ih3], t3(X, Y)))
    out.append(("C04 every line with this ancestor is its descendant", base + [q1, q2, ih4, touch(LR.mem(Y, kids(X))), touch(D(X, Y))], t4(X, Y)))
    return out


def c06_theorems():
    """with-child and without-child split the matching lines: by induction over the list"""
    out = []
    hy = LR.axioms()
    for W, O, nm in ((ParentsD, OrphansD, "direct"), (ParentsR, OrphansR, "recursive")):
        hy2 = hy + W.axioms() + O.axioms()
        lm1 = lemma(f"C06 partition {nm}: every line on one side", LR, [q, y],
                    lambda v: LR.mem(y, v) == z3.Or(LR.mem(y, W(q, v)), LR.mem(y, O(q, v))), lambda v: [W(q, v)])
        lm2 = lemma(f"C06 partition {nm}: sizes add up", LR, [q], lambda v: LR.len(v) == LR.len(W(q, v)) + LR.len(O(q, v)), lambda v: [W(q, v)])
        for lm in (lm1, lm2):
            out += [(n, h, g) for n, h, g in lm.obligations(hy2)]
    return out
