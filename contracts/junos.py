"""Contracts of the brace conversion (C13)."""
import z3
from pyvc import theory as T
from pyvc import shapes as SH
from pyvc import strlang as SL
from pyvc.theory import Str, IntS, BoolS, slit
from pyvc.engine import Sc, S, CellV, NONE, MatchV, strfn
from pyvc.contract import Contract, DEFAULT_TEMPLATES, targets, cur_value, as_term
from .lines import LS

MOD = "ciscoconfparse.ciscoconfparse"
FA, I_ = z3.ForAll, z3.Implies
l = z3.Const("l", LS.sort)
s = z3.Const("s", Str)
w, n = z3.Ints("w n")
STRIP = strfn("strip", Str, Str)
REPEAT = strfn("repeat", Str, IntS, Str)
KIND = z3.Function("brace_line_kind", Str, IntS)               # of a line without blanks around
TEXT = z3.Function("statement_of", Str, Str)                   # its statement (or comment)
OPEN_, CLOSE, STMT, COMMENT, BLANK = range(5)
DEPTH = z3.Function("blocks_open_after", LS.sort, IntS)
CONV = z3.Function("brace_converted", IntS, LS.sort, LS.sort)      # THE SPECIFICATION
STATEMENT = r"[^{}\s;#](?:[^{}\n]*[^{}\s;])?"


def delta(t):
    return z3.If(KIND(t) == OPEN_, 1, z3.If(KIND(t) == CLOSE, -1, 0))


def own(t):
    return z3.If(KIND(t) == CLOSE, -1, 0)


def defs():
    t = STRIP(s)
    out = LS.snoc(CONV(w, l), T.sconcat(REPEAT(slit(" "), w * (DEPTH(l) + own(t))), TEXT(t)))
    return [FA([w], CONV(w, LS.nil) == LS.nil, patterns=[CONV(w, LS.nil)]), DEPTH(LS.nil) == 0,
            FA([l, s], DEPTH(LS.snoc(l, s)) == DEPTH(l) + delta(t), patterns=[DEPTH(LS.snoc(l, s))]),
            FA([w, l, s], CONV(w, LS.snoc(l, s)) == out, patterns=[CONV(w, LS.snoc(l, s))]),
            FA([s], I_(z3.Or(KIND(s) == CLOSE, KIND(s) == BLANK), TEXT(s) == slit("")), patterns=[TEXT(s)]),
            FA([s], STRIP(STRIP(s)) == STRIP(s), patterns=[STRIP(STRIP(s))]),
            FA([s, w, n], I_(w >= 0, REPEAT(REPEAT(s, w), n) == REPEAT(s, w * n)), patterns=[REPEAT(REPEAT(s, w), n)])]


def wf(t):
    return z3.And(0 <= KIND(t), KIND(t) <= BLANK)


def shape(ex, t):
    """the line, by kind"""
    u = STRIP(t)
    ex.__dict__.setdefault("aliases", {}).pop(t.get_id(), None)
    b = [ex.fresh(Str, f"blank{i}") for i in range(4)]
    ps = None
    for k in (OPEN_, CLOSE, STMT, COMMENT, BLANK):
        if not ex.choose(KIND(u) == k):
            continue
        if k == OPEN_:
            ps = [TEXT(u), b[1], slit("{")]
        elif k == CLOSE:
            ps = [slit("}")] + ([b[1], slit(";")] if ex.choose(ex.fresh(z3.BoolSort(), "semicolon")) else [])
        elif k == STMT:
            ps = [TEXT(u)] + ([b[1], slit(";")] if ex.choose(ex.fresh(z3.BoolSort(), "semicolon")) else [])
        elif k == COMMENT:
            h, m = ex.fresh(Str, "marks"), ex.fresh(Str, "comment")
            SH.atom(ex, h, "#+")
            SH.atom(ex, m, r"[^#\s]|[^#\n][^\n]*[^\s]")
            ps = [h] + ([m] if ex.choose(ex.fresh(z3.BoolSort(), "more")) else [])
            ex.assume(TEXT(u) == ex.concat(ps))
        else:
            ps = []
        break
    for q in (b[0], b[1], b[2]):
        SH.atom(ex, q, r"[ \t]*")
    if k in (OPEN_, STMT):
        SH.atom(ex, TEXT(u), STATEMENT)
    ex.assume(u == (ex.concat(ps) if ps else slit("")))
    SH.alias(ex, t, ex.concat([b[0]] + ps + [b[2]]))


def a_line(ex, name):
    t = ex.fresh(Str, name)
    ex.assume(wf(STRIP(t)))
    shape(ex, t)
    return Sc("str", t)


def stripped(ex, r):
    if ex.is_conc(r):
        return slit(ex.pyval(r).strip())
    q = SH.h_str_method(ex, r, "strip", [])
    return q.t if q is not None else STRIP(r.t)


class Line(Contract):
    literal_texts = True
    key = f"{MOD}:parse_line_braces"
    params = {"line_txt": ("make", a_line), "comment_delimiter": ("const", "#")}
    result = ("tuple", ["int", "int", "str"])

    def axioms(self):
        return defs()

    def requires(self, ex, a):
        r = [("the line has one statement, one brace or a comment", wf(STRIP(a["line_txt"].t)))]
        if ex.root is not self:
            d = a["comment_delimiter"]
            r.append(("comments begin with #", d.t == slit("#")))
        return r

    def ensures(self, ex, a, r):
        t = STRIP(a["line_txt"].t)
        x = ex.concrete_items(r)
        if x is None or len(x) != 3 or not all(isinstance(v, Sc) for v in x) or [v.ty for v in x] != ["int", "int", "str"]:
            return [("an indent, a child indent and a text", z3.BoolVal(False))]
        return [("a closing brace stands one block further out", x[0].t == own(t)), ("blocks opened less blocks closed", x[1].t == delta(t)),
                ("the statement without braces and terminator", (STRIP(x[2].t) if ex.root is not self else stripped(ex, x[2])) == TEXT(t))]


def template(ex, lp, g):
    if g.get("lt") is not LS or not isinstance(ex.root, Convert):
        return []
    W = ex.root_args["stop_width"].t
    out = []
    for nme, v in sorted(lp["prelocals"].items()):
        if isinstance(v, Sc) and v.ty == "int":
            def depth(nme=nme):
                r = lp["frame"].locals.get(nme)
                return r.t == DEPTH(g["P"]) if isinstance(r, Sc) and r.ty == "int" else z3.BoolVal(False)
            out.append((f"{nme} is the number of blocks open", depth))
    for nme, loc in targets(ex, lp):
        def conv(loc=loc):
            c = as_term(ex, cur_value(ex, lp, loc), LS.sort)
            return z3.BoolVal(False) if c is None else c == CONV(W, g["P"])
        out.append((f"{nme} is the conversion so far", conv))
    return out


class Convert(Contract):
    key = f"{MOD}:convert_junos_to_ios"
    params = {"input_list": ("list", LS), "stop_width": "int", "comment_delimiter": ("const", "#"), "debug": "int"}
    result = ("list", LS)
    templates = [template] + list(DEFAULT_TEMPLATES)

    def axioms(self):
        return defs()

    def lines(self, ex, a):
        return ex.content(a["input_list"])[2]

    def requires(self, ex, a):
        L = self.lines(ex, a)
        return [("a line or more", LS.len(L) > 0), ("stop width", a["stop_width"].t >= 0),
                ("every line has one statement, one brace or a comment", FA([s], I_(LS.mem(s, L), wf(STRIP(s))), patterns=[LS.mem(s, L)]))]

    def ensures(self, ex, a, r):
        c = ex.content(r)
        if c[0] == "clist":
            c = ("list", LS, ex.clist_term(c[1], LS))
        return [("the statements in order, indented by the blocks open around them", c[2] == CONV(a["stop_width"].t, self.lines(ex, a)))]


class Handle(Contract):
    key = f"{MOD}:CiscoConfParse.handle_ccp_brace_syntax"
    result = ("list", LS)

    def __init__(self, syntax):
        self.label = f"syntax={syntax}"
        self.syntax = syntax
        self.params = {"self": ("make", lambda ex, name: ex.new_rec(ex.src.module(MOD).classes["CiscoConfParse"], {})), "tmp_lines": ("list", LS),
                       "syntax": ("const", syntax)}

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        return defs()

    def requires(self, ex, a):
        L = ex.content(a["tmp_lines"])[2]
        return [("a line or more", LS.len(L) > 0),
                ("every line has one statement, one brace or a comment", FA([s], I_(LS.mem(s, L), wf(STRIP(s))), patterns=[LS.mem(s, L)]))]

    def ensures(self, ex, a, r):
        L = ex.content(a["tmp_lines"])[2]
        c = ex.content(r)
        return [("brace syntax is converted with a stop width of 4, any other is left alone",
                 (c[2] if c[0] == "list" else ex.clist_term(c[1], LS)) == (CONV(z3.IntVal(4), L) if self.syntax == "junos" else L))]


# ------------------------------------------------------------------------------- every statement below the block it is in
LI = T.list_of(IntS)
OPENERS = z3.Function("open_blocks", LS.sort, LI.sort)                 # positions of the lines that opened the blocks open after l
BALANCED = z3.Function("no_stray_close", LS.sort, BoolS)
ABOVE = z3.Function("nearest_less_indented", LS.sort, IntS, IntS)      # C02's parent rule on the converted lines: position, or -1
WIDTH = 4


def block_defs():
    t = STRIP(s)
    k = KIND(t)
    st = OPENERS(l)
    return [OPENERS(LS.nil) == LI.nil, BALANCED(LS.nil), FA([n], ABOVE(LS.nil, n) == -1, patterns=[ABOVE(LS.nil, n)]),
            FA([l, s], OPENERS(LS.snoc(l, s)) == z3.If(k == OPEN_, LI.snoc(st, LS.len(l)), z3.If(k == CLOSE, LI.sort.accessor(1, 0)(st), st)),
               patterns=[OPENERS(LS.snoc(l, s))]),
            FA([l, s], BALANCED(LS.snoc(l, s)) == z3.And(BALANCED(l), I_(k == CLOSE, DEPTH(l) > 0)), patterns=[BALANCED(LS.snoc(l, s))]),
            FA([l, s, n], ABOVE(LS.snoc(l, s), n) == z3.If(z3.And(z3.Or(k == OPEN_, k == STMT), WIDTH * DEPTH(l) < n), LS.len(l), ABOVE(l, n)),
               patterns=[ABOVE(LS.snoc(l, s), n)])]


def block_hyps():
    return LS.axioms() + LI.axioms() + defs()[:3] + block_defs()


kk = z3.Int("kk")
C13_LEMMAS = [
    T.Lemma("open blocks are counted by the depth", LS.sort, LS, [], lambda v: I_(BALANCED(v), z3.And(LI.len(OPENERS(v)) == DEPTH(v), DEPTH(v) >= 0)), lambda v: [BALANCED(v)]),
    T.Lemma("the nearest line with less indent opened the block", LS.sort, LS, [kk],
            lambda v: I_(z3.And(BALANCED(v), 0 <= kk, kk < DEPTH(v)), ABOVE(v, WIDTH * (kk + 1)) == LI.nth(OPENERS(v), kk)),
            lambda v: [LI.nth(OPENERS(v), kk)], use=["open blocks are counted by the depth"]),
    T.Lemma("no line is indented less than a root", LS.sort, LS, [], lambda v: I_(BALANCED(v), ABOVE(v, z3.IntVal(0)) == -1), lambda v: [ABOVE(v, z3.IntVal(0))],
            use=["open blocks are counted by the depth"])]


def c13_theorems():
    v = z3.Const("v", LS.sort)
    hy = block_hyps() + [x.formula() for x in C13_LEMMAS]
    st = OPENERS(v)
    return [("a statement inside a block hangs below the line that opened it", hy + [BALANCED(v), DEPTH(v) > 0],
             ABOVE(v, WIDTH * DEPTH(v)) == LI.nth(st, LI.len(st) - 1)),
            ("a statement outside every block is a root", hy + [BALANCED(v), DEPTH(v) == 0], ABOVE(v, WIDTH * DEPTH(v)) == -1)]


C13 = [Convert(), Line()] + [Handle(x) for x in ("junos", "ios", "nxos", "asa", "iosxr")]
TRUSTED = SH.TRUSTED + ["str.strip is idempotent; ' ' * w * n is ' ' * (w * n) for w >= 0"]
HOOKS = dict(SH.HOOKS)
MODELS = {}
