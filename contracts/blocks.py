"""Contracts of the two block passes (C26): exactly the lines of a banner / macro block are taken over by its header."""
import z3
from pyvc import theory as T
from pyvc.theory import Ref, Str, IntS, BoolS, Fold, m_list, m_all, slit, Lemma
from pyvc.engine import RE_FOUND, RE_GROUP, NULL, Sc, strfn, STR_IN, CellV
from pyvc.contract import DEFAULT_TEMPLATES, as_term
from . import parse as PA
from .parse import CCP, ABC, LR, LS, LI, H, txt, x, y, z, k, j, l, m, s, t, p, N, FA, I_, ArrR, ArrI, STRIP, RSTRIP, NumOK, Before, Take, Nodup, MatchT, old_arrays, now, bool_of, RS, BraceLineT, Texts, par_rule

P0 = z3.Const("P0", ArrR)
i_ = z3.Int("i_")
BRACE_SYNTAX = ("junos",)
SLICE = strfn("slice", Str, IntS, IntS, Str)


class Machine:
    """reading the lines in order: which header's block is open.  A header opens a block when none is open and the line is its own parent; a closing line
    of the open block ends it (the closing line itself belongs to the block)"""

    def __init__(self, name, lt, key, pos, live, closes):
        self.name, self.lt, self.key, self.pos, self.live, self.closes = name, lt, key, pos, live, closes
        self.F = z3.Function(f"open_{name}", ArrI, ArrR, lt.sort, LR.sort, Ref)
        self.below = z3.Function(f"all_before_{name}", ArrI, IntS, lt.sort, BoolS)
        self.asc = z3.Function(f"in_order_{name}", ArrI, lt.sort, BoolS)
        self.q = z3.Const(f"q_{name}", lt.sort)
        self.e = z3.Const(f"e_{name}", lt.elem)

    def hdr(self, N, P0, q, x):
        return z3.And(self.lt.mem(self.key(N, x), q), P0[x] == x, self.live(x))

    def defs(self):
        F, q, e, lt = self.F, self.q, self.e, self.lt
        return [FA([N, P0, q], F(N, P0, q, LR.nil) == NULL, patterns=[F(N, P0, q, LR.nil)]),
                FA([N, P0, q, l, x], F(N, P0, q, LR.snoc(l, x)) == z3.If(F(N, P0, q, l) != NULL, z3.If(self.closes(F(N, P0, q, l), x), NULL, F(N, P0, q, l)),
                                                                        z3.If(self.hdr(N, P0, q, x), x, NULL)), patterns=[F(N, P0, q, LR.snoc(l, x))]),
                FA([N, j], self.below(N, j, lt.nil), patterns=[self.below(N, j, lt.nil)]),
                FA([N, j, q, e], self.below(N, j, lt.snoc(q, e)) == z3.And(self.below(N, j, q), self.pos(N, e) < j), patterns=[self.below(N, j, lt.snoc(q, e))]),
                FA([N], self.asc(N, lt.nil), patterns=[self.asc(N, lt.nil)]),
                FA([N, q, e], self.asc(N, lt.snoc(q, e)) == z3.And(self.asc(N, q), self.below(N, self.pos(N, e), q)), patterns=[self.asc(N, lt.snoc(q, e))])]

    def lemmas(self):
        F, q, e, lt, nm = self.F, self.q, self.e, self.lt, self.name
        e2 = z3.Const(f"e2_{nm}", lt.elem)
        lem = PA.lem
        out = [
            lem(f"{nm}_below_mem", [N, j, e], lambda v: I_(z3.And(self.below(N, j, v), lt.mem(e, v)), self.pos(N, e) < j), lambda v: [self.below(N, j, v), lt.mem(e, v)], lt=lt),
            lem(f"{nm}_below_mono", [N, j, k], lambda v: I_(z3.And(self.below(N, j, v), j <= k), self.below(N, k, v)), lambda v: [self.below(N, j, v), self.below(N, k, v)], lt=lt),
            lem(f"{nm}_asc_cat", [N, q, e], lambda v: I_(self.asc(N, lt.cat(lt.snoc(q, e), v)), z3.And(self.asc(N, q), self.below(N, self.pos(N, e), q))),
                lambda v: [self.asc(N, lt.cat(lt.snoc(q, e), v))], lt=lt),
            lem(f"{nm}_open_mem", [N, P0, q], lambda v: I_(F(N, P0, q, v) != NULL, z3.And(LR.mem(F(N, P0, q, v), v), self.hdr(N, P0, q, F(N, P0, q, v)))), lambda v: [F(N, P0, q, v)]),
            lem(f"{nm}_add_before", [N, P0, q, e], lambda v: I_(z3.And(NumOK(N, v), LR.len(v) <= self.pos(N, e)), F(N, P0, lt.snoc(q, e), v) == F(N, P0, q, v)),
                lambda v: [NumOK(N, v), F(N, P0, lt.snoc(q, e), v)], use=["num_range"]),
            lem(f"{nm}_add_dead", [N, P0, q, e], lambda v: I_(z3.And(NumOK(N, v), FA([y], I_(z3.And(LR.mem(y, v), self.key(N, y) == e),
                                                                                        z3.Or(F(N, P0, q, Before(v, y)) != NULL, z3.Not(z3.And(P0[y] == y, self.live(y))))))),
                                                              F(N, P0, lt.snoc(q, e), v) == F(N, P0, q, v)),
                lambda v: [NumOK(N, v), F(N, P0, lt.snoc(q, e), v)], use=["num_range", "num_nodup"]),
            lem(f"{nm}_stays", [N, P0, q, j], lambda v: I_(z3.And(NumOK(N, v), 0 <= j, j <= LR.len(v), F(N, P0, q, Take(v, j)) == NULL, self.below(N, j, q)), F(N, P0, q, v) == NULL),
                lambda v: [NumOK(N, v), F(N, P0, q, v), self.below(N, j, q)], use=["num_range", "take_all", f"{nm}_below_mem"]),
            lem(f"{nm}_stays_at", [N, P0, q, j, x], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v), 0 <= j, j <= N[x], F(N, P0, q, Take(v, j)) == NULL, self.below(N, j, q)),
                                                                   F(N, P0, q, Before(v, x)) == NULL),
                lambda v: [NumOK(N, v), F(N, P0, q, Take(v, j)), F(N, P0, q, Before(v, x))], use=["num_range", "before_num", "take_before", f"{nm}_stays"]),
            lem(f"{nm}_closed", [N, P0, q, j, x], lambda v: I_(z3.And(NumOK(N, v), 0 <= j, j < LR.len(v), LR.mem(x, v), N[x] > j, F(N, P0, q, Take(v, j)) != NULL,
                                                                      self.closes(F(N, P0, q, Take(v, j)), LR.nth(v, j)), self.below(N, j, q)),
                                                                      z3.And(F(N, P0, q, Take(v, j + 1)) == NULL, F(N, P0, q, Before(v, x)) == NULL)),
                lambda v: [NumOK(N, v), F(N, P0, q, Take(v, j)), LR.nth(v, j), F(N, P0, q, Before(v, x))],
                use=["take_step", "take_all", "num_range", "before_num", "take_before", f"{nm}_below_mono", f"{nm}_stays_at"]),
            lem(f"{nm}_holds", [N, P0, q, j], lambda v: I_(z3.And(NumOK(N, v), 0 <= j, j <= LR.len(v), F(N, P0, q, Take(v, j)) != NULL,
                                                                 FA([y], I_(z3.And(LR.mem(y, v), N[y] >= j), z3.Not(self.closes(F(N, P0, q, Take(v, j)), y))))),
                                                           F(N, P0, q, v) == F(N, P0, q, Take(v, j))),
                lambda v: [NumOK(N, v), F(N, P0, q, v), Take(v, j)], use=["num_range", "take_all"]),
            lem(f"{nm}_unclosed", [N, P0, q, y], lambda v: I_(z3.And(NumOK(N, v), F(N, P0, q, v) != NULL, LR.mem(y, v), N[y] > N[F(N, P0, q, v)]),
                                                              z3.Not(self.closes(F(N, P0, q, v), y))),
                lambda v: [NumOK(N, v), F(N, P0, q, v), LR.mem(y, v)], use=["num_range", f"{nm}_open_mem"]),
        ]
        return out

    def spec(self, N, P0, q, ob, x):
        """the parent of a line after the pass"""
        o = self.F(N, P0, q, Before(ob, x))
        return z3.If(o != NULL, o, P0[x])


COMMON = [
    PA.lem("before_num", [N, x], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v)), z3.And(NumOK(N, Before(v, x)), LR.len(Before(v, x)) == N[x])),
           lambda v: [NumOK(N, v), Before(v, x)], use=["num_range", "num_nodup"]),
    PA.lem("before_nth", [N, j], lambda v: I_(z3.And(NumOK(N, v), 0 <= j, j < LR.len(v)), Before(v, LR.nth(v, j)) == Take(v, j)),
           lambda v: [NumOK(N, v), LR.nth(v, j), Take(v, j)], use=["num_range", "num_nth", "take_all"]),
    PA.lem("before_at", [N, x], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v)), Before(v, x) == Take(v, N[x])), lambda v: [NumOK(N, v), Before(v, x)],
           use=["num_range", "take_all"]),
    PA.lem("take_before", [N, x, j], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v), j <= N[x]), Take(Before(v, x), j) == Take(v, j)),
           lambda v: [NumOK(N, v), Take(Before(v, x), j)], use=["num_range", "num_nodup"]),
    PA.lem("nth_num", [N, x], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v)), LR.nth(v, N[x]) == x), lambda v: [NumOK(N, v), LR.mem(x, v)], use=["num_range"]),
    PA.lem("before_not_mem", [x], lambda v: I_(z3.And(Nodup(v), LR.mem(x, v)), z3.Not(LR.mem(x, Before(v, x)))), lambda v: [Nodup(v), Before(v, x)]),
    PA.lem("before_has", [N, x, y], lambda v: I_(z3.And(NumOK(N, v), LR.mem(x, v), LR.mem(y, v), N[y] < N[x]), LR.mem(y, Before(v, x))),
           lambda v: [NumOK(N, v), Before(v, x), LR.mem(y, v)], use=["num_range", "num_nodup"]),
    PA.lem("before_mem", [x, y], lambda v: I_(LR.mem(y, Before(v, x)), LR.mem(y, v)), lambda v: [LR.mem(y, Before(v, x))]),
]

# a banner header names its delimiter: the first non-blank character after the keywords; a header line on which the delimiter occurs twice is a complete
# banner of its own
BAN = slit(r"^(?:(?P<btype>(?:set\s+)*banner\s\w+\s+)(?P<bchar>\S))")
DELIM = lambda h: RE_GROUP(BAN, txt(h), z3.IntVal(2))
KEYWORDS_END = lambda h: z3.Function("re_end", Str, Str, IntS, IntS)(BAN, txt(h), z3.IntVal(1))
REST = lambda h: SLICE(txt(h), KEYWORDS_END(h), T.slen(txt(h)))
ONE_LINE = lambda h: LS.len(strfn("split", Str, Str, LS.sort)(REST(h), DELIM(h))) > 2
NUM = lambda N, h: N[h]

BM = Machine("banner", LR, lambda N, x: x, NUM, lambda h: z3.And(RE_FOUND(BAN, txt(h)), z3.Not(ONE_LINE(h))), lambda h, x: STR_IN(DELIM(h), STRIP(txt(x))))
MM = Machine("macro", LI, lambda N, x: N[x], lambda N, e: e, lambda h: z3.BoolVal(True), lambda h, x: RSTRIP(txt(x)) == slit("@"))
MATCH_ORDER = [
    PA.lem("banner_match_below", [N, p, j], lambda v: I_(z3.And(NumOK(N, v), LR.len(v) <= j), BM.below(N, j, MatchT(p, v))), lambda v: [NumOK(N, v), BM.below(N, j, MatchT(p, v))],
           use=["num_range", "banner_below_mono"]),
    PA.lem("banner_match_order", [N, p], lambda v: I_(NumOK(N, v), BM.asc(N, MatchT(p, v))), lambda v: [NumOK(N, v), MatchT(p, v)], use=["banner_match_below"]),
]
BLOCK_LEMMAS = COMMON + BM.lemmas() + MM.lemmas() + MATCH_ORDER
BLOCK_DEFS = BM.defs() + MM.defs()


def block_hyps():
    return PA.lem_hyps() + BLOCK_DEFS


def owner_template(ex, lp, g):
    """which lines have been handed to which header so far"""
    root = ex.root
    if not isinstance(root, Owners):
        return []
    M, ob, Nm = root.machine, root.lines(ex, ex.root_args), ex.heap_arr("linenum")
    first = z3.Const("H0_parent", ex.heap_arr("parent").sort())
    out = []
    cur = lambda: ex.heap_arr("parent")
    if "P" in g and g["lt"] is M.lt and "__acc" not in lp["names"] and "__acc" not in lp["prelocals"]:
        out.append(("parents follow the blocks of the headers so far",
                    lambda: FA([x], I_(LR.mem(x, ob), cur()[x] == M.spec(Nm, first, g["P"], ob, x)), patterns=PA.pat(ob, cur()))))
    if "while" in g:
        outer = next((o["g"] for o in reversed(ex.loopstack) if o.get("g", {}).get("lt") is M.lt and "P" in o.get("g", {})), None)
        if outer is None or outer.get("x") is None:
            return out
        q, e = outer["P"], outer["x"]
        qe = M.lt.snoc(q, e)
        for n in sorted(lp["names"]):
            if not (isinstance(lp["prelocals"].get(n), Sc) and lp["prelocals"][n].ty == "int"):
                continue
            for off in (0, 1):
                def upto(n=n, off=off):
                    w = now(lp, n)
                    return w.t + off if isinstance(w, Sc) and w.ty == "int" else z3.IntVal(-1)
                out.append((f"lines before {n}+{off} are handed out",
                            lambda upto=upto: FA([x], I_(LR.mem(x, ob), cur()[x] == z3.If(Nm[x] < upto(), M.spec(Nm, first, qe, ob, x), M.spec(Nm, first, q, ob, x))),
                                                 patterns=PA.pat(ob, cur()))))
                out.append((f"headers before {n}+{off}", lambda upto=upto: M.below(Nm, upto(), qe)))
                out.append((f"{n}+{off} past the header", lambda upto=upto: upto() > M.pos(Nm, e)))
                hd = LR.nth(ob, M.pos(Nm, e))
                op = lambda upto=upto: M.F(Nm, first, qe, Take(ob, upto()))
                out.append((f"block open before {n}+{off}", lambda upto=upto, op=op: I_(upto() > M.pos(Nm, e) + 1, z3.And(op(upto) == hd, M.live(hd)))))
                out.append((f"block open at header {n}+{off}", lambda upto=upto, op=op: I_(M.live(hd), op(upto) == hd)))
                for b in sorted(lp["names"]):
                    if isinstance(lp["prelocals"].get(b), Sc) and lp["prelocals"][b].ty == "bool":
                        for neg in (False, True):
                            def st_(b=b, neg=neg, upto=upto, op=op):
                                w = now(lp, b)
                                if not (isinstance(w, Sc) and w.ty == "bool"):
                                    return z3.BoolVal(False)
                                return op(upto) == z3.If(z3.Not(w.t) if neg else w.t, NULL, hd)
                            out.append((f"block open unless {'not ' if neg else ''}{b} before {n}+{off}", st_))
    return out


class Owners:
    """mixed into a pass: the exact parents it leaves"""
    label = "owners"

    def axioms(self):
        return super().axioms() + PA.DEFSI + BLOCK_DEFS + [PA.LEMBY["take_step"].formula(), PA.LEMBY["take_none"].formula(), PA.LEMBY["take_all"].formula()] + [lm.formula() for lm in COMMON + self.machine.lemmas() + MATCH_ORDER
                if not lm.name.endswith(("_unclosed", "before_has", "_holds", "match_below"))]

    def ensures(self, ex, a, r):
        ob, Nm = self.lines(ex, a), ex.heap_arr("linenum")
        M, first, P = self.machine, old_arrays(ex)["parent"], ex.heap_arr("parent")
        return super().ensures(ex, a, r) + [
            ("a line is handed to the header whose block is open there; every other line keeps its parent",
             FA([x], I_(LR.mem(x, ob), P[x] == M.spec(Nm, first, self.headers(ex, a), ob, x)), patterns=[z3.MultiPattern(LR.mem(x, ob), P[x])]))]


class BannerOwners(Owners, PA.BannerMark):
    machine = BM
    templates = PA.Pass.templates + [owner_template]

    def headers(self, ex, a):
        return MatchT(a["regex"].pat, self.lines(ex, a))

    def call(self, ex, a):
        ex.block_calls = {"banner": (ex.heap_arr("parent"), self.lines(ex, a), ex.heap_arr("linenum"))}
        return super().call(ex, a)


class MacroOwners(Owners, PA.MacroMark):
    machine = MM
    templates = PA.Pass.templates + [owner_template]

    def headers(self, ex, a):
        return self.idxs(ex, a)

    def call(self, ex, a):
        ex.block_calls = dict(getattr(ex, "block_calls", {}), macro=(ex.heap_arr("parent"), self.idxs(ex, a)))
        return super().call(ex, a)

    def requires(self, ex, a):
        return super().requires(ex, a) + [("in the order of the lines", MM.asc(ex.heap_arr("linenum"), self.idxs(ex, a)))]


def macro_index_template(ex, lp, g):
    """the positions collected for the macro pass are those of the macro headers, in order"""
    if "P" not in g or g["lt"] is not LS or not isinstance(ex.root, BlockParse):
        return []
    out = []
    Nm = H("linenum")
    sy = ex.recs[ex.root_args["self"].id]["syntax"].t
    for n in PA.list_vars(ex, lp):
        if as_term(ex, now(lp, n), LI.sort) is None:
            continue

        def il(n=n):
            return as_term(ex, now(lp, n), LI.sort)
        out.append((f"{n} in order", lambda il=il: z3.And(MM.asc(Nm, il()), MM.below(Nm, LS.len(g["P"]), il())) if il() is not None else z3.BoolVal(False)))
        out.append((f"{n} are the macro headers", lambda il=il: macro_positions(il(), g["P"], sy) if il() is not None else z3.BoolVal(False)))
    return out


def macro_positions(il, tl, sy):
    return FA([k], LI.mem(k, il) == z3.And(0 <= k, k < LS.len(tl), SLICE(LS.nth(tl, k), 0, 11) == slit("macro name "), sy == slit("ios")),
              patterns=[LI.mem(k, il), LS.nth(tl, k)])


class BlockParse(PA.Bootstrap):
    """the parse as a whole: indentation gives the parents, then the banner pass, then the macro pass hand out exactly the lines of their blocks"""
    templates = PA.Bootstrap.templates + [macro_index_template]

    def __init__(self):
        super().__init__(None)
        self.label = "blocks"

    def setup(self, ex):
        ex.block_calls = {}

    def axioms(self):
        return super().axioms() + MM.defs() + [lm.formula() for lm in BLOCK_LEMMAS if lm.name in ("macro_below_mono", "macro_below_mem")]

    def ensures(self, ex, a, r):
        ob = ex.term_of(r, LR.sort)
        tl = ex.term_of(a["text_list"], LS.sort)
        me = ex.recs[a["self"].id]
        ign, sy = bool_of(ex, me["ignore_blank_lines"]), me["syntax"].t
        P = ex.heap_arr("parent")
        calls = getattr(ex, "block_calls", {})
        brace = z3.Or(*[sy == slit(b) for b in BRACE_SYNTAX])
        out = super().ensures(ex, a, r)
        if "banner" not in calls or "macro" not in calls:
            return out + [("the block passes run in every indentation syntax", brace)]
        (base, full, Nm), (mid, il) = calls["banner"], calls["macro"]          # full: the lines before blank lines are dropped
        free = z3.Not(BraceLineT(RS(tl)))
        out.append(("the block passes see one line per input line", Texts(full) == RS(tl)))
        out.append(("no line appears after the passes, and blank lines alone may go", z3.And(I_(z3.Not(ign), ob == full), FA([x], I_(LR.mem(x, ob), LR.mem(x, full)),
                                                                                                                patterns=[LR.mem(x, ob)]))))
        out += [("before the block passes " + n, I_(free, f)) for n, f in par_rule(full, base)]
        out.append(("banner headers take exactly the lines of their blocks",
                    FA([x], I_(LR.mem(x, full), mid[x] == BM.spec(Nm, base, MatchT(PA.BANNER_RE, full), full, x)), patterns=PA.pat(full, mid))))
        out.append(("macro headers take exactly the lines of their blocks",
                    FA([x], I_(LR.mem(x, full), P[x] == MM.spec(Nm, mid, il, full, x)), patterns=PA.pat(full, P))))
        out.append(("macro headers are the lines that start with 'macro name ', in ios syntax", macro_positions(il, tl, sy)))
        return out


C26 = [BlockParse(), BannerOwners(), MacroOwners(), PA.AdoptLine(), PA.CfgObjFromText(), PA.TextSetter(), PA.SetCommentBool(), PA.Braces(), PA.Reassign(), PA.BannerRe(), PA.IsConfigLine()]
HOOKS, MODELS, FIELDS, REF_CLASS = PA.HOOKS, PA.MODELS, PA.FIELDS, PA.REF_CLASS
BASE_LEMMAS = PA.LEMMAS


def block_theorems():
    """what the two pass postconditions say about a block and about lines outside blocks"""
    out = []
    ob = z3.Const("ob", LR.sort)
    h = z3.Const("h", Ref)
    P = z3.Const("Pafter", ArrR)
    for M in (BM, MM):
        q = M.q
        by = {lm.name: lm for lm in BLOCK_LEMMAS}
        hy = list(PA.DEFS) + M.defs() + M.lt.axioms() + (LR.axioms() if M.lt is not LR else []) + [by[n].formula() for n in ("before_num", "before_at", "take_before", "nth_num", "before_mem", "before_has", "before_not_mem", f"{M.name}_open_mem", f"{M.name}_holds", f"{M.name}_unclosed")]
        hy += [PA.LEMBY[n].formula() for n in ("num_range", "take_step", "num_nodup", "take_all", "num_nth")]
        post = FA([x], I_(LR.mem(x, ob), P[x] == M.spec(N, P0, q, ob, x)), patterns=[z3.MultiPattern(LR.mem(x, ob), P[x])])
        tk, bx, tb, bh = z3.Consts("tk bx tb bh", LR.sort)
        names = [tk == Take(ob, N[h] + 1), bx == Before(ob, x), tb == Take(Before(ob, x), N[h] + 1), bh == Before(ob, h)]
        base = names + [NumOK(N, ob), post, LR.mem(x, ob), LR.mem(h, ob), x != NULL, h != NULL]
        opens = [M.hdr(N, P0, q, h), P[h] == h]
        notafter = FA([y], I_(z3.And(LR.mem(y, ob), N[h] < N[y], N[y] < N[x]), z3.Not(M.closes(h, y))))
        out.append((f"{M.name}: from the header to its terminator (or the end) every line hangs below the header", hy + base + opens + [N[h] < N[x], notafter], P[x] == h))
        out.append((f"{M.name}: a line whose parent changed follows a header of its own parent with no terminator between", hy + base + [P[x] != P0[x], h == P[x]],
                    z3.And(M.hdr(N, P0, q, h), N[h] < N[x], I_(z3.And(LR.mem(y, ob), N[h] < N[y], N[y] < N[x]), z3.Not(M.closes(h, y))))))
    return out
