"""Contracts of saving a configuration to a file and of reading one (C25).

Files are outside the code: `open` and what it returns are modelled here.  RAW(path, encoding) is the decoded content of a file, UNIVERSAL(content) what a file
opened for reading with newline=None gives; a file opened for writing collects the chunks it is given."""
import z3
from pyvc import theory as T
from pyvc.theory import Str, IntS, BoolS, Fold, m_list, m_any, slit, sconcat, Lemma
from pyvc.engine import NULL, Sc, RecV, NONE, NoneV, Unsupported, SymRaise, ExtV, MethV
from pyvc.contract import Contract, DEFAULT_TEMPLATES
from . import lines as L
from . import parse as PA
from . import edits as ED
from .lines import CCP, LR, LS, bool_of
from .parse import Texts, RS, NonBlankT, valid_syntax
from .edits import PARSED, NonEmptyT, made_posts, lines_of, IosCfg, BootCall, MakeLines, Make, all_true_template

FA, I_ = z3.ForAll, z3.Implies
RAW = z3.Function("file_content", Str, Str, Str)            # path, encoding
UNIV = z3.Function("universal_newlines", Str, Str)
OTHERNL = z3.Function("newlines_as", Str, Str, Str)
EXISTS = z3.Function("file_exists", Str, BoolS)
ISFILE = z3.Function("is_regular_file", Str, BoolS)
OPENS = z3.Function("file_can_be_opened", Str, Str, BoolS)   # path, mode
DECODES = z3.Function("file_can_be_decoded", Str, Str, BoolS)
SPLIT = z3.Function("re_split", Str, Str, LS.sort)
READ = z3.Function("lines_of_text", Str, Str, LS.sort)       # separator expression, text: THE SPECIFICATION of reading
JOIN = z3.Function("concatenation", LS.sort, Str)
nl, t, r = z3.Consts("nl t r", Str)
v = z3.Const("v", LS.sort)
Ended = Fold("EndedBy", LS, [nl], m_list(LS), lambda nl, s: (z3.BoolVal(True), sconcat(s, nl)))
HasNl = Fold("HasLineEnd", LS, [], m_any(), lambda s: z3.Function("has_line_end", Str, BoolS)(s))
ONE, MANY = slit(r"\r*\n"), slit(r"\r*\n+")
LF = slit("\n")


def defs():
    return [FA([r, t], READ(r, t) == z3.If(LS.last(SPLIT(r, t)) == slit(""), LS.init(SPLIT(r, t)), SPLIT(r, t)), patterns=[READ(r, t)]),
            FA([r, t], LS.len(SPLIT(r, t)) >= 1, patterns=[SPLIT(r, t)]), FA([r, t], SPLIT(r, t) != LS.nil, patterns=[SPLIT(r, t)])]


# --- the file system as the code sees it ----------------------------------------------------------------------------------
def conc(ex, x):
    return ex.pyval(x) if x is not None and ex.is_conc(x) else None


def open_(ex, args, kw):
    names = ("file", "mode", "buffering", "encoding", "errors", "newline")
    g = dict(zip(names, args))
    g.update(kw)
    if set(g) - {"file", "mode", "encoding", "newline"}:
        raise Unsupported("open() with further arguments")
    path = g["file"]
    if not (isinstance(path, Sc) and path.ty == "str"):
        raise SymRaise("TypeError")
    mode = g["mode"].t if "mode" in g else slit("r")
    if not ex.choose(OPENS(path.t, mode)):
        raise SymRaise("OSError")
    m = T.lit_value(mode)
    if m not in ("r", "w", "rt", "wt"):
        raise Unsupported(f"open mode {m}")
    f = ex.new_rec(None, {"__file__": ex.lift(True), "path": path, "mode": ex.lift(m[0]), "encoding": g.get("encoding", NONE), "newline": g.get("newline", NONE),
                          "closed": ex.lift(False), "chunks": ex.new_list(LS, LS.nil)})
    ex.files = getattr(ex, "files", []) + [f]
    return f


def is_file(ex, o):
    return isinstance(o, RecV) and "__file__" in ex.recs[o.id]


def context(ex, f, what):
    if not is_file(ex, f):
        return None
    if what == "exit":
        ex.recs[f.id]["closed"] = ex.lift(True)
    return f


def file_method(ex, o, name, args, kw):
    if not is_file(ex, o):
        return None
    rec = ex.recs[o.id]
    if conc(ex, rec["closed"]) is not False:
        raise SymRaise("ValueError")
    if name == "close" and not args:
        rec["closed"] = ex.lift(True)
        return NONE
    if name == "write" and len(args) == 1:
        if conc(ex, rec["mode"]) != "w":
            raise SymRaise("OSError")
        ex.list_append(rec["chunks"], args[0])
        return Sc("int", T.slen(args[0].t))
    if name == "writelines" and len(args) == 1:
        ex.list_extend(rec["chunks"], args[0])
        return NONE
    if name == "read" and not args:
        if conc(ex, rec["mode"]) != "r" or rec.get("was_read"):
            raise Unsupported("read()")
        rec["was_read"] = True
        enc = rec["encoding"].t if isinstance(rec["encoding"], Sc) else slit("")
        if not ex.choose(DECODES(rec["path"].t, enc)):
            raise SymRaise("UnicodeDecodeError")
        raw = RAW(rec["path"].t, enc)
        return Sc("str", UNIV(raw) if isinstance(rec["newline"], NoneV) else OTHERNL(rec["newline"].t, raw))
    return None


def re_split(ex, pat, text):
    s = SPLIT(pat, text)
    ex.assume(LS.len(s) >= 1)
    ex.assume(s != LS.nil)
    return ex.new_list(LS, s)


def method(ex, o, name, args, kw):
    r = file_method(ex, o, name, args, kw)
    if r is not None:
        return r
    h = ED.HOOKS.get("method")
    return h(ex, o, name, args, kw) if h is not None else None


HOOKS = dict(ED.HOOKS)
HOOKS.update({"rec_attr": lambda ex, o, name: MethV(o, name) if is_file(ex, o) and name in ("write", "read", "close", "writelines") else None, "context": context, "method": method, "re_split": re_split})
MODELS = dict(ED.MODELS)
MODELS.update({"open": open_, "os.path.exists": lambda ex, a, kw: Sc("bool", EXISTS(a[0].t)), "os.path.isfile": lambda ex, a, kw: Sc("bool", ISFILE(a[0].t))})
REF_CLASS, FIELDS = ED.REF_CLASS, ED.FIELDS
TRUSTED = ["open(path, 'w', encoding=e): a file that then holds the concatenation of the chunks written to it (newline='\\n' on this platform); "
           "open(path, 'r', newline=None, encoding=e).read(): its decoded content with \\r\\n and \\r read as \\n (universal newlines)",
           "the law of re.split for \\r*\\n and \\r*\\n+ on texts made of lines without line ends (executed against re on every run)"]


def mk_saved(ex, name):
    c = ED.mk_ccp(ex, name)
    ex.recs[c.id]["encoding"] = ex.mk("str", "encoding")
    return c


class SaveAs(Contract):
    """one file, opened for writing under the given name with the encoding of the configuration, gets exactly the lines, each ended by a newline"""
    key = f"{CCP}:CiscoConfParse.save_as"
    params = {"self": ("make", mk_saved), "filepath": "str"}
    result = "bool"
    folds = (Texts, Ended)
    cand = {"EndedBy": ("newline",)}
    raises = {"OSError": lambda ex, a: z3.Not(OPENS(a["filepath"].t, slit("w")))}

    def axioms(self):
        return []

    def extra_terms(self, ex, lp):
        return [("newline", LF)]

    def setup(self, ex):
        ex.files = []

    def modifies(self, ex, a):
        return []

    def ensures(self, ex, a, r):
        fs = ex.files
        out = [("exactly one file is opened", z3.BoolVal(len(fs) == 1)), ("the answer is True", bool_of(ex, r))]
        if len(fs) == 1:
            f = ex.recs[fs[0].id]
            out += [("the file is the one named", f["path"].t == a["filepath"].t), ("it is opened for writing", z3.BoolVal(conc(ex, f["mode"]) == "w")),
                    ("with the encoding of the configuration", f["encoding"].t == ex.recs[a["self"].id]["encoding"].t if isinstance(f["encoding"], Sc) else z3.BoolVal(False)),
                    ("lines end in a newline as written", z3.BoolVal(isinstance(f["newline"], NoneV) or conc(ex, f["newline"]) in ("", "\n"))),
                    ("it is closed", bool_of(ex, f["closed"])),
                    ("it gets the lines in order, each with a newline", JOIN(ex.term_of(f["chunks"], LS.sort)) == JOIN(Ended(LF, Texts(lines_of(ex)))))]
        return out


def mk_reader(ex, name):
    return ex.new_rec(ex.src.module(CCP).classes["CiscoConfParse"], {"debug": ex.lift(0), "encoding": ex.mk("str", "encoding"), "finished_config_parse": ex.lift(False)})


def readable(path, enc):
    return z3.And(EXISTS(path), OPENS(path, slit("r")), DECODES(path, enc))


class ReadFile(Contract):
    """the lines of the file: its text split at the separator, without the empty text after a final line end"""
    key = f"{CCP}:CiscoConfParse.read_config_file"
    params = {"self": ("make", mk_reader), "filepath": "str", "linesplit_rgx": "str"}
    result = ("list", LS)
    raises = {"FileNotFoundError": lambda ex, a: z3.Not(EXISTS(a["filepath"].t)),
              "OSError": lambda ex, a: z3.And(EXISTS(a["filepath"].t), z3.Not(readable(a["filepath"].t, ex.recs[a["self"].id]["encoding"].t)))}

    def axioms(self):
        return defs()

    def setup(self, ex):
        ex.files = []

    def modifies(self, ex, a):
        return []

    def ensures(self, ex, a, r):
        raw = RAW(a["filepath"].t, ex.recs[a["self"].id]["encoding"].t)
        return [("the lines of the file", ex.term_of(r, LS.sort) == READ(a["linesplit_rgx"].t, UNIV(raw)))]


class MakeFile(Make):
    """parsing a file is parsing the list of its lines"""
    label = "file"
    params = {**Make.params, "config": "str"}

    def axioms(self):
        return super().axioms() + defs()

    def setup(self, ex):
        ex.files = []

    def requires(self, ex, a):
        return super().requires(ex, a) + [("the name is not empty", T.slen(a["config"].t) > 0), ("the file can be read", readable(a["config"].t, slit("UTF-8")))]

    def ensures(self, ex, a, r):
        rec = ex.recs[a["self"].id]
        obj = rec["ConfigObjs"]
        ex.the_confobj = obj
        drop = z3.And(bool_of(ex, a["ignore_blank_lines"]), z3.Not(bool_of(ex, a["factory"])))
        txt = UNIV(RAW(a["config"].t, slit("UTF-8")))
        out = []
        for o, who in ((rec, "configuration"), (ex.recs[obj.id], "list of lines")):
            out += [(f"setting comment_delimiter of the {who}", o["comment_delimiter"].t == a["comment"].t), (f"setting syntax of the {who}", o["syntax"].t == a["syntax"].t),
                    (f"setting factory of the {who}", bool_of(ex, o["factory"]) == bool_of(ex, a["factory"])),
                    (f"setting ignore_blank_lines of the {who}", bool_of(ex, o["ignore_blank_lines"]) == bool_of(ex, a["ignore_blank_lines"]))]
        nw = lines_of(ex)
        for nm, c, rg in (("all lines", z3.Not(drop), ONE), ("empty lines left out", drop, MANY)):
            out += [(f"{nm}: {n}", I_(c, f)) for n, f in made_posts(ex, a, READ(rg, txt), nw)]
        return out


C25 = [SaveAs(), ReadFile(), MakeFile(), Make(), BootCall(), MakeLines(), IosCfg()]

lem = PA.lem
C25_LEMMAS = []

C25_LEMMAS = [lem("file.nonblank_len", [], lambda v: LS.len(NonBlankT(v)) <= LS.len(v), lambda v: [NonBlankT(v)], lt=LS),
              lem("file.nonblank_all", [], lambda v: I_(LS.len(NonBlankT(v)) == LS.len(v), NonBlankT(v) == v), lambda v: [NonBlankT(v)], use=["file.nonblank_len"], lt=LS),
              lem("file.texts_len", [], lambda v: LS.len(Texts(v)) == LR.len(v), lambda v: [Texts(v)]),
              lem("file.rs_len", [], lambda v: LS.len(RS(v)) == LS.len(v), lambda v: [RS(v)], lt=LS),
              lem("file.rs_idem", [], lambda v: RS(RS(v)) == RS(v), lambda v: [RS(RS(v))], lt=LS),
              lem("file.no_empty_left", [], lambda v: z3.Not(LS.mem(slit(""), NonEmptyT(v))), lambda v: [NonEmptyT(v)], lt=LS),
              lem("file.last_mem", [], lambda v: I_(v != LS.nil, LS.mem(LS.last(v), v)), lambda v: [LS.last(v)], lt=LS),
              lem("file.not_empty", [], lambda v: I_(z3.Not(LS.mem(slit(""), v)), NonEmptyT(v) == v), lambda v: [NonEmptyT(v)], lt=LS)]


def c25_hyps():
    s1 = z3.Const("s1!", Str)
    return PA.lem_hyps() + PA.str_axioms() + NonEmptyT.axioms() + Ended.axioms() + HasNl.axioms() + [FA([s1], (T.slen(s1) == 0) == (s1 == slit("")), patterns=[T.slen(s1)])]


def split_laws():
    """what re.split does to lines put together with newlines (trusted; executed against re by file_laws_selftest)"""
    clean = z3.Not(HasNl(v))
    whole = JOIN(Ended(LF, v))
    open_ = sconcat(JOIN(Ended(LF, LS.init(v))), LS.last(v))
    lead = LS.nth(v, 0) != slit("")
    return {"separator one newline, final newline": FA([v], I_(clean, SPLIT(ONE, whole) == LS.snoc(v, slit(""))), patterns=[SPLIT(ONE, whole)]),
            "separator one newline, no final newline": FA([v], I_(z3.And(clean, v != LS.nil), SPLIT(ONE, open_) == v), patterns=[SPLIT(ONE, open_)]),
            "separator many newlines, final newline": FA([v], I_(z3.And(clean, z3.Or(v == LS.nil, lead)), SPLIT(MANY, whole) == LS.snoc(NonEmptyT(v), slit(""))), patterns=[SPLIT(MANY, whole)]),
            "separator many newlines, no final newline": FA([v], I_(z3.And(clean, v != LS.nil, lead, LS.last(v) != slit("")), SPLIT(MANY, open_) == NonEmptyT(v)), patterns=[SPLIT(MANY, open_)]),
            "separator many newlines, a leading empty line": FA([v], I_(z3.And(clean, v != LS.nil, z3.Not(lead)), SPLIT(MANY, whole) == LS.snoc(LS.cat(LS.snoc(LS.nil, slit("")), NonEmptyT(v)), slit(""))),
                                                              patterns=[SPLIT(MANY, whole)]),
            "universal newlines": FA([nl, v], I_(z3.And(clean, z3.Or(nl == LF, nl == slit("\r\n"), nl == slit("\r"))), UNIV(JOIN(Ended(nl, v))) == whole), patterns=[UNIV(JOIN(Ended(nl, v)))]),
            "universal newlines, no final newline": FA([nl, v], I_(z3.And(clean, v != LS.nil, z3.Or(nl == LF, nl == slit("\r\n"), nl == slit("\r"))),
                                                                 UNIV(sconcat(JOIN(Ended(nl, LS.init(v))), LS.last(v))) == open_), patterns=[UNIV(sconcat(JOIN(Ended(nl, LS.init(v))), LS.last(v)))])}


def file_laws_selftest(n=3000):
    import io
    import random
    import re
    rng = random.Random(5)
    for _ in range(n):
        ls = [rng.choice(["", " ", "a", "b c", " x", "\t", "é", "\x0b", "\x85"]) for _ in range(rng.randrange(6))]
        for n_ in ("\n", "\r\n", "\r"):
            whole = io.TextIOWrapper(io.BytesIO("".join(s + n_ for s in ls).encode()), encoding="utf-8", newline=None).read()
            if whole != "".join(s + "\n" for s in ls):
                return f"universal newlines: {ls!r} {n_!r}"
            if ls:
                part = io.TextIOWrapper(io.BytesIO((n_.join(ls)).encode()), encoding="utf-8", newline=None).read()
                if part != "\n".join(ls):
                    return f"universal newlines, no final newline: {ls!r} {n_!r}"
        whole, part, ne = "".join(s + "\n" for s in ls), "\n".join(ls), [s for s in ls if s != ""]
        if re.split(r"\r*\n", whole) != ls + [""] or (ls and re.split(r"\r*\n", part) != ls):
            return f"one newline: {ls!r}"
        if not ls or ls[0] != "":
            if re.split(r"\r*\n+", whole) != ne + [""] or (ls and ls[-1] != "" and re.split(r"\r*\n+", part) != ne):
                return f"many newlines: {ls!r}"
        elif re.split(r"\r*\n+", whole) != [""] + ne + [""]:
            return f"many newlines, leading: {ls!r}"
    return None


def file_theorems():
    sy, dl = z3.Consts("syntax delim", Str)
    fac, ign = z3.Bools("factory ign")
    t0, t1 = z3.Consts("t0 t1", LS.sort)
    l0, l1, l2 = z3.Consts("l0 l1 l2", LR.sort)
    text = z3.Const("text", Str)
    bad = file_laws_selftest()
    if bad is not None:
        return [("the laws of files and of re.split hold on samples: " + bad, [], z3.BoolVal(False))]
    base = list(split_laws().values()) + defs() + [lm.formula() for lm in C25_LEMMAS] + [LS.len(slit_list()) == 1]
    drop = z3.And(ign, z3.Not(fac))
    rd = z3.If(drop, READ(MANY, text), READ(ONE, text))
    given = z3.If(drop, NonEmptyT(t0), t0)
    whole = text == UNIV(JOIN(Ended(nl, t0)))
    part = text == UNIV(sconcat(JOIN(Ended(nl, LS.init(t0))), LS.last(t0)))
    isnl = z3.Or(nl == LF, nl == slit("\r\n"), nl == slit("\r"))
    clean = z3.Not(HasNl(t0))
    e_ = slit("")
    lead = z3.Or(t0 == LS.nil, LS.nth(t0, 0) != e_)
    out = [("a file with a final newline, under any line ending, gives the texts of its lines", base + [isnl, clean, whole, z3.Or(z3.Not(drop), lead)], rd == given),
           ("a file without a final newline, under any line ending, gives the texts of its lines",
            base + [isnl, clean, part, t0 != LS.nil, LS.last(t0) != e_, z3.Or(z3.Not(drop), lead)], rd == given)]
    PF = lambda tx, ls: PARSED(sy, dl, fac, ign, tx, ls)     # noqa: E731
    out.append(("parsing a file and parsing the list of its lines are the fresh parse of the same texts",
                base + [isnl, clean, z3.Or(whole, z3.And(part, t0 != LS.nil, LS.last(t0) != e_)), z3.Or(z3.Not(drop), lead), PF(rd, l2)], PF(given, l2)))

    def posts(tx, ls):       # what the constructor contracts promise about the texts of a parse (commit_posts)
        return [I_(z3.Not(ign), Texts(ls) == RS(tx)), NonBlankT(Texts(ls)) == NonBlankT(RS(tx)), LR.len(ls) <= LS.len(tx)]
    saved = text == UNIV(JOIN(Ended(LF, Texts(l1))))
    right = [RS(Texts(l1)) == Texts(l1)]
    noblank = I_(ign, NonBlankT(Texts(l1)) == Texts(l1))
    noempty = I_(ign, z3.Not(LS.mem(e_, Texts(l1))))
    out.append(("reading back what was saved gives the same lines",
                base + [saved, z3.Not(HasNl(Texts(l1))), noblank, noempty, I_(ign, z3.Or(Texts(l1) == LS.nil, LS.nth(Texts(l1), 0) != e_))] + right + posts(rd, l2), Texts(l2) == Texts(l1)))
    out.append(("the texts of a parse that keeps blank lines are right-stripped", base + [z3.Not(ign)] + posts(t0, l1), RS(Texts(l1)) == Texts(l1)))
    return out


def slit_list():
    return LS.snoc(LS.nil, slit(""))
