"""Texts of known shape inside symbolic execution.

A contract declares atoms (`atom(ex, term, regex)`: the values of `term` are exactly words of that regular language, ASCII);
a text that is a concatenation of literals, atoms and decimal numbers then has a shape, and string operations on it are
decided by the automata of strlang for all words of all atoms at once.  What strlang cannot decide is left uninterpreted."""
import re
import z3
from . import theory as T
from . import strlang as SL
from .engine import Sc, S, I, B, NONE, MatchV, CellV, ConcIterV, Unsupported, SymRaise, strfn
from .theory import Str, IntS, slit

NAT = SL.lang("0|[1-9][0-9]*")
INT = SL.lang("-?(?:0|[1-9][0-9]*)")


def atom(ex, term, pat, number=None):
    """declare the language of a text; min/max length and numeric reading follow from it"""
    node = SL.lang(pat)
    d = ex.__dict__.setdefault("atoms", {})
    d[term.get_id()] = node
    ex._keep.append(term)
    lo, hi = sre_width(pat)
    ex.assume(T.slen(term) >= lo)
    if hi is not None:
        ex.assume(T.slen(term) <= hi)
    if SL.subset(SL.build(node), SL.build(SL.lang("[0-9]+"))):
        ex.assume(T.is_int_str(term))
        ex.assume(T.int_of_str(term) >= 0)
    elif SL.disjoint(SL.build(node), SL.build(SL.lang(r"[ \t\n\r\f\v\x1c-\x1f]*[+-]?[0-9](?:_?[0-9])*[ \t\n\r\f\v\x1c-\x1f]*"))):
        ex.assume(z3.Not(T.is_int_str(term)))


def alias(ex, t, whole):
    """the text t is the concatenation `whole`"""
    ex.__dict__.setdefault("aliases", {})[t.get_id()] = whole
    ex._keep += [t, whole]
    ex.assume(t == whole)


def sre_width(pat):
    lo, hi = SL.sre_parse.parse(pat).getwidth()
    return lo, (hi if hi < 100000 else None)


def pieces(ex, t):
    """the text as pieces, or None when part of it has no known shape"""
    if t.decl().eq(T.sconcat):
        a, b = pieces(ex, t.arg(0)), pieces(ex, t.arg(1))
        return None if a is None or b is None else a + b
    v = T.lit_value(t)
    if v is not None:
        try:
            return [SL.Piece(("chars", SL.mask(c)), slit(c), c) for c in v]
        except SL.Unknown:
            return None
    al = getattr(ex, "aliases", {}).get(t.get_id())
    if al is not None:
        return pieces(ex, al)
    node = getattr(ex, "atoms", {}).get(t.get_id())
    if node is not None:
        return [SL.Piece(node, t)]
    if t.decl().eq(T.str_of_int):
        nonneg = ex.check_now(t.arg(0) >= 0)
        return [SL.Piece(NAT if nonneg else INT, t)]
    return None


def shaped(ex, t):
    """pieces of a text that is not a plain literal"""
    if T.lit_value(t) is not None:
        return None
    return pieces(ex, t)


def text(ex, ps):
    return Sc("str", ex.concat([p.term for p in ps]) if ps else slit(""))


def matcher(pat, ps, mode):
    flags = 0
    return SL.Matcher(pat, ps, mode, flags)


def h_re(ex, mode, pat, t):
    """the match of a literal pattern in a text of known shape: MatchV, NONE, or None (not decided)"""
    p = T.lit_value(pat)
    if p is None:
        return None
    ps = pieces(ex, t) if getattr(ex.root, "literal_texts", False) else shaped(ex, t)
    if ps is None:
        return None
    try:
        d = matcher(p, ps, mode).decide()
    except SL.Unknown:
        return None
    if d is None:
        return None
    if d is False:
        return NONE
    m = MatchV(mode, pat, t)
    m.ps = ps
    return m


def h_group(ex, m, g):
    ps = getattr(m, "ps", None)
    if ps is None:
        return None
    mm = getattr(m, "spans", None)
    if mm is None:
        try:
            mm = m.spans = matcher(T.lit_value(m.pat), ps, m.mode).match()
        except SL.Unknown as e:
            raise Unsupported(f"groups of {T.lit_value(m.pat)!r} in a text of known shape: {e}")
    k = ex.pyval(g)
    if isinstance(k, str):
        if k not in mm.names:
            raise SymRaise("IndexError")
        k = mm.names[k]
    if k != 0 and k not in mm.spans:
        raise SymRaise("IndexError")
    sp = mm.spans[k]
    if sp is None:
        return NONE
    return text(ex, ps[sp[0]:sp[1]])


def split_on(ex, ps, pat, mode="search", limit=None):
    """tokens between the successive leftmost matches of a pattern (which never matches the empty word)"""
    out, rest = [], ps
    while True:
        m = SL.Matcher(pat, rest, "search")
        d = m.decide() if limit is None or len(out) < limit else False
        if d is None:
            raise SL.Unknown("split depends on the value")
        if not d:
            out.append(rest)
            return out
        a, b = m.match().spans[0]
        if a == b:
            raise SL.Unknown("empty separator")
        out.append(rest[:a])
        rest = rest[b:]


WS = r"[ \t\n\r\f\v\x1c-\x1f]"


def stripped(ps, left, right, chars=None):
    cls = WS if chars is None else "[" + re.escape(chars) + "]"
    allin = SL.build(SL.lang(cls + "*"))
    while left and ps:
        one = SL.build(ps[0].node)
        if SL.subset(one, allin):
            ps = ps[1:]
            continue
        if SL.disjoint(one, SL.build(SL.seqnode_of([SL.lang(cls), SL.ANYS]))) and SL.disjoint(one, SL.build(SL.EMPTY)):
            break
        raise SL.Unknown("strip depends on the value")
    while right and ps:
        one = SL.build(ps[-1].node)
        if SL.subset(one, allin):
            ps = ps[:-1]
            continue
        if SL.disjoint(one, SL.build(SL.seqnode_of([SL.ANYS, SL.lang(cls)]))) and SL.disjoint(one, SL.build(SL.EMPTY)):
            break
        raise SL.Unknown("strip depends on the value")
    return ps


CASE = {"lower": ("[A-Z]",), "upper": ("[a-z]",)}


def h_str_method(ex, o, name, args):
    ps = shaped(ex, o.t)
    if ps is None:
        return None
    lits = [T.lit_value(a.t) if isinstance(a, Sc) and a.ty == "str" else None for a in args]
    try:
        if name in ("strip", "lstrip", "rstrip") and (not args or lits[0] is not None):
            return text(ex, stripped(ps, name != "rstrip", name != "lstrip", lits[0] if args else None))
        if name == "split" and not args:
            core = stripped(ps, True, True)
            toks = split_on(ex, core, WS + "+") if core else []
            return ex.new_cell(("clist", [text(ex, t) for t in toks]))
        if name == "split" and lits[0]:
            limit = ex.pyval(args[1]) if len(args) > 1 else None
            if limit is not None and limit < 0:
                limit = None
            return ex.new_cell(("clist", [text(ex, t) for t in split_on(ex, ps, re.escape(lits[0]), limit=limit)]))
        if name in ("startswith", "endswith") and lits and lits[0] is not None:
            q = SL.lit(lits[0])
            L = SL.build(SL.seqnode_of([q, SL.ANYS] if name == "startswith" else [SL.ANYS, q]))
            d = inside(ps, L)
            return None if d is None else B(d)
        if name in ("isdigit", "isnumeric", "isdecimal") and not args:
            d = inside(ps, SL.build(SL.lang("[0-9]+")))
            return None if d is None else B(d)
        if name == "isalpha" and not args:
            d = inside(ps, SL.build(SL.lang("[A-Za-z]+")))
            return None if d is None else B(d)
        if name == "isalnum" and not args:
            d = inside(ps, SL.build(SL.lang("[A-Za-z0-9]+")))
            return None if d is None else B(d)
        if name == "replace" and len(args) == 2 and lits[0]:
            toks = split_on(ex, ps, re.escape(lits[0]))
            out = []
            for i, t in enumerate(toks):
                if i:
                    out.append(args[1].t)
                out += [p.term for p in t]
            return Sc("str", ex.concat(out) if out else slit(""))
        if name == "count" and len(args) == 1 and lits[0]:
            return I(len(split_on(ex, ps, re.escape(lits[0]))) - 1)
        if name in ("lower", "upper") and not args:
            s = SL.build(SL.seqnode(ps))
            if SL.disjoint(s, SL.build(SL.seqnode_of([SL.ANYS, SL.lang(CASE[name][0]), SL.ANYS]))):
                return o
    except SL.Unknown:
        return None
    return None


def inside(ps, L):
    s = SL.build(SL.seqnode(ps))
    if SL.subset(s, L):
        return True
    if SL.disjoint(s, L):
        return False
    return None


def h_in(ex, x, c):
    """x in c for texts"""
    v = T.lit_value(x)
    ps = shaped(ex, c)
    if v is None or ps is None:
        return None
    try:
        return inside(ps, SL.build(SL.seqnode_of([SL.ANYS, SL.lit(v), SL.ANYS])))
    except SL.Unknown:
        return None


def h_str_eq(ex, a, b):
    """True / False when two texts are equal / different for all values, else None"""
    if a.eq(b):
        return True
    if T.lit_value(a) is not None and T.lit_value(b) is not None:
        return None
    pa, pb = pieces(ex, a), pieces(ex, b)
    if pa is None or pb is None:
        return None
    try:
        if SL.disjoint(SL.build(SL.seqnode(pa)), SL.build(SL.seqnode(pb))):
            return False
    except SL.Unknown:
        pass
    return None


def h_re_split(ex, pat, t):
    p = T.lit_value(pat)
    ps = pieces(ex, t)
    if p is None or ps is None:
        return None
    try:
        if SL.parse(p)[2] or any(x[0] in ("bos", "eos", "eoz") for x in SL.parse(p)[0][1]):
            return None
        return ex.new_cell(("clist", [text(ex, x) for x in split_on(ex, ps, p)]))
    except SL.Unknown:
        return None


def h_re_sub(ex, pat, repl, t):
    """re.sub leaves a text without any match as it is"""
    p, ps = T.lit_value(pat), shaped(ex, t.t)
    if p is None or ps is None:
        return None
    try:
        return t if SL.Matcher(p, ps, "search").decide() is False else None
    except SL.Unknown:
        return None


def h_int_str(ex, t):
    """int() ignores blanks around the number"""
    ps = shaped(ex, t)
    if ps is None:
        return t
    try:
        core = stripped(ps, True, True)
    except SL.Unknown:
        return t
    return text(ex, core).t


def h_filter(ex, f, t):
    """filter(str.isdigit, text): the pieces made of digits only"""
    if getattr(f, "name", None) not in ("str.isdigit", "isdigit"):
        return None
    ps = shaped(ex, t)
    if ps is None:
        return None
    out = []
    for p in ps:
        one = SL.build(p.node)
        if SL.subset(one, SL.build(SL.lang("[0-9]*"))):
            out.append(Sc("str", p.term))
        elif not SL.subset(one, SL.build(SL.lang("[^0-9]*"))):
            return None
    return ConcIterV(out)


HOOKS = {"int_str": h_int_str, "filter_str": h_filter, "re": h_re, "group": h_group, "str_method": h_str_method, "str_in": h_in, "str_eq": h_str_eq, "re_split": h_re_split, "re_sub": h_re_sub}
TRUSTED = ["texts under the shape back end are ASCII; Python's re, str.strip/split/startswith/in/replace/isdigit follow their documentation on them "
           "(the automata translation is compared with CPython by tools/selftest_strlang.py)"]
