"""Deciding string operations on texts of known shape.

A text of known shape is a concatenation of literal characters and *atoms*; an atom stands for an arbitrary word of a
regular language (ASCII).  Python regular expressions are translated to automata, and the questions the engine asks -
does every / no such text match, which part of the text is group k of the leftmost, priority-first match - are decided
by automata inclusion and emptiness, for all words of all atoms at once.  Anything outside the supported fragment
(look-around, back references, conditional patterns, anchors in the middle) raises Unknown and nothing is concluded."""
import re
try:
    from re import _parser as sre_parse, _constants as sc
except ImportError:                                      # pragma: no cover
    import sre_parse
    import sre_constants as sc

NCH = 128
ALL = (1 << NCH) - 1
HASH, AT = 1 << NCH, 1 << (NCH + 1)


class Unknown(Exception):
    pass


def mask(chars):
    m = 0
    for c in chars:
        if ord(c) >= NCH:
            raise Unknown("non-ASCII character")
        m |= 1 << ord(c)
    return m


DIGIT = mask("0123456789")
SPACE = mask(" \t\n\r\f\v\x1c\x1d\x1e\x1f")
WORD = mask("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_")
NL = mask("\n")
CAT = {sc.CATEGORY_DIGIT: DIGIT, sc.CATEGORY_NOT_DIGIT: ALL & ~DIGIT, sc.CATEGORY_SPACE: SPACE, sc.CATEGORY_NOT_SPACE: ALL & ~SPACE,
       sc.CATEGORY_WORD: WORD, sc.CATEGORY_NOT_WORD: ALL & ~WORD}


def swapcase(m):
    r = m
    for c in range(65, 91):
        if m >> c & 1:
            r |= 1 << (c + 32)
        if m >> (c + 32) & 1:
            r |= 1 << c
    return r


# ------------------------------------------------------------------------------------------------ patterns
def parse(pat, flags=0):
    """-> (node, group names {name: index}, number of groups)"""
    try:
        p = sre_parse.parse(pat, flags)
    except re.error as e:
        raise Unknown(f"pattern {e}")
    fl = p.state.flags
    if fl & (re.MULTILINE | re.LOCALE):
        raise Unknown("flags")
    ic, dot = bool(fl & re.IGNORECASE), bool(fl & re.DOTALL)

    def chars(m):
        return ("chars", swapcase(m) if ic else m)

    def conv(p):
        out = []
        for op, av in p:
            if op is sc.LITERAL:
                out.append(chars(mask(chr(av))))
            elif op is sc.NOT_LITERAL:
                m = mask(chr(av))
                out.append(("chars", ALL & ~(swapcase(m) if ic else m)))
            elif op is sc.ANY:
                out.append(("chars", ALL if dot else ALL & ~NL))
            elif op is sc.IN:
                m, neg = 0, False
                for o, a in av:
                    if o is sc.NEGATE:
                        neg = True
                    elif o is sc.LITERAL:
                        m |= mask(chr(a))
                    elif o is sc.RANGE:
                        for c in range(a[0], a[1] + 1):
                            if c < NCH:
                                m |= 1 << c
                    elif o is sc.CATEGORY:
                        m |= CAT[a]
                    else:
                        raise Unknown("character class")
                if ic:
                    m = swapcase(m)
                out.append(("chars", ALL & ~m if neg else m))
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                out.append(("rep", conv(sub), int(lo), None if hi is sc.MAXREPEAT else int(hi), op is sc.MAX_REPEAT))
            elif op is sc.SUBPATTERN:
                gi, addf, delf, sub = av
                if addf or delf:
                    raise Unknown("inline flags")
                out.append(("grp", gi, conv(sub)) if gi is not None else conv(sub))
            elif op is sc.BRANCH:
                out.append(("alt", [conv(x) for x in av[1]]))
            elif op is sc.AT:
                if av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                    out.append(("bos",))
                elif av is sc.AT_END:
                    out.append(("eos",))
                elif av is sc.AT_END_STRING:
                    out.append(("eoz",))
                else:
                    raise Unknown("word boundary")
            else:
                raise Unknown(str(op))
        return ("seq", out)
    return conv(p), dict(p.state.groupdict), p.state.groups - 1


def strip_groups(n):
    k = n[0]
    if k == "grp":
        return strip_groups(n[2])
    if k == "seq":
        return ("seq", [strip_groups(x) for x in n[1]])
    if k == "alt":
        return ("alt", [strip_groups(x) for x in n[1]])
    if k == "rep":
        return ("rep", strip_groups(n[1]), n[2], n[3], n[4])
    return n


# ------------------------------------------------------------------------------------------------ automata
def rest_after(work, tail):
    return ("seq", [strip_groups(y[1]) for y in work if y[0] == "item"] + [tail])


class NFA:
    """states 0..n-1; eps[q] = list, tr[q] = list of (mask, dest)"""

    def __init__(self):
        self.eps, self.tr = [], []
        self.start, self.acc = None, None

    def new(self):
        self.eps.append([])
        self.tr.append([])
        return len(self.eps) - 1

    def add(self, other):
        """copy of another automaton's states; -> (start, acc) in this one"""
        k = len(self.eps)
        for q in range(len(other.eps)):
            self.eps.append([x + k for x in other.eps[q]])
            self.tr.append([(m, d + k) for m, d in other.tr[q]])
        return other.start + k, other.acc + k

    def closure(self, qs):
        st, seen = list(qs), set(qs)
        while st:
            q = st.pop()
            for d in self.eps[q]:
                if d not in seen:
                    seen.add(d)
                    st.append(d)
        return frozenset(seen)


def build(node):
    n = NFA()

    def b(x, s):
        """fragment of x starting at s -> end state"""
        k = x[0]
        if k == "chars":
            e = n.new()
            n.tr[s].append((x[1], e))
            return e
        if k == "seq":
            for y in x[1]:
                s = b(y, s)
            return s
        if k == "alt":
            e = n.new()
            for y in x[1]:
                i = n.new()
                n.eps[s].append(i)
                n.eps[b(y, i)].append(e)
            return e
        if k == "grp":
            return b(x[2], s)
        if k == "rep":
            lo, hi = x[2], x[3]
            for _ in range(lo):
                s = b(x[1], s)
            if hi is None:
                i = n.new()
                n.eps[s].append(i)
                e = n.new()
                n.eps[i].append(e)
                n.eps[b(x[1], i)].append(i)
                return e
            e = n.new()
            n.eps[s].append(e)
            for _ in range(hi - lo):
                s = b(x[1], s)
                n.eps[s].append(e)
            return e
        if k == "nfa":
            a, z = n.add(x[1])
            n.eps[s].append(a)
            return z
        raise Unknown(f"anchor inside the pattern ({k})")
    n.start = n.new()
    n.acc = b(node, n.start)
    return n


EMPTY = ("seq", [])
ANYS = ("rep", ("chars", ALL), 0, None, True)


def nonempty(node):
    """the non-empty words of a language"""
    return restrict(build(node), "", build(("rep", ("chars", ALL), 1, None, True)), "", True)


def concat(a, b):
    n = NFA()
    s1, e1 = n.add(a)
    s2, e2 = n.add(b)
    n.eps[e1].append(s2)
    n.start, n.acc = s1, e2
    return n


def lit(s):
    return ("seq", [("chars", mask(c)) for c in s])


def inter_witness(a, b):
    """a word in both languages, or None"""
    s = (a.closure([a.start]), b.closure([b.start]))
    # simulate both as NFAs pairwise (on single states, cheaper than subsets)
    start = [(p, q) for p in s[0] for q in s[1]]
    seen = {x: None for x in start}
    todo = list(start)
    while todo:
        p, q = x = todo.pop()
        if p == a.acc and q == b.acc:
            w = []
            while seen[x] is not None:
                x, c = seen[x]
                w.append(c)
            return "".join(reversed(w))
        for m1, d1 in a.tr[p]:
            for m2, d2 in b.tr[q]:
                m = m1 & m2
                if m:
                    c = (m & -m).bit_length() - 1
                    ch = chr(c) if c < NCH else {NCH: "\u2317", NCH + 1: "\u2318"}[c]
                    for e1 in a.closure([d1]):
                        for e2 in b.closure([d2]):
                            if (e1, e2) not in seen:
                                seen[(e1, e2)] = (x, ch)
                                todo.append((e1, e2))
    return None


def disjoint(a, b):
    return inter_witness(a, b) is None


def blocks(ms):
    """partition of the alphabet by a set of masks"""
    parts = [ALL | HASH | AT]
    for m in set(ms):
        nxt = []
        for p in parts:
            x, y = p & m, p & ~m
            if x:
                nxt.append(x)
            if y:
                nxt.append(y)
        parts = nxt
    return parts


def subset(a, b):
    """every word of a is a word of b"""
    bm = [m for t in b.tr for m, _ in t]
    parts = blocks(bm)
    clos = {}

    def bstep(S, part):
        k = (S, part)
        if k not in clos:
            clos[k] = b.closure({d for q in S for m, d in b.tr[q] if m & part})
        return clos[k]
    s0 = b.closure([b.start])
    todo = [(p, s0) for p in a.closure([a.start])]
    seen = set(todo)
    while todo:
        p, S = todo.pop()
        if p == a.acc and b.acc not in S:
            return False
        for m, d in a.tr[p]:
            for part in parts:
                if m & part:
                    T = bstep(S, part)
                    for e in a.closure([d]):
                        if (e, T) not in seen:
                            seen.add((e, T))
                            todo.append((e, T))
    return True


def restrict(x, pre, r, post, positive):
    """the words w of x with pre+w+post (not) in r, as an automaton; pre, post: fixed texts"""
    rm = [m for t in r.tr for m, _ in t]
    parts = blocks(rm)

    def step(S, part):
        return r.closure({d for q in S for m, d in r.tr[q] if m & part})

    def run(S, text):
        for c in text:
            m = mask(c)
            S = r.closure({d for q in S for mm, d in r.tr[q] if mm & m})
        return S
    S0 = run(r.closure([r.start]), pre)
    out = NFA()
    acc_cache = {}
    ids = {}

    def st(p, S):
        if (p, S) not in ids:
            ids[(p, S)] = out.new()
            todo.append((p, S))
        return ids[(p, S)]
    todo = []
    out.start = out.new()
    out.acc = out.new()
    out.eps[out.start].append(st(x.start, S0))
    while todo:
        p, S = todo.pop()
        i = ids[(p, S)]
        if p == x.acc:
            if S not in acc_cache:
                acc_cache[S] = (r.acc in run(S, post)) == positive
            if acc_cache[S]:
                out.eps[i].append(out.acc)
        for d in x.eps[p]:
            out.eps[i].append(st(d, S))
        for m, d in x.tr[p]:
            for part in parts:
                if m & part:
                    out.tr[i].append((m & part, st(d, step(S, part))))
    return out


def is_empty(a):
    return a.acc not in _reach(a)


def _reach(a):
    seen, todo = {a.start}, [a.start]
    while todo:
        q = todo.pop()
        for d in a.eps[q] + [d for _, d in a.tr[q]]:
            if d not in seen:
                seen.add(d)
                todo.append(d)
    return seen


def shuffle(a, sym):
    """a with one occurrence of the marker inserted anywhere"""
    n = NFA()
    s1, e1 = n.add(a)
    s2, e2 = n.add(a)
    k1, k2 = s1 - a.start, s2 - a.start
    for q in range(len(a.eps)):
        n.tr[q + k1].append((sym, q + k2))
    n.start, n.acc = s1, e2
    return n


# ------------------------------------------------------------------------------------------------ texts and matches
class Piece:
    def __init__(self, node, term, text=None):
        self.node, self.term, self.text = node, term, text          # text: the character, for a literal piece


def seqnode_of(nodes):
    return ("seq", list(nodes))


def seqnode(pieces):
    return ("seq", [p.node for p in pieces])


class Match:
    def __init__(self, spans, names, n):
        self.spans, self.names, self.n = spans, names, n            # {group: (i, j) in pieces or None}


class Matcher:
    """the leftmost, priority-first match of a pattern in a text of known shape"""

    def __init__(self, pat, pieces, mode="search", flags=0):
        self.node, self.names, self.n = parse(pat, flags)
        self.pieces = pieces
        self.mode = mode

    def anchored(self):
        """(anchored at the start, tail language after the match, the items without anchors)"""
        items = self._flat_anchor(self.node)
        bos = self.mode != "search"
        if items and items[0][0] == "bos":
            bos = True
            items = items[1:]
        tail = ANYS
        if items and items[-1][0] in ("eos", "eoz"):
            tail = ("rep", ("chars", NL), 0, 1, True) if items[-1][0] == "eos" else EMPTY
            items = items[:-1]
        if self.mode == "fullmatch":
            tail = EMPTY
        return bos, tail, items

    def _flat_anchor(self, node):
        out = []
        for x in node[1]:
            if x[0] == "seq":
                out += self._flat_anchor(x)
            else:
                out.append(x)
        return out

    def language(self):
        bos, tail, items = self.anchored()
        return build(("seq", ([] if bos else [ANYS]) + [strip_groups(x) for x in items] + [tail]))

    def decide(self):
        """True / False when all / no texts match, else None"""
        s = build(seqnode(self.pieces))
        L = self.language()
        if subset(s, L):
            return True
        if disjoint(s, L):
            return False
        return None

    def match(self):
        """spans of all groups; the text is known to match for all values"""
        bos, tail, items = self.anchored()
        spans = {g: None for g in range(1, self.n + 1)}
        work = []
        if not bos:
            work.append(("item", ("rep", ("chars", ALL), 0, None, False)))          # leftmost: shortest prefix first
        work.append(("open", 0))
        work += [("item", x) for x in items]
        work.append(("close", 0))
        opens = {}
        pos = 0
        while work:
            w = work.pop(0)
            if w[0] == "open":
                opens[w[1]] = pos
                continue
            if w[0] == "close":
                spans[w[1]] = (opens[w[1]], pos)
                continue
            x = w[1]
            rest = rest_after(work, tail)
            k = x[0]
            if k == "seq":
                work = [("item", y) for y in x[1]] + work
                continue
            if k == "grp":
                if strip_groups(x[2]) == x[2]:
                    try:           # the whole group at once, when only one extent is possible for any value
                        end = self.fixed(pos, x[2], rest_after(work, tail), True, unique=True)
                        spans[x[1]] = (pos, end)
                        pos = end
                        continue
                    except Unknown:
                        pass
                work = [("open", x[1]), ("item", x[2]), ("close", x[1])] + work
                continue
            if k in ("bos", "eos", "eoz"):
                raise Unknown("anchor inside the pattern")
            if k == "alt":
                for y in x[1]:
                    f = self.feasible(pos, ("seq", [strip_groups(y), rest]))
                    if f is None:
                        raise Unknown("alternative depends on the value")
                    if f:
                        work.insert(0, ("item", y))
                        break
                else:
                    raise Unknown("no alternative")
                continue
            if k == "chars":
                pos = self.fixed(pos, x, rest, greedy=True)
                continue
            if k == "rep":
                lo, hi, greedy = x[2], x[3], x[4]
                body = strip_groups(x[1])
                if self._single(body):
                    end = self.fixed(pos, strip_groups(x), rest, greedy)
                    if x[1] != body:
                        self.repeated_group(x[1], pos, end, spans)
                    pos = end
                    continue
                if hi == 1 and lo == 0:
                    f = self.feasible(pos, ("seq", [body, rest])) if greedy else self.feasible(pos, rest)
                    if f is None:
                        raise Unknown("option depends on the value")
                    if f == greedy:
                        work.insert(0, ("item", x[1]))
                    continue
                if hi == lo and lo <= 8:
                    work = [("item", x[1])] * lo + work
                    continue
                # general repetition: take it only when its extent is unique
                pos = self.fixed(pos, strip_groups(x), rest, greedy, unique=True)
                if x[1] != body:
                    raise Unknown("group inside a repetition")
                continue
            raise Unknown(k)
        return Match(spans, self.names, self.n)

    def repeated_group(self, n, pos, end, spans):
        """(c)*: the group keeps its last single character, nothing when there was none"""
        while n[0] == "seq" and len(n[1]) == 1:
            n = n[1][0]
        if n[0] != "grp" or strip_groups(n[2]) != n[2]:
            raise Unknown("group inside a repetition")
        if end > pos:
            if not self._single(self.pieces[end - 1].node):
                raise Unknown("last character of a repetition")
            spans[n[1]] = (end - 1, end)

    def _single(self, n):
        if n[0] == "chars":
            return True
        return n[0] == "seq" and len(n[1]) == 1 and self._single(n[1][0])

    def feasible(self, pos, node):
        s = build(seqnode(self.pieces[pos:]))
        L = build(node)
        if subset(s, L):
            return True
        if disjoint(s, L):
            return False
        return None

    def fixed(self, pos, item, rest, greedy, unique=False):
        """the end position of an item: a boundary between pieces that is right for all values"""
        ps = self.pieces
        ni, nr = build(item), build(rest)
        cands = range(len(ps), pos - 1, -1) if greedy else range(pos, len(ps) + 1)
        for j in cands:
            a, b = build(seqnode(ps[pos:j])), build(seqnode(ps[j:]))
            if disjoint(a, ni) or disjoint(b, nr):
                continue
            # possible only when the piece next to the boundary is empty: the same place as the boundary beyond it
            if greedy and j > pos and disjoint(concat(build(seqnode(ps[pos:j - 1])), nonempty(ps[j - 1].node)), ni):
                continue
            if not greedy and j < len(ps) and disjoint(concat(nonempty(ps[j].node), build(seqnode(ps[j + 1:]))), nr):
                continue
            if not (subset(a, ni) and subset(b, nr)):
                # may be possible for some values only
                raise Unknown("extent depends on the value")
            if (greedy or unique) and self.other(pos, j, ni, nr, longer=True):
                raise Unknown("a longer match for some value")
            if (not greedy or unique) and self.other(pos, j, ni, nr, longer=False):
                raise Unknown("a shorter match for some value")
            return j
        raise Unknown("no boundary fits")

    def other(self, pos, j, ni, nr, longer):
        """is there a value and a split of the text, later (earlier) than the boundary j, that also fits"""
        ps = self.pieces
        n = NFA()
        n.start = n.new()
        first, second = build(seqnode(ps[pos:j])), build(seqnode(ps[j:]))
        a, z = n.add(first)
        n.eps[n.start].append(a)
        b, y = n.add(second)
        n.tr[z].append((HASH, b))
        n.acc = y
        text = shuffle(n, AT)
        if longer:
            # u # v @ w : uv in item, v non-empty, w in rest
            x, sep_first = mark_nonempty_after(ni), True
        else:
            x, sep_first = ni, False
        p = NFA()
        p.start = p.new()
        if longer:
            a, z = p.add(x)
            p.eps[p.start].append(a)
            b, y = p.add(nr)
            p.tr[z].append((AT, b))
            p.acc = y
        else:
            # u @ v # w : u in item, v non-empty, vw in rest
            a, z = p.add(x)
            p.eps[p.start].append(a)
            b, y = p.add(mark_nonempty_before(nr))
            p.tr[z].append((AT, b))
            p.acc = y
        return not disjoint(text, p)


def _marked(a, before):
    """words of a with # inserted, with at least one character after (before=False) / before (True) it"""
    n = NFA()
    if not before:
        s1, _ = n.add(a)            # before #
        s2, _ = n.add(a)            # right after #, nothing read yet
        s3, e3 = n.add(a)
        k1, k2, k3 = s1 - a.start, s2 - a.start, s3 - a.start
        for q in range(len(a.eps)):
            n.tr[q + k1].append((HASH, q + k2))
        for q in range(len(a.eps)):
            n.tr[q + k2] = [(m, d + k3) for m, d in a.tr[q]]
        n.start, n.acc = s1, e3
    else:
        s1, _ = n.add(a)            # nothing read yet
        s2, _ = n.add(a)            # something read
        s3, e3 = n.add(a)           # after #
        k1, k2, k3 = s1 - a.start, s2 - a.start, s3 - a.start
        for q in range(len(a.eps)):
            n.tr[q + k1] = [(m, d + k2) for m, d in a.tr[q]]
            n.tr[q + k2].append((HASH, q + k3))
        n.start, n.acc = s1, e3
    return n


def mark_nonempty_after(a):
    return _marked(a, False)


def mark_nonempty_before(a):
    return _marked(a, True)


def lang(pat):
    """language of a whole-string pattern (no anchors)"""
    node, _, _ = parse(pat)
    return strip_groups(node)
