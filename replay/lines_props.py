"""Executable oracles of the properties about parsing, structure, search and editing (C01-C12, C14, C21, C25, C26)."""
from core import *
import copy, tempfile, os, itertools


# ------------------------------------------------------------------------------------------------ structure oracles
def spec_parents(tx, comment):
    """parents by indentation alone, for plain lines (index or own index); comment/blank lines get None (unspecified)"""
    out = []
    for i, t in enumerate(tx):
        if not is_cfg(t, comment):
            out.append(None)
            continue
        par = i
        if lead(t) > 0:
            for j in range(i - 1, -1, -1):
                if is_cfg(tx[j], comment) and lead(tx[j]) < lead(t):
                    par = j
                    break
        out.append(par)
    return out


BANNER = ["login", "motd", "incoming", "exec"]


def gen_block(rng):
    """a banner or macro block: list of lines, the last one being the terminator (unless unterminated)"""
    d = rng.choice(["^C", "^", "#", "@", "$", "c", "%", "~"])
    body = [rng.choice(["", " ", "welcome", " welcome to", "   keep out", "!", "! note", "router bgp 1", " interface x", "a"]) for _ in
            range(rng.randint(0, 5))]
    if rng.random() < .3:
        hdr = "macro name " + rng.choice(["foo", "cisco-desktop"])
        body = [rng.choice([b, b, b, " @", "@ x", "x @", "@@"]) for b in body]
        return "macro", [hdr] + body, rng.choice(["@", "@", "@", "@  "])
    ch = d[0]
    hdr = rng.choice(["", "", "", "set "]) + f"banner {rng.choice(BANNER)} {d}"
    if rng.random() < .3 and ch != "c":
        hdr += " hello"
    body = [b for b in body if ch not in b]
    end = rng.choice([d, d, " " + d, "bye" + d if ch not in "bye" else d, d + " tail", "bye " + d + " tail" if ch not in "bye " else d])
    return "banner", [hdr] + body, end


def gen_any(rng, blocks=.35, braces=.15):
    """lines of a configuration, possibly with banner/macro blocks and balanced braces"""
    delim = "!"
    out = gen_lines(rng)
    if rng.random() < blocks:
        for _ in range(rng.randint(1, 2)):
            kind, b, end = gen_block(rng)
            k = rng.randint(0, len(out))
            if rng.random() < .85:
                b = b + [end]
            out[k:k] = b
    if rng.random() < braces:
        k = rng.randint(0, len(out))
        ind = " " * rng.choice([0, 1, 2])
        inner = [ind + " " + rng.choice(["x", "y"]) for _ in range(rng.randint(0, 2))]
        out[k:k] = [ind + "block {"] + inner + [ind + "}"]
    return out


def has_block(lines):
    return any(re.search(r"^(set\s+)*banner\s|^macro name |aaa authentication fail-message", x) for x in lines)


def has_brace(lines):
    return any(x.rstrip().endswith("{") or x.strip().startswith("}") for x in lines)


# ------------------------------------------------------------------------------------------------ C01
@prop("C01")
class C01:
    def gen(rng):
        lines = gen_any(rng)
        return {"lines": lines, "st": gen_settings(rng)}

    def check(c):
        st = c["st"]
        p = parse(c["lines"], **st)
        src = [x.rstrip() for x in c["lines"]]
        got = texts(p)
        if not st["ignore_blank_lines"]:
            eq(got, src, "texts of the parsed lines")
        else:
            eq([t for t in got if t], [s for s in src if s], "non-blank texts")
            it = iter(src)
            expect(all(any(t == s for s in it) for t in got), "parsed lines %s are not the input lines %s less blank ones", short(got), short(src))
            if not has_block(c["lines"]):
                expect("" not in got, "blank line kept although blank lines are ignored: %s", short(got))
        numbers_ok(p)
        for o in p.ConfigObjs:
            eq(o.indent, lead(o.text), f"indent of {o.text!r}")
            eq(bool(o.is_comment), is_comment(o.text, st["comment"]), f"comment status of {o.text!r}")
        eq(p.ioscfg, got, "ioscfg")
        eq(len(p.ConfigObjs), len(got), "length")


# ------------------------------------------------------------------------------------------------ C02
@prop("C02")
class C02:
    def gen(rng):
        return {"lines": gen_lines(rng), "st": gen_settings(rng)}

    def check(c):
        st = c["st"]
        p = parse(c["lines"], **st)
        os_ = objs(p)
        ix = index_of(os_)
        tx = [o.text for o in os_]
        want = spec_parents(tx, st["comment"])
        for i, o in enumerate(os_):
            pi = ix.get(id(o.parent))
            expect(pi is not None, "parent of line %d %r is not a line of the configuration", i, o.text)
            if want[i] is not None:
                eq(pi, want[i], f"parent of line {i} {o.text!r} in {short(tx)}")
            if pi != i:
                expect(is_cfg(tx[pi], st["comment"]), "line %d %r is parent of line %d", pi, tx[pi], i)
                expect(lead(tx[pi]) < lead(o.text), "parent %d %r of %d %r is not indented less", pi, tx[pi], i, o.text)
            for ch in o.children:
                expect(is_cfg(o.text, st["comment"]), "line %d %r has a child %r", i, o.text, ch.text)


# ------------------------------------------------------------------------------------------------ C03
def links_ok(p):
    os_ = objs(p)
    ix = index_of(os_)
    kids = {i: [] for i in range(len(os_))}
    for i, o in enumerate(os_):
        j = ix.get(id(o.parent))
        expect(j is not None, "parent of line %d %r is not in the configuration", i, o.text)
        if j != i:
            expect(j < i, "parent (line %d) of line %d comes after it", j, i)
            kids[j].append(i)
    for i, o in enumerate(os_):
        got = [ix.get(id(c)) for c in o.children]
        eq(got, kids[i], f"children of line {i} {o.text!r} of {short([o.text for o in os_])}")
        eq(bool(o.has_children), bool(kids[i]), f"has_children of line {i}")
        eq(bool(o.is_parent), bool(kids[i]), f"is_parent of line {i}")
        eq(bool(o.is_child), ix[id(o.parent)] != i, f"is_child of line {i}")


@prop("C03")
class C03:
    def gen(rng):
        return {"lines": gen_any(rng), "st": gen_settings(rng)}

    def check(c):
        p = parse(c["lines"], **c["st"])
        links_ok(p)


# ------------------------------------------------------------------------------------------------ C04
def closure(os_):
    ix = index_of(os_)
    par = [ix.get(id(o.parent)) for o in os_]
    anc = []
    for i in range(len(os_)):
        a, j = [], i
        while par[j] != j:
            j = par[j]
            a.append(j)
            if len(a) > len(os_):
                raise Fail(f"parents of line {i} form a cycle")
        anc.append(a)
    return ix, anc


@prop("C04")
class C04:
    def gen(rng):
        return {"lines": gen_any(rng), "st": gen_settings(rng)}

    def check(c):
        p = parse(c["lines"], **c["st"])
        os_ = objs(p)
        ix, anc = closure(os_)
        for i, o in enumerate(os_):
            desc = [j for j in range(len(os_)) if i in anc[j]]
            up = sorted(anc[i])
            loc = f"line {i} {o.text!r} of {short([x.text for x in os_])}"
            eq([ix.get(id(x)) for x in o.all_children], desc, f"all_children of {loc}")
            eq([ix.get(id(x)) for x in o.all_parents], up, f"all_parents of {loc}")
            eq([ix.get(id(x)) for x in o.geneology], up + [i], f"geneology of {loc}")
            eq(list(o.geneology_text), [os_[j].text for j in up] + [o.text], f"geneology_text of {loc}")
            eq([ix.get(id(x)) for x in o.lineage], sorted(up + [i] + desc), f"lineage of {loc}")
            eq([ix.get(id(x)) for x in o.siblings], [ix.get(id(x)) for x in o.parent.children if x.indent == o.indent], f"siblings of {loc}")
            eq(o.family_endpoint, desc[-1] if desc else i, f"family_endpoint of {loc}")


# ------------------------------------------------------------------------------------------------ C05-C08 search
class Search:
    def gen(rng):
        lines = gen_any(rng, blocks=.15, braces=.05)
        pool = [x for x in lines if x.strip()]
        return {"lines": lines, "st": gen_settings(rng, .1), "p": gen_regex(rng, pool), "q": gen_regex(rng, pool), "r": gen_regex(rng, pool),
                "ws": rng.random() < .3, "exact": rng.random() < .4, "rec": rng.random() < .5, "esc": rng.random() < .15}

    def setup(c):
        p = parse(c["lines"], **c["st"])
        os_ = objs(p)
        return p, os_, index_of(os_)


def ids(ix, res):
    return [ix.get(id(o)) for o in res]


@prop("C05")
class C05(Search):
    gen = Search.gen

    def check(c):
        p, os_, ix = Search.setup(c)
        rx = ws_tolerant(c["p"]) if c["ws"] else c["p"]
        want = [i for i, o in enumerate(os_) if (full(rx, o.text) if c["exact"] else has(rx, o.text))]
        before = snapshot(p)
        kw = dict(exactmatch=c["exact"], ignore_ws=c["ws"])
        eq(ids(ix, p.find_objects(c["p"], **kw)), want, f"find_objects({c['p']!r}, {kw})")
        eq(p.find_lines(c["p"], **kw), [os_[i].text for i in want], f"find_lines({c['p']!r}, {kw})")
        any_ = any(has(c["p"], o.text) for o in os_)
        eq(bool(p.has_line_with(c["p"])), any_, f"has_line_with({c['p']!r})")
        eq(bool(p.ConfigObjs.has_line_with(c["p"])), any_, f"ConfigObjs.has_line_with({c['p']!r})")
        eq(snapshot(p), before, "configuration after the search")
        eq(ids(ix, p.find_objects(c["p"], **kw)), want, f"second find_objects({c['p']!r}, {kw})")


def child_ok(rx, t):
    return t != "" and (rx in t or has(rx, t))


def sub_kids(o, rec):
    if not rec:
        return list(o.children)
    out = []
    for ch in o.children:
        out.append(ch)
        out += sub_kids(ch, True)
    return out


def prep(c, s):
    if c["ws"]:
        s = ws_tolerant(s)
    if c["esc"]:
        s = re.escape(s)
    return s


@prop("C06")
class C06(Search):
    gen = Search.gen

    def check(c):
        p, os_, ix = Search.setup(c)
        P, Q = prep(c, c["p"]), prep(c, c["q"])
        before = snapshot(p)
        withk = [i for i, o in enumerate(os_) if has(P, o.text) and any(child_ok(Q, k.text) for k in sub_kids(o, c["rec"]))]
        wo = [i for i, o in enumerate(os_) if has(P, o.text) and i not in withk]
        kw = dict(ignore_ws=c["ws"], recurse=c["rec"])
        a = (c["p"], c["q"])
        if not (c["esc"] and c["ws"]):
            eq(ids(ix, p.find_parent_objects(*a, escape_chars=c["esc"], **kw)), withk, f"find_parent_objects({a}, {kw})")
            eq(ids(ix, p.find_parent_objects_wo_child(*a, escape_chars=c["esc"], **kw)), wo, f"find_parent_objects_wo_child({a}, {kw})")
        if not c["esc"]:
            eq(ids(ix, p.find_objects_w_child(*a, **kw)), withk, f"find_objects_w_child({a}, {kw})")
            eq(ids(ix, p.find_objects_wo_child(*a, **kw)), wo, f"find_objects_wo_child({a}, {kw})")
            qs = [c["q"], c["r"]]
            QS = [prep(c, x) for x in qs]
            allk = [i for i, o in enumerate(os_) if has(P, o.text) and all(any(child_ok(q, k.text) for k in sub_kids(o, c["rec"])) for q in QS)]
            eq(ids(ix, p.find_objects_w_all_children(c["p"], qs, **kw)), allk, f"find_objects_w_all_children({c['p']!r}, {qs}, {kw})")
            miss = [i for i, o in enumerate(os_) if has(P, o.text) and not all(any(child_ok(q, k.text) for k in o.children) for q in QS)]
            eq(ids(ix, p.find_objects_w_missing_children(c["p"], qs, ignore_ws=c["ws"])), miss, f"find_objects_w_missing_children({c['p']!r}, {qs})")
            if not c["rec"]:
                tp = [os_[i].text for i in withk]
                eq(sorted(p.find_parents_w_child(*a, ignore_ws=c["ws"])), sorted(tp), f"find_parents_w_child({a})")
                tw = [os_[i].text for i in wo]
                eq(sorted(p.find_parents_wo_child(*a, ignore_ws=c["ws"])), sorted(tw), f"find_parents_wo_child({a})")
        eq(snapshot(p), before, "configuration after the search")


@prop("C07")
class C07(Search):
    gen = Search.gen

    def check(c):
        p, os_, ix = Search.setup(c)
        P, Q = prep(c, c["p"]), prep(c, c["q"])
        before = snapshot(p)
        _, anc = closure(os_)
        par = [ix[id(o.parent)] for o in os_]

        def above(i, rec):
            return anc[i] if rec else ([par[i]] if par[i] != i else [])
        want = {r: [i for i, o in enumerate(os_) if has(Q, o.text) and any(has(P, os_[j].text) for j in above(i, r))] for r in (False, True)}
        a = (c["p"], c["q"])
        if not (c["esc"] and c["ws"]):
            eq(ids(ix, p.find_child_objects(*a, ignore_ws=c["ws"], recurse=c["rec"], escape_chars=c["esc"])), want[c["rec"]],
               f"find_child_objects({a}, recurse={c['rec']})")
        if not c["esc"]:
            eq(ids(ix, p.find_objects_w_parents(*a, ignore_ws=c["ws"])), want[False], f"find_objects_w_parents({a})")
            eq(p.find_children_w_parents(*a, ignore_ws=c["ws"]), [os_[i].text for i in want[True]], f"find_children_w_parents({a})")
        eq(snapshot(p), before, "configuration after the search")


@prop("C08")
class C08(Search):
    def gen(rng):
        c = Search.gen(rng)
        pool = [x for x in c["lines"] if x.strip()]
        c["spec"] = [gen_regex(rng, pool) if rng.random() < .7 else rng.choice([".", r"\S", "^", "a|b|i"]) for _ in range(rng.randint(1, 4))]
        c["flags"] = rng.choice([0, 0, re.IGNORECASE])
        if c["flags"]:
            c["spec"] = [s.swapcase() if rng.random() < .5 and "\\" not in s else s for s in c["spec"]]
            c["spec"] = [s if not s.startswith("(?I)") else "a" for s in c["spec"]]
        return c

    def check(c):
        p, os_, ix = Search.setup(c)
        spec, fl = c["spec"], c["flags"]

        def ext(branch, k):
            if k == len(spec):
                return [branch]
            if k and branch[-1] is None:
                return ext(branch + [None], k + 1)
            pool = os_ if k == 0 else os_[branch[-1]].children
            nxt = [ix[id(o)] for o in pool if has(spec[k], o.text, fl)] or [None]
            return [b for n in nxt for b in ext(branch + [n], k + 1)]
        want = ext([], 0)
        before = snapshot(p)
        got = p.find_object_branches(tuple(spec), regex_flags=fl)
        eq([[None if o is None else ix.get(id(o)) for o in b] for b in got], want, f"find_object_branches({spec}, regex_flags={fl})")
        eq(snapshot(p), before, "configuration after the search")


# ------------------------------------------------------------------------------------------------ C09 insertion
def edit_base(rng, factory=.2):
    lines = [x for x in gen_any(rng, blocks=.1, braces=0) if x.strip()]
    if rng.random() < .3:
        words = rng.sample(["x", "k", "a", "xk", "interface x"], rng.randint(1, 3))      # many equal lines
        lines = [" " * rng.randrange(rng.choice([2, 3])) + rng.choice(words) for _ in range(rng.randint(2, 9))]
    st = gen_settings(rng, factory)
    return lines, st


NEW = ["newline", " newline", "  new sub", "interface Ethernet9/9", " ip address 9.9.9.9 255.255.255.0", "! new comment", "a", " b"]


@prop("C09")
class C09:
    def gen(rng):
        lines, st = edit_base(rng)
        if not lines:
            lines = ["a"]
        return {"lines": lines, "st": st, "op": rng.choice(["before", "after", "obj_before", "obj_after", "list_before", "list_after", "append",
                                                            "prepend", "family", "after_child", "list_insert", "list_obj"]),
                "p": gen_regex(rng, lines), "q": gen_regex(rng, lines), "new": rng.choice(NEW), "k": rng.randrange(len(lines)),
                "exact": rng.random() < .3, "ws": rng.random() < .2, "ind": rng.choice([-1, -1, -1, 0, 2]), "n": rng.randint(1, 2),
                "atomic": rng.random() < .3}

    def check(c):
        p = parse(c["lines"], **c["st"])
        for rnd in range(c["n"]):
            C09.once(c, p)

    def once(c, p):
        os_ = objs(p)
        tx = [o.text for o in os_]
        op, new = c["op"], c["new"]
        rx = ws_tolerant(c["p"]) if c["ws"] else c["p"]
        hit = [full(rx, t) if c["exact"] else has(rx, t) for t in tx]
        before, after = [False] * len(tx), [False] * len(tx)
        txt = (" " * c["ind"] + new.lstrip()) if c["ind"] >= 0 else new
        k = c["k"] % len(tx)
        head, tail = [], []
        if op in ("before", "after"):
            if c["p"] == "":
                return
            kw = dict(exactmatch=c["exact"], ignore_ws=c["ws"], new_val_indent=c["ind"], atomic=c["atomic"])
            if op == "before":
                before = hit
                p.insert_before(c["p"], new, **kw)
            else:
                after = hit
                p.insert_after(c["p"], new, **kw)
        elif op in ("list_before", "list_after"):
            if c["p"] == "":
                return
            txt = new
            hit = [has(c["p"], t) for t in tx]
            if op == "list_before":
                before = hit
                p.ConfigObjs.insert_before(c["p"], new, atomic=c["atomic"])
            else:
                after = hit
                p.ConfigObjs.insert_after(c["p"], new, atomic=c["atomic"])
        elif op == "obj_before":
            txt = new
            before[k] = True
            os_[k].insert_before(new)
        elif op == "obj_after":
            txt = new
            after[k] = True
            os_[k].insert_after(new)
        elif op == "list_obj":
            txt = new
            before[k] = True
            p.ConfigObjs.insert_before(os_[k], new, atomic=c["atomic"])
        elif op == "append":
            txt, tail = new, [new]
            p.append_line(new)
        elif op == "prepend":
            txt, head = new, [new]
            p.prepend_line(new)
        elif op == "family":
            txt = new
            _, anc = closure(os_) if all(id(o.parent) in index_of(os_) for o in os_) else (None, None)
            if anc is None:
                return
            desc = [j for j in range(len(os_)) if k in anc[j]]
            after[max(desc) if desc else k] = True
            os_[k].append_to_family(new)
        elif op == "list_insert":
            txt = new
            p.ConfigObjs.insert(k, new)
            before[k] = True
        else:
            txt = new
            ix = index_of(os_)
            rows = [ix[id(ch)] for i, o in enumerate(os_) if (full(c["p"], o.text) if c["exact"] else has(c["p"], o.text))
                    for ch in o.children if has(c["q"], ch.text)]
            for j in rows:
                after[j] = True
            p.insert_after_child(c["p"], c["q"], new, exactmatch=c["exact"], atomic=c["atomic"])
        txt = txt.rstrip()
        want = list(head)
        for i, t in enumerate(tx):
            if before[i]:
                want.append(txt)
            want.append(t)
            if after[i]:
                want.append(txt)
        want += tail
        eq(texts(p), want, f"texts after {op} ({ {k: c[k] for k in ('p', 'q', 'new', 'k', 'exact', 'ws', 'ind', 'atomic')} })")
        numbers_ok(p)


# ------------------------------------------------------------------------------------------------ C10 deletion
@prop("C10")
class C10:
    def gen(rng):
        lines, st = edit_base(rng)
        if not lines:
            lines = ["a"]
        if rng.random() < .2:
            lines = [" " * rng.randrange(3) + rng.choice("xk") for _ in range(rng.randint(4, 10))]
            return {"lines": lines, "st": st, "op": "lines", "p": rng.choice(["x", "x", "k", "^ ", "x$"]), "k": [0], "exact": False, "ws": False, "pre": False}
        return {"lines": lines, "st": st, "op": rng.choice(["obj", "obj", "lines", "objs", "kids", "noargs"]), "p": gen_regex(rng, lines),
                "k": [rng.randrange(len(lines)) for _ in range(rng.randint(1, 3))], "exact": rng.random() < .3, "ws": rng.random() < .2,
                "pre": rng.random() < .3}

    def check(c):
        p = parse(c["lines"], **c["st"])
        if c["pre"] and len(p.ConfigObjs) > 0:
            # edit first, so that line numbers of the surviving objects have been renumbered
            objs(p)[0].insert_before("inserted first")
            if len(p.ConfigObjs) > 1:
                p.commit()
        if c["op"] in ("obj", "noargs"):
            for k in c["k"]:
                os_ = objs(p)
                if not os_:
                    return
                k %= len(os_)
                ix, anc = closure(os_)
                gone = {k} | {j for j in range(len(os_)) if k in anc[j]}
                os_[k].delete() if c["op"] == "noargs" else os_[k].delete(recurse=True)
                C10.verify(p, os_, gone, f"delete() of line {k} {os_[k].text!r}")
        else:
            os_ = objs(p)
            ix, anc = closure(os_)
            rx = ws_tolerant(c["p"]) if c["ws"] and c["op"] == "lines" else c["p"]
            if c["op"] == "lines":
                hit = {i for i, o in enumerate(os_) if (full(rx, o.text) if c["exact"] else has(rx, o.text))}
            elif c["op"] == "objs":
                hit = {i for i, o in enumerate(os_) if has(rx, o.text)}
            else:
                k = c["k"][0] % len(os_)
                hit = {ix[id(ch)] for ch in os_[k].children if child_ok(c["p"], ch.text)}
            gone = hit | {j for j in range(len(os_)) if hit & set(anc[j])}
            if c["op"] == "lines":
                p.delete_lines(c["p"], exactmatch=c["exact"], ignore_ws=c["ws"])
            elif c["op"] == "objs":
                for o in p.find_objects(c["p"]):
                    if any(o is x for x in p.ConfigObjs):
                        o.delete()
            else:
                os_[k].delete_children_matching(c["p"])
            C10.verify(p, os_, gone, f"deletion ({c['op']}) of lines matching {c['p']!r}")

    def verify(p, os_, gone, what):
        eq([id(o) for o in p.ConfigObjs], [id(o) for i, o in enumerate(os_) if i not in gone],
           f"{what}: left {short(texts(p))} of {short([o.text for o in os_])}; deleted should be {sorted(gone)}; identities")
        numbers_ok(p)
        links_ok(p)


# ------------------------------------------------------------------------------------------------ C11 replacement
REPL = ["X", "new text", "", " padded", "! commented", r"<\g<0>>", "a", "interface Ethernet1/9"]


@prop("C11")
class C11:
    def gen(rng):
        lines, st = edit_base(rng)
        if not lines:
            lines = ["a"]
        return {"lines": lines, "st": st, "op": rng.choice(["lines", "lines", "kids", "allkids", "sub", "sub_ignore"]), "p": gen_regex(rng, lines),
                "q": gen_regex(rng, lines), "x": rng.choice([None, None, gen_regex(rng, lines)]), "new": rng.choice(REPL), "k": rng.randrange(len(lines)),
                "exact": rng.random() < .3}

    def check(c):
        p = parse(c["lines"], **c["st"])
        os_ = objs(p)
        ix, anc = closure(os_)
        tx = [o.text for o in os_]
        ex = c["x"] or None

        def skip(t):
            return ex is not None and has(ex, t)

        def m(t):
            return (full(c["p"], t) if c["exact"] else has(c["p"], t)) and not skip(t)
        new = c["new"]
        rx = c["p"] if c["op"] in ("lines", "sub", "sub_ignore") else c["q"]
        if c["op"] == "lines":
            hit = [i for i, t in enumerate(tx) if m(t)]
        elif c["op"] == "kids":
            hit = [ix[id(k)] for i, o in enumerate(os_) if m(tx[i]) for k in o.children if has(c["q"], k.text) and not skip(k.text)]
        elif c["op"] == "allkids":
            hit = [j for i, o in enumerate(os_) if m(tx[i]) for j in range(len(os_)) if i in anc[j] and has(c["q"], tx[j]) and not skip(tx[j])]
        else:
            hit = [c["k"] % len(os_)]
            if c["op"] == "sub_ignore" and skip(tx[hit[0]]):
                hit = []
        if c["op"] in ("kids", "allkids") and any(m(tx[i]) for i in hit):
            return          # a rewritten line is itself tested as a parent afterwards: the order of rewriting decides
        if any(re.sub(rx, new, tx[i]).strip() == "" for i in hit) or len(set(hit)) != len(hit):
            # a blank substitution deletes the line; nested parents may substitute twice: checked separately below
            return C11.special(c, p, os_, tx, anc, hit, rx, new)
        want = list(tx)
        for i in hit:
            want[i] = re.sub(rx, new, tx[i]).rstrip()
        ret = C11.call(c, p, os_, ex, new)
        what = f"{c['op']} p={c['p']!r} q={c['q']!r} exclude={ex!r} new={new!r} on {short(tx)}"
        eq([o.text for o in os_], want, f"texts of the lines after {what}")
        eq([id(o) for o in p.ConfigObjs], [id(o) for o in os_], f"line objects after {what}")
        numbers_ok(p)
        for i, o in enumerate(os_):
            eq(o.indent, lead(want[i]), f"indent of line {i} {want[i]!r} after {what}")
            eq(bool(o.is_comment), is_comment(want[i], c["st"]["comment"]), f"comment status of line {i} {want[i]!r} after {what}")
            eq(ix[id(o.parent)], anc[i][0] if anc[i] else i, f"parent of line {i} after {what}")
        if ret is not None:
            eq([x.rstrip() for x in ret], [want[i] for i in hit], f"returned lines of {what}")

    def call(c, p, os_, ex, new):
        if c["op"] == "lines":
            return p.replace_lines(c["p"], new, excludespec=ex, exactmatch=c["exact"])
        if c["op"] == "kids":
            return p.replace_children(c["p"], c["q"], new, excludespec=ex, exactmatch=c["exact"])
        if c["op"] == "allkids":
            return p.replace_all_children(c["p"], c["q"], new, excludespec=ex, exactmatch=c["exact"])
        if c["op"] == "sub":
            os_[c["k"] % len(os_)].re_sub(c["p"], new)
        else:
            os_[c["k"] % len(os_)].re_sub(c["p"], new, ignore_rgx=ex)
        return None

    def special(c, p, os_, tx, anc, hit, rx, new):
        if c["op"] not in ("lines", "sub", "sub_ignore"):
            return
        gone = {i for i in hit if re.sub(rx, new, tx[i]).strip() == ""}
        gone |= {j for j in range(len(tx)) if gone & set(anc[j])}
        want = [re.sub(rx, new, t).rstrip() if i in hit else t for i, t in enumerate(tx) if i not in gone]
        C11.call(c, p, os_, c["x"] or None, new)
        eq(texts(p), want, f"texts after {c['op']} {rx!r} -> {new!r} of {short(tx)} (blank results delete the line and its descendants)")


# ------------------------------------------------------------------------------------------------ C12 commit
@prop("C12")
class C12:
    def gen(rng):
        lines = gen_any(rng, blocks=.2, braces=0)
        if not lines:
            lines = ["a"]
        st = gen_settings(rng, .2)
        ops = []
        for _ in range(rng.randint(1, 5)):
            # the line classifier (factory) refuses statements a substitution made malformed: plain lines there
            o = rng.choice(["before", "after", "delobj", "objafter", "append", "commit"]) if st["factory"] else rng.choice(["before", "after", "del", "delobj", "replace", "append", "prepend", "objafter", "objbefore", "commit", "family", "sub"])
            ops.append([o, gen_regex(rng, lines), rng.choice(NEW), rng.randrange(30)])
        return {"lines": lines, "st": st, "ops": ops}

    def check(c):
        p = parse(c["lines"], **c["st"])
        for o, rx, new, k in c["ops"]:
            n = len(p.ConfigObjs)
            if n == 0:
                break
            k %= n
            if o == "before":
                p.insert_before(rx or "a", new)
            elif o == "after":
                p.insert_after(rx or "a", new)
            elif o == "del":
                p.delete_lines(rx)
            elif o == "delobj":
                objs(p)[k].delete()
            elif o == "replace":
                p.replace_lines(rx, new)
            elif o == "append":
                p.append_line(new)
            elif o == "prepend":
                p.prepend_line(new)
            elif o == "objafter":
                objs(p)[k].insert_after(new)
            elif o == "objbefore":
                objs(p)[k].insert_before(new)
            elif o == "family":
                objs(p)[k].append_to_family(new)
            elif o == "sub":
                objs(p)[k].re_sub(rx, new)
            else:
                p.commit()
        tx = texts(p)
        p.commit()
        if c["st"]["ignore_blank_lines"] and any(t == "" for t in tx):
            return          # blank lines inside banners: see C01
        eq(texts(p), tx, "texts after the commit")
        fresh = parse(tx, **c["st"])
        a, b = snapshot(p), snapshot(fresh)
        for x, y in zip(a, b):
            eq(x, y, "committed line (index, number, text, indent, parent, children, comment) against a fresh parse")
        eq(len(a), len(b), "number of lines")
        eq([type(x).__name__ for x in p.ConfigObjs], [type(x).__name__ for x in fresh.ConfigObjs], "line classes")
        p.commit()
        eq(snapshot(p), a, "second commit")


# ------------------------------------------------------------------------------------------------ C14
@prop("C14")
class C14:
    def gen(rng):
        a, b = gen_lines(rng), gen_lines(rng)
        if rng.random() < .6:
            b = list(a)
            if b and rng.random() < .7:
                b[rng.randrange(len(b))] = rng.choice([" x", "y"] + a)
        return {"a": a, "b": b, "st": gen_settings(rng, .1)}

    def check(c):
        oa, ob = objs(parse(c["a"], **c["st"])), objs(parse(c["b"], **c["st"]))
        al = oa + ob
        for x in al:
            for y in al:
                same = (x.linenum == y.linenum and x.text == y.text)
                eq(x == y, same, f"{x!r} == {y!r}")
                eq(x != y, not same, f"{x!r} != {y!r}")
                if same:
                    eq(hash(x), hash(y), f"hashes of {x!r} and {y!r}")
                eq(x < y, x.linenum < y.linenum, f"{x!r} < {y!r}")
                eq(x > y, x.linenum > y.linenum, f"{x!r} > {y!r}")
            expect(not (x == None), "%r equals None", x)  # noqa: E711
            expect(x != x.text, "%r equals its text", x)
        rev = list(reversed(oa))
        eq([id(o) for o in sorted(rev)], [id(o) for o in oa], "sorting the reversed lines")


# ------------------------------------------------------------------------------------------------ C21
@prop("C21")
class C21:
    def gen(rng):
        lines = gen_any(rng, blocks=.1, braces=0)
        pool = [x for x in lines if x.strip()]
        rx = rng.choice([r"(\d+)", r"^\s*(\S+)\s+(\S+)", r"(a)|(b)", r"vlan\s+(\d+)", r"(\S+)$", r"^(\s*)(\S*)", r"address\s+(\S+)\s+(\S+)", r"(x)?(a)"])
        return {"lines": lines or ["a"], "st": gen_settings(rng, .1), "rx": rx, "group": rng.choice([0, 1, 1, 1, 2]),
                "type": rng.choice(["str", "str", "int", "len"]), "untyped": rng.random() < .5, "default": rng.choice(["", "-1", "7", "_no_"]),
                "rec": rng.random() < .5}

    def check(c):
        p = parse(c["lines"], **c["st"])
        os_ = objs(p)
        ix, anc = closure(os_)
        rty = {"str": str, "int": int, "len": len}[c["type"]]
        rx, g = c["rx"], c["group"]
        if re.compile(rx).groups < g:
            return

        def conv(v):
            try:
                return ("v", rty(v))
            except ValueError:
                return ("ValueError",)
            except TypeError:
                return ("TypeError",)

        def run(f):
            try:
                return ("v", f())
            except ValueError:
                return ("ValueError",)
            except TypeError:
                return ("TypeError",)
        dflt = ("v", c["default"]) if c["untyped"] else conv(c["default"])
        kw = dict(group=g, result_type=rty, default=c["default"], untyped_default=c["untyped"])

        def first(cands):
            for t in cands:
                mm = re.search(rx, t)
                if mm:
                    return None if mm.group(g) is None else conv(mm.group(g))
            return dflt
        for i, o in enumerate(os_):
            mm = re.search(rx, o.text)
            want = conv(mm.group(g)) if mm and mm.group(g) is not None else dflt
            eq(run(lambda: o.re_match_typed(rx, **kw)), want, f"re_match_typed({rx!r}, {kw}) on {o.text!r}")
            eq(o.re_match(rx, group=g, default=c["default"]), mm.group(g) if mm else c["default"], f"re_match({rx!r}) on {o.text!r}")
            kids = [os_[j].text for j in range(len(os_)) if i in anc[j]] if c["rec"] else [k.text for k in o.children]
            w = first([o.text] + kids)
            if w is not None:
                eq(run(lambda: o.re_match_iter_typed(rx, recurse=c["rec"], **kw)), w, f"re_match_iter_typed({rx!r}, recurse={c['rec']}, {kw}) on {o.text!r}")
        w = first([o.text for i, o in enumerate(os_) if not anc[i]])
        if w is not None:
            eq(run(lambda: p.re_match_iter_typed(rx, **kw)), w, f"re_match_iter_typed({rx!r}, {kw}) of the configuration")


# ------------------------------------------------------------------------------------------------ C25
@prop("C25")
class C25:
    def gen(rng):
        lines = gen_any(rng, blocks=.2, braces=0)
        st = gen_settings(rng, .1)
        return {"lines": lines, "st": st, "nl": rng.choice(["\n", "\r\n", "\r"]), "final": rng.random() < .8}

    def check(c):
        st = c["st"]
        p = parse(c["lines"], **st)
        tx = texts(p)
        d = tempfile.mkdtemp(prefix="vf25-")
        fn = os.path.join(d, "cfg")
        try:
            p.save_as(fn)
            raw = open(fn, "rb").read()
            eq(raw, "".join(t + "\n" for t in tx).encode(), "saved file")
            eq(texts(p), tx, "configuration after saving")
            drop = st["ignore_blank_lines"]
            if not (drop and "" in tx):
                q = CiscoConfParse(fn, **st)
                a, b = snapshot(p), snapshot(q)
                # the parent of a comment line may depend on a dropped blank line before it
                eq([x[:4] + x[6:] for x in b], [x[:4] + x[6:] for x in a], "lines read back")
                eq([x[4] for x in b if not x[6]], [x[4] for x in a if not x[6]], "parents read back")
            with open(fn, "wb") as f:
                f.write(c["nl"].join(c["lines"]).encode() + (c["nl"].encode() if c["final"] else b""))
            if c["lines"] and (c["final"] or c["lines"][-1] != ""):
                q = CiscoConfParse(fn, **st)
                eq(snapshot(q), snapshot(parse(c["lines"], **st)), f"reading a file with line ends {c['nl']!r} against parsing its lines")
        finally:
            if os.path.exists(fn):
                os.unlink(fn)
            os.rmdir(d)


# ------------------------------------------------------------------------------------------------ C26
@prop("C26")
class C26:
    def gen(rng):
        pre, post = gen_lines(rng, rng.randint(0, 6), tabs=0), gen_lines(rng, rng.randint(0, 6), tabs=0)
        kind, b, end = gen_block(rng)
        kind2, b2, end2 = gen_block(rng)
        return {"pre": pre, "block": b, "end": end, "post": post, "term": rng.random() < .85, "kind": kind, "ignore": rng.random() < .5,
                "block2": (b2 + [end2]) if rng.random() < .25 and kind2 == "banner" else []}

    def check(c):
        blk = c["block"] + ([c["end"]] if c["term"] else [])
        if c["kind"] == "banner":
            ch = re.search(r"banner\s\w+\s+(\S)", c["block"][0]).group(1)
        post = c["post"]
        if not c["term"]:
            # an unterminated block takes everything up to its delimiter or the end
            out = []
            for t in post:
                out.append(t)
                if (t.rstrip() == "@") if c["kind"] == "macro" else (ch in t):
                    break
            blk, post = blk + out, post[len(out):]
        post = post + (c["block2"] if c["term"] else [])
        lines = c["pre"] + blk + post
        if not lines:
            return
        p = parse(lines, ignore_blank_lines=c["ignore"], factory=False)
        os_ = objs(p)
        ix, anc = closure(os_)
        links_ok(p)
        if c["ignore"]:
            k = lambda x: [y for y in x if len(y) > 0]  # noqa: E731
            pre, blk, post = k(c["pre"]), k(blk), k(post)
            if any(x.strip() == "" for x in post) and any(re.search("banner", x) for x in post):
                return
            pre = [x for x in pre if x.strip()]
            post2 = [x for x in post if x.strip()]
        else:
            pre, post2 = c["pre"], post
        n0, n1 = len(pre), len(pre) + len(blk)
        src = [x.rstrip() for x in pre + blk + post2]
        eq([o.text for o in os_], src, "texts of the lines")
        hdr = n0
        for i in range(n0 + 1, n1):
            expect(hdr in anc[i], "line %d %r of the %s block is not a descendant of its header %r", i, src[i], c["kind"], src[hdr])
        expect(anc[hdr] == [], "the %s header has a parent", c["kind"])
        # no line outside the block is affected: same parents as if the block were the header alone
        q = parse(pre + [blk[0].split()[0] + " plainroot"] + post2, ignore_blank_lines=c["ignore"], factory=False)
        qx, qanc = closure(objs(q))
        shift = len(blk) - 1

        def m(j):
            return j if j < n0 else j + shift
        for i in range(len(objs(q))):
            if i == n0:
                continue
            if not is_cfg(objs(q)[i].text, "!"):
                continue
            pi = m(i)
            expect(hdr not in anc[pi] or n0 in qanc[i], "line %d %r outside the %s block was swallowed by it", pi, src[pi], c["kind"])
            if n0 in qanc[i]:
                continue     # an indented line right after the block: unspecified which line of the block is its parent
            eq([x for x in anc[pi]], [m(j) for j in qanc[i]], f"ancestors of line {pi} {src[pi]!r} outside the {c['kind']} block of {short(src)}")
