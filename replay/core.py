"""Shared pieces of the executable oracles: generators of configurations and the reading of parsed objects.

These run the real code of /repo (python from /opt/venv).  Nothing here is used to *prove* a property: it searches for a
concrete failing input when an obligation fails, and it is the labelled bounded stand-in for functions out of the
verifier's reach.
"""
import os, sys, re, random, json, warnings, traceback

warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import ciscoconfparse  # noqa: E402
from ciscoconfparse import CiscoConfParse  # noqa: E402
from ciscoconfparse import ccp_util, ccp_abc, models_cisco  # noqa: E402
import ciscoconfparse.ciscoconfparse as CC  # noqa: E402
from loguru import logger  # noqa: E402

logger.remove()
logger.disable("")

PROPS = {}


class Fail(Exception):
    pass


def prop(pid, stdin=None):
    def deco(cls):
        PROPS.setdefault(pid, []).append(cls)
        cls.pid = pid
        return cls
    return deco


def expect(cond, msg, *a):
    if not cond:
        raise Fail(msg % a if a else msg)


def eq(got, want, what):
    if got != want:
        raise Fail(f"{what}: got {short(got)} expected {short(want)}")


def short(x, n=400):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


# ---------------------------------------------------------------------------------------------------- configurations
WORDS = ["interface Ethernet1/1", "interface Ethernet1/2", "ip address 10.1.1.1 255.255.255.0", "shutdown", "no shutdown",
         "switchport", "description link to core", "vlan 10", "vlan 20", "router bgp 65000", "neighbor 1.1.1.1", "logging host 1.1.1.1",
         "a", "b", "ab", "a b", "a  b", "aa", "a.b", "ntp server 10.0.0.1", "ip route 0.0.0.0 0.0.0.0 1.2.3.4", "policy-map QOS",
         "class VOICE", "priority percent 20", "access-list 101 permit ip any any", "hostname r1", "x|y", "a|b", "(a)", "foo [1]"]
COMMENTS = ["!", "! comment", "!a", "! interface Ethernet1/1"]
WS = [" ", "  ", "\t"]
SAFE = [w for w in WORDS]


def gen_indents(rng, n, style=None):
    style = style or rng.choice(["walk", "walk", "steps", "wild", "flat"])
    out, cur = [], 0
    width = rng.choice([1, 1, 2, 3, 4])
    for _ in range(n):
        if style == "flat":
            out.append(rng.choice([0, 0, 0, 1]))
        elif style == "wild":
            out.append(rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 8]))
        elif style == "steps":
            r = rng.random()
            if r < .4:
                cur += width
            elif r < .7:
                cur = max(0, cur - width * rng.choice([1, 1, 2, 3]))
            cur = min(cur, 7 * width)
            out.append(cur)
        else:
            cur = max(0, min(9, cur + rng.choice([-3, -2, -1, -1, 0, 0, 1, 1, 1, 2])))
            out.append(cur)
    return out


def gen_lines(rng, n=None, comments=0.12, blanks=0.08, trail=0.05, words=None, tabs=0.02, delim="!"):
    n = rng.choice([0, 1, 2, 3, 5, 8, 12, 18]) if n is None else n
    words = words or rng.sample(WORDS, rng.randint(1, len(WORDS)))
    out = []
    for ind in gen_indents(rng, n):
        r = rng.random()
        pad = " " * ind
        if pad and rng.random() < tabs:
            pad = "\t" + pad[1:]
        if r < blanks:
            s = pad if rng.random() < .5 else ""
        elif r < blanks + comments:
            s = pad + rng.choice(COMMENTS).replace("!", delim)
        else:
            s = pad + rng.choice(words)
        if rng.random() < trail:
            s += rng.choice([" ", "  ", "\t"])
        out.append(s)
    return out


def gen_settings(rng, factory=0.25):
    fac = rng.random() < factory
    # the line classifier (factory) validates some statements of nxos/asa, so it is exercised with ios and iosxr
    return {"syntax": rng.choice(["ios", "ios", "iosxr"] if fac else ["ios", "ios", "ios", "nxos", "iosxr", "asa"]),
            "ignore_blank_lines": rng.random() < .5, "factory": fac, "comment": rng.choice(["!", "!", "!", "#", "!#"])}


def parse(lines, **kw):
    return CiscoConfParse(list(lines), **kw)


def kept_input(lines, st):
    """input lines that can reach the parser at all"""
    if st.get("ignore_blank_lines", True) and not st.get("factory", False):
        return [x for x in lines if len(x) > 0]
    return list(lines)


def objs(p):
    return list(p.ConfigObjs)


def texts(p):
    return [o.text for o in p.ConfigObjs]


def index_of(os_):
    return {id(o): i for i, o in enumerate(os_)}


def snapshot(p):
    os_ = objs(p)
    ix = index_of(os_)
    return [(i, o.linenum, o.text, o.indent, ix.get(id(o.parent), ("out", getattr(o.parent, "text", None))),
             [ix.get(id(c), ("out", c.text)) for c in o.children], bool(o.is_comment)) for i, o in enumerate(os_)]


def lead(s):
    return len(s) - len(s.lstrip())


def is_comment(s, comment):
    s = s.lstrip()
    return bool(s) and s[0] in comment


def is_cfg(s, comment):
    return s.strip() != "" and not is_comment(s, comment)


def numbers_ok(p, what="line numbers"):
    eq([o.linenum for o in p.ConfigObjs], list(range(len(p.ConfigObjs))), what)


def same_as_fresh(p, st, what):
    a = snapshot(p)
    b = snapshot(parse(texts(p), **st))
    if a != b:
        for x, y in zip(a, b):
            if x != y:
                raise Fail(f"{what}: line {x} but a fresh parse gives {y}")
        raise Fail(f"{what}: {len(a)} lines but a fresh parse has {len(b)}")


# ---------------------------------------------------------------------------------------------------- expressions
def gen_regex(rng, pool):
    base = rng.choice(pool) if pool and rng.random() < .75 else rng.choice(WORDS)
    base = base.strip()
    r = rng.random()
    if r < .25:
        w = base.split()
        s = re.escape(rng.choice(w)) if w else "a"
    elif r < .4:
        s = "^" + re.escape(base[:rng.randint(0, len(base))])
    elif r < .5:
        s = r"^\s*" + re.escape(base) + "$"
    elif r < .6:
        s = rng.choice([r"\d+", "a|b", "^a", "b$", ".", "^", "$", r"^\S", r"^\s+\S", "(a)(b)?", "[ab]+", "a b"])
    elif r < .75:
        i = rng.randint(0, max(0, len(base) - 1))
        s = re.escape(base[i:i + rng.randint(1, 6)]) or "a"
    elif r < .85:
        s = base
        try:
            re.compile(s)
        except re.error:
            s = re.escape(base)
    else:
        s = r"^\s*" + re.escape(base.split()[0] if base.split() else "a")
    return s


def ws_tolerant(s):
    return re.sub(r"\s+", r"\\s+", s)


def full(rx, s, flags=0):
    return re.fullmatch(rx, s, flags) is not None


def has(rx, s, flags=0):
    return re.search(rx, s, flags) is not None


def rng_of(seed, pid, i):
    return random.Random(f"{seed}:{pid}:{i}")
