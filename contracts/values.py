"""Contracts of the value computations: type-7 decryption (C20), port specifications (C22), ranges (C18), VLAN lists (C23)."""
import z3
from pyvc import theory as T
from pyvc.theory import Str, IntS, BoolS, slit
from pyvc.engine import Sc, RecV, CellV, NONE, NoneV, strfn, Unsupported, SymRaise, I, B, S, BXOR, STR_IN, RE_FOUND, RE_GROUP, RE_GROUP_NONE
from pyvc.contract import Contract, as_term, DEFAULT_TEMPLATES

from .parse import now

CCP = "ciscoconfparse.ciscoconfparse"
UTIL = "ciscoconfparse.ccp_util"

# ------------------------------------------------------------------------------------------------------------ C20
KEY = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"          # the published key of the encryption
assert len(KEY) == 53

is_hex = strfn("is_hex", Str, BoolS)
hexval = strfn("hexval", Str, IntS)
HEX2 = strfn("two_hex_digits", Str, BoolS)
DEC2 = strfn("two_decimal_digits", Str, BoolS)
ONELINE = strfn("no_line_break", Str, BoolS)
SLICE = strfn("slice", Str, IntS, IntS, Str)
CHR = strfn("py_chr", IntS, Str)
PLAIN = z3.Function("plain7", Str, IntS, Str)              # the first k characters of the plaintext of an encrypted text
KEYCH = z3.Function("key7", IntS, IntS)


def salt(e):
    return T.int_of_str(SLICE(e, z3.IntVal(0), z3.IntVal(2)))


def pair(e, k):
    return SLICE(e, 2 + 2 * k, 4 + 2 * k)


def cat(*ts):
    r = ts[0]
    for t in ts[1:]:
        r = T.sconcat(r, t)
    return r


def slice_axioms():
    t = z3.Const("t", Str)
    a, b, c, d = z3.Ints("a b c d")
    n = T.slen(t)
    s = SLICE(t, a, b)
    return [
        z3.ForAll([t, a, b], z3.Implies(z3.And(0 <= a, a <= b, b <= n), T.slen(s) == b - a), patterns=[s]),
        z3.ForAll([t, a, b, c, d], z3.Implies(z3.And(0 <= a, a <= b, b <= n, 0 <= c, c <= d, c + d >= 0, d <= b - a),
                                              SLICE(s, c, d) == SLICE(t, a + c, a + d)), patterns=[SLICE(s, c, d)]),
        z3.ForAll([t], SLICE(t, z3.IntVal(0), n) == t, patterns=[SLICE(t, z3.IntVal(0), n)]),
    ]


def c20_axioms():
    e, s = z3.Consts("e s", Str)
    k, x, y, i = z3.Ints("k x y i")
    R2 = slit("^(..)(.+)")
    PK = cat(slit(".{"), T.str_of_int(i), slit("}(..)"))
    one, two = z3.IntVal(1), z3.IntVal(2)
    return slice_axioms() + [
        # definition of the plaintext
        z3.ForAll([e], PLAIN(e, 0) == slit(""), patterns=[PLAIN(e, 0)]),
        z3.ForAll([e, k], z3.Implies(k >= 0, PLAIN(e, k + 1) == T.sconcat(PLAIN(e, k), CHR(BXOR(hexval(pair(e, k)), KEYCH((salt(e) + k) % 53))))),
                  patterns=[PLAIN(e, k + 1)]),
    ] + [KEYCH(j) == ord(c) for j, c in enumerate(KEY)] + [
        # assumed facts on the language and the standard library
        z3.ForAll([s], z3.Implies(HEX2(s), z3.And(is_hex(s), 0 <= hexval(s), hexval(s) < 256)), patterns=[HEX2(s)]),
        z3.ForAll([s], z3.Implies(DEC2(s), z3.And(T.is_int_str(s), 0 <= T.int_of_str(s), T.int_of_str(s) < 100)), patterns=[DEC2(s)]),
        z3.ForAll([x, y], z3.Implies(z3.And(0 <= x, x < 256, 0 <= y, y < 256), z3.And(0 <= BXOR(x, y), BXOR(x, y) < 256)), patterns=[BXOR(x, y)]),
        z3.ForAll([e, x, y], z3.Implies(z3.And(ONELINE(e), 0 <= x, x <= y, y <= T.slen(e)), ONELINE(SLICE(e, x, y))), patterns=[SLICE(e, x, y)]),
        z3.ForAll([e], z3.Implies(z3.And(ONELINE(e), T.slen(e) >= 3),
                                  z3.And(RE_FOUND(R2, e), z3.Not(RE_GROUP_NONE(R2, e, one)), z3.Not(RE_GROUP_NONE(R2, e, two)),
                                         RE_GROUP(R2, e, one) == SLICE(e, z3.IntVal(0), two), RE_GROUP(R2, e, two) == SLICE(e, two, T.slen(e)))),
                  patterns=[RE_FOUND(R2, e)]),
        z3.ForAll([e, i], z3.Implies(z3.And(ONELINE(e), 0 <= i, i + 2 <= T.slen(e)),
                                     z3.And(RE_FOUND(PK, e), z3.Not(RE_GROUP_NONE(PK, e, one)), RE_GROUP(PK, e, one) == SLICE(e, i, i + 2))),
                  patterns=[RE_FOUND(PK, e)]),
    ]


def c20_template(ex, lp, g):
    """accumulated text is the plaintext so far; counters run with the loop"""
    out = []
    e = ex.root.cipher(ex)
    if "i" not in g:
        return out
    for n, v in sorted(lp["prelocals"].items()):
        if n not in lp["names"] or not isinstance(v, Sc):
            continue
        if v.ty == "str":
            out.append((f"{n} == plaintext so far", lambda n=n: (lambda c: c.t == PLAIN(e, g["i"] - g["lo"]) if isinstance(c, Sc) and c.ty == "str" else False)(now(lp, n))))
        if v.ty == "int":
            out.append((f"{n} == start + count", lambda n=n, v=v: (lambda c: c.t == v.t + g["i"] - g["lo"] if isinstance(c, Sc) and c.ty == "int" else False)(now(lp, n))))
    return out


class Decrypt(Contract):
    key = CCP + ":CiscoPassword.decrypt"
    result = "str"
    templates = [c20_template]
    variants = ()

    def __init__(self, stored):
        self.stored = stored
        self.label = "text given to the object" if stored else "text given to the call"
        self.params = {"self": ("make", lambda ex, name: ex.new_rec(ex.src.module(CCP).classes["CiscoPassword"],
                                                                    {"ep": Sc("str", ex.fresh(Str, "stored"))}))}
        if not stored:
            self.params["ep"] = "str"

    def cipher(self, ex):
        a = ex.root_args
        return a["ep"].t if not self.stored else ex.recs0[a["self"].id]["ep"].t if hasattr(ex, "recs0") and a["self"].id in ex.recs0 else ex.recs[a["self"].id]["ep"].t

    def axioms(self):
        return c20_axioms()

    def requires(self, ex, a):
        e = a["ep"].t if not self.stored else ex.recs[a["self"].id]["ep"].t
        k = z3.Int("k")
        return [("even length, at least one byte pair", z3.And(T.slen(e) >= 4, T.slen(e) % 2 == 0)), ("one line", ONELINE(e)),
                ("decimal salt", DEC2(SLICE(e, z3.IntVal(0), z3.IntVal(2)))),
                ("hexadecimal byte pairs", z3.ForAll([k], z3.Implies(z3.And(0 <= k, 4 + 2 * k <= T.slen(e)), HEX2(pair(e, k))), patterns=[pair(e, k)]))]

    def ensures(self, ex, a, r):
        e = self.cipher(ex)
        return [("the plaintext of the text alone", r.t == PLAIN(e, (T.slen(e) - 2) / 2))]


C20 = [Decrypt(False), Decrypt(True)]
def c20_theorems():
    """decryption inverts encryption: the bytes of the encrypted text are the exclusive or of characters and key"""
    e = z3.Const("e", Str)
    k = z3.Int("k")
    p = z3.Function("given_plain", IntS, IntS)                  # character numbers of the given plaintext
    x, y = z3.Ints("x y")
    enc = z3.ForAll([k], z3.Implies(0 <= k, hexval(pair(e, k)) == BXOR(p(k), KEYCH((salt(e) + k) % 53))), patterns=[hexval(pair(e, k))])
    inv = z3.ForAll([x, y], BXOR(BXOR(x, y), y) == x, patterns=[BXOR(BXOR(x, y), y)])
    return [("C20 the next character of the plaintext of an encryption is the given one", c20_axioms() + [enc, inv, k >= 0],
             PLAIN(e, k + 1) == T.sconcat(PLAIN(e, k), CHR(p(k))))]


C20_TRUSTED = ["slicing of texts: length and slice of a slice", "int(t, 16) of two hexadecimal digits is in 0..255, int(t) of two decimal digits in 0..99",
               "x ^ y of bytes is a byte (the exclusive or itself is an uninterpreted function, the same in code and specification)",
               "re: '^(..)(.+)' on a one-line text of three or more characters captures the first two and the rest; '.{i}(..)' the two at offset i"]
FIELDS = {}
HOOKS = {}
MODELS = {}

# ------------------------------------------------------------------------------------------------------------ C22
from pyvc import shapes as SH                           # noqa: E402
from pyvc import intlists as IL                         # noqa: E402
from pyvc.intlists import LI, ASC                       # noqa: E402

# the names of the device documentation with their numbers (written independently of the table in the repository)
TCP = dict(aol=5190, bgp=179, chargen=19, cifs=3020, cmd=514, ctiqbe=2748, daytime=13, discard=9, domain=53, echo=7, exec=512, finger=79,
           ftp=21, gopher=70, h323=1720, hostname=101, http=80, https=443, ident=113, imap4=143, irc=194, kerberos=88, klogin=543, kshell=544,
           ldap=389, ldaps=636, login=513, lotusnotes=1352, lpd=515, nfs=2049, nntp=119, pop2=109, pop3=110, pptp=1723, rsh=514, rtsp=554, sip=5060,
           smtp=25, sqlnet=1521, ssh=22, sunrpc=111, tacacs=49, talk=517, telnet=23, uucp=540, whois=43, www=80)
TCP.update({"citrix-ica": 1494, "ftp-data": 20, "netbios-ssn": 139, "pcanywhere-data": 5631, "pim-auto-rp": 496})
UDP = dict(biff=512, bootpc=68, bootps=67, cifs=3020, discard=9, dnsix=90, domain=53, echo=7, http=80, isakmp=500, kerberos=88, nameserver=42, nfs=2049,
           ntp=123, radius=1812, rip=520, rtsp=5004, sip=5060, snmp=161, snmptrap=162, sunrpc=111, syslog=514, tacacs=49, talk=517, tftp=69, time=37, who=513,
           www=80, xdmcp=177)
UDP.update({"mobile-ip": 434, "netbios-dgm": 138, "netbios-ns": 137, "pcanywhere-status": 5632, "pim-auto-rp": 496, "radius-acct": 1813,
            "secureid-udp": 5500})


def named(p, t):
    return z3.Or(*[t == slit(n) for n in p])


def portnum(proto, t):
    """number of a port text"""
    out = []
    for tab in (TCP, UDP):
        e = T.int_of_str(t)
        for n, v in tab.items():
            e = z3.If(t == slit(n), z3.IntVal(v), e)
        out.append(e)
    return z3.If(proto == slit("tcp"), out[0], out[1])


def portok(proto, t):
    return z3.Or(T.is_int_str(t), z3.If(proto == slit("tcp"), named(TCP, t), named(UDP, t)))


class Ports(Contract):
    """construction from a specification of one form; the ports, blanks, protocol and syntax are arbitrary"""
    key = UTIL + ":L4Object.__init__"
    templates = []

    def __init__(self, op, pad):
        self.op, self.pad = op, pad
        self.label = (op or "bare") + (" with blanks around" if pad else "")
        self.params = {"self": ("make", lambda ex, name: ex.new_rec(ex.src.module(UTIL).classes["L4Object"], {})), "protocol": "str",
                       "port_spec": ("make", self.spec), "syntax": "str"}
        self.raises = {"RequirementFailure": lambda ex, a: z3.Not(self.valid(ex, a)), "ValueError": lambda ex, a: z3.Not(self.nums_ok(a)),
                       "NotImplementedError": lambda ex, a: z3.Not(self.known(a))}

    def spec(self, ex, name):
        parts = []
        self.P = []
        blank = lambda n: ex.fresh(Str, n)                                      # noqa
        mk = []

        def put(t, lang):
            mk.append((t, lang))
            parts.append(t)
        if self.pad:
            put(blank("lead"), r"[ \t]*")
        if self.op:
            parts.append(slit(self.op))
        for k in range(2 if self.op == "range" else 1):
            if parts and (self.op or k):
                put(blank(f"gap{k}"), r" [ \t]*" if k == 0 else r"[ \t]+")
            p = ex.fresh(Str, f"port{k}")
            put(p, r"[^ \t\n\r\f\v\x1c-\x1f]+")
            self.P.append(p)
        if self.pad:
            put(blank("trail"), r"[ \t]*")
        for t, lang in mk:
            SH.atom(ex, t, lang)
        return Sc("str", ex.concat(parts))

    def nums_ok(self, a):
        return z3.And(*[portok(a["protocol"].t, p) for p in self.P])

    def known(self, a):
        return z3.And(a["syntax"].t == slit("asa"), z3.Or(a["protocol"].t == slit("tcp"), a["protocol"].t == slit("udp")))

    def ns(self, a):
        return [portnum(a["protocol"].t, p) for p in self.P]

    def valid(self, ex, a):
        n = self.ns(a)
        return {None: lambda: z3.And(1 <= n[0], n[0] <= 65535), "eq": lambda: z3.And(1 <= n[0], n[0] <= 65535),
                "range": lambda: z3.And(1 <= n[0], n[0] <= n[1], n[1] <= 65535), "lt": lambda: z3.And(2 <= n[0], n[0] <= 65535),
                "gt": lambda: z3.And(1 <= n[0], n[0] < 65535), "neq": lambda: z3.And(1 <= n[0], n[0] <= 65535)}[self.op]()

    def denoted(self, a, x):
        n = self.ns(a)
        full = z3.And(1 <= x, x <= 65535)
        return {None: lambda: x == n[0], "eq": lambda: x == n[0], "range": lambda: z3.And(n[0] <= x, x <= n[1]), "lt": lambda: z3.And(1 <= x, x < n[0]),
                "gt": lambda: z3.And(n[0] < x, x <= 65535), "neq": lambda: z3.And(full, x != n[0])}[self.op]()

    def axioms(self):
        return IL.asc_defs() + IL.int_list_axioms()

    def ensures(self, ex, a, r):
        s = a["self"]
        x = z3.Int("x!port")
        L = ex.term_of(ex.getattr(s, "port_list"), LI.sort)
        return [("the port list has exactly the denoted ports", z3.ForAll([x], LI.mem(x, L) == self.denoted(a, x))),
                ("all ports are in 1..65535", z3.ForAll([x], z3.Implies(LI.mem(x, L), z3.And(1 <= x, x <= 65535)))),
                ("ascending, each once", ASC(L)), ("accepted only inside the port space", self.valid(ex, a)),
                ("accepted only with known numbers", self.nums_ok(a)), ("accepted only for a known syntax and protocol", self.known(a)),
                ("protocol is kept", ex.term_of(ex.getattr(s, "protocol"), Str) == a["protocol"].t)]


class PortsEq(Contract):
    key = UTIL + ":L4Object.__eq__"
    result = "bool"
    templates = []

    def __init__(self):
        def mk(ex, name):
            return ex.new_rec(ex.src.module(UTIL).classes["L4Object"], {
                "protocol": Sc("str", ex.fresh(Str, name + ".protocol")), "syntax": Sc("str", ex.fresh(Str, name + ".syntax")),
                "port_list": ex.new_list(LI, ex.fresh(LI.sort, name + ".ports"))})
        self.params = {"self": ("make", mk), "val": ("make", mk)}

    def axioms(self):
        return IL.asc_defs() + [IL.asc_unique().formula()]

    def L(self, ex, v):
        return ex.term_of(ex.getattr(v, "port_list"), LI.sort)

    def requires(self, ex, a):
        return [("port lists are ascending (established by the constructor)", z3.And(ASC(self.L(ex, a["self"])), ASC(self.L(ex, a["val"]))))]

    def ensures(self, ex, a, r):
        s, v = a["self"], a["val"]
        same = ex.term_of(ex.getattr(s, "protocol"), Str) == ex.term_of(ex.getattr(v, "protocol"), Str)
        return [("equal exactly when protocol and port set agree", ex.truth(r) == z3.And(same, IL.same_members(self.L(ex, s), self.L(ex, v))))]


C22 = [Ports(op, pad) for op in ("eq", None, "range", "lt", "gt", "neq") for pad in (False, True)] + [PortsEq()]
def il_hyps():
    return LI.axioms() + IL.asc_defs()


C22_LEMMAS = [(IL.asc_unique(), il_hyps)]
C22_TRUSTED = SH.TRUSTED + ["range(), sorted() and set() of integers: members, ascending order, length", "dict.get(k, d) of a dictionary with fixed keys"]
HOOKS.update(SH.HOOKS)

# ------------------------------------------------------------------------------------------------------------ C18
from pyvc.theory import Fold, Lemma, m_list             # noqa: E402
from pyvc.engine import ExtV, FuncV                     # noqa: E402
from pyvc.intlists import RANGE, REM                    # noqa: E402

LS = T.list_of(Str)
SPLIT = strfn("split", Str, Str, LS.sort)
TOK = strfn("range_token", Str, BoolS)              # a number, or two numbers joined by a dash (blanks around numbers)
ISR = strfn("token_is_range", Str, BoolS)
LO = strfn("token_low", Str, IntS)
HI = strfn("token_high", Str, IntS)
WFR = strfn("wf_range_text", Str, BoolS)
BL = r"[ \t]*"

# numbers of the tokens, in the order of the text
Members = Fold("Members", LS, [], m_list(LI),
               lambda x: z3.If(ISR(x), RANGE(LO(x), HI(x) + 1), LI.snoc(LI.nil, LO(x))))
Copy = Fold("CopyInt", LI, [], m_list(LI), lambda x: (z3.BoolVal(True), x))
_d = z3.Int("d!drop")
Drop = Fold("DropInt", LI, [_d], m_list(LI), lambda d, x: (x != d, x))


def parts(t):
    return SPLIT(t, slit(","))


def den(t, y):
    """y is one of the numbers the text denotes"""
    return LI.mem(y, Members(parts(t)))


def token(ex, x):
    """x is a well-formed token: decompose it, in both forms"""
    n = lambda k: ex.fresh(Str, k)                                              # noqa
    b1, b2, b3, b4, d1, d2 = n("b1"), n("b2"), n("b3"), n("b4"), n("d1"), n("d2")
    if ex.choose(ISR(x)):
        alls = [b1, d1, b2, slit("-"), b3, d2, b4]
        SH.alias(ex, x, ex.concat(alls))
        ex.assume(HI(x) == T.int_of_str(d2))
    else:
        alls = [b1, d1, b2]
        SH.alias(ex, x, ex.concat(alls))
    ex.assume(LO(x) == T.int_of_str(d1))
    for t in alls:
        if T.lit_value(t) is None:
            SH.atom(ex, t, r"[0-9]+" if t in (d1, d2) else BL)


def h_loop_elem(ex, lp, g, v):
    if g["lt"] is LS and ex.check_now(TOK(g["x"])):
        token(ex, g["x"])


HOOKS["loop_elem"] = h_loop_elem


def int_targets(ex, lp):
    from pyvc.contract import targets, cur_value, pre_value
    for nm, loc in targets(ex, lp):
        pre = as_term(ex, pre_value(ex, lp, loc), LI.sort)
        if pre is not None or isinstance(cur_value(ex, lp, loc), CellV):
            yield nm, pre, (lambda loc=loc: as_term(ex, cur_value(ex, lp, loc), LI.sort))


def range_template(ex, lp, g):
    """lists filled by a counting loop; lists from which the elements seen so far are removed; copies"""
    out = []
    y = z3.Int("y!t")
    for nm, pre, cur in int_targets(ex, lp):
        if pre is None:
            continue
        nil = z3.simplify(pre).eq(LI.nil)
        op = (lambda p, q: q) if nil else LI.cat

        def eqn(f, cur=cur):
            c = cur()
            return z3.BoolVal(False) if c is None else f(c)
        if "i" in g:
            r = g["range"]
            if r.base is None:
                def ranged(cur=cur, pre=pre, op=op):
                    lo, j = g["lo"], z3.simplify(g["i"] - 1)
                    ex.assume(z3.Implies(lo <= j, RANGE(lo, g["i"]) == LI.snoc(RANGE(lo, j), j)))         # definition of range
                    return eqn(lambda c: c == op(pre, RANGE(lo, g["i"])), cur)
                out.append((f"{nm} == pre + range", ranged))
        elif g.get("lt") is LI:
            out.append((f"{nm} == pre + seen", lambda cur=cur, pre=pre, op=op: eqn(lambda c: c == op(pre, g["P"]), cur)))
            out.append((f"{nm} == pre minus seen", lambda cur=cur, pre=pre: eqn(lambda c: z3.And(ASC(c), z3.ForAll([y], LI.mem(y, c) == z3.And(
                LI.mem(y, pre), z3.Not(LI.mem(y, g["P"]))), patterns=[LI.mem(y, c)])), cur)))
    return out



RT = [range_template] + list(DEFAULT_TEMPLATES)


def mk_range(ex, name, items=True):
    cls = ex.src.module(UTIL).classes["CiscoRange"]
    at = {"text": Sc("str", ex.fresh(Str, name + ".text")), "result_type": ExtV("int"), "default_iter_attr": S("port"), "reverse": B(False),
          "begin_obj": NONE, "this_obj": NONE, "iterate_attribute": NONE, "_list": ex.new_list(LI, ex.fresh(LI.sort, name + "._list"))}
    return ex.new_rec(cls, at)


def lst(ex, v):
    return ex.term_of(ex.getattr(v, "_list"), LI.sort)


def old_lst(ex, v):
    c = ex.cells0[ex.recs0[v.id]["_list"].id]
    return c[2] if c[0] == "list" else ex.clist_term(c[1], LI)


class R(Contract):
    templates = RT
    folds = (Members, Copy, Drop)
    mutates = ("self._list",)

    def axioms(self):
        return r_axioms()

    def inv(self, ex, v):
        return [("members ascending, each once", ASC(lst(ex, v)))]

    def requires(self, ex, a):
        return [(f"{n}: {m}", f) for n, v in a.items() if isinstance(v, RecV) for m, f in self.inv(ex, v)]


def r_axioms():
    t, x = z3.Consts("t x", Str)
    return (IL.asc_defs() + IL.int_list_axioms() + IL.rem_defs() + IL.range_defs() + IL.dist_defs() + [lm.formula() for lm in R_LEMMAS] + [sorted_lemma()] +
            [z3.ForAll([t], z3.Implies(WFR(t), z3.And(T.slen(t) > 0, z3.Not(STR_IN(slit(",,"), t)))), patterns=[WFR(t)]),
             z3.ForAll([t, x], z3.Implies(z3.And(WFR(t), LS.mem(x, parts(t))), TOK(x)), patterns=[z3.MultiPattern(WFR(t), LS.mem(x, parts(t)))])])


def drop_lemmas():
    x, z = z3.Ints("x z")
    m = Lemma("int.drop_mem", LI.sort, LI, [x, z], lambda v: LI.mem(z, Drop(x, v)) == z3.And(LI.mem(z, v), z != x), lambda v: [LI.mem(z, Drop(x, v))])
    a = Lemma("int.drop_asc", LI.sort, LI, [x], lambda v: z3.Implies(ASC(v), ASC(Drop(x, v))), lambda v: [Drop(x, v)], use=["int.drop_mem"])
    n = Lemma("int.drop_len", LI.sort, LI, [x], lambda v: z3.And(LI.len(Drop(x, v)) <= LI.len(v), (LI.len(Drop(x, v)) == LI.len(v)) == z3.Not(LI.mem(x, v))),
              lambda v: [LI.len(Drop(x, v))])
    c = Lemma("int.copy", LI.sort, LI, [], lambda v: Copy(v) == v, lambda v: [Copy(v)])
    return [m, a, n, c]


def sorted_lemma():
    """sorting the set of the members of an ascending list gives the list back"""
    from pyvc.intlists import SORTED_SET
    v = z3.Const("v!", LI.sort)
    return z3.ForAll([v], z3.Implies(ASC(v), SORTED_SET(LI.setof(v)) == v), patterns=[SORTED_SET(LI.setof(v))])


def c18_theorems():
    from pyvc.intlists import SORTED_SET
    v, y = z3.Const("v", LI.sort), z3.Int("y")
    inst = z3.Implies(z3.And(ASC(SORTED_SET(LI.setof(v))), ASC(v), IL.same_members(SORTED_SET(LI.setof(v)), v)), SORTED_SET(LI.setof(v)) == v)
    return [("sorted set of an ascending list", LI.axioms() + IL.int_list_axioms() + [inst, ASC(v)], SORTED_SET(LI.setof(v)) == v)]


R_LEMMAS = [IL.dist_lemma()] + IL.rem_lemmas() + drop_lemmas()


def r_hyps():
    return LI.axioms() + IL.asc_defs() + IL.dist_defs() + IL.rem_defs() + Drop.defs() + Copy.defs()


SELF = ("make", mk_range)


class ParseInts(R):
    key = UTIL + ":CiscoRange.parse_integers"
    result = ("list", LI)
    params = {"self": SELF, "text": "str"}

    def requires(self, ex, a):
        return [("well-formed range text", WFR(a["text"].t))]

    def ensures(self, ex, a, r):
        y = z3.Int("y!e")
        L = ex.term_of(r, LI.sort)
        return [("ascending, each once", ASC(L)), ("exactly the denoted numbers", z3.ForAll([y], LI.mem(y, L) == den(a["text"].t, y), patterns=[LI.mem(y, L)]))]


class MakeRange(R):
    """CiscoRange(text, result_type=int), and the empty range of integers"""
    key = UTIL + ":CiscoRange.__init__"
    mutates = ()

    def __init__(self, empty):
        self.empty = empty
        self.label = "empty" if empty else "from a text"
        self.params = {"self": ("make", lambda ex, name: ex.new_rec(ex.src.module(UTIL).classes["CiscoRange"], {}))}
        if not empty:
            self.params["text"] = "str"
        self.params["result_type"] = ("make", lambda ex, name: ExtV("int"))

    def requires(self, ex, a):
        return [] if self.empty else [("well-formed range text", WFR(a["text"].t))]

    def ensures(self, ex, a, r):
        y = z3.Int("y!e")
        s = a["self"]
        L = lst(ex, s)
        rt = ex.getattr(s, "result_type")
        return [("ascending, each once", ASC(L)),
                ("exactly the denoted numbers", z3.ForAll([y], LI.mem(y, L) == (z3.BoolVal(False) if self.empty else den(a["text"].t, y)), patterns=[LI.mem(y, L)])),
                ("members are integers", z3.BoolVal(isinstance(rt, ExtV) and rt.name == "int")),
                ("not reversed", z3.Not(ex.truth(ex.getattr(s, "reverse"))))]


class Change(R):
    """append / remove of one number"""
    result = "none"

    def __init__(self, op):
        self.op = op
        self.key = UTIL + ":CiscoRange." + op
        self.arg = "val" if op == "append" else "arg"
        self.params = {"self": SELF, self.arg: "int"}
        has = lambda ex, a: LI.mem(a[self.arg].t, old_lst(ex, a["self"]))       # noqa
        self.raises = {"DuplicateMember": has} if op == "append" else {e: lambda ex, a: z3.Not(has(ex, a))
                                                                                       for e in ("InvalidMember", "MismatchedType", "UnboundLocalError")}

    def at_call(self, ex, fi):
        return False

    def ensures(self, ex, a, r):
        y = z3.Int("y!e")
        s, x = a["self"], a[self.arg].t
        L, L0 = lst(ex, s), old_lst(ex, s)
        if self.op == "append":
            return self.inv(ex, s) + [("the number was absent", z3.Not(LI.mem(x, L0))),
                                      ("membership of that number alone changes", z3.ForAll([y], LI.mem(y, L) == z3.Or(LI.mem(y, L0), y == x)))]
        return self.inv(ex, s) + [("the number was present", LI.mem(x, L0)),
                                  ("membership of that number alone changes", z3.ForAll([y], LI.mem(y, L) == z3.And(LI.mem(y, L0), y != x)))]


class Combine(R):
    """+ and - of two different range objects"""

    def __init__(self, op):
        self.op = op
        self.key = UTIL + ":CiscoRange." + op
        self.params = {"self": SELF, "other": SELF}
        self.result = ("make", mk_range)

    def ensures(self, ex, a, r):
        y = z3.Int("y!e")
        L0, M = old_lst(ex, a["self"]), old_lst(ex, a["other"])
        L = lst(ex, r)
        want = z3.Or(LI.mem(y, L0), LI.mem(y, M)) if self.op == "__add__" else z3.And(LI.mem(y, L0), z3.Not(LI.mem(y, M)))
        return self.inv(ex, r) + [("members of the result", z3.ForAll([y], LI.mem(y, L) == want, patterns=[LI.mem(y, L)]))]


class View(R):
    """what a range reports of its members"""

    def __init__(self, attr, result, post, params=None, label=None, req=None, raises=None):
        self.key, self.result, self.post, self.label, self.req = UTIL + ":CiscoRange." + attr, result, post, label, req
        self.params = {"self": SELF, **(params or {})}
        if raises:
            self.raises = raises

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        return r_axioms() + ([IL.asc_unique().formula()] if self.key.endswith("__eq__") else [])

    def requires(self, ex, a):
        return super().requires(ex, a) + (self.req(ex, a) if self.req else [])

    def ensures(self, ex, a, r):
        return self.post(self, ex, a, r)


def int_ty(ex, name):
    return ExtV("int")


def p_len(c, ex, a, r):
    return [("number of members", r.t == LI.len(lst(ex, a["self"])))]


def p_item(c, ex, a, r):
    return [("the member at that place", r.t == LI.nth(lst(ex, a["self"]), a["ii"].t))]


def p_list(c, ex, a, r):
    L = lst(ex, a["self"])
    t = as_term(ex, r, LI.sort)
    if t is None:                                     # the empty range answers with an empty collection
        return [("empty only when there are no members", z3.And(z3.BoolVal(not ex.content(r)[1]), LI.len(L) == 0))]
    return [("the members in ascending order", t == L)]


def p_set(c, ex, a, r):
    y = z3.Int("y!e")
    L = lst(ex, a["self"])
    t = as_term(ex, r, z3.SetSort(IntS))
    if t is None:
        return [("empty only when there are no members", z3.And(z3.BoolVal(not ex.content(r)[1]), LI.len(L) == 0))]
    return [("the set of the members", z3.ForAll([y], z3.Select(t, y) == LI.mem(y, L)))]


def p_eq(c, ex, a, r):
    return [("equal exactly when the members agree", ex.truth(r) == IL.same_members(lst(ex, a["self"]), lst(ex, a["other"])))]


C18 = [MakeRange(False), MakeRange(True), ParseInts(), Change("append"), Change("remove"), Combine("__add__"), Combine("__sub__"),
       View("__len__", "int", p_len),
       View("__getitem__", "int", p_item, {"ii": "int"}, req=lambda ex, a: [("index from the front", a["ii"].t >= 0)],
            raises={"IndexError": lambda ex, a: a["ii"].t >= LI.len(lst(ex, a["self"]))}),
       View("as_list", "val", p_list), View("as_list", "val", p_list, {"result_type": ("make", int_ty)}, label="of integers"),
       View("as_set", "val", p_set), View("as_set", "val", p_set, {"result_type": ("make", int_ty)}, label="of integers"),
       View("__eq__", "bool", p_eq, {"other": SELF})]
C18_LEMMAS = [(lm, lambda lm=lm: r_hyps() + [x.formula() for x in R_LEMMAS if x.name in lm.use]) for lm in R_LEMMAS] + C22_LEMMAS
C18_TRUSTED = SH.TRUSTED + ["range(), sorted() and set() of integers: members, ascending order, length", "list.remove, list.extend, copy.deepcopy of lists of integers",
                            "a range text is well formed when split(',') gives tokens that are a number or two numbers joined by a dash, with blanks around the numbers"]
