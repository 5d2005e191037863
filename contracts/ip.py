"""Contracts of IPv4Obj / IPv6Obj (C15-C17).

The standard library's ipaddress objects are modelled by their value: an address is its number, a network the pair
(network number, prefix length).  Their text forms are uninterpreted, with the facts that the code relies on:
the dotted quad / the exploded form splits into the base-256 / base-65536 digits of the number."""
import z3
from pyvc import theory as T
from pyvc.theory import Str, IntS, BoolS, slit
from pyvc.engine import POW2, Sc, RecV, CellV, NONE, NoneV, strfn, Unsupported, SymRaise, I, B, S, ExtV
from pyvc.contract import Contract

UTIL = "ciscoconfparse.ccp_util"
W = {4: 32, 6: 128}
NETW = z3.Function("network_of", IntS, IntS, IntS, IntS)      # width, address, prefix length -> lowest address of the block
IPSTR = {4: strfn("ip4_str", IntS, Str), 6: strfn("ip6_str", IntS, Str)}
EXPL = strfn("ip6_exploded", IntS, Str)
is_hex = strfn("is_hex", Str, BoolS)
hexval = strfn("hexval", Str, IntS)


def digit(ver, k):
    return z3.Function(f"ip{ver}_digit{k}", IntS, Str)


def size(w, p):
    return POW2(w - p)


def addr(ex, ver, n):
    return ex.new_rec(None, {"__pyname__": f"IPv{ver}Address", "__ver__": ver, "_n": Sc("int", n)})


def net(ex, ver, n, p):
    return ex.new_rec(None, {"__pyname__": f"IPv{ver}Network", "__ver__": ver, "_net": Sc("int", n), "prefixlen": Sc("int", p)})


def ver_of(ex, v):
    return ex.recs[v.id].get("__ver__") if isinstance(v, RecV) else None


def flat(t):
    if t.decl().eq(T.sconcat):
        return flat(t.arg(0)) + flat(t.arg(1))
    return [t]


def m_address(ver):
    def f(ex, args, kw):
        v = args[0]
        if isinstance(v, RecV) and "_n" in ex.recs[v.id]:
            return addr(ex, ver, ex.recs[v.id]["_n"].t)
        if isinstance(v, Sc) and v.ty == "int":
            if not ex.choose(z3.And(v.t >= 0, v.t < POW2(z3.IntVal(W[ver])))):
                raise SymRaise("AddressValueError")
            return addr(ex, ver, v.t)
        raise Unsupported("address from text")
    return f


def m_network(ver):
    w = W[ver]

    def f(ex, args, kw):
        v = args[0]
        if isinstance(v, Sc) and v.ty == "int":
            if not ex.choose(z3.And(v.t >= 0, v.t < POW2(z3.IntVal(w)))):
                raise SymRaise("AddressValueError")
            return net(ex, ver, v.t, z3.IntVal(w))
        if isinstance(v, Sc) and v.ty == "str":
            ps = flat(v.t)
            if len(ps) in (2, 3) and ps[0].decl().eq(IPSTR[ver]):
                n, p = ps[0].arg(0), None
                lit = T.lit_value(ps[1])
                if len(ps) == 2 and lit and lit[0] == "/" and lit[1:].isdigit():
                    p = z3.IntVal(int(lit[1:]))
                elif len(ps) == 3 and lit == "/" and ps[2].decl().eq(T.str_of_int):
                    p = ps[2].arg(0)
                if p is not None:
                    if not ex.choose(z3.And(p >= 0, p <= w)):
                        raise SymRaise("NetmaskValueError")
                    strict = kw.get("strict", B(True))
                    if not (ex.is_conc(strict) and not ex.pyval(strict)):
                        if not ex.choose(n == NETW(w, n, p)):
                            raise SymRaise("ValueError")
                    netw_facts(ex, w, n, p)
                    return net(ex, ver, NETW(w, n, p), p)
        raise Unsupported("network from text")
    return f


def netw_facts(ex, w, n, p):
    pass


def h_to_str(ex, v):
    ver = ver_of(ex, v)
    if ver is None:
        return None
    r = ex.recs[v.id]
    if "_n" in r:
        return IPSTR[ver](r["_n"].t)
    return ex.concat([IPSTR[ver](r["_net"].t), slit("/"), T.str_of_int(r["prefixlen"].t)])


def h_rec_attr(ex, v, name):
    ver = ver_of(ex, v)
    if ver is None:
        return None
    r = ex.recs[v.id]
    w = W[ver]
    if "_n" in r:
        if name in ("compressed",):
            return Sc("str", IPSTR[ver](r["_n"].t))
        if name == "exploded":
            return Sc("str", (EXPL if ver == 6 else IPSTR[4])(r["_n"].t))
        if name == "version":
            return I(z3.IntVal(ver))
        return None
    n, p = r["_net"].t, r["prefixlen"].t
    if name == "compressed":
        return Sc("str", h_to_str(ex, v))
    if name == "exploded":
        if ver == 4:
            return Sc("str", h_to_str(ex, v))
        return Sc("str", ex.concat([EXPL(n), slit("/"), T.str_of_int(p)]))
    if name == "network_address":
        return addr(ex, ver, n)
    if name == "broadcast_address":
        return addr(ex, ver, n + size(w, p) - 1)
    if name == "hostmask":
        return addr(ex, ver, size(w, p) - 1)
    if name == "netmask":
        return addr(ex, ver, POW2(z3.IntVal(w)) - size(w, p))
    if name == "num_addresses":
        return I(size(w, p))
    if name == "max_prefixlen":
        return I(z3.IntVal(w))
    if name == "version":
        return I(z3.IntVal(ver))
    return None


def h_int_of_rec(ex, v):
    r = ex.recs[v.id]
    if "_n" in r:
        return r["_n"]
    return None


def h_str_method(ex, o, name, args):
    """split of an address text (the separators inside the parts are known)"""
    if name != "split" or len(args) != 1 or not ex.is_conc(args[0]):
        return None
    sep = ex.pyval(args[0])
    ps = flat(o.t)
    if not any(p.decl().eq(f) for p in ps for f in (IPSTR[4], IPSTR[6], EXPL)):
        return None
    if sep == "/":
        out, cur = [], []
        for p in ps:
            lit = T.lit_value(p)
            if lit is not None and "/" in lit:
                segs = lit.split("/")
                for i, s in enumerate(segs):
                    if i:
                        out.append(cur)
                        cur = []
                    if s:
                        cur.append(slit(s))
            elif lit is not None or p.decl().eq(T.str_of_int) or any(p.decl().eq(f) for f in (IPSTR[4], IPSTR[6], EXPL)):
                cur.append(p)
            else:
                return None
        out.append(cur)
        return ex.new_cell(("clist", [Sc("str", ex.concat(c)) for c in out]))
    if len(ps) == 1 and sep == "." and ps[0].decl().eq(IPSTR[4]):
        return digits(ex, 4, ps[0].arg(0), 4, 256, lambda d: T.int_of_str(d), lambda d: T.is_int_str(d))
    if len(ps) == 1 and sep == ":" and ps[0].decl().eq(EXPL):
        return digits(ex, 6, ps[0].arg(0), 8, 65536, hexval, is_hex)
    return None


def digits(ex, ver, n, k, base, val, ok):
    ds = [digit(ver, i)(n) for i in range(k)]
    for d in ds:
        ex.assume(z3.And(ok(d), val(d) >= 0, val(d) < base))
    # the text of an existing address denotes the address
    ex.assume(n == z3.Sum([val(d) * base ** (k - 1 - i) for i, d in enumerate(ds)]))
    return ex.new_cell(("clist", [Sc("str", d) for d in ds]))


def h_pack(ex, v):
    return None


HOOKS = {"to_str": h_to_str, "rec_attr": h_rec_attr, "int_of_rec": h_int_of_rec, "str_method": h_str_method}
MODELS = {}
for _v in (4, 6):
    for _pre in ("", "ipaddress."):
        MODELS[f"{_pre}IPv{_v}Address"] = m_address(_v)
        MODELS[f"{_pre}IPv{_v}Network"] = m_network(_v)

TRUSTED = [
    "ipaddress.IPv4Address/IPv6Address/IPv4Network/IPv6Network (standard library) by value: construction from an integer or another object, from the "
    "text '<address>/<prefix length>' (strict=False clears the host bits; a prefix length outside 0..width raises), prefixlen, netmask, hostmask, "
    "broadcast_address, compressed, exploded; checked on CPython by the replay oracle",
    "the dotted quad (v4) and the exploded form (v6) of an address are the base-256 / base-65536 digits of its number, and str() of an address is a "
    "function of its number",
    "Python integers are mathematical integers (exact in CPython)",
]

_w, _n, _p, _m, _q = z3.Ints("w_ n_ p_ m_ q_")


def pow_axioms():
    out = [POW2(z3.IntVal(k)) == 2 ** k for k in list(range(0, 33)) + [126, 127, 128]]
    out += [
        z3.ForAll([_p], z3.Implies(_p >= 0, POW2(_p) >= 1), patterns=[POW2(_p)]),
        z3.ForAll([_p, _q], z3.Implies(z3.And(0 <= _p, _p < _q), 2 * POW2(_p) <= POW2(_q)), patterns=[z3.MultiPattern(POW2(_p), POW2(_q))]),
    ]
    return out


def block_axioms():
    """network_of(w,n,p) = n - n mod 2^(w-p); these facts about it are proved as theorems of the check"""
    pre = z3.And(0 <= _p, _p <= _w, 0 <= _n, _n < POW2(_w))
    nw = NETW(_w, _n, _p)
    return [
        z3.ForAll([_w, _n, _p], z3.Implies(pre, z3.And(0 <= nw, nw <= _n, _n < nw + size(_w, _p), nw + size(_w, _p) <= POW2(_w))), patterns=[nw]),
        z3.ForAll([_w, _n, _p, _m], z3.Implies(z3.And(pre, nw <= _m, _m < nw + size(_w, _p)), NETW(_w, _m, _p) == nw),
                  patterns=[z3.MultiPattern(nw, NETW(_w, _m, _p))]),
    ]


def ip_theorems():
    """the block facts, from the definition network_of(w,n,p) = n - n mod 2^(w-p)"""
    b, n, m, c = z3.Ints("b n m c")
    net_ = lambda v: v - v % b                                              # noqa: E731
    out = [
        ("network_of: bounds of a block", [b >= 1, n >= 0, c >= 1, n < b * c, n == b * (n / b) + n % b, n % b >= 0, n % b < b],
         z3.And(0 <= net_(n), net_(n) <= n, n < net_(n) + b)),
        ("network_of: a block stays inside the address space", [b >= 1, n >= 0, c >= 1, n < b * c, n == b * m + n % b, n % b >= 0, n % b < b, m < c],
         net_(n) + b <= b * c),
        ("network_of: quotient below the number of blocks", [b >= 1, n >= 0, c >= 1, n < b * c, n == b * m + n % b, n % b >= 0, n % b < b], m < c),
    ]
    q1, q2, r = z3.Ints("q1 q2 r")
    out.append(("network_of: one network per block", [b >= 1, q1 * b <= m, m < q1 * b + b, m == q2 * b + r, r >= 0, r < b], q1 == q2))
    return out


class IpContract(Contract):
    ver = 4
    attr = None
    setter = False
    params = {}
    folds = ()

    def __init__(self, ver, **kw):
        self.ver = ver
        for k, v in kw.items():
            setattr(self, k, v)
        self.w = W[ver]
        name = self.attr if isinstance(self.attr, str) else self.attr[ver]
        self.key = f"{UTIL}:IPv{ver}Obj.{name}" + (".setter" if self.setter else "")
        self.params = {k: self.obj(v[1]) if isinstance(v, tuple) and v[0] == "ip" else v for k, v in self.params_of().items()}

    def params_of(self):
        return {"self": ("ip", False)}

    def obj(self, empty):
        return ("make", lambda ex, name: mk_ip(ex, self.ver, name, empty))

    def axioms(self):
        return pow_axioms() + block_axioms()

    # views of an object of the class
    def n(self, ex, v):
        return ex.recs[ex.recs[v.id]["ip_object"].id]["_n"].t

    def nw(self, ex, v):
        return ex.recs[ex.recs[v.id]["network_object"].id]["_net"].t

    def p(self, ex, v):
        return ex.recs[ex.recs[v.id]["network_object"].id]["prefixlen"].t

    def sz(self, ex, v):
        return size(self.w, self.p(ex, v))

    def inv(self, ex, v):
        n, p = self.n(ex, v), self.p(ex, v)
        return [("class invariant: the address is in range", z3.And(0 <= n, n < POW2(z3.IntVal(self.w)))),
                ("class invariant: the prefix length is in range", z3.And(0 <= p, p <= self.w)),
                ("class invariant: the network is the block of the address", self.nw(ex, v) == NETW(self.w, n, p))]


def mk_ip(ex, ver, name, empty=False):
    cls = ex.src.module(UTIL).classes[f"IPv{ver}Obj"]
    if empty:
        return ex.new_rec(cls, {"ip_object": NONE, "network_object": NONE, "empty": B(True), "strict": B(False), "debug": ex.lift(0)})
    w = W[ver]
    n, p = z3.Int(f"{name}.n"), z3.Int(f"{name}.p")
    ex.assume(z3.And(0 <= n, n < 2 ** w, 0 <= p, p <= w))
    a = addr(ex, ver, n)
    nt = net(ex, ver, NETW(w, n, p), p)
    return ex.new_rec(cls, {"ip_object": a, "network_object": nt, "empty": B(False), "strict": B(False), "debug": ex.lift(0),
                            "finished_parsing": B(True)})


def tm(ex, v, s=IntS):
    return ex.term_of(v, s)


def truth(ex, v):
    b = ex.truth(v)
    return b if z3.is_expr(b) else z3.BoolVal(b)


class IntView(IpContract):
    """integer-valued attributes"""
    result = "int"
    what = None
    spec = None

    def ensures(self, ex, a, r):
        s = a["self"]
        return [(f"{self.key.split('.')[-1]} is {self.what}", tm(ex, r) == self.spec(self, ex, s))]


def view(ver, attr, what, spec):
    return IntView(ver, attr=attr, what=what, spec=spec)


def views(ver):
    w = W[ver]
    top = {4: "as_decimal_broadcast", 6: "as_decimal_network_maxint"}[ver]
    out = [
        view(ver, "as_decimal", "the address as a number", lambda c, ex, s: c.n(ex, s)),
        view(ver, "as_decimal_network", "the lowest address of the network", lambda c, ex, s: c.nw(ex, s)),
        view(ver, top, "the highest address of the network", lambda c, ex, s: c.nw(ex, s) + c.sz(ex, s) - 1),
        view(ver, "prefixlen", "the prefix length", lambda c, ex, s: c.p(ex, s)),
    ]
    return out


def views17(ver):
    w = W[ver]
    out = []
    for nm in ("masklen", "masklength", "prefixlength", "_prefixlen"):
        out.append(view(ver, nm, "the prefix length", lambda c, ex, s: c.p(ex, s)))
    out.append(view(ver, "_ip", "the address as a number", lambda c, ex, s: c.n(ex, s)))
    out.append(view(ver, "as_int", "the address as a number", lambda c, ex, s: c.n(ex, s)))
    out.append(view(ver, "__int__", "the address as a number", lambda c, ex, s: c.n(ex, s)))
    out.append(view(ver, "__index__", "the address as a number", lambda c, ex, s: c.n(ex, s)))
    out.append(view(ver, "_max_prefixlen", "the width of the address", lambda c, ex, s: z3.IntVal(w)))
    out.append(view(ver, "max_int", "the largest address", lambda c, ex, s: z3.IntVal(2 ** w - 1)))
    out.append(view(ver, "version", "the protocol version", lambda c, ex, s: z3.IntVal(c.ver)))
    out.append(view(ver, "_version", "the protocol version", lambda c, ex, s: z3.IntVal(c.ver)))
    out.append(view(ver, "network_offset", "the distance from the lowest address of the network", lambda c, ex, s: c.n(ex, s) - c.nw(ex, s)))
    out.append(view(ver, "numhosts", "the count of usable hosts",
                    lambda c, ex, s: z3.If(c.p(ex, s) == w, 1, z3.If(c.p(ex, s) == w - 1, 2, c.sz(ex, s) - 2))))
    return out


class ObjView(IpContract):
    """attributes that are ipaddress objects"""
    what = None
    specs = None        # fn(c, ex, self) -> {"_n": term} or {"_net":..., "prefixlen":...}
    cls_name = "Address"

    def at_call(self, ex, fi):
        return False

    def ensures(self, ex, a, r):
        s = a["self"]
        nm = self.key.split(".")[-1]
        if not isinstance(r, RecV) or ex.recs[r.id].get("__pyname__") != f"IPv{self.ver}{self.cls_name}":
            return [(f"{nm} is an IPv{self.ver}{self.cls_name}", z3.BoolVal(False))]
        return [(f"{nm} is {self.what}", z3.And(*[ex.recs[r.id][k].t == t for k, t in self.specs(self, ex, s).items()]))]


def objviews(ver):
    w = W[ver]
    mk = lambda attr, what, specs, cn="Address": ObjView(ver, attr=attr, what=what, specs=specs, cls_name=cn)      # noqa: E731
    out = [
        mk("ip", "the address", lambda c, ex, s: {"_n": c.n(ex, s)}),
        mk(f"ipv{ver}", "the address", lambda c, ex, s: {"_n": c.n(ex, s)}),
        mk("netmask", "the mask of the prefix length", lambda c, ex, s: {"_n": 2 ** w - c.sz(ex, s)}),
        mk("hostmask", "the complement of the mask", lambda c, ex, s: {"_n": c.sz(ex, s) - 1}),
        mk("inverse_netmask", "the complement of the mask", lambda c, ex, s: {"_n": c.sz(ex, s) - 1}),
        mk("network", "the block of the address", lambda c, ex, s: {"_net": c.nw(ex, s), "prefixlen": c.p(ex, s)}, "Network"),
    ]
    if ver == 4:
        out.append(mk("broadcast", "the highest address of the network", lambda c, ex, s: {"_n": c.nw(ex, s) + c.sz(ex, s) - 1}))
    return out


class TextView(IpContract):
    what = None
    spec = None

    def at_call(self, ex, fi):
        return False

    def ensures(self, ex, a, r):
        return [(f"{self.key.split('.')[-1]} is {self.what}", tm(ex, r, Str) == self.spec(self, ex, a["self"]))]


def textviews(ver):
    def cidr(c, ex, n, p):
        return ex.concat([IPSTR[c.ver](n), slit("/"), T.str_of_int(p)])
    return [
        TextView(ver, attr="as_cidr_addr", what="address/prefix length", spec=lambda c, ex, s: cidr(c, ex, c.n(ex, s), c.p(ex, s))),
        TextView(ver, attr="as_cidr_net", what="network/prefix length", spec=lambda c, ex, s: cidr(c, ex, c.nw(ex, s), c.p(ex, s))),
    ]


class TupleView(IpContract):
    """the base-256 / base-65536 digits of the address, each in a fixed text format"""
    what = None
    fmt = None

    def at_call(self, ex, fi):
        return False

    def ensures(self, ex, a, r):
        n = self.n(ex, a["self"])
        items = r.items if hasattr(r, "items") else ex.concrete_items(r)
        k = {4: 4, 6: 8}[self.ver]
        if items is None or len(items) != k:
            return [("one element per digit", z3.BoolVal(False))]
        val = T.int_of_str if self.ver == 4 else hexval
        exp = [digit(self.ver, i)(n) if self.fmt is None else strfn(f"format_-1_int_{self.fmt}", IntS, Str)(val(digit(self.ver, i)(n))) for i in range(k)]
        return [(f"{self.key.split('.')[-1]} is {self.what}", z3.And(*[tm(ex, x, Str) == e for x, e in zip(items, exp)]))]


def zero_padded(c, ex, n):
    ds = [strfn("format_-1_int_03", IntS, Str)(T.int_of_str(digit(4, i)(n))) for i in range(4)]
    out = []
    for d in ds:
        out += [slit("."), d]
    return out[1:]


class Cmp(IpContract):
    """comparison with another object of the class"""
    result = "bool"
    split = ()
    e1 = e2 = False

    def params_of(self):
        return {"self": ("ip", self.e1), "val": ("ip", self.e2)}

    @property
    def label(self):
        return f"self {'empty' if self.e1 else 'set'}, other {'empty' if self.e2 else 'set'}"

    def at_call(self, ex, fi):
        return False

    def key_of(self, ex, v):
        return (self.nw(ex, v), self.p(ex, v), self.n(ex, v))

    def same(self, ex, a):
        x, y = a["self"], a["val"]
        if self.e1 or self.e2:
            return z3.BoolVal(self.e1 and self.e2)
        return z3.And(self.n(ex, x) == self.n(ex, y), self.p(ex, x) == self.p(ex, y))

    def ensures(self, ex, a, r):
        op = self.attr
        if op == "__eq__":
            f, nm = self.same(ex, a), "equal iff address and prefix length are equal"
        elif op == "__ne__":
            f, nm = z3.Not(self.same(ex, a)), "unequal iff address or prefix length differ"
        elif op in ("__lt__", "__gt__"):
            x, y = self.key_of(ex, a["self"]), self.key_of(ex, a["val"])
            if op == "__gt__":
                x, y = y, x
            f = z3.Or(x[0] < y[0], z3.And(x[0] == y[0], z3.Or(x[1] < y[1], z3.And(x[1] == y[1], x[2] < y[2]))))
            nm = "ordered by (network, prefix length, address)"
        elif op == "__contains__":
            x, y = a["self"], a["val"]
            if self.e1 or self.e2:
                return [("only the empty object is contained in the empty object", truth(ex, r) == z3.BoolVal(self.e1 and self.e2))]
            f = z3.And(self.nw(ex, x) <= self.nw(ex, y), self.nw(ex, y) + self.sz(ex, y) <= self.nw(ex, x) + self.sz(ex, x))
            nm = "contained iff the block of the inner object lies in the block of the outer object"
        return [(nm, truth(ex, r) == f)]


class Hash(IpContract):
    attr = "__hash__"
    result = "int"

    def params_of(self):
        return {"self": ("ip", False), "other": ("ip", False)}
    ghost = ("other",)

    def ensures(self, ex, a, r):
        s, o = a["self"], a["other"]
        h2 = ex.call_func(ex.src.get(self.key), [o], {}, top=True)
        return [("equal objects have equal hashes",
                 z3.Implies(z3.And(self.n(ex, s) == self.n(ex, o), self.p(ex, s) == self.p(ex, o)), tm(ex, r) == tm(ex, h2)))]


class Arith(IpContract):
    sign = 1

    def params_of(self):
        return {"self": ("ip", False), "val": "int"}

    def at_call(self, ex, fi):
        return False

    def total(self, ex, a):
        v = a["val"].t
        return self.n(ex, a["self"]) + (v if self.sign > 0 else -v)

    def ensures(self, ex, a, r):
        s, t = a["self"], self.total(ex, a)
        cls = ex.src.module(UTIL).classes[f"IPv{self.ver}Obj"]
        if not isinstance(r, RecV) or r.cls is not cls:
            return [("the result is an object of the class", z3.BoolVal(False))]
        return [("the result has the address moved by val", self.n(ex, r) == t),
                ("the result has the same prefix length", self.p(ex, r) == self.p(ex, s)),
                ("no result outside the address space", z3.And(t >= 0, t < 2 ** self.w)),
                ("a new object", z3.BoolVal(r.id != s.id))] + self.inv(ex, r)

    @property
    def raises(self):
        return {"RequirementFailure": lambda ex, a: z3.Not(z3.And(self.total(ex, a) >= 0, self.total(ex, a) < 2 ** self.w))}


class SetPrefix(IpContract):
    setter = True

    def params_of(self):
        return {"self": ("ip", False), "arg": "int"}

    def at_call(self, ex, fi):
        return False

    def setup(self, ex):
        pass

    def ensures(self, ex, a, r):
        s = a["self"]
        return [("the prefix length is the one given", self.p(ex, s) == a["arg"].t),
                ("the address is unchanged", self.n(ex, s) == z3.Int("self.n"))] + self.inv(ex, s)

    raises = {"NetmaskValueError": None}

    def __init__(self, ver, **kw):
        super().__init__(ver, **kw)
        self.raises = {"NetmaskValueError": lambda ex, a: z3.Or(a["arg"].t < 0, a["arg"].t > self.w)}


class SetOffset(SetPrefix):
    attr = "network_offset"

    def __init__(self, ver, **kw):
        super().__init__(ver, **kw)
        self.raises = {"AddressValueError": lambda ex, a: z3.Or(a["arg"].t < 0, a["arg"].t >= self.sz(ex, a["self"]))}

    def ensures(self, ex, a, r):
        s = a["self"]
        return [("the offset is the one given", self.n(ex, s) - self.nw(ex, s) == a["arg"].t),
                ("the network is unchanged", self.nw(ex, s) == NETW(self.w, z3.Int("self.n"), z3.Int("self.p"))),
                ("the prefix length is unchanged", self.p(ex, s) == z3.Int("self.p"))] + self.inv(ex, s)


class Init(IpContract):
    attr = "__init__"
    kind = "int"

    @property
    def arg(self):
        return {4: "v4input", 6: "v6addr_prefixlen"}[self.ver]

    @property
    def label(self):
        return "from an " + {"int": "integer", "ip": "object of the class"}[self.kind]

    def params_of(self):
        mk = ("make", lambda ex, name: ex.new_rec(ex.src.module(UTIL).classes[f"IPv{self.ver}Obj"], {}))
        return {"self": mk, self.arg: "int" if self.kind == "int" else ("ip", False)}

    def at_call(self, ex, fi):
        return False

    def ensures(self, ex, a, r):
        s, v = a["self"], a[self.arg]
        if self.kind == "int":
            return [("address is the integer", self.n(ex, s) == v.t), ("prefix length is the full width", self.p(ex, s) == self.w),
                    ("not empty", z3.Not(truth(ex, ex.getattr(s, "empty"))))] + self.inv(ex, s)
        return [("address is copied", self.n(ex, s) == self.n(ex, v)), ("prefix length is copied", self.p(ex, s) == self.p(ex, v)),
                ("not empty", z3.Not(truth(ex, ex.getattr(s, "empty"))))] + self.inv(ex, s)

    def __init__(self, ver, **kw):
        super().__init__(ver, **kw)
        if self.kind == "int":
            self.raises = {"RequirementFailure": lambda ex, a: z3.Not(z3.And(a[self.arg].t >= 0, a[self.arg].t < 2 ** self.w))}


def more_views(ver):
    out = [TextView(ver, attr="as_hex", what="the address in hexadecimal", spec=lambda c, ex, s: strfn("py_hex", IntS, Str)(c.n(ex, s)))]
    if ver == 4:
        out += [TextView(4, attr="as_zeropadded", what="the four digits padded to three places",
                         spec=lambda c, ex, s: ex.concat(zero_padded(c, ex, c.n(ex, s)))),
                TextView(4, attr="as_zeropadded_network", what="the digits of the network padded to three places, and the prefix length",
                         spec=lambda c, ex, s: ex.concat(zero_padded(c, ex, c.nw(ex, s)) + [slit("/"), T.str_of_int(c.p(ex, s))])),
                TupleView(4, attr="as_binary_tuple", what="the four digits in binary", fmt="08b"),
                TupleView(4, attr="as_hex_tuple", what="the four digits in hexadecimal", fmt="02x")]
    else:
        out += [TupleView(6, attr="as_hex_tuple", what="the eight digits in hexadecimal"),
                TupleView(6, attr="as_binary_tuple", what="the eight digits in binary", fmt="016b")]
    return out


def order_props(ver):
    out = views(ver)
    combos = [(False, False)] + ([(True, False), (False, True), (True, True)])
    for op in ("__eq__", "__ne__"):
        for e1, e2 in combos:
            if ver == 6 and e2 and not e1:
                continue
            out.append(Cmp(ver, attr=op, e1=e1, e2=e2))
    for op in ("__lt__", "__gt__"):
        out.append(Cmp(ver, attr=op))
    for e1, e2 in combos if ver == 4 else combos[:1]:
        out.append(Cmp(ver, attr="__contains__", e1=e1, e2=e2))
    out.append(Hash(ver))
    return out


C15 = order_props(4)
C16 = order_props(6)
C17 = []
for _v in (4, 6):
    C17 += views(_v) + views17(_v) + objviews(_v) + textviews(_v) + more_views(_v)
    C17 += [Arith(_v, attr="__add__", sign=1), Arith(_v, attr="__sub__", sign=-1)]
    C17 += [SetPrefix(_v, attr=a) for a in (("prefixlen", "prefixlength", "masklen", "masklength") if _v == 4 else ("prefixlen", "masklen", "masklength"))]
    C17 += [SetOffset(_v), Init(_v, kind="int"), Init(_v, kind="ip")]


def order_theorems():
    """the key order is a strict total order consistent with equality; interval inclusion is inclusion of address sets"""
    from itertools import product
    ks = [z3.Ints(f"a{i} b{i} c{i}") for i in range(3)]

    def lt(x, y):
        return z3.Or(x[0] < y[0], z3.And(x[0] == y[0], z3.Or(x[1] < y[1], z3.And(x[1] == y[1], x[2] < y[2]))))

    def same(x, y):
        return z3.And(*[u == v for u, v in zip(x, y)])
    X, Y, Z = ks
    out = [
        ("order is irreflexive", [], z3.Not(lt(X, X))),
        ("order is transitive", [lt(X, Y), lt(Y, Z)], lt(X, Z)),
        ("order is total", [], z3.Or(lt(X, Y), lt(Y, X), same(X, Y))),
        ("order excludes equality", [lt(X, Y)], z3.And(z3.Not(lt(Y, X)), z3.Not(same(X, Y)))),
    ]
    for ver in (4, 6):
        w = z3.IntVal(W[ver])
        n1, p1, n2, p2 = z3.Ints("n1 p1 n2 p2")
        rng = [0 <= n1, n1 < 2 ** W[ver], 0 <= n2, n2 < 2 ** W[ver], 0 <= p1, p1 <= w, 0 <= p2, p2 <= w]
        out.append((f"v{ver}: equal keys are equal objects", pow_axioms() + block_axioms() + rng + [NETW(w, n1, p1) == NETW(w, n2, p2), p1 == p2, n1 == n2],
                    z3.And(n1 == n2, p1 == p2)))
        a = z3.Int("a")

        def inside(t, n, p):
            return z3.And(NETW(w, n, p) <= t, t < NETW(w, n, p) + size(w, p))
        incl = z3.And(NETW(w, n1, p1) <= NETW(w, n2, p2), NETW(w, n2, p2) + size(w, p2) <= NETW(w, n1, p1) + size(w, p1))
        base = pow_axioms() + block_axioms() + rng
        out.append((f"v{ver}: an included block has all its addresses in the outer block", base + [incl, inside(a, n2, p2)], inside(a, n1, p1)))
        lo, hi = NETW(w, n2, p2), NETW(w, n2, p2) + size(w, p2) - 1
        out.append((f"v{ver}: a block all of whose addresses lie in the outer block is included",
                    base + [z3.Implies(inside(lo, n2, p2), inside(lo, n1, p1)), z3.Implies(inside(hi, n2, p2), inside(hi, n1, p1))], incl))
    return out + ip_theorems()
