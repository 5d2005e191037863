"""Executable oracles of the value-object properties: C13, C15-C20, C22-C24."""
import ipaddress, itertools
from core import *          # noqa
from ciscoconfparse.ccp_util import IPv4Obj, IPv6Obj, L4Object, CiscoRange, CiscoIOSInterface
from ciscoconfparse.errors import *      # noqa
from ciscoconfparse.errors import RequirementFailure, DuplicateMember, MismatchedType, InvalidMember


def raises(f):
    try:
        f()
    except Exception as e:
        return e
    except BaseException as e:
        if isinstance(e, KeyboardInterrupt):
            raise
        return e
    return None


# ------------------------------------------------------------------------------------------------ C13
def gen_junos(rng, depth=0, n=None):
    """lines of a well-bracketed configuration, one brace or statement per line"""
    out = []
    names = ["system", "interfaces", "ge-0/0/0", "unit 0", "family inet", "address 10.0.0.1/24", "host-name r1", "a", "b c", "user lab",
             "vlan-id 10", "policy-options", "term 1", "from", "then accept", "description \"link to; core\"", "x {", "authentication \"$1$ab\""]
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if n is None else n):
        r = rng.random()
        pad = " " * rng.choice([0, 0, 1, 4, 8]) if rng.random() < .3 else " " * 4 * depth
        if r < .15:
            out.append([pad + rng.choice(["#", "##", "# ", "###", "######"]) + rng.choice(["", "comment", "a b", "x # y", "say \"hi\""]), depth, "c"])
        elif r < .55 or depth > 6:
            st = rng.choice(names[:16] + names[17:])
            out.append([pad + st + rng.choice([";", ";", ";", "", " ;"]) + rng.choice(["", "", " "]), depth, st])
        else:
            nm = rng.choice(names[:15])
            out.append([pad + nm + rng.choice([" {", " {", "{", "  {"]) + rng.choice(["", " "]), depth, nm])
            out += gen_junos(rng, depth + 1)
            out.append([pad + "}" + rng.choice(["", "", ";", " "]), depth, None])
    return out


@prop("C13")
class Junos:
    @staticmethod
    def gen(rng):
        spec = gen_junos(rng, 0, rng.choice([1, 2, 3, 5]))
        if rng.random() < .06:                          # a deep chain of blocks
            d = rng.choice([9, 10, 12, 17, 33])
            spec += [[" " * rng.choice([0, i]) + f"level {i} {{", i, f"level {i}"] for i in range(d)]
            spec += gen_junos(rng, d, 2)
            spec += [["}", i, None] for i in reversed(range(d))]
        return {"spec": spec, "width": rng.choice([4, 4, 1, 2, 3, 8]), "igb": rng.random() < .7}

    @staticmethod
    def check(c):
        spec = c["spec"]
        out = CC.convert_junos_to_ios([s[0] for s in spec], stop_width=c["width"], comment_delimiter="#")
        eq(len(out), len(spec), "number of lines")
        for (src, d, want), got in zip(spec, out):
            if want is None:
                eq(got.strip(), "", f"closing line {src!r}")
            elif want == "c":
                eq(got, " " * c["width"] * d + src.strip(), f"comment {src!r}")
            else:
                eq(got, " " * c["width"] * d + want, f"statement {src!r}")
        p = CiscoConfParse([s[0] for s in spec], syntax="junos", ignore_blank_lines=c["igb"], comment="#")
        got = [o for o in p.ConfigObjs if o.text.strip() != ""]
        exp = [s for s in spec if s[2] is not None]
        eq([o.text for o in got], [" " * 4 * d + (w if w != "c" else s.strip()) for s, d, w in exp], "parsed texts")
        # parents: the statement of the block the line is in
        stack = []
        j = 0
        for s, d, w in spec:
            if w is None:
                stack.pop()
                continue
            o = got[j]
            j += 1
            if w == "c":
                continue
            want = stack[-1] if stack else o
            expect(o.parent is want, "parent of %r is %r, not %r", o.text, o.parent.text, want.text)
            if s.rstrip().endswith("{"):
                stack.append(o)


# ------------------------------------------------------------------------------------------------ C15 / C16 / C17
def mkip(v, a, p):
    if v == 4:
        return IPv4Obj(f"{ipaddress.IPv4Address(a)}/{p}")
    return IPv6Obj(f"{ipaddress.IPv6Address(a)}/{p}")


def gen_ip(rng, v, near=None):
    w = 32 if v == 4 else 128
    p = rng.choice([0, 1, w - 2, w - 1, w, w // 2, w // 2 + 1, 8, 9, rng.randint(0, w), rng.randint(0, w)])
    r = rng.random()
    if near is not None and r < .6:
        a0, p0 = near
        size = 1 << (w - p0)
        net = a0 - a0 % size
        a = rng.choice([net, net + size - 1, net + size, net - 1, a0, a0 + 1, a0 - 1, net + size // 2, net + size // 4, rng.randint(net, net + size - 1)])
        p = rng.choice([p0, p0, max(0, p0 - 1), min(w, p0 + 1), min(w, p0 + 2), p, w])
    elif r < .8:
        a = rng.choice([0, 1, 2, (1 << w) - 1, (1 << w) - 2, 1 << (w - 1), (1 << (w - 1)) - 1, 10 << (w - 8), rng.getrandbits(w)])
    else:
        a = rng.getrandbits(w) & ~((1 << rng.randint(0, w)) - 1)
    return [max(0, min((1 << w) - 1, a)), p]


def ip_laws(v, x, y, z):
    w = 32 if v == 4 else 128
    A, B, C = [mkip(v, *t) for t in (x, y, z)]

    def net(t):
        return t[0] - t[0] % (1 << (w - t[1]))

    def last(t):
        return net(t) + (1 << (w - t[1])) - 1
    for s, t, S, T in ((x, y, A, B), (y, z, B, C), (x, x, A, A), (x, list(x), A, mkip(v, *x)), (y, x, B, A)):
        same = list(s) == list(t)
        eq(S == T, same, f"{S} == {T}")
        eq(S != T, not same, f"{S} != {T}")
        if same:
            eq(hash(S) == hash(T), True, f"hash of {S} and {T}")
            eq(len({S, T}), 1, "set of equal objects")
        ks, kt = (net(s), s[1], s[0]), (net(t), t[1], t[0])
        eq(S < T, ks < kt, f"{S} < {T}")
        eq(S > T, ks > kt, f"{S} > {T}")
        eq(T in S, net(s) <= net(t) and last(t) <= last(s), f"{T} in {S}")
    l = sorted([A, B, C])
    eq([[int(o.ip), o.prefixlen] for o in l], [list(t) for t in sorted([x, y, z], key=lambda t: (net(t), t[1], t[0]))], "sorted")


def gen_laws(rng, v):
    x = gen_ip(rng, v)
    y = gen_ip(rng, v, x)
    z = gen_ip(rng, v, rng.choice([x, y]))
    return {"k": [x, y, z]}


@prop("C15")
class IP4Laws:
    gen = staticmethod(lambda rng: gen_laws(rng, 4))
    check = staticmethod(lambda c: ip_laws(4, *c["k"]))


@prop("C16")
class IP6Laws:
    gen = staticmethod(lambda rng: gen_laws(rng, 6))
    check = staticmethod(lambda c: ip_laws(6, *c["k"]))


@prop("C17")
class IPArith:
    @staticmethod
    def gen(rng):
        v = rng.choice([4, 6])
        w = 32 if v == 4 else 128
        a, p = gen_ip(rng, v)
        M = (1 << w) - 1
        d = rng.choice([0, 1, -1, 2, 255, 256, M - a, M - a + 1, -a, -a - 1, a, a + 1, a - M, a - M - 1, M, -M, M + 1, rng.randint(-M, M), rng.randint(-5, 5)])
        size = 1 << (w - p)
        off = rng.choice([0, 1, -1, size - 1, size, size + 1, size // 2, rng.randint(0, size), -size])
        np_ = rng.choice([0, 1, w, w - 1, w + 1, -1, p, p + 1, p - 1, rng.randint(0, w)])
        return {"v": v, "k": [a, p, d, off, np_], "setter": rng.choice(["prefixlen", "prefixlen" if v == 6 else "prefixlength", "masklen", "masklength"]), "asstr": rng.random() < .2}

    @staticmethod
    def check(c):
        v = c["v"]
        w = 32 if v == 4 else 128
        M = (1 << w) - 1
        a, p, d, off, np_ = c["k"]
        std = (ipaddress.IPv4Interface if v == 4 else ipaddress.IPv6Interface)((a, p))
        o = mkip(v, a, p)

        def state(o):
            return [int(o.ip), o.prefixlen]
        eq(state(o), [a, p], "parsed")
        net = a - a % (1 << (w - p))
        bc = net + (1 << (w - p)) - 1
        # ---- derived values
        if v == 4:
            bcd, views = o.as_decimal_broadcast, [("broadcast", int(o.broadcast), bc), ("as_int", o.as_int, a),
                ("as_zeropadded", o.as_zeropadded, ".".join("%03d" % b for b in std.ip.packed)),
                ("as_zeropadded_network", o.as_zeropadded_network, ".".join("%03d" % b for b in std.network.network_address.packed) + f"/{p}"),
                ("as_binary_tuple", o.as_binary_tuple, tuple("{:08b}".format(b) for b in std.ip.packed)),
                ("as_hex_tuple", o.as_hex_tuple, tuple("%02x" % b for b in std.ip.packed))]
        else:
            bcd, views = o.as_decimal_network_maxint, [("as_int()", o.as_int(), a), ("as_hex_tuple", o.as_hex_tuple, tuple(std.ip.exploded.split(":"))),
                ("as_binary_tuple", o.as_binary_tuple, tuple("{:016b}".format(int(b, 16)) for b in std.ip.exploded.split(":")))]
        forms = [f"{std.ip}/{p}", f"{std.ip.exploded}/{p}", o, f"{std.ip} {std.netmask}" if v == 4 else f"{std.ip} {p}"]
        if v == 4:
            forms += [f"{std.ip}/{std.netmask}"]
        if p == w:
            forms += [a, f"{std.ip}"]
        for f in forms:
            eq(state(type(o)(f)), [a, p], f"{type(o).__name__}({f!r})")
        for name, got, want in views + [("as_decimal", o.as_decimal, a), ("int()", int(o), a), ("as_decimal_network", o.as_decimal_network, net),
                                ("last address", bcd, bc), ("network_offset", o.network_offset, a - net),
                                ("netmask", int(o.netmask), M - ((1 << (w - p)) - 1)), ("hostmask", int(o.hostmask), (1 << (w - p)) - 1),
                                ("inverse_netmask", int(o.inverse_netmask), (1 << (w - p)) - 1),
                                ("network", [int(o.network.network_address), o.network.prefixlen], [net, p]),
                                ("numhosts", o.numhosts, 1 if p == w else 2 if p == w - 1 else (1 << (w - p)) - 2),
                                ("masklen", [o.masklen, o.masklength, o.prefixlength], [p, p, p]), ("version", o.version, v),
                                ("as_cidr_addr", o.as_cidr_addr, f"{std.ip}/{p}"), ("as_cidr_net", o.as_cidr_net, f"{std.network}"),
                                ("index()", hex(o), hex(a))]:
            eq(got, want, f"{o}.{name}")
        # ---- + and -
        for op, r in (("+", a + d), ("-", a - d)):
            try:
                q = o + d if op == "+" else o - d
            except RequirementFailure:
                expect(not 0 <= r <= M, "%s %s %s raised although the result is an address", o, op, d)
            else:
                expect(0 <= r <= M, "%s %s %s gave %s outside the address space", o, op, d, q)
                eq(state(q), [r, p], f"{o} {op} {d}")
                eq(int(q.network.network_address), r - r % (1 << (w - p)), f"network of {o} {op} {d}")
                eq(type(q), type(o), "type")
            eq(state(o), [a, p], f"operand after {op}")
        # ---- offset
        o2 = mkip(v, a, p)
        e = raises(lambda: setattr(o2, "network_offset", str(off) if c["asstr"] else off))
        if 0 <= off <= bc - net:
            expect(e is None, "network_offset=%s of %s raised %r", off, o, e)
            eq(state(o2) + [int(o2.network.network_address)], [net + off, p, net], f"{o}.network_offset={off}")
        else:
            expect(e is not None, "network_offset=%s of %s was accepted", off, o)
            eq(state(o2) + [int(o2.network.network_address)], [a, p, net], f"{o} after a rejected network_offset={off}")
        # ---- prefix length
        o3 = mkip(v, a, p)
        e = raises(lambda: setattr(o3, c["setter"], np_))
        if 0 <= np_ <= w:
            expect(e is None, "%s=%s of %s raised %r", c["setter"], np_, o, e)
            eq(state(o3) + [int(o3.network.network_address), o3.masklen], [a, np_, a - a % (1 << (w - np_)), np_], f"{o}.{c['setter']}={np_}")
        else:
            expect(e is not None, "%s=%s of %s was accepted", c["setter"], np_, o)
            eq(state(o3), [a, p], "state after rejected prefix length")


# ------------------------------------------------------------------------------------------------ C18
def gen_parts(rng, hi=None):
    hi = hi or rng.choice([5, 12, 40, 4094])
    parts = []
    for _ in range(rng.choice([1, 1, 2, 3, 4, 6])):
        a = rng.randint(0, hi)
        parts.append([a, a + rng.choice([0, 1, 2, 3, 7])] if rng.random() < .5 else [a])
    if rng.random() < .5:
        parts.sort()
    return parts


def text_of(parts, sep=","):
    return sep.join("-".join(map(str, p)) for p in parts)


def members(parts):
    return sorted({i for p in parts for i in range(p[0], p[-1] + 1)})


def compress(ms):
    out, i = [], 0
    while i < len(ms):
        j = i
        while j + 1 < len(ms) and ms[j + 1] == ms[j] + 1:
            j += 1
        if j - i >= 2:
            out.append(f"{ms[i]}-{ms[j]}")
        else:
            out += [str(x) for x in ms[i:j + 1]]
        i = j + 1
    return ",".join(out)


@prop("C18")
class Ranges:
    @staticmethod
    def gen(rng):
        hist = []
        for _ in range(rng.choice([0, 1, 2, 4])):
            hist.append([rng.choice(["append", "remove"]), rng.randint(0, 45)])
        return {"parts": gen_parts(rng), "hist": hist, "sp": rng.random() < .3}

    @staticmethod
    def check(c):
        if not c["parts"]:
            return
        r = CiscoRange(text_of(c["parts"], ", " if c["sp"] else ","), result_type=int)
        ms = members(c["parts"])

        def same(what):
            eq(list(r), ms, f"members {what}")
            eq(len(r), len(ms), f"len {what}")
            for i in set(ms[:3] + ms[-3:] + [0, 7, 46]):
                eq(i in r, i in ms, f"{i} in range {what}")
            if ms:
                eq(r.as_list(), ms, f"as_list {what}")
                eq(r.as_list(result_type=str), [str(i) for i in ms], f"as_list(str) {what}")
                eq(r.as_set(), set(ms), f"as_set {what}")
                s = r.as_compressed_str()
                eq(s, compress(ms), f"compressed text {what}")
                eq(list(CiscoRange(s, result_type=int)), ms, f"expansion of the compressed text {what}")
        same("after parsing")
        for op, x in c["hist"]:
            e = raises(lambda: getattr(r, op)(x))
            if op == "append":
                expect((e is not None) == (x in ms), "append(%s) to %s: %r", x, ms, e)
                if e is None:
                    ms = sorted(ms + [x])
            else:
                expect((e is not None) == (x not in ms), "remove(%s) from %s: %r", x, ms, e)
                ms = [i for i in ms if i != x]
            same(f"after {op}({x})")


@prop("C18")
class RangeOps:
    @staticmethod
    def gen(rng):
        return {"parts": gen_parts(rng), "other": gen_parts(rng)}

    @staticmethod
    def check(c):
        if not c["parts"] or not c["other"]:
            return
        a, b = members(c["parts"]), members(c["other"])
        R = lambda q: CiscoRange(text_of(q), result_type=int)   # noqa
        eq(list(R(c["parts"]) + R(c["other"])), sorted(set(a) | set(b)), "sum of ranges")
        eq(list(R(c["parts"]) - R(c["other"])), sorted(set(a) - set(b)), "difference of ranges")
        o = R(c["other"])
        R(c["parts"]) + o
        eq(list(o), b, "right operand")
        eq(R(c["parts"]) == R(c["other"]), a == b, "equality of ranges")


@prop("C18")
class IntfRanges:
    @staticmethod
    def gen(rng):
        nslots = rng.choice([0, 1, 2])
        head = "/".join(str(rng.randint(0, 4)) for _ in range(nslots))
        tail = rng.choice(["", "", ".", ":"])
        base = rng.choice(["Ethernet", "Eth", "GigabitEthernet", "Gi", "interface Ethernet"]) + (head + "/" if head else "")
        if tail:
            base += str(rng.randint(0, 9)) + tail
        return {"base": base, "parts": gen_parts(rng, rng.choice([5, 12, 48])), "hist": [[rng.choice(["append", "remove"]), rng.randint(0, 20)] for _ in range(rng.choice([0, 1, 2]))]}

    @staticmethod
    def check(c):
        if not c["parts"]:
            return
        base = c["base"]
        # parts after the first are written with the number alone, as in Eth1/1-3,5
        tail = base[-1] if base[-1] in ".:" else ""
        parts = c["parts"]
        if tail:
            # a later part must spell the component that varies
            txt = ",".join([base + text_of([parts[0]])] + [base + "-".join(map(str, q)) for q in parts[1:]])
        else:
            txt = base + text_of(parts)
        ms = members(parts)
        r = CiscoRange(txt, result_type=None)

        def same(what):
            eq([str(x) for x in r], [f"{base}{i}" for i in ms], f"members of {txt} {what}")
            if ms:
                eq([str(x) for x in r.as_list()], [f"{base}{i}" for i in ms], f"as_list of {txt} {what}")
                eq(r.as_list(result_type=str), [f"{base}{i}" for i in ms], f"as_list(str) of {txt} {what}")
        same("after parsing")
        for op, x in c["hist"]:
            it = CiscoIOSInterface(f"{base}{x}")
            e = raises(lambda: getattr(r, op)(it))
            if op == "append":
                expect((e is not None) == (x in ms), "append(%s): %r", it, e)
                ms = sorted(set(ms + [x]))
            else:
                expect((e is not None) == (x not in ms), "remove(%s): %r", it, e)
                ms = [i for i in ms if i != x]
            same(f"after {op}({it})")


# ------------------------------------------------------------------------------------------------ C19
PREFIXES = ["Ethernet", "GigabitEthernet", "Gi", "Serial", "Eth", "TenGigE", "Port-channel", "Vlan", "Loopback", "interface Ethernet", "mgmt"]


def gen_intf(rng, like=None):
    d = {"prefix": rng.choice(PREFIXES), "slot": None, "card": None, "port": rng.choice([0, 1, 2, 9, 10, 47, 100, 4094]), "subinterface": None,
         "channel": None, "interface_class": None, "gap": rng.choice(["", "", "", " "])}
    k = rng.random()
    if k < .6:
        d["slot"] = rng.choice([0, 1, 2, 9, 10, 100])
        if k < .3:
            d["card"] = rng.choice([0, 1, 2, 9, 10, 100])
    if rng.random() < .35:
        d["subinterface"] = rng.choice([0, 1, 2, 10, 100, 4094])
    if rng.random() < .02:                              # numbers of many digits (hash() computes powers of them: time grows with the number)
        for f in ("slot", "card", "port", "subinterface"):
            if d[f] is not None and rng.random() < .5:
                d[f] = rng.choice([12345, 65535, 99999]) if f != "subinterface" else rng.choice([65535, 99999, 1234567])
    if rng.random() < .25:
        d["channel"] = rng.choice([0, 1, 2, 10, 23])
    if rng.random() < .15:
        d["interface_class"] = rng.choice(["multipoint", "point-to-point", "l-transport"])
    if like and rng.random() < .7:
        d = dict(like)
        for _ in range(rng.choice([0, 1, 1, 2])):
            f = rng.choice(["slot", "card", "port", "subinterface", "channel", "prefix"])
            if f == "prefix":
                d[f] = rng.choice(PREFIXES)
            elif d[f] is not None:
                d[f] = max(0, d[f] + rng.choice([-1, 1, 8, 9, 90]))
            elif f in ("subinterface", "channel") or (f == "slot") or (f == "card" and d["slot"] is not None):
                d[f] = rng.choice([0, 1, 10])
        if d["slot"] is None:
            d["card"] = None
    return d


def intf_text(d):
    s = d["prefix"] + d["gap"]
    s += "/".join(str(d[k]) for k in ("slot", "card", "port") if d[k] is not None)
    if d["subinterface"] is not None:
        s += f".{d['subinterface']}"
    if d["channel"] is not None:
        s += f":{d['channel']}"
    if d["interface_class"]:
        s += " " + d["interface_class"]
    return s


COMP = ("slot", "card", "port", "subinterface", "channel", "interface_class")


@prop("C19")
class Interfaces:
    @staticmethod
    def gen(rng):
        a = gen_intf(rng)
        b = gen_intf(rng, a)
        return {"k": [a, b, gen_intf(rng, rng.choice([a, b]))]}

    @staticmethod
    def check(c):
        ds = c["k"]
        os_ = []
        for d in ds:
            t = intf_text(d)
            o = CiscoIOSInterface(t)
            os_.append(o)
            eq(o.prefix, d["prefix"], f"prefix of {t!r}")
            for f in COMP:
                eq(getattr(o, f), d[f], f"{f} of {t!r}")
            r = str(o)
            eq(r, intf_text(dict(d, gap="")), f"rendering of {t!r}")
            o2 = CiscoIOSInterface(r)
            expect(o2 == o and hash(o2) == hash(o), "%r renders as %r which parses to %r", t, r, o2)
            eq(str(o2), r, "second rendering")
            eq(str(CiscoIOSInterface(interface_dict=o.as_dict())), r, f"rebuilt from the dictionary of {t!r}")
            eq(o == CiscoIOSInterface(interface_dict=o.as_dict()), True, f"{t!r} rebuilt from its dictionary is equal")
        key = lambda d: [(d[f] is not None, d[f]) for f in COMP]   # noqa
        for d, o in zip(ds, os_):
            for e, q in zip(ds, os_):
                same = d["prefix"] == e["prefix"] and key(d) == key(e)
                eq(o == q, same, f"{o} == {q}")
                if same:
                    eq(hash(o) == hash(q), True, f"hash of {o} and {q}")
                if key(d) != key(e):
                    dd = next(f for f in COMP if d[f] != e[f])
                    # comparable components: both missing/present alike up to the first difference
                    eq(o < q, key(d) < key(e), f"{o} < {q} ({dd})")
                    eq(o > q, key(d) > key(e), f"{o} > {q} ({dd})")
                else:
                    eq([o < q, o > q], [False, False], f"{o} and {q} have the same components")
        eq([[getattr(x, f) for f in COMP] for x in sorted(os_)], [[d[f] for f in COMP] for d in sorted(ds, key=key)], "sorted")


# ------------------------------------------------------------------------------------------------ C20
KEY = "dsfd;kfoA,.iyewrkldJKDHSUBsgvca69834ncxv9873254k;fg87"


@prop("C20")
class Type7:
    @staticmethod
    def gen(rng):
        n = rng.choice([1, 2, 5, 8, 11, 25, 52, 53, 54, 60, 107])
        return {"salt": rng.choice([0, 1, 15, 52, 53, 54, 99, rng.randint(0, 99)]), "pw": [rng.choice([rng.randint(0, 255), rng.randint(32, 126)]) for _ in range(n)],
                "upper": rng.random() < .6, "ctor": rng.random() < .5, "again": rng.random() < .3}

    @staticmethod
    def check(c):
        if not c["pw"]:
            return
        s = "%02d" % c["salt"] + "".join("%02x" % (b ^ ord(KEY[(c["salt"] + i) % 53])) for i, b in enumerate(c["pw"]))
        s = s.upper() if c["upper"] else s
        want = "".join(map(chr, c["pw"]))
        o = CC.CiscoPassword(s) if c["ctor"] else CC.CiscoPassword()
        eq(o.decrypt() if c["ctor"] else o.decrypt(s), want, f"decryption of {s}")
        if c["again"]:
            o.decrypt("104D000A0618")
            eq(o.decrypt(s), want, f"second decryption of {s} with the same object")


# ------------------------------------------------------------------------------------------------ C22
# port names of the ASA command reference (IANA numbers)
TCP = dict(aol=5190, bgp=179, chargen=19, cifs=3020, cmd=514, ctiqbe=2748, daytime=13, discard=9, domain=53, echo=7, exec=512, finger=79,
           ftp=21, gopher=70, h323=1720, hostname=101, http=80, https=443, ident=113, imap4=143, irc=194, kerberos=88, klogin=543, kshell=544,
           ldap=389, ldaps=636, login=513, lotusnotes=1352, lpd=515, nfs=2049, nntp=119, pop2=109, pop3=110, pptp=1723, rsh=514, rtsp=554, sip=5060,
           smtp=25, sqlnet=1521, ssh=22, sunrpc=111, tacacs=49, talk=517, telnet=23, uucp=540, whois=43, www=80)
TCP.update({"citrix-ica": 1494, "ftp-data": 20, "netbios-ssn": 139, "pcanywhere-data": 5631, "pim-auto-rp": 496})
UDP = dict(biff=512, bootpc=68, bootps=67, cifs=3020, discard=9, dnsix=90, domain=53, echo=7, http=80, isakmp=500, kerberos=88, nameserver=42, nfs=2049,
           ntp=123, radius=1812, rip=520, rtsp=5004, sip=5060, snmp=161, snmptrap=162, sunrpc=111, syslog=514, tacacs=49, talk=517, tftp=69, time=37, who=513,
           www=80, xdmcp=177)
UDP.update({"mobile-ip": 434, "netbios-dgm": 138, "netbios-ns": 137, "pcanywhere-status": 5632, "pim-auto-rp": 496, "radius-acct": 1813,
            "secureid-udp": 5500})


@prop("C22")
class Ports:
    @staticmethod
    def gen(rng):
        q = lambda: rng.choice([0, 1, 2, 3, 21, 80, 443, 1023, 65533, 65534, 65535, 65536, rng.randint(1, 65535)])   # noqa
        a = q()
        b = rng.choice([a, a + 1, a + 5, q(), q()])
        return {"proto": rng.choice(["tcp", "udp"]), "op": rng.choice(["eq", "bare", "range", "lt", "gt", "neq"]), "k": [a, b], "name": rng.random() < .25,
                "pick": rng.randint(0, 1000), "ws": rng.choice([" ", " ", "  "]), "other": rng.choice(["eq", "range", "lt", "gt"])}

    @staticmethod
    def check(c):
        table = TCP if c["proto"] == "tcp" else UDP
        a, b = c["k"]
        ta, tb = str(a), str(b)
        if c["name"]:
            ta = sorted(table)[c["pick"] % len(table)]
            a = int(table[ta])
        ws = c["ws"]
        op = c["op"]
        if op == "bare":
            spec, want, ok = ta, {a}, 1 <= a <= 65535
        elif op == "range":
            spec, want, ok = f"range{ws}{ta}{ws}{tb}", set(range(a, b + 1)), 1 <= a <= b <= 65535
        elif op == "eq":
            spec, want, ok = f"eq{ws}{ta}", {a}, 1 <= a <= 65535
        elif op == "lt":
            spec, want, ok = f"lt{ws}{ta}", set(range(1, a)), 2 <= a <= 65535
        elif op == "gt":
            spec, want, ok = f"gt{ws}{ta}", set(range(a + 1, 65536)), 1 <= a <= 65534
        else:
            spec, want, ok = f"neq{ws}{ta}", set(range(1, 65536)) - {a}, 1 <= a <= 65535
        try:
            o = L4Object(protocol=c["proto"], port_spec=spec, syntax="asa")
        except RequirementFailure:
            expect(not ok, "%s %s raised", c["proto"], spec)
            return
        expect(ok, "%s %s denotes ports outside 1..65535 but was accepted", c["proto"], spec)
        eq(len(o.port_list), len(set(o.port_list)), f"duplicate ports of {spec}")
        expect(set(o.port_list) == want, "ports of %s %s: %s", c["proto"], spec, short([sorted(set(o.port_list) ^ want)[:5], len(o.port_list)]))
        if want and len(want) == max(want) - min(want) + 1:
            same = L4Object(protocol=c["proto"], port_spec=f"range {min(want)} {max(want)}", syntax="asa")
            eq(o == same, True, f"{spec} == range {min(want)} {max(want)}")
            oth = L4Object(protocol="udp" if c["proto"] == "tcp" else "tcp", port_spec=f"range {min(want)} {max(want)}", syntax="asa")
            eq(o == oth, False, f"{spec} == other protocol")
            if max(want) < 65535:
                eq(o == L4Object(protocol=c["proto"], port_spec=f"range {min(want)} {max(want) + 1}", syntax="asa"), False, f"{spec} == larger range")


# ------------------------------------------------------------------------------------------------ C23
@prop("C23")
class Trunk:
    @staticmethod
    def gen(rng):
        ops = []
        for _ in range(rng.choice([0, 1, 2, 3, 5])):
            op = rng.choice(["set", "set", "add", "add", "remove", "except", "all", "none"])
            parts = []
            hi = rng.choice([6, 12, 4090])
            for _ in range(rng.choice([1, 1, 2, 3])):
                x = rng.randint(1, hi)
                parts.append([x, min(4094, x + rng.choice([1, 2, 3]))] if rng.random() < .5 else [x])
            ops.append([op, parts])
        return {"ops": ops, "noise": [rng.choice([" switchport mode trunk", " description trunk", " switchport trunk encapsulation dot1q", " switchport trunk native vlan 5",
                                                  " no shutdown"]) for _ in range(rng.choice([0, 1, 2]))], "at": rng.randint(0, 5), "sep": rng.choice([",", ",", ", "])}

    @staticmethod
    def check(c):
        lines = [" switchport"]
        body = []
        cur, double = set(range(1, 4095)), False
        for op, parts in c["ops"]:
            if not parts and op in ("set", "add", "remove", "except"):
                continue
            m = set(members(parts))
            t = text_of(parts, c["sep"])
            if op == "set":
                body.append(f" switchport trunk allowed vlan {t}")
                cur = (cur | m) if double else m
                double = True
            elif op == "add":
                body.append(f" switchport trunk allowed vlan add {t}")
                cur = cur | m
            elif op in ("remove", "except"):
                body.append(f" switchport trunk allowed vlan {op} {t}")
                cur = cur - m
            elif op == "all":
                body.append(" switchport trunk allowed vlan all")
                cur, double = set(range(1, 4095)), False
            else:
                body.append(" switchport trunk allowed vlan none")
                cur, double = set(), False
        k = c["at"] % (len(body) + 1)
        body = body[:k] + c["noise"] + body[k:]
        p = CiscoConfParse(["interface Ethernet1/1"] + lines + body + ["interface Ethernet1/2", " switchport"], syntax="ios", factory=True)
        o = p.find_objects(r"^interface Ethernet1/1")[0]
        r = o.trunk_vlans_allowed
        eq(sorted(r), sorted(cur), f"allowed vlans of {body}")
        eq(len(r), len(cur), "number of allowed vlans")
        eq(sorted(o.trunk_vlans_allowed), sorted(cur), "second evaluation")
        eq(len(p.find_objects(r"^interface Ethernet1/2")[0].trunk_vlans_allowed), 4094, "allowed vlans of a switchport without such lines")


# ------------------------------------------------------------------------------------------------ C24
def gen_tree(rng, depth=0, pool=None):
    out = []
    seen = set()
    for _ in range(rng.choice([0, 1, 2, 3]) if depth else rng.choice([0, 1, 2, 4, 6])):
        t = rng.choice(pool)
        if t in seen:
            continue
        seen.add(t)
        out.append([depth, t])
        if depth < 3 and rng.random() < .45:
            out += gen_tree(rng, depth + 1, pool)
    return out


def paths(tree):
    st, out = [], []
    for d, t in tree:
        st = st[:d] + [t]
        out.append(tuple(st))
    return out


@prop("C24")
class Diff:
    @staticmethod
    def gen(rng):
        pool = rng.sample(["a", "b", "c", "a b", "ab", "interface Ethernet1/1", "ip address 1.1.1.1 255.0.0.0", "shutdown", "no shutdown", "vlan 1", "vlan 11", "description x  y"], 7)
        old = gen_tree(rng, 0, pool)
        r = rng.random()
        if r < .12:
            new = [list(x) for x in old]
        elif r < .6:
            new = [list(x) for x in old]
            for _ in range(rng.choice([1, 1, 2, 3])):
                if new and rng.random() < .5:
                    i = rng.randrange(len(new))
                    j = i + 1
                    while j < len(new) and new[j][0] > new[i][0]:
                        j += 1
                    del new[i:j]
                else:
                    i = rng.randint(0, len(new))
                    dmax = new[i - 1][0] + 1 if i else 0
                    d = rng.randint(0, dmax)
                    if i < len(new):
                        d = max(d, 0)
                    new.insert(i, [d, rng.choice(pool)])
            # keep it a tree
            prev = -1
            for x in new:
                x[0] = min(x[0], prev + 1)
                prev = x[0]
        else:
            new = gen_tree(rng, 0, pool)
        return {"old": old, "new": new, "w": rng.choice([1, 2]), "ws": rng.random() < .2}

    @staticmethod
    def check(c):
        for t in (c["old"], c["new"]):
            prev = -1
            for d, x in t:
                if d > prev + 1:
                    return
                prev = d
        if not c["old"] or not c["new"]:
            return
        L = lambda t: [" " * c["w"] * d + x for d, x in t]     # noqa
        norm = lambda s: " ".join(s.split())                  # noqa
        h = CC.HDiff(before_config=L(c["old"]), after_config=[x + (" " if c["ws"] else "") for x in L(c["new"])], syntax="ios")
        P = {tuple(map(norm, q)) for q in paths(c["old"])}
        Q = {tuple(map(norm, q)) for q in paths(c["new"])}
        got = {}
        for d in h.all_output_dicts:
            path = tuple(norm(x) for x in d["parents"]) + (norm(d["text"]),)
            expect(path not in got, "line %s reported twice", path)
            got[path] = d["diff_word"]
        for q in P - Q:
            eq(got.get(q), "remove", f"line {q} only in the old configuration")
        for q in Q - P:
            eq(got.get(q), "add", f"line {q} only in the new configuration")
        for q in P & Q:
            expect(got.get(q) in ("keep", "unchanged", None), "common line %s reported as %s", q, got.get(q))
        expect(set(got) <= P | Q, "lines of neither configuration: %s", set(got) - P - Q)
        u = h.unified_diffs(header=False)
        eq(sorted(norm(x[1:]) for x in u if x[0] == "-"), sorted(q[-1] for q in P - Q), "removed lines of the unified diff")
        eq(sorted(norm(x[1:]) for x in u if x[0] == "+"), sorted(q[-1] for q in Q - P), "added lines of the unified diff")
