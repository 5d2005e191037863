"""Contracts of interface names (C19)."""
import z3
from pyvc import theory as T
from pyvc import shapes as SH
from pyvc.theory import Str, IntS, BoolS, slit
from pyvc.engine import Sc, S, I, NoneV, NONE, STR_LT
from pyvc.contract import Contract

U = "ciscoconfparse.ccp_util"
CLS = "CiscoIOSInterface"
FIELDS_ = ("slot", "card", "port", "subinterface", "channel")
SHAPES = [("port",), ("slot", "port"), ("slot", "card", "port")]
PREFIX = r"[a-zA-Z](?:[a-zA-Z\-]*[a-zA-Z])?"
CLASS_ = r"[a-zA-Z](?:[a-zA-Z\-]*[a-zA-Z])?"


n = z3.Int("n")


def numerals():
    return [z3.ForAll([n], z3.And(T.is_int_str(T.str_of_int(n)), T.int_of_str(T.str_of_int(n)) == n), patterns=[T.str_of_int(n)])]


class Parts:
    """the components of a name: prefix text, numbers (None when missing), class"""

    def __init__(self, ex, shape, sub, chan, cls):
        self.prefix = ex.fresh(Str, "prefix")
        self.v = {f: None for f in FIELDS_}
        for f in shape + (("subinterface",) if sub else ()) + (("channel",) if chan else ()):
            n = ex.fresh(IntS, f)
            ex.assume(n >= 0)
            self.v[f] = n
        self.cls = ex.fresh(Str, "class") if cls else None
        SH.atom(ex, self.prefix, PREFIX)
        if cls:
            SH.atom(ex, self.cls, CLASS_)

    def text(self, ex, gap=None, gap2=None):
        v = self.v
        out = [self.prefix] + ([gap] if gap is not None else [])
        for i, f in enumerate(x for x in ("slot", "card", "port") if v[x] is not None):
            out += ([slit("/")] if i else []) + [T.str_of_int(v[f])]
        if v["subinterface"] is not None:
            out += [slit("."), T.str_of_int(v["subinterface"])]
        if v["channel"] is not None:
            out += [slit(":"), T.str_of_int(v["channel"])]
        if self.cls is not None:
            out += [gap2 if gap2 is not None else slit(" "), self.cls]
        return ex.concat(out)


def agree(ex, rec, P):
    """the object has exactly these components"""
    out = []
    for f in FIELDS_:
        r = ex.getattr(rec, f)
        w = P.v[f]
        ok = isinstance(r, NoneV) if w is None else isinstance(r, Sc) and r.ty == "int"
        out.append((f"{f} is what the name says", (r.t == w if w is not None else z3.BoolVal(True)) if ok else z3.BoolVal(False)))
    r = ex.getattr(rec, "prefix")
    out.append(("prefix", r.t == P.prefix if isinstance(r, Sc) and r.ty == "str" else z3.BoolVal(False)))
    r = ex.getattr(rec, "interface_class")
    if P.cls is None:
        out.append(("no class", z3.BoolVal(isinstance(r, NoneV))))
    else:
        out.append(("class", r.t == P.cls if isinstance(r, Sc) and r.ty == "str" else z3.BoolVal(False)))
    return out


class Parse(Contract):
    key = f"{U}:{CLS}.__init__"
    result = "none"
    split = ()

    def __init__(self, shape, sub, chan):
        self.shape, self.sub, self.chan = shape, sub, chan
        self.label = "/".join(shape) + (".subinterface" if sub else "") + (":channel" if chan else "")
        self.params = {"self": ("make", lambda ex, name: ex.new_rec(ex.src.module(U).classes[CLS], {})), "interface_name": ("make", self.name)}

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        return numerals()

    def name(self, ex, name):
        self.P = P = Parts(ex, self.shape, self.sub, self.chan, ex.choose(ex.fresh(BoolS, "with a class")))
        gap, gap2 = ex.fresh(Str, "gap"), ex.fresh(Str, "gap2")
        SH.atom(ex, gap, " *")
        SH.atom(ex, gap2, " +")
        return Sc("str", P.text(ex, gap, gap2))

    def ensures(self, ex, a, r):
        return agree(ex, a["self"], self.P)


def components(ex):
    """any components: which ones are present is chosen, their values are arbitrary"""
    k = 2 if ex.choose(ex.fresh(BoolS, "three numbers")) else 1 if ex.choose(ex.fresh(BoolS, "two numbers")) else 0
    return Parts(ex, SHAPES[k], *(ex.choose(ex.fresh(BoolS, nm)) for nm in ("sub", "chan", "cls")))


def build(ex, P):
    """an object with these components, given to its public setters"""
    o = ex.new_rec(ex.src.module(U).classes[CLS], {})
    num = lambda f: I(P.v[f]) if P.v[f] is not None else NONE
    for f in ("slot", "card", "port"):
        ex.setattr(o, f, num(f))
    ex.setattr(o, "prefix", Sc("str", P.prefix))
    ex.setattr(o, "digit_separator", S("/") if P.v["slot"] is not None else NONE)
    for f in ("subinterface", "channel"):
        ex.setattr(o, f, num(f))
    ex.setattr(o, "interface_class", Sc("str", P.cls) if P.cls is not None else NONE)
    return o


class Render(Contract):
    """the name of an object parsed from a name is that name without superfluous blanks: parsing it gives the same components (contracts of __init__)"""
    split = ()
    result = "str"

    def __init__(self, name):
        self.key = f"{U}:{CLS}.{name}"
        self.params = {"self": ("make", self.made)}

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        return numerals()

    def made(self, ex, name):
        self.P = components(ex)
        gap, gap2 = ex.fresh(Str, "gap"), ex.fresh(Str, "gap2")
        SH.atom(ex, gap, " *")
        SH.atom(ex, gap2, " +")
        return ex.construct(ex.src.module(U).classes[CLS], [Sc("str", self.P.text(ex, gap, gap2))], {})

    def ensures(self, ex, a, r):
        return [("the components in canonical form", r.t == self.P.text(ex) if isinstance(r, Sc) and r.ty == "str" else z3.BoolVal(False))]


def same(P, Q):
    out = [P.prefix == Q.prefix] if P is not Q else []
    for f in FIELDS_:
        p, q = P.v[f], Q.v[f]
        out.append(z3.BoolVal((p is None) == (q is None)) if p is None or q is None else p == q)
    p, q = P.cls, Q.cls
    out.append(z3.BoolVal((p is None) == (q is None)) if p is None or q is None else p == q)
    return z3.And(*out)


def less(P, Q):
    """components compared in order, missing ones first, numbers by value"""
    r = z3.BoolVal(False)
    for p, q, lt in reversed([(P.v[f], Q.v[f], lambda a, b: a < b) for f in FIELDS_] + [(P.cls, Q.cls, STR_LT)]):
        if p is None and q is None:
            continue
        if p is None or q is None:
            r = z3.BoolVal(p is None)
        else:
            r = z3.Or(lt(p, q), z3.And(p == q, r))
    return r


class Pair(Contract):
    split = ()
    result = "bool"

    def __init__(self, name, shape, sub, chan, cls):
        self.key = f"{U}:{CLS}.{name}"
        self.op, self.first = name, (shape, sub, chan, cls)
        self.label = "/".join(shape) + (".subinterface" if sub else "") + (":channel" if chan else "") + (" class" if cls else "") + " against any"
        self.params = {"self": ("make", self.a), "other": ("make", self.b)}

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        w = z3.Const("w", Str)
        return numerals() + [z3.ForAll([w], z3.Not(STR_LT(w, w)), patterns=[STR_LT(w, w)])]

    def a(self, ex, name):
        self.P = Parts(ex, *self.first)
        return build(ex, self.P)

    def b(self, ex, name):
        self.Q = components(ex)
        return build(ex, self.Q)

    def ensures(self, ex, a, r):
        want = {"__eq__": same(self.P, self.Q), "__lt__": less(self.P, self.Q), "__gt__": less(self.Q, self.P)}[self.op]
        return [({"__eq__": "equal exactly when all components agree", "__lt__": "before exactly when the components are, numerically",
                  "__gt__": "after exactly when the components are, numerically"}[self.op], ex.truth(r) == want)]


class Hash(Contract):
    key = f"{U}:{CLS}.__hash__"
    split = ()
    result = "int"

    def __init__(self):
        self.params = {"self": ("make", self.a)}

    def at_call(self, ex, fi):
        return False

    def axioms(self):
        return numerals()

    def a(self, ex, name):
        self.P = components(ex)
        self.twin = build(ex, self.P)
        return build(ex, self.P)

    def ensures(self, ex, a, r):
        m = ex.src.find_method(ex.src.module(U).classes[CLS], "__hash__")
        r2 = ex.call_func(m, [self.twin], {})
        return [("an object of equal components has the same hash", r.t == r2.t)]


def c19_theorems():
    """the order of components is a strict weak order, and nothing else than equal components is unordered within a prefix"""
    class V:
        pass

    def tri(nm):
        o = V()
        o.h = [z3.Bool(f"{nm}_has_{i}") for i in range(6)]
        o.x = [z3.Int(f"{nm}_{i}") for i in range(6)]
        return o

    def lt(P, Q):
        r = z3.BoolVal(False)
        for i in reversed(range(6)):
            a, b = z3.And(z3.Not(P.h[i]), Q.h[i]), z3.And(P.h[i], Q.h[i], P.x[i] < Q.x[i])
            e = z3.And(P.h[i] == Q.h[i], z3.Implies(P.h[i], P.x[i] == Q.x[i]))
            r = z3.Or(a, b, z3.And(e, r))
        return r

    def eqv(P, Q):
        return z3.And(*[z3.And(P.h[i] == Q.h[i], z3.Implies(P.h[i], P.x[i] == Q.x[i])) for i in range(6)])
    A, B_, C_ = tri("a"), tri("b"), tri("c")
    return [("irreflexive", [], z3.Not(lt(A, A))), ("asymmetric", [lt(A, B_)], z3.Not(lt(B_, A))), ("transitive", [lt(A, B_), lt(B_, C_)], lt(A, C_)),
            ("unordered only when the components agree", [z3.Not(lt(A, B_)), z3.Not(lt(B_, A))], eqv(A, B_))]


PARSE = [Parse(s, b, c) for s in SHAPES for b in (False, True) for c in (False, True)]
PAIRS = [Pair(o, s, b, c, d) for o in ("__eq__", "__lt__", "__gt__") for s in SHAPES for b in (False, True) for c in (False, True) for d in (False, True)]
C19 = PARSE + [Render("render_as_string"), Render("__str__"), Render("name"), Hash()] + PAIRS
HOOKS = dict(SH.HOOKS)
MODELS = {}
TRUSTED = SH.TRUSTED + ["str() of an integer is a decimal numeral that int() reads back", "the order of texts (interface classes) is a total order; powers of integers are a function"]
