"""Sorts and list/set theory used by the verification conditions.

Lists are the algebraic datatype  nil | snoc(init, last).  A *fold* is a spec function over lists defined by recursion
on snoc; every law about folds that is used in a proof is either its defining equation or a lemma that the tool proves
by structural induction (class Lemma: base and step are ordinary obligations).
"""
import z3

Str = z3.DeclareSort("Str")
Ref = z3.DeclareSort("Ref")          # heap objects (configuration lines)
Val = z3.DeclareSort("Val")          # opaque values
IntS, BoolS = z3.IntSort(), z3.BoolSort()

_lists = {}


class ListTheory:
    def __init__(self, name, elem):
        self.name, self.elem = name, elem
        D = z3.Datatype(f"List_{name}")
        D.declare(f"nil_{name}")
        D.declare(f"snoc_{name}", (f"init_{name}", D), (f"last_{name}", elem))
        self.sort = D.create()
        S = self.sort
        g = lambda n: getattr(S, n)
        self.nil, self.snoc = g(f"nil_{name}"), g(f"snoc_{name}")
        self.is_nil, self.is_snoc = g(f"is_nil_{name}"), g(f"is_snoc_{name}")
        self.init, self.last = g(f"init_{name}"), g(f"last_{name}")
        self.len = z3.Function(f"len_{name}", S, IntS)
        self.mem = z3.Function(f"mem_{name}", elem, S, BoolS)
        self.cat = z3.Function(f"cat_{name}", S, S, S)
        self.nth = z3.Function(f"nth_{name}", S, IntS, elem)
        self.rev = z3.Function(f"rev_{name}", S, S)
        self.setof = z3.Function(f"setof_{name}", S, z3.ArraySort(elem, BoolS))
        l, m, k = z3.Consts("l m k", S)
        x, y = z3.Consts("x y", elem)
        i = z3.Int("i")
        FA = z3.ForAll
        sn = self.snoc
        self.defs = [
            self.len(self.nil) == 0,
            FA([l, x], self.len(sn(l, x)) == self.len(l) + 1, patterns=[self.len(sn(l, x))]),
            FA([y], z3.Not(self.mem(y, self.nil)), patterns=[self.mem(y, self.nil)]),
            FA([l, x, y], self.mem(y, sn(l, x)) == z3.Or(y == x, self.mem(y, l)), patterns=[self.mem(y, sn(l, x))]),
            FA([l], self.cat(l, self.nil) == l, patterns=[self.cat(l, self.nil)]),
            FA([l, m, x], self.cat(l, sn(m, x)) == sn(self.cat(l, m), x), patterns=[self.cat(l, sn(m, x))]),
            FA([l, x, i], self.nth(sn(l, x), i) == z3.If(i == self.len(l), x, self.nth(l, i)),
               patterns=[self.nth(sn(l, x), i)]),
            self.rev(self.nil) == self.nil,
            FA([l, x], self.rev(sn(l, x)) == self.cat(sn(self.nil, x), self.rev(l)), patterns=[self.rev(sn(l, x))]),
            self.setof(self.nil) == z3.K(elem, False),
            FA([l, x], self.setof(sn(l, x)) == z3.Store(self.setof(l), x, True), patterns=[self.setof(sn(l, x))]),
        ]
        # lemmas, proved by induction (see prove_theory)
        self.lemmas = [
            Lemma(f"{name}.len_nonneg", S, self, [], lambda v: self.len(v) >= 0, lambda v: [self.len(v)]),
            Lemma(f"{name}.len_nil", S, self, [], lambda v: z3.Implies(self.len(v) == 0, v == self.nil),
                  lambda v: [self.len(v)], use=["len_nonneg"]),
            Lemma(f"{name}.cat_nil", S, self, [], lambda v: self.cat(self.nil, v) == v,
                  lambda v: [self.cat(self.nil, v)]),
            Lemma(f"{name}.cat_assoc", S, self, [l, m],
                  lambda v: self.cat(l, self.cat(m, v)) == self.cat(self.cat(l, m), v),
                  lambda v: [self.cat(l, self.cat(m, v))]),
            Lemma(f"{name}.cat_len", S, self, [l], lambda v: self.len(self.cat(l, v)) == self.len(l) + self.len(v),
                  lambda v: [self.len(self.cat(l, v))]),
            Lemma(f"{name}.cat_mem", S, self, [y, l],
                  lambda v: self.mem(y, self.cat(l, v)) == z3.Or(self.mem(y, l), self.mem(y, v)),
                  lambda v: [self.mem(y, self.cat(l, v))]),
            Lemma(f"{name}.cat_nth", S, self, [l, i],
                  lambda v: z3.Implies(z3.And(0 <= i, i < self.len(l) + self.len(v)), self.nth(self.cat(l, v), i) ==
                                       z3.If(i < self.len(l), self.nth(l, i), self.nth(v, i - self.len(l)))),
                  lambda v: [self.nth(self.cat(l, v), i)], use=["cat_len", "len_nonneg"]),
            Lemma(f"{name}.nth_mem", S, self, [i],
                  lambda v: z3.Implies(z3.And(0 <= i, i < self.len(v)), self.mem(self.nth(v, i), v)),
                  lambda v: [self.nth(v, i)], use=["len_nonneg"]),
            Lemma(f"{name}.setof_mem", S, self, [y], lambda v: self.setof(v)[y] == self.mem(y, v),
                  lambda v: [self.setof(v)[y]]),
        ]

    def axioms(self):
        return self.defs + [lm.formula() for lm in self.lemmas]


class Lemma:
    """forall params, v: body(v), proved by induction on the list v."""

    def __init__(self, name, sort, lt, params, body, pats, use=(), extra=()):
        self.name, self.sort, self.lt, self.params, self.body, self.pats = name, sort, lt, list(params), body, pats
        self.use, self.extra = list(use), list(extra)

    def formula(self):
        v = z3.Const("v!", self.sort)
        ps = self.pats(v)
        pats = [z3.MultiPattern(*ps)] if len(ps) > 1 else ps
        return z3.ForAll(self.params + [v], self.body(v), patterns=pats)

    def obligations(self, defs):
        """[(name, hyps, goal)]; params are fixed constants in the step hypothesis except that the induction hypothesis
        is kept general over them."""
        w = z3.FreshConst(self.sort, "w")
        x = z3.FreshConst(self.lt.elem, "x")
        ih = self.body(w)
        if self.params:
            ih = z3.And(ih, z3.ForAll(self.params, self.body(w)))
        return [(self.name + "/base", list(defs), self.body(self.lt.nil)),
                (self.name + "/step", list(defs) + [ih], self.body(self.lt.snoc(w, x)))]


def list_of(elem, name=None):
    key = str(elem)
    if key not in _lists:
        _lists[key] = ListTheory(name or key.replace("(", "_").replace(")", "_").replace(" ", "").replace(",", "_"), elem)
    return _lists[key]


def list_theory_of_sort(sort):
    for lt in _lists.values():
        if lt.sort == sort:
            return lt
    return None


def empty_set(elem):
    return z3.K(elem, False)


def union(a, b):
    return z3.SetUnion(a, b)


# monoids used by folds -------------------------------------------------------------------------------------------
class Monoid:
    def __init__(self, name, sort, unit, op):
        self.name, self.sort, self.unit, self.op = name, sort, unit, op


def m_any():
    return Monoid("any", BoolS, z3.BoolVal(False), lambda a, b: z3.Or(a, b))


def m_all():
    return Monoid("all", BoolS, z3.BoolVal(True), lambda a, b: z3.And(a, b))


def m_list(lt):
    def op(a, b):
        if z3.is_app(b) and b.decl().eq(lt.sort.constructor(0)):
            return a
        return lt.cat(a, b)
    return Monoid("list_" + lt.name, lt.sort, lt.nil, op)


def m_set(elem):
    return Monoid("set_" + str(elem), z3.SetSort(elem), z3.EmptySet(elem), lambda a, b: z3.SetUnion(a, b))


def m_sum():
    return Monoid("sum", IntS, z3.IntVal(0), lambda a, b: a + b)


class Fold:
    """F(params, nil) = unit;  F(params, snoc(l, x)) = op(F(params, l), item(params, x)).

    `item` returns a z3 term of the monoid's sort.  For list monoids `item` may return nil / a one element list; with
    `cons` the step is written with snoc directly (item is then (guard, element))."""

    def __init__(self, name, lt, params, monoid, item, homo=True, left=False):
        self.name, self.lt, self.params, self.monoid, self.item, self.homo = name, lt, list(params), monoid, item, homo
        self.f = z3.Function(name, *[p.sort() for p in self.params], lt.sort, monoid.sort)

    def __call__(self, *a):
        return self.f(*a)

    def step(self, acc, params, x):
        sub = list(zip(self.params, params))
        it = self.item(*self.params, x)
        if isinstance(it, tuple):
            guard, el = it
            ltm = list_theory_of_sort(self.monoid.sort)
            r = z3.If(guard, ltm.snoc(acc, el), acc) if ltm is not None else \
                z3.If(guard, z3.Store(acc, el, True), acc)
        else:
            r = self.monoid.op(acc, it)
        return z3.substitute(r, *sub) if sub else r

    def defs(self):
        l = z3.Const("l!", self.lt.sort)
        x = z3.Const("x!", self.lt.elem)
        ps = self.params
        F = self.f
        nil_eq = F(*ps, self.lt.nil) == self.monoid.unit
        out = [z3.ForAll(ps, nil_eq, patterns=[F(*ps, self.lt.nil)]) if ps else nil_eq]
        t = F(*ps, self.lt.snoc(l, x))
        out.append(z3.ForAll(ps + [l, x], t == self.step(F(*ps, l), ps, x), patterns=[t]))
        return out

    def homo_lemma(self):
        l = z3.Const("la!", self.lt.sort)
        F, ps = self.f, self.params
        return Lemma(self.name + ".homo", self.lt.sort, self.lt, ps + [l],
                     lambda v: F(*ps, self.lt.cat(l, v)) == self.monoid.op(F(*ps, l), F(*ps, v)),
                     lambda v: [F(*ps, self.lt.cat(l, v))])

    def axioms(self):
        return self.defs() + ([self.homo_lemma().formula()] if self.homo else [])


# strings ---------------------------------------------------------------------------------------------------------
slen = z3.Function("slen", Str, IntS)
sconcat = z3.Function("sconcat", Str, Str, Str)
str_of_int = z3.Function("str_of_int", IntS, Str)
int_of_str = z3.Function("int_of_str", Str, IntS)
is_int_str = z3.Function("is_int_str", Str, BoolS)

_lits = {}


def slit(s):
    if s not in _lits:
        t = _lits[s] = z3.Const("lit!%d:%s" % (len(_lits), "".join(c if c.isalnum() else "_" for c in s[:12])), Str)
        _lit_ids[t.get_id()] = s
    return _lits[s]


_lit_ids = {}


def lit_value(term):
    return _lit_ids.get(term.get_id())


def string_axioms():
    s, t = z3.Consts("s t", Str)
    i = z3.Int("i")
    ax = []
    if len(_lits) > 1:
        ax.append(z3.Distinct(*_lits.values()))
    for v, c in list(_lits.items()):
        ax.append(slen(c) == len(v))
    e = slit("")
    ax += [
        z3.ForAll([s], slen(s) >= 0, patterns=[slen(s)]),
        z3.ForAll([s], z3.Implies(slen(s) == 0, s == e), patterns=[slen(s)]),
        z3.ForAll([s, t], slen(sconcat(s, t)) == slen(s) + slen(t), patterns=[sconcat(s, t)]),
        z3.ForAll([i], z3.And(slen(str_of_int(i)) > 0, int_of_str(str_of_int(i)) == i), patterns=[str_of_int(i)]),
    ]
    return ax
