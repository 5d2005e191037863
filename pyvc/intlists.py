"""Ascending lists of integers: range(), sorted(), set() of integers."""
import z3
from .theory import IntS, BoolS, Lemma, list_of

LI = list_of(IntS)
RANGE = z3.Function("range_list", IntS, IntS, LI.sort)              # list(range(lo, hi))
ASC = z3.Function("ascending", LI.sort, BoolS)                      # strictly ascending
SORTED_SET = z3.Function(f"sorted_{LI.name}", z3.SetSort(IntS), LI.sort)
SORTED_LIST = z3.Function(f"sortedl_{LI.name}", LI.sort, LI.sort)


def asc_defs():
    l = z3.Const("l", LI.sort)
    x, y = z3.Ints("x y")
    return [ASC(LI.nil),
            z3.ForAll([l, x], ASC(LI.snoc(l, x)) == z3.And(ASC(l), z3.ForAll([y], z3.Implies(LI.mem(y, l), y < x), patterns=[LI.mem(y, l)])),
                      patterns=[ASC(LI.snoc(l, x))])]


DIST = z3.Function("distinct_members", LI.sort, BoolS)


def dist_defs():
    l = z3.Const("l", LI.sort)
    x = z3.Int("x")
    return [DIST(LI.nil), z3.ForAll([l, x], DIST(LI.snoc(l, x)) == z3.And(DIST(l), z3.Not(LI.mem(x, l))), patterns=[DIST(LI.snoc(l, x))])]


def dist_lemma():
    return Lemma("int.asc_distinct", LI.sort, LI, [], lambda v: z3.Implies(ASC(v), DIST(v)), lambda v: [DIST(v)])


def same_members(l, m):
    y = z3.Int("y!s")
    return z3.ForAll([y], LI.mem(y, l) == LI.mem(y, m), patterns=[LI.mem(y, l), LI.mem(y, m)])


class AscUnique(Lemma):
    """the induction step is split by the form of the second list; the induction hypothesis is used at its initial part"""

    def obligations(self, defs):
        m = self.params[0]
        w, n = z3.FreshConst(LI.sort, "w"), z3.FreshConst(LI.sort, "n")
        x, y = z3.FreshConst(IntS, "x"), z3.FreshConst(IntS, "y")
        at = lambda v, u: z3.substitute(self.body(v), (m, u))
        v, u = LI.snoc(w, x), LI.snoc(n, y)
        prem = [ASC(v), ASC(u), same_members(v, u)]
        k = z3.FreshConst(IntS, "k")
        inst = lambda t: LI.mem(t, v) == LI.mem(t, u)
        D = list(defs)
        return [(self.name + "/base", D, self.body(LI.nil)),
                (self.name + "/step forms", D, z3.Or(m == LI.nil, m == LI.snoc(LI.init(m), LI.last(m)))),
                (self.name + "/step empty", D + [ASC(v), same_members(v, LI.nil), LI.mem(x, v) == LI.mem(x, LI.nil)], z3.BoolVal(False)),
                (self.name + "/step last", D + prem + [inst(x), inst(y)], x == y),
                (self.name + "/step rest", D + prem + [x == y, inst(k)], LI.mem(k, w) == LI.mem(k, n)),
                (self.name + "/step", D + prem + [x == y, same_members(w, n), at(w, n)], v == u)]


def asc_unique():
    """two strictly ascending lists with the same members are the same list (proved by induction)"""
    m = z3.Const("m", LI.sort)
    return AscUnique("int.asc_unique", LI.sort, LI, [m], lambda v: z3.Implies(z3.And(ASC(v), ASC(m), same_members(v, m)), v == m), lambda v: [ASC(v), ASC(m)])


def int_list_axioms():
    """assumed: what range(), sorted() and set() of integers give"""
    lo, hi, y = z3.Ints("lo hi y")
    s = z3.Const("s", z3.SetSort(IntS))
    l = z3.Const("l", LI.sort)
    R = RANGE(lo, hi)
    return [z3.ForAll([lo, hi, y], LI.mem(y, R) == z3.And(lo <= y, y < hi), patterns=[LI.mem(y, R)]),
            z3.ForAll([lo, hi], ASC(R), patterns=[R]),
            z3.ForAll([lo, hi], LI.len(R) == z3.If(lo < hi, hi - lo, 0), patterns=[LI.len(R)]),
            z3.ForAll([s, y], LI.mem(y, SORTED_SET(s)) == z3.Select(s, y), patterns=[LI.mem(y, SORTED_SET(s))]),
            z3.ForAll([s], ASC(SORTED_SET(s)), patterns=[SORTED_SET(s)]),
            z3.ForAll([l], z3.Implies(DIST(l), ASC(SORTED_LIST(l))), patterns=[SORTED_LIST(l)]),
            z3.ForAll([l], z3.Implies(ASC(l), SORTED_LIST(l) == l), patterns=[SORTED_LIST(l)]),
            z3.ForAll([l, y], LI.mem(y, SORTED_LIST(l)) == LI.mem(y, l), patterns=[LI.mem(y, SORTED_LIST(l))]),
            z3.ForAll([l], LI.len(SORTED_LIST(l)) == LI.len(l), patterns=[SORTED_LIST(l)])]


# removal and counting ranges --------------------------------------------------------------------------------------------
REM = z3.Function("remove_first_Int", LI.sort, IntS, LI.sort)       # list.remove


def rem_defs():
    l = z3.Const("l", LI.sort)
    x, y = z3.Ints("x y")
    t = REM(LI.snoc(l, y), x)
    return [z3.ForAll([x], REM(LI.nil, x) == LI.nil, patterns=[REM(LI.nil, x)]),
            z3.ForAll([l, x, y], t == z3.If(LI.mem(x, l), LI.snoc(REM(l, x), y), z3.If(y == x, l, LI.snoc(l, y))), patterns=[t])]


def rem_lemmas():
    x, z = z3.Ints("x z")
    m = Lemma("int.remove_mem", LI.sort, LI, [x, z], lambda v: z3.Implies(ASC(v), LI.mem(z, REM(v, x)) == z3.And(LI.mem(z, v), z != x)),
              lambda v: [LI.mem(z, REM(v, x))])
    a = Lemma("int.remove_asc", LI.sort, LI, [x], lambda v: z3.Implies(ASC(v), ASC(REM(v, x))), lambda v: [REM(v, x)], use=["int.remove_mem"])
    return [m, a]


def range_defs():
    lo, i = z3.Ints("lo i")
    return [z3.ForAll([lo, i], z3.Implies(i <= lo, RANGE(lo, i) == LI.nil), patterns=[RANGE(lo, i)])]
