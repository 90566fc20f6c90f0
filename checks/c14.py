"""C14: ledger time intervals."""
from .lib import TYPING, PR
from symx.runner import Task
from symx import dspec
from symx.dspec import SpecErr, FREE
from symx.values import *

PROPERTY = "C14"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs calling /repo's opshin.ledger.interval are compiled in this run and executed symbolically on every combination of bound "
    "kinds (negative infinity, finite, positive infinity; open, closed) with unbounded symbolic times. Intervals are read as sets of "
    "points of the extended time line and membership of a universally quantified point decides containment; z3 discharges both directions. "
    "The library's Python code executed symbolically off chain is compared with the compiled code over the same inputs."
)
ASSUMPTIONS = [
    "the time line is read as dense and as including both infinities (a closed infinite end contains its infinity), the ordering the ledger's own bound comparison uses; "
    "for an empty inner interval `contains` compares the bounds and its answer is not constrained",
]
HEAD = "from opshin.prelude import *\nfrom opshin.ledger.interval import *\n"


# --- points of the extended time line: (k, v), k in -1/0/1, v in half units of time
def p_lt(p, q):
    return b_or([i_lt(p[0], q[0]), b_and([i_eq(p[0], 0), i_eq(q[0], 0), i_lt(p[1], q[1])])])


def p_eq(p, q):
    return b_and([i_eq(p[0], q[0]), b_or([b_not(i_eq(p[0], 0)), i_eq(p[1], q[1])])])


def fin(t):
    return (0, i_mul(2, t))


def end(d):
    """(point, closed) of a bound given as data"""
    d = dforce(d)
    lim, cl = dforce(d.fields[0]), dforce(d.fields[1])
    t = pick_int(lim.tag, 0, 2)
    p = fin(dforce(lim.fields[0]).i) if t == 1 else (t - 1, 0)
    return p, i_eq(cl.tag, 1)


def member(p, iv):
    """p in iv"""
    d = dforce(iv)
    (l, lc), (u, uc) = end(d.fields[0]), end(d.fields[1])
    return b_and([b_or([p_lt(l, p), b_and([lc, p_eq(l, p)])]), b_or([p_lt(p, u), b_and([uc, p_eq(p, u)])])])


def limit(name, kinds):
    k = kinds[ctx().choose(len(kinds))]
    return DC(k, [DI(ctx().fresh_int(name))] if k == 1 else [])


def flag(name):
    b = ctx().fresh_bool(name)
    return DC(ite(b, 1, 0), [])


def bound(name, kinds=(0, 1, 2)):
    return DC(0, [limit(name, kinds), flag(name + "c")])


def interval(name, lk=(0, 1, 2), uk=(0, 1, 2)):
    return DC(0, [bound(name + "l", lk), bound(name + "u", uk)])


def candidates(ivs):
    """points that witness non-emptiness and non-containment: every end point and its half-unit neighbours"""
    out = [(-1, 0), (1, 0)]
    for iv in ivs:
        d = dforce(iv)
        for b in d.fields:
            p, _ = end(b)
            if p[0] == 0:
                out += [p, (0, i_add(p[1], 1)), (0, i_sub(p[1], 1))]
    return out + [(0, 0)]


def fresh_point():
    k = ctx().fresh_int("pk")
    ctx().assume(b_and([i_le(-1, k), i_le(k, 1)]))
    return (k, ctx().fresh_int("pv"))


def contains_rel(a, b):
    """True: no point of b outside a.  False: some point of b lies outside a
    (unless b is empty).  One free point stands for every point."""
    p = fresh_point()
    cs = candidates([a, b])
    sub = b_or([b_not(member(p, b)), member(p, a)])
    empty = b_not(b_or([member(q, b) for q in cs]))
    out = b_or([b_and([member(q, b), b_not(member(q, a))]) for q in cs])

    def rel(r):
        if type(r) is not DI:
            return False
        # the candidates really cover b: a member p of b makes some candidate a member
        cover = b_or([b_not(member(p, b)), b_not(empty)])
        return b_and([cover, b_or([b_and([i_eq(r.i, 1), sub]), b_and([i_eq(r.i, 0), b_or([empty, out])])])])

    return rel


def cmp_int(lt, eq):
    return DI(ite(lt, 1, ite(eq, 0, -1)))


def ord_ext(a, b):
    def pt(d):
        d = dforce(d)
        t = pick_int(d.tag, 0, 2)
        return fin(dforce(d.fields[0]).i) if t == 1 else (t - 1, 0)

    p, q = pt(a), pt(b)
    return cmp_int(p_lt(p, q), p_eq(p, q))


def edge(side):
    """the order of bounds is the order of the cuts they make in the line: a
    point p is on the inner side of a lower bound l iff l < p or (closed and
    l = p)"""

    def spec(a, b):
        (p, pc), (q, qc) = end(a), end(b)
        sc = 1 if side == "upper" else -1
        cut = lambda c: ite(c, sc, 0)
        lt = b_or([p_lt(p, q), b_and([p_eq(p, q), i_lt(cut(pc), cut(qc))])])
        eq = b_and([p_eq(p, q), i_eq(cut(pc), cut(qc))])
        return cmp_int(lt, eq)

    return spec


def made(inside):
    """the constructed interval contains exactly the finite points `inside`"""

    def spec(*ds):
        p = (0, ctx().fresh_int("pv"))

        def rel(r):
            if type(r) is not DC:
                return False
            return b_iff(member(p, r), inside(p, *[d.i for d in ds]))

        return rel

    return spec


def ints(*names):
    return lambda: [DI(ctx().fresh_int(n)) for n in names]


def tasks(tier, rng):
    th = tier == "thorough"
    cfg = ("O0", "O1", "O2", "O3", "default") if th else ("O0", "O1", "O2")
    out = []

    def sp(name, sig, ret, body, make, spec, mp=5000):
        src = HEAD + f"def validator({sig}) -> {ret}:\n    {body}\n"

        def fn(deadline, tier):
            return dspec.run_spec(name, src, cfg, make, spec, deadline=deadline, max_paths=mp)

        out.append(Task(name, fn, desc=src, bounds=dict(configs=str(cfg), max_paths=str(mp))))

    AB = "a: POSIXTimeRange, b: POSIXTimeRange"
    ret = "return contains(a, b)"
    # one task per combination of the outer interval's bound kinds
    for lk in (0, 1, 2):
        for uk in (0, 1, 2):
            sp(f"contains_{lk}{uk}", AB, "bool", ret, lambda lk=lk, uk=uk: [interval("a", (lk,), (uk,)), interval("b")], contains_rel)
    sp("contains_self", "a: POSIXTimeRange", "bool", "return contains(a, a)", lambda: [interval("a")], lambda a: DI(1))
    sp("trans", "a: POSIXTimeRange, b: POSIXTimeRange, c: POSIXTimeRange", "bool", "return contains(a, c) or not (contains(a, b) and contains(b, c))",
       lambda: [interval(n, (1,), (1, 2) if th else (1,)) for n in "abc"], lambda a, b, c: DI(1))
    EX = "a: ExtendedPOSIXTime, b: ExtendedPOSIXTime"
    sp("cmp_ext", EX, "int", "return compare_extended(a, b)", lambda: [limit("a", (0, 1, 2)), limit("b", (0, 1, 2))], ord_ext)
    sp("cmp_lower", "a: LowerBoundPOSIXTime, b: LowerBoundPOSIXTime", "int", "return compare_lower_bound(a, b)", lambda: [bound("a"), bound("b")], edge("lower"))
    sp("cmp_upper", "a: UpperBoundPOSIXTime, b: UpperBoundPOSIXTime", "int", "return compare_upper_bound(a, b)", lambda: [bound("a"), bound("b")], edge("upper"))
    sp("cmp", "a: int, b: int", "int", "return compare(a, b)", ints("a", "b"), lambda a, b: cmp_int(i_lt(a.i, b.i), i_eq(a.i, b.i)))
    sp("get_bool", "a: BoolData", "bool", "return get_bool(a)", lambda: [flag("a")], lambda a: DI(a.tag))
    le = lambda x, p: i_le(i_mul(2, x), p[1])
    ge = lambda x, p: i_le(p[1], i_mul(2, x))
    sp("make_range", "a: int, b: int", "POSIXTimeRange", "return make_range(a, b)", ints("a", "b"), made(lambda p, a, b: b_and([le(a, p), ge(b, p)])))
    sp("make_from", "a: int", "POSIXTimeRange", "return make_from(a)", ints("a"), made(lambda p, a: le(a, p)))
    sp("make_to", "a: int", "POSIXTimeRange", "return make_to(a)", ints("a"), made(lambda p, a: ge(a, p)))
    # the usual validity-range idioms
    sp("after", "d: int, r: POSIXTimeRange", "bool", "return contains(make_from(d), r)", lambda: [DI(ctx().fresh_int("d")), interval("r")],
       lambda d, r: contains_rel(DC(0, [DC(0, [DC(1, [d]), DC(1, [])]), DC(0, [DC(2, []), DC(1, [])])]), r))
    sp("before", "d: int, r: POSIXTimeRange", "bool", "return contains(make_to(d), r)", lambda: [DI(ctx().fresh_int("d")), interval("r")],
       lambda d, r: contains_rel(DC(0, [DC(0, [DC(0, []), DC(1, [])]), DC(0, [DC(1, [d]), DC(1, [])])]), r))
    sp("within", "d: int, e: int, r: POSIXTimeRange", "bool", "return contains(make_range(d, e), r)", lambda: [DI(ctx().fresh_int("d")), DI(ctx().fresh_int("e")), interval("r")],
       lambda d, e, r: contains_rel(DC(0, [DC(0, [DC(1, [d]), DC(1, [])]), DC(0, [DC(1, [e]), DC(1, [])])]), r))
    sp("covers", "t: int, r: POSIXTimeRange", "bool", "return contains(r, make_range(t, t))", lambda: [DI(ctx().fresh_int("t")), interval("r")],
       lambda t, r: DI(ite(member(fin(t.i), r), 1, 0)))

    # off chain and on chain agree
    def ag(name, sig, ret, expr, **bounds):
        out.append(PR("ag_" + name, HEAD + f"def validator({sig}) -> {ret}:\n    return {expr}\n", bounds=bounds, configs=cfg[-2:]))

    ag("contains", AB, "bool", "contains(a, b)")
    ag("cmp_ext", EX, "int", "compare_extended(a, b)")
    ag("cmp_lower", "a: LowerBoundPOSIXTime, b: LowerBoundPOSIXTime", "int", "compare_lower_bound(a, b)")
    ag("cmp_upper", "a: UpperBoundPOSIXTime, b: UpperBoundPOSIXTime", "int", "compare_upper_bound(a, b)")
    ag("helper", "a: ExtendedPOSIXTime", "int", "compare_extended_helper(a)")
    ag("get_bool", "a: BoolData", "bool", "get_bool(a)")
    ag("make_range", "a: int, b: int", "POSIXTimeRange", "make_range(a, b)")
    ag("make_from", "a: int", "POSIXTimeRange", "make_from(a)")
    ag("make_to", "a: int", "POSIXTimeRange", "make_to(a)")
    return out
