"""C12: fractions are exact rationals."""
import textwrap
from .lib import TYPING, PR
from symx.runner import Task
from symx import dspec
from symx.dspec import SpecErr, FREE
from symx.values import *

PROPERTY = "C12"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs using /repo's opshin.std.fractions (operators with fractions and integers on either side, negation, powers, comparisons, "
    "floor, ceiling, normalisation, as methods and as functions) are compiled in this run; the scripts are executed symbolically on "
    "symbolic numerators and denominators and z3 decides that every result stands in the defining relation of rational arithmetic to the "
    "arguments (polynomial identities for the operators, bounds for floor/ceil, lowest terms for norm). The library's Python code "
    "executed symbolically off chain is compared with the compiled code over the same inputs."
)
ASSUMPTIONS = ["denominators are non-zero (divisors too); a zero denominator is outside the property"]

IMP = "from opshin.std.fractions import *\n"


def F(name):
    c = ctx()
    n, d = c.fresh_int(name + ".n"), c.fresh_int(name + ".d")
    c.assume(d != 0)
    return DC(1, [DI(n), DI(d)])


def Fb(lo, hi):
    def f(name):
        x = F(name)
        for y in x.fields:
            ctx().assume(y.i >= lo)
            ctx().assume(y.i <= hi)
        return x

    return f


def N(name):
    return DI(ctx().fresh_int(name))


def Nb(lo, hi):
    def f(name):
        x = N(name)
        ctx().assume(x.i >= lo)
        ctx().assume(x.i <= hi)
        return x

    return f


def U(name):
    return F(name) if ctx().choose(2) else N(name)


def nd(x):
    """numerator and denominator of a Fraction or int"""
    x = dforce(x)
    return (x.fields[0].i, x.fields[1].i) if type(x) is DC else (x.i, 1)


def m(*a):
    r = 1
    for x in a:
        r = i_mul(r, x)
    return r


def frac_is(n, d):
    """result is a Fraction denoting n/d"""
    def rel(r):
        if type(r) is not DC or len(r.fields) != 2:
            return False
        a, b = (dforce(x) for x in r.fields)
        if type(a) is not DI or type(b) is not DI:
            return False
        # b*n == a*d with b != 0; b is checked by the polynomial identity b == k*d (k != 0) where needed
        return b_and([i_eq(r.tag, 1), i_eq(m(a.i, d), m(n, b.i)), b_not(i_eq(b.i, 0))])

    return rel


def is_bool(f):
    def rel(r):
        if type(r) is not DI:
            return False
        return b_or([b_and([i_eq(r.i, 1), f]), b_and([i_eq(r.i, 0), b_not(f)])])

    return rel


def cmp(op):
    def spec(a, b):
        (n1, d1), (n2, d2) = nd(a), nd(b)
        p = i_sub(m(n1, d2), m(n2, d1))
        if op == "==":
            return is_bool(i_eq(p, 0))
        # sign of p relative to the sign of the product of the denominators
        pos = truth(i_lt(0, d1)) == truth(i_lt(0, d2))
        q = p if pos else i_neg(p)
        return is_bool({"<": i_lt(q, 0), "<=": i_le(q, 0), ">": i_lt(0, q), ">=": i_le(0, q)}[op])

    return spec


def floor_of(n, d):
    def rel(r):
        if type(r) is not DI:
            return False
        k = r.i
        up = i_add(k, 1)
        if truth(i_lt(0, d)):
            return b_and([i_le(m(k, d), n), i_lt(n, m(up, d))])
        return b_and([i_le(n, m(k, d)), i_lt(m(up, d), n)])

    return rel


def ceil_of(n, d):
    def rel(r):
        if type(r) is not DI:
            return False
        k = r.i
        lo = i_sub(k, 1)
        if truth(i_lt(0, d)):
            return b_and([i_le(n, m(k, d)), i_lt(m(lo, d), n)])
        return b_and([i_le(m(k, d), n), i_lt(n, m(lo, d))])

    return rel


def nonzero(x):
    ctx().assume(b_not(i_eq(nd(x)[0], 0)))


def lowest(n, d, hi):
    """result is n/d in lowest terms with a positive denominator (values up to hi)"""
    base = frac_is(n, d)

    def rel(r):
        f = base(r)
        if f is False:
            return False
        a, b = (dforce(x).i for x in r.fields)
        com = [b_and([i_eq(i_mod(a, p), 0), i_eq(i_mod(b, p), 0)]) for p in range(2, hi + 1) if all(p % q for q in range(2, p))]
        return b_and([f, i_lt(0, b), b_not(b_or(com))])

    return rel


def arith(op):
    def spec(a, b):
        (n1, d1), (n2, d2) = nd(a), nd(b)
        if op == "+":
            return frac_is(i_add(m(n1, d2), m(n2, d1)), m(d1, d2))
        if op == "-":
            return frac_is(i_sub(m(n1, d2), m(n2, d1)), m(d1, d2))
        if op == "*":
            return frac_is(m(n1, n2), m(d1, d2))
        nonzero(b)
        if op == "/":
            return frac_is(m(n1, d2), m(d1, n2))
        return floor_of(m(n1, d2), m(d1, n2))

    return spec


def powspec(a, e):
    n, d = nd(a)
    k = pick_int(e.i, -3, 3)
    if k < 0:
        nonzero(a)
        n, d, k = d, n, -k
    return frac_is(m(*[n] * k), m(*[d] * k))


def tasks(tier, rng):
    th = tier == "thorough"
    cfg = ("O0", "O1", "O2", "O3", "O2+eut") if th else ("O1", "O2")
    out = []

    def sp(name, ret, expr, params, makes, spec, pre=""):
        src = TYPING + IMP + f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n{pre}    return {expr}\n"

        def fn(deadline, tier):
            return dspec.run_spec(name, src, cfg, lambda: [mk(k) for mk, k in zip(makes, params)], spec, deadline=deadline)

        out.append(Task(name, fn, desc=src, bounds=dict(configs=str(cfg))))

    UF = "Union[Fraction, int]"
    FF = dict(a="Fraction", b="Fraction")
    FU = dict(a="Fraction", b=UF)
    FI = dict(a="Fraction", b="int")
    IF = dict(a="int", b="Fraction")
    ops = {"add": "+", "sub": "-", "mul": "*", "div": "/"}
    for n, o in ops.items():
        sp(n + "_ff", "Fraction", f"a {o} b", FF, (F, F), arith(o))
        sp(n + "_fi", "Fraction", f"a {o} b", FI, (F, N), arith(o))
        sp(n + "_if", "Fraction", f"a {o} b", IF, (N, F), arith(o))
        sp(n + "_fu", "Fraction", f"a {o} b", FU, (F, U), arith(o))
        if o != "/":
            sp(n + "_aug", "Fraction", "c", FF, (F, F), arith(o), pre=f"    c = a\n    c {o}= b\n")
    small = Fb(-6, 6) if not th else Fb(-12, 12)
    sn = Nb(-6, 6) if not th else Nb(-12, 12)
    sp("fdiv_ff", "int", "a // b", FF, (small, small), arith("//"))
    sp("fdiv_fi", "int", "a // b", FI, (small, sn), arith("//"))
    sp("fdiv_if", "int", "a // b", IF, (sn, small), arith("//"))
    for n, o in {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}.items():
        sp(n + "_ff", "bool", f"a {o} b", FF, (F, F), cmp(o))
        sp(n + "_fi", "bool", f"a {o} b", FI, (F, N), cmp(o))
        sp(n + "_fu", "bool", f"a {o} b", FU, (F, U), cmp(o))
        sp(n + "_m", "bool", f"a.__{n}__(b)", FF, (F, F), cmp(o))
    sp("neg", "Fraction", "-a", dict(a="Fraction"), (F,), lambda a: frac_is(i_neg(nd(a)[0]), nd(a)[1]))
    sp("pow", "Fraction", "a ** b", FI, (F, Nb(-3, 3)), powspec)
    for n, e in (("floor", "a.floor()"), ("floor_fn", "floor_fraction(a)")):
        sp(n, "int", e, dict(a="Fraction"), (F,), lambda a: floor_of(*nd(a)))
    for n, e in (("ceil", "a.ceil()"), ("ceil_fn", "ceil_fraction(a)")):
        sp(n, "int", e, dict(a="Fraction"), (F,), lambda a: ceil_of(*nd(a)))
    k = 16 if th else 7
    for n, e in (("norm", "a.norm()"), ("norm_fn", "norm_fraction(a)")):
        sp(n, "Fraction", e, dict(a="Fraction"), (Fb(-k, k),), lambda a: lowest(*nd(a), k))
    sp("mixed", "bool", "(a + b) * b - a >= b", FF, (Fb(-4, 4), Fb(-4, 4)), lambda a, b: _mixed(a, b))
    sp("norm_prod", "Fraction", "(a * b).norm()", FI, (Fb(-2, 2), Nb(-2, 2)), lambda a, b: lowest(m(nd(a)[0], b.i), nd(a)[1], 4))
    # norm keeps the value and makes the denominator positive for large values too (loop bound only)
    UU = {"a": "Fraction", "b": UF}
    sp("radd", "Fraction", "a.__radd__(b)", UU, (F, U), arith("+"))
    sp("rmul", "Fraction", "a.__rmul__(b)", UU, (F, U), arith("*"))
    sp("rsub", "Fraction", "a.__rsub__(b)", UU, (F, U), lambda a, b: arith("-")(b, a))
    sp("rdiv", "Fraction", "a.__rtruediv__(b)", UU, (F, U), lambda a, b: (nonzero(a), arith("/")(b, a))[1])
    sp("rfdiv", "int", "a.__rfloordiv__(b)", UU, (small, sn), lambda a, b: arith("//")(b, a))
    sp("rfdivf", "int", "a.__rfloordiv__(b)", FF, (Fb(-4, 4), Fb(-4, 4)), lambda a, b: arith("//")(b, a))
    sp("fdiv_fu", "int", "a // b", FU, (Fb(-4, 4), lambda k: Fb(-4, 4)(k) if ctx().choose(2) else sn(k)), arith("//"))
    sp("chain", "Fraction", "a + b - a * 2", FF, (F, F), _chain)
    sp("sub_self", "bool", "(a - a) == 0 and (a / 3) * 3 == a and -(-a) == a", dict(a="Fraction"), (F,), lambda a: is_bool(True))
    sp("big", "bool", "a + 1 > a and a - 1 < a and a >= a and a <= a and not (a < a)", dict(a="Fraction"), (F,), lambda a: is_bool(True))
    sp("trichotomy", "bool", "(1 if a < b else 0) + (1 if a == b else 0) + (1 if a > b else 0) == 1", FF, (F, F), lambda a, b: is_bool(True))
    # off-chain library code against the compiled code
    two = [f"a {o} b" for o in ("+", "-", "*", "/")]
    B = dict(per={"a": dict(int_range=(-9, 9)), "b": dict(int_range=(-9, 9))})

    def ag(name, ret, expr, params, bounds=None):
        out.append(PR("ag_" + name, TYPING + IMP + f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n    return {expr}\n", bounds=bounds or {}, configs=cfg))

    for n, o in ops.items():
        ag(n, "Fraction", f"a {o} b", FF)
        ag(n + "i", "Fraction", f"a {o} b", FI)
        ag(n + "r", "Fraction", f"a {o} b", IF)
    for n, o in {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "=="}.items():
        ag(n, "bool", f"a {o} b", FF)
        ag(n + "i", "bool", f"a {o} b", FI)
    ag("neg", "Fraction", "-a", dict(a="Fraction"))
    ag("floor", "int", "a.floor() + floor_fraction(a) * 1000", dict(a="Fraction"))
    ag("ceil", "int", "a.ceil() + ceil_fraction(a) * 1000", dict(a="Fraction"))
    ag("fdiv", "int", "a // b", FI, dict(int_range=(-9, 9)))
    ag("fdivf", "int", "a // b", FF, dict(int_range=(-5, 5)))
    ag("fdivr", "int", "a // b", IF, dict(int_range=(-9, 9)))
    ag("norm", "Fraction", "a.norm()", dict(a="Fraction"), dict(int_range=(-k, k)))
    ag("normf", "Fraction", "norm_fraction(a)", dict(a="Fraction"), dict(int_range=(-k, k)))
    ag("pow", "Fraction", "a ** b", FI, dict(per={"b": dict(int_range=(-3, 3))}))
    return out


def _sum(a, b):
    (n1, d1), (n2, d2) = nd(a), nd(b)
    return i_add(m(n1, d2), m(n2, d1)), m(d1, d2)


def _mixed(a, b):
    (n1, d1), (n2, d2) = nd(a), nd(b)
    sn, sd = _sum(a, b)
    pn, pd = m(sn, n2), m(sd, d2)
    qn, qd = i_sub(m(pn, d1), m(n1, pd)), m(pd, d1)
    return cmp(">=")(DC(1, [DI(qn), DI(qd)]), b)


def _chain(a, b):
    (n1, d1), (n2, d2) = nd(a), nd(b)
    return frac_is(i_sub(m(n2, d1), m(n1, d2)), m(d1, d2))
