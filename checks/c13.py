"""C13: math and bitmap helpers."""
from .lib import TYPING, PR
from symx.runner import Task
from symx import dspec
from symx.dspec import SpecErr, FREE
from symx.values import *

PROPERTY = "C13"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs calling /repo's opshin.std.math and opshin.std.bitmap are compiled in this run; the scripts are executed symbolically and "
    "z3 decides that each result meets an independent definition (divisibility for gcd, bounds for floor/ceil, positional value for "
    "bytes/number conversion, per-bit equations for bitmaps). The library's Python code executed symbolically off chain is compared with "
    "the compiled code over the same inputs."
)
ASSUMPTIONS = [
    "sign(0) is 1, as the repository's tests prescribe (the docstring says 0)",
    "off chain, the primitives under opshin.std.math/bitmap are taken at their specification here; C15 checks their wiring",
]

MATH = "from opshin.std.math import *\n"
BMP = "from opshin.std.bitmap import *\n"


def N(lo=None, hi=None):
    def f(name):
        x = ctx().fresh_int(name)
        if lo is not None:
            ctx().assume(x >= lo)
        if hi is not None:
            ctx().assume(x <= hi)
        return DI(x)

    return f


def NZ(name):
    x = ctx().fresh_int(name)
    ctx().assume(x != 0)
    return DI(x)


def BS(lo, hi):
    return lambda name: DB(fresh_bytes(name, lo + ctx().choose(hi - lo + 1)))


def NL(k, lo, hi):
    return lambda name: DL([N(lo, hi)(f"{name}{i}") for i in range(ctx().choose(k + 1))])


def as_int(f):
    return lambda r: f(r.i) if type(r) is DI else False


def as_bytes(f):
    return lambda r: f(r.e) if type(r) is DB else False


def bits(e):
    """bits of a byte string, index 0 = least significant bit of the last byte"""
    return [b for x in reversed(e) for b in byte_bits(x)]


def unbits(bs):
    return tuple(reversed([bits_byte(bs[k : k + 8]) for k in range(0, len(bs), 8)]))


def beval(e):
    v = 0
    for x in e:
        v = i_add(i_mul(v, 256), x)
    return v


def gcd_rel(a, b, hi):
    def rel(g):
        if truth(b_and([i_eq(a, 0), i_eq(b, 0)])):
            return i_eq(g, 0)
        g = pick_int(g, 1, hi) if truth(b_and([i_le(1, g), i_le(g, hi)])) else None
        if g is None:
            return False
        ps = [p for p in range(2, hi // g + 1)]
        div = lambda x, k: i_eq(i_mod(x, k), 0)
        return b_and([div(a, g), div(b, g)] + [b_not(b_and([div(a, g * p), div(b, g * p)])) for p in ps])

    return rel


def floor_rel(n, d):
    def rel(k):
        if truth(i_lt(0, d)):
            return b_and([i_le(i_mul(k, d), n), i_lt(n, i_mul(i_add(k, 1), d))])
        return b_and([i_le(n, i_mul(k, d)), i_lt(i_mul(i_add(k, 1), d), n)])

    return rel


def ceil_rel(n, d):
    def rel(k):
        if truth(i_lt(0, d)):
            return b_and([i_le(n, i_mul(k, d)), i_lt(i_mul(i_sub(k, 1), d), n)])
        return b_and([i_le(i_mul(k, d), n), i_lt(n, i_mul(i_sub(k, 1), d))])

    return rel


def minimal(n):
    def spec(e):
        if len(e) and truth(i_eq(e[0], 0)):
            return False
        return i_eq(beval(e), n)

    if truth(i_lt(n, 0)):
        raise SpecErr("negative")
    return as_bytes(spec)


def and_spec(a, b):
    """the shorter operand is continued with ones"""
    n = max(len(a), len(b))
    pa = list(a) + [255] * (n - len(a))
    pb = list(b) + [255] * (n - len(b))
    return DB([bits_byte([b_and([p, q]) for p, q in zip(byte_bits(x), byte_bits(y))]) for x, y in zip(pa, pb)])


def write_spec(e, idx, val):
    """val(old) -> new bit; every index must address a bit"""
    n = 8 * len(e)
    for i in idx:
        if not truth(b_and([i_le(0, i), i_lt(i, n)])):
            raise SpecErr("index out of range")
    idx = [pick_int(i, 0, n - 1) for i in idx]
    return DB(unbits([val(b) if j in idx else b for j, b in enumerate(bits(e))]))


def test_spec(e, i):
    n = 8 * len(e)
    if not truth(b_and([i_le(0, i), i_lt(i, n)])):
        raise SpecErr("index out of range")
    return DI(ite(bits(e)[pick_int(i, 0, n - 1)], 1, 0))


def flag(c):
    return DI(ite(c, 1, 0))


def init_spec(n):
    """n bits, rounded up to bytes, all zero; negative sizes beyond rounding fail"""
    k = i_floordiv(i_add(n, 7), 8)
    if truth(i_lt(k, 0)):
        raise SpecErr("negative size")
    k = pick_int(k, 0, 6)
    return DB([0] * k)


def tasks(tier, rng):
    th = tier == "thorough"
    cfg = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    out = []

    def sp(name, imp, ret, expr, params, makes, spec, mp=3000):
        src = TYPING + imp + f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n    return {expr}\n"

        def fn(deadline, tier):
            return dspec.run_spec(name, src, cfg, lambda: [mk(k) for mk, k in zip(makes, params)], spec, deadline=deadline, max_paths=mp)

        out.append(Task(name, fn, desc=src, bounds=dict(configs=str(cfg), max_paths=str(mp))))

    II = dict(a="int", b="int")
    K = 18 if th else 9
    W = 6 if th else 3
    sp("gcd", MATH, "int", "gcd(a, b)", II, (N(-K, K), N(-K, K)), lambda a, b: as_int(gcd_rel(a.i, b.i, K)))
    sp("gcd_zero", MATH, "int", "gcd(a, 0) - gcd(0, a)", dict(a="int"), (N(),), lambda a: DI(0))
    sp("gcd_abs", MATH, "int", "gcd(a, 0)", dict(a="int"), (N(),), lambda a: as_int(lambda g: b_and([i_le(0, g), b_or([i_eq(g, a.i), i_eq(g, i_neg(a.i))])])))
    sp("gcd_mult", MATH, "int", "gcd(a * 4, a * 6)", dict(a="int"), (N(1, 40),), lambda a: DI(i_mul(2, a.i)))
    sp("gcd_sym", MATH, "bool", "gcd(a, b) == gcd(b, a) and gcd(-a, b) == gcd(a, b)", II, (N(-6, 6), N(-6, 6)), lambda a, b: DI(1))
    sp("sign", MATH, "int", "sign(a)", dict(a="int"), (N(),), lambda a: DI(-1) if truth(i_lt(a.i, 0)) else DI(1))
    sp("floor", MATH, "int", "floor(a, b)", II, (N(), NZ), lambda a, b: as_int(floor_rel(a.i, b.i)))
    sp("ceil", MATH, "int", "ceil(a, b)", II, (N(), NZ), lambda a, b: as_int(ceil_rel(a.i, b.i)))
    for c in (1, 2, 3, 7, -1, -2, -5):
        sp(f"floor_{c}".replace("-", "m"), MATH, "int", f"floor(a, {c})", dict(a="int"), (N(),), lambda a, c=c: as_int(floor_rel(a.i, c)))
        sp(f"ceil_{c}".replace("-", "m"), MATH, "int", f"ceil(a, {c})", dict(a="int"), (N(),), lambda a, c=c: as_int(ceil_rel(a.i, c)))
    # a zero divisor fails: the second argument is 1 for positive a, else 0
    for f in ("floor", "ceil"):
        sp(f + "_zero", MATH, "int", f"{f}(a, 1 if a > 0 else 0)", dict(a="int"), (N(),), lambda a: DI(a.i) if truth(i_lt(0, a.i)) else _fail())
    L = 6 if th else 4
    sp("from_bytes", MATH, "int", "unsigned_int_from_bytes_big(b)", dict(b="bytes"), (BS(0, L),), lambda b: DI(beval(b.e)))
    hi = 256**3 - 1 if th else 256**2 + 300
    sp("to_bytes", MATH, "bytes", "bytes_big_from_unsigned_int(b)", dict(b="int"), (N(-3, hi),), lambda b: minimal(b.i))
    sp("to_from", MATH, "int", "unsigned_int_from_bytes_big(bytes_big_from_unsigned_int(b))", dict(b="int"), (N(0, hi),), lambda b: DI(b.i))
    sp("and", MATH, "bytes", "and_bytestring(a, b)", dict(a="bytes", b="bytes"), (BS(0, W), BS(0, W)), lambda a, b: and_spec(a.e, b.e))
    # bitmaps
    sp("init", BMP, "bytes", "init_bitmap(a)", dict(a="int"), (N(-20, 40),), lambda a: init_spec(a.i))
    sp("size", BMP, "int", "size_bitmap(b)", dict(b="bytes"), (BS(0, 3),), lambda b: DI(8 * len(b.e)))
    sp("test", BMP, "bool", "test_bitmap(b, i)", dict(b="bytes", i="int"), (BS(0, W), N(-2, 8 * W + 2)), lambda b, i: test_spec(b.e, i.i))
    sp("set", BMP, "bytes", "set_bitmap(b, [i])", dict(b="bytes", i="int"), (BS(0, W), N(-2, 8 * W + 2)), lambda b, i: write_spec(b.e, [i.i], lambda o: True))
    sp("reset", BMP, "bytes", "reset_bitmap(b, [i])", dict(b="bytes", i="int"), (BS(0, W), N(-2, 8 * W + 2)), lambda b, i: write_spec(b.e, [i.i], lambda o: False))
    sp("flip", BMP, "bytes", "flip_bitmap(b, i)", dict(b="bytes", i="int"), (BS(0, W), N(-2, 8 * W + 2)), lambda b, i: write_spec(b.e, [i.i], b_not))
    sp("set_many", BMP, "bytes", "set_bitmap(b, xs)", dict(b="bytes", xs="List[int]"), (BS(1, 1), NL(3 if th else 2, 0, 7)), lambda b, xs: write_spec(b.e, [dforce(x).i for x in xs.items], lambda o: True))
    sp("reset_many", BMP, "bytes", "reset_bitmap(b, xs)", dict(b="bytes", xs="List[int]"), (BS(1, 1), NL(3 if th else 2, 0, 7)), lambda b, xs: write_spec(b.e, [dforce(x).i for x in xs.items], lambda o: False))
    sp("any", BMP, "bool", "any_bitmap(b)", dict(b="bytes"), (BS(0, W),), lambda b: flag(b_or(bits(b.e))))
    sp("all", BMP, "bool", "all_bitmap(b)", dict(b="bytes"), (BS(0, W),), lambda b: flag(b_and(bits(b.e))))
    sp("none", BMP, "bool", "none_bitmap(b)", dict(b="bytes"), (BS(0, W),), lambda b: flag(b_not(b_or(bits(b.e)))))
    sp("flip_flip", BMP, "bool", "flip_bitmap(flip_bitmap(b, i), i) == b", dict(b="bytes", i="int"), (BS(1, 1), N(0, 7)), lambda b, i: DI(1))
    sp("set_test", BMP, "bool", "test_bitmap(set_bitmap(b, [i]), j) == (i == j or test_bitmap(b, j))", dict(b="bytes", i="int", j="int"), (BS(1, 1), N(0, 7), N(0, 7)), lambda b, i, j: DI(1))
    sp("init_none", BMP, "bool", "none_bitmap(init_bitmap(a)) and size_bitmap(init_bitmap(a)) >= a", dict(a="int"), (N(0, 30),), lambda a: DI(1))

    def ag(name, imp, ret, expr, params, **bounds):
        out.append(PR("ag_" + name, TYPING + imp + f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n    return {expr}\n", bounds=bounds, configs=cfg))

    ag("gcd", MATH, "int", "gcd(a, b)", II, int_range=(-K, K))
    ag("sign", MATH, "int", "sign(a)", dict(a="int"))
    ag("floor", MATH, "int", "floor(a, b)", II, int_range=(-40, 40))
    ag("ceil", MATH, "int", "ceil(a, b)", II, int_range=(-40, 40))
    ag("from_bytes", MATH, "int", "unsigned_int_from_bytes_big(b)", dict(b="bytes"), bytes_len=4)
    ag("to_bytes", MATH, "bytes", "bytes_big_from_unsigned_int(b)", dict(b="int"), int_range=(-2, 70000))
    ag("and", MATH, "bytes", "and_bytestring(a, b)", dict(a="bytes", b="bytes"))
    ag("init", BMP, "bytes", "init_bitmap(a)", dict(a="int"), int_range=(-20, 40))
    ag("size", BMP, "int", "size_bitmap(b)", dict(b="bytes"))
    for n, e, r in (("test", "test_bitmap(b, i)", "bool"), ("set", "set_bitmap(b, [i])", "bytes"), ("reset", "reset_bitmap(b, [i])", "bytes"), ("flip", "flip_bitmap(b, i)", "bytes")):
        ag(n, BMP, r, e, dict(b="bytes", i="int"), bytes_len=W, per={"i": dict(int_range=(-2, 8 * W + 2))})
    ag("anyall", BMP, "int", "(1 if any_bitmap(b) else 0) + (2 if all_bitmap(b) else 0) + (4 if none_bitmap(b) else 0)", dict(b="bytes"), bytes_len=2)
    return out


def _fail():
    raise SpecErr("division by zero")
