"""C01: integer and boolean arithmetic."""
from .lib import E, PR, TYPING

PROPERTY = "C01"
LEVEL = "translation_validation"
EXPLANATION = (
    "Each corpus program is compiled by /repo's compiler in this run; the resulting UPLC is executed "
    "symbolically and compared by z3 with a symbolic CPython execution of the same program text, for all "
    "integers (mathematical, unbounded unless a task's int_range says otherwise) and all booleans. Powers are "
    "unrolled up to exponent 4 (the exponent range is a stated bound); sequences for min/max/sum up to 4 elements."
)
ASSUMPTIONS = [
    "int ** negative int has no integer result in Python; it is required to fail on chain.",
]
I2 = dict(x="int", y="int")


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    big = ("O0", "O1", "O2", "O3", "O1+cf") if th else ("O1", "O2")
    R = [("int", dict(x="int", y="int"), "")]

    def a(name, ret, expr, params=I2, **kw):
        kw.setdefault("configs", big)
        out.append(E(name, ret, expr, params, **kw))

    ops = {"add": "+", "sub": "-", "mul": "*", "floordiv": "//", "mod": "%"}
    for n, o in ops.items():
        a(f"int_{n}", "int", f"x {o} y")
        a(f"int_{n}_const_r", "int", f"(x {o} 7) + (x {o} -7)", dict(x="int"))
        a(f"int_{n}_const_l", "int", f"(7 {o} x) + (-7 {o} x)", dict(x="int"))
        a(f"aug_{n}", "int", "x", pre=f"x {o}= y")
        a(f"aug2_{n}", "int", "z", pre=f"z = x + 1\nz {o}= y\nz {o}= 2")
        a(f"nest_{n}", "int", f"(x {o} 3) {o} (y + 1) - (x {o} (y {o} 5))")
    a("pow", "int", "x ** y", bounds=dict(per={"y": dict(int_range=(-3, 6 if th else 4))}))
    a("pow_zero", "int", "0 ** y + 1 ** y", dict(y="int"), bounds=dict(int_range=(-2, 5)))
    a("pow_c", "int", "x ** 2 - x ** 3 + x ** 0 + x ** 1", dict(x="int"))
    a("pow_cbase", "int", "2 ** y", dict(y="int"), bounds=dict(int_range=(-3, 17 if th else 9)))
    a("pow_neg_base", "int", "(-2) ** y - 2 ** y", dict(y="int"), bounds=dict(int_range=(-1, 7)))
    a("pow_fn", "int", "pow(x, y)", bounds=dict(per={"y": dict(int_range=(-3, 4))}))
    a("pow_prec", "int", "-x ** 2 + (-x) ** 2 + 2 ** 3 ** 0", dict(x="int"))
    a("aug_pow", "int", "x", pre="x **= y", bounds=dict(per={"y": dict(int_range=(-2, 4))}))
    a("divmod_law", "bool", "(x // y) * y + x % y == x")
    a("mod_sign", "bool", "(x % y) * y >= 0 and abs(x % y) < abs(y)")
    a("neg", "int", "-x + (+y) - (-(-x))")
    a("unary_chain", "int", "- - -x + + +y")
    a("abs", "int", "abs(x) - abs(y) + abs(x - y)")
    a("abs_div", "int", "abs(x) // abs(y) + abs(x // y)")
    for n, o in {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}.items():
        a(f"cmp_{n}", "bool", f"x {o} y")
        a(f"cmp_{n}_c", "bool", f"(x {o} 0) == (0 {o} y)")
        a(f"cmp_if_{n}", "int", f"1 if x {o} y else 2")
        a(f"chain_{n}", "bool", f"x {o} y {o} z", dict(x="int", y="int", z="int"))
        a(f"chain3_{n}", "bool", f"x {o} y < z {o} w", dict(x="int", y="int", z="int", w="int"))
        a(f"chain_le_{n}", "bool", f"x <= y {o} z >= x", dict(x="int", y="int", z="int"))
    B2 = dict(p="bool", q="bool")
    B3 = dict(p="bool", q="bool", r="bool")
    for n, o in {"lt": "<", "gt": ">", "eq": "==", "ne": "!="}.items():
        a(f"bcmp_{n}", "bool", f"p {o} q", B2)
        a(f"bcmpnot_{n}", "bool", f"(not p) {o} q", B2)
    for n, o in {"le": "<=", "ge": ">="}.items():
        a(f"bcmp_{n}", "bool", f"p {o} q", B2, expect="reject_or_agree")
    a("bool_and_or", "bool", "p and q or r", B3)
    a("bool_or_and", "bool", "(p or q) and not r", B3)
    a("bool_many", "bool", "p and q and r and s", dict(p="bool", q="bool", r="bool", s="bool"))
    a("bool_many_or", "bool", "p or q or r or not s", dict(p="bool", q="bool", r="bool", s="bool"))
    a("bool_not", "bool", "not (not p) == (not q)", B2, expect="reject_or_agree")
    a("bool_mix", "bool", "not (p and not q) or (p != q and r)", B3)
    a("bool_ite", "bool", "(p if q else r) == (q if p else r)", B3)
    a("bool_eqint", "bool", "p == x", dict(p="bool", x="int"))
    a("bool_neint", "bool", "p != x", dict(p="bool", x="int"))
    a("int_eqbool", "bool", "x == p", dict(p="bool", x="int"))
    a("int_nebool", "bool", "x != p", dict(p="bool", x="int"), expect="reject_or_agree")
    for n, o in {"lt": "<", "le": "<=", "gt": ">", "ge": ">="}.items():
        a(f"int_{n}_bool", "bool", f"x {o} p", dict(p="bool", x="int"), expect="reject_or_agree")
        a(f"bool_{n}_int", "bool", f"p {o} x", dict(p="bool", x="int"), expect="reject_or_agree")
    for n, o in {**ops, "pow": "**"}.items():
        kw = dict(expect="reject_or_agree")
        if n == "pow":
            kw["bounds"] = dict(int_range=(-2, 3))
        a(f"int_{n}_bool", "int", f"x {o} p", dict(p="bool", x="int"), **{**kw, **({} if n not in ("add", "sub") else dict(expect="agree"))})
        a(f"bool_{n}_int", "int", f"p {o} x", dict(p="bool", x="int"), **kw)
        a(f"bool_{n}_bool", "int", f"p {o} q", B2, **kw)
        if n in ("add", "sub"):
            a(f"int_aug_{n}_bool", "int", "x", dict(p="bool", x="int"), pre=f"x {o}= p")
    a("truediv", "int", "x / y", expect="reject_or_agree")
    a("bool_ops_on_int", "bool", "bool(x and y)", expect="reject_or_agree")
    a("and_or_int", "int", "x and y", expect="reject_or_agree")
    a("or_int", "int", "x or y", expect="reject_or_agree")
    a("not_int", "bool", "not x", dict(x="int"))
    a("bool_of_int", "bool", "bool(x) == bool(y)")
    a("bool_of_bool", "bool", "bool(p)", dict(p="bool"))
    a("int_of_bool", "int", "int(p) + 2 * int(not p)", dict(p="bool"))
    a("int_of_int", "int", "int(x)", dict(x="int"))
    a("not_cmp", "bool", "not x < y and not (x == y)")
    a("cond_int", "int", "x if x else y", expect="reject_or_agree")
    a("cond_bool", "int", "x if bool(x) else y")
    a("if_int", "int", "r", pre="r = 0\nif bool(x):\n    r = 1\nelif bool(y):\n    r = 2")
    a("if_int_cast", "int", "r", pre="r = 0\nif x:\n    r = 1\nelif y:\n    r = 2", expect="reject_or_agree")
    for f in ("min", "max"):
        a(f"{f}_list", "int", f"{f}([x, y, z, 3])", dict(x="int", y="int", z="int"))
        a(f"{f}_param", "int", f"{f}(xs)", dict(xs="List[int]"), bounds=dict(list_len=5 if th else 4))
        a(f"{f}_args", "int", f"{f}(x, y)", expect="reject_or_agree")
        a(f"{f}_args3", "int", f"{f}(x, y, 3)", expect="reject_or_agree")
    a("sum_param", "int", "sum(xs)", dict(xs="List[int]"), bounds=dict(list_len=5 if th else 4))
    a("sum_lit", "int", "sum([x, y, -x, 3])")
    a("all_any", "bool", "all([p, q, r]) != any([p, q, r])", B3)
    a("all_p", "bool", "all(xs)", dict(xs="List[bool]"), bounds=dict(list_len=4))
    a("any_p", "bool", "any(xs)", dict(xs="List[bool]"), bounds=dict(list_len=4))
    a("in_list", "bool", "x in [y, 1, z]", dict(x="int", y="int", z="int"))
    a("notin_list", "bool", "x not in [y, 1, z]", dict(x="int", y="int", z="int"))
    a("big_const", "int", "x + 12345678901234567890123456789 * y - 0xFFFFFFFFFFFFFFFFFFFF")
    a("bin_const", "int", "x * 0b1011 + 0o17 - 1_000", dict(x="int"))
    a("const_only", "int", "7 // -2 * 3 + -7 % 3 - 7 % -3 + -7 // 2 - (2 ** 10) + x", dict(x="int"))
    a("const_only_cf", "int", "7 // -2 * 3 + -7 % 3 - 7 % -3 + -7 // 2 - (2 ** 10) + abs(-3) + x", dict(x="int"), configs=("O1+cf", "O0+cf", "O3"))
    a("prec", "int", "x + y * 2 - x // 3 % 5 * -y")
    a("cmp_arith", "bool", "x + y > x * 2 - 1 >= y // 2")
    a("ternary_nest", "int", "1 if x > y else 2 if x == y else 3 if y > 0 else 4")
    a("bit_ops", "int", "x & y", expect="reject_or_agree")
    a("bit_or", "int", "x | y", expect="reject_or_agree")
    a("bit_xor", "int", "x ^ y", expect="reject_or_agree")
    a("shift_l", "int", "x << y", expect="reject_or_agree", bounds=dict(int_range=(0, 4)))
    a("shift_r", "int", "x >> y", expect="reject_or_agree", bounds=dict(int_range=(0, 4)))
    a("invert", "int", "~x", dict(x="int"), expect="reject_or_agree")
    a("bool_neg", "int", "-p", dict(p="bool"), expect="reject_or_agree")
    a("is_cmp", "bool", "x is y", expect="reject_or_agree")
    a("range_sum", "int", "sum([i for i in range(x)])", dict(x="int"), bounds=dict(int_range=(-2, 6)))
    a("clamp", "int", "min([max([x, -10]), 10])", dict(x="int"))
    a("ceil_div", "int", "-(-x // y)")
    a("even_odd", "int", "x // 2 if x % 2 == 0 else 3 * x + 1", dict(x="int"))
    a("parity_neg", "bool", "(-x) % 2 == x % 2", dict(x="int"))
    a("nested_mod", "int", "(x % 10) % 3 + (x // 10) % 10", dict(x="int"))
    a("div_neg_const", "int", "x // -3 + x % -3 + x // 3 - x % 3", dict(x="int"))
    if th:
        out += random_exprs(rng, 150, big)
    else:
        out += random_exprs(rng, 24, ("O1", "O2"))
    return out


def random_exprs(rng, n, cfgs):
    """random expression trees over int/bool variables"""

    def iexp(d):
        if d == 0 or rng.random() < 0.15:
            return rng.choice(["x", "y", "z", str(rng.randint(-9, 9)), str(rng.randint(-300, 300))])
        k = rng.randrange(9)
        if k < 5:
            o = rng.choice(["+", "-", "*", "+", "-"])
            return f"({iexp(d-1)} {o} {iexp(d-1)})"
        if k == 5:
            c = rng.choice([-7, -3, -2, 2, 3, 5, 10])
            return f"({iexp(d-1)} {rng.choice(['//','%'])} {c})"
        if k == 6:
            return f"({iexp(d-1)} if {bexp(d-1)} else {iexp(d-1)})"
        if k == 7:
            return f"abs({iexp(d-1)})"
        return f"(-{iexp(d-1)})"

    def bexp(d):
        if d == 0 or rng.random() < 0.15:
            return rng.choice(["p", "q", "(x < y)", "(y == z)", "True", "False"])
        k = rng.randrange(5)
        if k == 0:
            return f"({bexp(d-1)} {rng.choice(['and','or'])} {bexp(d-1)})"
        if k == 1:
            return f"(not {bexp(d-1)})"
        if k == 2:
            return f"({bexp(d-1)} {rng.choice(['==','!='])} {bexp(d-1)})"
        o1, o2 = (rng.choice(["<", "<=", ">", ">=", "==", "!="]) for _ in range(2))
        if k == 3:
            return f"({iexp(d-1)} {o1} {iexp(d-1)})"
        return f"({iexp(d-1)} {o1} {iexp(d-1)} {o2} {iexp(d-1)})"

    res = []
    params = dict(x="int", y="int", z="int", p="bool", q="bool")
    for i in range(n):
        if i % 2:
            res.append(E(f"rand_int_{i}", "int", iexp(3), params, configs=cfgs, max_paths=300))
        else:
            res.append(E(f"rand_bool_{i}", "bool", bexp(3), params, configs=cfgs, max_paths=300))
    return res
