"""C06: control flow."""
from .lib import E, PR, TYPING
from . import gen

PROPERTY = "C06"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs built from if/elif/else, for, while, conditional expressions, comprehensions, nested loops, reassignment, early "
    "return and assert are compiled by /repo's compiler in this run; z3 decides agreement with symbolic CPython for every "
    "integer/boolean input and every list input up to the stated length, i.e. for every combination of branches taken and "
    "every iteration count within the bound. Besides the fixed corpus a seeded generator supplies further program shapes."
)
ASSUMPTIONS = ["loop iteration counts are bounded by the list-length and integer-range bounds of each task"]

CONDS = ("p", "q", "x > 2", "s", "not p", "x == 1", "q or s")
KINDS = "frxap"  # assign and go on, return, fail, assert a condition, pass


def _branch(kind, k, ind):
    t = {
        "f": f"r = r * 3 + {k}",
        "r": f"return r + {100 * k}",
        "x": "assert False, 'x'",
        "a": f"assert x != {k % 5}, 'a'",
        "p": "pass",
    }[kind]
    return [" " * ind + t]


def _if(shape, conds, k, ind):
    """shape: (body, orelse); each a kind, a shape (nested if), a tuple list or None"""
    out = [" " * ind + f"if {conds()}:"] + _block(shape[0], conds, k, ind + 4)
    if shape[1] is not None:
        out += [" " * ind + "else:"] + _block(shape[1], conds, k, ind + 4)
    return out


def _block(sh, conds, k, ind):
    if isinstance(sh, str):
        return _branch(sh, next(k), ind)
    if isinstance(sh, list):
        return sum((_block(i, conds, k, ind) for i in sh), [])
    if sh[0] == "for":
        return [" " * ind + "for i in range(2):"] + _block(sh[1], conds, k, ind + 4)
    return _if(sh, conds, k, ind)


def _function(i, shape, end):
    import itertools

    cs = itertools.cycle(CONDS)
    k = itertools.count(1)
    return [f"def f{i}(x: int, p: bool, q: bool, s: bool) -> int:", "    r = 1"] + _block(shape, lambda: next(cs), k, 4) + [f"    {end}"]


def shapes_program(name, shapes, make, **kw):
    """one script holding a function per shape, selected by an argument"""
    lines = []
    for i, (sh, end) in enumerate(shapes):
        lines += _function(i, sh, end)
    lines.append("def validator(n: int, x: int, p: bool, q: bool, s: bool) -> int:")
    for i in range(len(shapes)):
        lines += [f"    if n == {i}:", f"        return f{i}(x, p, q, s)"]
    lines.append("    return 0")
    return make(name, "\n".join(lines) + "\n", **kw)


def _random_shape(rng, depth, in_loop=False):
    if depth == 0 or rng.random() < 0.25:
        return rng.choice("ffrrxap")
    r = rng.random()
    if r < 0.12 and not in_loop:
        return ("for", _random_block(rng, depth - 1, True))
    return (_random_block(rng, depth - 1, in_loop), None if rng.random() < 0.3 else _random_block(rng, depth - 1, in_loop))


def _random_block(rng, depth, in_loop=False):
    return [_random_shape(rng, depth, in_loop) for _ in range(rng.choice((1, 1, 2)))]


def control_shapes(tier, rng, make):
    th = tier == "thorough"
    ifs = [(a, b) for a in "frx" for b in (None, "f", "r", "x")]
    two = [([a, b], "return r * 2") for a in ifs for b in ifs]
    # an if in one branch of another, followed by a statement
    nest = [([((a, b) if side else ([(a, b), "f"]), c) if first else (c or "p", (a, b)), "f"], "return r * 2") for a, b in ifs for c in ("r", "x", "f") for side in (0, 1) for first in (0, 1)]
    n = 12
    for pref, sh in (("two", two), ("nest", nest)):
        sh = list(sh)
        if not th:
            rng.shuffle(sh)
        for i in range(0, len(sh), n):
            yield shapes_program(f"shape_{pref}{i // n}", sh[i : i + n], make)
    for i in range(60 if th else 14):
        sh = [([_random_shape(rng, 3 if th else 2) for _ in range(rng.choice((1, 2, 3)))], rng.choice(("return r * 2", "return r", "assert False, 'end'"))) for _ in range(8)]
        yield shapes_program(f"shape_rnd{i}", sh, make)


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    N = 4 if th else 3

    def a(name, body, params, ret="int", **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=N, bytes_len=1, str_len=1, dict_len=2, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 6000 if th else 1500)
        import textwrap

        src = TYPING + kw.pop("head", "") + "def validator(" + ", ".join(f"{k}: {v}" for k, v in params.items()) + f") -> {ret}:\n" + textwrap.indent(textwrap.dedent(body).strip("\n"), "    ") + "\n"
        from symx.tv import Template

        out.append(Template(name, src, bounds=b, **kw))

    I = dict(x="int")
    I2 = dict(x="int", y="int")
    I3 = dict(x="int", y="int", z="int")
    L = dict(xs="List[int]")
    Lx = dict(xs="List[int]", x="int")
    a("if", "r = 0\nif x > y:\n    r = x\nreturn r", I2)
    a("if_else", "if x > y:\n    r = x\nelse:\n    r = y\nreturn r", I2)
    a("if_elif", "if x > y:\n    r = 1\nelif x == y:\n    r = 2\nelif x == 0:\n    r = 3\nelse:\n    r = 4\nreturn r", I2)
    a("if_noelse_elif", "r = 7\nif x > y:\n    r = 1\nelif x == y:\n    r = r + 2\nreturn r", I2)
    a("if_two_vars", "a = x\nb = y\nif a > b:\n    a = b\n    b = a + 1\nreturn a * 10 + b", I2)
    a("if_swap", "a = x\nb = y\nif a > b:\n    a, b = b, a\nreturn a - 3 * b", I2)
    a("if_nested", "r = 0\nif x > 0:\n    if y > 0:\n        r = 1\n    else:\n        r = 2\n    r += 10\nelse:\n    if y > x:\n        r = 3\nreturn r", I2)
    a("if_param_overwrite", "if x > 0:\n    x = y\ny = x + 1\nreturn x * 2 + y", I2)
    a("if_return", "if x > y:\n    return 1\nreturn 2", I2)
    a("if_return_else", "if x > y:\n    return 1\nelse:\n    return 2", I2)
    a("if_return_mixed", "r = 5\nif x > y:\n    return r\nelif x == y:\n    r = 6\nelse:\n    r = 7\n    if x < 0:\n        return r + 1\nreturn r * 10", I2)
    a("if_dead_after_return", "return x\nx = 5\nreturn x", I, expect="reject_or_agree")
    a("if_seq", "r = 0\nif x > 0:\n    r += 1\nif x > 1:\n    r += 2\nif x > 2:\n    r += 4\nreturn r", I)
    a("if_cond_uses_updated", "if x > 0:\n    x -= 5\nif x > 0:\n    x -= 5\nreturn x", I)
    a("if_undefined", "if x > 0:\n    r = 1\nreturn r", I, expect="reject_or_agree")
    a("if_undefined_else", "if x > 0:\n    r = 1\nelse:\n    s = 2\nreturn r", I, expect="reject_or_agree")
    a("if_pass", "if x > 0:\n    pass\nelse:\n    x = -x\nreturn x", I)
    a("if_const", "if True:\n    r = x\nelse:\n    r = 2\nif False:\n    r = 9\nif not True:\n    r = 8\nelse:\n    r += 1\nreturn r", I)
    a("if_const_return", "if False:\n    return 1\nif True:\n    return x\nreturn 3", I)
    a("if_const_and", "r = 0\nif x > 0 and True:\n    r += 1\nif x > 0 or False:\n    r += 2\nif x > 0 or True:\n    r += 4\nif x > 0 and False:\n    r += 8\nif True and x > 1:\n    r += 16\nif False or x > 1:\n    r += 32\nreturn r", I)
    a("if_const_raise", "r = 0\nif True or xs[0] > 0:\n    r += 1\nif False and xs[0] > 0:\n    r += 2\nif xs[0] > 0 or True:\n    r += 4\nreturn r", L)
    a("if_many_vars", "a = 1\nb = 2\nc = 3\nif x > 0:\n    c = a\n    a = b\nelse:\n    b = c\n    c = x\nreturn a + 10 * b + 100 * c", I)
    a("ifexp_nested", "return (1 if x > 0 else 2) if y > 0 else (3 if x > y else 4)", I2)
    a("ifexp_lazy", "return xs[0] if len(xs) > 0 else -1", L)
    a("ifexp_effect", "return (xs[5] if x > 0 else 0) + 1", Lx)
    # for
    a("for_sum", "s = 0\nfor v in xs:\n    s += v\nreturn s", L)
    a("for_var_after", "v = 9\nfor v in xs:\n    pass\nreturn v", L)
    a("for_var_after_undef", "for v in xs:\n    pass\nreturn v", L, expect="reject_or_agree")
    a("for_var_mod", "s = 0\nfor v in xs:\n    v = v + 1\n    s = s * 2 + v\nreturn s", L)
    a("for_var_mod_after", "v = 0\nfor v in xs:\n    v = v + 1\nreturn v", L)
    a("for_iter_reassigned", "s = 0\nfor v in xs:\n    xs = [v]\n    s = s * 3 + v + len(xs)\nreturn s + len(xs)", L)
    a("for_iter_nonempty", "s = 0\nfor v in xs + [x]:\n    s = s * 2 + v\nreturn s", Lx)
    a("for_param", "for v in xs:\n    x = x * 2 + v\nreturn x", Lx)
    a("for_cond", "s = 0\nfor v in xs:\n    if v > x:\n        s += v\n    elif v == x:\n        s -= 1\nreturn s", Lx)
    a("for_return", "for v in xs:\n    if v > x:\n        return v\nreturn -1", Lx)
    a("for_return_2", "c = 0\nfor v in xs:\n    c += 1\n    if v == x:\n        return c\n    c += 1\nreturn c * 100", Lx)
    a("for_return_first", "for v in xs:\n    return v\nreturn x", Lx)
    a("for_else", "s = 0\nfor v in xs:\n    s += v\nelse:\n    s += 100\nreturn s", L, expect="reject_or_agree")
    a("for_else_return", "for v in xs:\n    if v > 0:\n        return v\nelse:\n    return -5", L, expect="reject_or_agree")
    a("for_break", "s = 0\nfor v in xs:\n    if v > x:\n        break\n    s += v\nreturn s", Lx, expect="reject_or_agree")
    a("for_continue", "s = 0\nfor v in xs:\n    if v > x:\n        continue\n    s += v\nreturn s", Lx, expect="reject_or_agree")
    a("for_nested", "s = 0\nfor a in xs:\n    for b in xs:\n        s = s * 2 + a - b\nreturn s", L, bounds=dict(list_len=2))
    a("for_nested_dep", "s = 0\nfor a in xss:\n    t = 0\n    for b in a:\n        t += b\n    s = s * 2 + t\nreturn s", dict(xss="List[List[int]]"), bounds=dict(list_len=2))
    a("for_nested_same_var", "s = 0\nfor a in xs:\n    for a in [a, 1]:\n        s = 2 * s + a\n    s += a\nreturn s", L, bounds=dict(list_len=2))
    a("for_nested_return", "for a in xs:\n    for b in xs:\n        if a + b == x:\n            return a * b\nreturn 0", Lx, bounds=dict(list_len=2))
    a("for_range", "s = 0\nfor i in range(x):\n    s = s * 2 + i\nreturn s", I, bounds=dict(int_range=(-3, 5)))
    a("for_range2", "s = 0\nfor i in range(x, y):\n    s = s * 2 + i\nreturn s", I2, bounds=dict(int_range=(-2, 3)), expect="reject_or_agree")
    a("for_range3", "s = 0\nfor i in range(x, y, 2):\n    s = s * 2 + i\nreturn s", I2, bounds=dict(int_range=(-2, 3)), expect="reject_or_agree")
    a("for_range_len", "s = 0\nfor i in range(len(xs)):\n    s += xs[i] * (i + 1)\nreturn s", L)
    a("for_range_neg", "s = 0\nfor i in range(-x):\n    s += i\nreturn s", I, bounds=dict(int_range=(-4, 3)))
    a("for_bytes", "s = 0\nfor c in b:\n    s = s * 2 + c\nreturn s", dict(b="bytes"), expect="reject_or_agree", bounds=dict(bytes_len=3))
    a("for_str", "s = 0\nfor c in b:\n    s += 1\nreturn s", dict(b="str"), expect="reject_or_agree")
    a("for_list_lit", "s = 0\nfor v in [x, y, x + y]:\n    s = s * 2 + v\nreturn s", I2)
    a("for_tuple_lit", "s = 0\nfor v in (x, y):\n    s = s * 2 + v\nreturn s", I2, expect="reject_or_agree")
    a("for_unpack", "s = 0\nfor k, v in d.items():\n    s = s * 2 + k - v\nreturn s", dict(d="Dict[int, int]"))
    a("for_build_list", "r: List[int] = []\nfor v in xs:\n    r = [v] + r\nreturn r", L, ret="List[int]")
    a("for_build_list2", "r: List[int] = []\nfor v in xs:\n    if v > x:\n        r += [v, x]\nreturn r", Lx, ret="List[int]")
    a("for_bool_acc", "ok = True\nfor v in xs:\n    ok = ok and v > x\nreturn ok", Lx, ret="bool")
    a("for_max", "m = xs[0]\nfor v in xs[1:]:\n    if v > m:\n        m = v\nreturn m", L)
    a("for_two_seq", "s = 0\nfor v in xs:\n    s += v\nfor v in xs:\n    s -= 2 * v\nreturn s", L)
    a("for_then_if", "s = 0\nfor v in xs:\n    s += v\nif s > x:\n    s = x\nfor v in [1, 2]:\n    s += v\nreturn s", Lx)
    a("for_new_var_inside", "s = 0\nfor v in xs:\n    t = v * 2\n    s += t\nreturn s", L)
    a("for_var_carry", "t = 0\ns = 0\nfor v in xs:\n    s += t\n    t = v\nreturn s * 10 + t", L)
    a("for_assert", "for v in xs:\n    assert v > x, 'too small'\nreturn len(xs)", Lx)
    a("for_zip_idx", "s = 0\ni = 0\nfor v in xs:\n    s += v * ys[i]\n    i += 1\nreturn s", dict(xs="List[int]", ys="List[int]"), bounds=dict(list_len=2))
    # while
    R = dict(bounds=dict(int_range=(-3, 6 if th else 5)))
    a("while_count", "s = 0\nwhile x > 0:\n    s += x\n    x -= 1\nreturn s", I, **R)
    a("while_and", "s = 0\nwhile x > 0 and s < y:\n    s += x\n    x -= 1\nreturn s * 10 + x", I2, **R)
    a("while_if", "s = 0\nwhile x > 0:\n    if x % 2 == 0:\n        s += 1\n        x -= 1\n    else:\n        s += 10\n        x -= 2\nreturn s", I, **R)
    a("while_return", "while x > 0:\n    if x == y:\n        return 100 + x\n    x -= 1\nreturn x", I2, **R)
    a("while_else", "while x > 0:\n    x -= 1\nelse:\n    x = 50\nreturn x", I, expect="reject_or_agree", **R)
    a("while_break", "while True:\n    if x <= 0:\n        break\n    x -= 1\nreturn x", I, expect="reject_or_agree", **R)
    a("while_false", "while False:\n    x += 1\nreturn x", I)
    a("while_true_return", "while True:\n    if x <= 0:\n        return x\n    x -= 2", I, expect="reject_or_agree", **R)
    a("while_nested", "s = 0\nwhile x > 0:\n    y = x\n    while y > 0:\n        s += y\n        y -= 2\n    x -= 1\nreturn s + y", I2, bounds=dict(int_range=(-2, 3)))
    a("while_for", "s = 0\nwhile x > 0:\n    for v in xs:\n        s += v * x\n    x -= 1\nreturn s", Lx, bounds=dict(list_len=2, int_range=(-1, 3)))
    a("for_while", "s = 0\nfor v in xs:\n    w = v\n    while w > 0:\n        s += w\n        w -= 1\nreturn s", L, bounds=dict(list_len=2, int_range=(-1, 3)))
    a("while_list", "s = 0\nwhile len(xs) > 0:\n    s = s * 2 + xs[0]\n    xs = xs[1:]\nreturn s", L)
    a("while_two", "a = 0\nb = 1\nwhile x > 0:\n    a, b = b, a + b\n    x -= 1\nreturn a", I, **R)
    a("while_gcd", "while y > 0:\n    t = y\n    y = x % y\n    x = t\nreturn x", I2, bounds=dict(int_range=(0, 6)))
    a("while_cond_fail", "s = 0\nwhile xs[s] > 0:\n    s += 1\nreturn s", L)
    a("while_undefined_after", "while x > 0:\n    r = x\n    x -= 1\nreturn r", I, expect="reject_or_agree", **R)
    a("assert", "assert x > y\nreturn x", I2)
    a("assert_msg", "assert x > y, 'no'\nassert x != 0, 'zero'\nreturn x", I2)
    a("assert_in_if", "if x > 0:\n    assert y > 0, 'a'\nelse:\n    assert y < 0, 'b'\nreturn y", I2)
    a("assert_false", "if x > 0:\n    assert False, 'bad'\nreturn x", I)
    a("assert_unused_value", "y = xs[0]\nassert x > 0\nreturn x", Lx, expect="reject_or_agree")
    a("dead_assign_fail", "y = 1 // x\nreturn 3", I)
    a("dead_assign_index", "y = xs[x]\nreturn 3", Lx)
    a("dead_assign_dict", "y = d[x]\nreturn 3", dict(d="Dict[int, int]", x="int"))
    a("dead_assign_branch", "r = 0\nif x > 0:\n    y = 1 // (x - 1)\n    r = 1\nreturn r", I)
    a("dead_expr_fail", "1 // x\nreturn 3", I)
    a("dead_overwritten", "y = 1 // x\ny = 2\nreturn y", I)
    a("dead_in_loop", "for v in xs:\n    y = 1 // v\nreturn 3", L)
    a("dead_call", "def f(a: int) -> int:\n    assert a > 0\n    return a\nf(x)\nreturn 3", I)
    a("dead_call_assign", "def f(a: int) -> int:\n    assert a > 0\n    return a\ny = f(x)\nreturn 3", I)
    a("dead_cond", "if 1 // x > 0:\n    pass\nreturn 3", I)
    a("dead_ifexp", "y = 1 if 1 // x > 0 else 2\nreturn 3", I)
    a("dead_comp", "y = [1 // v for v in xs]\nreturn 3", L)
    a("dead_pass_branch", "if xs[0] > 0:\n    pass\nelse:\n    pass\nreturn 3", L)
    a("dead_boolop", "p = x > 0 and 1 // x > 0\nreturn 3", I)
    a("none_ret", "if x > 0:\n    assert x < 10\nreturn None", I, ret="None")
    a("none_fall", "assert x > 0", I, ret="None")
    a("aug_list", "xs += [x]\nxs += [x + 1]\nreturn xs", Lx, ret="List[int]")
    a("multi_assign", "a = b = x\na += 1\nreturn a * 10 + b", I, expect="reject_or_agree")
    a("walrus", "return (y := x + 1) * y", I, expect="reject_or_agree")
    a("swap3", "x, y, z = z, x, y\nreturn x + 10 * y + 100 * z", I3)
    a("chain_swap", "a, b = x, y\na, b = b, a\nc, a = a, b\nreturn a + 10 * b + 100 * c", I2)
    a("ann_assign", "r: int = x\nr = r + 1\nr: int = r * 2\nreturn r", I, expect="reject_or_agree")
    a("del", "y = x\ndel x\nreturn y", I, expect="reject_or_agree")
    a("many_branches", "r = 0\nfor v in xs:\n    if v > 10:\n        if v > x:\n            r += 1\n        else:\n            r += 2\n    elif v < -10:\n        r *= 2\n    else:\n        r -= v\nreturn r", Lx, bounds=dict(list_len=2))
    a("unions_in_flow", "r: Union[int, bytes] = x\nif x > 0:\n    r = b\nif isinstance(r, int):\n    return r\nelse:\n    return len(r)", dict(x="int", b="bytes"), expect="reject_or_agree")
    a("match", "match x:\n    case 1:\n        return 2\nreturn 3", I, expect="reject_or_agree")
    a("try", "try:\n    return 1 // x\nexcept ZeroDivisionError:\n    return 0", I, expect="reject_or_agree")
    a("module_if", "return c + x", I, expect="reject_or_agree", head="c = 1\nif c > 0:\n    c = 5\nelse:\n    c = 6\n")
    a("module_loop", "return c + x", I, expect="reject_or_agree", head="c = 1\nfor i in range(3):\n    c = c * 2 + i\n")
    a("module_while", "return c + x", I, expect="reject_or_agree", head="c = 0\nwhile c < 7:\n    c += 2\n")
    a("module_assert", "return x", I, head="assert 1 + 1 == 2\n")
    n = 160 if th else 28
    def make(name, src, **kw):
        from symx.tv import Template

        return Template(name, TYPING + src, configs=cf, bounds=dict(int_range=(-1, 14), ascii=True), max_paths=4000 if th else 1500)

    out += list(control_shapes(tier, rng, make))
    out += gen.programs(rng, n, "rnd", ("return", "assert", "tuple"), configs=cf, max_paths=400 if th else 120)
    return out
