"""C04: lists and tuples."""
from .lib import E, PR, TYPING

PROPERTY = "C04"
LEVEL = "translation_validation"
EXPLANATION = (
    "List/tuple programs are compiled by /repo's compiler in this run; z3 decides agreement of the symbolically "
    "executed UPLC with symbolic CPython for every list of up to 3 elements (4-5 thorough; all lengths and all element values, "
    "element types int, bool, bytes, str, nested lists, dicts, data classes, unions) and every integer index/bound."
)
ASSUMPTIONS = []

CLS = """from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    x: int
    y: bytes
"""


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    N = 4 if th else 3

    def a(name, ret, expr, params, **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=N, bytes_len=1, str_len=1, dict_len=1, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 8000 if th else 2500)
        out.append(E(name, ret, expr, params, bounds=b, **kw))

    L = dict(xs="List[int]")
    Li = dict(xs="List[int]", i="int")
    Lij = dict(xs="List[int]", i="int", j="int")
    LL = dict(xs="List[int]", ys="List[int]")
    a("index", "int", "xs[i]", Li)
    for k in (0, 1, 2, -1, -2, -3, -4, 5):
        a(f"index_c{k}", "int", f"xs[{k}]", L, bounds=dict(list_len=6) if abs(k) > 3 else {})
    a("index_expr", "int", "xs[i + 1] - xs[-i]", Li)
    a("index_2", "int", "xs[i] * 2 + xs[j]", Lij)
    a("slice", "List[int]", "xs[i:j]", Lij)
    a("slice_from", "List[int]", "xs[i:]", Li)
    a("slice_to", "List[int]", "xs[:i]", Li)
    a("slice_all", "List[int]", "xs[:]", L)
    for n, s in {"m1": "[:-1]", "1": "[1:]", "1m1": "[1:-1]", "m2": "[-2:]", "m2m1": "[-2:-1]", "02": "[0:2]", "21": "[2:1]", "59": "[5:9]", "m92": "[-9:2]", "m9m7": "[-9:-7]", "m31": "[-3:1]", "0m1": "[0:-1]", "m10": "[-1:0]"}.items():
        a(f"slicec_{n}", "List[int]", f"xs{s}", L)
    a("slice_len", "int", "len(xs[i:j])", Lij)
    a("slice_cat", "bool", "xs[:i] + xs[i:] == xs", Li)
    a("slice_slice", "List[int]", "xs[1:][:i]", Li)
    a("slice_step", "List[int]", "xs[::2]", L, expect="reject_or_agree")
    a("slice_rev", "List[int]", "xs[::-1]", L, expect="reject_or_agree")
    a("add", "List[int]", "xs + ys", LL)
    a("add_lit", "List[int]", "[i] + xs + [1, 2]", Li)
    a("aug_add", "List[int]", "xs", LL, pre="xs += ys\nxs += [5]")
    a("mul", "List[int]", "xs * 2", L, expect="reject_or_agree")
    a("len", "int", "len(xs) * 10 + len(xs + ys)", LL)
    a("len_empty", "int", "len(zs)", L, pre="zs: List[int] = []")
    a("in", "bool", "i in xs", Li)
    a("notin", "bool", "i not in xs", Li)
    a("in_slice", "bool", "i in xs[1:]", Li)
    a("index_of", "int", "xs.index(i)", Li)
    a("index_of_b", "int", "xs.index(i)", dict(xs="List[bytes]", i="bytes"))
    a("index_of_bool", "int", "xs.index(i)", dict(xs="List[bool]", i="bool"))
    a("index_of_str", "int", "xs.index(i)", dict(xs="List[str]", i="str"), bounds=dict(list_len=2))
    a("index_of_list", "int", "xs.index(i)", dict(xs="List[List[int]]", i="List[int]"), bounds=dict(list_len=2))
    a("count", "int", "xs.count(i)", Li, expect="reject_or_agree")
    a("eq", "bool", "xs == ys", LL)
    a("ne", "bool", "xs != ys", LL)
    a("lt", "bool", "xs < ys", LL, expect="reject_or_agree")
    a("eq_lit", "bool", "xs == [1, i]", Li)
    a("eq_empty", "bool", "xs == []", L, expect="reject_or_agree")
    a("eq_bytes", "bool", "xs == ys", dict(xs="List[bytes]", ys="List[bytes]"), bounds=dict(list_len=2))
    a("eq_bool", "bool", "xs == ys", dict(xs="List[bool]", ys="List[bool]"), bounds=dict(list_len=2))
    a("eq_str", "bool", "xs == ys", dict(xs="List[str]", ys="List[str]"), bounds=dict(list_len=2))
    a("eq_nested", "bool", "xs == ys", dict(xs="List[List[int]]", ys="List[List[int]]"), bounds=dict(list_len=2))
    a("not", "bool", "not xs", L)
    a("bool", "bool", "bool(xs)", L)
    a("cond", "int", "1 if xs else 2", L, expect="reject_or_agree")
    # comprehension
    a("comp", "List[int]", "[x * 2 for x in xs]", L)
    a("comp_if", "List[int]", "[x for x in xs if x > i]", Li)
    a("comp_if2", "List[int]", "[x + 1 for x in xs if x > i if x < 10]", Li)
    a("comp_ifand", "List[int]", "[x for x in xs if x > i and x % 2 == 0]", Li)
    a("comp_tern", "List[int]", "[x if x > 0 else -x for x in xs]", L)
    a("comp_shadow", "List[int]", "[x for x in xs] + [x]", dict(xs="List[int]", x="int"))
    a("comp_nested", "List[List[int]]", "[[x + y for y in ys] for x in xs]", LL, bounds=dict(list_len=2))
    a("comp_nested2", "List[int]", "[sum([x * y for y in ys]) for x in xs]", LL, bounds=dict(list_len=2))
    a("comp_2gen", "List[int]", "[x + y for x in xs for y in ys]", LL, expect="reject_or_agree", bounds=dict(list_len=2))
    a("comp_comp", "List[int]", "[y + 1 for y in [x * 2 for x in xs if x != 0]]", L)
    a("comp_capture", "List[int]", "[x + i for x in xs]", Li)
    a("comp_bool", "List[bool]", "[x > i for x in xs]", Li)
    a("comp_bytes", "List[bytes]", "[b + b'x' for b in xs]", dict(xs="List[bytes]"))
    a("comp_str", "List[str]", "[s + 'x' for s in xs]", dict(xs="List[str]"), bounds=dict(list_len=2))
    a("comp_range", "List[int]", "[k * k for k in range(i)]", dict(i="int"), bounds=dict(int_range=(-2, 5)))
    a("comp_tuple", "int", "sum([a * b for a, b in [(x, x + 1) for x in xs]])", L, expect="reject_or_agree")
    a("comp_tuple_idx", "int", "sum([t[0] - t[1] for t in [(x, 2) for x in xs]])", L, expect="reject_or_agree")
    a("comp_items", "List[int]", "[k + v for k, v in d.items()]", dict(d="Dict[int, int]"), bounds=dict(dict_len=3))
    # aggregation and search
    for f in ("sum", "min", "max"):
        a(f, "int", f"{f}(xs)", L)
        a(f + "_slice", "int", f"{f}(xs[1:])", L)
        a(f + "_comp", "int", f"{f}([x * x for x in xs if x != i])", Li)
    a("all", "bool", "all([x > 0 for x in xs])", L)
    a("any", "bool", "any([x > 0 for x in xs])", L)
    a("all_any_b", "bool", "all(xs) or any(xs)", dict(xs="List[bool]"))
    a("reversed", "List[int]", "reversed(xs)", L, expect="reject_or_agree")
    a("reversed_list", "List[int]", "[x for x in reversed(xs)]", L)
    a("reversed_for", "int", "s", L, pre="s = 0\nfor x in reversed(xs):\n    s = s * 10 + x")
    a("reversed_bytes", "bytes", "r", dict(xs="List[bytes]"), pre="r = b''\nfor x in reversed(xs):\n    r += x")
    a("range_list", "List[int]", "[x for x in range(i)]", dict(i="int"), bounds=dict(int_range=(-2, 5)))
    a("range2", "List[int]", "[x for x in range(1, i)]", dict(i="int"), bounds=dict(int_range=(-2, 5)), expect="reject_or_agree")
    a("len_range", "int", "len(range(i))", dict(i="int"), bounds=dict(int_range=(-2, 5)))
    a("sorted", "List[int]", "sorted(xs)", L, expect="reject_or_agree")
    # iteration
    a("for_sum", "int", "s", L, pre="s = 0\nfor x in xs:\n    s = s * 3 + x")
    a("for_build", "List[int]", "r", L, pre="r: List[int] = []\nfor x in xs:\n    r = [x] + r")
    a("for_build2", "List[int]", "r", L, pre="r = [0]\nfor x in xs:\n    r += [x, x + 1]")
    a("for_last", "int", "x", Li, pre="x = i\nfor x in xs:\n    pass")
    a("for_idx", "int", "s", L, pre="s = 0\nfor k in range(len(xs)):\n    s += k * xs[k]")
    a("for_nested", "int", "s", LL, pre="s = 0\nfor x in xs:\n    for y in ys:\n        s = s * 2 + x - y", bounds=dict(list_len=2))
    a("for_lit", "int", "s", dict(i="int", j="int"), pre="s = 0\nfor x in [i, j, 3, i]:\n    s = s * 7 + x")
    # element types
    a("bool_elt", "bool", "xs[i]", dict(xs="List[bool]", i="int"))
    a("bytes_elt", "bytes", "xs[i] + xs[0]", dict(xs="List[bytes]", i="int"))
    a("str_elt", "str", "xs[i]", dict(xs="List[str]", i="int"), bounds=dict(list_len=2))
    a("list_elt", "int", "xs[i][j]", dict(xs="List[List[int]]", i="int", j="int"), bounds=dict(list_len=2))
    a("list_elt_len", "List[int]", "[len(x) for x in xs]", dict(xs="List[List[int]]"), bounds=dict(list_len=2))
    a("dict_elt", "int", "xs[i][j]", dict(xs="List[Dict[int, int]]", i="int", j="int"), bounds=dict(list_len=2, dict_len=2))
    a("lit", "List[int]", "[i, j, i + j, 0]", dict(i="int", j="int"))
    a("lit_bytes", "List[bytes]", "[b, b + b, b'']", dict(b="bytes"))
    a("lit_bool", "List[bool]", "[p, not p, True]", dict(p="bool"))
    a("lit_str", "List[str]", "[s, 'a', s + s]", dict(s="str"))
    a("lit_nested", "List[List[int]]", "[[i], [], [j, i]]", dict(i="int", j="int"), expect="reject_or_agree")
    a("lit_none", "List[None]", "[n, n]", dict(n="None"), expect="reject_or_agree")
    a("in_bytes", "bool", "b in xs", dict(xs="List[bytes]", b="bytes"))
    a("in_bool", "bool", "b in xs", dict(xs="List[bool]", b="bool"), expect="reject_or_agree")
    a("in_list", "bool", "b in xs", dict(xs="List[List[int]]", b="List[int]"), expect="reject_or_agree", bounds=dict(list_len=2))
    # tuples
    ij = dict(i="int", j="int")
    a("tup_idx", "int", "t[0] * 3 - t[1]", ij, pre="t = (i, j)")
    a("tup_neg", "int", "t[-1]", ij, pre="t = (i, j)", expect="reject_or_agree")
    a("tup_dyn", "int", "t[i]", ij, pre="t = (i, j)", expect="reject_or_agree")
    a("tup_slice", "int", "t[0:1][0]", ij, pre="t = (i, j)", expect="reject_or_agree")
    a("tup_unpack", "int", "x - 2 * y", ij, pre="x, y = (j, i)")
    a("tup_unpack3", "int", "x - 2 * y + 3 * z", ij, pre="x, y, z = i, j, i + 1")
    a("swap", "int", "i - 2 * j", ij, pre="i, j = j, i")
    a("rot", "int", "a * 100 + b * 10 + c", dict(a="int", b="int", c="int"), pre="a, b, c = c, a, b")
    a("fib", "int", "x", ij, pre="x, y = i, j\nx, y = y, x + y\nx, y = y, x + y")
    a("tup_nest", "int", "t[0][1] - t[1]", ij, pre="t = ((i, j), i * 2)")
    a("tup_unpack_nest", "int", "x + 2 * y + 4 * z", ij, pre="x, (y, z) = (i, (j, 3))", expect="reject_or_agree")
    a("tup_mixed", "bytes", "t[1] + b'x' if t[2] else b''", dict(i="int", b="bytes", p="bool"), pre="t = (i, b, p)")
    a("tup_add", "int", "(t + (3,))[2]", ij, pre="t = (i, j)", expect="reject_or_agree")
    a("tup_eq", "bool", "(i, j) == (j, i)", ij, expect="reject_or_agree")
    a("tup_ret", "int", "f(i)[0] - f(j)[1]", ij, pre="def f(x: int) -> Tuple[int, int]:\n    return (x, x + 1)", expect="reject_or_agree")
    a("tup_param", "int", "t[0] + len(t[1])", dict(t="Tuple[int, bytes]"), expect="reject_or_agree")
    a("tup_param_neg", "bytes", "t[-1]", dict(t="Tuple[int, bytes]"), expect="reject_or_agree")
    a("tup_param_unpack", "int", "x - len(y)", dict(t="Tuple[int, bytes]"), pre="x, y = t", expect="reject_or_agree")
    a("tup_param_ret", "Tuple[int, str, bool]", "t", dict(t="Tuple[int, str, bool]"), expect="reject_or_agree")
    a("tup_param_nest", "int", "t[1][0] + (1 if t[2] else 0)", dict(t="Tuple[int, List[int], bool]"), expect="reject_or_agree")
    a("tup_list_param", "int", "s", dict(ts="List[Tuple[int, int]]"), pre="s = 0\nfor a, b in ts:\n    s += a * b - a", expect="reject_or_agree")
    a("tup_mk_ret", "Tuple[int, int]", "(i, j)", ij, expect="reject_or_agree")
    a("tup_ann", "int", "t[0] - t[1]", ij, pre="t: Tuple[int, int] = (i, j)", expect="reject_or_agree")
    a("tup_fparam", "int", "f((i, j))", ij, pre="def f(t: Tuple[int, int]) -> int:\n    return t[0] - 2 * t[1]", expect="reject_or_agree")
    a("tup_for", "int", "s", dict(xs="List[int]", i="int"), pre="s = 0\nfor a, b in [(x, i) for x in xs]:\n    s += a * b - a", expect="reject_or_agree")
    a("tup_of_list", "int", "t[0][0] + t[1][1]", dict(xs="List[int]", ys="List[int]"), pre="t = (xs, ys)", bounds=dict(list_len=2))
    a("list_unpack", "int", "a - b", L, pre="a, b = xs", expect="reject_or_agree")
    a("for_pairs", "int", "s", dict(d="Dict[int, int]"), pre="s = 0\nfor p in d.items():\n    s = s * 3 + p[0] - p[1]", bounds=dict(dict_len=2), expect="reject_or_agree")
    # data class elements
    for n, ty in {"A": "A", "U": "Union[A, B]", "UI": "Union[int, bytes]"}.items():
        body = {"A": "x.x", "U": "x.x", "UI": "x if isinstance(x, int) else len(x)"}[n]
        src = TYPING + CLS + f"def validator(xs: List[{ty}], i: int) -> int:\n    x = xs[i]\n    return {body}\n"
        out.append(PR(f"cls_idx_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf))
        src = TYPING + CLS + f"def validator(xs: List[{ty}], i: int) -> List[{ty}]:\n    return [x for x in xs] + xs[i:]\n"
        out.append(PR(f"cls_comp_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf))
        src = TYPING + CLS + f"def validator(xs: List[{ty}], y: {ty}) -> bool:\n    return y in xs\n"
        out.append(PR(f"cls_in_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf))
        src = TYPING + CLS + f"def validator(xs: List[{ty}], y: {ty}) -> int:\n    return xs.index(y)\n"
        out.append(PR(f"cls_index_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf))
        src = TYPING + CLS + f"def validator(xs: List[{ty}], ys: List[{ty}]) -> bool:\n    return xs == ys\n"
        out.append(PR(f"cls_eq_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf))
        src = TYPING + CLS + f"def validator(xs: List[{ty}], y: {ty}) -> List[{ty}]:\n    xs += [y]\n    return [x for x in reversed(xs)]\n"
        out.append(PR(f"cls_rev_{n}", src, bounds=dict(list_len=2, bytes_len=1), configs=cf, expect="reject_or_agree"))
    src = TYPING + CLS + "def validator(i: int, b: bytes) -> List[Union[A, B]]:\n    r: List[Union[A, B]] = [A(i), B(i, b)]\n    return r + [A(i + 1)]\n"
    out.append(PR("cls_union_lit", src, bounds=dict(bytes_len=1), configs=cf, expect="reject_or_agree"))
    src = TYPING + CLS + "def validator(i: int, b: bytes) -> List[Union[A, B]]:\n    xs: List[Union[A, B]] = [A(i)]\n    ys: List[Union[A, B]] = [B(i, b)]\n    return xs + ys\n"
    out.append(PR("cls_union_add", src, bounds=dict(bytes_len=1), configs=cf, expect="reject_or_agree"))
    return out
