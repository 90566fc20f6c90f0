"""C18: evaluation order, short circuits and output."""
import textwrap
from .lib import TYPING
from .c05 import _dup
from .c08 import HEAD
from symx.tv import Template

PROPERTY = "C18"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs in which every operand, argument, element, condition, subscript and message position prints a distinct mark are compiled by "
    "/repo's compiler in this run at every optimisation level with tracing; z3 decides for all inputs within the bounds that the compiled "
    "script emits exactly the output CPython prints when it succeeds, that it fails exactly when CPython fails and returns the same value."
)
ASSUMPTIONS = [
    "when a program fails, the script's output begins with everything CPython prints before the failure; what OpShin adds after that (error names) is not constrained",
]

MARK = """
def ti(n: str, x: int) -> int:
    print(n)
    return x
def tb(n: str, x: bytes) -> bytes:
    print(n)
    return x
def ts(n: str, x: str) -> str:
    print(n)
    return x
def tp(n: str, x: bool) -> bool:
    print(n)
    return x
def tl(n: str, x: List[int]) -> List[int]:
    print(n)
    return x
def td(n: str, x: Dict[int, int]) -> Dict[int, int]:
    print(n)
    return x
def tu(n: str, x: Union[A, B]) -> Union[A, B]:
    print(n)
    return x
def fi(n: str, x: int) -> int:
    print(n)
    assert x != 7
    return x
def fb(n: str, x: bool, y: int) -> bool:
    print(n)
    assert y != 7
    return x
"""


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O0", "O1", "O2", "O3")

    def p(name, src, head="", **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=2, bytes_len=1, str_len=1, dict_len=1, ascii=True, int_range=(-3, 8))
        b.update(kw.pop("bounds", {}))
        kw.setdefault("trace_fail", True)
        kw.setdefault("max_paths", 4000 if th else 800)
        out.append(Template(name, TYPING + HEAD + MARK + head + textwrap.dedent(src).strip("\n") + "\n", bounds=b, trace=True, **kw))

    def e(name, ret, expr, params, pre="", **kw):
        body = textwrap.indent(textwrap.dedent(pre).strip("\n"), "    ") + "\n" if pre else ""
        p(name, f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n{body}    return {expr}\n", **kw)

    RJ = dict(expect="reject_or_agree")
    xy = dict(x="int", y="int")
    small = dict(bounds=dict(int_range=(-3, 4)))
    # operators
    for n, op in dict(add="+", sub="-", mul="*", fdiv="//", mod="%", pow="**").items():
        e(f"int_{n}", "int", f"fi('l', x) {op} fi('r', y)", xy, **small if n == "pow" else {})
        e(f"int_{n}_nest", "int", f"(fi('a', x) {op} fi('b', 3)) {op} (fi('c', 2) {op} fi('d', {3 if n == 'mod' else 1}))", dict(x="int"), **small if n == "pow" else {})
    for n, op in dict(eq="==", ne="!=", lt="<", le="<=", gt=">", ge=">=").items():
        e(f"cmp_{n}", "bool", f"fi('l', x) {op} fi('r', y)", xy)
        e(f"cmpb_{n}", "bool", f"tb('l', x) {op} tb('r', y)", dict(x="bytes", y="bytes"))
    e("cmp_list", "bool", "tl('l', x) == tl('r', y)", dict(x="List[int]", y="List[int]"), bounds=dict(list_len=1))
    e("cmp_cls", "bool", "tu('l', x) == tu('r', y)", dict(x="Union[A, B]", y="Union[A, B]"), **RJ)
    e("cmp_chain", "bool", "fi('a', x) < fi('b', y) < fi('c', 5)", xy, **RJ)
    e("cmp_chain_eq", "bool", "fi('a', x) == fi('b', y) <= fi('c', 2) != fi('d', x)", xy, **RJ)
    e("in_list", "bool", "fi('l', x) in tl('r', y)", dict(x="int", y="List[int]"))
    e("not_in_list", "bool", "fi('l', x) not in tl('r', y)", dict(x="int", y="List[int]"), **RJ)
    e("in_dict", "bool", "fi('l', x) in td('r', y)", dict(x="int", y="Dict[int, int]"), **RJ)
    e("in_keys", "bool", "fi('l', x) in td('r', y).keys()", dict(x="int", y="Dict[int, int]"), **RJ)
    e("bytes_add", "bytes", "tb('l', x) + tb('r', y)", dict(x="bytes", y="bytes"))
    e("bytes_mul", "bytes", "tb('l', x) * fi('r', y)", dict(x="bytes", y="int"), **small)
    e("mul_bytes", "bytes", "fi('l', y) * tb('r', x)", dict(x="bytes", y="int"), **small)
    e("str_add", "str", "ts('l', x) + ts('r', y)", dict(x="str", y="str"))
    e("str_mul", "str", "ts('l', x) * fi('r', y)", dict(x="str", y="int"), **RJ, **small)
    e("list_add", "List[int]", "tl('l', x) + tl('r', y)", dict(x="List[int]", y="List[int]"))
    e("unary", "int", "-fi('l', x) + -fi('r', y)", xy)
    e("not", "bool", "not fb('l', p, x)", dict(p="bool", x="int"))
    e("bitwise", "int", "fi('l', x) & fi('r', y)", xy, **RJ)
    e("is_none", "bool", "f('l') is None", dict(x="int"), pre="", head="def f(n: str) -> None:\n    print(n)\n", **RJ)
    # short circuit
    pq = dict(p="bool", q="bool", x="int")
    e("and", "bool", "fb('l', p, x) and fb('r', q, x + 1)", pq)
    e("or", "bool", "fb('l', p, x) or fb('r', q, x + 1)", pq)
    e("and3", "bool", "tp('a', p) and tp('b', q) and fb('c', p, x)", pq)
    e("or3", "bool", "tp('a', p) or tp('b', q) or fb('c', p, x)", pq)
    e("andor", "bool", "tp('a', p) and tp('b', q) or fb('c', p, x)", pq)
    e("orand", "bool", "tp('a', p) or tp('b', q) and fb('c', p, x)", pq)
    e("and_or_nested", "bool", "(tp('a', p) or tp('b', q)) and not (tp('c', q) and fb('d', p, x))", pq)
    e("and_div", "bool", "x != 0 and fi('r', 4 // x) > 1", dict(x="int"))
    e("or_div", "bool", "x == 0 or fi('r', 4 % x) > 1", dict(x="int"))
    e("ifexp", "int", "fi('t', x) if fb('c', p, y) else fi('e', y)", dict(x="int", y="int", p="bool"))
    e("ifexp_nest", "int", "(fi('t', x) if tp('d', p) else fi('u', y)) if tp('c', y > x) else fi('e', y)", dict(x="int", y="int", p="bool"))
    e("ifexp_div", "int", "4 // x if x != 0 else fi('e', 3)", dict(x="int"))
    e("and_isinst", "bool", "isinstance(tu('u', u), A) and tp('p', p)", dict(u="Union[A, B]", p="bool"), **RJ)
    e("and_isinst2", "bool", "isinstance(u, B) and fi('z', u.z) > 2", dict(u="Union[A, B]"))
    e("or_isinst", "bool", "isinstance(u, A) or fi('z', u.z) > 2", dict(u="Union[A, B]"))
    # calls
    F3 = "def f(a: int, b: int, c: int) -> int:\n    print('f')\n    return a + 10 * b + 100 * c\n"
    e("call", "int", "f(fi('a', x), fi('b', y), fi('c', 1))", xy, head=F3)
    e("call_kw", "int", "f(fi('a', x), b=fi('b', y), c=fi('c', 1))", xy, head=F3, **RJ)
    e("call_kw_swapped", "int", "f(c=fi('c', x), a=fi('a', y), b=fi('b', 2))", xy, head=F3, **RJ)
    e("call_kw_mixed", "int", "f(fi('a', x), c=fi('c', y), b=fi('b', 2))", xy, head=F3, **RJ)
    e("call_unused", "int", "g(fi('a', x), fi('b', y))", xy, head="def g(a: int, b: int) -> int:\n    return a\n")
    e("call_unused_all", "int", "g(fi('a', x), fi('b', y))", xy, head="def g(a: int, b: int) -> int:\n    return 3\n")
    e("call_nested", "int", "f(f(fi('a', x), 1, fi('b', y)), fi('c', 2), fi('d', 3))", xy, head=F3)
    e("call_before", "int", "fi('l', x) + f(fi('a', y), 1, 2)", xy, head=F3)
    e("cls", "A", "A(fi('a', x), tb('b', y))", dict(x="int", y="bytes"))
    e("cls_kw", "A", "A(y=tb('b', y), x=fi('a', x))", dict(x="int", y="bytes"), **RJ)
    e("cls_kw_mixed", "B", "B(tb('b', y), z=fi('z', x), x=fi('a', 2))", dict(x="int", y="bytes"), **RJ)
    e("cls_field", "int", "A(fi('a', x), tb('b', y)).x", dict(x="int", y="bytes"))
    e("cls_nested", "W", "W(A(fi('a', x), tb('b', y)), B(tb('c', y), fi('d', x), 1), [fi('e', x)])", dict(x="int", y="bytes"))
    e("attr", "int", "tu('u', u).x", dict(u="Union[A, B]"))
    e("attr_twice", "int", "tu('u', u).x + tu('v', u).x", dict(u="Union[A, B]"))
    e("cid", "int", "tu('u', u).CONSTR_ID", dict(u="Union[A, B]"))
    e("isinst", "bool", "isinstance(tu('u', u), A)", dict(u="Union[A, B]"))
    e("print_args", "None", "None", xy, pre="print(fi('a', x), fi('b', y))", **RJ)
    e("print_nested", "None", "None", xy, pre="print(f(fi('a', x), fi('b', y), 2))", head=F3)
    e("str_of", "str", "str(fi('a', x)) + str(fi('b', y))", xy)
    e("fstring", "str", "f\"{fi('a', x)}-{fi('b', y)}\"", xy)
    e("pow3", "int", "pow(fi('a', x), fi('b', y))", xy, **small)
    e("range", "int", "sum([i for i in range(fi('a', x), fi('b', y))])", xy, **RJ, **small)
    e("range3", "int", "sum([i for i in range(fi('a', x), fi('b', y), fi('c', 2))])", xy, **RJ, **small)
    e("len_", "int", "len(tl('l', x)) + len(tb('r', y))", dict(x="List[int]", y="bytes"))
    e("sum_", "int", "sum(tl('l', x))", dict(x="List[int]"))
    e("max_", "int", "max(tl('l', x)) - min(tl('r', x))", dict(x="List[int]"))
    e("abs_", "int", "abs(fi('l', x))", dict(x="int"))
    e("bool_", "bool", "bool(fi('l', x)) and bool(tl('r', [1]))", dict(x="int"))
    e("int_", "int", "int(tp('l', p)) + int(ts('r', '5'))", dict(p="bool"))
    e("chr_", "str", "chr(fi('l', 60 + x))", dict(x="int"))
    e("bytes_", "bytes", "bytes([fi('l', 60 + x), fi('r', 65)])", dict(x="int"))
    e("hex_", "str", "hex(fi('l', x))", dict(x="int"))
    e("all_", "bool", "all([fb('a', p, 1), fb('b', q, 1), fb('c', p, x)])", pq)
    e("any_", "bool", "any([fb('a', p, 1), fb('b', q, 1), fb('c', p, x)])", pq)
    e("enc", "bytes", "ts('l', s).encode() + tb('r', b)", dict(s="str", b="bytes"))
    e("get", "int", "td('d', d).get(fi('k', x), fi('v', y))", dict(d="Dict[int, int]", x="int", y="int"))
    e("get_found", "int", "d.get(fi('k', x), 0)", dict(d="Dict[int, int]", x="int"))
    e("keys", "int", "len(td('d', d).keys()) + len(td('e', d).values())", dict(d="Dict[int, int]"))
    e("index", "int", "tl('l', l).index(fi('i', x))", dict(l="List[int]", x="int"))
    e("join", "str", "ts('s', s).join([ts('a', 'x'), ts('b', s)])", dict(s="str"), **RJ)
    e("startswith", "bool", "ts('s', s).startswith(ts('a', s))", dict(s="str"), **RJ)
    # displays, subscripts, slices
    e("list", "List[int]", "[fi('a', x), fi('b', y), fi('c', 3)]", xy)
    e("list_nested", "List[List[int]]", "[[fi('a', x)], [fi('b', y), fi('c', 3)]]", xy)
    e("dict", "Dict[int, int]", "{fi('k1', x): fi('v1', y), fi('k2', x + 1): fi('v2', 3)}", xy)
    e("tuple", "int", "f((fi('a', x), fi('b', y)))", xy, head="def f(t: Tuple[int, int]) -> int:\n    return t[0] - t[1]\n")
    e("tuple_idx", "int", "(fi('a', x), fi('b', y))[1]", xy)
    e("tuple_assign", "int", "a - b", xy, pre="a, b = fi('a', x), fi('b', y)")
    e("sub", "int", "tl('l', l)[fi('i', x)]", dict(l="List[int]", x="int"))
    e("sub_neg", "int", "tl('l', l)[-1]", dict(l="List[int]"))
    e("sub_neg2", "int", "tl('l', l)[-2]", dict(l="List[int]"))
    e("sub_const", "int", "tl('l', l)[1]", dict(l="List[int]"))
    e("subb", "int", "tb('l', b)[fi('i', x)]", dict(b="bytes", x="int"))
    e("subb_neg", "int", "tb('l', b)[-1]", dict(b="bytes"))
    e("subb_const", "int", "tb('l', b)[0]", dict(b="bytes"))
    e("subd", "int", "td('d', d)[fi('k', x)]", dict(d="Dict[int, int]", x="int"))
    e("sub_lit", "int", "[fi('a', x), fi('b', y)][fi('i', 1)]", xy)
    for n, sl in dict(both="fi('a', x):fi('b', y)", low="fi('a', x):", up=":fi('b', y)", none=":", neg="-1:", neg2=":-1", const="1:2").items():
        e(f"slb_{n}", "bytes", f"tb('v', b)[{sl}]", dict(b="bytes", x="int", y="int"), bounds=dict(bytes_len=2, int_range=(-3, 3)))
        e(f"sll_{n}", "List[int]", f"tl('v', l)[{sl}]", dict(l="List[int]", x="int", y="int"), bounds=dict(int_range=(-3, 3)))
    # comprehensions
    e("lc", "List[int]", "[fi('e', a) for a in tl('l', l)]", dict(l="List[int]"))
    e("lc_if", "List[int]", "[fi('e', a) for a in tl('l', l) if tp('c', a > 2)]", dict(l="List[int]"))
    e("lc_range", "List[int]", "[fi('e', a) for a in range(ti('n', 3))]", dict(x="int"))
    e("lc_if2", "List[int]", "[fi('e', a) for a in l if tp('c', a > 2) if tp('d', a < 5)]", dict(l="List[int]"), **RJ)
    e("dc", "Dict[int, int]", "{fi('k', a): fi('v', a + 1) for a in tl('l', l)}", dict(l="List[int]"), bounds=dict(list_len=2), exclude=(("dictcomp-duplicates", lambda l, *r: _dup(l)),))
    e("dc_if", "Dict[int, int]", "{fi('k', a): fi('v', a + 1) for a in tl('l', l) if tp('c', a > 2)}", dict(l="List[int]"), bounds=dict(list_len=1))
    e("lc_nested", "List[List[int]]", "[[fi('e', a + b) for b in tl('m', l)] for a in tl('l', l)]", dict(l="List[int]"))
    # statements
    p("for_iter", "def validator(l: List[int]) -> int:\n    s = 0\n    for a in tl('l', l):\n        s += fi('b', a)\n        print('end')\n    return ti('r', s)\n")
    p("for_range", "def validator(x: int) -> int:\n    s = 0\n    for a in range(ti('n', 2)):\n        s += fi('b', a + x)\n    return ti('r', s)\n")
    p("while_cond", "def validator(x: int) -> int:\n    s = 0\n    while tp('c', s < 3):\n        s += fi('b', 1)\n    print('done')\n    return s + x\n")
    p("while_and", "def validator(x: int) -> int:\n    s = 0\n    while tp('c', s < 3) and tp('d', x > s):\n        s += 1\n    return s\n")
    p("if_chain", "def validator(x: int) -> int:\n    if tp('a', x > 3):\n        print('1')\n    elif tp('b', x > 1):\n        print('2')\n    elif tp('c', x > 0):\n        print('3')\n    else:\n        print('4')\n    print('end')\n    return x\n")
    p("if_return", "def validator(x: int) -> int:\n    if tp('a', x > 3):\n        return fi('b', x)\n    print('end')\n    return ti('c', x)\n")
    p("loop_return", "def validator(l: List[int]) -> int:\n    for a in l:\n        print('i')\n        if tp('c', a > 3):\n            return ti('r', a)\n    print('end')\n    return 0\n")
    p("assert_", "def validator(x: int) -> int:\n    assert tp('c', x > 0), 'm'\n    print('after')\n    return x\n")
    p("assert_msg", "def validator(x: int) -> int:\n    assert tp('c', x > 0), ts('msg', 'm')\n    print('after')\n    return x\n", **RJ)
    p("assert_and", "def validator(x: int, p: bool) -> int:\n    assert tp('c', x > 0) and tp('d', p), 'm'\n    print('after')\n    return x\n")
    p("aug", "def validator(x: int, y: int) -> int:\n    s = fi('a', x)\n    s += fi('b', y)\n    s *= fi('c', 2)\n    s -= fi('d', s)\n    return s\n")
    p("aug_self", "def validator(x: int, y: int) -> int:\n    s = x\n    s -= fi('b', s - y) + fi('c', s)\n    return s\n")
    p("unused_assign", "def validator(x: int, y: int) -> int:\n    a = fi('a', x)\n    b = fi('b', y)\n    return y\n")
    p("unused_reassign", "def validator(x: int, y: int) -> int:\n    a = fi('a', x)\n    a = fi('b', y)\n    return a\n")
    p("unused_tuple", "def validator(x: int, y: int) -> int:\n    a, b = fi('a', x), fi('b', y)\n    return b\n")
    p("expr_stmt", "def validator(x: int, y: int) -> int:\n    fi('a', x)\n    fi('b', y) + 1\n    [fi('c', 1)]\n    return y\n")
    p("expr_stmt_bool", "def validator(x: int, p: bool) -> int:\n    tp('a', p) and fb('b', p, x)\n    tp('c', p) or fb('d', p, x)\n    return x\n")
    p("expr_ifexp", "def validator(x: int, p: bool) -> int:\n    print('y') if p else print('n')\n    return x\n", **RJ)
    p("ann_assign", "def validator(x: int, y: int) -> int:\n    a: int = fi('a', x)\n    b: Anything = fi('b', y)\n    return a\n")
    p("module_level", "C = ti('mod', 3)\nD = [ti('l', 1), ti('m', 2)]\ndef validator(x: int) -> int:\n    print('v')\n    return C + x + len(D)\n", **RJ)
    p("module_print", "print('first')\nC = 3\nprint('second')\ndef validator(x: int) -> int:\n    print('v')\n    return C + x\n", **RJ)
    p("module_unused", "C = ti('mod', 3)\ndef validator(x: int) -> int:\n    print('v')\n    return x\n", **RJ)
    p("nested_fn", "def validator(x: int) -> int:\n    print('a')\n    def g(y: int) -> int:\n        print('g')\n        return y + x\n    print('b')\n    z = g(fi('c', x))\n    print('d')\n    return g(z)\n")
    p("closure_late", "def validator(x: int) -> int:\n    y = fi('a', x)\n    def g(z: int) -> int:\n        return z + ti('y', y)\n    y = fi('b', 2)\n    return g(fi('c', 1))\n")
    p("recursion", "def f(n: int) -> int:\n    print('f')\n    return 0 if n <= 0 else f(n - 1) + ti('r', n)\ndef validator(x: int) -> int:\n    return f(2) + x\n")
    p("method", "@dataclass(unsafe_hash=True)\nclass M(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    def add(self, a: int, b: int) -> int:\n        print('add')\n        return self.v + a - b\ndef tm(n: str, m: M) -> M:\n    print(n)\n    return m\ndef validator(x: int, y: int) -> int:\n    m = M(fi('m', x))\n    return tm('s', m).add(fi('a', y), fi('b', 2))\n")
    p("dunder", "@dataclass(unsafe_hash=True)\nclass M(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    def __add__(self, o: int) -> int:\n        print('add')\n        return self.v + o\ndef tm(n: str, m: M) -> M:\n    print(n)\n    return m\ndef validator(x: int, y: int) -> int:\n    return tm('l', M(x)) + fi('r', y)\n", **RJ)
    p("dunder_lt", "from typing import Self\n@dataclass(unsafe_hash=True)\nclass M(PlutusData):\n    CONSTR_ID = 0\n    v: int\n    def __lt__(self, o: 'M') -> bool:\n        print('lt')\n        return self.v < o.v\ndef tm(n: str, m: M) -> M:\n    print(n)\n    return m\ndef validator(x: int, y: int) -> bool:\n    return tm('l', M(x)) < tm('r', M(y))\n".replace("'M'", "Self"), **RJ)
    p("prints", "def validator(x: int, s: str) -> None:\n    print()\n    print('')\n    print(s)\n    print(x, s)\n    print(x, x, x)\n    print('a' + s)\n", **RJ)
    p("print_types", "def validator(x: int, b: bytes, p: bool, a: A, l: List[int]) -> None:\n    print(x)\n    print(p)\n    print(l)\n    print(b)\n    print(a.x)\n", bounds=dict(list_len=1, bytes_len=1, int_range=(0, 3)), **RJ)
    p("print_cond", "def validator(x: int) -> None:\n    if x > 2:\n        print('big')\n    else:\n        print('small')\n    print(x)\n")
    p("print_loop", "def validator(x: int) -> None:\n    for i in range(3):\n        if i != x:\n            print(i)\n")
    return out
