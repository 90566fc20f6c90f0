"""C08: data classes, unions, isinstance."""
import textwrap
from .lib import TYPING
from symx.tv import Template

PROPERTY = "C08"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs over PlutusData classes, unions (of classes and of int/bytes/str/list/dict/None), isinstance narrowing, attribute access, "
    "construction, equality and casts are compiled by /repo's compiler in this run; z3 decides agreement with symbolic CPython for "
    "every member of each union and every field value within the bounds."
)
ASSUMPTIONS = ["inputs are well-formed values of the declared types (the decoding of ill-formed data is C11's subject)"]

HEAD = """from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
    y: bytes
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    x: int
    z: int
@dataclass(unsafe_hash=True)
class C(PlutusData):
    CONSTR_ID = 4
    z: int
    x: int
@dataclass(unsafe_hash=True)
class N(PlutusData):
    CONSTR_ID = 7
@dataclass(unsafe_hash=True)
class BIG(PlutusData):
    CONSTR_ID = 1000
    x: int
@dataclass(unsafe_hash=True)
class W(PlutusData):
    CONSTR_ID = 2
    a: A
    u: Union[A, B]
    l: List[int]
@dataclass(unsafe_hash=True)
class D1(PlutusData):
    CONSTR_ID = 3
    d: Dict[int, bytes]
    o: Union[A, N]
@dataclass(unsafe_hash=True)
class S1(PlutusData):
    CONSTR_ID = 5
    s: bytes
    p: bool
    t: List[A]
"""


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3", "O1+eut", "O1+fas2") if th else ("O1", "O2", "O2+eut")

    def p(name, src, head="", **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=2 if th else 1, bytes_len=1, str_len=1, dict_len=1, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 5000 if th else 1500)
        out.append(Template(name, TYPING + HEAD + head + textwrap.dedent(src).strip("\n") + "\n", bounds=b, **kw))

    def e(name, ret, expr, params, pre="", **kw):
        body = textwrap.indent(textwrap.dedent(pre).strip("\n"), "    ") + "\n" if pre else ""
        p(name, f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n{body}    return {expr}\n", **kw)

    RJ = dict(expect="reject_or_agree")
    # construction and access
    for c, n in (("A(x, b)", "A"), ("B(b, x, x + 1)", "B"), ("C(x, 3)", "C"), ("N()", "N"), ("BIG(x)", "BIG")):
        e(f"mk_{n}", n, c, dict(x="int", b="bytes"))
    e("mk_kw", "B", "B(z=x, y=b, x=1)", dict(x="int", b="bytes"), **RJ)
    e("mk_kw_mixed", "B", "B(b, z=x, x=1)", dict(x="int", b="bytes"), **RJ)
    e("mk_W", "W", "W(A(x, b), B(b, x, 1), [x, 2])", dict(x="int", b="bytes"))
    e("mk_W2", "W", "W(a, a, [a.x])", dict(a="A"))
    e("mk_W3", "W", "W(a, u, l)", dict(a="A", u="Union[A, B]", l="List[int]"))
    e("mk_D", "D1", "D1({x: b}, N())", dict(x="int", b="bytes"))
    e("mk_D2", "D1", "D1({}, a)", dict(a="A"), **RJ)
    e("mk_S", "S1", "S1(s, p, [A(1, b)])", dict(s="bytes", p="bool", b="bytes"))
    e("mk_S_empty", "S1", "S1(s, not p, [])", dict(s="bytes", p="bool"), **RJ)
    for f, t in (("x", "int"), ("y", "bytes"), ("z", "int")):
        e(f"get_B_{f}", t, f"v.{f}", dict(v="B"))
    e("get_A", "int", "a.x + len(a.y)", dict(a="A"))
    e("get_C", "int", "v.x * 10 + v.z", dict(v="C"))
    e("get_W", "int", "w.a.x + len(w.a.y) * 2 + len(w.l)", dict(w="W"))
    e("get_W_u", "int", "w.u.x", dict(w="W"))
    e("get_W_u_y", "bytes", "w.u.y", dict(w="W"))
    e("get_W_l", "int", "w.l[0]", dict(w="W"))
    e("get_D_d", "bytes", "v.d[k]", dict(v="D1", k="int"))
    e("get_S_s", "bytes", "v.s + b'!'", dict(v="S1"))
    e("get_S_p", "bool", "not v.p", dict(v="S1"))
    e("get_S_t", "int", "v.t[0].x", dict(v="S1"))
    e("get_S_len", "int", "len(v.t) + len(v.s)", dict(v="S1"))
    e("get_lit", "int", "A(x, b'a').x - B(b'', x + 1, 3).x", dict(x="int"))
    e("ret_W", "W", "w", dict(w="W"))
    e("ret_list", "List[A]", "[A(x, b''), a]", dict(a="A", x="int"))
    for k in "ABC":
        e(f"cid_{k}", "int", "v.CONSTR_ID", dict(v=k))
        e(f"cidc_{k}", "int", f"v.CONSTR_ID + {k}.CONSTR_ID * 10", dict(v=k), **RJ)
    e("cid_N", "int", "N().CONSTR_ID + BIG(x).CONSTR_ID", dict(x="int"))
    e("cid_U", "int", "u.CONSTR_ID", dict(u="Union[A, B, C]"))
    e("cid_W", "int", "w.u.CONSTR_ID", dict(w="W"))
    # unions whose members keep the common field at different positions
    import itertools

    def members(layouts, tags):
        return "".join(
            f"@dataclass(unsafe_hash=True)\nclass G{i}(PlutusData):\n    CONSTR_ID = {t}\n" + "".join(f"    {'v' if j == pos else f'p{j}'}: int\n" for j in range(n))
            for i, ((n, pos), t) in enumerate(zip(layouts, tags))
        )

    fams = [
        ([(1, 0), (1, 0), (2, 1), (2, 1), (2, 1)], [0, 1, 2, 3, 4]),
        ([(3, 2), (1, 0), (3, 2), (2, 1), (3, 2), (1, 0)], [6, 7, 8, 127, 128, 200]),
        ([(2, 0), (3, 1), (2, 0), (3, 1), (3, 2), (3, 2)], [5, 4, 3, 2, 1, 0]),
    ]
    for _ in range(8 if th else 2):
        k = rng.randint(3, 7)
        ls = []
        for _ in range(k):
            n = rng.randint(1, 4)
            ls.append((n, rng.randrange(n)))
        fams.append((ls, rng.sample(range(0, 140), k)))
    for fi, (ls, tags) in enumerate(fams):
        names = [f"G{i}" for i in range(len(ls))]
        un = f"Union[{', '.join(names)}]"
        e(f"pos_{fi}", "int", "u.v", dict(u=un), head=members(ls, tags))
        e(f"pos_cid_{fi}", "int", "u.CONSTR_ID", dict(u=un), head=members(ls, tags))
        half = names[: len(names) // 2]
        cond = " or ".join(f"isinstance(u, {n})" for n in half)
        e(f"pos_or_{fi}", "int", f"u.v * 2 if {cond} else u.v", dict(u=un), head=members(ls, tags))
        chain = "".join(f"    if isinstance(u, {n}):\n        return u.v * 10 + {i}\n" for i, n in enumerate(names[:-1]))
        p(f"pos_chain_{fi}", f"def validator(u: {un}) -> int:\n{chain}    return u.v\n", head=members(ls, tags))
        p(f"pos_not_{fi}", f"def validator(u: {un}, x: int) -> int:\n    if not isinstance(u, {names[0]}) and u.v > x:\n        return u.v\n    return x\n", head=members(ls, tags))
    # unions
    U = dict(u="Union[A, B, C]")
    e("u_common", "int", "u.x", U)
    e("u_common2", "bytes", "u.y", dict(u="Union[A, B]"))
    e("u_common_z", "int", "u.z", dict(u="Union[B, C]"))
    e("u_order", "int", "u.z * 10 + u.x", dict(u="Union[C, B]"))
    e("u_missing", "int", "u.z", dict(u="Union[A, B]"), **RJ)
    p("u_isinst", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, A):
        return 1
    elif isinstance(u, B):
        return 2
    return 3
""")
    p("u_isinst_fields", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, B):
        return u.z + 2 * len(u.y)
    elif isinstance(u, C):
        return u.z * 3 + u.x
    else:
        return u.x + len(u.y) * 100
""")
    p("u_isinst_not", """
def validator(u: Union[A, B]) -> int:
    if not isinstance(u, A):
        return u.z
    return len(u.y) * 10 + u.x
""")
    p("u_isinst_and", """
def validator(u: Union[A, B], v: Union[A, B]) -> int:
    if isinstance(u, A) and isinstance(v, B):
        return u.x * 10 + v.z
    return 0
""")
    p("u_isinst_and_use", """
def validator(u: Union[A, B]) -> int:
    if isinstance(u, B) and u.z > 3:
        return u.z
    return u.x
""")
    p("u_isinst_or_use", """
def validator(u: Union[A, B]) -> int:
    if isinstance(u, A) or u.z > 3:
        return u.x
    return u.z
""")
    p("u_isinst_or", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, A) or isinstance(u, C):
        return u.x
    return u.z
""")
    p("u_isinst_not_or", """
def validator(u: Union[A, B, C]) -> int:
    if not (isinstance(u, A) or isinstance(u, B)):
        return u.z
    return len(u.y)
""", **RJ)
    p("u_isinst_ifexp", """
def validator(u: Union[A, B]) -> int:
    return u.z if isinstance(u, B) else u.x * 100
""")
    p("u_isinst_bool", """
def validator(u: Union[A, B], v: Union[A, B, C]) -> bool:
    return isinstance(u, A) == isinstance(v, C)
""")
    p("u_assert", """
def validator(u: Union[A, B]) -> int:
    assert isinstance(u, B), 'no'
    return u.z
""")
    p("u_assert_not", """
def validator(u: Union[A, B]) -> int:
    assert not isinstance(u, B)
    return u.x + len(u.y)
""")
    p("u_while", """
def validator(u: Union[A, B], x: int) -> int:
    s = 0
    while isinstance(u, B) and s < 2:
        s += 1
        x += u.z
    return x
""")
    p("u_early_return", """
def validator(u: Union[A, B]) -> int:
    if isinstance(u, A):
        return u.x
    return u.z
""")
    p("u_early_fail", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, A):
        assert False
    elif isinstance(u, C):
        return u.z - u.x
    else:
        pass
    return u.z
""", **RJ)
    p("u_tuple_isinst", """
def validator(u: Union[A, B, C]) -> bool:
    return isinstance(u, (A, B))
""", **RJ)
    p("u_tuple_isinst_use", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, (A, B)):
        return len(u.y)
    return u.z
""", **RJ)
    p("u_list", """
def validator(us: List[Union[A, B]]) -> int:
    s = 0
    for u in us:
        if isinstance(u, A):
            s = s * 2 + u.x
        else:
            s = s * 2 + u.z * 100
    return s
""", bounds=dict(list_len=2))
    p("u_comp", """
def validator(us: List[Union[A, B]]) -> List[int]:
    return [u.x if isinstance(u, A) else u.z for u in us]
""", bounds=dict(list_len=2))
    p("u_comp_if", """
def validator(us: List[Union[A, B]]) -> List[int]:
    return [u.x for u in us if isinstance(u, B)]
""", bounds=dict(list_len=2), **RJ)
    p("u_any_comp", """
def validator(us: List[Union[A, B]], x: int) -> bool:
    return any([isinstance(u, B) and u.z == x for u in us])
""", bounds=dict(list_len=2), **RJ)
    p("u_reassign", """
def validator(u: Union[A, B], x: int) -> int:
    if isinstance(u, A):
        u = B(b'', u.x, 1)
    return u.x
""", **RJ)
    p("u_reassign_in_branch_then_use", """
def validator(u: Union[A, B], v: Union[A, B]) -> int:
    if isinstance(u, A):
        u = v
    return u.x
""", **RJ)
    p("u_narrow_cast", """
def validator(u: Union[A, B]) -> int:
    if isinstance(u, A):
        a: A = u
    else:
        a = A(u.z, b'')
    return a.x
""", **RJ)
    p("u_widen", """
def f(u: Union[A, B, C]) -> int:
    return u.x
def validator(v: Union[A, B], c: C) -> int:
    return f(v) * 10 + f(c)
""")
    p("u_fn_ret", """
def f(x: int) -> Union[A, B]:
    if x > 0:
        return A(x, b'')
    return B(b'', x, 5)
def validator(x: int) -> int:
    r = f(x)
    if isinstance(r, B):
        return r.z
    return r.x
""")
    p("u_ifexp_mix", """
def validator(x: int) -> int:
    r = A(x, b'') if x > 0 else B(b'', 7, x)
    return r.x
""", **RJ)
    p("u_ann_mix", """
def validator(x: int) -> int:
    r: Union[A, B] = A(x, b'')
    if x > 5:
        r = B(b'', 7, x)
    return r.x
""", **RJ)
    p("u_big_id", """
def validator(u: Union[BIG, N, A]) -> int:
    if isinstance(u, BIG):
        return u.x
    elif isinstance(u, N):
        return -1
    return u.x * 2
""")
    p("u_opt", """
def validator(d: D1) -> int:
    o = d.o
    if isinstance(o, N):
        return 0
    return o.x
""")
    p("u_opt_attr", """
def validator(d: D1) -> int:
    if isinstance(d.o, N):
        return 0
    return 1
""", **RJ)
    p("u_nested_attr", """
def validator(w: W) -> int:
    u = w.u
    if isinstance(u, A):
        return u.x
    return u.z
""")
    # primitive unions
    PU = "Union[int, bytes, str, List[int], A, B]"
    p("pu_int_bytes", """
def validator(u: Union[int, bytes]) -> int:
    if isinstance(u, int):
        return u + 1
    return len(u) * 100
""")
    p("pu_bytes_int_else", """
def validator(u: Union[int, bytes]) -> int:
    if isinstance(u, bytes):
        return len(u)
    else:
        return u - 1
""")
    p("pu_ret", """
def validator(u: Union[int, bytes]) -> Union[int, bytes]:
    if isinstance(u, int):
        return u + 1
    return u + b'x'
""")
    p("pu_ret_swap", """
def validator(u: Union[int, bytes]) -> Union[int, bytes]:
    if isinstance(u, int):
        return b'a'
    return 5
""")
    p("pu_mixed", """
def validator(u: Union[int, bytes, A, B]) -> int:
    if isinstance(u, int):
        return u
    elif isinstance(u, bytes):
        return len(u) + 10
    elif isinstance(u, A):
        return u.x * 2
    return u.z * 3
""")
    p("pu_mixed_rev", """
def validator(u: Union[int, bytes, A, B]) -> int:
    if isinstance(u, B):
        return u.z
    elif isinstance(u, A):
        return u.x * 2
    elif isinstance(u, bytes):
        return len(u) + 10
    return u * 3
""")
    p("pu_list_dict", """
def validator(u: Union[List[int], Dict[int, int], int]) -> int:
    if isinstance(u, list):
        return len(u)
    elif isinstance(u, dict):
        return 10 + len(u)
    return u
""", **RJ)
    p("pu_list_ann", """
def validator(u: Union[List[Anything], Dict[Anything, Anything], int]) -> int:
    if isinstance(u, list):
        return len(u)
    elif isinstance(u, dict):
        return 10 + len(u)
    return u
""", **RJ)
    p("pu_list_typed", """
def validator(u: Union[List[int], int]) -> int:
    if isinstance(u, List):
        return sum(u)
    return u
""", **RJ)
    p("pu_bool", """
def validator(u: Union[bool, bytes]) -> int:
    if isinstance(u, bool):
        return 1 if u else 0
    return 5
""", **RJ)
    p("pu_str", """
def validator(u: Union[int, str]) -> int:
    if isinstance(u, str):
        return len(u) + 100
    return u
""", **RJ)
    p("pu_not", """
def validator(u: Union[int, bytes]) -> int:
    if not isinstance(u, int):
        return len(u)
    return u * 7
""")
    p("pu_and", """
def validator(u: Union[int, bytes], v: Union[int, bytes]) -> int:
    if isinstance(u, int) and isinstance(v, int):
        return u - v
    if isinstance(u, bytes) and isinstance(v, bytes):
        return len(u + v)
    return -1
""")
    p("pu_assert", """
def validator(u: Union[int, bytes]) -> int:
    assert isinstance(u, int)
    return u * 2
""")
    p("pu_list_of", """
def validator(us: List[Union[int, bytes]]) -> int:
    s = 0
    for u in us:
        if isinstance(u, int):
            s += u
        else:
            s += len(u) * 10
    return s
""", bounds=dict(list_len=2))
    p("pu_dict_of", """
def validator(d: Dict[int, Union[int, bytes]], k: int) -> int:
    u = d[k]
    return u if isinstance(u, int) else len(u)
""")
    p("pu_call", """
def f(u: Union[int, bytes]) -> Union[int, bytes]:
    return u
def validator(x: int, b: bytes) -> int:
    r = f(b)
    s = f(x)
    t = 0
    if isinstance(r, bytes):
        t += len(r)
    if isinstance(s, int):
        t += s
    return t
""")
    p("pu_in_class", """
@dataclass(unsafe_hash=True)
class Q(PlutusData):
    CONSTR_ID = 9
    u: Union[int, bytes]
def validator(q: Q, x: int) -> int:
    u = q.u
    if isinstance(u, int):
        return u
    r = Q(x).u
    return r if isinstance(r, int) else 0
""")
    p("pu_eq", """
def validator(u: Union[int, bytes], v: Union[int, bytes]) -> bool:
    return u == v
""", **RJ)
    p("pu_assign_join", """
def validator(x: int) -> int:
    r: Union[int, bytes] = x
    if x > 3:
        r = b'abc'
    if isinstance(r, bytes):
        return len(r)
    return r
""", **RJ)
    p("pu_cond_ret", """
def validator(x: int, b: bytes) -> Union[int, bytes]:
    return x if x > 0 else b
""", **RJ)
    p("opt_none", """
def validator(u: Union[A, None], x: int) -> int:
    if u is None:
        return x
    return u.x
""", **RJ)
    p("isinst_known", """
def validator(a: A) -> int:
    if isinstance(a, A):
        return a.x
    return 5
""", **RJ)
    p("isinst_int", """
def validator(x: int) -> int:
    if isinstance(x, int):
        return x
    return 5
""", **RJ)
    p("isinst_bool_int", """
def validator(x: bool) -> int:
    if isinstance(x, int):
        return 3
    return 5
""", **RJ)
    p("isinst_wrong", """
def validator(a: A) -> int:
    if isinstance(a, B):
        return a.z
    return 5
""", **RJ)
    # equality
    e("eq_A", "bool", "a == b", dict(a="A", b="A"))
    e("ne_A", "bool", "a != b", dict(a="A", b="A"))
    e("eq_A_lit", "bool", "a == A(3, b'a')", dict(a="A"))
    e("eq_U", "bool", "u == v", dict(u="Union[A, B]", v="Union[A, B]"))
    e("eq_U_member", "bool", "u == a", dict(u="Union[A, B]", a="A"), **RJ)
    e("eq_cross", "bool", "a == b", dict(a="A", b="B"), **RJ)
    e("eq_W", "bool", "w == v", dict(w="W", v="W"), max_paths=600)
    e("in_list_A", "bool", "a in l", dict(a="A", l="List[A]"), bounds=dict(list_len=2))
    e("idx_A", "int", "l.index(a)", dict(a="A", l="List[A]"), bounds=dict(list_len=2))
    e("in_U", "bool", "u in l", dict(u="Union[A, B]", l="List[Union[A, B]]"), **RJ)
    e("list_eq_A", "bool", "l == [a]", dict(a="A", l="List[A]"), **RJ)
    # casts through Anything
    p("any_cast", """
def validator(a: A) -> int:
    d: Anything = a
    b: A = d
    return b.x + len(b.y)
""")
    p("any_cast_fn", """
def f(d: Anything) -> int:
    a: A = d
    return a.x
def validator(a: A) -> int:
    return f(a)
""")
    p("any_eq", """
def validator(a: Anything, b: Anything) -> bool:
    return a == b
""", bounds=dict(any_depth=1, any_width=1), **RJ)
    p("any_ret", """
def validator(a: Anything) -> Anything:
    return a
""")
    p("any_to_int", """
def f(d: Anything) -> int:
    n: int = d
    return n + 1
def validator(x: int) -> int:
    return f(x)
""", **RJ)
    p("any_to_list", """
def f(d: Anything) -> int:
    n: List[int] = d
    return len(n)
def validator(x: List[int]) -> int:
    return f(x)
""", **RJ)
    p("any_isinst2", """
def f(d: Anything) -> int:
    if isinstance(d, int):
        return d
    elif isinstance(d, bytes):
        return len(d)
    return -1
def validator(x: int, b: bytes, a: A) -> int:
    return f(x) + 10 * f(b) + 100 * f(a)
""", configs=("O1+any", "O2+any"), **RJ)
    p("any_isinst_U", """
def f(d: Anything) -> int:
    if isinstance(d, A):
        return 1
    elif isinstance(d, B):
        return 2
    return 3
def validator(u: Union[A, B, C]) -> int:
    return f(u)
""", configs=("O1+any", "O2+any"), **RJ)
    p("any_field_mk", """
@dataclass(unsafe_hash=True)
class H(PlutusData):
    CONSTR_ID = 6
    d: Anything
    n: int
def validator(a: A, u: Union[A, B], x: int) -> List[H]:
    return [H(a, x), H(u, 1), H(x, 2), H(b'', 3), H([x], 4)]
""", **RJ)
    # inference of constructor ids
    p("auto_id", """
@dataclass(unsafe_hash=True)
class Z(PlutusData):
    x: int
def validator(z: int) -> Z:
    return Z(z)
""", **RJ)
    p("inherit", """
@dataclass(unsafe_hash=True)
class A2(A):
    w: int
def validator(z: int) -> int:
    return A2(z, b'', 3).w
""", **RJ)
    p("default_field", """
@dataclass(unsafe_hash=True)
class Z(PlutusData):
    CONSTR_ID = 0
    x: int
    y: int = 4
def validator(z: int) -> int:
    return Z(z).y
""", **RJ)
    p("same_fields_diff_id", """
@dataclass(unsafe_hash=True)
class P1(PlutusData):
    CONSTR_ID = 10
    x: int
@dataclass(unsafe_hash=True)
class P2(PlutusData):
    CONSTR_ID = 11
    x: int
def validator(u: Union[P1, P2]) -> int:
    r = u.x
    if isinstance(u, P2):
        r += 100
    return r + u.CONSTR_ID * 1000
""")
    p("same_id", """
@dataclass(unsafe_hash=True)
class P1(PlutusData):
    CONSTR_ID = 10
    x: int
@dataclass(unsafe_hash=True)
class P2(PlutusData):
    CONSTR_ID = 10
    x: int
    y: int
def validator(u: Union[P1, P2]) -> int:
    if isinstance(u, P2):
        return u.y
    return u.x
""", **RJ)
    p("mutate_field", """
def validator(a: A, x: int) -> int:
    a.x = x
    return a.x
""", **RJ)
    p("class_in_dict", """
def validator(d: Dict[A, int], a: A) -> int:
    return d[a]
""")
    p("recursive_update", """
def validator(w: W, x: int) -> W:
    return W(A(x, w.a.y), w.u, w.l + [x])
""")
    p("long_class", """
@dataclass(unsafe_hash=True)
class LG(PlutusData):
    CONSTR_ID = 0
    a: int
    b: int
    c: int
    d: int
    e: int
    f: int
    g: bytes
    h: int
    i: int
def validator(l: LG) -> int:
    return l.a + 2 * l.b + 4 * l.c + 8 * l.d + 16 * l.e + 32 * l.f + 64 * len(l.g) + 128 * l.h + 256 * l.i
""", configs=("O1", "O2", "O1+fas", "O1+fas2"))
    p("u_long", """
@dataclass(unsafe_hash=True)
class L1(PlutusData):
    CONSTR_ID = 0
    a: int
    b: int
    c: int
    k: int
@dataclass(unsafe_hash=True)
class L2(PlutusData):
    CONSTR_ID = 1
    k: int
    z: bytes
@dataclass(unsafe_hash=True)
class L3(PlutusData):
    CONSTR_ID = 2
    q: int
    k: int
@dataclass(unsafe_hash=True)
class L4(PlutusData):
    CONSTR_ID = 3
    q: int
    k: int
    r: int
def validator(u: Union[L1, L2, L3, L4]) -> int:
    return u.k
""", configs=("O1", "O2", "O1+fas2", "O2+eut"))
    p("u_many_isinst", """
def validator(u: Union[A, B, C, N, BIG]) -> int:
    r = 0
    if isinstance(u, A):
        r += 1
    if isinstance(u, B):
        r += 2
    if isinstance(u, C):
        r += 4
    if isinstance(u, N):
        r += 8
    if isinstance(u, BIG):
        r += 16
    if not isinstance(u, N):
        r += 32
    return r
""", **RJ)
    p("u_three_narrow", """
def validator(u: Union[A, B, C]) -> int:
    if isinstance(u, A):
        return 1
    else:
        if isinstance(u, B):
            return u.z
        else:
            return u.z * 100 + u.x
""")
    p("u_not_and", """
def validator(u: Union[A, B, C]) -> int:
    if not isinstance(u, A) and not isinstance(u, B):
        return u.z + u.x
    return u.x + len(u.y)
""")
    p("u_and_or_mix", """
def validator(u: Union[A, B, C], x: int) -> int:
    if (isinstance(u, B) or isinstance(u, C)) and x > 0:
        return u.z
    return u.x
""")
    p("u_not_not", """
def validator(u: Union[A, B]) -> int:
    if not (not isinstance(u, B)):
        return u.z
    return len(u.y)
""", **RJ)
    p("u_not_and_neg", """
def validator(u: Union[A, B], x: int) -> int:
    if not (isinstance(u, A) and x > 0):
        return u.x
    return len(u.y) + u.x * 10
""")
    p("u_fn_isinst", """
def is_b(u: Union[A, B]) -> bool:
    return isinstance(u, B)
def validator(u: Union[A, B]) -> int:
    return u.x if is_b(u) else 5
""")
    p("u_double_narrow_two_vars", """
def validator(u: Union[A, B], v: Union[A, C]) -> int:
    if isinstance(u, B) and isinstance(v, C):
        return u.z - v.z
    elif isinstance(u, B):
        return u.z
    elif isinstance(v, C):
        return v.z * 2
    return u.x + v.x
""", **RJ)
    return out
