"""C21: on-chain serialisation."""
import textwrap
from .lib import TYPING
from .c08 import HEAD
from symx.tv import Template

PROPERTY = "C21"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs serialising values (to_cbor, serialise_data, datum hashes) are compiled by /repo's compiler in this run; z3 decides for all "
    "inputs within the bounds that the bytes the script computes are the off-chain CBOR bytes of the same value. The bytes of the data an "
    "evaluator serialises and of the data pycardano serialises are one symbolic encoder (symx/cborsym.py: header widths, definite and "
    "indefinite forms, bignums, general constructor form); every explored path is replayed once against the real pycardano and uplc."
)
ASSUMPTIONS = [
    "pycardano and the evaluator write CBOR as symx/cborsym.py does (cross-checked on a concrete value of every path)",
    "byte strings of at most 63 bytes and integers of at most 12 bytes; integers within 2 of the 64 bit limit are left out (the two libraries differ there)",
    "fields have types with an off-chain ledger form (pycardano rejects str fields and writes bool and None as CBOR simple values)",
]

CL = """
@dataclass(unsafe_hash=True)
class P(PlutusData):
    CONSTR_ID = 3
    c: List[bytes]
    d: Dict[int, bytes]
@dataclass(unsafe_hash=True)
class E0(PlutusData):
    CONSTR_ID = 0
@dataclass(unsafe_hash=True)
class K6(PlutusData):
    CONSTR_ID = 6
    x: int
@dataclass(unsafe_hash=True)
class K127(PlutusData):
    CONSTR_ID = 127
    x: int
@dataclass(unsafe_hash=True)
class K128(PlutusData):
    CONSTR_ID = 128
    x: int
@dataclass(unsafe_hash=True)
class X(PlutusData):
    CONSTR_ID = 1
    u: Union[int, bytes]
    v: Union[A, List[Anything], bytes]
@dataclass(unsafe_hash=True)
class LA(PlutusData):
    CONSTR_ID = 5
    l: List[A]
    m: Dict[bytes, A]
@dataclass(unsafe_hash=True)
class ME(PlutusData):
    CONSTR_ID = 8
    x: int
    def ser(self) -> bytes:
        return self.to_cbor()
    def moved(self, d: int) -> bytes:
        return ME(self.x + d).to_cbor()
"""


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2", "O3")

    def p(name, src, **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=2, bytes_len=2, str_len=1, dict_len=1, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 4000 if th else 900)
        out.append(Template(name, TYPING + HEAD + CL + textwrap.dedent(src).strip("\n") + "\n", bounds=b, **kw))

    def e(name, expr, params, pre="", ret="bytes", **kw):
        body = textwrap.indent(textwrap.dedent(pre).strip("\n"), "    ") + "\n" if pre else ""
        p(name, f"def validator({', '.join(f'{k}: {v}' for k, v in params.items())}) -> {ret}:\n{body}    return {expr}\n", **kw)

    RJ = dict(expect="reject_or_agree")
    BIG = dict(int_range=(-(2**80), 2**80))
    MID = dict(int_range=(-70000, 70000))
    # passed in
    e("in_A", "a.to_cbor()", dict(a="A"), bounds=BIG)
    e("in_A_long", "a.to_cbor()", dict(a="A"), bounds=dict(MID, bytes_len=63 if th else 26, **{} if th else {"minlen": 22}))
    e("in_A_63", "a.to_cbor()", dict(a="A"), bounds=dict(int_range=(0, 5), minlen=62, bytes_len=63))
    e("in_B", "b.to_cbor()", dict(b="B"), bounds=MID)
    e("in_C", "c.to_cbor()", dict(c="C"), bounds=dict(int_range=(-300, 300)))
    e("in_N", "n.to_cbor()", dict(n="N"))
    e("in_E0", "n.to_cbor()", dict(n="E0"))
    e("in_BIG", "b.to_cbor()", dict(b="BIG"), bounds=MID)
    e("in_K", "a.to_cbor() + b.to_cbor() + c.to_cbor()", dict(a="K6", b="K127", c="K128"), bounds=dict(int_range=(-1, 30)))
    e("in_W", "w.to_cbor()", dict(w="W"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("in_P", "p.to_cbor()", dict(p="P"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("in_X", "x.to_cbor()", dict(x="X"), bounds=dict(int_range=(-30, 30), bytes_len=1, list_len=1, any_kinds="IB"))
    e("in_LA", "x.to_cbor()", dict(x="LA"), bounds=dict(int_range=(-3, 30), bytes_len=1))
    e("in_union", "u.to_cbor()", dict(u="Union[A, B, N]"), bounds=dict(int_range=(-30, 300)))
    e("in_union2", "u.to_cbor()", dict(u="Union[N, BIG, K128]"), bounds=MID)
    e("in_narrow", "u.to_cbor() if isinstance(u, A) else b'no' + u.to_cbor()", dict(u="Union[A, B, N]"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    # built in the program
    e("new_A", "A(x, y).to_cbor()", dict(x="int", y="bytes"), bounds=BIG)
    e("new_A_expr", "A(x * 256 - 1, y + b'k').to_cbor()", dict(x="int", y="bytes"), bounds=MID)
    e("new_N", "N().to_cbor()", dict(x="int"))
    e("new_BIG", "BIG(x).to_cbor()", dict(x="int"), bounds=MID)
    e("new_K", "K6(x).to_cbor() + K127(x).to_cbor() + K128(x).to_cbor()", dict(x="int"), bounds=dict(int_range=(-30, 300)))
    e("new_P", "P([y, y + b'z'], {x: y}).to_cbor()", dict(x="int", y="bytes"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("new_P_empty", "P([], {}).to_cbor()", dict(x="int"), **RJ)
    e("new_P_slice", "P(c[1:], d).to_cbor()", dict(c="List[bytes]", d="Dict[int, bytes]"), bounds=dict(int_range=(-3, 30), bytes_len=1))
    e("new_X_int", "X(x, y).to_cbor()", dict(x="int", y="bytes"), bounds=MID)
    e("new_X_bytes", "X(y, A(x, y)).to_cbor()", dict(x="int", y="bytes"), bounds=dict(int_range=(-30, 30)))
    e("new_X_list", "X(y, l).to_cbor()", dict(y="bytes", l="List[Anything]"), bounds=dict(int_range=(-30, 30), bytes_len=1, list_len=1, any_kinds="IB"), **RJ)
    e("new_X_union", "X(u, v).to_cbor()", dict(u="Union[int, bytes]", v="Union[A, bytes]"), bounds=dict(int_range=(-30, 30), bytes_len=1), **RJ)
    e("new_LA", "LA([A(x, y), A(x + 1, b'')], {y: A(2, y)}).to_cbor()", dict(x="int", y="bytes"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("new_W", "W(A(x, y), u, [x, x + 1]).to_cbor()", dict(x="int", y="bytes", u="Union[A, B]"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("new_comp", "LA([A(i, y) for i in l if i > 0], {}).to_cbor()", dict(y="bytes", l="List[int]"), bounds=dict(int_range=(-30, 30), bytes_len=1), **RJ)
    e("sum", "a.to_cbor() + b.to_cbor()", dict(a="A", b="B"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("field", "w.u.to_cbor() + w.a.to_cbor()", dict(w="W"), bounds=dict(int_range=(-3, 30), bytes_len=1, list_len=0))
    e("elem", "l[0].to_cbor()", dict(l="List[A]"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("elem_dict", "d[k].to_cbor()", dict(d="Dict[int, A]", k="int"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("elem_union", "l[-1].to_cbor()", dict(l="List[Union[A, B]]"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("comp", "[a.to_cbor() for a in l]", dict(l="List[A]"), ret="List[bytes]", bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("loop", "r", dict(l="List[Union[A, B]]"), pre="r = b''\nfor a in l:\n    r += a.to_cbor()", bounds=dict(int_range=(-30, 30), bytes_len=1, list_len=2))
    e("length", "len(a.to_cbor())", dict(a="A"), ret="int", bounds=BIG)
    e("eq", "a.to_cbor() == b.to_cbor()", dict(a="A", b="A"), ret="bool", bounds=dict(int_range=(-30, 300), bytes_len=1))
    e("eq_cls", "A(x, b).to_cbor() == a.to_cbor()", dict(a="Union[A, B]", x="int", b="bytes"), ret="bool", bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("var", "c", dict(a="A"), pre="c = a.to_cbor()\na = A(1, b'')", bounds=dict(int_range=(-30, 30)), **RJ)
    e("branch", "(a if p else b).to_cbor()", dict(a="A", b="A", p="bool"), bounds=dict(int_range=(-30, 30), bytes_len=1))
    e("branch_union", "c", dict(a="A", b="B", p="bool"), pre="u: Union[A, B] = a\nif p:\n    u = b\nc = u.to_cbor()", bounds=dict(int_range=(-30, 30), bytes_len=1), **RJ)
    p("fn", "def f(u: Union[A, B]) -> bytes:\n    return u.to_cbor()\ndef validator(a: A, b: B) -> bytes:\n    return f(b) + f(a)\n", bounds=dict(int_range=(-30, 30), bytes_len=1))
    p("fn_plain", "def f(a: A) -> bytes:\n    return a.to_cbor()\ndef validator(u: Union[A, B]) -> bytes:\n    if isinstance(u, A):\n        return f(u)\n    return b''\n", bounds=dict(int_range=(-30, 30), bytes_len=1))
    p("method", "def validator(m: ME, d: int) -> bytes:\n    return m.ser() + m.moved(d)\n", bounds=dict(int_range=(-30, 300)))
    # hashes of serialised data
    for h in ("sha256(a.to_cbor())", "sha3_256(a.to_cbor())", "blake2b(a.to_cbor(), digest_size=32)"):
        n = h.split("(")[0]
        p(f"hash_{n}", f"from hashlib import {n}\ndef validator(a: Union[A, B]) -> bytes:\n    return {h}.digest()\n", bounds=dict(int_range=(-30, 300)), **RJ)
    p("hash_cmp", "from hashlib import sha256\ndef validator(a: A, h: bytes) -> bool:\n    return sha256(a.to_cbor()).digest() == h or sha256(A(a.x, a.y).to_cbor()).digest() == sha256(a.to_cbor()).digest()\n", bounds=dict(int_range=(-30, 300)))
    # the builtin
    BI = "from opshin.std.builtins import *\n"
    for n, ty, b in (
        ("A", "A", dict(int_range=(-30, 300))),
        ("u", "Union[A, B, N]", dict(int_range=(-30, 30), bytes_len=1)),
        ("any", "Anything", dict(int_range=(-30, 30), bytes_len=1, any_depth=2 if th else 1, any_kinds="CLIB")),
        ("int", "int", BIG),
        ("bytes", "bytes", dict(bytes_len=26, minlen=22)),
        ("list", "List[int]", dict(int_range=(-30, 30), list_len=25, minlen=0) if th else dict(int_range=(-30, 30))),
        ("dict", "Dict[bytes, int]", dict(int_range=(-30, 30), bytes_len=1, dict_len=2)),
        ("bool", "bool", {}),
        ("str", "str", {}),
    ):
        p(f"bi_{n}", BI + f"def validator(a: {ty}) -> bytes:\n    return serialise_data(a)\n", bounds=b, **RJ)
    return out
