"""C03: conversions between values and text."""
from .lib import E, PR, TYPING, any_char, chars, b_or, b_and, i_le, i_eq, i_lt
from symx.values import *

PROPERTY = "C03"
LEVEL = "translation_validation"
EXPLANATION = (
    "str(), repr-style container output, f-strings, hex/oct/chr/int() programs are compiled by /repo's compiler in "
    "this run and compared by z3 with symbolic CPython: every integer in -10^7..10^7 (10^12 thorough) for decimal, "
    "-2^20..2^20 for hex/oct, every code point for chr, every byte string up to 2-3 bytes for bytes repr, every "
    "string up to 4-5 characters for int() parsing."
)
ASSUMPTIONS = ["String inputs are valid Unicode scalar values."]

CLS = TYPING + """from opshin.prelude import *
@dataclass()
class A(PlutusData):
    CONSTR_ID = 0
    x: int
    y: bytes
@dataclass()
class N(PlutusData):
    CONSTR_ID = 3
@dataclass()
class C(PlutusData):
    CONSTR_ID = 1
    a: A
    l: List[int]
    d: Dict[int, bytes]
"""


def quote_in(s):
    "single or double quote, backslash or non-printable needed in repr"
    return any_char(s, lambda c: b_or([i_eq(c, 39)]))


def raw_constr(x):
    """a constructor (other data is printed as RawPlutusData by design of the repository, unlike in Python), with small numbers"""

    def small(d):
        d = dforce(d)
        if type(d) is DI:
            return b_and([i_le(-2, d.i), i_le(d.i, 9)])
        if type(d) is DB:
            return b_and([b_or([i_lt(c, 39), i_lt(39, c)]) for c in d.e])
        if type(d) is DM:
            ks = [dforce(k) for k, _ in d.pairs]
            if any(type(k) not in (DI, DB) for k in ks):
                return False
            return b_and([small(x) for p in d.pairs for x in p] + [b_not(d_eq(k, l)) for i, k in enumerate(ks) for l in ks[:i]])
        sub = d.items if type(d) is DL else d.fields
        c = b_and([i_le(0, d.tag), i_le(d.tag, 1300)]) if type(d) is DC else True
        return b_and([c] + [small(y) for y in sub])

    d = dforce(x.d)
    return type(d) is DC and truth(small(d))


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    D = 10**12 if th else 10**7

    def a(name, ret, expr, params, **kw):
        kw.setdefault("configs", cf)
        b = dict(int_range=(-D, D), bytes_len=2, str_len=2, list_len=2, dict_len=2)
        b.update(kw.pop("bounds", {}))
        out.append(E(name, ret, expr, params, bounds=b, **kw))

    i = dict(x="int")
    small = dict(int_range=(-12, 120))
    a("str_int", "str", "str(x)", i)
    a("str_int_neg", "str", "str(-x)", i)
    a("str_int_len", "int", "len(str(x).encode())", i)
    a("str_bool", "str", "str(p) + str(not p)", dict(p="bool"))
    a("str_none", "str", "str(p)", dict(p="None"))
    a("str_str", "str", "str(s)", dict(s="str"))
    a("str_bytes", "str", "str(b)", dict(b="bytes"), bounds=dict(bytes_len=3 if th else 2), max_paths=6000)
    a("f_bytes", "str", "f'{b}'", dict(b="bytes"), bounds=dict(bytes_len=1))
    a("f_int", "str", "f'{x}'", i)
    a("f_mix", "str", "f'a{x}b{p}c{s}{{}}'", dict(x="int", p="bool", s="str"), bounds=dict(int_range=(-99, 1000), str_len=1))
    a("f_expr", "str", "f'{x + 1}{x * 2}'", i, bounds=dict(int_range=(-60, 60)))
    a("f_nest", "str", "f'<{f\"[{x}]\"}>'", i, bounds=small)
    a("f_conv_s", "str", "f'{x!s}'", i, bounds=small, expect="reject_or_agree")
    a("f_conv_r", "str", "f'{s!r}'", dict(s="str"), bounds=dict(str_len=1, ascii=True), expect="reject_or_agree", exclude=(("nested-str-repr", lambda s: any_char(s, lambda c: True)),))
    a("f_spec", "str", "f'{x:05d}'", i, bounds=small, expect="reject_or_agree")
    a("f_eq", "str", "f'{x=}'", i, bounds=small, expect="reject_or_agree")
    a("f_none", "str", "f'{p}'", dict(p="None"))
    for n, d, w in (("flat", 1, 2), ("deep", 2, 1)) + ((("wide", 2, 2), ("deeper", 3, 1)) if th else ()):
        a(f"f_any_{n}", "str", "f'{x}'", dict(x="Anything"), head="from pycardano import Datum as Anything, PlutusData\n", bounds=dict(any_depth=d, any_width=w, bytes_len=1, any_kinds="C"), assume=raw_constr, max_paths=20000 if th else 4000, configs=cf if th else ("O2",))
    a("str_cat", "str", "'n=' + str(x) + ';'", i, bounds=small)
    # containers
    L = dict(xs="List[int]")
    a("str_list", "str", "str(xs)", L, bounds=dict(int_range=(-12, 120), list_len=3 if th else 2))
    a("str_list_bool", "str", "str(xs)", dict(xs="List[bool]"), bounds=dict(list_len=3))
    a("str_list_bytes", "str", "str(xs)", dict(xs="List[bytes]"), bounds=dict(bytes_len=1, list_len=2), max_paths=6000)
    a("str_list_list", "str", "str(xs)", dict(xs="List[List[int]]"), bounds=dict(int_range=(-9, 9), list_len=2))
    a("str_list_str", "str", "str(xs)", dict(xs="List[str]"), bounds=dict(str_len=1, ascii=True, list_len=2), exclude=(("nested-str-repr", lambda xs: any(any_char(x, special) for x in xs)),))
    a("str_dict", "str", "str(d)", dict(d="Dict[int, int]"), bounds=dict(int_range=(-9, 12)))
    a("str_dict_b", "str", "str(d)", dict(d="Dict[bytes, List[int]]"), bounds=dict(int_range=(0, 9), bytes_len=1, dict_len=1, list_len=2))
    a("str_dict_empty", "str", "str(d) + str(xs)", dict(d="Dict[int, int]", xs="List[int]"), bounds=dict(int_range=(0, 1), dict_len=1, list_len=1))
    a("f_list", "str", "f'{xs}!'", L, bounds=dict(int_range=(-9, 12)))
    a("str_tuple", "str", "str((x, p))", dict(x="int", p="bool"), bounds=small)
    a("str_tuple3", "str", "str((x, p, b''))", dict(x="int", p="bool"), bounds=small)
    a("str_tuple1", "str", "str((x,))", dict(x="int"), bounds=small)
    a("str_items", "str", "r", dict(d="Dict[int, int]"), pre="r = ''\nfor k, v in d.items():\n    r += f'{k}:{v},'", bounds=dict(int_range=(-9, 12)))
    a("str_pair", "str", "str(k) + str(v)", dict(k="int", v="bool"), bounds=small)
    for n, t in {"A": "A", "N": "N", "C": "C", "U": "Union[A, N]"}.items():
        src = CLS + f"def validator(v: {t}) -> str:\n    return str(v)\n"
        out.append(PR(f"str_cls_{n}", src, configs=cf[:1], bounds=dict(int_range=(-9, 12), bytes_len=1 if n != "C" else 0, list_len=1, dict_len=1), max_paths=4000 ))
    src = CLS + "def validator(v: Union[A, N], x: int) -> str:\n    return f'{v}:{[v]}:{ {x: v} }'\n"
    out.append(PR("f_cls", src, configs=cf[:1], bounds=dict(int_range=(0, 9), bytes_len=0), max_paths=4000))
    src = CLS + "def validator(v: Union[int, bytes, A]) -> str:\n    return str(v)\n"
    out.append(PR("str_union_prim", src, configs=cf[:1], bounds=dict(int_range=(-9, 12), bytes_len=1), expect="reject_or_agree"))
    # print
    a("print_int", "None", "None", i, pre="print(x)", trace=True, bounds=small)
    a("print_many", "None", "None", dict(x="int", s="str", p="bool"), pre="print(s, x, p)\nprint('end')", trace=True, bounds=dict(int_range=(-9, 12), str_len=1))
    a("print_empty", "None", "None", i, pre="print()\nprint(x, '')", trace=True, bounds=small)
    a("print_list", "None", "None", L, pre="print(xs)", trace=True, bounds=small)
    a("print_bytes", "None", "None", dict(b="bytes"), pre="print(b)", trace=True, bounds=dict(bytes_len=1))
    # hex / oct / chr
    H = dict(bounds=dict(int_range=(-(2**36), 2**36) if th else (-(2**20), 2**20)))
    a("hex", "str", "hex(x)", i, **H)
    a("oct", "str", "oct(x)", i, **H)
    a("hex_oct", "str", "hex(x) + oct(-x)", i, bounds=dict(int_range=(-300, 300)))
    a("bin", "str", "bin(x)", i, expect="reject_or_agree", bounds=dict(int_range=(-8, 8)))
    a("chr", "str", "chr(x)", i, bounds=dict(int_range=(-5, 0x110010)))
    a("chr_bytes", "bytes", "chr(x).encode()", i, bounds=dict(int_range=None))
    a("ord", "int", "ord(s)", dict(s="str"), expect="reject_or_agree")
    a("ascii", "str", "ascii(s)", dict(s="str"), expect="reject_or_agree", bounds=dict(str_len=1))
    a("repr", "str", "repr(x)", i, expect="reject_or_agree")
    # parsing
    s = dict(s="str")
    ex = (("int-unicode-text", odd_text),)
    a("int_str", "int", "int(s)", s, bounds=dict(str_len=4 if th else 3, ascii=True), exclude=ex, max_paths=8000)
    a("int_str_1", "int", "int(s)", s, bounds=dict(str_len=1), exclude=ex)
    a("int_str_u", "int", "int('1' + s + '0')", s, bounds=dict(str_len=3 if th else 2, ascii=True), exclude=ex, max_paths=8000)
    a("int_str_sign", "int", "int('-' + s)", s, bounds=dict(str_len=2, ascii=True), exclude=ex)
    a("int_str_ws", "int", "int(' \\t' + s + ' \\n')", s, bounds=dict(str_len=2, ascii=True), exclude=ex)
    a("int_str_digits", "int", "int(s + '12345678901234567890')", s, bounds=dict(str_len=1, ascii=True), exclude=ex)
    a("int_of_str", "bool", "int(str(x)) == x", i, bounds=dict(int_range=(-1999, 1999)))
    a("int_base", "int", "int(s, 16)", s, expect="reject_or_agree", bounds=dict(str_len=1))
    a("int_bytes", "int", "int(s)", dict(s="bytes"), expect="reject_or_agree", bounds=dict(bytes_len=1))
    a("bool_str", "bool", "bool(s)", s)
    a("bool_bytes", "bool", "bool(s)", dict(s="bytes"))
    a("bool_list", "bool", "bool(s)", dict(s="List[int]"))
    a("bool_dict", "bool", "bool(s)", dict(s="Dict[int, int]"))
    a("bool_none", "bool", "bool(s)", dict(s="None"))
    a("hexstr", "str", "b.hex() + str(len(b))", dict(b="bytes"))
    a("decode_hex", "bytes", "b.hex().encode()", dict(b="bytes"), bounds=dict(bytes_len=3))
    return out


def special(c):
    "character whose repr is not the character itself inside single quotes"
    return b_or([i_lt(c, 32), i_eq(c, 39), i_eq(c, 92), i_eq(c, 127)])


def odd_text(s):
    return any_char(s, lambda c: i_le(128, c))


