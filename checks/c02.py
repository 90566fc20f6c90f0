"""C02: bytes and string operations."""
from .lib import E, PR, has_ws

PROPERTY = "C02"
LEVEL = "translation_validation"
EXPLANATION = (
    "Corpus programs over bytes/str operations are compiled by /repo's compiler in this run; z3 decides that the "
    "symbolically executed UPLC agrees with a symbolic CPython execution of the same text for every byte string up to "
    "3 bytes (4-5 in the thorough tier; every byte value, every length), every string up to 2-3 code points (all of "
    "Unicode except surrogates) and every integer index/bound/factor (factors up to 3)."
)
ASSUMPTIONS = ["String inputs are valid Unicode scalar values (ledger text is valid UTF-8)."]


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")

    def a(name, ret, expr, params, bytes_len=4 if th else 3, str_len=3 if th else 2, list_len=3, **kw):
        kw.setdefault("configs", cf)
        bounds = kw.pop("bounds", {})
        kw.setdefault("max_paths", 6000 if th else 2500)
        nstr = sum(v in ("str", "List[str]") for v in params.values())
        if (nstr > 1 or "List[str]" in params.values()) and not th:
            # all of Unicode with one code point each, and longer ASCII strings
            out.append(E(name + "_ascii", ret, expr, params, bounds=dict(bytes_len=bytes_len, str_len=2, list_len=list_len, ascii=True, **bounds), **kw))
            str_len = 1
        out.append(E(name, ret, expr, params, bounds=dict(bytes_len=bytes_len, str_len=str_len, list_len=list_len, **bounds), **kw))

    b = dict(b="bytes")
    bi = dict(b="bytes", i="int")
    bij = dict(b="bytes", i="int", j="int")
    bc = dict(b="bytes", c="bytes")
    # --- indexing and slicing
    a("b_index", "int", "b[i]", bi)
    a("b_index_const", "int", "b[0] * 3 + b[-1]", b)
    a("b_index_const2", "int", "b[1] - b[-2]", b)
    a("b_index_expr", "int", "b[i + 1] + b[i - 1]", bi)
    a("b_slice", "bytes", "b[i:j]", bij)
    a("b_slice_from", "bytes", "b[i:]", bi)
    a("b_slice_to", "bytes", "b[:i]", bi)
    a("b_slice_all", "bytes", "b[:]", b)
    a("b_slice_len", "int", "len(b[i:j])", bij)
    for n, s in {"m1": "[:-1]", "1": "[1:]", "1m1": "[1:-1]", "m2": "[-2:]", "m2m1": "[-2:-1]", "0i": "[0:2]", "sw": "[2:1]", "oob": "[5:9]", "negoob": "[-9:2]", "neg2": "[-9:-7]"}.items():
        a(f"b_slicec_{n}", "bytes", f"b{s}", b, bytes_len=5)
    a("b_slice_cat", "bool", "b[:i] + b[i:] == b", bi)
    a("b_slice_of_slice", "bytes", "b[1:][:i]", bi)
    a("b_slice_step", "bytes", "b[i:j:1]", bij, expect="reject_or_agree")
    a("b_slice_step2", "bytes", "b[::2]", b, expect="reject_or_agree")
    a("b_slice_stepm1", "bytes", "b[::-1]", b, expect="reject_or_agree")
    # --- concatenation, repetition, length, comparison
    a("b_add", "bytes", "b + c", bc)
    a("b_add_const", "bytes", "b'\\x00a' + b + b'\\xff'", b)
    a("b_aug_add", "bytes", "b", bc, pre="b += c\nb += b'z'")
    a("b_mul", "bytes", "b * i", bi, bounds=dict(per={"i": dict(int_range=(-2, 3))}), bytes_len=2)
    a("b_rmul", "bytes", "i * b", bi, bounds=dict(per={"i": dict(int_range=(-2, 3))}), bytes_len=2)
    a("b_mul_const", "bytes", "b * 3 + 2 * b + b * 0 + b * -1", b, bytes_len=2)
    a("b_aug_mul", "bytes", "b", bi, pre="b *= i", bounds=dict(per={"i": dict(int_range=(-2, 3))}), bytes_len=2)
    a("b_len", "int", "len(b) + len(c) - len(b + c)", bc)
    for n, o in {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}.items():
        a(f"b_{n}", "bool", f"b {o} c", bc)
        a(f"b_{n}_const", "bool", f"b {o} b'a\\x80'", b)
        if n in ("eq", "ne"):
            a(f"s_{n}", "bool", f"s {o} t", dict(s="str", t="str"))
        else:
            a(f"s_{n}", "bool", f"s {o} t", dict(s="str", t="str"), expect="reject_or_agree")
    a("b_chain", "bool", "b <= c < d", dict(b="bytes", c="bytes", d="bytes"), bytes_len=2)
    a("b_in_list", "bool", "b in [c, b'', b'ab']", bc)
    a("b_notin_list", "bool", "b not in [c, b'ab']", bc)
    a("b_in_list_p", "bool", "b in xs", dict(b="bytes", xs="List[bytes]"), bytes_len=2, list_len=2)
    a("int_in_bytes", "bool", "i in b", bi, expect="reject_or_agree")
    a("b_in_bytes", "bool", "b in c", bc, expect="reject_or_agree")
    a("b_not", "bool", "not b", b, expect="reject_or_agree")
    a("b_bool", "bool", "bool(b)", b)
    a("b_cond", "int", "1 if b else 2", b, expect="reject_or_agree")
    # --- construction
    a("bytes_of_int", "bytes", "bytes(i)", dict(i="int"), bounds=dict(int_range=(-3, 6)))
    a("bytes_of_bytes", "bytes", "bytes(b)", b)
    a("bytes_of_list", "bytes", "bytes(xs)", dict(xs="List[int]"))
    a("bytes_of_lit", "bytes", "bytes([i, 0, i + 1])", dict(i="int"))
    a("bytes_of_comp", "bytes", "bytes([x + i for x in xs])", dict(i="int", xs="List[int]"))
    a("bytearray_ann", "bytes", "bytes(b) + b''", b)
    a("ljust", "bytes", "b.ljust(i, b'x')", bi, bounds=dict(per={"i": dict(int_range=(-2, 6))}))
    a("rjust", "bytes", "b.rjust(i, b'x')", bi, bounds=dict(per={"i": dict(int_range=(-2, 6))}))
    a("ljust_fill", "bytes", "b.ljust(5, c)", bc)
    a("rjust_fill", "bytes", "b.rjust(5, c)", bc)
    # --- loops over bytes
    a("b_iter", "int", "s", b, pre="s = 0\nfor x in b:\n    s = s * 256 + x", expect="reject_or_agree")
    a("b_idx_loop", "int", "s", b, pre="s = 0\nfor k in range(len(b)):\n    s = s * 256 + b[k]")
    a("b_rev_loop", "bytes", "r", b, pre="r = b''\nfor k in range(len(b)):\n    r = b[k:k + 1] + r")
    a("b_search", "int", "r", dict(b="bytes", c="bytes"), pre="r = -1\nfor k in range(len(b)):\n    if b[k:k + len(c)] == c:\n        r = k", bytes_len=3)
    # --- str
    s = dict(s="str")
    st = dict(s="str", t="str")
    si = dict(s="str", i="int")
    a("s_add", "str", "s + t", st)
    a("s_add_const", "str", "'é' + s + 'z€😀'", s)
    a("s_aug_add", "str", "s", st, pre="s += t\ns += '-'")
    a("s_mul", "str", "s * i", si, bounds=dict(per={"i": dict(int_range=(-2, 3))}))
    a("s_rmul", "str", "i * s", si, bounds=dict(per={"i": dict(int_range=(-2, 3))}))
    a("s_len", "int", "len(s)", s, expect="reject_or_agree")
    a("s_index", "str", "s[i]", si, expect="reject_or_agree")
    a("s_slice", "str", "s[1:]", s, expect="reject_or_agree")
    a("s_in", "bool", "s in t", st, expect="reject_or_agree")
    a("s_in_list", "bool", "s in ['a', t]", st, expect="reject_or_agree")
    a("s_bool", "bool", "bool(s)", s)
    a("s_not", "bool", "not s", s, expect="reject_or_agree")
    a("s_encode", "bytes", "s.encode()", s)
    a("s_encode_len", "int", "len(s.encode())", s)
    a("s_encode_utf8", "bytes", "s.encode('utf-8')", s, expect="reject_or_agree")
    a("b_decode", "str", "b.decode()", b, bytes_len=4 if th else 3)
    a("b_decode_const", "str", "(b'\\xc3' + b).decode()", b, bytes_len=2)
    a("b_decode_const3", "str", "(b'\\xe2' + b).decode()", b, bytes_len=2)
    a("b_decode_const4", "str", "(b'\\xf0\\x9f' + b).decode()", b, bytes_len=2)
    a("b_decode_const4b", "str", "(b'\\xf4' + b + b'\\x80').decode()", b, bytes_len=2)
    a("roundtrip", "bool", "s.encode().decode() == s", s)
    a("decode_eq", "bool", "b.decode() == s", dict(b="bytes", s="str"), bytes_len=2, str_len=1)
    a("encode_eq", "bool", "s.encode() == b", dict(b="bytes", s="str"), bytes_len=3, str_len=2)
    a("encode_add", "bool", "(s + t).encode() == s.encode() + t.encode()", st)
    a("b_hex", "str", "b.hex()", b)
    a("b_hex_cat", "str", "(b + c).hex()", bc, bytes_len=2)
    ws = (("fromhex-whitespace", has_ws),)
    a("s_fromhex", "bytes", "b''.fromhex(s)", s, str_len=2, bounds=dict(ascii=True), exclude=ws)
    a("s_fromhex4", "bytes", "b''.fromhex(s + '0f')", s, str_len=2, bounds=dict(ascii=True), exclude=ws)
    a("s_fromhex_uni", "bytes", "b''.fromhex(s)", s, str_len=1, exclude=ws)
    a("hex_roundtrip", "bool", "b''.fromhex(b.hex()) == b", b, bytes_len=2)
    a("s_list", "str", "r", dict(xs="List[str]"), pre="r = ''\nfor x in xs:\n    r += x + ','", list_len=2)
    a("b_max", "bytes", "b if b > c else c", bc)
    a("const_slices", "bytes", "b'abcdef'[i:j]", dict(i="int", j="int"))
    a("const_index", "int", "b'abcdef'[i]", dict(i="int"))
    a("const_cmp", "bool", "b'abc' < b <= b'abd'", b, bytes_len=4)
    a("b_eq_empty", "bool", "b == b'' or s == ''", dict(b="bytes", s="str"))
    a("list_of_bytes_idx", "int", "xs[i][j]", dict(xs="List[bytes]", i="int", j="int"), list_len=2, bytes_len=2)
    a("sum_bytes", "int", "sum([b[k] for k in range(len(b))])", b)
    return out
