"""C05: dictionaries."""
from .lib import E, PR, TYPING
from .c04 import CLS

PROPERTY = "C05"
LEVEL = "translation_validation"
EXPLANATION = (
    "Dictionary programs are compiled by /repo's compiler in this run; z3 decides agreement of the symbolically executed "
    "UPLC with symbolic CPython for every dict of up to 2-3 entries (3-4 thorough) with pairwise distinct symbolic keys, every "
    "looked-up key and default, key/value types int, bool, bytes, str, lists, dicts, data classes, unions, and for every "
    "literal/comprehension with symbolic (possibly coinciding) keys."
)
ASSUMPTIONS = ["dict inputs have pairwise distinct keys (a Python dict cannot have others)"]


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    N = 3 if th else 2

    def a(name, ret, expr, params, **kw):
        kw.setdefault("configs", cf)
        b = dict(dict_len=N, list_len=2, bytes_len=1, str_len=1, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 12000 if th else 3000)
        out.append(E(name, ret, expr, params, bounds=b, **kw))

    D = dict(d="Dict[int, int]")
    Dk = dict(d="Dict[int, int]", k="int")
    Dkv = dict(d="Dict[int, int]", k="int", v="int")
    KV = dict(a="int", b="int", k="int")
    B3 = dict(bounds=dict(dict_len=N + 1))
    a("get_item", "int", "d[k]", Dk, **B3)
    a("get_item_c0", "int", "d[0]", D, **B3)
    a("get_item_neg", "int", "d[-1]", D, **B3)
    a("get_item_expr", "int", "d[k + 1] - d[2 * k]", Dk)
    a("get", "int", "d.get(k, v)", Dkv, **B3)
    a("get_expr", "int", "d.get(k, d[k + 1])", Dk)
    a("get_nested", "int", "d.get(d.get(k, 1), 2)", Dk)
    a("get_c", "int", "d.get(3, 7) * 2", D)
    a("in", "bool", "k in d", Dk, expect="reject_or_agree", **B3)
    a("notin", "bool", "k not in d", Dk, expect="reject_or_agree")
    a("in_keys", "bool", "k in d.keys()", Dk, **B3)
    a("in_values", "bool", "k in d.values()", Dk, **B3)
    a("notin_values", "bool", "k not in d.values()", Dk)
    a("len", "int", "len(d)", D, **B3)
    a("len_items", "int", "len(d.items())", D, **B3)
    a("keys", "List[int]", "d.keys()", D, **B3)
    a("values", "List[int]", "d.values()", D, **B3)
    a("sum_values", "int", "sum(d.values()) - sum(d.keys())", D)
    a("max_keys", "int", "max(d.keys())", D)
    a("truth", "bool", "bool(d)", D, expect="reject_or_agree")
    a("truth_if", "int", "1 if d else 0", D, expect="reject_or_agree")
    a("not", "bool", "not d", D, expect="reject_or_agree")
    a("eq", "bool", "d == e", dict(d="Dict[int, int]", e="Dict[int, int]"), expect="reject_or_agree")
    a("for_items", "int", "s", D, pre="s = 0\nfor k, v in d.items():\n    s = 3 * s + k * 2 - v", **B3)
    a("for_items_pair", "int", "s", D, pre="s = 0\nfor p in d.items():\n    s += p[0] * 2 - p[1]", expect="reject_or_agree")
    a("for_items_neg", "int", "s", D, pre="s = 0\nfor p in d.items():\n    s = 2 * s + p[-2] * 3 - p[-1]", expect="reject_or_agree")
    a("comp_items_pair", "List[int]", "[p[1] - 2 * p[0] for p in d.items()]", D, expect="reject_or_agree")
    a("comp_items_neg", "List[int]", "[p[-1] - 2 * p[-2] for p in d.items() if p[-1] > p[-2]]", D, expect="reject_or_agree")
    a("items_out", "List[int]", "[p[2] for p in d.items()]", D, expect="reject_or_agree")
    a("items_out_neg", "List[int]", "[p[-3] for p in d.items()]", D, expect="reject_or_agree")
    a("items_mixed_neg", "List[bytes]", "[p[-1] for p in d.items() if p[-2] > 0]", dict(d="Dict[int, bytes]"), expect="reject_or_agree")
    a("items_slice", "int", "s", D, pre="s = 0\nfor p in d.items():\n    s += p[:1][0] + p[-1:][0]", expect="reject_or_agree")
    a("items_unpack2", "int", "s", D, pre="s = 0\nfor p in d.items():\n    x, y = p\n    s = 2 * s + x * 3 - y", expect="reject_or_agree")
    a("items_len", "int", "sum([len(p) for p in d.items()])", D, expect="reject_or_agree")
    a("items_eq", "int", "sum([1 for p in d.items() if p == (k, 1)])", Dk, expect="reject_or_agree")
    a("items_in", "bool", "(k, 1) in d.items()", Dk, expect="reject_or_agree")
    a("items_nested", "int", "sum([p[-1].get(p[0], 1) for p in d.items()])", dict(d="Dict[int, Dict[int, int]]"), expect="reject_or_agree")
    a("for_keys", "int", "s", D, pre="s = 0\nfor k in d.keys():\n    s = 2 * s + d[k]", **B3)
    a("for_values", "int", "s", D, pre="s = 0\nfor v in d.values():\n    s = 2 * s + v")
    a("for_dict", "int", "s", D, pre="s = 0\nfor k in d:\n    s = 2 * s + k", expect="reject_or_agree")
    a("comp_items", "List[int]", "[k - v for k, v in d.items()]", D, **B3)
    a("comp_items_if", "List[int]", "[k for k, v in d.items() if v > 0]", D)
    a("comp_keys", "List[int]", "[d[k] for k in d.keys() if k != x]", dict(d="Dict[int, int]", x="int"))
    a("all_comp", "bool", "all([v > k for k, v in d.items()])", D)
    a("ret", "Dict[int, int]", "d", D, **B3)
    a("assign", "int", "d[k]", Dkv, pre="d[k] = v", expect="reject_or_agree")
    # literals
    a("lit_len0", "int", "len(d)", dict(a="int"), pre="d: Dict[int, int] = {}")
    a("lit_get0", "int", "d.get(a, 5)", dict(a="int"), pre="d: Dict[int, int] = {}")
    a("lit1", "int", "{a: b}[k]", KV)
    a("lit2", "int", "{a: 1, b: 2}[k]", KV)
    a("lit2_len", "int", "len({a: 1, b: 2})", KV)
    a("lit2_keys", "List[int]", "{a: 1, b: 2}.keys()", KV)
    a("lit2_values", "List[int]", "{a: 1, b: 2}.values()", KV)
    a("lit3_values", "List[int]", "{a: 1, b: 2, k: 3}.values()", KV)
    a("lit3_keys", "List[int]", "{a: 1, b: 2, k: 3}.keys()", KV)
    a("lit3_get", "int", "{a: 1, b: 2, k: 3}.get(x, 0)", dict(KV, x="int"))
    a("lit3_const", "List[int]", "{1: a, 2: b, 3: k}.values()", KV)
    a("lit3_const_keys", "List[int]", "{3: a, 1: b, 2: k}.keys()", KV)
    a("lit_dup_const", "int", "{1: a, 2: b, 1: k}[1] * 100 + len({1: a, 2: b, 1: k})", KV)
    a("lit_dup_values", "List[int]", "{1: a, 2: b, 1: k}.values()", KV)
    a("lit_mixed_const", "List[int]", "{1: a, b: 2}.values()", KV)
    a("lit_neg", "List[int]", "{-1: a, 1: b}.values()", KV)
    a("lit_items", "int", "s", KV, pre="s = 0\nfor x, y in {a: 5, b: 7}.items():\n    s = 3 * s + x - y")
    a("lit_str", "str", "{'a': 'x', s: 'y'}['a']", dict(s="str"))
    a("lit_bytes", "bytes", "{b'a': b, b'b': b + b}[k]", dict(b="bytes", k="bytes"))
    a("lit_bool", "int", "{True: 3, p: 4}.get(False, 9)", dict(p="bool"))
    a("lit_list", "int", "{k: [k, 1], 0: []}[0]" + "[0]", dict(k="int"), expect="reject_or_agree")
    a("lit_list2", "List[int]", "{k: [k, 1], 0: [3]}[j]", dict(k="int", j="int"))
    a("lit_nested", "int", "{a: {b: 1}, k: {a: 2}}[a][b]", KV)
    a("lit_ret", "int", "len(f(a, b))", KV, pre="def f(x: int, y: int) -> Dict[int, int]:\n    return {x: y, y: x}")
    # comprehensions
    XS = dict(xs="List[int]", k="int")
    dist = dict(exclude=(("dictcomp-duplicates", lambda xs, *r: _dup(xs)),))
    a("comp_get", "int", "{x: x * 2 for x in xs}[k]", XS)
    a("comp_get_last", "int", "{x: y for x, y in [(i, i * k) for i in xs]}[k]", XS, expect="reject_or_agree", **dist)
    a("comp_len", "int", "len({x: 1 for x in xs})", XS, **dist)
    a("comp_keys_", "List[int]", "{x: 1 for x in xs}.keys()", XS, **dist)
    a("comp_if", "int", "{x: x + 1 for x in xs if x > k}.get(k + 1, 0)", XS)
    a("comp_idx", "int", "{x * 0 + i: x for i, x in [(0, a), (1, b)]}[k]", KV, expect="reject_or_agree")
    a("comp_lookup_distinct", "int", "{x: y for x, y in e.items()}[k]", dict(e="Dict[int, int]", k="int"))
    a("comp_swap_distinct", "int", "len({x: -y for x, y in e.items() if y != k})", dict(e="Dict[int, int]", k="int"))
    a("comp_ret", "Dict[int, bytes]", "{x: v + b'!' for x, v in e.items()}", dict(e="Dict[int, bytes]"))
    a("comp_keys2", "List[bytes]", "{b: 1 for b in bs}.keys()", dict(bs="List[bytes]"), **dist)
    # types of keys and values
    TY = {
        "bytes": ("bytes", "b'a'"), "str": ("str", "'a'"), "bool": ("bool", "True"),
        "li": ("List[int]", "[1]"), "d": ("Dict[int, int]", "{1: 2}"), "A": ("A", "A(1)"), "U": ("Union[A, B]", "A(2)"),
        "Ui": ("Union[int, bytes]", "b'q'"),
    }
    for n, (t, lit) in TY.items():
        sm = dict(bounds=dict(dict_len=2, list_len=1, dict_len_=None) if False else dict(dict_len=2, list_len=1))
        if n != "d":
            exp = {} if n in ("bytes", "str", "bool") else dict(expect="reject_or_agree")
            hashable = n in ("bytes", "str", "bool", "A", "U", "Ui")
            if hashable:
                a(f"k_{n}_get", "int", "d[k]", {"d": f"Dict[{t}, int]", "k": t}, head=CLS, **exp, **sm)
                a(f"k_{n}_get_def", "int", "d.get(k, -1)", {"d": f"Dict[{t}, int]", "k": t}, head=CLS, **exp, **sm)
                a(f"k_{n}_keys", f"List[{t}]", "d.keys()", {"d": f"Dict[{t}, int]"}, head=CLS, **exp, **sm)
                a(f"k_{n}_lit", "int", f"{{k: 1, {lit}: 2}}[j]", {"k": t, "j": t}, head=CLS, **exp)
                a(f"k_{n}_litlen", "int", f"len({{k: 1, {lit}: 2, j: 3}})", {"k": t, "j": t}, head=CLS, **exp)
        exp = {} if n in ("bytes", "str", "bool", "li", "d", "A") else dict(expect="reject_or_agree")
        a(f"v_{n}_get", t, "d[k]", {"d": f"Dict[int, {t}]", "k": "int"}, head=CLS, **exp, **sm)
        a(f"v_{n}_get_def", t, f"d.get(k, {lit})", {"d": f"Dict[int, {t}]", "k": "int"}, head=CLS, **exp, **sm)
        a(f"v_{n}_values", f"List[{t}]", "d.values()", {"d": f"Dict[int, {t}]"}, head=CLS, **exp, **sm)
        a(f"v_{n}_items", f"List[{t}]", "[v for k, v in d.items() if k > 0]", {"d": f"Dict[int, {t}]"}, head=CLS, **exp, **sm)
        a(f"v_{n}_lit", t, f"{{1: v, k: {lit}}}[1]", {"k": "int", "v": t}, head=CLS, **exp, **sm)
    a("nested", "int", "d[a][b]", dict(d="Dict[int, Dict[int, int]]", a="int", b="int"))
    a("nested_get", "int", "d.get(a, {b: 1}).get(b, 2)", dict(d="Dict[int, Dict[int, int]]", a="int", b="int"))
    a("nested_sum", "int", "sum([sum(e.values()) for e in d.values()])", dict(d="Dict[int, Dict[int, int]]"))
    a("nested_for", "int", "s", dict(d="Dict[bytes, Dict[bytes, int]]"), pre="s = 0\nfor p, e in d.items():\n    for t, v in e.items():\n        s = 2 * s + v + len(p) - len(t)")
    a("nested_pair_list", "List[int]", "d[k]", dict(d="Dict[int, List[int]]", k="int"))
    a("opt_get", "int", "0 if v is None else v", dict(d="Dict[int, Union[int, None]]", k="int"), pre="v = d[k]", expect="reject_or_agree")
    a("unwrap_none", "bool", "d[k] is None", dict(d="Dict[int, None]", k="int"), expect="reject_or_agree")
    a("two", "int", "d[e[k]]", dict(d="Dict[bytes, int]", e="Dict[int, bytes]", k="int"))
    a("pass_fun", "int", "f(d, k)", Dk, pre="def f(d: Dict[int, int], x: int) -> int:\n    return d.get(x, x + 1)")
    a("loop_build", "int", "s", dict(xs="List[int]", d="Dict[int, int]"), pre="s = 0\nfor x in xs:\n    s += d.get(x, 1)")
    return out


def _dup(xs):
    from .lib import truth, b_or
    from symx import pysym as S
    from symx.values import d_eq

    ys = list(xs)
    return truth(b_or([d_eq(S.to_data(ys[i]), S.to_data(ys[j])) for i in range(len(ys)) for j in range(i)]))
