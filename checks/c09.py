"""C09: the script boundary."""
import textwrap
from .lib import TYPING
from .c08 import HEAD
from symx.tv import Template

PROPERTY = "C09"
LEVEL = "translation_validation"
EXPLANATION = (
    "For every supported parameter/result type (int, bool, bytes, str, None, data classes, unions, Anything and lists, dicts, tuples of "
    "them) validators that pass on, inspect or rebuild the argument are compiled by /repo's compiler in this run, with wrapping of "
    "inputs/outputs on and off; z3 decides for every value within the bounds that the argument the program sees is the one its ledger "
    "data denotes and that the returned data/builtin value is the encoding of Python's result."
)
ASSUMPTIONS = ["arguments are well-formed encodings of the declared types"]

TYPES = {
    "int": "int", "bool": "bool", "bytes": "bytes", "str": "str", "none": "None", "A": "A", "N": "N", "BIG": "BIG", "W": "W", "D1": "D1",
    "U": "Union[A, B, N]", "Ui": "Union[int, bytes]", "Uia": "Union[int, bytes, A]", "any": "Anything",
    "li": "List[int]", "lb": "List[bytes]", "lbool": "List[bool]", "lstr": "List[str]", "lA": "List[A]", "lU": "List[Union[A, B]]",
    "lli": "List[List[int]]", "llb": "List[List[bool]]", "lls": "List[List[str]]", "lany": "List[Anything]",
    "dii": "Dict[int, int]", "dbb": "Dict[bytes, bool]", "dsi": "Dict[str, int]", "dAi": "Dict[A, int]", "dil": "Dict[int, List[bool]]",
    "ddi": "Dict[bytes, Dict[bytes, int]]", "ldi": "List[Dict[int, str]]", "lnone": "List[None]", "dnone": "Dict[int, None]",
    "t2": "Tuple[int, bytes]", "tn": "Tuple[bool, List[int]]", "dU": "Dict[int, Union[A, B]]", "lUi": "List[Union[int, bytes]]",
    "lt": "List[Tuple[int, bytes]]",
}


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    RJ = dict(expect="reject_or_agree")

    def p(name, src, **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=2, bytes_len=1, str_len=1, dict_len=2 if th else 1, any_depth=2 if th else 1, any_width=2 if th else 1)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 4000 if th else 1000)
        out.append(Template(name, TYPING + HEAD + textwrap.dedent(src).strip("\n") + "\n", bounds=b, **kw))

    hard = ("lnone", "dnone", "t2", "tn", "lt", "any", "lany", "dAi", "none", "dil", "lls", "llb")
    for n, t in TYPES.items():
        ex = RJ if n in hard else {}
        small = dict(bounds=dict(list_len=1)) if n in ("W", "D1", "ddi", "ldi") and not th else {}
        if n in ("lstr", "lls", "dsi", "ldi"):
            small = dict(bounds=dict(small.get("bounds", {}), ascii=True))
        p(f"id_{n}", f"def validator(v: {t}) -> {t}:\n    return v\n", **ex, **small)
        p(f"idin_{n}", f"def validator(v: {t}) -> {t}:\n    return v\n", configs=("O1+in", "O2+in"), **RJ, **small)
        p(f"idraw_{n}", f"def validator(v: {t}) -> {t}:\n    return v\n", configs=("O1+raw", "O2+raw", "O2+in+raw"), **RJ, **small)
        p(f"assign_{n}", f"def validator(v: {t}) -> {t}:\n    w = v\n    return w\n", **ex, **small)
        p(f"fn_{n}", f"def f(w: {t}) -> {t}:\n    return w\ndef validator(v: {t}) -> {t}:\n    return f(v)\n", **ex, **small)
        p(f"second_{n}", f"def validator(a: int, v: {t}, b: bytes) -> {t}:\n    assert a != len(b)\n    return v\n", **ex, **small)
        p(f"list_{n}", f"def validator(v: {t}) -> List[{t}]:\n    return [v, v]\n", **RJ, **small)
        if n not in ("W", "D1", "any", "li", "lb", "lbool", "lstr", "lA", "lU", "lli", "llb", "lls", "lany", "dii", "dbb", "dsi", "dAi", "dil", "ddi", "ldi", "lnone", "dnone", "lUi", "dU"):
            p(f"key_{n}", f"def validator(v: {t}) -> Dict[{t}, int]:\n    return {{v: 1}}\n", **RJ, **small)
        p(f"val_{n}", f"def validator(v: {t}) -> Dict[int, {t}]:\n    return {{1: v}}\n", **RJ, **small)
        p(f"any_{n}", f"def validator(v: {t}) -> Anything:\n    return v\n", **RJ, **small)
        if n == "str":
            small = dict(bounds=dict(ascii=True))
        p(f"anyc_{n}", f"def f(d: Anything) -> {t}:\n    x: {t} = d\n    return x\ndef validator(v: {t}) -> {t}:\n    return f(v)\n", **RJ, **small)
        if n not in ("str", "lstr", "dsi", "ldi", "lls", "t2", "tn", "lt", "lnone", "dnone", "none"):
            p(f"field_{n}", f"@dataclass(unsafe_hash=True)\nclass FF(PlutusData):\n    CONSTR_ID = 3\n    k: int\n    f: {t}\ndef validator(v: {t}) -> FF:\n    r = FF(7, v)\n    s = FF(r.k, r.f)\n    return s\n", **RJ, **small)
    # observe decoding
    p("obs_int", "def validator(v: int) -> int:\n    return v * 2 + 1\n")
    p("obs_bool", "def validator(v: bool) -> int:\n    return 5 if v else 6\n")
    p("obs_str", "def validator(v: str) -> str:\n    return v + 'é'\n", bounds=dict(str_len=2))
    p("obs_str_eq", "def validator(v: str, w: str) -> bool:\n    return v == w\n", bounds=dict(str_len=2))
    p("obs_lbool", "def validator(v: List[bool]) -> int:\n    s = 0\n    for x in v:\n        s = s * 2 + (1 if x else 0)\n    return s\n", bounds=dict(list_len=3))
    p("obs_none", "def validator(v: None) -> bool:\n    return v is None\n", **RJ)
    p("obs_none_ne", "def validator(v: None, x: int) -> int:\n    return 0 if v is not None else x\n", **RJ)
    p("obs_none_list", "def validator(v: List[None]) -> int:\n    return len(v)\n", **RJ)
    p("obs_order", "def validator(a: int, b: int, c: int, d: int) -> int:\n    return a + 2 * b + 4 * c + 8 * d\n")
    p("obs_order_mixed", "def validator(a: bytes, b: int, c: bool, d: bytes, e: List[int]) -> bytes:\n    return (a if c else d) + (b'x' if len(e) > b else b'y')\n")
    p("ret_none", "def validator(v: int) -> None:\n    assert v > 0\n", configs=("O1", "O2", "O1+raw", "O2+raw", "default"))
    p("ret_none2", "def validator(v: int) -> None:\n    if v > 0:\n        return None\n    assert v < -5\n", configs=("O1", "O2", "O1+raw", "default"), **RJ)
    p("ret_none_call", "def f(v: int) -> None:\n    assert v > 0\ndef validator(v: int) -> None:\n    return f(v)\n", configs=("O1", "O2", "O1+raw", "default"), **RJ)
    p("ret_bool_raw", "def validator(v: int) -> bool:\n    return v > 3\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_int_raw", "def validator(v: int) -> int:\n    return v - 3\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_str_raw", "def validator(v: str) -> str:\n    return v + 'a'\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_list_raw", "def validator(v: int) -> List[int]:\n    return [v, 2]\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_dict_raw", "def validator(v: int) -> Dict[int, bytes]:\n    return {v: b'q'}\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_A_raw", "def validator(v: int) -> A:\n    return A(v, b'q')\n", configs=("O1", "O2", "O1+raw", "default", "O2+in+raw"))
    p("ret_union", "def validator(v: int) -> Union[int, bytes]:\n    if v > 0:\n        return v\n    return b'q'\n", configs=("O1", "O2", "O1+raw", "default"))
    p("ret_union_cls", "def validator(v: int) -> Union[A, B]:\n    if v > 0:\n        return A(v, b'')\n    return B(b'', v, 1)\n", configs=("O1", "O2", "O1+raw", "default"))
    p("ret_any", "def validator(v: int) -> Anything:\n    if v > 0:\n        return A(v, b'')\n    return v\n", configs=("O1", "O2", "O1+raw", "default"), **RJ)
    p("ret_any_list", "def validator(v: int) -> Anything:\n    return [v, 3]\n", configs=("O1", "O2"), **RJ)
    p("ret_any_str", "def validator(v: str) -> Anything:\n    return v\n", configs=("O1", "O2"), **RJ)
    p("in_call", "def validator(v: List[bool], w: str) -> str:\n    return w + ('a' if v[0] else 'b')\n", configs=("O1+in", "O2+in", "O2+in+raw"))
    p("in_dict", "def validator(v: Dict[int, bool], w: int) -> bool:\n    return not v[w]\n", configs=("O1+in", "O2+in", "O2+in+raw"))
    p("in_order", "def validator(a: int, b: bytes, c: bool) -> int:\n    return a + len(b) * 10 if c else a - len(b)\n", configs=("O1+in", "O2+in", "O2+in+raw"))
    p("nested_str", "def validator(v: Dict[str, List[str]]) -> List[str]:\n    return [k + x for k in v.keys() for x in v[k]]\n", **RJ)
    p("nested_obs", "def validator(v: Dict[int, Dict[bytes, bool]], a: int, b: bytes) -> bool:\n    return not v[a][b]\n")
    p("list_dict_obs", "def validator(v: List[Dict[int, str]]) -> str:\n    return v[0][1] + '!'\n")
    p("W_rebuild", "def validator(w: W) -> W:\n    return W(A(w.a.x, w.a.y), w.u, [x for x in w.l])\n")
    p("main_is_last_def", "def validator(v: int) -> int:\n    return v\ndef helper(a: int) -> int:\n    return validator(a) + 1\n", **RJ)
    p("validator_called", "def g(a: int) -> int:\n    return a + 1\ndef validator(v: int) -> int:\n    return validator(v - 1) if v > 2 else g(v)\n", bounds=dict(int_range=(None, 4)), **RJ)
    p("param_named_like_helper", "def f(validator2: int) -> int:\n    return validator2\ndef validator(val_param0: int, val_param1: int) -> int:\n    return f(val_param1) - 3 * val_param0\n")
    return out
