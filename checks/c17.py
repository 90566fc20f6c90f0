"""C17: programs the type checker accepts are well typed."""
import re
import zlib
from .lib import TYPING
from symx.tv import Template
from symx.batch import batch

PROPERTY = "C17"
LEVEL = "translation_validation"
EXPLANATION = (
    "Every combination of operand types for every operator, comparison, builtin and method, every (value type, expected type) pair for "
    "each way a value flows into a typed place (assignment, annotation, argument, return, field, container element, branch merge, loop, "
    "default value) followed by a type-specific use, and a family of isinstance-narrowing shapes is given to /repo's compiler in this run. "
    "What it accepts is executed symbolically next to CPython; z3 decides that they agree for every input within the bounds. Rejection is "
    "allowed. The quick tier decides a fixed sample of the combinations (each at one optimization level), the thorough tier all of them."
)
ASSUMPTIONS = [
    "arguments are well-formed encodings of the declared types",
    "an annotated assignment that narrows an untyped or union value is the programmer's assertion (its conversion is decided by C09 and C11)",
    "equality, membership and hashing of untyped values: python's wrapper objects equal no value of another type, so programs that compare an untyped with a typed value are left to C08",
    "and/or over operands that are not booleans only occur inside conditions (finding boolop-operand)",
]
BUDGET = dict(quick=170, thorough=1500)

HEAD = TYPING + """from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 0
    x: int
    y: bytes
@dataclass(unsafe_hash=True)
class A2(PlutusData):
    CONSTR_ID = 0
    y: bytes
    x: int
@dataclass(unsafe_hash=True)
class A3(PlutusData):
    CONSTR_ID = 0
    x: int
    y: bytes
    w: int
@dataclass(unsafe_hash=True)
class A4(PlutusData):
    CONSTR_ID = 0
    x: int
@dataclass(unsafe_hash=True)
class A5(PlutusData):
    CONSTR_ID = 0
    z: bytes
    zz: int
@dataclass(unsafe_hash=True)
class A6(PlutusData):
    CONSTR_ID = 0
    x: int
    z: int
@dataclass(unsafe_hash=True)
class B(PlutusData):
    CONSTR_ID = 1
    y: bytes
    x: int
@dataclass(unsafe_hash=True)
class K(PlutusData):
    CONSTR_ID = 2
    x: int
    b: bytes
@dataclass(unsafe_hash=True)
class N(PlutusData):
    CONSTR_ID = 3
"""
_IMPORTS, *_CLASSES = re.split(r"(?m)^(?=@dataclass)", HEAD)
_CLASSES = {re.search(r"class (\w+)", c).group(1): c for c in _CLASSES}


def program(body):
    """the body after the imports and the classes that it mentions"""
    return _IMPORTS + "".join(c for n, c in _CLASSES.items() if re.search(rf"\b{n}\b", body)) + body


# the types; what a use of a value of that type looks like (works on every value of the type)
T = {
    "int": ("int", ["a + 1", "a // 2", "-a"]),
    "bool": ("bool", ["not a", "1 if a else 2"]),
    "bytes": ("bytes", ["a + b'q'", "len(a)", "a == b'q'"]),
    "str": ("str", ["a + 'q'", "a.encode()"]),
    "none": ("None", ["a is None", "a == None"]),
    "A": ("A", ["a.y + b'q'", "a.x + 1", "a"]),
    "A2": ("A2", ["a.y + b'q'", "a.x + 1"]),
    "A3": ("A3", ["a.w + 1", "a.y"]),
    "A4": ("A4", ["a.x + 1", "a"]),
    "A5": ("A5", ["len(a.z) + a.zz", "a.z", "a"]),
    "A6": ("A6", ["a.z + 1", "a.x", "a"]),
    "B": ("B", ["a.x + 1", "a.y", "a"]),
    "N": ("N", ["a"]),
    "AB": ("Union[A, B]", ["a.x + 1", "a.y", "a.x if isinstance(a, A) else len(a.y)"]),
    "ABK": ("Union[A, B, K]", ["a.x + 1", "len(a.b) if isinstance(a, K) else len(a.y)"]),
    "AN": ("Union[A, N]", ["a.x if isinstance(a, A) else 7"]),
    "ib": ("Union[int, bytes]", ["a + 1 if isinstance(a, int) else len(a)"]),
    "Ai": ("Union[A, int]", ["a + 1 if isinstance(a, int) else a.x"]),
    "li": ("List[int]", ["sum(a)", "a[0] + 1", "len(a)", "a + [1]"]),
    "lb": ("List[bytes]", ["len(a[0])", "a + [b'q']"]),
    "lbool": ("List[bool]", ["not a[0]", "any(a)"]),
    "lA": ("List[A]", ["a[0].x + 1", "a[0].y"]),
    "lAB": ("List[Union[A, B]]", ["a[0].x + 1"]),
    "dib": ("Dict[int, bytes]", ["len(a[1])", "[len(a[q]) + q for q in a]"]),
    "dbi": ("Dict[bytes, int]", ["a[b''] + 1", "[a[q] for q in a]"]),
    "lli": ("List[List[int]]", ["a[0][0] + 1"]),
    "any": ("Anything", ["a", "a == a"]),
    "t": ("Tuple[int, bytes]", ["a[0] + 1", "len(a[1])"]),
}
BND = dict(list_len=1, bytes_len=1, str_len=1, dict_len=1, any_depth=1, any_width=1, ascii=True, int_range=(-2, 130))

BINOPS = ["+", "-", "*", "//", "%", "**", "/", "@", "&", "|", "^", "<<", ">>"]
CMPS = ["==", "!=", "<", "<=", ">", ">=", "is", "is not", "in", "not in"]
BINARY = (
    [f"v {o} w" for o in BINOPS + CMPS + ["and", "or"] if o not in ("and", "or")]
    + ["v if w else v", "v if v == w else w", "pow(v, w)", "v[w]", "v[w:]", "v[:w]", "v.get(w, w)", "range(v, w)", "v.index(w)",
       "max(v, w)", "min(v, w)", "[v, w]", "{v: w}", "{v: 1, w: 2}", "{1: v, 2: w}", "(v, w)[0]", "(v, w)[1]", "divmod(v, w)", "int(v, w)",
       "v < w < v", "v == w == v", "f'{v}{w}'", "[z for z in v if w]", "[w for z in v]", "{z: w for z in v}", "v(w)", "print(v, w)",
       "w.join(v)", "isinstance(v, w)", "all([v, w])", "any([v, w])", "max([v, w])", "sum([v, w])", "sorted([v, w])", "A(v, w)", "B(v, w)",
       "v.ljust(w)", "bytes(v, w)", "str(v, w)", "not v == w", "(v == w) == v", "v + w + v", "v * w * v", "1 if v and w else 0", "1 if v or w else 0", "1 if v and w and v else 0", "[v] + [w]",
       "[v] == [w]", "v in [w]", "v in [w, v]", "{v: 1}[w]", "{v: 1}.get(w, 0)", "[v].index(w)", "[v][w]", "w in {v: 1}", "v in {1: w}.values()"]
)
UNARY = [
    "not v", "-v", "+v", "~v", "len(v)", "str(v)", "int(v)", "bool(v)", "bytes(v)", "abs(v)", "sum(v)", "min(v)", "max(v)", "any(v)", "all(v)",
    "sorted(v)", "reversed(v)", "list(v)", "dict(v)", "set(v)", "tuple(v)", "range(v)", "hex(v)", "oct(v)", "bin(v)", "chr(v)", "ord(v)", "print(v)", "repr(v)",
    "v[0]", "v[1:]", "v[:1]", "v[-1]", "v.decode()", "v.encode()", "v.hex()", "v.x", "v.y", "v.b", "v.w", "v.keys()", "v.values()", "v.items()",
    "v.CONSTR_ID", "v.to_cbor()", "hash(v)", "f'{v}'", "[z for z in v]", "[z + 1 for z in v]", "v()", "v.get(1, 2)", "v.upper()", "bytes.fromhex(v)",
    "isinstance(v, int)", "isinstance(v, bytes)", "isinstance(v, A)", "isinstance(v, B)", "isinstance(v, N)", "isinstance(v, A2)", "isinstance(v, List)", "isinstance(v, bool)", "isinstance(v, str)",
    "1 if v else 2", "[1 for z in [1] if v]", "v is None", "v == None", "v == True", "v == 1", "v == b''", "v == ''", "v == []", "v == {}", "None if v else 1",
    "1 if v and 1 else 0", "1 if v or 1 else 0", "1 if 1 and v else 0", "1 if 0 or v else 0", "1 if v and v else 0", "1 if v or v else 0", "[v] * 2", "2 * [v]", "v[0][0]", "v[b'']", "v['']", "v[1]", "v[0:1]", "len([v])", "str([v])", "str((v, v))", "str({1: v})",
    "[v][0]", "{1: v}[1]", "(v, 1)[0]", "A(v, v)", "A(v, b'')", "A(1, v)", "A(x=v, y=b'')", "N(v)", "A(v)", "A4(v)", "K(1, v)",
    "sum([v])", "all([v])", "max([v, v])", "{v: v}", "[[v]]", "v % 2", "2 ** v", "v // 0", "1 < v < 3", "v in [1]", "v in [b'']", "1 in v", "b'' in v", "'' in v",
]
# flows of a value `v: {s}` (and, where present, `w: {t}` and `c: bool`) into a place of type {t}; the result is used as {use}
FLOWS = {
    "ann": "def validator(v: {s}) -> Anything:\n    a: {t} = v\n    return {use}\n",
    "arg": "def f(a: {t}) -> Anything:\n    return {use}\ndef validator(v: {s}) -> Anything:\n    return f(v)\n",
    "kwarg": "def f(k: int, a: {t}) -> Anything:\n    return {use}\ndef validator(v: {s}) -> Anything:\n    return f(a=v, k=1)\n",
    "ret": "def f(v: {s}) -> {t}:\n    return v\ndef validator(v: {s}) -> Anything:\n    a = f(v)\n    return {use}\n",
    "ret2": "def f(v: {s}, w: {t}, c: bool) -> {t}:\n    if c:\n        return w\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = f(v, w, c)\n    return {use}\n",
    "ret3": "def f(v: {s}, w: {t}, c: bool) -> {t}:\n    if c:\n        return v\n    else:\n        return w\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = f(v, w, c)\n    return {use}\n",
    "noret": "def f(v: {s}, c: bool) -> {t}:\n    if c:\n        return v\ndef validator(v: {s}, c: bool) -> Anything:\n    a = f(v, c)\n    return {use}\n",
    "retw": "def f(v: {s}, w: {t}, c: bool) -> {t}:\n    while c:\n        return v\n    return w\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = f(v, w, c)\n    return {use}\n",
    "infer": "def f(v: {s}, w: {t}, c: bool):\n    if c:\n        return w\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = f(v, w, c)\n    return {use}\n",
    "field": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    k: int\n    f: {t}\ndef validator(v: {s}) -> Anything:\n    r = F(1, v)\n    a = r.f\n    return {use}\n",
    "fieldkw": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    k: int\n    f: {t}\ndef validator(v: {s}) -> Anything:\n    r = F(f=v, k=1)\n    a = r.f\n    return {use}\n",
    "fieldarg": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    f: {s}\ndef validator(r: F) -> Anything:\n    a: {t} = r.f\n    return {use}\n",
    "twin": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    f: {s}\n@dataclass(unsafe_hash=True)\nclass G(PlutusData):\n    CONSTR_ID = 9\n    f: {t}\ndef f(r: G) -> Anything:\n    a = r.f\n    return {use}\ndef validator(r: F) -> Anything:\n    return f(r)\n",
    "twinlist": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    f: {s}\n@dataclass(unsafe_hash=True)\nclass G(PlutusData):\n    CONSTR_ID = 9\n    f: {t}\ndef f(rs: List[G]) -> Anything:\n    a = rs[0].f\n    return {use}\ndef validator(r: F) -> Anything:\n    return f([r])\n",
    "unionflow": "def f(u: Union[{t}, N]) -> Anything:\n    if isinstance(u, N):\n        return 0\n    a = u\n    return {use}\ndef validator(v: {s}) -> Anything:\n    return f(v)\n",
    "cont_l": "def f(l: List[{t}]) -> Anything:\n    a = l[0]\n    return {use}\ndef validator(v: List[{s}]) -> Anything:\n    return f(v)\n",
    "cont_dv": "def f(l: Dict[int, {t}]) -> Anything:\n    a = l[1]\n    return {use}\ndef validator(v: Dict[int, {s}]) -> Anything:\n    return f(v)\n",
    "cont_dk": "def f(l: Dict[{t}, int]) -> Anything:\n    a = list(l.keys())[0]\n    return {use}\ndef validator(v: Dict[{s}, int]) -> Anything:\n    return f(v)\n",
    "elem1": "def validator(v: {s}) -> Anything:\n    l: List[{t}] = [v]\n    a = l[0]\n    return {use}\n",
    "elem2": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [w, v]\n    a = l[1]\n    return {use}\n",
    "elem3": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [v, w]\n    a = l[0]\n    return {use}\n",
    "elemn": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [[w], [v]]\n    a = l[1][0]\n    return {use}\n",
    "dval": "def validator(v: {s}, w: {t}) -> Anything:\n    d = {{1: w, 2: v}}\n    a = d[2]\n    return {use}\n",
    "dval2": "def validator(v: {s}, w: {t}) -> Anything:\n    d = {{2: v, 1: w}}\n    a = d[2]\n    return {use}\n",
    "dkey": "def validator(v: {s}, w: {t}) -> Anything:\n    d = {{w: 1, v: 2}}\n    r = [{use} for a in d]\n    return r\n",
    "concat": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [w] + [v]\n    a = l[1]\n    return {use}\n",
    "aug": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [w]\n    l += [v]\n    a = l[1]\n    return {use}\n",
    "branch": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    if c:\n        a = w\n    else:\n        a = v\n    return {use}\n",
    "branch2": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    if c:\n        a = v\n    else:\n        a = w\n    return {use}\n",
    "half": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = w\n    if c:\n        a = v\n    return {use}\n",
    "elif": "def validator(v: {s}, w: {t}, c: bool, e: bool) -> Anything:\n    if c:\n        a = w\n    elif e:\n        a = w\n    else:\n        a = v\n    return {use}\n",
    "ifexp": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = w if c else v\n    return {use}\n",
    "ifexp2": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = v if c else w\n    return {use}\n",
    "ifexpl": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    l = [w] if c else [v]\n    a = l[0]\n    return {use}\n",
    "loop": "def validator(v: {s}, w: {t}, n: int) -> Anything:\n    a = w\n    r = [{use}]\n    i = 0\n    while i < n:\n        a = v\n        i += 1\n    return [{use}]\n",
    "loopu": "def validator(v: {s}, w: {t}, n: int) -> Anything:\n    a = w\n    i = 0\n    b = False\n    while i < n:\n        b = len([{use}]) == 1\n        a = v\n        i += 1\n    return b\n",
    "for": "def validator(v: {s}, w: {t}, n: int) -> Anything:\n    a = w\n    for i in range(n):\n        a = v\n    return {use}\n",
    "fore": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    for a in [w, w]:\n        if c:\n            a = v\n    return {use}\n",
    "reassign": "def validator(v: {s}, w: {t}) -> Anything:\n    a = w\n    a = v\n    return {use}\n",
    "get": "def validator(v: {s}, w: Dict[int, {t}]) -> Anything:\n    a = w.get(1, v)\n    return {use}\n",
    "compr": "def validator(v: {s}) -> Anything:\n    l: List[{t}] = [q for q in [v]]\n    a = l[0]\n    return {use}\n",
    "tuple": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = (w, 1)\n    if c:\n        p = (v, 1)\n    a = p[0]\n    return {use}\n",
    "tuplen": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = (w, w) if c else (w, w, v)\n    a = p[1]\n    return {use}\n",
    "tuplestr": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = (w, w)\n    if c:\n        p = (v, w, v)\n    a = p[1]\n    return [str(p[0]), str(p), len(str(p))]\n",
    "tuplecmp": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = (w, w)\n    if c:\n        p = (w, v)\n    a = p[0]\n    return [p[0] == p[1], p[1] == w]\n",
    "tupleunp": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = (w, w)\n    if c:\n        p = (v, w, v)\n    a, b = p\n    return {use}\n",
    "tupleseq": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    for a in (w, v):\n        r = {use}\n    return r\n",
    "tuplelist": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = [(w, 1), (v, 2)][1][0]\n    return {use}\n",
    "items": "def validator(v: {s}, w: {t}) -> Anything:\n    l = [a for _, a in {{1: w, 2: v}}.items()]\n    return [{use} for a in l]\n",
    "pair": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    p = [q for q in {{1: w}}.items()][0] if c else [q for q in {{1: v}}.items()][0]\n    a = p[1]\n    return {use}\n",
    "fun2": "def g1(a: {t}) -> Anything:\n    return {use}\ndef g2(a: {s}) -> Anything:\n    return 0\ndef validator(v: {s}, c: bool) -> Anything:\n    h = g1 if c else g2\n    return h(v)\n",
    "fun3": "def g1(a: {t}) -> Anything:\n    return {use}\ndef g2(a: {s}) -> Anything:\n    return 0\ndef validator(v: {s}, c: bool) -> Anything:\n    h = g2\n    if c:\n        h = g1\n    return h(v)\n",
    "fun4": "def g1(a: {t}) -> Anything:\n    return {use}\ndef g2(a: {s}) -> Anything:\n    return 0\ndef validator(v: {s}, c: bool) -> Anything:\n    if c:\n        h = g1\n    else:\n        h = g2\n    return h(v)\n",
    "fun5": "def g1(v: {s}, w: {t}) -> {t}:\n    return w\ndef g2(v: {s}, w: {t}) -> {s}:\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    h = g1\n    if c:\n        h = g2\n    a = h(v, w)\n    return {use}\n",
    "fun6": "def g1(v: {s}, w: {t}) -> {t}:\n    return w\ndef g2(v: {s}, w: {t}) -> {s}:\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    if c:\n        h = g2\n    else:\n        h = g1\n    a = h(v, w)\n    return {use}\n",
    "fun7": "def g1(v: {s}, w: {t}) -> {t}:\n    return w\ndef g2(v: {s}, w: {t}) -> {s}:\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    h = g2 if c else g1\n    a = h(v, w)\n    return {use}\n",
    "fun8": "def g1(v: {s}, w: {t}) -> {t}:\n    return w\ndef g2(v: {s}, w: {t}) -> {s}:\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    h = g1 if c else g2\n    a = h(v, w)\n    return {use}\n",
    "funrec": "def g(v: {s}, w: {t}, n: int):\n    if n == 0:\n        return v\n    return g(w, w, n - 1)\ndef validator(v: {s}, w: {t}) -> Anything:\n    a = g(v, w, 1)\n    return {use}\n",
    "method": "@dataclass(unsafe_hash=True)\nclass F(PlutusData):\n    CONSTR_ID = 9\n    k: {s}\n    def m(self, a: {t}) -> Anything:\n        return {use}\ndef validator(r: F) -> Anything:\n    return r.m(r.k)\n",
    "default": "def validator(v: {s}, w: Dict[int, {t}]) -> Anything:\n    a = w[1] if 1 in w else v\n    return {use}\n",
    "lcond": "def validator(v: {s}, w: List[{t}]) -> Anything:\n    l = [q for q in w] + [v for q in w]\n    a = l[1]\n    return {use}\n",
    "idx": "def validator(v: {s}, w: List[{t}]) -> Anything:\n    i = w.index(v)\n    a = w[i]\n    return {use}\n",
    "isin": "def validator(v: {s}, w: List[{t}]) -> Anything:\n    return v in w\n",
    "isin2": "def validator(v: {s}, w: Dict[int, {t}]) -> Anything:\n    return v in w.values()\n",
    "eq1": "def validator(v: List[{s}], w: List[{t}]) -> Anything:\n    return [v == w, v != w, w == v]\n",
    "eq2": "def validator(v: Dict[int, {s}], w: Dict[int, {t}]) -> Anything:\n    return [v == w, v != w, w == v]\n",
    "unpack": "def validator(v: {s}, w: {t}) -> Anything:\n    a = w\n    a, b = (v, w)\n    return {use}\n",
    "closure": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = w\n    def g() -> Anything:\n        return {use}\n    if c:\n        a = v\n    return g()\n",
    "fun": "def g1(a: {t}) -> Anything:\n    return {use}\ndef g2(a: {s}) -> Anything:\n    return 0\ndef validator(v: {s}, c: bool) -> Anything:\n    h = g2 if c else g1\n    return h(v)\n",
    "funr": "def g1(v: {s}) -> {t}:\n    return w0\ndef g2(v: {s}) -> {s}:\n    return v\ndef validator(v: {s}, w: {t}, c: bool) -> Anything:\n    def g3(u: {s}) -> {t}:\n        return w\n    def g4(u: {s}) -> {s}:\n        return u\n    h = g3 if c else g4\n    a = h(v)\n    return {use}\n",
    "global": "def validator(v: {s}, w: {t}, c: bool) -> Anything:\n    a = w\n    def s(q: {s}) -> {t}:\n        a = q\n        return a\n    a = s(v)\n    return {use}\n",
    "lit": "def validator(v: {s}, w: {t}) -> Anything:\n    for a in [w, v]:\n        if not len([{use}]) == 1:\n            return 0\n    return 1\n",
}
KEYED = ("{v:", "{z: w", "in {v", "{1: v, 2: w}.")  # python cannot hash an untyped data value; the script can compare it


UNIONS = ("AB", "ABK", "AN", "ib", "Ai", "lAB", "any")


def artefact(e, *names):
    """Disagreements that come from how python represents the argument, not from the program (DESIGN, C17)."""
    if "any" in names and (e.startswith("isinstance") or any(k in e for k in KEYED)):
        return True
    if "any" in names and len(set(names)) > 1 and ("==" in e or "!=" in e or " in " in e or ".index" in e):
        return True  # python's wrapper of an untyped value equals no other value
    return names[0] == "str" and e.startswith("str(") and e != "str(v)"  # finding nested-str-repr (C03)


QUICK_T = ("int", "bool", "bytes", "str", "none", "A", "A2", "A3", "A4", "A5", "A6", "B", "AB", "ABK", "ib", "Ai", "li", "lb", "lA", "dib", "any", "t")


def expr_batches(tier, rng, P):
    th = tier == "thorough"
    names = list(T)
    out = []
    for n in names:
        ts = [P(f"un_{n}_{i}", program(f"def validator(v: {T[n][0]}) -> Anything:\n    return {e}\n")) for i, e in enumerate(UNARY) if not artefact(e, n)]
        out.append(batch(f"unary_{n}", ts))
        ts = []
        for i, e in enumerate(BINARY):
            for m in names:
                if artefact(e, n, m):
                    continue
                ts.append(P(f"bin_{n}_{m}_{i}", program(f"def validator(v: {T[n][0]}, w: {T[m][0]}) -> Anything:\n    return {e}\n")))
        k = 13 if th else 3
        for j in range(k):
            part = ts[j::k]
            out.append(batch(f"binary_{n}_{j}", part if th else rng.sample(part, len(part) // 4)))
    return out


def flow_batches(tier, rng, P):
    th = tier == "thorough"
    out = []
    names = list(T) if th else list(QUICK_T)
    for f, sk in FLOWS.items():
        ts, same = [], []
        for s in names:
            for t in names:
                if s == "any" and t != "any":
                    continue  # an explicit cast from Anything asserts the type (C09, C11)
                if f in ("ann", "fieldarg", "elem1", "compr") and s in UNIONS and t != s and (s, t) != ("AB", "ABK"):
                    continue  # so is an annotated assignment of a union to one of its members
                if f in ("idx", "isin", "isin2", "eq1", "eq2", "tuplecmp") and t == "any" and s != "any":
                    continue  # python's wrapper of an untyped value equals no other value
                if (f in ("field", "fieldkw", "twin", "twinlist") and t == "str") or (f in ("fieldarg", "twin", "twinlist", "method") and s == "str"):
                    continue  # pycardano's data classes have no text fields
                if f in ("dkey", "cont_dk") and "any" in (s, t):
                    continue
                uses = T[t][1]
                uses = uses if th else [rng.choice(uses)]
                for i, u in enumerate(uses):
                    ts.append(P(f"{f}_{s}_{t}_{i}", program(sk.format(s=T[s][0], t=T[t][0], use=u)), bounds=dict(int_range=(-2, 2)) if f in ("loop", "loopu", "for") else {}))
                    if s == t:
                        same.append(ts[-1])
        if not th:
            ts = rng.sample(ts, min(len(ts), 150))
            ts += rng.sample(same, 6)
            ts = list({t.name: t for t in ts}.values())
        k = max(1, len(ts) // 60)
        for j in range(k):
            out.append(batch(f"flow_{f}_{j}", ts[j::k]))
    return out


# --- the flows again, for values whose type is known from a test only (their representation differs from that of a declared value)
NARROWED = {
    "guard": "    if isinstance(v, {S}):\n{b2}    return 0\n",
    "after": "    if isinstance(v, N):\n        return 0\n{b1}",
    "assert": "    assert isinstance(v, {S})\n{b1}",
    "else": "    if isinstance(v, N):\n        return 0\n    else:\n{b2}",
}
NARROWED_T = {"int": "int", "bytes": "bytes", "A": "A", "lany": "List", "dany": "Dict"}
T_ANY = {"lany": ("List[Anything]", ["len(a)", "a[0]"]), "dany": ("Dict[Anything, Anything]", ["len(a)", "len(a.keys())"])}
NARROWED_TO = {"int": ("int", "ib", "Ai", "any"), "bytes": ("bytes", "ib", "int"), "A": ("A", "AB", "Ai", "A4"), "lany": ("lany", "any"), "dany": ("dany", "any")}


def narrowed_flow_batches(tier, rng, P):
    th = tier == "thorough"
    out = []
    TT = dict(T, **T_ANY)
    for f, sk in FLOWS.items():
        m = re.fullmatch(r"(?s)(.*)def validator\((.*?)\) -> Anything:\n(.*)", sk)
        pre, args, body = m.groups()
        if "v: {s}" not in args:
            continue
        ts = []
        for s, S in NARROWED_T.items():
            for t in NARROWED_TO[s]:
                if f in ("idx", "isin", "isin2", "eq1", "eq2", "tuplecmp") and t == "any":
                    continue
                if f in ("dkey", "cont_dk") and t in ("any", "lany", "dany"):
                    continue
                for who in ("v", "w", "vw") if "w: {t}" in args and s == t else ("v",):
                    for style, shape in NARROWED.items():
                        a, b = args, body
                        if "v" in who:
                            a = a.replace("v: {s}", "v: Union[{s}, N]")
                            lines = b
                            ind = "".join("    " + l + "\n" for l in lines.splitlines())
                            b = shape.replace("{S}", S).replace("{b1}", lines).replace("{b2}", ind)
                        if "w" in who:
                            a = a.replace("w: {t}", "w: Union[{t}, N]")
                            b = "    if isinstance(w, N):\n        return 0\n" + b
                        uses = TT[t][1]
                        for i, u in enumerate(uses if th else [rng.choice(uses)]):
                            src = program((pre + f"def validator({a}) -> Anything:\n" + b).format(s=TT[s][0], t=TT[t][0], use=u))
                            bnd = dict(any_depth=0, dict_len=1)
                            if th and i and style != "guard":
                                continue
                            if f in ("loop", "loopu", "for"):
                                bnd["int_range"] = (-2, 2)
                            ts.append(P(f"n{f}_{s}_{t}_{who}_{style}_{i}", src, bounds=bnd))
        if not th:
            ts = rng.sample(ts, min(len(ts), 10))
        k = max(1, len(ts) // 60)
        for j in range(k):
            out.append(batch(f"nflow_{f}_{j}", ts[j::k]))
    return out


# --- narrowing: conditions over type tests, the places they guard, and uses that need the narrowed type
CTX = {
    "if": "    if {c}:\n        return {u}\n    return 0\n",
    "else": "    if {c}:\n        return 0\n    else:\n        return {u}\n",
    "after": "    if {c}:\n        return 0\n    return {u}\n",
    "afterelse": "    if {c}:\n        pass\n    else:\n        return 0\n    return {u}\n",
    "both": "    r: Anything = 0\n    if {c}:\n        r = 1\n    r = {u}\n    return r\n",
    "ifexp": "    return {u} if ({c}) else 0\n",
    "ifexpelse": "    return 0 if ({c}) else {u}\n",
    "assert": "    assert ({c})\n    return {u}\n",
    "andx": "    return ({c}) and {u} == {u}\n",
    "orx": "    return ({c}) or {u} == {u}\n",
    "nandx": "    return not ({c}) and {u} == {u}\n",
    "while": "    while {c}:\n        return {u}\n    return 0\n",
    "whileafter": "    i = 0\n    while i < 1 and not ({c}):\n        i += 1\n    return {u}\n",
    "elif": "    if not c:\n        return 1\n    elif {c}:\n        return {u}\n    return 2\n",
    "elifelse": "    if not c:\n        return 1\n    elif {c}:\n        return 3\n    else:\n        return {u}\n",
    "compr": "    return [{u} for q in [1] if ({c})]\n",
    "compr2": "    return [{u} for q in [1] if c if ({c})]\n",
    "comprel": "    return [{u2} for q in [u, u] if ({c2})]\n",
    "reassign": "    if {c}:\n        u = w\n        return {u}\n    return 0\n",
    "reassign2": "    if {c}:\n        u = w\n    return {u}\n",
    "copy": "    z = u\n    if {c}:\n        return {uz}\n    return 0\n",
    "copyafter": "    if {c}:\n        z = u\n    else:\n        z = w\n    return {uz}\n",
    "copyafter2": "    if {c}:\n        z = w\n    else:\n        z = u\n    return {uz}\n",
    "fun": "    if {c}:\n        def g() -> Anything:\n            return {u}\n        return g()\n    return 0\n",
    "funlate": "    def g() -> Anything:\n        return {u}\n    if {c}:\n        return g()\n    return 0\n",
    "funesc": "    if {c}:\n        def g() -> Anything:\n            return {u}\n    u = w\n    return g()\n",
    "funloop": "    r: Anything = 0\n    for z in [u, w]:\n        if {cz}:\n            def g() -> Anything:\n                return {uz}\n        r = g()\n    return r\n",
    "funassert": "    def g() -> Anything:\n        return {u}\n    if c:\n        return g()\n    assert ({c})\n    return g()\n",
    "nested": "    if {c}:\n        if c:\n            return {u}\n        return 1\n    return 0\n",
    "loopflow": "    r: Anything = 0\n    for i in range(2):\n        if {c}:\n            r = {u}\n        u = w\n    return r\n",
    "loopback": "    r: Anything = 0\n    if {c}:\n        for i in range(2):\n            r = {u}\n            u = w\n    return r\n",
    "loopback2": "    r: Anything = 0\n    i = 0\n    while i < 2 and ({c}):\n        r = {u}\n        i += 1\n        u = w\n    return r\n",
    "listof": "    if {c}:\n        l = [u]\n        z = l[0]\n        return {uz}\n    return 0\n",
    "arg": "    if {c}:\n        return use(u)\n    return 0\n",
    "init": "    z = {z0}\n    if {c}:\n        z = u\n    return {uz}\n",
    "initelse": "    z = {z0}\n    if {c}:\n        z = {z0}\n    else:\n        z = u\n    return {uz}\n",
    "initboth": "    if {c}:\n        z = u\n    else:\n        z = {z0}\n    return {uz}\n",
    "initelif": "    z = {z0}\n    if c:\n        pass\n    elif {c}:\n        z = u\n    return {uz}\n",
    "initwhile": "    z = {z0}\n    i = 0\n    while i < 2:\n        if {c}:\n            z = u\n        i += 1\n    return {uz}\n",
    "initfor": "    z = {z0}\n    for q in [u, w]:\n        if {c}:\n            z = u\n    return {uz}\n",
    "initfun": "    z = {z0}\n    def g() -> Anything:\n        return {uz}\n    if {c}:\n        z = u\n    return g()\n",
    "initnested": "    z = {z0}\n    if c:\n        if {c}:\n            z = u\n        else:\n            z = {z0}\n    return {uz}\n",
    "initifexp": "    z = u if ({c}) else {z0}\n    return {uz}\n",
    "initlist": "    z = ([u] if ({c}) else [{z0}])[0]\n    return {uz}\n",
    "initback": "    if {c}:\n        z = u\n        z = {z0}\n        z = u\n    else:\n        z = {z0}\n    return {uz}\n",
    "argelse": "    if {c}:\n        return 0\n    return use(u)\n",
}
# a value of (a member of) the type that a use needs
Z0 = {"Union[A, B]": "A(1, b'q')", "K": "K(1, b'q')", "Union[B, K]": "B(b'q', 1)", "A": "A(1, b'q')", "B": "B(b'q', 1)", "int": "3", "bytes": "b'qq'", "List[Anything]": "[]"}
FAM = {
    # family: (union, [member tests], [(use of u, type needed by a function using it)])
    "rec": ("Union[A, B, K]", ["A", "B", "K"], [("{u}.y", "Union[A, B]"), ("{u}.b", "K"), ("{u}.x + 1", "Union[B, K]")]),
    "rec2": ("Union[A, B]", ["A", "B"], [("{u}.x + 1", "A"), ("{u}.y", "B")]),
    "prim": ("Union[int, bytes]", ["int", "bytes"], [("{u} + 1", "int"), ("len({u})", "bytes")]),
    "mix": ("Union[A, int, bytes]", ["A", "int", "bytes"], [("{u}.x + 1", "A"), ("{u} + 1", "int"), ("len({u})", "bytes")]),
    "cont": ("Union[int, List[Anything], Dict[Anything, Anything]]", ["int", "List", "Dict"], [("{u} + 1", "int"), ("len({u})", "List[Anything]")]),
}


def conds(members, th):
    at = [f"isinstance(u, {m})" for m in members]
    wt = f"isinstance(w, {members[0]})"
    out = list(at) + [f"not {a}" for a in at] + [f"not (not {at[0]})"]
    for i, a in enumerate(at):
        b = at[(i + 1) % len(at)]
        out += [f"{a} or {b}", f"{a} and {b}", f"not ({a} or {b})", f"not ({a} and {b})", f"not {a} and not {b}", f"not {a} or not {b}",
                f"not {a} or {b}", f"{a} and not {b}"]
    for a in at[:2]:
        out += [f"{a} and c", f"c and {a}", f"{a} or c", f"c or {a}", f"not ({a} and c)", f"not ({a} or c)", f"not (c and not {a})", f"not {a} and c",
                f"not {a} or c", f"{a} and ({wt} or c)", f"{a} or {wt}", f"{wt} and {a}", f"not ({a} and {wt})", f"({a} and c) or ({a} and not c)",
                f"({a} and c) or {at[1]}", f"({a} or c) and {at[-1]}", f"({a} or {at[-1]}) and c", f"({a} or {at[-1]}) and not {at[-1]}", f"{a} == True", f"{a} == c", f"{a} != c",
                f"bool({a})", f"{a} if c else {at[-1]}", f"{a} if c else c", f"not ({a} if c else {at[-1]})", f"c and not {a}", f"{wt}", f"not {wt}"]
    return list(dict.fromkeys(out))


def narrow_batches(tier, rng, P):
    th = tier == "thorough"
    out = []
    for fam, (union, members, uses) in FAM.items():
        for cx, body in CTX.items():
            ts = []
            for i, c in enumerate(conds(members, th)):
                for j, (use, need) in enumerate(uses):
                    fn = f"def use(p: {need}) -> Anything:\n    return {use.format(u='p')}\n" if "use(" in body else ""
                    b = body.format(z0=Z0[need], c=c, c2=c.replace("(u,", "(q,"), cz=c.replace("(u,", "(z,"), u=use.format(u="u"), u2=use.format(u="q"), uz=use.format(u="z"))
                    src = program(fn + f"def validator(u: {union}, w: {union}, c: bool) -> Anything:\n{b}")
                    ts.append(P(f"{fam}_{cx}_{i}_{j}", src, bounds=dict(any_depth=0, dict_len=0)))
            if not th:
                ts = rng.sample(ts, min(len(ts), 14))
            k = max(1, len(ts) // 40)
            for j in range(k):
                out.append(batch(f"narrow_{fam}_{cx}_{j}", ts[j::k]))
    return out


def tasks(tier, rng):
    th = tier == "thorough"
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")

    def P(name, src, **kw):
        kw = dict(kw)
        b = dict(BND)
        b.update(kw.pop("bounds", {}))
        # one level per program in the quick tier
        c = cf if th else cf[zlib.crc32(name.encode()) % 2 :][:1]
        return Template(name, src, bounds=b, configs=c, expect="reject_or_agree", max_paths=400 if th else 60, witnesses=1, **kw)

    out = expr_batches(tier, rng, P)
    out += flow_batches(tier, rng, P)
    out += narrowed_flow_batches(tier, rng, P)
    out += narrow_batches(tier, rng, P)
    return out
