"""C10: optimisation levels and flags preserve behaviour."""
import textwrap, random
from .lib import TYPING
from . import gen
from .c08 import HEAD
from symx.runner import Task
from symx import cross

PROPERTY = "C10"
LEVEL = "translation_validation"
EXPLANATION = (
    "Each program is compiled by /repo's compiler in this run at -O0..-O3 and with every optional flag (constant folding, dead code "
    "removal, fast list access, union expansion, trace removal, pattern compression/unfolding); all resulting scripts are executed "
    "symbolically on the same symbolic arguments and z3 decides for all arguments within the bounds that value, failure and (unless "
    "traces are removed) trace output coincide with those of -O0."
)
ASSUMPTIONS = ["execution budgets are not modelled: a script that exceeds its budget at one level only is not a disagreement"]

Q = ("O0", "O1", "O2", "O3", "O1+cf", "O2+eut", "O1+fas2", "O0+dce")
ALL = ("O0", "O1", "O2", "O3", "O0+cf", "O1+cf", "O1+eut", "O2+eut", "O3+eut", "O1+fas", "O1+fas2", "O0+dce", "O1+notrace", "O0+notrace", "O0+cp", "O0+iu", "O0+ci", "O1+nodce")

FLAG = {}


def flag(name, src, **kw):
    FLAG[name] = (TYPING + HEAD + textwrap.dedent(src).strip("\n") + "\n", kw)


# ---- constant folding
for i, (e, t) in enumerate([
    ("(3 + 4 * 2 - 7 // 2 + -7 // 2 + 7 % -3 + 2 ** 5) + x", "int"),
    ("(-7) // 2 + (-7) % 2 + 7 // -2 + (-2) ** 3 + abs(-5) + x", "int"),
    ("x + len('abc') + len(b'ab') + len([1, 2]) if x > 0 else x" , "int"),
    ("[1, 2, 3][1] + [1, 2, 3][-1] + x", "int"),
    ("(b'abc' + b'd')[1:3] + b'x'[x:]", "bytes"),
    ("b'abc'[1] + b'abc'[-1] + x", "int"),
    ("str(12) + str(True) + str(b'a') + str(x)", "str"),
    ("'a' + 'b' * 3 + f'{x}{5}'", "str"),
    ("{1: 2, 3: 4}[3] + {1: 2}.get(5, 7) + x", "int"),
    ("sum([1, 2, 3]) + max([4, 5]) + min([7, -1]) + x", "int"),
    ("(1 < 2) and (x > 3) or not (2 >= 2)", "bool"),
    ("1 < 2 < 3 and x < 5", "bool"),
    ("[y * 2 for y in [1, 2, 3] if y > 1]", "List[int]"),
    ("[y * x for y in range(4)]", "List[int]"),
    ("A(1 + 2, b'a' + b'b').x + x", "int"),
    ("A(3, b'').x + B(b'q', 4, 5).z + x", "int"),
    ("'abc'.encode() + bytes.fromhex('0a0b') + b''.join([b'1', b'2']) if x > 0 else b''", "bytes"),
    ("int('42') + int('-7') + x", "int"),
    ("hex(255) + oct(8) + chr(65) + str(x)", "str"),
    ("isinstance(A(1, b''), A) and x > 0", "bool"),
    ("all([True, x > 0]) or any([False, False])", "bool"),
    ("(2 if 3 > 4 else 5) + x", "int"),
    ("[[1, 2], [3]][0][1] + x", "int"),
    ("10 // x if x != 0 else 10 // 1", "int"),
    ("pow(2, 10) + pow(3, 3) + x", "int"),
    ("'äöü'.encode() + 'ß'.encode() if x > 0 else b'\\xff'", "bytes"),
    ("bytes([1, 2, 3]) + b'\\x00' if x > 0 else bytes([255])", "bytes"),
    ("[b'a', b'b'] + [b'c'] if x > 1 else [b'']", "List[bytes]"),
    ("{b'a': 1, b'b': 2}.values()", "List[int]"),
    ("[True, False, x > 0]", "List[bool]"),
]):
    flag(f"cf{i}", f"def validator(x: int) -> {t}:\n    return {e}\n")
flag("cf_global", """
K = 3 * 7
L = [K, K + 1]
D = {1: b'a', 2: b'b' + b'c'}
S = 'x' + 'y'
def f(a: int) -> int:
    return a * K + L[1]
M = f(2)
def validator(x: int) -> bytes:
    if x > M:
        return D[2] + S.encode()
    return D[x]
""")
flag("cf_fn", """
def f(a: int, b: int) -> int:
    if a <= 0:
        return b
    return f(a - 1, b + a)
K = f(4, 1)
def validator(x: int) -> int:
    return f(3, 2) + K * x
""")
flag("cf_reassign", """
k = 5
def g() -> int:
    return k
def validator(x: int) -> int:
    j = 2 + 3
    if x > 0:
        j = 7
    return g() + j * 10 + x
""")
flag("cf_loopvar", """
def validator(x: int) -> int:
    s = 0
    for i in [1, 2, 3]:
        k = i * 2
        s += k * x
    k = 100
    return s + k
""")
flag("cf_fail", """
def validator(x: int) -> int:
    if x > 3:
        return 1 // 0
    return [1, 2][5] if x > 2 else {1: 2}[3] if x > 1 else x
""")
flag("cf_fail2", """
def f() -> int:
    assert False, 'no'
    return 1
def validator(x: int) -> int:
    if x > 3:
        return f()
    return int('zz') if x > 2 else x
""")
flag("cf_print", """
def f(a: int) -> int:
    print('f')
    return a + 1
K = f(3)
def validator(x: int) -> int:
    print('v')
    y = f(2)
    return K + y + x
""")
flag("cf_class", """
D0 = A(4, b'z')
W0 = W(D0, B(b'', 1, 2), [1, 2])
def validator(x: int) -> int:
    return D0.x + W0.a.x + W0.l[1] + W0.u.x + x
""")
flag("cf_closure", """
def validator(x: int) -> int:
    k = 2
    def f(a: int) -> int:
        return a + k
    r = f(1)
    k = 3
    return r * 100 + f(1) * 10 + x
""")
flag("cf_shadow", """
K = 5
def f(K: int) -> int:
    return K + 1
def g() -> int:
    K = 9
    return K
def validator(x: int) -> int:
    return f(x) + g() * 10 + K * 100
""")
# ---- dead code
flag("dc_unused_fail", "def validator(x: int) -> int:\n    y = 1 // x\n    return 3\n")
flag("dc_unused_index", "def validator(xs: List[int], x: int) -> int:\n    y = xs[x]\n    z = y + 1\n    return 3\n")
flag("dc_unused_key", "def validator(d: Dict[int, int], x: int) -> int:\n    y = d[x]\n    return 3\n")
flag("dc_unused_fn", "def f(a: int) -> int:\n    return 1 // a\ndef g(a: int) -> int:\n    return a\ndef validator(x: int) -> int:\n    z = f(x)\n    return g(x)\n")
flag("dc_unused_print", "def f(a: int) -> int:\n    print(a)\n    return a\ndef validator(x: int) -> int:\n    z = f(x)\n    f(x + 1)\n    return 1\n")
flag("dc_unused_expr", "def validator(x: int, xs: List[int]) -> int:\n    xs[x]\n    x + 1\n    'doc'\n    return 1\n")
flag("dc_unused_cond", "def validator(x: int) -> int:\n    if 1 // x > 2:\n        pass\n    return 1\n")
flag("dc_unused_ite", "def validator(x: int) -> int:\n    y = 1 // x if x > 0 else 1 // (x + 1)\n    return 1\n")
flag("dc_loop_unused", "def validator(xs: List[int]) -> int:\n    y = 0\n    for v in xs:\n        y = 10 // v\n    return 1\n")
flag("dc_loop_pass", "def validator(xs: List[int]) -> int:\n    for v in xs:\n        pass\n    return 1\n")
flag("dc_loop_iter_fail", "def validator(xs: List[int], x: int) -> int:\n    for v in [xs[x]]:\n        pass\n    return 1\n")
flag("dc_while", "def validator(x: int) -> int:\n    y = 0\n    while y < 2:\n        y += 1\n        z = 1 // x\n    return 1\n")
flag("dc_and", "def validator(x: int) -> bool:\n    return False and 1 // x > 0 or True\n")
flag("dc_and2", "def validator(x: int, p: bool) -> int:\n    r = 0\n    if p and False:\n        r = 1\n    if True or p:\n        r += 2\n    if p or True:\n        r += 4\n    if 1 // x > 0 and False:\n        r += 8\n    if 1 // x > 5 or True:\n        r += 16\n    return r\n")
flag("dc_ifconst", "def validator(x: int) -> int:\n    if False:\n        return 1 // x\n    if True:\n        x += 1\n    else:\n        x += 2\n    while False:\n        x = 1 // 0\n    return x\n")
flag("dc_const_cond_print", "def validator(x: int) -> int:\n    if True:\n        print('a')\n    if not False and x > 0:\n        print('b')\n    assert True\n    assert True, 'q'\n    return x\n")
flag("dc_assert_false", "def validator(x: int) -> int:\n    if x > 0:\n        assert False, 'never'\n        return 4\n    return 5\n")
flag("dc_after_return", "def validator(x: int) -> int:\n    if x > 0:\n        return 1\n        x = 3\n    else:\n        return 2\n    return x\n")
flag("dc_unused_global", "K = [1, 2][0]\nJ = K + 1\ndef unused(a: int) -> int:\n    return a + J\ndef validator(x: int) -> int:\n    return x\n")
flag("dc_fail_global", "K = [1, 2][2]\ndef validator(x: int) -> int:\n    return x\n", nparams=1)
flag("dc_fail_global2", "def f(a: int) -> int:\n    assert a > 5\n    return a\nK = f(3)\ndef validator(x: int) -> int:\n    return x\n", nparams=1)
flag("dc_print_global", "print('start')\ndef f(a: int) -> int:\n    print('f')\n    return a\nK = f(3)\ndef validator(x: int) -> int:\n    print('v')\n    return x\n")
flag("dc_comp", "def validator(xs: List[int]) -> int:\n    y = [1 // v for v in xs]\n    return 1\n")
flag("dc_overwrite", "def validator(x: int) -> int:\n    y = 1 // x\n    y = 2\n    return y\n")
flag("dc_param_unused", "def f(a: int, b: int) -> int:\n    return a\ndef validator(x: int) -> int:\n    return f(x, 1 // x)\n")
flag("dc_nameerror", "def validator(x: int) -> int:\n    if x > 0:\n        y = 3\n    z = y\n    return 1\n")
flag("dc_shared_names", "def f(a: int) -> int:\n    return 1\ndef g(f2: int) -> int:\n    f = 3\n    return f + f2\ndef validator(x: int) -> int:\n    return g(x)\n")
flag("dc_name_in_scopes", "y = 1\ndef f() -> int:\n    return y\ndef validator(x: int) -> int:\n    y = 2\n    z = y\n    return f() + x\n")
flag("dc_maybe_unbound_fn", "def validator(x: int) -> int:\n    def f() -> int:\n        return k\n    if x > 0:\n        k = 1\n    y = f()\n    return 2\n")
flag("dc_unused_attr", "def validator(u: Union[A, B, C]) -> int:\n    y = u.x\n    z = u\n    return 1\n")
flag("dc_unused_cast", "def validator(d: Anything) -> int:\n    a: A = d\n    b = a.x\n    return 1\n")
flag("dc_unused_cast2", "def validator(d: Anything) -> int:\n    a: int = d\n    return 1\n")
flag("dc_unused_cast3", "def f(d: Anything) -> int:\n    a: List[int] = d\n    return 1\ndef validator(d: Anything) -> int:\n    z = f(d)\n    return 1\n")
flag("dc_unused_cmp", "def validator(x: int, xs: List[int]) -> int:\n    y = x > xs[0]\n    z = not y\n    w = -x\n    return 1\n")
flag("dc_unused_str", "def validator(s: bytes) -> int:\n    y = s.decode()\n    z = int(y)\n    return 1\n")
flag("dc_unused_tuple", "def validator(x: int, xs: List[int]) -> int:\n    a, b = x, xs[1]\n    t = (a, xs[2])\n    return a\n")
flag("dc_unused_dict", "def validator(x: int) -> int:\n    d = {x: 1 // x}\n    l = [1 // (x - 1)]\n    return x\n")
flag("dc_unused_f", "def validator(x: int) -> int:\n    s = f'{1 // x}'\n    return x\n")
flag("dc_unused_slice", "def validator(xs: List[int], x: int) -> int:\n    y = xs[1 // x:]\n    return x\n")

# ---- dead conditions: every operand is an observable call, so dropping, duplicating or reordering one shows
DC = [
    "f(x, 1) and False", "f(x, 1) and True", "False and f(x, 1)", "True and f(x, 1)", "f(x, 1) or True", "f(x, 1) or False",
    "True or f(x, 1)", "False or f(x, 1)", "f(x, 1) and False and f(x, 2)", "f(x, 1) and True and f(x, 2)", "f(x, 1) or True or f(x, 2)",
    "f(x, 1) or False or f(x, 2)", "f(x, 1) and f(x, 2) and False", "f(x, 1) or f(x, 2) or True", "not (f(x, 1) and False)",
    "not (f(x, 1) or True)", "not True or f(x, 1)", "not False and f(x, 1)", "(f(x, 1) and False) or f(x, 2)", "(f(x, 1) or True) and f(x, 2)",
    "f(x, 1) if True else f(x, 2)", "f(x, 1) if False else f(x, 2)", "(f(x, 1) and False) == (f(x, 2) or True)",
    "f(x, 1) and (f(x, 2) if not True else False)", "(False or False) and f(x, 1)", "(True and True) or f(x, 1)", "f(x, 1) and not False and not f(x, 2)",
    "(x > 0) and 'a' == 'b' and f(x, 1)", "f(x, 1) if f(x, 2) and False else f(x, 3)", "f(x, 1) if f(x, 2) or True else f(x, 3)",
]
for _i, _e in enumerate(DC):
    _f = "def f(a: int, k: int) -> bool:\n    print(k)\n    return 12 // (a - k) > 3\n"
    flag(f"dcx{_i}", _f + f"def validator(x: int) -> int:\n    r = 0\n    if {_e}:\n        r += 1\n    else:\n        r += 2\n    y = {_e}\n    while r < 3 and ({_e}):\n        r += 2\n    return r\n")
    flag(f"dcy{_i}", _f + f"def validator(x: int) -> int:\n    y = {_e}\n    if {_e}:\n        pass\n    return 1\n")
# ---- fast access / constant index
flag("fa_const", "def validator(xs: List[int]) -> int:\n    return xs[0] + xs[3] * 2 + xs[5] * 3 + xs[-1] + xs[-4]\n", bounds=dict(list_len=7))
flag("fa_dyn", "def validator(xs: List[int], i: int) -> int:\n    return xs[i]\n", bounds=dict(list_len=7))
flag("fa_dyn2", "def validator(xs: List[int], i: int) -> int:\n    return xs[i] + xs[i + 2] - xs[-i]\n", bounds=dict(list_len=5))
flag("fa_fields", """
@dataclass(unsafe_hash=True)
class LG(PlutusData):
    CONSTR_ID = 0
    a: int
    b: int
    c: int
    d: int
    e: int
    f: int
    g: int
    h: int
def validator(l: LG) -> int:
    return l.a + 2 * l.b + 4 * l.c + 8 * l.d + 16 * l.e + 32 * l.f + 64 * l.g + 128 * l.h
""")
# ---- union expansion
flag("eu_basic", """
def f(a: Union[int, bytes]) -> int:
    if isinstance(a, int):
        return a
    return len(a) + 100
def validator(x: int, b: bytes) -> int:
    return f(x) * 1000 + f(b)
""")
flag("eu_two", """
def f(a: Union[int, bytes], b: Union[A, B]) -> int:
    r = 0
    if isinstance(a, int):
        r += a
    if isinstance(b, B):
        r += b.z * 10
    else:
        r += b.x * 100
    return r
def validator(x: int, b: bytes, a: A, c: B, u: Union[int, bytes]) -> int:
    return f(x, a) + 3 * f(b, c) + 5 * f(u, a) + 7 * f(x, c)
""")
flag("eu_rec", """
def f(a: Union[int, bytes], n: int) -> int:
    if n <= 0:
        return 0
    if isinstance(a, int):
        return a + f(b'q', n - 1)
    return len(a) * 10 + f(n, n - 1)
def validator(x: int, n: int) -> int:
    return f(x, n)
""", bounds=dict(per={"n": dict(int_range=(-1, 3))}))
flag("eu_nested", """
def g(a: Union[int, bytes, A]) -> int:
    if isinstance(a, A):
        return a.x
    elif isinstance(a, bytes):
        return len(a)
    return a * 7
def f(a: Union[int, bytes]) -> int:
    return g(a) + (1 if isinstance(a, int) else 2)
def validator(x: int, u: Union[int, bytes]) -> int:
    return f(x) + 10 * f(b'abc') + 100 * f(u) + 1000 * g(A(x, b''))
""")
flag("eu_reassign", """
def f(a: Union[int, bytes]) -> int:
    if isinstance(a, int):
        a = b'xyz'
    else:
        a = a + b'1'
    if isinstance(a, bytes):
        return len(a)
    return 77
def validator(x: int, b: bytes) -> int:
    return f(x) * 100 + f(b)
""")
flag("eu_assign_result", """
def f(a: Union[int, bytes]) -> Union[int, bytes]:
    if isinstance(a, int):
        return b'q'
    return len(a)
def validator(x: int) -> int:
    r = f(x)
    s = f(r)
    t = f(s)
    return (len(r) if isinstance(r, bytes) else 50) + (s if isinstance(s, int) else 60) * 10 + (len(t) if isinstance(t, bytes) else 70) * 100
""")
flag("eu_union_lists", """
def f(a: Union[int, List[Anything]]) -> int:
    if isinstance(a, int):
        return a
    return len(a) + 100
def validator(x: int, l: List[Anything]) -> int:
    return f(x) * 1000 + f(l)
""")
flag("eu_print", """
def f(a: Union[int, bytes]) -> int:
    if isinstance(a, int):
        print('int')
        return a
    print('bytes')
    return 1
def validator(x: int, b: bytes, u: Union[int, bytes]) -> int:
    return f(x) + f(b) + f(u)
""")
# ---- trace
flag("tr_all", """
def f(a: int) -> bool:
    print('f', a)
    return a > 2
def validator(x: int, xs: List[int]) -> int:
    print('start')
    r = f(x) and f(x + 1) or f(x - 1)
    for v in xs:
        print(v)
    assert x < 100, 'big'
    assert f(x), f'{x}'
    return 1 if r else 2
""")
flag("tr_unpack", """
def validator(xs: List[int]) -> int:
    a, b = xs
    return a * 10 + b
""", bounds=dict(list_len=3), notrace_unpack=True)
flag("tr_trace_val", """
def validator(x: int) -> int:
    print(str(1 // x))
    return 3
""")
flag("tr_trace_arg", """
def f(a: int) -> str:
    assert a > 0
    return 'q'
def validator(x: int) -> int:
    print(f(x))
    assert x > 5, f(x - 1)
    return 3
""")

ANYARGS = {
    "aa_int": ("def validator(x: int, y: int) -> int:\n    return x + 1\n", 2),
    "aa_unused": ("def validator(x: int, y: bytes) -> int:\n    return 1\n", 2),
    "aa_list": ("def validator(x: List[int]) -> int:\n    return len(x)\n", 1),
    "aa_list2": ("def validator(x: List[bytes], i: int) -> bytes:\n    return x[0]\n", 2),
    "aa_dict": ("def validator(x: Dict[int, bytes]) -> int:\n    return len(x)\n", 1),
    "aa_dict2": ("def validator(x: Dict[int, bytes]) -> List[bytes]:\n    return x.values()\n", 1),
    "aa_A": ("def validator(x: A) -> int:\n    return x.x\n", 1),
    "aa_A2": ("def validator(x: A) -> int:\n    return len(x.y) + x.x\n", 1),
    "aa_A3": ("def validator(x: A) -> A:\n    return x\n", 1),
    "aa_U": ("def validator(u: Union[A, B]) -> int:\n    if isinstance(u, A):\n        return u.x\n    return u.z\n", 1),
    "aa_U2": ("def validator(u: Union[A, B, C]) -> int:\n    return u.x\n", 1),
    "aa_U3": ("def validator(u: Union[int, bytes]) -> int:\n    if isinstance(u, int):\n        return u\n    return len(u)\n", 1),
    "aa_U4": ("def validator(u: Union[int, A, bytes, List[Anything]]) -> int:\n    if isinstance(u, A):\n        return u.x\n    elif isinstance(u, bytes):\n        return len(u)\n    elif isinstance(u, int):\n        return u\n    return 3\n", 1),
    "aa_U5": ("def validator(u: Union[A, B]) -> int:\n    y = u.x\n    return 3\n", 1),
    "aa_bool": ("def validator(x: bool) -> int:\n    return 1 if x else 2\n", 1),
    "aa_bool2": ("def validator(x: bool, y: bool) -> bool:\n    return x == y\n", 2),
    "aa_str": ("def validator(x: str) -> str:\n    return x\n", 1),
    "aa_none": ("def validator(x: None) -> None:\n    return x\n", 1),
    "aa_cast": ("def validator(x: Anything) -> int:\n    y: int = x\n    return y\n", 1),
    "aa_cast_unused": ("def validator(x: Anything) -> int:\n    y: int = x\n    z: bytes = x\n    return 1\n", 1),
    "aa_integrity": ("from opshin.std.integrity import check_integrity\ndef validator(x: A) -> int:\n    check_integrity(x)\n    return x.x\n", 1),
    "aa_integrityU": ("from opshin.std.integrity import check_integrity\ndef validator(x: Union[A, B]) -> int:\n    check_integrity(x)\n    return x.x\n", 1),
    "aa_eq": ("def validator(x: Anything, y: Anything) -> bool:\n    return x == y\n", 2),
    "aa_W": ("def validator(w: W) -> int:\n    return w.a.x + len(w.l)\n", 1),
}


def tasks(tier, rng):
    th = tier == "thorough"
    cf = ALL if th else Q
    out = []
    seen = set()

    def add(name, src, bounds=None, any_args=False, entry="validator", mp=None, configs=None, nparams=None, trace=True):
        if name in seen:
            return
        seen.add(name)
        cs = configs or cf
        mp = mp or (1500 if th else 150)

        def fn(deadline, tier):
            return cross.run_cross(name, src, cs, bounds=bounds, any_args=any_args, entry=entry, max_paths=mp, deadline=deadline, nparams=nparams, trace=trace)

        b = dict(bounds or {}, configs=list(cs), max_paths=mp, arguments="arbitrary ledger data" if any_args else "well-typed")
        out.append(Task(name, fn, desc=src, bounds={k: str(v) for k, v in b.items()}))

    base = dict(list_len=2, bytes_len=1, str_len=1, dict_len=1, ascii=True)
    for n, (src, kw) in FLAG.items():
        np = kw.get("nparams")
        add(n, src, dict(base, **kw.get("bounds", {})), nparams=np, any_args=np is not None)
    for n, (src, k) in ANYARGS.items():
        add(n, TYPING + HEAD + src, dict(any_depth=2, any_width=2, bytes_len=1), any_args=True, nparams=k, mp=600 if th else 200, configs=tuple(c for c in cf if "notrace" not in c) if th else ("O0", "O1", "O2", "O3"))
    # programs of the other checks
    import importlib

    for m in ("c01", "c02", "c03", "c04", "c05", "c06", "c07", "c08", "c09"):
        ts = [t for t in importlib.import_module("checks." + m).tasks("quick", random.Random(7)) if hasattr(t, "src") and not t.name.startswith("rnd")]
        k = len(ts) if th else 9
        for t in rng.sample(ts, min(k, len(ts))):
            b = dict(t.bounds)
            for f in ("list_len", "bytes_len", "str_len"):
                b[f] = min(b.get(f, 2), 2 if th else 1)
            b["ascii"] = True
            add(f"{m}_{t.name}", t.src, b, mp=600 if th else 60)
    for t in gen.programs(rng, 120 if th else 30, "rnd", ("return", "assert", "tuple", "def", "print", "bytes"), stmts=5):
        add(t.name, t.src, t.bounds, mp=300 if th else 60)
    return out
