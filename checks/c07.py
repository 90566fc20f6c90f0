"""C07: functions, scoping, recursion."""
import itertools
import textwrap
from .lib import E, PR, TYPING
from . import gen
from symx.tv import Template

PROPERTY = "C07"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs built from functions (nested, recursive, mutually recursive, shadowing, capturing variables that are reassigned "
    "later, methods, keyword arguments, module constants) are compiled by /repo's compiler in this run; z3 decides agreement "
    "with symbolic CPython for every input within the bounds. Besides the fixed corpus a seeded generator supplies further shapes."
)
ASSUMPTIONS = ["recursion depth is bounded by the integer ranges / list lengths of each task"]


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")

    def p(name, src, **kw):
        kw.setdefault("configs", cf)
        b = dict(list_len=3, bytes_len=1, str_len=1, dict_len=2, ascii=True)
        b.update(kw.pop("bounds", {}))
        kw.setdefault("max_paths", 5000 if th else 1200)
        out.append(Template(name, TYPING + textwrap.dedent(src).strip("\n") + "\n", bounds=b, **kw))

    RJ = dict(expect="reject_or_agree")
    R = dict(bounds=dict(int_range=(-2, 7 if th else 5)))
    p("call", """
def f(a: int) -> int:
    return a * 2 + 1
def validator(x: int) -> int:
    return f(x) - f(f(x + 1))
""")
    p("arg_order", """
def f(a: int, b: int, c: int) -> int:
    return a - 2 * b + 5 * c
def validator(x: int, y: int) -> int:
    return f(x, y, 1) * 100 + f(y, 1, x)
""")
    p("kwargs", """
def f(a: int, b: int, c: int) -> int:
    return a - 2 * b + 5 * c
def validator(x: int, y: int) -> int:
    return f(x, c=y, b=1) * 100 + f(c=1, b=x, a=y)
""", **RJ)
    p("defaults", """
def f(a: int, b: int = 3) -> int:
    return a - 2 * b
def validator(x: int, y: int) -> int:
    return f(x) * 10 + f(x, y)
""", **RJ)
    p("module_const", """
K = 7
M = [1, 2, K]
def f(a: int) -> int:
    return a * K + M[2]
def validator(x: int) -> int:
    return f(x) + K
""")
    p("module_reassign", """
K = 7
def f(a: int) -> int:
    return a * K
K = 9
def validator(x: int) -> int:
    return f(x) + K
""", **RJ)
    p("module_call_chain", """
def f(a: int) -> int:
    return a + 1
K = f(3)
def g(a: int) -> int:
    return f(a) * K
J = g(K)
def validator(x: int) -> int:
    return g(x) - J
""")
    p("forward_ref", """
def f(a: int) -> int:
    return g(a) + 1
def g(a: int) -> int:
    return a * 3
def validator(x: int) -> int:
    return f(x)
""", **RJ)
    p("param_shadow_global", """
x = 5
def f(x: int) -> int:
    x = x + 1
    return x
def validator(y: int) -> int:
    return f(y) * 100 + x
""")
    p("param_shadow_outer", """
def validator(x: int, y: int) -> int:
    def f(x: int) -> int:
        x += y
        return x * 2
    r = f(y)
    return r * 100 + x
""")
    p("local_shadow", """
def validator(x: int, y: int) -> int:
    def f(a: int) -> int:
        x = a * 2
        return x + y
    r = f(y)
    return r * 100 + x
""")
    p("closure", """
def validator(x: int, y: int) -> int:
    def f(a: int) -> int:
        return a * 2 + x
    return f(y) - f(x)
""")
    p("closure_late", """
def validator(x: int, y: int) -> int:
    k = x
    def f(a: int) -> int:
        return a * 2 + k
    r = f(y)
    k = 100
    return r * 1000 + f(y)
""")
    p("closure_late_if", """
def validator(x: int, y: int) -> int:
    k = 1
    def f(a: int) -> int:
        return a * 2 + k
    if x > y:
        k = 2
    return f(y)
""")
    p("closure_late_loop", """
def validator(xs: List[int]) -> int:
    k = 1
    def f(a: int) -> int:
        return a * 2 + k
    s = 0
    for v in xs:
        k += v
        s = s * 3 + f(v)
    return s + f(0)
""")
    p("closure_defined_after", """
def validator(x: int) -> int:
    def f(a: int) -> int:
        return a + k
    k = x * 2
    return f(x)
""")
    p("closure_undefined", """
def validator(x: int) -> int:
    def f(a: int) -> int:
        return a + k
    r = f(x)
    k = x * 2
    return r
""", always_fails=True, **RJ)
    p("closure_nested2", """
def validator(x: int, y: int) -> int:
    def f(a: int) -> int:
        def g(b: int) -> int:
            return a * 10 + b + x
        a = a + 1
        return g(y)
    return f(x) - f(y)
""")
    p("closure_nested3", """
def validator(x: int, y: int) -> int:
    z = x + y
    def f(a: int) -> int:
        def g(b: int) -> int:
            def h(c: int) -> int:
                return a + 10 * b + 100 * c + z
            return h(b + 1) + b
        return g(a + 1)
    z = y
    return f(x)
""")
    p("closure_return_fn", """
def validator(x: int, y: int) -> int:
    def mk(a: int):
        def g(b: int) -> int:
            return a - b
        return g
    f = mk(x)
    return f(y)
""", **RJ)
    p("fn_alias", """
def f(a: int) -> int:
    return a + 1
g = f
def validator(x: int) -> int:
    return g(x)
""", **RJ)
    p("fn_alias_local", """
def f(a: int) -> int:
    return a + 1
def validator(x: int) -> int:
    h = f
    return h(x) * h(2)
""", **RJ)
    p("fn_redefine", """
def f(a: int) -> int:
    return a + 1
def validator(x: int) -> int:
    r = f(x)
    def f2(a: int) -> int:
        return a + 100
    return r * f2(x)
""")
    p("fn_redefine_same", """
def validator(x: int) -> int:
    def f(a: int) -> int:
        return a + 1
    r = f(x)
    def f(a: int) -> int:
        return a + 100
    return r * 1000 + f(x)
""", **RJ)
    p("fn_cond_define", """
def validator(x: int) -> int:
    if x > 0:
        def f(a: int) -> int:
            return a + 1
    else:
        def f(a: int) -> int:
            return a - 1
    return f(x)
""", **RJ)
    p("fn_param_fn", """
def ap(f: int, a: int) -> int:
    return f + a
def validator(x: int) -> int:
    return ap(x, 2)
""")
    p("rec_fact", """
def fact(n: int) -> int:
    if n <= 0:
        return 1
    return n * fact(n - 1)
def validator(x: int) -> int:
    return fact(x)
""", **R)
    p("rec_else", """
def f(n: int) -> int:
    if n > 0:
        r = f(n - 1) + n
    else:
        r = 0
    return r
def validator(x: int) -> int:
    return f(x)
""", **R)
    p("rec_fib", """
def fib(n: int) -> int:
    return n if n < 2 else fib(n - 1) + fib(n - 2)
def validator(x: int) -> int:
    return fib(x)
""", **R)
    p("rec_local", """
def validator(x: int, y: int) -> int:
    def f(n: int) -> int:
        if n <= 0:
            return y
        return f(n - 1) * 2 + 1
    return f(x)
""", bounds=dict(per={"x": dict(int_range=(-1, 4))}))
    p("rec_local_late", """
def validator(x: int, y: int) -> int:
    k = y
    def f(n: int) -> int:
        if n <= 0:
            return k
        return f(n - 1) * 2 + k
    r = f(x)
    k = 5
    return r * 100 + f(x)
""", bounds=dict(per={"x": dict(int_range=(-1, 3))}))
    p("rec_list", """
def f(xs: List[int]) -> int:
    if len(xs) == 0:
        return 0
    return xs[0] - 2 * f(xs[1:])
def validator(xs: List[int]) -> int:
    return f(xs)
""")
    p("rec_acc", """
def f(xs: List[int], acc: List[int]) -> List[int]:
    if len(xs) == 0:
        return acc
    return f(xs[1:], [xs[0]] + acc)
def validator(xs: List[int]) -> List[int]:
    e: List[int] = []
    return f(xs, e)
""")
    p("rec_mutual", """
def even(n: int) -> bool:
    if n == 0:
        return True
    return odd(n - 1)
def odd(n: int) -> bool:
    if n == 0:
        return False
    return even(n - 1)
def validator(x: int) -> bool:
    return even(x)
""", bounds=dict(int_range=(0, 5)), **RJ)
    p("rec_mutual_local", """
def validator(x: int, y: int) -> int:
    def a(n: int) -> int:
        return y if n <= 0 else b(n - 1) + 1
    def b(n: int) -> int:
        return -y if n <= 0 else a(n - 1) * 2
    return a(x)
""", bounds=dict(per={"x": dict(int_range=(-1, 4))}), **RJ)
    p("rec_ackermann", """
def ack(m: int, n: int) -> int:
    if m == 0:
        return n + 1
    if n == 0:
        return ack(m - 1, 1)
    return ack(m - 1, ack(m, n - 1))
def validator(x: int, y: int) -> int:
    return ack(x, y)
""", bounds=dict(int_range=(0, 2)))
    p("rec_bytes", """
def f(b: bytes) -> bytes:
    if len(b) == 0:
        return b""
    return f(b[1:]) + b[:1]
def validator(b: bytes) -> bytes:
    return f(b)
""", bounds=dict(bytes_len=3))
    p("rec_shadow_name", """
def f(n: int) -> int:
    n = n - 1
    if n < 0:
        return n
    return f(n) + n
def validator(n: int) -> int:
    return f(n) + n
""", **R)
    p("rec_two_args_swap", """
def f(a: int, b: int) -> int:
    if a <= 0:
        return b
    return f(b - 1, a - 1) + 1
def validator(x: int, y: int) -> int:
    return f(x, y)
""", bounds=dict(int_range=(-1, 3)))
    p("rec_loop_inside", """
def f(n: int, xs: List[int]) -> int:
    s = 0
    for v in xs:
        if n > 0:
            s = s * 2 + v + f(n - 1, xs[1:])
    return s
def validator(n: int, xs: List[int]) -> int:
    return f(n, xs)
""", bounds=dict(list_len=2, int_range=(-1, 2)))
    p("no_return", """
def f(a: int) -> None:
    assert a > 0
def validator(x: int) -> int:
    f(x)
    return x
""")
    p("no_return_val", """
def f(a: int) -> None:
    b = a
def validator(x: int) -> bool:
    return f(x) is None
""", **RJ)
    p("zero_arg", """
def f() -> int:
    return 3
def validator(x: int) -> int:
    return f() + x
""")
    p("zero_arg_closure", """
def validator(x: int) -> int:
    def f() -> int:
        return x + 1
    x = x * 2
    return f()
""")
    p("zero_arg_const_eval", """
def f() -> int:
    assert False
    return 3
def validator(x: int) -> int:
    if x > 0:
        return f()
    return x
""")
    p("call_in_cond", """
def f(a: int) -> bool:
    return a > 3
def validator(x: int, y: int) -> int:
    return 1 if f(x) and not f(y) else 2 if f(x) or f(y) else 3
""")
    p("call_in_comp", """
def f(a: int) -> int:
    return a * a
def validator(xs: List[int], y: int) -> List[int]:
    k = y
    def g(a: int) -> int:
        return f(a) + k
    return [g(v) for v in xs if f(v) > y]
""", bounds=dict(list_len=2))
    p("comp_shadow", """
def validator(xs: List[int], v: int) -> int:
    r = [v + 1 for v in xs]
    return sum(r) * 100 + v
""")
    p("comp_capture", """
def validator(xs: List[int], v: int) -> List[int]:
    k = v
    k += 1
    r = [w + k for w in xs]
    k = 0
    return r
""")
    p("comp_nested_shadow", """
def validator(xs: List[int], v: int) -> int:
    return sum([sum([v * w for w in xs]) + v for v in xs]) + v
""", bounds=dict(list_len=2))
    p("for_leak", """
def f(xs: List[int]) -> int:
    i = 0
    for i in xs:
        pass
    return i
def validator(xs: List[int], i: int) -> int:
    return f(xs) * 10 + i
""")
    p("global_shadow_local_after", """
k = 3
def validator(x: int) -> int:
    r = x
    if x > 0:
        k = 5
        r += k
    return r
""", **RJ)
    p("global_read_before_local_assign", """
k = 3
def validator(x: int) -> int:
    r = k
    k = x
    return r + k
""", always_fails=True, **RJ)
    p("builtin_shadow", """
def len(a: List[int]) -> int:
    return 42
def validator(xs: List[int]) -> int:
    return len(xs)
""", **RJ)
    p("builtin_shadow_var", """
def validator(xs: List[int]) -> int:
    sum = 5
    return sum + len(xs)
""", **RJ)
    p("builtin_shadow_param", """
def f(max: int) -> int:
    return max + 1
def validator(xs: List[int]) -> int:
    return f(max(xs))
""", **RJ)
    p("validator_helper_same_param", """
def f(x: int, y: int) -> int:
    return x - y
def validator(x: int, y: int) -> int:
    y, x = x, y
    return f(x, y) + f(y, x) * 3
""")
    p("nested_same_names", """
def f(x: int) -> int:
    def g(x: int) -> int:
        return x + 1
    return g(x) * 2
def g(x: int) -> int:
    def f(x: int) -> int:
        return x - 1
    return f(x) * 3
def validator(x: int) -> int:
    return f(x) - g(x)
""", **RJ)
    p("method", """
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class P(PlutusData):
    CONSTR_ID = 0
    a: int
    b: int
    def s(self) -> int:
        return self.a - self.b
    def t(self, k: int) -> int:
        return self.s() * k + self.a
def validator(p: P, x: int) -> int:
    return p.t(x) - P(x, 2).s()
""", **RJ)
    p("method_list", """
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class P(PlutusData):
    CONSTR_ID = 0
    a: int
    def s(self, other: int) -> int:
        return self.a * 2 - other
def validator(ps: List[P], x: int) -> int:
    t = 0
    for p in ps:
        t = t * 3 + p.s(x)
    return t
""", bounds=dict(list_len=2), **RJ)
    p("method_self_rec", """
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class P(PlutusData):
    CONSTR_ID = 0
    a: int
    def s(self, n: int) -> int:
        if n <= 0:
            return self.a
        return self.s(n - 1) + 1
def validator(p: P, x: int) -> int:
    return p.s(x)
""", bounds=dict(per={"x": dict(int_range=(-1, 3))}), **RJ)
    p("operator_method", """
from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass()
class P(PlutusData):
    CONSTR_ID = 0
    a: int
    def __add__(self, other: int) -> int:
        return self.a * 2 + other
    def __sub__(self, other: int) -> int:
        return self.a - 3 * other
    def __lt__(self, other: int) -> bool:
        return self.a < other
    def __mul__(self, other: int) -> int:
        return self.a * other
def validator(p: P, x: int) -> int:
    return (p + x) * 100 + (p - x) + (1 if p < x else 0) + (p * 2)
""", **RJ)
    p("lambda", """
def validator(x: int) -> int:
    f = lambda a: a + 1
    return f(x)
""", **RJ)
    p("union_arg", """
def f(a: Union[int, bytes]) -> int:
    if isinstance(a, int):
        return a
    return len(a) + 100
def validator(x: int, b: bytes) -> int:
    return f(x) * 1000 + f(b)
""")
    p("union_ret", """
def f(a: int) -> Union[int, bytes]:
    if a > 0:
        return a
    return b"xy"
def validator(x: int) -> int:
    r = f(x)
    return r if isinstance(r, int) else len(r)
""")
    p("union_ret_nested", """
def f(a: int) -> Union[int, bytes]:
    return a if a > 3 else b"q"
def g(a: Union[int, bytes]) -> Union[int, bytes]:
    return f(a) if isinstance(a, int) else a + b"!"
def validator(x: int) -> int:
    r = g(f(x))
    return r if isinstance(r, int) else len(r)
""")
    p("any_ret", """
from pycardano import Datum as Anything
def f(a: int) -> Anything:
    if a > 0:
        return a
    return b"xy"
def validator(x: int) -> Anything:
    return f(x)
""", **RJ)
    p("many_args", """
def f(a: int, b: int, c: int, d: int, e: int, g: int) -> int:
    return a + 2 * b + 4 * c + 8 * d + 16 * e + 32 * g
def validator(x: int, y: int) -> int:
    return f(x, y, x + 1, y + 1, x + y, 7)
""")
    p("many_params", """
def validator(a: int, b: int, c: int, d: bytes, e: bool, g: List[int]) -> int:
    if e:
        a, b, c = c, a, b
    return a + 2 * b + 4 * c + 8 * len(d) + 16 * len(g)
""")
    p("arg_effect_once", """
def f(a: int) -> int:
    assert a != 3
    return a
def validator(x: int, y: int) -> int:
    return f(f(x) + f(y)) * f(x - y)
""")
    p("unused_arg_fail", """
def f(a: int, b: int) -> int:
    return a
def validator(x: int, y: int) -> int:
    return f(x, 1 // y)
""")
    p("unused_arg_fail_nested", """
def f(a: int) -> int:
    return 1
def g(a: int) -> int:
    return f(10 // a)
def validator(x: int, y: int) -> int:
    return g(x)
""")
    p("unused_var_call_fail", """
def f(a: int) -> int:
    b = 10 // a
    return 1
def validator(x: int, y: int) -> int:
    return f(x)
""")
    p("loop_var_in_fn", """
def validator(xs: List[int]) -> int:
    s = 0
    for v in xs:
        def f(a: int) -> int:
            return a + v
        s = s * 2 + f(1)
    return s
""", **RJ)
    p("fn_in_loop_late", """
def validator(xs: List[int]) -> int:
    s = 0
    v = 7
    def f(a: int) -> int:
        return a + v
    for v in xs:
        s = s * 2 + f(1)
    return s + f(0)
""")
    p("fn_modifies_outer_list", """
def validator(xs: List[int]) -> List[int]:
    def f(ys: List[int]) -> List[int]:
        ys = ys + [1]
        return ys
    r = f(xs)
    return r + xs
""")
    p("nonlocal", """
def validator(x: int) -> int:
    k = x
    def f() -> int:
        nonlocal k
        k += 1
        return k
    r = f()
    return r * 10 + k
""", **RJ)
    p("global_stmt", """
k = 3
def f() -> int:
    global k
    k += 1
    return k
def validator(x: int) -> int:
    return f() + k + x
""", **RJ)
    p("star_args", """
def f(*a: int) -> int:
    return 1
def validator(x: int) -> int:
    return f(x, x)
""", **RJ)
    p("recursion_unused_param", """
def f(n: int, k: int) -> int:
    if n <= 0:
        return 0
    return 1 + f(n - 1, k + 1)
def validator(n: int, k: int) -> int:
    return f(n, k)
""", bounds=dict(per={"n": dict(int_range=(-1, 3))}))
    p("rec_const_args", """
def f(n: int, k: int, s: bytes) -> int:
    if n <= 0:
        return k + len(s)
    return k + f(n - 1, k, s)
def validator(n: int, k: int, s: bytes) -> int:
    return f(n, k, s)
""", bounds=dict(per={"n": dict(int_range=(-1, 3))}))
    p("global_from_fn_chain", """
a = 1
def f() -> int:
    return a
def g() -> int:
    b = f()
    def h() -> int:
        return b + a
    return h()
def validator(x: int) -> int:
    a2 = x
    return g() + a2
""")
    p("param_name_like_global_fn", """
def f(n: int) -> int:
    return n + 1
def g(f2: int) -> int:
    return f(f2)
def validator(f3: int) -> int:
    return g(f3)
""")
    p("deep_nesting_rec", """
def validator(x: int, y: int) -> int:
    def outer(n: int) -> int:
        m = n + y
        def inner(k: int) -> int:
            if k <= 0:
                return m
            return inner(k - 1) + (outer(k - 1) if k < n else 0)
        return inner(n)
    return outer(x)
""", bounds=dict(per={"x": dict(int_range=(-1, 2))}), **RJ)
    p("tuple_return_swap", """
def f(a: int, b: int) -> int:
    a, b = b, a
    if a > b:
        a = a - b
    return a * 3 + b
def validator(x: int, y: int) -> int:
    return f(x, y) - f(y, x)
""")
    p("dict_param", """
def f(d: Dict[int, int], k: int) -> int:
    return d.get(k, 0) + 1
def validator(d: Dict[int, int], x: int) -> int:
    return f(d, f(d, x))
""")
    p("bool_param_cond", """
def f(p: bool, q: bool) -> int:
    if p and q:
        return 1
    elif p:
        return 2
    return 3
def validator(p: bool, q: bool) -> int:
    return f(p, q) * 10 + f(not q, p)
""")
    # call graphs: every function adds its own weight and calls its successors; the definitions come in several orders
    graphs = {
        "chain4": ((1,), (2,), (3,), ()), "chain5": ((1,), (2,), (3,), (4,), ()), "diamond": ((1, 2), (3,), (3,), ()),
        "cycle3": ((1,), (2,), (0,)), "cycle_tail": ((1,), (2,), (1, 3), (4,), ()), "two_cycles": ((1, 2), (0,), (3,), (2,)),
        "self_tail": ((0, 1), (1, 2), ()), "chain_to_cycle": ((1,), (2,), (3,), (2,)), "fan": ((1, 2, 3), (), (1,), (2,)),
    }
    for gname, succ in graphs.items():
        nf = len(succ)
        orders = list(itertools.permutations(range(nf)))
        fixed = [tuple(range(nf)), tuple(range(nf))[::-1]]
        orders = orders if th and nf < 5 else fixed + rng.sample(orders, 10 if th else 2)
        for oi, order in enumerate(orders):
            for place in ("module", "local", "capture"):
                if place == "module" and not th and oi == 3:
                    continue
                fs = []
                for i in order:
                    rec = "".join(f" + {2 + j} * f{j}(a - 1)" for j in succ[i])
                    cap = f" + {['k', 'm', 'k - m', '0', 'k + 1'][i]}" if place == "capture" else ""
                    fs.append(f"def f{i}(a: int) -> int:\n    if a <= 0:\n        return {i + 1}{cap}\n    return {10 ** i}{rec}\n")
                if place == "module":
                    src = "".join(fs) + "def validator(x: int) -> int:\n    return f0(x) + 1\n"
                else:
                    pre = "    k = x\n    m = 7\n" if place == "capture" else ""
                    post = "    k = 3\n    m = x\n" if place == "capture" else ""
                    src = "def validator(x: int) -> int:\n" + pre + textwrap.indent("".join(fs), "    ") + "    r = f0(x)\n" + post + "    return r * 1000 + f0(2)\n"
                p(f"graph_{gname}_{place}_{oi}", src, bounds=dict(int_range=(0, nf)), **(RJ if place != "module" else {}))
    n = 140 if th else 26
    out += gen.programs(rng, n, "rnd", ("return", "assert", "tuple", "def"), stmts=5, configs=cf, max_paths=400 if th else 100)
    return out
