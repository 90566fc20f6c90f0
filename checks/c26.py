"""C26: programs spread over several modules."""
import textwrap
from symx.tv import Template

PROPERTY = "C26"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs whose helpers, constants and data classes live in other modules (imported with 'from m import *': nested, "
    "repeated, diamond-shaped, from packages, with relative names, between and after definitions, together with the standard "
    "library) are laid out in a scratch directory and compiled by /repo's compiler in this run. The same modules are executed "
    "symbolically under CPython's own import semantics (one namespace per module); z3 decides that both agree for every input "
    "within the bounds."
)
ASSUMPTIONS = [
    "the layouts of modules are those listed (up to six modules, two package levels); values are symbolic within each task's bounds",
    "a module does not rebind a name that functions of a module it imports refer to (known finding import-shared-namespace)",
]


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cf = ("O0", "O1", "O2", "O3") if th else ("O0", "O2")

    def p(name, main, _head="", **files):
        kw = {k: files.pop(k) for k in ("bounds", "expect", "configs") if k in files}
        kw.setdefault("configs", cf)
        b = dict(list_len=2, bytes_len=2, str_len=1, dict_len=2, int_range=(-50, 50), ascii=True)
        b.update(kw.pop("bounds", {}))
        fs = tuple(((n if "/" in n else n.replace("__", "/")) + ".py", textwrap.dedent(s).strip("\n") + "\n") for n, s in files.items())
        out.append(Template(name, textwrap.dedent(main).strip("\n") + "\n", bounds=b, files=fs, max_paths=3000 if th else 600, **kw))

    RJ = dict(expect="reject_or_agree")
    T = "from typing import List, Dict, Union\n"
    p("helper", """
from lib import *
def validator(x: int, y: int) -> int:
    return scale(x) - offset(y) + FACTOR
""", lib="""
FACTOR = 3
OFFSET = FACTOR + 4
def scale(a: int) -> int:
    return a * FACTOR
def offset(a: int) -> int:
    return scale(a) + OFFSET
""")
    p("private_helper", """
from lib import *
def validator(x: int) -> int:
    return f(x) * 2
""", lib="""
_K = 11
def _g(a: int) -> int:
    return a - _K
def f(a: int) -> int:
    return _g(a) * _g(a + 1)
""")
    p("two_modules", """
from first import *
from second import *
def validator(x: int, y: int) -> int:
    return f(x, y) * 100 + g(y, x)
""", first="""
A = 5
def f(a: int, b: int) -> int:
    t = a - b
    return t * A
""", second="""
B = 7
def g(b: int, a: int) -> int:
    t = a + 2 * b
    return t + B
""")
    p("later_import_wins", """
from first import *
from second import *
def validator(x: int) -> int:
    return K * x + own_first() * 10
""", first="""
K = 5
def own_first() -> int:
    return 1
""", second="""
K = 7
""")
    p("later_import_wins_fun", """
from second import *
from first import *
def validator(x: int) -> int:
    return f(x)
""", first="""
def f(a: int) -> int:
    return a * 2
""", second="""
def f(a: int) -> int:
    return a * 3
""")
    p("override_imported", """
from lib import *
def f(a: int) -> int:
    return a * 2
K = 4
def validator(x: int) -> int:
    return f(x) + g(x) * K
""", lib="""
K = 9
def f(a: int) -> int:
    return a * 5
def g(a: int) -> int:
    return a - 1
""")
    p("import_overrides", """
def f(a: int) -> int:
    return a * 2
K = 4
from lib import *
def validator(x: int) -> int:
    return f(x) + K
""", lib="""
K = 9
def f(a: int) -> int:
    return a * 5
""")
    p("import_between", """
K = 4
J = K + 1
from lib import *
L = K + J
def validator(x: int) -> int:
    return f(x) + 10 * J + 1000 * L + K
""", lib="""
K = 9
def f(a: int) -> int:
    return a * 5
""")
    p("chain", """
from third import *
def validator(x: int) -> int:
    return h(x) + g(x) * 10 + f(x) * 100 + C
""", third="""
from second import *
C = B * 2
def h(a: int) -> int:
    return g(a) - C
""", second="""
from first import *
B = A + 1
def g(a: int) -> int:
    return f(a) * B
""", first="""
A = 3
def f(a: int) -> int:
    return a + A
""")
    p("diamond", """
from left import *
from right import *
def validator(x: int) -> int:
    return l(x) * 100 + r(x) + base(x) + N
""", left="""
from common import *
def l(a: int) -> int:
    return base(a) + 1
""", right="""
from common import *
def r(a: int) -> int:
    return base(a) * 2
""", common="""
N = 6
def base(a: int) -> int:
    return a - N
""")
    p("diamond_indirect", """
from right import *
from common import *
from left import *
def validator(x: int) -> int:
    return l(x) * 100 + r(x) + base(x) + N
""", left="""
from common import *
M = N + 1
def l(a: int) -> int:
    return base(a) + M
""", right="""
from left import *
from common import *
def r(a: int) -> int:
    return l(a) - base(a) * 2
""", common="""
N = 6
def base(a: int) -> int:
    return a - N
""")
    p("import_twice", """
from lib import *
from lib import *
def g(a: int) -> int:
    return f(a) + 1
from lib import *
def validator(x: int) -> int:
    return g(f(x))
""", lib="""
def f(a: int) -> int:
    return a * 5 - 2
""")
    p("package", """
from pkg.lib import *
from pkg.sub.deep import *
def validator(x: int) -> int:
    return f(x) * 10 + d(x)
""", pkg__lib="""
def f(a: int) -> int:
    return a * 5 - 2
""", pkg__sub__deep="""
def d(a: int) -> int:
    return a + 4
""")
    p("package_init", """
from pkg import *
from pkg.lib import *
def validator(x: int) -> int:
    return f(x) * V + V
""", **{"pkg/__init__": "V = 3\n", "pkg/lib": "def f(a: int) -> int:\n    return a * 5 - 2\n"})
    p("same_file_name", """
from one.util import *
from two.util import *
def validator(x: int) -> int:
    return f(x) * 10 + g(x)
""", one__util="""
def f(a: int) -> int:
    return a * 5 - 2
""", two__util="""
def g(a: int) -> int:
    return a + 4
""")
    p("relative", """
from pkg.lib import *
def validator(x: int) -> int:
    return f(x) + g(x) * 10
""", pkg__lib="""
from .other import *
def f(a: int) -> int:
    return g(a) * 5 - W
""", pkg__other="""
W = 2
def g(a: int) -> int:
    return a + 4
""")
    p("relative_shadows", """
from util import *
from pkg.lib import *
def validator(x: int) -> int:
    return f(x) + u(x) * 100
""", util="""
def u(a: int) -> int:
    return a - 9
""", pkg__lib="""
from .util import *
def f(a: int) -> int:
    return v(a) * 5
""", pkg__util="""
def v(a: int) -> int:
    return a + 4
""")
    p("relative_parent", """
from pkg.sub.lib import *
def validator(x: int) -> int:
    return f(x)
""", pkg__sub__lib="""
from ..util import *
from .util import *
def f(a: int) -> int:
    return v(a) * 5 + w(a)
""", pkg__util="""
def v(a: int) -> int:
    return a + 4
""", pkg__sub__util="""
def w(a: int) -> int:
    return a * 7
""")
    p("absolute_in_package", """
from pkg.lib import *
from util import *
def validator(x: int) -> int:
    return f(x) + u(x)
""", util="""
def u(a: int) -> int:
    return a - 9
""", pkg__lib="""
from util import *
from pkg.util import *
def f(a: int) -> int:
    return v(a) * 5 + u(a)
""", pkg__util="""
def v(a: int) -> int:
    return a + 4
""")
    CLS = """
from opshin.prelude import *
@dataclass()
class Left(PlutusData):
    CONSTR_ID = 1
    n: int
    tag: bytes
@dataclass()
class Right(PlutusData):
    CONSTR_ID = 2
    tag: bytes
    m: int
Either = Union[Left, Right]
def weight(e: Either) -> int:
    if isinstance(e, Left):
        r = e.n
    else:
        r = -e.m
    return r
"""
    p("classes", """
from shapes import *
def validator(e: Either, k: int) -> int:
    return weight(e) * k + len(e.tag)
""", shapes=CLS)
    p("classes_two_modules", """
from shapes import *
from use import *
def validator(e: Left, k: int) -> int:
    p = Pair(e, k)
    return total(p) + weight(p.l)
""", shapes=CLS, use="""
from shapes import *
@dataclass()
class Pair(PlutusData):
    CONSTR_ID = 3
    l: Left
    k: int
def total(p: Pair) -> int:
    return p.l.n * p.k
""")
    p("class_method", """
from acct import *
def validator(a: int, b: int) -> int:
    x = Account(a, b)
    return x.net() + twice(x)
""", acct="""
from opshin.prelude import *
@dataclass()
class Account(PlutusData):
    CONSTR_ID = 0
    credit: int
    debit: int
    def net(self) -> int:
        return self.credit - self.debit
def twice(a: Account) -> int:
    return a.net() * 2
""")
    p("class_result", """
from shapes import *
def validator(n: int, t: bytes) -> Right:
    return Right(t, n)
""", shapes=CLS)
    p("with_std", """
from lib import *
from opshin.std.math import *
from opshin.std.fractions import *
def validator(a: int, b: int) -> int:
    return gcd(a, 6) + half(b)
""", lib="""
from opshin.std.math import *
from opshin.std.fractions import *
def half(a: int) -> int:
    return floor_fraction(Fraction(a, 2)) + sign(a)
""", bounds=dict(int_range=(-12, 12)))
    p("with_prelude_twice", """
from lib import *
from opshin.prelude import *
def validator(o: TxOutRef, i: int) -> int:
    return position(o) + i + o.idx
""", lib="""
from opshin.prelude import *
def position(o: TxOutRef) -> int:
    return o.idx * 2 + len(o.id)
""")
    p("special_aliases", """
from hashlib import sha256 as digest
from lib import *
def validator(b: bytes) -> bytes:
    return digest(b).digest() + tail(b)
""", lib="""
from hashlib import sha3_256 as other
def tail(b: bytes) -> bytes:
    return other(b).digest()[:4]
""", **RJ)
    p("nested_functions", """
from lib import *
def validator(x: int, y: int) -> int:
    def inner(a: int) -> int:
        return a - x
    return outer(x) + inner(y)
""", lib="""
def outer(x: int) -> int:
    def inner(a: int) -> int:
        return a * 2 + x
    return inner(x + 1)
""")
    p("same_locals", """
from lib import *
def validator(acc: List[int], k: int) -> int:
    total = 0
    for item in acc:
        total += f(acc, item)
    return total - k
""".replace("from lib", T + "from lib", 1), lib=T + """
def f(acc: List[int], k: int) -> int:
    total = 1
    for item in acc:
        if item > k:
            total = total * 2 + item
    return total
""", bounds=dict(int_range=(-3, 3)))
    p("recursion", """
from lib import *
def validator(n: int) -> int:
    return is_even(n) * 10 + fact(n)
""", lib="""
def fact(n: int) -> int:
    return 1 if n <= 0 else n * fact(n - 1)
def is_even(n: int) -> int:
    return 1 if n == 0 else is_odd(n - 1)
def is_odd(n: int) -> int:
    return 0 if n == 0 else is_even(n - 1)
""", bounds=dict(int_range=(0, 5)))
    p("computed_constants", """
from lib import *
TABLE = [x * SCALE for x in BASE]
def validator(i: int) -> int:
    return TABLE[i] + LOOKUP[i]
""", lib="""
SCALE = 7
BASE = [1, 2, SCALE]
LOOKUP = {0: 5, 1: SCALE, 2: 9}
SCALE2 = SCALE + 1
""", bounds=dict(int_range=(-4, 4)))
    p("rebound_in_module", """
from lib import *
def validator(x: int) -> int:
    return f(x) + K
""", lib="""
K = 1
K = K + 4
K += 2
def f(a: int) -> int:
    return a * K
""")
    p("unused_failing_module_code", """
from lib import *
def validator(x: int) -> int:
    return f(x)
""", lib="""
XS = [1, 2]
assert len(XS) == 2, "length"
def f(a: int) -> int:
    return XS[a]
""", bounds=dict(int_range=(-4, 4)))
    p("library_validator", """
from lib import *
def validator(x: int) -> int:
    return helper(x) * 2
""", lib="""
def helper(a: int) -> int:
    return a + 1
def validator(x: int) -> int:
    return helper(x) - 100
""")
    p("private_same_name", """
from first import *
def _aux(a: int) -> int:
    return a * 2
def validator(x: int) -> int:
    return g(x) + _aux(x)
""", first="""
def g(a: int) -> int:
    return a + 5
""")
    p("conditional_definition", """
from lib import *
def validator(x: int) -> int:
    return f(x) if FLAG else x
""", lib="""
FLAG = True
if FLAG:
    def f(a: int) -> int:
        return a * 3
else:
    def f(a: int) -> int:
        return a * 4
""", **RJ)
    p("union_arguments", T + """
from lib import *
def validator(x: int, b: bytes) -> int:
    return size(x) + size(b)
""", lib=T + """
def size(v: Union[int, bytes]) -> int:
    r = 0
    if isinstance(v, int):
        r = v
    else:
        r = len(v)
    return r
""", configs=cf + ("O1+eut",))
    p("argument_names", T + """
from lib import *
def validator(d: Dict[int, int], k: int) -> int:
    return get(default=k, key=k, table=d)
""", lib=T + """
def get(table: Dict[int, int], key: int, default: int) -> int:
    return table.get(key, default + 1)
""")
    p("three_levels_overriding", """
from top import *
def validator(x: int) -> int:
    return name(x)
""", top="""
from middle import *
def name(a: int) -> int:
    return a * 100 + extra(a)
""", middle="""
from bottom import *
def name(a: int) -> int:
    return a * 10
def extra(a: int) -> int:
    return a + ID
""", bottom="""
ID = 2
def name(a: int) -> int:
    return a
""", **RJ)
    # every acyclic import graph over four modules besides the main one, with the import statements first, last or in reverse order
    import itertools

    pairs = [(i, j) for i in range(4) for j in range(i + 1, 4)]
    graphs = [g for r in range(1, 7) for g in itertools.combinations(pairs, r)]
    combos = [(g, style, place) for g in graphs for style in ("abs", "rel", "flat") for place in ("first", "reversed", "late")]
    for g, style, place in combos if th else rng.sample(combos, 200):
        mods = {}
        where = lambda i: f"m{i}" if style == "flat" else f"pkg.m{i}" if i % 2 else f"pkg.sub.m{i}"
        for i in range(4):
            deps = [j for a, j in g if a == i]
            if place == "reversed":
                deps = deps[::-1]
            imps = []
            for j in deps:
                if style == "rel":
                    up = "." if i % 2 == j % 2 else ".." if i % 2 == 0 else ".sub."
                    imps.append(f"from {up if up != '.sub.' else '.sub.'}m{j} import *\n")
                else:
                    imps.append(f"from {where(j)} import *\n")
            own = f"K{i} = {i + 2}\ndef f{i}(a: int) -> int:\n    return a * K{i}" + "".join(f" + f{j}(a) - K{j}" for j in deps) + "\n"
            mods[where(i).replace(".", "/")] = own + "".join(imps) if place == "late" else "".join(imps) + own
        roots = [i for i in range(4) if not any(b == i for _, b in g)]
        main = "".join(f"from {where(i)} import *\n" for i in (roots[::-1] if place == "reversed" else roots))
        main += "def validator(x: int, y: int) -> int:\n    return " + " + ".join(f"f{i}(x) * {3 ** n} - K{i} * y" for n, i in enumerate(range(4)) if i in roots or place != "first") + "\n"
        p(f"graph_{'_'.join(f'{a}{b}' for a, b in g)}_{style}_{place}", main, configs=("O2",) if not th else ("O0", "O2"), **mods)
    return out
