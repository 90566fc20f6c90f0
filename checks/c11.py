"""C11: check_integrity accepts exactly the well-formed encodings."""
from .lib import TYPING
from symx.runner import Task
from symx import dspec
from symx.dspec import SpecErr, FREE
from symx.values import *
from symx.machine import utf8_decode

PROPERTY = "C11"
LEVEL = "translation_validation"
EXPLANATION = (
    "Programs calling check_integrity on generated type descriptions (records, unions, nested lists, dicts, booleans, strings) are "
    "compiled by /repo's compiler in this run; the scripts are executed symbolically on arbitrary ledger data (any shape up to the depth "
    "and width bounds, all integers and bytes symbolic) and z3 decides that a script succeeds exactly when an independent recogniser of "
    "the declared type's encodings accepts the data, and then returns it unchanged."
)
ASSUMPTIONS = ["a map with a repeated key is not a well-formed dict"]

# type descriptions: 'int' 'bytes' 'bool' 'str' 'any' ('list',t) ('dict',k,v) ('rec',name,tag,((field,t),..)) ('union',(t,..))
A_ = ("rec", "A", 0, (("x", "int"), ("y", "bytes")))
B_ = ("rec", "B", 1, (("x", "int"),))
E_ = ("rec", "E", 2, ())
F_ = ("rec", "F", 7, (("a", A_), ("l", ("list", "int"))))


def conforms(t, d):
    """whether data d is a well-formed encoding of type t (forks on symbolic data)"""
    if t == "any":
        return True
    d = dforce(d)
    if t == "int":
        return type(d) is DI
    if t == "bytes":
        return type(d) is DB
    if t == "bool":
        return type(d) is DI and truth(b_or([i_eq(d.i, 0), i_eq(d.i, 1)]))
    if t == "str":
        if type(d) is not DB:
            return False
        try:
            utf8_decode(d.e, ValueError("utf8"))
        except ValueError:
            return False
        return True
    if t[0] == "list":
        return type(d) is DL and all(conforms(t[1], x) for x in d.items)
    if t[0] == "pairs":
        return type(d) is DM and all(conforms(t[1], k) and conforms(t[2], v) for k, v in d.pairs)
    if t[0] == "dict":
        if type(d) is not DM:
            return False
        if not all(conforms(t[1], k) and conforms(t[2], v) for k, v in d.pairs):
            return False
        for i in range(len(d.pairs)):
            for j in range(i):
                if truth(d_eq(d.pairs[i][0], d.pairs[j][0])):
                    return False
        return True
    if t[0] == "rec":
        return (
            type(d) is DC and truth(i_eq(d.tag, t[2])) and len(d.fields) == len(t[3])
            and all(conforms(ft, x) for (_, ft), x in zip(t[3], d.fields))
        )
    if t[0] == "union":
        return any(conforms(x, d) for x in t[1])
    raise TypeError(t)


def guided(t, name, dev):
    """data shaped like t except for at most dev[0] positions, which hold arbitrary data"""
    c = ctx()
    if dev[0] and c.choose(2, name + "?"):
        dev[0] -= 1
        return DX(name, 1, 2, 1)
    if t == "any":
        return DX(name, 1, 1, 1)
    if t in ("int", "bool"):
        return DI(c.fresh_int(name))
    if t in ("bytes", "str"):
        return DB(fresh_bytes(name, c.choose(3)))
    if t[0] == "list":
        return DL([guided(t[1], f"{name}[{i}]", dev) for i in range(c.choose(3))])
    if t[0] == "dict":
        return DM([(guided(t[1], f"{name}.k{i}", dev), guided(t[2], f"{name}.v{i}", dev)) for i in range(c.choose(3))])
    if t[0] == "union":
        return guided(t[1][c.choose(len(t[1]))], name, dev)
    tag = c.fresh_int(name + ".tag")
    c.assume(tag >= 0)
    fs = [guided(ft, f"{name}.{n}", dev) for n, ft in t[3]]
    if dev[0]:
        k = c.choose(3, name + ".arity")
        if k:
            dev[0] -= 1
            if k == 1:
                fs.append(DX(name + ".extra", 0, 0, 1))
            elif fs:
                fs.pop()
    return DC(tag, fs)


def ann(t):
    if isinstance(t, str):
        return {"any": "Anything"}.get(t, t)
    if t[0] == "list":
        return f"List[{ann(t[1])}]"
    if t[0] == "dict":
        return f"Dict[{ann(t[1])}, {ann(t[2])}]"
    if t[0] == "rec":
        return t[1]
    return "Union[" + ", ".join(ann(x) for x in t[1]) + "]"


def classes(t, seen):
    if isinstance(t, str):
        return ""
    if t[0] == "rec":
        if t[1] in seen:
            return ""
        s = "".join(classes(ft, seen) for _, ft in t[3])
        seen.add(t[1])
        body = "".join(f"    {n}: {ann(ft)}\n" for n, ft in t[3])
        return s + f"@dataclass(unsafe_hash=True)\nclass {t[1]}(PlutusData):\n    CONSTR_ID = {t[2]}\n{body}\n"
    if t[0] == "union":
        return "".join(classes(x, seen) for x in t[1])
    return "".join(classes(x, seen) for x in t[1:])


HEAD = TYPING + "from dataclasses import dataclass\nfrom pycardano import Datum as Anything, PlutusData\nfrom opshin.std.integrity import check_integrity\n\n"


def depth(t):
    if isinstance(t, str):
        return 0
    if t[0] == "rec":
        return 1 + max([depth(x) for _, x in t[3]] or [0])
    if t[0] == "union":
        return max(depth(x) for x in t[1])
    return 1 + max(depth(x) for x in t[1:])


def width(t):
    if isinstance(t, str):
        return 0
    if t[0] == "rec":
        return max([len(t[3])] + [width(x) for _, x in t[3]])
    if t[0] == "union":
        return max(width(x) for x in t[1])
    return max([1] + [width(x) for x in t[1:]])


DYN = ("list", "any")
MAP = ("dict", "any", "any")
FIX = {
    "A": A_,
    "B": B_,
    "empty": E_,
    "nested": F_,
    "bool": ("rec", "R", 3, (("p", "bool"),)),
    "str": ("rec", "R", 0, (("p", "str"),)),
    "bool_str": ("rec", "R", 0, (("p", "bool"), ("q", "str"), ("r", "bool"))),
    "any": ("rec", "R", 0, (("p", "any"), ("q", "int"))),
    "any_only": ("rec", "R", 130, (("p", "any"),)),
    "list_bool": ("rec", "R", 0, (("p", ("list", "bool")),)),
    "list_rec": ("rec", "R", 1, (("p", ("list", B_)),)),
    "list_list": ("rec", "R", 1, (("p", ("list", ("list", "bytes"))),)),
    "dict": ("rec", "R", 1, (("p", ("dict", "int", "bytes")),)),
    "dict_bool": ("rec", "R", 1, (("p", ("dict", "bytes", "bool")),)),
    "dict_rec": ("rec", "R", 1, (("p", ("dict", B_, ("list", "int"))),)),
    "dict_any": ("rec", "R", 1, (("p", MAP),)),
    "dict_str": ("rec", "R", 1, (("p", ("dict", "str", "int")),)),
    "union_AB": ("union", (A_, B_)),
    "union_ABE": ("union", (A_, B_, E_)),
    "union_int_bytes": ("union", ("int", "bytes")),
    "union_A_int": ("union", (A_, "int")),
    "union_B_bytes": ("union", (B_, "bytes")),
    "union_list": ("union", ("int", DYN)),
    "union_list_rec": ("union", (DYN, B_)),
    "union_dict": ("union", (MAP, "bytes")),
    "union_all": ("union", (A_, B_, "int", "bytes", DYN, MAP)),
    "union_field": ("rec", "R", 0, (("u", ("union", (A_, B_))), ("n", "int"))),
    "union_field2": ("rec", "R", 0, (("n", "int"), ("u", ("union", ("int", "bytes", E_))))),
    "union_in_list": ("rec", "R", 4, (("us", ("list", ("union", (B_, E_)))),)),
    "union_nested": ("rec", "R", 4, (("us", ("union", (F_, E_))),)),
    "same_tag_deep": ("rec", "R", 0, (("a", ("rec", "S", 0, (("a", ("rec", "T", 0, (("x", "int"),))),))),)),
    "four": ("rec", "R", 5, (("a", "int"), ("b", "bytes"), ("c", "bool"), ("d", E_))),
}


def rnd_type(rng, d, top=False, cnt=None):
    cnt = cnt if cnt is not None else [0]
    ch = ["int", "bytes", "bool", "str", "any"]
    if top:
        k = rng.choice(["rec", "rec", "union"])
    elif d <= 0:
        return rng.choice(ch)
    else:
        k = rng.choice(ch + ["list", "dict", "rec", "rec", "union"])
    if k in ch:
        return k
    if k == "list":
        return ("list", rnd_type(rng, d - 1, cnt=cnt))
    if k == "dict":
        return ("dict", rng.choice(["int", "bytes", "str"]), rnd_type(rng, d - 1, cnt=cnt))
    if k == "rec":
        cnt[0] += 1
        n = cnt[0]
        return ("rec", f"R{n}", rng.choice([0, 1, 2, 6, 7, 130]), tuple((f"f{i}", rnd_type(rng, d - 1, cnt=cnt)) for i in range(rng.randint(0, 2))))
    ms, tags = [], set()
    for _ in range(rng.randint(2, 3)):
        m = rng.choice(["int", "bytes", "rec", "rec", "list", "dict"])
        if m == "list":
            m = DYN
        elif m == "dict":
            m = MAP
        elif m == "rec":
            cnt[0] += 1
            tag = rng.choice([x for x in (0, 1, 2, 6, 7, 130) if x not in tags])
            tags.add(tag)
            m = ("rec", f"R{cnt[0]}", tag, tuple((f"f{i}", rnd_type(rng, d - 1, cnt=cnt)) for i in range(rng.randint(0, 2))))
        if m not in ms:
            ms.append(m)
    if len(ms) == 1:
        return rnd_type(rng, d, top=True, cnt=cnt)
    return ("union", tuple(ms))


def tasks(tier, rng):
    th = tier == "thorough"
    cfg = ("O0", "O1", "O2", "O3") if th else ("O1", "O2")
    out = []

    def add(name, src, spec, nargs=1, dep=2, wid=2, mp=None):
        mp = mp or (20000 if th else 600)

        def fn(deadline, tier):
            def make():
                return [DX(f"d{i}", dep, wid, 1) for i in range(nargs)]

            return dspec.run_spec(name, src, cfg, make, spec, max_paths=mp, deadline=deadline)

        out.append(Task(name, fn, desc=src, bounds=dict(depth=str(dep), width=str(wid), bytes_len="1", max_paths=str(mp), configs=str(cfg))))

    def identity(t):
        def spec(d):
            if not conforms(t, d):
                raise SpecErr("not well-formed")
            return d

        return spec

    def simple(name, t, **kw):
        src = HEAD + classes(t, set()) + f"def validator(x: {ann(t)}) -> {ann(t)}:\n    check_integrity(x)\n    return x\n"
        add(name, src, identity(t), dep=min(depth(t) + (1 if depth(t) < 2 or th else 0), 4), wid=max(2, width(t) + (1 if th or width(t) < 3 else 0)), **kw)

    def guide(name, t, mp, dev):
        src = HEAD + classes(t, set()) + f"def validator(x: {ann(t)}) -> {ann(t)}:\n    check_integrity(x)\n    return x\n"

        def fn(deadline, tier):
            return dspec.run_spec(name, src, cfg, lambda: [guided(t, "d", [dev])], identity(t), max_paths=mp, deadline=deadline)

        out.append(Task(name, fn, desc=src, bounds=dict(shape=f"like the type except at most {dev} positions", list_len="2", dict_len="2", max_paths=str(mp), configs=str(cfg))))

    for n, t in FIX.items():
        if depth(t) < 2 or th:
            simple(n, t)
        guide("g_" + n, t, 5000 if th else 400, 2 if th else 1)
    for i in range(60 if th else 8):
        simple(f"rnd{i}", rnd_type(rng, 1, top=True), mp=3000 if th else 250)
    for i in range(120 if th else 16):
        guide(f"grnd{i}", rnd_type(rng, 3 if i % 2 else 2, top=True), 3000 if th else 300, 2 if th else 1)
    # positions of the check
    cl = classes(A_, set())
    ABE = classes(("union", (A_, B_, E_)), set())
    add("alias", HEAD.replace("import check_integrity", "import check_integrity as ci") + cl + "def validator(x: A) -> A:\n    ci(x)\n    return x\n", identity(A_), dep=2, wid=3)
    add("cast", HEAD + cl + "def validator(d: Anything) -> int:\n    x: A = d\n    check_integrity(x)\n    return x.x\n",
        lambda d: (_ok(A_, d), dforce(d).fields[0])[1], dep=2, wid=3)
    add("helper", HEAD + cl + "def f(a: A) -> int:\n    check_integrity(a)\n    return a.x\ndef validator(x: A) -> int:\n    return f(x)\n",
        lambda d: (_ok(A_, d), dforce(d).fields[0])[1], dep=2, wid=3)
    add("two", HEAD + ABE + "def validator(x: A, y: Union[B, E]) -> A:\n    check_integrity(x)\n    check_integrity(y)\n    return x\n",
        lambda d, e: (_ok(A_, d), _ok(("union", (B_, E_)), e), d)[2], nargs=2, dep=1, wid=2)
    F = classes(F_, set())
    add("subfield", HEAD + F + "def validator(x: F) -> F:\n    check_integrity(x.a)\n    return x\n", _subfield, dep=2, wid=2)
    add("loop", HEAD + cl + "def validator(xs: List[A]) -> int:\n    for x in xs:\n        check_integrity(x)\n    return len(xs)\n", _loop, dep=2, wid=2)
    add("branch", HEAD + ABE + "def validator(x: Union[A, B]) -> int:\n    if isinstance(x, A):\n        check_integrity(x)\n        return 1\n    return 2\n", _branch, dep=2, wid=3)
    add("unused_result", HEAD + ABE + "def validator(x: Union[A, B], y: B) -> int:\n    check_integrity(x)\n    return 5\n",
        lambda d, e: (_ok(("union", (A_, B_)), d), DI(5))[1], nargs=2, dep=1, wid=2)
    add("cond", HEAD + ABE + "def validator(x: B, n: int) -> int:\n    if n > 3:\n        check_integrity(x)\n    return 5\n", _cond, nargs=2, dep=1, wid=2)
    return out


def _ok(t, d):
    if not conforms(t, d):
        raise SpecErr("not well-formed")


def _subfield(d):
    d2 = dforce(d)
    if type(d2) is not DC or not d2.fields:
        raise SpecErr("no field")
    if not truth(i_eq(d2.tag, 7)):
        return FREE
    _ok(A_, d2.fields[0])
    return d


def _loop(d):
    d2 = dforce(d)
    if type(d2) is not DL:
        raise SpecErr("no list")
    for x in d2.items:
        _ok(A_, x)
    return DI(len(d2.items))


def _branch(d):
    d2 = dforce(d)
    if type(d2) is not DC:
        raise SpecErr("no record")
    if truth(i_eq(d2.tag, 0)):
        _ok(A_, d)
        return DI(1)
    return DI(2) if truth(i_eq(d2.tag, 1)) else FREE


def _cond(d, e):
    e = dforce(e)
    if type(e) is not DI:
        raise SpecErr("no int")
    if truth(i_lt(3, e.i)):
        _ok(B_, d)
    return DI(5)
