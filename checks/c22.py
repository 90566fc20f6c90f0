"""C22: data read from JSON and CBOR text denotes the written value."""
import json
import typing
import uplc.ast as ua
from .lib import TYPING
from . import c16
from .c08 import HEAD
from .c16 import EXTRA, IText, world, plain, typed_py, typed_d, sym_isa, real_isa, Mismatch, json_of
from symx.runner import Task
from symx import dspec, pyrun, tv, engine
from symx import paramworld as PW
from symx import inputs as I
from symx import pysym as S
from symx.tv import SpecErr
from symx.values import *
from symx.engine import Cut, ctx

PROPERTY = "C22"
LEVEL = "translation_validation"
TECHNIQUE = "symbolic execution of the conversion functions on symbolic documents, decided by z3"
EXPLANATION = (
    "The conversion functions of /repo (opshin/util.py data_from_json, opshin/__main__.py plutus_data_from_json, plutus_data_from_cbor, "
    "parse_plutus_param, parse_uplc_param) are executed symbolically, from their current source, on symbolic documents: well-formed "
    "trees with symbolic integers, bytes, hexadecimal digits and constructors, and trees with one malformed node (wrong JSON kind in any "
    "slot, missing or unknown field, non-hexadecimal or odd text, negative constructor). z3 decides for all of them that the result is "
    "exactly the spelled data, or that the text is rejected when it spells none."
)
ASSUMPTIONS = [
    "json and cbor2 themselves are stand-ins that return what the text spells; the replay runs the real ones on the concrete text",
    "constructors with more fields than the declared class are unconstrained (recorded finding surplus-fields)",
    "maps have distinct keys (a ledger map that repeats a key has no Python dictionary form); white space within hexadecimal text and "
    "documents that carry several notations at once are unconstrained",
    "true/false in place of an integer is unconstrained for the reader of the uplc package (parse_uplc_param), which is not /repo code",
]
HEXD = [(48, 57), (65, 70), (97, 102)]
SPACE = (9, 10, 11, 12, 13, 32)
FLOATS = (5.5, 7.0, -0.25, 1e300)


class IDoc(I.In):
    """a JSON document"""

    def __init__(self, doc, wrap):
        self.doc = self.data = doc
        self.py = PW.JText(doc) if wrap else doc
        self.wrap = wrap

    def cdata(self, m):
        return conc(self.doc, m)

    def udata(self, m):
        raise Cut("document")

    def real(self, m, rt):
        d = conc(self.doc, m)
        return json.dumps(d) if self.wrap else d


def conc(x, m):
    if isinstance(x, dict):
        return {k: conc(v, m) for k, v in x.items()}
    if isinstance(x, list):
        return [conc(v, m) for v in x]
    if isinstance(x, S.SStr):
        return "".join(chr(I._mi(m, c)) for c in x.e)
    if isinstance(x, S.SNum):
        return I._mi(m, x.t)
    return x


def text(name, n):
    c = ctx()
    e = []
    for i in range(n):
        v = c.fresh_int(f"{name}[{i}]")
        c.assume(b_and([i_le(0, v), i_lt(v, 128)]))
        e.append(v)
    return S.mkstr(tuple(e))


def pick(name, *alts):
    """one of the alternatives"""
    a = alts[ctx().choose(len(alts))]
    return a() if callable(a) else a


def good(name, depth, width):
    c = ctx()
    k = c.choose(5 if depth > 0 else 2)
    if k == 0:
        return {"int": S.mk(c.fresh_int(name))}
    if k == 1:
        return {"bytes": hextext(name, c.choose(2))}
    n = c.choose(width + 1)
    sub = [good(f"{name}.{i}", depth - 1, width) for i in range(n)]
    if k == 2:
        return {"list": sub}
    if k == 3:
        return {"map": [{"k": good(f"{name}.k{i}", 0, 0), "v": x} for i, x in enumerate(sub)]}
    t = c.fresh_int(name + "_tag")
    c.assume(i_le(0, t))
    return {"constructor": S.mk(t), "fields": sub}


def hextext(name, n):
    """the digits of n bytes, in either case"""
    t = text(name, 2 * n)
    for x in t.e if n else ():
        ctx().assume(b_or([b_and([i_le(lo, x), i_le(x, hi)]) for lo, hi in HEXD]))
    return t


def other(name, *not_):
    """a JSON value of some other kind"""
    alts = dict(
        text=lambda: text(name, ctx().choose(3)), float=lambda: pick(name, *FLOATS), null=None, true=True, false=False,
        array=lambda: pick(name, lambda: [], lambda: [{"int": 1}], lambda: [[]]), object=lambda: pick(name, lambda: {}, lambda: {"int": 3}, lambda: {"k": {"int": 1}, "v": {"int": 2}}),
        int=lambda: S.mk(ctx().fresh_int(name)),
    )
    return pick(name, *[v for k, v in alts.items() if k not in not_])


def badhex(name):
    return text(name, 1 + ctx().choose(3))


def bad(name, depth, width):
    """a document that differs from a well-formed one at one node (mostly)"""
    c = ctx()
    if depth > 0 and c.choose(2):
        k = c.choose(4)
        sub = bad(name + ".0", depth - 1, width)
        rest = [good(f"{name}.{i+1}", 0, 0) for i in range(c.choose(width))]
        if k == 0:
            return {"list": rest + [sub]}
        if k == 1:
            return {"map": [{"k": good(f"{name}.k", 0, 0), "v": sub}] + [{"k": {"bytes": "ab"}, "v": x} for x in rest]}
        if k == 2:
            return {"map": [{"k": sub, "v": good(f"{name}.v", 0, 0)}]}
        return {"constructor": S.mk(c.fresh_int(name + "_tag")), "fields": rest + [sub]}
    k = c.choose(13)
    if k == 0:
        return {"int": other(name, "int")}
    if k == 1:
        return {"bytes": other(name, "text")}
    if k == 2:
        return {"bytes": badhex(name)}
    if k == 3:
        return {"list": other(name, "array")}
    if k == 4:
        return {"map": other(name, "array")}
    if k == 5:
        return {"map": [other(name, "object")]}
    if k == 6:
        return {"map": [pick(name, {"k": {"int": 1}}, {"v": {"int": 1}}, {"key": {"int": 1}, "v": {"int": 1}})]}
    if k == 7:
        return {"constructor": other(name, "int"), "fields": []}
    if k == 8:
        return {"constructor": S.mk(c.fresh_int(name + "_tag")), "fields": other(name, "array")}
    if k == 9:
        return pick(name, {"constructor": 0}, {"fields": []}, {}, {"Int": 5}, {"integer": 5}, {"con": 0, "fields": []}, {"k": {"int": 0}, "v": {"int": 0}})
    if k == 10:
        return {"list": [other(name, "object")]}
    if k == 11:
        return {"constructor": S.mk(c.fresh_int(name + "_tag")), "fields": [other(name, "object")]}
    return other(name, "object")


class Free(Exception):
    pass


def keys(j, *want):
    return isinstance(j, dict) and set(j) == set(want)


def is_int(x):
    return type(x) is int or type(x) is S.SInt


def is_text(x):
    return isinstance(x, (str, S.SStr))


def spells(j, bools=True):
    """data the document spells; SpecErr when none"""
    if keys(j, "int"):
        if not bools and isinstance(j["int"], bool):
            raise Free
        if not is_int(j["int"]):
            raise SpecErr("no integer")
        return DI(S.raw(j["int"]))
    if keys(j, "bytes"):
        if not is_text(j["bytes"]):
            raise SpecErr("no text")
        e = S._elems(S.SStr, j["bytes"])
        for x in e:
            if truth(b_or([i_eq(x, s) for s in SPACE])):
                raise Free
        v = []
        for x in e:
            if truth(b_and([i_le(48, x), i_le(x, 57)])):
                v.append(i_sub(x, 48))
            elif truth(b_and([i_le(65, x), i_le(x, 70)])):
                v.append(i_sub(x, 55))
            elif truth(b_and([i_le(97, x), i_le(x, 102)])):
                v.append(i_sub(x, 87))
            else:
                raise SpecErr("no hexadecimal digit")
        if len(v) % 2:
            raise SpecErr("odd number of digits")
        return DB(tuple(i_add(i_mul(16, a), b) for a, b in zip(v[::2], v[1::2])))
    if keys(j, "list"):
        if not isinstance(j["list"], list):
            raise SpecErr("no array")
        return DL(tuple(spells(x, bools) for x in j["list"]))
    if keys(j, "map"):
        if not isinstance(j["map"], list):
            raise SpecErr("no array")
        out = []
        for p in j["map"]:
            if not keys(p, "k", "v"):
                raise SpecErr("no pair")
            out.append((spells(p["k"], bools), spells(p["v"], bools)))
        d = DM(tuple(out))
        if not plain(d):
            raise Free
        return d
    if keys(j, "constructor", "fields"):
        if not bools and isinstance(j["constructor"], bool):
            raise Free
        if not is_int(j["constructor"]):
            raise SpecErr("no constructor number")
        fs = j["fields"]
        if not isinstance(fs, list):
            raise SpecErr("no array")
        fs = tuple(spells(x, bools) for x in fs)
        if truth(i_lt(S.raw(j["constructor"]), 0)):
            if not bools:
                raise Free
            raise SpecErr("negative constructor")
        return DC(S.raw(j["constructor"]), fs)
    raise SpecErr("unknown notation")


def spec_of(bools=True):
    def spec(j):
        try:
            return spells(j, bools)
        except Free:
            return dspec.FREE

    return spec


def reader_task(kind, mode, depth, width, mp):
    """kind: util | uplc | plutus"""

    def fn(deadline, tier):
        import pycardano
        from opshin import util, __main__ as m

        w, main, _ = world()
        su = w.functions("opshin/util.py")
        make = lambda: [IDoc((bad if mode == "bad" else good)("p", depth, width), kind != "util")]
        raw = lambda u: pycardano.RawCBOR(ua.plutus_cbor_dumps(u))
        if kind == "util":
            f, real = lambda j: S.RawData(su.data_from_json(j).d), lambda j: raw(util.data_from_json(j))
        elif kind == "uplc":
            f, real = lambda t: S.RawData(main.parse_uplc_param(t).d), lambda t: raw(m.parse_uplc_param(t))
        else:
            f, real = lambda t: main.parse_plutus_param(S.Datum, t), lambda t: m.parse_plutus_param(pycardano.Datum, t)
        return pyrun.run_py(name, make, f, spec_of(kind != "uplc"), real, src=f"{kind} on {mode} documents", max_paths=mp, deadline=deadline, files=["opshin/__main__.py", "opshin/util.py"])

    name = f"{kind}_{mode}_d{depth}w{width}"
    return Task(name, fn, desc=f"{kind} reader, {mode} documents", bounds=dict(depth=str(depth), width=str(width), max_paths=str(mp)))


def typed_task(ann, mode, depth, width, mp):
    """declared types: a document that does not spell a value of the type is rejected, never read as another value"""
    src = TYPING + HEAD + EXTRA + f"def validator(p: {ann}) -> None:\n    pass\n"
    name = f"typed_{mode}_{ann}"

    def fn(deadline, tier):
        import pycardano
        from opshin.__main__ import parse_plutus_param

        old = engine.CTX
        engine.CTX = tv._dummy_ctx()
        try:
            w, main, _ = world()
            mod = w.module(src)
            [(_, t)] = tv.get_types(mod, "validator")
        finally:
            engine.CTX = old
        ns = {}
        exec(compile(src, "<program>", "exec"), ns)
        rt = typing.get_type_hints(ns["validator"])["p"]

        def spec(j):
            try:
                d = spells(j)
            except Free:
                return dspec.FREE
            c16.SURPLUS = sp = []
            try:
                r = typed_d(t, d)
            except Mismatch:
                r = None
            if sp:
                return dspec.FREE  # known finding surplus-fields
            if r is None:
                raise SpecErr("no value of the type")
            return r

        f = lambda x: typed_py(t, main.parse_plutus_param(t, x), sym_isa, S.Datum)
        real = lambda x: typed_py(rt, parse_plutus_param(rt, x), real_isa, pycardano.Datum)
        make = lambda: [IDoc((bad if mode == "bad" else good)("p", depth, width), True)]
        out = pyrun.run_py(name, make, f, spec, real, src=src, max_paths=mp, deadline=deadline, files=["opshin/__main__.py", "opshin/util.py"])
        out.vacuous_ok = mode == "bad"  # some of these document families contain no value of the type
        return out

    return Task(name, fn, desc=f"parse_plutus_param({ann}, <json>)", bounds=dict(depth=str(depth), width=str(width), max_paths=str(mp)))


class IHex(I.In):
    def __init__(self, n):
        self.py = text("p", n)
        self.data = self.py

    def cdata(self, m):
        return self.real(m, None)

    def real(self, m, rt):
        return conc(self.py, m)


def hex_task(kind, n, mp):
    """text that is neither JSON nor hexadecimal is rejected"""
    name = f"hex_{kind}_{n}"

    def spec(t):
        e = S._elems(S.SStr, t)
        if any(truth(b_or([i_eq(x, s) for s in SPACE])) for x in e) or truth(i_eq(e[0], 123)):
            return dspec.FREE
        if all(truth(b_or([b_and([i_le(lo, x), i_le(x, hi)]) for lo, hi in HEXD])) for x in e) and len(e) % 2 == 0:
            return dspec.FREE
        raise SpecErr("no hexadecimal text")

    def fn(deadline, tier):
        import pycardano
        from opshin import __main__ as m

        w, main, _ = world()
        if kind == "uplc":
            f, real = main.parse_uplc_param, m.parse_uplc_param
        else:
            f, real = lambda t: main.parse_plutus_param(int, t), lambda t: m.parse_plutus_param(int, t)
        return pyrun.run_py(name, lambda: [IHex(n)], f, spec, real, src="hexadecimal text", max_paths=mp, deadline=deadline, files=["opshin/__main__.py"])

    return Task(name, fn, desc=f"{kind} reader on text of {n} characters", bounds=dict(chars=str(n), max_paths=str(mp)))


def cbor_task(kind, depth, mp):
    name = f"cbor_{kind}"

    def fn(deadline, tier):
        import pycardano
        from opshin import __main__ as m

        w, main, _ = world()
        raw = lambda u: pycardano.RawCBOR(ua.plutus_cbor_dumps(u))
        make = lambda: [IText("cbor", DX("p", depth, 2, 2, "CMLIB"))]
        if kind == "uplc":
            f, real = lambda t: S.RawData(main.parse_uplc_param(t).d), lambda t: raw(m.parse_uplc_param(t))
        else:
            f, real = lambda t: main.parse_plutus_param(S.Datum, t), lambda t: m.parse_plutus_param(pycardano.Datum, t)
        return pyrun.run_py(name, make, f, lambda d: d if plain(d) else dspec.FREE, real, src=f"{kind} on CBOR", max_paths=mp, deadline=deadline, files=["opshin/__main__.py"])

    return Task(name, fn, desc=f"{kind} reader on CBOR", bounds=dict(depth=str(depth), max_paths=str(mp)))


ANNS = ["int", "bytes", "List[int]", "List[List[bytes]]", "Dict[int, bytes]", "Dict[bytes, List[int]]", "Union[int, bytes]", "Union[A, int]", "A", "N", "W", "AnyF", "UF", "List[A]", "Union[List[Anything], int]"]


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    mp = 6000 if th else 600
    for kind in ("util", "uplc", "plutus"):
        out.append(reader_task(kind, "good", 2, 2, mp))
        out.append(reader_task(kind, "good", 1, 3 if th else 2, mp))
        for d in (0, 1, 2) + ((3,) if th else ()):
            out.append(reader_task(kind, "bad", d, 1, mp * 2))
    for a in ANNS:
        out.append(typed_task(a, "bad", 1, 1, mp // 2))
        out.append(typed_task(a, "good", 2 if th else 1, 2, mp // 2))
    for kind in ("uplc", "plutus"):
        for n in (1, 2, 3) + ((4, 5) if th else ()):
            out.append(hex_task(kind, n, mp))
        out.append(cbor_task(kind, 3 if th else 2, mp))
    return out
