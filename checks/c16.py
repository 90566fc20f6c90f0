"""C16: fixed parameters equal run-time parameters; textual parameters."""
import contextlib
import io
import json
import os
import shutil
import sys
import tempfile
import textwrap
import types
import typing
import uplc
import uplc.ast as ua
from .lib import TYPING
from .c08 import HEAD
from symx.runner import Task
from symx import dspec, pyrun, tv, cross, engine, fixed
from symx import paramworld as PW
from symx import inputs as I
from symx import machine as M
from symx import pysym as S
from symx.tv import SpecErr
from symx.values import *
from symx.engine import Cut

PROPERTY = "C16"
LEVEL = "translation_validation"
EXPLANATION = (
    "Scripts: /repo's builder and command line build the same program without and with its leading parameters fixed (one call, one "
    "parameter at a time, on the serialised script, from JSON and CBOR text, through stored artefacts). The fixed constants are replaced "
    "by symbolic data in the resulting UPLC; both scripts are executed symbolically and z3 decides, for all parameter values and all "
    "remaining arguments within the bounds, that they return the same value or fail together. Texts: /repo's parsing functions are "
    "executed symbolically on JSON documents and CBOR whose numbers, bytes and constructors are symbolic, and z3 decides that the Python "
    "value and the UPLC constant obtained denote exactly the written data; likewise for the conversion of API parameters into constants."
)
ASSUMPTIONS = [
    "json, cbor2 and the class decoding of pycardano are stand-ins that return what the text spells (the replay runs the real ones)",
    "a fixed constant that equals the marker value it was built with is the parameter (markers are distinctive values); the conversion "
    "of values into constants is checked separately on symbolic values",
    "text that does not conform to str, bool and None annotations is not constrained (the repository's tests fix that behaviour)",
]

# ------------------------------------------------------------- fixed scripts
PROGS = {
    "two": ("def validator(a: int, b: bytes, c: int) -> int:\n    if len(b) > a:\n        return c // (a - 3)\n    return b[c] + a\n", 2),
    "order": ("def validator(a: int, b: int, c: int) -> int:\n    return a * 2 + b * 3 + c * 5 if a > b else a - b\n", 2),
    "three": ("def validator(a: int, b: int, c: int, d: bytes) -> List[int]:\n    return [a, b, c, len(d)][a:c]\n", 3),
    "cls": ("def validator(p: A, q: int) -> bytes:\n    assert q > p.x\n    return p.y\n", 1),
    "clslist": ("def validator(p: List[A], k: int) -> int:\n    s = 0\n    for e in p:\n        s += e.x * k\n    return s\n", 1),
    "union": ("def validator(p: Union[A, B], q: Union[int, bytes], r: int) -> int:\n    t = p.x if isinstance(p, A) else p.z\n    return t * r + (q if isinstance(q, int) else len(q))\n", 2),
    "dict": ("def validator(p: Dict[int, bytes], k: int) -> bytes:\n    return p[k]\n", 1),
    "bools": ("def validator(p: bool, q: bool, k: int) -> int:\n    return (k if p else 1) * (2 if q else 3)\n", 2),
    "text": ("def validator(p: str, q: bytes) -> bool:\n    return p.encode() == q\n", 1),
    "none": ("def validator(p: None, q: int) -> int:\n    return q + 1\n", 1),
    "any": ("def validator(p: Anything, q: Anything) -> bool:\n    return p == q\n", 1),
    "unused": ("def validator(p: int, q: List[int]) -> int:\n    return len(q)\n", 1),
    "shadow": ("K = 5\ndef f(a: int) -> int:\n    return a + K\ndef validator(a: int, b: int) -> int:\n    a2 = f(a)\n    b = b + a2\n    return f(b) * a\n", 1),
    "print": ("def validator(p: int, q: int) -> None:\n    print(p)\n    assert q < p, 'too big'\n    print(q)\n", 1),
    "all": ("def validator(a: int, b: bytes) -> int:\n    return a + len(b)\n", 2),
}
DC_ = "from opshin.prelude import *\n"
# command line: the remaining parameter must be the script context
CLI = {
    "cli_int": (DC_ + "def validator(p: int, ctx: ScriptContext) -> None:\n    r: int = ctx.redeemer\n    assert r == p\n", 1),
    "cli_two": (DC_ + "def validator(p: int, q: bytes, ctx: ScriptContext) -> None:\n    r: bytes = ctx.redeemer\n    assert r == q and p > len(r)\n", 2),
    "cli_order": (DC_ + "def validator(p: int, q: int, s: int, ctx: ScriptContext) -> None:\n    r: int = ctx.redeemer\n    assert p * 2 + q * 3 < s + r\n", 3),
    "cli_cls": (DC_ + "@dataclass()\nclass Cfg(PlutusData):\n    CONSTR_ID = 3\n    x: int\n    l: List[int]\n    u: Union[Token, TrueData]\ndef validator(p: Cfg, ctx: ScriptContext) -> None:\n    r: int = ctx.redeemer\n    assert r in p.l and p.x > 0 and isinstance(p.u, Token)\n", 1),
    "cli_mix": (DC_ + "def validator(p: bool, q: str, s: Dict[int, bytes], t: Anything, ctx: ScriptContext) -> None:\n    r: int = ctx.redeemer\n    assert p\n    assert q == 'a'\n    assert t == ctx.redeemer\n    assert s[r] == b'a'\n", 4),
}
CTXB = {
    "ctx.redeemer": dict(any_depth=0, any_kinds="IB"),
    "t": dict(any_depth=1, any_kinds="IBL"),
    "ctx.transaction": dict(list_len=0, dict_len=0, bytes_len=0, str_len=0, any_depth=0),
    "ctx.transaction.*": dict(list_len=0, dict_len=0, bytes_len=0, any_depth=0, members=[0]),
    "ctx.purpose": dict(list_len=0, bytes_len=0, members=[0]),
    "ctx.purpose.*": dict(list_len=0, bytes_len=0, members=[0], any_depth=0),
}

# ------------------------------------------------------------------- texts
TYPES = [
    "int", "bytes", "bool", "str", "None", "Anything", "List[int]", "List[bytes]", "List[bool]", "List[List[int]]", "List[Anything]", "Dict[int, bytes]",
    "Dict[bytes, int]", "Dict[bytes, List[int]]", "Dict[int, Anything]", "Dict[bytes, Dict[bytes, int]]", "Union[int, bytes]", "Union[bytes, int]", "Union[A, int]", "Union[int, A]",
    "Union[A, B]", "Union[B, C, A]", "Union[A, List[int]]", "Union[List[Anything], int]", "Union[List[Anything], bytes]", "Union[Dict[Anything, Anything], bytes, int]", "A", "B", "N", "BIG", "W", "D1", "List[A]", "Dict[int, A]",
    "List[Union[A, B]]", "Dict[bytes, Union[int, bytes]]", "Union[A, B, int, bytes, List[Anything]]", "Union[A, B, int, bytes, Dict[Anything, Anything]]",
]
NOANY = ("bool", "str", "None", "List[bool]")
EXTRA = """
@dataclass(unsafe_hash=True)
class AnyF(PlutusData):
    CONSTR_ID = 5
    x: Anything
    l: List[Anything]
@dataclass(unsafe_hash=True)
class UF(PlutusData):
    CONSTR_ID = 6
    u: Union[A, int]
    v: Union[int, bytes, A]
@dataclass(unsafe_hash=True)
class CF(PlutusData):
    CONSTR_ID = 130
    l: List[Union[A, B]]
    d: Dict[bytes, List[A]]
"""
TYPES += ["AnyF", "UF", "CF"]


class Mismatch(Exception):
    pass


def typed(t, x, isa):
    """a result with the Python types it must have, as nested lists"""
    if isa(x, bool):
        return [3, 1 if x else 0]
    if isa(x, int):
        return [1, x]
    if x is None:
        return [5]
    if isa(x, str):
        return [4, x]
    if isa(x, bytes):
        return [2, x]
    return None


def typed_py(t, x, isa, datum):
    if t == datum:
        return [9, x]
    if typing.get_origin(t) is typing.Union:
        for u in typing.get_args(t):
            r = fits(u, x, isa, datum)
            if r is not None:
                return r
        return [99]
    r = fits(t, x, isa, datum)
    return [99] if r is None else r


def fits(t, x, isa, datum):
    o = typing.get_origin(t)
    if t == datum:
        return [9, x]
    if o is typing.Union:
        return typed_py(t, x, isa, datum)
    if o is list:
        if not isa(x, list):
            return None
        return [6] + [typed_py(typing.get_args(t)[0], y, isa, datum) for y in x]
    if o is dict:
        if not isa(x, dict):
            return None
        k, v = typing.get_args(t)
        return [7] + [[typed_py(k, a, isa, datum), typed_py(v, b, isa, datum)] for a, b in x.items()]
    if t in (int, bool, str, bytes, None, type(None)):
        r = typed(t, x, isa)
        if r is None or r[0] != {int: 1, bool: 3, str: 4, bytes: 2}.get(t, 5):
            return None
        return r
    if isinstance(x, t):
        hints = typing.get_type_hints(t)
        import dataclasses

        return [8, t.CONSTR_ID] + [typed_py(hints[f.name], getattr(x, f.name), isa, datum) for f in dataclasses.fields(t)]
    return None


def tag(n, *ds):
    return DL((DI(n),) + ds)


SURPLUS = None


def typed_d(t, d):
    """the same for the value of type t that data d encodes"""
    d = dforce(d)
    o = typing.get_origin(t)
    if t == S.Datum:
        return tag(9, d)
    if o is typing.Union:
        for u in typing.get_args(t):
            try:
                return typed_d(u, d)
            except Mismatch:
                pass
        raise Mismatch
    if t is int and type(d) is DI:
        return tag(1, d)
    if t is bytes and type(d) is DB:
        return tag(2, d)
    if t is bool and type(d) is DI:
        if not truth(b_or([i_eq(d.i, 0), i_eq(d.i, 1)])):
            raise Mismatch
        return tag(3, d)
    if t is str and type(d) is DB:
        try:
            utf8_decode(d.e, UError("utf8"))
        except UError:
            raise Mismatch
        return tag(4, d)
    if t in (None, type(None)) and type(d) is DC:
        return tag(5)
    if o is list and type(d) is DL:
        return tag(6, *[typed_d(typing.get_args(t)[0], x) for x in d.items])
    if o is dict and type(d) is DM:
        k, v = typing.get_args(t)
        return tag(7, *[DL((typed_d(k, a), typed_d(v, b))) for a, b in d.pairs])
    if isinstance(t, type) and issubclass(t, S.PlutusData) and type(d) is DC:
        import dataclasses

        fs = dataclasses.fields(t)
        if len(fs) < len(d.fields) and SURPLUS is not None:
            SURPLUS.append(d)
        if len(fs) == len(d.fields) and truth(i_eq(d.tag, t.CONSTR_ID)):
            hints = typing.get_type_hints(t)
            return tag(8, DI(t.CONSTR_ID), *[typed_d(hints[f.name], x) for f, x in zip(fs, d.fields)])
    raise Mismatch


def real_isa(x, t):
    import pycardano

    if t is list:
        return isinstance(x, (list, pycardano.IndefiniteList))
    if t is int:
        return isinstance(x, int) and not isinstance(x, bool)
    return isinstance(x, t)


def sym_isa(x, t):
    if t is int:
        return S.s_isinstance(x, int) and not S.s_isinstance(x, bool)
    return S.s_isinstance(x, t)


def json_of(u):
    if isinstance(u, ua.PlutusInteger):
        return {"int": u.value}
    if isinstance(u, ua.PlutusByteString):
        return {"bytes": u.value.hex()}
    if isinstance(u, ua.PlutusList):
        return {"list": [json_of(x) for x in u.value]}
    if isinstance(u, ua.PlutusMap):
        return {"map": [{"k": json_of(k), "v": json_of(v)} for k, v in u.value.items()]}
    if isinstance(u, ua.PlutusConstr):
        return {"constructor": u.constructor, "fields": [json_of(x) for x in u.fields]}
    raise TypeError(u)


def plain(d):
    """maps have distinct integer or byte string keys, as Python dictionaries can hold them"""
    d = dforce(d)
    if type(d) is DL or type(d) is DC:
        return all(plain(x) for x in (d.items if type(d) is DL else d.fields))
    if type(d) is DM:
        ks = [dforce(k) for k, _ in d.pairs]
        if not all(type(k) in (DI, DB) for k in ks):
            return False
        for i in range(len(ks)):
            for j in range(i):
                if truth(d_eq(ks[i], ks[j])):
                    return False
        return all(plain(v) for _, v in d.pairs)
    return True


class IText(I.In):
    """a data value written as text"""

    def __init__(self, form, data, i=None):
        self.form = form
        self.i = i
        self.data = data
        if form == "json":
            self.py = PW.JText(PW.doc_of(data))
        elif form == "cbor":
            self.py = PW.Hex(PW.Wire(data))
        else:
            self.py = i.py

    def udata(self, m):
        return self.i.udata(m) if self.i else I.conc_data(self.data, m)

    def real(self, m, rt):
        u = self.udata(m)
        return json.dumps(json_of(u)) if self.form == "json" else ua.plutus_cbor_dumps(u).hex()


_W = []


def world():
    if not _W:
        w = PW.ParamWorld()
        _W.append((w, w.functions("opshin/__main__.py"), w.functions("opshin/builder.py")))
    return _W[0]


def text_task(ann, form, anyd, bounds, mp):
    src = TYPING + HEAD + EXTRA + f"def validator(p: {ann}) -> None:\n    pass\n"
    name = f"text_{form}_{'any_' if anyd else ''}{ann}"

    def fn(deadline, tier):
        old = engine.CTX
        engine.CTX = tv._dummy_ctx()
        try:
            w, main, _ = world()
            mod = w.module(src)
            [(_, t)] = tv.get_types(mod, "validator")
        finally:
            engine.CTX = old
        ns = {}
        exec(compile(src, "<program>", "exec"), ns)
        rt = typing.get_type_hints(ns["validator"])["p"]
        import pycardano
        from opshin.__main__ import parse_plutus_param

        b = I.Bounds(**bounds)
        ann_ = None if t is type(None) else t
        rann = None if rt is type(None) else rt

        def make():
            if anyd:
                return [IText(form, DX("p", 2, 2, 1, "CMLIB"))]
            i = I.build(t, "p", b)
            return [IText(form, i.data, i)]

        if anyd:
            # no conforming text denotes anything else than what it spells
            def f(txt):
                try:
                    r = main.parse_plutus_param(ann_, txt)
                except (Cut, engine.PathAbort):
                    raise
                except Exception:
                    return [0]
                return [1, r]

            def real(txt):
                try:
                    r = parse_plutus_param(rann, txt)
                except Exception:
                    return [0]
                return [1, r]

            def spec(d):
                if not plain(d):
                    return dspec.FREE
                global SURPLUS
                SURPLUS = sp = []
                try:
                    typed_d(t, d)
                except Mismatch:
                    pass
                if sp:
                    return dspec.FREE  # known finding surplus-fields
                return lambda r: len(r.items) == 1 or d_eq(d, r.items[1])
        else:
            f = lambda txt: typed_py(t, main.parse_plutus_param(ann_, txt), sym_isa, S.Datum)
            real = lambda txt: typed_py(rt, parse_plutus_param(rann, txt), real_isa, pycardano.Datum)

            def spec(d):
                if not plain(d):
                    return dspec.FREE
                try:
                    return typed_d(t, d)
                except Mismatch:
                    return dspec.FREE

        return pyrun.run_py(name, make, f, spec, real, src=src, max_paths=mp, deadline=deadline, files=["opshin/__main__.py"])

    return Task(name, fn, desc=f"parse_plutus_param({ann}, <{form} text>)", bounds={k: str(v) for k, v in dict(bounds, max_paths=mp).items()})


def uplc_text_task(form, mp, depth):
    name = f"uplc_{form}"

    def fn(deadline, tier):
        from opshin.__main__ import parse_uplc_param

        w, main, _ = world()

        def make():
            return [IText(form, DX("p", depth, 2, 2, "CMLIB"))]

        f = lambda txt: S.RawData(main.parse_uplc_param(txt).d)

        class R:
            pass

        def real(txt):
            import pycardano

            return pycardano.RawCBOR(ua.plutus_cbor_dumps(parse_uplc_param(txt)))

        return pyrun.run_py(name, make, f, lambda d: d, real, src="parse_uplc_param", max_paths=mp, deadline=deadline, files=["opshin/__main__.py"])

    return Task(name, fn, desc=f"parse_uplc_param(<{form} text>)", bounds={"depth": str(depth), "width": "2", "max_paths": str(mp)})


def apply_task(anns, bounds, mp):
    """builder._apply_parameters: Python values become constants applied in order"""
    src = TYPING + HEAD + EXTRA + "def validator(" + ", ".join(f"p{i}: {a}" for i, a in enumerate(anns)) + ") -> None:\n    pass\n"
    name = "constants_" + "_".join(anns)

    def fn(deadline, tier):
        old = engine.CTX
        engine.CTX = tv._dummy_ctx()
        try:
            w, _, bld = world()
            mod = w.module(src)
            ts = tv.get_types(mod, "validator")
        finally:
            engine.CTX = old
        ns = {}
        exec(compile(src, "<program>", "exec"), ns)
        rts = typing.get_type_hints(ns["validator"])
        b = I.Bounds(**bounds)

        class IReal(I.In):
            def __init__(self, n, t):
                self.i = I.build(t, n, b)
                self.py, self.data, self.n = self.i.py, self.i.data, n

            def real(self, m, rt):
                return self.i.real(m, rts[self.n])

            def udata(self, m):
                return self.i.udata(m)

        def make():
            return [IReal(n, t) for n, t in ts]

        def f(*xs):
            base = object()
            p = bld._apply_parameters(w.uplc_ast.Program((1, 1, 0), base), *xs)
            out = []
            t = p.term
            while t is not base:
                out.append(S.RawData(t.x.uval()))
                t = t.f
            return out[::-1]

        def real(*xs):
            import pycardano
            from opshin.builder import _apply_parameters

            base = ua.Variable("base")
            t = _apply_parameters(ua.Program((1, 1, 0), base), *xs).term
            out = []
            while t is not base:
                out.append(pycardano.RawCBOR(ua.plutus_cbor_dumps(t.x)))
                t = t.f
            return out[::-1]

        return pyrun.run_py(name, make, f, lambda *ds: DL(ds), real, src=src, max_paths=mp, deadline=deadline, files=["opshin/builder.py", "opshin/util.py"])

    return Task(name, fn, desc=f"_apply_parameters with {anns}", bounds={k: str(v) for k, v in dict(bounds, max_paths=mp).items()})


MODES = ("compile", "stored", "contract", "steps", "build")
CLIMODES = ("cli_json", "cli_cbor", "cli_build", "cli_build_apply")


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    tb = dict(list_len=2, bytes_len=2 if th else 1, str_len=2 if th else 1, dict_len=2 if th else 1, any_depth=2, any_width=2 if th else 1)
    mp = 3000 if th else 250
    for a in TYPES:
        for form in ("json", "cbor"):
            out.append(text_task(a, form, False, tb, mp))
            if a not in NOANY:
                out.append(text_task(a, form, True, {}, mp))
    for form in ("json", "cbor"):
        out.append(uplc_text_task(form, 6000 if th else 500, 3 if th else 2))
    for anns in (["int", "bytes"], ["bytes", "int", "int"], ["A", "B"], ["List[int]", "Dict[int, bytes]"], ["W"], ["Union[A, int]", "N"], ["List[Anything]", "Anything"], ["CF", "BIG"], ["Dict[bytes, Dict[bytes, int]]"]):
        out.append(apply_task(anns, tb, mp))
    cfgs = ("O1", "O2") if not th else ("O0", "O1", "O2", "O3")
    for n, (src, k) in PROGS.items():
        for mode in MODES:
            if n == "all" and mode in ("contract", "steps"):
                continue  # a contract's last parameter is the script context
            for kk in range(1, k + 1) if th or mode in ("compile", "steps") else (k,):
                for c in cfgs if th else (cfgs[len(out) % 2],):
                    out.append(fixed.fixed_task(f"{n}_{mode}_{kk}_{c}", TYPING + HEAD + src, kk, mode, c, dict(list_len=2, bytes_len=2, str_len=1, dict_len=2, any_depth=1), 1500 if th else 150))
    for n, (src, k) in CLI.items():
        for mode in CLIMODES:
            for kk in range(1, k + 1) if th or mode == "cli_build_apply" else (k,):
                out.append(fixed.fixed_task(f"{n}_{mode}_{kk}", src, kk, mode, "O1", dict(list_len=1, bytes_len=1, str_len=1, dict_len=1, any_depth=1, per=CTXB), 600 if th else 120))
    return out
