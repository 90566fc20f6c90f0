"""C24: the published schemas admit exactly the data of the declared types."""
import dataclasses
import json
import os
import tempfile
import typing
from . import c11
from .c11 import FIX, HEAD, ann, classes, conforms, guided, rnd_type, depth, width
from symx.runner import Task
from symx import dspec, pyrun, fixed, tv, engine
from symx import inputs as I
from symx.dspec import SpecErr, FREE, of_uplc
from symx.values import *

PROPERTY = "C24"
LEVEL = "translation_validation"
TECHNIQUE = "symbolic interpretation of the published schema and symbolic execution of the compiled check on arbitrary data, decided by z3"
EXPLANATION = (
    "The schemas are produced by /repo (opshin/builder.py to_plutus_schema, PlutusContract.blueprint, `opshin build`) in this run for "
    "generated and ledger types and interpreted, by the rules of CIP-57, as a predicate on arbitrary ledger data with symbolic integers, "
    "bytes and constructor numbers of any shape within the bounds. z3 decides that the predicate equals an independent recogniser of the "
    "declared type's data, that a script which checks the integrity of such a value succeeds exactly on admitted data, and that the type "
    "read back from a schema (from_plutus_schema, load) admits the same data."
)
ASSUMPTIONS = [
    "CIP-57 has no vocabulary for booleans, text and distinct keys: the schema of bool is that of int, of str that of bytes, and maps may "
    "repeat keys; data that differs only in this is unconstrained against the compiled check",
    "a parameter of type None ignores its data on chain, so that any data is admitted",
]


class SchemaError(Exception):
    pass


KNOWN = {"dataType", "title", "description", "$comment", "items", "keys", "values", "index", "fields", "anyOf", "oneOf", "allOf", "not"}


def admits(s, d):
    """CIP-57 validity of data against a schema"""
    if not isinstance(s, dict) or set(s) - KNOWN:
        raise SchemaError(str(s))
    if "anyOf" in s and not any(admits(x, d) for x in s["anyOf"]):
        return False
    if "oneOf" in s and sum(admits(x, d) for x in s["oneOf"]) != 1:
        return False
    if "allOf" in s and not all(admits(x, d) for x in s["allOf"]):
        return False
    if "not" in s and admits(s["not"], d):
        return False
    if "dataType" not in s:
        if set(s) & {"items", "keys", "values", "index", "fields"}:
            raise SchemaError("no dataType")
        return True
    k = s["dataType"]
    d = dforce(d)
    if k == "integer":
        return type(d) is DI
    if k == "bytes":
        return type(d) is DB
    if k == "list":
        if type(d) is not DL:
            return False
        it = s.get("items", {})
        if isinstance(it, list):
            return len(it) == len(d.items) and all(admits(x, y) for x, y in zip(it, d.items))
        return all(admits(it, y) for y in d.items)
    if k == "map":
        return type(d) is DM and all(admits(s.get("keys", {}), a) and admits(s.get("values", {}), b) for a, b in d.pairs)
    if k == "constructor":
        if type(d) is not DC:
            return False
        if type(s["index"]) is not int:
            raise SchemaError("index")
        return truth(i_eq(d.tag, s["index"])) and len(s["fields"]) == len(d.fields) and all(admits(x, y) for x, y in zip(s["fields"], d.fields))
    raise SchemaError(str(k))


def of_type(t, d):
    """data of a declared type, with bool as int, str as bytes and maps with any keys"""
    import pycardano

    o = typing.get_origin(t)
    if t is None or t is type(None) or t == pycardano.Datum:
        return True
    if o is typing.Union:
        return any(of_type(x, d) for x in typing.get_args(t))
    d = dforce(d)
    if t in (int, bool):
        return type(d) is DI
    if t in (bytes, str):
        return type(d) is DB
    if o is list:
        return type(d) is DL and all(of_type(typing.get_args(t)[0], x) for x in d.items)
    if o is dict:
        k, v = typing.get_args(t)
        return type(d) is DM and all(of_type(k, a) and of_type(v, b) for a, b in d.pairs)
    fs = dataclasses.fields(t)
    h = typing.get_type_hints(t)
    return type(d) is DC and truth(i_eq(d.tag, t.CONSTR_ID)) and len(d.fields) == len(fs) and all(of_type(h[f.name], x) for f, x in zip(fs, d.fields))


class IShape(I.In):
    def __init__(self, d):
        self.d = self.data = self.py = d

    def real(self, m, rt):
        return I.conc_data(self.d, m)

    def udata(self, m):
        return I.conc_data(self.d, m)


def like(t, name, dev, seen=0):
    """data shaped like a real type except for at most dev[0] positions"""
    import pycardano

    c = engine.ctx()
    o = typing.get_origin(t)
    if dev[0] and c.choose(2, name + "?"):
        dev[0] -= 1
        return DX(name, 1, 2, 0)
    if t is None or t is type(None) or t == pycardano.Datum:
        return DX(name, 1, 1, 0)
    if t in (int, bool):
        return DI(c.fresh_int(name))
    if t in (bytes, str):
        return DB(fresh_bytes(name, c.choose(2)))
    if o is typing.Union:
        a = typing.get_args(t)
        return like(a[c.choose(len(a))], name, dev)
    if o is list:
        return DL([like(typing.get_args(t)[0], f"{name}[{i}]", dev) for i in range(c.choose(2))])
    if o is dict:
        k, v = typing.get_args(t)
        return DM([(like(k, f"{name}.k{i}", dev), like(v, f"{name}.v{i}", dev)) for i in range(c.choose(2))])
    tag = c.fresh_int(name + ".tag")
    c.assume(i_le(0, tag))
    h = typing.get_type_hints(t)
    fs = [like(h[f.name], f"{name}.{f.name}", dev) for f in dataclasses.fields(t)]
    if dev[0]:
        k = c.choose(3, name + ".arity")
        if k:
            dev[0] -= 1
            if k == 1:
                fs.append(DX(name + ".extra", 0, 0, 0))
            elif fs:
                fs.pop()
    return DC(tag, fs)


def real_types(src, fn="validator"):
    import sys, types

    m = types.ModuleType("_c24_real")
    sys.modules["_c24_real"] = m
    m.__dict__["__name__"] = "_c24_real"
    exec(compile(src, "<program>", "exec"), m.__dict__)
    h = typing.get_type_hints(m.validator)
    names = m.validator.__code__.co_varnames[: m.validator.__code__.co_argcount]
    return [(n, None if h[n] is type(None) else h[n]) for n in names]


def predicate_task(name, src, published, mp, arb=None, dev=1):
    """published(params) -> [(title, schema, type)] of the first parameters; every slot's schema admits the data of the type"""

    def fn(deadline, tier):
        params = real_types(src)
        slots, want = published(src, params)
        ok = [t for t, _ in slots] == [t for t, _ in want]

        def make():
            c = engine.ctx()
            i = c.choose(len(want)) if len(want) > 1 else 0
            t = want[i][1]
            if arb and c.choose(2):
                d = DX("d", arb[0], arb[1], 1)
            else:
                d = like(t, "d", [dev])
            return [IShape(DL([DI(i), d]))]

        def split(x):
            x = dforce(x)
            return dforce(x.items[0]).i, x.items[1]

        def spec(x):
            i, d = split(x)
            return DI(1 if of_type(want[i][1], d) else 0)

        def f(x):
            i, d = split(x)
            return 1 if ok and admits(slots[i][1], d) else 2 if not ok else 0

        def real(u):
            i, d = split(of_uplc(u))
            s2, _ = published(src, params)
            return 1 if ok and admits(s2[i][1], d) else 2 if not ok else 0

        def real_(u):
            old = engine.CTX
            engine.CTX = tv._dummy_ctx()
            try:
                return real(u)
            finally:
                engine.CTX = old

        return pyrun.run_py(name, make, f, spec, real_, src=src, max_paths=mp, deadline=deadline, files=["opshin/builder.py", "opshin/util.py"])

    return Task(name, fn, desc=src, bounds=dict(shape=f"like the type except at most {dev} positions" + (f", or any data of depth {arb[0]} and width {arb[1]}" if arb else ""), max_paths=str(mp)))


def by_schema(src, params):
    from opshin import builder

    # through JSON, as it is published
    return [(n, json.loads(json.dumps(builder.to_plutus_schema(t)))) for n, t in params], params


def by_roundtrip(src, params):
    from opshin import builder

    return [(n, builder.to_plutus_schema(builder.from_plutus_schema(builder.to_plutus_schema(t)))) for n, t in params], params


def by_contract(src, params):
    """datum, redeemer and parameter slots of a contract object's blueprint"""
    from opshin import builder

    dt, rd, ps = params[0], params[1], params[2:]
    c = builder.PlutusContract(builder._build(builder._static_compile(src)), datum_type=dt, redeemer_type=rd, parameter_types=ps, purpose=(builder.Purpose.spending,))
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        c.dump(d)
        v = json.load(open(os.path.join(d, "blueprint.json")))["validators"]
    v = v[0]
    return [(x.get("title"), x["schema"]) for x in [v["datum"], v["redeemer"]] + v.get("parameters", [])], params


def by_cli(src, params):
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        with open(os.path.join(d, "contract.py"), "w") as f:
            f.write(src)
        fixed.cli(["build", os.path.join(d, "contract.py"), "-o", "out"] + (["--parameters", str(len(params) - 1)] if len(params) > 1 else []), d)
        v = json.load(open(os.path.join(d, "out", "blueprint.json")))["validators"][0]
    return [(x.get("title"), x["schema"]) for x in v.get("parameters", [])], params[:-1]


def by_load(src, params):
    from opshin import builder

    dt, rd, ps = params[0], params[1], params[2:]
    c = builder.PlutusContract(builder._build(builder._static_compile(src)), datum_type=dt, redeemer_type=rd, parameter_types=ps, purpose=(builder.Purpose.spending,))
    with tempfile.TemporaryDirectory(prefix="c24_") as d:
        c.dump(d)
        c2 = builder.load(d)
    return [(n, builder.to_plutus_schema(t)) for n, t in [c2.datum_type, c2.redeemer_type] + c2.parameter_types], params


def by_apply(src, params):
    """after one parameter is applied, the remaining ones are listed"""
    from opshin import builder
    import pycardano

    c = builder.PlutusContract(builder._build(builder._static_compile(src)), parameter_types=list(params))
    v = c.apply_parameter(3).blueprint["validators"][0]
    return [(x.get("title"), x["schema"]) for x in v.get("parameters", [])], params[1:]


def script_task(name, t, cfg, mp, dev):
    """the compiled integrity check and the published schema accept the same data"""
    src = HEAD + classes(t, set()) + f"def validator(x: {ann(t)}) -> {ann(t)}:\n    check_integrity(x)\n    return x\n"

    def fn(deadline, tier):
        from opshin import builder

        [(_, rt)] = real_types(src)
        s = json.loads(json.dumps(builder.to_plutus_schema(rt)))

        def spec(d):
            if not admits(s, d):
                raise SpecErr("not admitted")
            return d if conforms(t, d) or not conforms(loose(t), d) else FREE

        return dspec.run_spec(name, src, cfg, lambda: [guided(t, "d", [dev])], spec, max_paths=mp, deadline=deadline)

    return Task(name, fn, desc=src, bounds=dict(shape=f"like the type except at most {dev} positions", list_len="2", dict_len="2", max_paths=str(mp), configs=str(cfg)))


def loose(t):
    """the type without the distinctions a schema cannot express"""
    if t in ("bool", "str"):
        return {"bool": "int", "str": "bytes"}[t]
    if isinstance(t, str):
        return t
    if t[0] == "dict":
        return ("pairs", loose(t[1]), loose(t[2]))
    if t[0] == "rec":
        return ("rec", t[1], t[2], tuple((n, loose(x)) for n, x in t[3]))
    if t[0] == "union":
        return ("union", tuple(loose(x) for x in t[1]))
    return ("list", loose(t[1]))


PLAIN = {
    "int": "int", "bytes": "bytes", "bool": "bool", "str": "str", "none": "None", "any": "Anything", "lint": "List[int]", "lany": "List[Anything]",
    "llb": "List[List[bytes]]", "dib": "Dict[int, bytes]", "ddb": "Dict[bytes, Dict[bytes, int]]", "dal": "Dict[Anything, List[str]]", "lbool": "List[bool]", "uib": "Union[int, bytes]", "lnone": "List[None]",
    "uall": "Union[int, bytes, List[Anything], Dict[Anything, Anything]]", "luib": "List[Union[int, bytes]]",
}
LEDGER = ["TxId", "TxOutRef", "PubKeyCredential", "Credential", "StakingCredential", "Address", "Value", "OutputDatum", "TxOut", "POSIXTimeRange", "TxInInfo", "ScriptPurpose", "Token", "TrueData", "BoolData", "PubKeyHash", "Certificate", "Voter", "TxInfo"]
SLOTS = {
    "mixed": ("int", "bytes", "List[A]", "Union[A, B]", "Dict[bytes, A]"),
    "classes": ("A", "B", "Union[B, E]", "F", "int"),
    "odd": ("Anything", "List[int]", "str", "bool", "None"),
    "same": ("int", "int", "bytes", "int", "bytes"),
}


def tasks(tier, rng):
    th = tier == "thorough"
    out = []
    cfg = ("O1", "O2") if th else ("O1",)
    mp = 6000 if th else 500
    ANY = HEAD
    dev = 2 if th else 1
    for n, t in PLAIN.items():
        src = ANY + f"def validator(x: {t}) -> int:\n    return 1\n"
        out.append(predicate_task("plain_" + n, src, by_schema, mp, arb=(3 if th else 2, 2), dev=dev))
        if "None" not in t:
            out.append(predicate_task("rt_plain_" + n, src, by_roundtrip, mp // 2, dev=dev))
    types = dict(FIX)
    for i in range(60 if th else 10):
        types[f"rnd{i}"] = rnd_type(rng, 2 + i % 2, top=True)
    for n, t in types.items():
        src = HEAD + classes(t, set()) + f"def validator(x: {ann(t)}) -> int:\n    return 1\n"
        out.append(predicate_task("cls_" + n, src, by_schema, mp, arb=(2, 2) if depth(t) < 2 or th else None, dev=dev))
        out.append(predicate_task("rt_" + n, src, by_roundtrip, mp // 3, dev=dev))
        out.append(script_task("script_" + n, t, cfg, mp // (1 if th else 3), dev))
    for n in LEDGER:
        src = "from opshin.prelude import *\n" + f"def validator(x: {n}) -> int:\n    return 1\n"
        out.append(predicate_task("ledger_" + n, src, by_schema, mp, dev=dev))
        out.append(predicate_task("rt_ledger_" + n, src, by_roundtrip, mp // 3, dev=dev))
    cl = set()
    base = classes(c11.B_, cl) + classes(c11.E_, cl) + classes(c11.F_, cl)
    for n, ts in SLOTS.items():
        ps = ", ".join(f"{p}: {t}" for p, t in zip(("dat", "red", "first", "second", "third"), ts))
        src = HEAD + base + f"def validator({ps}) -> int:\n    return 1\n"
        out.append(predicate_task("contract_" + n, src, by_contract, mp, dev=dev))
        if "None" not in ts:
            out.append(predicate_task("load_" + n, src, by_load, mp // 2, dev=dev))
        src = HEAD + base + f"def validator(p0: int, {ps}) -> int:\n    return 1\n"
        out.append(predicate_task("apply1_" + n, src, by_apply, mp // 2, dev=dev))
        src = "from opshin.prelude import *\n" + base + f"def validator({ps}, ctx: ScriptContext) -> None:\n    pass\n"
        out.append(predicate_task("cli_" + n, src, by_cli, mp // 2, dev=dev))
    return out
