"""A program with its leading parameters fixed at build time against the same
program given those values at run time."""
import contextlib
import copy
import io
import json
import os
import pathlib
import shutil
import sys
import tempfile
import time
import typing
import uplc
import uplc.ast as ua
from .values import *
from . import engine
from .engine import Cut, explore
from . import machine as M
from . import pysym as S
from . import inputs as I
from . import tv
from . import cross
from .dspec import of_tuple
from .runner import Task
from .tv import Outcome


class Sub:
    """a constant replaced by a value chosen per path"""

    value = None


def marker(t, n):
    """a distinctive value of a declared (really loaded) type"""
    o = typing.get_origin(t)
    if t is bool:
        return n[0] % 2 == 0
    n[0] += 1
    if t is int:
        return 7770013 + 101 * n[0]
    if t is bytes:
        return b"\xe7mark%d" % n[0]
    if t is str:
        return f"mark{n[0]}"
    if t is None or t is type(None):
        return None
    import pycardano

    if t == pycardano.Datum:
        return [7770013 + 101 * n[0]]
    if o is list:
        return [marker(typing.get_args(t)[0], n) for _ in range(2)]
    if o is dict:
        k, v = typing.get_args(t)
        return {marker(k, n): marker(v, n) for _ in range(2)}
    if o is typing.Union:
        return marker(typing.get_args(t)[n[0] % len(typing.get_args(t))], n)
    if isinstance(t, type) and issubclass(t, pycardano.PlutusData):
        import dataclasses

        h = typing.get_type_hints(t)
        return t(**{f.name: marker(h[f.name], n) for f in dataclasses.fields(t)})
    raise Cut(f"marker {t}")


def json_of(u):
    if isinstance(u, ua.PlutusInteger):
        return {"int": u.value}
    if isinstance(u, ua.PlutusByteString):
        return {"bytes": u.value.hex()}
    if isinstance(u, ua.PlutusList):
        return {"list": [json_of(x) for x in u.value]}
    if isinstance(u, ua.PlutusMap):
        return {"map": [{"k": json_of(k), "v": json_of(v)} for k, v in u.value.items()]}
    if isinstance(u, ua.PlutusConstr):
        return {"constructor": u.constructor, "fields": [json_of(x) for x in u.fields]}
    raise TypeError(u)


_ARGS = []


def cli(argv, cwd):
    """the real command line in this process -> printed text"""
    import opshin.__main__ as main

    if not _ARGS:
        _ARGS.append(copy.deepcopy(main.ARGPARSE_ARGS))
    saved = main.ARGPARSE_ARGS.copy()
    main.ARGPARSE_ARGS.clear()
    main.ARGPARSE_ARGS.update(copy.deepcopy(_ARGS[0]))
    old, oldcwd, limit = sys.argv, os.getcwd(), sys.getrecursionlimit()
    out = io.StringIO()
    try:
        os.chdir(cwd)
        sys.argv = ["opshin"] + argv
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            main.main()
    except SystemExit as e:
        raise RuntimeError(f"exit {e.code}")
    finally:
        sys.argv = old
        os.chdir(oldcwd)
        sys.setrecursionlimit(limit)
        main.ARGPARSE_ARGS.clear()
        main.ARGPARSE_ARGS.update(saved)
    return out.getvalue()


import pycardano


def fix(src, cfg, opt, mode, vals, params):
    """the program with its first len(vals) parameters fixed, through the real API or command line"""
    from opshin import builder

    k = len(vals)
    total = len(params) - 1
    api = [v.encode() if isinstance(v, str) else pycardano.RawCBOR(bytes.fromhex("d87980")) if v is None else v for v in vals]
    prog = lambda: builder._static_compile(src, config=cfg)
    if mode == "compile":
        return builder._compile(src, *api, config=cfg)
    if mode == "stored":
        return uplc.unflatten(builder.apply_parameters(builder._build(prog()), *api))
    if mode in ("contract", "steps"):
        c = builder.PlutusContract(builder._build(prog()), parameter_types=[p for p in params[:-1]])
        if mode == "contract":
            c = c.apply_parameter(*api)
        else:
            for v in api:
                c = c.apply_parameter(v)
        if [n for n, _ in c.parameter_types] != [n for n, _ in params[k:-1]]:
            raise AssertionError("the contract does not list exactly the remaining parameters")
        return uplc.unflatten(c.contract)
    d = tempfile.mkdtemp(prefix="c16_")
    try:
        if mode.startswith("art_"):
            return artefact(src, cfg, opt, mode[4:], params, d)
        f = os.path.join(d, "contract.py")
        with open(f, "w") as fp:
            fp.write(src)
        if mode == "build":
            return uplc.unflatten(builder.build(f, *api, config=cfg))
        us = [ua_of(v) for v in vals]
        args = [json.dumps(json_of(u)) for u in us] if mode != "cli_cbor" else [ua.plutus_cbor_dumps(u).hex() for u in us]
        rest = ["--parameters", str(total - k)] if total > k else []
        if mode in ("cli_json", "cli_cbor"):
            # the uplc package can not parse all the text it prints: the program it prints is recorded instead
            printed = []
            orig = ua.Program.dumps
            ua.Program.dumps = lambda self, *a, **k: printed.append(self) or "<program>"
            try:
                text = cli(["compile", f, *args, f"-O{opt}"] + rest, d)
            finally:
                ua.Program.dumps = orig
            if text.strip() != "<program>":
                raise AssertionError(f"printed {text[:80]}")
            return printed[-1]
        if mode == "cli_build":
            cli(["build", f, *args, f"-O{opt}", "-o", "out"] + rest, d)
            c = builder.load(os.path.join(d, "out"))
            names = [n for n, _ in c.parameter_types]
            if names != [n for n, _ in params[k:-1]]:
                raise AssertionError("the stored contract does not list exactly the remaining parameters")
            return uplc.unflatten(c.contract)
        if mode == "cli_build_apply":
            cli(["build", f, f"-O{opt}", "-o", "out", "--parameters", str(total)], d)
            return uplc.unflatten(builder.load(os.path.join(d, "out")).apply_parameter(*api).contract)
    finally:
        shutil.rmtree(d, ignore_errors=True)
    raise ValueError(mode)


def stored(c, d):
    """every artefact of a contract names the same script; its hash is that of exactly these bytes"""
    import hashlib

    raw = bytes(c.contract)
    h = hashlib.blake2b(b"\x03" + raw, digest_size=28).hexdigest()
    read = lambda n: open(os.path.join(d, n)).read()
    bp = json.loads(read("blueprint.json"))
    v = bp["validators"][0]

    def same(what, a, b):
        if a != b:
            raise AssertionError(f"{what}: {str(a)[:120]} is not {str(b)[:120]}")

    same("script.cbor", read("script.cbor"), raw.hex())
    import cbor2

    pl = json.loads(read("script.plutus"))
    same("type of script.plutus", pl["type"], "PlutusScriptV3")
    same("script.plutus", cbor2.loads(bytes.fromhex(pl["cborHex"])), raw)
    same("compiledCode", v["compiledCode"], raw.hex())
    same("plutusVersion", bp["preamble"]["plutusVersion"], "v3")
    same("hash in the blueprint", v["hash"], h)
    same("script.policy_id", read("script.policy_id"), h)
    same("policy_id", c.policy_id, h)
    for n, net in (("mainnet.addr", pycardano.Network.MAINNET), ("testnet.addr", pycardano.Network.TESTNET)):
        a = pycardano.Address.from_primitive(read(n))
        same(n, (a.payment_part.to_primitive().hex(), type(a.payment_part).__name__, a.staking_part, a.network), (h, "ScriptHash", None, net))
    same("title", v["title"], c.title)
    for a in ("title", "description", "version", "license"):
        same(a, bp["preamble"].get(a), getattr(c, a))
    same("parameters", [p["title"] for p in v.get("parameters", [])], [n for n, _ in c.parameter_types])


def shape(t, seen=0):
    """what a declared type admits, without names of classes"""
    o = typing.get_origin(t)
    if t is None or t is type(None) or t == pycardano.Datum:
        return "any"
    if o is typing.Union:
        return ("union",) + tuple(shape(x) for x in typing.get_args(t))
    if o in (list, dict):
        return (o.__name__,) + tuple(shape(x) for x in typing.get_args(t))
    if t is bool:
        return "int"
    if t is str:
        return "bytes"
    if isinstance(t, type) and issubclass(t, pycardano.PlutusData):
        import dataclasses

        h = typing.get_type_hints(t)
        return ("con", t.CONSTR_ID, tuple((f.name, shape(h[f.name])) for f in dataclasses.fields(t)))
    return t.__name__


def artefact(src, cfg, opt, mode, params, d):
    """the program read back from one artefact of its build"""
    from opshin import builder

    f = os.path.join(d, "contract.py")
    with open(f, "w") as fp:
        fp.write(src)
    out = os.path.join(d, "out")
    if mode.startswith("cli"):
        n = len(params) - 1
        cli(["build", f, f"-O{opt}", "-o", "out"] + (["--parameters", str(n)] if n else []), d)
        import cbor2

        raw = cbor2.loads(bytes.fromhex(json.load(open(os.path.join(out, "script.plutus")))["cborHex"]))
        c = builder.PlutusContract(pycardano.PlutusV3Script(raw), parameter_types=list(params[:-1]), title="contract")
        part = mode[4:]
    else:
        types = dict(params)
        dt = [(k, v) for k, v in params if k.startswith("d")]
        rd = [(k, v) for k, v in params if k.startswith("r")]
        c = builder.PlutusContract(
            builder.build(f, config=cfg), datum_type=dt[0] if dt else None, redeemer_type=rd[0] if rd else None, parameter_types=list(params[:-1]),
            purpose=(builder.Purpose.minting, builder.Purpose.spending), version="2.1.7", title="some \u00e9 title", description="a description", license="MIT",
        )
        c.dump(out)
        part = mode
    stored(c, out)
    if part == "script":
        return uplc.unflatten(c.contract)
    where = {"dir": out, "cbor": os.path.join(out, "script.cbor"), "plutus": os.path.join(out, "script.plutus"), "blueprint": os.path.join(out, "blueprint.json")}
    if part == "wrapped":
        import cbor2

        w = os.path.join(d, "wrapped.cbor")
        with open(w, "w") as fp:
            fp.write(cbor2.dumps(bytes(c.contract)).hex())
        where["wrapped"] = w
    if part == "again":
        builder.load(out).dump(os.path.join(d, "again"))
        stored(c, os.path.join(d, "again"))
        where["again"] = os.path.join(d, "again")
    c2 = builder.load(where[part] if len(d) % 2 else pathlib.Path(where[part]))
    if bytes(c2.contract) != bytes(c.contract):
        raise AssertionError("the loaded script is not the stored script")
    if part in ("dir", "blueprint", "again"):
        for a in ("title", "description", "version", "license"):
            if getattr(c, a) != getattr(c2, a):
                raise AssertionError(f"{a} is lost: {getattr(c2, a)}")
        for a in ("datum_type", "redeemer_type"):
            x, y = getattr(c, a), getattr(c2, a)
            if (x is None) != (y is None) or x is not None and (x[0], shape(x[1])) != (y[0], shape(y[1])):
                raise AssertionError(f"{a} is lost: {y}")
        if c.redeemer_type is not None and set(c.purpose) != set(c2.purpose):
            raise AssertionError(f"purpose is lost: {c2.purpose}")
        x, y = ([(k, shape(t)) for k, t in z.parameter_types] for z in (c, c2))
        if x != y:
            raise AssertionError(f"parameters are lost: {y}")
    return uplc.unflatten(c2.contract)


def ua_of(v):
    return tv.to_uplc(tv.real_data(v))


def program_of(term):
    return term.term if isinstance(term, ua.Program) else term


def constants(t):
    seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if id(x) in seen:
            continue
        seen.add(id(x))
        if isinstance(x, ua.Constant):
            yield x
            continue
        for f in ("f", "x", "term"):
            y = getattr(x, f, None)
            if isinstance(y, ua.AST):
                todo.append(y)


def is_data(c, want):
    try:
        return isinstance(c, ua.PlutusData) and tv.uplc_data(c) == want
    except Exception:
        return False


def substitute(prog, wants):
    """-> {position: Sub} and the Script of the program with those constants symbolic"""
    t = program_of(prog)
    spine = []
    x = t
    while isinstance(x, ua.Apply) and len(spine) < len(wants):
        spine.append(x.x)
        x = x.f
    spine.reverse()
    subs = {}
    M.SUBST.clear()
    if len(spine) == len(wants) and all(is_data(c, w) for c, w in zip(spine, wants)):
        for i, c in enumerate(spine):
            subs[i] = M.SUBST[id(c)] = Sub()
    else:
        for c in constants(t):
            for i, w in enumerate(wants):
                if is_data(c, w) and any(s in repr(w) for s in ("mark", "777")):
                    subs[i] = M.SUBST[id(c)] = subs.get(i) or Sub()
    try:
        sc = M.Script(prog)
    finally:
        M.SUBST.clear()
    return subs, sc


class IFixed(I.In):
    """a parameter that stays at its marker value"""

    def __init__(self, v):
        self.v = v
        self.data = of_tuple(tv.real_data(v))

    def real(self, m, rt):
        return self.v

    def udata(self, m):
        return ua_of(self.v)


def run_fixed(name, src, k, mode, config, bounds, max_paths, deadline):
    from opshin import builder

    out = Outcome(name)
    t0 = time.time()
    climode = "cli" in mode
    cfg = tv.configs()[config]
    if climode:
        cfg = builder.DEFAULT_CONFIG.update(__import__("opshin.compiler_config", fromlist=["x"]).OPT_CONFIGS[int(config[1])])
    b = I.Bounds(**bounds)
    old = engine.CTX
    engine.CTX = tv._dummy_ctx()
    try:
        w = S.World()
        mod = w.module(src)
        ptypes = tv.get_types(mod, "validator")
        out.files.update(w.loaded_files)
    finally:
        engine.CTX = old
    out.files.update({"opshin/builder.py"} | ({"opshin/__main__.py"} if climode else set()))
    import types

    rm = types.ModuleType("_fixed_real")
    sys.modules["_fixed_real"] = rm
    exec(compile(src, "<program>", "exec"), rm.__dict__)
    S._ConstrId.real_ns = rm.__dict__
    hints = typing.get_type_hints(rm.validator)
    rts = [hints[n] if hints[n] is not type(None) else None for n, _ in ptypes]
    params = [(n, t) for (n, _), t in zip(ptypes, rts)]
    n = [0]
    marks = [marker(t, n) for t in rts[:k]]
    try:
        base_prog = builder._static_compile(src, config=cfg)
        base = M.Script(base_prog)
        fixed = fix(src, cfg, config[1], mode, marks, params)
        out.compiled += 2
    except Exception as e:
        out.violations.append(dict(kind="rejected", template=name, src=src, config=f"{mode} {config}", what="the program can not be built with these parameters", detail=f"{type(e).__name__}: {str(e)[:300]}", args=[repr(x) for x in marks]))
        out.rejected.append((config, str(e)[:200]))
        return out
    subs, sc = substitute(fixed, [tv.real_data(v) for v in marks])
    values = [0, 0]
    witnesses = []

    def subject():
        c = engine.ctx()
        ins = [I.build(t, nm, b) if i >= k or i in subs else IFixed(marks[i]) for i, (nm, t) in enumerate(ptypes)]
        c.inputs = ins
        c.log = []
        ds = [i.data for i in ins]
        for i, s in subs.items():
            s.value = ds[i]
        r1, l1 = base.run(ds)
        l1 = list(l1)
        r2, l2 = sc.run(ds[k:])
        e1, e2 = isinstance(r1, UError), isinstance(r2, UError)
        values[1 if e1 else 0] += 1
        if e1 != e2:
            obs = [((config, "one fails, the other does not", r2 if e2 else r1), False)]
        elif e1:
            obs = []
        else:
            obs = [((config, "different result", None), cross.v_eq(r1, r2))]
        obs.append(((config, "different trace output", None), len(l1) == len(l2) and b_and([seq_eq(x.e if type(x) is T else x, y.e if type(y) is T else y) if not isinstance(x, str) else x == y for x, y in zip(l1, l2)])))
        if len(witnesses) < 2:
            m = c.get_model()
            if m is not None:
                witnesses.append((m, ins))
        return obs

    r = explore(subject, out.stats, max_paths=max_paths, deadline=deadline, stop_on=1)
    out.value_paths, out.error_paths = values
    out.complete = r.complete
    out.cuts = r.cut_reasons

    def ev(p, us):
        res = uplc.eval(uplc.tools.apply(p, *us), budget=tv.big_budget())
        if isinstance(res.result, Exception):
            return ("fails",), f"{type(res.result).__name__}: {str(res.result)[:120]}"
        return tv.uplc_data(res.result), list(res.logs)

    def replay(what, info, m, ins):
        us = [i.udata(m) for i in ins]
        vals = [i.real(m, t) for i, t in zip(ins[:k], rts)]
        r1, x1 = ev(base_prog, us)
        try:
            r2, x2 = ev(fix(src, cfg, config[1], mode, vals, params), us[k:])
        except Exception as e:
            r2, x2 = ("not built",), f"{type(e).__name__}: {str(e)[:200]}"
        bad = r1 != r2 or (r1 != ("fails",) and x1 != x2)
        return dict(kind="fixed", template=name, src=src, config=f"{mode} {config}", what=what, info=str(info), reproduced=bad, args=[repr(v) for v in vals],
                    uplc_args=[u.dumps() for u in us], python=tv.show((r1, x1)), script=tv.show((r2, x2)), detail="", trace=[])

    for label, m, ins, _ in r.violations:
        rec = replay(label[1], label[2], m, ins)
        (out.violations if rec["reproduced"] else out.spurious).append(rec)
    for label, pc, neg, ins in r.unknowns:
        out.inconclusive.append(str(label))
    out.functions.add("validator")
    if not out.violations and not out.spurious:
        for m, ins in witnesses:
            rec = replay("real run of a path witness disagrees", None, m, ins)
            out.stats.witnesses += 1
            if rec["reproduced"]:
                out.violations.append(rec)
                break
            out.samples.append({x: rec[x] for x in ("uplc_args", "python", "script", "config")})
    out.wall = time.time() - t0
    return out


def fixed_task(name, src, k, mode, config, bounds, mp):
    def fn(deadline, tier):
        return run_fixed(name, src, k, mode, config, bounds, mp, deadline)

    return Task(name, fn, desc=src, bounds={x: str(y) for x, y in dict(bounds, max_paths=mp, fixed=k, mode=mode, config=config).items()})
