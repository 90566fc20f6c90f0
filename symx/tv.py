"""Translation validation of compiled programs: for a program text, the real
compiler is run now, its UPLC is executed symbolically, the same program text
is executed symbolically by CPython, and z3 decides that both agree (value or
failure) on every path for every input within the bounds."""
import contextlib
import dataclasses
import ast
import importlib
import io
import os
import shutil
import tempfile
import sys
import time
import types
import typing
import uplc
import uplc.ast as ua
import uplc.cost_model as ucm
from pycardano.serialization import ByteString
from .values import *
from . import engine
from .engine import Cut, PathAbort, explore, Stats
from . import machine as M
from . import pysym as S
from . import inputs as I


class CompileRejected(Exception):
    pass


def configs():
    from opshin import compiler_config as cc

    base = dict(wrap_output=True, unwrap_input=True)
    out = {}
    for i, c in enumerate(cc.OPT_CONFIGS):
        out[f"O{i}"] = c.update(**base)
    d = cc.DEFAULT_CONFIG
    out["default"] = d
    out["O1+cf"] = out["O1"].update(constant_folding=True)
    out["O0+cf"] = out["O0"].update(constant_folding=True)
    out["O0+dce"] = out["O0"].update(remove_dead_code=True)
    out["O1+eut"] = out["O1"].update(expand_union_types=True)
    out["O2+eut"] = out["O2"].update(expand_union_types=True)
    out["O3+eut"] = out["O3"].update(expand_union_types=True)
    out["O1+notrace"] = out["O1"].update(remove_trace=True)
    out["O1+fas"] = out["O1"].update(fast_access_skip=5)
    out["O1+fas2"] = out["O1"].update(fast_access_skip=2)
    out["O1+any"] = out["O1"].update(allow_isinstance_anything=True)
    out["O2+any"] = out["O2"].update(allow_isinstance_anything=True)
    out["O1+raw"] = out["O1"].update(wrap_output=False)
    out["O0+notrace"] = out["O0"].update(remove_trace=True)
    out["O0+cp"] = out["O0"].update(compress_patterns=True)
    out["O0+iu"] = out["O0"].update(iterative_unfold_patterns=True)
    out["O0+ci"] = out["O0"].update(constant_index_access_list=True)
    out["O1+nodce"] = out["O1"].update(remove_dead_code=False)
    out["O1+in"] = out["O1"].update(unwrap_input=False)
    out["O2+in"] = out["O2"].update(unwrap_input=False)
    out["O2+in+raw"] = out["O2"].update(unwrap_input=False, wrap_output=False)
    out["O2+raw"] = out["O2"].update(wrap_output=False)
    return out


#: directory with the further modules of the program at hand
PROJECT = None


def forget_modules(d):
    """Modules imported from directory d are imported anew"""
    stale = []
    for n, m in list(sys.modules.items()):
        if m.__class__.__name__ == "module":
            f = m.__dict__.get("__file__") or next(iter(m.__dict__.get("__path__") or ()), None)
            if isinstance(f, str) and f.startswith(d + os.sep):
                stale.append(n)
    for n in stale:
        del sys.modules[n]


@contextlib.contextmanager
def project(files):
    """A scratch directory with the modules of a program, while it is decided"""
    global PROJECT
    if not files:
        yield None
        return
    d = os.path.realpath(tempfile.mkdtemp(prefix="symx-project-"))
    old = PROJECT
    try:
        for n, text in files:
            f = os.path.join(d, n)
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w") as fp:
                fp.write(text)
        importlib.invalidate_caches()
        PROJECT = d
        yield d
    finally:
        PROJECT = old
        shutil.rmtree(d)


@contextlib.contextmanager
def import_state():
    """The interpreter's import state, unchanged afterwards"""
    path, dont = list(sys.path), sys.dont_write_bytecode
    sys.dont_write_bytecode = True
    try:
        if PROJECT:
            forget_modules(PROJECT)
        yield
    finally:
        sys.path[:] = path
        sys.dont_write_bytecode = dont
        if PROJECT:
            forget_modules(PROJECT)


def compile_program(src, cfg):
    from opshin import builder

    if PROJECT is None:
        return builder._compile(src, config=cfg)
    with import_state(), contextlib.redirect_stdout(io.StringIO()):
        return builder._compile(src, config=cfg, contract_file=os.path.join(PROJECT, "main.py"))


@dataclasses.dataclass
class Template:
    name: str
    src: str
    bounds: dict = dataclasses.field(default_factory=dict)
    configs: tuple = ("O1", "O2")
    assume: object = None  # callable on python-side args -> truth
    trace: bool = False  # compare printed output too
    trace_fail: bool = False  # failing runs emit at least the output printed before the failure
    expect: str = "agree"  # "agree" | "reject_or_agree"
    max_paths: int = 3000
    entry: str = "validator"
    spec: object = None  # optional callable replacing the reference result
    neg_pow_ok: bool = False
    group: str = ""
    always_fails: bool = False
    budget: float = None
    exclude: tuple = ()  # (finding id, predicate on python args): region of a known finding
    witnesses: int = 3
    raises_ok: bool = False
    files: tuple = ()  # (relative path, text) of the modules that the program imports

    def bounds_doc(self):
        d = dict(self.bounds)
        d["configs"] = list(self.configs)
        d["max_paths"] = self.max_paths
        if self.exclude:
            d["excluded_known_findings"] = [e[0] for e in self.exclude]
        return {k: str(v) for k, v in d.items()}


KNOWN = set()


def to_uplc(x):
    """('I',3)-style data -> uplc data"""
    t = x[0]
    if t == "I":
        return ua.PlutusInteger(x[1])
    if t == "B":
        return ua.PlutusByteString(x[1])
    if t == "C":
        return ua.PlutusConstr(x[1], [to_uplc(y) for y in x[2]])
    if t == "L":
        return ua.PlutusList([to_uplc(y) for y in x[1]])
    if t == "M":
        return ua.PlutusMap({to_uplc(k): to_uplc(v) for k, v in x[1]})
    raise TypeError(t)


def finding_reproduces(f):
    """Re-run a recorded finding's specific program and input for real."""
    if f.get("files") and PROJECT is None:
        with project(list(f["files"].items())):
            return finding_reproduces(f)
    try:
        real = real_module(f["src"])
        if f.get("text"):
            # a parameter text that should be rejected and is read as a value
            from opshin.__main__ import parse_plutus_param

            return isinstance(parse_plutus_param(getattr(real, f["type"]), f["text"]), getattr(real, f["type"]))
        if f.get("rejected"):
            try:
                compile_program(f["src"], configs()[f["config"]])
                return False
            except Exception:
                return True
        args = [eval(a, real.__dict__) for a in f["args"]]
        uargs = [to_uplc(real_data(a)) for a in args]
        t = Template("known", f["src"], entry=f.get("entry", "validator"), trace=f.get("trace", False))
        return real_compare(t, f["config"], args, uargs, real, configs())["reproduced"]
    except Exception as e:
        return False


class SpecErr(Exception):
    pass


def _dummy_ctx():
    c = engine.Ctx(Stats(), 1000)
    c.start([])
    return c


_real_cache = {}


def real_module(src):
    """The program executed for real, with real opshin/pycardano."""
    m = types.ModuleType("_real_prog")
    m.__file__ = "<program>"
    sys.modules["_real_prog"] = m
    with import_state(), contextlib.redirect_stdout(io.StringIO()):
        if PROJECT is not None:
            sys.path.insert(0, PROJECT)
        exec(compile(src, "<program>", "exec", dont_inherit=True), m.__dict__)
    return m


def real_data(x):
    """really-computed Python value -> uplc data (documented mapping)"""
    import pycardano

    if isinstance(x, (bool, int)):
        return ("I", int(x))
    if isinstance(x, (bytes, bytearray)):
        return ("B", bytes(x))
    if isinstance(x, ByteString):
        return ("B", x.value)
    if isinstance(x, str):
        return ("B", x.encode())
    if x is None:
        return ("C", 0, ())
    if isinstance(x, (list, tuple, range, pycardano.IndefiniteList, type(reversed([])), type({}.keys()), type({}.values()), type({}.items()))):
        return ("L", tuple(real_data(y) for y in x))
    if isinstance(x, dict):
        return ("M", tuple((real_data(k), real_data(v)) for k, v in x.items()))
    if isinstance(x, pycardano.RawPlutusData) or isinstance(x, pycardano.RawCBOR):
        c = x.to_cbor() if isinstance(x, pycardano.RawPlutusData) else x.cbor
        return uplc_data(ua.data_from_cbor(c))
    if isinstance(x, pycardano.PlutusData):
        return (
            "C",
            x.CONSTR_ID,
            tuple(real_data(getattr(x, f.name)) for f in dataclasses.fields(x)),
        )
    raise TypeError(f"no data form: {x!r}")


def uplc_data(d):
    if isinstance(d, ua.PlutusInteger):
        return ("I", d.value)
    if isinstance(d, ua.PlutusByteString):
        return ("B", d.value)
    if isinstance(d, ua.PlutusConstr):
        return ("C", d.constructor, tuple(map(uplc_data, d.fields)))
    if isinstance(d, ua.PlutusList):
        return ("L", tuple(map(uplc_data, d.value)))
    if isinstance(d, ua.PlutusMap):
        return ("M", tuple((uplc_data(k), uplc_data(v)) for k, v in d.value.items()))
    if isinstance(d, ua.BuiltinInteger):
        return ("i", d.value)
    if isinstance(d, ua.BuiltinBool):
        return ("b", d.value)
    if isinstance(d, ua.BuiltinByteString):
        return ("bs", d.value)
    if isinstance(d, ua.BuiltinString):
        return ("s", d.value)
    if isinstance(d, ua.BuiltinUnit):
        return ("u",)
    if isinstance(d, ua.BuiltinList):
        return ("l", tuple(map(uplc_data, d.values)))
    if isinstance(d, ua.BuiltinPair):
        return ("p", uplc_data(d.l_value), uplc_data(d.r_value))
    return ("other", type(d).__name__)


def raw_matches(py, u):
    """really-computed python value vs. raw (unwrapped) script result"""
    t = u[0]
    if t == "i":
        return type(py) in (int, bool) and int(py) == u[1]
    if t == "b":
        return type(py) in (bool, int) and bool(py) == u[1] and py in (0, 1)
    if t == "bs":
        return isinstance(py, bytes) and py == u[1]
    if t == "s":
        return isinstance(py, str) and py == u[1]
    if t == "u":
        return py is None
    if t == "l":
        if isinstance(py, dict):
            return raw_matches([tuple(x) for x in py.items()], u)
        return (
            isinstance(py, (list, tuple))
            and len(py) == len(u[1])
            and all(raw_matches(a, b) for a, b in zip(py, u[1]))
        )
    if t == "p":
        return (
            isinstance(py, tuple)
            and raw_matches(py[0], u[1])
            and raw_matches(py[1], u[2])
        )
    if t in ("I", "B", "C", "L", "M"):
        return real_data(py) == u
    return False


def sym_raw_matches(py, u):
    """symbolic python value vs raw script value -> formula"""
    if isinstance(u, D):
        try:
            return d_eq(S.to_data(py), u)
        except TypeError:
            return False
    if u is UNIT:
        return py is None
    if is_bool(u):
        if type(py) is S.SBool:
            return b_eq(py.t, u)
        if type(py) is bool:
            return b_eq(py, u)
        return False
    if is_int(u):
        t = S.raw(py)
        return False if t is None else i_eq(t, u)
    if type(u) is B:
        e = S._elems(S.SBytes, py)
        return False if e is None else seq_eq(e, u.e)
    if type(u) is T:
        e = S._elems(S.SStr, py)
        return False if e is None else seq_eq(e, u.e)
    if type(u) is L:
        if isinstance(py, (S.SDict, dict)):
            py = [tuple(x) for x in py.items()]
        if not isinstance(py, (list, tuple)) or len(py) != len(u.v):
            return False
        return b_and([sym_raw_matches(a, b) for a, b in zip(py, u.v)])
    if type(u) is P:
        if not isinstance(py, tuple) or len(py) != 2:
            return False
        return b_and([sym_raw_matches(py[0], u.a), sym_raw_matches(py[1], u.b)])
    return False


BIG = None


def big_budget():
    b = ucm.default_budget()
    return ucm.Budget(cpu=b.cpu * 3, memory=b.memory * 3)


class Outcome:
    """result of a template"""

    def __init__(self, name):
        self.name = name
        self.stats = Stats()
        self.violations = []  # dicts, replayed
        self.spurious = []
        self.inconclusive = []
        self.rejected = []
        self.value_paths = 0
        self.error_paths = 0
        self.complete = True
        self.cuts = {}
        self.files = set()
        self.wall = 0
        self.compiled = 0
        self.samples = []
        self.functions = set()
        self.vacuous_ok = False


def get_types(mod, entry):
    f = mod.__dict__[entry]
    hints = typing.get_type_hints(f)
    names = f.__code__.co_varnames[: f.__code__.co_argcount]
    return [(n, hints[n]) for n in names]


def split_logs(x):
    """Python print output is compared by lines of printed text"""
    return x


def run_template(t, deadline=None, tier="quick", all_configs=None):
    if t.files and PROJECT is None:
        with project(t.files):
            return run_template(t, deadline, tier, all_configs)
    out = Outcome(t.name)
    t0 = time.time()
    cfgs = all_configs or configs()
    b = I.Bounds(**t.bounds)
    # --- reference side
    real = real_module(t.src)
    S._ConstrId.real_ns = real.__dict__
    old = engine.CTX
    engine.CTX = _dummy_ctx()
    try:
        world = S.World()
        world.project = PROJECT
        mod = world.module(t.src)
        ptypes = get_types(mod, t.entry)
    finally:
        engine.CTX = old
    out.files.update(world.loaded_files)
    fn = mod.__dict__[t.entry]
    real_types = get_types(real, t.entry)
    # --- compile with the current compiler
    scripts = {}
    for c in t.configs:
        try:
            prog = compile_program(t.src, cfgs[c])
            scripts[c] = M.Script(prog)
            out.compiled += 1
        except Exception as e:
            out.rejected.append((c, f"{type(e).__name__}: {str(e)[:200]}"))
    if out.rejected and t.expect == "agree":
        out.violations.append(
            dict(
                kind="rejected",
                template=t.name,
                src=t.src,
                detail=out.rejected,
                config=out.rejected[0][0],
            )
        )
    if not scripts and t.expect != "agree":
        out.vacuous_ok = True
        out.wall = time.time() - t0
        return out
    values = [0, 0]

    def subject():
        c = engine.ctx()
        ins = [I.build(tp, n, b) for n, tp in ptypes]
        c.inputs = ins
        pyargs = [i.py for i in ins]
        if t.assume is not None:
            r = t.assume(*pyargs)
            if not r:
                raise PathAbort()
        for fid, pred in t.exclude:
            if fid in KNOWN and pred(*pyargs):
                raise PathAbort()
        c.log = []
        try:
            if t.spec is not None:
                pres = t.spec(mod, *pyargs)
            else:
                pres = fn(*pyargs)
            perr = None
        except RecursionError:
            raise Cut("recursion")
        except Exception as e:
            pres, perr = None, e
        plog = c.log
        if perr is None:
            try:
                pdata = S.to_data(pres)
            except TypeError:
                pdata = None
            except UnicodeEncodeError as e:
                perr = e
        k = 0 if perr is None else 1
        values[k] += 1
        obs = []
        for name, sc in scripts.items():
            try:
                res, logs = sc.run([i.data if cfgs[name].unwrap_input else i.raw for i in ins])
            except Cut as e:
                if "step bound" in str(e):
                    obs.append(((name, "nontermination", None), False))
                    continue
                raise
            uerr = isinstance(res, UError)
            if perr is not None:
                obs.append(((name, "python fails, script does not", perr), uerr))
                if t.trace_fail and uerr and not cfgs[name].remove_trace:
                    f = len(logs) >= len(plog) and b_and([seq_eq(x, y) for x, y in zip(logs, plog)])
                    obs.append(((name, "output before the failure differs", None), f))
                continue
            if uerr:
                obs.append(((name, "script fails, python does not", res), False))
                continue
            wrap = cfgs[name].wrap_output
            if wrap:
                if pdata is None or not isinstance(res, D):
                    f = False
                else:
                    f = d_eq(pdata, res)
            else:
                f = sym_raw_matches(pres, res)
                if f is None:
                    f = False
            obs.append(((name, "different result", None), f))
            if t.trace and not cfgs[name].remove_trace:
                if len(logs) != len(plog):
                    f = False
                else:
                    f = b_and([seq_eq(x, y) for x, y in zip(logs, plog)])
                obs.append(((name, "different trace output", None), f))
        if wit[k] < (t.witnesses + 1) // 2 or (values[k] in (10, 40, 160)):
            m = c.get_model()
            if m is not None:
                wit[k] += 1
                witnesses.append((m, ins, perr))
        return obs

    wit = [0, 0]
    witnesses = []
    r = explore(
        subject,
        out.stats,
        max_paths=t.max_paths,
        deadline=deadline,
        stop_on=1,
    )
    out.value_paths, out.error_paths = values
    out.complete = r.complete
    out.cuts = r.cut_reasons
    for label, model, ins, trace in r.violations:
        rec = replay(t, label, model, ins, real, real_types, cfgs)
        (out.violations if rec["reproduced"] else out.spurious).append(rec)
    for label, pc, neg, ins in r.unknowns:
        out.inconclusive.append(str(label))
    out.vacuous_ok = t.always_fails or (t.expect != "agree" and not scripts)
    out.functions.add(t.entry)
    # --- encoding validation: solver models of explored paths, run for real
    if not out.violations and not out.spurious and scripts:
        names = list(scripts)
        for i, (m, ins, perr) in enumerate(witnesses):
            rec = replay(t, (names[i % len(names)], "witness of an explored path", None), m, ins, real, real_types, cfgs)
            out.stats.witnesses += 1
            if rec["reproduced"]:
                rec["what"] = "real run of a path witness disagrees"
                out.violations.append(rec)
                break
            if "no real input" in str(rec.get("detail")):
                continue
            if (perr is not None) != str(rec["python"]).startswith("raises"):
                rec["what"] = "witness: symbolic reference and real Python differ"
                out.spurious.append(rec)
                break
            if len(out.samples) < 3:
                out.samples.append({k: rec[k] for k in ("args", "python", "script", "config")})
    out.wall = time.time() - t0
    return out


def show(x):
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "…"


def replay(t, label, model, ins, real, real_types, cfgs):
    """Run the solver's assignment through the real program in CPython and the
    really compiled script in the real UPLC evaluator."""
    name, what, info = label
    try:
        args = [i.real(model, tp) for i, (n, tp) in zip(ins, real_types)]
    except Exception as e:
        return dict(
            kind="mismatch", template=t.name, reproduced=False, detail=f"no real input: {e!r}", config=name, src=t.src
        )
    uargs = [i.udata(model) if cfgs[name].unwrap_input else i.uraw(model) for i in ins]
    rec = real_compare(t, name, args, uargs, real, cfgs)
    rec.update(kind="mismatch", what=what, info=str(info))
    return rec


def real_compare(t, name, args, uargs, real, cfgs):
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf):
            if t.spec is not None:
                pres = t.spec(real, *args)
            else:
                pres = real.__dict__[t.entry](*args)
        pydat = None
        perr = None
    except RecursionError as e:
        raise
    except Exception as e:
        pres, pydat, perr = None, None, f"{type(e).__name__}: {e}"
    if perr is None and isinstance(pres, float):
        # int ** negative int: no integer result
        perr = "float result"
    elif perr is None and cfgs[name].wrap_output:
        try:
            pydat = real_data(pres)
        except TypeError:
            pydat = ("no data form", repr(pres))
        except UnicodeEncodeError as e:
            perr = f"{e}"
    prog = compile_program(t.src, cfgs[name])
    res = uplc.eval(uplc.tools.apply(prog, *uargs), budget=big_budget())
    u = res.result
    if isinstance(u, Exception):
        uerr, udat = f"{type(u).__name__}: {str(u)[:200]}", None
    else:
        uerr, udat = None, uplc_data(u)
    if perr is not None or uerr is not None:
        same = (perr is not None) == (uerr is not None)
    elif cfgs[name].wrap_output:
        same = pydat == udat
    else:
        same = raw_matches(pres, udat)
    if same and t.trace and perr is None and not cfgs[name].remove_trace:
        same = "".join(l + "\n" for l in res.logs) == buf.getvalue()
    if same and t.trace_fail and perr is not None and not cfgs[name].remove_trace:
        same = "".join(l + "\n" for l in res.logs).startswith(buf.getvalue())
    return dict(
        reproduced=not same,
        template=t.name,
        src=t.src,
        config=name,
        args=[show(a) for a in args],
        uplc_args=[a.dumps() for a in uargs],
        python=show(pres) if perr is None else f"raises {perr}",
        script=show(udat) if uerr is None else f"fails {uerr}",
        trace=[list(res.logs), buf.getvalue()] if t.trace else None,
        detail="",
    )
