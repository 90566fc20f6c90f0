"""Script-against-script validation: the same program compiled under several
configurations by the current compiler; z3 decides for all arguments that all
results agree (value, failure, trace output)."""
import time
import uplc
import uplc.ast as ua
from .values import *
from . import engine
from .engine import Cut, PathAbort, explore
from . import machine as M
from . import pysym as S
from . import inputs as I
from . import tv
from .tv import Outcome


def v_eq(a, b):
    """equality of two results as a formula (functions are not comparable)"""
    if isinstance(a, D) and isinstance(b, D):
        return d_eq(a, b)
    if is_bool(a) and is_bool(b):
        return b_eq(a, b)
    if is_int(a) and is_int(b) and not is_bool(a) and not is_bool(b):
        return i_eq(a, b)
    if type(a) is not type(b):
        return False
    if type(a) in (B, T):
        return seq_eq(a.e, b.e)
    if type(a) is L:
        if len(a.v) != len(b.v) or a.k != b.k:
            return False
        return b_and([v_eq(x, y) for x, y in zip(a.v, b.v)])
    if type(a) is P:
        return b_and([v_eq(a.a, b.a), v_eq(a.b, b.b)])
    if a is UNIT:
        return b is UNIT
    raise Cut("result is a function")


class IData(I.In):
    """completely arbitrary ledger data"""

    def __init__(self, name, b):
        self.d = DX(name, b.any_depth, b.any_width, b.bytes_len, b.any_kinds)
        self.py = None
        self.data = self.d

    def udata(self, m):
        return I.conc_data(self.d, m)


def real_run(src, cfg, uargs, compile_fn=None):
    prog = (compile_fn or tv.compile_program)(src, cfg)
    res = uplc.eval(uplc.tools.apply(prog, *uargs), budget=tv.big_budget())
    if isinstance(res.result, Exception):
        return ("fails",), list(res.logs), f"{type(res.result).__name__}: {str(res.result)[:160]}"
    return tv.uplc_data(res.result), list(res.logs), ""


def run_cross(name, src, configs, bounds=None, entry="validator", any_args=False, max_paths=400, deadline=None, trace=True, nparams=None):
    out = Outcome(name)
    t0 = time.time()
    cfgs = tv.configs()
    b = I.Bounds(**(bounds or {}))
    old = engine.CTX
    engine.CTX = tv._dummy_ctx()
    try:
        if nparams is None:
            world = S.World()
            mod = world.module(src)
            ptypes = tv.get_types(mod, entry)
            out.files.update(world.loaded_files)
        else:
            ptypes = [(f"a{i}", None) for i in range(nparams)]
    finally:
        engine.CTX = old
    scripts = {}
    for c in configs:
        try:
            scripts[c] = M.Script(tv.compile_program(src, cfgs[c]))
            out.compiled += 1
        except Exception as e:
            out.rejected.append((c, f"{type(e).__name__}: {str(e)[:200]}"))
    names = list(scripts)
    out.vacuous_ok = True
    if len(names) < 2:
        out.wall = time.time() - t0
        return out
    values = [0, 0]

    def subject():
        c = engine.ctx()
        ins = [IData(n, b) if any_args else I.build(tp, n, b) for n, tp in ptypes]
        c.inputs = ins
        c.log = []
        obs = []
        ref = None
        for n in names:
            try:
                r, logs = scripts[n].run([i.data if cfgs[n].unwrap_input else i.raw for i in ins])
            except Cut as e:
                if "step bound" in str(e) and ref is not None:
                    obs.append(((n, "nontermination", None), False))
                    continue
                raise
            logs = list(logs)
            err = isinstance(r, UError)
            if ref is None:
                ref = (r, logs, err)
                values[1 if err else 0] += 1
                continue
            if err != ref[2]:
                obs.append(((n, "one fails, the other does not", r if err else ref[0]), False))
                continue
            if not err:
                obs.append(((n, "different result", None), v_eq(ref[0], r)))
            # a failing script's output is not part of any result (error messages differ between levels)
            if trace and not err and not cfgs[n].remove_trace and not cfgs[names[0]].remove_trace:
                if len(logs) != len(ref[1]):
                    f = False
                else:
                    f = b_and([seq_eq(x, y) for x, y in zip(logs, ref[1])])
                obs.append(((n, "different trace output", None), f))
        k = 1 if ref[2] else 0
        if wit[k] < 2:
            m = c.get_model()
            if m is not None:
                wit[k] += 1
                witnesses.append((m, ins, ref[2]))
        return obs

    wit = [0, 0]
    witnesses = []
    r = explore(subject, out.stats, max_paths=max_paths, deadline=deadline, stop_on=1)
    out.value_paths, out.error_paths = values
    out.complete = r.complete
    out.cuts = r.cut_reasons

    def uargs(ins, m, c):
        return [i.udata(m) if cfgs[c].unwrap_input else i.uraw(m) for i in ins]

    def replay(label, m, ins):
        n, what, info = label
        ua0, ua1 = uargs(ins, m, names[0]), uargs(ins, m, n)
        r0, l0, e0 = real_run(src, cfgs[names[0]], ua0)
        r1, l1, e1 = real_run(src, cfgs[n], ua1)
        same = r0 == r1
        if same and trace and r0 != ("fails",) and not cfgs[n].remove_trace and not cfgs[names[0]].remove_trace:
            same = l0 == l1
        return dict(
            kind="cross", template=name, src=src, config=f"{names[0]} vs {n}", what=what, info=str(info), reproduced=not same,
            uplc_args=[a.dumps() for a in ua1], python=tv.show((r0, e0)), script=tv.show((r1, e1)), trace=[l0, l1], detail="",
            args=[],
        ), r0

    for label, m, ins, trace_ in r.violations:
        rec, _ = replay(label, m, ins)
        (out.violations if rec["reproduced"] else out.spurious).append(rec)
    for label, pc, neg, ins in r.unknowns:
        out.inconclusive.append(str(label))
    out.functions.add(entry)
    if not out.violations and not out.spurious:
        for i, (m, ins, err) in enumerate(witnesses):
            n = names[1 + i % (len(names) - 1)]
            rec, r0 = replay((n, "witness of an explored path", None), m, ins)
            out.stats.witnesses += 1
            if rec["reproduced"]:
                rec["what"] = "real run of a path witness disagrees"
                out.violations.append(rec)
                break
            if (r0 == ("fails",)) != err:
                rec["what"] = "witness: symbolic machine and evaluator differ"
                out.spurious.append(rec)
                break
            if len(out.samples) < 3:
                out.samples.append({k: rec[k] for k in ("uplc_args", "python", "script", "config")})
    out.wall = time.time() - t0
    return out
