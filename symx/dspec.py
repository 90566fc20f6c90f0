"""Script against a data-level specification: the compiled script is executed
symbolically on symbolic arguments and z3 decides that its result equals what
an independent specification (written over ledger data) prescribes, for all
arguments within the bounds.  The specification runs on the same symbolic
data and may branch; raising SpecErr means "the script must fail"."""
import time
import z3
import uplc
import uplc.ast as ua
from .values import *
from . import engine
from .engine import Cut, explore
from . import machine as M
from . import pysym as S
from . import inputs as I
from . import tv
from . import cross
from .tv import Outcome, SpecErr

FREE = object()  # the specification does not constrain this input


def of_tuple(x):
    t = x[0]
    if t == "I":
        return DI(x[1])
    if t == "B":
        return DB(x[1])
    if t == "C":
        return DC(x[1], [of_tuple(y) for y in x[2]])
    if t == "L":
        return DL([of_tuple(y) for y in x[1]])
    if t == "M":
        return DM([(of_tuple(k), of_tuple(v)) for k, v in x[1]])
    raise TypeError(t)


def of_uplc(u):
    """real uplc data -> D (keeps repeated map keys out, as the evaluator's dict does)"""
    return of_tuple(tv.uplc_data(u))


class IRaw(I.In):
    """an input given by a constructor function of symbolic D"""

    def __init__(self, d):
        self.data = d
        self.py = None

    def udata(self, m):
        return I.conc_data(self.data, m)


def has_dup_keys(d, m):
    """whether the model makes two keys of some map equal (the real evaluator cannot hold such a map)"""
    d = d.res if type(d) is DX else d
    if d is None:
        return False
    if type(d) is DC:
        return any(has_dup_keys(x, m) for x in d.fields)
    if type(d) is DL:
        return any(has_dup_keys(x, m) for x in d.items)
    if type(d) is DM:
        ks = [repr(tv.uplc_data(I.conc_data(k, m))) for k, _ in d.pairs]
        return len(set(ks)) != len(ks) or any(has_dup_keys(x, m) for p in d.pairs for x in p)
    return False


def holds(f):
    """a relation on concrete data may still range over its own universally quantified variables"""
    if f is True or f is False:
        return f
    s = z3.Solver()
    s.set("timeout", 20000)
    s.add(*engine.ctx().pc, z3.Not(f))
    return s.check() == z3.unsat


def run_spec(name, src, configs, make, spec, max_paths=2000, deadline=None, compile_fn=None, wrap=True, oracle=None):
    """make() -> list of D arguments (may be symbolic); spec(*D) -> expected D, or a relation (callable from the result to a formula), or raises SpecErr"""
    out = Outcome(name)
    t0 = time.time()
    cfgs = tv.configs()
    scripts = {}
    for c in configs:
        try:
            scripts[c] = M.Script((compile_fn or tv.compile_program)(src, cfgs[c]))
            out.compiled += 1
        except Exception as e:
            out.rejected.append((c, f"{type(e).__name__}: {str(e)[:200]}"))
    if out.rejected:
        out.violations.append(dict(kind="rejected", template=name, src=src, detail=out.rejected, config=out.rejected[0][0]))
    values = [0, 0]
    wit = [0, 0]
    witnesses = []

    def subject():
        c = engine.ctx()
        ds = make()
        ins = [IRaw(d) for d in ds]
        c.inputs = ins
        c.log = []
        try:
            exp, serr = spec(*ds), None
        except SpecErr as e:
            exp, serr = None, e
        k = 1 if serr is not None else 0
        values[k] += 1
        obs = []
        for n, sc in scripts.items():
            try:
                r, _ = sc.run(ds)
            except Cut as e:
                if "step bound" in str(e):
                    obs.append(((n, "nontermination", None), False))
                    continue
                raise
            err = isinstance(r, UError)
            if exp is FREE:
                continue
            if serr is not None:
                obs.append(((n, "specification requires failure", serr), err))
            elif err:
                obs.append(((n, "script fails", r), False))
            elif callable(exp):
                f = exp(dforce(r)) if isinstance(r, D) else False
                obs.append(((n, "result violates its definition", None), f))
            else:
                obs.append(((n, "different result", None), cross.v_eq(exp, r)))
        if wit[k] < 3:
            m = c.get_model()
            if m is not None:
                wit[k] += 1
                witnesses.append((m, ins))
        return obs

    r = explore(subject, out.stats, max_paths=max_paths, deadline=deadline, stop_on=1)
    out.value_paths, out.error_paths = values
    out.complete = r.complete
    out.cuts = r.cut_reasons

    def replay(n, what, info, m, ins):
        ua_ = [i.udata(m) for i in ins]
        res, logs, err = cross.real_run(src, cfgs[n], ua_, compile_fn)
        old = engine.CTX
        engine.CTX = tv._dummy_ctx()
        engine.CTX.log = []
        try:
            try:
                e = (oracle or spec)(*[of_uplc(u) for u in ua_])
                if callable(e):
                    good = res[0] in ("I", "B", "C", "L", "M") and holds(e(of_tuple(res)))
                    exp = res if good else "a result meeting its definition"
                else:
                    exp = "free" if e is FREE else tv.uplc_data(I.conc_data(e, m)) if isinstance(e, D) else repr(e)
            except SpecErr as x:
                exp = ("fails",)
        finally:
            engine.CTX = old
        return dict(
            kind="spec", template=name, src=src, config=n, what=what, info=str(info), reproduced=exp != "free" and exp != res,
            uplc_args=[a.dumps() for a in ua_], python=tv.show(exp), script=tv.show((res, err)), trace=logs, detail="", args=[],
        ), exp, res

    for label, m, ins, trace_ in r.violations:
        rec, _, _ = replay(*label, m, ins)
        if not rec["reproduced"] and any(has_dup_keys(i.data, m) for i in ins):
            rec["detail"] = "counterexample holds a map with a repeated key, which the real evaluator cannot represent"
        (out.violations if rec["reproduced"] else out.spurious).append(rec)
    for label, pc, neg, ins in r.unknowns:
        out.inconclusive.append(str(label))
    out.functions.add("validator")
    if not out.violations and not out.spurious and scripts:
        names = list(scripts)
        for i, (m, ins) in enumerate(witnesses):
            if any(has_dup_keys(x.data, m) for x in ins):
                continue
            rec, exp, res = replay(names[i % len(names)], "witness of an explored path", None, m, ins)
            out.stats.witnesses += 1
            if rec["reproduced"]:
                rec["what"] = "real run of a path witness disagrees"
                out.violations.append(rec)
                break
            if len(out.samples) < 3:
                out.samples.append({k: rec[k] for k in ("uplc_args", "python", "script", "config")})
    out.wall = time.time() - t0
    return out
