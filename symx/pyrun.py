"""Off-chain code against a data-level specification: Python code of /repo is
executed symbolically and z3 decides that its result equals what an
independent specification prescribes, for all inputs within the bounds."""
import time
from .values import *
from . import engine
from .engine import Cut, explore
from . import pysym as S
from . import inputs as I
from . import tv
from . import cross
from . import dspec
from .tv import Outcome, SpecErr
from .dspec import FREE, of_uplc, holds, of_tuple


def run_py(name, make, fn, spec, real_fn, src="", max_paths=2000, deadline=None, files=(), oracle=None):
    """make() -> inputs (In); fn(*python args) -> python result (real code on
    symbolic values); spec(*D) -> D | relation | raises SpecErr; real_fn(*real
    args) -> result of the really imported code."""
    out = Outcome(name)
    t0 = time.time()
    values = [0, 0]
    wit = [0, 0]
    witnesses = []
    out.compiled += 1

    def subject():
        c = engine.ctx()
        ins = make()
        c.inputs = ins
        c.log = []
        try:
            exp, serr = spec(*[i.data for i in ins]), None
        except SpecErr as e:
            exp, serr = None, e
        try:
            res, perr = fn(*[i.py for i in ins]), None
        except Cut:
            raise
        except engine.PathAbort:
            raise
        except RecursionError:
            raise Cut("recursion")
        except Exception as e:
            res, perr = None, e
        k = 1 if serr is not None else 0
        values[k] += 1
        if exp is FREE:
            return []
        if serr is not None:
            obs = [(("off chain", "specification requires failure", serr), perr is not None)]
        elif perr is not None:
            obs = [(("off chain", "Python code fails", perr), False)]
        else:
            d = S.to_data(res)
            obs = [(("off chain", "result differs from its definition", None), exp(dforce(d)) if callable(exp) else cross.v_eq(exp, d))]
        if wit[k] < 3:
            m = c.get_model()
            if m is not None:
                wit[k] += 1
                witnesses.append((m, ins))
        return obs

    r = explore(subject, out.stats, max_paths=max_paths, deadline=deadline, stop_on=1)
    out.value_paths, out.error_paths = values
    out.complete = r.complete
    out.cuts = r.cut_reasons

    def replay(n, what, info, m, ins):
        args = [i.real(m, None) for i in ins]
        try:
            res = real_fn(*args)
            res = tv.real_data(res)
            err = ""
        except Exception as e:
            res, err = ("fails",), f"{type(e).__name__}: {str(e)[:160]}"
        old = engine.CTX
        engine.CTX = tv._dummy_ctx()
        engine.CTX.log = []
        try:
            try:
                e = (oracle or spec)(*[i.cdata(m) if hasattr(i, 'cdata') else of_uplc(i.udata(m)) for i in ins])
                if callable(e):
                    good = res[0] in ("I", "B", "C", "L", "M") and holds(e(of_tuple(res)))
                    exp = res if good else "a result meeting its definition"
                else:
                    exp = "free" if e is FREE else tv.uplc_data(I.conc_data(e, m)) if isinstance(e, D) else repr(e)
            except SpecErr as x:
                exp = ("fails",)
        finally:
            engine.CTX = old
        return dict(
            kind="off chain", template=name, src=src, config="off chain", what=what, info=str(info), reproduced=exp != "free" and exp != res,
            args=[repr(a) for a in args], python=tv.show((res, err)), script="", expected=tv.show(exp), detail="", uplc_args=[],
        )

    for label, m, ins, _ in r.violations:
        rec = replay(*label, m, ins)
        (out.violations if rec["reproduced"] else out.spurious).append(rec)
    for label, pc, neg, ins in r.unknowns:
        out.inconclusive.append(str(label))
    out.functions.add(name)
    out.files.update(files)
    if not out.violations and not out.spurious:
        for m, ins in witnesses:
            rec = replay("off chain", "witness of an explored path", None, m, ins)
            out.stats.witnesses += 1
            if rec["reproduced"]:
                rec["what"] = "real run of a path witness disagrees"
                out.violations.append(rec)
                break
            if len(out.samples) < 3:
                out.samples.append({k: rec[k] for k in ("args", "python", "expected")})
    out.wall = time.time() - t0
    return out
