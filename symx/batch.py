"""One task that decides a batch of small programs."""
import sys
import time
from . import tv


def merge(name, outs):
    o = tv.Outcome(name)
    for x in outs:
        for k, v in x.stats.as_dict().items():
            setattr(o.stats, k, getattr(o.stats, k) + v)
        o.violations += x.violations
        o.spurious += x.spurious
        o.inconclusive += x.inconclusive
        o.rejected += x.rejected
        o.value_paths += x.value_paths
        o.error_paths += x.error_paths
        o.complete = o.complete and x.complete
        for k, v in x.cuts.items():
            o.cuts[k] = o.cuts.get(k, 0) + v
        o.files |= x.files
        o.compiled += x.compiled
        o.samples += x.samples[:1]
        o.functions |= x.functions
        o.wall += x.wall
    o.samples = o.samples[:4]
    return o


def batch(name, templates, budget=None, per=15):
    """templates: callable yielding Templates (built in the child)"""
    from .runner import Task

    def fn(deadline, tier):
        outs = []
        cfgs = tv.configs()
        left = list(templates)
        for i, t in enumerate(left):
            now = time.time()
            if now > deadline:
                o = tv.Outcome(t.name)
                o.complete = False
                o.inconclusive.append(f"{len(left) - i} programs of the batch not started")
                outs.append(o)
                break
            outs.append(tv.run_template(t, deadline=min(deadline, now + per), tier=tier, all_configs=cfgs))
            if outs[-1].violations and "--all" not in sys.argv:
                break
        o = merge(name, outs)
        # programs that legitimately never return a value are fine in a batch
        o.vacuous_ok = True
        return o

    desc = templates[0].src if templates else ""
    return Task(name, fn, budget, desc=desc, bounds=dict(programs=len(templates), **(templates[0].bounds_doc() if templates else {})))
