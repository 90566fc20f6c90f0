"""Runs the tasks of one check in parallel child processes, decides the
verdict, writes the evidence file.

Verdict: exit 1 + VIOLATION line when a counterexample found by the solver was
reproduced on the real compiler/evaluator/CPython; exit 2 when the check could
not answer (vacuous, or more than half of the tasks undecided); exit 0
otherwise, with the undecided tasks named."""
import hashlib
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Task:
    """A unit of work: `fn(deadline, tier)` returns a tv.Outcome."""

    def __init__(self, name, fn, budget=None, desc=None, bounds=None, weight=1):
        self.name, self.fn, self.budget = name, fn, budget
        self.desc, self.bounds, self.weight = desc, bounds, weight


def task_of(t):
    from . import tv

    if isinstance(t, Task):
        return t
    def run(deadline, tier):
        return tv.run_template(t, deadline=deadline, tier=tier)
    return Task(t.name, run, t.budget, desc=t.src, bounds=t.bounds_doc())


def _child(task, w, budget, tier):
    try:
        import gc

        gc.freeze()
        t0 = time.time()
        try:
            o = task.fn(time.time() + budget, tier)
            d = dict(
                ok=True,
                name=task.name,
                stats=o.stats.as_dict(),
                violations=o.violations,
                spurious=o.spurious,
                inconclusive=o.inconclusive,
                rejected=o.rejected,
                value_paths=o.value_paths,
                error_paths=o.error_paths,
                complete=o.complete,
                cuts=o.cuts,
                files=sorted(o.files),
                compiled=o.compiled,
                samples=o.samples,
                vacuous_ok=getattr(o, "vacuous_ok", False),
                functions=sorted(getattr(o, "functions", ())),
                wall=time.time() - t0,
            )
        except BaseException as e:
            tb = traceback.format_exc()
            d = dict(ok=False, name=task.name, error=f"{type(e).__name__}: {str(e)[:300]}", tb=tb[-3000:], wall=time.time() - t0)
        data = pickle.dumps(d)
    except BaseException as e:
        data = pickle.dumps(dict(ok=False, name=task.name, error=f"{type(e).__name__}", tb="", wall=0))
    off = 0
    while off < len(data):
        off += os.write(w, data[off : off + 65536])
    os.close(w)


def run_tasks(tasks, budget, tier, jobs, total, stop_on_violation=True, progress=None):
    pending = list(enumerate(tasks))
    pending.reverse()
    running = {}
    results = [None] * len(tasks)
    t_end = time.time() + total
    stop = False
    while pending or running:
        while pending and len(running) < jobs and not stop:
            if time.time() > t_end:
                for i, t in pending:
                    results[i] = dict(ok=False, name=t.name, error="not started: total time budget", tb="", wall=0)
                pending = []
                break
            i, t = pending.pop()
            r, w = os.pipe()
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    signal.signal(signal.SIGINT, signal.SIG_DFL)
                    devnull = os.open(os.devnull, os.O_WRONLY)
                    os.dup2(devnull, 1)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(devnull, 2)
                    _child(t, w, t.budget or budget, tier)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (pid, i, t, time.time() + (t.budget or budget) * 1.5 + 20, [])
        if stop and pending:
            for i, t in pending:
                results[i] = dict(ok=False, name=t.name, error="skipped after violation", tb="", wall=0, skipped=True)
            pending = []
        if not running:
            continue
        ready, _, _ = select.select(list(running), [], [], 0.5)
        now = time.time()
        for r in ready:
            pid, i, t, dl, buf = running[r]
            chunk = os.read(r, 1 << 20)
            if chunk:
                buf.append(chunk)
                continue
            os.close(r)
            os.waitpid(pid, 0)
            del running[r]
            try:
                results[i] = pickle.loads(b"".join(buf))
            except Exception:
                results[i] = dict(ok=False, name=t.name, error="child died", tb="", wall=0)
            if progress:
                progress(results[i])
            if results[i].get("violations") and stop_on_violation:
                if not stop:
                    stop = True
                    t_end = min(t_end, now + 20)
        for r in list(running):
            pid, i, t, dl, buf = running[r]
            if now > dl or (now > t_end + 60) or (stop and now > t_end):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                results[i] = dict(ok=False, name=t.name, error="hard timeout", tb="", wall=0, skipped=stop)
    return results


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def main(mod):
    """mod: a checks.cXX module with PROPERTY, LEVEL, tasks(tier, rng)"""
    t0 = time.time()
    prop = mod.PROPERTY
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    if "--quick" in sys.argv:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = [a[7:] for a in sys.argv if a.startswith("--only=")]
    from . import tv

    tv.KNOWN = {f["id"] for f in load_known() if f["status"] == "known"}
    tasks = [task_of(t) for t in mod.tasks(tier, random.Random(seed))]
    names = [t.name for t in tasks]
    assert len(set(names)) == len(names), [n for n in names if names.count(n) > 1]
    if only:
        tasks = [t for t in tasks if any(o in t.name for o in only)]
    jobs = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
    budget = getattr(mod, "BUDGET", {}).get(tier, 60 if tier == "quick" else 600)
    total = getattr(mod, "TOTAL", {}).get(tier, 600 if tier == "quick" else 6 * 3600)
    verbose = "-v" in sys.argv

    def progress(r):
        if verbose:
            s = r.get("stats", {})
            print(
                f"{r['name']:40s} {r['wall']:6.1f}s"
                + (
                    f" paths={s['paths']} val={r['value_paths']} err={r['error_paths']} q={s['queries']} obl={s['obligations']} cuts={r['cuts']} complete={r['complete']} inc={len(r['inconclusive'])} viol={len(r['violations'])} spur={len(r['spurious'])}"
                    if r["ok"]
                    else " ERROR " + r["error"]
                ),
                flush=True,
            )
            for v in r.get("violations", []) + r.get("spurious", []):
                print("   ", json.dumps({k: x for k, x in v.items() if k not in ("src",)}, default=str)[:1500])
            if not r["ok"] and "-vv" in sys.argv:
                print(r["tb"])

    results = run_tasks(
        tasks, budget, tier, jobs, total, stop_on_violation="--all" not in sys.argv, progress=progress
    )
    # --- known findings: re-run the specific inputs on the real code
    known_lines = []
    for f in load_known():
        if f["property"] != prop or f["status"] != "known":
            continue
        if tv.finding_reproduces(f):
            line = f"KNOWN-FINDING: property={prop} {f['id']}: {f['what']}"
            known_lines.append(line)
            print(line)
    # --- verdict
    agg = {}
    violations, spurious, errors, incon, vacuous = [], [], [], [], []
    cuts, files, functions = {}, set(), set()
    value_paths = error_paths = compiled = complete = 0
    per_task = []
    for t, r in zip(tasks, results):
        if not r["ok"]:
            errors.append((t.name, r["error"]))
            per_task.append(dict(task=t.name, error=r["error"]))
            continue
        for k, v in r["stats"].items():
            agg[k] = agg.get(k, 0) + v
        violations += [(t.name, v) for v in r["violations"]]
        spurious += [(t.name, v) for v in r["spurious"]]
        incon += [(t.name, x) for x in r["inconclusive"]]
        # the real code does not do what the encoding says: nothing is decided
        incon += [(t.name, f"counterexample not reproduced: {v.get('what')} {v.get('info')}"[:200]) for v in r["spurious"]]
        for k, v in r["cuts"].items():
            cuts[k] = cuts.get(k, 0) + v
        files |= set(r["files"])
        functions |= set(r["functions"])
        if sum(r["cuts"].values()) > r["stats"]["paths"]:
            incon.append((t.name, f"most paths cut: {r['cuts']}"))
        value_paths += r["value_paths"]
        error_paths += r["error_paths"]
        compiled += r["compiled"]
        complete += bool(r["complete"] and not r["cuts"] and not r["inconclusive"])
        if not r["value_paths"] and not r["vacuous_ok"] and not r["violations"] and not r["spurious"] and not r["inconclusive"]:
            vacuous.append(t.name)
        e = dict(
            task=t.name, paths=r["stats"]["paths"], obligations=r["stats"]["obligations"],
            discharged=r["stats"]["discharged"], queries=r["stats"]["queries"],
            solver_s=r["stats"]["solver_s"], value_paths=r["value_paths"],
            error_paths=r["error_paths"], exhausted=bool(r["complete"]), bounds=t.bounds,
        )
        if r["cuts"]:
            e["cuts"] = r["cuts"]
        if r["rejected"]:
            e["rejected_by_compiler"] = [f"{a}: {b}" for a, b in r["rejected"]][:3]
        per_task.append(e)
    wall = time.time() - t0
    ntask = len(tasks)
    skipped = sum(1 for r in results if r.get("skipped"))
    bad = [e for e in errors if e[1] != "skipped after violation"]
    status = "pass"
    code = 0
    if violations:
        status, code = "violation", 1
    elif vacuous:
        status, code = f"error: vacuous tasks {vacuous[:5]}", 2
    else:
        n_inc = len(bad) + len({n for n, _ in incon})
        if n_inc > max(1, 0.5 * ntask):
            status, code = f"error: {n_inc} of {ntask} tasks inconclusive", 2
        elif n_inc:
            status = f"pass ({n_inc} of {ntask} tasks undecided)"
    # --- evidence
    smp = []
    for t, r in zip(tasks, results):
        if r["ok"] and len(smp) < 4 and r["value_paths"]:
            smp.append(
                dict(
                    task=t.name, program=(t.desc or "")[:1500], bounds=t.bounds,
                    paths=r["stats"]["paths"], obligations=r["stats"]["obligations"],
                    discharged=r["stats"]["discharged"], witnesses=r["samples"][:2],
                )
            )
    level = mod.LEVEL
    cov = dict(
        programs=compiled,
        disagreements_checked=agg.get("obligations", 0),
        samples=smp or [dict(note="none completed")],
        explanation=mod.EXPLANATION,
        tasks=ntask,
        tasks_exhausted_within_bounds=complete,
        inconclusive_tasks=[f"{n}: {e}" for n, e in errors][:40] + [f"{n}: solver undecided {x}" for n, x in incon][:40],
        paths=agg.get("paths", 0),
        paths_returning_a_value=value_paths,
        paths_failing=error_paths,
        infeasible_paths=agg.get("aborted", 0),
        paths_cut_by_bounds=cuts,
        solver_queries=agg.get("queries", 0),
        solver_s=round(agg.get("solver_s", 0), 2),
        obligations_discharged=agg.get("discharged", 0),
        evaluator_steps=agg.get("steps", 0),
        witnesses_replayed=agg.get("witnesses", 0),
        repo_sources_executed_symbolically=sorted(files),
        functions_encoded=sorted(functions)[:200],
        per_task=per_task if ntask <= 400 else per_task[:400],
        status=status,
        known_findings=known_lines,
    )
    ev = dict(
        property=prop,
        tier=tier,
        seed=seed,
        level=level,
        coverage=cov,
        assumptions=list(mod.ASSUMPTIONS) + COMMON_ASSUMPTIONS,
        wall_s=round(wall, 2),
        violations=len(violations),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        f"{prop} {tier}: {ntask} tasks, {compiled} scripts, {agg.get('paths',0)} paths "
        f"({value_paths} value / {error_paths} failing), {agg.get('obligations',0)} obligations "
        f"({agg.get('discharged',0)} discharged, {agg.get('unknown',0)} undecided), "
        f"{agg.get('queries',0)} queries, {agg.get('solver_s',0):.1f}s solver, "
        f"{len(bad) + len({n for n, _ in incon})} inconclusive tasks, {wall:.1f}s -> {status}"
    )
    for n, e in bad[:20]:
        print(f"  inconclusive: {n}: {e}")
    for n, e in incon[:20]:
        print(f"  undecided: {n}: {e}")
    if violations:
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{prop}.json")
        with open(path, "w") as f:
            json.dump([dict(task=n, **v) for n, v in violations], f, indent=1, default=str)
        for n, v in violations[:5]:
            print("  counterexample:", n, json.dumps({k: x for k, x in v.items() if k != "src"}, default=str)[:1200])
        print(f"VIOLATION property={prop} replay={path}")
    for n, v in spurious[:5]:
        print("  not reproduced:", n, json.dumps({k: x for k, x in v.items() if k != "src"}, default=str)[:1200])
    sys.stdout.flush()
    sys.exit(code)


COMMON_ASSUMPTIONS = [
    "Trusted: CPython executing the instrumented program text through symbolic proxies; the symbolic UPLC machine's semantics of each builtin (validated by symx/selftest.py against the real uplc evaluator); z3.",
    "Execution budgets (CPU/memory units) are not modelled: a script that would run out of budget is treated as terminating.",
    "Every counterexample is replayed on the real compiler, the real uplc evaluator and real CPython before it is reported.",
]
