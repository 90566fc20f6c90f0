"""Path-exploring symbolic execution core.

A *subject* is an ordinary Python callable.  While it runs, every branch on a
symbolic condition calls `fork`, which asks z3 which outcomes the path
condition admits; both admissible outcomes are explored, by re-execution with a
decision prefix.  `choose(n)` is an n-way nondeterministic choice (used to make
sizes, constructors and shapes explicit, exhaustively explored variables).
The subject ends by calling `prove(formula)`: the solver decides the formula
for every value of the symbolic inputs satisfying the path condition.
"""
import random
import time
import z3

z3.set_param("smt.arith.nl.tangents", True)


class PathAbort(BaseException):
    """The path is infeasible or was cut by an assumption."""


class Cut(BaseException):
    """The path exceeded a stated bound; it is counted, not claimed."""


class Unknown(BaseException):
    """The solver did not decide."""


class Stats:
    FIELDS = (
        "paths aborted cuts queries solver_s forks choices obligations "
        "discharged unknown steps witnesses".split()
    )

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)

    def as_dict(self):
        return {
            f: (round(getattr(self, f), 3) if f == "solver_s" else getattr(self, f))
            for f in self.FIELDS
        }

    def add(self, d):
        for f in self.FIELDS:
            setattr(self, f, getattr(self, f) + d.get(f, 0))


class Ctx:
    def __init__(self, stats, timeout_ms):
        self.stats = stats
        self.timeout_ms = timeout_ms
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.prefix = []
        self.trace = []
        self.pending = []
        self.model = None
        self.nvars = 0
        self.pc = []
        self.uf_apps = {}
        self.inputs = []
        self.memo = {}
        self.bits = {}

    # -- path management
    def start(self, prefix):
        self.solver.reset()
        self.solver.set("timeout", self.timeout_ms)
        self.prefix = prefix
        self.trace = []
        self.model = None
        self.nvars = 0
        self.pc = []
        self.uf_apps = {}
        self.inputs = []
        self.memo = {}
        self.bits = {}
        self.log = []

    def check(self, *extra):
        t = time.time()
        r = self.solver.check(*extra)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            r = self.retry(extra)
        return r

    def retry(self, extra):
        """A second opinion for a query the default solver gave up on."""
        t = time.time()
        for mk in (
            lambda: z3.Then("simplify", "solve-eqs", "smt").solver(),
            lambda: z3.Tactic("qfnia").solver(),
        ):
            s = mk()
            s.set("timeout", self.timeout_ms)
            for c in self.pc:
                s.add(c)
            for c in extra:
                s.add(c)
            r = s.check()
            self.stats.queries += 1
            if r != z3.unknown:
                self.stats.solver_s += time.time() - t
                if r == z3.sat:
                    self.retry_model = s.model()
                return r
        self.stats.solver_s += time.time() - t
        return z3.unknown

    def get_model(self):
        if self.model is None:
            self.retry_model = None
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                return None
            self.model = self.retry_model or self.solver.model()
        return self.model

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathAbort()
        self.add(c)
        if self.model is not None:
            try:
                if not z3.is_true(self.model.eval(c, model_completion=True)):
                    self.model = None
            except z3.Z3Exception:
                self.model = None

    def fork(self, c):
        if c is True or c is False:
            return c
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        pos = len(self.trace)
        key = c.get_id()
        if key in self.memo:
            return self.memo[key][0]
        if pos < len(self.prefix):
            d = self.prefix[pos]
            self.trace.append(d)
            if d is True or d is False:
                self.add(c if d else z3.Not(c))
                d2 = d
            else:
                # forced decision: implied by the path condition
                d2 = d == "T"
            self.memo[key] = (d2, c)
            return d2
        m = self.get_model()
        v = None
        if m is not None:
            e = m.eval(c, model_completion=True)
            v = True if z3.is_true(e) else False if z3.is_false(e) else None
        nc = z3.Not(c)
        if v is None:
            rt = self.check(c)
            rf = self.check(nc) if rt != z3.unsat else z3.sat
            t, f = rt != z3.unsat, rf != z3.unsat
        elif v:
            t, f = True, self.check(nc) != z3.unsat
        else:
            t, f = self.check(c) != z3.unsat, True
        if t and f:
            self.stats.forks += 1
            # follow the outcome the current model supports; queue the other
            d = v if v is not None else True
            self.pending.append(self.trace + [not d])
            self.trace.append(d)
            self.add(c if d else nc)
            if v is None:
                self.model = None
        else:
            d = t
            self.trace.append("T" if d else "F")
        self.memo[key] = (d, c)
        return d

    def choose(self, n, label=None):
        """Nondeterministic choice in range(n), explored exhaustively."""
        if n <= 1:
            return 0
        pos = len(self.trace)
        if pos < len(self.prefix):
            d = self.prefix[pos]
            assert isinstance(d, tuple)
            self.trace.append(d)
            return d[0]
        for k in range(n - 1, 0, -1):
            self.pending.append(self.trace + [(k,)])
        self.stats.choices += 1
        self.trace.append((0,))
        return 0

    def enum_int(self, v, cap, what):
        """A concrete value of v on this path; all admissible values are
        explored (at most cap, then Cut)."""
        for _ in range(cap):
            pos = len(self.trace)
            if pos < len(self.prefix):
                d = self.prefix[pos]
                self.trace.append(d)
                if d[0] == "only":
                    return d[1]
                if d[0] == "eq":
                    self.add(v == d[1])
                    return d[1]
                self.add(v != d[1])
                continue
            m = self.get_model()
            if m is None:
                raise Cut(f"undecided {what}")
            k = m.eval(v, model_completion=True).as_long()
            if self.check(v != k) == z3.unsat:
                self.trace.append(("only", k))
                return k
            self.stats.forks += 1
            self.pending.append(self.trace + [("ne", k)])
            self.trace.append(("eq", k))
            self.add(v == k)
            return k
        raise Cut(f"more than {cap} values of {what}")

    def fresh_int(self, name):
        self.nvars += 1
        return z3.Int(f"{name}#{self.nvars}")

    def fresh_bool(self, name):
        self.nvars += 1
        return z3.Bool(f"{name}#{self.nvars}")


CTX = None


def ctx():
    return CTX


class Result:
    def __init__(self):
        self.violations = []
        self.unknowns = []
        self.cut_reasons = {}
        self.complete = True


def explore(
    subject, stats, max_paths=2000, deadline=None, timeout_ms=20000, stop_on=1
):
    """Run `subject()` on every path.  The subject returns a list of
    obligations: (label, formula) with formula bool | z3 Bool.  For each the
    solver looks for a model of the path condition and the negated formula.
    Returns Result; result.violations holds (label, model, inputs, trace)."""
    global CTX
    res = Result()
    c = Ctx(stats, timeout_ms)
    old = CTX
    CTX = c
    c.pending = [[]]
    npaths = 0
    rng = random.Random(1)
    try:
        while c.pending:
            if npaths >= max_paths or (deadline and time.time() > deadline):
                res.complete = False
                break
            if npaths & 1 and len(c.pending) > 1:
                # spread the explored paths when the path bound cuts the search
                i = rng.randrange(len(c.pending))
                c.pending[i], c.pending[-1] = c.pending[-1], c.pending[i]
            prefix = c.pending.pop()
            c.start(prefix)
            npaths += 1
            try:
                obs = subject()
            except PathAbort:
                stats.aborted += 1
                continue
            except Cut as e:
                stats.cuts += 1
                k = str(e)
                res.cut_reasons[k] = res.cut_reasons.get(k, 0) + 1
                continue
            stats.paths += 1
            for label, f in obs:
                stats.obligations += 1
                if f is True:
                    # the path itself has to be feasible for this to count
                    stats.discharged += 1
                    continue
                if f is False:
                    r = c.check()
                    neg = None
                else:
                    f = z3.simplify(f)
                    if z3.is_true(f):
                        stats.discharged += 1
                        continue
                    f2 = z3.simplify(f, som=True)
                    if z3.is_true(f2):
                        stats.discharged += 1
                        continue
                    neg = z3.Not(f)
                    c.retry_model = None
                    r = c.check(neg)
                if r == z3.unsat:
                    stats.discharged += 1
                elif r == z3.sat:
                    m = getattr(c, "retry_model", None) or c.solver.model()
                    res.violations.append((label, m, list(c.inputs), list(c.trace)))
                    if stop_on and len(res.violations) >= stop_on:
                        return res
                else:
                    stats.unknown += 1
                    res.unknowns.append((label, list(c.pc), neg, list(c.inputs)))
        return res
    finally:
        CTX = old
