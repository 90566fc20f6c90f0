"""C23: BLS12-381 group operations."""
import z3
from .lib import TYPING
from symx.runner import Task
from symx import dspec, pyrun, tv, fakeuplc, bls
from symx import inputs as I
from symx import pysym as S
from symx.tv import SpecErr
from symx.values import *
from symx.engine import Cut

PROPERTY = "C23"
LEVEL = "translation_validation"
EXPLANATION = (
    "Group elements are represented by their discrete logarithm (an unbounded integer variable modulo the group order), so that "
    "addition, negation, scalar multiplication and pairing are exact arithmetic for every element and every scalar. Programs using the "
    "operators, methods and builtins of /repo are compiled now and their UPLC is executed symbolically; /repo's "
    "opshin/std/bls12_381.py, bridge and builtins run symbolically off chain. z3 decides for both that the result is the element (its "
    "compressed form, equality or pairing verdict) the group expression denotes. Path witnesses and counterexamples are re-run with the "
    "real pyblst on real points."
)
ASSUMPTIONS = [
    "an element is an arbitrary multiple of the group generator, given by its compressed form; bytes that are no element of the group are "
    "represented by wrong lengths only",
    "compressed forms and hashing to a group are uninterpreted functions of exactly their arguments (compression: one form per element)",
]

IMP = "from opshin.std.builtins import *\n"
LONG = "from opshin.std.bls12_381 import BLS12381G1Element, BLS12381G2Element, BLS12381MillerLoopResult\n"


class Sym:
    """group algebra over exponents"""

    def pt(self, k, d):
        try:
            return bls.uncompress(k, d.e)
        except UError as e:
            raise SpecErr(str(e))

    def hash(self, k, m, d):
        return bls.hash_to(k, m.e, d.e)

    def add(self, *ps):
        r = ps[0]
        for p in ps[1:]:
            r = bls.Pt(r.k, i_add(r.e, p.e))
        return r

    def neg(self, p):
        return bls.Pt(p.k, i_neg(p.e))

    def mul(self, n, p):
        return bls.Pt(p.k, i_mul(n, p.e))

    def zero(self, k):
        return bls.Pt(k, 0)

    def pair(self, p, q):
        return bls.Pt("ml", i_mul(p.e, q.e))

    def gmul(self, x, y):
        return bls.Pt("ml", i_add(x.e, y.e))

    def verify(self, x, y):
        return self.bool(bls.equal(x, y))

    eq = verify

    def bytes(self, p):
        return DB(bls.compress(p.k, p.e))

    def bool(self, b):
        return DI(ite(b, 1, 0))


class Real(Sym):
    """the same algebra by the real library"""

    def pt(self, k, d):
        import pyblst

        try:
            return (pyblst.BlstP1Element if k == "g1" else pyblst.BlstP2Element).uncompress(bytes(d.e))
        except Exception as e:
            raise SpecErr(str(e))

    def hash(self, k, m, d):
        import pyblst

        return (pyblst.BlstP1Element if k == "g1" else pyblst.BlstP2Element).hash_to_group(bytes(m.e), bytes(d.e))

    def add(self, *ps):
        r = ps[0]
        for p in ps[1:]:
            r = r + p
        return r

    def neg(self, p):
        return -p

    def mul(self, n, p):
        return p.scalar_mul(n)

    def zero(self, k):
        return bls.real_point(k, 0)

    def pair(self, p, q):
        import pyblst

        return pyblst.miller_loop(p, q)

    def gmul(self, x, y):
        return x * y

    def verify(self, x, y):
        import pyblst

        return self.bool(pyblst.final_verify(x, y))

    def eq(self, x, y):
        return self.bool(x == y)

    def bytes(self, p):
        return DB(tuple(p.compress()))


class IPoint(I.In):
    def __init__(self, name, k):
        self.k = k
        self.n = ctx().fresh_int(name)
        # a representative; scalars of the programs are unbounded
        ctx().assume(z3.And(self.n >= 0, self.n < bls.R))
        self.e = bls.compress(k, self.n)
        self.py = S.SBytes(self.e)
        self.data = DB(self.e)

    def real(self, m, rt):
        return bytes(bls.real_point(self.k, I._mi(m, self.n)).compress())

    def udata(self, m):
        import uplc.ast as ua

        return ua.PlutusByteString(self.real(m, None))


KIND = {"g1": "bytes", "g2": "bytes", "int": "int", "bool": "bool", "bytes": "bytes"}


def build(k, name, n):
    if k in ("g1", "g2"):
        return IPoint(name, k)
    t = {"int": int, "bool": bool, "bytes": bytes}[k]
    return I.build(t, name, I.Bounds(bytes_len=n))


def G(name, params, ret, body, spec, head="", n=2, fails=False):
    """params: list of (name, kind); body: statements using them as bytes/int"""
    sig = ", ".join(f"{a}: {KIND[k]}" for a, k in params)
    import textwrap

    src = TYPING + IMP + head + f"def validator({sig}) -> {ret}:\n" + textwrap.indent(textwrap.dedent(body).strip("\n"), "    ") + "\n"

    def args(A, ds):
        return [A.pt(k, d) if k in ("g1", "g2") else dforce(d).i if k in ("int", "bool") else d for (_, k), d in zip(params, ds)]

    def run(A):
        def f(*ds):
            return spec(A, *args(A, ds))

        return f

    def done(out):
        out.vacuous_ok = fails
        return out

    def make():
        return [build(k, a, n) for a, k in params]

    def on(deadline, tier):
        cfgs = ("O1", "O2") if tier == "quick" else ("O0", "O1", "O2", "O3", "O3+eut")
        return done(dspec.run_spec(
            name + "-on", src, cfgs, lambda: [i.data for i in keep(make())], run(Sym()), max_paths=500, deadline=deadline, oracle=run(Real()),
        ))

    def off(deadline, tier):
        w = fakeuplc.BridgeWorld()
        w.load("opshin.std.builtins")
        sym = w.module(src, "_sx_c23_" + name.replace("-", "_"))
        real = tv.real_module(src)
        return done(pyrun.run_py(
            name + "-off", make, sym.validator, run(Sym()), real.validator, src=src, deadline=deadline, files=w.loaded_files,
            oracle=run(Real()),
        ))

    b = {"elements": "any", "scalars": "any integer", "bytes": f"<={n}"}
    return [Task(name + "-on", on, desc=src, bounds=b), Task(name + "-off", off, desc=src, bounds=b)]


KEEP = {}


def keep(ins):
    """run_spec only sees data; remember how to make real points of it"""
    for i in ins:
        if isinstance(i, IPoint):
            KEEP[bls.key(i.e)] = i
    return ins


_conc = I.conc_data


def conc_data(d, m):
    if type(d) is DB:
        i = KEEP.get(bls.key(d.e))
        if i is not None:
            return i.udata(m)
    return _conc(d, m)


I.conc_data = conc_data


def tasks(tier, rng):
    out = []
    T = {"g1": "BLS12381G1Element", "g2": "BLS12381G2Element"}
    def group(k):
        u = f"bls12_381_{k}_uncompress"
        c = f"bls12_381_{k}_compress"
        P, Q, N = ("p", k), ("q", k), ("n", "int")
        pq = f"a = {u}(p)\nb = {u}(q)\n"

        def add(name, ps, ret, body, spec, **kw):
            out.extend(G(f"{k}-{name}", ps, ret, body, spec, **kw))

        add("roundtrip", [P], "bytes", f"return {u}(p).compress()", lambda A, p: A.bytes(p))
        add("roundtrip-fn", [P], "bytes", f"return {c}({u}(p))", lambda A, p: A.bytes(p))
        add("add", [P, Q], "bytes", pq + "return (a + b).compress()", lambda A, p, q: A.bytes(A.add(p, q)))
        add("add-fn", [P, Q], "bytes", pq + f"return bls12_381_{k}_add(a, b).compress()", lambda A, p, q: A.bytes(A.add(p, q)))
        add("sub", [P, Q], "bytes", pq + "return (a - b).compress()", lambda A, p, q: A.bytes(A.add(p, A.neg(q))))
        add("neg", [P], "bytes", f"a = {u}(p)\nreturn (-a).compress()", lambda A, p: A.bytes(A.neg(p)))
        add("neg-fn", [P], "bytes", f"a = {u}(p)\nreturn bls12_381_{k}_neg(a).compress()", lambda A, p: A.bytes(A.neg(p)))
        add("pos", [P], "bytes", f"a = {u}(p)\nreturn (+a).compress()", lambda A, p: A.bytes(p))
        add("mul", [P, N], "bytes", f"a = {u}(p)\nreturn (a * n).compress()", lambda A, p, n: A.bytes(A.mul(n, p)))
        add("rmul", [P, N], "bytes", f"a = {u}(p)\nreturn (n * a).compress()", lambda A, p, n: A.bytes(A.mul(n, p)))
        add("mul-fn", [P, N], "bytes", f"a = {u}(p)\nreturn bls12_381_{k}_scalar_mul(n, a).compress()", lambda A, p, n: A.bytes(A.mul(n, p)))
        add("mul-const", [P], "bytes", f"a = {u}(p)\nreturn (3 * a - a * 5).compress()", lambda A, p: A.bytes(A.mul(-2, p)))
        add("eq", [P, Q], "bool", pq + "return a == b", lambda A, p, q: A.eq(p, q))
        add("eq-fn", [P, Q], "bool", pq + f"return bls12_381_{k}_equal(a, b)", lambda A, p, q: A.eq(p, q))
        add("eq-if", [P, Q], "int", pq + "if a == b:\n    return 7\nreturn 9", lambda A, p, q: DI(ite(i_eq(A.eq(p, q).i, 1), 7, 9)))
        add(
            "nested", [P, Q, N], "bytes", pq + "return (a + b - n * (a - b)).compress()",
            lambda A, p, q, n: A.bytes(A.add(p, q, A.neg(A.mul(n, A.add(p, A.neg(q)))))),
        )
        add("sub-right", [P, Q], "bytes", pq + "return (a - (b - a)).compress()", lambda A, p, q: A.bytes(A.add(p, p, A.neg(q))))
        add("neg-mul", [P, N], "bytes", f"a = {u}(p)\nreturn (-a * n).compress()", lambda A, p, n: A.bytes(A.neg(A.mul(n, p))))
        add("aug", [P, Q], "bytes", pq + "a += b\nb -= a\na *= 2\nreturn (a + b).compress()", lambda A, p, q: A.bytes(A.add(A.mul(2, A.add(p, q)), A.neg(p))))
        add("select", [P, Q, ("s", "bool")], "bytes", pq + "r = a if s else b\nreturn r.compress()", lambda A, p, q, s: A.bytes(p if truth(i_eq(s, 1)) else q))
        add(
            "function", [P, Q, N], "bytes", pq + "return comb(b, n, a).compress()", lambda A, p, q, n: A.bytes(A.add(A.mul(n, q), p)),
            head=LONG + f"def comb(x: {T[k]}, m: int, y: {T[k]}) -> {T[k]}:\n    return m * x + y\n",
        )
        add(
            "loop", [P, ("m", "int")], "bytes",
            f"a = {u}(p)\nr = a\ni = 0\nwhile i < m and i < 3:\n    r = r + r\n    i += 1\nreturn r.compress()",
            lambda A, p, m: A.bytes(A.mul(2 ** next(j for j in (0, 1, 2, 3) if j == 3 or truth(i_le(m, j))), p)),
        )
        add("length", [("x", "bytes")], "bytes", f"return {u}(x).compress()", lambda A, x: A.bytes(A.pt(k, x)), n=3, fails=True)
        add("hash", [("x", "bytes"), ("t", "bytes")], "bytes", f"return bls12_381_{k}_hash_to_group(x, t).compress()", lambda A, x, t: A.bytes(A.hash(k, x, t)))
        add(
            "hash-mul", [("x", "bytes"), ("t", "bytes"), N], "bytes", f"return (n * bls12_381_{k}_hash_to_group(x + b'a', t)).compress()",
            lambda A, x, t, n: A.bytes(A.mul(n, A.hash(k, DB(x.e + (97,)), t))),
        )
    group("g1")
    group("g2")
    P, Q, P2, Q2 = ("p", "g1"), ("q", "g2"), ("p2", "g1"), ("q2", "g2")
    U = "a = bls12_381_g1_uncompress(p)\nb = bls12_381_g2_uncompress(q)\n"
    U2 = U + "a2 = bls12_381_g1_uncompress(p2)\nb2 = bls12_381_g2_uncompress(q2)\n"
    out += G(
        "pairing", [P, Q, P2, Q2], "bool", U2 + "return bls12_381_final_verify(bls12_381_miller_loop(a, b), bls12_381_miller_loop(a2, b2))",
        lambda A, p, q, p2, q2: A.verify(A.pair(p, q), A.pair(p2, q2)),
    )
    out += G(
        "pairing-mul", [P, Q, P2, Q2], "bool",
        U2 + "x = bls12_381_miller_loop(a, b)\ny = bls12_381_miller_loop(a2, b2)\nreturn bls12_381_final_verify(x * y, bls12_381_miller_loop(a, b2))",
        lambda A, p, q, p2, q2: A.verify(A.gmul(A.pair(p, q), A.pair(p2, q2)), A.pair(p, q2)),
    )
    out += G(
        "pairing-mul-fn", [P, Q, P2, Q2], "bool",
        U2 + "x = bls12_381_miller_loop(a, b)\ny = bls12_381_miller_loop(a2, b2)\nreturn bls12_381_final_verify(bls12_381_mul_ml_result(x, y), x)",
        lambda A, p, q, p2, q2: A.verify(A.gmul(A.pair(p, q), A.pair(p2, q2)), A.pair(p, q)),
    )
    out += G(
        "signature", [("pk", "g2"), ("s", "g1"), ("m", "bytes")], "bool",
        "h = bls12_381_g1_hash_to_group(m, b'tag')\n"
        "l = bls12_381_miller_loop(h, bls12_381_g2_uncompress(pk))\n"
        "g = bls12_381_g2_uncompress(b'" + "".join(f"\\x{c:02x}" for c in bls.GEN["g2"]) + "')\n"
        "return bls12_381_final_verify(l, bls12_381_miller_loop(bls12_381_g1_uncompress(s), g))",
        lambda A, pk, s, m: A.verify(A.pair(A.hash("g1", m, DB(tuple(b"tag"))), pk), A.pair(s, A.pt("g2", DB(tuple(bls.GEN["g2"]))))),
    )
    return out
