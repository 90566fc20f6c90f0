"""BLS12-381 groups as exponents: an element of G1, G2 or of the pairing's
target group is its discrete logarithm (an integer term modulo the group
order) with respect to the generators and their pairing.  Addition, negation,
scalar multiplication and pairing are then exact arithmetic; compressed forms
and hashing to a group are uninterpreted functions of exactly their inputs."""
import types
import z3
from .values import *
from .values import _zi
from .engine import ctx, Cut

R = 0x73EDA753299D7D483339D80809A1D80553BDA402FFFE5BFEFFFFFFFF00000001
GEN = {
    "g1": bytes.fromhex("97f1d3a73197d7942695638c4fa9ac0fc3688c4f9774b905a14e3a3f171bac586c55e83ff97a1aeffb3af00adb22c6bb"),
    "g2": bytes.fromhex(
        "93e02b6052719f607dacd3a088274f65596bd0d09920b61ab5da61bbdc7f5049334cf11213945d57e5ac7d055d042b7e"
        "024aa2b2f08f0a91260805272dc51051c6e47ad4fa403b02b4510b647ae3d1770bac0326a805bbefd48056c8c121bdb8"
    ),
}
SIZE = {"g1": 48, "g2": 96}


class Pt:
    """element of a group, by its exponent"""

    __slots__ = ("k", "e")

    def __init__(self, k, e):
        self.k = k
        self.e = e

    def __repr__(self):
        return f"{self.k}^{self.e}"


def real_point(k, n):
    import pyblst

    g = (pyblst.BlstP1Element if k == "g1" else pyblst.BlstP2Element).uncompress(GEN[k])
    return g.scalar_mul(n % R)


def want(v, k):
    if type(v) is not Pt or v.k != k:
        raise UError(f"{k} element expected")
    return v


def canon(e):
    return e % R if type(e) is int else z3.simplify(i_mod(e, R))


def known():
    c = ctx()
    if getattr(c, "bls_owner", None) is not c.pc:
        c.bls_owner = c.pc
        c.bls_known = {}
    return c.bls_known


def key(e):
    return tuple(x if type(x) is int else ("t", x.get_id()) for x in e)


def compress(k, e):
    e = canon(e)
    if type(e) is int:
        b = tuple(real_point(k, e).compress())
    else:
        b = uf_bytes(f"{k}_compress", SIZE[k], (e,))
    known()[k, key(b)] = (e, b)
    return b


def uncompress(k, b):
    if len(b) != SIZE[k]:
        raise UError("length of a compressed element")
    if all(type(x) is int for x in b):
        if bytes(b) == GEN[k]:
            return Pt(k, 1)
        if bytes(b) == bytes([0xC0]) + bytes(SIZE[k] - 1):
            return Pt(k, 0)
    hit = known().get((k, key(b)))
    if hit is None:
        raise Cut("element given by arbitrary bytes")
    return Pt(k, hit[0])


def hash_to(k, m, dst):
    if len(dst) > 255:
        raise UError("domain separation tag")
    f = z3.Function(f"{k}_hash_{len(m)}_{len(dst)}", *([z3.IntSort()] * (len(m) + len(dst) + 1)), z3.IntSort())
    return Pt(k, f(z3.IntVal(0), *[_zi(x) for x in m + dst]))


def equal(a, b):
    return i_eq(canon(a.e), canon(b.e))


def install(bi, F, B, w_bs, w_int):
    for k, n in (("g1", "G1"), ("g2", "G2")):
        g = lambda f, n=n: getattr(F, f"Bls12_381_{n}_{f}")
        bi(g("Uncompress"), 1)(lambda b, k=k: uncompress(k, w_bs(b)))
        bi(g("Compress"), 1)(lambda p, k=k: B(compress(k, want(p, k).e)))
        bi(g("Add"), 2)(lambda p, q, k=k: Pt(k, i_add(want(p, k).e, want(q, k).e)))
        bi(g("Neg"), 1)(lambda p, k=k: Pt(k, i_neg(want(p, k).e)))
        bi(g("ScalarMul"), 2)(lambda s, p, k=k: Pt(k, i_mul(w_int(s), want(p, k).e)))
        bi(g("Equal"), 2)(lambda p, q, k=k: equal(want(p, k), want(q, k)))
        bi(g("HashToGroup"), 2)(lambda m, d, k=k: hash_to(k, w_bs(m), w_bs(d)))
    bi(F.Bls12_381_MillerLoop, 2)(lambda p, q: Pt("ml", i_mul(want(p, "g1").e, want(q, "g2").e)))
    bi(F.Bls12_381_MulMlResult, 2)(lambda x, y: Pt("ml", i_add(want(x, "ml").e, want(y, "ml").e)))
    bi(F.Bls12_381_FinalVerify, 2)(lambda x, y: equal(want(x, "ml"), want(y, "ml")))


# ---------------------------------------------------- stand-in of pyblst
def fake_pyblst():
    from . import pysym as S

    m = types.ModuleType("pyblst")

    def elems(x):
        e = S._elems(S.SBytes, x)
        if e is None:
            raise TypeError("bytes expected")
        return e

    def group(name, k):
        class P:
            def __init__(self, o=None):
                self.o = Pt(k, 0) if o is None else o

            @staticmethod
            def uncompress(b):
                try:
                    return P(uncompress(k, elems(b)))
                except UError as e:
                    raise ValueError(str(e))

            def compress(self):
                return S.mkbytes(compress(k, self.o.e))

            @staticmethod
            def hash_to_group(msg, dst):
                return P(hash_to(k, elems(msg), elems(dst)))

            def scalar_mul(self, n):
                t = S.raw(n)
                if t is None or is_bool(t):
                    raise TypeError("integer expected")
                return P(Pt(k, i_mul(t, self.o.e)))

            def __add__(self, o):
                if type(o) is not P:
                    raise TypeError("element expected")
                return P(Pt(k, i_add(self.o.e, o.o.e)))

            def __neg__(self):
                return P(Pt(k, i_neg(self.o.e)))

            def __eq__(self, o):
                if type(o) is not P:
                    raise TypeError("element expected")
                return S.mkb(equal(self.o, o.o))

            __hash__ = None

        P.__name__ = P.__qualname__ = name
        return P

    class FP12:
        def __init__(self, o):
            self.o = o

        def __mul__(self, x):
            return FP12(Pt("ml", i_add(self.o.e, x.o.e)))

    FP12.__name__ = "BlstFP12Element"
    m.BlstP1Element = group("BlstP1Element", "g1")
    m.BlstP2Element = group("BlstP2Element", "g2")
    m.BlstFP12Element = FP12
    m.miller_loop = lambda p, q: FP12(Pt("ml", i_mul(p.o.e, q.o.e)))
    m.final_verify = lambda x, y: S.mkb(equal(x.o, y.o))
    return m
