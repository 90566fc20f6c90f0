"""Compares the symbolic machine's builtins with the real uplc evaluator:
every builtin on a grid of constants (well typed and ill typed), once as
constants and once as symbolic variables constrained to the constant.
Run by checks/setup.sh."""
import itertools
import random
import sys
from . import env
import uplc
import uplc.ast as ua
from uplc.ast import BuiltInFun as F
from . import machine as M
from . import engine
from .engine import explore, Stats, Cut
from .values import *
import z3

INT = [-(2**70), -257, -256, -16, -9, -8, -7, -2, -1, 0, 1, 2, 3, 7, 8, 9, 15, 33, 255, 256, 1000, 2**70]
BS = [b"", b"\0", b"\x80", b"\x01", b"ab", b"b", b"\x00\x10", b"\x01\xff\x10", b"\xff" * 3, bytes(range(34))]
TX = ["", "a", "b", "ab", "\u00e9", "\u20aca", "\U0001f600"]
D0 = [
    ("I", 0), ("I", -5), ("I", 2**70), ("B", b""), ("B", b"ab"), ("C", 0, ()), ("C", 1, (("I", 3),)), ("C", 7, ()), ("C", 130, (("B", b"q"),)),
    ("L", ()), ("L", (("I", 1), ("B", b"z"))), ("M", ()), ("M", ((("I", 1), ("B", b"v")),)), ("M", ((("I", 2), ("L", ())), (("I", 3), ("C", 0, ())))),
]
BO = [False, True]


def const(k, v):
    from .tv import to_uplc

    if k == "i":
        return ua.BuiltinInteger(v)
    if k == "b":
        return ua.BuiltinByteString(v)
    if k == "t":
        return ua.BuiltinString(v)
    if k == "o":
        return ua.BuiltinBool(v)
    if k == "d":
        return to_uplc(v)
    if k == "u":
        return ua.BuiltinUnit()
    if k == "li":
        return ua.BuiltinList([ua.BuiltinInteger(x) for x in v], ua.BuiltinInteger(0))
    if k == "ld":
        return ua.BuiltinList([to_uplc(x) for x in v], ua.PlutusData())
    if k == "lp":
        return ua.BuiltinList([ua.BuiltinPair(to_uplc(a), to_uplc(b)) for a, b in v], ua.BuiltinPair(ua.PlutusData(), ua.PlutusData()))
    if k == "p":
        return ua.BuiltinPair(to_uplc(v[0]), to_uplc(v[1]))
    raise TypeError(k)


DOM = dict(
    i=INT, b=BS, t=TX, d=D0, o=BO, u=[None], li=[(), (4,), (-1, 8, 3), (0, 9), (0, 15, 7)], ld=[(), (("I", 1),), (("B", b"x"), ("C", 0, ()))],
    lp=[(), ((("I", 1), ("B", b"x")),), ((("I", 1), ("I", 1)), (("C", 0, ()), ("I", 2)))], p=[(("I", 1), ("B", b"x")), (("C", 2, ()), ("L", ()))],
)
SIG = {}
for n in "AddInteger SubtractInteger MultiplyInteger DivideInteger QuotientInteger RemainderInteger ModInteger EqualsInteger LessThanInteger LessThanEqualsInteger".split():
    SIG[n] = ["i", "i"]
for n in "AppendByteString EqualsByteString LessThanByteString LessThanEqualsByteString".split():
    SIG[n] = ["b", "b"]
SIG.update(
    ConsByteString=["i", "b"], SliceByteString=["i", "i", "b"], LengthOfByteString=["b"], IndexByteString=["b", "i"], Sha2_256=["b"], Sha3_256=["b"],
    Blake2b_256=["b"], Blake2b_224=["b"], AppendString=["t", "t"], EqualsString=["t", "t"], EncodeUtf8=["t"], DecodeUtf8=["b"], IfThenElse=["o", "i", "i"],
    ChooseUnit=["u", "i"], Trace=["t", "i"], FstPair=["p"], SndPair=["p"], MkCons=None, ChooseData=["d", "i", "i", "i", "i", "i"], ConstrData=["i", "ld"],
    MapData=["lp"], ListData=["ld"], IData=["i"], BData=["b"], UnConstrData=["d"], UnMapData=["d"], UnListData=["d"], UnIData=["d"], UnBData=["d"],
    EqualsData=["d", "d"], SerialiseData=["d"], MkPairData=["d", "d"], MkNilData=["u"], MkNilPairData=["u"], IntegerToByteString=["o", "i", "i"],
    ByteStringToInteger=["o", "b"], AndByteString=["o", "b", "b"], OrByteString=["o", "b", "b"], XorByteString=["o", "b", "b"], ComplementByteString=["b"],
    ReadBit=["b", "i"], WriteBits=["b", "li", "o"], ReplicateByte=["i", "i"], ShiftByteString=["b", "i"], RotateByteString=["b", "i"],
    CountSetBits=["b"], FindFirstSetBit=["b"],
)
POLY = {"HeadList": ["li", "ld", "lp"], "TailList": ["li", "ld", "lp"], "NullList": ["li", "ld", "lp"]}
# the evaluator's limits on sizes make huge operands uninteresting
SKIP = {("ReplicateByte", 2**70), ("ShiftByteString", 2**70), ("IntegerToByteString", 2**70)}


def cases(rng, per):
    out = []
    for n, sig in SIG.items():
        if sig is None:
            continue
        doms = [[(k, v) for v in DOM[k]] for k in sig]
        if n == "ChooseData":
            doms = [doms[0]] + [[("i", j)] for j in range(5)]
        if n == "ConstrData":
            doms[0] = [("i", v) for v in (0, 1, 6, 7, 127, 128, 1000)]
        if n == "SerialiseData":
            # the order of map entries is C21's subject; everything is sampled here
            pass
        allc = list(itertools.product(*doms))
        out += [(n, c) for c in (allc if len(allc) <= per else rng.sample(allc, per))]
        # one argument of a wrong type
        for i, k in enumerate(sig):
            if n in ("ChooseData", "IfThenElse", "ChooseUnit", "Trace") and i:
                continue
            for w in "i b t o d u ld".split():
                if w != k:
                    c = [(q, DOM[q][0]) for q in sig]
                    c[i] = (w, DOM[w][-1])
                    out.append((n, tuple(c)))
    for n, ks in POLY.items():
        for k in ks:
            out += [(n, ((k, v),)) for v in DOM[k]]
        out.append((n, (("i", 1),)))
    for k, e in (("li", "i"), ("ld", "d")):
        for l in DOM[k]:
            out += [("MkCons", ((e, x), (k, l))) for x in DOM[e][:4]]
    out += [("ChooseList", ((k, l), ("i", 1), ("i", 2))) for k in ("li", "ld", "lp") for l in DOM[k]]
    return [c for c in out if not any((c[0], v) in SKIP for _, v in c[1])]


def term(n, args):
    t = ua.BuiltIn(F[n])
    for _ in range(ua.BuiltInFunForceMap[F[n]]):
        t = ua.Force(t)
    for k, v in args:
        t = ua.Apply(t, const(k, v))
    return ua.Program((1, 1, 0), t)


def real(n, args):
    r = uplc.eval(term(n, args)).result
    return ("error",) if isinstance(r, Exception) else canon(M.const_value(r))


def canon(v):
    """value of the machine -> comparable"""
    if isinstance(v, UError):
        return ("error",)
    if isinstance(v, D):
        v = dforce(v)
        if type(v) is DI:
            return ("I", v.i)
        if type(v) is DB:
            return ("B", bytes(v.e))
        if type(v) is DC:
            return ("C", v.tag, tuple(map(canon, v.fields)))
        if type(v) is DL:
            return ("L", tuple(map(canon, v.items)))
        return ("M", tuple((canon(a), canon(b)) for a, b in v.pairs))
    if is_bool(v):
        return ("bool", v)
    if is_int(v):
        return ("int", v)
    if type(v) is B:
        return ("bytes", bytes(v.e))
    if type(v) is T:
        return ("text", tuple(v.e))
    if v is UNIT:
        return ("unit",)
    if type(v) is P:
        return ("pair", canon(v.a), canon(v.b))
    if type(v) is L:
        return ("list", tuple(map(canon, v.v)))
    raise TypeError(v)


def conc(v, m):
    """symbolic value -> concrete under a model"""
    def i(x):
        if isinstance(x, z3.BoolRef):
            return z3.is_true(m.eval(x, model_completion=True))
        return m.eval(x, model_completion=True).as_long() if isinstance(x, z3.ExprRef) else x

    if isinstance(v, UError) or v is UNIT:
        return v
    if isinstance(v, D):
        v = dforce(v)
        if type(v) is DI:
            return DI(i(v.i))
        if type(v) is DB:
            return DB(tuple(map(i, v.e)))
        if type(v) is DC:
            return DC(i(v.tag), tuple(conc(x, m) for x in v.fields))
        if type(v) is DL:
            return DL(tuple(conc(x, m) for x in v.items))
        return DM(tuple((conc(a, m), conc(b, m)) for a, b in v.pairs))
    if is_bool(v) or is_int(v):
        return i(v)
    if type(v) in (B, T):
        return type(v)(tuple(map(i, v.e)))
    if type(v) is P:
        return P(conc(v.a, m), conc(v.b, m))
    return L(tuple(conc(x, m) for x in v.v), v.k)


def symb(v, c):
    """the same value with fresh leaves constrained to it"""
    if is_bool(v):
        x = c.fresh_bool("b")
        c.assume(x == v)
        return x
    if is_int(v):
        x = c.fresh_int("i")
        c.assume(x == v)
        return x
    if type(v) in (B, T):
        return type(v)(tuple(symb(x, c) for x in v.e))
    if isinstance(v, D):
        v = dforce(v)
        if type(v) is DI:
            return DI(symb(v.i, c))
        if type(v) is DB:
            return DB(tuple(symb(x, c) for x in v.e))
        if type(v) is DC:
            return DC(v.tag, tuple(symb(x, c) for x in v.fields))
        if type(v) is DL:
            return DL(tuple(symb(x, c) for x in v.items))
        return DM(tuple((symb(a, c), symb(b, c)) for a, b in v.pairs))
    if type(v) is P:
        return P(symb(v.a, c), symb(v.b, c))
    if type(v) is L:
        return L(tuple(symb(x, c) for x in v.v), v.k)
    return v


def machine(n, args, symbolic):
    got = []

    def subject():
        c = engine.ctx()
        vs = [M.const_value(const(k, v)) for k, v in args]
        if symbolic:
            vs = [symb(v, c) for v in vs]
        M.RUN.steps, M.RUN.logs = 0, []
        try:
            f = M.Bi(F[n], 0, ())
            for _ in range(ua.BuiltInFunForceMap[F[n]]):
                f = M.force(f)
            for v in vs:
                f = M.ap(f, v)
        except UError as e:
            f = e
        m = c.get_model()
        got.append(canon(conc(f, m)) if m is not None else ("no model",))
        return []

    r = explore(subject, Stats(), max_paths=200)
    return got, r


def main():
    rng = random.Random(1)
    per = int(sys.argv[1]) if len(sys.argv) > 1 else 30
    cs = cases(rng, per)
    bad, cut = [], 0
    for n, args in cs:
        want = real(n, args)
        for symbolic in (False, True):
            if symbolic and F[n] in M.HASHES:
                continue  # an uninterpreted function on symbolic input
            got, r = machine(n, args, symbolic)
            if r.cut_reasons:
                cut += 1
            if any(g != want for g in got):
                bad.append((n, args, symbolic, got, want))
    print(f"selftest: {len(cs)} builtin applications compared twice with the real evaluator, {cut} outside the encoding's bounds, {len(bad)} differences")
    for b in bad[:40]:
        print("  differs:", str(b)[:300])
    sys.exit(1 if bad else 0)


if __name__ == "__main__":
    main()
