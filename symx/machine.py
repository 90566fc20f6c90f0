"""Symbolic UPLC machine: executes the UPLC term the real compiler produced,
with symbolic leaves.  Terms are closure-converted once; evaluation follows the
CEK machine's call-by-value order (function, then argument; builtins run when
saturated).  Every builtin is total over its specified domain and fails with
UError outside it, as in the Plutus Core specification."""
import types
import hashlib
import uplc.ast as ua
from uplc.ast import BuiltInFun as F
from .values import *
from .values import _zi
from .engine import ctx, Cut

FN = types.FunctionType
FORCES = ua.BuiltInFunForceMap


class Delay:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class Bi:
    __slots__ = ("fun", "forces", "args")

    def __init__(self, fun, forces, args):
        self.fun = fun
        self.forces = forces
        self.args = args


class CV:
    """constr value"""

    __slots__ = ("tag", "fields")

    def __init__(self, tag, fields):
        self.tag = tag
        self.fields = fields


class Run:
    """per-run state: step budget and trace log"""

    limit = 300000

    def __init__(self):
        self.steps = 0
        self.logs = []


RUN = Run()


def want(v, *ts):
    if type(v) not in ts:
        raise UError("type")
    return v


def w_int(v):
    if type(v) is int or isinstance(v, z3.ArithRef):
        return v
    raise UError("integer expected")


def w_bool(v):
    if type(v) is bool or isinstance(v, z3.BoolRef):
        return v
    raise UError("bool expected")


def w_bs(v):
    if type(v) is B:
        return v.e
    raise UError("bytestring expected")


def w_txt(v):
    if type(v) is T:
        return v.e
    raise UError("string expected")


def w_list(v):
    if type(v) is L:
        return v
    raise UError("list expected")


def w_data(v):
    if isinstance(v, D):
        return dforce(v)
    raise UError("data expected")


def w_dataraw(v):
    if isinstance(v, D):
        return v
    raise UError("data expected")


def check_zero(b):
    if truth(i_eq(b, 0)):
        raise UError("division by zero")


BI = {}
ARITY = {}


def bi(fun, n):
    def deco(f):
        BI[fun] = f
        ARITY[fun] = n
        return f

    return deco


bi(F.AddInteger, 2)(lambda a, b: i_add(w_int(a), w_int(b)))
bi(F.SubtractInteger, 2)(lambda a, b: i_sub(w_int(a), w_int(b)))
bi(F.MultiplyInteger, 2)(lambda a, b: i_mul(w_int(a), w_int(b)))


def _div(op):
    def f(a, b):
        w_int(a), w_int(b)
        check_zero(b)
        return op(a, b)

    return f


bi(F.DivideInteger, 2)(_div(i_floordiv))
bi(F.ModInteger, 2)(_div(i_mod))
bi(F.QuotientInteger, 2)(_div(i_quot))
bi(F.RemainderInteger, 2)(_div(i_rem))
bi(F.EqualsInteger, 2)(lambda a, b: i_eq(w_int(a), w_int(b)))
bi(F.LessThanInteger, 2)(lambda a, b: i_lt(w_int(a), w_int(b)))
bi(F.LessThanEqualsInteger, 2)(lambda a, b: i_le(w_int(a), w_int(b)))
bi(F.AppendByteString, 2)(lambda a, b: B(w_bs(a) + w_bs(b)))


@bi(F.ConsByteString, 2)
def _cons(i, b):
    w_int(i)
    w_bs(b)
    if not truth(b_and([i_le(0, i), i_le(i, 255)])):
        raise UError("byte out of range")
    return B((i,) + b.e)


def clamp_pick(v, hi):
    """max(0, min(v, hi)) as a concrete int"""
    if type(v) is int:
        return max(0, min(v, hi))
    if truth(i_le(v, 0)):
        return 0
    for k in range(1, hi):
        if truth(i_eq(v, k)):
            return k
    return hi


@bi(F.SliceByteString, 3)
def _slice(s, n, b):
    w_int(s), w_int(n)
    e = w_bs(b)
    if not e:
        return B(())
    i = clamp_pick(s, len(e))
    rest = e[i:]
    if not rest:
        return B(())
    k = clamp_pick(n, len(rest))
    return B(rest[:k])


bi(F.LengthOfByteString, 1)(lambda b: len(w_bs(b)))


@bi(F.IndexByteString, 2)
def _index(b, i):
    e = w_bs(b)
    w_int(i)
    if type(i) is int:
        if not 0 <= i < len(e):
            raise UError("index")
        return e[i]
    if not truth(b_and([i_le(0, i), i_lt(i, len(e))])):
        raise UError("index")
    return e[pick_int(i, 0, len(e) - 1, "byte index")]


bi(F.EqualsByteString, 2)(lambda a, b: seq_eq(w_bs(a), w_bs(b)))
bi(F.LessThanByteString, 2)(lambda a, b: seq_lt(w_bs(a), w_bs(b), False))
bi(F.LessThanEqualsByteString, 2)(lambda a, b: seq_lt(w_bs(a), w_bs(b), True))
bi(F.AppendString, 2)(lambda a, b: T(w_txt(a) + w_txt(b)))
bi(F.EqualsString, 2)(lambda a, b: seq_eq(w_txt(a), w_txt(b)))
bi(F.EncodeUtf8, 1)(lambda a: B(utf8_encode(w_txt(a))))
bi(F.DecodeUtf8, 1)(lambda a: T(utf8_decode(w_bs(a), UError("utf8"))))


def mergeable(a, b):
    if is_bool(a) and is_bool(b):
        return True
    if is_bool(a) or is_bool(b):
        return False
    if is_int(a) and is_int(b):
        return True
    return False


@bi(F.IfThenElse, 3)
def _ite(c, a, b):
    w_bool(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if mergeable(a, b):
        return ite(c, a, b)
    return a if ctx().fork(c) else b


@bi(F.ChooseUnit, 2)
def _cu(u, a):
    if u is not UNIT:
        raise UError("unit expected")
    return a


@bi(F.Trace, 2)
def _trace(t, a):
    w_txt(t)
    RUN.logs.append(t.e)
    return a


@bi(F.FstPair, 1)
def _fst(p):
    return want(p, P).a


@bi(F.SndPair, 1)
def _snd(p):
    return want(p, P).b


@bi(F.ChooseList, 3)
def _cl(l, a, b):
    return a if not w_list(l).v else b


@bi(F.MkCons, 2)
def _mkcons(x, xs):
    w_list(xs)
    k = kind(x)
    if k == "other" or k != xs.k:
        raise UError("mkCons kind")
    return L((x,) + xs.v, xs.k)


@bi(F.HeadList, 1)
def _head(l):
    if not w_list(l).v:
        raise UError("head of empty")
    return l.v[0]


@bi(F.TailList, 1)
def _tail(l):
    if not w_list(l).v:
        raise UError("tail of empty")
    return L(l.v[1:], l.k)


bi(F.NullList, 1)(lambda l: not w_list(l).v)


@bi(F.ChooseData, 6)
def _cd(d, c, m, l, i, b):
    d = w_data(d)
    t = type(d)
    return c if t is DC else m if t is DM else l if t is DL else i if t is DI else b


@bi(F.ConstrData, 2)
def _constr(i, fs):
    w_int(i)
    w_list(fs)
    if fs.k != "data":
        raise UError("constrData kind")
    return DC(i, fs.v)


@bi(F.MapData, 1)
def _map(l):
    w_list(l)
    if l.k != "pair":
        raise UError("mapData kind")
    return DM(tuple((p.a, p.b) for p in l.v))


@bi(F.ListData, 1)
def _listdata(l):
    w_list(l)
    if l.k != "data":
        raise UError("listData kind")
    return DL(l.v)


bi(F.IData, 1)(lambda i: DI(w_int(i)))
bi(F.BData, 1)(lambda b: DB(w_bs(b)))


@bi(F.UnConstrData, 1)
def _unconstr(d):
    d = w_data(d)
    if type(d) is not DC:
        raise UError("unConstrData")
    return P(d.tag, L(d.fields, "data"))


@bi(F.UnMapData, 1)
def _unmap(d):
    d = w_data(d)
    if type(d) is not DM:
        raise UError("unMapData")
    return L(tuple(P(k, v) for k, v in d.pairs), "pair")


@bi(F.UnListData, 1)
def _unlist(d):
    d = w_data(d)
    if type(d) is not DL:
        raise UError("unListData")
    return L(d.items, "data")


@bi(F.UnIData, 1)
def _uni(d):
    d = w_data(d)
    if type(d) is not DI:
        raise UError("unIData")
    return d.i


@bi(F.UnBData, 1)
def _unb(d):
    d = w_data(d)
    if type(d) is not DB:
        raise UError("unBData")
    return B(d.e)


bi(F.EqualsData, 2)(lambda a, b: d_eq(w_dataraw(a), w_dataraw(b)))


@bi(F.MkPairData, 2)
def _mkpair(a, b):
    if kind(a) == "other" or kind(b) == "other":
        raise UError("mkPairData")
    return P(a, b)


bi(F.MkNilData, 1)(lambda u: L((), "data"))
bi(F.MkNilPairData, 1)(lambda u: L((), "pair"))


def to_uplc_const(v):
    """concrete value -> uplc.ast constant (for real builtins on constants)"""
    if is_bool(v):
        return ua.BuiltinBool(v)
    if is_int(v):
        return ua.BuiltinInteger(v)
    if type(v) is B:
        return ua.BuiltinByteString(bytes(v.e))
    if type(v) is T:
        return ua.BuiltinString("".join(map(chr, v.e)))
    if isinstance(v, D):
        return to_uplc_data(v)
    if v is UNIT:
        return ua.BuiltinUnit()
    if type(v) is P:
        return ua.BuiltinPair(to_uplc_const(v.a), to_uplc_const(v.b))
    if type(v) is L:
        vals = [to_uplc_const(x) for x in v.v]
        sample = {
            "data": ua.PlutusData(),
            "pair": ua.BuiltinPair(ua.PlutusData(), ua.PlutusData()),
            "integer": ua.BuiltinInteger(0),
            "bytestring": ua.BuiltinByteString(b""),
            "string": ua.BuiltinString(""),
            "bool": ua.BuiltinBool(False),
        }.get(v.k)
        if sample is None:
            if not vals:
                raise Cut("constant list of a nested kind")
            sample = vals[0]
        return ua.BuiltinList(vals, sample)
    raise TypeError(v)


def to_uplc_data(d):
    d = dforce(d)
    if type(d) is DI:
        return ua.PlutusInteger(d.i)
    if type(d) is DB:
        return ua.PlutusByteString(bytes(d.e))
    if type(d) is DC:
        return ua.PlutusConstr(d.tag, [to_uplc_data(x) for x in d.fields])
    if type(d) is DL:
        return ua.PlutusList([to_uplc_data(x) for x in d.items])
    if type(d) is DM:
        return ua.PlutusMap({to_uplc_data(k): to_uplc_data(v) for k, v in d.pairs})
    raise TypeError(d)


def is_concrete(v):
    if isinstance(v, z3.ExprRef):
        return False
    if type(v) in (int, bool) or v is UNIT:
        return True
    if type(v) in (B, T, DB):
        return all(type(x) is int for x in v.e)
    if type(v) is DI:
        return type(v.i) is int
    if type(v) is DC:
        return type(v.tag) is int and all(map(is_concrete, v.fields))
    if type(v) is DL:
        return all(map(is_concrete, v.items))
    if type(v) is DM:
        return all(is_concrete(a) and is_concrete(b) for a, b in v.pairs)
    if type(v) is DX:
        return v.res is not None and is_concrete(v.res)
    if type(v) is L:
        return all(map(is_concrete, v.v))
    if type(v) is P:
        return is_concrete(v.a) and is_concrete(v.b)
    return False


# a hash is an uninterpreted function on symbolic input, the real one on
# concrete input
HASHES = {
    F.Sha2_256: ("sha2_256", 32, lambda b: hashlib.sha256(b).digest()),
    F.Sha3_256: ("sha3_256", 32, lambda b: hashlib.sha3_256(b).digest()),
    F.Blake2b_256: (
        "blake2b_256",
        32,
        lambda b: hashlib.blake2b(b, digest_size=32).digest(),
    ),
    F.Blake2b_224: (
        "blake2b_224",
        28,
        lambda b: hashlib.blake2b(b, digest_size=28).digest(),
    ),
    F.Keccak_256: ("keccak_256", 32, None),
    F.Ripemd_160: ("ripemd_160", 20, None),
}


def hash_uf(name, n, real, e):
    if all(type(x) is int for x in e) and real is not None:
        return tuple(real(bytes(e)))
    return uf_bytes(name, n, e)


def _real(fun):
    return lambda b: ua.BuiltInFunEvalMap[fun](ua.BuiltinByteString(b)).value


for _f, (_n, _k, _r) in HASHES.items():
    bi(_f, 1)(
        lambda b, _n=_n, _k=_k, _r=_r, _f=_f: B(
            hash_uf(_n, _k, _r or _real(_f), w_bs(b))
        )
    )


@bi(F.IntegerToByteString, 3)
def _i2b(be, w, i):
    w_bool(be), w_int(w), w_int(i)
    be = truth(be)
    if not truth(b_and([i_le(0, w), i_le(w, 8192)])):
        raise UError("width")
    if truth(i_lt(i, 0)):
        raise UError("negative")
    w = concretize_int(w, "byte width")
    n = 0
    while not truth(i_lt(i, 256**n)):
        n += 1
        if n > 40:
            raise Cut("integerToByteString above 40 bytes")
    if w and n > w:
        raise UError("does not fit")
    n = w or n
    out = [i_mod(i_floordiv(i, 256**k), 256) for k in range(n)]
    if be:
        out.reverse()
    return B(out)


@bi(F.ByteStringToInteger, 2)
def _b2i(be, b):
    w_bool(be)
    e = w_bs(b)
    e = e if truth(be) else e[::-1]
    r = 0
    for x in e:
        r = i_add(i_mul(r, 256), x)
    return r


def _bitop(op):
    def f(x, y):
        if type(x) is int and type(y) is int:
            return {"and": x & y, "or": x | y, "xor": x ^ y}[op]
        g = {"and": lambda p, q: b_and([p, q]), "or": lambda p, q: b_or([p, q]), "xor": lambda p, q: b_not(b_iff(p, q))}[op]
        return bits_byte([g(p, q) for p, q in zip(byte_bits(x), byte_bits(y))])

    return f


def _bitwise(op, fill):
    f = _bitop(op)

    def g(ext, a, b):
        w_bool(ext)
        a, b = w_bs(a), w_bs(b)
        if truth(ext):
            n = max(len(a), len(b))
            a2 = a + (fill,) * (n - len(a))
            b2 = b + (fill,) * (n - len(b))
            # padding bytes are the neutral element
            return B(
                tuple(
                    y if i >= len(a) else x if i >= len(b) else f(x, y)
                    for i, (x, y) in enumerate(zip(a2, b2))
                )
            )
        n = min(len(a), len(b))
        return B(tuple(f(x, y) for x, y in zip(a[:n], b[:n])))

    return g


bi(F.AndByteString, 3)(_bitwise("and", 255))
bi(F.OrByteString, 3)(_bitwise("or", 0))
bi(F.XorByteString, 3)(_bitwise("xor", 0))
bi(F.ComplementByteString, 1)(lambda b: B(tuple(i_sub(255, x) for x in w_bs(b))))


@bi(F.ReadBit, 2)
def _readbit(b, i):
    e = w_bs(b)
    w_int(i)
    n = len(e) * 8
    if not truth(b_and([i_le(0, i), i_lt(i, n)])):
        raise UError("bit index")
    i = pick_int(i, 0, n - 1, "bit index")
    return byte_bits(e[len(e) - 1 - i // 8])[i % 8]


@bi(F.WriteBits, 3)
def _writebits(b, poss, v):
    e = list(w_bs(b))
    w_list(poss), w_bool(v)
    if poss.v and poss.k != "integer":
        raise UError("writeBits")
    n = len(e) * 8
    for i in poss.v:
        if not truth(b_and([i_le(0, i), i_lt(i, n)])):
            raise UError("bit index")
        i = pick_int(i, 0, n - 1, "bit index")
        j = len(e) - 1 - i // 8
        bs = list(byte_bits(e[j]))
        bs[i % 8] = v
        e[j] = bits_byte(bs)
    return B(e)


@bi(F.ReplicateByte, 2)
def _replicate(n, x):
    w_int(n), w_int(x)
    if not truth(b_and([i_le(0, n), i_le(n, 8192)])):
        raise UError("replicate length")
    if not truth(b_and([i_le(0, x), i_le(x, 255)])):
        raise UError("byte range")
    n = concretize_int(n, "replicate length")
    return B((x,) * n)


@bi(F.CountSetBits, 1)
def _count(b):
    r = 0
    for x in w_bs(b):
        for p in byte_bits(x):
            r = i_add(r, ite(p, 1, 0))
    return r


@bi(F.FindFirstSetBit, 1)
def _ffs(b):
    e = w_bs(b)
    for k, x in enumerate(reversed(e)):
        for j, p in enumerate(byte_bits(x)):
            if truth(p):
                return 8 * k + j
    return -1


def _to_bits(e):
    out = []
    for x in e:
        out.extend(reversed(byte_bits(x)))
    return out


def _from_bits(bits):
    out = []
    for i in range(0, len(bits), 8):
        out.append(bits_byte(bits[i : i + 8][::-1]))
    return tuple(out)


@bi(F.ShiftByteString, 2)
def _shift(b, n):
    e = w_bs(b)
    w_int(n)
    if not e:
        return b
    tot = len(e) * 8
    if truth(i_le(tot, n)) or truth(i_le(n, -tot)):
        return B((0,) * len(e))
    n = concretize_int(n, "shift")
    bits = _to_bits(e)
    if n >= 0:
        bits = bits[n:] + [False] * n
    else:
        bits = [False] * (-n) + bits[:n]
    return B(_from_bits(bits))


@bi(F.RotateByteString, 2)
def _rotate(b, n):
    e = w_bs(b)
    w_int(n)
    if not e:
        return b
    tot = len(e) * 8
    n = concretize_int(i_mod(n, tot), "rotation")
    bits = _to_bits(e)
    bits = bits[n:] + bits[:n]
    return B(_from_bits(bits))


@bi(F.SerialiseData, 1)
def _ser(d):
    from . import cborsym

    return B(cborsym.encode(w_dataraw(d)))


def _no_libsecp():
    """libsecp256k1 is not installed in the sandbox: the evaluator's own checks
    would always fail, so concrete runs use a stand-in that tells the two
    schemes and the order of their arguments apart"""

    def stand_in(pklen, result):
        def f(pk, m, s):
            assert len(pk.value) == pklen and len(s.value) == 64
            return ua.BuiltinBool(result)

        return f

    ua.BuiltInFunEvalMap[F.VerifyEcdsaSecp256k1Signature] = stand_in(33, False)
    ua.BuiltInFunEvalMap[F.VerifySchnorrSecp256k1Signature] = stand_in(32, True)


if ua.pysecp256k1 is None:
    _no_libsecp()


def _ufsig(name, fun):
    """uninterpreted outcome (valid, invalid, malformed) of the key, message and
    signature; the real check on concrete arguments"""

    def f(pk, m, s):
        pk, m, s = w_bs(pk), w_bs(m), w_bs(s)
        if all(type(x) is int for x in pk + m + s):
            try:
                return ua.BuiltInFunEvalMap[fun](*[ua.BuiltinByteString(bytes(x)) for x in (pk, m, s)]).value
            except Exception as e:
                raise UError(f"{name}: {type(e).__name__}")
        if name == "ed25519" and (len(pk) != 32 or len(s) != 64):
            raise UError("lengths")
        t = uf_bytes(name, 1, pk, m, s)[0]
        if name != "ed25519" and truth(i_lt(200, t)):
            raise UError("malformed key or signature")
        return i_eq(i_mod(t, 2), 1)

    return f


for _n, _f in (("ed25519", F.VerifyEd25519Signature), ("ecdsa", F.VerifyEcdsaSecp256k1Signature), ("schnorr", F.VerifySchnorrSecp256k1Signature)):
    bi(_f, 3)(_ufsig(_n, _f))

from . import bls

bls.install(bi, F, B, w_bs, w_int)

for _f in F:
    if _f not in BI:

        def _unsupported(*a, _f=_f):
            raise Cut(f"builtin {_f.name} not encoded")

        BI[_f] = _unsupported
        ARITY[_f] = ua.BuiltInFunEvalMap[_f].__code__.co_argcount


# --------------------------------------------------------------- evaluation
def ap(f, x):
    if type(f) is FN:
        RUN.steps += 1
        if RUN.steps > RUN.limit:
            raise Cut("UPLC step bound")
        return f(x)
    if type(f) is Bi:
        if f.forces != FORCES[f.fun]:
            raise UError("builtin needs force")
        args = f.args + (x,)
        if len(args) == ARITY[f.fun]:
            return BI[f.fun](*args)
        return Bi(f.fun, f.forces, args)
    raise UError("apply non-function")


def force(v):
    if type(v) is Delay:
        RUN.steps += 1
        if RUN.steps > RUN.limit:
            raise Cut("UPLC step bound")
        return v.f()
    if type(v) is Bi and v.forces < FORCES[v.fun] and not v.args:
        return Bi(v.fun, v.forces + 1, v.args)
    raise UError("force non-delay")


def const_value(c):
    t = type(c)
    if t is ua.BuiltinInteger:
        return c.value
    if t is ua.BuiltinBool:
        return bool(c.value)
    if t is ua.BuiltinByteString:
        return B(tuple(c.value))
    if t is ua.BuiltinString:
        return T(tuple(map(ord, c.value)))
    if t is ua.BuiltinUnit:
        return UNIT
    if t is ua.BuiltinPair:
        return P(const_value(c.l_value), const_value(c.r_value))
    if t is ua.BuiltinList:
        vals = tuple(const_value(x) for x in c.values)
        if vals:
            k = kind(vals[0])
        else:
            k = sample_kind(c.sample_value)
        return L(vals, k)
    if isinstance(c, ua.PlutusData):
        return data_value(c)
    raise Cut(f"constant {t.__name__} not encoded")


def sample_kind(s):
    if isinstance(s, ua.PlutusData):
        return "data"
    if type(s) is ua.BuiltinList:
        return f"list({kind(const_value(s.values[0])) if s.values else sample_kind(s.sample_value)})"
    if type(s) is ua.BuiltinPair:
        a, b = sample_kind(s.l_value), sample_kind(s.r_value)
        return "pair" if a == b == "data" else f"pair({a},{b})"
    return {
        ua.BuiltinInteger: "integer",
        ua.BuiltinBool: "bool",
        ua.BuiltinByteString: "bytestring",
        ua.BuiltinString: "string",
        ua.BuiltinUnit: "unit",
    }.get(type(s), "other")


def data_value(c):
    if isinstance(c, ua.PlutusInteger):
        return DI(c.value)
    if isinstance(c, ua.PlutusByteString):
        return DB(tuple(c.value))
    if isinstance(c, ua.PlutusConstr):
        return DC(c.constructor, tuple(map(data_value, c.fields)))
    if isinstance(c, ua.PlutusList):
        return DL(tuple(map(data_value, c.value)))
    if isinstance(c, ua.PlutusMap):
        return DM(tuple((data_value(k), data_value(v)) for k, v in c.value.items()))
    raise Cut(f"data constant {type(c).__name__}")


_ERR = UError("error term")


def free_vars(t, memo):
    k = id(t)
    if k in memo:
        return memo[k]
    if isinstance(t, ua.Variable):
        r = frozenset((t.name,))
    elif isinstance(t, ua.BoundStateLambda):
        r = free_vars(t.term, memo) - {t.var_name}
    elif isinstance(t, (ua.BoundStateDelay, ua.Force)):
        r = free_vars(t.term, memo)
    elif isinstance(t, ua.Apply):
        r = free_vars(t.f, memo) | free_vars(t.x, memo)
    elif isinstance(t, ua.Constr):
        r = frozenset().union(*[free_vars(x, memo) for x in t.fields])
    elif isinstance(t, ua.Case):
        r = free_vars(t.scrutinee, memo).union(
            *[free_vars(x, memo) for x in t.branches]
        )
    else:
        r = frozenset()
    memo[k] = r
    return r


def compile_term(t):
    """UPLC term (closed) -> nullary function evaluating it."""
    memo = {}
    fv = free_vars(t, memo)
    if fv:
        raise UError(f"free variables {sorted(fv)[:3]}")
    code = comp(t, {}, memo)
    keep = (t, memo)  # ids stay valid
    return lambda: code(()) if keep else None


SUBST = {}  # id of a constant -> holder of the symbolic value that replaces it


def comp(t, scope, memo):
    """scope: name -> index in the environment tuple"""
    if isinstance(t, ua.Variable):
        i = scope[t.name]
        return lambda env: env[i]
    if isinstance(t, ua.Constant):
        if id(t) in SUBST:
            s = SUBST[id(t)]
            return lambda env: s.value
        v = const_value(t)
        return lambda env: v
    if isinstance(t, ua.Error):

        def err(env):
            raise _ERR

        return err
    if isinstance(t, ua.BoundStateLambda):
        assert not t.state
        names = sorted(n for n in free_vars(t, memo))
        idx = [scope[n] for n in names]
        inner = {n: i for i, n in enumerate(names)}
        inner[t.var_name] = len(names)
        body = comp(t.term, inner, memo)
        if not idx:
            # closed function: one closure suffices
            fn = lambda x: body((x,))
            return lambda env: fn
        if len(idx) == 1:
            (i0,) = idx

            def lam1(env):
                a = env[i0]
                return lambda x: body((a, x))

            return lam1

        def lam(env):
            cap = tuple([env[i] for i in idx])
            return lambda x: body(cap + (x,))

        return lam
    if isinstance(t, ua.BoundStateDelay):
        assert not t.state
        body = comp(t.term, scope, memo)
        return lambda env: Delay(lambda: body(env))
    if isinstance(t, ua.Force):
        # forced builtin constants
        n, u = 1, t.term
        while isinstance(u, ua.Force):
            n, u = n + 1, u.term
        if isinstance(u, ua.ForcedBuiltIn):
            v = Bi(u.builtin, u.applied_forces + n, tuple(u.bound_arguments))
            if v.forces <= FORCES[u.builtin]:
                return lambda env: v
        body = comp(t.term, scope, memo)
        return lambda env: force(body(env))
    if isinstance(t, ua.ForcedBuiltIn):
        v = Bi(t.builtin, t.applied_forces, tuple(t.bound_arguments))
        return lambda env: v
    if isinstance(t, ua.Apply):
        # saturated builtin application
        args = [t.x]
        h = t.f
        while isinstance(h, ua.Apply):
            args.append(h.x)
            h = h.f
        args.reverse()
        n, u = 0, h
        while isinstance(u, ua.Force):
            n, u = n + 1, u.term
        if (
            isinstance(u, ua.ForcedBuiltIn)
            and not u.bound_arguments
            and u.applied_forces + n == FORCES[u.builtin]
            and len(args) == ARITY[u.builtin]
        ):
            cs = [comp(a, scope, memo) for a in args]
            f = BI[u.builtin]
            if len(cs) == 1:
                (c0,) = cs
                return lambda env: f(c0(env))
            if len(cs) == 2:
                c0, c1 = cs
                return lambda env: f(c0(env), c1(env))
            if len(cs) == 3:
                c0, c1, c2 = cs
                return lambda env: f(c0(env), c1(env), c2(env))
            return lambda env: f(*[c(env) for c in cs])
        cf = comp(t.f, scope, memo)
        cx = comp(t.x, scope, memo)
        return lambda env: ap(cf(env), cx(env))
    if isinstance(t, ua.Constr):
        cs = [comp(a, scope, memo) for a in t.fields]
        return lambda env: CV(t.tag, [c(env) for c in cs])
    if isinstance(t, ua.Case):
        cs = comp(t.scrutinee, scope, memo)
        bs = [comp(a, scope, memo) for a in t.branches]

        def case(env):
            v = cs(env)
            if type(v) is not CV:
                raise UError("case of non-constr")
            if v.tag >= len(bs):
                raise UError("no branch")
            r = bs[v.tag](env)
            for x in v.fields:
                r = ap(r, x)
            return r

        return case
    raise Cut(f"term {type(t).__name__} not encoded")


class Script:
    """A compiled program ready for symbolic evaluation."""

    def __init__(self, program):
        self.program = program
        t = program.term if isinstance(program, ua.Program) else program
        try:
            self.thunk = compile_term(t)
        except UError as e:  # free variable: the script always fails
            err = e

            def broken():
                raise err

            self.thunk = broken

    def run(self, args, limit=None):
        """-> (value | UError, logs)"""
        global RUN
        r = RUN
        r.steps = 0
        r.logs = []
        if limit:
            r.limit = limit
        try:
            v = self.thunk()
            for a in args:
                v = ap(v, a)
            res = v
        except UError as e:
            res = e
        ctx().stats.steps += r.steps
        return res, r.logs
