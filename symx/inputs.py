"""Symbolic inputs derived from the validator's own type annotations.  For each
parameter one symbolic value is shared by the Python side and the data passed
to the script; sizes and constructors are explicit choices within bounds."""
import dataclasses
import fnmatch
import typing
import z3
import uplc.ast as ua
from .values import *
from .engine import ctx
from . import pysym as S
from . import machine as M


class Bounds:
    def __init__(self, **k):
        self.list_len = 2
        self.bytes_len = 2
        self.str_len = 2
        self.dict_len = 2
        self.depth = 3
        self.int_range = None  # (lo, hi) or None = unbounded
        self.ascii = False
        self.minlen = 0
        self.any_depth = 1
        self.any_width = 1
        self.any_kinds = "CMLIB"
        self.distinct_keys = True
        self.per = {}  # name or pattern (fnmatch on the input path) -> overrides
        self.base = None  # bounds for components, when an override applies here
        self.members = None  # restrict unions to these member indices
        for a, b in k.items():
            assert hasattr(self, a), a
            setattr(self, a, b)

    def with_(self, **k):
        d = dict(self.__dict__)
        d.update(k)
        return Bounds(**d)

    def describe(self):
        return {k: v for k, v in self.__dict__.items() if v not in (None, {}, False)}


class In:
    """one symbolic input: .py (python-side value), .data (script-side),
    .real(model, realtype) and .udata(model); .raw / .uraw are the builtin
    (not data-encoded) forms used when input unwrapping is disabled"""

    @property
    def raw(self):
        return self.data

    def uraw(self, m):
        return self.udata(m)


def _mi(m, t):
    if type(t) is int:
        return t
    return m.eval(t, model_completion=True).as_long()


def _mb(m, t):
    if type(t) is bool:
        return t
    return z3.is_true(m.eval(t, model_completion=True))


class INone(In):
    py = None
    data = DC(0, ())

    def real(self, m, rt):
        return None

    def udata(self, m):
        return ua.PlutusConstr(0, [])

    @property
    def raw(self):
        return UNIT

    def uraw(self, m):
        return ua.BuiltinUnit()


class IInt(In):
    def __init__(self, name, b):
        self.t = ctx().fresh_int(name)
        if b.int_range:
            lo, hi = b.int_range
            if lo is not None:
                ctx().assume(self.t >= lo)
            if hi is not None:
                ctx().assume(self.t <= hi)
        self.py = S.SInt(self.t)
        self.data = DI(self.t)

    def real(self, m, rt):
        return _mi(m, self.t)

    def udata(self, m):
        return ua.PlutusInteger(_mi(m, self.t))

    @property
    def raw(self):
        return self.t

    def uraw(self, m):
        return ua.BuiltinInteger(_mi(m, self.t))


class IBool(In):
    def __init__(self, name, b):
        self.t = ctx().fresh_bool(name)
        self.py = S.SBool(self.t)
        self.data = DI(z3.If(self.t, z3.IntVal(1), z3.IntVal(0)))

    def real(self, m, rt):
        return _mb(m, self.t)

    def udata(self, m):
        return ua.PlutusInteger(int(_mb(m, self.t)))

    @property
    def raw(self):
        return self.t

    def uraw(self, m):
        return ua.BuiltinBool(_mb(m, self.t))


class IBytes(In):
    def __init__(self, name, b):
        n = b.minlen + ctx().choose(b.bytes_len - b.minlen + 1)
        self.e = fresh_bytes(name, n)
        self.py = S.mkbytes(self.e) if not n else S.SBytes(self.e)
        self.data = DB(self.e)

    def real(self, m, rt):
        return bytes(_mi(m, x) for x in self.e)

    def udata(self, m):
        return ua.PlutusByteString(self.real(m, None))

    @property
    def raw(self):
        return B(self.e)

    def uraw(self, m):
        return ua.BuiltinByteString(self.real(m, None))


class IStr(In):
    def __init__(self, name, b):
        n = b.minlen + ctx().choose(b.str_len - b.minlen + 1)
        c = ctx()
        e = []
        for i in range(n):
            x = c.fresh_int(f"{name}[{i}]")
            if b.ascii:
                c.assume(z3.And(x >= 0, x < 128))
            else:
                c.assume(
                    z3.Or(
                        z3.And(x >= 0, x < 0xD800), z3.And(x > 0xDFFF, x <= 0x10FFFF)
                    )
                )
            e.append(x)
        self.e = tuple(e)
        self.py = S.SStr(self.e) if n else ""
        self.data = DB(utf8_encode(self.e))

    def real(self, m, rt):
        return "".join(chr(_mi(m, x)) for x in self.e)

    def udata(self, m):
        return ua.PlutusByteString(self.real(m, None).encode())

    @property
    def raw(self):
        return T(self.e)

    def uraw(self, m):
        return ua.BuiltinString(self.real(m, None))


class IList(In):
    def __init__(self, name, et, b):
        n = b.minlen + ctx().choose(b.list_len - b.minlen + 1)
        self.et = et
        b2 = (b.base or b).with_(minlen=0)
        self.x = [build(et, f"{name}[{i}]", b2) for i in range(n)]
        self.py = [i.py for i in self.x]
        self.data = DL([i.data for i in self.x])

    def real(self, m, rt):
        (et,) = typing.get_args(rt)
        return [i.real(m, et) for i in self.x]

    def udata(self, m):
        return ua.PlutusList([i.udata(m) for i in self.x])

    @property
    def raw(self):
        return L(tuple(i.raw for i in self.x), sample_of(self.et)[0])

    def uraw(self, m):
        return ua.BuiltinList([i.uraw(m) for i in self.x], sample_of(self.et)[1])


class ITuple(In):
    """a raw tuple: a data list with one element per component"""

    def __init__(self, name, ts, b):
        b = b.base or b
        self.x = [build(t, f"{name}[{i}]", b) for i, t in enumerate(ts)]
        self.py = tuple(i.py for i in self.x)
        self.data = DL([i.data for i in self.x])

    def real(self, m, rt):
        return tuple(i.real(m, t) for i, t in zip(self.x, typing.get_args(rt)))

    def udata(self, m):
        return ua.PlutusList([i.udata(m) for i in self.x])

    @property
    def raw(self):
        return L(tuple(i.data for i in self.x), "data")

    def uraw(self, m):
        return ua.BuiltinList([i.udata(m) for i in self.x], ua.PlutusConstr(0, []))


class IDict(In):
    def __init__(self, name, kt, vt, b):
        n = b.minlen + ctx().choose(b.dict_len - b.minlen + 1)
        b2 = (b.base or b).with_(minlen=0)
        self.x = [
            (build(kt, f"{name}.k{i}", b2), build(vt, f"{name}.v{i}", b2))
            for i in range(n)
        ]
        # a Python dict has pairwise distinct keys
        for i in range(n):
            for j in range(i):
                ctx().assume(b_not(d_eq(self.x[i][0].data, self.x[j][0].data)))
        d = S.SDict()
        d.p = [(k.py, v.py) for k, v in self.x]
        self.py = d
        self.data = DM([(k.data, v.data) for k, v in self.x])

    def real(self, m, rt):
        kt, vt = typing.get_args(rt)
        return {k.real(m, kt): v.real(m, vt) for k, v in self.x}

    def udata(self, m):
        return ua.PlutusMap({k.udata(m): v.udata(m) for k, v in self.x})

    @property
    def raw(self):
        return L(tuple(P(k.data, v.data) for k, v in self.x), "pair")

    def uraw(self, m):
        return ua.BuiltinList([ua.BuiltinPair(k.udata(m), v.udata(m)) for k, v in self.x], ua.BuiltinPair(ua.PlutusConstr(0, []), ua.PlutusConstr(0, [])))


class ICon(In):
    def __init__(self, name, cls, b):
        self.cls = cls
        self.f = []
        b = b.base or b
        hints = typing.get_type_hints(cls)
        for f in dataclasses.fields(cls):
            self.f.append((f.name, build(hints[f.name], f"{name}.{f.name}", b)))
        self.py = cls(**{n: i.py for n, i in self.f})
        self.data = DC(cls.CONSTR_ID, [i.data for _, i in self.f])

    def real(self, m, rt):
        hints = typing.get_type_hints(rt)
        return rt(**{n: i.real(m, hints[n]) for n, i in self.f})

    def udata(self, m):
        return ua.PlutusConstr(self.cls.CONSTR_ID, [i.udata(m) for _, i in self.f])


class IUnion(In):
    def __init__(self, name, ts, b):
        ms = b.members if b.members is not None else range(len(ts))
        self.k = ms[ctx().choose(len(ms))]
        b = b.base or b
        self.i = build(ts[self.k], name, b)
        self.py = self.i.py
        self.data = self.i.data

    def real(self, m, rt):
        return self.i.real(m, typing.get_args(rt)[self.k])

    def udata(self, m):
        return self.i.udata(m)


def sample_of(tp):
    """kind and sample value of the builtin form of a type"""
    unit = ua.PlutusConstr(0, [])
    if tp is int:
        return "integer", ua.BuiltinInteger(0)
    if tp is bool:
        return "bool", ua.BuiltinBool(False)
    if tp is bytes:
        return "bytestring", ua.BuiltinByteString(b"")
    if tp is str:
        return "string", ua.BuiltinString("")
    if tp is None or tp is type(None):
        return "unit", ua.BuiltinUnit()
    o = typing.get_origin(tp)
    if o is list:
        k, u = sample_of(typing.get_args(tp)[0])
        return f"list({k})", ua.BuiltinList([], u)
    if o is dict:
        return "list(pair)", ua.BuiltinList([], ua.BuiltinPair(unit, unit))
    if o is tuple:
        return "list(data)", ua.BuiltinList([], unit)
    return "data", unit


def conc_data(d, m):
    """DX & friends -> uplc.ast data under a model; undecided parts become
    the simplest value"""
    if type(d) is DX:
        if d.res is None:
            return ua.PlutusInteger(0) if "I" in d.kinds else ua.PlutusByteString(b"")
        return conc_data(d.res, m)
    if type(d) is DI:
        return ua.PlutusInteger(_mi(m, d.i))
    if type(d) is DB:
        return ua.PlutusByteString(bytes(_mi(m, x) for x in d.e))
    if type(d) is DC:
        return ua.PlutusConstr(_mi(m, d.tag), [conc_data(x, m) for x in d.fields])
    if type(d) is DL:
        return ua.PlutusList([conc_data(x, m) for x in d.items])
    if type(d) is DM:
        return ua.PlutusMap({conc_data(k, m): conc_data(v, m) for k, v in d.pairs})
    raise TypeError(d)


class IAny(In):
    def __init__(self, name, b):
        self.d = DX(name, b.any_depth, b.any_width, b.bytes_len, b.any_kinds)
        self.py = S.RawData(self.d)
        self.data = self.d

    def real(self, m, rt):
        import pycardano

        c = ua.plutus_cbor_dumps(conc_data(self.d, m))
        try:
            return pycardano.RawPlutusData.from_cbor(c)
        except pycardano.DeserializeException:
            return pycardano.RawCBOR(c)

    def udata(self, m):
        return conc_data(self.d, m)


def build(tp, name, b):
    for k, v in b.per.items():
        if k == name or ("*" in k and fnmatch.fnmatchcase(name, k)):
            b = b.with_(**v, base=b.base or b)
    if tp is int:
        return IInt(name, b)
    if tp is bool:
        return IBool(name, b)
    if tp is bytes:
        return IBytes(name, b)
    if tp is str:
        return IStr(name, b)
    if tp is None or tp is type(None):
        return INone()
    if tp == S.Datum:
        return IAny(name, b)
    o = typing.get_origin(tp)
    if o is list:
        return IList(name, typing.get_args(tp)[0], b)
    if o is tuple:
        return ITuple(name, typing.get_args(tp), b)
    if o is dict:
        return IDict(name, *typing.get_args(tp), b)
    if o is typing.Union:
        return IUnion(name, typing.get_args(tp), b)
    if isinstance(tp, type) and issubclass(tp, S.PlutusData):
        return ICon(name, tp, b)
    raise Cut(f"no symbolic input for {tp}")
