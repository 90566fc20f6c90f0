"""Stand-in for the parts of the `uplc` package that /repo's off-chain bridge
uses: wrapper classes and the evaluation map.  Each primitive is evaluated by
the machine's specification of it (symx.machine.BI), so the bridge and the
library's stubs run unchanged on symbolic values."""
import types
from .values import *
from .engine import Cut
from . import machine as M
from . import pysym as S
from . import bls


class Token:
    """the CBOR bytes of a data value"""

    def __init__(self, d):
        self.d = d


class Constant:
    pass


class Simple(Constant):
    def __init__(self, value):
        self.value = value


class BuiltinInteger(Simple):
    def uval(self):
        t = S.raw(self.value)
        if t is None or is_bool(t):
            raise TypeError("integer expected")
        return t


class BuiltinBool(Simple):
    def uval(self):
        v = self.value
        return v.t if isinstance(v, S.SBool) else v


class BuiltinString(Simple):
    def uval(self):
        return T(S._elems(S.SStr, self.value))


class BuiltinByteString(Simple):
    def uval(self):
        return B(S._elems(S.SBytes, self.value))


class BuiltinUnit(Constant):
    def uval(self):
        return UNIT


class BuiltinList(Constant):
    def __init__(self, values, sample_value=None):
        self.values = list(values)
        if not self.values:
            assert sample_value is not None, "Need to provide a sample value for empty lists to infer the type"
        self.sample_value = self.values[0] if self.values else sample_value

    def uval(self):
        return L(tuple(v.uval() for v in self.values), kind(self.sample_value.uval()))


class PlutusData(Constant):
    def uval(self):
        return self.d


class Raw(PlutusData):
    def __init__(self, d):
        self.d = d


class PlutusInteger(PlutusData):
    def __init__(self, value):
        t = S.raw(value)
        if t is None:
            raise TypeError("integer expected")
        self.d = DI(t)


class PlutusByteString(PlutusData):
    def __init__(self, value):
        self.d = DB(S._elems(S.SBytes, value))


class PlutusList(PlutusData):
    def __init__(self, value):
        self.d = DL(tuple(x.d for x in value))


class PlutusMap(PlutusData):
    def __init__(self, value):
        self.d = DM(tuple((k.d, v.d) for k, v in value.items()))


class PlutusConstr(PlutusData):
    def __init__(self, constructor, fields):
        self.d = DC(S.raw(constructor), tuple(x.d for x in fields))


PYBLST = bls.fake_pyblst()
BLST = {"g1": PYBLST.BlstP1Element, "g2": PYBLST.BlstP2Element, "ml": PYBLST.BlstFP12Element}


class Curve(Constant):
    kind = None

    def __init__(self, value):
        self.value = value

    def uval(self):
        return self.value.o


class BuiltinBLS12381G1Element(Curve):
    pass


class BuiltinBLS12381G2Element(Curve):
    pass


class BuiltinBLS12381Mlresult(Curve):
    pass


def wrap(v):
    if is_bool(v):
        return BuiltinBool(S.mkb(v))
    if is_int(v):
        return BuiltinInteger(S.mk(v))
    if type(v) is B:
        return BuiltinByteString(S.mkbytes(v.e))
    if type(v) is T:
        return BuiltinString(S.mkstr(v.e))
    if type(v) is L:
        return BuiltinList([wrap(x) for x in v.v], BuiltinInteger(0))
    if isinstance(v, D):
        return Raw(v)
    if v is UNIT:
        return BuiltinUnit()
    if type(v) is bls.Pt:
        c = {"g1": BuiltinBLS12381G1Element, "g2": BuiltinBLS12381G2Element, "ml": BuiltinBLS12381Mlresult}[v.k]
        return c(BLST[v.k](v))
    raise Cut("builtin result")


def evaluator(fun):
    def f(*args):
        if len(args) != M.ARITY[fun]:
            raise TypeError(f"{fun.name} takes {M.ARITY[fun]} arguments")
        try:
            return wrap(M.BI[fun](*[a.uval() for a in args]))
        except UError as e:
            raise S.BuiltinFailed(str(e))

    return f


BuiltInFun = M.F


class EvalMap(dict):
    def __missing__(self, k):
        raise KeyError(k)


EVAL = EvalMap({f: evaluator(f) for f in M.F})


def modules():
    u = types.ModuleType("uplc")
    a = types.ModuleType("uplc.ast")
    for c in (
        Constant, BuiltinInteger, BuiltinBool, BuiltinString, BuiltinByteString, BuiltinUnit, BuiltinList, PlutusData, PlutusInteger,
        PlutusByteString, PlutusList, PlutusMap, PlutusConstr, BuiltinBLS12381G1Element, BuiltinBLS12381G2Element, BuiltinBLS12381Mlresult,
    ):
        setattr(a, c.__name__, c)
    a.BuiltInFun = BuiltInFun
    a.BuiltInFunEvalMap = EVAL
    a.data_from_cbor = lambda t: Raw(t.d)
    a.plutus_cbor_dumps = lambda d: Token(d.d)
    u.ast = a
    return {"uplc": u, "uplc.ast": a}


class RawCBOR(S.RawData):
    def __init__(self, t):
        super().__init__(t.d)

    @property
    def cbor(self):
        return Token(self.d)


class RawPlutusData:
    pass


class BridgeWorld(S.World):
    """a World whose opshin.bridge and opshin.std.builtins are /repo's"""

    real_bridge = True
    real_bls = True

    def __init__(self):
        super().__init__()
        self.mods.update(modules())
        self.mods["pyblst"] = PYBLST
        p = S._fake_pycardano()
        self.PD = type("PlutusData", (S.PlutusData,), {"to_cbor": lambda self: Token(S.to_data(self))})
        p.PlutusData = self.PD
        p.RawCBOR = RawCBOR
        p.RawPlutusData = RawPlutusData
        p.Datum = S.typing.Union[self.PD, dict, int, bytes, list, RawCBOR]
        self.mods["pycardano"] = p
