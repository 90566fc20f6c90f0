"""World for /repo's off-chain conversions of data written as JSON or CBOR:
the functions of opshin/__main__.py, opshin/util.py and opshin/builder.py run
unchanged on symbolic text.  Text is symbolic inside a fixed frame: a JSON
document whose numbers and hexadecimal strings are symbolic, or the CBOR of a
symbolic data value.  The decoders themselves (json, cbor2, pycardano) are
stand-ins that return what the text spells."""
import ast
import dataclasses
import importlib
import inspect
import os
import types
import typing
import uplc.ast
from .values import *
from .engine import Cut
from . import pysym as S
from . import fakeuplc as FU
from .env import REPO
from .fakeuplc import Token, Raw


class DeserializeException(Exception):
    pass


class Text:
    """text whose first and last characters are known not to be spaces"""

    def startswith(self, p, *a):
        if a:
            raise Cut("startswith with bounds")
        if isinstance(p, tuple):
            return any(self.startswith(q) for q in p)
        if p == "":
            return True
        if len(p) == 1 or p[0] not in self.heads:
            return self._head(p[0])
        raise Cut("prefix of text")

    def endswith(self, p, *a):
        if not a and len(p) == 1 and p in "{}":
            return p == "}" and "{" in self.heads
        raise Cut("suffix of text")

    def __getitem__(self, i):
        if i == 0 or isinstance(i, slice) and i.start in (None, 0) and i.stop == 1 and i.step in (None, 1):
            return Head(self)
        raise Cut("part of text")

    def __contains__(self, c):
        if len(c) == 1 and c in "{}:\"":
            return "{" in self.heads
        raise Cut("membership in text")

    def __bool__(self):
        return True

    def __len__(self):
        raise Cut("length of text")

    def __iter__(self):
        raise Cut("characters of text")

    def __eq__(self, o):
        if o is self:
            return True
        if isinstance(o, str) and (not o or not self._head(o[0])):
            return False
        raise Cut("comparison of text")

    __hash__ = None

    def strip(self, *a):
        if a:
            raise Cut("strip of characters")
        return self

    lstrip = rstrip = strip

    def __str__(self):
        return "<text>"

    def __format__(self, s):
        return "<text>"

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(str, n):
            raise AttributeError(n)
        raise Cut("str." + n)


class Head:
    """the first character of a text"""

    def __init__(self, t):
        self.t = t

    def __eq__(self, o):
        return isinstance(o, str) and len(o) == 1 and self.t._head(o)

    __hash__ = None


class JText(Text):
    """JSON text of a document (already parsed form in .doc)"""

    heads = "{"

    def __init__(self, doc):
        self.doc = doc

    def _head(self, c):
        return c == "{"


class Hex(Text):
    """hexadecimal text of bytes given as a Token"""

    heads = "0123456789abcdef"

    def __init__(self, tok):
        self.tok = tok

    def _head(self, c):
        if c not in self.heads:
            return False
        raise Cut("first digit")


S.LIKE += [(Text, str), (Head, str)]


class Wire(Token):
    """CBOR bytes of a data value"""

    def __bool__(self):
        return True

    def __getattr__(self, n):
        if n.startswith("__") or not hasattr(bytes, n):
            raise AttributeError(n)
        raise Cut("bytes." + n)

    def __getitem__(self, i):
        raise Cut("part of CBOR")

    def __len__(self):
        raise Cut("length of CBOR")

    def __iter__(self):
        raise Cut("CBOR bytes")

    def hex(self):
        return Hex(self)

    def __eq__(self, o):
        if isinstance(o, Token):
            if self.d is None or o.d is None:
                return self.d is o.d
            return S.mkb(d_eq(self.d, o.d))
        return NotImplemented

    __hash__ = None


S.LIKE.append((Wire, bytes))


class CBORTag:
    def __init__(self, tag, value):
        self.tag = tag
        self.value = value

    def to_d(self):
        return DC(S_constr(self.tag), tuple(to_d(x) for x in self.value))


class DTag(CBORTag):
    """tag decoded from a data value: the constructor number is symbolic"""

    def __init__(self, d):
        self.d = d

    @property
    def tag(self):
        t = self.d.tag
        if truth(b_and([i_le(0, t), i_lt(t, 7)])):
            return S.mk(i_add(121, t))
        if truth(b_and([i_le(7, t), i_lt(t, 128)])):
            return S.mk(i_add(1280 - 7, t))
        return 102

    @property
    def value(self):
        fs = [of_d(x) for x in self.d.fields]
        t = self.d.tag
        if truth(b_and([i_le(0, t), i_lt(t, 128)])):
            return fs
        return [S.mk(t), fs]

    def to_d(self):
        return self.d


def S_constr(tag):
    if isinstance(tag, int):
        if 121 <= tag < 128:
            return tag - 121
        if 1280 <= tag <= 1400:
            return tag - 1280 + 7
    raise Cut(f"cbor tag {tag}")


def of_d(d):
    """what cbor2.loads returns for the CBOR of a data value"""
    d = dforce(d)
    if type(d) is DI:
        return S.mk(d.i)
    if type(d) is DB:
        return S.mkbytes(d.e)
    if type(d) is DL:
        return [of_d(x) for x in d.items]
    if type(d) is DM:
        r = S.SDict()
        r.p = [(of_d(k), of_d(v)) for k, v in d.pairs]
        return r
    if type(d) is DC:
        return DTag(d)
    raise Cut("cbor")


def to_d(x):
    if isinstance(x, CBORTag):
        return x.to_d()
    if isinstance(x, FU.PlutusData):
        return x.d
    if isinstance(x, (list, tuple)):
        return DL(tuple(to_d(y) for y in x))
    if isinstance(x, (dict, S.SDict)):
        return DM(tuple((to_d(k), to_d(v)) for k, v in x.items()))
    return S.to_data(x)


def doc_of(d):
    """JSON document of a data value: numbers and hex text stay symbolic"""
    d = dforce(d)
    if type(d) is DI:
        return {"int": S.mk(d.i)}
    if type(d) is DB:
        t = S.mkstr(S.hex_of(d.e))
        if isinstance(t, S.SStr):
            t.src = d.e
        return {"bytes": t}
    if type(d) is DL:
        return {"list": [doc_of(x) for x in d.items]}
    if type(d) is DM:
        return {"map": [{"k": doc_of(k), "v": doc_of(v)} for k, v in d.pairs]}
    if type(d) is DC:
        return {"constructor": S.mk(d.tag), "fields": [doc_of(x) for x in d.fields]}
    raise Cut("json")


def decode(t, d, top=True):
    """pycardano's decoding of data as a value of a declared type (strict)"""
    d = dforce(d)
    if t is bool or t is str:
        raise DeserializeException(t)
    if t is int:
        if type(d) is not DI:
            raise DeserializeException(t)
        return S.mk(d.i)
    if t is bytes:
        if type(d) is not DB:
            raise DeserializeException(t)
        return S.mkbytes(d.e)
    if t == S.Datum or isinstance(t, type) and t is PD:
        return S.RawData(d)
    o = typing.get_origin(t)
    if o is list:
        if type(d) is not DL:
            raise DeserializeException(t)
        return [decode(typing.get_args(t)[0], x, False) for x in d.items]
    if o is dict:
        if type(d) is not DM:
            raise DeserializeException(t)
        kt, vt = typing.get_args(t)
        r = S.SDict()
        r.p = [(decode(kt, k, False), decode(vt, v, False)) for k, v in d.pairs]
        return r
    if o is typing.Union:
        for u in typing.get_args(t):
            try:
                return decode(u, d, False)
            except DeserializeException:
                pass
        raise DeserializeException(t)
    if isinstance(t, type) and issubclass(t, S.PlutusData):
        if type(d) is not DC or not truth(i_eq(d.tag, t.CONSTR_ID)):
            raise DeserializeException(t)
        fs = dataclasses.fields(t)
        if len(d.fields) < len(fs):
            raise TypeError("missing fields")  # surplus fields are ignored
        hints = typing.get_type_hints(t)
        return t(*[decode(hints[f.name], x, False) for f, x in zip(fs, d.fields)])
    raise Cut(f"decode {t}")


def d_of_doc(j):
    """data a (well-formed) JSON document spells"""
    if "constructor" in j:
        return DC(S.raw(j["constructor"]), tuple(d_of_doc(x) for x in j["fields"]))
    if "int" in j:
        return DI(S.raw(j["int"]))
    if "bytes" in j:
        return DB(S._elems(S.SBytes, S.s_fromhex(j["bytes"])))
    if "list" in j:
        return DL(tuple(d_of_doc(x) for x in j["list"]))
    if "map" in j:
        return DM(tuple((d_of_doc(p["k"]), d_of_doc(p["v"])) for p in j["map"]))
    raise DeserializeException("no data")


PD = S.PlutusData


@classmethod
def _from_dict(cls, x):
    """pycardano's reader of JSON: ignores the declared types of most fields"""
    if "constructor" in x:
        if not truth(i_eq(S.raw(x["constructor"]), cls.CONSTR_ID)):
            raise DeserializeException(cls)
        hints = typing.get_type_hints(cls)
        fs = []
        for v, f in zip(x["fields"], dataclasses.fields(cls)):
            t = hints[f.name]
            if isinstance(t, type) and issubclass(t, S.PlutusData):
                fs.append(t.from_dict(v))
            elif t == S.Datum:
                fs.append(S.RawData(d_of_doc(v)))
            elif typing.get_origin(t) is typing.Union:
                fs.append(decode(t, d_of_doc(v)))
            else:
                fs.append(cls.from_dict(v))
        return cls(*fs)
    if "list" in x:
        return [cls.from_dict(v) for v in x["list"]]
    if "map" in x:
        r = S.SDict()
        r.p = [(cls.from_dict(p["k"]), cls.from_dict(p["v"])) for p in x["map"]]
        return r
    if "int" in x:
        return x["int"]
    if "bytes" in x:
        return S.mkbytes(S._elems(S.SBytes, S.s_fromhex(x["bytes"])))
    raise DeserializeException("no data")


@classmethod
def _from_cbor(cls, t):
    if isinstance(t, Hex):
        t = t.tok
    return decode(cls, t.d)


S.PlutusData.to_cbor = lambda x, *a: Wire(to_d(x))
S.PlutusData.from_dict = _from_dict
S.PlutusData.from_cbor = _from_cbor


class Rec:
    """UPLC term / program under construction"""

    fields = ()

    def __init__(self, *a, **k):
        self.__dict__.update(zip(self.fields, a, strict=not k), **k)

    @property
    def a(self):
        return tuple(self.__dict__[f] for f in self.fields)


def _cutting(why):
    def f(*a, **k):
        raise Cut(why)

    return f


class ParamWorld(S.World):
    def __init__(self):
        super().__init__()
        ms = FU.modules()
        a = ms["uplc.ast"]
        a.data_from_cbor = lambda t: Raw(t.d)
        a.plutus_cbor_dumps = lambda d: Wire(d.d)
        a.Apply = type("Apply", (Rec,), {"fields": ("f", "x")})
        a.Program = type("Program", (Rec,), {"fields": ("version", "term")})
        for n in ("PlutusData", "PlutusInteger", "PlutusByteString", "PlutusList", "PlutusMap", "PlutusConstr", "Constant"):
            setattr(ms["uplc"], n, getattr(a, n))
        self.uplc_ast = ms["uplc"].ast = a
        for n in ("flatten", "unflatten", "eval"):
            if not hasattr(ms["uplc"], n):
                setattr(ms["uplc"], n, _cutting(f"uplc.{n}"))
        self.mods.update(ms)
        c = types.ModuleType("cbor2")
        c.loads = lambda t: of_d(t.d) if t.d is not None else None
        c.dumps = lambda x, **k: Wire(None) if x is None else Wire(to_d(x))
        c.CBORTag = CBORTag
        c.CBORDecodeError = type("CBORDecodeError", (Exception,), {})
        self.mods["cbor2"] = c
        j = types.ModuleType("json")
        j.loads = self.json_loads
        j.dumps = lambda *a, **k: "<json>"
        j.JSONDecodeError = __import__("json").JSONDecodeError
        self.mods["json"] = j
        p = S._fake_pycardano()
        p.PlutusData = S.PlutusData
        p.DeserializeException = DeserializeException
        p.RawCBOR = lambda t: S.RawData(t.d)
        p.RawPlutusData = type("RawPlutusData", (), {})
        p.Datum = S.Datum
        for n in ("IndefiniteList", "PlutusV3Script", "PlutusV2Script"):
            if not hasattr(p, n):
                setattr(p, n, type(n, (), {}))
        self.mods["pycardano"] = p
        fl = types.ModuleType("frozenlist")
        fl.FrozenList = list
        fl.frozenlist = lambda x=(): list(x)
        self.mods["frozenlist"] = fl
        fd = types.ModuleType("frozendict")
        fd.frozendict = lambda x=(): x if isinstance(x, (dict, S.SDict)) else S.SDict(x)
        self.mods["frozendict"] = fd
        self.helpers = {}
        # the JSON reader of the uplc package, from its installed source
        m = types.ModuleType("uplc_json")
        m.__dict__.update(a.__dict__)
        m.__dict__.update(frozenlist=fl.frozenlist, frozendict=fd)
        self.exec_in(inspect.getsource(uplc.ast.data_from_json_dict), uplc.ast.__file__, m)
        a.data_from_json_dict = m.data_from_json_dict

    def json_loads(self, t):
        if isinstance(t, JText):
            return t.doc
        raise Cut("json text")

    def load(self, name):
        if name in self.mods or not name.startswith("opshin"):
            return super().load(name)
        if name == "opshin":
            return OpshinPackage(self)
        rel = name.replace(".", "/") + ".py"
        part = name.split(".")[1]
        if part in NATIVE or not os.path.exists(os.path.join(REPO, rel)):
            return importlib.import_module(name)
        if part in ("std", "ledger", "prelude"):
            return super().load(name)
        return self.functions(rel)

    def functions(self, rel):
        """the statements of the module, each executed if it can be; what they define is unusable otherwise"""
        if rel in self.helpers:
            return self.helpers[rel]
        path = os.path.join(REPO, rel)
        m = types.ModuleType(rel.replace("/", ".")[:-3])
        m.__file__ = path
        m.__package__ = m.__name__.rpartition(".")[0]
        self.helpers[rel] = m
        self.loaded_files.append(rel)
        with open(path) as fp:
            tree = ast.parse(fp.read())
        for n in tree.body:
            if isinstance(n, ast.If) and "__name__" in ast.unparse(n.test):
                continue
            try:
                self.exec_in(ast.unparse(n), path, m)
            except (Cut, Exception) as e:
                for x in defined(n):
                    m.__dict__.setdefault(x, _cutting(f"{x} of {rel}: {e}"))
        return m


# the compiler proper: imported, not executed symbolically
NATIVE = ("compiler", "compiler_config", "fun_impls", "type_impls", "type_inference", "typed_ast", "typed_util", "optimize", "rewrite")


class OpshinPackage(types.ModuleType):
    """`from . import x`: modules of /repo/opshin, otherwise the package's own names"""

    def __init__(self, w):
        super().__init__("opshin")
        self.__dict__["_w"] = w

    def __getattr__(self, n):
        if n.startswith("__") and n not in ("__version__", "__copyright__", "__author__", "__license__", "__url__"):
            raise AttributeError(n)
        if os.path.exists(os.path.join(REPO, "opshin", n + ".py")):
            return self._w.load("opshin." + n)
        return getattr(importlib.import_module("opshin"), n)


def defined(n):
    if hasattr(n, "name"):
        return [n.name]
    if isinstance(n, (ast.Import, ast.ImportFrom)):
        return [a.asname or a.name.split(".")[0] for a in n.names]
    return [y.id for y in ast.walk(n) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)]


_fh = S.s_fromhex


def _s_fromhex(s):
    if isinstance(s, Hex):
        return s.tok
    if isinstance(s, S.SStr) and getattr(s, "src", None) is not None:
        # the hexadecimal digits of known bytes: decoding gives these bytes back
        return S.mkbytes(s.src)
    if isinstance(s, JText):
        raise ValueError("not hexadecimal")
    return _fh(s)


S.s_fromhex = _s_fromhex
