"""C15: off-chain stand-ins of ledger primitives."""
import z3
from .lib import TYPING
from symx.runner import Task
from symx import dspec, pyrun, tv, fakeuplc
from symx import inputs as I
from symx import machine as M
from symx import pysym as S
from symx.machine import F
from symx.tv import SpecErr
from symx.values import *
from symx.engine import Cut

PROPERTY = "C15"
LEVEL = "translation_validation"
EXPLANATION = (
    "For every primitive of opshin.std.builtins the property fixes the ledger builtin it names. Off chain, /repo's opshin/bridge.py and "
    "opshin/std/builtins.py are executed symbolically (the wrapper classes of the uplc package replaced by stand-ins of the same "
    "interface) on symbolic Python arguments; on chain, a program calling the primitive is compiled by the current compiler and its "
    "UPLC executed symbolically. z3 decides, for all arguments within the bounds, that either side returns what the named builtin "
    "defines, and fails exactly where it is undefined. Path witnesses are re-run with the really imported library and evaluator."
)
ASSUMPTIONS = [
    "hash functions and signature checks are uninterpreted functions of exactly the bytes they receive",
    "the primitives themselves (uplc.ast.BuiltInFunEvalMap) are the specification in symx/machine.py; every path witness runs the real ones",
    "libsecp256k1 is not installed in the sandbox: concrete replays of the two secp256k1 checks run with a stand-in verification function "
    "that tells the schemes and the order of their arguments apart; ed25519 replays run the real verification",
]

IMP = "from opshin.std.builtins import *\n"
INT, BYT, STR, BOO = "int", "bytes", "str", "bool"
ANY, LAN, LIN = "Anything", "List[Anything]", "List[int]"

# name -> (builtin, argument types, result type), from the ledger's naming
PRIMS = {
    "add_integer": (F.AddInteger, (INT, INT), INT),
    "subtract_integer": (F.SubtractInteger, (INT, INT), INT),
    "multiply_integer": (F.MultiplyInteger, (INT, INT), INT),
    "divide_integer": (F.DivideInteger, (INT, INT), INT),
    "quotient_integer": (F.QuotientInteger, (INT, INT), INT),
    "remainder_integer": (F.RemainderInteger, (INT, INT), INT),
    "mod_integer": (F.ModInteger, (INT, INT), INT),
    "equals_integer": (F.EqualsInteger, (INT, INT), BOO),
    "less_than_integer": (F.LessThanInteger, (INT, INT), BOO),
    "less_than_equals_integer": (F.LessThanEqualsInteger, (INT, INT), BOO),
    "append_byte_string": (F.AppendByteString, (BYT, BYT), BYT),
    "cons_byte_string": (F.ConsByteString, (INT, BYT), BYT),
    "slice_byte_string": (F.SliceByteString, (INT, INT, BYT), BYT),
    "length_of_byte_string": (F.LengthOfByteString, (BYT,), INT),
    "index_byte_string": (F.IndexByteString, (BYT, INT), INT),
    "equals_byte_string": (F.EqualsByteString, (BYT, BYT), BOO),
    "less_than_byte_string": (F.LessThanByteString, (BYT, BYT), BOO),
    "less_than_equals_byte_string": (F.LessThanEqualsByteString, (BYT, BYT), BOO),
    "sha2_256": (F.Sha2_256, (BYT,), BYT),
    "sha3_256": (F.Sha3_256, (BYT,), BYT),
    "blake2b_256": (F.Blake2b_256, (BYT,), BYT),
    "verify_ed25519_signature": (F.VerifyEd25519Signature, (BYT, BYT, BYT), BOO),
    "verify_ecdsa_secp256k1_signature": (F.VerifyEcdsaSecp256k1Signature, (BYT, BYT, BYT), BOO),
    "verify_schnorr_secp256k1_signature": (F.VerifySchnorrSecp256k1Signature, (BYT, BYT, BYT), BOO),
    "append_string": (F.AppendString, (STR, STR), STR),
    "equals_string": (F.EqualsString, (STR, STR), BOO),
    "encode_utf8": (F.EncodeUtf8, (STR,), BYT),
    "decode_utf8": (F.DecodeUtf8, (BYT,), STR),
    "constr_data": (F.ConstrData, (INT, LAN), ANY),
    "equals_data": (F.EqualsData, (ANY, ANY), BOO),
    "serialise_data": (F.SerialiseData, (ANY,), BYT),
    "keccak_256": (F.Keccak_256, (BYT,), BYT),
    "blake2b_224": (F.Blake2b_224, (BYT,), BYT),
    "integer_to_byte_string": (F.IntegerToByteString, (BOO, INT, INT), BYT),
    "byte_string_to_integer": (F.ByteStringToInteger, (BOO, BYT), INT),
    "and_byte_string": (F.AndByteString, (BOO, BYT, BYT), BYT),
    "or_byte_string": (F.OrByteString, (BOO, BYT, BYT), BYT),
    "xor_byte_string": (F.XorByteString, (BOO, BYT, BYT), BYT),
    "complement_byte_string": (F.ComplementByteString, (BYT,), BYT),
    "read_bit": (F.ReadBit, (BYT, INT), BOO),
    "write_bits": (F.WriteBits, (BYT, LIN, BOO), BYT),
    "replicate_byte": (F.ReplicateByte, (INT, INT), BYT),
    "shift_byte_string": (F.ShiftByteString, (BYT, INT), BYT),
    "rotate_byte_string": (F.RotateByteString, (BYT, INT), BYT),
    "count_set_bits": (F.CountSetBits, (BYT,), INT),
    "find_first_set_bit": (F.FindFirstSetBit, (BYT,), INT),
    "ripemd_160": (F.Ripemd_160, (BYT,), BYT),
}
# primitives whose integers only select within a small range
RANGES = {"replicate_byte": [(-2, 12), None], "integer_to_byte_string": [None, (-1, 6), None]}
SIGS = ("verify_ed25519_signature", "verify_ecdsa_secp256k1_signature", "verify_schnorr_secp256k1_signature")


def uval(tp, d):
    d = dforce(d)
    if tp in (INT, BOO):
        if type(d) is not DI:
            raise UError("type")
        return d.i if tp == INT else i_eq(d.i, 1)
    if tp in (BYT, STR):
        if type(d) is not DB:
            raise UError("type")
        return B(d.e) if tp == BYT else T(utf8_decode(d.e, UError("utf8")))
    if tp == ANY:
        return d
    if type(d) is not DL:
        raise UError("type")
    if tp == LAN:
        return L(d.items, "data")
    return L(tuple(uval(INT, x) for x in d.items), "integer")


def dval(v):
    if is_bool(v):
        return DI(ite(v, 1, 0))
    if is_int(v):
        return DI(v)
    if type(v) is B:
        return DB(v.e)
    if type(v) is T:
        return DB(utf8_encode(v.e))
    if isinstance(v, D):
        return v
    raise Cut("result form")


def spec_of(name):
    f, ts, _ = PRIMS[name]

    def spec(*ds):
        try:
            return dval(M.BI[f](*[uval(t, d) for t, d in zip(ts, ds)]))
        except UError as e:
            raise SpecErr(str(e))

    return spec


# ------------------------------------------------------------------ off chain
_W = []


def world():
    if not _W:
        w = fakeuplc.BridgeWorld()
        _W.append((w, w.load("opshin.std.builtins")))
    return _W[0]


class IRaw(I.In):
    """an Anything argument in the form the bridge itself produces"""

    def __init__(self, d):
        self.data = d
        self.py = fakeuplc.RawCBOR(fakeuplc.Token(d))

    def real(self, m, rt):
        import pycardano
        import uplc.ast as ua

        return pycardano.RawCBOR(ua.plutus_cbor_dumps(I.conc_data(self.data, m)))

    def udata(self, m):
        return I.conc_data(self.data, m)


def classes():
    """data classes in the symbolic world and in the real one"""
    src = (
        "from dataclasses import dataclass\nfrom pycardano import PlutusData\nfrom typing import List, Dict\n"
        "@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 0\n    a: int\n    b: bytes\n"
        "@dataclass()\nclass N(PlutusData):\n    CONSTR_ID = 8\n    x: A\n    y: List[int]\n"
        "@dataclass()\nclass E(PlutusData):\n    CONSTR_ID = 3\n"
    )
    w, _ = world()
    sym = w.module(src, "_sx_c15")
    real = tv.real_module(src)
    return sym, real


class IReal(I.In):
    """wraps an input together with the real type its value is built at"""

    def __init__(self, i, rt):
        self.i, self.rt = i, rt
        self.py, self.data = i.py, i.data

    def real(self, m, rt):
        return self.i.real(m, self.rt)

    def udata(self, m):
        return self.i.udata(m)


def anyform(name, form=None):
    c = ctx()
    sym, real = classes()
    import typing

    B1 = I.Bounds(list_len=2, dict_len=1, bytes_len=1, int_range=(-300, 300))
    forms = [
        (int, int), (bytes, bytes), (typing.List[int], typing.List[int]), (typing.Dict[int, bytes], typing.Dict[int, bytes]),
        (sym.A, real.A), (sym.N, real.N), (sym.E, real.E), (typing.List[sym.A], typing.List[real.A]),
    ]
    k = c.choose(len(forms) + 1) if form is None else form
    i = IRaw(DX(name, 1, 1, 1)) if k == len(forms) else IReal(I.build(forms[k][0], name, B1), forms[k][1])
    i.form = k
    return i


class IAnyList(I.In):
    def __init__(self, xs):
        self.x = xs
        self.py = [i.py for i in xs]
        self.data = DL([i.data for i in xs])

    def real(self, m, rt):
        return [i.real(m, None) for i in self.x]

    def udata(self, m):
        import uplc.ast as ua

        return ua.PlutusList([i.udata(m) for i in self.x])


def inp(tp, name, prim, pos, tier, big=False):
    import typing

    n = 3 if tier == "thorough" else 2
    rg = (RANGES.get(prim) or [None] * 9)[pos]
    b = I.Bounds(bytes_len=n + (2 if big else 0), str_len=1 if prim == "append_string" and tier == "quick" else 2, list_len=2, int_range=rg)
    if tp == ANY:
        return anyform(name)
    if tp == LAN:
        return IAnyList([anyform(f"{name}{i}") for i in range(ctx().choose(2 if tier == "quick" else 3))])
    if tp == LIN:
        return IReal(I.build(typing.List[int], name, b), typing.List[int])
    return I.build({INT: int, BYT: bytes, STR: str, BOO: bool}[tp], name, b)


def args_of(prim, tier):
    ts = PRIMS[prim][1]
    if prim == "equals_data":
        # both sides in the same form, or one of them already raw
        a = anyform("a")
        return [a, anyform("b", form=a.form) if ctx().choose(2) else IRaw(DX("b", 1, 1, 1))]
    return [inp(t, f"a{i}", prim, i, tier) for i, t in enumerate(ts)]


VALID = {
    "verify_ed25519_signature": (
        "03a107bff3ce10be1d70dd18e74bc09967e4d6309ba50d5f1ddc8664125531b8", "6f707368696e",
        "ce10b2127d85bc422d5e7c69628eed6fc7c6ad43e4f8472d33876a6c737cd5c9df7edd9fc7904f5c38a7490565201be1839b6784bcdde91a1351237dc041be06",
    ),
    "verify_ecdsa_secp256k1_signature": ("02" * 33, "03" * 32, "04" * 64),
    "verify_schnorr_secp256k1_signature": ("02" * 32, "03" * 6, "04" * 64),
}


def sig_inputs(name):
    """fixed-length keys, messages and signatures with symbolic content, or one
    valid concrete triple"""
    k = ctx().choose(2)
    if k:
        return [tuple(bytes.fromhex(x)) for x in VALID[name]]
    kl, ml, sl = {"verify_ed25519_signature": (32, 2, 64), "verify_ecdsa_secp256k1_signature": (33, 32, 64), "verify_schnorr_secp256k1_signature": (32, 2, 64)}[name]
    return [fresh_bytes("pk", kl), fresh_bytes("m", ml), fresh_bytes("s", sl)]


def off(prim):
    f, ts, _ = PRIMS[prim]
    name = f"off-{prim}"

    def fn(deadline, tier):
        import importlib

        w, mod = world()
        stub = getattr(mod, prim)

        def make():
            if prim in SIGS:
                return [seq_in(e) for e in sig_inputs(prim)]
            return args_of(prim, tier)

        def call(*a):
            r = stub(*a)
            return r

        real = getattr(importlib.import_module("opshin.std.builtins"), prim)
        return pyrun.run_py(
            name, make, call, spec_of(prim), real, src=f"opshin.std.builtins.{prim}", deadline=deadline, max_paths=4000,
            files=w.loaded_files,
        )

    return Task(name, fn, desc=f"{prim} called from Python", bounds={"bytes": "<=2 (3 thorough)", "list": "<=2", "text": "<=2"})


def seq_in(e):
    class X(I.In):
        py = S.SBytes(e)
        data = DB(e)

        def real(self, m, rt):
            return bytes(I._mi(m, x) for x in e)

        def udata(self, m):
            import uplc.ast as ua

            return ua.PlutusByteString(self.real(m, None))

    return X()


# ------------------------------------------------------------------- on chain
def on(prim, configs=("O1", "O2")):
    f, ts, rt = PRIMS[prim]
    ps = ", ".join(f"a{i}: {t}" for i, t in enumerate(ts))
    src = TYPING + IMP + f"def validator({ps}) -> {rt}:\n    return {prim}({', '.join(f'a{i}' for i in range(len(ts)))})\n"
    name = f"on-{prim}"

    def fn(deadline, tier):
        def make():
            r = []
            if prim in SIGS:
                return [DB(e) for e in sig_inputs(prim)]
            for i, t in enumerate(ts):
                if t == ANY:
                    r.append(DX(f"a{i}", 1 if tier == "quick" else 2, 1 if tier == "quick" else 2, 2))
                elif t == LAN:
                    r.append(DL([DX(f"a{i}{j}", 1, 1, 1) for j in range(ctx().choose(3))]))
                else:
                    r.append(inp(t, f"a{i}", prim, i, tier).data)
            return r

        return dspec.run_spec(name, src, configs, make, spec_of(prim), max_paths=4000, deadline=deadline)

    return Task(name, fn, desc=src, bounds={"bytes": "<=2 (3 thorough)", "data depth": "1 (2 thorough)"})


def prog(name, src, make, spec, configs=("O1", "O2"), on_chain=True):
    """the same program on chain and off chain against one specification"""
    src = TYPING + IMP + src

    def onchain(deadline, tier):
        return dspec.run_spec(name + "-on", src, configs, lambda: [i.data for i in make()], spec, max_paths=2000, deadline=deadline)

    def offchain(deadline, tier):
        w, mod = world()
        sym = w.module(src, "_sx_c15p_" + name.replace("-", "_"))
        real = tv.real_module(src)
        return pyrun.run_py(name + "-off", make, sym.validator, spec, real.validator, src=src, deadline=deadline, files=w.loaded_files)

    ts = [Task(name + "-on", onchain, desc=src, bounds={})] if on_chain else []
    ts.append(Task(name + "-off", offchain, desc=src, bounds={}))
    return ts


def ints(*names):
    return lambda: [I.build(int, n, I.Bounds()) for n in names]


def byts(*names, n=2):
    return lambda: [I.build(bytes, x, I.Bounds(bytes_len=n)) for x in names]


def compositions():
    out = []
    i = lambda d: d.i
    out += prog(
        "eq-constr", "def validator(a: int, b: int) -> bool:\n    return equals_data(constr_data(a, []), constr_data(b, []))\n",
        ints("a", "b"), lambda a, b: dval(i_eq(a.i, b.i)),
    )
    out += prog(
        "ser-constr", "def validator(a: int) -> bytes:\n    return serialise_data(constr_data(a, []))\n",
        lambda: [I.build(int, "a", I.Bounds(int_range=(0, 300)))], lambda a: DB(M.BI[F.SerialiseData](DC(a.i, ())).e),
    )
    out += prog(
        "write-none", "def validator(a: bytes, v: bool) -> bytes:\n    return write_bits(a, [], v)\n",
        lambda: [I.build(bytes, "a", I.Bounds()), I.build(bool, "v", I.Bounds())], lambda a, v: a, on_chain=False,
    )
    cls = (
        "from opshin.prelude import *\n@dataclass()\nclass A(PlutusData):\n    CONSTR_ID = 0\n    a: int\n    b: bytes\n"
        "@dataclass()\nclass B(PlutusData):\n    CONSTR_ID = 1\n    x: A\n    y: List[int]\n"
    )
    out += prog(
        "eq-record", cls + "def validator(p: int, q: bytes, r: int, s: bytes) -> bool:\n    return equals_data(A(p, q), A(r, s))\n",
        lambda: [I.build(t, n, I.Bounds()) for t, n in ((int, "p"), (bytes, "q"), (int, "r"), (bytes, "s"))],
        lambda p, q, r, s: dval(b_and([i_eq(p.i, r.i), seq_eq(q.e, s.e)])),
    )
    out += prog(
        "ser-record", cls + "def validator(p: int, q: bytes, r: int) -> bytes:\n    return serialise_data(B(A(p, q), [r, p]))\n",
        lambda: [I.build(t, n, I.Bounds(int_range=(-300, 300))) for t, n in ((int, "p"), (bytes, "q"), (int, "r"))],
        lambda p, q, r: DB(M.BI[F.SerialiseData](DC(1, (DC(0, (p, q)), DL((r, p))))).e),
    )
    out += prog(
        "hash-chain", "def validator(a: bytes, b: bytes) -> bytes:\n    return blake2b_256(append_byte_string(sha2_256(a), blake2b_224(b)))\n",
        byts("a", "b"),
        lambda a, b: DB(M.BI[F.Blake2b_256](B(M.BI[F.Sha2_256](B(a.e)).e + M.BI[F.Blake2b_224](B(b.e)).e)).e),
    )
    out += prog(
        "as-value", "def validator(a: int, b: int, c: bool) -> int:\n    f = subtract_integer if c else divide_integer\n    return f(a, b)\n",
        lambda: [I.build(int, "a", I.Bounds()), I.build(int, "b", I.Bounds()), I.build(bool, "c", I.Bounds())],
        lambda a, b, c: spec_of("subtract_integer")(a, b) if truth(i_eq(c.i, 1)) else spec_of("divide_integer")(a, b),
    )
    out += prog(
        "div-rem", "def validator(a: int, b: int) -> int:\n    return quotient_integer(a, b) * b + remainder_integer(a, b)\n",
        lambda: [I.build(int, "a", I.Bounds(int_range=(-20, 20))), I.build(int, "b", I.Bounds(int_range=(-4, 4)))],
        lambda a, b: _err(truth(i_eq(b.i, 0))) or a,
    )
    return out


def _err(c):
    if c:
        raise SpecErr("division by zero")


def hashlib_tasks():
    out = []
    for n, f in (("sha256", F.Sha2_256), ("sha3_256", F.Sha3_256), ("blake2b", F.Blake2b_256)):
        src = f"from hashlib import {n}\ndef validator(a: bytes, b: bytes) -> bytes:\n    return {n}(a + b).digest()\n"

        def fn(deadline, tier, n=n, f=f, src=src):
            k = 2 if tier == "quick" else 4
            return dspec.run_spec(
                f"hashlib-{n}", src, ("O0", "O1", "O2"), lambda: [i.data for i in byts("a", "b", n=k)()],
                lambda a, b: DB(M.BI[f](B(a.e + b.e)).e), deadline=deadline,
            )

        out.append(Task(f"hashlib-{n}", fn, desc=src, bounds={"bytes": "<=2 (4 thorough)"}))
        src2 = f"from opshin.std.hashlib import *\ndef validator(a: bytes) -> bytes:\n    return {n}({n}(a).digest()).digest()\n"

        def fn2(deadline, tier, n=n, f=f, src=src2):
            k = 2 if tier == "quick" else 4
            h = M.BI[f]
            return dspec.run_spec(
                f"std-hashlib-{n}", src, ("O1", "O2"), lambda: [i.data for i in byts("a", n=k)()], lambda a: DB(h(h(B(a.e))).e), deadline=deadline
            )

        out.append(Task(f"std-hashlib-{n}", fn2, desc=src2, bounds={"bytes": "<=2 (4 thorough)"}))
    return out


def tasks(tier, rng):
    out = []
    for p in PRIMS:
        out.append(off(p))
        out.append(on(p, ("O1", "O2") if tier == "quick" else ("O0", "O1", "O2", "O3")))
    return out + compositions() + hashlib_tasks()
