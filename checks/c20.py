"""C20: stored artefacts are the compiled program."""
from .lib import TYPING
from .c08 import HEAD
from .c16 import PROGS, CLI, CTXB
from symx import fixed

PROPERTY = "C20"
LEVEL = "translation_validation"
TECHNIQUE = "symbolic execution of the UPLC read back from each stored artefact against the compiled program, decided by z3"
EXPLANATION = (
    "/repo's builder and command line build and store each corpus program; the script is read back from every artefact (script object, "
    "script.cbor, script.plutus, blueprint.json, whole directory, stored-loaded-stored again, CBOR wrapped once more). The UPLC read back "
    "and the in-memory compiled program are executed symbolically and z3 decides that they return the same value, trace the same output "
    "or fail together for all arguments within the bounds. The identifying hash is recomputed independently (blake2b-224 of 03 and exactly "
    "the stored bytes) and compared with every place that states it, and the metadata a later step uses is compared after loading."
)
ASSUMPTIONS = ["hash, address and metadata comparisons are per built artefact (they depend on no input of the script)", "the flat decoder of the uplc package is part of the read-back path"]

DEEP = "-" * 40
CONST = {
    "ints": "def validator(x: int) -> int:\n    if x == 0:\n        return -(2**64)\n    if x == 1:\n        return 2**64\n    if x == 2:\n        return -1\n    if x == 3:\n        return 2**300 + 7\n    if x == 4:\n        return -(2**300)\n    return 63 * x + 64 - 65 * 128\n",
    "bytes": "def validator(x: int) -> bytes:\n    if x == 0:\n        return b''\n    if x == 1:\n        return b'\\x00\\xff' + b'ab' * 40\n    if x == 2:\n        return b'" + "0123456789abcdef" * 17 + "'\n    return b'z'\n",
    "text": "def validator(x: int) -> str:\n    if x == 0:\n        return ''\n    if x == 1:\n        return 'a\\u00e9\\u20ac\\U0001f600\\n\"\\\\'\n    return '" + "xy" * 150 + "'\n",
    "lists": "L = [1, -2, 3]\nM = [[b'a'], [b'', b'c']]\ndef validator(x: int, y: bytes) -> int:\n    if y in M[0]:\n        return L[x]\n    return len(M) + len(M[1][x])\n",
    "dicts": "D = {1: b'x', -5: b''}\nF = {b'k': [1, 2], b'': [-9]}\ndef validator(x: int, y: bytes) -> int:\n    if x in D.keys():\n        return len(D[x])\n    return len(F[y])\n",
    "classes": "V = W(A(1, b'q'), B(b'', 2, 3), [-7, 9])\nB0 = BIG(4)\ndef validator(x: int, y: bytes) -> int:\n    if V.a.y == y:\n        return B0.x\n    return V.l[0] + x\n",
    "bools": "T = True\nF = False\nN = None\ndef validator(x: bool, y: int) -> bool:\n    if y == 1:\n        return T and x\n    return F or not x\n",
    "trace": "def validator(x: int) -> None:\n    print('caf\\u00e9', x)\n    assert x > 3, 'too small'\n",
    "unitres": "def validator(x: Anything) -> None:\n    pass\n",
    "deep": "def validator(x: int) -> int:\n    return " + "(" * 9 + "x" + " + 1)" * 9 + "\n",
}
# parameter d.. is the datum, r.. the redeemer in the stored metadata
META = {
    "meta_int": "def validator(d: int, r: bytes, k: int) -> int:\n    return d + len(r) + k\n",
    "meta_cls": "def validator(p: int, d: W, r: Union[A, B, int], q: List[Dict[int, bytes]], s: Union[int, bytes, List[Anything]], k: int) -> int:\n    return p + d.a.x + k\n",
    "meta_any": "def validator(d: Anything, r: Union[B, N], p: Dict[bytes, List[A]], t: bool, u: str, k: int) -> int:\n    return k + (1 if t else 2)\n",
    "meta_none": "def validator(p: None, r: C, k: int) -> int:\n    return k + r.x\n",
    "meta_big": "def validator(d: BIG, r: D1, p: Anything, k: int) -> int:\n    return k + d.x\n",
}
PARTS = ("script", "cbor", "plutus", "blueprint", "dir", "again", "wrapped")


def tasks(tier, rng):
    th = tier == "thorough"
    b = dict(list_len=2, bytes_len=2 if th else 1, str_len=1, dict_len=1, any_depth=1)
    mp = 1500 if th else 100
    out = []
    levels = ("O0", "O1", "O2", "O3")
    progs = dict(CONST)
    progs.update(META)
    progs.update({k: v for k, (v, _) in PROGS.items()})
    for i, (n, src) in enumerate(progs.items()):
        parts = PARTS if n.startswith("meta") or th else PARTS[:1] + (PARTS[1 + i % 6], PARTS[1 + (i + 3) % 6])
        for j, part in enumerate(parts):
            for c in levels if th else (("O3",) if n in CONST and j % 2 else (levels[(i + j) % 4],)):
                out.append(fixed.fixed_task(f"{n}_{part}_{c}", TYPING + HEAD + src, 0, "art_" + part, c, b, mp))
    for i, (n, (src, k)) in enumerate(CLI.items()):
        for j, part in enumerate(PARTS):
            if th or part in ("script", "dir") or (i + j) % 3 == 0:
                out.append(fixed.fixed_task(f"{n}_cli_{part}", src, 0, "art_cli_" + part, levels[1 + j % 3], dict(b, per=CTXB), mp))
    return out
