"""CBOR bytes of ledger data with symbolic leaves, in the form both pycardano
and the evaluator write: definite lists and maps, indefinite non-empty
constructor fields, byte strings of up to 63 bytes, bignums outside 64 bits."""
from .values import *
from .engine import Cut


def be(n, k):
    """k big-endian bytes of a non-negative int below 256**k"""
    if type(n) is int:
        return tuple(n.to_bytes(k, "big"))
    return tuple(i_mod(i_floordiv(n, 256**j), 256) if j else i_mod(n, 256) for j in reversed(range(k)))


def head(major, n):
    """header with an argument below 2**64"""
    m = major << 5
    if truth(i_lt(n, 24)):
        return (i_add(m, n),)
    for code, k in ((24, 1), (25, 2), (26, 4)):
        if truth(i_lt(n, 256**k)):
            return (m + code,) + be(n, k)
    return (m + 27,) + be(n, 8)


def byts(e):
    if len(e) > 63:
        raise Cut("byte string above 63 bytes")
    return head(2, len(e)) + tuple(e)


def integer(i):
    neg = truth(i_lt(i, 0))
    n = i_sub(-1, i) if neg else i
    if truth(i_lt(n, 2**64 - 2)):
        return head(1 if neg else 0, n)
    if truth(i_lt(n, 2**64)):
        raise Cut("integers next to the 64 bit limit are written in two ways by the libraries")
    k = 9
    while not truth(i_lt(n, 256**k)):
        k += 1
        if k > 12:
            raise Cut("integer above 12 bytes")
    return ((0xC3 if neg else 0xC2),) + byts(be(n, k))


def encode(d):
    d = dforce(d)
    if type(d) is DI:
        return integer(d.i)
    if type(d) is DB:
        return byts(d.e)
    if type(d) is DL:
        r = head(4, len(d.items))
        for x in d.items:
            r += encode(x)
        return r
    if type(d) is DM:
        r = head(5, len(d.pairs))
        for k, v in d.pairs:
            r += encode(k) + encode(v)
        return r
    if type(d) is DC:
        t = d.tag
        fs = ()
        for x in d.fields:
            fs += encode(x)
        fs = (0x9F,) + fs + (0xFF,) if d.fields else (0x80,)
        if truth(b_and([i_le(0, t), i_lt(t, 7)])):
            return head(6, i_add(121, t)) + fs
        if truth(b_and([i_le(7, t), i_lt(t, 128)])):
            return head(6, i_add(1280 - 7, t)) + fs
        return head(6, 102) + (0x82,) + integer(t) + fs
    raise Cut("cbor")
