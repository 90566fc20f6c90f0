"""Symbolic Python: the program's own source is executed by CPython on proxy
values.  The source is instrumented only where CPython would otherwise lose a
symbolic value at a C boundary: calls are routed through `_call` (so builtins
such as len/int/str/range have symbolic counterparts), subscripts, dict
displays and f-strings through helpers.  Modules of /repo that the program
imports are loaded the same way from their current source."""
import ast
import builtins
import copy
import dataclasses
import functools
import hashlib as _hashlib
import os
import sys
import types
import typing
import z3
from .values import *
from .values import _zi
from .engine import ctx, Cut, PathAbort
from . import machine as M
from .env import REPO

LOOP_CAP = 64


# ------------------------------------------------------------------ proxies
def raw(x):
    """Python number -> solver-level integer"""
    if type(x) is bool:
        return int(x)
    if type(x) is int:
        return x
    if type(x) is SInt:
        return x.t
    if type(x) is SBool:
        return ite(x.t, 1, 0)
    return None


def mk(t):
    return t if type(t) is int else SInt(t)


def mkb(t):
    return t if type(t) is bool else SBool(t)


def _arith(op, swap=False):
    def f(self, o):
        b = raw(o)
        if b is None:
            return NotImplemented
        a = raw(self)
        if swap:
            a, b = b, a
        return mk(op(a, b))

    return f


def _divop(op, swap=False):
    def f(self, o):
        b = raw(o)
        if b is None:
            return NotImplemented
        a = raw(self)
        if swap:
            a, b = b, a
        if truth(i_eq(b, 0)):
            raise ZeroDivisionError()
        return mk(op(a, b))

    return f


def _cmp(op):
    def f(self, o):
        b = raw(o)
        if b is None:
            return NotImplemented
        return mkb(op(raw(self), b))

    return f


def _seq_mul(x, n):
    """sequence * symbolic count"""
    n = raw(n)
    if truth(i_le(n, 0)):
        k = 0
    else:
        k = concretize_int(n, "repetition count")
    if type(x) in (SBytes, SStr):
        return type(x)(x.e * k)
    return x * k


class SNum:
    def _mul(self, o):
        if isinstance(o, (list, tuple, str, bytes, SBytes, SStr)):
            return _seq_mul(o, self)
        b = raw(o)
        if b is None:
            return NotImplemented
        return mk(i_mul(raw(self), b))

    __mul__ = __rmul__ = _mul
    __add__ = _arith(i_add)
    __radd__ = _arith(i_add, True)
    __sub__ = _arith(i_sub)
    __rsub__ = _arith(i_sub, True)
    __floordiv__ = _divop(i_floordiv)
    __rfloordiv__ = _divop(i_floordiv, True)
    __mod__ = _divop(i_mod)

    def __rmod__(self, o):
        if isinstance(o, (str, bytes)):
            raise Cut("printf formatting")
        return _divop(i_mod, True)(self, o)

    __lt__ = _cmp(i_lt)
    __le__ = _cmp(i_le)
    __gt__ = _cmp(lambda a, b: i_lt(b, a))
    __ge__ = _cmp(lambda a, b: i_le(b, a))

    def __eq__(self, o):
        b = raw(o)
        if b is None:
            return NotImplemented
        return mkb(i_eq(raw(self), b))

    def __ne__(self, o):
        b = raw(o)
        if b is None:
            return NotImplemented
        return mkb(b_not(i_eq(raw(self), b)))

    def __neg__(self):
        return mk(i_neg(raw(self)))

    def __pos__(self):
        return mk(raw(self))

    def __abs__(self):
        return mk(i_abs(raw(self)))

    def __invert__(self):
        return mk(i_sub(-1, raw(self)))

    def __pow__(self, o, m=None):
        b = raw(o)
        if b is None or m is not None:
            return NotImplemented
        return s_pow(raw(self), b)

    def __rpow__(self, o):
        a = raw(o)
        if a is None:
            return NotImplemented
        return s_pow(a, raw(self))

    def __round__(self, n=None):
        return self

    def __index__(self):
        return concretize_int(raw(self), "integer used as index")

    def __int__(self):
        raise Cut("int() at a C boundary")

    def __hash__(self):
        raise Cut("hash of symbolic value")

    def __str__(self):
        raise Cut("str() at a C boundary")

    def __format__(self, s):
        raise Cut("format at a C boundary")


def s_pow(a, n):
    if truth(i_lt(n, 0)):
        # Python yields a float (or ZeroDivisionError): outside the subset
        raise NegPow()
    n = concretize_int(n, "exponent")
    if n > 64:
        raise Cut("exponent above 64")
    r = 1
    for _ in range(n):
        r = i_mul(r, a)
    return mk(r)


class NegPow(Exception):
    """int ** negative: a float in Python, a documented failure on chain"""


class SInt(SNum):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return not truth(i_eq(self.t, 0))

    def __repr__(self):
        return f"<{self.t}>"


class SBool(SNum):
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return truth(self.t)

    def _bb(op):
        def f(self, o):
            if type(o) in (bool, SBool):
                return mkb(op(self.t, o if type(o) is bool else o.t))
            return NotImplemented

        return f

    __and__ = __rand__ = _bb(lambda a, b: b_and([a, b]))
    __or__ = __ror__ = _bb(lambda a, b: b_or([a, b]))
    __xor__ = __rxor__ = _bb(lambda a, b: b_not(b_eq(a, b)))

    def __repr__(self):
        return f"<{self.t}>"


def _elems(cls, o):
    if type(o) is cls:
        return o.e
    if cls is SBytes and isinstance(o, (bytes, bytearray)):
        return tuple(o)
    if cls is SStr and isinstance(o, str):
        return tuple(map(ord, o))
    return None


class SSeq:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __len__(self):
        return len(self.e)

    def __bool__(self):
        return len(self.e) > 0

    def __add__(self, o):
        b = _elems(type(self), o)
        if b is None:
            return NotImplemented
        return type(self)(self.e + b)

    def __radd__(self, o):
        b = _elems(type(self), o)
        if b is None:
            return NotImplemented
        return type(self)(b + self.e)

    def __mul__(self, n):
        if raw(n) is None:
            return NotImplemented
        return _seq_mul(self, n)

    __rmul__ = __mul__

    def __eq__(self, o):
        b = _elems(type(self), o)
        if b is None:
            return NotImplemented
        return mkb(seq_eq(self.e, b))

    def __ne__(self, o):
        b = _elems(type(self), o)
        if b is None:
            return NotImplemented
        return mkb(b_not(seq_eq(self.e, b)))

    def _c(strict, swap):
        def f(self, o):
            b = _elems(type(self), o)
            if b is None:
                return NotImplemented
            a, b = (b, self.e) if swap else (self.e, b)
            return mkb(seq_lt(a, b, not strict))

        return f

    __lt__ = _c(True, False)
    __le__ = _c(False, False)
    __gt__ = _c(True, True)
    __ge__ = _c(False, True)

    def __hash__(self):
        raise Cut("hash of symbolic value")

    def __str__(self):
        raise Cut("str() at a C boundary")

    def __repr__(self):
        return f"<{type(self).__name__} {self.e}>"


def pick_index(i, n):
    """Python indexing: returns concrete position or raises IndexError"""
    i = raw(i)
    if i is None:
        raise TypeError("index")
    if type(i) is int:
        if not -n <= i < n:
            raise IndexError()
        return i % n
    if not truth(b_and([i_le(-n, i), i_lt(i, n)])):
        raise IndexError()
    k = pick_int(i, -n, n - 1, "index")
    return k % n


def pick_bound(i, n, default):
    if i is None:
        return default
    i = raw(i)
    if type(i) is int:
        return max(0, i + n) if i < 0 else min(i, n)
    if truth(i_lt(i, 0)):
        i = i_add(i, n)
    if truth(i_le(i, 0)):
        return 0
    for k in range(1, n):
        if truth(i_eq(i, k)):
            return k
    return n


def pick_slice(s, n):
    if s.step is not None and not (type(s.step) is int and s.step == 1):
        raise Cut("slice step with symbolic bounds")
    a = pick_bound(s.start, n, 0)
    b = pick_bound(s.stop, n, n)
    return a, max(a, b)


def concrete_slice(s):
    return all(x is None or type(x) is int for x in (s.start, s.stop, s.step))


class SBytes(SSeq):
    __slots__ = ()

    def __getitem__(self, i):
        if type(i) is slice:
            if concrete_slice(i):
                return SBytes(self.e[i])
            a, b = pick_slice(i, len(self.e))
            return SBytes(self.e[a:b])
        return mk(self.e[pick_index(i, len(self.e))])

    def __iter__(self):
        return iter([mk(x) for x in self.e])

    def __contains__(self, x):
        if isinstance(x, (bytes, SBytes)):
            n = _elems(SBytes, x)
            alts = [
                seq_eq(self.e[i : i + len(n)], n)
                for i in range(len(self.e) - len(n) + 1)
            ]
            return truth(b_or(alts))
        return truth(b_or([i_eq(raw(x), y) for y in self.e]))

    def decode(self, enc="utf-8"):
        try:
            return mkstr(utf8_decode(self.e, UDErr()))
        except UDErr:
            raise UnicodeDecodeError("utf-8", b"", 0, 0, "")

    def hex(self):
        return mkstr(hex_of(self.e))

    def ljust(self, w, fill=b" "):
        return self._just(w, fill, False)

    def rjust(self, w, fill=b" "):
        return self._just(w, fill, True)

    def _just(self, w, fill, right):
        f = _elems(SBytes, fill)
        if f is None or len(f) != 1:
            raise TypeError("fill")
        w = raw(w)
        if truth(i_le(w, len(self.e))):
            return SBytes(self.e)
        k = concretize_int(w, "padding width") - len(self.e)
        return SBytes(f * k + self.e if right else self.e + f * k)

    def index(self, *a):
        raise Cut("bytes.index")

    def startswith(self, p, *a):
        return _starts(SBytes, self, p, a, False)

    def endswith(self, p, *a):
        return _starts(SBytes, self, p, a, True)


def _starts(cls, x, p, a, end):
    if a:
        raise Cut("startswith with bounds")
    if isinstance(p, tuple):
        return any(_starts(cls, x, q, a, end) for q in p)
    q = _elems(cls, p)
    if q is None:
        raise TypeError()
    if len(q) > len(x.e):
        return False
    return mkb(seq_eq(x.e[len(x.e) - len(q) :] if end else x.e[: len(q)], q))


class UDErr(Exception):
    pass


class SStr(SSeq):
    __slots__ = ("src",)

    def encode(self, enc="utf-8"):
        for c in self.e:
            if truth(b_and([i_le(0xD800, c), i_lt(c, 0xE000)])):
                raise UnicodeEncodeError("utf-8", "", 0, 0, "")
        return mkbytes(utf8_encode(self.e))

    def __iter__(self):
        return iter([mkstr((x,)) for x in self.e])

    def __getitem__(self, i):
        if type(i) is slice:
            if concrete_slice(i):
                return SStr(self.e[i])
            a, b = pick_slice(i, len(self.e))
            return SStr(self.e[a:b])
        return SStr((self.e[pick_index(i, len(self.e))],))

    def join(self, xs):
        out = ()
        for i, x in enumerate(xs):
            out += (self.e if i else ()) + _elems(SStr, x)
        return mkstr(out)

    def startswith(self, p, *a):
        return _starts(SStr, self, p, a, False)

    def endswith(self, p, *a):
        return _starts(SStr, self, p, a, True)

    def __contains__(self, x):
        n = _elems(SStr, x)
        if n is None:
            raise TypeError()
        return truth(b_or([seq_eq(self.e[i : i + len(n)], n) for i in range(len(self.e) - len(n) + 1)]))

    def _strip(self, chars, left, right):
        cs = (9, 10, 11, 12, 13, 28, 29, 30, 31, 32) if chars is None else _elems(SStr, chars)
        e = list(self.e)

        def drop(c):
            if chars is None and truth(i_le(128, c)):
                raise Cut("strip of non-ASCII text")
            return truth(b_or([i_eq(c, w) for w in cs]))

        while left and e and drop(e[0]):
            e.pop(0)
        while right and e and drop(e[-1]):
            e.pop()
        return mkstr(tuple(e))

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)


def mkstr(e):
    if all(type(x) is int for x in e):
        return "".join(map(chr, e))
    return SStr(e)


def mkbytes(e):
    if all(type(x) is int for x in e):
        return bytes(e)
    return SBytes(e)


def hexdigit(n):
    if type(n) is int:
        return ord("0123456789abcdef"[n])
    return ite(i_lt(n, 10), i_add(n, 48), i_add(n, 87))


def hex_of(e):
    out = []
    for b in e:
        out.append(hexdigit(i_floordiv(b, 16)))
        out.append(hexdigit(i_mod(b, 16)))
    return out


def symbolic(x):
    return isinstance(x, (SNum, SSeq, SDict)) or (
        isinstance(x, (list, tuple)) and any(map(symbolic, x))
    )


class SDict:
    """insertion-ordered mapping with possibly symbolic keys"""

    def __init__(self, pairs=()):
        self.p = []
        for k, v in pairs:
            self._set(k, v)

    def _find(self, k):
        for i, (kk, _) in enumerate(self.p):
            if kk is k or kk == k:
                return i
        return None

    def _set(self, k, v):
        i = self._find(k)
        if i is None:
            self.p.append((k, v))
        else:
            self.p[i] = (self.p[i][0], v)

    def __getitem__(self, k):
        i = self._find(k)
        if i is None:
            raise KeyError()
        return self.p[i][1]

    def __setitem__(self, k, v):
        self._set(k, v)

    def get(self, k, d=None):
        i = self._find(k)
        return d if i is None else self.p[i][1]

    def keys(self):
        return SView([k for k, _ in self.p])

    def values(self):
        return SView([v for _, v in self.p])

    def items(self):
        return SView([(k, v) for k, v in self.p])

    def __iter__(self):
        return iter([k for k, _ in self.p])

    def __len__(self):
        return len(self.p)

    def __bool__(self):
        return bool(self.p)

    def __contains__(self, k):
        return self._find(k) is not None

    def __eq__(self, o):
        if isinstance(o, dict):
            o = SDict(o.items())
        if not isinstance(o, SDict):
            return NotImplemented
        if len(self.p) != len(o.p):
            return False
        for k, v in self.p:
            i = o._find(k)
            if i is None or not (o.p[i][1] == v):
                return False
        return True

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not r

    def __hash__(self):
        raise TypeError("unhashable")

    def copy(self):
        d = SDict()
        d.p = list(self.p)
        return d

    def update(self, *a, **k):
        for x in a:
            for kk, v in x.items() if hasattr(x, "items") else x:
                self._set(kk, v)
        for kk, v in k.items():
            self._set(kk, v)

    def setdefault(self, k, v=None):
        if self._find(k) is None:
            self._set(k, v)
        return self[k]

    def pop(self, k, *d):
        i = self._find(k)
        if i is None:
            if d:
                return d[0]
            raise KeyError()
        return self.p.pop(i)[1]

    def __delitem__(self, k):
        self.pop(k)

    def __or__(self, o):
        if not isinstance(o, (dict, SDict)):
            return NotImplemented
        d = self.copy()
        d.update(o)
        return d

    def __ror__(self, o):
        if not isinstance(o, dict):
            return NotImplemented
        d = SDict(o.items())
        d.update(self)
        return d

    def __ior__(self, o):
        self.update(o)
        return self


class SView(list):
    """keys()/values()/items(): iterable, sized"""

    def __getitem__(self, i):
        raise TypeError("view is not subscriptable")


# ---------------------------------------------------- builtin counterparts
WS = [9, 10, 11, 12, 13, 28, 29, 30, 31, 32]
UNI_WS = WS + [133, 160, 5760] + list(range(8192, 8203)) + [8232, 8233, 8239, 8287, 12288]


def is_ws(c):
    # CPython strips Unicode whitespace only from non-ASCII text
    return b_or([i_eq(c, w) for w in (9, 10, 11, 12, 13, 32)])


def is_digit(c):
    return b_and([i_le(48, c), i_le(c, 57)])


def parse_int(e):
    """Python's int(str) base 10 on code points (ASCII digits; see below)."""
    for c in e:
        # non-ASCII decimal digits are accepted by Python: outside the bound
        if truth(i_le(128, c)):
            raise Cut("non-ASCII characters in int()")
    i, j = 0, len(e)
    while i < j and truth(is_ws(e[i])):
        i += 1
    while j > i and truth(is_ws(e[j - 1])):
        j -= 1
    e = e[i:j]
    sign = 1
    if e and truth(i_eq(e[0], 45)):
        sign, e = -1, e[1:]
    elif e and truth(i_eq(e[0], 43)):
        e = e[1:]
    if not e:
        raise ValueError()
    v = 0
    prev_digit = False
    for k, c in enumerate(e):
        if truth(is_digit(c)):
            v = i_add(i_mul(v, 10), i_sub(c, 48))
            prev_digit = True
        elif truth(i_eq(c, 95)):
            if not prev_digit:
                raise ValueError()
            prev_digit = False
        else:
            raise ValueError()
    if not prev_digit:
        raise ValueError()
    return mk(v if sign == 1 else i_neg(v))


def digits_of(n, base, digit, cap=40):
    """canonical digits (code points) of n >= 0"""
    if type(n) is int and n == 0:
        return [48]
    k = 1
    while not truth(i_lt(n, base**k)):
        k += 1
        if k > cap:
            raise Cut("number too long")
    return [digit(i_mod(i_floordiv(n, base**j), base)) for j in range(k - 1, -1, -1)]


def dec(d):
    return i_add(d, 48)


def s_str(x):
    if type(x) is SBool:
        return "True" if x else "False"
    if type(x) is SInt:
        if truth(i_lt(x.t, 0)):
            return mkstr([45] + digits_of(i_neg(x.t), 10, dec))
        return mkstr(digits_of(x.t, 10, dec))
    if type(x) is SStr or isinstance(x, str):
        return x
    return s_repr(x)


def s_repr(x):
    if type(x) in (SBool, SInt):
        return s_str(x)
    if type(x) is SBytes:
        return repr_bytes(x.e)
    if type(x) is SStr:
        return repr_str(x.e)
    if isinstance(x, SView):
        raise Cut("repr of a view")
    if isinstance(x, (list, tuple)):
        out = ()
        for i, y in enumerate(x):
            out += (44, 32) if i else ()
            out += _elems(SStr, s_repr(y))
        if isinstance(x, list):
            return mkstr((91,) + out + (93,))
        return mkstr((40,) + out + ((44, 41) if len(x) == 1 else (41,)))
    if isinstance(x, (SDict, dict)):
        out = ()
        for i, (k, v) in enumerate(x.items()):
            out += (44, 32) if i else ()
            out += _elems(SStr, s_repr(k)) + (58, 32) + _elems(SStr, s_repr(v))
        return mkstr((123,) + out + (125,))
    if isinstance(x, RawData):
        d = dforce(x.d)
        if type(d) is not DC:
            raise Cut("text of Anything that is no constructor")
        return mkstr(_elems(SStr, "RawPlutusData(data=") + repr_raw(d) + (41,))
    if dataclasses.is_dataclass(x) and not isinstance(x, type):
        out = tuple(map(ord, type(x).__qualname__ + "("))
        for i, f in enumerate(
            f for f in dataclasses.fields(x) if f.repr
        ):
            out += (44, 32) if i else ()
            out += tuple(map(ord, f.name + "="))
            out += _elems(SStr, s_repr(getattr(x, f.name)))
        return mkstr(out + (41,))
    return repr(x)


def repr_raw(d):
    """repr of the cbor2 form of data"""
    d = dforce(d)

    def seq(xs):
        out = ()
        for i, y in enumerate(xs):
            out += ((44, 32) if i else ()) + y
        return out

    if type(d) is DI:
        return _elems(SStr, s_str(mk(d.i)))
    if type(d) is DB:
        return _elems(SStr, repr_bytes(d.e))
    if type(d) is DL:
        return (91,) + seq([repr_raw(y) for y in d.items]) + (93,)
    if type(d) is DM:
        return (123,) + seq([repr_raw(k) + (58, 32) + repr_raw(v) for k, v in d.pairs]) + (125,)
    fs = (91,) + seq([repr_raw(y) for y in d.fields]) + (93,)
    for lo, hi, base in ((0, 7, 121), (7, 128, 1280 - 7)):
        if truth(b_and([i_le(lo, d.tag), i_lt(d.tag, hi)])):
            return _elems(SStr, "CBORTag(") + _elems(SStr, s_str(mk(i_add(d.tag, base)))) + (44, 32) + fs + (41,)
    return _elems(SStr, "CBORTag(102, [") + _elems(SStr, s_str(mk(d.tag))) + (44, 32) + fs + (93, 41)


def repr_bytes(e):
    q = 39
    has_s = truth(b_or([i_eq(c, 39) for c in e]))
    has_d = truth(b_or([i_eq(c, 34) for c in e])) if has_s else False
    if has_s and not has_d:
        q = 34
    out = [98, q]
    for c in e:
        if truth(i_eq(c, q)):
            out += [92, q]
        elif truth(i_eq(c, 92)):
            out += [92, 92]
        elif truth(i_eq(c, 9)):
            out += [92, 116]
        elif truth(i_eq(c, 10)):
            out += [92, 110]
        elif truth(i_eq(c, 13)):
            out += [92, 114]
        elif truth(b_or([i_lt(c, 32), i_le(127, c)])):
            out += [92, 120] + [hexdigit(i_floordiv(c, 16)), hexdigit(i_mod(c, 16))]
        else:
            out.append(c)
    return mkstr(out + [q])


def repr_str(e):
    has_s = truth(b_or([i_eq(c, 39) for c in e]))
    has_d = truth(b_or([i_eq(c, 34) for c in e])) if has_s else False
    q = 34 if has_s and not has_d else 39
    out = [q]
    for c in e:
        if truth(i_eq(c, q)):
            out += [92, q]
        elif truth(i_eq(c, 92)):
            out += [92, 92]
        elif truth(i_eq(c, 9)):
            out += [92, 116]
        elif truth(i_eq(c, 10)):
            out += [92, 110]
        elif truth(i_eq(c, 13)):
            out += [92, 114]
        elif truth(b_or([i_lt(c, 32), i_eq(c, 127)])):
            out += [92, 120] + [hexdigit(i_floordiv(c, 16)), hexdigit(i_mod(c, 16))]
        elif truth(i_le(128, c)):
            raise Cut("repr of non-ASCII text")
        else:
            out.append(c)
    return mkstr(out + [q])


NOARG = object()


def s_int(x=NOARG, *a, **k):
    if x is NOARG:
        return 0
    if a or k:
        if not symbolic(x):
            return int(x, *a, **k)
        raise Cut("int with base")
    if type(x) is SInt:
        return x
    if type(x) is SBool:
        return mk(raw(x))
    if type(x) is SStr:
        return parse_int(x.e)
    return int(x)


def s_bool(x=NOARG):
    if x is NOARG:
        return False
    if type(x) is SInt:
        return mkb(b_not(i_eq(x.t, 0)))
    if type(x) is SBool:
        return x
    return bool(x)


def s_bytes(x=NOARG, *a):
    if x is NOARG:
        return b""
    if type(x) is SBytes:
        return x
    if type(x) is SStr and a:
        return x.encode(*a)
    if isinstance(x, SNum):
        n = raw(x)
        if truth(i_lt(n, 0)):
            raise ValueError()
        return bytes(concretize_int(n, "bytes(n)"))
    if isinstance(x, (list, tuple)):
        out = []
        for y in x:
            t = raw(y)
            if t is None:
                raise TypeError()
            if not truth(b_and([i_le(0, t), i_le(t, 255)])):
                raise ValueError()
            out.append(t)
        return mkbytes(out)
    return bytes(x, *a)


def s_fromhex(s):
    if isinstance(s, str):
        return bytes.fromhex(s)
    out = []
    i = 0
    e = s.e

    def hv(c):
        if truth(is_digit(c)):
            return i_sub(c, 48)
        if truth(b_and([i_le(97, c), i_le(c, 102)])):
            return i_sub(c, 87)
        if truth(b_and([i_le(65, c), i_le(c, 70)])):
            return i_sub(c, 55)
        return None

    while i < len(e):
        if truth(b_or([i_eq(e[i], w) for w in (9, 10, 11, 12, 13, 32)])):
            i += 1
            continue
        a = hv(e[i])
        if a is None:
            raise ValueError()
        i += 1
        if i >= len(e):
            raise ValueError()
        b = hv(e[i])
        if b is None:
            raise ValueError()
        i += 1
        out.append(i_add(i_mul(a, 16), b))
    return mkbytes(out)


def s_hex(x):
    n = raw(x)
    if n is None:
        raise TypeError()
    if type(n) is int:
        return hex(n)
    neg = truth(i_lt(n, 0))
    d = digits_of(i_neg(n) if neg else n, 16, hexdigit)
    return mkstr(([45] if neg else []) + [48, 120] + d)


def s_oct(x):
    n = raw(x)
    if n is None:
        raise TypeError()
    if type(n) is int:
        return oct(n)
    neg = truth(i_lt(n, 0))
    d = digits_of(i_neg(n) if neg else n, 8, dec)
    return mkstr(([45] if neg else []) + [48, 111] + d)


def s_chr(x):
    n = raw(x)
    if type(n) is int:
        return chr(n)
    if not truth(b_and([i_le(0, n), i_le(n, 0x10FFFF)])):
        raise ValueError()
    return SStr((n,))


def s_ord(x):
    e = _elems(SStr, x)
    if e is None or len(e) != 1:
        raise TypeError()
    return mk(e[0])


class SRange:
    def __init__(self, *a):
        a = [raw(x) for x in a]
        if any(x is None for x in a):
            raise TypeError()
        if len(a) == 1:
            self.lo, self.hi, self.st = 0, a[0], 1
        elif len(a) == 2:
            self.lo, self.hi, self.st = a[0], a[1], 1
        else:
            self.lo, self.hi, self.st = a
            if truth(i_eq(self.st, 0)):
                raise ValueError()

    def __iter__(self):
        i = self.lo
        up = truth(i_lt(0, self.st))
        for _ in range(LOOP_CAP):
            if up:
                go = truth(i_lt(i, self.hi))
            else:
                go = truth(i_lt(self.hi, i))
            if not go:
                return
            yield mk(i)
            i = i_add(i, self.st)
        raise Cut("range longer than the unroll bound")

    def _list(self):
        return list(iter(self))

    def __len__(self):
        return len(self._list())

    def __contains__(self, x):
        return any(x == y for y in self._list())

    def __getitem__(self, i):
        return getitem(self._list(), i)


def s_range(*a):
    if any(isinstance(x, SNum) for x in a):
        return SRange(*a)
    return range(*a)


def s_sum(xs, start=0):
    for x in xs:
        start = start + x
    return start


def _minmax(better):
    def f(*a, key=None, **kw):
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not xs:
            if "default" in kw:
                return kw["default"]
            raise ValueError()
        of = (lambda x: x) if key is None else (lambda x: call(key, x))
        r = xs[0]
        for x in xs[1:]:
            if better(of(x), of(r)):
                r = x
        return r

    return f


def s_any(xs):
    for x in xs:
        if x:
            return True
    return False


def s_all(xs):
    for x in xs:
        if not x:
            return False
    return True


STANDS = {SInt: int, SBool: bool, SBytes: bytes, SStr: str, SDict: dict}
LIKE = []  # (class, class it stands for) of further stand-ins


def stands_for(x):
    """the class of the Python value that a symbolic value stands for"""
    c = STANDS.get(type(x))
    if c is None:
        for k, v in LIKE:
            if isinstance(x, k):
                return v
    return c


def s_isinstance(x, t):
    if isinstance(t, tuple):
        return any(s_isinstance(x, y) for y in t)
    if isinstance(t, types.UnionType):
        return any(s_isinstance(x, y) for y in typing.get_args(t))
    c = stands_for(x)
    if c is None or not isinstance(t, type) and t is not typing.Dict:
        return isinstance(x, t)
    if c is dict and t is typing.Dict:
        return True
    return isinstance(x, t) if c is dict and isinstance(x, t) else issubclass(c, t)


def s_type(*a, **k):
    if len(a) == 1 and not k:
        return stands_for(a[0]) or type(a[0])
    return type(*a, **k)


def s_print(*a):
    out = ()
    for i, x in enumerate(a):
        out += (32,) if i else ()
        out += _elems(SStr, s_str(x))
    ctx().log.append(out)


def s_pow_f(a, b, m=None):
    if m is None:
        return a**b
    if not any(isinstance(x, SNum) for x in (a, b, m)):
        return pow(a, b, m)
    raise Cut("three-argument pow")


def s_len(x):
    return len(x)


def s_reversed(x):
    if isinstance(x, (SBytes, SStr)):
        return list(x)[::-1]
    if isinstance(x, SDict):
        return list(x.keys())[::-1]
    return list(reversed(list(x)))


def s_abs(x):
    return abs(x)


def s_list(x=()):
    return list(x)


def s_dict(*a, **k):
    if not a:
        return SDict(k.items())
    x = a[0]
    return SDict(x.items() if isinstance(x, (dict, SDict)) else x)


def s_sorted(xs, key=None, reverse=False):
    of = (lambda x: x) if key is None else (lambda x: call(key, x))
    out = []
    for x in xs:
        k, i = of(x), len(out)
        while i > 0 and (out[i - 1][0] < k if reverse else k < out[i - 1][0]):
            i -= 1
        out.insert(i, (k, x))
    return [x for _, x in out]


def s_map(f, *xs):
    return (call(f, *a) for a in zip(*xs))


def s_filter(f, xs):
    return (x for x in xs if (x if f is None else call(f, x)))


def s_divmod(a, b):
    return a // b, a % b


def s_reduce(f, xs, *init):
    it = iter(xs)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it:
        r = call(f, r, x)
    return r


def s_partial(f, *a, **k):
    return lambda *b, **l: call(f, *a, *b, **{**k, **l})


def s_cache(f=None, *a, **k):
    """results are not remembered: the arguments may be symbolic"""
    return f if callable(f) else lambda g: g


def s_singledispatch(f):
    d = functools.singledispatch(f)
    w = lambda *a, **k: call(d.dispatch(s_type(a[0])), *a, **k)
    w.register, w.dispatch, w.registry = d.register, d.dispatch, d.registry
    return w


def s_text(x="", *a):
    if a:
        return x.decode(*a)
    return s_str(x) if not isinstance(x, str) else x


def fake_functools():
    m = types.ModuleType("functools")
    m.__dict__.update({k: v for k, v in vars(functools).items() if not k.startswith("__")})
    m.reduce, m.partial, m.lru_cache, m.cache, m.singledispatch = s_reduce, s_partial, s_cache, s_cache, s_singledispatch
    return m


OVERRIDES = {
    int: s_int,
    bool: s_bool,
    bytes: s_bytes,
    str: s_text,
    type: s_type,
    map: s_map,
    filter: s_filter,
    divmod: s_divmod,
    repr: s_repr,
    hex: s_hex,
    oct: s_oct,
    chr: s_chr,
    ord: s_ord,
    range: s_range,
    sum: s_sum,
    min: _minmax(lambda x, r: x < r),
    max: _minmax(lambda x, r: r < x),
    any: s_any,
    all: s_all,
    isinstance: s_isinstance,
    print: s_print,
    pow: s_pow_f,
    reversed: s_reversed,
    dict: s_dict,
    sorted: s_sorted,
}
FROMHEX = bytes.fromhex


def call(f, /, *a, **k):
    try:
        h = OVERRIDES.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if type(f) is types.MethodDescriptorType and a and stands_for(a[0]) is not None and issubclass(stands_for(a[0]), f.__objclass__):
        return getattr(a[0], f.__name__)(*a[1:], **k)
    slf = getattr(f, "__self__", None)
    if slf is bytes and getattr(f, "__name__", "") == "fromhex":
        return s_fromhex(*a)
    if slf is not None and isinstance(f, types.BuiltinMethodType):
        name = f.__name__
        if type(slf) in (bytes, str) and any(map(symbolic, a)):
            cls = SBytes if type(slf) is bytes else SStr
            return getattr(cls(_elems(cls, slf)), name)(*a, **k)
        if type(slf) is dict and name in ("get", "pop", "setdefault") and a and symbolic(a[0]):
            d = SDict(slf.items())
            if name == "get":
                return d.get(*a)
            raise Cut("symbolic key of a concrete dictionary")
        if type(slf) is str and name == "join":
            a = (list(a[0]),)
            if symbolic(a[0]):
                return SStr(_elems(SStr, slf)).join(a[0])
        if type(slf) in (list, tuple) and name == "index":
            for i, x in enumerate(slf):
                if x == a[0]:
                    return i
            raise ValueError()
        if type(slf) is list and name == "count":
            n = 0
            for x in slf:
                if x == a[0]:
                    n += 1
            return n
    return f(*a, **k)


def getitem(o, i):
    if type(i) is slice:
        if any(isinstance(x, SNum) for x in (i.start, i.stop, i.step)):
            n = len(o)
            a, b = pick_slice(i, n)
            return o[a:b]
        return o[i]
    if isinstance(i, SNum):
        if isinstance(o, (list, tuple)) and not isinstance(o, SView):
            return o[pick_index(i, len(o))]
        if isinstance(o, bytes):
            return mk(o[pick_index(i, len(o))])
        if isinstance(o, dict):
            return SDict(o.items())[i]
    if isinstance(o, dict) and symbolic(i):
        return SDict(o.items())[i]
    return o[i]


_unpack = object()


def mkdict(*items):
    """items: key, value, key, value, ... in the order Python evaluates them"""
    out = []
    for k, v in zip(items[::2], items[1::2]):
        if k is _unpack:
            out.extend(v.items())
        else:
            out.append((k, v))
    return SDict(out)


def fmt(v, conv, spec):
    if spec:
        raise Cut("format spec")
    if conv == ord("r"):
        return s_repr(v)
    return s_str(v)


def joined(*parts):
    out = ()
    for p in parts:
        out += _elems(SStr, p)
    return mkstr(out)


# --------------------------------------------------------- instrumentation
class Instrument(ast.NodeTransformer):
    def _name(self, n):
        return ast.Name(id=n, ctx=ast.Load())

    def _c(self, fn, args):
        return ast.Call(func=self._name(fn), args=args, keywords=[])

    def visit_Call(self, node):
        self.generic_visit(node)
        return ast.Call(
            func=self._name("_sx_call"),
            args=[node.func] + node.args,
            keywords=node.keywords,
        )

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = ast.Constant(value=None)
            sl = self._c(
                "_sx_slice", [sl.lower or none, sl.upper or none, sl.step or none]
            )
        return self._c("_sx_getitem", [node.value, sl])

    def visit_Dict(self, node):
        self.generic_visit(node)
        return self._c(
            "_sx_mkdict",
            [
                e
                for k, v in zip(node.keys, node.values)
                for e in (self._name("_sx_unpack") if k is None else k, v)
            ],
        )

    def visit_DictComp(self, node):
        self.generic_visit(node)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        return self._c(
            "_sx_dict", [ast.ListComp(elt=pair, generators=node.generators)]
        )

    def visit_Compare(self, node):
        self.generic_visit(node)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.In, ast.NotIn)):
            t = self._c("_sx_in", [node.left, node.comparators[0]])
            return t if isinstance(node.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=t)
        return node

    def visit_Set(self, node):
        self.generic_visit(node)
        return self._c("_sx_mkset", list(node.elts))

    def visit_Attribute(self, node):
        self.generic_visit(node)
        if node.attr == "__class__" and isinstance(node.ctx, ast.Load):
            return self._c("_sx_call", [self._name("type"), node.value])
        return node

    # match statements: the same tests, with class patterns on symbolic values
    _n = 0

    def _tmp(self):
        Instrument._n += 1
        return f"_sx_m{Instrument._n}"

    def _walrus(self, name, value):
        """binds and is true"""
        bind = ast.NamedExpr(target=ast.Name(id=name, ctx=ast.Store()), value=value)
        return ast.Compare(left=ast.Tuple(elts=[bind], ctx=ast.Load()), ops=[ast.IsNot()], comparators=[ast.Constant(value=None)])

    def _and(self, xs):
        xs = [x for x in xs if x is not None]
        return ast.Constant(value=True) if not xs else xs[0] if len(xs) == 1 else ast.BoolOp(op=ast.And(), values=xs)

    def _pattern(self, p, subj):
        """condition under which the subject (a name) matches; binds captures"""
        isa = lambda t: self._c("_sx_call", [self._name("isinstance"), self._name(subj), t])

        def sub(q, value):
            n = self._tmp()
            return self._and([self._walrus(n, value), self._pattern(q, n)])

        if isinstance(p, ast.MatchValue):
            return ast.Compare(left=self._name(subj), ops=[ast.Eq()], comparators=[self.visit(p.value)])
        if isinstance(p, ast.MatchSingleton):
            return ast.Compare(left=self._name(subj), ops=[ast.Is()], comparators=[ast.Constant(value=p.value)])
        if isinstance(p, ast.MatchOr):
            return ast.BoolOp(op=ast.Or(), values=[self._pattern(q, subj) for q in p.patterns])
        if isinstance(p, ast.MatchAs):
            return self._and(
                [self._pattern(p.pattern, subj) if p.pattern is not None else None]
                + ([self._walrus(p.name, self._name(subj))] if p.name else [])
            )
        if isinstance(p, ast.MatchClass):
            cls = self.visit(p.cls)
            out = [isa(cls)]
            for i, q in enumerate(p.patterns):
                out.append(sub(q, self._c("_sx_matcharg", [self._name(subj), cls, ast.Constant(value=i)])))
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                out.append(self._c("hasattr", [self._name(subj), ast.Constant(value=a)]))
                out.append(sub(q, ast.Attribute(value=self._name(subj), attr=a, ctx=ast.Load())))
            return self._and(out)
        if isinstance(p, ast.MatchSequence):
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            ln = self._c("len", [self._name(subj)])
            out = [
                self._c("_sx_isseq", [self._name(subj)]),
                ast.Compare(left=ln, ops=[ast.GtE() if star else ast.Eq()], comparators=[ast.Constant(value=n - len(star))]),
            ]
            for i, q in enumerate(p.patterns):
                if isinstance(q, ast.MatchStar):
                    if q.name:
                        hi = i - n + 1
                        sl = self._c("_sx_slice", [ast.Constant(value=i), ast.Constant(value=hi or None), ast.Constant(value=None)])
                        out.append(self._walrus(q.name, self._c("list", [self._c("_sx_getitem", [self._name(subj), sl])])))
                    continue
                k = i if not star or i < star[0] else i - n
                out.append(sub(q, self._c("_sx_getitem", [self._name(subj), ast.Constant(value=k)])))
            return self._and(out)
        if isinstance(p, ast.MatchMapping):
            out = [isa(self._name("dict"))]
            for k, q in zip(p.keys, p.patterns):
                k = self.visit(k)
                out.append(ast.Compare(left=k, ops=[ast.In()], comparators=[self._name(subj)]))
                out.append(sub(q, self._c("_sx_getitem", [self._name(subj), k])))
            if p.rest:
                raise Cut("match of the rest of a mapping")
            return self._and(out)
        raise Cut("match pattern")

    def visit_Match(self, node):
        subj = self._tmp()
        first = ast.Assign(targets=[ast.Name(id=subj, ctx=ast.Store())], value=self.visit(node.subject))
        tail = []
        for c in reversed(node.cases):
            test = self._and([self._pattern(c.pattern, subj), self.visit(c.guard) if c.guard else None])
            body = [y for x in c.body for y in (lambda r: r if isinstance(r, list) else [r])(self.visit(x)) if y is not None]
            tail = [ast.If(test=test, body=body, orelse=tail)]
        return [first] + tail

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                parts.append(
                    self._c(
                        "_sx_fmt",
                        [
                            self.visit(v.value),
                            ast.Constant(value=v.conversion),
                            ast.Constant(value=v.format_spec is not None),
                        ],
                    )
                )
            else:
                parts.append(v)
        return self._c("_sx_joined", parts)


def instrument(source, filename):
    tree = ast.parse(source, filename)
    tree = Instrument().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


class SSet:
    """set display: membership and iteration"""

    def __init__(self, *xs):
        self.x = list(xs)

    def __contains__(self, k):
        return any(y is k or y == k for y in self.x)

    def __iter__(self):
        return iter(self.x)

    def __len__(self):
        raise Cut("size of a set")

    def __getattr__(self, n):
        raise Cut("set." + n)


def mkset(*xs):
    try:
        return set(xs) if not symbolic(xs) else SSet(*xs)
    except TypeError:
        raise


def contains(x, c):
    if isinstance(c, (dict, set, frozenset)) and symbolic(x):
        return any(y == x for y in c)
    if isinstance(c, (bytes, str)) and symbolic(x):
        k = SBytes if isinstance(c, bytes) else SStr
        return x in k(_elems(k, c))
    return x in c


def matcharg(x, cls, i):
    if cls in (bool, bytearray, bytes, dict, float, frozenset, int, list, set, str, tuple):
        return x
    return getattr(x, cls.__match_args__[i])


def isseq(x):
    return isinstance(x, (list, tuple, range, SRange)) and not isinstance(x, SView)


HELPERS = {
    "_sx_mkset": mkset,
    "_sx_in": contains,
    "_sx_matcharg": matcharg,
    "_sx_isseq": isseq,
    "_sx_call": call,
    "_sx_getitem": getitem,
    "_sx_slice": slice,
    "_sx_mkdict": mkdict,
    "_sx_unpack": _unpack,
    "_sx_dict": SDict,
    "_sx_fmt": fmt,
    "_sx_joined": joined,
}


# ------------------------------------------------------------ module world
class _ConstrId:
    """classes without an explicit CONSTR_ID: the id pycardano derives for the
    same class (looked up in the really-executed program)"""

    real_ns = {}

    def __get__(self, obj, cls):
        return self.real_ns[cls.__name__].CONSTR_ID


class PlutusData:
    """Stand-in for pycardano.PlutusData: same field/CONSTR_ID/equality
    behaviour, fields may hold symbolic values.  Leaving out pycardano's
    constructor type check is stated in DESIGN.md."""

    CONSTR_ID = _ConstrId()

    def to_cbor(self):
        from . import cborsym

        return mkbytes(cborsym.encode(to_data(self)))

    def to_cbor_hex(self):
        return call(self.to_cbor().hex)


class RawData:
    """opaque data (type Anything)"""

    def __init__(self, d):
        self.d = d

    def __eq__(self, o):
        if isinstance(o, RawData):
            return mkb(d_eq(self.d, o.d))
        try:
            return mkb(d_eq(self.d, to_data(o)))
        except TypeError:
            return NotImplemented

    def __hash__(self):
        raise Cut("hash of symbolic value")


Datum = typing.Union[PlutusData, dict, int, bytes, list]


def to_data(x):
    """Python value -> data, by the documented mapping"""
    if isinstance(x, RawData):
        return x.d
    t = raw(x)
    if t is not None:
        return DI(t)
    if isinstance(x, (bytes, SBytes)):
        return DB(_elems(SBytes, x))
    if isinstance(x, str):
        try:
            return DB(tuple(x.encode()))
        except UnicodeEncodeError:
            raise
    if isinstance(x, SStr):
        return DB(_elems(SBytes, x.encode()))
    if x is None:
        return DC(0, ())
    if isinstance(x, (dict, SDict)):
        return DM(tuple((to_data(k), to_data(v)) for k, v in x.items()))
    if isinstance(x, (list, tuple, SRange, range)):
        return DL(tuple(to_data(y) for y in x))
    if isinstance(x, PlutusData):
        cid = x.CONSTR_ID
        return DC(
            cid, tuple(to_data(getattr(x, f.name)) for f in dataclasses.fields(x))
        )
    raise TypeError(f"no data form for {type(x).__name__}")


class SHash:
    def __init__(self, fun, e):
        self.fun = fun
        self.e = e

    def digest(self):
        n, k, r = M.HASHES[self.fun]
        return mkbytes(M.hash_uf(n, k, r or M._real(self.fun), self.e))

    def hexdigest(self):
        raise Cut("hexdigest")


def _mkhash(fun):
    def h(b, digest_size=None):
        f = fun
        if fun is M.F.Blake2b_256:
            if digest_size not in (28, 32):
                # Python's default digest is 64 bytes; OpShin documents 32/28
                f = M.F.Blake2b_256 if digest_size is None else None
            if digest_size == 28:
                f = M.F.Blake2b_224
        if f is None:
            raise Cut("digest size")
        return SHash(f, _elems(SBytes, b))

    return h


def _fake_hashlib():
    m = types.ModuleType("hashlib")
    m.sha256 = _mkhash(M.F.Sha2_256)
    m.sha3_256 = _mkhash(M.F.Sha3_256)
    m.blake2b = _mkhash(M.F.Blake2b_256)
    return m


def _fake_pycardano():
    m = types.ModuleType("pycardano")
    m.PlutusData = PlutusData
    m.Datum = Datum
    m.IndefiniteList = list
    m.RawCBOR = RawData
    return m


def to_uval(x, name=None):
    """Python argument of a std.builtins function -> UPLC value"""
    if type(x) in (bool,):
        return x
    if type(x) is SBool:
        return x.t
    t = raw(x)
    if t is not None:
        return t
    if isinstance(x, (bytes, SBytes)):
        return B(_elems(SBytes, x))
    if isinstance(x, (str, SStr)):
        return T(_elems(SStr, x))
    if isinstance(x, (PlutusData, RawData)):
        return to_data(x)
    if isinstance(x, list):
        vs = tuple(to_uval(y) for y in x)
        return L(vs, kind(vs[0]) if vs else "integer")
    if x is None:
        return UNIT
    raise Cut(f"builtin argument {type(x).__name__}")


def from_uval(v):
    if is_bool(v):
        return mkb(v)
    if is_int(v):
        return mk(v)
    if type(v) is B:
        return mkbytes(v.e)
    if type(v) is T:
        return mkstr(v.e)
    if type(v) is L:
        return [from_uval(x) for x in v.v]
    if isinstance(v, D):
        return RawData(v)
    if v is UNIT:
        return None
    raise Cut("builtin result")


class BuiltinFailed(Exception):
    pass


def spec_builtin(fun):
    """Python-level std builtin by the specification of the UPLC builtin"""
    data = {M.F.SerialiseData: (0,), M.F.EqualsData: (0, 1)}.get(fun, ())  # declared as Anything

    def f(*args):
        try:
            return from_uval(M.BI[fun](*[to_data(a) if i in data else to_uval(a) for i, a in enumerate(args)]))
        except UError as e:
            raise BuiltinFailed(str(e))

    return f


SNAKE = {}
for _f in M.F:
    import re as _re

    SNAKE[_f] = _re.sub(r"(?<!^)(?=[A-Z])", "_", _f.name).lower().replace("__", "_")
NAME2FUN = {v: k for k, v in SNAKE.items()}
NAME2FUN.update(
    {
        "sha2_256": M.F.Sha2_256,
        "sha3_256": M.F.Sha3_256,
        "blake2b_256": M.F.Blake2b_256,
        "blake2b_224": M.F.Blake2b_224,
        "keccak_256": M.F.Keccak_256,
        "ripemd_160": M.F.Ripemd_160,
        "verify_ed25519_signature": M.F.VerifyEd25519Signature,
        "verify_ecdsa_secp256k1_signature": M.F.VerifyEcdsaSecp256k1Signature,
        "verify_schnorr_secp256k1_signature": M.F.VerifySchnorrSecp256k1Signature,
        "encode_utf8": M.F.EncodeUtf8,
        "decode_utf8": M.F.DecodeUtf8,
    }
)


class World:
    """Loads instrumented modules.  `opshin.std.builtins` is the
    specification-level stand-in (its real wiring is a property of its own)."""

    real_bridge = False
    real_bls = False
    project = None  # directory of the modules that the program brings along

    def __init__(self):
        self.mods = {}
        self.loaded_files = []

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = (globals or {}).get("__package__")
            if not pkg:
                raise Cut("relative import")
            base = pkg.split(".")
            base = base[: len(base) - level + 1]
            name = ".".join(base + ([name] if name else []))
            fromlist = fromlist or ("*",)
        if name == "opshin" or os.path.isdir(os.path.join(REPO, *name.split("."))) and name.startswith("opshin"):
            # modules imported from a package
            for n in fromlist or ():
                if os.path.exists(os.path.join(REPO, *name.split("."), n + ".py")):
                    setattr(self.load(name), n, self.load(name + "." + n))
        m = self.load(name)
        if fromlist:
            return m
        return self.load(name.split(".")[0])

    def project_file(self, name):
        if self.project is None:
            return None
        base = os.path.join(self.project, *name.split("."))
        return next((f for f in (os.path.join(base, "__init__.py"), base + ".py") if os.path.exists(f)), base if os.path.isdir(base) else None)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self.project_file(name)
        if path is not None:
            parent, _, leaf = name.rpartition(".")
            if parent:
                self.load(parent)
                if name in self.mods:
                    return self.mods[name]
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = parent if path.endswith(name.rpartition(".")[2] + ".py") else name
            self.mods[name] = m
            if os.path.isfile(path):
                with open(path) as fp:
                    self.exec_in(fp.read(), path, m)
            if parent:
                setattr(self.mods[parent], leaf, m)
            return m
        if name == "pycardano":
            m = _fake_pycardano()
        elif name == "hashlib":
            m = _fake_hashlib()
        elif name == "functools":
            m = fake_functools()
        elif name == "opshin.std.builtins" and not self.real_bridge:
            m = self.fake_builtins()
        elif name == "opshin.std.bls12_381" and not self.real_bls:
            m = types.ModuleType(name)
            for n in ("BLS12381G1Element", "BLS12381G2Element", "BLS12381MillerLoopResult"):
                setattr(m, n, type(n, (), {}))
        elif name == "opshin.bridge" and not self.real_bridge:
            m = types.ModuleType(name)
            m.wraps_builtin = lambda f: f
        elif name in ("opshin", "opshin.std", "opshin.ledger"):
            m = types.ModuleType(name)
            if name == "opshin":
                pass
        elif name.startswith("opshin"):
            path = os.path.join(REPO, *name.split(".")) + ".py"
            m = types.ModuleType(name)
            m.__file__ = path
            m.__package__ = name.rpartition(".")[0]
            self.mods[name] = m
            self.loaded_files.append(os.path.relpath(path, REPO))
            with open(path) as fp:
                src = fp.read()
            self.exec_in(src, path, m)
            par, _, leaf = name.rpartition(".")
            setattr(self.load(par), leaf, m)
            return m
        else:
            m = __import__(name, fromlist=("*",))
        self.mods[name] = m
        return m

    def fake_builtins(self):
        m = types.ModuleType("opshin.std.builtins")
        for n, f in NAME2FUN.items():
            setattr(m, n, spec_builtin(f))
        m.Anything = Datum
        m.PlutusData = PlutusData
        m.Dict, m.List, m.Union = typing.Dict, typing.List, typing.Union
        m.wraps_builtin = lambda f: f
        return m

    def exec_in(self, src, filename, m):
        code = instrument(src, filename)
        b = dict(vars(builtins))
        b["__import__"] = self._import
        m.__dict__["__builtins__"] = b
        m.__dict__.update(HELPERS)
        sys.modules.setdefault(m.__name__, m) if m.__name__.startswith("_sx_") else None
        exec(code, m.__dict__)

    def module(self, src, name="_sx_prog"):
        m = types.ModuleType(name)
        m.__file__ = "<program>"
        sys.modules[name] = m
        self.exec_in(src, "<program>", m)
        return m
