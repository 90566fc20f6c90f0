"""Value domain shared by the symbolic UPLC machine and the symbolic Python
reference: integers and booleans are Python constants or z3 terms; byte
strings, texts, lists and data have an explicit (concrete) shape on every path
and symbolic leaves."""
import z3
from .engine import ctx, Cut, PathAbort


class UError(Exception):
    """UPLC evaluation failure."""


# ---------------------------------------------------------------- integers
def is_int(v):
    return type(v) is int or isinstance(v, z3.ArithRef)


def is_bool(v):
    return type(v) is bool or isinstance(v, z3.BoolRef)


def truth(c):
    """Decide a (possibly symbolic) condition on this path."""
    if c is True or c is False:
        return c
    return ctx().fork(c)


def norm(v):
    if type(v) is int or type(v) is bool:
        return v
    v = z3.simplify(v)
    if z3.is_int_value(v):
        return v.as_long()
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    return v


def i_eq(a, b):
    if type(a) is int and type(b) is int:
        return a == b
    if a is b:
        return True
    return norm(a == b)


def i_lt(a, b):
    if type(a) is int and type(b) is int:
        return a < b
    return norm(a < b)


def i_le(a, b):
    if type(a) is int and type(b) is int:
        return a <= b
    return norm(a <= b)


def i_add(a, b):
    return norm(a + b) if not (type(a) is int and type(b) is int) else a + b


def i_sub(a, b):
    return norm(a - b) if not (type(a) is int and type(b) is int) else a - b


def i_mul(a, b):
    return norm(a * b) if not (type(a) is int and type(b) is int) else a * b


def i_neg(a):
    return -a if type(a) is int else norm(-a)


def _zi(a):
    return z3.IntVal(a) if type(a) is int else a


def i_floordiv(a, b):
    """floor division; caller has excluded b == 0"""
    if type(a) is int and type(b) is int:
        return a // b
    if type(b) is int:
        if b == 1:
            return a
        if b > 0:
            return norm(_zi(a) / z3.IntVal(b))
        return norm((-_zi(a)) / z3.IntVal(-b))
    if truth(i_lt(0, b)):
        return norm(_zi(a) / b)
    return norm((-_zi(a)) / (-b))


def i_mod(a, b):
    if type(a) is int and type(b) is int:
        return a % b
    if type(b) is int:
        if b > 0:
            return norm(_zi(a) % z3.IntVal(b))
        return norm(-((-_zi(a)) % z3.IntVal(-b)))
    if truth(i_lt(0, b)):
        return norm(_zi(a) % b)
    return norm(-((-_zi(a)) % (-b)))


def i_abs(a):
    if type(a) is int:
        return abs(a)
    return i_neg(a) if truth(i_lt(a, 0)) else a


def i_quot(a, b):
    """division rounding to zero"""
    if type(a) is int and type(b) is int:
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    an = truth(i_lt(a, 0))
    bn = truth(i_lt(b, 0))
    q = i_floordiv(i_neg(a) if an else a, i_neg(b) if bn else b)
    return q if an == bn else i_neg(q)


def i_rem(a, b):
    return i_sub(a, i_mul(i_quot(a, b), b))


def b_not(c):
    return (not c) if type(c) is bool else norm(z3.Not(c))


def b_and(cs):
    out = []
    for c in cs:
        if c is False:
            return False
        if c is not True:
            out.append(c)
    if not out:
        return True
    return norm(z3.And(*out)) if len(out) > 1 else out[0]


def b_or(cs):
    out = []
    for c in cs:
        if c is True:
            return True
        if c is not False:
            out.append(c)
    if not out:
        return False
    return norm(z3.Or(*out)) if len(out) > 1 else out[0]


def b_eq(a, b):
    if type(a) is bool and type(b) is bool:
        return a == b
    if type(a) is bool:
        return b if a else b_not(b)
    if type(b) is bool:
        return a if b else b_not(a)
    return norm(a == b)


def ite(c, a, b):
    if c is True:
        return a
    if c is False:
        return b
    return norm(z3.If(c, a if not type(a) is int else z3.IntVal(a), b if not type(b) is int else z3.IntVal(b)))


def concretize_int(v, what="value", cap=40):
    """A concrete int equal to v on this path; every admissible value gets its
    own path (at most `cap`, else Cut)."""
    if type(v) is int:
        return v
    return ctx().enum_int(v, cap, what)


# canonical deterministic enumeration (small ranges first) so that replayed
# prefixes take the same forks
def pick_int(v, lo, hi, what="value"):
    """v is assumed/known to lie in [lo, hi]; returns the concrete value."""
    if type(v) is int:
        return v
    for k in range(lo, hi):
        if truth(i_eq(v, k)):
            return k
    if truth(i_eq(v, hi)):
        return hi
    raise Cut(f"{what} outside [{lo},{hi}]")


# ------------------------------------------------------------- sequences
def seq_eq(a, b):
    if len(a) != len(b):
        return False
    return b_and([byte_eq(x, y) for x, y in zip(a, b)])


def seq_lt(a, b, or_eq):
    """lexicographic a < b (or <=)"""
    n = min(len(a), len(b))
    res = (len(a) < len(b)) or (or_eq and len(a) == len(b))
    for i in range(n - 1, -1, -1):
        res = b_or([i_lt(a[i], b[i]), b_and([i_eq(a[i], b[i]), res])])
    return res


# ------------------------------------------------------------ UPLC values
class _Unit:
    def __repr__(self):
        return "()"


UNIT = _Unit()


class B:
    """bytestring"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"B{list(self.e)}"


class T:
    """text: tuple of code points"""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"T{list(self.e)}"


class L:
    """builtin list with the kind of its elements"""

    __slots__ = ("v", "k")

    def __init__(self, v, k):
        self.v = v
        self.k = k

    def __repr__(self):
        return f"L{list(self.v)}"


class P:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a = a
        self.b = b

    def __repr__(self):
        return f"P({self.a},{self.b})"


class D:
    __slots__ = ()


class DC(D):
    __slots__ = ("tag", "fields")

    def __init__(self, tag, fields):
        self.tag = tag
        self.fields = tuple(fields)

    def __repr__(self):
        return f"Constr {self.tag} {list(self.fields)}"


class DM(D):
    __slots__ = ("pairs",)

    def __init__(self, pairs):
        self.pairs = tuple(pairs)

    def __repr__(self):
        return f"Map {list(self.pairs)}"


class DL(D):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return f"List {list(self.items)}"


class DI(D):
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def __repr__(self):
        return f"I {self.i}"


class DB(D):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return f"B {list(self.e)}"


class DX(D):
    """An arbitrary data value whose shape is decided when it is inspected."""

    __slots__ = ("name", "depth", "width", "bytelen", "res", "kinds", "maxtag")

    def __init__(self, name, depth, width, bytelen, kinds="CMLIB", maxtag=None):
        self.name = name
        self.depth = depth
        self.width = width
        self.bytelen = bytelen
        self.res = None
        self.kinds = kinds
        self.maxtag = maxtag

    def __repr__(self):
        return repr(self.res) if self.res is not None else f"?{self.name}"

    def force(self):
        if self.res is None:
            c = ctx()
            kinds = self.kinds if self.depth > 0 else "".join(
                k for k in self.kinds if k in "IB"
            )
            k = kinds[c.choose(len(kinds), self.name)]
            if k == "I":
                self.res = DI(c.fresh_int(self.name))
            elif k == "B":
                n = c.choose(self.bytelen + 1)
                self.res = DB(fresh_bytes(self.name, n))
            else:
                n = c.choose(self.width + 1)
                sub = lambda s: DX(
                    f"{self.name}.{s}", self.depth - 1, self.width, self.bytelen
                )
                if k == "C":
                    t = c.fresh_int(self.name + "_tag")
                    c.assume(t >= 0)
                    if self.maxtag is not None:
                        c.assume(t <= self.maxtag)
                    self.res = DC(t, [sub(i) for i in range(n)])
                elif k == "L":
                    self.res = DL([sub(i) for i in range(n)])
                else:
                    self.res = DM([(sub(f"k{i}"), sub(f"v{i}")) for i in range(n)])
        return self.res


def fresh_bytes(name, n):
    c = ctx()
    out = []
    for i in range(n):
        x = c.fresh_int(f"{name}[{i}]")
        c.assume(z3.And(x >= 0, x <= 255))
        out.append(x)
    return tuple(out)


def byte_bits(x):
    """the eight bits (least significant first, as booleans) of a byte.  A
    symbolic byte gets fresh bits tied to it by its binary expansion, a
    conservative extension of the path condition."""
    if type(x) is int:
        return [bool(x >> k & 1) for k in range(8)]
    c = ctx()
    k = x.get_id()
    if k not in c.bits:
        bs = [c.fresh_bool("bit") for _ in range(8)]
        c.bits[k] = (bs, x)
        c.assume(x == z3.Sum([z3.If(b, 2**j, 0) for j, b in enumerate(bs)]))
    return c.bits[k][0]


def bits_byte(bs):
    """the byte with these bits"""
    if all(type(b) is bool for b in bs):
        return sum(2**j for j, b in enumerate(bs) if b)
    x = norm(z3.Sum([z3.If(b, z3.IntVal(2**j), z3.IntVal(0)) if type(b) is not bool else z3.IntVal(2**j if b else 0) for j, b in enumerate(bs)]))
    if type(x) is not int:
        ctx().bits.setdefault(x.get_id(), (list(bs), x))
    return x


def byte_eq(x, y):
    """equality of two bytes; bit by bit where both have a known expansion"""
    if x is y:
        return True
    if type(x) is int and type(y) is int:
        return x == y
    t = ctx().bits
    for v in (x, y):
        if type(v) is int:
            if not 0 <= v <= 255:
                return i_eq(x, y)
        elif v.get_id() not in t:
            return i_eq(x, y)
    if type(x) is not int and type(y) is not int and x.get_id() == y.get_id():
        return True
    return b_and([b_iff(p, q) for p, q in zip(byte_bits(x), byte_bits(y))])


def b_iff(p, q):
    if p is q:
        return True
    if type(p) is bool:
        return q if p else b_not(q)
    if type(q) is bool:
        return p if q else b_not(p)
    return norm(p == q)


def dforce(d):
    return d.force() if type(d) is DX else d


def d_eq(a, b):
    """structural equality of data as a formula"""
    if a is b:
        return True
    if type(a) is DX and type(b) is DX and a.res is None and b.res is None:
        pass
    a, b = dforce(a), dforce(b)
    if a is b:
        return True
    if type(a) is not type(b):
        return False
    if type(a) is DI:
        return i_eq(a.i, b.i)
    if type(a) is DB:
        return seq_eq(a.e, b.e)
    if type(a) is DC:
        if len(a.fields) != len(b.fields):
            return False
        t = i_eq(a.tag, b.tag)
        if t is False:
            return False
        return b_and([t] + [d_eq(x, y) for x, y in zip(a.fields, b.fields)])
    if type(a) is DL:
        if len(a.items) != len(b.items):
            return False
        return b_and([d_eq(x, y) for x, y in zip(a.items, b.items)])
    if type(a) is DM:
        if len(a.pairs) != len(b.pairs):
            return False
        return b_and(
            [
                b_and([d_eq(x[0], y[0]), d_eq(x[1], y[1])])
                for x, y in zip(a.pairs, b.pairs)
            ]
        )
    raise TypeError(type(a))


def v_eq(a, b):
    """equality of arbitrary first-order UPLC values"""
    if isinstance(a, D) and isinstance(b, D):
        return d_eq(a, b)
    if is_bool(a) and is_bool(b):
        return b_eq(a, b)
    if is_int(a) and is_int(b):
        return i_eq(a, b)
    if type(a) is not type(b):
        return False
    if type(a) in (B, T):
        return seq_eq(a.e, b.e)
    if type(a) is L:
        if len(a.v) != len(b.v):
            return False
        return b_and([v_eq(x, y) for x, y in zip(a.v, b.v)])
    if type(a) is P:
        return b_and([v_eq(a.a, b.a), v_eq(a.b, b.b)])
    if a is UNIT:
        return True
    return None  # not first order


def kind(v):
    if is_bool(v):
        return "bool"
    if is_int(v):
        return "integer"
    if isinstance(v, D):
        return "data"
    t = type(v)
    if t is B:
        return "bytestring"
    if t is T:
        return "string"
    if t is L:
        return f"list({v.k})"
    if t is P:
        a, b = kind(v.a), kind(v.b)
        return "pair" if a == b == "data" else f"pair({a},{b})"
    if v is UNIT:
        return "unit"
    return "other"


# ------------------------------------------------------------------ UTF-8
def utf8_encode(cps):
    out = []
    for c in cps:
        if truth(i_lt(c, 0x80)):
            out.append(c)
        elif truth(i_lt(c, 0x800)):
            out.append(i_add(0xC0, i_floordiv(c, 64)))
            out.append(i_add(0x80, i_mod(c, 64)))
        elif truth(i_lt(c, 0x10000)):
            out.append(i_add(0xE0, i_floordiv(c, 4096)))
            out.append(i_add(0x80, i_mod(i_floordiv(c, 64), 64)))
            out.append(i_add(0x80, i_mod(c, 64)))
        else:
            out.append(i_add(0xF0, i_floordiv(c, 262144)))
            out.append(i_add(0x80, i_mod(i_floordiv(c, 4096), 64)))
            out.append(i_add(0x80, i_mod(i_floordiv(c, 64), 64)))
            out.append(i_add(0x80, i_mod(c, 64)))
    return tuple(out)


def utf8_decode(bs, err):
    """strict UTF-8; raises err on invalid input (forks on validity)"""
    out = []
    i = 0
    n = len(bs)

    def cont(j):
        if j >= n:
            raise err
        b = bs[j]
        if not truth(b_and([i_le(0x80, b), i_lt(b, 0xC0)])):
            raise err
        return i_sub(b, 0x80)

    while i < n:
        b = bs[i]
        if truth(i_lt(b, 0x80)):
            out.append(b)
            i += 1
        elif truth(i_lt(b, 0xC2)):
            raise err
        elif truth(i_lt(b, 0xE0)):
            c1 = cont(i + 1)
            out.append(i_add(i_mul(i_sub(b, 0xC0), 64), c1))
            i += 2
        elif truth(i_lt(b, 0xF0)):
            c1 = cont(i + 1)
            c2 = cont(i + 2)
            cp = i_add(i_add(i_mul(i_sub(b, 0xE0), 4096), i_mul(c1, 64)), c2)
            if truth(i_lt(cp, 0x800)):
                raise err
            if truth(b_and([i_le(0xD800, cp), i_lt(cp, 0xE000)])):
                raise err
            out.append(cp)
            i += 3
        elif truth(i_lt(b, 0xF5)):
            c1 = cont(i + 1)
            c2 = cont(i + 2)
            c3 = cont(i + 3)
            cp = i_add(
                i_add(
                    i_add(i_mul(i_sub(b, 0xF0), 262144), i_mul(c1, 4096)),
                    i_mul(c2, 64),
                ),
                c3,
            )
            if truth(i_lt(cp, 0x10000)) or truth(i_lt(0x10FFFF, cp)):
                raise err
            out.append(cp)
            i += 4
        else:
            raise err
    return tuple(out)


# ----------------------------------------------- uninterpreted functions
def uf_bytes(name, nbytes, *seqs):
    """nbytes-long byte string as an uninterpreted function of the byte
    sequences: equal arguments give equal results (congruence by z3)."""
    args = []
    for s in seqs:
        args.append(len(s))
        args.extend(s)
    zargs = [_zi(a) for a in args]
    c = ctx()
    out = []
    for i in range(nbytes):
        f = z3.Function(
            f"{name}_{'_'.join(str(len(s)) for s in seqs)}_{i}",
            *([z3.IntSort()] * len(zargs)),
            z3.IntSort(),
        )
        t = f(*zargs)
        c.assume(z3.And(t >= 0, t <= 255))
        out.append(t)
    return tuple(out)
