"""Random typed programs (statement level).  The generator only decides which
programs are checked; every check is decided by the solver over all inputs."""
import textwrap
from .lib import TYPING
from symx.tv import Template

INT, BOOL, LIST, BYTES, UNI, REC = "int", "bool", "List[int]", "bytes", "Union[int, bytes]", "A"

HEAD_REC = """from dataclasses import dataclass
from pycardano import Datum as Anything, PlutusData
@dataclass(unsafe_hash=True)
class A(PlutusData):
    CONSTR_ID = 2
    x: int
    y: bytes
"""


class Gen:
    def __init__(self, rng, stmts=5, depth=2, feats=()):
        self.r = rng
        self.n = 0
        self.feats = set(feats)
        self.depth = depth
        self.size = stmts
        self.funs = []  # (name, [types], ret)
        self.loops = 0

    def fresh(self, p="v"):
        self.n += 1
        return f"{p}{self.n}"

    def pick(self, xs):
        return self.r.choice(xs)

    def vars(self, env, t):
        return [v for v, tt in env.items() if tt == t]

    # -- expressions
    def expr(self, env, t, d):
        r = self.r
        vs = self.vars(env, t)
        if d <= 0 or r.random() < 0.2:
            if vs and r.random() < 0.8:
                return self.pick(vs)
            return self.const(t, env)
        fs = [f for f in self.funs if f[2] == t]
        if fs and r.random() < 0.3 and not self.in_loop:
            f = self.pick(fs)
            return f"{f[0]}({', '.join(self.expr(env, a, d - 1) for a in f[1])})"
        if t == INT:
            k = r.randrange(13)
            e = lambda: self.expr(env, INT, d - 1)
            if k <= 2:
                return f"({e()} {self.pick('+-')} {e()})"
            if k == 3:
                return f"({e()} * {self.pick([2, 3, -1, -2])})"
            if k == 4:
                return f"({e()} {self.pick(['//', '%'])} {self.pick([2, 3, -2, 7])})"
            if k == 5:
                return f"(-{e()})"
            if k == 6:
                return f"({e()} if {self.expr(env, BOOL, d - 1)} else {e()})"
            if k == 7 and self.vars(env, LIST):
                return f"len({self.expr(env, LIST, d - 1)})"
            if k == 8 and self.vars(env, LIST):
                l = self.pick(self.vars(env, LIST))
                ix = self.pick(["0", "-1", "1", e()])
                if r.random() < 0.6:
                    return f"({l}[{self.pick(['0', '-1'])}] if len({l}) > 0 else {e()})"
                return f"{l}[{ix}]"
            if k == 9 and self.vars(env, LIST):
                return f"sum({self.expr(env, LIST, d - 1)})"
            if k == 10:
                return f"{self.pick(['abs', 'int'])}({e()})"
            if k == 11 and self.vars(env, REC):
                return f"{self.pick(self.vars(env, REC))}.x"
            if k == 12:
                return f"int({self.expr(env, BOOL, d - 1)})"
            return f"({e()} + {r.randint(-3, 9)})"
        if t == BOOL:
            k = r.randrange(7)
            e = lambda: self.expr(env, INT, d - 1)
            b = lambda: self.expr(env, BOOL, d - 1)
            cmp = lambda: self.pick(["<", "<=", ">", ">=", "==", "!="])
            if k <= 1:
                return f"({e()} {cmp()} {e()})"
            if k == 2:
                return f"({b()} {self.pick(['and', 'or'])} {b()})"
            if k == 3:
                return f"(not {b()})"
            if k == 4:
                return f"({e()} {self.pick(['<', '<='])} {e()} {self.pick(['<', '<=', '>'])} {e()})"
            if k == 5 and self.vars(env, LIST):
                return f"({e()} in {self.pick(self.vars(env, LIST))})"
            if k == 6 and self.vars(env, BYTES):
                return f"({self.expr(env, BYTES, d - 1)} {self.pick(['==', '!=', '<'])} {self.expr(env, BYTES, d - 1)})"
            return f"({e()} {cmp()} {e()})"
        if t == LIST:
            k = r.randrange(5)
            l = lambda: self.expr(env, LIST, d - 1)
            if k == 0:
                return f"[{', '.join(self.expr(env, INT, d - 1) for _ in range(r.randint(1, 3)))}]"
            if k == 1:
                return f"({l()} + {l()})"
            if k == 2 and vs:
                return f"{self.pick(vs)}{self.pick(['[1:]', '[:1]', '[:-1]'])}"
            if k == 3:
                x = self.fresh("c")
                c = f" if {self.expr({**env, x: INT}, BOOL, d - 1)}" if r.random() < 0.4 else ""
                old, self.in_loop = self.in_loop, True
                s = f"[{self.expr({**env, x: INT}, INT, d - 1)} for {x} in {l()}{c}]"
                self.in_loop = old
                return s
            return self.pick(vs) if vs else "[1, 2]"
        if t == BYTES:
            k = r.randrange(3)
            if k == 0:
                return f"({self.expr(env, BYTES, d - 1)} + {self.expr(env, BYTES, d - 1)})"
            if k == 1 and vs:
                return f"{self.pick(vs)}[{self.pick([':1', '1:', ':-1'])}]"
            return self.const(t, env)
        if t == REC:
            return f"A({self.expr(env, INT, d - 1)}, {self.expr(env, BYTES, d - 1)})"
        if t == UNI:
            return self.expr(env, self.pick([INT, BYTES]), d - 1)
        raise ValueError(t)

    def const(self, t, env):
        r = self.r
        if t == INT:
            return str(r.choice([0, 1, 2, -1, 5, 10, r.randint(-40, 40)]))
        if t == BOOL:
            iv = self.vars(env, INT)
            if iv and r.random() < 0.8:
                return f"({self.pick(iv)} {self.pick(['<', '<=', '>', '!='])} {self.pick(iv + [r.randint(-5, 5)])})"
            return self.pick(["True", "False"])
        if t == LIST:
            return self.pick(["[0]", "[3, 1]", "[-1, 4, 2]"])
        if t == BYTES:
            return self.pick(["b''", "b'a'", "b'\\x00z'"])
        if t == REC:
            return self.pick(["A(1, b'')", "A(-2, b'x')"])
        if t == UNI:
            return self.pick(["4", "b'k'"])
        raise ValueError(t)

    # -- statements: returns (lines, env) ; env has definitely assigned names
    def block(self, env, n, d, ret=None):
        lines = []
        env = dict(env)
        for _ in range(n):
            l, env = self.stmt(env, d, ret)
            lines += l
        return lines or ["pass"], env

    def ind(self, ls):
        return ["    " + l for l in ls]

    def stmt(self, env, d, ret):
        r = self.r
        k = r.random()
        mut = [v for v in env if not v.startswith("_") and env[v] in (INT, BOOL, LIST, BYTES) and v not in self.frozen]
        if d <= 0 or k < 0.34:
            if mut and r.random() < 0.65:
                v = self.pick(mut)
                if env[v] == INT and r.random() < 0.5:
                    return [f"{v} {self.pick(['+=', '-='])} {self.expr(env, INT, 1)}"], env
                return [f"{v} = {self.expr(env, env[v], 2)}"], env
            t = self.pick([INT, INT, BOOL, LIST] + ([BYTES] if "bytes" in self.feats else []))
            v = self.fresh()
            e2 = dict(env)
            e2[v] = t
            return [f"{v} = {self.expr(env, t, 2)}"], e2
        if k < 0.42 and "tuple" in self.feats and len(self.vars(env, INT)) >= 2:
            a, b = r.sample(self.vars(env, INT), 2)
            if a in self.frozen or b in self.frozen:
                return ["pass"], env
            return [f"{a}, {b} = {self.expr(env, INT, 1)}, {self.expr(env, INT, 1)}"], env
        if k < 0.50 and "print" in self.feats:
            t = self.pick([INT, BOOL, LIST] + ([BYTES] if "bytes" in self.feats else []))
            if t == BYTES:
                return [f"print({self.expr(env, BYTES, 1)}.hex())"], env
            return [f"print({self.expr(env, self.pick([INT, BOOL]), 1)})"], env
        if k < 0.55 and "assert" in self.feats:
            m = ", 'm%d'" % r.randint(0, 9) if r.random() < 0.5 else ""
            return [f"assert {self.expr(env, BOOL, 1)}{m}"], env
        if k < 0.60 and ret and "return" in self.feats:
            c = self.expr(env, BOOL, 2)
            return [f"if {c}:", f"    return {self.expr(env, ret, 1)}"], env
        if k < 0.80:
            c = self.expr(env, BOOL, 2)
            a, ea = self.block(env, r.randint(1, 2), d - 1, ret)
            lines = [f"if {c}:"] + self.ind(a)
            es = [ea]
            if r.random() < 0.3:
                b, eb = self.block(env, 1, d - 1, ret)
                lines += [f"elif {self.expr(env, BOOL, 1)}:"] + self.ind(b)
                es.append(eb)
            if r.random() < 0.5:
                b, eb = self.block(env, r.randint(1, 2), d - 1, ret)
                lines += ["else:"] + self.ind(b)
                es.append(eb)
            else:
                es.append(env)
            out = {v: t for v, t in es[0].items() if all(e.get(v) == t for e in es)}
            return lines, out
        if k < 0.93 and not self.in_loop:
            self.loops += 1
            old, self.in_loop = self.in_loop, True
            v = self.fresh("i")
            if r.random() < 0.7:
                it = self.pick(self.vars(env, LIST)) if self.vars(env, LIST) else "range(2)"
                if r.random() < 0.3:
                    it = self.pick(["range(2)", "range(3)", "[5, -1]"])
                fr = it if it in env else None
                if fr:
                    self.frozen.add(fr)
                a, ea = self.block({**env, v: INT}, r.randint(1, 2), d - 1, ret)
                lines = [f"for {v} in {it}:"] + self.ind(a)
                if fr:
                    self.frozen.discard(fr)
            else:
                self.frozen.add(v)
                a, ea = self.block({**env, v: INT}, r.randint(1, 2), d - 1, ret)
                self.frozen.discard(v)
                c = f" and {self.expr(env, BOOL, 1)}" if r.random() < 0.5 else ""
                lines = [f"{v} = 0", f"while {v} < {r.randint(1, 3)}{c}:"] + self.ind(a + [f"{v} += 1"])
            self.in_loop = old
            return lines, env
        if "def" in self.feats and not self.in_loop and d > 1:
            return self.fdef(env, d)
        return [f"pass"], env

    def fdef(self, env, d, top=False):
        r = self.r
        f = self.fresh("f")
        ps = [(self.fresh("p"), self.pick([INT, INT, BOOL, LIST])) for _ in range(r.randint(0, 2))]
        ret = self.pick([INT, INT, BOOL, LIST])
        cap = {} if top else {v: t for v, t in env.items() if r.random() < 0.6}
        fenv = {**cap, **dict(ps)}
        oldf, self.frozen = self.frozen, self.frozen | set(cap)
        oldloop, self.in_loop = self.in_loop, True
        body, e2 = self.block(fenv, r.randint(1, 2), 1, ret)
        self.in_loop = oldloop
        self.frozen = oldf
        lines = [f"def {f}({', '.join(f'{a}: {t}' for a, t in ps)}) -> {ret}:"] + self.ind(body + [f"return {self.expr(e2, ret, 1)}"])
        self.funs.append((f, [t for _, t in ps], ret))
        return lines, env

    def program(self, params=None):
        self.frozen = set()
        self.in_loop = False
        params = params or [("x", INT), ("y", INT), ("xs", LIST)]
        ret = self.pick([INT, INT, BOOL, LIST])
        lines = []
        if "def" in self.feats:
            for _ in range(self.r.randint(0, 2)):
                l, _e = self.fdef({}, 2, top=True)
                lines += l
        body, env = self.block(dict(params), self.size, self.depth, ret)
        lines.append(f"def validator({', '.join(f'{a}: {t}' for a, t in params)}) -> {ret}:")
        lines += self.ind(body)
        vs = [v for v in env if env[v] == INT][-4:]
        tail = self.expr(env, ret, 2)
        if ret == INT and vs:
            tail = " + ".join([f"{v} * {i + 1}" for i, v in enumerate(vs)])
        lines.append(f"    return {tail}")
        return TYPING + (HEAD_REC if "rec" in self.feats else "") + "\n".join(lines) + "\n"


def programs(rng, n, prefix, feats, stmts=4, depth=2, configs=("O1", "O2"), params=None, **kw):
    import random

    out = []
    kw.setdefault("max_paths", 150)
    kw.setdefault("expect", "reject_or_agree")
    kw.setdefault("budget", 25)
    b = dict(list_len=2, bytes_len=1, str_len=1, ascii=True)
    b.update(kw.pop("bounds", {}))
    for i in range(n):
        g = Gen(random.Random(rng.random()), stmts, depth, feats)
        src = g.program(params)
        if kw.get("trace") and "print" not in src and "assert" not in src:
            src = src.replace("    return ", "    print(x)\n    return ") if False else src
        out.append(Template(f"{prefix}{i}", src, bounds=b, configs=configs, always_fails=True, **kw))
    return out
