"""Helpers to write corpus programs."""
import textwrap
from symx.tv import Template

TYPING = "from typing import List, Dict, Union, Tuple\n"


def sig(params):
    return ", ".join(f"{k}: {v}" for k, v in params.items())


def E(name, ret, expr, params, pre="", head="", **kw):
    """validator(params) -> ret: [pre]; return expr"""
    body = textwrap.indent(textwrap.dedent(pre).strip("\n"), "    ") + "\n" if pre else ""
    src = TYPING + head + f"def validator({sig(params)}) -> {ret}:\n{body}    return {expr}\n"
    return Template(name, src, **kw)


def PR(name, src, typing=True, **kw):
    src = textwrap.dedent(src).lstrip("\n")
    if typing and "from typing" not in src and "prelude" not in src:
        src = TYPING + src
    return Template(name, src, **kw)


PRELUDE = "from opshin.prelude import *\n"


# --- predicates describing the input regions of known findings
from symx import pysym as _S
from symx.values import b_or, b_and, i_eq, i_lt, i_le, truth


def chars(s):
    return s.e if isinstance(s, _S.SSeq) else [ord(c) for c in s] if isinstance(s, str) else list(s)


def any_char(s, pred):
    return truth(b_or([pred(c) for c in chars(s)]))


def is_ws(c):
    return b_or([b_and([i_le(9, c), i_le(c, 13)]), i_eq(c, 32)])


def has_ws(s):
    return any_char(s, is_ws)
