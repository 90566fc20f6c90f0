import importlib
import sys
import os

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import symx.env  # noqa
import opshin.builder  # imported once, children fork
import opshin.prelude
from symx import tv, runner

mod = importlib.import_module("checks." + sys.argv[1].lower())
runner.main(mod)
