"""setup_cmd: check that the tools are there and that the encoding engine answers."""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sx import boot
boot.boot()
from sx.api import SymCtx


def good(c):
    x = c.int("x")
    y = abs(x)
    c.check(y >= 0, "abs")


def bad(c):
    x = c.int("x")
    c.check(x * 2 != 14, "seven")


a, b = SymCtx(), SymCtx()
a.explore(good)
b.explore(bad)
assert not a.cexs and a.stats["discharged"] >= 1, "engine self test (valid)"
assert b.cexs and b.cexs[0].inputs, "engine self test (violable)"
assert os.path.exists("/opt/venv/bin/python")
print("ok")
