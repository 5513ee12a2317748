"""helpers shared by the checks"""
import os
import random
import z3
from usl import *

SEED = int(os.environ.get("VERIF_SEED", "1"))
HDR = {64: ".x64\n.model flat\n.code\n", 32: ".686\n.model flat\n.code\n", 16: ".model tiny\n.686\n.code\n"}
END = "\nend\n"


def same(c, out, want, label="the emitted bytes"):
    c.check("accepted", c.code == 0)
    c.check("an object is written", out is not None)
    if len(want) != len(out):
        c.check("number of bytes emitted", False)
    e = []
    for a, b in zip(out, want):
        if isinstance(a, int) and isinstance(b, int):
            if a != b:
                c.check(label, False)
        elif not (isinstance(b, int) and b == -1):
            e.append(bv(a, 8) == bv(b, 8))
    c.check(label, z3.And(e) if e else True)


def bytes_of(v, n):
    return [z3.Extract(8 * i + 7, 8 * i, v) for i in range(n)]
