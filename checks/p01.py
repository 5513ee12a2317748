"""P01: constant expressions evaluate to their 64-bit value."""
import random
import z3
from usl import *
from exprval import *

H64 = ".x64\n.model flat\n.code\n"
H32 = ".386\n.model flat\n.code\n"
END = "\nend\n"
BIN = ["+", "-", "*", "/", "mod", "and", "or", "xor", "shl", "shr", "eq", "ne", "lt", "le", "gt", "ge"]
NM = {"+": "add", "-": "sub", "*": "mul", "/": "div"}
UN = ["-", "+", "not", "low", "high", "lowword", "highword", "low32", "high32"]
HEAVY = ("*", "/", "mod")


def nm(o):
    return NM.get(o, o)


def spec_of(expr, n=8, extra=None):
    def spec(c):
        v, bad = evaluate(expr, c.v)
        if extra:
            v = extra(c, v)
        if bad and c.branch(z3.Or(bad)):
            c.check("an undefined operation is an error", c.code != 0 and c.file("t.bin") is None)
            return
        c.check("a defined expression is accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("output has the size of the data item", o is not None and len(o) == n)
        c.check("value of the expression", bv(le(o, 0, n), 8 * n) == z3.Extract(8 * n - 1, 0, v))
    return spec


def ejob(id, expr, w=64, hdr=H64, assume=()):
    names = sorted(set(re.findall("«(\\w+)»", expr)))
    ops = tokens(expr)
    heavy = sum(o in HEAVY for o in ops)
    cmpn = any(o in ("eq", "ne", "lt", "le", "gt", "ge") for o in ops)
    if heavy and (len(names) > 2 or cmpn) or heavy and w == 64 and len(names) > 2:
        w = 8 if heavy == 1 and not cmpn else 4
    vs = {n: w for n in names}
    return Job(id, hdr + "dq " + expr + END, spec_of(expr), vs, assume)


def prec(o, unary=False):
    return 7 if unary and o in "+-" else PREC[o]


def rtree(rng, depth, names):
    if depth == 0 or rng.random() < 0.15:
        return rng.choice(names + ["%d" % rng.choice([0, 1, 2, 3, 7, 8, 31, 255, 65536])])
    r = rng.random()
    if r < 0.2:
        return "%s (%s)" % (rng.choice(UN), rtree(rng, depth - 1, names))
    a, b = rtree(rng, depth - 1, names), rtree(rng, depth - 1, names)
    if rng.random() < 0.5:
        a = "(%s)" % a
    if rng.random() < 0.5:
        b = "(%s)" % b
    elif re.match(r"[-+]|[a-z]", b):
        b = "(%s)" % b
    return "%s %s %s" % (a, rng.choice(BIN), b)


def jobs():
    J = []
    for o in BIN:
        J.append(ejob("bin-" + nm(o), "«A» %s «B»" % o))
        J.append(ejob("bin32-" + nm(o), "«A» %s «B»" % o, 16 if o in ("/", "mod") else 32, H32, assume=["(ne A (c 32 0xffffffff))"] if o == "shr" else ()))
        J.append(ejob("bin-k-" + nm(o), "«A» %s 3" % o))
        J.append(ejob("bin-kl-" + nm(o), "100 %s «A»" % o))
    for u in UN:
        J.append(ejob("un-" + nm(u), "%s «A»" % u))
        J.append(ejob("un-par-" + nm(u), "%s (%s («A»))" % (u, u)))
        for u2 in UN:
            if prec(u2, True) <= prec(u, True):
                J.append(ejob("un2-%s-%s" % (nm(u), nm(u2)), "%s %s «A»" % (u, u2)))
        for o in BIN:
            J.append(ejob("unl-%s-%s" % (nm(u), nm(o)), "%s «A» %s «B»" % (u, o)))
            if prec(u, True) <= prec(o):
                J.append(ejob("unr-%s-%s" % (nm(o), nm(u)), "«A» %s %s «B»" % (o, u)))
    for o in BIN:
        for p in BIN:
            J.append(ejob("pair-%s-%s" % (nm(o), nm(p)), "«A» %s «B» %s «C»" % (o, p)))
            J.append(ejob("pairp-%s-%s" % (nm(o), nm(p)), "«A» %s («B» %s «C»)" % (o, p)))
    rng = random.Random(SEED)
    for k in range(200 if THOROUGH else 40):
        J.append(ejob("tree-%d" % k, rtree(rng, 3, ["«A»", "«B»", "«C»"]) + " + 0", 8))
    # the operands reach the expression through symbols
    for o in BIN:
        e = "«A» %s «B»" % o
        J.append(Job("sym-eq-" + nm(o), H64 + "X = «A»\nY = «B»\ndq X %s Y" % o + END, spec_of(e), {"A": 64, "B": 64}))
        J.append(Job("sym-equ-" + nm(o), H64 + "X equ 0+«A»\nY equ 0+«B»\ndq X %s Y" % o + END, spec_of(e), {"A": 64, "B": 64}))
        J.append(Job("sym-res-" + nm(o), H64 + "X = «A» %s «B»\ndq X" % o + END, spec_of(e), {"A": 64, "B": 64}))
        J.append(Job("sym-redef-" + nm(o), H64 + "X = «A»\nX = X %s «B»\ndq X\nX = 5" % o + END, spec_of(e), {"A": 64, "B": 64}))
        J.append(Job("sym-fwd-" + nm(o), H64 + "dq X %s Y\nX equ 0+«A»\nY equ 0+«B»" % o + END, spec_of(e), {"A": 64, "B": 64}))
        J.append(Job("sym-fwd2-" + nm(o), H64 + "X equ Y %s «B»\ndq X\nY equ 0+«A»" % o + END, spec_of(e), {"A": 64, "B": 64}))
    for k, s in enumerate(["'a'", "'ab'", "'abc'", "'abcd'", "'abcdefgh'"]):
        J.append(ejob("chr-%d" % k, "%s + «A»" % s))
    J.append(Job("chr-sym", H64 + "dq 'P«b:A»' xor 5" + END, spec_of("(5000h + «A») xor 5"), {"A": 8},
                 assume=["(not %s)" % oneof("A", 8, [0, 9, 10, 13, 26, 39])]))
    return J


def check():
    return Check("P01", jobs(), "expressions of up to three 64-bit operands (8-bit where *, / or MOD meet another operator), every operator and every ordered pair of binary operators with and without parentheses; operands written as literals, = and EQU symbols, forward references")
