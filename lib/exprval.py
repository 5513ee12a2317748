"""Reference semantics of constant expressions (MASM Programmer's Guide, table 1.3)."""
import re
import z3

PREC = {"high": 6, "low": 6, "highword": 6, "lowword": 6, "high32": 6, "low32": 6,
        "*": 8, "/": 8, "mod": 8, "shl": 8, "shr": 8, "+": 9, "-": 9,
        "eq": 10, "ne": 10, "lt": 10, "le": 10, "gt": 10, "ge": 10, "not": 11, "and": 12, "or": 13, "xor": 13}
UNARY = ("high", "low", "highword", "lowword", "high32", "low32", "not")
ONES = z3.BitVecVal(2**64 - 1, 64)
ZERO = z3.BitVecVal(0, 64)


def K(n):
    return z3.BitVecVal(n, 64)


def truth(b):
    return z3.If(b, ONES, ZERO)


def un(op, a):
    return {"-": lambda: -a, "+": lambda: a, "not": lambda: ~a, "low": lambda: a & 0xff, "high": lambda: z3.LShR(a, 8) & 0xff,
            "lowword": lambda: a & 0xffff, "highword": lambda: z3.LShR(a, 16) & 0xffff,
            "low32": lambda: a & 0xffffffff, "high32": lambda: z3.LShR(a, 32)}[op]()


def binop(op, a, b, bad):
    if op in ("/", "mod"):
        bad.append(b == 0)
    if op in ("shl", "shr"):
        bad.append(b < 0)
    return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "mod": lambda: z3.URem(a, b),
            "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "shr": lambda: z3.LShR(a, b),
            "eq": lambda: truth(a == b), "ne": lambda: truth(a != b), "lt": lambda: truth(a < b), "le": lambda: truth(a <= b),
            "gt": lambda: truth(a > b), "ge": lambda: truth(a >= b)}[op]()


def tokens(s):
    return re.findall(r"«\w+»|[A-Za-z_]\w*|\d\w*|'[^']*'|[()+\-*/]", s)


def evaluate(text, env):
    """-> (64-bit z3 value, [conditions under which it is undefined])"""
    t = tokens(text)
    i = 0
    bad = []

    def prim():
        nonlocal i
        x = t[i]
        i += 1
        if x == "(":
            v = expr(99)
            assert t[i] == ")"
            i += 1
            return v
        if x.startswith("«"):
            v = env[x[1:-1]]
            return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
        if x[0] == "'":
            n = 0
            for ch in x[1:-1]:
                n = n << 8 | ord(ch)
            return K(n)
        if x[0].isdigit():
            return K(int(x[:-1], 16) if x[-1] in "hH" else int(x))
        lx = x.lower()
        if lx in UNARY or lx in "+-":
            p = 7 if lx in "+-" else PREC[lx]
            return un(lx, expr(p))
        v = env[x]
        return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)

    def expr(limit):
        """everything that binds tighter than limit"""
        nonlocal i
        a = prim()
        while i < len(t) and t[i] != ")":
            o = t[i].lower()
            if PREC[o] >= limit:
                break
            i += 1
            a = binop(o, a, expr(PREC[o]), bad)
        return a
    v = expr(99)
    assert i == len(t), (text, t[i:])
    return v, bad
