"""P02: numeric literals denote the number they spell in their radix."""
import os
import random
import z3
from usl import *
SEED = int(os.environ.get("VERIF_SEED", "1"))
DIG = "0123456789abcdef"

H64 = ".x64\n.model flat\n.code\n"
END = "\nend\n"


def expect(c, val, ok, n=8):
    """val: 192-bit value, ok: Bool - the literal is a number and fits n bytes"""
    if c.branch(z3.And(ok, z3.ULT(val, z3.BitVecVal(1 << (8 * n), 192)))):
        c.check("a valid number is accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("size", o is not None and len(o) == n)
        c.check("value of the literal", bv(le(o, 0, n), 8 * n) == z3.Extract(8 * n - 1, 0, val))
    else:
        c.check("an invalid or oversized number is an error", c.code != 0 and c.file("t.bin") is None)


def z(x):
    return z3.ZeroExt(192 - x.size(), x)


def horner(ds, base):
    v = 0
    for d in ds:
        v = v * base + z(d)
    return v


def digit(ch):
    """(value, is alphanumeric digit character) of an ASCII character"""
    up = z3.If(z3.And(z3.UGE(ch, 0x61), z3.ULE(ch, 0x7a)), ch - 0x20, ch)
    isd = z3.And(z3.UGE(up, 0x30), z3.ULE(up, 0x39))
    isl = z3.And(z3.UGE(up, 0x41), z3.ULE(up, 0x46))
    return z3.If(isd, up - 0x30, z3.If(isl, up - 0x37, z3.BitVecVal(255, 8)))


def djob(id, n, base, pre, suf, hdr="", width=8, direc="dq", upper=None):
    """n digits valid in base; all symbolic when n is small or the base a power
    of two, else a list of jobs whose symbolic window of one or two digits sits at the
    start, at the end and in between, the other digits being fixed (random and all-largest)"""
    if not pre and base > 10:
        pre = "0"
    if base & (base - 1) == 0 or n <= 5:
        return [djob1(id, n, base, pre, suf, hdr, width, direc, upper, {})]
    J = []
    rng = random.Random("%s-%d" % (id, SEED))
    w = 1 if n > 20 else 2
    for lo in sorted({0, 1 + rng.randrange(n - w - 1), n - w}) if not THOROUGH else range(n - w + 1):
        top = DIG[base - 1]
        fixed = {i: top if lo % 3 == 2 else DIG[rng.randrange(base)] for i in range(n) if not lo <= i < lo + w}
        J.append(djob1("%s-w%d" % (id, lo), n, base, pre, suf, hdr, width, direc, upper, fixed))
    return J


def djob1(id, n, base, pre, suf, hdr, width, direc, upper, fixed):
    vs, asm, txt = {}, [], ""
    for i in range(n):
        if i in fixed:
            txt += fixed[i]
            continue
        v = "D%d" % i
        vs[v] = 8
        if base <= 10:
            asm.append(urange(v, 8, 0x30, 0x30 + base - 1))
        else:
            a = urange(v, 8, 0x61, 0x61 + base - 11)
            if upper and (n <= 3 or i & 1):
                b = urange(v, 8, 0x41, 0x41 + base - 11)
                a = "(or %s %s)" % (a, b) if n <= 3 else b
            # the tokenizer branches on the class of each character: long
            # literals get a fixed class (digit or letter) per position
            if n <= 3:
                a = "(or %s %s)" % (urange(v, 8, 0x30, 0x39), a)
            elif (i * 7 + n * 3 + SEED * 5) % 4 < 2:
                a = urange(v, 8, 0x30, 0x39)
            asm.append(a)
        txt += "«b:%s»" % v

    def spec(c):
        v = 0
        for i in range(n):
            v = v * base + (int(fixed[i], 16) if i in fixed else z(digit(c.v["D%d" % i])))
        expect(c, v, z3.BoolVal(True), width)
    return Job(id, H64 + hdr + direc + " " + pre + txt + suf + END, spec, vs, asm)


def clsjob(id, n, hdr="", radix=10):
    """a leading digit and n arbitrary characters out of digits, hex letters and suffix letters"""
    vs, asm, txt = {}, [], ""
    for i in range(n):
        v = "C%d" % i
        vs[v] = 8
        asm.append("(or %s %s %s %s)" % (urange(v, 8, 0x30, 0x39), urange(v, 8, 0x61, 0x66), urange(v, 8, 0x41, 0x46),
                                         oneof(v, 8, [ord(x) for x in "hHoOqQtTyYgGzZ"])))
        txt += "«b:%s»" % v
    vs["F"] = 8
    asm.append(urange("F", 8, 0x30, 0x39))
    # 0x... is the other spelling of hexadecimal; x is not in the set

    def spec(c):
        ch = [c.v["F"]] + [c.v["C%d" % i] for i in range(n)]
        body, last = ch[:-1], ch[-1]
        lo = z3.If(z3.And(z3.UGE(last, 0x41), z3.ULE(last, 0x5a)), last + 0x20, last)
        d = [digit(x) for x in ch]

        def allok(ds, b):
            return z3.And([z3.ULT(x, b) for x in ds])
        is_ = lambda s: z3.Or([lo == ord(x) for x in s])
        cases = [(is_("h"), allok(d[:-1], 16), horner(d[:-1], 16)),
                 (is_("y"), allok(d[:-1], 2), horner(d[:-1], 2)),
                 (is_("oq"), allok(d[:-1], 8), horner(d[:-1], 8)),
                 (is_("t"), allok(d[:-1], 10), horner(d[:-1], 10))]
        for cond, ok, v in cases:
            if c.branch(cond):
                return expect(c, v, ok)
        # a digit in the current radix
        if c.branch(allok(d, radix)):
            return expect(c, horner(d, radix), z3.BoolVal(True))
        if c.branch(is_("b")):
            return expect(c, horner(d[:-1], 2), allok(d[:-1], 2))
        if c.branch(is_("d")):
            return expect(c, horner(d[:-1], 10), allok(d[:-1], 10))
        expect(c, z3.BitVecVal(0, 192), z3.BoolVal(False))
    return Job(id, H64 + hdr + "dq «b:F»" + txt + END, spec, vs, asm)


def jobs():
    J = []
    for n in (1, 3, 8, 19, 20, 21):
        J.extend(djob("dec-%d" % n, n, 10, "", ""))
        J.extend(djob("dect-%d" % n, n, 10, "", "t"))
        J.extend(djob("decd-%d" % n, n, 10, "", "D" if n % 2 else "d"))
    for n in (1, 2, 5, 15, 16, 17):
        J.extend(djob("hex-%d" % n, n, 16, "0", "h"))
        J.extend(djob("hexu-%d" % n, n, 16, "0", "H", upper=1))
        J.extend(djob("hex0x-%d" % n, n, 16, "0x", ""))
        J.extend(djob("hex0X-%d" % n, n, 16, "0X", "", upper=1))
    for n in (1, 7, 21, 22, 23):
        J.extend(djob("oct-%d" % n, n, 8, "", "o"))
        J.extend(djob("octq-%d" % n, n, 8, "", "Q" if n & 1 else "q"))
    for n in (1, 8, 33, 64, 65):
        J.extend(djob("bin-%d" % n, n, 2, "", "y"))
        J.extend(djob("binb-%d" % n, n, 2, "", "b"))
    for d, w in (("db", 1), ("dw", 2), ("dd", 4)):
        J.extend(djob("hex-" + d, 4 if w < 4 else 9, 16, "0", "h", width=w, direc=d))
        J.extend(djob("dec-" + d, 5 if w < 4 else 10, 10, "", "", width=w, direc=d))
    for r in range(2, 17):
        n = 4
        J.extend(djob("radix-%d" % r, n, r, "", "", hdr=".radix %d\n" % r, upper=1))
        J.extend(djob("radix-suf-h-%d" % r, 3, 16, "0", "h", hdr=".radix %d\n" % r))
        J.extend(djob("radix-suf-t-%d" % r, 3, 10, "", "t", hdr=".radix %d\n" % r))
        J.extend(djob("radix-suf-o-%d" % r, 3, 8, "", "o", hdr=".radix %d\n" % r))
        J.extend(djob("radix-suf-y-%d" % r, 3, 2, "", "y", hdr=".radix %d\n" % r))
        J.extend(djob("radix-back-%d" % r, 3, 10, "", "", hdr=".radix %d\n.radix 10\n" % r))
        J.extend(djob("radix-long-%d" % r, 20 if r > 9 else 30, r, "", "", hdr=".radix %d\n" % r))
        J.append(clsjob("cls-radix-%d" % r, 2 if r in (2, 11, 16) or THOROUGH else 1, ".radix %d\n" % r, r))
    for n in (1, 2, 3) if THOROUGH else (1, 2):
        J.append(clsjob("cls-%d" % n, n))
    return J


def check():
    return Check("P02", jobs(), "literals of 1..22 digits (65 for binary), every digit symbolic; every radix 2..16; every string of up to 4 (quick: 3 after .RADIX) digit, hex and suffix letters")
