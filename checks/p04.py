"""P04: a memory operand is encoded so that it denotes the address written in the source."""
import os
import random
import z3
from usl import *
import x86

HDR = {64: ".x64\n.xmm\n.model flat\n.code\n", 32: ".686\n.xmm\n.model flat\n.code\n", 16: ".model tiny\n.686\n.xmm\n.code\n"}
END = "\nend\n"
# instruction: text before and after the memory operand, size keyword, expected (op, other operands in decoder form, position of memory)
INS = {
    "load": ("mov ecx,{m}", "", "mov", 0, [("r", 4, 1), None]),
    "store": ("mov {m},dl", "", "mov", 0, [None, ("r", 1, 2)]),
    "store2": ("mov {m},bx", "", "mov", 0, [None, ("r", 2, 3)]),
    "lea": ("lea ecx,{m}", "", "lea", 0, [("r", 4, 1), None]),
    "cmpi": ("cmp dword ptr {m},12345678h", "", "cmp", 4, [None, ("i", 0x12345678)]),
    "addi8": ("add word ptr {m},5", "", "add", 2, [None, ("i", 5)]),
    "movi": ("mov byte ptr {m},77h", "", "mov", 1, [None, ("i", 0x77)]),
    "movi4": ("mov dword ptr {m},11223344h", "", "mov", 4, [None, ("i", 0x11223344)]),
    "inc": ("inc byte ptr {m}", "", "inc", 1, [None]),
    "movzx": ("movzx edx,byte ptr {m}", "", "movzx", 1, [("r", 4, 2), None]),
    "imul": ("imul esi,{m},1000", "", "imul", 4, [("r", 4, 6), None, ("i", 1000)]),
    "shl": ("shl dword ptr {m},3", "", "shl", 4, [None, ("i", 3)]),
    "movaps": ("movaps xmm3,{m}", "", "movaps", 0, [("x", 16, 3), None]),
    "addps": ("addps xmm3,{m}", "", "addps", 0, [("x", 16, 3), None]),
    "xor64": ("xor r9,{m}", "", "xor", 8, [("r", 8, 9), None]),
    "mov64": ("mov r10,{m}", "", "mov", 8, [("r", 8, 10), None]),
    "st64": ("mov {m},r10", "", "mov", 8, [None, ("r", 8, 10)]),
}


def imm_is(o, v):
    return z3.simplify(o[2] == v)


def regnum(c, fam, name, asz):
    """register number of the family's member the path chose (an int)"""
    if fam == "N":        # r8..r9
        return c.val(c.v[name]) - 0x30
    if fam == "T":        # r10..r15
        return 10 + c.val(c.v[name]) - 0x30
    ch = chr(c.val(c.v[name]))
    return {"xa": 0, "xc": 1, "xd": 2, "xb": 3, "ps": 4, "pb": 5, "is": 6, "id": 7}[fam + ch]


FAM = {"x": ("abcd" if THOROUGH else ["ad", "bc"][int(os.environ.get("VERIF_SEED", "1")) & 1], "{p}«b:{v}»x"), "p": ("sb", "{p}«b:{v}»p"), "pb": ("b", "{p}«b:{v}»p"), "i": ("sd", "{p}«b:{v}»i"), "N": ("89", "r«b:{v}»{d}"), "T": ("012345" if THOROUGH else "23", "r1«b:{v}»{d}")}


ALL = {"x": "abcd", "N": "89", "T": "012345"}


def reg(fam, v, asz, full=False):
    """source text, constraint"""
    chars, t = FAM[fam]
    if full:
        chars = ALL.get(fam, chars)
    return t.format(p={8: "r", 4: "e", 2: ""}[asz], v=v, d="d" if asz == 4 else ""), oneof(v, 8, [ord(x) for x in chars])


def mjob(id, mode, asz, ins, form, bf, xf, scaled, dw=32, dsigned=True, dassume=None, full=False):
    """form: text with {b} {x} {d}; bf, xf: register families or None"""
    vs, asm, sub = {}, [], {}
    if bf:
        sub["b"], a = reg(bf, "B", asz, full)
        vs["B"] = 8
        asm.append(a)
    if xf:
        sub["x"], a = reg(xf, "X", asz, full)
        vs["X"] = 8
        asm.append(a)
    if scaled == "sym":
        sub["s"] = "*«b:S»"
        vs["S"] = 8
        asm.append(oneof("S", 8, [ord(x) for x in ("1248" if THOROUGH or not (bf and xf) else "12" if (len(ins) + ord(bf) + ord(xf)) & 1 else "48")]))
    else:
        sub["s"] = "*%d" % scaled if scaled else ""
    if "{d}" in form or "{-d}" in form:
        vs["D"] = 64
        if dassume:
            asm.append(dassume)
        sub["d"] = "«D»"
    if "{e}" in form:
        vs["E"] = 64
        sub["e"] = "«E»"
        asm.append("(or (ult E (c 64 0x40000000)) (ult (c 64 0xffffffffbfffffff) E))")
        asm.append("(or (ult D (c 64 0x40000000)) (ult (c 64 0xffffffffbfffffff) D))")
    m = form.replace("{-d}", "{d}").format(**sub)
    text, _, op, msz, want = INS[ins]
    line = text.format(m=m)

    def spec(c):
        d = z3.BitVecVal(0, 64)
        if "D" in c.v:
            d = c.v["D"]
            if "{-d}" in form:
                d = -d
            if "E" in c.v:
                d = d + c.v["E"]
        B = regnum(c, bf[0], "B", asz) if bf else None
        X = regnum(c, xf[0], "X", asz) if xf else None
        S = (c.val(c.v["S"]) - 0x30) if scaled == "sym" else (scaled or 1)
        # rsp cannot be an index, except by exchanging base and index
        if X == 4 and (scaled or B == 4 or B is None):
            if not (S == 1 and B != 4 and B is not None) or c.code != 0:
                c.check("esp/rsp is no index register", c.code != 0 and c.file("t.bin") is None)
                return
        # the displacement must fit the address arithmetic
        fits = z3.BoolVal(True)
        if asz == 8:
            fits = z3.And(d >= -(1 << 31), d < (1 << 31))
        if asz == 2:
            fits = z3.And(d >= -(1 << 15), d < (1 << 16))
        if asz == 4:
            fits = z3.And(d >= -(1 << 31), d < (1 << (31 if mode == 64 else 32)))
        if not c.branch(fits):
            # outside: an error, or the address modulo the size of an address field
            if c.code != 0:
                c.check("no object after an error", c.file("t.bin") is None)
                return
        c.check("a valid memory operand is accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("code was emitted", o is not None and len(o) > 1)
        try:
            I = x86.decode(o, 0, mode, c.val)
        except x86.Bad as e:
            c.check("decodes: %s" % e, False)
            return
        c.check("one instruction", I.len == len(o))
        c.check("the operation", I.op == op and len(I.ops) == len(want) and not I.lock and I.rep is None)
        mem = None
        for g, w in zip(I.ops, want):
            if w is None:
                c.check("memory operand", g[0] == "m")
                mem = g
            elif w[0] == "i":
                c.check("immediate operand", g[0] == "i" and z3.is_true(imm_is(g, w[1])))
            else:
                c.check("register operand", g == w)
        _, s_, seg, base, idx, sc, disp, a = mem
        if msz:
            c.check("operand size", s_ == msz)
        c.check("address size", a == asz)
        exp = {}
        if B is not None:
            exp[B] = 1
        if X is not None:
            exp[X] = exp.get(X, 0) + S
        got = {}
        if base is not None:
            got[base] = 1
        if idx is not None:
            got[idx] = got.get(idx, 0) + sc
        c.check("base and index registers and scale", got == exp)
        n = {8: 32, 4: 32, 2: 16}[asz]
        c.check("displacement", z3.Extract(n - 1, 0, disp) == z3.Extract(n - 1, 0, d))
        if asz == 8:
            c.check("displacement in range", z3.Or(disp == d, z3.Not(fits)))
        # default segment: SS when the base is (e)bp or (e)sp
        if mode != 64 and B is not None and not scaled and asz == 4:
            eb = X if X == 4 else B
            c.check("segment override", seg is None or seg == 3)
            c.check("default segment", (base in (4, 5)) == (eb in (4, 5)))
        else:
            c.check("no segment override", seg is None)
    return Job(id, HDR[mode] + line + END, spec, vs, asm)


def m16job(id, mode, ins, regs, form, dassume=None):
    """16-bit addressing: regs like ('b','x'): names fixed"""
    text, _, op, msz, want = INS[ins]
    line = text.format(m=form.format(d="«D»"))
    vs = {"D": 64}
    asm = [dassume] if dassume else []
    num = {"bx": 3, "bp": 5, "si": 6, "di": 7}

    def spec(c):
        d = c.v["D"]
        fits = z3.And(d >= -(1 << 15), d < (1 << 16))
        if not c.branch(fits) and c.code != 0:
            c.check("no object after an error", c.file("t.bin") is None)
            return
        c.check("a valid memory operand is accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("code was emitted", o is not None and len(o) > 1)
        try:
            I = x86.decode(o, 0, mode, c.val)
        except x86.Bad as e:
            c.check("decodes: %s" % e, False)
            return
        c.check("one instruction", I.len == len(o))
        c.check("the operation", I.op == op and len(I.ops) == len(want) and not I.lock and I.rep is None)
        mem = None
        for g, w in zip(I.ops, want):
            if w is None:
                c.check("memory operand", g[0] == "m")
                mem = g
            elif w[0] == "i":
                c.check("immediate operand", g[0] == "i" and z3.is_true(imm_is(g, w[1])))
            else:
                c.check("register operand", g == w)
        _, s_, seg, base, idx, sc, disp, a = mem
        c.check("address size", a == 2)
        c.check("base and index registers", sorted(x for x in (base, idx) if x is not None) == sorted(num[r] for r in regs))
        c.check("displacement", z3.Extract(15, 0, disp) == z3.Extract(15, 0, d))
        c.check("no segment override", seg is None)
    return Job(id, HDR[mode] + line + END, spec, vs, asm)


D32 = "(or (ult D (c 64 0x100000000)) (ult (c 64 0xfffffffeffffffff) D))"
D17 = "(or (ult D (c 64 0x20000)) (ult (c 64 0xfffffffffffdffff) D))"


def jobs():
    J = []
    ins64 = ["load", "store", "cmpi", "movzx", "movaps", "xor64", "mov64", "lea"]
    allins = list(INS)
    k = 0

    def pick(lst):
        nonlocal k
        k += 1
        return lst[(k + SEED - 1) % len(lst)]
    i64 = ins64 + ["st64", "addps", "imul", "shl", "movi", "movi4"]
    i32 = [i for i in allins if not i.endswith("64")]
    for asz, mode, fams, lst in ((8, 64, "xpiNT", i64), (4, 32, "xpi", i32), (4, 64, "xpiNT", i64), (4, 16, "xpi", i32)):
        t = "m%da%d" % (mode, asz * 8)
        for bf in fams:
            for ins in (lst if bf in "pN" and asz == 8 or THOROUGH else [pick(lst), pick(lst), pick(lst)]):
                J.append(mjob("%s-b%s-%s" % (t, bf, ins), mode, asz, ins, "[{b}+{d}]", bf, None, 0, dassume=D32))
            for n in (1, 2) if THOROUGH else (1,):
                ins = pick(lst)
                J.append(mjob("%s-x%s-%s" % (t, bf, ins), mode, asz, ins, "[{x}{s}+{d}]", None, bf, "sym", dassume=D32 + ""))
            for xf in fams:
                for n in (1, 2) if THOROUGH else (1,):
                    ins = pick(lst)
                    J.append(mjob("%s-b%sx%s-%s" % (t, bf, xf, ins), mode, asz, ins, "[{b}+{x}{s}+{d}]", bf, xf, "sym", dassume=D32))
                ins = pick(lst)
                J.append(mjob("%s-b%sx%s-u-%s" % (t, bf, xf, ins), mode, asz, ins, "[{b}+{x}+{d}]", bf, xf, 0, dassume=D32))
            for n, f in enumerate(["{d}[{b}]", "[{d}+{b}]", "[{b}-{-d}]", "[{b}][{d}]", "[{b}+{d}][{e}]", "[{b}+{d}+{e}]"]):
                if not THOROUGH and (n + ord(bf) + SEED) & 1:
                    continue
                ins = pick(lst)
                J.append(mjob("%s-f%d-%s-%s" % (t, n, bf, ins), mode, asz, ins, f, bf, None, 0, dassume=D32))
        for bf in fams:        # every base with every index
            for xf in fams:
                for ins in ("load", pick(["cmpi", "movzx", "lea", "imul", "shl"])):
                    J.append(mjob("%s-all-%s%s-%s" % (t, bf, xf, ins), mode, asz, ins, "[{b}+{x}{s}+{d}]", bf, xf, pick([1, 2, 4, 8]), dassume="(or (ule D (c 64 0x80)) (ult (c 64 0xffffffffffffff7e) D))", full=True))
        for n, f in enumerate(["{d}[{b}][{x}{s}]", "[{x}{s}+{b}+{d}]", "[{x}{s}][{b}][{d}]", "[{b}][{x}{s}+{d}]", "[{d}+{x}{s}+{b}]", "[{b}+{d}][{x}{s}+{e}]", "[{b}+{x}{s}-{-d}]"]):
            for bf, xf in (("x", "p"), ("p", "i"), ("N", "T"), ("p", "N")):
                if bf in fams and xf in fams and (THOROUGH or (n + ord(bf) // 2 + SEED) & 1):
                    ins = pick(lst)
                    J.append(mjob("%s-g%d-%s%s-%s" % (t, n, bf, xf, ins), mode, asz, ins, f, bf, xf, "sym", dassume=D32))
        for ins in lst:
            J.append(mjob("%s-nodisp-%s" % (t, ins), mode, asz, ins, "[{b}]", "p", None, 0))
            J.append(mjob("%s-nodispx-%s" % (t, ins), mode, asz, ins, "[{b}+{x}{s}]", "p", "x", "sym"))
            if asz == 8:
                J.append(mjob("%s-nodispN-%s" % (t, ins), mode, asz, ins, "[{b}]", "T", None, 0))
    for mode in (16, 32):
        for regs in ("bx", "bp", "si", "di", "bx+si", "bx+di", "bp+si", "bp+di", "si+bx", "di+bp"):
            for ins in (pick(i32), "load"):
                J.append(m16job("m%da16-%s-%s" % (mode, regs.replace("+", ""), ins), mode, ins, regs.split("+"), "[" + regs + "+{d}]", D17))
        for n, f in enumerate(["{d}[bx][si]", "[{d}+bx+di]", "[bp+{d}][di]", "[bx+{d}]"]):
            rs = [["bx", "si"], ["bx", "di"], ["bp", "di"], ["bx"]][n]
            for ins in ("load", pick(i32)):
                J.append(m16job("m%da16-f%d-%s" % (mode, n, ins), mode, ins, rs, f, D17))
    seen, out = set(), []
    for j in J:
        if j.id not in seen:
            seen.add(j.id)
            out.append(j)
    return out


SEED = int(os.environ.get("VERIF_SEED", "1"))


def check():
    return Check("P04", jobs(), "one instruction with one register-relative memory operand; every base, index and scale (register names symbolic), displacements -2^32..2^32-1 (16-bit addressing: -2^17..2^17-1) symbolic, in 16-, 32- and 64-bit code, 17 instructions, 13 spellings")
