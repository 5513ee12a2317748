"""P05: an immediate operand is encoded with its value."""
import os
import z3
from usl import *
import x86

SEED = int(os.environ.get("VERIF_SEED", "1"))
HDR = {64: ".x64\n.model flat\n.code\n", 32: ".686\n.model flat\n.code\n", 16: ".model tiny\n.686\n.code\n"}
END = "\nend\n"


def ijob(id, mode, line, op, bits, want, imm=0, enc=None, lo=None, hi=None, free=None, more=None, vw=64):
    """line has {v}.  bits: width of the operation; the immediate must be accepted when lo <= v <= hi and rejected when it is
    outside -(2^bits-1) .. 2^bits-1 (or outside `free`, a pair, when given); whenever it is accepted, the bytes decode to op with the operands
    want (None = the immediate), whose value is v modulo 2^bits"""
    lo = -(1 << (bits - 1)) if lo is None else lo
    hi = (1 << bits) - 1 if hi is None else hi

    def spec(c):
        v = z3.SignExt(128 - 64, bv(c.v["V"], 64) if vw == 64 else z3.ZeroExt(64 - vw, c.v["V"]))
        must = z3.And(v >= lo, v <= hi)
        # 32-bit arithmetic (as in MASM): 0ffffff80h may stand for -80h; a 64-bit operation takes a 32-bit immediate
        # and sign-extends it, so 0ffffffffh stands for -1 there (regress: SIGNIM64, PUSH64)
        if free:
            may = z3.And(v >= free[0], v <= free[1])
        elif bits == 64:
            may = z3.And(v >= -(1 << 31), v < (1 << 32))
            v = z3.SignExt(96, z3.Extract(31, 0, v))
        else:
            v32 = z3.SignExt(96, z3.Extract(31, 0, v))
            may = z3.And(v > -(1 << 32), v < (1 << 32), z3.Or(z3.And(v32 > -(1 << bits), v32 < (1 << bits)), z3.And(v > -(1 << bits), v < (1 << bits))))
        if bits == 8 and not free:   # bytes: -128..255 only
            may = z3.And(may, v32 >= -128)
        if not c.branch(may):
            c.check("a value that does not fit is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        if c.branch(must):
            c.check("a value that fits is accepted", c.code == 0)
        elif c.code != 0:
            c.check("no object after an error", c.file("t.bin") is None)
            return
        o = c.file("t.bin")
        c.check("code was emitted", o is not None and len(o) > 0)
        try:
            I = x86.decode(o, 0, mode, c.val)
        except x86.Bad as e:
            c.check("decodes: %s" % e, False)
            return
        c.check("one instruction", I.len == len(o))
        ops = list(I.ops)
        opn = I.op
        if opn == "sal":
            opn = "shl"
        # imul r,r,imm is the encoding of imul r,imm
        if opn == "imul" and len(ops) == 3 and len(want) == 2:
            c.check("register operand", ops[0] == ops[1])
            ops = [ops[0], ops[2]]
        # r64 moves of a value that zero- or sign-extends from 32 bits have shorter forms
        w = list(want)
        if op == "ret" and not ops:
            c.check("the operation", opn == op)
            c.check("immediate value", v == 0)
            return
        if op == "mov" and bits == 64 and w[0][0] == "r" and opn == "mov" and len(ops) == 2 and ops[0] == ("r", 4, w[0][2]):
            c.check("the operation", opn == op and ops[1][0] == "i")
            c.check("immediate value", z3.ZeroExt(32, z3.Extract(31, 0, ops[1][2])) == z3.Extract(63, 0, v))
            return
        if op == "int" and opn == "int3":
            opn, ops = "int", [("i", 1, bv(3, 64), 1)]
        c.check("the operation", opn == op and len(ops) == len(w) and not I.lock and I.rep is None)
        for g, x in zip(ops, w):
            if x is None:
                c.check("immediate operand", g[0] == "i")
                c.check("immediate value", z3.Extract(bits - 1, 0, g[2]) == z3.Extract(bits - 1, 0, v))
            elif x[0] == "m":
                c.check("memory operand", g[0] == "m" and g[1] == x[1] and g[3:6] == x[2:5] and z3.is_true(z3.simplify(g[6] == x[5])))
            else:
                c.check("register operand", g == x)
    t = "«V»"
    return Job(id, HDR[mode] + line.format(v=t) + END, spec, {"V": vw}, list(more or []))


def dsts(mode):
    r = lambda s, n: ("r", s, n)
    a = {64: 8, 32: 4, 16: 2}[mode]
    base = {64: "rbx", 32: "ebx", 16: "bx"}[mode]
    m = lambda s, d: ("m", s, 3, None, 1, d)
    D = [("al", 8, r(1, 0)), ("cl", 8, r(1, 1)), ("bh", 8, r(1, 19)), ("ax", 16, r(2, 0)), ("si", 16, r(2, 6)), ("eax", 32, r(4, 0)), ("edi", 32, r(4, 7)),
         ("byte ptr [%s]" % base, 8, m(1, 0)), ("word ptr [%s+4]" % base, 16, m(2, 4)), ("dword ptr [%s+200]" % base, 32, m(4, 200))]
    if mode == 64:
        D += [("sil", 8, r(1, 6)), ("r9b", 8, r(1, 9)), ("r10w", 16, r(2, 10)), ("r11d", 32, r(4, 11)), ("rax", 64, r(8, 0)), ("rdx", 64, r(8, 2)), ("r15", 64, r(8, 15)), ("qword ptr [rbx]", 64, m(8, 0))]
    return D


S31 = (-(1 << 31), (1 << 31) - 1)


def jobs():
    J = []
    k = SEED

    def nm(d):
        return re.sub(r"[^a-z0-9]+", "_", d)
    for mode in (64, 32, 16):
        for i, (d, bits, w) in enumerate(dsts(mode)):
            for n, op in enumerate(x86.ALU + ["test", "mov"]):
                if mode != 64 and n not in ((i + SEED) % 8, (i + SEED + 3) % 8, 9, 7) and not THOROUGH:
                    continue
                kw = {}
                if bits == 64:
                    if op == "mov" and w[0] == "r":
                        kw = dict(lo=-(1 << 63), hi=(1 << 63) - 1, free=(-(1 << 63), (1 << 63) - 1))
                    else:
                        kw = dict(lo=S31[0], hi=S31[1])
                J.append(ijob("%s-%s-%d" % (op, nm(d), mode), mode, "%s %s,{v}" % (op, d), op, bits, [w, None], **kw))
        r = lambda s, n: ("r", s, n)
        for d, bits, w in dsts(mode):
            if bits > 8 and w[0] == "r":
                kw = dict(lo=S31[0], hi=S31[1]) if bits == 64 else {}
                J.append(ijob("imul2-%s-%d" % (nm(d), mode), mode, "imul %s,{v}" % d, "imul", bits, [w, None], **kw))
                J.append(ijob("imul3-%s-%d" % (nm(d), mode), mode, "imul %s,%s,{v}" % (d, d), "imul", bits, [w, w, None], **kw))
        for op in ("shl", "sar", "rol", "rcr"):
            for d, bits, w in dsts(mode)[(SEED + len(op)) % 3::3]:
                J.append(ijob("%s-%s-%d" % (op, nm(d), mode), mode, "%s %s,{v}" % (op, d), op, 8, [w, None], lo=0, hi=255))
        for d, bits, w in dsts(mode)[3:5]:
            J.append(ijob("bt-%s-%d" % (nm(d), mode), mode, "bt %s,{v}" % d, "bt", 8, [w, None], lo=0, hi=255))
            J.append(ijob("shld-%s-%d" % (nm(d), mode), mode, "shld %s,%s,{v}" % (d, d), "shld", 8, [w, w, None], lo=0, hi=255))
        J.append(ijob("ret-%d" % mode, mode, "retn {v}", "ret", 16, [None], lo=0, hi=65535))
        J.append(ijob("int-%d" % mode, mode, "int {v}", "int", 8, [None], lo=0, hi=255, more=["(ne V (c 64 3))"]))
        J.append(ijob("in-%d" % mode, mode, "in al,{v}", "in", 8, [r(1, 0), None], lo=0, hi=255))
        J.append(ijob("out-%d" % mode, mode, "out {v},al", "out", 8, [None, r(1, 0)], lo=0, hi=255))
        pb = {64: 64, 32: 32, 16: 16}[mode]
        J.append(ijob("push-%d" % mode, mode, "push {v}", "push", pb, [None], **(dict(lo=S31[0], hi=S31[1]) if mode == 64 else dict(lo=-32768, hi=65535, free=(-(1 << 32), (1 << 32))) if mode == 16 else {})))
        J.append(ijob("pushw-%d" % mode, mode, "pushw {v}", "push", 16, [None]))
        if mode != 64:
            J.append(ijob("pushd-%d" % mode, mode, "pushd {v}", "push", 32, [None]))
    return J


def check():
    return Check("P05", jobs(), "one instruction with an immediate; the immediate is any 64-bit value; 8 ALU operations, TEST, MOV, IMUL, shifts, BT, SHLD, PUSH, RET, INT, IN, OUT with 8- to 64-bit register and memory destinations in 16-, 32- and 64-bit code")
