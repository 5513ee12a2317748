"""An independent x86 decoder over byte lists that may hold symbolic bytes.

decode(code, pos, mode, val) -> Insn.  code: list of ints / z3 8-bit vectors;
mode 16/32/64.  Displacement and immediate bytes may stay symbolic; opcode,
prefix, ModRM and SIB bytes are made concrete with val(expr) (which branches).

Operands:  ("r", size, num)       general register; size 1: num 4..7 = spl.. with REX,
                                   16+num = ah ch dh bh
           ("m", size, seg, base, index, scale, disp, asize)  base/index None or
                                   number, base "ip" for RIP-relative; disp BV64,
                                   sign-extended
           ("i", size, bv64 sign-extended from its encoded size, encoded size)
           ("rel", bv64 sign-extended, encoded size)  ("far", sel16, off, n)
           ("x", size, num) xmm/ymm/zmm by size   ("k", num) ("mm", num)
           ("sr", num) ("cr", num) ("dr", num) ("st", num)
"""
import z3


class Bad(Exception):
    pass


class Insn:
    __slots__ = ("op", "ops", "len", "osz", "rep", "seg", "lock", "rex", "vex", "opc", "pfx66", "asz", "mode", "evex", "pos", "prefixes")

    def __repr__(self):
        return "%s %s" % (self.op, self.ops)


def _bv8(b):
    return z3.BitVecVal(b, 8) if isinstance(b, int) else b


def cat_le(bs):
    if all(isinstance(b, int) for b in bs):
        return z3.BitVecVal(int.from_bytes(bytes(bs), "little"), 8 * len(bs))
    if len(bs) == 1:
        return _bv8(bs[0])
    return z3.simplify(z3.Concat(*[_bv8(b) for b in reversed(bs)]))


def sx64(v):
    n = v.size()
    return z3.simplify(z3.SignExt(64 - n, v)) if n < 64 else v


ALU = ["add", "or", "adc", "sbb", "and", "sub", "xor", "cmp"]
CC = ["o", "no", "b", "ae", "e", "ne", "be", "a", "s", "ns", "p", "np", "l", "ge", "le", "g"]
SH = ["rol", "ror", "rcl", "rcr", "shl", "shr", "sal", "sar"]

T1 = {}
for i, a in enumerate(ALU):
    for j, sp in enumerate(["Eb Gb", "Ev Gv", "Gb Eb", "Gv Ev", "AL Ib", "eAX Iz"]):
        T1[i * 8 + j] = (a, sp)
for i in range(8):
    T1[0x50 + i] = ("push", "Zq")
    T1[0x58 + i] = ("pop", "Zq")
    T1[0xb0 + i] = ("mov", "Zb Ib")
    T1[0xb8 + i] = ("mov", "Zv Iv")
    if i:
        T1[0x90 + i] = ("xchg", "Zv eAX")
for i in range(16):
    T1[0x70 + i] = ("j" + CC[i], "Jb")
N64 = {0x06: ("push", "ES"), 0x07: ("pop", "ES"), 0x0e: ("push", "CS"), 0x16: ("push", "SS"), 0x17: ("pop", "SS"), 0x1e: ("push", "DS"), 0x1f: ("pop", "DS"),
       0x27: ("daa", ""), 0x2f: ("das", ""), 0x37: ("aaa", ""), 0x3f: ("aas", ""), 0x60: ("pusha", ""), 0x61: ("popa", ""), 0x62: ("bound", "Gv M"),
       0x82: ("G1", "Eb Ib"), 0x9a: ("callf", "Ap"), 0xea: ("jmpf", "Ap"), 0xc4: ("les", "Gv M"), 0xc5: ("lds", "Gv M"), 0xd4: ("aam", "Ib"), 0xd5: ("aad", "Ib"), 0xce: ("into", "")}
for i in range(8):
    N64[0x40 + i] = ("inc", "Zv")
    N64[0x48 + i] = ("dec", "Zv")
T1.update({
    0x68: ("push", "Izq"), 0x6a: ("push", "Ibq"), 0x69: ("imul", "Gv Ev Iz"), 0x6b: ("imul", "Gv Ev Ibs"),
    0x6c: ("insb", ""), 0x6d: ("ins", "v"), 0x6e: ("outsb", ""), 0x6f: ("outs", "v"),
    0x80: ("G1", "Eb Ib"), 0x81: ("G1", "Ev Iz"), 0x83: ("G1", "Ev Ibs"), 0x84: ("test", "Eb Gb"), 0x85: ("test", "Ev Gv"),
    0x86: ("xchg", "Eb Gb"), 0x87: ("xchg", "Ev Gv"), 0x88: ("mov", "Eb Gb"), 0x89: ("mov", "Ev Gv"), 0x8a: ("mov", "Gb Eb"), 0x8b: ("mov", "Gv Ev"),
    0x8c: ("mov", "Es Sw"), 0x8d: ("lea", "Gv M"), 0x8e: ("mov", "Sw Ew"), 0x8f: ("pop", "Eq"), 0x90: ("nop", ""),
    0x98: ("cbw", "v"), 0x99: ("cwd", "v"), 0x9b: ("fwait", ""), 0x9c: ("pushf", "q"), 0x9d: ("popf", "q"), 0x9e: ("sahf", ""), 0x9f: ("lahf", ""),
    0xa0: ("mov", "AL Ob"), 0xa1: ("mov", "rAX Ov"), 0xa2: ("mov", "Ob AL"), 0xa3: ("mov", "Ov rAX"), 0xa4: ("movs", "b"), 0xa5: ("movs", "v"),
    0xa6: ("cmps", "b"), 0xa7: ("cmps", "v"), 0xa8: ("test", "AL Ib"), 0xa9: ("test", "eAX Iz"), 0xaa: ("stos", "b"), 0xab: ("stos", "v"),
    0xac: ("lods", "b"), 0xad: ("lods", "v"), 0xae: ("scas", "b"), 0xaf: ("scas", "v"),
    0xc0: ("G2", "Eb Ibu"), 0xc1: ("G2", "Ev Ibu"), 0xc2: ("ret", "Iw"), 0xc3: ("ret", ""), 0xc6: ("G11", "Eb Ib"), 0xc7: ("G11", "Ev Iz"),
    0xc8: ("enter", "Iw Ibu"), 0xc9: ("leave", ""), 0xca: ("retf", "Iw"), 0xcb: ("retf", ""), 0xcc: ("int3", ""), 0xcd: ("int", "Ibu"), 0xcf: ("iret", ""),
    0xd0: ("G2", "Eb one"), 0xd1: ("G2", "Ev one"), 0xd2: ("G2", "Eb CL"), 0xd3: ("G2", "Ev CL"), 0xd7: ("xlat", ""),
    0xe0: ("loopne", "Jb"), 0xe1: ("loope", "Jb"), 0xe2: ("loop", "Jb"), 0xe3: ("jcxz", "Jb"), 0xe4: ("in", "AL Ibu"), 0xe5: ("in", "eAX Ibu"),
    0xe6: ("out", "Ibu AL"), 0xe7: ("out", "Ibu eAX"), 0xe8: ("call", "Jz"), 0xe9: ("jmp", "Jz"), 0xeb: ("jmp", "Jb"),
    0xec: ("in", "AL DX"), 0xed: ("in", "eAX DX"), 0xee: ("out", "DX AL"), 0xef: ("out", "DX eAX"),
    0xf1: ("int1", ""), 0xf4: ("hlt", ""), 0xf5: ("cmc", ""), 0xf6: ("G3", "Eb"), 0xf7: ("G3", "Ev"), 0xf8: ("clc", ""), 0xf9: ("stc", ""), 0xfa: ("cli", ""),
    0xfb: ("sti", ""), 0xfc: ("cld", ""), 0xfd: ("std", ""), 0xfe: ("G4", "Eb"), 0xff: ("G5", ""), 0x63: ("movsxd", "Gv Ed")})
T2 = {0x05: ("syscall", ""), 0x07: ("sysret", ""), 0x0b: ("ud2", ""), 0x31: ("rdtsc", ""), 0xa2: ("cpuid", ""), 0x34: ("sysenter", ""), 0x35: ("sysexit", ""),
      0x30: ("wrmsr", ""), 0x32: ("rdmsr", ""), 0x33: ("rdpmc", ""), 0x06: ("clts", ""), 0x08: ("invd", ""), 0x09: ("wbinvd", ""), 0xaa: ("rsm", ""),
      0x02: ("lar", "Gv Ew"), 0x03: ("lsl", "Gv Ew"),
      0x1f: ("nop", "Ev"), 0x20: ("mov", "Rq Cd"), 0x21: ("mov", "Rq Dd"), 0x22: ("mov", "Cd Rq"), 0x23: ("mov", "Dd Rq"),
      0xa0: ("push", "FS"), 0xa1: ("pop", "FS"), 0xa8: ("push", "GS"), 0xa9: ("pop", "GS"), 0xa3: ("bt", "Ev Gv"), 0xab: ("bts", "Ev Gv"), 0xb3: ("btr", "Ev Gv"), 0xbb: ("btc", "Ev Gv"),
      0xba: ("G8", "Ev Ibu"), 0xa4: ("shld", "Ev Gv Ibu"), 0xa5: ("shld", "Ev Gv CL"), 0xac: ("shrd", "Ev Gv Ibu"), 0xad: ("shrd", "Ev Gv CL"),
      0xaf: ("imul", "Gv Ev"), 0xb0: ("cmpxchg", "Eb Gb"), 0xb1: ("cmpxchg", "Ev Gv"), 0xb2: ("lss", "Gv M"), 0xb4: ("lfs", "Gv M"), 0xb5: ("lgs", "Gv M"),
      0xb6: ("movzx", "Gv Eb"), 0xb7: ("movzx", "Gv Ew"), 0xbe: ("movsx", "Gv Eb"), 0xbf: ("movsx", "Gv Ew"), 0xbc: ("bsf", "Gv Ev"), 0xbd: ("bsr", "Gv Ev"),
      0xc0: ("xadd", "Eb Gb"), 0xc1: ("xadd", "Ev Gv"), 0xc3: ("movnti", "M G")}
for i in range(16):
    T2[0x80 + i] = ("j" + CC[i], "Jz")
    T2[0x90 + i] = ("set" + CC[i], "Eb")
    T2[0x40 + i] = ("cmov" + CC[i], "Gv Ev")
for i in range(8):
    T2[0xc8 + i] = ("bswap", "Zv")
# SSE: (prefix, opcode) -> op, operands; Vx xmm reg, Wx xmm/mem(size), Ey gp 4/8
SSE = {}
for o, n in ((0x10, "movup"), (0x28, "movap"), (0x54, "andp"), (0x57, "xorp"), (0x56, "orp"), (0x55, "andnp"), (0x58, "addp"), (0x59, "mulp"), (0x5c, "subp"), (0x5e, "divp"), (0x51, "sqrtp"), (0x5f, "maxp"), (0x5d, "minp"), (0x14, "unpcklp"), (0x15, "unpckhp")):
    SSE["", o] = (n + "s", "V W16")
    SSE["66", o] = (n + "d", "V W16")
for o, n in ((0x58, "add"), (0x59, "mul"), (0x5c, "sub"), (0x5e, "div"), (0x51, "sqrt"), (0x5f, "max"), (0x5d, "min"), (0x10, "mov")):
    SSE["f3", o] = (n + "ss", "V W4")
    SSE["f2", o] = (n + "sd", "V W8")
for pf, s in (("", "s"), ("66", "d")):
    SSE[pf, 0x11] = ("movup" + s, "W16 V")
    SSE[pf, 0x29] = ("movap" + s, "W16 V")
    SSE[pf, 0x2e] = ("ucomis" + s, "V W4" if s == "s" else "V W8")
    SSE[pf, 0x2f] = ("comis" + s, "V W4" if s == "s" else "V W8")
SSE.update({("f3", 0x11): ("movss", "W4 V"), ("f2", 0x11): ("movsd", "W8 V"), ("66", 0x6e): ("movd", "V Ey"), ("66", 0x7e): ("movd", "Ey V"),
            ("f3", 0x7e): ("movq", "V W8"), ("66", 0xd6): ("movq", "W8 V"), ("66", 0x6f): ("movdqa", "V W16"), ("66", 0x7f): ("movdqa", "W16 V"),
            ("f3", 0x6f): ("movdqu", "V W16"), ("f3", 0x7f): ("movdqu", "W16 V"), ("", 0x6e): ("movd", "P Ey"), ("", 0x7e): ("movd", "Ey P"), ("", 0x6f): ("movq", "P Q8"), ("", 0x7f): ("movq", "Q8 P"),
            ("66", 0xef): ("pxor", "V W16"), ("66", 0xeb): ("por", "V W16"), ("66", 0xdb): ("pand", "V W16"), ("66", 0xfc): ("paddb", "V W16"), ("66", 0xfd): ("paddw", "V W16"), ("66", 0xfe): ("paddd", "V W16"), ("66", 0xd4): ("paddq", "V W16"),
            ("66", 0x70): ("pshufd", "V W16 Ibu"), ("", 0xc6): ("shufps", "V W16 Ibu"), ("66", 0xc6): ("shufpd", "V W16 Ibu"),
            ("f3", 0x2a): ("cvtsi2ss", "V Ey"), ("f2", 0x2a): ("cvtsi2sd", "V Ey"), ("f3", 0x2c): ("cvttss2si", "Gy W4"), ("f2", 0x2c): ("cvttsd2si", "Gy W8"),
            ("f3", 0x5a): ("cvtss2sd", "V W4"), ("f2", 0x5a): ("cvtsd2ss", "V W8"), ("f3", 0xb8): ("popcnt", "Gv Ev"), ("f3", 0xbc): ("tzcnt", "Gv Ev"), ("f3", 0xbd): ("lzcnt", "Gv Ev"),
            ("66", 0xd8): ("psubusb", "V W16"), ("66", 0x74): ("pcmpeqb", "V W16"), ("66", 0x75): ("pcmpeqw", "V W16"), ("66", 0x76): ("pcmpeqd", "V W16"), ("66", 0x60): ("punpcklbw", "V W16"), ("66", 0x6c): ("punpcklqdq", "V W16")})

GRP = {"G1": ALU, "G2": SH, "G3": ["test", None, "not", "neg", "mul", "imul", "div", "idiv"], "G4": ["inc", "dec"], "G5": ["inc", "dec", "call", "callf", "jmp", "jmpf", "push"],
       "G8": [None] * 4 + ["bt", "bts", "btr", "btc"], "G11": ["mov"]}


def decode(code, pos=0, mode=64, val=None):
    start = pos

    def byte():
        nonlocal pos
        if pos >= len(code):
            raise Bad("truncated instruction")
        b = code[pos]
        pos += 1
        return b

    def conc():
        b = byte()
        if isinstance(b, int):
            return b
        s = z3.simplify(b)
        if z3.is_bv_value(s):
            return s.as_long()
        if val is None:
            raise Bad("symbolic structure byte")
        return val(s)

    def num(n):
        nonlocal pos
        if pos + n > len(code):
            raise Bad("truncated instruction")
        pos += n
        return cat_le(code[pos - n:pos])
    I = Insn()
    I.pos, I.mode = start, mode
    p66 = p67 = False
    rep = seg = None
    lock = False
    rex = 0
    pref = []
    while True:
        b = conc()
        if b == 0x66:
            p66 = True
        elif b == 0x67:
            p67 = True
        elif b in (0xf2, 0xf3):
            rep = b
        elif b == 0xf0:
            lock = True
        elif b in (0x26, 0x2e, 0x36, 0x3e, 0x64, 0x65):
            seg = {0x26: 0, 0x2e: 1, 0x36: 2, 0x3e: 3, 0x64: 4, 0x65: 5}[b]
        else:
            break
        pref.append(b)
        if len(pref) > 6:
            raise Bad("too many prefixes")
    if mode == 64 and 0x40 <= b <= 0x4f:
        rex = b
        b = conc()
    I.rep, I.seg, I.lock, I.rex, I.pfx66, I.prefixes = rep, seg, lock, rex, p66, pref
    W, R, X, B = rex >> 3 & 1, rex >> 2 & 1, rex >> 1 & 1, rex & 1
    I.vex = I.evex = None
    dsz = 2 if mode == 16 else 4
    osz = 8 if W else (6 - dsz if p66 else dsz)
    asz = {16: 2, 32: 4, 64: 8}[mode]
    if p67:
        asz = {16: 4, 32: 2, 64: 4}[mode]
    I.asz = asz
    I.opc = b
    modrm = None

    def getmodrm():
        nonlocal modrm
        if modrm is None:
            modrm = conc()
        return modrm
    memop = [None]

    def mem(size, d8n=1):
        if memop[0] is None:
            memop[0] = mem_(d8n)
        sg, base, idx, sc, disp = memop[0]
        return ("m", size, sg, base, idx, sc, disp, asz)

    def mem_(d8n):
        m = getmodrm()
        mod, rm = m >> 6, m & 7
        if asz == 2:
            if mod == 0 and rm == 6:
                return (seg, None, None, 1, sx64(num(2)))
            base, idx = [(3, 6), (3, 7), (5, 6), (5, 7), (6, None), (7, None), (5, None), (3, None)][rm]
            d = sx64(num(1)) if mod == 1 else sx64(num(2)) if mod == 2 else z3.BitVecVal(0, 64)
            if mod == 1:
                d = d * d8n
            return (seg, base, idx, 1, d)
        idx, sc = None, 1
        if rm == 4:
            s = conc()
            sc = 1 << (s >> 6)
            i = (s >> 3 & 7) | X << 3
            idx = None if i == 4 else i
            if idx is None:
                sc = 1
            rm = s & 7
            if rm == 5 and mod == 0:
                return (seg, None, idx, sc, sx64(num(4)))
        elif rm == 5 and mod == 0:
            return (seg, "ip" if mode == 64 else None, None, 1, sx64(num(4)))
        d = sx64(num(1)) * d8n if mod == 1 else sx64(num(4)) if mod == 2 else z3.BitVecVal(0, 64)
        return (seg, rm | B << 3, idx, sc, z3.simplify(d))

    def reg(size, n):
        if size == 1 and not rex and 4 <= n < 8:
            return ("r", 1, 16 + n - 4)
        return ("r", size, n)

    def E(size):
        m = getmodrm()
        return reg(size, (m & 7) | B << 3) if m >> 6 == 3 else mem(size)

    def G(size):
        return reg(size, (getmodrm() >> 3 & 7) | R << 3)

    def Wx(size):
        m = getmodrm()
        return ("x", 16, (m & 7) | B << 3) if m >> 6 == 3 else mem(size)
    qsz = (2 if p66 else 8) if mode == 64 else osz

    def operand(t):
        nonlocal osz
        if t == "Eb":
            return E(1)
        if t == "Ew":
            return E(2)
        if t == "Ed":
            return E(4)
        if t == "Es":
            return E(osz if getmodrm() >> 6 == 3 else 2)
        if t == "Ev":
            return E(osz)
        if t == "Eq":
            return E(qsz)
        if t == "Ey":
            return E(8 if W else 4)
        if t == "Gy":
            return G(8 if W else 4)
        if t == "Gb":
            return G(1)
        if t == "Gv":
            return G(osz)
        if t == "G":
            return G(8 if W else 4)
        if t == "M":
            if getmodrm() >> 6 == 3:
                raise Bad("register where memory is required")
            return mem(0)
        if t == "Zb":
            return reg(1, (b & 7) | B << 3)
        if t == "Zv":
            return reg(osz, (b & 7) | B << 3)
        if t == "Zq":
            return reg(qsz, (b & 7) | B << 3)
        if t == "AL":
            return ("r", 1, 0)
        if t == "CL":
            return ("r", 1, 1)
        if t == "DX":
            return ("r", 2, 2)
        if t == "eAX":
            return ("r", osz, 0)
        if t == "rAX":
            return ("r", osz, 0)
        if t == "one":
            return ("i", 1, z3.BitVecVal(1, 64), 0)
        if t == "Ib":
            return ("i", 1, sx64(num(1)), 1)
        if t == "Ibs":
            return ("i", osz, sx64(num(1)), 1)
        if t == "Ibq":
            return ("i", qsz, sx64(num(1)), 1)
        if t == "Ibu":
            return ("i", 1, z3.simplify(z3.ZeroExt(56, num(1))), 1)
        if t == "Iw":
            return ("i", 2, z3.simplify(z3.ZeroExt(48, num(2))), 2)
        if t == "Iz":
            n = min(osz, 4)
            return ("i", osz, sx64(num(n)), n)
        if t == "Izq":
            n = 2 if osz == 2 else 4
            return ("i", qsz, sx64(num(n)), n)
        if t == "Iv":
            return ("i", osz, sx64(num(osz)), osz)
        if t == "Jb":
            return ("rel", sx64(num(1)), 1)
        if t == "Jz":
            if mode == 64 and p66:
                raise Bad("operand-size prefix on a 64-bit near branch")
            n = 4 if mode == 64 else osz
            return ("rel", sx64(num(n)), n)
        if t == "Ap":
            off = num(osz)
            return ("far", num(2), off, osz)
        if t in ("Ob", "Ov"):
            return ("m", 1 if t == "Ob" else osz, seg, None, None, 1, sx64(num(asz)) if asz < 8 else num(8), asz)
        if t == "Sw":
            if getmodrm() >> 3 & 7 > 5:
                raise Bad("no such segment register")
            return ("sr", getmodrm() >> 3 & 7)
        if t in ("Cd", "Dd"):
            return ("cr" if t == "Cd" else "dr", (getmodrm() >> 3 & 7) | R << 3)
        if t == "Rq":
            return ("r", 8 if mode == 64 else 4, (getmodrm() & 7) | B << 3)
        if t in ("ES", "CS", "SS", "DS", "FS", "GS"):
            return ("sr", ["ES", "CS", "SS", "DS", "FS", "GS"].index(t))
        if t == "V":
            return ("x", 16, (getmodrm() >> 3 & 7) | R << 3)
        if t[0] == "W":
            return Wx(int(t[1:]))
        if t == "P":
            return ("mm", getmodrm() >> 3 & 7)
        if t == "Q8":
            m = getmodrm()
            return ("mm", m & 7) if m >> 6 == 3 else mem(8)
        raise Bad("operand " + t)
    if b == 0x0f:
        b = conc()
        I.opc = 0x0f00 | b
        pk = "f3" if rep == 0xf3 else "f2" if rep == 0xf2 else "66" if p66 else ""
        if (pk, b) in SSE:
            op, sp = SSE[pk, b]
            if pk in ("f3", "f2"):
                I.rep = None
            if pk == "66":
                pass
        elif ("", b) in SSE and ("66", b) in SSE:
            raise Bad("sse opcode %x" % b)
        elif b in T2:
            op, sp = T2[b]
        else:
            raise Bad("unknown opcode 0f %02x" % b)
    elif mode != 64 and b in N64 and not (b in (0xc4, 0xc5, 0x62) and pos < len(code) and isinstance(code[pos], int) and code[pos] >= 0xc0):
        op, sp = N64[b]
    elif b in T1:
        op, sp = T1[b]
        if b == 0x63 and mode != 64:
            op, sp = "arpl", "Ew Gw"
        if b == 0x90 and (rep == 0xf3):
            op = "pause"
        elif b == 0x90 and B:
            op, sp = "xchg", "Zv eAX"
    else:
        raise Bad("unknown opcode %02x" % b)
    toks = sp.split()
    if op in GRP:
        g = getmodrm() >> 3 & 7
        names = GRP[op]
        if g >= len(names) or names[g] is None:
            raise Bad("undefined group member")
        grp, op = op, names[g]
        if grp == "G3" and op == "test":
            toks = toks + ["Ib" if toks == ["Eb"] else "Iz"]
        if grp == "G5":
            toks = ["Ev"] if g < 2 else ["Eq"] if g in (2, 4, 6) else ["M"]
    if b in (0x8f, 0xc6, 0xc7) and I.opc < 0x100 and getmodrm() >> 3 & 7:
        raise Bad("undefined group member")
    I.op = op
    # segment override may also precede string instructions
    szs = {"b": 1, "v": osz, "q": qsz}
    I.osz = osz
    ops = []
    for t in toks:
        if t in szs:
            I.osz = szs[t]
            continue
        ops.append(operand(t))
    if sp and toks and not any(t in szs for t in toks):
        I.osz = 1 if any(t in ("Eb", "Zb", "AL", "Ob") for t in toks) and "Gv" not in toks else osz
    if op in ("push", "pop") and toks and toks[0] in ("Zq", "Eq", "Izq", "Ibq"):
        I.osz = qsz
    I.ops = ops
    I.len = pos - start
    if I.len > 15:
        raise Bad("instruction longer than 15 bytes")
    return I


R64 = ["rax", "rcx", "rdx", "rbx", "rsp", "rbp", "rsi", "rdi"] + ["r%d" % i for i in range(8, 16)]
R32 = ["eax", "ecx", "edx", "ebx", "esp", "ebp", "esi", "edi"] + ["r%dd" % i for i in range(8, 16)]
R16 = ["ax", "cx", "dx", "bx", "sp", "bp", "si", "di"] + ["r%dw" % i for i in range(8, 16)]
R8 = ["al", "cl", "dl", "bl", "spl", "bpl", "sil", "dil"] + ["r%db" % i for i in range(8, 16)]
R8H = ["ah", "ch", "dh", "bh"]
REGS = {}
for _i in range(16):
    REGS[R64[_i]] = (8, _i)
    REGS[R32[_i]] = (4, _i)
    REGS[R16[_i]] = (2, _i)
    REGS[R8[_i]] = (1, _i)
for _i in range(4):
    REGS[R8H[_i]] = (1, 16 + _i)
SREG = ["es", "cs", "ss", "ds", "fs", "gs"]


def regname(o):
    k, s, n = o
    if s == 1 and n >= 16:
        return R8H[n - 16]
    return {8: R64, 4: R32, 2: R16, 1: R8}[s][n]


def fmt(I):
    """text for cross-checking the decoder against llvm-mc (concrete operands only)"""
    out = []
    for o in I.ops:
        if o[0] == "r":
            out.append(regname(o))
        elif o[0] == "m":
            _, s, sg, b, i, sc, d, a = o
            d = z3.simplify(d).as_signed_long()
            rs = {2: R16, 4: R32, 8: R64}[a]
            t = []
            if b == "ip":
                t.append("rip")
            elif b is not None:
                t.append(rs[b])
            if i is not None:
                t.append("%s*%d" % (rs[i], sc))
            out.append("[%s]" % "+".join(t + [str(d)]))
        elif o[0] == "i":
            out.append(str(z3.simplify(o[2]).as_signed_long()))
        elif o[0] == "rel":
            out.append("$%+d" % z3.simplify(o[1]).as_signed_long())
        else:
            out.append(str(o))
    return "%s %s" % (I.op, ",".join(out))
