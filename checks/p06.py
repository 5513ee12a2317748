"""P06: branches reach their labels and use the short form exactly when it reaches."""
from spec import *
import x86

CC = ["jo", "jno", "jb", "jae", "jz", "jnz", "jbe", "ja", "js", "jns", "jp", "jnp", "jl", "jge", "jle", "jg"]
ALIAS = {"jc": "jb", "jnae": "jb", "jnb": "jae", "jnc": "jae", "je": "jz", "jne": "jnz", "jna": "jbe", "jnbe": "ja", "jpe": "jp", "jpo": "jnp", "jnge": "jl", "jnl": "jge", "jng": "jle", "jnle": "jg"}
SHORTONLY = ["loop", "loopz", "loopnz", "jcxz"]
H8086 = ".model tiny\n.8086\n.code\n"


def dec(c, o, pos, mode):
    try:
        I = x86.decode(o, pos, mode, c.val)
    except x86.Bad as e:
        c.check("decodes: %s" % e, False)
    return I


def norm(op):
    return {"je": "jz", "jne": "jnz", "loope": "loopz", "loopne": "loopnz", "jecxz": "jcxz", "jrcxz": "jcxz", "jc": "jb", "jnc": "jae", "jnb": "jae",
            "jpe": "jp", "jpo": "jnp"}.get(op, ALIAS.get(op, op))


def dolljob(id, mode, ins, V, force=""):
    """a branch to $+V"""
    w = 16 if mode == 16 else 32
    op = norm(ins)
    so = op in SHORTONLY or force.strip() == "short"

    def spec(c):
        V = sxt(c.v["V"], 64)
        short = z3.And(V - 2 >= -128, V - 2 <= 127)
        extra = 1 if (mode, ins) in ((64, "jecxz"), (32, "jcxz"), (16, "jecxz")) else 0
        if extra:
            short = z3.And(V - 3 >= -128, V - 3 <= 127)
        if so and not c.branch(short):
            c.check("a branch out of range is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        c.check("accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("object", o is not None and len(o) > 0)
        I = dec(c, o, 0, mode)
        c.check("one instruction", I.len == len(o))
        c.check("the operation", norm(I.op) == op and len(I.ops) == 1 and I.ops[0][0] == "rel")
        if op == "jcxz":
            c.check("count register size", (I.asz if hasattr(I, "asz") else None) in (None, {"jcxz": 2, "jecxz": 4, "jrcxz": 8}[ins]))
        d = z3.simplify(I.ops[0][1] + I.len)
        c.check("the target", z3.Extract(w - 1, 0, d) == z3.Extract(w - 1, 0, V))
        if op in CC + ["jmp"] and not force:
            c.check("short form exactly when it reaches", z3.BoolVal(I.ops[0][2] == 1) == short)
        if force.strip() == "near ptr":
            c.check("near form", I.ops[0][2] > 1)
    return Job(id, HDR[mode] + ins + " " + force + "$+«V»" + END, spec, {"V": 64}, [V])


def rotate(l, n):
    return l[n:] + l[:n]


class Prog:
    """items: ("pad", var|int) ("br", mnemonic, label, force) ("lab", n) ("align", n)"""

    def __init__(self, id, mode, items, asm, hdr=None, cpu=3, order=None):
        self.id, self.mode, self.items, self.asm, self.hdr, self.cpu = id, mode, items, asm, hdr, cpu

    def job(self):
        t = ""
        vs = {}
        for k, it in enumerate(self.items):
            if it[0] == "pad":
                if isinstance(it[1], str):
                    vs[it[1]] = 64
                    t += "db «%s» dup (90h)\n" % it[1]
                else:
                    t += "db %d dup (90h)\n" % it[1]
            elif it[0] == "br":
                l = it[2]
                if l == "@@":
                    l = "@B" if any(x[0] == "lab" and x[1] == "@@" for x in self.items[:k]) else "@F"
                t += "%s %s%s\n" % (it[1], it[3], l)
            elif it[0] == "lab":
                t += {0: "%s:\n", 1: "%s label near\n", 2: "%s proc\n%s endp\n"}[it[2]].replace("%s", it[1])
            elif it[0] == "nop":
                t += "nop\n"
        L = [x[1] for x in self.items if x[0] == "lab" and x[1] != "@@"]
        t += {16: "dw ", 32: "dd ", 64: "dq "}[self.mode] + ",".join(rotate(L, 1)) + "\n" if L else ""
        self.L = rotate(L, 1)
        return Job(self.id, (self.hdr or HDR[self.mode]) + t + END, self.spec, vs, self.asm)

    def spec(self, c):
        mode = self.mode
        pads = {it[1]: c.val(c.v[it[1]]) for it in self.items if it[0] == "pad" and isinstance(it[1], str)}
        if c.code != 0:
            # only a branch that has a short form only may be out of range: the distance that the pads alone
            # create must then be too large for one of them even if every other branch is as long as possible
            c.check("no object after an error", c.file("t.bin") is None)
            pos = 0
            lo, hi, at = 0, 0, {}
            for k, it in enumerate(self.items):
                if it[0] == "pad":
                    n = pads.get(it[1], it[1])
                    lo, hi = lo + n, hi + n
                elif it[0] == "lab":
                    at[it[1]] = (lo, hi)
                elif it[0] == "nop":
                    lo, hi = lo + 1, hi + 1
                else:
                    so = norm(it[1]) in SHORTONLY or it[3]
                    at[("b", k)] = (lo, hi)
                    lo, hi = lo + 2, hi + (3 if so else 7)
            bad = False
            for k, it in enumerate(self.items):
                if it[0] == "br" and (norm(it[1]) in SHORTONLY or it[3] == "short "):
                    b, l = at[("b", k)], at[it[2]]
                    # longest possible distance
                    if l[1] >= b[1] and l[1] - (b[1] + 2) > 127 or l[1] < b[1] and b[1] + 3 - l[1] > 128:
                        bad = True
            c.check("an error only for a branch that cannot reach", bad)
            return
        o = c.file("t.bin")
        c.check("object", o is not None)
        pos, labs, brs = 0, {}, []
        for it in self.items:
            if it[0] == "pad":
                n = pads.get(it[1], it[1])
                c.check("padding", all(isinstance(x, int) and x == 0x90 for x in o[pos:pos + n]) and len(o) >= pos + n)
                pos += n
            elif it[0] == "nop":
                c.check("padding", pos < len(o) and isinstance(o[pos], int) and o[pos] == 0x90)
                pos += 1
            elif it[0] == "lab":
                labs[it[1]] = pos
            else:
                c.check("code present", pos < len(o))
                I = dec(c, o, pos, mode)
                op = norm(it[1])
                st = pos
                if op in CC and norm(I.op) == CC[CC.index(op) ^ 1] and self.cpu < 3:
                    # jcc over a near jump on processors without near jcc
                    J = dec(c, o, pos + I.len, mode)
                    c.check("inverted jcc skips the jump", c.val(I.ops[0][1]) == J.len and norm(J.op) == "jmp")
                    brs.append((it, pos + I.len + J.len, c.val(J.ops[0][1]), J.ops[0][2], st, I.len + J.len))
                    pos += I.len + J.len
                    continue
                c.check("the operation", norm(I.op) == op and len(I.ops) == 1 and I.ops[0][0] == "rel")
                c.check("available on the processor", not (self.cpu < 3 and op in CC and I.ops[0][2] > 1))
                pos += I.len
                brs.append((it, pos, c.val(I.ops[0][1]), I.ops[0][2], st, I.len))
        n = self.mode // 8
        c.check("nothing else is emitted", pos + n * len(self.L) == len(o))
        for i, l in enumerate(self.L):
            c.check("a label's value is its offset", le(o, pos + i * n, n) == labs[l] if isinstance(le(o, pos + i * n, n), int) else False)
        m = (1 << 16) - 1 if mode == 16 else (1 << 32) - 1
        for it, end, d, n, st, ln in brs:
            t = labs[it[2]]
            c.check("the target", (end + d) & m == t & m)
            op = norm(it[1])
            if it[3] == "near ptr ":
                c.check("near form", n > 1)
            elif op in CC + ["jmp"]:
                # the short form of this instruction, with everything else where it is
                dd = t - (st + 2) if t <= st else t - end
                c.check("short form exactly when it reaches", (n == 1 and ln <= 3) == (-128 <= dd <= 127))


def jobs():
    J = []
    S32 = "(or %s %s)" % (ule("V", 64, 0x7fffff00), "(ule (c 64 0xffffffff80000100) V)")
    S16 = "(or %s %s)" % (ule("V", 64, 0x7ff0), "(ule (c 64 0xffffffffffff8010) V)")
    for mode in (64, 32, 16):
        A = S16 if mode == 16 else S32
        for ins in CC + list(ALIAS) + ["jmp", "call", "loop", "loopz", "loopnz", "loope", "loopne"]:
            J.append(dolljob("d-%s-%d" % (ins, mode), mode, ins, A))
        for ins in {64: ["jrcxz", "jecxz"], 32: ["jecxz", "jcxz"], 16: ["jcxz", "jecxz"]}[mode]:
            J.append(dolljob("d-%s-%d" % (ins, mode), mode, ins, A))
        for f in ("short ", "near ptr "):
            for ins in ("jmp", "jz", "jnle"):
                if f == "near ptr " and ins != "jmp" and mode == 16:
                    continue
                J.append(dolljob("d-%s-%s-%d" % (f.split()[0], ins, mode), mode, ins, A, f))
    rng = random.Random("p06-%d" % SEED)
    for k in range(140 if THOROUGH else 56):
        mode = (64, 32, 16, 16)[k % 4]
        hdr, cpu = (H8086, 0) if k % 4 == 3 else (None, 3)
        nl = rng.randint(1, 3)
        labs = ["l%d" % i for i in range(nl)]
        if k % 3 == 0:
            labs[0] = "@@"
        items = []
        asm = []
        nb = rng.randint(2, 4)
        body = [("lab", l, 0 if l == "@@" else rng.choice([0, 0, 1, 2])) for l in labs]
        for i in range(nb):
            ins = rng.choice(["jmp", "jmp"] + [rng.choice(CC)] * 4 + [rng.choice(list(ALIAS)), "call"] + ([rng.choice(["loop", "loopnz"])] if rng.random() < .3 else []))
            f = ""
            if ins == "jmp" and rng.random() < .15:
                f = rng.choice(["near ptr ", "short "])
            body.append(("br", ins, rng.choice(labs), f))
        rng.shuffle(body)
        # pads between: one or two symbolic windows around the 127/128 limits, else small constants
        npos = [i for i in range(1, len(body))]
        symat = rng.sample(npos, min(len(npos), 2))
        for i, x in enumerate(body):
            if i in symat:
                v = "P%d" % i
                # the first window straddles the limit of a short branch, the second is a small shift
                c0 = rng.choice([119, 121, 123, 125]) if i == symat[0] else rng.choice([0, 1, 2, 60])
                w = 10 if i == symat[0] else 3
                asm.append(urange(v, 64, c0, c0 + w - 1))
                items.append(("pad", v))
            elif i and rng.random() < .5:
                items.append(("pad", rng.choice([1, 2, 5, 40])))
            items.append(x)
        J.append(Prog("p-%d" % k, mode, items, asm, hdr, cpu).job())
    return J


def check():
    return Check("P06", jobs(), "every conditional and unconditional relative branch to $+V for any 31-bit (15-bit) V; programs of 2..4 branches and 1..3 labels with two symbolic padding lengths (10 x 3 values around the short limits)")
