"""P07: ALIGN, EVEN, ORG and segment combination put every item at the address the directives define."""
from spec import *
import x86


def nop(I, mode):
    """the instruction changes nothing"""
    if I.op == "nop":
        return True
    o = I.ops
    if I.op == "mov" and len(o) == 2 and o[0] == o[1] and o[0][0] == "r":
        return mode != 64 or o[0][1] != 4
    if I.op == "xchg" and o[0] == o[1]:
        return mode != 64 or o[0][1] != 4
    if I.op == "lea" and o[0][1] == mode // 8 and o[1][0] == "m":
        r, m = o
        d = m[6]
        if not isinstance(d, int):
            d = z3.simplify(d)
            d = d.as_long() if z3.is_bv_value(d) else 1
        return d == 0 and m[3] == r[2] and m[4] is None and m[7] == r[1]
    return False


class Seg:
    def __init__(self, align, code):
        self.align, self.code, self.pos, self.mem, self.fill, self.base, self.max, self.fresh, self.skip = align, code, 0, {}, [], None, 0, False, set()


class Prog:
    """items: ("db", [..]) ("pad", var, lo, hi) ("align", n | var) ("even",) ("orgrel", n|var) ("orglab", lab, n) ("lab", name) ("seg", k) ("tab", [labels])"""

    def __init__(self, id, mode, hdr, segs, items, asm, tail=""):
        self.id, self.mode, self.hdr, self.segs, self.items, self.asm, self.tail = id, mode, hdr, segs, items, asm, tail

    def job(self):
        vs = {}

        def num(x):
            if isinstance(x, str):
                vs[x] = 64
                return "«%s»" % x
            return str(x)
        t = ""
        cur = None
        d = {16: "dw", 32: "dd", 64: "dq"}[self.mode]
        for it in self.items:
            k = it[0]
            if k == "seg":
                if cur is not None and self.segs[cur][2]:
                    t += self.segs[cur][2] + "\n"
                t += self.segs[it[1]][1] + "\n"
                cur = it[1]
            elif k == "db":
                t += "db " + ",".join(map(str, it[1])) + "\n"
            elif k == "pad":
                t += "db %s dup (%d)\n" % (num(it[1]), it[2])
            elif k == "align":
                t += "align %s\n" % num(it[1])
            elif k == "even":
                t += "even\n"
            elif k == "orgrel":
                t += "org $+%s\n" % num(it[1])
            elif k == "orglab":
                t += "org %s+%s\n" % (it[1], num(it[2]))
            elif k == "org":
                t += "org %s\n" % num(it[1])
            elif k == "lab":
                t += it[2] % it[1] + "\n"
            elif k == "tab":
                t += d + " " + ",".join(it[1]) + "\n"
        if cur is not None and self.segs[cur][2]:
            t += self.segs[cur][2] + "\n"
        return Job(self.id, self.hdr + t + END, self.spec, vs, self.asm)

    def spec(self, c):
        num = lambda x: c.val(c.v[x]) if isinstance(x, str) else x
        S = [Seg(a[0], a[3]) for a in self.segs]
        labs, order, cur, tabs = {}, [], None, []
        n = self.mode // 8
        for it in self.items:
            k = it[0]
            s = S[cur] if cur is not None else None

            def emit(b):
                for x in b:
                    s.fresh = False
                    s.mem[s.pos] = x
                    s.pos += 1
            if k == "seg":
                cur = it[1]
                if cur not in order:
                    order.append(cur)
            elif k == "db":
                emit(it[1])
            elif k == "pad":
                emit([it[2]] * num(it[1]))
            elif k in ("align", "even"):
                a = 2 if k == "even" else it[1]
                if isinstance(a, str):
                    p2 = z3.Or([c.v[a] == (1 << i) for i in range(7)])
                    if not c.branch(p2):
                        c.check("ALIGN with a number that is not a power of two is rejected", c.code != 0 and c.file("t.bin") is None)
                        return
                    a = c.val(c.v[a])
                g = -s.pos % a
                if g and s.fresh:
                    # right after an ORG nothing is written: what was there stays
                    s.skip |= set(range(s.pos, s.pos + g))
                    s.pos += g
                elif g:
                    s.fill.append((s.pos, g))
                    if s.code:
                        emit([None] * g)
                    else:
                        emit([0] * g)
            elif k == "orgrel":
                s.pos += num(it[1])
            elif k == "orglab":
                s.pos = labs[it[1]][1] + num(it[2])
            elif k == "org":
                s.pos = num(it[1])
            if k.startswith("org"):
                s.fresh = True
            elif k == "lab":
                labs[it[1]] = (cur, s.pos)
            elif k == "tab":
                tabs.append((cur, s.pos, it[1]))
                emit([None] * (n * len(it[1])))
            if cur is not None:
                S[cur].max = max(S[cur].max, S[cur].pos)
        c.check("accepted", c.code == 0)
        o = c.file("t.bin")
        c.check("object", o is not None)
        o = [c.val(x) for x in o]
        if self.segs[0][1] == ".code":
            order.sort()
        at = 0
        for k in order:
            s = S[k]
            a = max([s.align] + [1])
            at = -(-at // a) * a
            s.base = at
            at += s.max
        end = max(S[k].base + S[k].max for k in order)
        c.check("size of the image", len(o) == end)
        img = [0] * end
        skip = set()
        for k in order:
            s = S[k]
            skip |= {s.base + p for p in s.skip}
            for p, x in s.mem.items():
                if x is None:
                    skip.add(s.base + p)
                else:
                    img[s.base + p] = x
        for i in range(end):
            if i not in skip:
                if not isinstance(o[i], int):
                    c.check("byte at its address", bv(o[i], 8) == img[i])
                elif o[i] != img[i]:
                    c.check("byte at its address", False)
        c.check("byte at its address", True)
        for k, p, names in tabs:
            for i, l in enumerate(names):
                ls, lo = labs[l.replace("grp:", "")]
                c.check("label address", le(o, S[k].base + p + i * n, n) == S[ls].base + lo)
        for k in order:
            s = S[k]
            if s.code:
                for p, g in s.fill:
                    if any(s.mem.get(q, 1) is not None for q in range(p, p + g)):
                        continue    # overwritten after an ORG
                    q = s.base + p
                    e = q + g
                    while q < e:
                        try:
                            I = x86.decode(o[:e], q, self.mode, c.val)
                        except x86.Bad as x:
                            c.check("alignment filler decodes: %s" % x, False)
                        c.check("alignment filler does nothing", nop(I, self.mode) and q + I.len <= e)
                        q += I.len
        c.check("done", True)


def models(rng):
    """(mode, header, [(alignment, open, close, is code)])"""
    m = rng.choice([64, 32, 16, 16])
    if m == 64:
        return 64, ".x64\n.model flat\n", [(16, ".code", "", True), (16, ".data", "", False)]
    if m == 32:
        r = rng.random()
        if r < .4:
            return 32, ".386\n.model flat\n", [(4, ".code", "", True), (4, ".data", "", False)]
        al = [("byte", 1), ("word", 2), ("dword", 4), ("para", 16), ("", 16)] + [("align(%d)" % x, x) for x in (1, 2, 4, 8, 16, 32, 64, 128)]
        s = []
        for i in range(rng.randint(2, 3)):
            n, a = rng.choice(al)
            cls = rng.choice(["'CODE'", "'DATA'", ""])
            s.append((a, "seg%d segment %s flat public %s" % (i, n, cls), "seg%d ends" % i, cls == "'CODE'"))
        return 32, ".386\n.model flat\n", s
    if rng.random() < .5:
        return 16, ".model tiny\n.386\n", [(2, ".code", "", True), (2, ".data", "", False)]
    al = [("byte", 1), ("word", 2), ("dword", 4), ("para", 16), ("", 16)]
    s = []
    for i in range(rng.randint(2, 3)):
        n, a = rng.choice(al)
        cls = rng.choice(["'CODE'", "'DATA'"])
        s.append((a, "seg%d segment %s public use16 %s" % (i, n, cls), "seg%d ends" % i, cls == "'CODE'"))
    return 16, ".386\n" + "grp group " + ",".join("seg%d" % i for i in range(len(s))) + "\n" if 0 else ".model tiny\n.386\n", s


def jobs():
    J = []
    rng = random.Random("p07-%d" % SEED)
    # one ALIGN at any phase with any argument
    for mode, hdr in ((64, ".x64\n.model flat\n"), (32, ".386\n.model flat\n"), (16, ".model tiny\n.386\n")):
        for code in (0, 1):
            segs = [({64: 16, 32: 4, 16: 2}[mode], ".code" if code else ".data", "", bool(code))]
            for a in (2, 4, 8, 16, 32):
                J.append(Prog("al-%d-%d-%d" % (mode, code, a), mode, hdr, segs, [("seg", 0), ("pad", "N", 0xcc), ("align", a), ("lab", "x", "%s:" if code else "%s label byte"), ("db", [7]), ("tab", ["x"])], [urange("N", 64, 1, 18)]).job())
            J.append(Prog("any-%d-%d" % (mode, code), mode, hdr, segs, [("seg", 0), ("db", [1]), ("align", "A"), ("db", [7])], ["(or %s (ne (and A (add A (c 64 -1))) (c 64 0)))" % ule("A", 64, 64)]).job())
            J.append(Prog("org-%d-%d" % (mode, code), mode, hdr, segs, [("seg", 0), ("db", [1, 2, 3, 4, 5, 6, 7, 8, 9]), ("org", "A"), ("lab", "x", "%s label byte"), ("db", [0x77]), ("tab", ["x"])], [ule("A", 64, 24)]).job())
    # a segment of any length before segments of every alignment; labels relocated in the group
    for a in (1, 2, 4, 8, 16, 32, 64, 128, 256):
        for flat in (1, 0):
            al = "align(%d)" % a if flat else {1: "byte", 2: "word", 4: "dword", 16: "para", 256: "page"}.get(a)
            if al is None:
                continue
            mode = 32 if flat else 16
            cls = ["'CODE'", "'DATA'", "'DATA'"]
            segs = [(x, "seg%d segment %s %s public %s" % (i, y, "flat" if flat else "use16", cls[i]), "seg%d ends" % i, i == 0) for i, (x, y) in enumerate(((4, "dword"), (a, al), (2, "word")))]
            hdr = ".386\n.model flat\n" if flat else ".386\ngrp group seg0,seg1,seg2\n"
            items = [("seg", 0), ("pad", "N", 0xc1), ("lab", "a", "%s label byte"), ("db", [1]), ("seg", 1), ("db", [2]), ("lab", "b", "%s label byte"), ("pad", "M", 0xc2),
                     ("seg", 2), ("db", [3]), ("lab", "d", "%s label byte"), ("db", [4]), ("seg", 0), ("tab", ["a", "b", "d"]), ("seg", 2), ("tab", ["b", "a", "d"])]
            if not flat:
                items = [("tab", ["grp:" + l for l in x[1]]) if x[0] == "tab" else x for x in items]
            J.append(Prog("grp-%d-%d" % (a, flat), mode, hdr, segs, items, [urange("N", 64, 1, 20), urange("M", 64, 0, 3)]).job())
    for k in range(200 if THOROUGH else 90):
        mode, hdr, segs = models(rng)
        if mode == 16 and segs[0][1].startswith("seg"):
            hdr = ".386\n"
        items, asm = [], []
        nl, nv = 0, 0
        cur = -1
        seen = {}
        lcur = {}
        own = {}
        for i in range(rng.randint(6, 11)):
            if cur < 0 or rng.random() < .18:
                cur = rng.randrange(len(segs))
                items.append(("seg", cur))
                if cur not in seen:
                    seen[cur] = 1
                    items.append(("db", [rng.randrange(256)]))
            r = rng.random()
            if r < .25:
                items.append(("db", [rng.randrange(256) for _ in range(rng.randint(1, 3))]))
            elif r < .45 and nv < 2:
                v = "N%d" % nv
                nv += 1
                asm.append(ule(v, 64, 4 if nv == 1 else 2))
                items.append(("pad", v, 0xc0 + nv))
            elif r < .65:
                items.append(("align", rng.choice([2, 4, 8, 16, 1])))
            elif r < .7:
                items.append(("even",))
            elif r < .8:
                items.append(("orgrel", rng.randint(0, 5)))
            elif r < .87 and lcur.get(cur):
                items.append(("orglab", rng.choice(lcur[cur]), rng.randint(0, 6)))
            else:
                l = "l%d" % nl
                nl += 1
                items.append(("lab", l, rng.choice(["%s label byte", "%s db 11h"]) if 0 else "%s label byte"))
                lcur.setdefault(cur, []).append(l)
                own[l] = cur
        items.append(("db", [0x5a]))
        if mode == 16 and hdr == ".386\n":
            L = [l for l in own if own[l] == cur and cur == items_first(items)]
        else:
            L = sorted(own)
        if L:
            items.append(("tab", L[:4]))
        J.append(Prog("p-%d" % k, mode, hdr, segs, items, asm).job())
    return J


def items_first(items):
    return next(x[1] for x in items if x[0] == "seg")


def check():
    return Check("P07", jobs(), "one ALIGN of 2..32 at 18 phases, ALIGN with any 64-bit argument, ORG to 0..24; random programs of 6..11 directives over 2..3 segments with two symbolic padding lengths (5 x 3 values); raw binary output")
