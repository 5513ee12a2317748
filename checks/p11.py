"""P11: text macros: TEXTEQU/CATSTR/SUBSTR/INSTR/SIZESTR, the @-functions and text substitution compute the specified strings.

Random straight-line programs over text macros whose characters, positions and counts are symbolic; a reference interpreter
works on lists of characters."""
from spec import *

CH = "abAB01"


class Err(Exception):
    pass


class Gen:
    def __init__(self, rng, nc, npos, wide):
        self.wide = wide
        self.rng, self.vars, self.asm, self.k, self.nc, self.np = rng, {}, [], 0, nc, npos
        self.tv, self.src, self.ops, self.nums = [], [], [], 0
        self.len = {}

    def lit(self, lo, hi):
        """a literal text: a list of characters, some symbolic"""
        r = []
        for _ in range(self.rng.randint(lo, hi)):
            if self.nc and self.rng.random() < .4:
                self.nc -= 1
                v = "C%d" % self.k
                self.k += 1
                self.vars[v] = 8
                if self.wide:
                    self.asm.append(urange(v, 8, 0x30, 0x39))
                else:
                    self.asm.append(oneof(v, 8, [ord(x) for x in self.rng.choice(["ab", "aA", "0a", "bB", "01"])]))
                r.append(v)
            else:
                r.append(self.rng.choice("0123" if self.wide else CH))
        return r

    def num(self, lo, hi):
        """a number in lo..hi: a constant or an input (text, value function)"""
        if self.np and self.rng.random() < .6:
            self.np -= 1
            v = "N%d" % self.k
            self.k += 1
            self.vars[v] = 64
            self.asm.append("(ule (add %s (c 64 1)) (c 64 %d))" % (v, hi + 2))
            self.src.append("n_%s = -1\nwhile n_%s lt «%s»\nn_%s = n_%s+1\nendm" % (v, v, v, v, v))   # one path per value
            return "n_" + v, v
        x = self.rng.randint(lo, hi)
        return str(x), x

    def newt(self):
        t = "t_%d" % len(self.tv)
        self.tv.append(t)
        return t

    @staticmethod
    def lt(cs):
        return "<" + "".join(c if len(c) == 1 else "«b:%s»" % c for c in cs) + ">"

    def item(self):
        """an item of CATSTR/TEXTEQU: (text, tree, max length)"""
        rng = self.rng
        q = rng.random()
        if q < .45 and self.tv:
            t = rng.choice(self.tv)
            return t, ("t", t), self.len[t]
        if q < .6:
            s, v = self.num(0, 12)
            k = rng.randint(0, 20)
            return "%%(%s+%d)" % (s, k + 2), ("num", v, k + 2), 3
        if q < .75 and self.tv and not self.wide:
            return self.func()
        l = self.lit(0, 3)
        return self.lt(l), ("l", l), len(l)

    def arg(self):
        """an argument of an @-function"""
        rng = self.rng
        if self.tv and rng.random() < .7:
            t = rng.choice(self.tv)
            return "%" + t, ("t", t), self.len[t]
        l = self.lit(1, 4)
        return self.lt(l), ("l", l), len(l)

    def func(self):
        rng = self.rng
        if rng.random() < .5:
            a = [self.arg() for _ in range(rng.randint(1, 3))]
            return "@CatStr(%s)" % ",".join(x[0] for x in a), ("cat", [x[1] for x in a]), sum(x[2] for x in a)
        a = self.arg()
        p = self.num(1, max(1, a[2]))
        if rng.random() < .6:
            n = self.num(0, max(0, a[2] - 1))
            return "@SubStr(%s,%s,%s)" % (a[0], p[0], n[0]), ("subf", a[1], p[1], n[1]), a[2]
        return "@SubStr(%s,%s)" % (a[0], p[0]), ("subf", a[1], p[1], None), a[2]

    def text(self):
        """a text item (not numeric)"""
        while True:
            t = self.item()
            if t[1][0] in ("t", "l"):
                return t

    def step(self):
        rng = self.rng
        q = rng.random()
        if q < .4 or len(self.tv) < 2:
            its = [self.item() for _ in range(rng.randint(1, 3))]
            if sum(x[2] for x in its) > 24:
                return
            t = rng.choice(self.tv) if self.tv and rng.random() < .3 else self.newt()
            self.src.append("%s %s %s" % (t, rng.choice(["textequ", "catstr", "TEXTEQU", "CatStr"]), ",".join(x[0] for x in its)))
            self.ops.append(("let", t, ("cat", [x[1] for x in its])))
            self.len[t] = sum(x[2] for x in its)
        elif q < .6:
            a = self.text()
            if not a[2]:
                return
            p = self.num(1, a[2])
            n = self.num(0, a[2] - 1) if rng.random() < .6 else None
            t = rng.choice(self.tv) if rng.random() < .3 else self.newt()
            self.src.append("%s substr %s,%s%s" % (t, a[0], p[0], "," + n[0] if n else ""))
            self.ops.append(("let", t, ("sub", a[1], p[1], n[1] if n else None)))
            self.len[t] = a[2]
        elif q < .7:
            a = self.text()
            self.nums += 1
            self.src += ["k_%d sizestr %s" % (self.nums, a[0]), "db k_%d" % self.nums]
            self.ops.append(("emit", ("size", a[1])))
        elif q < .85:
            a, b = self.text(), self.text()
            p = self.num(1, max(1, a[2])) if rng.random() < .5 else None
            self.nums += 1
            self.src += ["k_%d instr %s%s,%s" % (self.nums, p[0] + "," if p else "", a[0], b[0]), "db k_%d" % self.nums]
            self.ops.append(("emit", ("in", p[1] if p else None, a[1], b[1])))
        elif q < .93 and not self.wide:
            a, b = self.arg(), self.arg()
            p = self.num(1, max(1, a[2])) if rng.random() < .5 else None
            self.src.append("db @InStr(%s,%s,%s)" % (p[0] if p else "", a[0], b[0]))
            self.ops.append(("emit", ("inf", p[1] if p else None, a[1], b[1])))
        elif not self.wide:
            a = self.arg()
            self.src.append("db @SizeStr(%s)" % a[0])
            self.ops.append(("emit", ("size", a[1])))
        if rng.random() < .4:
            self.show(rng.choice(self.tv))

    def show(self, t):
        q = self.rng.random()
        if q < .5 or self.wide:
            self.src.append('%%db "|&%s&|"' % t)
        else:
            self.src.append("sh_ %%%s" % t)
        self.ops.append(("show", t))


class Ev:
    def __init__(self, c):
        self.c, self.t = c, {}

    def n(self, v):
        if isinstance(v, int):
            return v
        x = self.c.val(self.c.v[v])
        return x - ((x >> 63) << 64)

    def text(self, x):
        k = x[0]
        if k == "t":
            return self.t[x[1]]
        if k == "l":
            return [ord(y) if len(y) == 1 else self.c.v[y] for y in x[1]]
        if k == "num":
            return list(str(self.n(x[1]) + x[2]).encode())
        if k == "cat":
            return [y for z in x[1] for y in self.text(z)]
        s = self.text(x[1])
        p = self.n(x[2])
        if k == "subf" and p == 0:
            p = 1           # accepted, documented as 1
        if p < 1 or p > len(s):
            raise Err()
        n = len(s) - p + 1 if x[3] is None else self.n(x[3])
        if n < 0 or n > len(s) - p + 1:
            raise Err()
        return s[p - 1:p - 1 + n]

    def val(self, x):
        k = x[0]
        if k == "size":
            return len(self.text(x[1]))
        p = 1 if x[1] is None else self.n(x[1])
        a, b = self.text(x[2]), self.text(x[3])
        if p > len(a):
            raise Err()     # past the end of the string
        if p < 1:
            if k == "in":
                return 0
            if p < 0:
                raise Err()
            p = 1
        if not b:
            return 0
        for i in range(p - 1, len(a) - len(b) + 1):
            e = [y == z if isinstance(y, int) and isinstance(z, int) else bv(y, 8) == bv(z, 8) for y, z in zip(a[i:], b)]
            if all(y is True or y is not False for y in e) and (all(y is True for y in e) or self.c.branch(z3.And([y for y in e if y is not True]))):
                return i + 1
        return 0


def prog(id, mode, rng, nc, npos, wide):
    g = Gen(rng, nc, npos, wide)
    for _ in range(2):
        t = g.newt()
        l = g.lit(2, 5)
        g.src.append("%s %s %s" % (t, rng.choice(["textequ", "catstr" if wide else "equ"]), g.lt(l)))
        g.ops.append(("let", t, ("l", l)))
        g.len[t] = len(l)
    for _ in range(rng.randint(4, 9)):
        g.step()
    g.show(g.tv[-1])

    def spec(c):
        e = Ev(c)
        w = []
        try:
            for o in g.ops:
                if o[0] == "let":
                    e.t[o[1]] = e.text(o[2])
                elif o[0] == "emit":
                    w.append(e.val(o[1]))
                else:
                    w += [0x7c] + e.t[o[1]] + [0x7c]
        except Err:
            c.check("a position or count outside the string is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        same(c, c.file("t.bin"), w + [0x5a])
    return Job(id, HDR[mode] + "sh_ macro p\ndb '|&p&|'\nendm\n" + "\n".join(g.src) + "\ndb 5ah" + END, spec, g.vars, g.asm)


def expand(id, mode, kind):
    """substitution of text macros in statements"""
    vs, asm = {"V": 64, "C": 8}, [ule("V", 64, 200), urange("C", 8, 0x30, 0x39)]
    b = lambda c: z3.Extract(7, 0, c.v["V"])
    C = lambda c: c.v["C"]
    if kind == "code":
        t, w = "s = 0+«V»\nt textequ <db s,>\nu equ <t 7>\nu\nt 1,2\n", lambda c: [b(c), 7, b(c), 1, 2]
    elif kind == "expr":
        t, w = "s = 0+«V»\nt textequ <3+s>\ndb low (t*2),low ((t)*2)\n", lambda c: [3 + 2 * b(c), (3 + b(c)) * 2]
    elif kind == "late":
        t, w = "t textequ <s>\ns = 1\ndb t\ns = 0+«V»\ndb t\nt textequ <9>\ndb t,s\n", lambda c: [1, b(c), 9, b(c)]
    elif kind == "chain":
        t, w = "a_ equ <b_>\nb_ equ <c_>\nc_ equ <d_>\nd_ = 0+«V»\ndb a_,b_\nd_ = 3\ndb a_\n", lambda c: [b(c), b(c), 3]
    elif kind == "noexp":
        t, w = "t textequ <z>\ndb 't','«b:C»t'\n%db 't','&t&','«b:C»&t&'\n", lambda c: [0x74, C(c), 0x74, 0x74, 0x7a, C(c), 0x7a]
    elif kind == "arg":
        t, w = "m macro x,y\ndb '&x&','&y&'\nendm\nt textequ <q«b:C»>\nm t,%t\nm <t>,<%t>\n", lambda c: [0x74, 0x71, C(c), 0x74] + [0x71, C(c)]
    elif kind == "argpct":
        t, w = "m macro x,y\ndb '&x&','&y&'\nendm\ns = 0+«V»\nm %s+1,%(s and 1)\n", lambda c: list(str(c.val(c.v["V"]) + 1).encode()) + [0x30 + (c.val(c.v["V"]) & 1)]
        asm[0] = ule("V", 64, 12)
    elif kind == "radix":
        t, w = ".radix 16\ns = 0+«V»\nt textequ %s+0fe\n%db '&t&'\n.radix 0ah\nu textequ %s\n%db '&u&'\n", lambda c: list(("%X" % (c.val(c.v["V"]) + 254)).encode()) + list(str(c.val(c.v["V"])).encode())
        asm[0] = ule("V", 64, 12)
    elif kind == "ifdef":
        t, w = "if «V» gt 100\nt textequ <5>\nendif\nifdef t\ndb t\nelse\ndb 6\nendif\n", lambda c: [z3.If(c.v["V"] > 100, bv(5, 8), bv(6, 8))]
    elif kind == "func":
        t, w = "f macro x,y\nexitm @CatStr(<y>,<x>)\nendm\nt textequ f(a«b:C»,bc)\n%db '&t&'\nu textequ f(f(1,2),f(3,4))\n%db '&u&'\n", lambda c: [0x62, 0x63, 0x61, C(c)] + list(b"4321")
    elif kind == "loop":
        t, w = "t textequ <>\nrepeat «V»\nt catstr t,<x«b:C»>\nendm\nn sizestr t\ndb n\n%db '&t&.'\n", lambda c: [2 * c.val(c.v["V"])] + [0x78, C(c)] * c.val(c.v["V"]) + [0x2e]
        asm[0], asm[1] = ule("V", 64, 6), oneof("C", 8, [0x31, 0x33])
    elif kind == "rev":
        t = "t textequ <«b:C»bcd«b:D»>\nu textequ <>\nk = 5\nwhile k\nx substr t,k,1\nu catstr u,x\nk = k-1\nendm\n%db '&u&'\n"
        w = lambda c: [c.v["D"], 0x64, 0x63, 0x62, C(c)]
        vs["D"] = 8
        asm.append(urange("D", 8, 0x30, 0x39))

    def spec(c):
        r = w(c)
        same(c, c.file("t.bin"), r + [0x5a])
    return Job(id, HDR[mode] + t + "db 5ah" + END, spec, vs, asm)


def pos64(id, mode, kind):
    """positions and counts of any 64-bit value"""
    src = {"substr": "u substr t,s\n", "substrn": "u substr t,2,s\n", "instr": "k instr s,t,<c>\ndb k\n", "@instr": "db @InStr(s,%t,c)\n", "@substr": "u textequ @SubStr(%t,s)\n", "@substrn": "u textequ @SubStr(%t,2,s)\n"}[kind]
    if "sub" in kind:
        src += "%db '&u&!'\n"
    T = list(b"abcdef")

    def spec(c):
        v = c.v["V"]
        lo, hi = (0, 5) if kind.endswith("n") else (1, 6)
        if not c.branch(z3.And(v >= lo, v <= hi)):
            if kind == "@instr" and c.branch(v == 0) or kind == "instr" and c.branch(v < 1):
                # documented: 0 is taken as 1 by @InStr, and the directive finds nothing before the string
                return same(c, c.file("t.bin"), [3 if kind == "@instr" else 0, 0x5a])
            if kind == "@substr" and c.branch(v == 0):
                return same(c, c.file("t.bin"), T + [0x21, 0x5a])
            c.check("a position or count outside the string is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        n = c.val(v)
        same(c, c.file("t.bin"), (T[1:1 + n] + [0x21] if kind.endswith("n") else T[n - 1:] + [0x21] if "sub" in kind else [3 if n <= 3 else 0]) + [0x5a])
    return Job(id, HDR[mode] + "s = 0+«V»\nt textequ <abcdef>\n" + src + "db 5ah" + END, spec, {"V": 64}, [])


def jobs():
    J = []
    modes = (64, 32, 16)
    for k in range(400 if THOROUGH else 130):
        J.append(prog("text-%d" % k, modes[k % 3], random.Random("p11-%d-%d" % (k, SEED)), *((3, 0), (2, 1), (1, 1), (0, 2))[k % 4], (k // 4) & 1))
    n = 0
    for kind in ("code", "expr", "late", "chain", "noexp", "arg", "argpct", "radix", "ifdef", "func", "loop", "rev"):
        J.append(expand("exp-" + kind, modes[n % 3], kind))
        n += 1
    for kind in ("substr", "substrn", "instr", "@instr", "@substr", "@substrn"):
        for m in modes:
            J.append(pos64("pos-%s-%d" % (kind.replace("@", "f"), m), m, kind))
    return J


def check():
    return Check("P11", jobs(), "random programs of 6..11 text operations on texts of up to 24 characters, three of them any of [0-9A-Za-z]; positions and counts -1 .. beyond the end")
