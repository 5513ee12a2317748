"""P03: data definitions emit the declared values, in order, little-endian, at the declared size."""
from spec import *
TYPES = [("db", 1), ("byte", 1), ("sbyte", 1), ("dw", 2), ("word", 2), ("sword", 2), ("dd", 4), ("dword", 4), ("sdword", 4), ("df", 6), ("fword", 6),
         ("dq", 8), ("qword", 8), ("sqword", 8), ("dt", 10), ("tbyte", 10), ("oword", 16)]


def single(id, mode, d, n, neg):
    def spec(c):
        v = sxt(c.v["V"], max(136, 8 * n + 8))
        v = -v if neg == 1 else ~v if neg else v
        if n < 8:
            must = z3.And(v >= -(1 << (8 * n - 1)), v < (1 << (8 * n)))
            may = z3.And(v >= -(1 << (8 * n)), v < (1 << (8 * n)))
            if not c.branch(may):
                c.check("a value that does not fit is rejected", c.code != 0 and c.file("t.bin") is None)
                return
            if not c.branch(must) and c.code != 0:
                return
        same(c, c.file("t.bin"), bytes_of(v, n))
    e = "-«V»" if neg == 1 else "not «V»" if neg else "«V»"
    # a hexadecimal literal of 8000000000000000h and above is a positive number in initializers of more than 8 bytes
    asm = [] if n <= 8 else [ule("V", 64, (1 << 63) - 1)]
    return Job(id, HDR[mode] + d + " " + e + END, spec, {"V": 64}, asm)


def wide(id, mode, d, n, digs, neg, lo):
    """a literal of `digs` hexadecimal digits, three of them (from position lo) symbolic"""
    rng = random.Random("%s-%d" % (id, SEED))
    vs, asm, t, val = {}, [], "0", []
    for i in range(digs):
        if lo <= i < lo + 3:
            v = "D%d" % i
            vs[v] = 8
            asm.append(urange(v, 8, 0x30, 0x39) if (i + SEED) & 1 else urange(v, 8, 0x61, 0x66))
            t += "«b:%s»" % v
            val.append(v)
        else:
            x = rng.randrange(8 if neg and digs == 32 and not i else 16)
            t += "%x" % x
            val.append(x)

    def spec(c):
        c.check("an error or an object, not both", (c.code != 0) == (c.file("t.bin") is None))
        W = max(200, 8 * n + 8)
        v = z3.BitVecVal(0, W)
        for x in val:
            if not isinstance(x, int):
                ch = z3.ZeroExt(W - 8, c.v[x])
                x = z3.If(z3.UGE(ch, 0x61), ch - 0x57, ch - 0x30)
            v = v * 16 + x
        if neg:
            # operators are 64-bit: the negation of a literal of 2^63..2^64-1 is not specified for wider items
            if n > 8 and not c.branch(z3.Or(z3.ULT(v, 1 << 63), z3.UGE(v, 1 << 64))):
                return
            # ... and integers are 128 bits wide
            if n > 16 and not c.branch(z3.ULE(v, 1 << 127)):
                return
            v = -v
        ok = z3.And(v >= -(1 << (8 * n)), v < (1 << (8 * n)))
        if not c.branch(ok):
            c.check("a value that does not fit is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        same(c, c.file("t.bin"), bytes_of(v, n))
    return Job(id, HDR[mode] + d + " " + ("-" if neg else "") + t + "h" + END, spec, vs, asm)


def real(id, mode, d, n):
    """encoded real: 2n hexadecimal digits and r"""
    vs, asm, t, val = {}, [], "", []
    rng = random.Random("%s-%d" % (id, SEED))
    for i in range(2 * n):
        if i < 2 or 2 * n - i < 4 or i == n:
            v = "D%d" % i
            vs[v] = 8
            asm.append(urange(v, 8, 0x30, 0x39) if (i + SEED) & 1 or i == 0 else urange(v, 8, 0x61, 0x66))
            t += "«b:%s»" % v
            val.append(v)
        else:
            x = rng.randrange(16)
            t += "%X" % x
            val.append(x)

    def spec(c):
        v = z3.BitVecVal(0, 8 * n)
        for x in val:
            if not isinstance(x, int):
                ch = z3.ZeroExt(8 * n - 8, c.v[x])
                x = z3.If(z3.UGE(ch, 0x61), ch - 0x57, ch - 0x30)
            v = v * 16 + x
        same(c, c.file("t.bin"), bytes_of(v, n))
    return Job(id, HDR[mode] + d + " " + t + "r" + END, spec, vs, asm)


class Gen:
    """a random initializer list; text() and value() agree on the same tree"""

    def __init__(self, rng, n, tag):
        self.rng, self.n, self.vars, self.asm, self.tag, self.k = rng, n, {}, [], tag, 0

    def var(self, kind):
        v = "%s%s%d" % (kind, self.tag, self.k)
        self.k += 1
        self.vars[v] = 64 if kind in "VN" else 8
        if kind == "N":
            self.asm.append(ule(v, 64, 2))
        elif kind == "V":
            self.asm.append("(or (ule %s (c 64 %d)) (ule (c 64 0x%x) %s))" % (v, (1 << (8 * self.n)) - 1 if self.n < 8 else (1 << 63) - 1, ((1 << 64) - (1 << (8 * self.n - 1)) if self.n < 8 else 1 << 63), v)) if self.n < 8 else None
            if self.n > 8:
                self.asm.append(ule(v, 64, (1 << 63) - 1))
        return v

    def item(self, depth, syms):
        r = self.rng.random()
        if depth and r < 0.4:
            body = [self.item(depth - 1, syms) for _ in range(self.rng.randint(1, 2))]
            if syms and syms[0] > 0 and self.rng.random() < 0.5:
                syms[0] -= 1
                return ("dup", self.var("N"), body)
            return ("dup", self.rng.choice([0, 1, 2, 3]), body)
        if r < 0.5:
            return ("?",)
        if r < 0.65:
            k = self.rng.randint(1, 3) if self.n == 1 else self.rng.randint(1, min(self.n, 10))
            return ("str", [self.rng.choice("abcXYZ 09;,<>()") for _ in range(k)])
        if r < 0.85 and syms[1] > 0:
            syms[1] -= 1
            return ("sym", self.var("V"))
        return ("c", self.rng.randrange(1 << min(8 * self.n, 62)) >> self.rng.choice([0, 3, 7]))

    def text(self, it):
        k = it[0]
        if k == "dup":
            return "%s dup (%s)" % ("«%s»" % it[1] if isinstance(it[1], str) else it[1], ",".join(self.text(x) for x in it[2]))
        if k == "?":
            return "?"
        if k == "str":
            return '"%s"' % "".join(it[1]) if self.rng.random() < .5 else "'%s'" % "".join(it[1])
        return "«%s»" % it[1] if k == "sym" else str(it[1])

    def value(self, c, it):
        k, n = it[0], self.n
        if k == "dup":
            m = it[1] if isinstance(it[1], int) else c.val(c.v[it[1]])
            b = []
            for x in it[2]:
                b += self.value(c, x)
            return b * m
        if k == "?":
            return [0] * n
        if k == "str":
            b = [ord(x) for x in it[1]]
            return b if n == 1 else b[::-1] + [0] * (n - len(b))
        if k == "sym":
            return bytes_of(sxt(c.v[it[1]], max(64, 8 * n)), n)
        return list(it[1].to_bytes(n, "little"))

    def length(self, c, it):
        return len(self.value(c, it)) // self.n


def listjob(id, mode, rng, nsym):
    gens = []
    text = ""
    for j in range(rng.randint(1, 3)):
        d, n = rng.choice(TYPES)
        g = Gen(rng, n, "abc"[j])
        syms = [1 if j == 0 and nsym[0] else 0, nsym[1]]
        items = [g.item(rng.choice([0, 1, 2, 3]), syms) for _ in range(rng.randint(1, 4))]
        gens.append((g, items, n))
        lab = "x%d " % j if rng.random() < .6 else ""
        tx = [g.text(x) for x in items]
        if rng.random() < .25 and len(tx) > 1:
            tx[0] += " "
            text += lab + d + " " + ",\n  ".join(tx) + "\n"
        else:
            text += lab + d + " " + (", " if rng.random() < .5 else ",").join(tx) + "\n"
    vs, asm = {}, []
    for g, _, _ in gens:
        vs.update(g.vars)
        asm += [a for a in g.asm if a]

    def spec(c):
        w = []
        for g, items, n in gens:
            for x in items:
                w += g.value(c, x)
        same(c, c.file("t.bin"), w + [0x5a])
    return Job(id, HDR[mode] + text + "db 5ah" + END, spec, vs, asm)


def strjob(id, mode, d, n, k, q, esc=None):
    """a string of k arbitrary characters"""
    vs = {"C%d" % i: 8 for i in range(k)}
    lo = lambda v: "(and (or %s %s) (ne %s (c 8 %d)))" % (urange(v, 8, 0x20, 0x7e), urange(v, 8, 0x80, 0xff), v, ord(q))
    asm = [lo(v) for v in vs]
    t = "".join("«b:%s»" % v for v in vs)
    if esc is not None:
        t = t[:0] + "".join("«b:C%d»" % i + (q * 2 if i == esc else "") for i in range(k))

    def spec(c):
        b = []
        for i in range(k):
            b.append(c.v["C%d" % i])
            if i == esc:
                b.append(ord(q))
        if n == 1:
            w = b
        elif len(b) > n:
            c.check("a string longer than the item is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        else:
            w = b[::-1] + [0] * (n - len(b))
        same(c, c.file("t.bin"), w + [0x5a])
    return Job(id, HDR[mode] + d + " " + q + t + q + "\ndb 5ah" + END, spec, vs, asm)


def sizejob(id, mode, rng):
    """LENGTHOF, SIZEOF, TYPE (whole initializer list) and LENGTH, SIZE (first initializer only)"""
    d, n = rng.choice([t for t in TYPES if t[1] < 10])
    g = Gen(rng, n, "a")
    while True:
        g.vars, g.asm, g.k = {}, [], 0
        items = [g.item(2, [2, 0]) for _ in range(rng.randint(1, 3))]
        if any(x[0] == "N" for x in g.vars):
            break
    before = rng.random() < .5
    q = "db lengthof x, sizeof x, type x\n" + ("dw (sizeof x)+(lengthof x)*256\n")
    D = "x " + d + " " + ",".join(g.text(x) for x in items) + "\n"

    def spec(c):
        w = []
        for x in items:
            w += g.value(c, x)
        L, S = len(w) // n, len(w)
        # a string in a byte list counts its characters
        s = [L, S, n, S, L]
        same(c, c.file("t.bin"), w + s if not before else s + w + [0x5a] if 0 else w + s)
    return Job(id, HDR[mode] + D + q + END, spec, g.vars, [a for a in g.asm if a])


def litjob(id, mode, d, n, k, lab):
    """OPTION LITERALS:ON - a string in a WORD list is an array of 16-bit characters"""
    vs = {"C%d" % i: 8 for i in range(k)}
    asm = ["(and %s (ne %s (c 8 34)))" % (urange(v, 8, 0x20, 0x7e), v) for v in vs]
    t = "".join("«b:%s»" % v for v in vs)

    def spec(c):
        b = [c.v["C%d" % i] for i in range(k)]
        if n == 2:
            w = [x for y in b for x in (y, 0)]
        elif k > n > 1:
            c.check("a string longer than the item is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        else:
            w = b if n == 1 else b[::-1] + [0] * (n - k)
        w += [0x5a]
        if lab:
            w += [len(w[:-1]) // n, len(w[:-1])]
        same(c, c.file("t.bin"), w)
    return Job(id, HDR[mode] + "option literals:on\n" + ("x " if lab else "") + d + ' "' + t + '"\ndb 5ah\n' + ("db lengthof x, sizeof x" if lab else "") + END, spec, vs, asm)


def labeljob(id, mode, rng, k):
    """label arithmetic: the value of a data label is its offset"""
    n = {64: 8, 32: 4, 16: 2}[mode]
    d = {8: "dq", 4: "dd", 2: "dw"}[n]
    fw = k & 1
    vs = {"N": 64, "M": 64, "V": 64}
    asm = [ule("N", 64, 3), ule("M", 64, 2), ule("V", 64, 0x7000)]
    body = ["a db «N» dup (11h)\n", "b dw «M» dup (2222h)\n", "e db 33h\n"]
    ref = "%s b+«V», offset e, e-a, e-b+«V», $\n" % d
    src = ref + "".join(body) if fw else "".join(body) + ref

    def spec(c):
        N, M = c.val(c.v["N"]), c.val(c.v["M"])
        V = sxt(c.v["V"], 64)
        base = 5 * n if fw else 0
        B = base + N
        Eo = B + 2 * M
        here = 4 * n if fw else Eo + 1 + 4 * n
        D = [0x11] * N + [0x22] * (2 * M) + [0x33]
        R = []
        for x in (V + B, Eo, Eo - base, V + (Eo - B), here):
            R += bytes_of(bv(x, 64), n)
        same(c, c.file("t.bin"), R + D if fw else D + R)
    return Job(id, HDR[mode] + src + END, spec, vs, asm)


def jobs():
    J = []
    rng = random.Random("p03-%d" % SEED)
    modes = (64, 32, 16)
    for i, (d, n) in enumerate(TYPES):
        for neg in (0, 1, 2):
            if neg == 2 and n > 8:
                continue
            for m in modes if THOROUGH else (modes[(i + neg) % 3],):
                J.append(single("val-%s-%d-%d" % (d, neg, m), m, d, n, neg))
        if n >= 8:
            for neg in (0, 1):
                for digs in (2 * n - 1, 2 * n, 2 * n + 1) if n < 16 else (17, 31, 32):
                    for lo in (0, digs // 2, digs - 3):
                        J.append(wide("hex-%s-%d-%d-%d" % (d, digs, neg, lo), modes[(i + lo) % 3], d, n, digs, neg, lo))
    for d, n in (("ymmword", 32), ("zmmword", 64)):
        for neg in (0, 1):
            J.append(single("val-%s-%d" % (d, neg), 64, d, n, neg))
            for digs in (17, 31, 32):
                for lo in (0, digs - 3):
                    J.append(wide("hex-%s-%d-%d-%d" % (d, digs, neg, lo), 64, d, n, digs, neg, lo))
    for d, n in (("real4", 4), ("real8", 8), ("real10", 10), ("dd", 4), ("dq", 8), ("dt", 10)):
        J.append(real("real-" + d, 64, d, n))
    for k in range(240 if THOROUGH else 80):
        J.append(listjob("list-%d" % k, modes[k % 3], rng, (k & 1, 2)))
    for d, n in (("db", 1), ("dw", 2), ("dd", 4), ("dq", 8), ("dt", 10), ("byte", 1), ("sword", 2)):
        for k in {1: (1, 3), 2: (1, 2, 3), 4: (3, 4, 5), 6: (5, 6), 8: (7, 8, 9), 10: (9, 10, 11)}[n]:
            for q in "\"'":
                J.append(strjob("str-%s-%d-%s" % (d, k, "d" if q == '"' else "s"), modes[(k + n) % 3], d, n, k, q))
        J.append(strjob("strq-%s" % d, 32, d, n, 2, "'", 0))
        J.append(strjob("strqq-%s" % d, 64, d, n, 3, '"', 1))
    for d, n in (("db", 1), ("dw", 2), ("word", 2), ("dd", 4), ("dq", 8)):
        for k in (1, 2, 4, 5):
            for lab in (0, 1):
                J.append(litjob("lit-%s-%d-%d" % (d, k, lab), modes[(n + k) % 3], d, n, k, lab))
    for k in range(60 if THOROUGH else 30):
        J.append(sizejob("size-%d" % k, modes[k % 3], rng))
    for k in range(2):
        for m in modes:
            J.append(labeljob("label-%d-%d" % (m, k), m, rng, k))
    return J


def check():
    return Check("P03", jobs(), "data directives DB..DT/OWORD and their typed synonyms: any 64-bit value (longer literals: three symbolic digits at a time), strings of 1..11 arbitrary characters, random initializer lists with DUP nesting up to 3 and symbolic counts 0..2")
