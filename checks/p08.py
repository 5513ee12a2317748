"""P08: STRUCT, UNION and RECORD layout and initialization."""
from spec import *
import x86

SC = [("byte", 1), ("db", 1), ("sbyte", 1), ("word", 2), ("dw", 2), ("dword", 4), ("sdword", 4), ("dd", 4), ("qword", 8), ("dq", 8), ("oword", 16)]
DW = {64: "dd", 32: "dd", 16: "dw"}


class V:
    """symbolic initializers"""

    def __init__(self, rng, budget):
        self.rng, self.vs, self.asm, self.k, self.budget, self.forks = rng, {}, [], 0, budget, 0

    def num(self, n):
        """(text, function of c giving n bytes)"""
        if self.budget > 0 and self.rng.random() < .5:
            self.budget -= 1
            v = "V%d" % self.k
            self.k += 1
            self.vs[v] = 64
            m = 8 * min(n, 8)
            if m < 64:
                self.asm.append("(or %s (ule (c 64 0x%x) %s))" % (ule(v, 64, (1 << m) - 1), (1 << 64) - (1 << (m - 1)), v))
            elif n > 8:
                self.asm.append(ule(v, 64, (1 << 63) - 1))
            return "«%s»" % v, lambda c: bytes_of(sxt(c.v[v], max(64, 8 * n)), n)
        x = self.rng.randrange(1 << (8 * n - 1))
        return "0%xh" % x, lambda c: list(x.to_bytes(n, "little"))

    def string(self, k):
        t, cs = "", []
        for i in range(k):
            if self.budget > 0 and self.rng.random() < .6:
                self.budget -= 1
                v = "C%d" % self.k
                self.k += 1
                self.vs[v] = 8
                self.asm.append("(and %s (ne %s (c 8 34)) (ne %s (c 8 39)) (ne %s (c 8 33)) (ne %s (c 8 60)) (ne %s (c 8 62)) (ne %s (c 8 123)) (ne %s (c 8 125)))" % (urange(v, 8, 0x20, 0x7e), v, v, v, v, v, v, v))
                t += "«b:%s»" % v
                cs.append(v)
            else:
                x = self.rng.choice("abcxyzKL09,;")
                t += x
                cs.append(ord(x))
        return '"' + t + '"', lambda c: [c.v[x] if isinstance(x, str) else x for x in cs]


class Scalar:
    def __init__(self, W, n):
        self.n = self.align = n
        self.w = W

    def init(self):
        return self.w.num(self.n)

    zero = property(lambda s: [0] * s.n)


class Rec:
    """a RECORD type of concrete widths"""

    def __init__(self, W, name, tot):
        rng = W.rng
        self.w, self.name = W, name
        self.f = []
        left = rng.choice(range(max(2, tot // 2 + 1), tot + 1))
        self.bits = left
        while left:
            x = rng.randint(1, min(left, 40)) if len(self.f) < 4 else min(left, 40)
            d = rng.randrange(1 << min(x, 30)) if rng.random() < .5 else None
            self.f.append(("%s%d" % (name, len(self.f)), x, d))
            left -= x
        self.n = next(k for k in (1, 2, 4, 8, 16) if 8 * k >= self.bits)
        self.align = self.n

    def define(self):
        return "%s record %s\n" % (self.name, ", ".join("%s:%d%s" % (n, x, "" if d is None else "=%d" % d) for n, x, d in self.f))

    def pack(self, c, vals):
        b = 8 * self.n
        r, at = z3.BitVecVal(0, b), self.bits
        for (n, x, d), v in zip(self.f, vals):
            at -= x
            v = z3.BitVecVal(v, b) if isinstance(v, int) else (z3.ZeroExt(b - 64, c.v[v]) if b > 64 else z3.Extract(b - 1, 0, c.v[v]))
            r = r | (v << at)
        r = z3.simplify(r)
        return bytes_of(r, self.n)

    def default(self, c):
        return self.pack(c, [d or 0 for _, _, d in self.f])

    def init(self):
        t, vals = [], []
        rng, W = self.w.rng, self.w
        k = rng.randint(1, len(self.f))
        for i, (n, x, d) in enumerate(self.f):
            if i >= k or rng.random() < .2:
                vals.append(d or 0)
                if i < k:
                    t.append("")
            elif W.budget > 0 and rng.random() < .6 and x <= 63:
                W.budget -= 1
                v = "R%d" % W.k
                W.k += 1
                W.vs[v] = 64
                W.asm.append(ule(v, 64, (1 << x) - 1))
                t.append("«%s»" % v)
                vals.append(v)
            else:
                vals.append(rng.randrange(1 << x))
                t.append(str(vals[-1]))
        return "<" + ",".join(t) + ">", lambda c: self.pack(c, vals)

    @property
    def zero(self):
        return [0] * self.n


class Field:
    def __init__(self, name, off_of, ty, count, deftext, deffn, filler):
        self.name, self.ty, self.count, self.deftext, self.deffn, self.filler = name, ty, count, deftext, deffn, filler
        self.size = ty.n * (count or 1)


class Agg:
    """a STRUCT or UNION type"""

    def __init__(self, W, name, kind, align, pool, depth=0, rich=False):
        rng = W.rng
        self.w, self.name, self.kind, self.A = W, name, kind, align
        self.al = align or 1
        self.f, self.items = [], []
        for i in range(rng.randint(2, 4)):
            r = rng.random()
            if kind == "struct" and r < .12 and i:
                a = rng.choice([2, 4, 8, 2])
                self.items.append(("align", a))
                continue
            fn = "%sf%d" % (name, i)
            if rich and depth < 2 and rng.random() < .3:      # a nested declaration
                ty = Agg(W, fn, rng.choice(["struct", "union", "union"]), align, pool, depth + 1, True)
                fld = Field(fn, None, ty, None, None, ty.default, 0)
                fld.anon = rng.random() < .5
                fld.tn = None
                self.f.append(fld)
                self.items.append(("f", fld))
                continue
            agg = [p for p in pool if isinstance(p[1], (Agg, Rec))]
            if agg and rng.random() < .35:
                tn, ty = rng.choice(agg)
            else:
                tn, n = rng.choice(SC)
                ty = Scalar(W, n)
            sc = isinstance(ty, Scalar)
            filler = 0
            count = None
            if rng.random() < .3:
                count = rng.randint(2, 9 if rich else 4)
                if sc and ty.n == 1 and rng.random() < .5:
                    t, g = W.string(count)
                    filler = 0x20
                    fld = Field(fn, None, ty, count, t, g, filler)
                elif not sc and not isinstance(ty, Rec) and rng.random() < .3 or sc and rng.random() < .3:
                    tg = [ty.init() for _ in range(count)]
                    fld = Field(fn, None, ty, count, ",".join(x[0] for x in tg), (lambda tg: lambda c: sum([list(x[1](c)) for x in tg], []))(tg), 0)
                else:
                    t, g = ty.init() if rng.random() < .8 or not sc else ("?", lambda c, n=ty.n: [0] * n)
                    fld = Field(fn, None, ty, count, "%d dup (%s)" % (count, t), (lambda g, k: lambda c: list(g(c)) * k)(g, count), 0)
            elif sc and rng.random() < .15:
                fld = Field(fn, None, ty, None, "?", lambda c, n=ty.n: [0] * n, 0)
            elif not sc and rng.random() < .4:
                fld = Field(fn, None, ty, None, "<>", ty.default, 0)
            else:
                t, g = ty.init()
                fld = Field(fn, None, ty, None, t, g, 0)
            fld.tn = tn
            self.f.append(fld)
            self.items.append(("f", fld))
        if not self.f:
            fld = Field(name + "f", None, Scalar(W, 2), None, "7", lambda c: [7, 0], 0)
            fld.tn = "word"
            self.f, self.items = [fld], [("f", fld)]
        self.layout(self.al)

    def layout(self, al):
        off = mx = size = 0
        self.off = {}
        for k, x in self.items:
            if k == "align":
                off = -(-off // x) * x
                size = max(size, off)
                continue
            a = x.ty.max if isinstance(x.ty, Agg) else x.ty.n
            mx = max(mx, a)
            if al > 1:
                g = min(al, a)
                off = -(-off // g) * g
            self.off[x.name] = off if self.kind == "struct" else 0
            if self.kind == "struct":
                off += x.size
                size = max(size, off)
            else:
                off = 0
                size = max(size, x.size)
        if al > 1:
            g = min(al, mx)
            size = -(-size // g) * g
        self.n, self.max = size, mx

    def body(self, head):
        t = head + "\n"
        for k, x in self.items:
            if k == "align":
                t += "align %d\n" % x
            elif x.tn is None:
                t += x.ty.body("%s %s" % (x.ty.kind, "" if x.anon else x.name)) + "ends\n"
            else:
                t += "%s %s %s\n" % (x.name, x.tn, x.deftext)
        return t

    def define(self):
        t = self.body("%s %s%s" % (self.name, self.kind, "" if self.A is None else " %d" % self.A if not isinstance(self.A, str) else " «%s»" % self.A))
        return t + "%s ends\n" % self.name

    def build(self, c, parts):
        out = [0] * self.n
        for f in self.f if self.kind == "struct" else self.f[:1]:
            b = parts.get(f.name)
            b = f.deffn(c) if b is None else b(c)
            out[self.off[f.name]:self.off[f.name] + len(b)] = b
        return out

    def default(self, c):
        return self.build(c, {})

    def init(self):
        """an initializer <..> overriding some fields"""
        rng, W = self.w.rng, self.w
        fs = self.f if self.kind == "struct" else self.f[:1]
        k = rng.randint(0, len(fs))
        t, parts = [], {}
        for f in fs[:k]:
            if rng.random() < .25:
                t.append("")
                continue
            sc = isinstance(f.ty, Scalar)
            if f.count is None:
                x, g = f.ty.init()
            elif sc and f.ty.n == 1 and rng.random() < .5:
                m = rng.randint(2, f.count)
                x, h = W.string(m)
                g = (lambda h, f, m: lambda c: list(h(c)) + [f.filler] * (f.count - m))(h, f, m)
            elif rng.random() < .5:
                m = rng.randint(1, f.count)
                tg = [f.ty.init() for _ in range(m)]
                x = "{" + ",".join(y[0] for y in tg) + "}"
                g = (lambda tg, f: lambda c: (lambda b: b + [f.filler] * (f.size - len(b)))(sum([list(y[1](c)) for y in tg], [])))(tg, f)
            else:
                m = rng.randint(1, f.count)
                y, h = f.ty.init()
                x = "%d dup (%s)" % (m, y)
                g = (lambda h, f, m: lambda c: list(h(c)) * m + [f.filler] * (f.size - m * f.ty.n))(h, f, m)
            t.append(x)
            parts[f.name] = g
        o, e = rng.choice([("<", ">"), ("{", "}"), ("<", ">")])
        return o + ",".join(t) + e, lambda c: self.build(c, parts)


def paths(a, pre="", off=0):
    """(member expression, offset)"""
    for f in a.f:
        if f.tn is None and f.anon:
            yield from paths(f.ty, pre, off + a.off[f.name])
            continue
        yield pre + "." + f.name, off + a.off[f.name]
        if isinstance(f.ty, Agg) and f.count is None:
            yield from paths(f.ty, pre + "." + f.name, off + a.off[f.name])


def prog(id, mode, rng, symalign, symdup):
    W = V(rng, 1 if symalign else 5)
    pool, defs = [], []
    for i in range(rng.randint(1, 3)):
        if rng.random() < .25:
            t = Rec(W, "q%d_" % i, rng.choice([8, 8, 16, 32, 64, 128]))
            pool.append((t.name, t))
            defs.append(t)
        else:
            t = Agg(W, "t%d" % i, rng.choice(["struct", "struct", "struct", "union"]), rng.choice([None, None, 1, 2, 4, 8, 16]), pool)
            pool.append((t.name, t))
            defs.append(t)
    if not isinstance(defs[-1], Agg):
        t = Agg(W, "tz", "struct", rng.choice([None, 4]), pool)
        pool.append((t.name, t))
        defs.append(t)
    S = defs[-1]
    if symalign:
        S.A = "A"
        W.vs["A"] = 64
    text = "".join(d.define() for d in defs)
    fa = rng.choice([None, None, None, 2, 4, 8])
    pre = ""
    inst = []
    N = None
    W.budget = max(W.budget, 1 if symalign else 2)
    for j in range(rng.randint(1, 3)):
        t, g = S.init()
        r = rng.random()
        lab = "x%d " % j
        if r < .3:
            if N is None and symdup:
                N = "N"
                W.vs["N"] = 64
                W.asm.append(ule("N", 64, 2))
                text += "%s%s «N» dup (%s)\n" % (lab, S.name, t)
                inst.append((g, "N"))
            else:
                text += "%s%s 2 dup (%s)\n" % (lab, S.name, t)
                inst.append((g, 2))
        elif r < .5:
            t2, g2 = S.init()
            text += "%s%s %s,%s\n" % (lab, S.name, t, t2)
            inst += [(g, 1), (g2, 1)]
        else:
            text += "%s%s %s\n" % (lab, S.name, t)
            inst.append((g, 1))
    P = list(paths(S))[:6]
    text += "db 0a5h\n%s sizeof %s,%s\n" % (DW[mode], S.name, ",".join([S.name + p for p, _ in P]))
    text += "db 0a5h\n%s type x0, type x0%s\n" % (DW[mode], P[0][0])
    n = 4 if mode != 16 else 2

    def spec(c):
        if symalign:
            ok = z3.Or([c.v["A"] == 1 << i for i in range(7)])
            if not c.branch(ok):
                c.check("an alignment that is no power of two up to 64 is rejected", c.code != 0 and c.file("t.bin") is None)
                return
            S.layout(c.val(c.v["A"]))
        w = []
        for g, k in inst:
            b = list(g(c))
            w += b * (c.val(c.v[k]) if isinstance(k, str) else k)
        w += [0xa5]
        for x in [S.n] + [o for _, o in paths(S)][:6]:
            w += list(x.to_bytes(n, "little"))
        f = S.f[0]
        w += [0xa5] + list(S.n.to_bytes(n, "little")) + list(f.ty.n.to_bytes(n, "little"))
        same(c, c.file("t.bin"), w)
    return Job(id, HDR[mode] + text + END, spec, W.vs, W.asm)


def layjob(id, mode, rng):
    """many types, deeply nested; default instances"""
    W = V(rng, 2)
    pool, defs = [], []
    for i in range(rng.randint(3, 6)):
        t = Agg(W, "t%d" % i, rng.choice(["struct", "struct", "union"]), rng.choice([None, 1, 2, 4, 8, 16, 32]), pool, 0, True)
        if t.n > 6000 or any(f.deftext and len(f.deftext) > 300 for f in t.f):
            continue
        pool.append((t.name, t))
        defs.append(t)
    text = "".join(d.define() for d in defs)
    P = []
    for d in defs:
        P += [(d.name + p, o) for p, o in list(paths(d))[:14]]
    k = W.k
    defs = [d for d in defs if d.n < 6000]
    for d in defs:
        text += "%s <>\ndb 0a5h\n" % d.name
    for i in range(0, len(P), 3):
        text += "%s %s\n" % (DW[mode], ",".join(p for p, _ in P[i:i + 3]))
    for d in defs:
        text += "%s sizeof %s\n" % (DW[mode], d.name)
    n = 4 if mode != 16 else 2

    def spec(c):
        w = []
        for d in defs:
            w += list(d.default(c)) + [0xa5]
        for x in [o for _, o in P] + [d.n for d in defs]:
            w += list(x.to_bytes(n, "little"))
        same(c, c.file("t.bin"), w)
    return Job(id, HDR[mode] + text + END, spec, W.vs, W.asm)


def recrange(id, mode, w, before, after, dflt, use=0):
    """one field of width w takes any 64-bit value; the neighbours must keep theirs"""
    tot = before + w + after
    n = next(k for k in (1, 2, 4, 8, 16) if 8 * k >= tot)
    fs, ini, at = [], [], []
    if before:
        fs.append("fb:%d" % before)
        ini.append("%d" % ((1 << before) - 1 - (before > 1)))
    fs.append("fm:%d" % w + ("=«V»" if dflt else ""))
    ini.append("" if dflt else "«V»")
    if after:
        fs.append("fa:%d" % after)
        ini.append("1")
    asm = [ule("V", 64, (1 << 63) - 1)] if w > 63 else []
    if use:     # as an immediate operand
        line = {1: "mov al", 2: "mov ax", 4: "mov eax", 8: "mov rax"}[n] + ",rr<" + ",".join(ini) + ">"
    else:
        line = "rr <" + ",".join(ini) + ">"

    def spec(c):
        v = sxt(c.v["V"], 200)
        fits = z3.And(v >= 0, v < (1 << w))
        if not c.branch(fits):
            neg = z3.And(v < 0, v >= -(1 << (w - 1))) if w >= 32 else z3.BoolVal(False)
            if w == 64:
                neg = z3.BoolVal(True)
            if not c.branch(neg):
                c.check("a value that does not fit the field is rejected", c.code != 0 and c.file("t.bin") is None)
                return
            if c.code != 0:
                c.check("no object after an error", c.file("t.bin") is None)
                return
        b = 8 * n
        x = z3.ZeroExt(200 - w, z3.Extract(w - 1, 0, v)) << after
        x = z3.Extract(b - 1, 0, x)
        if before:
            x = x | z3.BitVecVal(((1 << before) - 1 - (before > 1)) << (w + after), b)
        if after:
            x = x | z3.BitVecVal(1, b)
        o = c.file("t.bin")
        if use:
            c.check("accepted", c.code == 0)
            try:
                I = x86.decode(o, 0, mode, c.val)
            except x86.Bad as e:
                c.check("decodes: %s" % e, False)
            c.check("the instruction", I.op == "mov" and I.len == len(o) and I.ops[0][0] == "r" and I.ops[0][2] == 0)
            imm = I.ops[1][2]
            if n == 8 and I.ops[0][1] == 4:
                imm = z3.ZeroExt(32, z3.Extract(31, 0, imm))
            else:
                c.check("operand size", I.ops[0][1] == n)
            c.check("value of the record", z3.Extract(b - 1, 0, imm) == x)
            return
        same(c, o, bytes_of(x, n))
    return Job(id, HDR[mode] + "rr record " + ", ".join(fs) + "\n" + line + END, spec, {"V": 64}, asm)


def widthjob(id, mode, rest, dflt):
    """widths W and rest: sizes, shift counts, WIDTH, MASK"""
    def spec(c):
        w = sxt(c.v["W"], 64)
        ok = z3.And(w >= 1, w <= 128 - rest)
        if not c.branch(ok):
            c.check("a width out of range is rejected", c.code != 0 and c.file("t.bin") is None)
            return
        w = c.val(w)
        tot = w + rest
        n = next(k for k in (1, 2, 4, 8, 16) if 8 * k >= tot)
        out = list(((1 << rest) | 1).to_bytes(n, "little")) + [w, tot, rest, 0, rest, n]
        if tot <= 64:
            out += list((((1 << w) - 1) << rest).to_bytes(8, "little")) + list(((1 << rest) - 1).to_bytes(8, "little")) + list(((1 << tot) - 1).to_bytes(8, "little"))
        same(c, c.file("t.bin"), out)
    big = "rr <1,1>\ndb width fa, width rr, fa, fb, width fb, sizeof rr\n"
    J = [Job(id, HDR[mode] + "rr record fa:«W»,fb:%d\n" % rest + big + ("if (width rr) le 64\ndq mask fa, mask fb, mask rr\nendif\n") + END, spec, {"W": 64})]
    return J[0]


def orgjob(id, mode):
    def spec(c):
        a = sxt(c.v["A"], 64)
        if not c.branch(z3.And(a >= 0, a <= 0x7ffffff0)):
            if c.code != 0 or not c.branch(z3.And(a >= -0x80000000, a <= 0xffffffff)):
                c.check("an ORG out of range is rejected", c.code != 0 and c.file("t.bin") is None)
                return
            same(c, c.file("t.bin")[:8], bytes_of(a, 4) + bytes_of(a + 1, 4))
            return
        same(c, c.file("t.bin"), bytes_of(a, 4) + bytes_of(a + 1, 4) + bytes_of(z3.If(a + 2 > 4, a + 2, z3.BitVecVal(4, 64)), 4))
    return Job(id, HDR[mode] + "s struct\na dd ?\norg «A»\nb db ?\ne db ?\ns ends\ndd s.b, s.e, sizeof s" + END, spec, {"A": 64}, [])


def jobs():
    J = []
    rng = random.Random("p08-%d" % SEED)
    modes = (64, 32, 16)
    for k in range(450 if THOROUGH else 140):
        J.append(prog("s-%d" % k, modes[k % 3], rng, k % 9 == 0, k % 5 in (1, 3)))
    for k in range(300 if THOROUGH else 120):
        J.append(layjob("lay-%d" % k, modes[k % 3], rng))
    for i, (w, b, a) in enumerate([(1, 0, 0), (3, 2, 3), (7, 1, 0), (8, 0, 0), (9, 3, 2), (15, 0, 1), (16, 0, 0), (16, 8, 8), (31, 0, 1), (31, 1, 0), (32, 0, 0), (32, 16, 16), (32, 0, 32), (33, 1, 2), (40, 0, 24), (40, 24, 0),
                                   (63, 0, 1), (63, 1, 0), (64, 0, 0), (60, 4, 60), (50, 30, 40), (40, 40, 30), (63, 2, 63), (20, 5, 63), (20, 5, 64), (20, 5, 60), (64, 3, 9), (70, 3, 9), (100, 0, 20), (65, 32, 31), (20, 5, 100)]):
        for d in (0, 1):
            J.append(recrange("range-%d-%d-%d-%d" % (b, w, a, d), modes[i % 3], w, b, a, d))
        tot = w + b + a
        if tot <= 32 or tot <= 64:
            n = next(k for k in (1, 2, 4, 8) if 8 * k >= tot)
            if w > 20:     # one path per value bit
                continue
            J.append(recrange("imm-%d-%d-%d" % (b, w, a), 64 if n == 8 else modes[i % 3], w, b, a, 0, 1))
    for rest in (1, 5, 32, 40, 64, 100):
        J.append(widthjob("width-%d" % rest, modes[rest % 3], rest, 0))
    J.append(orgjob("org", 32))
    return J


def check():
    return Check("P08", jobs(), "random STRUCT/UNION/RECORD programs (up to 4 types nested, 2..4 fields, arrays, strings, default and instance initializers, alignments; 5+ symbolic 64-bit values or characters each, symbolic alignment and DUP counts), record fields of 31 width/position combinations with any 64-bit value, any width")
