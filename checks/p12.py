"""P12: the code generated for .IF, .WHILE, .REPEAT, .FOR and .SWITCH takes the path the source states.

The emitted machine code is run by lib/x86run.py with symbolic registers, flags and variables; a reference interpreter runs the
source program on the same state.  Both must record the same events (`int n`) and end in the same state."""
from spec import *
import x86
import x86run
from x86run import State, bits

R = {64: [8, 4, 2, 1], 32: [4, 2, 1], 16: [4, 2, 1]}
NAMES = {8: ["rax", "rcx", "rdx", "rbx", "rsi", "rdi", "r8", "r9", "r12"], 4: ["eax", "ecx", "edx", "ebx", "esi", "edi"], 2: ["ax", "cx", "dx", "bx", "si"],
         1: ["al", "cl", "dl", "bl", "ah", "dh"]}
VARS = [("vb", 1, 0, 0), ("vw", 2, 2, 0), ("vd", 4, 4, 0), ("sb", 1, 8, 1), ("sw", 2, 10, 1), ("sd", 4, 12, 1), ("vq", 8, 16, 0), ("sq", 8, 24, 1)]
VARTEXT = "vb byte 0,0\nvw word 0\nvd dword 0\nxb sbyte 0,0\nxw sword 0\nxd sdword 0\nvq qword 0\nxq sqword 0\n"
VNAME = {"sb": "xb", "sw": "xw", "sd": "xd", "sq": "xq"}
VARLEN = 32
OPS = {"==": lambda a, b, s: a == b, "!=": lambda a, b, s: a != b, "<": lambda a, b, s: a < b if s else z3.ULT(a, b), "<=": lambda a, b, s: a <= b if s else z3.ULE(a, b),
       ">": lambda a, b, s: a > b if s else z3.UGT(a, b), ">=": lambda a, b, s: a >= b if s else z3.UGE(a, b)}
FLAGS = {"ZERO?": "e", "CARRY?": "b", "SIGN?": "s", "OVERFLOW?": "o", "PARITY?": "p", "LESS?": "l", "GREATER?": "g", "ABOVE?": "a", "EQUAL?": "e", "BELOW?": "b"}


# operands: ("r", size, name, signedcast) ("m", size, name, signed) ("k", value) ("v", symbol, name)
class Env:
    def __init__(self, c, st):
        self.c, self.st, self.trace, self.back = c, st, [], 0

    def val(self, o, size):
        if o[0] == "r":
            return self.st.get(*x86.REGS[o[2]])
        if o[0] == "m":
            a = next(v[2] for v in VARS if v[0] == o[2])
            return self.st.load(a, o[1])
        if o[0] == "k":
            return z3.BitVecVal(o[1], 8 * size)
        return z3.Extract(8 * size - 1, 0, self.c.v[o[1]])

    def put(self, o, v):
        if o[0] == "r":
            self.st.set(*x86.REGS[o[2]], z3.simplify(v))
        else:
            self.st.store(next(x[2] for x in VARS if x[0] == o[2]), z3.simplify(v))


def otext(o):
    if o[0] == "r":
        return (o[3] + " ptr " if o[3] else "") + o[2]
    if o[0] == "m":
        return VNAME.get(o[2], o[2])
    if o[0] == "k":
        return str(o[1]) if not o[1] or o[1] % 3 else ("%s0%xh" % ("-" if o[1] < 0 else "", abs(o[1])))
    return o[2]


def signed(o):
    return o[0] == "m" and bool(next(v[3] for v in VARS if v[0] == o[2])) or o[0] == "r" and o[3].startswith("s")


class Cond:
    pass


def ceval(x, E):
    k = x[0]
    if k == "cmp":
        _, op, a, b = x
        n = a[1]
        return OPS[op](E.val(a, n), E.val(b, n), signed(a) or signed(b))
    if k == "val":
        return E.val(x[1], x[1][1]) != 0
    if k == "const":
        return (z3.BitVecVal(x[1][1], 64) if x[1][0] == "k" else E.c.v[x[1][1]]) != 0
    if k == "andb":
        n = x[1][1]
        return (E.val(x[1], n) & E.val(x[2], n)) != 0
    if k == "flag":
        return E.st.cc(FLAGS[x[1]])
    if k == "not":
        return z3.Not(ceval(x[1], E))
    f = z3.And if k == "and" else z3.Or
    return f([ceval(y, E) for y in x[1]])


def ctext(x, top=True):
    k = x[0]
    if k == "cmp":
        return "%s %s %s" % (otext(x[2]), x[1], otext(x[3]))
    if k in ("val", "const"):
        return otext(x[1])
    if k == "andb":
        return "%s & %s" % (otext(x[1]), otext(x[2]))
    if k == "flag":
        return x[1]
    if k == "not":
        return "!" + (ctext(x[1], False) if x[1][0] in ("val", "flag") else "(" + ctext(x[1]) + ")")
    s = []
    for y in x[1]:
        t = ctext(y, False)
        if (k == "and" and y[0] == "or") or (y[0] == k and x[2] % 2) or x[2] % 5 == 4:
            t = "(" + t + ")"
        s.append(t)
    return (" && " if k == "and" else " || ").join(s)


class Break(Exception):
    pass


class Continue(Exception):
    pass


def run(ss, E):
    for s in ss:
        one(s, E)


def loopback(E, n=1):
    E.back += n
    if E.back > E.maxback:
        E.c.stop()


def one(s, E):
    k, c = s[0], E.c
    if k == "int":
        E.trace.append(s[1] + 16)
    elif k == "asm":
        _, op, d, a = s
        n = d[1]
        x = E.val(d, n)
        y = E.val(a, n) if a else z3.BitVecVal(1, 8 * n)
        if op in ("inc", "add"):
            E.put(d, E.st.add(x, y, op == "add"))
        elif op in ("dec", "sub"):
            E.put(d, E.st.sub(x, y, op == "sub"))
        elif op == "cmp":
            E.st.sub(x, y)
        elif op == "mov":
            E.put(d, y)
        else:
            r = {"and": x & y, "or": x | y, "xor": x ^ y, "test": x & y}[op]
            E.st.logic(r)
            if op != "test":
                E.put(d, r)
    elif k == "if":
        for cond, body in s[1]:
            if c.branch(ceval(cond, E)):
                return run(body, E)
        if s[2] is not None:
            run(s[2], E)
    elif k == "while":
        try:
            while s[1] is None or c.branch(ceval(s[1], E)):
                loopback(E)
                try:
                    run(s[2], E)
                except Continue:
                    pass
        except Break:
            pass
    elif k == "repeat":
        try:
            while True:
                loopback(E)
                try:
                    run(s[1], E)
                except Continue:
                    pass
                if s[3]:        # .untilcxz: the counter, then the condition
                    r = {64: "rcx", 32: "ecx", 16: "cx"}[E.mode]
                    t = ceval(s[2], E) if s[2] else z3.BoolVal(False)
                    o = ("r", x86.REGS[r][0], r, "")
                    x = z3.simplify(E.val(o, 0) - 1)
                    E.put(o, x)
                    if c.branch(z3.Or(x == 0, t)):
                        break
                elif s[2] is None or c.branch(ceval(s[2], E)):
                    break
        except Break:
            pass
    elif k == "for":
        for q in s[1]:
            one(q, E)
        try:
            while s[2] is None or c.branch(ceval(s[2], E)):
                loopback(E)
                try:
                    run(s[4], E)
                except Continue:
                    pass
                for q in s[3]:
                    one(q, E)
        except Break:
            pass
    elif k == "brk":
        if s[2] is None or c.branch(ceval(s[2], E)):
            raise (Break if s[1] == ".break" else Continue)()
    elif k == "set":        # operations of .for
        _, d, op, a = s
        n = d[1]
        x = E.val(d, n)
        y = E.val(a, n) if a else z3.BitVecVal(1, 8 * n)
        if d[0] == "m" and a and a[0] in "mv":      # done with the accumulator
            E.poison.add(0)
        E.put(d, {"=": lambda: y, "++": lambda: x + 1, "--": lambda: x - 1, "+=": lambda: x + y, "-=": lambda: x - y, "&=": lambda: x & y, "|=": lambda: x | y,
                  "^=": lambda: x ^ y, "<<=": lambda: x << (y & (63 if n == 8 else 31)), ">>=": lambda: z3.LShR(x, y & (63 if n == 8 else 31))}[op]())
    elif k == "switch":
        _, o, cases, default, style = s
        n = o[1]
        x = E.val(o, n)
        w = 8 if n == 8 else 4
        x = z3.ZeroExt(8 * (w - n), x) if n < w else x
        E.poison.add(0)
        start = None
        for i, (ks, body) in enumerate(cases):
            e = [x == E.val(q, w) for q in ks]
            if c.branch(z3.Or(e)):
                start = i
                break
        try:
            if start is None:
                if default is not None:
                    run(default, E)
                return
            if style == "asm":
                run(cases[start][1], E)
                return
            for ks, body in cases[start:]:
                run(body, E)
            if default is not None:
                run(default, E)
        except Break:
            pass


def setext(s):
    _, d, op, a = s
    return otext(d) + (op if a is None else op + otext(a))


def text(ss, ind=""):
    r = []
    for s in ss:
        k = s[0]
        if k == "int":
            r.append("int %d" % (s[1] + 16))      # int 3 has an opcode of its own
        elif k == "asm":
            r.append("%s %s" % (s[1], ",".join(otext(o) for o in s[2:] if o)))
        elif k == "if":
            for i, (cond, body) in enumerate(s[1]):
                r += [(".if " if i == 0 else ".elseif ") + ctext(cond)] + text(body)
            if s[2] is not None:
                r += [".else"] + text(s[2])
            r.append(".endif")
        elif k == "while":
            r += [".while " + (ctext(s[1]) if s[1] else "1")] + text(s[2]) + [".endw"]
        elif k == "repeat":
            r += [".repeat"] + text(s[1]) + [(".untilcxz " if s[3] else ".until ") + (ctext(s[2]) if s[2] else "" if s[3] else "1")]
        elif k == "for":
            r += [".for (%s : %s : %s)" % (", ".join(setext(q) for q in s[1]), ctext(s[2]) if s[2] else "", ", ".join(setext(q) for q in s[3]))] + text(s[4]) + [".endfor"]
        elif k == "brk":
            r.append(s[1] + (" .if " + ctext(s[2]) if s[2] else ""))
        elif k == "switch":
            r.append(".switch " + otext(s[1]))
            for ks, body in s[2]:
                if len(s[2]) % 2 and ks[1:]:
                    r += [".case " + otext(q) for q in ks] + text(body)
                else:
                    r += [".case " + ", ".join(otext(q) for q in ks)] + text(body)
            if s[3] is not None:
                r += [".default"] + text(s[3])
            r.append(".endsw")
    return r


def job(id, mode, ss, vs=None, asm=(), maxback=3, opt="", pre="", accept=None):
    vs = dict(vs or {})
    names = "".join("s%s = 0+«%s»\n" % (k.lower(), k) for k in vs)

    def spec(c):
        if accept is not None and not accept(c):
            # constants between the operand's range and 32 bits follow the rules of immediate operands (P05)
            if c.branch(sexpr("(and (ult V (c 64 %d)) (ule (c 64 0) V))" % (1 << 32), c.v) == 1) or c.branch(sexpr("(ult (c 64 %d) V)" % ((1 << 64) - (1 << 32)), c.v) == 1):
                c.stop()
            c.check("rejected", c.code != 0 and c.file("t.bin") is None)
            return
        c.check("accepted", c.code == 0)
        img = c.file("t.bin")
        c.check("an object is written", img is not None)
        regs = [z3.BitVec("run.r%d" % i, 64) for i in range(16)]
        regs[4] = z3.BitVecVal(x86run.STACK, 64)
        org = 256 if mode == 16 else 0
        vbytes = [z3.BitVec("run.m%d" % i, 8) for i in range(VARLEN)]
        fl = {f: z3.Bool("run.f" + f) for f in "zcsop"}

        def state():
            st = State(mode, regs, [-1] * 0 + list(img), [(0, vbytes)])
            st.f = dict(fl)
            return st
        E = Env(c, state())
        E.mode, E.maxback, E.poison = mode, maxback, set()
        run(ss, E)
        st = state()
        if org:
            st.m.update({})
        m = x86run.Run(c, st, VARLEN)
        try:
            tr = m.run()
        except x86.Bad as e:
            c.check("the code runs: %s" % e, False)
        c.check("the events", tr == E.trace)
        e = [a == b for i, (a, b) in enumerate(zip(st.r, E.st.r)) if i not in E.poison]
        e += [z3.And([bvx(st.m[i]) == bvx(E.st.m[i]) for i in range(VARLEN)])]
        c.check("the state at the end", z3.And(e))
    hdr = HDR[mode] + opt + VARTEXT + "start:\n" + names + pre
    return Job(id, hdr + "\n".join(text(ss)) + "\nint 0ffh" + END, spec, vs, list(asm))


def bvx(x):
    return z3.BitVecVal(x, 8) if isinstance(x, int) else x


# ------------------------------------------------------------------ generation
class Gen:
    def __init__(self, rng, mode, vs, noax=False):
        self.rng, self.mode, self.n, self.vs, self.noax = rng, mode, 0, vs, noax

    def reg(self, size=None):
        rng = self.rng
        size = size or rng.choice(R[self.mode])
        while True:
            n = rng.choice(NAMES[size])
            if not (self.noax and n in ("rax", "eax", "ax", "al", "ah")):
                break
        return ("r", size, n, "")

    def var(self, size=None):
        while True:
            v = self.rng.choice(VARS)
            if v[1] in R[self.mode] and (size is None or v[1] == size):
                return ("m", v[1], v[0], v[3])

    def konst(self, size):
        if self.vs and self.rng.random() < 0.5:
            s = self.rng.choice(sorted(self.vs))
            return ("v", s, "s" + s.lower())
        return ("k", self.rng.choice([0, 1, 2, 3, 5, 7, 100, 127]))

    def simple(self):
        rng = self.rng
        k = rng.randint(0, 13)
        op = rng.choice(list(OPS))
        if k <= 4:
            a = self.reg() if rng.random() < 0.6 else self.var()
            if a[0] == "r" and rng.random() < 0.25:
                a = a[:3] + ({8: "sqword", 4: "sdword", 2: "sword", 1: "sbyte"}[a[1]],)
            return ("cmp", op, a, self.konst(a[1]))
        if k <= 6:
            a = self.reg()
            return ("cmp", op, a, self.reg(a[1]))
        if k <= 8:
            a = self.reg()
            return ("cmp", op, a, self.var(a[1])) if rng.random() < 0.5 else ("cmp", op, self.var(a[1]), a)
        if k == 9:
            return ("val", self.reg() if rng.random() < 0.5 else self.var())
        if k == 10:
            return ("not", ("val", self.reg() if rng.random() < 0.5 else self.var()))
        if k == 11:
            a = self.reg()
            return ("andb", a, self.konst(a[1]) if rng.random() < 0.5 else self.reg(a[1]))
        if k == 12:
            a = self.var()
            return ("andb", a, self.konst(a[1]))
        return ("not", ("cmp", op, self.reg(4), self.konst(4)))

    def cond(self, d=2):
        rng = self.rng
        if d == 0 or rng.random() < 0.35:
            return self.simple()
        k = rng.choice(["and", "or", "and", "or", "not"])
        if k == "not":
            x = self.cond(d - 1)
            return ("not", x) if x[0] != "not" else x
        return (k, [self.cond(d - 1) for _ in range(rng.choice([2, 2, 3]))], rng.randint(0, 9))

    def ev(self):
        self.n += 1
        return ("int", self.n)

    def asm(self):
        rng = self.rng
        op = rng.choice(["inc", "dec", "add", "sub", "mov", "and", "or", "xor"])
        d = self.reg() if rng.random() < 0.7 else self.var()
        if op in ("inc", "dec"):
            return ("asm", op, d, None)
        return ("asm", op, d, self.reg(d[1]) if rng.random() < 0.5 else ("k", rng.choice([1, 2, 5, 100])))

    def body(self, depth, loop):
        ss = [self.ev()]
        for _ in range(self.rng.randint(0, 2)):
            ss.append(self.stmt(depth, loop))
        return ss

    def stmt(self, depth, loop=False):
        rng = self.rng
        k = rng.randint(0, 9)
        if depth == 0 or k <= 1:
            return self.ev() if rng.random() < 0.3 else self.asm()
        if k <= 4:
            n = rng.choice([1, 1, 2, 3])
            return ("if", [(self.cond(1 if n > 1 else 2), self.body(depth - 1, loop)) for _ in range(n)], self.body(depth - 1, loop) if rng.random() < 0.5 else None)
        if k == 5:
            return ("while", self.cond() if rng.random() < 0.85 else None, self.body(depth - 1, True) + [("brk", ".break", self.cond(1))])
        if k == 6:
            return ("repeat", self.body(depth - 1, True), self.cond(), False)
        if k == 7 and loop:
            return ("brk", rng.choice([".break", ".continue"]), self.cond(1) if rng.random() < 0.7 else None)
        if k == 8:
            d = self.reg(4)
            o = self.reg(4)
            return ("for", [("set", d, "=", rng.choice([("k", 0), ("k", 1), o]))], ("cmp", rng.choice(["<", "!=", "<="]), d, self.konst(4)), [("set", d, "++", None)], self.body(depth - 1, True))
        if k == 9 and self.noax:
            o = self.reg(rng.choice(R[self.mode])) if rng.random() < 0.7 else rng.choice([("m", v[1], v[0], v[3]) for v in VARS if not v[3] and v[1] in R[self.mode]])
            ks = rng.sample([0, 1, 2, 3, 4, 5, 6, 8, 9, 40, 100, 127], rng.choice([1, 2, 3, 4, 5]))
            return ("switch", o, [([("k", q)], self.body(depth - 1, False)) for q in ks], self.body(depth - 1, False) if rng.random() < 0.6 else None, "asm")
        return self.asm()


def forops(id, mode, init, cond, nxt, vs, asm, maxback=3):
    return job(id, mode, [("for", init, cond, nxt, [("int", 1)]), ("int", 2)], vs, asm, maxback=maxback)


def switch(id, mode, o, ks, default, style, vs, asm, same=()):
    """ks: values (or symbols) of the cases in order; same: indexes that share the body of their predecessor"""
    cases, n = [], 0
    for i, k in enumerate(ks):
        if i in same:
            cases[-1][0].append(k)
        else:
            n += 1
            cases.append(([k], [("int", n)]))
    if style == "c":
        cases = [(k, b + ([] if i % 4 == 2 else [("brk", ".break", None)])) for i, (k, b) in enumerate(cases)]
    ss = [("switch", o, cases, [("int", 90)] if default else None, style), ("int", 91)]
    return job(id, mode, ss, vs, asm, opt="option switchstyle:%sstyle\n" % style)


def conds(id, mode, kind, cond, vs, asm, pre=(), accept=None):
    """one condition in each construct"""
    I = lambda k: ("int", k)
    ss = {"if": [("if", [(cond, [I(1)])], [I(2)])], "elseif": [("if", [(("cmp", "==", ("m", 1, "vb", 0), ("k", 77)), [I(1)]), (cond, [I(2)])], [I(3)])],
          "while": [("while", cond, [I(1), ("brk", ".break", None)]), I(2)], "repeat": [("repeat", [I(1)], cond, False), I(2)],
          "break": [("repeat", [I(1), ("brk", ".break", cond), I(2)], None, False), I(3)], "continue": [("repeat", [I(1), ("brk", ".continue", cond), I(2)], None, False), I(3)],
          "for": [("for", [], cond, [], [I(1), ("brk", ".break", None)]), I(2)]}[kind]
    return job(id, mode, list(pre) + ss, vs, asm, maxback=2, accept=accept)


def prog(id, mode, seed, k):
    rng = random.Random(seed)
    vs = {"A": 64} if k % 3 else {"A": 64, "B": 64}
    g = Gen(rng, mode, vs, k % 3 == 1)
    ss = [g.stmt(3) for _ in range(rng.randint(2, 3))]
    if not any(s[0] in ("if", "while", "repeat", "for") for s in ss):
        return None
    if sum(len(x) for x in text(ss)) > 1500 or sum(x.count(" == ") + x.count("<") + x.count(">") + x.count("!") + x.count(" & ") + x.count(".if") + x.count(".while") + 3 * x.startswith((".end", ".until")) for x in text(ss)) > 30 or "brk" in [s[0] for s in ss]:
        return None
    used = [v for v in vs if any("s" + v.lower() == w for l in text(ss) for w in l.replace("(", " ").replace(")", " ").replace("!", " ").replace(":", " ").split())]
    vs = {v: 64 for v in used}
    return job(id, mode, ss, vs, [ule(v, 64, 127) for v in vs], maxback=2)


MODES = (64, 32)
LEAF = [("cmp", "==", ("r", 4, "eax", ""), ("k", 1)), ("cmp", "<", ("r", 4, "ebx", ""), ("k", 2)), ("val", ("r", 4, "ecx", "")), ("cmp", "!=", ("r", 4, "edx", ""), ("k", 4)), ("cmp", ">=", ("r", 4, "esi", ""), ("k", 5))]


def shapes(n, i):
    if n == 1:
        yield LEAF[i]
        return
    for l in range(1, n):
        for a in shapes(l, i):
            for b in shapes(n - l, i + l):
                for op in ("and", "or"):
                    yield (op, [a, b], 1)


def negate(x, rng):
    if x[0] in ("and", "or"):
        x = (x[0], [negate(y, rng) for y in x[1]], x[2])
    return ("not", x) if rng.random() < 0.4 else x


def jobs():
    J = []
    # every comparison of every operand kind with every constant
    n = 0
    kinds = ("if", "while", "repeat", "break", "elseif", "continue", "for")
    for mode in MODES:
        for size in R[mode]:
            lim = "(or (ule V (c 64 %d)) (ule (c 64 %d) V))" % ((1 << 31) - 1 if size == 8 else (1 << 8 * size) - 1, (1 << 64) - (1 << (31 if size == 8 else 8 * size - 1)))
            sg = {8: "sqword", 4: "sdword", 2: "sword", 1: "sbyte"}[size]
            sv = {8: "sq", 4: "sd", 2: "sw", 1: "sb"}[size]
            for j, a in enumerate((("r", size, NAMES[size][1], ""), ("r", size, NAMES[size][0], sg), ("m", size, {8: "vq", 4: "vd", 2: "vw", 1: "vb"}[size], 0), ("m", size, sv, 1))):
                for op in OPS:
                    kind = kinds[n % 7]
                    if kind == "for" and a[0] == "r" and a[3]:
                        kind = "if"
                    J.append(conds("cmp-%d-%d-%d-%s-%s" % (mode, size, j, {"==": "eq", "!=": "ne", "<": "lt", "<=": "le", ">": "gt", ">=": "ge"}[op], kind), mode, kind, ("cmp", op, a, ("v", "V", "sv")), {"V": 64}, [], accept=lambda c, l=lim: c.branch(sexpr(l, c.v) == 1)))
                    n += 1
                J.append(conds("and-%d-%d-%d" % (mode, size, j), mode, kinds[n % 6], ("andb", a, ("v", "V", "sv")), {"V": 64}, [lim]))
                n += 1
                for neg in (0, 1):
                    x = ("val", a)
                    J.append(conds("val-%d-%d-%d-%d" % (mode, size, j, neg), mode, kinds[n % 6], ("not", x) if neg else x, {}, []))
                    n += 1
    for mode in MODES:
        for f in FLAGS:
            for neg in (0, 1):
                for op in (("cmp",) if n % 3 else ("sub", "add", "test")[n % 3:][:1]):
                    x = ("flag", f)
                    pre = [("asm", op, ("r", 4, "ecx", ""), ("r", 4, "edx", ""))]
                    kind = ("if", "while", "break")[n % 3]
                    J.append(conds("flag-%d-%s-%d" % (mode, f[:-1], neg), mode, kind, ("not", x) if neg else x, {}, [], pre if kind != "break" else ()))
                    n += 1
        for k, x in enumerate((("and", [("flag", "ZERO?"), ("flag", "CARRY?")], 0), ("or", [("flag", "SIGN?"), ("flag", "CARRY?")], 0), ("or", [("and", [("flag", "ZERO?"), ("not", ("flag", "SIGN?"))], 0), ("flag", "OVERFLOW?")], 0))):
            J.append(conds("flags-%d-%d" % (mode, k), mode, ("if", "while", "elseif")[k] if k < 2 else "if", x, {}, [("asm")] and [], [("asm", "sub", ("r", 4, "ecx", ""), ("r", 4, "edx", ""))]))
    # constants as conditions
    for mode in MODES:
        for kind in ("if", "elseif", "break", "continue"):
            for k, x in enumerate((("const", ("v", "V", "sv")), ("and", [("const", ("v", "V", "sv")), ("cmp", "==", ("r", 4, "ecx", ""), ("k", 3))], 0), ("or", [("cmp", "==", ("r", 4, "ecx", ""), ("k", 3)), ("const", ("v", "V", "sv"))], 0))):
                J.append(conds("const-%d-%s-%d" % (mode, kind, k), mode, kind, x, {"V": 64}, ["(or (ule V (c 64 #xffffffff)) (ule (c 64 #xffffffff00000000) V))".replace("#xffffffff00000000", str((1 << 64) - (1 << 32))).replace("#xffffffff", str((1 << 32) - 1))]))
    # .UNTILCXZ
    for mode in MODES:
        for k, x in enumerate((None, ("cmp", "==", ("r", 4, "edx", ""), ("v", "V", "sv")), ("cmp", "!=", ("r", 1, "bl", ""), ("k", 3)), ("cmp", "==", ("m", 2, "vw", 0), ("r", 2, "si", "")))):
            J.append(job("cxz-%d-%d" % (mode, k), mode, [("repeat", [("int", 1), ("asm", "inc", ("r", 4, "edx", ""), None)], x, True), ("int", 2)], {"V": 64} if k == 1 else {}, [ule("V", 64, 127)] if k == 1 else [], maxback=4))
    # operations of .FOR
    n = 0
    for mode in MODES:
        for size in (4, 8) if mode == 64 else (4,):
            rs = {4: ["ecx", "edx", "esi"], 8: ["rcx", "rdx", "r9"]}[size]
            d, o = ("r", size, rs[0], ""), ("r", size, rs[1], "")
            for op in ("+=", "-=", "&=", "|=", "^=", "<<=", ">>=", "="):
                for a in (("k", 0), ("k", 5), ("v", "V", "sv"), o if op not in ("<<=", ">>=") else ("r", 1, "cl", ""), ("m", size, {4: "vd", 8: "vq"}[size], 0) if op not in ("<<=", ">>=") else None):
                    if a is None or (op in ("<<=", ">>=") and a[0] == "r" and True):
                        continue
                    vs = {"V": 64} if a[0] == "v" else {}
                    J.append(forops("for-%d-%d-%d" % (mode, size, n), mode, [("set", d, "=", ("k", 3)), ("set", ("r", size, rs[2], ""), "=", a)] if a[0] != "m" else [("set", d, "=", ("k", 9))], ("cmp", "<", o, ("k", 50)),
                                    [("set", d, op, a), ("set", o, "++", None)], vs, [ule("V", 64, 31)] if vs else [], 2))
                    n += 1
            for op in ("=", "+=", "-=", "&=", "|=", "^=", "++", "--"):
                m = ("m", size, {4: "vd", 8: "vq"}[size], 0)
                for a in (("k", 7), ("k", 0), ("v", "V", "sv") if 8 * size == mode else ("k", 19), o) if op not in ("++", "--") else (None,):
                    vs = {"V": 64} if a and a[0] == "v" else {}
                    J.append(forops("for-m-%d-%d-%d" % (mode, size, n), mode, [("set", m, "=", o)] if n % 2 else [], ("cmp", "<", o, ("k", 50)), [("set", m, op, a), ("set", o, "++", None)], vs, [ule("V", 64, (1 << 31) - 1)] if vs else [], 2))
                    n += 1
            for c in (">", "<", "==", ">="):
                for k in ("0", "1"):
                    for sg in (0, 1):
                        x = ("m", 4, "sd" if sg else "vd", sg)
                        J.append(forops("for-cond-%d-%d" % (mode, n), mode, [("set", d, "=", ("k", 3))], ("cmp", c, x, ("k", int(k))), [("set", x, "--", None)], {}, [], 2))
                        n += 1
    # .SWITCH: few cases, dense and sparse tables, large values, binary search
    n = 0
    for mode in MODES:
        ops = [("r", 4, "eax", ""), ("r", 4, "ecx", ""), ("m", 4, "vd", 0), ("r", 2, "bx", ""), ("m", 1, "vb", 0)] + ([("r", 8, "rax", ""), ("r", 8, "rsi", ""), ("m", 8, "vq", 0)] if mode == 64 else [])
        lists = [[5], [5, 0], [7, 3, 100], [0, 1, 2, 3], [1, 2, 3, 5], [10, 11, 12, 13, 15], [4, 40, 80, 120], [3, 60, 200, 250, 90], [2, 9, 300, 500, 600], [1, 100, 1000, 5000], [7, 20000, 3, 70000, 5], [0, 1 << 20, 5, 1 << 30, 100, 99],
                 [3, 2, 1, 0, 9, 8, 7, 6, 5], [2, 4, 6, 8, 10, 12, 14, 16, 18, 20], list(range(20, 60)), list(range(0, 400, 9)),
                 [-5, -3, 0, 2], [-200, 3, 50, 30], [-1000, -1, 3, 5000], [-(1 << 31), 5, (1 << 31) - 1, 77], [-20000, 20000, 1, 2, 3], list(range(1, 76)), list(range(0, 150, 2)), list(range(-300, 300, 12)), [-3], [-3, 8], [(1 << 31) - 1, -1, 0], [9, 8, 7, 1, 2, 3, 300, 301, 302, 500, 8000],
                 [-(1 << 40), 5, 1 << 40, 99], [1 << 62, -(1 << 62), 1, 0, 2]]
        for li, ks in enumerate(lists):
            for oi, o in enumerate(ops):
                if o[1] < 8 and max(ks) >= 1 << 8 * o[1] or (li + oi) % 2 and li > 2 and not THOROUGH:
                    continue
                style = ("asm", "c")[n % 2]
                J.append(switch("switch-%d-%d-%d-%s" % (mode, li, oi, style), mode, o, [("k", k) for k in ks], n % 3 != 1, style, {}, [], (1, 3) if n % 4 == 3 else ()))
                n += 1
        for oi, o in enumerate(ops):
            for li, (ks, hi) in enumerate((([("v", "V", "sv")], 0x1ff), ([("k", 3), ("v", "V", "sv")], 100), ([("k", 3), ("v", "V", "sv"), ("k", 77)], 100), ([("k", 3), ("k", 4), ("v", "V", "sv"), ("k", 7)], 12), ([("k", 3), ("k", 260), ("v", "V", "sv"), ("k", 7)], 12))):
                if o[1] < 4 and li in (0, 4):
                    continue
                ne = ["(ne V (c 64 %d))" % k[1] for k in ks if k[0] == "k"]
                J.append(switch("switch-v-%d-%d-%d" % (mode, oi, li), mode, o, ks, li % 2 == 0, ("c", "asm")[oi % 2], {"V": 64}, [ule("V", 64, hi)] + ne))
    # boolean combinations in every construct
    # every tree of up to four (five) comparisons
    n = 0
    for leaves in (2, 3, 4) + ((5,) if THOROUGH else ()):
        for x in shapes(leaves, 0):
            for kind in ("if", "while", "repeat", "break"):
                for neg in range(2 if leaves < 4 else 1):
                    y = negate(x, random.Random("p12n-%d" % n)) if neg or leaves == 4 and n % 3 == 0 else x
                    J.append(conds("tree-%d-%s-%d" % (leaves, kind, n), MODES[n // 4 % 2], kind, y, {}, []))
                    n += 1
    for k in range(120 if THOROUGH else 70):
        mode = MODES[k % 2]
        for t in range(20):
            g = Gen(random.Random("p12b-%d-%d-%d" % (k, t, SEED)), mode, {})
            x = g.cond(3 if k % 4 == 3 else 2)
            if len(ctext(x)) < 200 and x[0] in ("and", "or"):
                break
        J.append(conds("bool-%d-%s" % (k, kinds[k // 2 % 7]), mode, kinds[k // 2 % 7], x, {}, []))
    for k in range(500 if THOROUGH else 200):
        for t in range(60):
            j = prog("prog-%d" % k, MODES[k % 2], "p12-%d-%d-%d" % (k, t, SEED), k)
            if j:
                J.append(j)
                break
    return J


def check():
    return Check("P12", jobs(), "templates and random programs nested up to 3 levels; loops followed for 2 iterations in all (4 for .UNTILCXZ); registers, flags and variables symbolic; comparison constants over the full operand range in the single-condition templates, 0..127 in random programs")
