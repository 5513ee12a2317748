"""A small x86 semantics over z3 terms: runs decoded instructions from an image
of (possibly symbolic) bytes.  Registers are 64-bit terms, branches are decided
with c.branch, addresses are made concrete with c.val.  `int n` is an event:
the run records n; `int 0FFh` ends it."""
import z3
import x86

STACK = 0x200000
CACHE = {}


def bits(v, n):
    return v if v.size() == 8 * n else z3.Extract(8 * n - 1, 0, v)


class State:
    """registers, memory and flags"""

    def __init__(self, mode, regs, image, vars=()):
        self.mode, self.r, self.image = mode, list(regs), image
        self.m = {}
        for a, b in vars:           # address, list of bytes
            for i, x in enumerate(b):
                self.m[a + i] = x
        self.f = {}

    def clone(self):
        s = State(self.mode, self.r, self.image)
        s.m, s.f = dict(self.m), dict(self.f)
        return s

    def get(self, size, n):
        if size == 1 and n >= 16:
            return z3.Extract(15, 8, self.r[n - 16])
        return bits(self.r[n], size)

    def set(self, size, n, v):
        if size == 8:
            self.r[n] = v
        elif size == 4:
            self.r[n] = z3.ZeroExt(32, v) if self.mode == 64 else z3.Concat(z3.Extract(63, 32, self.r[n]), v)
        elif size == 2:
            self.r[n] = z3.Concat(z3.Extract(63, 16, self.r[n]), v)
        elif n >= 16:
            o = self.r[n - 16]
            self.r[n - 16] = z3.Concat(z3.Extract(63, 16, o), v, z3.Extract(7, 0, o))
        else:
            self.r[n] = z3.Concat(z3.Extract(63, 8, self.r[n]), v)
        n = n - 16 if size == 1 and n >= 16 else n
        self.r[n] = z3.simplify(self.r[n])

    def load(self, a, n):
        bs = []
        for i in range(a, a + n):
            if i in self.m:
                bs.append(self.m[i])
            elif 0 <= i < len(self.image):
                bs.append(self.image[i])
            else:
                raise x86.Bad("read outside of the image at %#x" % i)
        return x86.cat_le([z3.simplify(b) if not isinstance(b, int) else b for b in bs])

    def store(self, a, v):
        for i in range(v.size() // 8):
            self.m[a + i] = z3.simplify(z3.Extract(8 * i + 7, 8 * i, v))

    # flags are z3 Bools
    def logic(self, r):
        self.f = {"c": z3.BoolVal(False), "o": z3.BoolVal(False)}
        self.szp(r)

    def szp(self, r):
        self.f["z"] = r == 0
        self.f["s"] = r < 0
        lo = z3.Extract(7, 0, r)
        x = z3.Extract(0, 0, lo)
        for i in range(1, 8):
            x = x ^ z3.Extract(i, i, lo)
        self.f["p"] = x == 0

    def sub(self, a, b, carry=True):
        r = a - b
        c = z3.ULT(a, b) if carry else self.f.get("c")
        self.f = {"o": z3.And((a < 0) != (b < 0), (r < 0) != (a < 0))}
        if c is not None:
            self.f["c"] = c
        self.szp(r)
        return r

    def add(self, a, b, carry=True):
        r = a + b
        c = z3.ULT(r, a) if carry else self.f.get("c")
        self.f = {"o": z3.And((a < 0) == (b < 0), (r < 0) != (a < 0))}
        if c is not None:
            self.f["c"] = c
        self.szp(r)
        return r

    def cc(self, cc):
        neg = cc in ("no", "ae", "ne", "a", "ns", "np", "ge", "g")
        f = self.f
        k = {"no": "o", "ae": "b", "ne": "e", "a": "be", "ns": "s", "np": "p", "ge": "l", "g": "le"}.get(cc, cc)
        e = {"o": lambda: f["o"], "b": lambda: f["c"], "e": lambda: f["z"], "be": lambda: z3.Or(f["c"], f["z"]), "s": lambda: f["s"], "p": lambda: f["p"],
             "l": lambda: f["s"] != f["o"], "le": lambda: z3.Or(f["z"], f["s"] != f["o"])}[k]()
        return z3.Not(e) if neg else e


class Run:
    def __init__(self, c, st, pc, limit=400, on=None):
        self.c, self.st, self.pc, self.limit, self.on = c, st, pc, limit, on
        self.trace = []

    def addr(self, o):
        _, size, seg, base, idx, sc, disp, asz = o
        if seg is not None and seg in (4, 5):
            raise x86.Bad("segment override")
        e = disp
        if base == "ip":
            e = e + self.next
        elif base is not None:
            e = e + z3.ZeroExt(64 - 8 * asz, self.st.get(asz, base)) if asz < 8 else e + self.st.get(8, base)
        if idx is not None:
            x = self.st.get(asz, idx)
            e = e + (z3.ZeroExt(64 - 8 * asz, x) if asz < 8 else x) * sc
        e = z3.simplify(z3.Extract(8 * asz - 1, 0, e))
        if not z3.is_bv_value(e):
            if not self.c.branch(z3.ULT(e, z3.BitVecVal(min(len(self.st.image), (1 << 8 * asz) - 1), 8 * asz))):
                raise x86.Bad("access outside of the image")
        return e

    def load(self, e, n):
        """a table read: one term over all addresses the index can have"""
        c, st = self.c, self.st
        e = c.simp(e)
        if z3.is_bv_value(e):
            return st.load(e.as_long(), n)
        w = e.size()

        def least(f, lo, hi):       # least k in lo..hi for which f(k) cannot be refuted
            while lo < hi:
                k = (lo + hi) // 2
                if c._q(f(k)):
                    hi = k
                else:
                    lo = k + 1
            return lo
        top = len(st.image)
        lo = least(lambda k: z3.ULE(e, z3.BitVecVal(k, w)), 0, top)
        hi = top - least(lambda k: z3.UGE(e, z3.BitVecVal(top - k, w)), 0, top)
        step = 1
        for k in (8, 4, 2):
            if not c._q(z3.URem(e - lo, z3.BitVecVal(k, w)) != 0):
                step = k
                break
        c.m = None
        runs = []
        for a in range(lo, hi + 1, step):
            v = st.load(a, n)
            if runs and runs[-1][1].eq(v):
                runs[-1][0] = a
            else:
                runs.append([a, v])
        r = runs[-1][1]
        for a, v in reversed(runs[:-1]):
            r = z3.If(z3.ULE(e, z3.BitVecVal(a, w)), v, r)
        return r

    def rd(self, o, size=None):
        k = o[0]
        if k == "r":
            return self.st.get(o[1], o[2])
        if k == "m":
            return self.load(self.addr(o), size or o[1])
        if k == "i":
            return bits(o[2], size or o[1])
        raise x86.Bad("operand %s" % (o,))

    def wr(self, o, v):
        if o[0] == "r":
            self.st.set(o[1], o[2], v)
        elif o[0] == "m":
            self.st.store(self.c.val(self.addr(o)), z3.simplify(v))
        else:
            raise x86.Bad("destination")

    def push(self, v):
        w = v.size() // 8
        sp = self.c.val(bits(self.st.r[4], 8)) - w
        self.st.r[4] = z3.BitVecVal(sp, 64)
        self.st.store(sp, v)

    def pop(self, w):
        sp = self.c.val(bits(self.st.r[4], 8))
        v = self.st.load(sp, w)
        self.st.r[4] = z3.BitVecVal(sp + w, 64)
        return v

    def jump(self, rel):
        w = {16: 16, 32: 32, 64: 64}[self.st.mode]
        t = z3.simplify(z3.Extract(w - 1, 0, rel + self.next))
        self.pc = self.c.val(t)

    def decode(self):
        """instructions without symbolic structure bytes are decoded once per output"""
        st, k = self.st, (id(self.c.files), self.st.mode, self.pc)
        if CACHE.get("files") is not self.c.files:
            CACHE.clear()
            CACHE["files"] = self.c.files
        if k not in CACHE:
            try:
                CACHE[k] = x86.decode(st.image, self.pc, st.mode, None)
            except x86.Bad as e:
                CACHE[k] = None if "symbolic structure" in str(e) else e
        I = CACHE[k]
        if isinstance(I, x86.Bad):
            raise x86.Bad(str(I))
        return I if I is not None else x86.decode(st.image, self.pc, st.mode, self.c.val)

    def step(self):
        """-> False at the end"""
        st, c = self.st, self.c
        if self.pc < 0 or self.pc >= len(st.image):
            raise x86.Bad("execution leaves the code at %#x" % self.pc)
        I = self.decode()
        self.next = self.pc + I.len
        op, ops = I.op, I.ops
        self.pc = self.next
        if op == "int":
            k = c.val(ops[0][2])
            if k == 0xff:
                return False
            self.trace.append(k)
            if self.on:
                self.on(k, self)
            return True
        if op == "nop":
            return True
        if op == "mov":
            v = self.rd(ops[1], ops[0][1])
            self.wr(ops[0], v)
        elif op in ("movzx", "movsx", "movsxd"):
            v = self.rd(ops[1])
            n = 8 * ops[0][1] - v.size()
            self.wr(ops[0], z3.ZeroExt(n, v) if op == "movzx" else z3.SignExt(n, v))
        elif op == "lea":
            o = ops[1]
            _, size, seg, base, idx, sc, disp, asz = o
            e = disp
            if base == "ip":
                e = e + self.next
            elif base is not None:
                e = e + z3.ZeroExt(64 - 8 * asz, st.get(asz, base)) if asz < 8 else e + st.get(8, base)
            if idx is not None:
                x = st.get(asz, idx)
                e = e + (z3.ZeroExt(64 - 8 * asz, x) if asz < 8 else x) * sc
            e = z3.Extract(8 * asz - 1, 0, e)
            w = 8 * ops[0][1]
            self.wr(ops[0], z3.simplify(z3.ZeroExt(w - e.size(), e) if w > e.size() else z3.Extract(w - 1, 0, e)))
        elif op in ("cmp", "sub", "add", "and", "or", "xor", "test"):
            w = ops[0][1]
            a, b = self.rd(ops[0], w), self.rd(ops[1], w)
            if op in ("cmp", "sub"):
                r = st.sub(a, b)
            elif op == "add":
                r = st.add(a, b)
            else:
                r = a & b if op in ("and", "test") else a | b if op == "or" else a ^ b
                st.logic(r)
            if op not in ("cmp", "test"):
                self.wr(ops[0], z3.simplify(r))
        elif op in ("inc", "dec"):
            a = self.rd(ops[0])
            one = z3.BitVecVal(1, a.size())
            self.wr(ops[0], z3.simplify(st.add(a, one, False) if op == "inc" else st.sub(a, one, False)))
        elif op in ("not", "neg"):
            a = self.rd(ops[0])
            self.wr(ops[0], z3.simplify(~a if op == "not" else st.sub(z3.BitVecVal(0, a.size()), a)))
        elif op in ("shl", "sal", "shr", "sar"):
            a = self.rd(ops[0])
            n = z3.ZeroExt(a.size() - 8, self.rd(ops[1], 1)) if a.size() > 8 else self.rd(ops[1], 1)
            n = n & (63 if a.size() == 64 else 31)
            r = a << n if op in ("shl", "sal") else z3.LShR(a, n) if op == "shr" else a >> n
            st.f = {}
            self.wr(ops[0], z3.simplify(r))
        elif op == "imul" and len(ops) >= 2:
            w = ops[0][1]
            a, b = self.rd(ops[-2], w), self.rd(ops[-1], w)
            st.f = {}
            self.wr(ops[0], z3.simplify(a * b))
        elif op == "xchg":
            a, b = self.rd(ops[0]), self.rd(ops[1])
            self.wr(ops[0], b)
            self.wr(ops[1], a)
        elif op == "push":
            self.push(self.rd(ops[0], I.osz))
        elif op == "pop":
            self.wr(ops[0], self.pop(I.osz))
        elif op == "cbw":
            n = {2: 8, 4: 16, 8: 32}[I.osz]
            v = z3.Extract(n - 1, 0, st.r[0])
            st.set(I.osz, 0, z3.simplify(z3.SignExt(8 * I.osz - n, v)))
        elif op == "cwd":
            v = st.get(I.osz, 0)
            st.set(I.osz, 2, z3.simplify(z3.If(v < 0, z3.BitVecVal(-1, v.size()), z3.BitVecVal(0, v.size()))))
        elif op == "jmp":
            if ops[0][0] == "rel":
                self.jump(ops[0][1])
            else:
                v = self.rd(ops[0], st.mode // 8)
                self.pc = c.val(v)
        elif op[0] == "j" and op[1:] in x86.CC:
            if c.branch(st.cc(op[1:])):
                self.jump(ops[0][1])
        elif op in ("jcxz", "loop", "loope", "loopne"):
            n = I.asz
            x = st.get(n, 1)
            if op == "jcxz":
                t = x == 0
            else:
                x = z3.simplify(x - 1)
                st.set(n, 1, x)
                t = x != 0
                if op == "loope":
                    t = z3.And(t, st.f["z"])
                elif op == "loopne":
                    t = z3.And(t, z3.Not(st.f["z"]))
            if c.branch(t):
                self.jump(ops[0][1])
        elif op == "call":
            self.push(z3.BitVecVal(self.next, st.mode))
            if ops[0][0] == "rel":
                self.jump(ops[0][1])
            else:
                self.pc = c.val(self.rd(ops[0], st.mode // 8))
        elif op == "ret":
            self.pc = c.val(self.pop(st.mode // 8))
            if ops:
                st.r[4] = z3.simplify(st.r[4] + ops[0][2])
        elif op == "leave":
            st.r[4] = st.r[5]
            st.set(st.mode // 8, 5, self.pop(st.mode // 8))
        else:
            raise x86.Bad("no semantics for %s" % op)
        return True

    def run(self):
        n = 0
        while self.step():
            n += 1
            if n > self.limit:
                raise x86.Bad("the program does not end")
        return self.trace
