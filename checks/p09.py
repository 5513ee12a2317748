"""P09: object files: contents, symbols and relocations say what the source says."""
from spec import *
import x86
import objfile

FM = {"win64": (64, ["-q", "-win64"], ".x64\noption casemap:none\n", objfile.coff),
      "elf64": (64, ["-q", "-elf64"], ".x64\noption casemap:none\n", objfile.elf),
      "coff": (32, ["-q", "-coff"], ".686\n.model flat\noption casemap:none\n", objfile.coff),
      "elf": (32, ["-q", "-elf"], ".686\n.model flat\noption casemap:none\n", objfile.elf),
      "omf": (32, ["-q", "-omf"], ".686\n.model flat\noption casemap:none\n", objfile.omf)}
SECNAME = {"win64": {"code": ".text", "data": ".data", "const": ".rdata", "bss": ".bss"}, "coff": {"code": ".text", "data": ".data", "const": ".rdata", "bss": ".bss"},
           "elf64": {"code": ".text", "data": ".data", "const": ".rodata", "bss": ".bss"}, "elf": {"code": ".text", "data": ".data", "const": ".rodata", "bss": ".bss"},
           "omf": {"code": "_TEXT", "data": "_DATA", "const": "CONST", "bss": "_BSS"}}
DIR = {"code": ".code", "data": ".data", "const": ".const", "bss": ".data?"}


class T:
    """a target: label (sec, set during layout), extern, or absolute"""

    def __init__(self, name, kind, sec=None):
        self.name, self.kind, self.sec, self.off, self.public = name, kind, sec, None, False


def stamp(name, b):
    """the time stamp of a COFF header is the time of the run"""
    if name.endswith(".obj"):
        b[4:8] = bytes(4)


def ident(rng, used, long_):
    while True:
        n = rng.choice([1, 3, 7, 8, 9, 12, 17, 18, 30]) if long_ else rng.randint(4, 7)
        s = "L_" + "".join(rng.choice("abcdefghijkKLMNOP_$0123") for _ in range(max(1, n - 2)))
        if s.lower() not in used:
            used.add(s.lower())
            return s


def build(id, fmt, rng, nv=3, lots=0):
    mode, args, hdr, parser = FM[fmt]
    A = mode // 8
    vs, asm = {}, []
    used = set()
    secs = ["code", "data"] + [s for s in ("const", "bss", "extra") if rng.random() < .6]
    if fmt == "omf":
        secs = [s for s in secs if s != "extra"] + (["extra"] if rng.random() < .4 else [])
    xal = rng.choice([1, 2, 4, 16] + ([32, 64, 8, 4096] if fmt != "omf" else []))
    labels = []
    lim = 4 if nv else 3
    for s in secs:
        for _ in range(rng.randint(1, 3) + lots):
            t = T(ident(rng, used, rng.random() < .5), "lab", s)
            t.public = rng.random() < .4
            labels.append(t)
    ext = [T(ident(rng, used, rng.random() < .5), "ext") for _ in range(rng.randint(1, 2) + lots)]
    prc = [T(ident(rng, used, rng.random() < .5), "proc") for _ in range(rng.randint(1, 2) + lots)]
    com = [T(ident(rng, used, False), "comm") for _ in range(lots // 2 + 1)] if rng.random() < .4 or lots else []
    for t in com:
        t.size = (rng.choice([1, 2, 4, 8]), rng.choice([1, 5, 100]))
    absym = None
    k = 0

    def addend(small=False):
        """(text, function giving a z3 64-bit value)"""
        nonlocal k
        r = rng.random()
        if k < nv and r < .5:
            v = "V%d" % k
            k += 1
            vs[v] = 64
            asm.append(ule(v, 64, 0x7fffffff))
            if rng.random() < .3:
                return "-«%s»" % v, lambda c, v=v: -c.v[v]
            return "+«%s»" % v, lambda c, v=v: c.v[v]
        if r < .6:
            return "", lambda c: z3.BitVecVal(0, 64)
        x = rng.choice([1, 4, 0x7f, 0x80, 0x1234, 0x7fffff00, -1, -8, -0x10000])
        return "%+d" % x, lambda c, x=x: z3.BitVecVal(x, 64)
    data_targets = lambda: rng.choice(labels + ext * 2 + com + prc)
    items = {s: [] for s in secs}       # ("label", T) ("fill", n or var) ("ref", size, T, fn, kind) ("insn", dict)
    text = []
    order = []
    for s in secs:
        ls = [t for t in labels if t.sec == s]
        order += [(s, t) for t in ls]
    rng.shuffle(order)
    cur = None
    nfill = 0
    big = rng.random() < .4
    body = []

    def emit(s, line, *its):
        nonlocal cur
        if s != cur:
            if cur == "extra":
                body.append("xseg ends")
            if s == "extra":
                body.append("xseg segment %s public 'DATA'" % ("align(%d)" % xal if fmt != "omf" else {1: "byte", 2: "word", 4: "dword", 16: "para"}[xal]))
            else:
                body.append(DIR[s])
            cur = s
        body.append(line)
        items[s] += its
    for s, t in order:
        if rng.random() < .6:
            n = rng.randint(1, 5)
            if nfill == 0 and s != "code" and rng.random() < .7:
                nfill = 1
                vs["N"] = 64
                asm.append(ule("N", 64, 2))
                emit(s, "db «N» dup (%s)" % ("?" if s == "bss" else "0cch"), ("fill", "N", 0 if s == "bss" else 0xcc))
            elif big and rng.random() < .5:
                big = False
                n = rng.choice([1000, 1014, 1016, 1018, 1020, 1022, 1023, 1024, 2040, 2048] + [rng.randint(990, 1030) for _ in range(8)] + [66000, 70000])
                if s == "bss" and rng.random() < .5:
                    n = rng.choice([0x10000, 0x12345678])
                b = "?" if s == "bss" else "90h" if s == "code" else "33h"
                emit(s, "db %d dup (%s)" % (n, b), ("fill", n, 0 if s == "bss" else int(b[:2], 16)))
            elif s == "code":
                emit(s, "nop\n" * (n - 1) + "nop", *[("insn", dict(op="nop", n=0))] * n)
            else:
                emit(s, "db %d dup (%s)" % (n, "?" if s == "bss" else "33h"), ("fill", n, 0 if s == "bss" else 0x33))
        if s == "code":
            emit(s, t.name + " label near", ("label", t))
            for _ in range(rng.randint(1, 3)):
                it, line = insn(rng, fmt, mode, labels, ext, prc, com, addend)
                emit(s, line, ("insn", it))
        elif s == "bss":
            n = rng.choice([1, 2, 4, 8])
            emit(s, "%s %s ?" % (t.name, {1: "db", 2: "dw", 4: "dd", 8: "dq"}[n]), ("label", t), ("fill", n, 0))
        else:
            emit(s, t.name + " label byte", ("label", t))
            for _ in range(rng.randint(1, 2)):
                tt = data_targets()
                a, fn = addend()
                kd = "abs"
                n = A
                ex = tt.name + a
                if mode == 64 and rng.random() < .3 or rng.random() < .1:
                    n = 4
                if fmt in ("win64", "coff") and rng.random() < .3 and tt in labels:
                    kd = rng.choice(["imgrel", "secrel"])
                    n = 4
                    ex = {"imgrel": "imagerel ", "secrel": "sectionrel "}[kd] + tt.name + a
                if a.startswith("-") and tt.kind == "ext":
                    pass
                emit(s, "%s %s" % ("dq" if n == 8 else "dd", ex), ("ref", n, tt, fn, kd))
    if cur == "extra":
        body.append("xseg ends")
    decl = []
    for t in labels:
        if t.public:
            decl.append("public " + t.name)
    for t in ext:
        decl.append("extern %s:byte" % t.name)
    for t in prc:
        decl.append("extern %s:near" % t.name)
    for t in com:
        decl.append("comm %s:%s:%d" % (t.name, {1: "byte", 2: "word", 4: "dword", 8: "qword"}[t.size[0]], t.size[1]))
    if rng.random() < .5:
        absym = ident(rng, used, rng.random() < .3)
        vs["K"] = 64
        asm.append(ule("K", 64, 0x7fffffff))
        decl.append("public %s\n%s equ 0+«K»" % (absym, absym))
    src = hdr + "\n".join(decl + body) + END

    def spec(c):
        c.check("accepted", c.code == 0)
        f = c.file("t.obj") or c.file("t.o")
        c.check("an object is written", f is not None)
        try:
            o = parser(f, c.val)
        except objfile.Bad as e:
            c.check("a well-formed object: %s" % e, False)
        judge(c, fmt, mode, o, items, labels, ext, prc, com, absym, xal)
    return Job(id, src, spec, vs, asm, args, mask=stamp if fmt in ("win64", "coff") else None)


def insn(rng, fmt, mode, labels, ext, prc, com, addend):
    r = rng.random()
    codel = [t for t in labels if t.sec == "code"]
    datal = [t for t in labels if t.sec != "code"]
    if r < .2:
        t = rng.choice(prc + prc + codel)
        op = rng.choice(["call", "jmp", "call", "je", "jg"] if t.kind != "proc" or True else [])
        return dict(op=op, rel=t), "%s %s" % (op, t.name)
    t = rng.choice(datal * 2 + ext * 3 + com + codel)
    a, fn = addend()
    d = dict(t=t, fn=fn)
    x = rng.randrange(14)
    regs = {64: x86.R64, 32: x86.R32[:8]}[mode]
    g = rng.choice([n for n in range(len(regs)) if n != 4])
    m = "[%s%s]" % (t.name, a)
    if x == 0 or x == 13:
        i = rng.choice([n for n in range(len(regs))])
        d.update(op="mov", ops=[("r", 4, i), "M4"])
        return d, "mov %s,dword ptr %s" % (x86.R32[i], m)
    if x == 1:
        d.update(op="mov", ops=["M1", ("r", 1, 1)])
        return d, "mov byte ptr %s,cl" % m
    if x == 2:
        v = rng.choice([1, 0x7f, 0x1234, 0x7fffffff])
        d.update(op="cmp", ops=["M4", ("i", v)])
        return d, "cmp dword ptr %s,%d" % (m, v)
    if x == 3:
        d.update(op="add", ops=["M1", ("i", 5)])
        return d, "add byte ptr %s,5" % m
    if x == 4:
        d.update(op="mov", ops=["M2", ("i", 0x1234)])
        return d, "mov word ptr %s,1234h" % m
    if x == 5:
        d.update(op="lea", ops=[("r", mode // 8, g), "M0"])
        return d, "lea %s,%s" % (regs[g], m)
    if x == 6:
        d.update(op="mov", ops=[("r", mode // 8, g), ("off",)])
        return d, "mov %s,offset %s%s" % (regs[g], t.name, a)
    if x == 7:
        b = rng.choice([n for n in range(len(regs)) if n not in (4,)])
        d.update(op="mov", ops=[("r", 4, 2), ("B", 4, b)])
        return d, "mov edx,dword ptr [%s+%s%s]" % (regs[b], t.name, a)
    if x == 8:
        b = rng.choice([n for n in range(len(regs)) if n not in (4,)])
        d.update(op="add", ops=[("B", 1, b), ("i", 7)])
        return d, "add byte ptr [%s+%s%s],7" % (regs[b], t.name, a)
    if x == 9:
        d.update(op="imul", ops=[("r", 4, 3), "M4", ("i", 1000)])
        return d, "imul ebx,dword ptr %s,1000" % m
    if x == 10:
        d.update(op="shl", ops=["M4", ("i", 3)])
        return d, "shl dword ptr %s,3" % m
    if x == 11:
        d.update(op="movzx", ops=[("r", 4, 6), "M1"])
        return d, "movzx esi,byte ptr %s" % m
    d.update(op="test", ops=["M4", ("i", 0x12345)])
    return d, "test dword ptr %s,12345h" % m


def judge(c, fmt, mode, o, items, labels, ext, prc, com, absym, xal):
    A = mode // 8
    names = SECNAME[fmt]
    sect = {}
    for s in items:
        if not items[s]:
            continue
        want = "xseg" if s == "extra" else names[s]
        m = [x for x in o.sections if x.name == want]
        c.check("one section " + want, len(m) == 1)
        x = sect[s] = m[0]
        if fmt != "omf":
            c.check("attributes of section " + want, (x.exec, x.write, x.bss) == (s == "code", s not in ("code", "const"), s == "bss") and x.read and not x.info)
        else:
            c.check("attributes of segment " + want, x.use32 and x.combine == 2 and (s == "extra" or x.cls == {"code": "CODE", "data": "DATA", "const": "CONST", "bss": "BSS"}[s]))
        if s == "extra":
            c.check("alignment of the segment", x.align == xal)
        else:
            c.check("alignment of " + want, x.align >= A)
    # undo relocations: the value each field gets, as (base, addend)
    rel = {}
    for s, x in sect.items():
        if x.relocs:
            c.check("relocations only where there are contents", not x.bss)
        for r in x.relocs:
            c.check("one relocation per field", (s, r.off) not in rel and 0 <= r.off and r.off + r.size <= len(x.data))
            rel[s, r.off] = r
    usedrel = set()

    def base(sym):
        """(base key, 64-bit term)"""
        if isinstance(sym, tuple):
            if sym[0] == "sec":
                return ("sec", sym[1].index), z3.BitVecVal(0, 64)
            c.check("relocation against the group FLAT", sym[1].name == "FLAT")
        if sym.kind == "def":
            return ("sec", sym.sec), sxt(sym.value, 64) if not isinstance(sym.value, int) else z3.BitVecVal(sym.value, 64)
        c.check("relocation against a defined or external symbol", sym.kind == "undef" and sym.glob)
        return ("ext", bytes(sym.name) if all(isinstance(i, int) for i in sym.name) else None), z3.BitVecVal(0, 64)

    def target(t):
        if t.kind == "lab":
            return ("sec", sect[t.sec].index), z3.BitVecVal(t.off, 64)
        n = t.name.encode()
        return ("ext", n), z3.BitVecVal(0, 64)

    def field(s, off, n):
        v = le(sect[s].data, off, n)
        return z3.BitVecVal(v, 8 * n) if isinstance(v, int) else v
    strict = []
    # pass 1: label offsets (data by size, code by decoding)
    plan = []
    for s, its in items.items():
        if not its:
            continue
        pos = 0
        D = sect[s].data
        for it in its:
            if it[0] == "label":
                it[1].off = pos
            elif it[0] == "fill":
                n = c.val(c.v[it[1]]) if isinstance(it[1], str) else it[1]
                if not sect[s].bss:
                    c.check("filler in " + s, all(isinstance(b, int) and b == it[2] for b in D[pos:pos + n]) and len(D) >= pos + n)
                pos += n
            elif it[0] == "ref":
                plan.append((s, pos, it))
                pos += it[1]
            else:
                rs = [r for q, r in rel.items() if q[0] == s and pos <= q[1] < pos + 15]
                code = list(D[pos:pos + 20])
                for r in rs:
                    if r.add != 0 or not (isinstance(r.add, int)):
                        e = r.off - pos
                        f = z3.BitVecVal(r.add, 64) if isinstance(r.add, int) else r.add
                        f = z3.simplify(z3.Extract(8 * r.size - 1, 0, f))
                        if r.inplace:
                            f = f + field(s, r.off, r.size)
                        elif not all(isinstance(b, int) and b == 0 for b in D[r.off:r.off + r.size]):
                            strict.append(r)
                            f = f + field(s, r.off, r.size)
                        f = bytes_of(z3.simplify(f), r.size)
                        for i, b in enumerate(f):
                            if e + i < len(code):
                                b = z3.simplify(b)
                                code[e + i] = b.as_long() if z3.is_bv_value(b) else b
                    elif not r.inplace and not all(isinstance(b, int) and b == 0 for b in D[r.off:r.off + r.size]):
                        strict.append(r)
                try:
                    I = x86.decode(code, 0, mode, c.val)
                except x86.Bad as e:
                    c.check("decodes: %s" % e, False)
                rs = [r for r in rs if r.off < pos + I.len]
                plan.append((s, pos, it, I, rs))
                pos += I.len
        c.check("size of " + sect[s].name, sect[s].size == pos)
    # pass 2
    for p in plan:
        s, pos, it = p[:3]
        here = ("sec", sect[s].index)
        if it[0] == "ref":
            _, n, t, fn, kd = it
            r = rel.get((s, pos))
            if r is None:
                c.check("the reference is relocated", False)
            usedrel.add((s, pos))
            c.check("kind of relocation", r.kind == kd and r.size == n)
            b, v = base(r.sym)
            if not r.inplace and not all(isinstance(x, int) and x == 0 for x in sect[s].data[pos:pos + n]):
                strict.append(r)
            v = z3.Extract(8 * n - 1, 0, v + (r.add if not isinstance(r.add, int) else z3.BitVecVal(r.add, 64))) + field(s, pos, n)
            tb, tv = target(t)
            c.check("target of the relocation in data", b == tb)
            c.check("value of the address in data", v == z3.Extract(8 * n - 1, 0, tv + fn(c)))
            continue
        _, _, _, I, rs = p
        w = it[1]
        c.check("the instruction", I.op == w["op"])
        for r in rs:
            usedrel.add((s, r.off))
        if w["op"] == "nop" and "rel" not in w and "t" not in w:
            c.check("no relocation in nop", not rs)
            continue
        c.check("at most one relocation in an instruction", len(rs) <= 1)
        r = rs[0] if rs else None

        def resolve(v, n, ipnext):
            """where the field value v (n bytes, decoded) points; ipnext: relative to the next instruction"""
            if r is None:
                c.check("an absolute address is relocated", ipnext)
                return here, z3.Extract(8 * n - 1, 0, v) + z3.BitVecVal(pos + I.len, 8 * n)
            c.check("kind of relocation in code", r.size == n and r.kind == ("rel" if ipnext else "abs"))
            b, x = base(r.sym)
            x = z3.Extract(8 * n - 1, 0, x) + z3.Extract(8 * n - 1, 0, v)
            if ipnext:
                x = x + z3.BitVecVal(pos + I.len - r.off - r.bias, 8 * n)
            return b, x
        if "rel" in w:
            tb, tv = target(w["rel"])
            c.check("a branch", len(I.ops) == 1 and I.ops[0][0] == "rel")
            n = I.ops[0][2]
            b, x = resolve(I.ops[0][1], 4 if r is not None else n, True)
            if r is None:
                x = z3.simplify(I.ops[0][1] + pos + I.len)
                tv = z3.Extract(63, 0, tv)
            else:
                tv = z3.Extract(31, 0, tv)
            c.check("target of the branch", b == tb)
            c.check("address of the branch target", x == tv)
            continue
        c.check("number of operands", len(I.ops) == len(w["ops"]))
        tb, tv = target(w["t"])
        tv = tv + w["fn"](c)
        for a, e in zip(I.ops, w["ops"]):
            if isinstance(e, str):
                c.check("memory operand", a[0] == "m" and (e == "M0" or a[1] == int(e[1:])) and a[4] is None and a[3] in ("ip", None))
                if a[3] == "ip":
                    b, x = resolve(a[6], 4, True)
                else:
                    b, x = resolve(a[6], 8 if w["op"] == "mov" and r is not None and r.size == 8 else 4, False)
                c.check("target of the memory operand", b == tb)
                c.check("address of the memory operand", x == z3.Extract(x.size() - 1, 0, tv))
            elif e[0] == "B":
                c.check("based memory operand", a[0] == "m" and a[1] == e[1] and (a[3] == e[2] and a[4] is None or a[3] is None and a[4] == e[2] and a[5] == 1))
                b, x = resolve(a[6], 4, False)
                c.check("target of the based operand", b == tb)
                c.check("address of the based operand", x == z3.Extract(31, 0, tv))
            elif e[0] == "off":
                n = a[1] if a[1] == a[3] else a[3]
                c.check("offset operand", a[0] == "i")
                b, x = resolve(a[2], n, False)
                c.check("target of the offset", b == tb)
                c.check("value of the offset", x == z3.Extract(8 * n - 1, 0, tv))
            elif e[0] == "i":
                c.check("immediate operand", a[0] == "i")
                c.check("value of the immediate", z3.Extract(15, 0, a[2]) == e[1] % 65536 if a[1] == 2 else a[2] == e[1])
            else:
                c.check("register operand", a == e)
    c.check("no relocation without a reference", set(rel) == usedrel)
    for x in o.sections:
        if x not in sect.values():
            c.check("no relocations or contents in other sections: " + x.name, not x.relocs and (x.info or x.size == 0 or x.name in (".drectve",)) or x.name.startswith((".shstrtab", ".symtab", ".strtab", ".rel", ".note")))
    # symbols
    byname = {}
    for y in o.symbols:
        if y.glob:
            n = bytes(y.name)
            c.check("global symbol defined once", n not in byname)
            byname[n] = y
    want = set()
    deco = lambda n: n.encode()
    for t in labels:
        if t.public:
            n = deco(t.name)
            want.add(n)
            y = byname.get(n)
            c.check("public symbol present", y is not None)
            c.check("public symbol's section", y.kind == "def" and y.sec == sect[t.sec].index)
            c.check("public symbol's value", y.value == t.off)
    for t in ext + prc:
        y = byname.get(deco(t.name))
        if y is not None:
            c.check("external symbol", y.kind == "undef" and y.common is None)
            want.add(deco(t.name))
    for t in com:
        y = byname.get(deco(t.name))
        c.check("communal symbol present", y is not None and y.common is not None)
        sz = t.size[0] * t.size[1]
        c.check("size of the communal symbol", (y.common[0] * y.common[1] if fmt == "omf" else y.common) == sz)
        if fmt.startswith("elf"):
            c.check("alignment of the communal symbol", y.value >= t.size[0] and y.value & (y.value - 1) == 0)
        want.add(deco(t.name))
    if absym:
        y = byname.get(deco(absym))
        c.check("absolute symbol present", y is not None and y.kind == "abs")
        v = y.value if not isinstance(y.value, int) else z3.BitVecVal(y.value, 64)
        c.check("value of the absolute symbol", bv(v, 64) == c.v["K"])
        want.add(deco(absym))
    c.check("no other global symbols", set(byname) <= want)
    if fmt == "omf":
        for t, rec in o.checksum:
            e = 0
            x = []
            for b in rec:
                if isinstance(b, int):
                    e += b
                else:
                    x.append(b)
            tot = z3.BitVecVal(e & 255, 8)
            for b in x:
                tot = tot + b
            c.check("record checksum", z3.Or(tot == 0, bv(rec[-1], 8) == 0))
    c.check("explicit addend in the relocation entry", not strict)


def readobj(c, parser):
    f = c.file("t.obj") or c.file("t.o")
    c.check("an object is written", f is not None)
    try:
        return parser(f, c.val)
    except objfile.Bad as e:
        c.check("well-formed object: %s" % e, False)


def many(fmt, n):
    """more relocations than a 16-bit count holds"""
    mode, args, hdr, parser = FM[fmt]
    src = hdr + ".data\nL_y db 7 dup (11h)\nL_x label byte\ndb «N» dup (11h)\ndd %d dup (L_y)\ndd L_x+«V0»\n" % n + END

    def spec(c):
        c.check("accepted", c.code == 0)
        o = readobj(c, parser)
        N = int(c.val(c.v["N"]))
        d = [s for s in o.sections if s.name == SECNAME[fmt]["data"]]
        c.check("one data section", len(d) == 1)
        d = d[0]
        c.check("size of the data section", d.size == 7 + N + 4 * n + 4)
        c.check("number of relocations", len(d.relocs) == n + 1)
        c.check("places of the relocations", sorted(r.off for r in d.relocs) == [7 + N + 4 * i for i in range(n + 1)])
        dec = d.data
        for r in sorted(d.relocs, key=lambda r: r.off)[:3] + sorted(d.relocs, key=lambda r: r.off)[-3:]:
            c.check("kind of relocation", r.kind == "abs" and r.size == 4)
            s = r.sym
            v = z3.Concat(*[bv(x, 8) for x in reversed(dec[r.off:r.off + 4])])
            if isinstance(s, tuple):
                s = objfile.Sym()
                s.value = 0
            v = v + (z3.BitVecVal(s.value or 0, 32) if isinstance(s.value, int) else z3.Extract(31, 0, s.value)) + (z3.BitVecVal(r.add, 32) if isinstance(r.add, int) else z3.Extract(31, 0, r.add))
            last = r.off == 7 + N + 4 * n
            c.check("value", v == (z3.Extract(31, 0, c.v["V0"]) + 7 if last else z3.BitVecVal(0, 32)))
    return Job("many-%s-%d" % (fmt, n), src, spec, {"N": 64, "V0": 64}, [ule("N", 64, 1), ule("V0", 64, 0xffff)], args, maxinstr=3000000000, mask=stamp if fmt in ("win64", "coff") else None)

def allext(fmt, n, dup):
    """every external symbol is referenced"""
    mode, args, hdr, parser = FM[fmt]
    src = hdr + "".join("extern e%d:byte\n" % i for i in range(n)) + ".data\n" + "".join("dd e%d+«V0»\n" % i if i in (3, 127, 128) else "dd e%d\n" % i for i in dup) + END

    def spec(c):
        c.check("accepted", c.code == 0)
        o = readobj(c, parser)
        d = [s for s in o.sections if s.name == SECNAME[fmt]["data"]]
        c.check("one data section of the right size", len(d) == 1 and d[0].size == 4 * len(dup))
        rs = sorted(d[0].relocs, key=lambda r: r.off)
        c.check("places of the relocations", [r.off for r in rs] == [4 * i for i in range(len(dup))])
        for i, r in zip(dup, rs):
            c.check("kind of relocation", r.kind == "abs" and r.size == 4)
            c.check("the symbol of the relocation", not isinstance(r.sym, tuple) and bytes(r.sym.name) == b"e%d" % i and r.sym.kind == "undef")
            v = z3.Concat(*[bv(x, 8) for x in reversed(d[0].data[r.off:r.off + 4])]) + (z3.BitVecVal(r.add, 32) if isinstance(r.add, int) else z3.Extract(31, 0, r.add))
            c.check("the displacement", v == (z3.Extract(31, 0, c.v["V0"]) if i in (3, 127, 128) else 0))
    return Job("ext-%s-%d" % (fmt, n), src, spec, {"V0": 64}, [ule("V0", 64, 0xffff)], args, mask=stamp if fmt in ("win64", "coff") else None)


def jobs():
    J = []
    rng = random.Random("p09-%d" % SEED)
    for k in range(120 if not THOROUGH else 400):
        for f in ("win64", "elf64", "coff", "elf", "omf"):
            J.append(build("%s-%d" % (f, k), f, rng))
            if k % 40 == 0:
                J.append(build("lots-%s-%d" % (f, k), f, rng, 3, rng.choice([40, 70])))
    for f in FM:
        n = 140 if f != "omf" else 300
        J.append(allext(f, n, [i for i in range(n)]))
        J.append(allext(f, 260, [i for i in rng.sample(range(260), 60)]))
        for n in {"win64": (65536,), "coff": (65534, 65535), "omf": (3000,)}.get(f, (66000,)):
            J.append(many(f, n))
    return J


def check():
    return Check("P09", jobs(), "120 random modules for each of win64 COFF, ELF64, COFF, ELF and OMF: up to 5 sections, public, external, procedure, communal and absolute symbols with names of 3 to 30 characters; data, moffs, ModRM, immediate and branch references with symbolic 64-bit displacements, symbolic gaps and a symbolic absolute value; the object file is parsed back and every relocation resolved")
