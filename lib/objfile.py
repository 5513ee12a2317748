"""Readers for the object formats.  Bytes may be symbolic: header fields are made
concrete with val(), contents, symbol values and addends stay symbolic.

Obj.sections: list of Sec (index 1..); Obj.symbols: list of Sym; Sec.relocs: list of Rel.
The value stored by a linker at a relocation is
    abs:    S + A        rel:   S + A - (P + bias)      secrel: S - section + A     imgrel: S - image + A
    seg:    the paragraph/selector of S's segment
(P: address of the field), A = explicit addend plus, if inplace, what the field holds."""
import z3


class Bad(Exception):
    pass


class Sec:
    pass


class Sym:
    pass


class Rel:
    def __init__(self, off, size, kind, sym, add=0, inplace=True, bias=0):
        self.off, self.size, self.kind, self.sym, self.add, self.inplace, self.bias = off, size, kind, sym, add, inplace, bias


class R:
    """little-endian reader"""

    def __init__(self, b, val):
        self.b, self.val_ = b, val

    def sub(self, o, n):
        if o < 0 or o + n > len(self.b):
            raise Bad("reference outside the file (%d+%d of %d)" % (o, n, len(self.b)))
        return self.b[o:o + n]

    def term(self, o, n):
        x = self.sub(o, n)
        if all(isinstance(i, int) for i in x):
            return int.from_bytes(bytes(x), "little")
        x = [z3.BitVecVal(i, 8) if isinstance(i, int) else i for i in reversed(x)]
        return z3.simplify(z3.Concat(*x) if len(x) > 1 else x[0])

    def u(self, o, n):
        t = self.term(o, n)
        return t if isinstance(t, int) else self.val_(t)

    def cstr(self, o, maxn=1 << 20):
        out = []
        while len(out) < maxn:
            x = self.sub(o, 1)[0]
            if isinstance(x, int):
                if not x:
                    break
            elif self.val_(z3.If(x == 0, z3.BitVecVal(1, 8), z3.BitVecVal(0, 8))):
                break
            out.append(x)
            o += 1
        return out


def text(n):
    return "".join(chr(x) if isinstance(x, int) else "\ufffd" for x in n)


def overlaps(spans):
    spans = sorted(s for s in spans if s[1] > s[0])
    for (a, b, n), (c, d, m) in zip(spans, spans[1:]):
        if c < b:
            raise Bad("%s and %s overlap in the file" % (n, m))


COFF_REL = {0x8664: {1: ("abs", 8, 0), 2: ("abs", 4, 0), 3: ("imgrel", 4, 0), 4: ("rel", 4, 4), 5: ("rel", 4, 5), 6: ("rel", 4, 6), 7: ("rel", 4, 7), 8: ("rel", 4, 8), 9: ("rel", 4, 9), 10: ("seg", 2, 0), 11: ("secrel", 4, 0)},
            0x14c: {6: ("abs", 4, 0), 7: ("imgrel", 4, 0), 10: ("seg", 2, 0), 11: ("secrel", 4, 0), 20: ("rel", 4, 4), 1: ("abs", 2, 0), 2: ("rel", 2, 2)}}


def coff(b, val):
    r = R(b, val)
    o = Sec()
    o.machine, ns, sp, nsym, opt = r.u(0, 2), r.u(2, 2), r.u(8, 4), r.u(12, 4), r.u(16, 2)
    if o.machine not in COFF_REL:
        raise Bad("COFF machine %x" % o.machine)
    if opt:
        raise Bad("optional header in an object")
    spans = [(0, 20 + 40 * ns, "headers")]
    stro = sp + 18 * nsym
    strn = r.u(stro, 4) if sp else 4
    spans.append((sp, stro + max(strn, 4), "symbols"))
    if sp and stro + max(strn, 4) > len(b):
        raise Bad("string table exceeds the file")
    rel = {}
    o.sections = []
    for i in range(ns):
        h = 20 + 40 * i
        s = Sec()
        s.index = i + 1
        n = r.cstr(h, 8)
        if n and n[0] == 0x2f:
            n = r.cstr(stro + int(text(n[1:])))
        s.name = text(n)
        s.size, p, rp, nr, s.flags = r.u(h + 16, 4), r.u(h + 20, 4), r.u(h + 24, 4), r.u(h + 32, 2), r.u(h + 36, 4)
        if r.u(h + 8, 4) or r.u(h + 12, 4):
            raise Bad("virtual size or address in an object")
        al = s.flags >> 20 & 15
        s.align = 1 << (al - 1) if al else 16
        s.bss = bool(s.flags & 0x80)
        s.exec, s.write, s.read = bool(s.flags & 0x20000000), bool(s.flags & 0x80000000), bool(s.flags & 0x40000000)
        s.info = bool(s.flags & 0xa00)
        s.data = [] if s.bss or not p else r.sub(p, s.size)
        if not s.bss and s.size and not p:
            raise Bad("contents missing")
        if s.bss and p:
            raise Bad("contents of uninitialized data")
        if p:
            spans.append((p, p + len(s.data), s.name))
        skip = 0
        if s.flags & 0x01000000:
            if nr != 0xffff:
                raise Bad("NRELOC_OVFL without 0xffff")
            nr = r.u(rp, 4)
            skip = 1
        rel[i] = (rp + 10 * skip, nr - skip)
        if nr:
            spans.append((rp, rp + 10 * nr, "relocations of " + s.name))
        o.sections.append(s)
    overlaps(spans)
    o.symbols, byidx = [], {}
    i = 0
    while i < nsym:
        h = sp + 18 * i
        y = Sym()
        y.index = i
        if r.u(h, 4) == 0:
            k = r.u(h + 4, 4)
            if k >= max(strn, 4):
                raise Bad("symbol name outside the string table")
            y.name = r.cstr(stro + k)
        else:
            y.name = r.cstr(h, 8)
        y.value, sc, y.type, y.cls, na = r.term(h + 8, 4), r.u(h + 12, 2), r.u(h + 14, 2), r.u(h + 16, 1), r.u(h + 17, 1)
        y.sec = sc - 65536 if sc >= 32768 else sc
        y.aux = [r.sub(h + 18 * (k + 1), 18) for k in range(na)]
        y.glob = y.cls == 2
        y.common = None
        if y.sec == 0 and y.glob and not (isinstance(y.value, int) and y.value == 0):
            y.common = y.value
        y.kind = "abs" if y.sec == -1 else "debug" if y.sec == -2 else "undef" if y.sec == 0 else "def"
        if y.sec > ns:
            raise Bad("symbol in section %d of %d" % (y.sec, ns))
        if y.cls == 3 and na and y.kind == "def" and isinstance(y.value, int) and y.value == 0 and y.type == 0:
            s = o.sections[y.sec - 1]
            if r.u(h + 18, 4) != s.size:
                raise Bad("section symbol's length")
            if r.u(h + 22, 2) != min(rel[y.sec - 1][1], 0xffff):
                raise Bad("section symbol's relocation count")
        o.symbols.append(y)
        byidx[i] = y
        i += 1 + na
    for i, s in enumerate(o.sections):
        s.relocs = []
        p, n = rel[i]
        for k in range(n):
            h = p + 10 * k
            off, sy, ty = r.u(h, 4), r.u(h + 4, 4), r.u(h + 8, 2)
            if ty not in COFF_REL[o.machine]:
                raise Bad("relocation type %x" % ty)
            if sy not in byidx:
                raise Bad("relocation against symbol index %d" % sy)
            kd, sz, bias = COFF_REL[o.machine][ty]
            s.relocs.append(Rel(off, sz, kd, byidx[sy], 0, True, bias))
    return o


ELF_REL = {62: {1: ("abs", 8), 2: ("rel", 4), 10: ("abs", 4), 11: ("abs", 4), 12: ("abs", 2), 13: ("rel", 2), 14: ("abs", 1), 15: ("rel", 1), 24: ("rel", 8)},
           3: {1: ("abs", 4), 2: ("rel", 4), 20: ("abs", 2), 21: ("rel", 2), 22: ("abs", 1), 23: ("rel", 1)}}


def elf(b, val):
    r = R(b, val)
    o = Sec()
    if bytes(r.u(i, 1) for i in range(4)) != b"\x7fELF" or r.u(5, 1) != 1 or r.u(6, 1) != 1:
        raise Bad("ELF identification")
    c64 = {1: False, 2: True}[r.u(4, 1)]
    o.machine = r.u(18, 2)
    if o.machine != (62 if c64 else 3) or r.u(16, 2) != 1 or r.u(20, 4) != 1:
        raise Bad("ELF header")
    A = 8 if c64 else 4
    f = 24
    if r.u(f, A) or r.u(f + A, A):
        raise Bad("entry or program headers in an object")
    sho = r.u(f + 2 * A, A)
    q = f + 3 * A + 4
    ehs, phe, phn, she, shn, shx = [r.u(q + 2 * i, 2) for i in range(6)]
    if ehs != (64 if c64 else 52) or she != (64 if c64 else 40) or phn:
        raise Bad("ELF header sizes")
    spans = [(0, ehs, "header"), (sho, sho + she * shn, "section headers")]
    raw = []
    for i in range(shn):
        h = sho + she * i
        s = Sec()
        s.nameo, s.type = r.u(h, 4), r.u(h + 4, 4)
        s.flags, s.addr, s.off, s.size = [r.u(h + 8 + A * k, A) for k in range(4)]
        g = h + 8 + 4 * A
        s.link, s.info_ = r.u(g, 4), r.u(g + 4, 4)
        s.align, s.ent = r.u(g + 8, A), r.u(g + 8 + A, A)
        s.index = i
        s.data = [] if s.type in (0, 8) else r.sub(s.off, s.size)
        if s.type not in (0, 8):
            spans.append((s.off, s.off + s.size, "section %d" % i))
        s.bss = s.type == 8
        s.exec, s.write, s.read, s.info = bool(s.flags & 4), bool(s.flags & 1), bool(s.flags & 2), not s.flags & 2
        if s.align and s.align & (s.align - 1):
            raise Bad("section alignment")
        raw.append(s)
    overlaps(spans)
    for s in raw:
        s.name = text(R(raw[shx].data, val).cstr(s.nameo)) if s.type else ""
    o.raw = raw
    o.sections = raw[1:]
    st = [s for s in raw if s.type == 2]
    if len(st) != 1:
        raise Bad("symbol tables: %d" % len(st))
    st = st[0]
    n = 24 if c64 else 16
    if st.ent != n or st.size % n or raw[st.link].type != 3:
        raise Bad("symbol table header")
    sr, tr = R(raw[st.link].data, val), R(st.data, val)
    o.symbols = []
    for i in range(st.size // n):
        h = n * i
        y = Sym()
        y.index = i
        y.name = sr.cstr(tr.u(h, 4))
        if c64:
            inf, y.other, sc, y.value, y.size = tr.u(h + 4, 1), tr.u(h + 5, 1), tr.u(h + 6, 2), tr.term(h + 8, 8), tr.term(h + 16, 8)
        else:
            y.value, y.size, inf, y.other, sc = tr.term(h + 4, 4), tr.term(h + 8, 4), tr.u(h + 12, 1), tr.u(h + 13, 1), tr.u(h + 14, 2)
        y.bind, y.type = inf >> 4, inf & 15
        y.glob = y.bind in (1, 2)
        if y.glob != (i >= st.info_) and i:
            raise Bad("sh_info of the symbol table: local and global symbols mixed")
        y.sec = sc
        y.kind = "undef" if sc in (0, 0xfff2) else "abs" if sc == 0xfff1 else "def"
        if y.kind == "def" and sc >= shn:
            raise Bad("symbol in section %d of %d" % (sc, shn))
        y.common = y.size if sc == 0xfff2 else None
        o.symbols.append(y)
    for s in raw:
        s.relocs = []
    for s in raw:
        if s.type not in (4, 9):
            continue
        n = (3 if s.type == 4 else 2) * A
        if s.ent != n or s.size % n or raw[s.link].type != 2 or not 0 < s.info_ < shn:
            raise Bad("relocation section header")
        if (s.type == 4) != c64:
            raise Bad("REL/RELA")
        t = raw[s.info_]
        rr = R(s.data, val)
        for k in range(s.size // n):
            h = n * k
            off, inf = rr.u(h, A), rr.u(h + A, A)
            sy, ty = (inf >> 32, inf & 0xffffffff) if c64 else (inf >> 8, inf & 255)
            if ty not in ELF_REL[o.machine]:
                raise Bad("relocation type %d" % ty)
            if sy >= len(o.symbols):
                raise Bad("relocation against symbol index %d" % sy)
            kd, sz = ELF_REL[o.machine][ty]
            t.relocs.append(Rel(off, sz, kd, o.symbols[sy], rr.term(h + 2 * A, A) if s.type == 4 else 0, s.type == 9, 0))
    return o


def omf(b, val):
    """relocatable OMF; sections = SEGDEFs"""
    r = R(b, val)
    o = Sec()
    o.sections, o.symbols, o.groups, names, ext = [], [], [], [None], [None]
    thread = {}
    o.checksum = []
    o.lines = []
    o.comments = []
    p, first, ended = 0, True, False
    last = None
    while p < len(b):
        if ended:
            raise Bad("data after MODEND")
        t, n = r.u(p, 1), r.u(p + 1, 2)
        if n < 1:
            raise Bad("record length")
        d = R(r.sub(p + 3, n - 1), val)
        o.checksum.append((t, r.sub(p, n + 3)))
        p += n + 3
        if first and t != 0x80:
            raise Bad("no THEADR")
        first = False
        big = t & 1
        q = 0
        L = len(d.b)

        def idx():
            nonlocal q
            x = d.u(q, 1)
            q += 1
            if x & 0x80:
                x = (x & 0x7f) << 8 | d.u(q, 1)
                q += 1
            return x

        def pstr():
            nonlocal q
            k = d.u(q, 1)
            x = d.sub(q + 1, k)
            q += 1 + k
            return x

        def num(k):
            nonlocal q
            x = d.term(q, k)
            q += k
            return x
        if t == 0x80:
            o.name = pstr()
        elif t == 0x88:
            o.comments.append(d.b)
        elif t == 0x96:
            while q < L:
                names.append(pstr())
        elif t in (0x98, 0x99):
            s = Sec()
            a = d.u(q, 1)
            q += 1
            s.acbp = a
            if a >> 5 == 0:
                s.frame = num(2)
                q += 1
            s.align = {0: 0, 1: 1, 2: 2, 3: 16, 4: 256, 5: 4}[a >> 5]
            s.combine = a >> 2 & 7
            s.use32 = bool(a & 1)
            s.size = num(4 if big else 2)
            if a & 2:
                s.size = 1 << (32 if big else 16)
            s.name, s.cls = text(names[idx()]), text(names[idx()])
            idx()
            s.index = len(o.sections) + 1
            s.relocs, s.buf = [], {}
            o.sections.append(s)
        elif t in (0x9a, 0x9b):
            g = Sec()
            g.name, g.segs = text(names[idx()]), []
            while q < L:
                if d.u(q, 1) != 0xff:
                    raise Bad("GRPDEF")
                q += 1
                g.segs.append(idx())
            o.groups.append(g)
        elif t in (0x8c, 0xb4, 0xb0, 0xb8):
            while q < L:
                y = Sym()
                y.name = pstr()
                idx()
                y.kind, y.glob, y.common, y.value, y.sec = "undef", True, None, 0, 0
                y.local = t in (0xb4, 0xb8)
                if t in (0xb0, 0xb8):
                    ty = d.u(q, 1)
                    q += 1

                    def cl():
                        x = num(1)
                        if isinstance(x, int) and x >= 0x81:
                            return num({0x81: 2, 0x84: 3, 0x88: 4}[x])
                        return x
                    y.common = (cl(), cl()) if ty == 0x61 else (1, cl())
                y.index = len(ext)
                ext.append(y)
                o.symbols.append(y)
        elif t in (0x90, 0x91, 0xb6, 0xb7):
            gi, si = idx(), idx()
            fr = num(2) if si == 0 else 0
            while q < L:
                y = Sym()
                y.name = pstr()
                y.value = num(4 if big else 2)
                idx()
                y.kind, y.glob, y.common, y.sec, y.group = ("def" if si else "abs"), t in (0x90, 0x91), None, si, gi
                if si > len(o.sections):
                    raise Bad("symbol in segment %d" % si)
                y.index = None
                o.symbols.append(y)
        elif t in (0xa0, 0xa1):
            si = idx()
            off = d.u(q, 4 if big else 2)
            q += 4 if big else 2
            s = o.sections[si - 1]
            for k, x in enumerate(d.b[q:]):
                if off + k in s.buf:
                    raise Bad("byte %x of %s defined twice" % (off + k, s.name))
                s.buf[off + k] = x
            if L - q > 1024:
                raise Bad("LEDATA of %d bytes" % (L - q))
            last = (s, off, L - q)
        elif t in (0xa2, 0xa3):
            raise Bad("LIDATA")
        elif t in (0x9c, 0x9d):
            while q < L:
                x = d.u(q, 1)
                q += 1
                if not x & 0x80:
                    th = x & 0x43
                    m = x >> 2 & 7
                    thread[th] = (m, idx() if (x & 0x40 and m <= 3) or not x & 0x40 else 0)
                    continue
                y = d.u(q, 1)
                q += 1
                do = (x & 3) << 8 | y
                loc = x >> 2 & 15
                f = d.u(q, 1)
                q += 1
                if f & 0x80:
                    fr = thread[0x40 | (f >> 4 & 3)]
                else:
                    m = f >> 4 & 7
                    fr = (m, idx() if m <= 3 else 0)
                if f & 8:
                    m, tg = thread[f & 3]
                    m = (m & 3) | (f & 4)
                else:
                    m = f & 7
                    tg = idx()
                disp = num(4 if big else 2) if not f & 4 else 0
                kinds = {0: ("off", 1), 1: ("off", 2), 2: ("seg", 2), 3: ("ptr", 4), 4: ("hi", 1), 5: ("off", 2), 9: ("off", 4), 11: ("ptr", 6), 13: ("off", 4)}
                if loc not in kinds or last is None:
                    raise Bad("fixup location %d" % loc)
                kd, sz = kinds[loc]
                if do + sz > last[2]:
                    raise Bad("fixup outside its data record")
                if m & 3 == 2:
                    if not 0 < tg < len(ext):
                        raise Bad("external index %d" % tg)
                    sy = ext[tg]
                elif m & 3 == 0:
                    sy = ("sec", o.sections[tg - 1])
                else:
                    sy = ("grp", o.groups[tg - 1])
                rl = Rel(last[1] + do, sz, ("abs" if x & 0x40 else "rel") if kd == "off" else kd, sy, disp, True, sz)
                rl.frame = fr
                last[0].relocs.append(rl)
        elif t in (0x94, 0x95):
            pass
        elif t in (0x8a, 0x8b):
            o.modend = d.b
            ended = True
        else:
            raise Bad("record %02x" % t)
    if not ended:
        raise Bad("no MODEND")
    for s in o.sections:
        if not isinstance(s.size, int):
            s.size = val(s.size)
        if s.buf and max(s.buf) >= s.size:
            raise Bad("data beyond the end of " + s.name)
        s.bss = not s.buf
        s.data = [] if s.bss else [s.buf.get(i, 0) for i in range(s.size)]
        s.defined = s.buf
    return o
