"""P10: macros, conditional assembly and loop blocks expand to exactly the statements their documentation says.

Random programs over IF.../ELSEIF.../ELSE, WHILE, REPEAT, FOR, FORC, MACRO (default, required, vararg arguments, LOCAL, EXITM,
GOTO, recursion, macro functions) and assembly-time variables; a reference interpreter executes the same tree on the same
symbolic values (conditions, counts, operands, characters)."""
from spec import *

OPS = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "and": lambda a, b: a & b, "xor": lambda a, b: a ^ b, "or": lambda a, b: a | b}
CMP = {"eq": lambda a, b: a == b, "ne": lambda a, b: a != b, "lt": lambda a, b: a < b, "le": lambda a, b: a <= b, "gt": lambda a, b: a > b, "ge": lambda a, b: a >= b}


class Exit(Exception):
    pass


class Goto(Exception):
    pass


def ev(x, S):
    """value of a closed expression: a 64-bit value"""
    k = x[0]
    if k == "n":
        return x[1]
    if k == "v":
        return S.vars[x[1]]
    if k == "call":
        return S.call(x[1], x[2])
    if k in OPS:
        a, b = ev(x[1], S), ev(x[2], S)
        if not (isinstance(a, int) and isinstance(b, int)):
            a, b = bv(a, 64) if isinstance(a, int) else a, bv(b, 64) if isinstance(b, int) else b
            return z3.simplify(OPS[k](a, b))
        return OPS[k](a, b)
    if k in CMP:
        a, b = ev(x[1], S), ev(x[2], S)
        if isinstance(a, int) and isinstance(b, int):
            return -1 if CMP[k](a, b) else 0
        return z3.simplify(z3.If(CMP[k](bv(a, 64) if isinstance(a, int) else a, bv(b, 64) if isinstance(b, int) else b), bv(-1, 64), bv(0, 64)))
    raise ValueError(k)


def subst(x, par):
    """replace parameters and locals; a blank parameter in an expression does not occur"""
    if isinstance(x, tuple):
        if x[0] == "p":
            return par[x[1]]
        if x[0] == "v" and ("local", x[1]) in par:
            return ("v", par[("local", x[1])])
        if x[0] in ("n", "v"):
            return x
        return tuple([x[0]] + [subst(y, par) for y in x[1:]])
    if isinstance(x, list):
        r = []
        for y in x:
            if isinstance(y, tuple) and y[0] == "p" and isinstance(par[y[1]], list):
                r += par[y[1]]
            else:
                r.append(subst(y, par))
        return r
    return x


def etext(x):
    k = x[0]
    if k == "n":
        return str(x[1]) if x[1] >= 0 else "(%d)" % x[1]
    if k == "v":
        return x[1]
    if k == "p":
        return "(%s)" % x[1]
    if k == "call":
        return "%s(%s)" % (x[1], ",".join(etext(a) for a in x[2]))
    return "(%s %s %s)" % (etext(x[1]), k, etext(x[2]))


def ctext(cs):
    """text of a character list: literal characters, («b:C») and parameters"""
    return "".join(c if isinstance(c, str) else "«b:%s»" % c[1] if c[0] == "c" else c[1] if len(cs) == 1 else "&" + c[1] + "&" for c in cs)


class Sample:
    """a context for sampling the number of paths of a program: concrete values, and the decisions taken"""

    def __init__(self, rng, vs, rngs):
        self.v = {}
        for n in vs:
            self.v[n] = rng.randint(*rngs[n]) if n in rngs else ord(rng.choice("aAbB019zcC"))
        self.d = []

    def note(self, x):
        self.d.append(x)


class State:
    def __init__(self, c, macros):
        self.c, self.out, self.vars, self.macros, self.n, self.defs = c, [], {}, macros, 0, set()
        self.depth = 0

    def true(self, v):
        if isinstance(v, int):
            if isinstance(self.c, Sample):
                self.c.note(v != 0)
            return v != 0
        return self.c.branch(v != 0)

    def chars(self, cs):
        return [ord(x) if isinstance(x, str) else self.c.v[x[1]] for x in cs]

    def emit(self, v):
        self.out.append(v & 255 if isinstance(v, int) else z3.Extract(7, 0, v))

    def same(self, a, b, fold):
        a, b = self.chars(a), self.chars(b)
        if len(a) != len(b):
            return False
        if all(isinstance(x, int) for x in a + b):
            a, b = bytes(a), bytes(b)
            r = a.lower() == b.lower() if fold else a == b
            if isinstance(self.c, Sample):
                self.c.note((r, [x == y for x, y in zip(a, b)], fold and (a.lower() != a, b.lower() != b, a.upper() != a)))
            return r

        def f(x):
            if not fold:
                return bv(x, 8) if isinstance(x, int) else x
            x = bv(x, 8) if isinstance(x, int) else x
            return z3.If(z3.And(z3.UGE(x, 0x61), z3.ULE(x, 0x7a)), x - 32, x)
        e = z3.And([f(x) == f(y) for x, y in zip(a, b)]) if a else z3.BoolVal(True)
        return self.c.branch(e)

    def cond(self, q):
        k = q[0]
        if k == "if":
            return self.true(ev(q[1], self))
        if k == "ife":
            return not self.true(ev(q[1], self))
        if k in ("ifb", "ifnb"):
            return (q[1] == [] or q[1] is None) == (k == "ifb")
        if k in ("ifdef", "ifndef"):
            return (q[1] in self.defs) == (k == "ifdef")
        return self.same(q[1], q[2], k in ("ifidni", "ifdifi")) == k.startswith("ifidn")

    def run(self, body):
        for s in body:
            self.stmt(s)

    def stmt(self, s):
        k = s[0]
        if k == "db":
            self.emit(ev(s[1], self))
        elif k == "str":
            for x in self.chars(s[1]):
                self.out.append(x)
        elif k == "set":
            v = ev(s[2], self)
            self.vars[s[1]] = v
            self.defs.add(s[1])
        elif k == "if":
            for q, b in s[1]:
                if q is None or self.cond(q):
                    self.run(b)
                    break
        elif k == "while":
            self.vars[s[3]] = 0
            try:
                while self.true(ev(s[1], self)):
                    self.run(s[2])
            except Exit:
                pass
        elif k == "repeat":
            n = ev(s[1], self)
            if not isinstance(n, int):
                n = self.c.val(n)
                n -= (n >> 63) << 64
            elif isinstance(self.c, Sample):
                self.c.note(n)
            try:
                for _ in range(n):
                    self.run(s[2])
            except Exit:
                pass
        elif k == "for":
            try:
                for a in s[2]:
                    self.run(subst(s[3], {s[1]: a}))
            except Exit:
                pass
        elif k == "forc":
            try:
                for a in s[2]:
                    self.run(subst(s[3], {s[1]: [a]}))
            except Exit:
                pass
        elif k == "exitm":
            raise Exit()
        elif k == "goto":
            raise Goto(s[1])
        elif k == "inv":
            self.macro(s[1], s[2])
        elif k == "label":
            pass
        else:
            raise ValueError(k)

    def macro(self, name, args):
        par, body = self.bind(name, args)
        m = self.macros[name]
        try:
            self.run(body)
        except Exit:
            pass
        except Goto as g:
            self.after(body, str(g))

    def after(self, body, lab):
        for _ in range(200):
            i = [j for j, s in enumerate(body) if s == ("label", lab)][0]
            try:
                self.run(body[i + 1:])
                return
            except Exit:
                return
            except Goto as g:
                lab = str(g)

    def bind(self, name, args):
        m = self.macros[name]
        par = {}
        args = [(("n", self.pct(a[1])) if isinstance(a, tuple) and a[0] == "%" else a) for a in args]
        for i, (p, kind, d) in enumerate(m["params"]):
            if kind == "vararg":
                par[p] = args[i:]
            else:
                a = args[i] if i < len(args) else None
                par[p] = d if a is None and kind == "default" else a
        for l in m["locals"]:
            par[("local", l)] = "%s.%d" % (l, self.n)
        self.n += 1
        return par, bindbody(m["body"], par)

    def pct(self, e):
        v = ev(e, self)
        if isinstance(v, int):
            if isinstance(self.c, Sample):
                self.c.note(v)
            return v
        v = self.c.val(v)
        return v - ((v >> 63) << 64)

    def call(self, name, args):
        """a macro function: statements, then the value of the chosen EXITM"""
        m = self.macros[name]
        par, body = self.bind(name, args)
        for q, e in body:
            if q is None or self.cond(q):
                return ev(e, self)


def bindbody(b, par):
    """substitution in a statement list (or any nested structure), blank parameters included"""
    if isinstance(b, list):
        r = []
        for y in b:
            if isinstance(y, tuple) and len(y) == 2 and y[0] == "p" and isinstance(par.get(y[1], 0), list):
                r += par[y[1]]
            else:
                r.append(bindbody(y, par))
        return r
    if isinstance(b, tuple):
        if b[0] == "p" and b[1] in par:
            return par[b[1]]
        if b[0] == "set" and ("local", b[1]) in par:
            return ("set", par[("local", b[1])], bindbody(b[2], par))
        if b[0] == "v" and ("local", b[1]) in par:
            return ("v", par[("local", b[1])])
        return tuple(bindbody(y, par) for y in b)
    return b


subst = bindbody


def lines(body, ind=""):
    r = []
    for s in body:
        k = s[0]
        if k == "db":
            r.append("db (%s) and 255" % etext(s[1]))
        elif k == "str":
            r.append("db '%s'" % "".join(c if isinstance(c, str) else "«b:%s»" % c[1] if c[0] == "c" else "&" + c[1] + "&" for c in s[1]))
        elif k == "set":
            r.append("%s = %s" % (s[1], etext(s[2])))
        elif k == "if":
            for i, (q, b) in enumerate(s[1]):
                if q is None:
                    r.append("else")
                else:
                    h = ("else" if i else "") + q[0]
                    if q[0] in ("if", "ife"):
                        r.append(h + " " + etext(q[1]))
                    elif q[0] in ("ifb", "ifnb"):
                        r.append("%s <%s>" % (h, q[1][1] if isinstance(q[1], tuple) else ctext(q[1])))
                    elif q[0] in ("ifdef", "ifndef"):
                        r.append(h + " " + q[1])
                    else:
                        r.append("%s <%s>,<%s>" % (h, ctext(q[1]), ctext(q[2])))
                r += lines(b)
            r.append("endif")
        elif k == "while":
            r += [s[3] + " = 0", "while " + etext(s[1])] + lines(s[2]) + ["endm"]
        elif k == "repeat":
            r += ["repeat " + etext(s[1])] + lines(s[2]) + ["endm"]
        elif k == "for":
            r += ["for %s,<%s>" % (s[1], ",".join(x[1] if x[0] == "p" else etext(x) for x in s[2]))] + lines(s[3]) + ["endm"]
        elif k == "forc":
            r += ["forc %s,<%s>" % (s[1], ctext(s[2]))] + lines(s[3]) + ["endm"]
        elif k == "exitm":
            r.append("exitm")
        elif k == "goto":
            r.append("goto " + s[1])
        elif k == "label":
            r.append(":" + s[1])
        elif k == "inv":
            r.append("%s %s" % (s[1], ",".join(atext(a) for a in s[2])))
    return r


def atext(a):
    if a is None:
        return ""
    if isinstance(a, list):
        return "<%s>" % ctext(a)
    if a[0] == "%":
        return "%" + etext(a[1])
    if a[0] == "p":
        return a[1]
    return etext(a)


class Gen:
    def __init__(self, rng, budget):
        self.rng, self.vars, self.asm, self.k, self.macros, self.budget = rng, {}, [], 0, {}, budget
        self.syms, self.uid, self.rngs = [], 0, {}
        self.depth = 0

    def fork(self, n):
        if self.budget < n ** self.mult:
            return False
        self.budget //= n ** self.mult
        return True

    def id(self, p):
        self.uid += 1
        return "%s_%d" % (p, self.uid)

    def sym(self, lo, hi):
        v = "S%d" % len(self.syms)
        n = "s%d_" % len(self.syms)
        self.rngs[v] = (lo, hi)
        self.vars[v] = 64
        self.asm.append(urange(v, 64, lo, hi) if lo >= 0 else "(ule (add %s (c 64 %d)) (c 64 %d))" % (v, -lo, hi - lo))
        self.syms.append((n, v))
        return ("v", n)

    def char(self):
        if self.k >= 3:
            return self.rng.choice("abcABC019")
        v = "C%d" % self.k
        self.k += 1
        self.vars[v] = 8
        self.asm.append("(or %s %s %s)" % (urange(v, 8, 0x30, 0x39), urange(v, 8, 0x41, 0x5a), urange(v, 8, 0x61, 0x7a)))
        return ("c", v)

    def expr(self, sc, d=2):
        r, rng = self.rng.random(), self.rng
        if d and r < .45:
            return (rng.choice(["+", "-", "*", "and", "xor", "or"]), self.expr(sc, d - 1), self.expr(sc, d - 1))
        if d and r < .5:
            return (rng.choice(list(CMP)), self.expr(sc, d - 1), self.expr(sc, d - 1))
        if sc["nums"] and r < .85:
            return rng.choice(sc["nums"])
        if d and self.funcs and r < .9:
            f = rng.choice(self.funcs)
            return ("call", f, [self.expr(dict(sc, nums=[x for x in sc["nums"] if x[0] == "v"]), 1) for _ in self.macros[f]["params"]])
        return ("n", rng.choice([0, 1, 2, 3, 7, 16, 100, 127, 128, 255]))

    def cexpr(self, sc):
        """a condition; small operands so that both outcomes are usual"""
        rng = self.rng
        if rng.random() < .6:
            return (rng.choice(list(CMP)), self.expr(sc, 1), self.expr(sc, 0))
        return ("and", self.expr(sc, 1), ("n", rng.choice([1, 2, 3, 4])))

    def text(self, sc, n):
        rng = self.rng
        r = []
        for _ in range(n):
            q = rng.random()
            if sc["strs"] and q < .35:
                r.append(rng.choice(sc["strs"]))
            elif q < .6:
                r.append(self.char())
            else:
                r.append(rng.choice("abcABC019"))
        return r

    def pair(self, sc):
        """two texts that are often equal, or equal but for case"""
        rng = self.rng
        a = self.text(sc, rng.randint(0, 3))
        if rng.random() < .35:
            return a, self.text(sc, rng.randint(0, 3))
        b = []
        for x in a:
            q = rng.random()
            if not isinstance(x, str) and x[0] == "p" or q < .3:
                b.append(x)
            elif isinstance(x, str) and q < .7:
                b.append(self.char())
            else:
                b.append(rng.choice("aAbBcC0"))
        return a, b

    def cond(self, sc):
        rng = self.rng
        q = rng.random()
        if q < .45:
            return (rng.choice(["if", "if", "ife"]), self.cexpr(sc))
        if q < .75:
            a, b = self.pair(sc)
            return (rng.choice(["ifidn", "ifidni", "ifdif", "ifdifi"]), a, b)
        if q < .88 and sc["blank"]:
            return (rng.choice(["ifb", "ifnb"]), rng.choice(sc["blank"]))
        if q < .95 and self.defn:
            return (rng.choice(["ifdef", "ifndef"]), rng.choice(self.defn))
        return (rng.choice(["ifb", "ifnb"]), self.text(dict(sc, strs=[x for x in sc["strs"]]), rng.randint(0, 1)))

    mult = 1
    defn = ()
    funcs = ()

    def stmts(self, sc, d, n=None):
        r = []
        for _ in range(n or self.rng.randint(1, 3)):
            r += self.stmt(sc, d)
        return r

    def loop(self, sc, d, k):
        m, self.mult = self.mult, self.mult * max(1, k)
        b = self.loopexit(sc, self.stmts(sc, d - 1, self.rng.randint(1, 2)), d)
        self.mult = m
        return b

    def loopexit(self, sc, body, d):
        if self.rng.random() < .35 and self.fork(2):
            i = self.rng.randint(0, len(body))
            body[i:i] = [("if", [(self.cond(sc), self.stmts(sc, 0, 1) * self.rng.randint(0, 1) + [("exitm",)])])]
        return body

    def stmt(self, sc, d):
        rng = self.rng
        q = rng.random()
        if not d or q < .22:
            q = rng.random()
            if q < .2 and sc["sets"]:
                n = rng.choice(sc["sets"])
                return [("set", n, ("and", self.expr(sc), ("n", 255)))]
            if q < .45:
                return [("str", self.text(sc, rng.randint(1, 3)))]
            return [("db", self.expr(sc))]
        if q < .5:
            br = []
            k = rng.choice([1, 1, 2, 3])
            for _ in range(k):
                if not self.fork(2):
                    break
                br.append((self.cond(sc), self.stmts(sc, d - 1)))
            if not br:
                return self.stmt(sc, 0)
            if rng.random() < .6:
                br.append((None, self.stmts(sc, d - 1)))
            return [("if", br)]
        if q < .58:
            w = self.id("w")
            if rng.random() < .5 and self.fork(4):
                lim = self.sym(-1, 3)
            else:
                lim = ("n", rng.randint(0, 4))
            sc2 = dict(sc, nums=sc["nums"] + [("v", w)])
            body = self.loop(sc2, d, lim[1] if lim[0] == "n" else 3)
            i = 0 if rng.random() < .5 else len(body)
            body[i:i] = [("set", w, ("+", ("v", w), ("n", 1)))]
            return [("while", (rng.choice(["lt", "ne"]) if lim[0] == "n" else "lt", ("v", w), lim), body, w)]
        if q < .66:
            if rng.random() < .5 and self.fork(4):
                n = self.sym(-2, 3)
            else:
                n = ("n", rng.choice([-1, 0, 1, 2, 3, 4]))
            return [("repeat", n, self.loop(sc, d, n[1] if n[0] == "n" else 3))]
        if q < .74:
            p = self.id("f")
            items = [self.expr(dict(sc), 1) for _ in range(rng.randint(1, 3))]
            if rng.random() < .3 and sc["lists"]:
                items[rng.randint(0, len(items)):] = [rng.choice(sc["lists"])]
            sc2 = dict(sc, nums=sc["nums"] + [("p", p)] * 2)
            return [("for", p, items, self.loop(sc2, d, len(items)))]
        if q < .82:
            p = self.id("g")
            sc2 = dict(sc, strs=sc["strs"] + [("p", p)] * 2)
            t = self.text(sc, rng.randint(0, 3))
            return [("forc", p, t, self.loop(sc2, d, len(t)))]
        if self.callable(sc):
            m = rng.choice(self.callable(sc))
            return [("inv", m, self.args(m, sc))]
        return self.stmt(sc, 0)

    def callable(self, sc):
        return [m for m in self.macros if m not in self.funcs and self.macros[m]["level"] < sc["level"]]

    def args(self, m, sc):
        rng = self.rng
        r = []
        for p, kind, d in self.macros[m]["params"]:
            if kind == "vararg":
                for _ in range(rng.randint(0, 3)):
                    r.append(self.expr(sc, 1))
            elif kind == "str":
                r.append(self.text(sc, rng.randint(1, 3)))
            elif kind == "blank":
                r.append(None if rng.random() < .5 else ("n", 5))
            elif kind == "default" and rng.random() < .5:
                r.append(None)
            else:
                vs = dict(sc, nums=[x for x in sc["nums"]])
                e = self.expr(vs, 1)
                if rng.random() < .3:
                    e = ("%", ("and", e, ("n", 3)))
                    if not self.fork(4):
                        e = ("%", ("n", 3))
                r.append(e)
        while r and r[-1] is None:
            r.pop()
        return r

    def mkmacro(self, level, sc0):
        rng = self.rng
        name = self.id("m")
        params, sc = [], dict(sc0, nums=list(sc0["nums"]), strs=[], blank=[], lists=[], level=level)
        for kind in rng.sample(["num", "str", "blank", "default", "req", "num"], rng.randint(1, 4)):
            p = self.id("p")
            d = None
            if kind == "default":
                d = ("n", rng.randrange(200))
            params.append((p, kind, d))
            if kind in ("num", "default", "req"):
                sc["nums"] += [("p", p)] * 3
            elif kind == "str":
                sc["strs"] += [("p", p)]
                if rng.random() < .3:
                    sc["blank"] += [("p", p)]
            else:
                sc["blank"] += [("p", p)] * 2
        if rng.random() < .3:
            p = self.id("p")
            params.append((p, "vararg", None))
            sc["lists"] = [("p", p)]
        loc = []
        body = []
        if rng.random() < .5:
            l = self.id("l")
            loc.append(l)
            body.append(("set", l, ("and", self.expr(sc, 1), ("n", 255))))
            sc["nums"] += [("v", l)]
            sc["sets"] = sc["sets"] + [l]
        body += self.stmts(sc, 2, rng.randint(1, 3))
        if rng.random() < .3 and self.fork(2):
            lab = self.id("x")
            i = rng.randint(len(loc), len(body))
            body[i:i] = [("if", [(self.cond(sc), [("goto", lab)])])]
            j = rng.randint(i + 1, len(body))
            body[j:j] = [("label", lab)]
        elif rng.random() < .4 and self.fork(2):
            i = rng.randint(len(loc), len(body))
            body[i:i] = [("if", [(self.cond(sc), [("exitm",)])])]
        self.macros[name] = dict(params=params, locals=loc, body=body, level=level)

    def mkfunc(self, sc0):
        rng = self.rng
        name = self.id("fn")
        params = [(self.id("p"), "num", None) for _ in range(rng.randint(1, 2))]
        sc = dict(sc0, nums=[("p", p[0]) for p in params], strs=[], blank=[], lists=[])
        body = []
        for _ in range(rng.randint(0, 1)):
            if self.fork(2):
                body.append((("if", self.cexpr(sc)), self.expr(sc, 2)))
        body.append((None, self.expr(sc, 2)))
        self.macros[name] = dict(params=params, locals=[], body=body, level=0, func=1)
        self.funcs = list(self.funcs) + [name]


def mtext(name, m):
    ps = []
    for p, kind, d in m["params"]:
        ps.append(p + (":=<%s>" % etext(d) if kind == "default" else ":REQ" if kind == "req" else ":VARARG" if kind == "vararg" else ""))
    r = ["%s macro %s" % (name, ",".join(ps))]
    if m["locals"]:
        r.append("local " + ",".join(m["locals"]))
    if m.get("func"):
        for q, e in m["body"]:
            if q:
                r += ["if " + etext(q[1]), "exitm <%s>" % etext(e), "endif"]
            else:
                r.append("exitm <%s>" % etext(e))
    else:
        r += lines(m["body"])
    return r + ["endm"]


def prog(id, mode, rng, budget, lo, hi):
    g = Gen(rng, budget)
    sc = dict(nums=[], strs=[], blank=[], lists=[], sets=["a_", "b_"], level=9)
    for _ in range(rng.randint(1, 2)):
        sc["nums"].append(g.sym(0, rng.choice([1, 3, 5, 255])))
    sc["nums"] += [("v", "a_"), ("v", "b_")]
    pre = [("set", "a_", ("n", rng.randrange(256))), ("set", "b_", sc["nums"][0])]
    # symbols defined on some paths only
    if g.fork(2):
        g.defn = ["d_1", "d_2"]
        pre.append(("if", [(("if", g.cexpr(sc)), [("set", "d_1", ("n", 1))]), (None, [("set", "d_2", ("n", 2))])]))
    if rng.random() < .5:
        g.mkfunc(sc)
    for l in range(rng.randint(1, 3)):
        g.mkmacro(l, sc)
    body = pre + g.stmts(sc, 3, rng.randint(3, 6))
    for m in g.callable(sc):
        if rng.random() < .7:
            body.append(("inv", m, g.args(m, sc)))
    body.append(("db", ("v", "a_")))
    src = ["%s = 0+«%s»" % s for s in g.syms]
    for m in g.macros:
        src += mtext(m, g.macros[m])
    src += lines(body)

    def run(c):
        S = State(c, g.macros)
        for n, v in g.syms:
            S.vars[n] = c.v[v]
            S.defs.add(n)
        S.run(body)
        return S.out
    seen = set()
    r2 = random.Random(1)
    for _ in range(100):
        c = Sample(r2, g.vars, g.rngs)
        if len(run(c)) > 300:
            return None
        seen.add(str(c.d))
        if len(seen) > hi:
            return None
    if len(seen) < lo:
        return None

    def spec(c):
        same(c, c.file("t.bin"), run(c))
    return Job(id, HDR[mode] + "\n".join(src) + END, spec, g.vars, g.asm)


def pchar(v, no='!"%&\'<>{}\\'):
    return "(and %s %s)" % (urange(v, 8, 0x20, 0x7e), " ".join("(ne %s (c 8 %d))" % (v, ord(x)) for x in no))


def rec(id, mode, kind, hi):
    """recursion and backward GOTO: the depth is an input"""
    src = {"rec": "r macro n\nif n gt 0\ndb n\nr %(n-1)\ndb 100+n\nendif\nendm\nr %s\n",
           "mutual": "e macro n\nif n gt 0\ndb n\no %(n-1)\nendif\nendm\no macro n\nif n gt 0\ndb 100+n\ne %(n-1)\nendif\nendm\ne %s\n",
           "goto": "g macro n\nlocal i\ni = n\n:top\nif i gt 0\ndb i\ni = i-1\ngoto top\nendif\ndb 77\nendm\ng s\n",
           "func": "f macro n\nif n le 0\nexitm <1>\nendif\nexitm <(2*f(%(n-1)))>\nendm\ndw f(%s)\n",
           "while": "i = s\nwhile i\ndb i\ni = i-1\nendm\n", "repeat": "i = s\nrepeat s\ndb i\ni = i-1\nendm\n",
           "exit": "i = 0\nwhile 1\nif i ge s\nexitm\nendif\ni = i+1\ndb i\nendm\n"}[kind]

    def spec(c):
        n = c.val(c.v["V"])
        d = list(range(n, 0, -1))
        w = {"rec": d + [100 + x for x in d[::-1]], "mutual": [x if (n - x) % 2 == 0 else 100 + x for x in d], "goto": d + [77],
             "func": list((1 << n).to_bytes(2, "little")), "while": d, "repeat": d, "exit": d[::-1]}[kind]
        same(c, c.file("t.bin"), w + [0x5a])
    return Job(id, HDR[mode] + "s = 0+«V»\n" + src + "db 5ah" + END, spec, {"V": 64}, [ule("V", 64, hi)])


def errdir(id, mode, kind):
    """.ERR directives force an error exactly when their condition holds"""
    vs, asm = {}, []
    if kind in ("e", "nz"):
        src, vs = ".err%s s and 3" % kind, {"V": 64}
        pre = "s = 0+«V»\n"
        cond = lambda c: (c.v["V"] & 3 == 0) if kind == "e" else (c.v["V"] & 3 != 0)
    elif kind in ("idn", "idni", "dif", "difi"):
        vs = {"C0": 8, "C1": 8, "D0": 8}
        asm = ["(or %s %s %s)" % (urange(v, 8, 0x30, 0x39), urange(v, 8, 0x41, 0x5a), urange(v, 8, 0x61, 0x7a)) for v in vs]
        pre, src = "", ".err%s <«b:C0»x«b:C1»>,<«b:D0»Xb>" % kind
        if not kind.endswith("i"):
            src = src.replace("X", "x")

        def cond(c):
            f = (lambda x: z3.If(z3.And(z3.UGE(x, 0x61), z3.ULE(x, 0x7a)), x - 32, x)) if kind.endswith("i") else (lambda x: x)
            e = z3.And(f(c.v["C0"]) == f(c.v["D0"]), f(c.v["C1"]) == f(bv(ord("b"), 8)))
            return e if "idn" in kind else z3.Not(e)
    elif kind in ("b", "nb"):
        pre, vs = "m macro a\n.err%s <a>\nendm\nt macro n\nif n\nm 1\nelse\nm\nendif\nendm\n" % kind, {"V": 64}
        src = "t «V»"
        cond = lambda c: (c.v["V"] == 0) == (kind == "b")
    else:
        pre, vs = "if «V» gt 5\nz_1 = 1\nendif\n", {"V": 64}
        src = ".err%s z_1" % kind
        asm = [ule("V", 64, 1000)]
        cond = lambda c: (c.v["V"] > 5) == (kind == "def")

    def spec(c):
        e = cond(c)
        if c.branch(e if z3.is_expr(e) else z3.BoolVal(e)):
            c.check("the error is raised and no object is written", c.code != 0 and c.file("t.bin") is None)
        else:
            same(c, c.file("t.bin"), [0x5a])
    return Job(id, HDR[mode] + pre + src + "\ndb 5ah" + END, spec, vs, asm)


def quoting(id, mode, kind):
    """arguments keep the characters between their delimiters"""
    vs, asm, w = {"A": 8, "B": 8, "C": 8}, [], None
    A, B, C = "«b:A»", "«b:B»", "«b:C»"
    body = "m macro p,q\ndb '&p&','|'\nifb <q>\ndb 1\nelse\ndb '&q&'\nendif\nendm\n"
    asm = [pchar(v) for v in vs]
    K = lambda *x: lambda c: [ord(y) if isinstance(y, str) and len(y) == 1 and y.islower() else y if isinstance(y, int) else c.v[y[1]] if isinstance(y, tuple) else ord(y) for y in x]
    v = lambda n: ("v", n)
    if kind == "angle":
        call, w = "m <a%sb%sc>,<z%sy>" % (A, B, C), K("a", v("A"), "b", v("B"), "c", "|", "z", v("C"), "y")
    elif kind == "comma":
        asm += ["(or (eq A (c 8 44)) (eq A (c 8 32)))"]
        call, w = "m <a%sb>,z" % A, K("a", v("A"), "b", "|", "z")
        asm += ["(eq B (c 8 65))", "(eq C (c 8 65))"]
    elif kind == "nested":
        call, w = "m <a<%s>b>,<<>%s>" % (A, B), K("a", "<", v("A"), ">", "b", "|", "<", ">", v("B"))
        asm[2] = "(eq C (c 8 65))"
    elif kind == "bang":
        asm = [pchar("A", "'&\\"), pchar("B", "'&\\"), "(eq C (c 8 65))"]
        body = "m macro p,q\ndb '&p&','|','&q&'\nendm\n"
        call, w = "m <a!%sb>,<!%s>" % (A, B), K("a", v("A"), "b", "|", v("B"))
    elif kind == "string":
        call, w = 'm "a%s%s",%s' % (A, B, '"%s"' % C), K('"', "a", v("A"), v("B"), '"', "|", '"', v("C"), '"')
    elif kind == "blank":
        asm = [pchar("A"), pchar("B", '!"%&\'<>{}\\ '), "(eq C (c 8 65))"]
        call, w = "m   <%s>  ,   <%s>  " % (A, B), K(v("A"), "|", v("B"))
    elif kind == "only2":
        asm = [pchar("A"), "(eq B (c 8 65))", "(eq C (c 8 65))"]
        body = "m macro p,q\nifb <p>\ndb 2\nelse\ndb '&p&'\nendif\ndb '|','&q&'\nendm\n"
        call, w = "m ,<%s>" % A, K(2, "|", v("A"))
    elif kind == "forc":
        body = ""
        call, w = "forc p,<a%s%sb%s>\ndb '&p&',1\nendm" % (A, B, C), K("a", 1, v("A"), 1, v("B"), 1, "b", 1, v("C"), 1)
    elif kind == "for":
        body = ""
        call, w = "for p,<<a%s>,<%s,>,z,<%s>>\ndb '&p&',1\nendm" % (A, B, C), K("a", v("A"), 1, v("B"), ",", 1, "z", 1, v("C"), 1)
    elif kind == "id":
        asm = [oneof(x, 8, [0x30 + i, 0x62 + i]) for i, x in enumerate(vs)]
        body = "m macro p,q\nx_&p&_1 = 3\ny_&q&&p& = 4\ndb x_&p&_1, y_&q&&p&, '&p&'\nendm\n"
        call, w = "m <%s%s>,%s\ndb x_%s%s_1" % (A, B, C, A, B), K(3, 4, v("A"), v("B"), 3)
        asm[2] = "(eq C (c 8 0x71))"

    def spec(c):
        same(c, c.file("t.bin"), w(c) + [0x5a])
    return Job(id, HDR[mode] + body + call + "\ndb 5ah" + END, spec, vs, asm)


def deep(id, mode, rng, depth, nsym):
    """IF blocks nested to the documented depth, an ELSEIF or ELSE at every level"""
    vs = {"V%d" % i: 64 for i in range(nsym)}
    lev = sorted(rng.sample(range(depth), nsym))
    kinds = [rng.randint(0, 3) for _ in range(depth)]
    t, tail = "", ""
    conds = []
    for i in range(depth):
        v = "«V%d» and 1" % lev.index(i) if i in lev else "0"
        k = kinds[i]
        conds.append(i in lev and lev.index(i))
        mid = "this is skipped\nif 1\nelse\nendif\n" if i not in lev else "db %d\n" % (100 + i)
        if k == 0:
            t += "if %s\n%selse\n" % (v, mid)
        elif k == 1:
            t += "if %s\n%selseif 1\n" % (v, mid)
        elif k == 2:
            t += "if 0\nskip this\nelseif %s\n%selse\n" % (v, mid)
        else:
            t += "ife (%s) eq 0\n%selseif 0\nendless\nelse\n" % (v, mid)
        t += "db %d\n" % i
        tail += "db 200\nendif\n"

    def spec(c):
        w = []
        for i in range(depth):
            if conds[i] is not False and c.branch(c.v["V%d" % conds[i]] & 1 == 1):
                w.append(100 + i)
                break
            w.append(i)
        else:
            i = depth
        same(c, c.file("t.bin"), w + [200] * i + [0x5a])
    return Job(id, HDR[mode] + t + tail + "db 5ah" + END, spec, vs, [])


def skipped(id, mode, rng):
    """statements of a block that is not assembled have no effect, whatever they are"""
    junk = ["garbage in here", "db 1,", "mov eax,", "if 1", "endif", "x macro a", "endm", "include nowhere.inc", ".err", "s = 99", "y struct", "end", "while 1", "repeat 3", "else_ 4", "db \"abc", "label", "%s", "ifb", "if", ".nosuch",
            "for x,<1,2>", "comment * text"]
    vs = {"V": 64, "W": 64}
    t, w = "s = 1\n", []
    n = rng.randint(2, 4)
    for i in range(n):
        b = []
        for _ in range(rng.randint(1, 3)):
            j = rng.choice(junk)
            if j in ("endif", "endm", "x macro a", "while 1", "repeat 3", "for x,<1,2>", "comment * text"):
                j = {"endif": "if 0\nendif", "x macro a": "x macro a\ndb 1\nendm", "while 1": "while 1\ndb 2\nendm", "repeat 3": "repeat 3\ndb 3\nendm", "for x,<1,2>": "for x,<1,2>\ndb x\nendm", "endm": "endm",
                     "comment * text": "jmp nowhere"}[j]
            elif j in ("if 1", "if", "ifb"):
                j += "\nmore junk\nelse\ndb 9\nendif"
            elif j == "%s":
                j = "%echo no"
            b.append(j)
        k = rng.choice(["if", "elseif", "else", "ifdef"])
        b = "\n".join(b)
        if k == "if":
            t += "if «V» eq %d\n%s\nendif\n" % (77 + i, b)
        elif k == "ifdef":
            t += "ifdef nosuch\n%s\nelse\ndb %d\nendif\n" % (b, i)
        elif k == "elseif":
            t += "if «V» ne %d\ndb s\nelseif «W» and 1\n%s\nelse\n%s\nendif\n" % (77 + i, b, b)
        else:
            t += "if «W» or 1\ndb %d\nelse\n%s\nendif\n" % (50 + i, b)
        w.append({"if": None, "ifdef": i, "elseif": 1, "else": 50 + i}[k])
    w = [x for x in w if x is not None]

    def spec(c):
        same(c, c.file("t.bin"), w + [0x5a])
    return Job(id, HDR[mode] + t + "db 5ah" + END, spec, vs, [ule("V", 64, 76), ule("W", 64, 1000)])


def cond64(id, mode, kind):
    """conditions are 64-bit values"""
    t = {"if": "if s\ndb 1\nelse\ndb 2\nendif\n", "ife": "ife s\ndb 2\nelse\ndb 1\nendif\n", "elseif": "if 0\nelseif s\ndb 1\nelse\ndb 2\nendif\n", "elseife": "if 0\nelseife s\ndb 2\nelse\ndb 1\nendif\n",
         "while": "k = 2\nwhile s\nk = 1\nexitm\nendm\ndb k\n", "while2": "k = 2\nt = 1\nwhile t\nt = s\nif k eq 1\nexitm\nendif\nif s\nk = 1\nendif\nendm\ndb k\n", "errnz": ".errnz s\ndb 2\n", "erre": ".erre s\ndb 1\n"}[kind]

    def spec(c):
        nz = c.branch(c.v["V"] != 0)
        if kind in ("errnz", "erre") and nz == (kind == "errnz"):
            c.check("the error is raised", c.code != 0 and c.file("t.bin") is None)
            return
        same(c, c.file("t.bin"), [1 if nz else 2, 0x5a])
    return Job(id, HDR[mode] + "s = 0+«V»\n" + t + "db 5ah" + END, spec, {"V": 64}, [])


def defs(id, mode, rng, kind):
    """definitions: macros that define macros, redefinition, PURGE, required and default arguments"""
    vs, asm = {"V": 64, "W": 64}, [ule("V", 64, 100), ule("W", 64, 3)]
    pre = "s = 0+«V»\nt = 0+«W»\n"
    N = lambda c: c.val(c.v["W"])
    b = lambda c: z3.Extract(7, 0, c.v["V"])
    if kind == "nested":
        t = "outer macro x\ninner macro y\ndb x,y\nendm\nendm\nouter s\ninner 1\nif t eq 2\nouter 9\nendif\ninner 2\n"
        w = lambda c: [b(c), 1, 9 if N(c) == 2 else b(c), 2]
    elif kind == "redef":
        t = "m macro y\ndb y\nendm\nm s\nif t\nm macro z\ndb 50+z\nendm\nendif\nm 1\n"
        w = lambda c: [b(c), 51 if N(c) else 1]
    elif kind == "purge":
        t = "m macro y\ndb y\nendm\nm s\nif t eq 1\npurge m\nendif\nm s\n"
        w = lambda c: [b(c)] + ([] if N(c) == 1 else [b(c)])
    elif kind == "vararg":
        t = "m macro x,y:VARARG\ndb x\nfor z:=<7>,<y>\ndb z\nendm\nendm\nm s\nm 1,s,2\nm 3,,s\nif t gt 1\nm s,s,s,s\nendif\n"
        w = lambda c: [b(c), 1, b(c), 2, 3, 7, b(c)] + ([b(c)] * 4 if N(c) > 1 else [])
    elif kind == "default":
        t = "m macro x:=<s>,y:=<t+1>\ndb x,y\nendm\nm\nm 5\nm ,6\nm t,s\n"
        w = lambda c: [b(c), N(c) + 1, 5, N(c) + 1, b(c), 6, N(c), b(c)]
    elif kind == "req":
        t = "m macro x,y:REQ\ndb y\nendm\nif t eq 3\nm 4\nelse\nm 4,s\nendif\n"

        def w(c):
            if N(c) == 3:
                c.check("a missing required argument is an error", c.code != 0 and c.file("t.bin") is None)
                return None
            return [b(c)]
    elif kind == "locallabels":
        t = "m macro x\nlocal a,b\na:\ndb x dup (6)\nb:\ndb b-a\nendm\nm t\nm 2\nrepeat t\nm 1\nendm\n"
        w = lambda c: [6] * N(c) + [N(c), 6, 6, 2] + [6, 1] * N(c)
    elif kind == "early":
        t = "m macro x\nlocal i\ni = 0\nrepeat 3\ni = i+1\nif i eq x\nexitm\nendif\ndb i\nendm\nif x eq 2\nexitm\nendif\ndb 40\nendm\nm t\ndb s\nm 2\n"
        w = lambda c: list(range(1, N(c) if N(c) else 4)) + ([] if N(c) == 2 else [40]) + [b(c), 1]
    elif kind == "pct":
        t = "m macro x,y\ns = 7\ndb x,y\nendm\nm s,%s\n"
        w = lambda c: [7, b(c)]
    elif kind == "shadow":
        t = "m macro s,x\ndb s,x\nfor s,<x,1>\ndb s\nendm\ndb s\nendm\nm t,2\ndb s\n"
        w = lambda c: [N(c), 2, 2, 1, N(c), b(c)]

    def spec(c):
        r = w(c)
        if r is not None:
            same(c, c.file("t.bin"), r + [0x5a])
    if kind == "pct":
        asm = [ule("V", 64, 9), "(eq W (c 64 0))"]
    return Job(id, HDR[mode] + pre + t + "db 5ah" + END, spec, vs, asm)


EXLOOP = {"while": ("i = 0\nwhile i lt 5\ni = i+1\n", "db i\n", "endm\n"), "repeat": ("i = 0\nrepeat 5\ni = i+1\n", "db i\n", "endm\n"),
          "for": ("for i,<1,2,3,4,5>\n", "db i\n", "endm\n"), "forc": ("forc i,<12345>\n", "db &i&\n", "endm\n"),
          "forv": ("n macro a:VARARG\nfor i,<a>\n", "db i\n", "endm\nendm\nn 1,2,3,4,5\npurge n\n")}


def exits(id, mode, kind, where, depth, after):
    """EXITM ends the innermost loop or macro and nothing else, from any depth of IF"""
    head, body, tail = EXLOOP[kind]
    op = "".join("if %s\n" % ("1", "i", "t or 1")[d % 3] if d % 2 else "if 0\ndb 99\nelse\n" for d in range(depth))
    cl = "endif\n" * depth
    test = "if i eq s\n" + op + "exitm\ndb 98\n" + cl + "endif\n"
    core = head + (body + test if after else test + body) + tail + "db 40\n"
    # the loop itself: what it emits for s
    if where == "top":
        t, rep = core, 1
    elif where == "macro":
        t, rep = "m macro t\n" + core + "endm\nm 1\nm 0\n", 2
    elif where == "if":
        t, rep = "if t\ndb 97\nelse\n" + core + "endif\n", 1
    else:
        h2, b2, t2 = {"in-while": ("j = 0\nwhile j lt 3\nj = j+1\n", "db j+60\n", "endm\n"), "in-repeat": ("j = 0\nrepeat 3\nj = j+1\n", "db j+60\n", "endm\n"),
                      "in-for": ("for j,<1,2,3>\n", "db j+60\n", "endm\n"), "in-forc": ("forc j,<123>\n", "db &j+60\n", "endm\n")}[where]
        if kind == "forv":
            core = core.replace("purge n\n", "")
        t, rep = h2 + core + b2 + t2, 0

    def spec(c):
        n = c.val(c.v["V"])
        one = ([x for x in range(1, 6) if n < 1 or n > 5 or (x <= n if after else x < n)]) + [40]
        same(c, c.file("t.bin"), (one * rep if rep else sum((one + [60 + j] for j in (1, 2, 3)), [])) + [0x5a])
    return Job(id, HDR[mode] + "s = 0+«V»\nt = 0\n" + t + "db 5ah" + END, spec, {"V": 64}, [ule("V", 64, 7)])


def jobs():
    J = []
    rng = random.Random("p10-%d" % SEED)
    modes = (64, 32, 16)
    for k in range(300 if THOROUGH else 160):
        for t in range(30):
            j = prog("prog-%d" % k, modes[k % 3], random.Random("p10-%d-%d-%d" % (k, t, SEED)), 40, 5, 16)
            if j:
                J.append(j)
                break
    n = 0
    for kind, hi in (("rec", 6), ("mutual", 6), ("goto", 9), ("func", 8), ("while", 12), ("repeat", 12), ("exit", 9)):
        J.append(rec("rec-" + kind, modes[n % 3], kind, hi))
        n += 1
    for kind in ("e", "nz", "idn", "idni", "dif", "difi", "b", "nb", "def", "ndef"):
        J.append(errdir("err-" + kind, modes[n % 3], kind))
        n += 1
    for kind in ("angle", "comma", "nested", "bang", "string", "blank", "only2", "forc", "for", "id"):
        J.append(quoting("arg-" + kind, modes[n % 3], kind))
        n += 1
    for k in range(12):
        J.append(deep("deep-%d" % k, modes[k % 3], rng, (2, 5, 9, 13, 17, 20)[k % 6], 2))
    for k in range(40 if THOROUGH else 16):
        J.append(skipped("skip-%d" % k, modes[k % 3], rng))
    for kind in ("if", "ife", "elseif", "elseife", "while", "while2", "errnz", "erre"):
        for m in modes:
            J.append(cond64("cond64-%s-%d" % (kind, m), m, kind))
    for kind in ("nested", "redef", "purge", "vararg", "default", "req", "locallabels", "early", "pct", "shadow"):
        J.append(defs("def-" + kind, modes[n % 3], rng, kind))
        n += 1
    for i, kind in enumerate(sorted(EXLOOP)):
        for j, where in enumerate(("top", "macro", "if", "in-while", "in-repeat", "in-for", "in-forc")):
            J.append(exits("exit-%s-%s" % (kind, where), modes[n % 3], kind, where, (i + j) % 4, (i + j) & 1))
            n += 1
    return J


def check():
    return Check("P10", jobs(), "random programs of conditional assembly, loops and macros, nesting up to 5: operands 0..255, counts -2..3, symbolic characters from [0-9A-Za-z]")
