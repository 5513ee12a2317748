"""Solver-side of the checks: jobs (assembler inputs with symbolic parts), the
paths the symbolic executor returns for them, specifications over those paths,
counterexample replay against the real uasm.exe, evidence."""
import json, os, re, subprocess, sys, tempfile, shutil, time, traceback, hashlib, random, fnmatch
import multiprocessing as mp
import z3
import build

VERIF = build.VERIF
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"
RLIMIT1, RLIMIT = 3000000, 300000000


# ------------------------------------------------------------------ s-expressions (assumptions), for z3
def _tok(s):
    return re.findall(r"[()]|[^\s()]+", s)


def sexpr(s, env):
    t = _tok(s)
    i = 0

    def p():
        nonlocal i
        x = t[i]
        i += 1
        if x != "(":
            return env[x]
        o = t[i]
        i += 1
        if o == "c":
            r = z3.BitVecVal(int(t[i + 1], 0), int(t[i]))
            i += 3
            return r
        if o == "extract":
            h, l = int(t[i]), int(t[i + 1])
            i += 2
            a = p()
            i += 1
            return z3.Extract(h, l, a)
        if o in ("zext", "sext"):
            w = int(t[i])
            i += 1
            a = p()
            i += 1
            return (z3.ZeroExt if o == "zext" else z3.SignExt)(w - a.size(), a)
        k = []
        while t[i] != ")":
            k.append(p())
        i += 1
        b = lambda e: z3.If(e, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
        if o in ("and", "or", "xor", "add", "mul", "sub", "concat"):
            f = {"and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "add": lambda a, b: a + b,
                 "mul": lambda a, b: a * b, "sub": lambda a, b: a - b, "concat": z3.Concat}[o]
            r = k[0]
            for y in k[1:]:
                r = f(r, y)
            return r
        if o == "not":
            return ~k[0]
        if o == "ite":
            return z3.If(k[0] == 1, k[1], k[2])
        if o == "shl":
            return k[0] << k[1]
        if o == "urem":
            return z3.URem(k[0], k[1])
        if o == "udiv":
            return z3.UDiv(k[0], k[1])
        return b({"eq": lambda: k[0] == k[1], "ne": lambda: k[0] != k[1], "ult": lambda: z3.ULT(k[0], k[1]), "ule": lambda: z3.ULE(k[0], k[1]),
                  "slt": lambda: k[0] < k[1], "sle": lambda: k[0] <= k[1]}[o]())
    return p()


def ule(v, w, hi):
    return "(ule %s (c %d %d))" % (v, w, hi)


def urange(v, w, lo, hi):
    return "(and (ule (c %d %d) %s) (ule %s (c %d %d)))" % (w, lo, v, v, w, hi)


def oneof(v, w, vals):
    return "(or %s)" % " ".join("(eq %s (c %d %d))" % (v, w, x) for x in vals)


# ------------------------------------------------------------------ jobs
class Job:
    """One assembler run.  In src (and in the texts of extra files) the marks
       «V»    the value of V as a binary number (all its bits, suffix y)
       «b:V»  the character V (8 bits)
       «h:V»  the hex digits of V (0 first, suffix h)
       «x:V»  the bare hex digits of V
       «e:S»  the character given by s-expression S
    are the symbolic parts."""

    def __init__(self, id, src, spec, vars=None, assume=(), args=("-q", "-bin"), files=None, name="t.asm", maxinstr=0, mask=None, note=""):
        self.id, self.src, self.spec = id, src, spec
        self.vars = dict(vars or {})
        self.assume = [assume] if isinstance(assume, str) else list(assume)
        self.args = list(args) + [name]
        self.files = dict(files or {})
        self.files[name] = src
        self.maxinstr, self.mask, self.note = maxinstr, mask, note
        assert re.fullmatch(r"[A-Za-z0-9_.,+\-]+", id), id

    def _parts(self, text):
        if isinstance(text, bytes):
            yield "raw", text
            return
        pos = 0
        for m in re.finditer("«([^»]*)»", text):
            if m.start() > pos:
                yield "raw", text[pos:m.start()].encode("latin-1")
            k, _, v = m.group(1).partition(":")
            if not v:
                yield "bin", k
                yield "raw", b"y"
            elif k == "b":
                yield "byte", v
            elif k == "h":
                yield "raw", b"0"
                yield "hexd", v
                yield "raw", b"h"
            elif k == "x":
                yield "hexd", v
            elif k == "e":
                yield "expr", v
            else:
                raise ValueError(m.group(0))
            pos = m.end()
        if pos < len(text):
            yield "raw", text[pos:].encode("latin-1")

    def text(self):
        o = ["job " + self.id]
        o += ["arg " + a for a in self.args]
        o += ["var %s %d" % kv for kv in self.vars.items()]
        o += ["assume " + a for a in self.assume]
        for f, t in self.files.items():
            o.append("file " + f)
            for k, v in self._parts(t):
                o.append(k + " " + (v.hex() if k == "raw" else v))
        if self.maxinstr:
            o.append("maxinstr %d" % self.maxinstr)
        o.append("end")
        return "\n".join(o) + "\n"

    def concrete(self, model):
        """files with the symbolic parts filled in"""
        out = {}
        env = {k: z3.BitVecVal(model.get(k, 0), w) for k, w in self.vars.items()}
        for f, t in self.files.items():
            b = b""
            for k, v in self._parts(t):
                if k == "raw":
                    b += v
                elif k == "bin":
                    b += format(model.get(v, 0), "0%db" % self.vars[v]).encode()
                elif k == "byte":
                    b += bytes([model.get(v, 0)])
                elif k == "hexd":
                    b += format(model.get(v, 0), "0%dx" % (self.vars[v] // 4)).encode()
                else:
                    b += bytes([z3.simplify(sexpr(v, env)).as_long()])
            out[f] = b
        return out

    def size(self):
        return sum(self.vars.values())


# ------------------------------------------------------------------ paths
OPS = {"add": lambda a, b: a + b, "mul": lambda a, b: a * b, "udiv": z3.UDiv, "sdiv": lambda a, b: a / b, "urem": z3.URem,
       "srem": z3.SRem, "and": lambda a, b: a & b, "or": lambda a, b: a | b, "xor": lambda a, b: a ^ b, "shl": lambda a, b: a << b,
       "lshr": z3.LShR, "ashr": lambda a, b: a >> b, "concat": z3.Concat}
CMP = {"eq": lambda a, b: a == b, "ult": z3.ULT, "ule": z3.ULE, "slt": lambda a, b: a < b, "sle": lambda a, b: a <= b}
B1, B0 = z3.BitVecVal(1, 1), z3.BitVecVal(0, 1)


def dag(nodes, vmap):
    """executor expressions -> z3 (1-bit nodes also kept as Bool)"""
    bv, bo = [None] * len(nodes), [None] * len(nodes)

    def BV(i):
        if bv[i] is None:
            bv[i] = z3.If(bo[i], B1, B0)
        return bv[i]

    def BO(i):
        if bo[i] is None:
            bo[i] = bv[i] == 1
        return bo[i]
    for i, n in enumerate(nodes):
        o, w = n[0], n[1]
        if o == "c":
            bv[i] = z3.BitVecVal(n[2], w)
            if w == 1:
                bo[i] = z3.BoolVal(bool(n[2]))
        elif o == "v":
            bv[i] = vmap(n[2], w)
        elif o == "extract":
            bv[i] = z3.Extract(n[3] + w - 1, n[3], BV(n[2]))
        elif o == "ite":
            bv[i] = z3.If(BO(n[2]), BV(n[3]), BV(n[4]))
        elif o == "sext":
            a = BV(n[2])
            bv[i] = z3.SignExt(w - a.size(), a)
        elif o == "not":
            if w == 1:
                bo[i] = z3.Not(BO(n[2]))
            else:
                bv[i] = ~BV(n[2])
        elif o in CMP:
            bo[i] = CMP[o](BV(n[2]), BV(n[3]))
        elif w == 1 and o in ("and", "or"):
            bo[i] = (z3.And if o == "and" else z3.Or)(BO(n[2]), BO(n[3]))
        elif o == "add":
            # x - y reaches us as x + ~y + 1: give z3 the arithmetic form
            ar = [-1 - BV(nodes[k][2]) if nodes[k][0] == "not" else BV(k) for k in (n[2], n[3])]
            bv[i] = ar[0] + ar[1]
        else:
            bv[i] = OPS[o](BV(n[2]), BV(n[3]))
    return BV, BO


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def evaldag(nodes, model):
    """concrete values of all nodes (independent of z3)"""
    val = []
    wid = [n[1] for n in nodes]
    for n in nodes:
        o, w = n[0], n[1]
        M = (1 << w) - 1
        if o == "c":
            r = n[2]
        elif o == "v":
            r = model.get(n[2], 0)
        elif o == "extract":
            r = val[n[2]] >> n[3]
        elif o == "ite":
            r = val[n[3]] if val[n[2]] else val[n[4]]
        elif o == "sext":
            r = sx(val[n[2]], wid[n[2]])
        elif o == "not":
            r = ~val[n[2]]
        else:
            a, b = val[n[2]], val[n[3]]
            aw = wid[n[2]]
            if o == "concat":
                r = a << wid[n[3]] | b
            elif o == "add":
                r = a + b
            elif o == "mul":
                r = a * b
            elif o == "udiv":
                r = a // b if b else M
            elif o == "urem":
                r = a % b if b else a
            elif o == "sdiv":
                x, y = sx(a, w), sx(b, w)
                r = (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1) if y else (1 if x < 0 else -1)
            elif o == "srem":
                x, y = sx(a, w), sx(b, w)
                r = (abs(x) % abs(y)) * (1 if x >= 0 else -1) if y else x
            elif o == "and":
                r = a & b
            elif o == "or":
                r = a | b
            elif o == "xor":
                r = a ^ b
            elif o == "shl":
                r = a << b if b < w else 0
            elif o == "lshr":
                r = a >> b if b < w else 0
            elif o == "ashr":
                r = sx(a, w) >> min(b, w - 1)
            elif o == "eq":
                r = a == b
            elif o == "ult":
                r = a < b
            elif o == "ule":
                r = a <= b
            elif o == "slt":
                r = sx(a, aw) < sx(b, aw)
            elif o == "sle":
                r = sx(a, aw) <= sx(b, aw)
            else:
                raise ValueError(o)
        val.append(int(r) & M)
    return val


class SpecViolation(Exception):
    pass


class Inconclusive(Exception):
    pass


class Stop(Exception):
    """ends the specification for this path"""


class Ctx:
    """What a specification sees: the inputs (c.v[name]), the observable result,
    and branch / val / check, which the driver decides with the solver."""

    def __init__(self, job, status, code, msg, console, files, removed, env, solver):
        self.job, self.status, self.code, self.msg, self.console_, self.files, self.removed = job, status, code, msg, console, files, removed
        self.v, self.s = env, solver
        self.script, self.pos, self.new = [], 0, []
        self.nchecks = self.nqueries = 0
        self.labels = []

    # -- results
    def file(self, name):
        for k, v in self.files.items():
            if k.lower() == name.lower():
                return v
        return None

    def console(self):
        """console text; symbolic characters show as U+FFFD"""
        return "".join(chr(b) if isinstance(b, int) else "\ufffd" for b in self.console_)

    def text(self, name):
        f = self.file(name)
        return None if f is None else "".join(chr(b) if isinstance(b, int) else "\ufffd" for b in f)

    # -- symbolic control
    def simp(self, e):
        e = z3.simplify(e)
        if self.s is not None and self.eqs and not z3.is_true(e) and not z3.is_false(e):
            e = z3.simplify(z3.substitute(e, *self.eqs))
        return e

    eqs = ()

    def _q(self, *conds):
        self.nqueries += 1
        self.m = None
        r = self.s.check(*conds)
        if r == z3.sat:
            self.m = self.s.model()
        if r == z3.unknown:   # once more, with preprocessing
            t = z3.Then("simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat").solver()
            t.set("rlimit", RLIMIT)
            t.add(*self.s.assertions())
            t.add(*conds)
            r = t.check()
            if r == z3.unknown:
                raise Inconclusive("solver: " + t.reason_unknown())
            if r == z3.sat:
                self.m = t.model()
        return r == z3.sat

    def branch(self, cond):
        if isinstance(cond, bool):
            return cond
        cond = self.simp(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.s is None:
            raise Inconclusive("symbolic branch in concrete mode")
        if self.pos < len(self.script):
            d = self.script[self.pos]
        else:
            t = f = None
            if self.mod is not None:    # a model of the path so far settles one side
                if z3.is_true(self.mod.eval(cond, model_completion=True)):
                    t = True
                else:
                    f = True
            if t is None:
                t = self._q(cond)
                if t:
                    self.mod = self.m
            if f is None:
                f = self._q(z3.Not(cond))
                if f and not t:
                    self.mod = self.m
            if not t and not f:
                raise Stop()
            d = t
            if t and f:
                self.new.append(self.script[:self.pos] + [False])
            self.script = self.script + [d]
        self.pos += 1
        self.assume(cond if d else z3.Not(cond))
        return d

    mod = None

    def assume(self, cond):
        self.s.add(cond)
        if self.mod is not None and not z3.is_true(self.mod.eval(cond, model_completion=True)):
            self.mod = None

    def val(self, e, limit=64):
        """concrete value of e (every feasible value is explored)"""
        if isinstance(e, int):
            return e
        e = self.simp(e)
        if z3.is_bv_value(e):
            return e.as_long()
        if self.s is None:
            raise Inconclusive("symbolic value in concrete mode")
        for _ in range(limit):
            if self.pos < len(self.script):
                # the candidate is recorded with its decision
                cand, d = self.script[self.pos]
                self.pos += 1
                self.assume(e == cand if d else e != cand)
                if d:
                    return cand
                continue
            if self.mod is None:
                if not self._q():
                    raise Stop()
                self.mod = self.m
            cand = self.mod.eval(e, model_completion=True).as_long()
            if self._q(e != cand):
                self.new.append(self.script[:self.pos] + [(cand, False)])
            self.script = self.script + [(cand, True)]
            self.pos += 1
            self.assume(e == cand)
            return cand
        raise Inconclusive("too many values")

    def check(self, label, cond):
        self.nchecks += 1
        self.labels.append(label)
        if isinstance(cond, z3.ExprRef):
            cond = self.simp(cond)
            if z3.is_true(cond):
                return
            if not z3.is_false(cond):
                if self.s is None:
                    raise Inconclusive("symbolic check in concrete mode")
                for w in self._known(label):
                    self.s.push()
                    kw = sexpr(w["when"], self.v) == 1 if w.get("when") else z3.BoolVal(True)
                    if self._q(z3.Not(cond), kw):
                        self.hit(w)
                    self.s.pop()
                    self.s.add(z3.Not(z3.And(kw, z3.Not(cond))))
                if not self._q(z3.Not(cond)):
                    return      # implied: nothing to add
                self.cex = self.m
                raise SpecViolation(label)
            cond = False
        if cond:
            return
        if self.s is not None:
            for w in self._known(label):
                if not w.get("when"):
                    self.hit(w)
                    raise Stop()
                kw = sexpr(w["when"], self.v) == 1
                if self._q(kw):
                    self.hit(w)
                self.s.add(z3.Not(kw))
            if not self._q():
                raise Stop()
            self.cex = self.m
        raise SpecViolation(label)

    replay = False

    def _known(self, label):
        return [] if self.replay else [w for w in KNOWN if fnmatch.fnmatchcase(self.job.id, w["job"]) and fnmatch.fnmatchcase(label, w["label"])]

    cex = None

    def hit(self, w):
        self.hits.add(w["id"])

    hits = None

    def stop(self):
        raise Stop()


def le(b, off, n):
    """little-endian value of n bytes as an int or a z3 term"""
    xs = b[off:off + n]
    if len(xs) < n:
        raise SpecViolation("output too short")
    if all(isinstance(x, int) for x in xs):
        return int.from_bytes(bytes(xs), "little")
    return cat(list(reversed(xs)))


def cat(xs):
    """concatenation of bytes (most significant first); adjacent slices of one term are joined"""
    out = []
    for x in xs:
        x = z3.BitVecVal(x, 8) if isinstance(x, int) else x
        if out and z3.is_app_of(x, z3.Z3_OP_EXTRACT) and z3.is_app_of(out[-1], z3.Z3_OP_EXTRACT):
            ph, pl = out[-1].params()
            h, l = x.params()
            if pl == h + 1 and x.arg(0).eq(out[-1].arg(0)):
                e = x.arg(0)
                out[-1] = e if ph == e.size() - 1 and l == 0 else z3.Extract(ph, l, e)
                continue
        out.append(x)
    return z3.Concat(out) if len(out) > 1 else out[0]


def bv(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    if x.size() == w:
        return x
    return z3.Extract(w - 1, 0, x) if x.size() > w else z3.ZeroExt(w - x.size(), x)


def sxt(x, w):
    if isinstance(x, int):
        return z3.BitVecVal(x, w)
    return x if x.size() == w else z3.SignExt(w - x.size(), x) if x.size() < w else z3.Extract(w - 1, 0, x)


JOBS = {}
KNOWN = []


def _bytes(rec, BV):
    b = list(bytes.fromhex(rec["hex"]))
    for off, n in rec["sym"]:
        b[off] = BV(n)
    return b


FOUND = mp.Value("i", 0)        # paths with a violation so far
SPEC_T0 = None                  # set by a check run: when the specification phase started
ENOUGH, ENOUGH_S = 60, 200      # a check that has found this many (or any, after this time) decides no further paths


def eval_path(line):
    """worker: decide the specification on one path"""
    rec = json.loads(line)
    job = JOBS[rec["job"]]
    pre = job.id + ":"
    t0 = time.time()
    if SPEC_T0 is not None and (FOUND.value >= ENOUGH or FOUND.value and t0 - SPEC_T0 > ENOUGH_S):
        return {"job": job.id, "status": rec["status"], "code": rec["code"], "msg": rec["msg"], "checks": 0, "queries": 0, "labels": [], "hits": [],
                "violations": [], "inconclusive": None, "model": None, "specpaths": 0, "predicted": None, "branches": len(rec["pc"]), "solver_s": 0, "skipped": True}
    out = {"job": job.id, "status": rec["status"], "code": rec["code"], "msg": rec["msg"], "checks": 0, "queries": 0, "labels": [], "hits": [],
           "violations": [], "inconclusive": None, "model": None, "specpaths": 0, "predicted": None, "branches": len(rec["pc"])}
    model = {k[len(pre):]: v[0] for k, v in rec["model"].items() if k.startswith(pre)}
    out["model"] = model
    try:
        vs = {}

        def vmap(name, w):
            n = name[len(pre):] if name.startswith(pre) else name
            if n not in vs:
                vs[n] = z3.BitVec(n, w)
            return vs[n]
        for k, w in job.vars.items():
            vmap(pre + k, w)
        BV, BO = dag(rec["nodes"], vmap)
        pc = [BO(i) for i in rec["pc"]]
        eqs = []
        for x in pc:
            x = z3.simplify(x)
            if z3.is_eq(x):
                for p, q in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    if z3.is_const(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bv_value(q):
                        eqs.append((p, q))
        console = _bytes(rec["console"], BV)
        files = {k: _bytes(v, BV) for k, v in rec["files"].items() if k not in rec["removed"]}
        if rec["status"] == "exit":
            full = {k: v[0] for k, v in rec["model"].items()}
            vals = evaldag(rec["nodes"], full)
            fill = lambda r: bytes([vals[dict(r["sym"]).get(i)] if i in dict(r["sym"]) else x for i, x in enumerate(bytes.fromhex(r["hex"]))])
            out["predicted"] = {"code": rec["code"], "console": fill(rec["console"]).hex(), "files": {k: fill(v).hex() for k, v in rec["files"].items() if k not in rec["removed"]}}
            if not all(vals[i] for i in rec["pc"]):
                raise Inconclusive("path witness does not satisfy its own path condition")
        if rec["status"] not in ("exit", "memerr", "divzero", "hang", "abort", "unreachable"):
            raise Inconclusive("executor: %s: %s" % (rec["status"], rec["msg"]))
        todo = [[]]
        seen = 0
        ms = z3.SolverFor("QF_BV")       # the executor's witness of this path as a solver model
        ms.add(*[vs[k] == z3.BitVecVal(x, vs[k].size()) for k, x in model.items() if k in vs])
        witness = ms.model() if all(k in model for k in vs) and ms.check() == z3.sat else None
        while todo:
            script = todo.pop()
            seen += 1
            if seen > 3000:
                raise Inconclusive("specification explores too many cases")
            s = z3.SolverFor("QF_BV")
            s.set("rlimit", RLIMIT1)
            s.add(*pc)
            c = Ctx(job, rec["status"], rec["code"], rec["msg"], console, files, rec["removed"], vs, s)
            c.hits = set()
            c.eqs = eqs
            c.mod = witness
            c.script = script
            try:
                if rec["status"] != "exit":
                    c.check("runs to completion: %s %s" % (rec["status"], rec["msg"]), False)
                try:
                    job.spec(c)
                except SHAPE as e:
                    c.cex = None
                    raise SpecViolation(shape(e))
            except Stop:
                pass
            except SpecViolation as e:
                # the last query was satisfiable: its model is the counterexample
                lab = str(e)
                m = c.cex
                if m is None:
                    r = s.check()
                    if r == z3.unsat:
                        continue
                    if r == z3.sat:
                        m = s.model()
                cm = dict(model)
                if m is not None:
                    for k, w in job.vars.items():
                        cm[k] = m.eval(vs[k], model_completion=True).as_long()
                out["violations"].append({"label": lab, "model": cm})
                if len(out["violations"]) == 1 and SPEC_T0 is not None:
                    with FOUND.get_lock():
                        FOUND.value += 1
                if len(out["violations"]) >= 3:
                    break
            finally:
                out["checks"] += c.nchecks
                out["queries"] += c.nqueries
                out["labels"] += [x for x in c.labels if x not in out["labels"]]
                out["hits"] += list(c.hits)
            todo += c.new
        out["specpaths"] = seen
    except Inconclusive as e:
        out["inconclusive"] = str(e)
    except SpecViolation as e:
        out["violations"].append({"label": str(e), "model": model})
    except Exception:
        out["inconclusive"] = "specification failed: " + traceback.format_exc()[-1200:]
    out["solver_s"] = time.time() - t0
    return out


def cover_job(args):
    """worker: do the path conditions of one job cover its whole input space?"""
    jid, lines = args
    job = JOBS[jid]
    pre = job.id + ":"
    vs = {k: z3.BitVec(k, w) for k, w in job.vars.items()}
    extra = {}

    def vmap(name, w):
        n = name[len(pre):] if name.startswith(pre) else name
        if n in vs:
            return vs[n]
        return extra.setdefault(n, z3.BitVec(n, w))
    s = z3.SolverFor("QF_BV")
    s.set("rlimit", RLIMIT)
    for a in job.assume:
        s.add(sexpr(a, vs) == 1)
    for l in lines:
        rec = json.loads(l)
        BV, BO = dag(rec["nodes"], vmap)
        if not rec["pc"]:
            return jid, "yes"
        s.add(z3.Not(z3.And([BO(i) for i in rec["pc"]])))
    r = s.check()
    return jid, "yes" if r == z3.unsat else "no" if r == z3.sat else "unknown"


def concrete_ctx(job, model, res):
    env = {k: z3.BitVecVal(model.get(k, 0), w) for k, w in job.vars.items()}
    st = "hang" if res["timeout"] else "exit"
    s = z3.SolverFor("QF_BV")       # for specifications with symbols of their own (run-time registers)
    s.set("rlimit", RLIMIT1)
    c = Ctx(job, st, res["code"], "", list(res["console"].replace(b"\r\n", b"\n")), {k: list(v) for k, v in res["files"].items()}, [], env, s)
    c.hits, c.replay = set(), True
    return c


# a specification that cannot even read the output (a missing file, a reference to nowhere): the output is wrong
SHAPE = (KeyError, IndexError, ValueError, TypeError, AttributeError)


def shape(e):
    t = traceback.extract_tb(e.__traceback__)[-1]
    return "the output has the specified shape (%s at %s:%d)" % (type(e).__name__, os.path.basename(t.filename), t.lineno)


def replay_check(a):
    """worker: concrete_check, None (not reproduced) when it cannot decide"""
    try:
        return concrete_check(JOBS[a[0]], a[1], a[2])
    except Inconclusive:
        return None


def concrete_check(job, model, res):
    """-> label violated by the real program's result, or None"""
    todo, seen = [[]], 0
    while todo:
        c = concrete_ctx(job, model, res)
        c.script = todo.pop()
        seen += 1
        if seen > 3000:
            raise Inconclusive("specification explores too many cases")
        try:
            if c.status != "exit":
                return "runs to completion"
            if res["code"] not in (0, 1, 2, 3, 4):
                return "ends normally (exit code %d)" % res["code"]
            job.spec(c)
        except Stop:
            pass
        except SpecViolation as e:
            if c.s.check() != z3.unsat:
                return str(e)
        except SHAPE as e:
            return shape(e)
        todo += c.new
    return None


# ------------------------------------------------------------------ a check
ENGINE_BAD = ("engine", "unknown", "timeout", "limit", "nostart")


class Check:
    def __init__(self, prop, jobs, bounds, engine_args=(), time_s=600, assumptions=(), uses_real=True, replay=None, stubs=()):
        self.prop, self.jobs, self.bounds, self.engine_args, self.time_s = prop, jobs, bounds, list(engine_args), time_s
        self.assumptions, self.uses_real, self.replay_fn = list(assumptions), uses_real, replay
        self.t0 = time.time()

    def known(self):
        p = os.path.join(VERIF, "known_findings.json")
        if not os.path.exists(p):
            return []
        return [w for w in json.load(open(p))["findings"] if w["property"] == self.prop and w.get("status") == "known"]

    def run(self):
        scratch = tempfile.mkdtemp(prefix="uasm-%s-" % self.prop)
        wine = None
        try:
            return self._run(scratch)
        finally:
            if getattr(self, "wine", None):
                self.wine.close()
                time.sleep(0.2)
            shutil.rmtree(scratch, ignore_errors=True)

    def engine_run(self, scratch, bc, jobs, tag="", extra=()):
        jf, of, cf = [os.path.join(scratch, x + tag) for x in ("jobs.txt", "out.jsonl", "cov.txt")]
        with open(jf, "w", encoding="utf-8") as f:
            for j in jobs:
                f.write(j.text())
        p = subprocess.run([self.engine, "-bc", bc, "-jobs", jf, "-out", of, "-par", "8", "-time", str(self.time_s), "-cov", cf] + self.engine_args + list(extra),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        try:
            st = json.loads(p.stdout.strip().splitlines()[-1])
        except (IndexError, ValueError):
            raise build.BuildError("executor failed (%d): %s %s" % (p.returncode, p.stdout[-500:], p.stderr[-1500:]))
        recs = {}
        with open(of, encoding="utf-8") as f:
            for l in f:
                jid = re.match(r'\{"job":"([^"]*)"', l).group(1)
                recs.setdefault(jid, []).append(l)
        for v in recs.values():
            v.sort()
        os.unlink(of)
        return st, recs, [l.split() for l in open(cf)]

    def _run(self, scratch):
        global JOBS, KNOWN
        ids = [j.id for j in self.jobs]
        assert len(set(ids)) == len(ids), "duplicate job ids: %s" % [x for x in ids if ids.count(x) > 1][:3]
        JOBS = {j.id: j for j in self.jobs}
        KNOWN = self.known()
        try:
            self.engine = build.engine()
            bc = build.bitcode(os.path.join(scratch, "bc"))
        except build.BuildError as e:
            print("ERROR: " + str(e))
            return 2
        # the real program is built and its wine prefix warmed up while the executor runs
        from concurrent.futures import ThreadPoolExecutor
        px = ThreadPoolExecutor(1)
        fut = px.submit(self._real, scratch)
        t = time.time()
        st, recs, cov = self.engine_run(scratch, bc, self.jobs)
        t_engine = time.time() - t
        inconclusive = []
        if st["crashed"] or st["abort"]:
            inconclusive.append("executor crashed on some path (%s)" % st)
        lines = [l for j in ids for l in recs.get(j, [])]
        lost = [j for j in ids if j not in recs]
        if lost:
            inconclusive.append("no path for jobs %s" % lost[:5])
        t = time.time()
        global SPEC_T0
        SPEC_T0, FOUND.value = t, 0
        with mp.get_context("fork").Pool(8) as pool:
            res = pool.map(eval_path, lines, chunksize=4)
            small = [(j, recs[j]) for j in ids if j in recs and len(recs[j]) <= 400]
            covd = dict(pool.map(cover_job, small, chunksize=4))
        t_spec = time.time() - t
        uncovered = [j for j, r in covd.items() if r != "yes"]
        if uncovered:
            inconclusive.append("path conditions do not cover the input space (or solver gave up) for %s" % uncovered[:5])
        per = {j: 0 for j in ids}
        for r in res:
            per[r["job"]] += r["checks"]
            if r["inconclusive"]:
                inconclusive.append("%s: %s" % (r["job"], r["inconclusive"]))
        skipped = {r["job"] for r in res if r.get("skipped")}
        vac = [j for j in ids if not per[j] and j not in skipped]
        if vac:
            inconclusive.append("no assertion reached in jobs %s" % vac[:5])
        hits = sorted({h for r in res for h in r["hits"]})
        # -------- counterexamples are replayed on the real program
        exe = fut.result()
        if isinstance(exe, Exception):
            print("ERROR: " + str(exe))
            return 2
        confirmed, spurious = [], []
        cands = [(r["job"], v) for r in res for v in r["violations"]]
        byjob = {}
        for j, v in cands:
            byjob.setdefault(j, []).append(v)
        pick = [(j, v) for j, vs in byjob.items() for v in vs[:3]][:48]
        reals = self._replay(exe, pick)
        for (j, v), (lab, rr) in zip(pick, reals):
            (confirmed if lab else spurious).append((j, v, lab, rr))
        if spurious:
            for j, v, lab, rr in spurious[:5]:
                inconclusive.append("counterexample of %s (%s) does not reproduce on uasm.exe" % (j, v["label"]))
        # -------- the encoding against the real program: one witness per path
        rng = random.Random(SEED)
        ok = [r for r in res if r["predicted"]]
        rng.shuffle(ok)
        seenj, wit = set(), []
        for r in ok:
            if r["job"] not in seenj:
                seenj.add(r["job"])
                wit.append(r)
        limit = 3000 if THOROUGH else self.max_witness
        first = {id(r) for r in wit}
        wit = (wit + [r for r in ok if id(r) not in first])[:limit]
        rr = self.wine.run_many(exe, [(JOBS[r["job"]].args, JOBS[r["job"]].concrete(r["model"])) for r in wit], timeout=300)
        mism = []
        for r, real in zip(wit, rr):
            d = self._differs(JOBS[r["job"]], r["predicted"], real)
            if d:
                mism.append((r, d))
        if mism:
            inconclusive.append("encoding disagrees with uasm.exe on %d of %d witnesses: %s %s: %s" % (len(mism), len(wit), mism[0][0]["job"], mism[0][0]["model"], mism[0][1]))
        # -------- report
        for h in hits:
            w = next(w for w in KNOWN if w["id"] == h)
            print("KNOWN-FINDING: property=%s %s" % (self.prop, w["what"]))
        outdir = os.path.join(VERIF, "evidence", "replay", self.prop)
        shutil.rmtree(outdir, ignore_errors=True)
        for n, (j, v, lab, real) in enumerate(confirmed[:20]):
            p = self._save(outdir, n, JOBS[j], v, lab, real)
            print("  %s: %s  input %s" % (j, lab, v["model"]))
            print("VIOLATION property=%s replay=%s" % (self.prop, os.path.relpath(p, VERIF)))
        for x in inconclusive[:20]:
            print("INCONCLUSIVE: " + x)
        self._evidence(st, res, cov, covd, len(wit), len(mism), confirmed, inconclusive, hits, t_engine, t_spec)
        print("%s: %d jobs, %d paths, %d assertions, %d solver queries, %d witnesses validated, %d violations, %.1f s (executor %.1f, specification %.1f)" % (
            self.prop, len(self.jobs), len(res), sum(r["checks"] for r in res), st["queries"] + sum(r["queries"] for r in res), len(wit), len(confirmed),
            time.time() - self.t0, t_engine, t_spec))
        if confirmed:
            return 1
        return 2 if inconclusive else 0

    max_witness = 250

    def _real(self, scratch):
        try:
            exe = build.realexe(os.path.join(scratch, "exe"))
            self.wine = build.Wine(scratch)
            self.wine.run(exe, ["-q", "-bin", "w.asm"], {"w.asm": b".code\nnop\nend\n"}, timeout=120)
            return exe
        except Exception as e:
            return e

    def _replay(self, exe, pick):
        cases = [(JOBS[j].args, JOBS[j].concrete(v["model"])) for j, v in pick]
        reals = self.wine.run_many(exe, cases, timeout=120)
        with mp.get_context("fork").Pool(8) as pool:
            labs = pool.map(replay_check, [(j, v["model"], r) for (j, v), r in zip(pick, reals)], chunksize=1)
        return list(zip(labs, reals))

    def _differs(self, job, pred, real):
        if pred["code"] & 0xff != real["code"] & 0xff:
            return "exit code %s / real %s" % (pred["code"], real["code"])
        if bytes.fromhex(pred["console"]).replace(b"\r\n", b"\n") != real["console"].replace(b"\r\n", b"\n"):
            return "console %r / real %r" % (bytes.fromhex(pred["console"])[:300], real["console"][:300])
        a = {k.lower(): bytes.fromhex(v) for k, v in pred["files"].items()}
        b = {k.lower(): v for k, v in real["files"].items()}
        if set(a) != set(b):
            return "files %s / real %s" % (sorted(a), sorted(b))
        for k in a:
            x, y = bytearray(a[k]), bytearray(b[k])
            if job.mask:
                job.mask(k, x)
                job.mask(k, y)
            if x != y:
                i = next((i for i in range(min(len(x), len(y))) if x[i] != y[i]), min(len(x), len(y)))
                return "%s differs at %d of %d/%d: %s / real %s" % (k, i, len(x), len(y), bytes(x[i:i + 12]).hex(), bytes(y[i:i + 12]).hex())
        return None

    def _save(self, outdir, n, job, v, lab, real):
        d = os.path.join(outdir, "%02d-%s" % (n, job.id))
        os.makedirs(d, exist_ok=True)
        for k, b in job.concrete(v["model"]).items():
            open(os.path.join(d, k), "wb").write(b)
        with open(os.path.join(d, "README"), "w") as f:
            f.write("property %s, job %s\nviolated: %s\ninput: %s\nrun: uasm.exe %s\nexit code: %d\nconsole:\n%s\n" % (
                self.prop, job.id, lab, v["model"], " ".join(job.args), real["code"], real["console"].decode("latin-1")))
        for k, b in real["files"].items():
            open(os.path.join(d, "out-" + k), "wb").write(b)
        return d

    def _evidence(self, st, res, cov, covd, nwit, nmis, confirmed, inconclusive, hits, t_engine, t_spec):
        samples = []
        seen = set()
        for r in res:
            if r["labels"] and r["labels"][0] not in seen and len(samples) < 6:
                seen.add(r["labels"][0])
                src = {k: b.decode("latin-1") for k, b in JOBS[r["job"]].concrete(r["model"]).items()}
                samples.append({"job": r["job"], "inputs": src, "symbolic": JOBS[r["job"]].vars, "witness": r["model"], "assertions_on_this_path": r["labels"][:8]})
        sym = sorted(n for n, s in cov if s == "1")
        ev = {"property": self.prop, "tier": TIER if TIER in ("quick", "thorough") else "quick", "seed": SEED, "level": "model_checking",
              "coverage": {
                  "states": len(res), "transitions": st["forks"] + sum(r["specpaths"] for r in res),
                  "traces_validated_against_impl": nwit - nmis, "samples": samples,
                  "method": "symbolic execution of the linked LLVM IR of the whole assembler from main(); every path's outputs against the specification, decided by Z3 (QF_BV)",
                  "programs_with_symbolic_parts": len(self.jobs), "symbolic_bits_total": sum(j.size() for j in self.jobs),
                  "paths": len(res), "ir_instructions_executed": st["instrs"],
                  "assertions_discharged": sum(r["checks"] for r in res), "distinct_assertions": len({l for r in res for l in r["labels"]}),
                  "solver_queries": {"executor": st["queries"], "specification": sum(r["queries"] for r in res), "path_cover": len(covd)},
                  "solver_s": round(st["solver_s"] + sum(r["solver_s"] for r in res), 1),
                  "path_cover_proved_jobs": sum(1 for v in covd.values() if v == "yes"),
                  "functions_encoded": len(cov), "functions_with_symbolic_decisions": sym[:400],
                  "bounds": self.bounds, "inconclusive": inconclusive[:20], "known_findings_seen": hits,
                  "executor_s": round(t_engine, 1), "specification_s": round(t_spec, 1)},
              "assumptions": self.assumptions + ["libc and the file system are modelled in the executor (engine/usym.cpp); the model is compared with the real uasm.exe under wine on every witness run",
                                                 "clang-18 -O1 IR for the Win64 target stands for the gcc-built program (compared on the witnesses)"],
              "wall_s": round(time.time() - self.t0, 1), "violations": len(confirmed)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.replace(p + ".tmp", p)
