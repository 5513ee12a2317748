// usym: a symbolic executor for the LLVM IR of the whole assembler.
//
// The program (every translation unit, linked to one bitcode file) is
// interpreted from main(); bytes of its input files may be bit-vector
// expressions.  A branch whose condition is symbolic is decided by the SMT
// solver; when both sides are feasible the process fork()s, one side each, so
// that every feasible path is executed.  Each finished path is written out as
// its path condition and its observable effects (exit code, console text,
// files), all as expressions over the symbolic variables.
#include "expr.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <atomic>
#include <map>
#include <set>
#include <unordered_set>
#include <deque>
#include <functional>
#include <algorithm>
#include <csignal>
#include <ctime>
#include <cmath>
#include <cstdarg>
#include <unistd.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/prctl.h>
#include <sys/resource.h>
using namespace llvm;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// ---------------------------------------------------------------- shared state
struct Shared {
  std::atomic<int> running, maxpar; std::atomic<int> abortAll;
  std::atomic<u64> pathId, forks, queries, instrs, unknowns; std::atomic<u64> solverUs;
  std::atomic<u32> jobPaths[65536];
  u8 fnRun[16384], fnSym[16384];   // functions executed / that took a symbolic decision
};
static Shared *sh;
static double deadline = 1e18; static u64 maxInstr = 400000000ull; static u32 maxJobPaths = 20000;
static const char *outPath; static int outFd = -1;
static int uninitMode = 0;   // 1: uninitialised heap/stack bytes are fresh symbols
static int timeSym = 0;      // 1: the clock is symbolic
static unsigned rlimitQ = 60000000;

// ---------------------------------------------------------------- values, memory
struct V { u64 c; Ex *e; };
static inline V C(u64 c) { return V{c, nullptr}; }
static inline V S(Ex *e) { return isC(e) ? V{e->val, nullptr} : V{0, e}; }
static inline Ex *X(V v, unsigned w) { return v.e ? v.e : mkConst(v.c, w); }

enum Kind : u8 { K_GLOBAL, K_STACK, K_HEAP, K_PAGE, K_FILE, K_VARG, K_CONSTG };
struct Obj { u64 base, size; Ex **sym; u8 *init; Kind kind; bool dead; u32 site; };
static const u64 LO = 0x20000000, SPAN = 0x60000000ull, STACK0 = 0x70000000, HEAP0 = 0x28000000, GLOB0 = 0x20000000;
static u32 *objid; static std::vector<Obj> objs; static std::vector<u32> freeIds;
static u64 heapTop = HEAP0, globTop = GLOB0, stackTop = STACK0;
static u64 uninitCount = 0;

[[noreturn]] static void endPath(const char *status, const std::string &msg);
static std::string backtrace_();

static u32 newObj(u64 base, u64 size, Kind k, bool inited) {
  u32 id; if (freeIds.empty()) { id = objs.size(); objs.push_back({}); } else { id = freeIds.back(); freeIds.pop_back(); }
  Obj &o = objs[id]; o.base = base; o.size = size; o.sym = 0; o.init = 0; o.kind = k; o.dead = false; o.site = 0;
  if (!inited && uninitMode) o.init = (u8 *)calloc(size ? size : 1, 1);
  u64 g = (base - LO) >> 4, n = (size + 15) >> 4; if (!n) n = 1;
  for (u64 i = 0; i < n; i++) objid[g + i] = id;
  return id;
}
static u64 allocAt(u64 &top, u64 size, Kind k, bool inited, u64 align = 16) {
  if (align < 16) align = 16;
  top = (top + align - 1) & ~(align - 1);
  u64 base = top; top += ((size + 15) & ~15ull) + 32;
  newObj(base, size, k, inited);
  return base;
}
static inline Obj *findObj(u64 a, u64 n) {
  if (a - LO >= SPAN) return nullptr;
  u32 id = objid[(a - LO) >> 4]; if (!id) return nullptr;
  Obj *o = &objs[id];
  if (a < o->base || a + n > o->base + o->size || o->dead) return nullptr;
  return o;
}
static std::string hex(u64 v) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)v); return b; }
[[noreturn]] static void memErr(const char *what, u64 a, u64 n) {
  std::string m = std::string(what) + " of " + std::to_string(n) + " bytes at " + hex(a);
  if (a - LO < SPAN) { u32 id = 0; u64 g = (a - LO) >> 4; for (int k = 0; k < 3 && !id; k++) id = g >= (u64)k ? objid[g - k] : 0;
    if (id) { Obj &o = objs[id]; m += " near object " + hex(o.base) + " size " + std::to_string(o.size) + (o.dead ? " (freed)" : "") + " kind " + std::to_string(o.kind); } }
  endPath("memerr", m + " in " + backtrace_());
}
static V uninitByte(Obj *o, u64 i) {
  char nm[48]; snprintf(nm, 48, "uninit%llu", (unsigned long long)uninitCount++);
  if (!o->sym) o->sym = (Ex **)calloc(o->size, sizeof(Ex *));
  o->sym[i] = mkVar(nm, 8); o->init[i] = 1; return V{0, o->sym[i]};
}
static inline V ldByte(Obj *o, u64 a) { u64 i = a - o->base;
  if (o->init && !o->init[i]) return uninitByte(o, i);
  if (o->sym && o->sym[i]) return V{0, o->sym[i]}; return C(*(u8 *)a); }
static inline void stByte(Obj *o, u64 a, V v) { u64 i = a - o->base;
  if (o->init) o->init[i] = 1;
  if (v.e) { if (!o->sym) o->sym = (Ex **)calloc(o->size, sizeof(Ex *)); o->sym[i] = v.e; }
  else { if (o->sym) o->sym[i] = 0; *(u8 *)a = (u8)v.c; } }
static V loadObj(Obj *o, u64 a, unsigned w) {
  unsigned n = (w + 7) / 8;
  bool s = false;
  if (o->init) for (unsigned i = 0; i < n; i++) if (!o->init[a - o->base + i]) { s = true; break; }
  if (!s && o->sym) for (unsigned i = 0; i < n; i++) if (o->sym[a - o->base + i]) { s = true; break; }
  if (!s) { u64 v = 0; memcpy(&v, (void *)a, n); return C(v & mask(w)); }
  Ex *r = 0;
  for (unsigned i = 0; i < n; i++) { V b = ldByte(o, a + i); Ex *be = X(b, 8); r = r ? mkConcat(be, r) : be; }
  if (r->w > w) r = mkExtract(r, w - 1, 0);
  if (r->op == O_EXTRACT) r = mkExtract(r->a, r->lo + r->w - 1, r->lo);
  return S(r);
}
static inline V load(u64 a, unsigned w) {
  Obj *o = findObj(a, (w + 7) / 8); if (!o) memErr("out-of-bounds read", a, (w + 7) / 8);
  if (!o->sym && !o->init) { u64 v = 0; switch (w) { case 8: return C(*(u8 *)a); case 32: return C(*(u32 *)a); case 64: return C(*(u64 *)a); case 16: return C(*(uint16_t *)a);
    default: memcpy(&v, (void *)a, (w + 7) / 8); return C(v & mask(w)); } }
  return loadObj(o, a, w);
}
static inline void store(u64 a, V v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = findObj(a, n); if (!o) memErr("out-of-bounds write", a, n);
  if (o->kind == K_CONSTG) memErr("write to constant", a, n);
  if (o->init) memset(o->init + (a - o->base), 1, n);
  if (!v.e) { if (o->sym) memset(o->sym + (a - o->base), 0, n * sizeof(Ex *));
    switch (w) { case 8: *(u8 *)a = v.c; break; case 16: *(uint16_t *)a = v.c; break; case 32: *(u32 *)a = v.c; break; case 64: *(u64 *)a = v.c; break; default: memcpy((void *)a, &v.c, n); }
    return; }
  Ex *e = v.e; if (e->w < n * 8) e = mkZext(e, n * 8);
  for (unsigned i = 0; i < n; i++) stByte(o, a + i, S(mkExtractRaw(e, i * 8 + 7, i * 8)));
}
static void freeObj(u64 a) { if (!a) return; Obj *o = nullptr; u32 id = a - LO < SPAN ? objid[(a - LO) >> 4] : 0; if (id) o = &objs[id];
  if (!o || o->base != a || o->dead) memErr("bad free", a, 0); o->dead = true; }

// ---------------------------------------------------------------- solver
static Z3_context zc; static Z3_solver zs; static Z3_sort zsort[65];
static std::vector<Ex *> pc; static std::unordered_set<Ex *> known;
static std::vector<u64> model; static u32 epoch = 1;
static u64 nq; static double qs;
static inline Z3_ast K(Z3_ast a) { Z3_inc_ref(zc, a); return a; }
static Z3_ast bv1one, bv1zero;
static Z3_ast bool2bv(Z3_ast b) { return Z3_mk_ite(zc, b, bv1one, bv1zero); }
static Z3_sort sortOf(unsigned w) { if (!zsort[w]) { zsort[w] = Z3_mk_bv_sort(zc, w); Z3_inc_ref(zc, Z3_sort_to_ast(zc, zsort[w])); } return zsort[w]; }
static Z3_ast toZ(Ex *e);
static std::vector<Ex *> zvars;
static Z3_ast toBool(Ex *e) { // width 1 -> Bool
  if (e->zb) return e->zb;
  Z3_ast r;
  switch (e->op) {
  case O_EQ: r = Z3_mk_eq(zc, toZ(e->a), toZ(e->b)); break;
  case O_ULT: r = Z3_mk_bvult(zc, toZ(e->a), toZ(e->b)); break;
  case O_ULE: r = Z3_mk_bvule(zc, toZ(e->a), toZ(e->b)); break;
  case O_SLT: r = Z3_mk_bvslt(zc, toZ(e->a), toZ(e->b)); break;
  case O_SLE: r = Z3_mk_bvsle(zc, toZ(e->a), toZ(e->b)); break;
  case O_AND: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_and(zc, 2, a); break; }
  case O_OR: { Z3_ast a[2] = {toBool(e->a), toBool(e->b)}; r = Z3_mk_or(zc, 2, a); break; }
  case O_NOT: r = Z3_mk_not(zc, toBool(e->a)); break;
  case O_CONST: r = e->val ? Z3_mk_true(zc) : Z3_mk_false(zc); break;
  default: r = Z3_mk_eq(zc, toZ(e), bv1one); break;
  }
  return e->zb = K(r);
}
static Z3_ast toZ(Ex *e) {
  if (e->z) return e->z;
  Z3_ast r; sortOf(e->w);
  switch (e->op) {
  case O_CONST: r = Z3_mk_unsigned_int64(zc, e->val, sortOf(e->w)); break;
  case O_VAR: r = Z3_mk_const(zc, Z3_mk_string_symbol(zc, vars[e->val].name.c_str()), sortOf(e->w)); zvars.push_back(e); break;
  case O_CONCAT: r = Z3_mk_concat(zc, toZ(e->a), toZ(e->b)); break;
  case O_EXTRACT: r = Z3_mk_extract(zc, e->lo + e->w - 1, e->lo, toZ(e->a)); break;
  case O_SEXT: r = Z3_mk_sign_ext(zc, e->w - e->a->w, toZ(e->a)); break;
  case O_ADD: r = Z3_mk_bvadd(zc, toZ(e->a), toZ(e->b)); break;
  case O_MUL: r = Z3_mk_bvmul(zc, toZ(e->a), toZ(e->b)); break;
  case O_UDIV: r = Z3_mk_bvudiv(zc, toZ(e->a), toZ(e->b)); break;
  case O_SDIV: r = Z3_mk_bvsdiv(zc, toZ(e->a), toZ(e->b)); break;
  case O_UREM: r = Z3_mk_bvurem(zc, toZ(e->a), toZ(e->b)); break;
  case O_SREM: r = Z3_mk_bvsrem(zc, toZ(e->a), toZ(e->b)); break;
  case O_AND: r = e->w == 1 ? bool2bv(toBool(e)) : Z3_mk_bvand(zc, toZ(e->a), toZ(e->b)); break;
  case O_OR: r = e->w == 1 ? bool2bv(toBool(e)) : Z3_mk_bvor(zc, toZ(e->a), toZ(e->b)); break;
  case O_XOR: r = Z3_mk_bvxor(zc, toZ(e->a), toZ(e->b)); break;
  case O_SHL: r = Z3_mk_bvshl(zc, toZ(e->a), toZ(e->b)); break;
  case O_LSHR: r = Z3_mk_bvlshr(zc, toZ(e->a), toZ(e->b)); break;
  case O_ASHR: r = Z3_mk_bvashr(zc, toZ(e->a), toZ(e->b)); break;
  case O_ITE: r = Z3_mk_ite(zc, toBool(e->a), toZ(e->b), toZ(e->c)); break;
  case O_NOT: r = e->w == 1 ? bool2bv(toBool(e)) : Z3_mk_bvnot(zc, toZ(e->a)); break;
  default: r = bool2bv(toBool(e)); break;
  }
  Z3_inc_ref(zc, r); e->z = r; return r;
}
u64 foldBin(Op op, u64 x, u64 y, unsigned w);
static u64 evalM(Ex *e) {
  if (e->op == O_CONST) return e->val;
  if (e->mepoch == epoch) return e->mv;
  u64 r;
  switch (e->op) {
  case O_VAR: r = e->val < model.size() ? model[e->val] & mask(e->w) : 0; break;
  case O_CONCAT: r = (evalM(e->a) << e->b->w) | evalM(e->b); break;
  case O_EXTRACT: r = (evalM(e->a) >> e->lo) & mask(e->w); break;
  case O_SEXT: r = (u64)sx(evalM(e->a), e->a->w) & mask(e->w); break;
  case O_ITE: r = evalM(e->a) ? evalM(e->b) : evalM(e->c); break;
  case O_NOT: r = ~evalM(e->a) & mask(e->w); break;
  default: r = foldBin(e->op, evalM(e->a), evalM(e->b), e->a->w);
  }
  e->mepoch = epoch; e->mv = r; return r;
}
static std::vector<u64> lastModel;
static void zerr(Z3_context c, Z3_error_code e) { endPath("engine", std::string("z3 error: ") + Z3_get_error_msg(c, e)); }
static void solverInit() {
  Z3_config cfg = Z3_mk_config(); zc = Z3_mk_context_rc(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(zc, zerr); bv1one = K(Z3_mk_unsigned_int64(zc, 1, sortOf(1))); bv1zero = K(Z3_mk_unsigned_int64(zc, 0, sortOf(1)));
  zs = Z3_mk_solver_for_logic(zc, Z3_mk_string_symbol(zc, "QF_BV")); Z3_solver_inc_ref(zc, zs);
  Z3_params p = Z3_mk_params(zc); Z3_params_inc_ref(zc, p);
  Z3_params_set_uint(zc, p, Z3_mk_string_symbol(zc, "rlimit"), rlimitQ);
  Z3_solver_set_params(zc, zs, p);
}
static size_t asserted = 0;
static int check(Ex *extra) { // 1 sat, 0 unsat, -1 unknown
  double t0 = now();
  for (; asserted < pc.size(); asserted++) Z3_solver_assert(zc, zs, toBool(pc[asserted]));
  Z3_solver_push(zc, zs);
  Z3_solver_assert(zc, zs, toBool(extra));
  Z3_lbool r = Z3_solver_check(zc, zs);
  if (r == Z3_L_TRUE) {
    Z3_model m = Z3_solver_get_model(zc, zs); Z3_model_inc_ref(zc, m);
    lastModel.assign(vars.size(), 0);
    for (Ex *ve : zvars) { Z3_ast o; if (Z3_model_eval(zc, m, ve->z, true, &o)) { uint64_t v = 0; Z3_get_numeral_uint64(zc, o, &v); lastModel[ve->val] = v; } }
    Z3_model_dec_ref(zc, m);
  }
  Z3_solver_pop(zc, zs, 1);
  double dt = now() - t0; nq++; qs += dt; sh->queries++; sh->solverUs += (u64)(dt * 1e6);
  return r == Z3_L_TRUE ? 1 : r == Z3_L_FALSE ? 0 : -1;
}
static void addPc(Ex *c) { if (c->w == 1 && c->op == O_AND) { addPc(c->a); addPc(c->b); return; }
  if (isC(c)) return; if (known.insert(c).second) pc.push_back(c); }
static bool isChildConcurrent = false; static bool ownSlot = true;
static int curJob = -1;
static bool incomplete = false;
static u32 depth = 0;

static u64 icount = 0, icountBase = 0;
static bool forkPath() { // true in child
  if (sh->abortAll || now() > deadline) endPath("timeout", "time budget exhausted");
  sh->forks++; depth++;
  if (depth > 3000) endPath("limit", "too many decisions on one path");
  if (curJob >= 0 && ++sh->jobPaths[curJob & 65535] > maxJobPaths) endPath("limit", "too many paths in this job");
  int r = sh->running.load(); bool conc = false;
  while (r < sh->maxpar.load()) if (sh->running.compare_exchange_weak(r, r + 1)) { conc = true; break; }
  fflush(stdout);
  pid_t p;
  while ((p = fork()) < 0) usleep(20000);
  if (p == 0) { ownSlot = conc; nq = 0; qs = 0; icountBase = icount; return true; }
  if (!conc) { int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {} if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->abortAll.store(2); }
  return false;
}
static void noteSym();
static bool decide(Ex *c) {
  if (isC(c)) return c->val;
  if (known.count(c)) return true;
  Ex *nc = mkNot(c);
  if (known.count(nc)) return false;
  bool mv = evalM(c) != 0; noteSym();
  Ex *other = mv ? nc : c;
  int r = check(other);
  if (r == 0) { known.insert(mv ? c : nc); return mv; }
  if (r < 0) { sh->unknowns++; endPath("unknown", "solver gave no answer in " + backtrace_()); }
  std::vector<u64> om = lastModel;
  if (forkPath()) { model = om; epoch++; addPc(other); return !mv; }
  addPc(mv ? c : nc);
  return mv;
}
static inline bool truth(V v) { return v.e ? decide(v.e) : v.c & 1; }
static u64 concretize(V v, unsigned w) {
  if (!v.e) return v.c;
  for (;;) { u64 m = evalM(v.e); if (decide(mkBin(O_EQ, v.e, mkConst(m, v.e->w)))) return m; }
}

// symbolic addresses
static V loadSymAddr(Ex *ad, unsigned w) {
  unsigned n = (w + 7) / 8;
  u64 a = evalM(ad); u32 id = a - LO < SPAN ? objid[(a - LO) >> 4] : 0;
  if (!id) { concretize(V{0, ad}, 64); memErr("out-of-bounds read (symbolic address)", a, n); }
  Obj *o = &objs[id];
  if (o->size < n || a < o->base || a + n > o->base + o->size || o->dead) { concretize(V{0, ad}, 64); memErr("out-of-bounds read (symbolic address)", a, n); }
  u64 base = o->base;
  Ex *inb = mkBin(O_ULE, mkBin(O_ADD, ad, mkConst(-base, 64)), mkConst(o->size - n, 64));
  if (!decide(inb)) { return loadSymAddr(ad, w); }
  o = &objs[id];
  // candidate addresses
  std::vector<u64> cand;
  u64 span = o->size - n + 1;
  if (span <= 8192) for (u64 i = 0; i < span; i++) { u64 x = base + i; if ((x & ad->k0) == 0 && (~x & ad->k1) == 0) cand.push_back(x); }
  if (cand.empty() || cand.size() > 1100) { u64 x = concretize(V{0, ad}, 64); return load(x, w); }
  // group by value
  std::vector<std::pair<V, std::vector<u64>>> groups; std::map<std::pair<u64, Ex *>, size_t> gi;
  for (u64 x : cand) { V v = loadObj(o, x, w); auto k = std::make_pair(v.e ? 0 : v.c, v.e); auto it = gi.find(k);
    if (it == gi.end()) { gi[k] = groups.size(); groups.push_back({v, {x}}); } else groups[it->second].second.push_back(x); }
  size_t big = 0; for (size_t i = 0; i < groups.size(); i++) if (groups[i].second.size() > groups[big].second.size()) big = i;
  Ex *r = X(groups[big].first, w);
  for (size_t i = 0; i < groups.size(); i++) { if (i == big) continue;
    Ex *cnd = 0; auto &xs = groups[i].second;
    for (size_t k = 0; k < xs.size();) { size_t j = k; while (j + 1 < xs.size() && xs[j + 1] == xs[j] + 1) j++;
      Ex *t = j == k ? mkBin(O_EQ, ad, mkConst(xs[k], 64)) : mkBin(O_ULE, mkBin(O_ADD, ad, mkConst(-xs[k], 64)), mkConst(xs[j] - xs[k], 64));
      cnd = cnd ? mkBin(O_OR, cnd, t) : t; k = j + 1; }
    r = mkIte(cnd, X(groups[i].first, w), r); }
  return S(r);
}
static V loadV(V a, unsigned w) { return a.e ? loadSymAddr(a.e, w) : load(a.c, w); }

// ---------------------------------------------------------------- IR, precompiled
enum Code : u8 { I_BIN, I_SUB, I_ICMP, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_SELECT, I_BR, I_CBR, I_SWITCH, I_RET, I_CALL, I_CALLIND, I_EXT, I_ALLOCA, I_UNREACH,
  I_MEMCPY, I_MEMSET, I_VASTART, I_NOP, I_FPTRUNC, I_FPEXT, I_SITOFP, I_FNEG, I_FCMP, I_MINMAX, I_FSHL, I_ABS, I_LOADREL, I_USUBSAT, I_FBIN, I_EXPECT, I_BSWAP, I_CTPOP, I_CTLZ, I_CTTZ, I_FPTOSI, I_UADDSAT };
struct Edge { int target; std::vector<std::pair<int, int>> phis; }; // dst reg, src operand
struct Fn; 
struct Ins { Code c; u8 w, w2; Op op; u8 sub; bool sw; int d, a, b, x; u32 line; u64 imm; int aux; };
struct GepI { int opnd; i64 scale; u8 w; };
struct SwI { std::vector<std::pair<u64, int>> cases; int def; std::vector<int> edges; };
struct CallI { std::vector<int> args; std::vector<u8> ws; Fn *fn; int ext; int fixed; };
struct Fn { u32 idx = 0; Function *f; std::string name; int nregs = 0; bool ready = false; std::vector<Ins> code; std::vector<V> consts; std::vector<Edge> edges;
  std::vector<std::vector<GepI>> geps; std::vector<SwI> sws; std::vector<CallI> calls; u64 addr; int ext = -1; bool vararg = false; int nargs = 0; u8 retw = 0; bool called = false; };
static std::vector<Fn *> fns; static std::map<const Value *, u64> gaddr; static std::map<const Function *, Fn *> fmap; static std::map<u64, Fn *> faddr; static std::map<std::string, Fn *> fname;
static std::map<std::string, u64> gname;
static Module *M; static const DataLayout *DL;
static const u64 FBASE = 0x10000000;
typedef std::function<V(std::vector<V> &)> Ext;
static std::vector<Ext> exts; static std::map<std::string, int> extIdx;

static V constVal(const Constant *c);
static unsigned widthOf(Type *t) { if (t->isPointerTy()) return 64; if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isVoidTy()) return 0; return 255; }
static V constVal(const Constant *c) {
  if (auto *i = dyn_cast<ConstantInt>(c)) { if (i->getBitWidth() > 64) endPath("engine", "wide constant"); return C(i->getZExtValue()); }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) return C(0);
  if (auto *f = dyn_cast<ConstantFP>(c)) return C(f->getValueAPF().bitcastToAPInt().getZExtValue());
  if (auto *f = dyn_cast<Function>(c)) return C(fmap[f]->addr);
  if (auto *g = dyn_cast<GlobalVariable>(c)) return C(gaddr[g]);
  if (auto *ga = dyn_cast<GlobalAlias>(c)) return constVal(ga->getAliasee());
  if (auto *e = dyn_cast<ConstantExpr>(c)) {
    unsigned w = widthOf(e->getType());
    switch (e->getOpcode()) {
    case Instruction::GetElementPtr: { APInt off(64, 0); if (!cast<GEPOperator>(e)->accumulateConstantOffset(*DL, off)) break; return C(constVal(e->getOperand(0)).c + off.getZExtValue()); }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: return C(constVal(e->getOperand(0)).c & mask(w));
    case Instruction::Trunc: return C(constVal(e->getOperand(0)).c & mask(w));
    case Instruction::Sub: return C((constVal(e->getOperand(0)).c - constVal(e->getOperand(1)).c) & mask(w));
    case Instruction::Add: return C((constVal(e->getOperand(0)).c + constVal(e->getOperand(1)).c) & mask(w));
    default: break; }
  }
  std::string s; raw_string_ostream os(s); c->print(os); endPath("engine", "constant: " + s);
}
static void initMem(u64 a, const Constant *c) {
  Type *t = c->getType();
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *d = dyn_cast<ConstantDataSequential>(c)) { memcpy((void *)a, d->getRawDataValues().data(), d->getRawDataValues().size()); return; }
  if (auto *s = dyn_cast<ConstantStruct>(c)) { auto *sl = DL->getStructLayout(s->getType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(a + sl->getElementOffset(i), s->getOperand(i)); return; }
  if (auto *s = dyn_cast<ConstantArray>(c)) { u64 es = DL->getTypeAllocSize(s->getType()->getElementType()); for (unsigned i = 0; i < s->getNumOperands(); i++) initMem(a + i * es, s->getOperand(i)); return; }
  V v = constVal(c); memcpy((void *)a, &v.c, DL->getTypeStoreSize(t));
}

struct Frame { Fn *fn; std::vector<V> regs; int pcI; u64 stackMark; std::vector<u32> allocas; u64 vargs; int retReg; };
static std::vector<Frame *> stack; static std::vector<Frame *> framePool;

static void noteSym() { if (!stack.empty()) sh->fnSym[stack.back()->fn->idx] = 1; }
static void compile(Fn *F) {
  F->ready = true; Function *f = F->f;
  std::map<const Value *, int> reg; std::map<const Constant *, int> cidx; std::map<const BasicBlock *, int> bbStart;
  int n = 0; for (auto &a : f->args()) reg[&a] = n++; F->nargs = n;
  for (auto &bb : *f) for (auto &i : bb) if (!i.getType()->isVoidTy()) reg[&i] = n++;
  F->nregs = n;
  auto opnd = [&](const Value *v) -> int {
    if (auto *c = dyn_cast<Constant>(v)) { auto it = cidx.find(c); if (it != cidx.end()) return it->second; int k = ~(int)F->consts.size(); F->consts.push_back(constVal(c)); cidx[c] = k; return k; }
    if (isa<MetadataAsValue>(v)) return ~0; 
    auto it = reg.find(v); if (it == reg.end()) endPath("engine", "operand in " + F->name); return it->second; };
  F->consts.push_back(C(0));
  std::vector<std::pair<int, const BasicBlock *>> fix; // edge index -> bb
  auto edge = [&](const BasicBlock *from, const BasicBlock *to) { int k = F->edges.size(); F->edges.push_back({});
    for (auto &p : to->phis()) F->edges[k].phis.push_back({reg[&p], opnd(p.getIncomingValueForBlock(from))});
    fix.push_back({k, to}); return k; };
  for (auto &bb : *f) { bbStart[&bb] = F->code.size();
    for (auto &i : bb) {
      if (isa<PHINode>(i)) continue;
      Ins I{}; I.d = i.getType()->isVoidTy() ? -1 : reg[&i]; I.w = widthOf(i.getType()); if (i.getDebugLoc()) I.line = i.getDebugLoc().getLine();
      if (auto *b = dyn_cast<BinaryOperator>(&i)) { I.a = opnd(b->getOperand(0)); I.b = opnd(b->getOperand(1)); I.c = I_BIN;
        switch (b->getOpcode()) { case Instruction::Add: I.op = O_ADD; break; case Instruction::Sub: I.c = I_SUB; break; case Instruction::Mul: I.op = O_MUL; break; case Instruction::UDiv: I.op = O_UDIV; break; case Instruction::SDiv: I.op = O_SDIV; break;
          case Instruction::URem: I.op = O_UREM; break; case Instruction::SRem: I.op = O_SREM; break; case Instruction::And: I.op = O_AND; break; case Instruction::Or: I.op = O_OR; break; case Instruction::Xor: I.op = O_XOR; break;
          case Instruction::Shl: I.op = O_SHL; break; case Instruction::LShr: I.op = O_LSHR; break; case Instruction::AShr: I.op = O_ASHR; break;
          case Instruction::FAdd: I.c = I_FBIN; I.sub = 0; break; case Instruction::FSub: I.c = I_FBIN; I.sub = 1; break; case Instruction::FMul: I.c = I_FBIN; I.sub = 2; break; case Instruction::FDiv: I.c = I_FBIN; I.sub = 3; break;
          default: endPath("engine", "binop"); }
      } else if (auto *ic = dyn_cast<ICmpInst>(&i)) { I.c = I_ICMP; I.a = opnd(ic->getOperand(0)); I.b = opnd(ic->getOperand(1)); I.w2 = widthOf(ic->getOperand(0)->getType());
        switch (ic->getPredicate()) { case CmpInst::ICMP_EQ: I.op = O_EQ; break; case CmpInst::ICMP_NE: I.op = O_EQ; I.sub = 1; break; case CmpInst::ICMP_ULT: I.op = O_ULT; break; case CmpInst::ICMP_ULE: I.op = O_ULE; break;
          case CmpInst::ICMP_UGT: I.op = O_ULT; std::swap(I.a, I.b); break; case CmpInst::ICMP_UGE: I.op = O_ULE; std::swap(I.a, I.b); break; case CmpInst::ICMP_SLT: I.op = O_SLT; break; case CmpInst::ICMP_SLE: I.op = O_SLE; break;
          case CmpInst::ICMP_SGT: I.op = O_SLT; std::swap(I.a, I.b); break; case CmpInst::ICMP_SGE: I.op = O_SLE; std::swap(I.a, I.b); break; default: endPath("engine", "icmp"); }
      } else if (auto *l = dyn_cast<LoadInst>(&i)) { I.c = I_LOAD; I.a = opnd(l->getPointerOperand()); if (I.w > 64) endPath("engine", "wide load in " + F->name);
      } else if (auto *s = dyn_cast<StoreInst>(&i)) { I.c = I_STORE; I.a = opnd(s->getPointerOperand()); I.b = opnd(s->getValueOperand()); I.w = widthOf(s->getValueOperand()->getType()); if (I.w > 64) endPath("engine", "wide store in " + F->name);
      } else if (auto *g = dyn_cast<GetElementPtrInst>(&i)) { I.c = I_GEP; I.a = opnd(g->getPointerOperand()); i64 off = 0; std::vector<GepI> gi;
        for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) { Value *ix = it.getOperand();
          if (StructType *st = it.getStructTypeOrNull()) off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue());
          else { i64 es = it.getSequentialElementStride(*DL); if (auto *ci = dyn_cast<ConstantInt>(ix)) off += ci->getSExtValue() * es; else gi.push_back({opnd(ix), es, (u8)widthOf(ix->getType())}); } }
        I.imm = off; I.aux = F->geps.size(); F->geps.push_back(gi);
      } else if (isa<ZExtInst>(i)) { I.c = I_ZEXT; I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType());
      } else if (isa<SExtInst>(i)) { I.c = I_SEXT; I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType());
      } else if (isa<TruncInst>(i)) { I.c = I_TRUNC; I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType());
      } else if (isa<PtrToIntInst>(i) || isa<IntToPtrInst>(i)) { I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType()); I.c = I.w < I.w2 ? I_TRUNC : I.w > I.w2 ? I_ZEXT : I_COPY;
      } else if (isa<BitCastInst>(i) || isa<FreezeInst>(i)) { I.c = I_COPY; I.a = opnd(i.getOperand(0));
      } else if (isa<SelectInst>(i)) { I.c = I_SELECT; I.a = opnd(i.getOperand(1)); I.b = opnd(i.getOperand(2)); I.x = opnd(i.getOperand(0));
      } else if (auto *b = dyn_cast<BranchInst>(&i)) { if (b->isUnconditional()) { I.c = I_BR; I.a = edge(&bb, b->getSuccessor(0)); } else { I.c = I_CBR; I.x = opnd(b->getCondition()); I.a = edge(&bb, b->getSuccessor(0)); I.b = edge(&bb, b->getSuccessor(1)); }
      } else if (auto *s = dyn_cast<SwitchInst>(&i)) { I.c = I_SWITCH; I.x = opnd(s->getCondition()); I.w2 = widthOf(s->getCondition()->getType()); SwI sw; std::map<BasicBlock *, int> em;
        for (auto &c : s->cases()) { auto *t = c.getCaseSuccessor(); if (!em.count(t)) em[t] = edge(&bb, t); sw.cases.push_back({c.getCaseValue()->getZExtValue(), em[t]}); }
        auto *t = s->getDefaultDest(); if (!em.count(t)) em[t] = edge(&bb, t); sw.def = em[t]; I.aux = F->sws.size(); F->sws.push_back(sw);
      } else if (auto *r = dyn_cast<ReturnInst>(&i)) { I.c = I_RET; I.a = r->getReturnValue() ? opnd(r->getReturnValue()) : ~0; I.w = r->getReturnValue() ? 1 : 0;
      } else if (isa<UnreachableInst>(i)) { I.c = I_UNREACH;
      } else if (auto *a = dyn_cast<AllocaInst>(&i)) { I.c = I_ALLOCA; I.imm = DL->getTypeAllocSize(a->getAllocatedType()); I.a = opnd(a->getArraySize()); I.w2 = a->getAlign().value() > 255 ? 0 : a->getAlign().value();
      } else if (isa<FPTruncInst>(i)) { I.c = I_FPTRUNC; I.a = opnd(i.getOperand(0)); } else if (isa<FPExtInst>(i)) { I.c = I_FPEXT; I.a = opnd(i.getOperand(0));
      } else if (isa<SIToFPInst>(i)) { I.c = I_SITOFP; I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType());
      } else if (isa<FPToSIInst>(i) || isa<FPToUIInst>(i)) { I.c = I_FPTOSI; I.a = opnd(i.getOperand(0)); I.w2 = widthOf(i.getOperand(0)->getType());
      } else if (i.getOpcode() == Instruction::FNeg) { I.c = I_FNEG; I.a = opnd(i.getOperand(0));
      } else if (auto *fc = dyn_cast<FCmpInst>(&i)) { I.c = I_FCMP; I.a = opnd(i.getOperand(0)); I.b = opnd(i.getOperand(1)); I.w2 = widthOf(i.getOperand(0)->getType()); I.sub = fc->getPredicate();
      } else if (auto *c = dyn_cast<CallInst>(&i)) {
        Function *cf = c->getCalledFunction(); CallI ci{}; 
        if (cf && cf->isIntrinsic()) {
          for (unsigned k = 0; k < c->arg_size() && k < 3; k++) if (!isa<MetadataAsValue>(c->getArgOperand(k))) (k == 0 ? I.a : k == 1 ? I.b : I.x) = opnd(c->getArgOperand(k));
          switch (cf->getIntrinsicID()) {
          case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::vaend: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: I.c = I_NOP; break;
          case Intrinsic::memcpy: case Intrinsic::memmove: I.c = I_MEMCPY; break; case Intrinsic::memset: I.c = I_MEMSET; break;
          case Intrinsic::vastart: I.c = I_VASTART; break;
          case Intrinsic::smax: I.c = I_MINMAX; I.op = O_SLT; I.sub = 1; break; case Intrinsic::smin: I.c = I_MINMAX; I.op = O_SLT; I.sub = 0; break;
          case Intrinsic::umax: I.c = I_MINMAX; I.op = O_ULT; I.sub = 1; break; case Intrinsic::umin: I.c = I_MINMAX; I.op = O_ULT; I.sub = 0; break;
          case Intrinsic::fshl: I.c = I_FSHL; break; case Intrinsic::fshr: I.c = I_FSHL; I.sub = 1; break; case Intrinsic::abs: I.c = I_ABS; break; case Intrinsic::load_relative: I.c = I_LOADREL; break;
          case Intrinsic::usub_sat: I.c = I_USUBSAT; break; case Intrinsic::uadd_sat: I.c = I_UADDSAT; break; case Intrinsic::expect: I.c = I_COPY; break;
          case Intrinsic::frameaddress: I.c = I_COPY; I.a = ~0; break;
          case Intrinsic::bswap: I.c = I_BSWAP; break; case Intrinsic::ctpop: I.c = I_CTPOP; break; case Intrinsic::ctlz: I.c = I_CTLZ; break; case Intrinsic::cttz: I.c = I_CTTZ; break;
          default: endPath("engine", "intrinsic " + cf->getName().str()); }
        } else {
          for (auto &a : c->args()) { ci.args.push_back(opnd(a)); ci.ws.push_back(widthOf(a->getType())); }
          ci.fixed = c->getFunctionType()->getNumParams(); if (c->getFunctionType()->isVarArg() == false) ci.fixed = ci.args.size();
          if (!cf) { if (auto *f2 = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts())) cf = f2; }
          if (cf) { ci.fn = fmap[cf]; I.c = I_CALL; } else { if (c->isInlineAsm()) endPath("engine", "inline asm"); I.c = I_CALLIND; I.x = opnd(c->getCalledOperand()); }
          I.aux = F->calls.size(); F->calls.push_back(ci);
        }
      } else endPath("engine", std::string("instruction ") + i.getOpcodeName() + " in " + F->name);
      F->code.push_back(I);
    } }
  for (auto &p : fix) F->edges[p.first].target = bbStart[p.second];
}
static std::string backtrace_() { std::string s; int n = 0; for (int i = (int)stack.size() - 1; i >= 0 && n < 8; i--, n++) { Frame *f = stack[i]; s += (n ? " < " : "") + f->fn->name; if (f->pcI >= 0 && f->pcI < (int)f->fn->code.size() && f->fn->code[f->pcI].line) s += ":" + std::to_string(f->fn->code[f->pcI].line); } return s; }

// ---------------------------------------------------------------- files, results
struct GFile { std::string name; std::vector<V> data; };
static std::map<std::string, GFile> fs; // lower-cased name
struct Stream { std::string key; u64 pos; bool wr, eof, open, txt; };
static std::map<u64, Stream> streams; static std::vector<V> console; static std::vector<std::string> removed;
static std::set<std::string> written;
static std::string lower(std::string s) { for (auto &c : s) { c = tolower((u8)c); if (c == '\\') c = '/'; } return s; }

struct Job { std::string id; std::vector<std::string> args; std::vector<std::pair<std::string, std::vector<V>>> files; std::vector<Ex *> assumes; std::vector<u32> vs; u64 maxInstr = 0; };
static std::vector<Job> jobs;
static size_t nJobVars = 0;

static std::string jstr(const std::string &s) { std::string r = "\""; for (u8 c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; } else r += c; } return r + "\""; }
struct Ser { std::unordered_map<Ex *, int> idx; std::string nodes; int n = 0;
  int add(Ex *e) {
    auto it = idx.find(e); if (it != idx.end()) return it->second;
    std::string s;
    char b[128];
    switch (e->op) {
    case O_CONST: snprintf(b, 128, "[\"c\",%u,%llu]", e->w, (unsigned long long)e->val); s = b; break;
    case O_VAR: s = "[\"v\"," + std::to_string(e->w) + "," + jstr(vars[e->val].name) + "]"; break;
    case O_EXTRACT: { int x = add(e->a); snprintf(b, 128, "[\"extract\",%u,%d,%u]", e->w, x, e->lo); s = b; break; }
    case O_ITE: { int x = add(e->a), y = add(e->b), z = add(e->c); snprintf(b, 128, "[\"ite\",%u,%d,%d,%d]", e->w, x, y, z); s = b; break; }
    case O_NOT: case O_SEXT: { int x = add(e->a); snprintf(b, 128, "[\"%s\",%u,%d]", opName[e->op], e->w, x); s = b; break; }
    default: { int x = add(e->a), y = add(e->b); snprintf(b, 128, "[\"%s\",%u,%d,%d]", opName[e->op], e->w, x, y); s = b; } }
    if (n) nodes += ","; nodes += s; idx[e] = n; return n++; }
  std::string bytes(const std::vector<V> &d) { std::string h, y; static const char *hx = "0123456789abcdef"; bool first = true;
    for (size_t i = 0; i < d.size(); i++) { u8 c = d[i].e ? 0 : (u8)d[i].c; h += hx[c >> 4]; h += hx[c & 15]; if (d[i].e) { y += (first ? "[" : ",[") + std::to_string(i) + "," + std::to_string(add(d[i].e)) + "]"; first = false; } }
    return "{\"hex\":\"" + h + "\",\"sym\":[" + y + "]}"; } };
static void emitRecord(const char *status, const std::string &msg, i64 code) {
  Ser s; std::string r = "{\"job\":" + jstr(curJob >= 0 ? jobs[curJob].id : "?") + ",\"status\":\"" + status + "\",\"code\":" + std::to_string(code) + ",\"msg\":" + jstr(msg);
  r += ",\"pc\":["; for (size_t i = 0; i < pc.size(); i++) r += (i ? "," : "") + std::to_string(s.add(pc[i])); r += "]";
  r += ",\"model\":{"; bool f = true; for (size_t i = 0; i < vars.size(); i++) { if (vars[i].name.compare(0, 6, "uninit") == 0 || (curJob >= 0 && i < nJobVars && vars[i].name.compare(0, jobs[curJob].id.size() + 1, jobs[curJob].id + ":"))) continue; u64 v = i < model.size() ? model[i] : 0; r += (f ? "" : ",") + jstr(vars[i].name) + ":[" + std::to_string(v) + "," + std::to_string(vars[i].w) + "]"; f = false; } r += "}";
  r += ",\"console\":" + s.bytes(console) + ",\"files\":{"; f = true;
  for (auto &k : written) { auto it = fs.find(k); if (it == fs.end()) continue; r += (f ? "" : ",") + jstr(it->second.name) + ":" + s.bytes(it->second.data); f = false; }
  r += "},\"removed\":["; for (size_t i = 0; i < removed.size(); i++) r += (i ? "," : "") + jstr(removed[i]); r += "]";
  r += ",\"queries\":" + std::to_string(nq) + ",\"solver_s\":" + std::to_string(qs) + ",\"instrs\":" + std::to_string(icount) + ",\"nodes\":[" + s.nodes + "]}\n";
  flock(outFd, LOCK_EX); size_t o = 0; while (o < r.size()) { ssize_t k = write(outFd, r.data() + o, r.size() - o); if (k <= 0) break; o += k; } flock(outFd, LOCK_UN);
}
[[noreturn]] static void finish() { sh->instrs += icount - icountBase; if (ownSlot) sh->running--; _exit(0); }
static bool ending = false;
[[noreturn]] static void endPath(const char *status, const std::string &msg) {
  if (ending) _exit(3); ending = true;
  if (curJob < 0 && outFd < 0) { fprintf(stderr, "usym: %s: %s\n", status, msg.c_str()); _exit(3); }
  emitRecord(status, msg, -1); finish();
}
[[noreturn]] static void exitPath(i64 code) { emitRecord("exit", "", code); finish(); }

// ---------------------------------------------------------------- libc models
static std::string cstr(V p) { u64 a = concretize(p, 64); std::string s; for (;; a++) { V b = load(a, 8); u8 c = (u8)concretize(b, 8); if (!c) return s; s += (char)c; } }
static std::vector<V> vstr(V p, u64 max = ~0ull) { u64 a = concretize(p, 64); std::vector<V> s; for (; s.size() < max; a++) { V b = load(a, 8); if (!truth(b.e ? S(mkNot(mkBin(O_EQ, b.e, mkConst(0, 8)))) : C(b.c != 0))) return s; s.push_back(b); } return s; }
static void putStr(u64 a, const std::vector<V> &s, bool nul = true) { for (auto &b : s) store(a++, b, 8); if (nul) store(a, C(0), 8); }
static Ex *inRange(Ex *c, u8 lo, u8 hi) { return mkBin(O_ULE, mkBin(O_ADD, c, mkConst(-(u64)lo, c->w)), mkConst(hi - lo, c->w)); }
static V vlower(V b, unsigned w) { if (!b.e) return C(b.c >= 'A' && b.c <= 'Z' ? b.c + 32 : b.c); return S(mkIte(inRange(b.e, 'A', 'Z'), mkBin(O_ADD, b.e, mkConst(32, w)), b.e)); }
static V vupper(V b, unsigned w) { if (!b.e) return C(b.c >= 'a' && b.c <= 'z' ? b.c - 32 : b.c); return S(mkIte(inRange(b.e, 'a', 'z'), mkBin(O_ADD, b.e, mkConst(-32ull, w)), b.e)); }
static V cmpStr(u64 a, u64 b, u64 n, bool ci, bool stopNul) {
  for (u64 i = 0; i < n; i++) { V x = load(a + i, 8), y = load(b + i, 8);
    if (ci) { x = vlower(x, 8); y = vlower(y, 8); }
    if (!x.e && !y.e) { if (x.c != y.c) return C((u32)(x.c < y.c ? -1 : 1)); if (stopNul && !x.c) return C(0); continue; }
    Ex *xe = X(x, 8), *ye = X(y, 8);
    if (!decide(mkBin(O_EQ, xe, ye))) return S(mkIte(mkBin(O_ULT, xe, ye), mkConst((u32)-1, 32), mkConst(1, 32)));
    if (stopNul && decide(mkBin(O_EQ, xe, mkConst(0, 8)))) return C(0); }
  return C(0);
}
static void copyMem(u64 d, u64 s, u64 n) {
  if (!n) return;
  Obj *so = findObj(s, n), *dst_ = findObj(d, n); if (!so) memErr("out-of-bounds read (copy)", s, n); if (!dst_) memErr("out-of-bounds write (copy)", d, n);
  if (dst_->kind == K_CONSTG) memErr("write to constant", d, n);
  u64 si = s - so->base, di = d - dst_->base;
  if (so->sym && !dst_->sym) dst_->sym = (Ex **)calloc(dst_->size, sizeof(Ex *));
  if (dst_->sym) { if (so->sym) memmove(dst_->sym + di, so->sym + si, n * sizeof(Ex *)); else memset(dst_->sym + di, 0, n * sizeof(Ex *)); }
  if (so->init && !dst_->init) { dst_->init = (u8 *)malloc(dst_->size); memset(dst_->init, 1, dst_->size); }
  if (dst_->init) { if (so->init) memmove(dst_->init + di, so->init + si, n); else memset(dst_->init + di, 1, n); }
  memmove((void *)d, (void *)s, n);
}
static void setMem(u64 d, V v, u64 n) { if (!n) return; Obj *o = findObj(d, n); if (!o) memErr("out-of-bounds write (set)", d, n); if (o->kind == K_CONSTG) memErr("write to constant", d, n);
  if (v.e) { for (u64 i = 0; i < n; i++) stByte(o, d + i, v); return; }
  if (o->sym) memset(o->sym + (d - o->base), 0, n * sizeof(Ex *)); if (o->init) memset(o->init + (d - o->base), 1, n); memset((void *)d, (u8)v.c, n); }
static u64 heapAlloc(u64 n, bool zero) { u64 a = allocAt(heapTop, n, K_HEAP, zero); if (heapTop > STACK0 - 0x1000000) endPath("limit", "heap exhausted"); if (!zero) memset((void *)a, 0xCD, n); return a; }

static void symDec(Ex *v, std::vector<V> &out) { // unsigned decimal digits of v
  std::vector<V> d; unsigned w = v->w; u64 p = 1; std::vector<u64> pw; pw.push_back(1);
  for (;;) { // number of digits decided by the path
    unsigned __int128 np = (unsigned __int128)p * 10; if (np > mask(w)) break; if (decide(mkBin(O_ULT, v, mkConst((u64)np, w)))) break; p = (u64)np; pw.push_back(p); }
  for (int i = (int)pw.size() - 1; i >= 0; i--) { Ex *q = mkBin(O_UREM, mkBin(O_UDIV, v, mkConst(pw[i], w)), mkConst(10, w)); out.push_back(S(mkBin(O_ADD, mkExtract(q, 7, 0), mkConst('0', 8)))); }
}
static void symHex(Ex *v, std::vector<V> &out, bool up, unsigned minw) {
  unsigned w = v->w; unsigned nd = 1; while (nd * 4 < w && nd < 16) { if (nd >= minw && decide(mkBin(O_ULT, v, mkConst(1ull << (nd * 4), w)))) break; nd++; }
  for (int i = nd - 1; i >= 0; i--) { unsigned hi = std::min(i * 4 + 3u, w - 1); Ex *n = mkZext(mkExtract(v, hi, i * 4), 8); out.push_back(S(mkIte(mkBin(O_ULT, n, mkConst(10, 8)), mkBin(O_ADD, n, mkConst('0', 8)), mkBin(O_ADD, n, mkConst((up ? 'A' : 'a') - 10, 8))))); }
}
static std::vector<V> format(V fmtp, std::function<V()> next) {
  std::string f = cstr(fmtp); std::vector<V> out;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out.push_back(C((u8)f[i])); continue; }
    i++; if (f[i] == '%') { out.push_back(C('%')); continue; }
    bool left = false, zero = false, plus = false, alt = false; for (;; i++) { if (f[i] == '-') left = true; else if (f[i] == '0') zero = true; else if (f[i] == '+') plus = true; else if (f[i] == '#') alt = true; else if (f[i] == ' ') {} else break; }
    int width = 0, prec = -1;
    if (f[i] == '*') { width = (int)concretize(next(), 32); if (width < 0) { left = true; width = -width; } i++; } else while (isdigit(f[i])) width = width * 10 + f[i++] - '0';
    if (f[i] == '.') { i++; prec = 0; if (f[i] == '*') { prec = (int)concretize(next(), 32); i++; } else while (isdigit(f[i])) prec = prec * 10 + f[i++] - '0'; }
    int sz = 4; for (;;) { if (f[i] == 'l') { i++; if (f[i] == 'l') { sz = 8; i++; } } else if (f[i] == 'h') { i++; sz = 2; if (f[i] == 'h') { sz = 1; i++; } } else if (f[i] == 'I' && f[i + 1] == '6') { sz = 8; i += 3; } else if (f[i] == 'I' && f[i + 1] == '3') { i += 3; } else if (f[i] == 'z' || f[i] == 't' || f[i] == 'j') { sz = 8; i++; } else break; }
    std::vector<V> piece; char k = f[i]; bool num = true;
    switch (k) {
    case 'd': case 'i': case 'u': { V v = next(); unsigned w = sz * 8; Ex *e = v.e ? (v.e->w > w ? mkExtract(v.e, w - 1, 0) : v.e) : 0; if (e && isC(e)) { v = C(e->val); e = 0; }
      if (!e) { char b[40]; u64 x = v.c & mask(w); if (k != 'u') snprintf(b, 40, plus ? "%+lld" : "%lld", (long long)sx(x, w)); else snprintf(b, 40, "%llu", (unsigned long long)x); std::string t = b; std::string sg; if (t[0] == '-' || t[0] == '+') { sg = t[0]; t = t.substr(1); } while ((int)t.size() < prec) t = "0" + t; if (zero && !left && prec < 0) while ((int)(t.size() + sg.size()) < width) t = "0" + t; t = sg + t; for (u8 c : t) piece.push_back(C(c)); }
      else { if (k != 'u' && decide(mkExtract(e, w - 1, w - 1))) { piece.push_back(C('-')); e = mkSub(mkConst(0, w), e); if (isC(e)) { for (char c : std::to_string(e->val)) piece.push_back(C((u8)c)); break; } } std::vector<V> dd; symDec(e, dd); int tot = (int)(piece.size() + dd.size()); if (zero && !left) for (; tot < width; tot++) piece.push_back(C('0')); for (int q = dd.size(); q < prec; q++) piece.push_back(C('0')); for (auto &x : dd) piece.push_back(x); }
      break; }
    case 'x': case 'X': { V v = next(); unsigned w = sz * 8; if (!v.e || (v.e = (v.e->w > w ? mkExtract(v.e, w - 1, 0) : v.e), isC(v.e) && (v.c = v.e->val, v.e = 0, true))) { char b[40]; snprintf(b, 40, k == 'x' ? "%llx" : "%llX", (unsigned long long)(v.c & mask(w))); std::string t = b; while ((int)t.size() < prec) t = "0" + t; if (zero && !left && prec < 0) while ((int)t.size() < width) t = "0" + t; if (alt && v.c) t = (k == 'x' ? "0x" : "0X") + t; for (u8 c : t) piece.push_back(C(c)); }
      else symHex(v.e, piece, k == 'X', std::max(prec, zero ? width : 0)); break; }
    case 'c': { V v = next(); if (v.e && v.e->w > 8) v = S(mkExtract(v.e, 7, 0)); else if (!v.e) v.c &= 255; piece.push_back(v); num = false; break; }
    case 's': { V v = next(); num = false; if (!v.e && v.c == 0) { for (char c : std::string("(null)")) piece.push_back(C((u8)c)); } else piece = vstr(v, prec >= 0 ? prec : ~0ull); break; }
    case 'p': { V v = next(); char b[40]; snprintf(b, 40, "%016llX", (unsigned long long)v.c); for (char *q = b; *q; q++) piece.push_back(C((u8)*q)); break; }
    case 'f': case 'g': case 'e': case 'E': case 'G': { V v = next(); u64 x = concretize(v, 64); double dv; memcpy(&dv, &x, 8); char b[512], ff[16]; snprintf(ff, 16, prec >= 0 ? "%%.%d%c" : "%%%.0d%c", prec >= 0 ? prec : 0, k); if (prec < 0) snprintf(ff, 16, "%%%c", k); snprintf(b, 512, ff, dv); for (char *q = b; *q; q++) piece.push_back(C((u8)*q)); break; }
    default: endPath("engine", "format " + f); }
    (void)num;
    if (!left) for (int q = piece.size(); q < width; q++) out.push_back(C(' '));
    for (auto &x : piece) out.push_back(x);
    if (left) for (int q = piece.size(); q < width; q++) out.push_back(C(' '));
  }
  return out;
}
static std::function<V()> vaNext(u64 ap) { auto p = std::make_shared<u64>(ap); return [p]() { V v = load(*p, 64); *p += 8; return v; }; }
static std::function<V()> vecNext(std::vector<V> &a, size_t from) { auto p = std::make_shared<size_t>(from); return [&a, p]() { return a[(*p)++]; }; }

static void outStream(u64 f, const std::vector<V> &d) {
  auto it = streams.find(f); if (it == streams.end()) memErr("bad FILE*", f, 0);
  Stream &s = it->second; if (!s.open) memErr("closed FILE*", f, 0);
  if (s.key == "<con>") { for (auto &b : d) console.push_back(b); return; }
  auto &dat = fs[s.key].data;
  for (auto &b0 : d) { V b = b0; if (s.txt && !b.e && b.c == '\n') { if (s.pos >= dat.size()) dat.resize(s.pos + 1, C(0)); dat[s.pos++] = C('\r'); } if (s.pos >= dat.size()) dat.resize(s.pos + 1, C(0)); dat[s.pos++] = b; }
}
static u64 stdh[3]; static u64 errnoAddr, pgmAddr, tmAddr, termAddr;
static u64 fixedTime = 1500000000;
static V callFn(u64 addr, std::vector<V> args);

struct JmpTarget { size_t depth; int pcI; int reg; };
static std::map<u64, JmpTarget> jmps;
static std::function<void()> snapshotHook; static bool snapped = false;
static void snap() { if (!snapped) { snapped = true; if (snapshotHook) snapshotHook(); } }

static void reg(const char *n, Ext f) { extIdx[n] = exts.size(); exts.push_back(f); }
static V b2i(bool b) { return C(b ? 1 : 0); }
static V classOf(V c, std::initializer_list<std::pair<int, int>> rs) { if (c.e) { Ex *r = mkConst(0, 1); for (auto &p : rs) r = mkBin(O_OR, r, inRange(c.e, p.first, p.second)); return S(mkZext(r, 32)); } for (auto &p : rs) if ((i64)(int)c.c >= p.first && (i64)(int)c.c <= p.second) return C(1); return C(0); }
static void regExts() {
  typedef std::vector<V> &A;
  auto cz = [](V v, unsigned w = 64) { return concretize(v, w); };
  reg("malloc", [=](A a) { return C(heapAlloc(cz(a[0]), false)); });
  reg("calloc", [=](A a) { return C(heapAlloc(cz(a[0]) * cz(a[1]), true)); });
  reg("free", [=](A a) { freeObj(cz(a[0])); return C(0); });
  reg("realloc", [=](A a) { u64 n = cz(a[1]), p = cz(a[0]), q = heapAlloc(n, false); if (p) { Obj *o = findObj(p, 0); if (!o) memErr("bad realloc", p, 0); copyMem(q, p, std::min(n, o->size)); freeObj(p); } return C(q); });
  reg("VirtualAlloc", [=](A a) { return C(heapAlloc(cz(a[1]), true)); });
  reg("VirtualFree", [=](A a) { freeObj(cz(a[0])); return C(1); });
  reg("strlen", [=](A a) { u64 p = cz(a[0]), q = p; for (;; q++) { V b = load(q, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) return C(q - p); } });
  reg("strcpy", [=](A a) { u64 d = cz(a[0]), s = cz(a[1]); for (;; d++, s++) { V b = load(s, 8); store(d, b, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) return a[0]; } });
  reg("strcat", [=](A a) { u64 d = cz(a[0]), s = cz(a[1]); for (;; d++) { V b = load(d, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) break; } for (;; d++, s++) { V b = load(s, 8); store(d, b, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) return a[0]; } });
  reg("strncpy", [=](A a) { u64 d = cz(a[0]), s = cz(a[1]), n = cz(a[2]); bool end = false; for (u64 i = 0; i < n; i++) { V b = end ? C(0) : load(s + i, 8); store(d + i, b, 8); if (!end && (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c)) end = true; } return a[0]; });
  reg("strcmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), ~0ull, false, true); });
  reg("strncmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), cz(a[2]), false, true); });
  reg("_stricmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), ~0ull, true, true); });
  reg("_strnicmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), cz(a[2]), true, true); });
  reg("memcmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), cz(a[2]), false, false); });
  reg("_memicmp", [=](A a) { return cmpStr(cz(a[0]), cz(a[1]), cz(a[2]), true, false); });
  reg("memcpy", [=](A a) { copyMem(cz(a[0]), cz(a[1]), cz(a[2])); return a[0]; });
  reg("memmove", [=](A a) { copyMem(cz(a[0]), cz(a[1]), cz(a[2])); return a[0]; });
  reg("memset", [=](A a) { V v = a[1]; if (v.e) v = S(mkExtract(v.e, 7, 0)); setMem(cz(a[0]), v, cz(a[2])); return a[0]; });
  reg("memchr", [=](A a) { u64 p = cz(a[0]), n = cz(a[2]); V c = a[1]; Ex *ce = mkExtract(X(c, 32), 7, 0); for (u64 i = 0; i < n; i++) if (decide(mkBin(O_EQ, X(load(p + i, 8), 8), ce))) return C(p + i); return C(0); });
  reg("strchr", [=](A a) { u64 p = cz(a[0]); Ex *ce = mkExtract(X(a[1], 32), 7, 0); for (;; p++) { V b = load(p, 8); if (decide(mkBin(O_EQ, X(b, 8), ce))) return C(p); if (decide(mkBin(O_EQ, X(b, 8), mkConst(0, 8)))) return C(0); } });
  reg("strrchr", [=](A a) { u64 p = cz(a[0]), r = 0; Ex *ce = mkExtract(X(a[1], 32), 7, 0); for (;; p++) { V b = load(p, 8); if (decide(mkBin(O_EQ, X(b, 8), ce))) r = p; if (decide(mkBin(O_EQ, X(b, 8), mkConst(0, 8)))) return C(r); } });
  reg("strstr", [=](A a) { u64 p = cz(a[0]); std::vector<V> n = vstr(a[1]); for (;; p++) { bool ok = true; for (size_t i = 0; i < n.size() && ok; i++) { V b = load(p + i, 8); if (!decide(mkBin(O_EQ, X(b, 8), X(n[i], 8)))) ok = false; } if (ok) return C(p); if (decide(mkBin(O_EQ, X(load(p, 8), 8), mkConst(0, 8)))) return C(0); } });
  reg("_strupr", [=](A a) { u64 p = cz(a[0]); for (;; p++) { V b = load(p, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) return a[0]; store(p, vupper(b, 8), 8); } });
  reg("_strlwr", [=](A a) { u64 p = cz(a[0]); for (;; p++) { V b = load(p, 8); if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, 8))) : !b.c) return a[0]; store(p, vlower(b, 8), 8); } });
  reg("strdup", [=](A a) { auto s = vstr(a[0]); u64 p = heapAlloc(s.size() + 1, false); putStr(p, s); return C(p); }); extIdx["_strdup"] = extIdx["strdup"];
  reg("tolower", [=](A a) { return vlower(a[0], 32); });
  reg("toupper", [=](A a) { return vupper(a[0], 32); });
  reg("isalnum", [=](A a) { return classOf(a[0], {{'0', '9'}, {'A', 'Z'}, {'a', 'z'}}); });
  reg("isalpha", [=](A a) { return classOf(a[0], {{'A', 'Z'}, {'a', 'z'}}); });
  reg("isdigit", [=](A a) { return classOf(a[0], {{'0', '9'}}); });
  reg("isxdigit", [=](A a) { return classOf(a[0], {{'0', '9'}, {'A', 'F'}, {'a', 'f'}}); });
  reg("isspace", [=](A a) { return classOf(a[0], {{9, 13}, {' ', ' '}}); });
  reg("isupper", [=](A a) { return classOf(a[0], {{'A', 'Z'}}); });
  reg("islower", [=](A a) { return classOf(a[0], {{'a', 'z'}}); });
  reg("ispunct", [=](A a) { return classOf(a[0], {{33, 47}, {58, 64}, {91, 96}, {123, 126}}); });
  reg("isprint", [=](A a) { return classOf(a[0], {{32, 126}}); });
  reg("iscntrl", [=](A a) { return classOf(a[0], {{0, 31}, {127, 127}}); });
  reg("atoi", [=](A a) { return C((u32)atoi(cstr(a[0]).c_str())); });
  reg("strtoul", [=](A a) { return C((u32)strtoull(cstr(a[0]).c_str(), 0, cz(a[2], 32))); });
  reg("strtol", [=](A a) { return C((u32)strtoll(cstr(a[0]).c_str(), 0, cz(a[2], 32))); });
  reg("itoa", [=](A a) { char b[80]; u64 v = cz(a[0], 32), r = cz(a[2], 32); int x = (int)v; std::string s; u32 u = r == 10 && x < 0 ? -x : (u32)v; do { s += "0123456789abcdefghijklmnopqrstuvwxyz"[u % r]; u /= r; } while (u); if (r == 10 && x < 0) s += '-'; std::reverse(s.begin(), s.end()); (void)b; u64 d = cz(a[1]); for (char c : s) store(d++, C((u8)c), 8); store(d, C(0), 8); return a[1]; }); extIdx["_itoa"] = extIdx["itoa"];
  reg("__mingw_strtod", [=](A a) { std::string s = cstr(a[0]); char *e; errno = 0; double d = strtod(s.c_str(), &e); if (errno) store(errnoAddr, C(34), 32); u64 p = cz(a[1]); if (p) store(p, C(cz(a[0]) + (e - s.c_str())), 64); u64 v; memcpy(&v, &d, 8); return C(v); }); extIdx["strtod"] = extIdx["__mingw_strtod"];
  reg("__mingw_vsprintf", [=](A a) { auto v = format(a[1], vaNext(cz(a[2]))); putStr(cz(a[0]), v); return C((u32)v.size()); }); extIdx["vsprintf"] = extIdx["__mingw_vsprintf"];
  reg("__mingw_vsnprintf", [=](A a) { auto v = format(a[2], vaNext(cz(a[3]))); u64 n = cz(a[1]); size_t len = v.size(); if (n) { if (v.size() >= n) v.resize(n - 1); putStr(cz(a[0]), v); } return C((u32)len); });
  reg("__mingw_vfprintf", [=](A a) { auto v = format(a[1], vaNext(cz(a[2]))); outStream(cz(a[0]), v); return C((u32)v.size()); });
  reg("__mingw_vprintf", [=](A a) { auto v = format(a[0], vaNext(cz(a[1]))); outStream(stdh[1], v); return C((u32)v.size()); });
  reg("sprintf", [=](A a) { auto v = format(a[1], vecNext(a, 2)); putStr(cz(a[0]), v); return C((u32)v.size()); }); extIdx["__mingw_sprintf"] = extIdx["sprintf"];
  reg("printf", [=](A a) { auto v = format(a[0], vecNext(a, 1)); outStream(stdh[1], v); return C((u32)v.size()); }); extIdx["__mingw_printf"] = extIdx["printf"];
  reg("fprintf", [=](A a) { auto v = format(a[1], vecNext(a, 2)); outStream(cz(a[0]), v); return C((u32)v.size()); }); extIdx["__mingw_fprintf"] = extIdx["fprintf"];
  reg("_snprintf", [=](A a) { auto v = format(a[2], vecNext(a, 3)); u64 n = cz(a[1]); size_t len = v.size(); if (v.size() > n) v.resize(n); putStr(cz(a[0]), v, len < n); return C((u32)len); });
  reg("puts", [=](A a) { auto v = vstr(a[0]); v.push_back(C('\n')); outStream(stdh[1], v); return C(0); });
  reg("putchar", [=](A a) { V v = a[0]; v = v.e ? S(mkExtract(v.e, 7, 0)) : C(v.c & 255); outStream(stdh[1], {v}); return C(0); });
  reg("fputc", [=](A a) { V v = a[0]; v = v.e ? S(mkExtract(v.e, 7, 0)) : C(v.c & 255); outStream(cz(a[1]), {v}); return a[0]; }); extIdx["putc"] = extIdx["fputc"];
  reg("fputs", [=](A a) { outStream(cz(a[1]), vstr(a[0])); return C(0); });
  reg("fwrite", [=](A a) { u64 p = cz(a[0]), n = cz(a[1]) * cz(a[2]); std::vector<V> d; d.reserve(n); if (n) { Obj *o = findObj(p, n); if (!o) memErr("out-of-bounds read (fwrite)", p, n); for (u64 i = 0; i < n; i++) d.push_back(ldByte(o, p + i)); } outStream(cz(a[3]), d); return a[2]; });
  reg("fopen", [=](A a) { snap(); std::string n = cstr(a[0]), m = cstr(a[1]), k = lower(n); bool wr = m[0] == 'w' || m[0] == 'a';
    if (!wr && !fs.count(k)) { store(errnoAddr, C(2), 32); return C(0); }
    if (wr) { fs[k].name = n; if (m[0] == 'w') fs[k].data.clear(); written.insert(k); }
    u64 h = heapAlloc(48, true); streams[h] = Stream{k, 0, wr, false, true, m.find('b') == std::string::npos}; return C(h); });
  reg("fclose", [=](A a) { u64 f = cz(a[0]); auto it = streams.find(f); if (it == streams.end() || !it->second.open) memErr("fclose of bad FILE*", f, 0); it->second.open = false; return C(0); });
  auto rd = [](Stream &s, V &out) -> bool { auto &d = fs[s.key].data; if (s.txt) while (s.pos + 1 < d.size() && !d[s.pos].e && d[s.pos].c == '\r' && !d[s.pos + 1].e && d[s.pos + 1].c == '\n') s.pos++; if (s.pos >= d.size()) { s.eof = true; return false; } out = d[s.pos++]; return true; };
  reg("getc", [=](A a) { u64 f = cz(a[0]); auto it = streams.find(f); if (it == streams.end()) memErr("bad FILE*", f, 0); V v; if (!rd(it->second, v)) return C((u32)-1); return v.e ? S(mkZext(v.e, 32)) : v; }); extIdx["fgetc"] = extIdx["getc"];
  reg("fgets", [=](A a) { u64 f = cz(a[2]), p = cz(a[0]); int n = (int)cz(a[1], 32); auto it = streams.find(f); int i = 0; V v; while (i < n - 1 && rd(it->second, v)) { store(p + i++, v, 8); if (v.e ? decide(mkBin(O_EQ, v.e, mkConst('\n', 8))) : v.c == '\n') break; } if (!i) return C(0); store(p + i, C(0), 8); return C(p); });
  reg("fread", [=](A a) { u64 f = cz(a[3]), p = cz(a[0]), n = cz(a[1]) * cz(a[2]); auto it = streams.find(f); if (it == streams.end()) memErr("bad FILE*", f, 0); u64 i = 0; V v; for (; i < n && rd(it->second, v); i++) store(p + i, v, 8); return C(i / std::max<u64>(1, cz(a[1]))); });
  reg("feof", [=](A a) { return b2i(streams[cz(a[0])].eof); });
  reg("ferror", [=](A a) { return C(0); });
  reg("fflush", [=](A a) { return C(0); });
  reg("setvbuf", [=](A a) { return C(0); });
  reg("ftell", [=](A a) { return C((u32)streams[cz(a[0])].pos); });
  reg("rewind", [=](A a) { auto &s = streams[cz(a[0])]; s.pos = 0; s.eof = false; return C(0); });
  reg("fseek", [=](A a) { auto &s = streams[cz(a[0])]; i64 o = (int)cz(a[1], 32); int w = cz(a[2], 32); s.pos = w == 0 ? o : w == 1 ? s.pos + o : fs[s.key].data.size() + o; s.eof = false; return C(0); });
  reg("remove", [=](A a) { std::string n = cstr(a[0]), k = lower(n); removed.push_back(n); if (!fs.count(k)) return C((u32)-1); fs.erase(k); written.erase(k); return C(0); }); extIdx["_unlink"] = extIdx["remove"];
  reg("_fileno", [=](A a) { return C((u32)cz(a[0])); });
  reg("_chsize", [=](A a) { u64 f = cz(a[0]); auto it = streams.find(f); if (it != streams.end()) fs[it->second.key].data.resize(cz(a[1], 32), C(0)); return C(0); });
  reg("__acrt_iob_func", [=](A a) { return C(stdh[cz(a[0], 32) % 3]); });
  reg("_errno", [=](A a) { return C(errnoAddr); });
  reg("getenv", [=](A a) { return C(0); });
  reg("_getcwd", [=](A a) { u64 p = cz(a[0]); std::vector<V> s; for (char c : std::string("C:\\w")) s.push_back(C((u8)c)); putStr(p, s); return C(p); }); extIdx["getcwd"] = extIdx["_getcwd"];
  reg("_stat64", [=](A a) { snap(); std::string k = lower(cstr(a[0])); if (!fs.count(k)) return C((u32)-1); setMem(cz(a[1]), C(0), 56); return C(0); });
  reg("_findfirst64", [=](A a) { snap(); std::string n = cstr(a[0]), k = lower(n); if (!fs.count(k)) { store(errnoAddr, C(2), 32); return C(~0ull); } size_t s = n.find_last_of("\\/:"); std::string b = s == std::string::npos ? n : n.substr(s + 1); u64 p = cz(a[1]) + 40; for (char c : b) store(p++, C((u8)c), 8); store(p, C(0), 8); return C(1); });
  reg("_findnext64", [=](A a) { return C((u32)-1); });
  reg("_findclose", [=](A a) { return C(0); });
  reg("_time64", [=](A a) { V v = timeSym ? S(mkConcat(mkConst(0, 32), mkConcat(mkConst(0, 1), mkVar("clock", 31)))) : C(fixedTime); u64 p = cz(a[0]); if (p) store(p, v, 64); return v; }); extIdx["time"] = extIdx["_time64"];
  reg("clock", [=](A a) { return timeSym ? S(mkConcat(mkConst(0, 1), mkVar("cputime", 31))) : C(1000); });
  reg("_localtime64", [=](A a) { for (int i = 0; i < 9; i++) { static const int lo[] = {0, 0, 0, 1, 0, 117, 0, 0, 0}; store(tmAddr + i * 4, timeSym ? S(mkZext(mkVar("tm" + std::to_string(i), 5), 32)) : C(lo[i]), 32); } return C(tmAddr); });
  reg("signal", [=](A a) { return C(0); });
  reg("exit", [=](A a) -> V { exitPath((int)cz(a[0], 32)); });
  reg("abort", [=](A a) -> V { endPath("abort", backtrace_()); });
  reg("GetStdHandle", [=](A a) { return C(0); });
  reg("GetConsoleScreenBufferInfo", [=](A a) { return C(0); });
  reg("SetConsoleTextAttribute", [=](A a) { return C(0); });
  reg("qsort", [=](A a) { u64 b = cz(a[0]), n = cz(a[1]), s = cz(a[2]), f = cz(a[3]); u64 t = heapAlloc(s, true);
    for (u64 i = 1; i < n; i++) for (u64 j = i; j > 0; j--) { V r = callFn(f, {C(b + (j - 1) * s), C(b + j * s)}); bool gt = r.e ? decide(mkBin(O_SLT, mkConst(0, 32), r.e)) : (int)r.c > 0; if (!gt) break; copyMem(t, b + j * s, s); copyMem(b + j * s, b + (j - 1) * s, s); copyMem(b + (j - 1) * s, t, s); }
    return C(0); });
  // harness interface (for C harnesses linked with the program)
  reg("usym_symbolic", [=](A a) { u64 p = cz(a[0]), n = cz(a[1]); std::string nm = cstr(a[2]); Obj *o = findObj(p, n); if (!o) memErr("usym_symbolic", p, n); if (n <= 8) { Ex *v = mkVar(nm, n * 8); store(p, V{0, v}, n * 8); } else for (u64 i = 0; i < n; i++) stByte(o, p + i, V{0, mkVar(nm + "." + std::to_string(i), 8)}); return C(0); });
  reg("usym_assume", [=](A a) -> V { V v = a[0]; if (!v.e) { if (!v.c) finish(); return C(0); } Ex *c = mkNot(mkBin(O_EQ, v.e, mkConst(0, v.e->w))); if (isC(c)) { if (!c->val) finish(); return C(0); } int r = check(c); if (r == 0) finish(); if (r < 0) endPath("unknown", "assume"); model = lastModel; epoch++; addPc(c); return C(0); });
  reg("usym_assert", [=](A a) -> V { V v = a[0]; bool ok = v.e ? decide(mkNot(mkBin(O_EQ, v.e, mkConst(0, v.e->w)))) : (v.c & 0xffffffff) != 0; if (!ok) endPath("assert", cstr(a[1])); return C(0); });
}

// ---------------------------------------------------------------- interpreter
static Frame *newFrame(Fn *F) { if (!F->ready) compile(F); Frame *f; if (framePool.empty()) f = new Frame; else { f = framePool.back(); framePool.pop_back(); } f->fn = F; f->regs.assign(F->nregs, C(0)); f->pcI = 0; f->stackMark = stackTop; f->allocas.clear(); f->vargs = 0; f->retReg = -1; F->called = true; return f; }
static void popFrame() { Frame *f = stack.back(); stack.pop_back();
  for (u32 id : f->allocas) { Obj &o = objs[id]; u64 g = (o.base - LO) >> 4, n = (o.size + 15) >> 4; if (!n) n = 1; memset(objid + g, 0, n * 4); free(o.sym); free(o.init); o.sym = 0; o.init = 0; o.dead = true; freeIds.push_back(id); }
  stackTop = f->stackMark; framePool.push_back(f); }
static u64 stackAlloc(Frame *f, u64 n, Kind k, bool inited) { u64 a = allocAt(stackTop, n, k, inited); if (stackTop > LO + SPAN - 0x100000) endPath("limit", "stack overflow in " + backtrace_()); f->allocas.push_back(objid[(a - LO) >> 4]); if (!inited) memset((void *)a, 0xCC, n); return a; }
static void pushCall(Fn *T, CallI *ci, std::vector<V> &args, int retReg) {
  sh->fnRun[T->idx] = 1;
  if (stack.size() > 4000) endPath("limit", "call depth in " + backtrace_());
  Frame *nf = newFrame(T); nf->retReg = retReg;
  for (int i = 0; i < T->nargs && i < (int)args.size(); i++) nf->regs[i] = args[i];
  stack.push_back(nf);
  if (T->vararg) { int n = (int)args.size() - T->nargs; if (n < 0) n = 0; u64 a = stackAlloc(nf, n * 8 + 64, K_VARG, true); memset((void *)a, 0, n * 8 + 64); for (int i = 0; i < n; i++) { V v = args[T->nargs + i]; if (v.e && v.e->w < 64) v.e = mkZext(v.e, 64); store(a + i * 8, v, 64); } nf->vargs = a; }
}
static V run(size_t base);
static V callFn(u64 addr, std::vector<V> args) { auto it = faddr.find(addr); if (it == faddr.end()) memErr("call to bad function pointer", addr, 0); Fn *T = it->second; if (T->f->isDeclaration()) { if (T->ext < 0) endPath("engine", "external " + T->name); return exts[T->ext](args); } size_t b = stack.size(); pushCall(T, nullptr, args, -1); return run(b); }

static void takeEdge(Frame *f, int ei) {
  Edge &e = f->fn->edges[ei]; size_t n = e.phis.size();
  auto get = [&](int o) -> V { return o >= 0 ? f->regs[o] : f->fn->consts[~o]; };
  if (n == 1) f->regs[e.phis[0].first] = get(e.phis[0].second);
  else if (n) { V tmp[64]; std::vector<V> big; V *t = tmp; if (n > 64) { big.resize(n); t = big.data(); } for (size_t i = 0; i < n; i++) t[i] = get(e.phis[i].second); for (size_t i = 0; i < n; i++) f->regs[e.phis[i].first] = t[i]; }
  f->pcI = e.target;
}
static double asD(u64 v) { double d; memcpy(&d, &v, 8); return d; } static float asF(u64 v) { float d; u32 x = v; memcpy(&d, &x, 4); return d; }
static u64 fromD(double d) { u64 v; memcpy(&v, &d, 8); return v; } static u64 fromF(float d) { u32 v; memcpy(&v, &d, 4); return v; }
static V run(size_t base) {
  Frame *f = stack.back();
#define GET(o) ((o) >= 0 ? f->regs[o] : f->fn->consts[~(o)])
  for (;;) {
    Ins &I = f->fn->code[f->pcI];
    if ((++icount & 0xfffff) == 0) { if (icount > maxInstr) endPath("hang", "instruction limit in " + backtrace_()); if (sh->abortAll || now() > deadline) endPath("timeout", "time budget exhausted"); }
    switch (I.c) {
    case I_BIN: { V a = GET(I.a), b = GET(I.b);
      if (I.op >= O_UDIV && I.op <= O_SREM) { if (b.e ? decide(mkBin(O_EQ, b.e, mkConst(0, I.w))) : b.c == 0) endPath("divzero", backtrace_()); 
        if (I.op == O_SDIV || I.op == O_SREM) { Ex *ov = mkBin(O_AND, mkBin(O_EQ, X(b, I.w), mkConst(~0ull, I.w)), mkBin(O_EQ, X(a, I.w), mkConst(1ull << (I.w - 1), I.w))); if (decide(ov)) endPath("divzero", "signed overflow in " + backtrace_()); } }
      if (!a.e && !b.e) { u64 r; switch (I.op) { case O_ADD: r = a.c + b.c; break; case O_AND: r = a.c & b.c; break; case O_OR: r = a.c | b.c; break; case O_XOR: r = a.c ^ b.c; break; default: r = foldBin(I.op, a.c, b.c, I.w); } f->regs[I.d] = C(r & mask(I.w)); }
      else f->regs[I.d] = S(mkBin(I.op, X(a, I.w), X(b, I.w))); break; }
    case I_SUB: { V a = GET(I.a), b = GET(I.b); if (!a.e && !b.e) f->regs[I.d] = C((a.c - b.c) & mask(I.w)); else f->regs[I.d] = S(mkSub(X(a, I.w), X(b, I.w))); break; }
    case I_ICMP: { V a = GET(I.a), b = GET(I.b);
      if (!a.e && !b.e) { u64 r; switch (I.op) { case O_EQ: r = a.c == b.c; break; case O_ULT: r = a.c < b.c; break; case O_ULE: r = a.c <= b.c; break; case O_SLT: r = sx(a.c, I.w2) < sx(b.c, I.w2); break; default: r = sx(a.c, I.w2) <= sx(b.c, I.w2); } f->regs[I.d] = C(r ^ I.sub); }
      else { Ex *r = mkBin(I.op, X(a, I.w2), X(b, I.w2)); if (I.sub) r = mkNot(r); f->regs[I.d] = S(r); } break; }
    case I_LOAD: { V a = GET(I.a); f->regs[I.d] = loadV(a, I.w); break; }
    case I_STORE: { V a = GET(I.a); if (a.e) a = C(concretize(a, 64)); store(a.c, GET(I.b), I.w); break; }
    case I_GEP: { V p = GET(I.a); if (!p.e) p.c += I.imm; else p.e = mkBin(O_ADD, p.e, mkConst(I.imm, 64));
      for (auto &g : f->fn->geps[I.aux]) { V x = GET(g.opnd);
        if (!x.e && !p.e) p.c += (u64)(sx(x.c, g.w) * g.scale);
        else { Ex *xe = x.e ? mkSext(x.e, 64) : mkConst((u64)sx(x.c, g.w), 64); p.e = mkBin(O_ADD, X(p, 64), mkBin(O_MUL, xe, mkConst((u64)g.scale, 64))); if (isC(p.e)) p = C(p.e->val); } }
      if (p.e && isC(p.e)) p = C(p.e->val);
      f->regs[I.d] = p; break; }
    case I_ZEXT: { V a = GET(I.a); if (a.e) a = S(mkZext(a.e, I.w)); f->regs[I.d] = a; break; }
    case I_SEXT: { V a = GET(I.a); if (a.e) a = S(mkSext(a.e, I.w)); else a.c = (u64)sx(a.c, I.w2) & mask(I.w); f->regs[I.d] = a; break; }
    case I_TRUNC: { V a = GET(I.a); if (a.e) a = S(mkExtract(a.e, I.w - 1, 0)); else a.c &= mask(I.w); f->regs[I.d] = a; break; }
    case I_COPY: f->regs[I.d] = GET(I.a); break;
    case I_SELECT: { V c = GET(I.x); if (!c.e) f->regs[I.d] = c.c & 1 ? GET(I.a) : GET(I.b); else f->regs[I.d] = S(mkIte(c.e, X(GET(I.a), I.w), X(GET(I.b), I.w))); break; }
    case I_BR: takeEdge(f, I.a); continue;
    case I_CBR: { V c = GET(I.x); bool t = c.e ? decide(c.e) : c.c & 1; takeEdge(f, t ? I.a : I.b); continue; }
    case I_SWITCH: { V c = GET(I.x); SwI &s = f->fn->sws[I.aux]; int e = s.def;
      if (!c.e) { for (auto &k : s.cases) if (k.first == c.c) { e = k.second; break; } }
      else { // one decision per target
        std::vector<std::pair<int, Ex *>> g;
        for (auto &k : s.cases) { Ex *q = mkBin(O_EQ, c.e, mkConst(k.first, I.w2)); bool found = false; for (auto &x : g) if (x.first == k.second) { x.second = mkBin(O_OR, x.second, q); found = true; break; } if (!found) g.push_back({k.second, q}); }
        for (auto &x : g) if (x.first != s.def && decide(x.second)) { e = x.first; break; } }
      takeEdge(f, e); continue; }
    case I_RET: { V r = GET(I.a); int d = f->retReg; popFrame(); if (stack.size() == base) return r; f = stack.back(); if (d >= 0) f->regs[d] = r; f->pcI++; continue; }
    case I_UNREACH: endPath("unreachable", backtrace_());
    case I_ALLOCA: { u64 n = concretize(GET(I.a), 64) * I.imm; f->regs[I.d] = C(stackAlloc(f, n, K_STACK, false)); break; }
    case I_CALL: case I_CALLIND: { CallI &ci = f->fn->calls[I.aux]; Fn *T = ci.fn;
      if (I.c == I_CALLIND) { u64 a = concretize(GET(I.x), 64); auto it = faddr.find(a); if (it == faddr.end()) memErr("call to bad function pointer", a, 0); T = it->second; }
      std::vector<V> args; args.reserve(ci.args.size()); for (int o : ci.args) args.push_back(GET(o));
      if (T->f->isDeclaration()) {
        if (T->name == "_setjmp") { u64 b = concretize(args[0], 64); jmps[b] = {stack.size(), f->pcI, I.d}; if (I.d >= 0) f->regs[I.d] = C(0); break; }
        if (T->name == "longjmp") { u64 b = concretize(args[0], 64); auto it = jmps.find(b); if (it == jmps.end() || it->second.depth > stack.size() || it->second.depth <= base) endPath("engine", "longjmp"); V v = args[1]; while (stack.size() > it->second.depth) popFrame(); f = stack.back(); f->pcI = it->second.pcI; if (it->second.reg >= 0) f->regs[it->second.reg] = v; break; }
        if (T->ext < 0) endPath("engine", "external function " + T->name);
        V r = exts[T->ext](args); f = stack.back();
        if (I.d >= 0) { if (!r.e) r.c &= mask(I.w); else if (r.e->w > I.w) r = S(mkExtract(r.e, I.w - 1, 0)); f->regs[I.d] = r; }
        break; }
      pushCall(T, &ci, args, I.d); f = stack.back(); continue; }
    case I_MEMCPY: { u64 n = concretize(GET(I.x), 64); if (n) copyMem(concretize(GET(I.a), 64), concretize(GET(I.b), 64), n); break; }
    case I_MEMSET: { u64 n = concretize(GET(I.x), 64); if (n) setMem(concretize(GET(I.a), 64), GET(I.b), n); break; }
    case I_VASTART: store(GET(I.a).c, C(f->vargs), 64); break;
    case I_NOP: break;
    case I_FPTRUNC: f->regs[I.d] = C(fromF((float)asD(concretize(GET(I.a), 64)))); break;
    case I_FPEXT: f->regs[I.d] = C(fromD(asF(concretize(GET(I.a), 32)))); break;
    case I_SITOFP: { i64 v = sx(concretize(GET(I.a), I.w2), I.w2); f->regs[I.d] = C(I.w == 32 ? fromF((float)v) : fromD((double)v)); break; }
    case I_FPTOSI: { u64 v = concretize(GET(I.a), I.w2); f->regs[I.d] = C((u64)(i64)(I.w2 == 32 ? asF(v) : asD(v)) & mask(I.w)); break; }
    case I_FNEG: { V a = GET(I.a); u64 s = 1ull << (I.w - 1); f->regs[I.d] = a.e ? S(mkBin(O_XOR, a.e, mkConst(s, I.w))) : C(a.c ^ s); break; }
    case I_FBIN: { u64 x = concretize(GET(I.a), I.w), y = concretize(GET(I.b), I.w); if (I.w == 64) { double p = asD(x), q = asD(y); f->regs[I.d] = C(fromD(I.sub == 0 ? p + q : I.sub == 1 ? p - q : I.sub == 2 ? p * q : p / q)); } else { float p = asF(x), q = asF(y); f->regs[I.d] = C(fromF(I.sub == 0 ? p + q : I.sub == 1 ? p - q : I.sub == 2 ? p * q : p / q)); } break; }
    case I_FCMP: { u64 x = concretize(GET(I.a), I.w2), y = concretize(GET(I.b), I.w2); double p = I.w2 == 64 ? asD(x) : asF(x), q = I.w2 == 64 ? asD(y) : asF(y); bool un = std::isnan(p) || std::isnan(q), r = false; int pr = I.sub; // bit0 eq, bit1 gt, bit2 lt, bit3 unordered
      r = un ? pr & 8 : p == q ? pr & 1 : p > q ? pr & 2 : pr & 4; f->regs[I.d] = C(r); break; }
    case I_MINMAX: { Ex *a = X(GET(I.a), I.w), *b = X(GET(I.b), I.w); Ex *lt = mkBin(I.op, a, b); f->regs[I.d] = S(I.sub ? mkIte(lt, b, a) : mkIte(lt, a, b)); break; }
    case I_FSHL: { Ex *a = X(GET(I.a), I.w), *b = X(GET(I.b), I.w); V k = GET(I.x); u64 s = concretize(k, I.w) % I.w; Ex *r; if (I.sub == 0) r = s == 0 ? a : mkConcat(mkExtract(a, I.w - 1 - s, 0), mkExtract(b, I.w - 1, I.w - s)); else r = s == 0 ? b : mkConcat(mkExtract(a, s - 1, 0), mkExtract(b, I.w - 1, s)); f->regs[I.d] = S(r); break; }
    case I_ABS: { Ex *a = X(GET(I.a), I.w); f->regs[I.d] = S(mkIte(mkExtract(a, I.w - 1, I.w - 1), mkSub(mkConst(0, I.w), a), a)); break; }
    case I_LOADREL: { V p = GET(I.a), o = GET(I.b); V ad = (!p.e && !o.e) ? C(p.c + o.c) : S(mkBin(O_ADD, X(p, 64), mkSext(X(o, 64), 64))); V v = loadV(ad, 32); f->regs[I.d] = S(mkBin(O_ADD, X(p, 64), mkSext(X(v, 32), 64))); break; }
    case I_USUBSAT: { Ex *a = X(GET(I.a), I.w), *b = X(GET(I.b), I.w); f->regs[I.d] = S(mkIte(mkBin(O_ULT, a, b), mkConst(0, I.w), mkSub(a, b))); break; }
    case I_UADDSAT: { Ex *a = X(GET(I.a), I.w), *b = X(GET(I.b), I.w); Ex *s = mkBin(O_ADD, a, b); f->regs[I.d] = S(mkIte(mkBin(O_ULT, s, a), mkConst(~0ull, I.w), s)); break; }
    case I_BSWAP: { Ex *a = X(GET(I.a), I.w); Ex *r = mkExtract(a, 7, 0); for (unsigned i = 8; i < I.w; i += 8) r = mkConcat(r, mkExtract(a, i + 7, i)); f->regs[I.d] = S(r); break; }
    case I_CTPOP: { Ex *a = X(GET(I.a), I.w); Ex *r = mkConst(0, I.w); for (unsigned i = 0; i < I.w; i++) r = mkBin(O_ADD, r, mkZext(mkExtract(a, i, i), I.w)); f->regs[I.d] = S(r); break; }
    case I_CTLZ: { Ex *a = X(GET(I.a), I.w); Ex *r = mkConst(I.w, I.w); for (unsigned i = 0; i < I.w; i++) r = mkIte(mkExtract(a, i, i), mkConst(I.w - 1 - i, I.w), r); f->regs[I.d] = S(r); break; }
    case I_CTTZ: { Ex *a = X(GET(I.a), I.w); Ex *r = mkConst(I.w, I.w); for (int i = I.w - 1; i >= 0; i--) r = mkIte(mkExtract(a, i, i), mkConst(i, I.w), r); f->regs[I.d] = S(r); break; }
    }
    f->pcI++;
  }
}

// ---------------------------------------------------------------- jobs
struct SX { std::string s; size_t i = 0; 
  void ws() { while (i < s.size() && isspace((u8)s[i])) i++; }
  std::string tok() { ws(); size_t j = i; while (i < s.size() && !isspace((u8)s[i]) && s[i] != '(' && s[i] != ')') i++; return s.substr(j, i - j); }
  Ex *parse() { ws();
    if (s[i] != '(') { std::string t = tok(); auto it = std::find_if(vars.begin(), vars.end(), [&](Var &v) { return v.name == t; }); if (it == vars.end()) { fprintf(stderr, "usym: unknown var %s\n", t.c_str()); exit(2); } return mkVar(t, it->w); }
    i++; std::string o = tok(); Ex *r = 0;
    if (o == "c") { unsigned w = std::stoul(tok()); r = mkConst(std::stoull(tok(), 0, 0), w); }
    else if (o == "extract") { unsigned h = std::stoul(tok()), l = std::stoul(tok()); r = mkExtract(parse(), h, l); }
    else if (o == "zext" || o == "sext") { unsigned w = std::stoul(tok()); Ex *x = parse(); r = o == "zext" ? mkZext(x, w) : mkSext(x, w); }
    else { std::vector<Ex *> k; for (ws(); s[i] != ')'; ws()) k.push_back(parse());
      auto fold = [&](Op op) { Ex *x = k[0]; for (size_t q = 1; q < k.size(); q++) x = mkBin(op, x, k[q]); return x; };
      if (o == "and") r = fold(O_AND); else if (o == "or") r = fold(O_OR); else if (o == "xor") r = fold(O_XOR); else if (o == "add") r = fold(O_ADD); else if (o == "mul") r = fold(O_MUL); else if (o == "sub") r = mkSub(k[0], k[1]); else if (o == "not") r = mkNot(k[0]);
      else if (o == "eq") r = mkBin(O_EQ, k[0], k[1]); else if (o == "ne") r = mkNot(mkBin(O_EQ, k[0], k[1])); else if (o == "ult") r = mkBin(O_ULT, k[0], k[1]); else if (o == "ule") r = mkBin(O_ULE, k[0], k[1]); else if (o == "slt") r = mkBin(O_SLT, k[0], k[1]); else if (o == "sle") r = mkBin(O_SLE, k[0], k[1]);
      else if (o == "ite") r = mkIte(k[0], k[1], k[2]); else if (o == "concat") { r = k[0]; for (size_t q = 1; q < k.size(); q++) r = mkConcat(r, k[q]); } else if (o == "urem") r = mkBin(O_UREM, k[0], k[1]); else if (o == "udiv") r = mkBin(O_UDIV, k[0], k[1]); else if (o == "shl") r = mkBin(O_SHL, k[0], k[1]); else { fprintf(stderr, "usym: bad op %s\n", o.c_str()); exit(2); } }
    ws(); if (s[i] == ')') i++; return r; } };
static void readJobs(const char *path) {
  FILE *f = fopen(path, "r"); if (!f) { perror(path); exit(2); }
  char *line = 0; size_t cap = 0; ssize_t n; Job j; std::vector<V> *cur = 0; std::map<std::string, unsigned> vw;
  while ((n = getline(&line, &cap, f)) > 0) {
    while (n && (line[n - 1] == '\n')) line[--n] = 0;
    std::string l = line; size_t sp = l.find(' '); std::string k = l.substr(0, sp), r = sp == std::string::npos ? "" : l.substr(sp + 1);
    if (k == "job") { j = Job(); j.id = r; cur = 0; vw.clear(); }
    else if (k == "arg") j.args.push_back(r);
    else if (k == "var") { size_t q = r.find(' '); std::string nm = r.substr(0, q); unsigned w = std::stoul(r.substr(q + 1)); mkVar(j.id + ":" + nm, w); vw[nm] = w; j.vs.push_back((u32)vars.size() - 1); }
    else if (k == "maxinstr") j.maxInstr = std::stoull(r);
    else if (k == "assume") { // names are local: prefix them
      std::string o; size_t i = 0; while (i < r.size()) { if (isalpha((u8)r[i]) || r[i] == '_') { size_t q = i; while (q < r.size() && (isalnum((u8)r[q]) || r[q] == '_')) q++; std::string t = r.substr(i, q - i); o += vw.count(t) ? j.id + ":" + t : t; i = q; } else if (isdigit((u8)r[i])) { size_t q = i; while (q < r.size() && isalnum((u8)r[q])) q++; o += r.substr(i, q - i); i = q; } else o += r[i++]; }
      SX s{o}; j.assumes.push_back(s.parse()); }
    else if (k == "file") { j.files.push_back({r, {}}); cur = &j.files.back().second; }
    else if (k == "raw") { for (size_t i = 0; i + 1 < r.size(); i += 2) cur->push_back(C(std::stoul(r.substr(i, 2), 0, 16))); }
    else if (k == "bin") { size_t q = r.find(' '); std::string nm = r.substr(0, q); Ex *v = mkVar(j.id + ":" + nm, vw[nm]); for (int b = v->w - 1; b >= 0; b--) cur->push_back(S(mkConcat(mkConst(0x18, 7), mkExtract(v, b, b)))); }
    else if (k == "byte") { Ex *v = mkVar(j.id + ":" + r, vw[r]); cur->push_back(S(v)); }
    else if (k == "hexd") { Ex *v = mkVar(j.id + ":" + r, vw[r]); for (int b = v->w - 4; b >= 0; b -= 4) { Ex *nb = mkZext(mkExtract(v, b + 3, b), 8); cur->push_back(S(mkIte(mkBin(O_ULT, nb, mkConst(10, 8)), mkBin(O_ADD, nb, mkConst('0', 8)), mkBin(O_ADD, nb, mkConst('a' - 10, 8))))); } }
    else if (k == "expr") { std::string o; size_t i = 0; while (i < r.size()) { if (isalpha((u8)r[i])) { size_t q = i; while (q < r.size() && (isalnum((u8)r[q]) || r[q] == '_')) q++; std::string t = r.substr(i, q - i); o += vw.count(t) ? j.id + ":" + t : t; i = q; } else if (isdigit((u8)r[i])) { size_t q = i; while (q < r.size() && isalnum((u8)r[q])) q++; o += r.substr(i, q - i); i = q; } else o += r[i++]; } SX s{o}; cur->push_back(S(s.parse())); }
    else if (k == "end") jobs.push_back(j);
  }
  free(line); fclose(f);
}
static void crash(int sig) { const char m[] = "usym: engine crash\n"; (void)!write(2, m, sizeof m - 1); _exit(4); }

static void startJob(int ji) {
  curJob = ji; Job &j = jobs[ji]; if (j.maxInstr) maxInstr = j.maxInstr;
  for (auto &f : j.files) { GFile g; g.name = f.first; g.data = f.second; fs[lower(f.first)] = g; }
  // keep only this job's variables: others never occur
  model.assign(vars.size(), 0); icount = 0;
  Ex *all = mkConst(1, 1); for (auto *a : j.assumes) { all = mkBin(O_AND, all, a); }
  if (isC(all)) { if (!all->val) endPath("vacuous", "assumptions are unsatisfiable"); }
  else { int r = check(all); if (r == 0) endPath("vacuous", "assumptions are unsatisfiable"); if (r < 0) endPath("unknown", "assumptions"); model = lastModel; epoch++; addPc(all); }
}
int main(int argc, char **argv) {
  const char *bc = 0, *jf = 0; int par = 8; double tmo = 1e9; const char *entry = "main"; bool list = false; const char *covFile = 0;
  for (int i = 1; i < argc; i++) { std::string a = argv[i];
    if (a == "-bc") bc = argv[++i]; else if (a == "-jobs") jf = argv[++i]; else if (a == "-out") outPath = argv[++i]; else if (a == "-par") par = atoi(argv[++i]); else if (a == "-time") tmo = atof(argv[++i]);
    else if (a == "-entry") entry = argv[++i]; else if (a == "-uninit") uninitMode = 1; else if (a == "-timesym") timeSym = 1; else if (a == "-maxpaths") maxJobPaths = atoi(argv[++i]); else if (a == "-maxinstr") maxInstr = strtoull(argv[++i], 0, 10); else if (a == "-rlimit") rlimitQ = atoi(argv[++i]); else if (a == "-cov") covFile = argv[++i]; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 2; } }
  (void)list;
  setvbuf(stdout, 0, _IOLBF, 0);
  sh = (Shared *)mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  sh->maxpar = par; sh->running = 0; deadline = now() + tmo;
  if (mmap((void *)LO, SPAN, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0) != (void *)LO) { perror("mmap"); return 2; }
  objid = (u32 *)mmap(0, (SPAN >> 4) * 4 + 64, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  objs.reserve(1 << 16); objs.push_back({});
  regExts();
  LLVMContext ctx; SMDiagnostic err; auto mod = parseIRFile(bc, err, ctx); if (!mod) { err.print("usym", errs()); return 2; }
  M = mod.get(); DL = &M->getDataLayout();
  for (auto &F : *M) { Fn *f = new Fn; f->f = &F; f->name = F.getName().str(); f->addr = FBASE + 16 * fns.size(); f->idx = fns.size() & 16383; f->vararg = F.isVarArg(); f->nargs = F.arg_size(); if (F.isDeclaration()) { auto it = extIdx.find(f->name); if (it != extIdx.end()) f->ext = it->second; } fns.push_back(f); fmap[&F] = f; faddr[f->addr] = f; fname[f->name] = f; }
  for (auto &g : M->globals()) { u64 sz = DL->getTypeAllocSize(g.getValueType()); if (g.isDeclaration()) sz = 64; gaddr[&g] = allocAt(globTop, sz, g.isConstant() ? K_CONSTG : K_GLOBAL, true, g.getAlign() ? g.getAlign()->value() : 16); gname[g.getName().str()] = gaddr[&g]; }
  for (auto &g : M->globals()) if (g.hasInitializer()) initMem(gaddr[&g], g.getInitializer());
  for (int i = 0; i < 3; i++) { stdh[i] = allocAt(globTop, 48, K_FILE, true); streams[stdh[i]] = Stream{"<con>", 0, true, false, true, false}; }
  errnoAddr = allocAt(globTop, 4, K_GLOBAL, true); tmAddr = allocAt(globTop, 36, K_GLOBAL, true); termAddr = 0;
  pgmAddr = allocAt(globTop, 16, K_GLOBAL, true); strcpy((char *)pgmAddr, "uasm.exe");
  for (auto n : {"_pgmptr", "__imp__pgmptr"}) if (gname.count(n)) *(u64 *)gname[n] = pgmAddr;
  if (globTop > HEAP0) { fprintf(stderr, "globals too big\n"); return 2; }
  solverInit(); readJobs(jf); nJobVars = vars.size();
  outFd = open(outPath, O_WRONLY | O_CREAT | O_TRUNC | O_APPEND, 0644); if (outFd < 0) { perror(outPath); return 2; }
  signal(SIGSEGV, crash); signal(SIGABRT, crash);
  rlimit rl{512ull << 20, 512ull << 20}; setrlimit(RLIMIT_STACK, &rl);
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  auto *mainF = fname[entry]; if (!mainF) { fprintf(stderr, "no entry %s\n", entry); return 2; }
  // group by command line
  std::map<std::vector<std::string>, std::vector<int>> groups; for (size_t i = 0; i < jobs.size(); i++) groups[jobs[i].args].push_back(i);
  int crashed = 0; auto reap = [&](bool block) { int st; pid_t p; while ((p = waitpid(-1, &st, block ? 0 : WNOHANG)) > 0) { if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crashed++; if (block) return true; } return false; };
  for (auto &g : groups) {
    while (sh->running.load() >= par) { reap(false); usleep(500); }
    sh->running++;
    fflush(stdout);
    pid_t p = fork();
    if (p == 0) {
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      ownSlot = true;
      auto &ids = g.second;
      snapshotHook = [&]() { // run the common start-up once, then one process per job
        for (size_t k = 0; k + 1 < ids.size(); k++) {
          int r; bool conc = false; r = sh->running.load(); while (r < sh->maxpar.load()) if (sh->running.compare_exchange_weak(r, r + 1)) { conc = true; break; }
          pid_t q; while ((q = fork()) < 0) usleep(20000);
          if (q == 0) { ownSlot = conc; startJob(ids[k]); return; }
          if (!conc) { int st; waitpid(q, &st, 0); if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) sh->abortAll.store(2); }
        }
        startJob(ids.back()); };
      std::vector<u64> av; auto mk = [&](const std::string &s) { u64 a = heapAlloc(s.size() + 1, true); memcpy((void *)a, s.c_str(), s.size()); av.push_back(a); };
      mk("uasm.exe"); for (auto &s : g.first) mk(s);
      u64 arr = heapAlloc((av.size() + 1) * 8, true); for (size_t i = 0; i < av.size(); i++) *(u64 *)(arr + i * 8) = av[i];
      if (std::string(entry) != "main") { snap(); }
      std::vector<V> args{C(av.size()), C(arr)}; pushCall(mainF, nullptr, args, -1);
      V r = run(0); if (curJob < 0) { for (int id : ids) { curJob = id; emitRecord("nostart", "program ended before opening its input", -1); } finish(); }
      exitPath((int)concretize(r, 32));
    }
  }
  for (;;) { int st; pid_t p = waitpid(-1, &st, 0); if (p < 0) { if (errno == EINTR) continue; break; } if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) crashed++; }
  printf("{\"jobs\":%zu,\"forks\":%llu,\"queries\":%llu,\"solver_s\":%.3f,\"instrs\":%llu,\"unknowns\":%llu,\"crashed\":%d,\"abort\":%d}\n", jobs.size(), (unsigned long long)sh->forks, (unsigned long long)sh->queries, sh->solverUs / 1e6, (unsigned long long)sh->instrs, (unsigned long long)sh->unknowns, crashed, sh->abortAll.load());
  if (covFile) if (FILE *cf = fopen(covFile, "w")) { for (auto *f : fns) if (sh->fnRun[f->idx]) fprintf(cf, "%s %d\n", f->name.c_str(), sh->fnSym[f->idx]); fclose(cf); }
  return crashed || sh->abortAll ? 5 : 0;
}
