#include "expr.h"
std::vector<Var> vars;
u32 exCount = 0;
static std::unordered_map<Key, Ex *, KeyH> table;
static std::unordered_map<std::string, Ex *> varByName;

static void knownBits(Ex *e) {
  u64 m = mask(e->w); e->k0 = e->k1 = 0;
  switch (e->op) {
  case O_CONST: e->k1 = e->val; e->k0 = ~e->val & m; return;
  case O_CONCAT: e->k1 = (e->a->k1 << e->b->w) | e->b->k1; e->k0 = (e->a->k0 << e->b->w) | e->b->k0; return;
  case O_EXTRACT: e->k1 = (e->a->k1 >> e->lo) & m; e->k0 = (e->a->k0 >> e->lo) & m; return;
  case O_SEXT: { u64 s = 1ull << (e->a->w - 1), up = m & ~mask(e->a->w);
    e->k1 = e->a->k1; e->k0 = e->a->k0; if (e->a->k1 & s) e->k1 |= up; if (e->a->k0 & s) e->k0 |= up; return; }
  case O_AND: e->k1 = e->a->k1 & e->b->k1; e->k0 = e->a->k0 | e->b->k0; return;
  case O_OR: e->k1 = e->a->k1 | e->b->k1; e->k0 = e->a->k0 & e->b->k0; return;
  case O_XOR: e->k1 = (e->a->k1 & e->b->k0) | (e->a->k0 & e->b->k1); e->k0 = (e->a->k0 & e->b->k0) | (e->a->k1 & e->b->k1); return;
  case O_NOT: e->k1 = e->a->k0; e->k0 = e->a->k1; return;
  case O_ITE: e->k1 = e->b->k1 & e->c->k1; e->k0 = e->b->k0 & e->c->k0; return;
  case O_ADD: { // leading zeros, trailing zeros
    u64 amax = m & ~e->a->k0, bmax = m & ~e->b->k0; u64 s = amax + bmax;
    if (s >= amax && s <= m) { // no overflow at all
      int top = s ? 64 - __builtin_clzll(s) : 0; e->k0 = m & ~mask(top); if (top == 0) e->k0 = m; }
    u64 tz = ~(e->a->k0 & e->b->k0); int t = tz ? __builtin_ctzll(tz) : 64; e->k0 |= mask(t) & m; if (t == 0) {} 
    return; }
  case O_MUL: { unsigned __int128 p = (unsigned __int128)(m & ~e->a->k0) * (m & ~e->b->k0);
    if (p <= m) { u64 s = (u64)p; int top = s ? 64 - __builtin_clzll(s) : 0; e->k0 = m & ~(top ? mask(top) : 0); }
    u64 ta = ~e->a->k0, tb = ~e->b->k0; int t = (ta ? __builtin_ctzll(ta) : 64) + (tb ? __builtin_ctzll(tb) : 64);
    if (t > 64) t = 64; if (t) e->k0 |= mask(t) & m; return; }
  case O_UDIV: case O_LSHR: { u64 amax = m & ~e->a->k0; u64 bmin = e->b->k1;
    if (e->op == O_UDIV) { if (bmin) amax /= bmin; else return; }
    else { if (bmin >= e->w) amax = 0; else amax >>= bmin; }
    int top = amax ? 64 - __builtin_clzll(amax) : 0; e->k0 = m & ~(top ? mask(top) : 0); return; }
  case O_UREM: { u64 bmax = m & ~e->b->k0; u64 amax = m & ~e->a->k0; if (e->b->k1) { if (bmax - 1 < amax) amax = bmax - 1; }
    int top = amax ? 64 - __builtin_clzll(amax) : 0; e->k0 = m & ~(top ? mask(top) : 0); return; }
  case O_SHL: { u64 bmax = mask(e->b->w) & ~e->b->k0; u64 amax = m & ~e->a->k0;
    if (bmax < 64) { u64 p = 0; for (u64 s = 0; s <= bmax && s < e->w; s++) if ((s & e->b->k0) == 0 && (~s & e->b->k1) == 0) p |= amax << s; e->k0 = m & ~p; }
    else { int t = amax ? __builtin_ctzll(amax) : 64; if (t) e->k0 = mask(t) & m; }
    return; }
  default: return;
  }
}

static Ex *intern(Op op, unsigned w, Ex *a, Ex *b = 0, Ex *c = 0, u64 val = 0, unsigned lo = 0) {
  Key k{op, (u8)w, (u8)lo, a, b, c, val};
  auto it = table.find(k);
  if (it != table.end()) return it->second;
  static char *arena = 0; static size_t left = 0;
  if (left < sizeof(Ex)) { left = sizeof(Ex) * 512; arena = (char *)malloc(left); }
  Ex *e = (Ex *)arena; arena += sizeof(Ex); left -= sizeof(Ex);
  memset(e, 0, sizeof *e);
  e->op = op; e->w = w; e->lo = lo; e->a = a; e->b = b; e->c = c; e->val = val; e->id = exCount++;
  knownBits(e);
  table.emplace(k, e);
  return e;
}
Ex *mkConst(u64 v, unsigned w) { return intern(O_CONST, w, 0, 0, 0, v & mask(w)); }
Ex *mkVar(const std::string &name, unsigned w) {
  auto it = varByName.find(name); if (it != varByName.end()) return it->second;
  vars.push_back({name, w});
  Ex *e = intern(O_VAR, w, 0, 0, 0, vars.size() - 1);
  varByName[name] = e; return e;
}
// any expression whose bits are all known becomes a constant
static Ex *fin(Ex *e) {
  if (e->op != O_CONST && ((e->k0 | e->k1) & mask(e->w)) == mask(e->w)) return mkConst(e->k1, e->w);
  return e;
}
static Ex *mkExtractRaw2(Ex *x, unsigned hi, unsigned lo) { return hi - lo + 1 == x->w ? x : fin(intern(O_EXTRACT, hi - lo + 1, x, 0, 0, 0, lo)); }
Ex *mkConcat(Ex *hi, Ex *lo) {
  if (isC(hi) && isC(lo)) return mkConst((hi->val << lo->w) | lo->val, hi->w + lo->w);
  if (hi->op == O_CONCAT) return mkConcat(hi->a, mkConcat(hi->b, lo)); // right-nested
  Ex *l0 = lo->op == O_CONCAT ? lo->a : lo; Ex *rest = lo->op == O_CONCAT ? lo->b : 0;
  Ex *m = 0;
  if (isC(hi) && isC(l0)) m = mkConst((hi->val << l0->w) | l0->val, hi->w + l0->w);
  else {
    Ex *xa = hi, *xb = l0; unsigned ah = hi->w - 1, al = 0, bh = l0->w - 1, bl = 0;
    if (hi->op == O_EXTRACT) { xa = hi->a; al = hi->lo; ah = al + hi->w - 1; }
    if (l0->op == O_EXTRACT) { xb = l0->a; bl = l0->lo; bh = bl + l0->w - 1; }
    if (xa == xb && al == bh + 1 && !isC(xa)) m = mkExtractRaw(xa, ah, bl);
    // constant bits next to a slice of x that has just those known bits
    auto kn = [](Ex *x, unsigned h, unsigned l, u64 v) { u64 q = mask(h - l + 1); return h < x->w && (((x->k0 | x->k1) >> l) & q) == q && ((x->k1 >> l) & q) == v; };
    if (!m && isC(hi) && l0->op == O_EXTRACT && kn(xb, bh + hi->w, bh + 1, hi->val)) m = mkExtractRaw2(xb, bh + hi->w, bl);
    if (!m && isC(l0) && hi->op == O_EXTRACT && al >= l0->w && kn(xa, al - 1, al - l0->w, l0->val)) m = mkExtractRaw2(xa, ah, al - l0->w);
    // sign bit replication: extract(x,top,top):... stays as is
  }
  if (m) return rest ? mkConcat(m, rest) : m;
  return fin(intern(O_CONCAT, hi->w + lo->w, hi, lo));
}
// a slice that is not pushed into its operand: slices of one value that are
// put together again give back the value itself
Ex *mkExtractRaw(Ex *x, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == x->w) return x;
  u64 m = mask(w);
  if ((((x->k0 | x->k1) >> lo) & m) == m) return mkConst(x->k1 >> lo, w);
  if (x->op == O_CONST) return mkConst(x->val >> lo, w);
  if (x->op == O_EXTRACT) return mkExtractRaw(x->a, x->lo + hi, x->lo + lo);
  if (x->op == O_CONCAT) { unsigned bw = x->b->w;
    if (hi < bw) return mkExtractRaw(x->b, hi, lo);
    if (lo >= bw) return mkExtractRaw(x->a, hi - bw, lo - bw);
    return mkConcat(mkExtractRaw(x->a, hi - bw, 0), mkExtractRaw(x->b, bw - 1, lo)); }
  return fin(intern(O_EXTRACT, w, x, 0, 0, 0, lo));
}
Ex *mkExtract(Ex *x, unsigned hi, unsigned lo) {
  unsigned w = hi - lo + 1;
  if (w == x->w) return x;
  u64 m = mask(w);
  if ((((x->k0 | x->k1) >> lo) & m) == m) return mkConst(x->k1 >> lo, w);
  switch (x->op) {
  case O_CONST: return mkConst(x->val >> lo, w);
  case O_EXTRACT: return mkExtract(x->a, x->lo + hi, x->lo + lo);
  case O_CONCAT: {
    unsigned bw = x->b->w;
    if (hi < bw) return mkExtract(x->b, hi, lo);
    if (lo >= bw) return mkExtract(x->a, hi - bw, lo - bw);
    return mkConcat(mkExtract(x->a, hi - bw, 0), mkExtract(x->b, bw - 1, lo)); }
  case O_SEXT:
    if (hi < x->a->w) return mkExtract(x->a, hi, lo);
    if (lo < x->a->w) return mkSext(mkExtract(x->a, x->a->w - 1, lo), w);
    return mkSext(mkExtract(x->a, x->a->w - 1, x->a->w - 1), w);
  case O_AND: case O_OR: case O_XOR: return mkBin(x->op, mkExtract(x->a, hi, lo), mkExtract(x->b, hi, lo));
  case O_NOT: return mkNot(mkExtract(x->a, hi, lo));
  case O_ADD: case O_MUL: if (lo == 0) return mkBin(x->op, mkExtract(x->a, hi, 0), mkExtract(x->b, hi, 0)); break;
  case O_ITE: if (isC(x->b) || isC(x->c) || x->b->op == O_CONCAT || x->c->op == O_CONCAT) return mkIte(x->a, mkExtract(x->b, hi, lo), mkExtract(x->c, hi, lo)); break;
  default: break;
  }
  return fin(intern(O_EXTRACT, w, x, 0, 0, 0, lo));
}
Ex *mkZext(Ex *x, unsigned w) { if (x->w == w) return x;
  if (x->op == O_ITE && isC(x->b) && isC(x->c)) return mkIte(x->a, mkZext(x->b, w), mkZext(x->c, w));
  return mkConcat(mkConst(0, w - x->w), x); }
Ex *mkSext(Ex *x, unsigned w) {
  if (x->w == w) return x;
  u64 s = 1ull << (x->w - 1);
  if (isC(x)) return mkConst((u64)sx(x->val, x->w), w);
  if (x->k0 & s) return mkZext(x, w);
  if (x->k1 & s) return mkConcat(mkConst(~0ull, w - x->w), x);
  if (x->op == O_SEXT) return mkSext(x->a, w);
  if (x->op == O_ITE && isC(x->b) && isC(x->c)) return mkIte(x->a, mkSext(x->b, w), mkSext(x->c, w));
  return fin(intern(O_SEXT, w, x));
}
Ex *mkNot(Ex *a) {
  if (isC(a)) return mkConst(~a->val, a->w);
  if (a->op == O_NOT) return a->a;
  if (a->op == O_CONCAT) return mkConcat(mkNot(a->a), mkNot(a->b));
  if (a->w == 1) {
    if (a->op == O_ULT) return mkBin(O_ULE, a->b, a->a);
    if (a->op == O_ULE) return mkBin(O_ULT, a->b, a->a);
    if (a->op == O_SLT) return mkBin(O_SLE, a->b, a->a);
    if (a->op == O_SLE) return mkBin(O_SLT, a->b, a->a);
    if (a->op == O_ITE && (isC(a->b) || isC(a->c))) return mkIte(a->a, mkNot(a->b), mkNot(a->c));
  }
  return fin(intern(O_NOT, a->w, a));
}
Ex *mkIte(Ex *c, Ex *t, Ex *e) {
  if (isC(c)) return c->val ? t : e;
  if (t == e) return t;
  if (c->op == O_NOT) return mkIte(c->a, e, t);
  if (t->w == 1) {
    if (isC(t) && isC(e)) return t->val ? c : mkNot(c);
    if (isC(t)) return t->val ? mkBin(O_OR, c, e) : mkBin(O_AND, mkNot(c), e);
    if (isC(e)) return e->val ? mkBin(O_OR, mkNot(c), t) : mkBin(O_AND, c, t);
  }
  if (t->op == O_ITE && t->a == c) t = t->b;
  if (e->op == O_ITE && e->a == c) e = e->c;
  if (t == e) return t;
  // ite over equal-prefix concats with zero upper part: push in
  return fin(intern(O_ITE, t->w, c, t, e));
}
static u64 sdivv(u64 x, u64 y, unsigned w) { i64 a = sx(x, w), b = sx(y, w); if (b == 0) return a < 0 ? 1 : ~0ull; if (b == -1) return (u64)(-(u64)a); return (u64)(a / b); }
static u64 sremv(u64 x, u64 y, unsigned w) { i64 a = sx(x, w), b = sx(y, w); if (b == 0) return x; if (b == -1) return 0; return (u64)(a % b); }
u64 foldBin(Op op, u64 x, u64 y, unsigned w) {
  u64 m = mask(w);
  switch (op) {
  case O_ADD: return (x + y) & m; case O_MUL: return (x * y) & m;
  case O_UDIV: return y ? x / y : m; case O_UREM: return y ? x % y : x;
  case O_SDIV: return sdivv(x, y, w) & m; case O_SREM: return sremv(x, y, w) & m;
  case O_AND: return x & y; case O_OR: return x | y; case O_XOR: return x ^ y;
  case O_SHL: return y >= w ? 0 : (x << y) & m; case O_LSHR: return y >= w ? 0 : x >> y;
  case O_ASHR: return (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & m;
  case O_EQ: return x == y; case O_ULT: return x < y; case O_ULE: return x <= y;
  case O_SLT: return sx(x, w) < sx(y, w); case O_SLE: return sx(x, w) <= sx(y, w);
  default: abort();
  }
}
static unsigned runs(u64 v, unsigned w) { unsigned n = 1; for (unsigned i = 1; i < w; i++) if (((v >> i) ^ (v >> (i - 1))) & 1) n++; return n; }
// builds a value taking, for each maximal run of equal selector bits, the slice of f(sel)
template <class F> static Ex *slices(u64 sel, unsigned w, F f) {
  Ex *r = 0; unsigned i = 0;
  while (i < w) { unsigned j = i; bool s = (sel >> i) & 1; while (j + 1 < w && (((sel >> (j + 1)) & 1) != 0) == s) j++;
    Ex *p = f(s, j, i); r = r ? mkConcat(p, r) : p; i = j + 1; }
  return r;
}
Ex *mkSub(Ex *a, Ex *b) {
  if (a == b) return mkConst(0, a->w);
  if (isC(b)) return mkBin(O_ADD, a, mkConst(-b->val, b->w));
  // a - b = a + ~b + 1
  if (b->op == O_ADD && b->a == a) { /* a-(a+x) */ return mkSub(mkConst(0, a->w), b->b); }
  if (a->op == O_ADD && a->a == b) return a->b;
  if (a->op == O_ADD && a->b == b) return a->a;
  return mkBin(O_ADD, mkBin(O_ADD, a, mkNot(b)), mkConst(1, a->w));
}
Ex *mkBin(Op op, Ex *a, Ex *b) {
  unsigned w = a->w; u64 m = mask(w);
  bool cmp = op >= O_EQ && op <= O_SLE;
  if (isC(a) && isC(b)) return mkConst(foldBin(op, a->val, b->val, w), cmp ? 1 : w);
  // commutative: constant on the right, else order by id
  if (op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ)
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
  switch (op) {
  case O_ADD:
    if (isC(b)) {
      if (b->val == 0) return a;
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_ADD, a->a, mkConst(a->b->val + b->val, w));
      u64 nc = (-b->val) & m; if ((nc & ~a->k1) == 0) return mkBin(O_AND, a, mkConst(~nc, w));
      if (a->op == O_ITE && isC(a->b) && isC(a->c)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    }
    if (((m & ~a->k0) & (m & ~b->k0)) == 0) return mkBin(O_OR, a, b);
    if (b->op == O_ADD && isC(b->b)) return mkBin(O_ADD, mkBin(O_ADD, a, b->a), b->b);
    if (a->op == O_ADD && isC(a->b) && !isC(b)) return mkBin(O_ADD, mkBin(O_ADD, a->a, b), a->b);
    if (b->op == O_NOT && b->a == a) return mkConst(~0ull, w);
    break;
  case O_MUL:
    if (isC(b)) { if (b->val == 0) return b; if (b->val == 1) return a;
      if ((b->val & (b->val - 1)) == 0) return mkBin(O_SHL, a, mkConst(__builtin_ctzll(b->val), w)); }
    break;
  case O_UDIV: if (isC(b)) { if (b->val == 1) return a; if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_LSHR, a, mkConst(__builtin_ctzll(b->val), w)); 
      if (b->val && (m & ~a->k0) < b->val) return mkConst(0, w); } break;
  case O_UREM: if (isC(b)) { if (b->val && (b->val & (b->val - 1)) == 0) return mkBin(O_AND, a, mkConst(b->val - 1, w)); if (b->val && (m & ~a->k0) < b->val) return a; } break;
  case O_AND:
    if (a == b) return a;
    if (isC(b)) { if (b->val == 0) return b; if (b->val == m) return a;
      if ((~b->val & m & ~a->k0) == 0) return a;
      if (runs(b->val, w) <= 5 || a->op == O_CONCAT) return slices(b->val, w, [&](bool s, unsigned h, unsigned l) { return s ? mkExtract(a, h, l) : mkConst(0, h - l + 1); });
      if (a->op == O_AND && isC(a->b)) return mkBin(O_AND, a->a, mkConst(a->b->val & b->val, w)); }
    if (a == mkNot(b)) return mkConst(0, w);
    if (w > 1 && (a->k0 | b->k0)) { u64 z = (a->k0 | b->k0) & m; if (runs(z, w) <= 5) return slices(z, w, [&](bool s, unsigned h, unsigned l) { return s ? mkConst(0, h - l + 1) : mkBin(O_AND, mkExtract(a, h, l), mkExtract(b, h, l)); }); }
    break;
  case O_OR:
    if (a == b) return a;
    if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return b; 
      if (runs(b->val, w) <= 5 || a->op == O_CONCAT) return slices(b->val, w, [&](bool s, unsigned h, unsigned l) { return s ? mkConst(~0ull, h - l + 1) : mkExtract(a, h, l); }); }
    if (w > 1) {
      u64 az = a->k0 & m, bz = b->k0 & m;
      if ((az | bz) == m) { // every bit comes from one side
        return slices(az, w, [&](bool s, unsigned h, unsigned l) { return s ? mkExtract(b, h, l) : mkExtract(a, h, l); }); }
      if ((az | bz) != 0 && runs(az | bz, w) <= 6) { u64 z = az | bz;
        return slices(z, w, [&](bool s, unsigned h, unsigned l) { Ex *x = mkExtract(a, h, l), *y = mkExtract(b, h, l); 
          if (!s) return mkBin(O_OR, x, y);
          u64 xz = x->k0 & mask(x->w);
          return slices(xz, x->w, [&](bool s2, unsigned h2, unsigned l2) { return s2 ? mkExtract(y, h2, l2) : mkExtract(x, h2, l2); }); }); }
    } else if (a == mkNot(b)) return mkConst(1, 1);
    break;
  case O_XOR:
    if (a == b) return mkConst(0, w);
    if (isC(b)) { if (b->val == 0) return a; if (b->val == m) return mkNot(a);
      if (runs(b->val, w) <= 5) return slices(b->val, w, [&](bool s, unsigned h, unsigned l) { return s ? mkNot(mkExtract(a, h, l)) : mkExtract(a, h, l); }); }
    if (((m & ~a->k0) & (m & ~b->k0)) == 0) return mkBin(O_OR, a, b);
    break;
  case O_SHL: if (isC(b)) { u64 s = b->val; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkConcat(mkExtract(a, w - 1 - s, 0), mkConst(0, s)); } break;
  case O_LSHR: if (isC(b)) { u64 s = b->val; if (s == 0) return a; if (s >= w) return mkConst(0, w); return mkZext(mkExtract(a, w - 1, s), w); } break;
  case O_ASHR: if (isC(b)) { u64 s = b->val; if (s == 0) return a; if (s >= w) s = w - 1; return mkSext(mkExtract(a, w - 1, s), w); } break;
  case O_EQ:
    if (a == b) return mkConst(1, 1);
    if ((a->k1 & b->k0) || (a->k0 & b->k1)) return mkConst(0, 1);
    if (w == 1 && isC(b)) return b->val ? a : mkNot(a);
    if (isC(b)) {
      if (a->op == O_CONCAT) { Ex *lo = mkConst(b->val, a->b->w), *hi = mkConst(b->val >> a->b->w, a->a->w);
        return mkBin(O_AND, mkBin(O_EQ, a->a, hi), mkBin(O_EQ, a->b, lo)); }
      if (a->op == O_ADD && isC(a->b)) return mkBin(O_EQ, a->a, mkConst(b->val - a->b->val, w));
      if (a->op == O_NOT) return mkBin(O_EQ, a->a, mkConst(~b->val, w));
      if (a->op == O_SEXT) { u64 lv = b->val & mask(a->a->w); if (((u64)sx(lv, a->a->w) & m) != b->val) return mkConst(0, 1); return mkBin(O_EQ, a->a, mkConst(lv, a->a->w)); }
      if (a->op == O_ITE && (isC(a->b) || isC(a->c))) {
        return mkIte(a->a, mkBin(O_EQ, a->b, b), mkBin(O_EQ, a->c, b)); }
    } else if (a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w)
      return mkBin(O_AND, mkBin(O_EQ, a->a, b->a), mkBin(O_EQ, a->b, b->b));
    break;
  case O_ULT: {
    if (a == b) return mkConst(0, 1);
    u64 amax = m & ~a->k0, amin = a->k1, bmax = m & ~b->k0, bmin = b->k1;
    if (amax < bmin) return mkConst(1, 1); if (amin >= bmax) return mkConst(0, 1);
    if (isC(b) && b->val == 1) return mkBin(O_EQ, a, mkConst(0, w));
    if (isC(a) && a->val == 0) return mkNot(mkBin(O_EQ, b, a));
    if (a->op == O_CONCAT && isC(a->a)) { // strip a common constant prefix
      if (isC(b) && (b->val >> a->b->w) == a->a->val) return mkBin(O_ULT, a->b, mkConst(b->val, a->b->w));
      if (b->op == O_CONCAT && b->a == a->a) return mkBin(O_ULT, a->b, b->b); }
    if (b->op == O_CONCAT && isC(b->a) && isC(a) && (a->val >> b->b->w) == b->a->val) return mkBin(O_ULT, mkConst(a->val, b->b->w), b->b);
    if (a->op == O_ITE && isC(a->b) && isC(a->c) && isC(b)) return mkIte(a->a, mkBin(op, a->b, b), mkBin(op, a->c, b));
    break; }
  case O_ULE: {
    if (a == b) return mkConst(1, 1);
    u64 amax = m & ~a->k0, amin = a->k1, bmax = m & ~b->k0, bmin = b->k1;
    if (amax <= bmin) return mkConst(1, 1); if (amin > bmax) return mkConst(0, 1);
    if (isC(b)) return mkBin(O_ULT, a, mkConst(b->val + 1, w));   // b->val!=max here
    if (isC(a)) return mkBin(O_ULT, mkConst(a->val - 1, w), b);   // a->val!=0 here
    break; }
  case O_SLT: case O_SLE: {
    if (a == b) return mkConst(op == O_SLE, 1);
    u64 s = 1ull << (w - 1); Op uo = op == O_SLT ? O_ULT : O_ULE;
    if (((a->k0 & s) && (b->k0 & s)) || ((a->k1 & s) && (b->k1 & s))) return mkBin(uo, a, b);
    if ((a->k1 & s) && (b->k0 & s)) return mkConst(1, 1);
    if ((a->k0 & s) && (b->k1 & s)) return mkConst(0, 1);
    if (op == O_SLT && isC(b) && b->val == 0) return mkExtract(a, w - 1, w - 1);
    if (op == O_SLE && isC(b) && b->val == m) return mkExtract(a, w - 1, w - 1);
    if (op == O_SLT && isC(a) && a->val == m) return mkNot(mkExtract(b, w - 1, w - 1));
    if (op == O_SLE && isC(a) && a->val == 0) return mkNot(mkExtract(b, w - 1, w - 1));
    if (a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mkBin(op, a->a, b->a);
    if (a->op == O_SEXT && isC(b)) { unsigned aw = a->a->w; if (((u64)sx(b->val, aw) & m) == b->val) return mkBin(op, a->a, mkConst(b->val, aw)); return mkConst(!(b->val & s), 1); }
    if (b->op == O_SEXT && isC(a)) { unsigned bw = b->a->w; if (((u64)sx(a->val, bw) & m) == a->val) return mkBin(op, mkConst(a->val, bw), b->a); return mkConst((a->val & s) != 0, 1); }
    if (isC(b) && op == O_SLE && b->val != mask(w - 1)) return mkBin(O_SLT, a, mkConst(b->val + 1, w));
    break; }
  default: break;
  }
  return fin(intern(op, cmp ? 1 : w, a, b));
}
