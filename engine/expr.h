// Hash-consed bit-vector expressions (width 1..64) with a concat/extract
// normal form and known-bits simplification.  Part of usym.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>
typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint8_t u8;

enum Op : u8 { O_CONST, O_VAR, O_CONCAT, O_EXTRACT, O_SEXT, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_NOT };
static const char *opName[] = {"const","var","concat","extract","sext","add","mul","udiv","sdiv","urem","srem",
  "and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","ite","not"};

struct Ex {
  Op op; u8 w; u8 lo; u32 id;
  Ex *a, *b, *c; u64 val;     // val: constant value, or variable index
  u64 k0, k1;                 // known-zero / known-one masks
  Z3_ast z, zb; u64 mv; u32 mepoch;
};
static inline u64 mask(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct Key { Op op; u8 w, lo; Ex *a, *b, *c; u64 val;
  bool operator==(const Key &o) const { return op==o.op&&w==o.w&&lo==o.lo&&a==o.a&&b==o.b&&c==o.c&&val==o.val; } };
struct KeyH { size_t operator()(const Key &k) const {
  u64 h = k.op * 0x9E3779B97F4A7C15ull + k.w * 131 + k.lo * 977 + k.val;
  h = (h ^ (u64)k.a) * 0xff51afd7ed558ccdull; h ^= h >> 29; h = (h ^ (u64)k.b) * 0xc4ceb9fe1a85ec53ull; h ^= h >> 31;
  h = (h ^ (u64)k.c) * 0x9E3779B97F4A7C15ull; return h ^ (h >> 32); } };

struct Var { std::string name; unsigned w; };
extern std::vector<Var> vars;
extern u32 exCount;

Ex *mkConst(u64 v, unsigned w);
Ex *mkVar(const std::string &name, unsigned w);
Ex *mkConcat(Ex *hi, Ex *lo);
Ex *mkExtract(Ex *x, unsigned hi, unsigned lo);
Ex *mkExtractRaw(Ex *x, unsigned hi, unsigned lo);
Ex *mkZext(Ex *x, unsigned w);
Ex *mkSext(Ex *x, unsigned w);
Ex *mkBin(Op op, Ex *a, Ex *b);
Ex *mkSub(Ex *a, Ex *b);
Ex *mkNot(Ex *a);
Ex *mkIte(Ex *c, Ex *t, Ex *e);
static inline bool isC(Ex *e) { return e->op == O_CONST; }
