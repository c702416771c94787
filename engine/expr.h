// Hash-consed bit-vector expressions with light-weight simplification.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <cstdio>
#include <cstdlib>
typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint16_t u16;
typedef uint8_t u8;

enum class K : u8 {
  Const, Sym, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
  Eq, Ult, Ule, Slt, Sle, Ite, SExt, Extract, Concat
};

struct Expr {
  K k;
  u16 w;
  u32 lo;  // Extract: low bit, Sym: symbol id
  u32 id;
  const Expr *a, *b, *c;
  u128 val;
  mutable const std::vector<u32> *syms;  // sorted set of symbol ids (lazily computed)
  mutable void *z;                       // cached Z3_ast
  mutable u32 depth;
};
typedef const Expr *E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline i128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (i128)v;
  u128 m = (u128)1 << (w - 1);
  v &= maskw(w);
  return (i128)((v ^ m) - m);
}

E eConst(u128 v, unsigned w);
E eSym(u32 id, unsigned w);
E eBin(K k, E a, E b);  // arithmetic/bitwise, result width = a->w
E eCmp(K k, E a, E b);  // result width 1
E eIte(E c, E a, E b);
E eZExt(E a, unsigned w);
E eSExt(E a, unsigned w);
E eExtract(E a, unsigned lo, unsigned w);
E eConcat(E hi, E lo);
inline E eNot(E a) { return eBin(K::Xor, a, eConst(1, 1)); }
inline E eAnd(E a, E b) { return eBin(K::And, a, b); }
inline E eOr(E a, E b) { return eBin(K::Or, a, b); }
inline E eEq(E a, E b) { return eCmp(K::Eq, a, b); }
inline bool isC(E a) { return a->k == K::Const; }
const std::vector<u32> &symsOf(E e);
u128 foldBin(K k, u128 a, u128 b, unsigned w, bool &ok);
std::string exprStr(E e, int depth = 6);
u64 exprCount();

// Concrete evaluation under a model (values indexed by symbol id).
struct Model {
  std::vector<u64> v;
  u64 get(u32 id) const { return id < v.size() ? v[id] : 0; }
  void set(u32 id, u64 x) {
    if (id >= v.size()) v.resize(id + 1, 0);
    v[id] = x;
  }
};
u128 evalExpr(E e, const Model &m);
