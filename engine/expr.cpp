#include "expr.h"
#include <unordered_set>
#include <unordered_map>
#include <algorithm>
#include <set>
#include <deque>

namespace {
struct Hash {
  size_t operator()(E e) const {
    u64 h = (u64)e->k * 0x9E3779B97F4A7C15ull ^ ((u64)e->w << 32) ^ e->lo;
    auto mix = [&](u64 x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 29; };
    mix(e->a ? e->a->id + 1 : 0);
    mix(e->b ? e->b->id + 1 : 0);
    mix(e->c ? e->c->id + 1 : 0);
    mix((u64)e->val);
    mix((u64)(e->val >> 64));
    return h;
  }
};
struct EqE {
  bool operator()(E x, E y) const {
    return x->k == y->k && x->w == y->w && x->lo == y->lo && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val;
  }
};
std::unordered_set<E, Hash, EqE> table;
std::deque<Expr> pool;
u32 nextId = 0;
E mk(K k, unsigned w, E a, E b, E c, u32 lo = 0, u128 val = 0) {
  Expr t{k, (u16)w, lo, 0, a, b, c, val, nullptr, nullptr, 0};
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  t.id = nextId++;
  t.depth = 1 + std::max(std::max(a ? a->depth : 0, b ? b->depth : 0), c ? c->depth : 0);
  pool.push_back(t);
  E p = &pool.back();
  table.insert(p);
  return p;
}
}  // namespace

u64 exprCount() { return nextId; }

E eConst(u128 v, unsigned w) {
  if (w > 128) {  // wide constants are concatenations
    unsigned hw = w - 128;
    return eConcat(eConst(0, hw), eConst(v, 128));
  }
  return mk(K::Const, w, nullptr, nullptr, nullptr, 0, v & maskw(w));
}
E eSym(u32 id, unsigned w) { return mk(K::Sym, w, nullptr, nullptr, nullptr, id); }

u128 foldBin(K k, u128 a, u128 b, unsigned w, bool &ok) {
  ok = true;
  u128 m = maskw(w);
  a &= m;
  b &= m;
  switch (k) {
    case K::Add: return (a + b) & m;
    case K::Sub: return (a - b) & m;
    case K::Mul: return (a * b) & m;
    case K::UDiv: if (!b) { ok = false; return 0; } return a / b;
    case K::URem: if (!b) { ok = false; return 0; } return a % b;
    case K::SDiv: {
      if (!b) { ok = false; return 0; }
      i128 x = sextw(a, w), y = sextw(b, w);
      if (y == -1) return ((u128)0 - (u128)x) & m;
      return (u128)(x / y) & m;
    }
    case K::SRem: {
      if (!b) { ok = false; return 0; }
      i128 x = sextw(a, w), y = sextw(b, w);
      if (y == -1) return 0;
      return (u128)(x % y) & m;
    }
    case K::And: return a & b;
    case K::Or: return a | b;
    case K::Xor: return a ^ b;
    case K::Shl: return b >= w ? 0 : (a << (unsigned)b) & m;
    case K::LShr: return b >= w ? 0 : a >> (unsigned)b;
    case K::AShr: { i128 x = sextw(a, w); return (u128)(x >> (b >= w ? w - 1 : (unsigned)b)) & m; }
    case K::Eq: return a == b;
    case K::Ult: return a < b;
    case K::Ule: return a <= b;
    case K::Slt: return sextw(a, w) < sextw(b, w);
    case K::Sle: return sextw(a, w) <= sextw(b, w);
    default: ok = false; return 0;
  }
}

static bool iteCC(E e) { return e->k == K::Ite && isC(e->b) && isC(e->c); }

E eIte(E c, E a, E b) {
  if (isC(c)) return c->val ? a : b;
  if (a == b) return a;
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->val ? c : eNot(c);
    if (isC(a)) return a->val ? eOr(c, b) : eAnd(eNot(c), b);
    if (isC(b)) return b->val ? eOr(eNot(c), a) : eAnd(c, a);
  }
  if (c->k == K::Xor && isC(c->b) && c->w == 1) return eIte(c->a, b, a);
  if (a->k == K::Ite && a->a == c) a = a->b;
  if (b->k == K::Ite && b->a == c) b = b->c;
  if (a == b) return a;
  return mk(K::Ite, a->w, c, a, b);
}

// Upper bound of the unsigned value (cheap, bounded depth).
static u128 umaxE(E a, int d = 6) {
  u128 m = maskw(a->w);
  if (d == 0 || a->w > 64) return m;
  switch (a->k) {
    case K::Const: return a->val;
    case K::URem: if (isC(a->b) && a->b->val) return std::min(umaxE(a->a, d - 1), a->b->val - 1); return m;
    case K::UDiv: if (isC(a->b) && a->b->val) return umaxE(a->a, d - 1) / a->b->val; return m;
    case K::And: return std::min(umaxE(a->a, d - 1), umaxE(a->b, d - 1));
    case K::Concat: if (isC(a->a) && !a->a->val) return umaxE(a->b, d - 1); return m;
    case K::Extract: {
      u128 u = umaxE(a->a, d - 1);
      return std::min(m, a->lo < 64 ? u >> a->lo : m);
    }
    case K::Add: {
      u128 u = umaxE(a->a, d - 1) + umaxE(a->b, d - 1);
      return u <= m ? u : m;
    }
    case K::Or: {
      u128 u = umaxE(a->a, d - 1) | umaxE(a->b, d - 1);
      u |= u >> 1; u |= u >> 2; u |= u >> 4; u |= u >> 8; u |= u >> 16; u |= u >> 32;
      return u;
    }
    case K::Ite: return std::max(umaxE(a->b, d - 1), umaxE(a->c, d - 1));
    case K::LShr: if (isC(a->b) && a->b->val < 64) return umaxE(a->a, d - 1) >> (unsigned)a->b->val; return m;
    default: return m;
  }
}
static u128 bitsUpTo(u128 u) {
  u |= u >> 1; u |= u >> 2; u |= u >> 4; u |= u >> 8; u |= u >> 16; u |= u >> 32;
  return u;
}

E eExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->k) {
    case K::Const: return eConst(a->val >> lo, w);
    case K::Extract: return eExtract(a->a, a->lo + lo, w);
    case K::Concat: {
      unsigned bw = a->b->w;
      if (lo + w <= bw) return eExtract(a->b, lo, w);
      if (lo >= bw) return eExtract(a->a, lo - bw, w);
      return eConcat(eExtract(a->a, 0, lo + w - bw), eExtract(a->b, lo, bw - lo));
    }
    case K::SExt:
      if (lo + w <= a->a->w) return eExtract(a->a, lo, w);
      if (lo == 0) return eSExt(a->a, w);
      break;
    case K::Ite:
      if (iteCC(a)) return eIte(a->a, eExtract(a->b, lo, w), eExtract(a->c, lo, w));
      break;
    case K::And: case K::Or: case K::Xor:
      return eBin(a->k, eExtract(a->a, lo, w), eExtract(a->b, lo, w));
    case K::Add: case K::Sub: case K::Mul:
      if (lo == 0) return eBin(a->k, eExtract(a->a, 0, w), eExtract(a->b, 0, w));
      break;
    default: break;
  }
  return mk(K::Extract, w, a, nullptr, nullptr, lo);
}

E eConcat(E h, E l) {
  if (isC(h) && isC(l) && h->w + l->w <= 128) return eConst((h->val << l->w) | l->val, h->w + l->w);
  // right-nested canonical form: h is never a Concat
  if (h->k == K::Concat) return eConcat(h->a, eConcat(h->b, l));
  if (h->k == K::Extract && l->k == K::Extract && h->a == l->a && h->lo == l->lo + l->w)
    return eExtract(h->a, l->lo, h->w + l->w);
  // the low part of a sum is itself a sum: put the two halves together again
  if (h->k == K::Extract && h->lo == l->w && (h->a->k == K::Add || h->a->k == K::Sub || h->a->k == K::Mul) && l == eExtract(h->a, 0, l->w))
    return eExtract(h->a, 0, h->w + l->w);
  if (l->k == K::Concat) {
    E m = l->a;
    if (h->k == K::Extract && m->k == K::Extract && h->a == m->a && h->lo == m->lo + m->w) {
      E j = eExtract(h->a, m->lo, h->w + m->w);
      return eConcat(j, l->b);
    }
    if (isC(h) && isC(m) && h->w + m->w <= 128) return eConcat(eConst((h->val << m->w) | m->val, h->w + m->w), l->b);
  }
  return mk(K::Concat, h->w + l->w, h, l, nullptr);
}

E eZExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (iteCC(a) && w <= 128) return eIte(a->a, eConst(a->b->val, w), eConst(a->c->val, w));
  return eConcat(eConst(0, w - a->w), a);
}
E eSExt(E a, unsigned w) {
  if (a->w == w) return a;
  if (isC(a)) return eConst((u128)sextw(a->val, a->w), w);
  if (a->k == K::Concat && isC(a->a) && !(a->a->val >> (a->a->w - 1) & 1)) return eZExt(a, w);
  if (a->k == K::SExt) return eSExt(a->a, w);
  if (a->w == 1 && w <= 128) return eIte(a, eConst(maskw(w), w), eConst(0, w));
  return mk(K::SExt, w, a, nullptr, nullptr);
}

static bool allOnes(E e) { return isC(e) && e->val == maskw(e->w); }
static bool zero(E e) { return isC(e) && e->val == 0; }

E eBin(K k, E a, E b) {
  unsigned w = a->w;
  if (isC(a) && isC(b)) {
    bool ok;
    u128 v = foldBin(k, a->val, b->val, w, ok);
    if (ok) return eConst(v, w);
    return mk(k, w, a, b, nullptr);
  }
  bool comm = k == K::Add || k == K::Mul || k == K::And || k == K::Or || k == K::Xor;
  if (comm && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a, b);
  if (isC(b) && iteCC(a) && w <= 128 && k != K::UDiv && k != K::SDiv && k != K::URem && k != K::SRem)
    return eIte(a->a, eBin(k, a->b, b), eBin(k, a->c, b));
  switch (k) {
    case K::Add:
      if (zero(b)) return a;
      if (isC(b) && a->k == K::Add && isC(a->b)) return eBin(K::Add, a->a, eConst(a->b->val + b->val, w));
      if (w == 1) return eBin(K::Xor, a, b);
      // x + (x / c) * -c is x % c
      for (int i = 0; i < 2; i++) {
        E x = i ? b : a, m = i ? a : b;
        if (m->k != K::Mul || !isC(m->b)) continue;
        E q = m->a;
        if (q->k == K::UDiv && isC(q->b) && ((q->b->val + m->b->val) & maskw(w)) == 0) {
          if (q->a == x) return eBin(K::URem, x, q->b);
        }
        if (q->k == K::UDiv && isC(q->b) && w <= 64 && x->k == K::UDiv && isC(x->b) && x->b->val && q->a == x->a) {
          u128 c = ((u128)0 - m->b->val) & maskw(w);
          if (c && c * x->b->val == q->b->val) return eBin(K::URem, x, eConst(c, w));
        }
      }
      // disjoint bits: an or
      if (isC(b) && w <= 64 && (a->k == K::URem || a->k == K::Extract || a->k == K::Concat) && (bitsUpTo(umaxE(a)) & b->val) == 0) return eBin(K::Or, a, b);
      // low zero part of a constant does not disturb the low bits
      break;
    case K::Sub:
      if (zero(b)) return a;
      if (a == b) return eConst(0, w);
      if (isC(b) && w <= 128) return eBin(K::Add, a, eConst((u128)0 - b->val, w));
      if (w == 1) return eBin(K::Xor, a, b);
      break;
    case K::Mul:
      if (isC(b)) {
        if (b->val == 0) return b;
        if (b->val == 1) return a;
        if ((b->val & (b->val - 1)) == 0) {
          unsigned s = 0;
          while (!((b->val >> s) & 1)) s++;
          return eBin(K::Shl, a, eConst(s, w));
        }
      }
      if (w == 1) return eBin(K::And, a, b);
      break;
    case K::UDiv:
      if (isC(b) && b->val == 1) return a;
      if (isC(b) && w <= 64 && b->val && a->k == K::UDiv && isC(a->b) && a->b->val) {
        u128 p = a->b->val * b->val;
        if (p > maskw(w)) return eConst(0, w);
        return eBin(K::UDiv, a->a, eConst(p, w));
      }
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) {
        unsigned s = 0;
        while (!((b->val >> s) & 1)) s++;
        return eBin(K::LShr, a, eConst(s, w));
      }
      if (isC(b) && a->k == K::Concat && zero(a->a) && b->val) {
        unsigned lw = a->b->w;
        if (b->val >> lw) return eConst(0, w);
        return eZExt(eBin(K::UDiv, a->b, eConst(b->val, lw)), w);
      }
      break;
    case K::URem:
      if (isC(b) && b->val && (b->val & (b->val - 1)) == 0) return eBin(K::And, a, eConst(b->val - 1, w));
      if (isC(b) && a->k == K::Concat && zero(a->a) && b->val) {
        unsigned lw = a->b->w;
        if (b->val >> lw) return a;
        return eZExt(eBin(K::URem, a->b, eConst(b->val, lw)), w);
      }
      break;
    case K::And:
      if (a == b) return a;
      if (zero(b)) return b;
      if (allOnes(b)) return a;
      if (isC(b) && a->k == K::And && isC(a->b)) return eBin(K::And, a->a, eConst(a->b->val & b->val, w));
      if (w == 1 && a->k == K::Xor && isC(a->b) && a->a == b) return eConst(0, 1);
      if (w == 1 && b->k == K::Xor && isC(b->b) && b->a == a) return eConst(0, 1);
      if (isC(b) && w > 1) {
        u128 v = b->val;  // contiguous mask -> concat of extract
        unsigned lo = 0;
        while (!((v >> lo) & 1)) lo++;
        unsigned hi = lo;
        while (hi < w && ((v >> hi) & 1)) hi++;
        if (hi >= 128 || (v >> hi) == 0) {
          E mid = eExtract(a, lo, hi - lo);
          if (lo) mid = eConcat(mid, eConst(0, lo));
          return eZExt(mid, w);
        }
      }
      break;
    case K::Or:
      if (a == b) return a;
      if (zero(b)) return a;
      if (allOnes(b)) return b;
      if (w == 1 && a->k == K::Xor && isC(a->b) && a->a == b) return eConst(1, 1);
      if (w == 1 && b->k == K::Xor && isC(b->b) && b->a == a) return eConst(1, 1);
      break;
    case K::Xor:
      if (a == b) return eConst(0, w);
      if (zero(b)) return a;
      if (isC(b) && a->k == K::Xor && isC(a->b)) return eBin(K::Xor, a->a, eConst(a->b->val ^ b->val, w));
      if (w == 1 && isC(b)) {  // negated comparisons
        if (a->k == K::Ult) return eCmp(K::Ule, a->b, a->a);
        if (a->k == K::Ule) return eCmp(K::Ult, a->b, a->a);
        if (a->k == K::Slt) return eCmp(K::Sle, a->b, a->a);
        if (a->k == K::Sle) return eCmp(K::Slt, a->b, a->a);
      }
      break;
    case K::Shl:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return eConst(0, w);
        unsigned s = (unsigned)b->val;
        return eConcat(eExtract(a, 0, w - s), eConst(0, s));
      }
      break;
    case K::LShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        if (b->val >= w) return eConst(0, w);
        unsigned s = (unsigned)b->val;
        return eZExt(eExtract(a, s, w - s), w);
      }
      break;
    case K::AShr:
      if (isC(b)) {
        if (b->val == 0) return a;
        unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
        return eSExt(eExtract(a, s, w - s), w);
      }
      break;
    default: break;
  }
  if ((k == K::And || k == K::Or || k == K::Xor) && w > 1) {
    E x = a, y = b;
    if (x->k != K::Concat && y->k == K::Concat) std::swap(x, y);
    if (x->k == K::Concat && (y->k == K::Concat || isC(y))) {
      unsigned lw = x->b->w;
      return eConcat(eBin(k, x->a, eExtract(y, lw, w - lw)), eBin(k, x->b, eExtract(y, 0, lw)));
    }
  }
  return mk(k, w, a, b, nullptr);
}

// The summands of a sum, at most `n`.
static bool summands(E e, std::vector<E> &out, size_t n = 24) {
  if (e->k == K::Add) return summands(e->a, out, n) && summands(e->b, out, n);
  out.push_back(e);
  return out.size() <= n;
}
// Leaves out what two sums have in common. Modulo 2^w that keeps equality; it keeps the order where neither sum overflows.
static bool cancel(K k, E &a, E &b) {
  std::vector<E> x, y;
  if (!summands(a, x) || !summands(b, y)) return false;
  if (k != K::Eq)
    for (auto *v : {&x, &y}) {
      u128 t = 0;
      for (E e : *v) t += umaxE(e);
      if (t > maskw(a->w)) return false;
    }
  bool any = false;
  for (size_t i = 0; i < x.size();) {
    auto it = std::find(y.begin(), y.end(), x[i]);
    if (it == y.end()) { i++; continue; }
    y.erase(it);
    x.erase(x.begin() + i);
    any = true;
  }
  if (!any) return false;
  unsigned w = a->w;
  auto sum = [w](std::vector<E> &v) {
    E s = eConst(0, w);
    std::sort(v.begin(), v.end(), [](E p, E q) { return p->id < q->id; });
    for (E e : v) s = eBin(K::Add, s, e);
    return s;
  };
  a = sum(x);
  b = sum(y);
  return true;
}

E eCmp(K k, E a, E b) {
  unsigned w = a->w;
  if (w <= 64 && (k == K::Eq || k == K::Ult || k == K::Ule) && (a->k == K::Add || b->k == K::Add) && !isC(a) && !isC(b)) cancel(k, a, b);
  if (isC(a) && isC(b)) {
    bool ok;
    return eConst(foldBin(k, a->val, b->val, w, ok), 1);
  }
  if (a == b) return eConst(k == K::Eq || k == K::Ule || k == K::Sle, 1);
  if (w <= 64 && (isC(a) || isC(b))) {
    u128 ua = umaxE(a), ub = umaxE(b), half = maskw(w) >> 1;
    bool pos = ua <= half && ub <= half;
    if (k == K::Ult || (k == K::Slt && pos)) {
      if (isC(b) && ua < b->val) return eConst(1, 1);
      if (isC(a) && a->val >= ub) return eConst(0, 1);
    }
    if (k == K::Ule || (k == K::Sle && pos)) {
      if (isC(b) && ua <= b->val) return eConst(1, 1);
      if (isC(a) && a->val > ub) return eConst(0, 1);
    }
    if (k == K::Slt && isC(b) && sextw(b->val, w) <= 0 && ua <= half) return eConst(0, 1);
    if (k == K::Eq && ((isC(b) && b->val > ua) || (isC(a) && a->val > ub))) return eConst(0, 1);
  }
  if (k == K::Eq) {
    if (isC(a) || (!isC(b) && a->id > b->id)) std::swap(a, b);
    if (w == 1 && isC(b)) return b->val ? a : eNot(a);
    if (isC(b)) {
      if (iteCC(a)) return eIte(a->a, eCmp(k, a->b, b), eCmp(k, a->c, b));
      if (a->k == K::Ite && (isC(a->b) || isC(a->c)))
        return eIte(a->a, eCmp(k, a->b, b), eCmp(k, a->c, b));
      if (a->k == K::Add && isC(a->b)) return eCmp(k, a->a, eConst(b->val - a->b->val, w));
      if (a->k == K::Xor && isC(a->b)) return eCmp(k, a->a, eConst(b->val ^ a->b->val, w));
      if (a->k == K::SExt) {
        u128 lowv = b->val & maskw(a->a->w);
        if (((u128)sextw(lowv, a->a->w) & maskw(w)) != b->val) return eConst(0, 1);
        return eCmp(k, a->a, eConst(lowv, a->a->w));
      }
    }
    if (a->k == K::Concat && (isC(b) || (b->k == K::Concat))) {
      unsigned lw = a->b->w;
      E h = eCmp(k, a->a, eExtract(b, lw, w - lw));
      if (zero(h)) return h;
      E l = eCmp(k, a->b, eExtract(b, 0, lw));
      return eAnd(h, l);
    }
    return mk(k, 1, a, b, nullptr);
  }
  if (iteCC(a) && isC(b)) return eIte(a->a, eCmp(k, a->b, b), eCmp(k, a->c, b));
  if (iteCC(b) && isC(a)) return eIte(b->a, eCmp(k, a, b->b), eCmp(k, a, b->c));
  if (k == K::Ult) {
    if (zero(b)) return eConst(0, 1);
    if (isC(b) && b->val == 1) return eEq(a, eConst(0, w));
    if (zero(a)) return eNot(eEq(b, a));
    if (allOnes(a)) return eConst(0, 1);
    if (allOnes(b)) return eNot(eEq(a, b));
  }
  if (k == K::Ule) {
    if (zero(a)) return eConst(1, 1);
    if (allOnes(b)) return eConst(1, 1);
    if (zero(b)) return eEq(a, b);
    if (allOnes(a)) return eEq(a, b);
  }
  bool az = a->k == K::Concat && isC(a->a), bz = b->k == K::Concat && isC(b->a);
  if (k == K::Ult || k == K::Ule) {
    if (az && (bz || isC(b))) {
      unsigned lw = a->b->w;
      if (bz && b->b->w > lw) lw = b->b->w;
      E ah = eExtract(a, lw, w - lw), bh = eExtract(b, lw, w - lw);
      if (isC(ah) && isC(bh)) {
        if (ah->val < bh->val) return eConst(1, 1);
        if (ah->val > bh->val) return eConst(0, 1);
        return eCmp(k, eExtract(a, 0, lw), eExtract(b, 0, lw));
      }
    }
    if (bz && isC(a)) {
      unsigned lw = b->b->w;
      u128 ah = a->val >> lw, bh = b->a->val;
      if (ah < bh) return eConst(1, 1);
      if (ah > bh) return eConst(0, 1);
      return eCmp(k, eExtract(a, 0, lw), b->b);
    }
  }
  if (k == K::Slt || k == K::Sle) {
    auto nonneg = [](E e) {
      if (isC(e)) return !((e->val >> (e->w - 1)) & 1);
      return e->k == K::Concat && isC(e->a) && !((e->a->val >> (e->a->w - 1)) & 1);
    };
    if (nonneg(a) && nonneg(b)) return eCmp(k == K::Slt ? K::Ult : K::Ule, a, b);
  }
  return mk(k, 1, a, b, nullptr);
}

static std::set<std::vector<u32>> symsets;
static const std::vector<u32> *intern(std::vector<u32> &&v) { return &*symsets.insert(std::move(v)).first; }

const std::vector<u32> &symsOf(E e) {
  if (e->syms) return *e->syms;
  // iterative post-order to avoid deep recursion
  std::vector<E> st{e};
  while (!st.empty()) {
    E x = st.back();
    if (x->syms) { st.pop_back(); continue; }
    bool ready = true;
    for (E ch : {x->a, x->b, x->c})
      if (ch && !ch->syms) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    if (x->k == K::Sym) { x->syms = intern({x->lo}); continue; }
    const std::vector<u32> *acc = nullptr;
    for (E ch : {x->a, x->b, x->c}) {
      if (!ch || ch->syms->empty()) continue;
      if (!acc || acc == ch->syms) { acc = ch->syms; continue; }
      std::vector<u32> u;
      std::set_union(acc->begin(), acc->end(), ch->syms->begin(), ch->syms->end(), std::back_inserter(u));
      acc = intern(std::move(u));
    }
    x->syms = acc ? acc : intern({});
  }
  return *e->syms;
}

u128 evalExpr(E root, const Model &m) {
  static std::vector<u128> memo;
  static std::vector<u32> stamp;
  static u32 epoch = 0;
  epoch++;
  if (memo.size() < nextId) { memo.resize(nextId + 1024); stamp.resize(nextId + 1024, 0); }
  std::vector<E> st{root};
  while (!st.empty()) {
    E x = st.back();
    if (stamp[x->id] == epoch) { st.pop_back(); continue; }
    if (x->k == K::Const) { memo[x->id] = x->val; stamp[x->id] = epoch; st.pop_back(); continue; }
    if (x->k == K::Sym) { memo[x->id] = (u128)m.get(x->lo) & maskw(x->w); stamp[x->id] = epoch; st.pop_back(); continue; }
    if (x->k == K::Ite) {
      if (stamp[x->a->id] != epoch) { st.push_back(x->a); continue; }
      E ch = memo[x->a->id] ? x->b : x->c;
      if (stamp[ch->id] != epoch) { st.push_back(ch); continue; }
      memo[x->id] = memo[ch->id]; stamp[x->id] = epoch; st.pop_back(); continue;
    }
    bool ready = true;
    for (E ch : {x->a, x->b})
      if (ch && stamp[ch->id] != epoch) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    u128 va = memo[x->a->id], vb = x->b ? memo[x->b->id] : 0, r = 0;
    switch (x->k) {
      case K::Extract: r = (va >> x->lo) & maskw(x->w); break;
      case K::SExt: r = (u128)sextw(va, x->a->w) & maskw(x->w); break;
      case K::Concat: r = x->w > 128 ? vb : ((va << x->b->w) | vb); break;
      default: {
        bool ok;
        r = foldBin(x->k, va, vb, x->a->w, ok);
        if (!ok) {  // SMT-LIB semantics of division by zero
          if (x->k == K::UDiv) r = maskw(x->w);
          else if (x->k == K::SDiv) r = sextw(va, x->w) < 0 ? 1 : maskw(x->w);
          else r = va;
        }
      }
    }
    memo[x->id] = r;
    stamp[x->id] = epoch;
  }
  return memo[root->id];
}

std::string exprStr(E e, int d) {
  static const char *nm[] = {"const", "sym", "+", "-", "*", "udiv", "sdiv", "urem", "srem", "&", "|", "^", "shl", "lshr", "ashr", "==", "<u", "<=u", "<s", "<=s", "ite", "sext", "extract", "concat"};
  char b[64];
  if (e->k == K::Const) { snprintf(b, 64, "%llx:%d", (unsigned long long)e->val, e->w); return b; }
  if (e->k == K::Sym) { snprintf(b, 64, "s%u:%d", e->lo, e->w); return b; }
  if (d == 0) return "...";
  std::string s = "(" + std::string(nm[(int)e->k]);
  if (e->k == K::Extract) { snprintf(b, 64, "[%u+%u]", e->lo, e->w); s += b; }
  for (E ch : {e->a, e->b, e->c}) if (ch) s += " " + exprStr(ch, d - 1);
  return s + ")";
}
