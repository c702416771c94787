// Models of LLVM intrinsics, libc functions and the harness interface.
#include "interp.h"
#include <cstring>
#include <cmath>
#include <functional>
#include <set>
using namespace llvm;

static unsigned argW(const Ins &I, unsigned i) {
  Type *T = cast<CallBase>(I.I)->getArgOperand(i)->getType();
  if (auto *V = dyn_cast<VectorType>(T)) T = V->getElementType();
  return T->isPointerTy() ? 64 : T->getPrimitiveSizeInBits();
}
static u64 C64(Interp &in, const Val &v, const char *why) { return v.e ? (u64)in.concretize(v, 64, why) : v.lo; }

static void hNop(Interp &, const Ins &, Val *, u32, Val *) {}
static void hZero(Interp &, const Ins &, Val *, u32, Val *r) { r[0] = mkC(0); }
static void hMemcpy(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 n = C64(in, a[2], "copy length");
  if (n) in.copyMem(C64(in, a[0], "copy destination"), C64(in, a[1], "copy source"), n);
  r[0] = a[0];
}
static void hMemset(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 n = C64(in, a[2], "memset length");
  Val b = a[1];
  b = b.e ? fromE(eExtract(b.e, 0, 8)) : mkC(b.lo & 255);
  if (n) in.setMem(C64(in, a[0], "memset destination"), b, n);
  r[0] = a[0];
}
static bool allConc(Interp &in, u64 p, u64 n) {
  Obj *o = in.access(p, n, false);
  if (!o->sym) return true;
  E *s = o->sym + (p - o->base);
  for (u64 i = 0; i < n; i++) if (s[i]) return false;
  return true;
}
static void hMemcmp(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  u64 n = C64(in, a[2], "memcmp length");
  if (!n) { r[0] = mkC(0); return; }
  u64 p = C64(in, a[0], "memcmp"), q = C64(in, a[1], "memcmp");
  bool c1 = allConc(in, p, n), c2 = allConc(in, q, n);
  if (c1 && c2) { int k = memcmp((void *)p, (void *)q, n); r[0] = mkC((u32)(k < 0 ? -1 : k > 0)); return; }
  E res = eConst(0, 32);
  for (u64 i = n; i-- > 0;) {
    E x = in.byteAt(p + i), y = in.byteAt(q + i);
    res = eIte(eEq(x, y), res, eIte(eCmp(K::Ult, x, y), eConst(0xffffffff, 32), eConst(1, 32)));
  }
  r[0] = fromE(res);
}
static void hBcmp(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 n = C64(in, a[2], "bcmp length");
  if (!n) { r[0] = mkC(0); return; }
  u64 p = C64(in, a[0], "bcmp"), q = C64(in, a[1], "bcmp");
  E eq = eConst(1, 1);
  if (allConc(in, p, n) && allConc(in, q, n)) { r[0] = mkC(memcmp((void *)p, (void *)q, n) != 0); return; }
  for (u64 i = n; i-- > 0;) {
    eq = eAnd(eEq(in.byteAt(p + i), in.byteAt(q + i)), eq);
    if (isC(eq) && !eq->val) break;
  }
  r[0] = fromE(eIte(eq, eConst(0, 32), eConst(1, 32)));
}
static void hStrlen(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 p = C64(in, a[0], "strlen"), n = 0;
  while (!in.decide(eEq(in.byteAt(p + n), eConst(0, 8)))) n++;
  r[0] = mkC(n);
}
static void hMemchr(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 p = C64(in, a[0], "memchr"), n = C64(in, a[2], "memchr length");
  E c = eExtract(toE(a[1], 32), 0, 8);
  r[0] = mkC(0);
  for (u64 i = 0; i < n; i++) if (in.decide(eEq(in.byteAt(p + i), c))) { r[0] = mkC(p + i); return; }
}
static void hMemrchr(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 p = C64(in, a[0], "memrchr"), n = C64(in, a[2], "memrchr length");
  E c = eExtract(toE(a[1], 32), 0, 8);
  r[0] = mkC(0);
  for (u64 i = n; i-- > 0;) if (in.decide(eEq(in.byteAt(p + i), c))) { r[0] = mkC(p + i); return; }
}
static void hMalloc(Interp &in, const Ins &, Val *a, u32, Val *r) { r[0] = mkC(in.heapAlloc(C64(in, a[0], "allocation size"), 16, false)); }
static void hCalloc(Interp &in, const Ins &, Val *a, u32, Val *r) {
  r[0] = mkC(in.heapAlloc(C64(in, a[0], "allocation size") * C64(in, a[1], "allocation size"), 16, true));
}
static void hFree(Interp &in, const Ins &, Val *a, u32, Val *) { in.heapFree(C64(in, a[0], "free")); }
static void hRealloc(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 p = C64(in, a[0], "realloc"), n = C64(in, a[1], "allocation size");
  u64 q = in.heapAlloc(n, 16, false);
  if (p) {
    Obj *o = in.obj(p);
    if (!o || o->freed || o->base != p || o->kind != 2) in.violation("memory error: realloc of an invalid pointer");
    u64 m = std::min(n, o->size);
    if (m) in.copyMem(q, p, m);
    in.heapFree(p);
  }
  r[0] = mkC(q);
}
static void hMemalign(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 out = C64(in, a[0], "memalign");
  u64 q = in.heapAlloc(C64(in, a[2], "allocation size"), C64(in, a[1], "alignment"), false);
  in.store(out, mkC(q), 64);
  r[0] = mkC(0);
}
static void hAlignedAlloc(Interp &in, const Ins &, Val *a, u32, Val *r) {
  r[0] = mkC(in.heapAlloc(C64(in, a[1], "allocation size"), C64(in, a[0], "alignment"), false));
}
static void hWrite(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 n = C64(in, a[2], "write length");
  static bool echo = getenv("SYMX_ECHO");
  if (echo && n) {
    u64 p = C64(in, a[1], "write");
    std::string s((char *)p, n);
    fputs(s.c_str(), stderr);
  }
  r[0] = mkC(n);
}
static void hWritev(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 p = a[1].lo, n = a[2].lo, t = 0;
  for (u64 i = 0; i < n; i++) t += in.load(p + 16 * i + 8, 64).lo;
  r[0] = mkC(t);
}
static void hAbort(Interp &in, const Ins &, Val *, u32, Val *) { in.violation("process abort (last panic: " + in.panicMsg.substr(0, in.panicMsg.find('\n')) + ")"); }
static u64 errnoAddr = 0;
static void hErrno(Interp &in, const Ins &, Val *, u32, Val *r) {
  if (!errnoAddr) errnoAddr = in.heapAlloc(8, 16, true);
  r[0] = mkC(errnoAddr);
}
static void hSysconf(Interp &, const Ins &, Val *a, u32, Val *r) { r[0] = mkC(a[0].lo == 30 ? 4096 : 1); }
static void hSyscall(Interp &in, const Ins &, Val *a, u32, Val *r) {
  switch (a[0].lo) {
    case 318: {  // getrandom
      u64 n = a[2].lo;
      for (u64 i = 0; i < n; i++) in.store(a[1].lo + i, mkC((0x5a + 31 * (in.hashKeyCtr++)) & 255), 8);
      r[0] = mkC(n);
      return;
    }
    case 202: r[0] = mkC(0); return;  // futex
    case 186: r[0] = mkC(1); return;  // gettid
  }
  in.inconclusive("system call " + std::to_string(a[0].lo));
}
static void hClock(Interp &in, const Ins &, Val *a, u32, Val *r) {
  static u64 t = 1000;
  in.store(a[1].lo, mkC(t++), 64);
  in.store(a[1].lo + 8, mkC(0), 64);
  r[0] = mkC(0);
}
static void hRaise(Interp &in, const Ins &, Val *a, u32, Val *) { in.unwind(a[0].lo); }
static void hHashKeys(Interp &in, const Ins &I, Val *a, u32 n, Val *r) {
  u64 k = ++in.hashKeyCtr;
  if (I.n == 2) { r[0] = mkC(0x1234567 * k); r[1] = mkC(0x89abcdef01ull * k); }
  else if (n == 1) { in.store(a[0].lo, mkC(0x1234567 * k), 64); in.store(a[0].lo + 8, mkC(0x89abcdef01ull * k), 64); }
  else in.inconclusive("hashmap_random_keys");
}
static void hKeyCreate(Interp &in, const Ins &, Val *a, u32, Val *r) {
  static u32 k = 1;
  in.store(a[0].lo, mkC(k++), 32);
  r[0] = mkC(0);
}
static std::map<u64, Val> tlsv;
static void hGetSpecific(Interp &, const Ins &, Val *a, u32, Val *r) { auto it = tlsv.find(a[0].lo); r[0] = it == tlsv.end() ? mkC(0) : it->second; }
static void hSetSpecific(Interp &, const Ins &, Val *a, u32, Val *r) { tlsv[a[0].lo] = a[1]; r[0] = mkC(0); }
static void hOne(Interp &, const Ins &, Val *, u32, Val *r) { r[0] = mkC(1); }

// One thread: a mutex that is locked again is never unlocked.
static std::set<u64> mutexes;
static void hMutexLock(Interp &in, const Ins &, Val *a, u32, Val *r) {
  if (!mutexes.insert(C64(in, a[0], "mutex")).second) in.violation("deadlock: a thread locks a mutex that it holds");
  r[0] = mkC(0);
}
static void hMutexTry(Interp &in, const Ins &, Val *a, u32, Val *r) { r[0] = mkC(mutexes.insert(C64(in, a[0], "mutex")).second ? 0 : 16); }
static void hMutexUnlock(Interp &in, const Ins &, Val *a, u32, Val *r) { mutexes.erase(C64(in, a[0], "mutex")); r[0] = mkC(0); }

// ---- harness interface
static std::string str(Interp &in, const Val &p, const Val &n) {
  u64 a = C64(in, p, "string"), k = C64(in, n, "string length");
  std::string s;
  for (u64 i = 0; i < k; i++) { Val b = in.load(a + i, 8); s += b.e ? '?' : (char)b.lo; }
  return s;
}
static void hSym(Interp &in, const Ins &, Val *a, u32, Val *) {
  u64 p = C64(in, a[0], "sym"), n = C64(in, a[1], "sym length");
  std::string name = str(in, a[2], a[3]);
  in.syms.push_back({name, in.nsyms, (u32)n, false, 0});
  for (u64 i = 0; i < n; i++) in.store(p + i, Val{0, 0, eSym(in.nsyms++, 8)}, 8);
}
static void hAssume(Interp &in, const Ins &, Val *a, u32, Val *) {
  E c = toE(a[0], 8);
  in.assume(eNot(eEq(c, eConst(0, c->w))));
}
static void hCheck(Interp &in, const Ins &, Val *a, u32, Val *) {
  E c = a[0].e ? a[0].e : eConst(a[0].lo, 8);
  in.check(eNot(eEq(c, eConst(0, c->w))), str(in, a[1], a[2]));
}
static void hChoose(Interp &in, const Ins &, Val *a, u32, Val *r) {
  u64 n = C64(in, a[0], "choose"), v = 0;
  std::string name = str(in, a[1], a[2]);
  while (v + 1 < n) {
    if (!in.forkHere()) break;
    v++;
  }
  in.syms.push_back({name, 0, 8, true, v});
  r[0] = mkC(v);
}
static void hReach(Interp &in, const Ins &, Val *a, u32, Val *) {
  std::string s = str(in, a[0], a[1]);
  in.notes.push_back(s);
  Shared *sh = in.sh;
  u32 z = 0;
  while (!sh->lock.compare_exchange_weak(z, 1)) z = 0;
  u32 n = sh->nlabels, i;
  for (i = 0; i < n; i++) if (!strncmp(sh->labels[i].name, s.c_str(), 95)) break;
  if (i == n && n < 128) { strncpy(sh->labels[n].name, s.c_str(), 95); sh->nlabels++; }
  sh->lock = 0;
  if (i < 128) sh->labels[i].cnt++;
}
static void hConcretize(Interp &in, const Ins &, Val *a, u32, Val *r) { r[0] = mkC((u64)in.concretize(a[0], 64, "vp_concretize")); }
static void hDebug(Interp &in, const Ins &, Val *a, u32, Val *) {
  if (getenv("SYMX_DEBUG")) fprintf(stderr, "[debug] %s %s\n", str(in, a[1], a[2]).c_str(), a[0].e ? exprStr(a[0].e).c_str() : std::to_string(a[0].lo).c_str());
}
static void hPanicTrace(Interp &in, const Ins &, Val *, u32, Val *) {
  if (getenv("SYMX_DEBUG")) fprintf(stderr, "[panic] %s\n", in.panicMsg.c_str());
}
// Hash as an uninterpreted injective function: equal inputs give equal digests, different inputs different ones.
static void hHash(Interp &in, const Ins &, Val *a, u32, Val *) {
  u64 p = C64(in, a[0], "hash"), n = C64(in, a[1], "hash length"), out = C64(in, a[2], "hash output");
  std::vector<E> x, y;
  bool conc = true;
  for (u64 i = 0; i < n; i++) { x.push_back(in.byteAt(p + i)); conc &= isC(x.back()); }
  for (auto &h : in.hashes)
    if (h.first == x) {
      for (int i = 0; i < 32; i++) in.store(out + i, fromE(h.second[i]), 8);
      return;
    }
  if (conc) {
    u64 s[4] = {0x243F6A8885A308D3ull, 0x13198A2E03707344ull, 0xA4093822299F31D0ull, 0x082EFA98EC4E6C89ull};
    for (int rep = 0; rep < 2; rep++)
      for (u64 i = 0; i <= n; i++) {
        u64 b = i < n ? (u64)x[i]->val : n + 256;
        for (int k = 0; k < 4; k++) { s[k] ^= (b + 0x9E3779B97F4A7C15ull * (k + 1)); s[k] *= 0xff51afd7ed558ccdull; s[k] ^= s[k] >> 31; s[(k + 1) & 3] += s[k]; }
      }
    for (int i = 0; i < 32; i++) y.push_back(eConst((s[i / 8] >> (8 * (i % 8))) & 255, 8));
  } else
    for (int i = 0; i < 32; i++) y.push_back(eSym(in.nsyms++, 8));
  auto conj = [](const std::vector<E> &u, const std::vector<E> &v, size_t from, size_t to) {
    E r = eConst(1, 1);
    for (size_t i = to; i-- > from;) r = eAnd(eEq(u[i], v[i]), r);
    return r;
  };
  // the first 20 bytes (an address) already tell different inputs apart
  for (auto &h : in.hashes) {
    E oe = conj(h.second, y, 0, 20);
    if (h.first.size() != n) in.assume(eNot(oe));
    else {
      E ie = conj(h.first, x, 0, n);
      in.assume(eEq(ie, oe));
      in.assume(eOr(eNot(ie), conj(h.second, y, 20, 32)));
    }
  }
  in.hashes.push_back({x, y});
  for (int i = 0; i < 32; i++) in.store(out + i, fromE(y[i]), 8);
}

static void hUnsupMsg(Interp &in, const Ins &, Val *a, u32, Val *) {
  u64 p = C64(in, a[0], "message"), n = C64(in, a[1], "message length");
  std::string m;
  for (u64 i = 0; i < n && i < 200; i++) { E b = in.byteAt(p + i); m += isC(b) ? (char)b->val : '?'; }
  in.inconclusive("outside the modelled environment: " + m);
}

// ---- integer intrinsics
static E popcnt(E a) {
  E r = eConst(0, a->w);
  for (unsigned i = 0; i < a->w; i++) r = eBin(K::Add, r, eZExt(eExtract(a, i, 1), a->w));
  return r;
}
static E ctlzE(E a) {
  E r = eConst(a->w, a->w);
  for (unsigned i = 0; i < a->w; i++) r = eIte(eExtract(a, i, 1), eConst(a->w - 1 - i, a->w), r);
  return r;
}
static E cttzE(E a) {
  E r = eConst(a->w, a->w);
  for (unsigned i = a->w; i-- > 0;) r = eIte(eExtract(a, i, 1), eConst(i, a->w), r);
  return r;
}
static E lanesOp(const std::string &op, E a, E b) {
  if (op == "umin") return eIte(eCmp(K::Ult, a, b), a, b);
  if (op == "umax") return eIte(eCmp(K::Ult, a, b), b, a);
  if (op == "smin") return eIte(eCmp(K::Slt, a, b), a, b);
  if (op == "smax") return eIte(eCmp(K::Slt, a, b), b, a);
  if (op == "add") return eBin(K::Add, a, b);
  if (op == "mul") return eBin(K::Mul, a, b);
  if (op == "and") return eBin(K::And, a, b);
  if (op == "or") return eBin(K::Or, a, b);
  if (op == "xor") return eBin(K::Xor, a, b);
  return nullptr;
}
static void hMinMax(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  unsigned w = argW(I, 0);
  std::string n = cast<CallBase>(I.I)->getCalledFunction()->getName().str().substr(5, 4);
  for (u32 i = 0; i < I.n; i++) r[i] = fromE(lanesOp(n, toE(a[i], w), toE(a[I.n + i], w)));
}
static void hReduce(Interp &in, const Ins &I, Val *a, u32 na, Val *r) {
  unsigned w = argW(I, 0);
  std::string n = cast<CallBase>(I.I)->getCalledFunction()->getName().str().substr(19);
  n = n.substr(0, n.find('.'));
  E x = toE(a[0], w);
  for (u32 i = 1; i < na; i++) x = lanesOp(n, x, toE(a[i], w));
  r[0] = fromE(x);
}
static void hOverflow(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  unsigned w = argW(I, 0);
  std::string n = cast<CallBase>(I.I)->getCalledFunction()->getName().str().substr(5, 4);
  u32 k = I.n / 2;
  for (u32 i = 0; i < k; i++) {
    E x = toE(a[i], w), y = toE(a[k + i], w), v, o;
    if (n == "uadd") { v = eBin(K::Add, x, y); o = eCmp(K::Ult, v, x); }
    else if (n == "usub") { v = eBin(K::Sub, x, y); o = eCmp(K::Ult, x, y); }
    else if (n == "sadd" || n == "ssub") {
      v = eBin(n == "sadd" ? K::Add : K::Sub, x, y);
      E sx = eExtract(x, w - 1, 1), sy = eExtract(y, w - 1, 1), sv = eExtract(v, w - 1, 1);
      o = n == "sadd" ? eAnd(eEq(sx, sy), eNot(eEq(sx, sv))) : eAnd(eNot(eEq(sx, sy)), eNot(eEq(sx, sv)));
    } else {
      bool u = n == "umul";
      v = eBin(K::Mul, x, y);
      if (isC(x) && isC(y)) {
        bool ov;
        if (w <= 64) {
          if (u) ov = (x->val * y->val) >> w;
          else { i128 p = sextw(x->val, w) * sextw(y->val, w); ov = sextw((u128)p & maskw(w), w) != p; }
        } else if (u) { u128 t; ov = __builtin_mul_overflow(x->val, y->val, &t); }
        else { i128 t; ov = __builtin_mul_overflow((i128)x->val, (i128)y->val, &t); }
        o = eConst(ov, 1);
      } else if (w <= 64) {
        unsigned W = 2 * w;
        E p = u ? eBin(K::Mul, eZExt(x, W), eZExt(y, W)) : eBin(K::Mul, eSExt(x, W), eSExt(y, W));
        v = eExtract(p, 0, w);
        o = u ? eNot(eEq(eExtract(p, w, w), eConst(0, w))) : eNot(eEq(p, eSExt(v, W)));
      } else if (u) {
        E z = eEq(x, eConst(0, w));
        o = eAnd(eNot(z), eNot(eEq(eBin(K::UDiv, v, eIte(z, eConst(1, w), x)), y)));
      } else in.inconclusive("symbolic smul.with.overflow.i128");
    }
    r[i] = fromE(v);
    r[k + i] = fromE(o);
  }
}
static void hSat(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  unsigned w = argW(I, 0);
  std::string n = cast<CallBase>(I.I)->getCalledFunction()->getName().str().substr(5, 4);
  for (u32 i = 0; i < I.n; i++) {
    E x = toE(a[i], w), y = toE(a[I.n + i], w);
    if (n == "uadd") { E v = eBin(K::Add, x, y); r[i] = fromE(eIte(eCmp(K::Ult, v, x), eConst(maskw(w), w), v)); }
    else if (n == "usub") r[i] = fromE(eIte(eCmp(K::Ult, x, y), eConst(0, w), eBin(K::Sub, x, y)));
    else {
      E v = eBin(n == "sadd" ? K::Add : K::Sub, x, y);
      E sx = eExtract(x, w - 1, 1), sy = eExtract(y, w - 1, 1), sv = eExtract(v, w - 1, 1);
      E o = n == "sadd" ? eAnd(eEq(sx, sy), eNot(eEq(sx, sv))) : eAnd(eNot(eEq(sx, sy)), eNot(eEq(sx, sv)));
      r[i] = fromE(eIte(o, eIte(sx, eConst((u128)1 << (w - 1), w), eConst(maskw(w) >> 1, w)), v));
    }
  }
}
static void unary(Interp &in, const Ins &I, Val *a, Val *r, E (*fn)(E)) {
  unsigned w = argW(I, 0);
  for (u32 i = 0; i < I.n; i++) r[i] = fromE(fn(toE(a[i], w)));
}
static void hCtpop(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, popcnt); }
static void hCtlz(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, ctlzE); }
static void hCttz(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, cttzE); }
static E bswapE(E a) {
  E r = nullptr;
  for (unsigned i = 0; i < a->w; i += 8) { E b = eExtract(a, i, 8); r = r ? eConcat(r, b) : b; }
  return r;
}
static E brevE(E a) {
  E r = nullptr;
  for (unsigned i = 0; i < a->w; i++) { E b = eExtract(a, i, 1); r = r ? eConcat(r, b) : b; }
  return r;
}
static E absE(E a) { return eIte(eExtract(a, a->w - 1, 1), eBin(K::Sub, eConst(0, a->w), a), a); }
static void hBswap(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, bswapE); }
static void hBrev(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, brevE); }
static void hAbs(Interp &in, const Ins &I, Val *a, u32, Val *r) { unary(in, I, a, r, absE); }
static void hFsh(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  unsigned w = argW(I, 0);
  bool left = cast<CallBase>(I.I)->getCalledFunction()->getName().starts_with("llvm.fshl");
  for (u32 i = 0; i < I.n; i++) {
    E h = toE(a[i], w), l = toE(a[I.n + i], w), s = toE(a[2 * I.n + i], w);
    if (isC(s)) {
      unsigned k = (unsigned)(s->val % w);
      E x;
      if (left) x = k ? eConcat(eExtract(h, 0, w - k), eExtract(l, w - k, k)) : h;
      else x = k ? eConcat(eExtract(h, 0, k), eExtract(l, k, w - k)) : l;
      r[i] = fromE(x);
    } else {
      s = eBin(K::URem, s, eConst(w, w));
      E inv = eBin(K::Sub, eConst(w, w), s), z = eEq(s, eConst(0, w));
      if (left) r[i] = fromE(eIte(z, h, eBin(K::Or, eBin(K::Shl, h, s), eBin(K::LShr, l, inv))));
      else r[i] = fromE(eIte(z, l, eBin(K::Or, eBin(K::Shl, h, inv), eBin(K::LShr, l, s))));
    }
  }
}
static void hPmovmskb(Interp &in, const Ins &I, Val *a, u32 na, Val *r) {
  E x = nullptr;
  for (u32 i = 0; i < na; i++) { E b = eExtract(toE(a[i], 8), 7, 1); x = x ? eConcat(b, x) : b; }
  r[0] = fromE(eZExt(x, 32));
}
static void hExpect(Interp &, const Ins &I, Val *a, u32, Val *r) { for (u32 i = 0; i < I.n; i++) r[i] = a[i]; }
static void hPtrmask(Interp &, const Ins &, Val *a, u32, Val *r) { r[0] = fromE(eBin(K::And, toE(a[0], 64), toE(a[1], 64))); }
static void hObjsize(Interp &, const Ins &I, Val *, u32, Val *r) { r[0] = mkC(maskw(I.w)); }
static void hUnsup(Interp &in, const Ins &I, Val *, u32, Val *) {
  auto *F = cast<CallBase>(I.I)->getCalledFunction();
  in.inconclusive("unmodelled function " + (F ? F->getName().str() : std::string("?")));
}
static void hTrap(Interp &in, const Ins &, Val *, u32, Val *) { in.violation("trap instruction reached (abort)"); }
static void hFabs(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  if (a[0].e) in.inconclusive("symbolic floating-point");
  r[0] = mkC(a[0].lo & (I.w == 32 ? 0x7fffffffull : 0x7fffffffffffffffull));
}
static void hTrunc1(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  if (a[0].e) in.inconclusive("symbolic floating-point");
  std::string n = cast<CallBase>(I.I)->getCalledFunction()->getName().str();
  double d;
  if (I.w == 32) { float f; u32 x = a[0].lo; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &a[0].lo, 8);
  if (n.find("floor") != n.npos) d = floor(d);
  else if (n.find("ceil") != n.npos) d = ceil(d);
  else if (n.find("trunc") != n.npos) d = trunc(d);
  else if (n.find("sqrt") != n.npos) d = sqrt(d);
  else d = nearbyint(d);
  if (I.w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); r[0] = mkC(x); } else { u64 x; memcpy(&x, &d, 8); r[0] = mkC(x); }
}
static void hFpSat(Interp &in, const Ins &I, Val *a, u32, Val *r) {
  if (a[0].e) in.inconclusive("symbolic floating-point");
  double d;
  unsigned w2 = argW(I, 0);
  if (w2 == 32) { float f; u32 x = a[0].lo; memcpy(&f, &x, 4); d = f; } else memcpy(&d, &a[0].lo, 8);
  bool u = cast<CallBase>(I.I)->getCalledFunction()->getName().starts_with("llvm.fptoui");
  if (std::isnan(d)) { r[0] = mkC(0); return; }
  if (u) r[0] = d <= 0 ? mkC(0) : d >= ldexp(1, I.w) ? mkC(maskw(I.w)) : mkC((u128)d);
  else {
    double lim = ldexp(1, I.w - 1);
    r[0] = d >= lim ? mkC(maskw(I.w) >> 1) : d < -lim ? mkC((u128)1 << (I.w - 1)) : mkC((u128)(i128)d & maskw(I.w));
  }
}

Handler findHandler(Interp &in, Function *F, bool &isPanic) {
  isPanic = false;
  std::string n = F->getName().str();
  static const std::map<std::string, Handler> exact = {
      {"vp_sym", hSym}, {"vp_assume", hAssume}, {"vp_check", hCheck}, {"vp_choose", hChoose}, {"vp_reach", hReach},
      {"vp_concretize", hConcretize}, {"vp_debug", hDebug}, {"vp_hash", hHash}, {"vp_is_symbolic", hOne}, {"vp_panic_trace", hPanicTrace}, {"vp_unsupported", hUnsupMsg},
      {"malloc", hMalloc}, {"calloc", hCalloc}, {"realloc", hRealloc}, {"free", hFree}, {"posix_memalign", hMemalign},
      {"aligned_alloc", hAlignedAlloc}, {"memcpy", hMemcpy}, {"memmove", hMemcpy}, {"memset", hMemset}, {"memcmp", hMemcmp},
      {"bcmp", hBcmp}, {"strlen", hStrlen}, {"memchr", hMemchr}, {"memrchr", hMemrchr}, {"write", hWrite}, {"writev", hWritev},
      {"abort", hAbort}, {"__errno_location", hErrno}, {"sysconf", hSysconf}, {"syscall", hSyscall}, {"clock_gettime", hClock},
      {"_Unwind_RaiseException", hRaise}, {"_Unwind_Resume", hRaise}, {"_Unwind_DeleteException", hNop},
      {"getenv", hZero}, {"sched_yield", hZero}, {"sigaction", hZero}, {"signal", hZero}, {"close", hZero}, {"gettid", hOne},
      {"pthread_mutex_init", hMutexUnlock}, {"pthread_mutex_lock", hMutexLock}, {"pthread_mutex_trylock", hMutexTry}, {"pthread_mutex_unlock", hMutexUnlock},
      {"pthread_mutex_destroy", hMutexUnlock}, {"pthread_mutexattr_init", hZero}, {"pthread_mutexattr_settype", hZero}, {"pthread_mutexattr_destroy", hZero},
      {"pthread_rwlock_rdlock", hZero}, {"pthread_rwlock_wrlock", hZero}, {"pthread_rwlock_tryrdlock", hZero}, {"pthread_rwlock_trywrlock", hZero},
      {"pthread_rwlock_unlock", hZero}, {"pthread_rwlock_destroy", hZero}, {"pthread_cond_init", hZero}, {"pthread_cond_signal", hZero},
      {"pthread_cond_broadcast", hZero}, {"pthread_cond_destroy", hZero}, {"pthread_condattr_init", hZero}, {"pthread_condattr_setclock", hZero},
      {"pthread_condattr_destroy", hZero}, {"pthread_self", hOne}, {"pthread_key_create", hKeyCreate}, {"pthread_key_delete", hZero},
      {"pthread_getspecific", hGetSpecific}, {"pthread_setspecific", hSetSpecific}, {"__cxa_thread_atexit_impl", hZero},
      {"pthread_getattr_np", hOne},
  };
  auto it = exact.find(n);
  if (it != exact.end()) return it->second;
  if (F->isIntrinsic()) {
    static const std::vector<std::pair<const char *, Handler>> pre = {
        {"llvm.memcpy", hMemcpy}, {"llvm.memmove", hMemcpy}, {"llvm.memset", hMemset}, {"llvm.lifetime", hNop}, {"llvm.dbg", hNop},
        {"llvm.assume", hNop}, {"llvm.experimental.noalias", hNop}, {"llvm.donothing", hNop}, {"llvm.prefetch", hNop}, {"llvm.sideeffect", hNop},
        {"llvm.expect", hExpect}, {"llvm.umin", hMinMax}, {"llvm.umax", hMinMax}, {"llvm.smin", hMinMax}, {"llvm.smax", hMinMax},
        {"llvm.uadd.with", hOverflow}, {"llvm.usub.with", hOverflow}, {"llvm.umul.with", hOverflow}, {"llvm.sadd.with", hOverflow},
        {"llvm.ssub.with", hOverflow}, {"llvm.smul.with", hOverflow}, {"llvm.uadd.sat", hSat}, {"llvm.usub.sat", hSat},
        {"llvm.sadd.sat", hSat}, {"llvm.ssub.sat", hSat}, {"llvm.ctpop", hCtpop}, {"llvm.ctlz", hCtlz}, {"llvm.cttz", hCttz},
        {"llvm.bswap", hBswap}, {"llvm.bitreverse", hBrev}, {"llvm.abs", hAbs}, {"llvm.fshl", hFsh}, {"llvm.fshr", hFsh},
        {"llvm.vector.reduce.f", hUnsup}, {"llvm.vector.reduce", hReduce}, {"llvm.x86.sse2.pmovmskb.128", hPmovmskb}, {"llvm.trap", hTrap}, {"llvm.ubsantrap", hTrap},
        {"llvm.eh.typeid.for", hOne}, {"llvm.is.constant", hZero}, {"llvm.objectsize", hObjsize}, {"llvm.stacksave", hZero}, {"llvm.stackrestore", hNop},
        {"llvm.ptrmask", hPtrmask}, {"llvm.fabs", hFabs}, {"llvm.floor", hTrunc1}, {"llvm.ceil", hTrunc1}, {"llvm.trunc.f", hTrunc1}, {"llvm.sqrt", hTrunc1},
        {"llvm.rint", hTrunc1}, {"llvm.nearbyint", hTrunc1}, {"llvm.fptoui.sat", hFpSat}, {"llvm.fptosi.sat", hFpSat}, {"llvm.threadlocal.address", hExpect},
    };
    for (auto &p : pre) if (n.rfind(p.first, 0) == 0) return p.second;
    return hUnsup;
  }
  static const char *panics[] = {"_ZN4core9panicking9panic_fmt", "rust_begin_unwind", "_ZN3std9panicking11begin_panic", "_ZN3std9panicking19begin_panic_handler",
                                 "_ZN3std9panicking20rust_panic_with_hook", "_ZN5alloc5alloc18handle_alloc_error", "rust_oom", "__rg_oom", "__rdl_oom"};
  for (auto p : panics) if (n.rfind(p, 0) == 0) { isPanic = true; return nullptr; }
  if (n.find("hashmap_random_keys") != n.npos) return hHashKeys;
  if (n.find("thread_local_dtor13register_dtor") != n.npos) return hNop;
  if (n.rfind("_ZN3std2io5stdio7_eprint", 0) == 0) return hNop;
  return nullptr;
}
