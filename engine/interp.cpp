#include "interp.h"
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/Support/raw_ostream.h>
#include <cmath>
#include <cstring>
#include <chrono>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace llvm;

double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

std::string demangleName(const std::string &s) {
  std::string d = llvm::demangle(s);
  size_t p = d.rfind("::h");
  if (p != std::string::npos && d.size() - p == 19) d = d.substr(0, p);
  return d;
}

// ---------------------------------------------------------------- types
static void flatten(const DataLayout &DL, Type *T, u64 off, std::vector<Leaf> &out) {
  if (auto *S = dyn_cast<StructType>(T)) {
    auto *L = DL.getStructLayout(S);
    for (unsigned i = 0; i < S->getNumElements(); i++) flatten(DL, S->getElementType(i), off + L->getElementOffset(i), out);
  } else if (auto *A = dyn_cast<ArrayType>(T)) {
    u64 es = DL.getTypeAllocSize(A->getElementType());
    for (u64 i = 0; i < A->getNumElements(); i++) flatten(DL, A->getElementType(), off + i * es, out);
  } else if (auto *V = dyn_cast<FixedVectorType>(T)) {
    u64 eb = DL.getTypeSizeInBits(V->getElementType());
    for (u64 i = 0; i < V->getNumElements(); i++) {
      Leaf l{(u32)(off + i * eb / 8), (u16)eb, 0};
      if (V->getElementType()->isFloatTy()) l.flt = 1;
      if (V->getElementType()->isDoubleTy()) l.flt = 2;
      out.push_back(l);
    }
  } else if (T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy()) {
  } else {
    Leaf l{(u32)off, (u16)DL.getTypeSizeInBits(T), 0};
    if (T->isFloatTy()) l.flt = 1;
    else if (T->isDoubleTy()) l.flt = 2;
    else if (!T->isIntegerTy() && !T->isPointerTy()) l.flt = 3;
    out.push_back(l);
  }
}
const TyInfo *Interp::ty(Type *T) {
  auto it = tys.find(T);
  if (it != tys.end()) return it->second;
  auto *t = new TyInfo;
  flatten(*DL, T, 0, t->leaves);
  t->size = T->isSized() ? (u64)DL->getTypeAllocSize(T) : 0;
  return tys[T] = t;
}

FuncInfo *Interp::fi(const Function *F) { return fmap[F]; }

// ---------------------------------------------------------------- memory
u32 Interp::newObj(u64 base, u64 size, u8 kind) {
  u32 id;
  if (kind == 3 && !stackFree.empty()) {
    id = stackFree.back();
    stackFree.pop_back();
    objs[id] = Obj{base, size, nullptr, kind, false, false};
  } else {
    id = objs.size();
    objs.push_back(Obj{base, size, nullptr, kind, false, false});
  }
  u64 g0 = (base - ARENA) >> 4, gn = size ? (size + 15) >> 4 : 1;
  for (u64 i = 0; i < gn; i++) shadow[g0 + i] = id;
  return id;
}
u64 Interp::heapAlloc(u64 size, u64 align, bool) {
  if (size > (1ull << 31)) inconclusive("allocation of more than 2 GiB");
  if (align < 16) align = 16;
  u64 a = (heapTop + align - 1) & ~(align - 1);
  u64 end = a + ((size + 15) & ~15ull) + 16;
  if (size == 0) end += 16;
  if (end > ARENA + HEAPSZ) inconclusive("heap arena exhausted");
  heapTop = end;
  newObj(a, size, 2);
  return a;
}
void Interp::heapFree(u64 p) {
  if (!p) return;
  Obj *o = obj(p);
  if (!o || o->kind != 2 || o->base != p) violation("memory error: free of an invalid pointer");
  if (o->freed) violation("memory error: double free");
  o->freed = true;
  if (o->sym) { free(o->sym); o->sym = nullptr; }
}
Obj *Interp::access(u64 addr, u64 n, bool write) {
  Obj *o = obj(addr);
  if (!o || addr < o->base || addr + n > o->base + o->size || addr + n < addr) {
    char b[200];
    snprintf(b, 200, "memory error: %s of %llu bytes out of bounds (address %llx%s)", write ? "write" : "read", (unsigned long long)n, (unsigned long long)addr, o ? "" : ", no object");
    if (o) snprintf(b, 200, "memory error: %s of %llu bytes at offset %lld of a %llu-byte object", write ? "write" : "read", (unsigned long long)n, (long long)(addr - o->base), (unsigned long long)o->size);
    violation(b);
  }
  if (o->freed) violation(write ? "memory error: write after free" : "memory error: read after free");
  return o;
}
static inline u64 rdle(u64 a, unsigned n) {
  u64 v = 0;
  memcpy(&v, (void *)a, n);
  return v;
}
Val Interp::load(u64 addr, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = access(addr, n, false);
  if (o->sym) {
    E *s = o->sym + (addr - o->base);
    bool any = false;
    for (unsigned i = 0; i < n; i++) if (s[i]) { any = true; break; }
    if (any) {
      E r = nullptr;
      for (unsigned i = 0; i < n; i++) {
        E b = s[i] ? s[i] : eConst(*(u8 *)(addr + i), 8);
        r = r ? eConcat(b, r) : b;
      }
      if (w != n * 8) r = eExtract(r, 0, w);
      return fromE(r);
    }
  }
  if (n <= 8) {
    u64 v = rdle(addr, n);
    if (w < 64) v &= (1ull << w) - 1;
    return Val{v, 0, nullptr};
  }
  u128 v = 0;
  memcpy(&v, (void *)addr, n > 16 ? 16 : n);
  return mkC(v & maskw(w));
}
static void setSymByte(Obj *o, u64 off, E e) {
  if (e && isC(e)) {
    *(u8 *)(o->base + off) = (u8)e->val;
    e = nullptr;
  }
  if (e && !o->sym) o->sym = (E *)calloc(o->size ? o->size : 1, sizeof(E));
  if (o->sym) o->sym[off] = e;
}
void Interp::store(u64 addr, const Val &v, unsigned w) {
  unsigned n = (w + 7) / 8;
  Obj *o = access(addr, n, true);
  if (o->ro) violation("memory error: write to constant data");
  u64 off = addr - o->base;
  if (v.e) {
    E e = v.e;
    if (w != n * 8) e = eZExt(e, n * 8);
    for (unsigned i = 0; i < n; i++) setSymByte(o, off + i, eExtract(e, 8 * i, 8));
    return;
  }
  if (n <= 8) memcpy((void *)addr, &v.lo, n);
  else {
    u128 x = cv(v);
    memcpy((void *)addr, &x, n);
  }
  if (o->sym) for (unsigned i = 0; i < n; i++) o->sym[off + i] = nullptr;
}
E Interp::byteAt(u64 a) { return toE(load(a, 8), 8); }

void Interp::copyMem(u64 d, u64 s, u64 n) {
  if (!n || d == s) return;
  Obj *so = access(s, n, false);
  E *ss = so->sym ? so->sym + (s - so->base) : nullptr;
  Obj *dd = access(d, n, true);
  if (dd->ro) violation("memory error: write to constant data");
  memmove((void *)d, (void *)s, n);
  if (!ss && !dd->sym) return;
  if (!ss) { memset(dd->sym + (d - dd->base), 0, n * sizeof(E)); return; }
  if (!dd->sym) {
    bool any = false;
    for (u64 i = 0; i < n && !any; i++) any = ss[i] != nullptr;
    if (!any) return;
    dd->sym = (E *)calloc(dd->size ? dd->size : 1, sizeof(E));
    ss = so->sym + (s - so->base);
  }
  memmove(dd->sym + (d - dd->base), ss, n * sizeof(E));
}
void Interp::setMem(u64 d, const Val &b, u64 n) {
  if (!n) return;
  Obj *o = access(d, n, true);
  if (o->ro) violation("memory error: write to constant data");
  if (b.e) {
    for (u64 i = 0; i < n; i++) setSymByte(o, d - o->base + i, b.e);
    return;
  }
  memset((void *)d, (int)b.lo, n);
  if (o->sym) memset(o->sym + (d - o->base), 0, n * sizeof(E));
}

static unsigned knownTZ(E e) {
  switch (e->k) {
    case K::Const: { if (!e->val) return e->w; unsigned s = 0; while (!((e->val >> s) & 1)) s++; return s; }
    case K::Concat: { unsigned l = knownTZ(e->b); return l < e->b->w ? l : l + knownTZ(e->a); }
    case K::Add: case K::Sub: case K::Or: case K::Xor: return std::min(knownTZ(e->a), knownTZ(e->b));
    case K::Mul: return std::min<unsigned>(e->w, knownTZ(e->a) + knownTZ(e->b));
    case K::Ite: return std::min(knownTZ(e->b), knownTZ(e->c));
    default: return 0;
  }
}

Val Interp::loadSym(E addr, unsigned w, bool) {
  unsigned n = (w + 7) / 8;
  Obj *o;
  for (;;) {
    u64 a = (u64)evalExpr(addr, model);
    o = access(a, n, false);
    if (o->size - n <= 0xffffffffull) {
      E inb = eCmp(K::Ule, eBin(K::Sub, addr, eConst(o->base, 64)), eConst(o->size - n, 64));
      if (decide(inb)) break;
    }
  }
  // Parsers read at data-dependent offsets: one path per offset keeps the expressions small.
  // Constant tables become if-then-else chains instead.
  if (o->sym && o->size <= 4096) return load((u64)concretize(Val{0, 0, addr}, 64, "symbolic load address"), w);
  {
    u64 a = (u64)evalExpr(addr, model);
    Model m2;
    if (feasible(eNot(eEq(addr, eConst(a, 64))), m2) == Res::Unsat) return load(a, w);
  }
  u64 base = o->base, size = o->size;
  unsigned tz = std::min(4u, knownTZ(eBin(K::Sub, addr, eConst(base, 64))));
  u64 stride = 1ull << tz;
  u64 cnt = (size - n) / stride + 1;
  if (cnt > 1100) {
    u64 a = (u64)concretize(Val{0, 0, addr}, 64, "symbolic load address");
    return load(a, w);
  }
  E off = eBin(K::Sub, addr, eConst(base, 64));
  E r = nullptr;
  for (u64 i = cnt; i-- > 0;) {
    E v = toE(load(base + i * stride, w), w);
    if (!r) r = v;
    else if (v != r) r = eIte(eEq(off, eConst(i * stride, 64)), v, r);
  }
  return fromE(r);
}

// ---------------------------------------------------------------- symbolic state
static void pushConj(std::vector<E> &v, E c) {
  if (c->k == K::And && c->w == 1) { pushConj(v, c->a); pushConj(v, c->b); return; }
  if (isC(c) && c->val) return;
  v.push_back(c);
}
void Interp::addPc(E c) {
  pushConj(pc, c);
  u64 m = sh->maxpc;
  if (pc.size() > m) sh->maxpc = pc.size();
}

Res Interp::feasible(E c, Model &m, bool branch) {
  if (isC(c)) { m = model; return c->val ? Res::Sat : Res::Unsat; }
  std::vector<char> in(nsyms + 1, 0), used(pc.size(), 0);
  for (u32 s : symsOf(c)) in[s] = 1;
  std::vector<E> q;
  pushConj(q, c);
  bool ch = true;
  while (ch) {
    ch = false;
    for (size_t i = 0; i < pc.size(); i++) {
      if (used[i]) continue;
      auto &ss = symsOf(pc[i]);
      bool hit = false;
      for (u32 s : ss) if (in[s]) { hit = true; break; }
      if (!hit) continue;
      used[i] = 1;
      q.push_back(pc[i]);
      for (u32 s : ss) if (!in[s]) { in[s] = 1; ch = true; }
    }
  }
  m = model;
  return solve(q, m, branch);
}

void Interp::flushStats() {
  sh->instrs += ninstr - ninstrFlushed;
  ninstrFlushed = ninstr;
  sh->queries += gStats.queries;
  sh->sat += gStats.sat;
  sh->unsat += gStats.unsat;
  sh->unknown += gStats.unknown;
  sh->domain += gStats.domain;
  sh->solverNs += (u64)(gStats.secs * 1e9);
  gStats = SolverStats{};
}

bool Interp::forkHere() {
  flushStats();
  if (sh->stop || nowS() > deadline || (sh->stopAtNs && nowS() * 1e9 > (double)sh->stopAtNs)) { sh->stop = 1; inconclusive("time budget exhausted"); }
  sh->forks++;
  bool conc = false;
  int t = sh->tokens.load();
  while (t > 0 && !(conc = sh->tokens.compare_exchange_weak(t, t - 1))) {}
  sh->live++;
  sh->started++;
  pid_t p = fork();
  if (p < 0) {
    sh->live--;
    sh->started--;
    inconclusive("fork failed");
  }
  if (p == 0) {
    isConc = conc;
    isRoot = false;
    return true;
  }
  if (!conc) {
    int st;
    waitpid(p, &st, 0);
    if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) noteInconclusive("engine process died");
  }
  return false;
}

void Interp::exitProc() {
  flushStats();
  if (isConc) sh->tokens++;
  sh->live--;
  sh->finished++;
  _exit(0);
}

static std::string jsonEsc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}
static std::string modelText(Interp &in, const Model &m) {
  std::string s;
  char b[32];
  for (auto &r : in.syms) {
    s += r.name + " ";
    if (r.conc) { for (int i = 0; i < 8; i++) { snprintf(b, 8, "%02x", (unsigned)(r.val >> (8 * i)) & 255); s += b; } }
    else for (u32 i = 0; i < r.n; i++) { snprintf(b, 8, "%02x", (unsigned)m.get(r.sym0 + i) & 255); s += b; }
    s += "\n";
  }
  return s;
}
static void writeFile(const std::string &p, const std::string &c) {
  FILE *f = fopen(p.c_str(), "w");
  if (!f) return;
  fwrite(c.data(), 1, c.size(), f);
  fclose(f);
}

void Interp::endPath() {
  u64 k = sh->paths++;
  if (k < 24 || (k & (k - 1)) == 0) {
    std::string base = outdir + "/path_" + entry + "_" + std::to_string(k);
    std::string lab;
    for (auto &n : notes) lab += n + "\n";
    writeFile(base + ".labels", lab);
    writeFile(base + ".model", modelText(*this, model));
  }
  exitProc();
}

std::string Interp::trace(int max) {
  std::string s;
  int k = 0;
  for (size_t i = fr.size(); i-- > 0 && k < max;) {
    auto &f = fr[i];
    const Instruction *I = f.f->code[f.ip].I;
    std::string nm = demangleName(f.f->F->getName().str());
    const DILocation *L = I ? I->getDebugLoc().get() : nullptr;
    if (!L) { s += "  at " + nm + "\n"; k++; continue; }
    while (L && k < max) {
      auto *SP = L->getScope()->getSubprogram();
      std::string fn = SP ? demangleName(SP->getLinkageName().empty() ? SP->getName().str() : SP->getLinkageName().str()) : nm;
      s += "  at " + fn + " (" + L->getFilename().str() + ":" + std::to_string(L->getLine()) + ")\n";
      k++;
      L = L->getInlinedAt();
    }
  }
  return s;
}

void Interp::reportViolation(const std::string &msg, const Model &m) {
  std::string key = entry + ":" + msg.substr(0, msg.find('\n'));
  bool pan = msg.compare(0, 16, "unexpected panic") == 0;
  if (pan) key += panicMsg;
  u64 h = 1469598103934665603ull;
  for (char c : key) h = (h ^ (u8)c) * 1099511628211ull;
  if (!h) h = 1;
  int slot = -1;
  for (u32 i = 0; i < 256; i++) {
    u64 z = 0;
    if (sh->vdedup[(h + i) & 255].compare_exchange_strong(z, h) || z == h) { slot = (h + i) & 255; break; }
  }
  u64 id = sh->violations++;
  u64 z0 = 0;
  sh->stopAtNs.compare_exchange_strong(z0, (u64)((nowS() + graceS) * 1e9));
  if (slot >= 0 && sh->vcount[slot]++ >= 4) return;
  std::string base = outdir + "/viol_" + entry + "_" + std::to_string(id);
  writeFile(base + ".model", modelText(*this, m));
  std::string lab;
  for (auto &n : notes) lab += n + "\n";
  writeFile(base + ".txt", msg + "\n" + trace(20) + (pan ? "panic: " + panicMsg + "\n" : "") + "labels:\n" + lab);
}
void Interp::violation(const std::string &msg, const Model *m, bool) {
  reportViolation(msg, m ? *m : model);
  sh->paths++;
  exitProc();
}
void Interp::noteInconclusive(const std::string &msg) {
  sh->inconcl++;
  if (sh->inconDone++ < 40) {
    int fd = open((outdir + "/inconclusive.log").c_str(), O_CREAT | O_APPEND | O_WRONLY, 0644);
    std::string s = entry + ": " + msg + "\n" + (fr.empty() ? "" : trace(14));
    if (write(fd, s.data(), s.size())) {}
    close(fd);
  }
}
void Interp::inconclusive(const std::string &msg) {
  noteInconclusive(msg);
  exitProc();
}

bool Interp::decide(E c) {
  if (isC(c)) return c->val;
  bool cur = evalExpr(c, model) & 1;
  E mine = cur ? c : eNot(c), other = cur ? eNot(c) : c;
  Model m2;
  Res r = feasible(other, m2);
  if (r == Res::Unsat) return cur;
  if (r == Res::Unknown) {
    noteInconclusive("solver gave up on a branch condition");
    addPc(mine);
    return cur;
  }
  if (forkHere()) {
    addPc(other);
    model = m2;
    return !cur;
  }
  addPc(mine);
  return cur;
}

u128 Interp::concretize(const Val &v, unsigned w, const char *why) {
  if (!v.e) return cv(v);
  u64 cnt = 0;
  for (;;) {
    u128 x = evalExpr(v.e, model);
    E eq = eEq(v.e, eConst(x, w));
    Model m2;
    Res r = feasible(eNot(eq), m2);
    if (r == Res::Unsat) return x;
    if (r == Res::Unknown) { noteInconclusive("solver gave up on concretization"); addPc(eq); return x; }
    if (++cnt > maxConc) inconclusive(std::string("too many values to enumerate: ") + why);
    if (forkHere()) {
      addPc(eNot(eq));
      model = m2;
      continue;
    }
    addPc(eq);
    return x;
  }
}

void Interp::assume(E c) {
  if (isC(c)) {
    if (c->val) return;
    sh->pruned++;
    exitProc();
  }
  if (evalExpr(c, model) & 1) { addPc(c); return; }
  Model m2;
  Res r = feasible(c, m2);
  if (r == Res::Unknown) inconclusive("solver gave up on an assumption");
  if (r == Res::Unsat) { sh->pruned++; exitProc(); }
  addPc(c);
  model = m2;
}

void Interp::check(E c, const std::string &msg) {
  sh->checks++;
  if (isC(c)) {
    if (c->val) return;
    violation(msg);
  }
  Model m2;
  Res r = feasible(eNot(c), m2, false);
  if (r == Res::Unsat) return;
  if (r == Res::Unknown) { noteInconclusive("solver gave up on: " + msg); addPc(c); assume(c); return; }
  reportViolation(msg, m2);
  assume(c);
}

// ---------------------------------------------------------------- constants
u64 Interp::constAddr(const Constant *C) {
  std::vector<Val> v;
  constVals(C, v);
  return v.empty() ? 0 : v[0].lo;
}
void Interp::constVals(const Constant *C, std::vector<Val> &out) {
  Type *T = C->getType();
  if (auto *CI = dyn_cast<ConstantInt>(C)) {
    const APInt &a = CI->getValue();
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    out.push_back(mkC(v & maskw(a.getBitWidth())));
    return;
  }
  if (auto *CF = dyn_cast<ConstantFP>(C)) {
    APInt a = CF->getValueAPF().bitcastToAPInt();
    u128 v = a.getRawData()[0];
    if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
    out.push_back(mkC(v));
    return;
  }
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C) || isa<ConstantPointerNull>(C)) {
    size_t k = ty(T)->leaves.size();
    for (size_t i = 0; i < k; i++) out.push_back(mkC(0));
    return;
  }
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    for (unsigned i = 0; i < D->getNumElements(); i++) constVals(D->getElementAsConstant(i), out);
    return;
  }
  if (isa<ConstantAggregate>(C)) {
    for (auto &op : C->operands()) constVals(cast<Constant>(op), out);
    return;
  }
  if (auto *F = dyn_cast<Function>(C)) { out.push_back(mkC(fi(F)->addr)); return; }
  if (auto *G = dyn_cast<GlobalVariable>(C)) { out.push_back(mkC(gaddr[G])); return; }
  if (auto *A = dyn_cast<GlobalAlias>(C)) { constVals(A->getAliasee(), out); return; }
  if (auto *CE = dyn_cast<ConstantExpr>(C)) {
    unsigned opc = CE->getOpcode();
    if (opc == Instruction::GetElementPtr) {
      u64 base = constAddr(CE->getOperand(0));
      APInt off(64, 0);
      cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off);
      out.push_back(mkC(base + off.getSExtValue()));
      return;
    }
    if (opc == Instruction::BitCast || opc == Instruction::AddrSpaceCast) { constVals(CE->getOperand(0), out); return; }
    if (opc == Instruction::PtrToInt || opc == Instruction::IntToPtr || opc == Instruction::Trunc || opc == Instruction::ZExt) {
      u64 v = constAddr(CE->getOperand(0));
      out.push_back(mkC((u128)v & maskw(DL->getTypeSizeInBits(T))));
      return;
    }
    if (CE->getNumOperands() == 2) {
      u64 a = constAddr(CE->getOperand(0)), b = constAddr(CE->getOperand(1));
      unsigned w = DL->getTypeSizeInBits(T);
      K k = opc == Instruction::Add ? K::Add : opc == Instruction::Sub ? K::Sub : opc == Instruction::Mul ? K::Mul : opc == Instruction::And ? K::And : opc == Instruction::Or ? K::Or : opc == Instruction::Xor ? K::Xor : opc == Instruction::Shl ? K::Shl : opc == Instruction::LShr ? K::LShr : K::Const;
      if (k != K::Const) { bool ok; out.push_back(mkC(foldBin(k, a, b, w, ok))); return; }
      if (opc == Instruction::ICmp) {
        auto p = CE->getPredicate();
        bool r = p == CmpInst::ICMP_EQ ? a == b : p == CmpInst::ICMP_NE ? a != b : p == CmpInst::ICMP_ULT ? a < b : p == CmpInst::ICMP_UGT ? a > b : p == CmpInst::ICMP_ULE ? a <= b : a >= b;
        out.push_back(mkC(r));
        return;
      }
    }
    if (opc == Instruction::Select) { constVals(CE->getOperand(constAddr(CE->getOperand(0)) ? 1 : 2), out); return; }
  }
  std::string s;
  raw_string_ostream os(s);
  C->print(os);
  fprintf(stderr, "unsupported constant: %s\n", os.str().c_str());
  for (size_t i = 0; i < ty(T)->leaves.size(); i++) out.push_back(mkC(0));
}
void Interp::writeConst(u64 addr, const Constant *C) {
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) return;
  if (auto *D = dyn_cast<ConstantDataSequential>(C)) {
    StringRef r = D->getRawDataValues();
    memcpy((void *)addr, r.data(), r.size());
    return;
  }
  if (auto *S = dyn_cast<ConstantStruct>(C)) {
    auto *L = DL->getStructLayout(S->getType());
    for (unsigned i = 0; i < S->getNumOperands(); i++) writeConst(addr + L->getElementOffset(i), S->getOperand(i));
    return;
  }
  if (auto *A = dyn_cast<ConstantArray>(C)) {
    u64 es = DL->getTypeAllocSize(A->getType()->getElementType());
    for (unsigned i = 0; i < A->getNumOperands(); i++) writeConst(addr + i * es, A->getOperand(i));
    return;
  }
  std::vector<Val> v;
  constVals(C, v);
  auto *t = ty(C->getType());
  for (size_t i = 0; i < v.size(); i++) {
    u128 x = cv(v[i]);
    memcpy((void *)(addr + t->leaves[i].off), &x, (t->leaves[i].w + 7) / 8);
  }
}

void Interp::init() {
  DL = &M->getDataLayout();
  void *p = mmap((void *)ARENA, HEAPSZ + STACKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
  if (p != (void *)ARENA) { perror("mmap arena"); exit(3); }
  shadow = (u32 *)mmap(nullptr, (HEAPSZ + STACKSZ) / 16 * 4, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regFile = (Val *)mmap(nullptr, 1ull << 30, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  regTop = regFile;
  objs.push_back(Obj{});
  fr.reserve(20100);
  for (auto &F : *M) {
    auto *f = new FuncInfo;
    f->F = &F;
    f->id = funcs.size();
    f->addr = CODE0 + 16ull * (funcs.size() + 1);
    funcs.push_back(f);
    fmap[&F] = f;
    f->block0 = nblocks;
    for (auto &B : F) { blockId[&B] = nblocks++; blockList.push_back(&B); }
    f->h = findHandler(*this, &F, f->isPanic);
    if (F.getName() == "__vp_panic") panicFn = f;
  }
  for (auto &G : M->globals()) {
    u64 size = G.getValueType()->isSized() ? (u64)DL->getTypeAllocSize(G.getValueType()) : 0;
    u64 al = std::max<u64>(16, G.getAlign() ? G.getAlign()->value() : 1);
    u64 a = (heapTop + al - 1) & ~(al - 1);
    heapTop = a + ((size + 15) & ~15ull) + 32;
    u32 id = newObj(a, size, 1);
    objs[id].ro = G.isConstant() && G.hasInitializer();
    gaddr[&G] = a;
  }
  for (auto &G : M->globals())
    if (G.hasInitializer()) writeConst(gaddr[&G], G.getInitializer());
}

// ---------------------------------------------------------------- decoding
void Interp::decode(FuncInfo *f) {
  f->decoded = true;
  Function &F = *f->F;
  std::unordered_map<const Value *, u32> slot;
  std::unordered_map<const Value *, u32> cslot;
  u32 ns = 0;
  for (auto &A : F.args()) {
    slot[&A] = ns;
    f->paramSlot.push_back(ns);
    ns += ty(A.getType())->leaves.size();
  }
  for (auto &B : F)
    for (auto &I : B) {
      size_t k = ty(I.getType())->leaves.size();
      if (k) { slot[&I] = ns; ns += k; }
    }
  f->nslots = ns;
  f->nret = ty(F.getReturnType())->leaves.size();
  auto opnd = [&](const Value *V) -> u32 {
    auto it = slot.find(V);
    if (it != slot.end()) return it->second;
    auto c = cslot.find(V);
    if (c != cslot.end()) return c->second;
    u32 idx = 0x80000000u | (u32)f->consts.size();
    if (auto *C = dyn_cast<Constant>(V)) {
      constVals(C, f->consts);
      cslot[V] = idx;
    }
    return idx;
  };
  auto W = [&](Type *T) -> u16 {
    if (auto *V = dyn_cast<VectorType>(T)) T = V->getElementType();
    if (T->isAggregateType() || T->isVoidTy() || !T->isSized()) return 0;
    return DL->getTypeSizeInBits(T);
  };
  auto N = [&](Type *T) -> u32 { return ty(T)->leaves.size(); };
  std::unordered_map<const BasicBlock *, u32> bstart;
  // first pass: instruction indices (phis are dropped)
  u32 ip = 0;
  for (auto &B : F) {
    bstart[&B] = ip;
    for (auto &I : B) if (!isa<PHINode>(I)) ip++;
  }
  auto mkEdge = [&](const BasicBlock *from, const BasicBlock *to) -> u32 {
    Edge e;
    e.target = bstart[to];
    e.moveBegin = f->moves.size();
    e.block = blockId[to];
    for (auto &P : to->phis()) {
      u32 d = slot[&P], s = opnd(P.getIncomingValueForBlock(from));
      for (u32 i = 0; i < N(P.getType()); i++) if (d + i != s + i) f->moves.push_back({d + i, s + i});
    }
    e.moveCnt = f->moves.size() - e.moveBegin;
    f->edges.push_back(e);
    return f->edges.size() - 1;
  };
  for (auto &B : F) {
    for (auto &I : B) {
      if (isa<PHINode>(I)) continue;
      Ins x;
      x.I = &I;
      x.op = Op::Nop;
      x.dst = slot.count(&I) ? slot[&I] : 0;
      x.w = W(I.getType());
      x.n = N(I.getType());
      unsigned opc = I.getOpcode();
      auto bin = [&](K k) {
        x.op = Op::Bin;
        x.sub = (u8)k;
        x.a = opnd(I.getOperand(0));
        x.b = opnd(I.getOperand(1));
      };
      switch (opc) {
        case Instruction::Add: bin(K::Add); break;
        case Instruction::Sub: bin(K::Sub); break;
        case Instruction::Mul: bin(K::Mul); break;
        case Instruction::UDiv: bin(K::UDiv); break;
        case Instruction::SDiv: bin(K::SDiv); break;
        case Instruction::URem: bin(K::URem); break;
        case Instruction::SRem: bin(K::SRem); break;
        case Instruction::And: bin(K::And); break;
        case Instruction::Or: bin(K::Or); break;
        case Instruction::Xor: bin(K::Xor); break;
        case Instruction::Shl: bin(K::Shl); break;
        case Instruction::LShr: bin(K::LShr); break;
        case Instruction::AShr: bin(K::AShr); break;
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem:
          x.op = Op::Float; x.sub = opc - Instruction::Add; x.flag = opc; x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
        case Instruction::FNeg: x.op = Op::FNeg; x.a = opnd(I.getOperand(0)); break;
        case Instruction::FCmp: x.op = Op::FCmp; x.w2 = W(I.getOperand(0)->getType()); x.sub = cast<FCmpInst>(I).getPredicate(); x.a = opnd(I.getOperand(0)); x.b = opnd(I.getOperand(1)); break;
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPTrunc: case Instruction::FPExt:
          x.op = Op::FCast; x.sub = opc; x.w2 = W(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
        case Instruction::ICmp:
          x.op = Op::ICmp;
          x.w2 = W(I.getOperand(0)->getType());
          x.sub = cast<ICmpInst>(I).getPredicate();
          x.a = opnd(I.getOperand(0));
          x.b = opnd(I.getOperand(1));
          break;
        case Instruction::Select:
          x.op = Op::Select;
          x.flag = I.getOperand(0)->getType()->isVectorTy();
          x.c = opnd(I.getOperand(0));
          x.a = opnd(I.getOperand(1));
          x.b = opnd(I.getOperand(2));
          x.ty = ty(I.getType());
          break;
        case Instruction::Load:
          x.op = Op::Load;
          x.a = opnd(I.getOperand(0));
          x.ty = ty(I.getType());
          break;
        case Instruction::Store:
          x.op = Op::Store;
          x.a = opnd(I.getOperand(0));
          x.b = opnd(I.getOperand(1));
          x.ty = ty(I.getOperand(0)->getType());
          x.n = x.ty->leaves.size();
          break;
        case Instruction::GetElementPtr: {
          auto &G = cast<GetElementPtrInst>(I);
          x.op = Op::Gep;
          x.a = opnd(G.getPointerOperand());
          MapVector<Value *, APInt> vars;
          APInt c(64, 0);
          if (G.getType()->isVectorTy() || !G.collectOffset(*DL, 64, vars, c)) { x.op = Op::Unreachable; x.flag = 7; break; }
          x.imm = c.getSExtValue();
          x.x0 = f->geps.size();
          for (auto &v : vars) f->geps.push_back({opnd(v.first), (i128)v.second.getSExtValue(), W(v.first->getType())});
          x.xn = f->geps.size() - x.x0;
          break;
        }
        case Instruction::Alloca: {
          auto &A = cast<AllocaInst>(I);
          x.op = Op::Alloca;
          x.a = opnd(A.getArraySize());
          x.w2 = W(A.getArraySize()->getType());
          x.imm = DL->getTypeAllocSize(A.getAllocatedType());
          x.x0 = A.getAlign().value();
          break;
        }
        case Instruction::Br: {
          auto &Br = cast<BranchInst>(I);
          if (Br.isConditional()) {
            x.op = Op::CondBr;
            x.a = opnd(Br.getCondition());
            x.b = mkEdge(&B, Br.getSuccessor(0));
            x.c = mkEdge(&B, Br.getSuccessor(1));
          } else {
            x.op = Op::Br;
            x.b = mkEdge(&B, Br.getSuccessor(0));
          }
          break;
        }
        case Instruction::Switch: {
          auto &S = cast<SwitchInst>(I);
          x.op = Op::Switch;
          x.w = W(S.getCondition()->getType());
          x.a = opnd(S.getCondition());
          x.b = mkEdge(&B, S.getDefaultDest());
          std::map<const BasicBlock *, u32> em;
          em[S.getDefaultDest()] = x.b;
          x.x0 = f->cases.size();
          std::vector<Case> cs;
          for (auto &c : S.cases()) {
            auto *t = c.getCaseSuccessor();
            if (!em.count(t)) em[t] = mkEdge(&B, t);
            const APInt &a = c.getCaseValue()->getValue();
            u128 v = a.getRawData()[0];
            if (a.getNumWords() > 1) v |= (u128)a.getRawData()[1] << 64;
            cs.push_back({v, em[t]});
          }
          x.x0 = f->cases.size();
          for (auto &c : cs) f->cases.push_back(c);
          x.xn = cs.size();
          break;
        }
        case Instruction::Ret:
          x.op = Op::Ret;
          if (I.getNumOperands()) { x.a = opnd(I.getOperand(0)); x.n = N(I.getOperand(0)->getType()); }
          else x.n = 0;
          break;
        case Instruction::Unreachable: x.op = Op::Unreachable; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto &C = cast<CallBase>(I);
          x.op = opc == Instruction::Call ? Op::Call : Op::Invoke;
          Value *cal = C.getCalledOperand()->stripPointerCasts();
          if (auto *GA = dyn_cast<GlobalAlias>(cal)) cal = GA->getAliasee()->stripPointerCasts();
          if (auto *CF = dyn_cast<Function>(cal)) x.callee = fi(CF);
          else if (isa<InlineAsm>(cal)) { x.flag = 9; }
          else x.a = opnd(cal);
          std::vector<Arg> as;
          for (unsigned i = 0; i < C.arg_size(); i++) {
            Value *A = C.getArgOperand(i);
            if (A->getType()->isMetadataTy()) continue;
            Arg g{opnd(A), N(A->getType()), W(A->getType()), 0};
            if (C.isByValArgument(i)) g.byval = DL->getTypeAllocSize(C.getParamByValType(i));
            as.push_back(g);
          }
          x.x0 = f->args.size();
          for (auto &g : as) f->args.push_back(g);
          x.xn = as.size();
          if (auto *IV = dyn_cast<InvokeInst>(&I)) {
            x.b = mkEdge(&B, IV->getNormalDest());
            x.c = mkEdge(&B, IV->getUnwindDest());
          }
          break;
        }
        case Instruction::ZExt: x.op = Op::ZExt; x.w2 = W(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
        case Instruction::SExt: x.op = Op::SExt; x.w2 = W(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
        case Instruction::Trunc: x.op = Op::Trunc; x.w2 = W(I.getOperand(0)->getType()); x.a = opnd(I.getOperand(0)); break;
        case Instruction::PtrToInt: case Instruction::IntToPtr: {
          x.w2 = W(I.getOperand(0)->getType());
          x.a = opnd(I.getOperand(0));
          x.op = x.w == x.w2 ? Op::Mov : x.w > x.w2 ? Op::ZExt : Op::Trunc;
          break;
        }
        case Instruction::Freeze: case Instruction::AddrSpaceCast:
          x.op = Op::Mov;
          x.a = opnd(I.getOperand(0));
          break;
        case Instruction::BitCast:
          x.a = opnd(I.getOperand(0));
          x.w2 = W(I.getOperand(0)->getType());
          x.c = N(I.getOperand(0)->getType());
          x.op = (x.w == x.w2 && x.n == x.c) ? Op::Mov : Op::Bitcast;
          break;
        case Instruction::ExtractValue: {
          auto &X = cast<ExtractValueInst>(I);
          Type *T = X.getAggregateOperand()->getType();
          u32 off = 0;
          for (unsigned ix : X.indices()) {
            for (unsigned j = 0; j < ix; j++) off += N(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType());
            T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
          }
          x.op = Op::Mov;
          x.a = opnd(X.getAggregateOperand()) + off;
          break;
        }
        case Instruction::InsertValue: {
          auto &X = cast<InsertValueInst>(I);
          Type *T = X.getAggregateOperand()->getType();
          u32 off = 0;
          for (unsigned ix : X.indices()) {
            for (unsigned j = 0; j < ix; j++) off += N(isa<StructType>(T) ? cast<StructType>(T)->getElementType(j) : cast<ArrayType>(T)->getElementType());
            T = isa<StructType>(T) ? cast<StructType>(T)->getElementType(ix) : cast<ArrayType>(T)->getElementType();
          }
          x.op = Op::InsertVal;
          x.a = opnd(X.getAggregateOperand());
          x.b = opnd(X.getInsertedValueOperand());
          x.x0 = off;
          x.xn = N(X.getInsertedValueOperand()->getType());
          break;
        }
        case Instruction::ExtractElement:
          x.op = Op::ExtractElt;
          x.a = opnd(I.getOperand(0));
          x.c = N(I.getOperand(0)->getType());
          x.b = opnd(I.getOperand(1));
          x.w2 = W(I.getOperand(1)->getType());
          break;
        case Instruction::InsertElement:
          x.op = Op::InsertElt;
          x.a = opnd(I.getOperand(0));
          x.b = opnd(I.getOperand(1));
          x.c = opnd(I.getOperand(2));
          x.w2 = W(I.getOperand(2)->getType());
          break;
        case Instruction::ShuffleVector: {
          auto &S = cast<ShuffleVectorInst>(I);
          x.op = Op::Shuffle;
          x.a = opnd(I.getOperand(0));
          x.b = opnd(I.getOperand(1));
          x.c = N(I.getOperand(0)->getType());
          x.x0 = f->ints.size();
          for (int m : S.getShuffleMask()) f->ints.push_back(m);
          break;
        }
        case Instruction::LandingPad: x.op = Op::LandingPad; break;
        case Instruction::Resume: x.op = Op::Resume; x.a = opnd(I.getOperand(0)); break;
        case Instruction::AtomicRMW: {
          auto &A = cast<AtomicRMWInst>(I);
          x.op = Op::AtomicRMW;
          x.sub = A.getOperation();
          x.a = opnd(A.getPointerOperand());
          x.b = opnd(A.getValOperand());
          break;
        }
        case Instruction::AtomicCmpXchg: {
          auto &A = cast<AtomicCmpXchgInst>(I);
          x.op = Op::CmpXchg;
          x.w = W(A.getCompareOperand()->getType());
          x.a = opnd(A.getPointerOperand());
          x.b = opnd(A.getCompareOperand());
          x.c = opnd(A.getNewValOperand());
          break;
        }
        case Instruction::Fence: x.op = Op::Nop; break;
        default: x.op = Op::Unreachable; x.flag = 8; break;
      }
      f->code.push_back(x);
    }
  }
}

// ---------------------------------------------------------------- execution
void Interp::pushFrame(FuncInfo *f, const Val *args, u32 nargs, const Ins *) {
  if (!f->decoded) decode(f);
  if (fr.size() > 20000) violation("stack overflow (call depth above 20000)");
  Frame n;
  n.f = f;
  n.ip = 0;
  n.regs = regTop;
  n.sp = stackTop;
  n.allocaTop = allocas.size();
  regTop += f->nslots;
  for (u32 i = 0; i < nargs; i++) n.regs[i] = args[i];
  fr.push_back(n);
  sh->cov[f->block0] = 1;
}
void Interp::popFrame() {
  Frame &n = fr.back();
  while (allocas.size() > n.allocaTop) {
    u32 id = allocas.back();
    allocas.pop_back();
    Obj &o = objs[id];
    u64 g0 = (o.base - ARENA) >> 4, gn = o.size ? (o.size + 15) >> 4 : 1;
    for (u64 i = 0; i < gn; i++) shadow[g0 + i] = 0;
    if (o.sym) { free(o.sym); o.sym = nullptr; }
    stackFree.push_back(id);
  }
  stackTop = n.sp;
  regTop = n.regs;
  fr.pop_back();
}

void Interp::raisePanic(const std::string &msg) {
  panicMsg = msg + "\n" + trace(14);
  if (!panicFn) violation("panic: " + panicMsg);
  pushFrame(panicFn, nullptr, 0, nullptr);
}

void Interp::unwind(u64 exc) {
  excPtr = exc;
  while (!fr.empty()) {
    Frame &F = fr.back();
    const Ins &I = F.f->code[F.ip];
    if (I.op == Op::Invoke) {
      const Edge &e = F.f->edges[I.c];
      std::vector<Val> tmp;
      for (u32 i = 0; i < e.moveCnt; i++) {
        u32 s = F.f->moves[e.moveBegin + i].second;
        tmp.push_back((s & 0x80000000u) ? F.f->consts[s & 0x7fffffff] : F.regs[s]);
      }
      for (u32 i = 0; i < e.moveCnt; i++) F.regs[F.f->moves[e.moveBegin + i].first] = tmp[i];
      F.ip = e.target;
      sh->cov[e.block] = 1;
      return;
    }
    popFrame();
  }
  violation("uncaught panic: " + panicMsg);
}

void Interp::tick() {
  if (sh->stop || nowS() > deadline || (sh->stopAtNs && nowS() * 1e9 > (double)sh->stopAtNs)) { sh->stop = 1; inconclusive("time budget exhausted"); }
  if (ninstr > maxInstr) violation("does not terminate within the instruction budget");
}



static E icmpE(unsigned p, E a, E b) {
  switch (p) {
    case CmpInst::ICMP_EQ: return eEq(a, b);
    case CmpInst::ICMP_NE: return eNot(eEq(a, b));
    case CmpInst::ICMP_UGT: return eCmp(K::Ult, b, a);
    case CmpInst::ICMP_UGE: return eCmp(K::Ule, b, a);
    case CmpInst::ICMP_ULT: return eCmp(K::Ult, a, b);
    case CmpInst::ICMP_ULE: return eCmp(K::Ule, a, b);
    case CmpInst::ICMP_SGT: return eCmp(K::Slt, b, a);
    case CmpInst::ICMP_SGE: return eCmp(K::Sle, b, a);
    case CmpInst::ICMP_SLT: return eCmp(K::Slt, a, b);
    default: return eCmp(K::Sle, a, b);
  }
}
static bool icmpC(unsigned p, u128 a, u128 b, unsigned w) {
  switch (p) {
    case CmpInst::ICMP_EQ: return a == b;
    case CmpInst::ICMP_NE: return a != b;
    case CmpInst::ICMP_UGT: return a > b;
    case CmpInst::ICMP_UGE: return a >= b;
    case CmpInst::ICMP_ULT: return a < b;
    case CmpInst::ICMP_ULE: return a <= b;
    case CmpInst::ICMP_SGT: return sextw(a, w) > sextw(b, w);
    case CmpInst::ICMP_SGE: return sextw(a, w) >= sextw(b, w);
    case CmpInst::ICMP_SLT: return sextw(a, w) < sextw(b, w);
    default: return sextw(a, w) <= sextw(b, w);
  }
}
static double getD(const Val &v, unsigned w) {
  if (w == 32) { u32 x = v.lo; float f; memcpy(&f, &x, 4); return f; }
  double d;
  memcpy(&d, &v.lo, 8);
  return d;
}
static Val putD(double d, unsigned w) {
  if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return mkC(x); }
  u64 x;
  memcpy(&x, &d, 8);
  return mkC(x);
}
void Interp::execFloat(const Ins &I, Val *R, const FuncInfo *f) {
  auto V = [&](u32 i) -> const Val & { return (i & 0x80000000u) ? f->consts[i & 0x7fffffff] : R[i]; };
  for (u32 i = 0; i < I.n; i++) {
    Val a = V(I.a + i), b = (I.op == Op::Float || I.op == Op::FCmp) ? V(I.b + i) : mkC(0);
    if (a.e || b.e) inconclusive("symbolic floating-point operation");
    if (I.op == Op::Float) {
      unsigned opc = I.flag;
      if (I.w == 32) {
        float x = getD(a, 32), y = getD(b, 32), r;
        r = opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : opc == Instruction::FDiv ? x / y : fmodf(x, y);
        R[I.dst + i] = putD(r, 32);
      } else {
        double x = getD(a, 64), y = getD(b, 64), r;
        r = opc == Instruction::FAdd ? x + y : opc == Instruction::FSub ? x - y : opc == Instruction::FMul ? x * y : opc == Instruction::FDiv ? x / y : fmod(x, y);
        R[I.dst + i] = putD(r, 64);
      }
    } else if (I.op == Op::FNeg) {
      R[I.dst + i] = mkC(a.lo ^ (I.w == 32 ? 0x80000000ull : 0x8000000000000000ull));
    } else if (I.op == Op::FCmp) {
      double x = getD(a, I.w2), y = getD(b, I.w2);
      bool un = std::isnan(x) || std::isnan(y), r = false;
      unsigned p = I.sub;
      r = ((p & 1) && !un && x == y) || ((p & 2) && !un && x > y) || ((p & 4) && !un && x < y) || ((p & 8) && un);
      R[I.dst + i] = mkC(r);
    } else {
      switch (I.sub) {
        case Instruction::FPToUI: R[I.dst + i] = mkC((u128)getD(a, I.w2) & maskw(I.w)); break;
        case Instruction::FPToSI: R[I.dst + i] = mkC((u128)(i128)getD(a, I.w2) & maskw(I.w)); break;
        case Instruction::UIToFP: R[I.dst + i] = I.w == 32 ? putD((float)cv(a), 32) : putD((double)cv(a), 64); break;
        case Instruction::SIToFP: { i128 s = sextw(cv(a), I.w2); R[I.dst + i] = I.w == 32 ? putD((float)s, 32) : putD((double)s, 64); break; }
        default: R[I.dst + i] = putD(getD(a, I.w2), I.w); break;
      }
    }
  }
}

void Interp::run(FuncInfo *f) {
  pushFrame(f, nullptr, 0, nullptr);
  loop();
}

void Interp::loop() {
  Val tmp[64];
  std::vector<Val> big;
reload:
  if (fr.empty()) endPath();
  Frame *F = &fr.back();
  FuncInfo *f = F->f;
  Val *R = F->regs;
  const Ins *code = f->code.data();
  const Val *Cn = f->consts.data();
#define V(i) (((i)&0x80000000u) ? Cn[(i)&0x7fffffffu] : R[i])
  auto takeEdge = [&](u32 ei) {
    const Edge &e = f->edges[ei];
    sh->cov[e.block] = 1;
    if (e.moveCnt == 1) {
      auto &m = f->moves[e.moveBegin];
      R[m.first] = V(m.second);
    } else if (e.moveCnt) {
      if (e.moveCnt <= 64) {
        for (u32 i = 0; i < e.moveCnt; i++) tmp[i] = V(f->moves[e.moveBegin + i].second);
        for (u32 i = 0; i < e.moveCnt; i++) R[f->moves[e.moveBegin + i].first] = tmp[i];
      } else {
        big.resize(e.moveCnt);
        for (u32 i = 0; i < e.moveCnt; i++) big[i] = V(f->moves[e.moveBegin + i].second);
        for (u32 i = 0; i < e.moveCnt; i++) R[f->moves[e.moveBegin + i].first] = big[i];
      }
    }
    F->ip = e.target;
  };
  for (;;) {
    const Ins &I = code[F->ip];
    if ((++ninstr & 0xffff) == 0) tick();
    switch (I.op) {
      case Op::Nop: F->ip++; break;
      case Op::Bin: {
        for (u32 i = 0; i < I.n; i++) {
          const Val &a = V(I.a + i), &b = V(I.b + i);
          Val &d = R[I.dst + i];
          if (!a.e && !b.e) {
            if (I.w <= 64) {
              u64 x = a.lo, y = b.lo, m = I.w == 64 ? ~0ull : (1ull << I.w) - 1, r;
              switch ((K)I.sub) {
                case K::Add: r = (x + y) & m; break;
                case K::Sub: r = (x - y) & m; break;
                case K::Mul: r = (x * y) & m; break;
                case K::And: r = x & y; break;
                case K::Or: r = x | y; break;
                case K::Xor: r = x ^ y; break;
                case K::Shl: r = y >= I.w ? 0 : (x << y) & m; break;
                case K::LShr: r = y >= I.w ? 0 : x >> y; break;
                default: {
                  bool ok;
                  r = (u64)foldBin((K)I.sub, x, y, I.w, ok);
                  if (!ok) violation("division by zero");
                }
              }
              d = Val{r, 0, nullptr};
            } else {
              bool ok;
              u128 r = foldBin((K)I.sub, cv(a), cv(b), I.w, ok);
              if (!ok) violation("division by zero");
              d = mkC(r);
            }
          } else {
            if ((K)I.sub >= K::UDiv && (K)I.sub <= K::SRem && b.e) {
              if (decide(eEq(b.e, eConst(0, I.w)))) violation("division by zero");
            }
            d = fromE(eBin((K)I.sub, toE(a, I.w), toE(b, I.w)));
          }
        }
        F->ip++;
        break;
      }
      case Op::ICmp: {
        for (u32 i = 0; i < I.n; i++) {
          const Val &a = V(I.a + i), &b = V(I.b + i);
          if (!a.e && !b.e) R[I.dst + i] = Val{(u64)icmpC(I.sub, cv(a), cv(b), I.w2), 0, nullptr};
          else R[I.dst + i] = fromE(icmpE(I.sub, toE(a, I.w2), toE(b, I.w2)));
        }
        F->ip++;
        break;
      }
      case Op::Select: {
        for (u32 i = 0; i < I.n; i++) {
          const Val &c = V(I.c + (I.flag ? i : 0));
          if (!c.e) R[I.dst + i] = c.lo ? V(I.a + i) : V(I.b + i);
          else {
            unsigned w = I.ty->leaves[i].w;
            R[I.dst + i] = fromE(eIte(c.e, toE(V(I.a + i), w), toE(V(I.b + i), w)));
          }
        }
        F->ip++;
        break;
      }
      case Op::Load: {
        Val p = V(I.a);
        if (!p.e) {
          for (u32 i = 0; i < I.n; i++) R[I.dst + i] = load(p.lo + I.ty->leaves[i].off, I.ty->leaves[i].w);
        } else {
          for (u32 i = 0; i < I.n; i++) {
            E a = eBin(K::Add, p.e, eConst(I.ty->leaves[i].off, 64));
            R[I.dst + i] = loadSym(a, I.ty->leaves[i].w, false);
          }
        }
        F->ip++;
        break;
      }
      case Op::Store: {
        Val p = V(I.b);
        u64 a = p.e ? (u64)concretize(p, 64, "symbolic store address") : p.lo;
        // vectors of sub-byte lanes are not stored by rustc
        for (u32 i = 0; i < I.n; i++) store(a + I.ty->leaves[i].off, V(I.a + i), I.ty->leaves[i].w);
        F->ip++;
        break;
      }
      case Op::Gep: {
        const Val &b = V(I.a);
        u64 acc = b.lo + (u64)I.imm;
        E se = b.e;
        bool sym = b.e;
        if (sym) acc = (u64)I.imm;
        for (u32 i = 0; i < I.xn; i++) {
          const GepIdx &g = f->geps[I.x0 + i];
          const Val &v = V(g.slot);
          if (v.e) {
            E t = g.w < 64 ? eSExt(v.e, 64) : g.w > 64 ? eExtract(v.e, 0, 64) : v.e;
            t = eBin(K::Mul, t, eConst((u64)g.scale, 64));
            se = se ? eBin(K::Add, se, t) : t;
            sym = true;
          } else acc += (u64)((i128)(int64_t)(g.w < 64 ? (u64)sextw(v.lo, g.w) : v.lo) * g.scale);
        }
        R[I.dst] = sym ? fromE(eBin(K::Add, se, eConst(acc, 64))) : Val{acc, 0, nullptr};
        F->ip++;
        break;
      }
      case Op::Alloca: {
        u64 n = (u64)concretize(V(I.a), I.w2, "alloca size") * (u64)I.imm;
        u64 al = std::max<u64>(16, I.x0);
        u64 a = (stackTop + al - 1) & ~(al - 1);
        u64 end = a + ((n + 15) & ~15ull) + 16 + (n ? 0 : 16);
        if (end > ARENAEND) violation("stack overflow");
        stackTop = end;
        allocas.push_back(newObj(a, n, 3));
        R[I.dst] = mkC(a);
        F->ip++;
        break;
      }
      case Op::Br: takeEdge(I.b); break;
      case Op::CondBr: {
        const Val &c = V(I.a);
        bool t = c.e ? decide(c.e) : c.lo;
        takeEdge(t ? I.b : I.c);
        break;
      }
      case Op::Switch: {
        const Val &c = V(I.a);
        u32 e = I.b;
        if (!c.e) {
          u128 x = cv(c);
          for (u32 i = 0; i < I.xn; i++) if (f->cases[I.x0 + i].v == x) { e = f->cases[I.x0 + i].edge; break; }
        } else {
          // one condition per destination
          std::vector<std::pair<u32, E>> dests;
          E any = eConst(0, 1);
          for (u32 i = 0; i < I.xn; i++) {
            auto &cs = f->cases[I.x0 + i];
            E q = eEq(c.e, eConst(cs.v, I.w));
            any = eOr(any, q);
            if (cs.edge == I.b) continue;
            bool found = false;
            for (auto &d : dests) if (d.first == cs.edge) { d.second = eOr(d.second, q); found = true; }
            if (!found) dests.push_back({cs.edge, q});
          }
          for (auto &d : dests) if (decide(d.second)) { e = d.first; break; }
        }
        takeEdge(e);
        break;
      }
      case Op::Ret: {
        u32 n = I.n;
        Val *rv = tmp;
        if (n > 64) { big.resize(n); rv = big.data(); }
        for (u32 i = 0; i < n; i++) rv[i] = V(I.a + i);
        popFrame();
        if (fr.empty()) endPath();
        F = &fr.back();
        f = F->f;
        R = F->regs;
        code = f->code.data();
        Cn = f->consts.data();
        const Ins &C = code[F->ip];
        for (u32 i = 0; i < C.n && i < n; i++) R[C.dst + i] = rv[i];
        if (C.op == Op::Invoke) takeEdge(C.b);
        else F->ip++;
        break;
      }
      case Op::Call: case Op::Invoke: {
        FuncInfo *c = I.callee;
        if (!c) {
          if (I.flag == 9) {
            auto *IA = cast<InlineAsm>(cast<CallBase>(I.I)->getCalledOperand());
            std::string s = IA->getAsmString();
            if (s.find("cpuid") != std::string::npos) {
              for (u32 i = 0; i < I.n; i++) R[I.dst + i] = mkC(0);
            } else if (s.empty() || s == "pause" || s == "nop") {
              for (u32 i = 0; i < I.n; i++) R[I.dst + i] = mkC(0);
            } else inconclusive("inline assembly: " + s);
            F->ip++;
            break;
          }
          u64 a = (u64)concretize(V(I.a), 64, "function pointer");
          u64 k = (a - CODE0) / 16 - 1;
          if (a < CODE0 || k >= funcs.size() || (a & 15)) violation("call through an invalid function pointer");
          c = funcs[k];
        }
        u32 na = 0;
        std::vector<Val> bigArgs;
        Val loc[32];
        Val *av = loc;
        u32 tot = 0;
        for (u32 i = 0; i < I.xn; i++) tot += f->args[I.x0 + i].n;
        if (tot > 32) { bigArgs.resize(tot); av = bigArgs.data(); }
        for (u32 i = 0; i < I.xn; i++) {
          const Arg &g = f->args[I.x0 + i];
          for (u32 j = 0; j < g.n; j++) av[na++] = V(g.slot + j);
        }
        if (c->isPanic) {
          raisePanic("panic in " + demangleName(c->F->getName().str()));
          goto reload;
        }
        if (c->h) {
          size_t depth = fr.size();
          u32 ip0 = F->ip;
          Val ret[32];
          for (u32 i = 0; i < I.n && i < 32; i++) ret[i] = mkC(0);
          c->h(*this, I, av, na, ret);
          if (fr.size() != depth || fr.back().ip != ip0 || &fr.back() != F) goto reload;
          for (u32 i = 0; i < I.n; i++) R[I.dst + i] = ret[i];
          if (I.op == Op::Invoke) takeEdge(I.b);
          else F->ip++;
          break;
        }
        if (c->F->isDeclaration()) inconclusive("call of unmodelled external function " + c->F->getName().str());
        for (u32 i = 0, k = 0; i < I.xn; i++) {
          const Arg &g = f->args[I.x0 + i];
          if (g.byval) {
            u64 n = g.byval, a = (stackTop + 15) & ~15ull;
            stackTop = a + ((n + 15) & ~15ull) + 32;
            u32 id = newObj(a, n, 3);
            allocas.push_back(id);
            copyMem(a, (u64)concretize(av[k], 64, "byval"), n);
            av[k] = mkC(a);
          }
          k += g.n;
        }
        pushFrame(c, av, na, &I);
        goto reload;
      }
      case Op::Unreachable:
        if (I.flag == 7) inconclusive("vector getelementptr");
        if (I.flag == 8) inconclusive(std::string("unsupported instruction ") + I.I->getOpcodeName());
        violation("unreachable code reached");
      case Op::ZExt:
        for (u32 i = 0; i < I.n; i++) {
          const Val &a = V(I.a + i);
          R[I.dst + i] = a.e ? fromE(eZExt(a.e, I.w)) : a;
        }
        F->ip++;
        break;
      case Op::SExt:
        for (u32 i = 0; i < I.n; i++) {
          const Val &a = V(I.a + i);
          R[I.dst + i] = a.e ? fromE(eSExt(a.e, I.w)) : mkC((u128)sextw(cv(a), I.w2) & maskw(I.w));
        }
        F->ip++;
        break;
      case Op::Trunc:
        for (u32 i = 0; i < I.n; i++) {
          const Val &a = V(I.a + i);
          R[I.dst + i] = a.e ? fromE(eExtract(a.e, 0, I.w)) : mkC(cv(a) & maskw(I.w));
        }
        F->ip++;
        break;
      case Op::Mov:
        for (u32 i = 0; i < I.n; i++) R[I.dst + i] = V(I.a + i);
        F->ip++;
        break;
      case Op::Bitcast: {
        // source: I.c lanes of I.w2 bits; destination: I.n lanes of I.w bits
        std::vector<Val> src(I.c);
        for (u32 i = 0; i < I.c; i++) src[i] = V(I.a + i);
        for (u32 i = 0; i < I.n; i++) {
          u64 lo = (u64)i * I.w, hi = lo + I.w;
          E acc = nullptr;
          u128 cacc = 0;
          bool sym = false;
          for (u64 b = lo; b < hi;) {
            u32 l = b / I.w2;
            u64 lb = b - (u64)l * I.w2;
            u64 cnt = std::min<u64>(I.w2 - lb, hi - b);
            if (src[l].e) sym = true;
            b += cnt;
          }
          for (u64 b = lo; b < hi;) {
            u32 l = b / I.w2;
            u64 lb = b - (u64)l * I.w2;
            u64 cnt = std::min<u64>(I.w2 - lb, hi - b);
            if (sym) {
              E p = eExtract(toE(src[l], I.w2), lb, cnt);
              acc = acc ? eConcat(p, acc) : p;
            } else cacc |= ((cv(src[l]) >> lb) & maskw(cnt)) << (b - lo);
            b += cnt;
          }
          R[I.dst + i] = sym ? fromE(acc) : mkC(cacc);
        }
        F->ip++;
        break;
      }
      case Op::InsertVal: {
        for (u32 i = 0; i < I.n; i++) R[I.dst + i] = (i >= I.x0 && i < I.x0 + I.xn) ? V(I.b + (i - I.x0)) : V(I.a + i);
        F->ip++;
        break;
      }
      case Op::ExtractElt: {
        u64 k = (u64)concretize(V(I.b), I.w2, "vector index");
        R[I.dst] = k < I.c ? V(I.a + k) : mkC(0);
        F->ip++;
        break;
      }
      case Op::InsertElt: {
        u64 k = (u64)concretize(V(I.c), I.w2, "vector index");
        for (u32 i = 0; i < I.n; i++) R[I.dst + i] = i == k ? V(I.b) : V(I.a + i);
        F->ip++;
        break;
      }
      case Op::Shuffle: {
        std::vector<Val> t(I.n);
        for (u32 i = 0; i < I.n; i++) {
          i128 m = f->ints[I.x0 + i];
          t[i] = m < 0 ? mkC(0) : m < (i128)I.c ? V(I.a + (u32)m) : V(I.b + (u32)(m - I.c));
        }
        for (u32 i = 0; i < I.n; i++) R[I.dst + i] = t[i];
        F->ip++;
        break;
      }
      case Op::LandingPad:
        R[I.dst] = mkC(excPtr);
        if (I.n > 1) R[I.dst + 1] = mkC(1);
        F->ip++;
        break;
      case Op::Resume: {
        Val e = V(I.a);
        popFrame();
        unwind(e.lo);
        goto reload;
      }
      case Op::AtomicRMW: {
        u64 p = (u64)concretize(V(I.a), 64, "atomic address");
        Val old = load(p, I.w), v = V(I.b), nv;
        E a = toE(old, I.w), b = toE(v, I.w), r;
        switch (I.sub) {
          case AtomicRMWInst::Xchg: r = b; break;
          case AtomicRMWInst::Add: r = eBin(K::Add, a, b); break;
          case AtomicRMWInst::Sub: r = eBin(K::Sub, a, b); break;
          case AtomicRMWInst::And: r = eBin(K::And, a, b); break;
          case AtomicRMWInst::Nand: r = eBin(K::Xor, eBin(K::And, a, b), eConst(maskw(I.w), I.w)); break;
          case AtomicRMWInst::Or: r = eBin(K::Or, a, b); break;
          case AtomicRMWInst::Xor: r = eBin(K::Xor, a, b); break;
          case AtomicRMWInst::Max: r = eIte(eCmp(K::Slt, a, b), b, a); break;
          case AtomicRMWInst::Min: r = eIte(eCmp(K::Slt, a, b), a, b); break;
          case AtomicRMWInst::UMax: r = eIte(eCmp(K::Ult, a, b), b, a); break;
          case AtomicRMWInst::UMin: r = eIte(eCmp(K::Ult, a, b), a, b); break;
          default: inconclusive("atomicrmw");
        }
        store(p, fromE(r), I.w);
        R[I.dst] = old;
        F->ip++;
        break;
      }
      case Op::CmpXchg: {
        u64 p = (u64)concretize(V(I.a), 64, "atomic address");
        Val old = load(p, I.w);
        E eq = eEq(toE(old, I.w), toE(V(I.b), I.w));
        bool ok = decide(eq);
        if (ok) store(p, V(I.c), I.w);
        R[I.dst] = old;
        R[I.dst + 1] = mkC(ok);
        F->ip++;
        break;
      }
      case Op::Float: case Op::FNeg: case Op::FCmp: case Op::FCast:
        execFloat(I, R, f);
        F->ip++;
        break;
    }
  }
}
