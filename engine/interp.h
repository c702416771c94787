// Symbolic interpreter for LLVM IR (single path per OS process; branches fork the process).
#pragma once
#include "expr.h"
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <atomic>
#include <map>
#include <string>
#include <unordered_map>
#include <vector>

struct Val {
  u64 lo, hi;
  E e;
};
inline u128 cv(const Val &v) { return ((u128)v.hi << 64) | v.lo; }
inline Val mkC(u128 x) { return Val{(u64)x, (u64)(x >> 64), nullptr}; }
inline E toE(const Val &v, unsigned w) { return v.e ? v.e : eConst(cv(v), w); }
inline Val fromE(E e) {
  if (e->k == K::Const) return mkC(e->val);
  return Val{0, 0, e};
}

struct Leaf { u32 off; u16 w; u8 flt; };  // flt: 0 int/ptr, 1 float, 2 double, 3 other
struct TyInfo { std::vector<Leaf> leaves; u64 size; };

enum class Op : u16 {
  Bin, ICmp, Select, Load, Store, Gep, Alloca, Br, CondBr, Switch, Ret, Call, Invoke, Unreachable,
  ZExt, SExt, Trunc, Mov, Bitcast, InsertVal, ExtractElt, InsertElt, Shuffle, LandingPad, Resume,
  AtomicRMW, CmpXchg, Nop, Float, FCast, FCmp, FNeg
};

struct FuncInfo;
struct Edge { u32 target; u32 moveBegin, moveCnt; u32 block; };
struct GepIdx { u32 slot; i128 scale; u16 w; };
struct Ins {
  Op op;
  u16 w = 0;        // element width (bits)
  u16 w2 = 0;       // source width
  u8 sub = 0;       // K / predicate / ...
  u8 flag = 0;
  u32 n = 1;        // lanes
  u32 dst = 0;
  u32 a = 0, b = 0, c = 0;
  i128 imm = 0;
  const TyInfo *ty = nullptr;
  u32 x0 = 0, xn = 0;  // range into side tables
  FuncInfo *callee = nullptr;
  const llvm::Instruction *I = nullptr;
};
struct Arg { u32 slot, n; u16 w; u64 byval; };
struct Case { u128 v; u32 edge; };

struct Interp;
typedef void (*Handler)(Interp &, const Ins &, Val *args, u32 nargs, Val *ret);

struct FuncInfo {
  llvm::Function *F = nullptr;
  u32 id = 0;
  u64 addr = 0;
  bool decoded = false;
  Handler h = nullptr;
  bool isPanic = false;
  u32 nslots = 0, nret = 0;
  std::vector<u32> paramSlot;
  std::vector<Ins> code;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<std::pair<u32, u32>> moves;
  std::vector<GepIdx> geps;
  std::vector<Arg> args;
  std::vector<Case> cases;
  std::vector<i128> ints;
  u32 block0 = 0;  // global id of the first block
};

struct Obj {
  u64 base, size;
  E *sym;  // nullptr, or `size` entries
  u8 kind;  // 1 global 2 heap 3 stack
  bool freed, ro;
};

struct Frame {
  FuncInfo *f;
  u32 ip;
  Val *regs;
  u64 sp;
  u32 allocaTop;
};

constexpr u64 ARENA = 0x100000000000ull, HEAPSZ = 16ull << 30, STACKSZ = 1ull << 30;
constexpr u64 STACK0 = ARENA + HEAPSZ, ARENAEND = STACK0 + STACKSZ;
constexpr u64 CODE0 = 0x300000000000ull;

struct SymRec { std::string name; u32 sym0; u32 n; bool conc; u64 val; };

struct Label { char name[96]; std::atomic<u64> cnt; };
struct Shared {
  std::atomic<int> tokens;
  std::atomic<u64> live, started, finished;
  std::atomic<u64> paths, pruned, forks, instrs, queries, sat, unsat, unknown, solverNs, domain, checks, violations, inconcl, vdedupN, maxpc;
  std::atomic<int> stop;
  std::atomic<u64> stopAtNs;
  std::atomic<u64> vdedup[256];
  std::atomic<u32> vcount[256];
  std::atomic<u32> inconDone;
  Label labels[128];
  std::atomic<u32> nlabels;
  std::atomic<u32> lock;
  u8 cov[1];
};

struct PathEnd {};

struct Interp {
  llvm::Module *M;
  const llvm::DataLayout *DL;
  Shared *sh;
  std::string outdir, entry;
  u64 maxInstr = 40000000, maxConc = 300;
  double deadline = 0, graceS = 15;
  std::unordered_map<const llvm::Function *, FuncInfo *> fmap;
  std::vector<FuncInfo *> funcs;
  std::unordered_map<const llvm::GlobalVariable *, u64> gaddr;
  std::unordered_map<llvm::Type *, TyInfo *> tys;
  u32 nblocks = 0;
  std::vector<const llvm::BasicBlock *> blockList;
  std::unordered_map<const llvm::BasicBlock *, u32> blockId;

  u32 *shadow;
  std::vector<Obj> objs;
  std::vector<u32> stackFree;
  std::vector<u32> allocas;
  u64 heapTop = ARENA + 4096, stackTop = STACK0 + 4096;
  Val *regFile, *regTop;
  std::vector<Frame> fr;
  FuncInfo *panicFn = nullptr;

  std::vector<E> pc;
  Model model;
  std::vector<SymRec> syms;
  u32 nsyms = 0;
  std::vector<std::pair<std::vector<E>, std::vector<E>>> hashes;
  std::vector<std::string> notes;
  u64 ninstr = 0, ninstrFlushed = 0;
  bool isConc = true, isRoot = true;
  std::string panicMsg;
  u64 hashKeyCtr = 0;
  u64 excPtr = 0;

  // set-up
  void init();
  const TyInfo *ty(llvm::Type *T);
  FuncInfo *fi(const llvm::Function *F);
  void decode(FuncInfo *f);
  void constVals(const llvm::Constant *C, std::vector<Val> &out);
  u64 constAddr(const llvm::Constant *C);
  void writeConst(u64 addr, const llvm::Constant *C);
  // memory
  u32 newObj(u64 base, u64 size, u8 kind);
  u64 heapAlloc(u64 size, u64 align, bool zero);
  void heapFree(u64 p);
  Obj *obj(u64 addr) {
    if (addr < ARENA || addr >= ARENAEND) return nullptr;
    u32 id = shadow[(addr - ARENA) >> 4];
    return id ? &objs[id] : nullptr;
  }
  Obj *access(u64 addr, u64 n, bool write);
  Val load(u64 addr, unsigned w);
  void store(u64 addr, const Val &v, unsigned w);
  Val loadSym(E addr, unsigned w, bool flt);
  void copyMem(u64 d, u64 s, u64 n);
  void setMem(u64 d, const Val &b, u64 n);
  E byteAt(u64 a);
  // symbolic
  bool decide(E c);
  u128 concretize(const Val &v, unsigned w, const char *why);
  Res feasible(E c, Model &m, bool branch = true);
  void assume(E c);
  void check(E c, const std::string &msg);
  bool forkHere();
  void addPc(E c);
  // control
  void run(FuncInfo *f);
  void loop();
  void pushFrame(FuncInfo *f, const Val *args, u32 nargs, const Ins *site);
  void popFrame();
  void unwind(u64 exc);
  void raisePanic(const std::string &msg);
  [[noreturn]] void violation(const std::string &msg, const Model *m = nullptr, bool cont = false);
  void reportViolation(const std::string &msg, const Model &m);
  [[noreturn]] void inconclusive(const std::string &msg);
  void noteInconclusive(const std::string &msg);
  [[noreturn]] void endPath();
  [[noreturn]] void exitProc();
  void flushStats();
  void tick();
  std::string trace(int max = 12);
  void execFloat(const Ins &I, Val *R, const FuncInfo *f);
};

Handler findHandler(Interp &in, llvm::Function *F, bool &isPanic);
extern double nowS();
std::string demangleName(const std::string &s);
