// symx: symbolic execution of a whole-program LLVM bitcode file.
#include "interp.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <cstring>
#include <set>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace llvm;

static std::string jesc(const std::string &s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o;
}

int main(int argc, char **argv) {
  std::string bc, out = ".";
  std::vector<std::string> entries;
  int procs = 8;
  double secs = 600, total = 1e9;
  bool stopViol = false;
  unsigned rlimit = 0;
  u64 maxInstr = 40000000, maxConc = 300;
  bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i];
    if (a == "--out") out = argv[++i];
    else if (a == "--entry") entries.push_back(argv[++i]);
    else if (a == "--procs") procs = atoi(argv[++i]);
    else if (a == "--secs") secs = atof(argv[++i]);
    else if (a == "--rlimit") rlimit = atoi(argv[++i]);
    else if (a == "--max-instr") maxInstr = strtoull(argv[++i], 0, 10);
    else if (a == "--max-conc") maxConc = strtoull(argv[++i], 0, 10);
    else if (a == "--total") total = atof(argv[++i]);
    else if (a == "--stop-on-violation") stopViol = true;
    else if (a == "--query-ms") gQueryMs = atoi(argv[++i]);
    else if (a == "--list") list = true;
    else bc = a;
  }
  double t0 = nowS();
  LLVMContext ctx;
  SMDiagnostic err;
  // The repository's toolchain lays out i128 with 8-byte alignment; the reader of this LLVM version would
  // silently "upgrade" the layout to 16, so that struct offsets no longer match the compiled code.
  auto M = parseIRFile(bc, err, ctx);
  if (!M) { err.print("symx", errs()); return 3; }
  {
    std::string dl = M->getDataLayoutStr();
    size_t at = dl.find("-i128:128");
    if (at != std::string::npos) { dl.erase(at, 9); M->setDataLayout(dl); }
  }
  if (list) {
    for (auto &F : *M) if (!F.isDeclaration() && F.getName().starts_with("h_")) printf("%s\n", F.getName().str().c_str());
    return 0;
  }
  Interp in;
  in.M = M.get();
  in.outdir = out;
  in.maxInstr = maxInstr;
  in.maxConc = maxConc;
  u64 nb = 0;
  for (auto &F : *M) nb += F.size();
  in.sh = (Shared *)mmap(nullptr, sizeof(Shared) + nb + 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  in.init();
  solverInit(rlimit);
  double tload = nowS() - t0;
  prctl(PR_SET_CHILD_SUBREAPER, 1);
  Shared *sh = in.sh;
  printf("{\"load_s\": %.2f, \"entries\": [\n", tload);
  bool first = true;
  int rc = 0;
  for (auto &e : entries) {
    auto *F = M->getFunction(e);
    if (!F || F->isDeclaration()) { fprintf(stderr, "no such entry: %s\n", e.c_str()); rc = 3; continue; }
    double t1 = nowS();
    std::vector<u8> keepCov;
    memset((void *)sh, 0, sizeof(Shared));
    memset(sh->cov, 0, nb);
    sh->tokens = procs - 1;
    in.entry = e;
    in.deadline = std::min(nowS() + secs, t0 + total);
    fflush(stdout);
    sh->live = 1;
    sh->started = 1;
    pid_t p = fork();
    if (p == 0) {
      setpgid(0, 0);
      in.isConc = true;
      in.run(in.fi(F));
      _exit(0);
    }
    int bad = 0;
    for (;;) {
      int st;
      pid_t q = waitpid(-1, &st, WNOHANG);
      if (q < 0) break;
      if (q == 0) {
        double lim = in.deadline;
        if (sh->stopAtNs) lim = std::min(lim, sh->stopAtNs / 1e9);
        if (nowS() > lim + 10) kill(-p, SIGKILL);
        usleep(nowS() - t1 < 0.05 ? 200 : 2000);
        continue;
      }
      if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0)) bad++;
    }
    if (bad) sh->inconcl += bad;
    if (sh->started != sh->finished) sh->inconcl++;
    // coverage
    std::set<std::string> fns;
    std::set<std::pair<std::string, unsigned>> lines;
    u64 blocks = 0;
    for (u64 i = 0; i < nb; i++) {
      if (!sh->cov[i]) continue;
      blocks++;
      for (auto &I : *in.blockList[i]) {
        const DILocation *L = I.getDebugLoc();
        while (L) {
          auto *SP = L->getScope()->getSubprogram();
          std::string dir = SP && SP->getFile() ? SP->getFile()->getDirectory().str() : "", fn = L->getFilename().str();
          std::string path = fn.size() && fn[0] == '/' ? fn : dir + "/" + fn;
          size_t k = path.find("/repo/");
          if (k == 0) {
            fns.insert(SP->getLinkageName().empty() ? SP->getName().str() : demangleName(SP->getLinkageName().str()));
            if (L->getLine()) lines.insert({path.substr(6), L->getLine()});
          }
          L = L->getInlinedAt();
        }
      }
    }
    printf("%s{\"entry\": \"%s\", \"paths\": %llu, \"assume_pruned\": %llu, \"forks\": %llu, \"instrs\": %llu, \"queries\": %llu, \"sat\": %llu, \"unsat\": %llu, \"unknown\": %llu, \"solver_s\": %.2f, \"domain_queries\": %llu, \"checks\": %llu, \"violations\": %llu, \"inconclusive\": %llu, \"max_pc\": %llu, \"blocks\": %llu, \"wall_s\": %.2f,\n \"labels\": {",
           first ? "" : ",", e.c_str(), (unsigned long long)sh->paths, (unsigned long long)sh->pruned, (unsigned long long)sh->forks, (unsigned long long)sh->instrs,
           (unsigned long long)sh->queries, (unsigned long long)sh->sat, (unsigned long long)sh->unsat, (unsigned long long)sh->unknown, sh->solverNs / 1e9, (unsigned long long)sh->domain,
           (unsigned long long)sh->checks, (unsigned long long)sh->violations, (unsigned long long)sh->inconcl, (unsigned long long)sh->maxpc, (unsigned long long)blocks, nowS() - t1);
    for (u32 i = 0; i < sh->nlabels; i++) printf("%s\"%s\": %llu", i ? ", " : "", jesc(sh->labels[i].name).c_str(), (unsigned long long)sh->labels[i].cnt);
    printf("},\n \"functions\": [");
    bool c = false;
    for (auto &f : fns) { printf("%s\"%s\"", c ? ", " : "", jesc(f).c_str()); c = true; }
    std::map<std::string, u32> per;
    for (auto &l : lines) per[l.first]++;
    printf("],\n \"lines\": {");
    c = false;
    for (auto &l : per) { printf("%s\"%s\": %u", c ? ", " : "", jesc(l.first).c_str(), l.second); c = true; }
    printf("}}\n");
    fflush(stdout);
    first = false;
    if (stopViol && sh->violations) break;
  }
  printf("]}\n");
  return rc;
}
