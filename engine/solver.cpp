#include "solver.h"
#include <z3.h>
#include <chrono>
#include <unordered_map>
#include <map>
#include <algorithm>
SolverStats gStats;
static Z3_context ctx;
static unsigned gRlimit = 0;

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

unsigned gQueryMs = 120000;
void solverInit(unsigned rlimit) {
  gRlimit = rlimit;
  Z3_config cfg = Z3_mk_config();
  Z3_set_param_value(cfg, "model", "true");
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
}

static Z3_ast zconst(u128 v, unsigned w) {
  Z3_sort s64 = Z3_mk_bv_sort(ctx, w <= 64 ? w : 64);
  if (w <= 64) return Z3_mk_unsigned_int64(ctx, (u64)v, s64);
  Z3_sort sh = Z3_mk_bv_sort(ctx, w - 64);
  Z3_ast h = Z3_mk_unsigned_int64(ctx, (u64)(v >> 64), sh);
  Z3_inc_ref(ctx, h);
  Z3_ast l = Z3_mk_unsigned_int64(ctx, (u64)v, s64);
  Z3_inc_ref(ctx, l);
  return Z3_mk_concat(ctx, h, l);
}

static Z3_ast bool2bv(Z3_ast b) {
  Z3_sort s = Z3_mk_bv_sort(ctx, 1);
  return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s), Z3_mk_unsigned_int64(ctx, 0, s));
}

// Every expression is translated to a bit-vector (booleans are 1-bit vectors).
static Z3_ast tr(E root) {
  std::vector<E> st{root};
  auto Z = [](E e) { return (Z3_ast)e->z; };
  while (!st.empty()) {
    E x = st.back();
    if (x->z) { st.pop_back(); continue; }
    bool ready = true;
    for (E ch : {x->a, x->b, x->c})
      if (ch && !ch->z) { st.push_back(ch); ready = false; }
    if (!ready) continue;
    st.pop_back();
    Z3_ast r = nullptr;
    switch (x->k) {
      case K::Const: r = zconst(x->val, x->w); break;
      case K::Sym: {
        char nm[32];
        snprintf(nm, 32, "s%u", x->lo);
        r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, nm), Z3_mk_bv_sort(ctx, x->w));
        break;
      }
      case K::Add: r = Z3_mk_bvadd(ctx, Z(x->a), Z(x->b)); break;
      case K::Sub: r = Z3_mk_bvsub(ctx, Z(x->a), Z(x->b)); break;
      case K::Mul: r = Z3_mk_bvmul(ctx, Z(x->a), Z(x->b)); break;
      case K::UDiv: r = Z3_mk_bvudiv(ctx, Z(x->a), Z(x->b)); break;
      case K::SDiv: r = Z3_mk_bvsdiv(ctx, Z(x->a), Z(x->b)); break;
      case K::URem: r = Z3_mk_bvurem(ctx, Z(x->a), Z(x->b)); break;
      case K::SRem: r = Z3_mk_bvsrem(ctx, Z(x->a), Z(x->b)); break;
      case K::And: r = Z3_mk_bvand(ctx, Z(x->a), Z(x->b)); break;
      case K::Or: r = Z3_mk_bvor(ctx, Z(x->a), Z(x->b)); break;
      case K::Xor: r = Z3_mk_bvxor(ctx, Z(x->a), Z(x->b)); break;
      case K::Shl: r = Z3_mk_bvshl(ctx, Z(x->a), Z(x->b)); break;
      case K::LShr: r = Z3_mk_bvlshr(ctx, Z(x->a), Z(x->b)); break;
      case K::AShr: r = Z3_mk_bvashr(ctx, Z(x->a), Z(x->b)); break;
      case K::Eq: r = bool2bv(Z3_mk_eq(ctx, Z(x->a), Z(x->b))); break;
      case K::Ult: r = bool2bv(Z3_mk_bvult(ctx, Z(x->a), Z(x->b))); break;
      case K::Ule: r = bool2bv(Z3_mk_bvule(ctx, Z(x->a), Z(x->b))); break;
      case K::Slt: r = bool2bv(Z3_mk_bvslt(ctx, Z(x->a), Z(x->b))); break;
      case K::Sle: r = bool2bv(Z3_mk_bvsle(ctx, Z(x->a), Z(x->b))); break;
      case K::Ite: {
        Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
        r = Z3_mk_ite(ctx, Z3_mk_eq(ctx, Z(x->a), one), Z(x->b), Z(x->c));
        break;
      }
      case K::SExt: r = Z3_mk_sign_ext(ctx, x->w - x->a->w, Z(x->a)); break;
      case K::Extract: r = Z3_mk_extract(ctx, x->lo + x->w - 1, x->lo, Z(x->a)); break;
      case K::Concat: r = Z3_mk_concat(ctx, Z(x->a), Z(x->b)); break;
    }
    Z3_inc_ref(ctx, r);
    x->z = r;
  }
  return Z(root);
}

// Cache of solved conjunctions.
static std::map<std::vector<u32>, std::pair<Res, std::vector<std::pair<u32, u64>>>> cache;

// Constraints over a single symbolic byte: the set of satisfying values, per expression.
struct Dom { u64 b[4]; };
static std::unordered_map<u32, Dom> doms;
static const Dom &domOf(E c, u32 sym) {
  auto it = doms.find(c->id);
  if (it != doms.end()) return it->second;
  Dom d{};
  static Model mm;
  u64 keep = mm.get(sym);
  for (u32 x = 0; x < 256; x++) {
    mm.set(sym, x);
    if (evalExpr(c, mm) & 1) d.b[x >> 6] |= 1ull << (x & 63);
  }
  mm.set(sym, keep);
  return doms[c->id] = d;
}

Res solve(const std::vector<E> &cs0, Model &m, bool branch) {
  if (branch && !cs0.empty()) {
    u32 sym = 0;
    bool single = true;
    for (size_t i = 0; i < cs0.size(); i++) {
      auto &ss = symsOf(cs0[i]);
      if (ss.size() != 1 || (i && ss[0] != sym)) { single = false; break; }
      sym = ss[0];
    }
    if (single) {
      Dom d{{~0ull, ~0ull, ~0ull, ~0ull}};
      for (E c : cs0) {
        const Dom &x = domOf(c, sym);
        for (int i = 0; i < 4; i++) d.b[i] &= x.b[i];
      }
      gStats.domain++;
      for (int i = 0; i < 4; i++)
        if (d.b[i]) { m.set(sym, i * 64 + __builtin_ctzll(d.b[i])); return Res::Sat; }
      return Res::Unsat;
    }
  }
  std::vector<E> cs;
  for (E c : cs0) {
    if (isC(c)) { if (!c->val) return Res::Unsat; continue; }
    cs.push_back(c);
  }
  std::sort(cs.begin(), cs.end(), [](E a, E b) { return a->id < b->id; });
  cs.erase(std::unique(cs.begin(), cs.end()), cs.end());
  std::vector<u32> key;
  for (E c : cs) key.push_back(c->id);
  auto it = cache.find(key);
  if (it != cache.end()) {
    for (auto &p : it->second.second) m.set(p.first, p.second);
    return it->second.first;
  }
  auto t0 = std::chrono::steady_clock::now();
  Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
  Z3_solver_inc_ref(ctx, s);
  {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    if (gRlimit) Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "rlimit"), gRlimit);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), gQueryMs);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
  }
  Z3_ast one = Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1));
  Z3_inc_ref(ctx, one);
  for (E c : cs) {
    Z3_ast q = Z3_mk_eq(ctx, tr(c), one);
    Z3_solver_assert(ctx, s, q);
  }
  Z3_lbool r = Z3_solver_check(ctx, s);
  Res res = r == Z3_L_TRUE ? Res::Sat : r == Z3_L_FALSE ? Res::Unsat : Res::Unknown;
  std::vector<std::pair<u32, u64>> asg;
  if (res == Res::Sat) {
    Z3_model zm = Z3_solver_get_model(ctx, s);
    Z3_model_inc_ref(ctx, zm);
    std::vector<u32> syms;
    std::vector<unsigned> ws;
    std::map<u32, E> symE;
    std::vector<E> st(cs.begin(), cs.end());
    // collect symbol nodes
    std::unordered_map<u32, bool> seen;
    while (!st.empty()) {
      E x = st.back();
      st.pop_back();
      if (seen[x->id]) continue;
      seen[x->id] = true;
      if (x->k == K::Sym) { symE[x->lo] = x; continue; }
      for (E ch : {x->a, x->b, x->c}) if (ch && !symsOf(ch).empty()) st.push_back(ch);
    }
    for (auto &p : symE) {
      Z3_ast v;
      u64 val = 0;
      if (Z3_model_eval(ctx, zm, tr(p.second), true, &v)) {
        Z3_inc_ref(ctx, v);
        Z3_get_numeral_uint64(ctx, v, &val);
        Z3_dec_ref(ctx, v);
      }
      asg.push_back({p.first, val});
      m.set(p.first, val);
    }
    Z3_model_dec_ref(ctx, zm);
  }
  Z3_dec_ref(ctx, one);
  Z3_solver_dec_ref(ctx, s);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  gStats.queries++;
  gStats.secs += dt;
  if (res == Res::Sat) gStats.sat++;
  else if (res == Res::Unsat) gStats.unsat++;
  else gStats.unknown++;
  if (getenv("SYMX_SLOWQ") && dt > atof(getenv("SYMX_SLOWQ"))) {
    fprintf(stderr, "[slow query %.2fs %s, %zu constraints]\n", dt, res == Res::Sat ? "sat" : res == Res::Unsat ? "unsat" : "unknown", cs.size());
    for (E c : cs) fprintf(stderr, "   %s\n", exprStr(c, 5).c_str());
  }
  if (cache.size() < 200000) cache[key] = {res, asg};
  return res;
}
