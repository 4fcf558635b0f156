// SMT back end: Z3 (QF_BV), with constraint slicing, query caching and model reuse.
#pragma once
#include "expr.h"
#include <z3.h>
#include <chrono>
#include <cstring>

static double nowS() { return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count(); }

enum Res { UNSAT = 0, SAT = 1, UNKNOWN = 2 };

struct Solver {
  Z3_context ctx; Z3_solver solver;
  std::vector<Z3_ast> bvMemo, boolMemo;
  u64 nQueries = 0, nSat = 0, nUnsat = 0, nUnknown = 0, nCache = 0, nModelHit = 0, nFast = 0, nRetry = 0;
  double tSolve = 0, tMax = 0;
  unsigned timeoutMs = 30000, retryMs = 120000;
  Evaluator evl;
  struct CacheEnt { Res r; std::vector<std::pair<u32, u64>> m; };
  std::unordered_map<std::string, CacheEnt> cache;
  std::vector<std::vector<std::pair<u32, u64>>> pool; size_t poolPos = 0;
  FILE *dump = nullptr; u64 dumpEvery = 0;

  static void onErr(Z3_context c, Z3_error_code e) { fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e)); exit(3); }
  Solver() {
    Z3_config cfg = Z3_mk_config();
    ctx = Z3_mk_context(cfg); Z3_del_config(cfg);
    Z3_set_error_handler(ctx, onErr);
    fresh();
  }
  void fresh() {
    solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, "QF_BV"));
    Z3_solver_inc_ref(ctx, solver);
    setTimeout(solver, timeoutMs);
  }
  void setTimeout(Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p); Z3_params_dec_ref(ctx, p);
  }
  Z3_ast constBV(u64 v, unsigned w) {
    char buf[32]; snprintf(buf, sizeof buf, "%llu", (unsigned long long)v);
    return Z3_mk_numeral(ctx, buf, Z3_mk_bv_sort(ctx, w));
  }
  Z3_ast toBool(Expr *e) {
    if (boolMemo.size() <= e->id) boolMemo.resize(X->nextId + 1024, nullptr);
    if (boolMemo[e->id]) return boolMemo[e->id];
    Z3_ast r;
    Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
    switch (e->op) {
    case CONST: r = e->v ? Z3_mk_true(ctx) : Z3_mk_false(ctx); break;
    case AND: { Z3_ast x[2] = {toBool(a), toBool(b)}; r = Z3_mk_and(ctx, 2, x); break; }
    case OR: { Z3_ast x[2] = {toBool(a), toBool(b)}; r = Z3_mk_or(ctx, 2, x); break; }
    case XOR: if (b->isConst() && b->v == 1) r = Z3_mk_not(ctx, toBool(a)); else r = Z3_mk_xor(ctx, toBool(a), toBool(b)); break;
    case EQ: if (a->w == 1) r = Z3_mk_iff(ctx, toBool(a), toBool(b)); else r = Z3_mk_eq(ctx, toBV(a), toBV(b)); break;
    case ULT: r = Z3_mk_bvult(ctx, toBV(a), toBV(b)); break;
    case SLT: r = Z3_mk_bvslt(ctx, toBV(a), toBV(b)); break;
    case ITE: r = Z3_mk_ite(ctx, toBool(a), toBool(b), toBool(c)); break;
    default: r = Z3_mk_eq(ctx, toBV(e), constBV(1, 1)); break;
    }
    Z3_inc_ref(ctx, r);
    if (boolMemo.size() <= e->id) boolMemo.resize(X->nextId + 1024, nullptr);
    return boolMemo[e->id] = r;
  }
  Z3_ast toBV(Expr *e) {
    if (bvMemo.size() <= e->id) bvMemo.resize(X->nextId + 1024, nullptr);
    if (bvMemo[e->id]) return bvMemo[e->id];
    Z3_ast r;
    Expr *a = e->k[0], *b = e->k[1], *c = e->k[2];
    switch (e->op) {
    case CONST: r = constBV(e->v, e->w); break;
    case VAR: r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, ("v" + std::to_string(e->v)).c_str()), Z3_mk_bv_sort(ctx, e->w)); break;
    case ADD: r = Z3_mk_bvadd(ctx, toBV(a), toBV(b)); break;
    case SUB: r = Z3_mk_bvsub(ctx, toBV(a), toBV(b)); break;
    case MUL: r = Z3_mk_bvmul(ctx, toBV(a), toBV(b)); break;
    case UDIV: r = Z3_mk_bvudiv(ctx, toBV(a), toBV(b)); break;
    case SDIV: r = Z3_mk_bvsdiv(ctx, toBV(a), toBV(b)); break;
    case UREM: r = Z3_mk_bvurem(ctx, toBV(a), toBV(b)); break;
    case SREM: r = Z3_mk_bvsrem(ctx, toBV(a), toBV(b)); break;
    case SHL: r = Z3_mk_bvshl(ctx, toBV(a), toBV(b)); break;
    case LSHR: r = Z3_mk_bvlshr(ctx, toBV(a), toBV(b)); break;
    case ASHR: r = Z3_mk_bvashr(ctx, toBV(a), toBV(b)); break;
    case CONCAT: r = Z3_mk_concat(ctx, toBV(a), toBV(b)); break;
    case EXTRACT: r = Z3_mk_extract(ctx, e->lo + e->w - 1, e->lo, toBV(a)); break;
    case ZEXT: r = Z3_mk_zero_ext(ctx, e->w - a->w, toBV(a)); break;
    case SEXT: r = Z3_mk_sign_ext(ctx, e->w - a->w, toBV(a)); break;
    default:
      if (e->w == 1) { r = Z3_mk_ite(ctx, toBool(e), constBV(1, 1), constBV(0, 1)); break; }
      switch (e->op) {
      case AND: r = Z3_mk_bvand(ctx, toBV(a), toBV(b)); break;
      case OR: r = Z3_mk_bvor(ctx, toBV(a), toBV(b)); break;
      case XOR: r = Z3_mk_bvxor(ctx, toBV(a), toBV(b)); break;
      case ITE: r = Z3_mk_ite(ctx, toBool(a), toBV(b), toBV(c)); break;
      default: fprintf(stderr, "toBV op %s\n", opName(e->op)); abort();
      }
    }
    Z3_inc_ref(ctx, r);
    if (bvMemo.size() <= e->id) bvMemo.resize(X->nextId + 1024, nullptr);
    return bvMemo[e->id] = r;
  }

  // Constraints of pc connected (through shared variables) to cond.
  std::vector<char> mark;
  void slice(const std::vector<Expr *> &pc, Expr *cond, std::vector<Expr *> &out) {
    mark.assign(X->vars.size(), 0);
    for (u32 v : *X->varsOf(cond)) mark[v] = 1;
    std::vector<char> used(pc.size(), 0);
    bool ch = true;
    while (ch) {
      ch = false;
      for (size_t i = 0; i < pc.size(); i++) if (!used[i]) {
        const VarSet *s = X->varsOf(pc[i]);
        bool hit = false;
        for (u32 v : *s) if (mark[v]) { hit = true; break; }
        if (hit) { used[i] = 1; ch = true; for (u32 v : *s) mark[v] = 1; }
      }
    }
    for (size_t i = 0; i < pc.size(); i++) if (used[i]) out.push_back(pc[i]);
  }

  Res rawCheck(const std::vector<Expr *> &cs, std::vector<std::pair<u32, u64>> &m) {
    double t0 = nowS();
    nQueries++;
    Z3_solver_push(ctx, solver);
    for (Expr *c : cs) Z3_solver_assert(ctx, solver, toBool(c));
    if (dump && dumpEvery && nQueries % dumpEvery == 0) dumpQuery(cs);
    Z3_lbool r = Z3_solver_check(ctx, solver);
    Z3_solver use = solver; bool own = false;
    if (r == Z3_L_UNDEF) {
      nRetry++;
      Z3_solver_pop(ctx, solver, 1);
      Z3_solver_dec_ref(ctx, solver); fresh(); Z3_solver_push(ctx, solver);
      Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t);
      use = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, use); own = true;
      setTimeout(use, retryMs);
      for (Expr *c : cs) Z3_solver_assert(ctx, use, toBool(c));
      r = Z3_solver_check(ctx, use);
      Z3_tactic_dec_ref(ctx, t);
    }
    Res res = r == Z3_L_TRUE ? SAT : r == Z3_L_FALSE ? UNSAT : UNKNOWN;
    if (res == SAT) {
      nSat++;
      Z3_model zm = Z3_solver_get_model(ctx, use); Z3_model_inc_ref(ctx, zm);
      const VarSet *vs = &X->emptySet;
      for (Expr *c : cs) vs = X->uni(vs, X->varsOf(c));
      for (u32 v : *vs) {
        Z3_ast out; Expr *ve = X->vars[v].e; u64 val = 0;
        Z3_ast q = toBV(ve);
        if (Z3_model_eval(ctx, zm, q, true, &out)) {
          if (Z3_get_ast_kind(ctx, out) == Z3_NUMERAL_AST) { uint64_t u; if (Z3_get_numeral_uint64(ctx, out, &u)) val = u; }
        }
        m.push_back({v, val});
      }
      Z3_model_dec_ref(ctx, zm);
    } else if (res == UNSAT) nUnsat++; else nUnknown++;
    if (const char *slow = getenv("SYMEX_SLOW")) if (nowS() - t0 > atof(slow)) fprintf(stderr, ";; %.1f s %s\n%s\n", nowS() - t0, res == SAT ? "sat" : res == UNSAT ? "unsat" : "unknown", Z3_solver_to_string(ctx, use));
    if (own) Z3_solver_dec_ref(ctx, use);
    Z3_solver_pop(ctx, solver, 1);
    double dt = nowS() - t0; tSolve += dt; if (dt > tMax) tMax = dt;
    return res;
  }
  void dumpQuery(const std::vector<Expr *> &cs) {
    (void)cs; fprintf(dump, "%s(check-sat)\n;----\n", Z3_solver_to_string(ctx, solver)); fflush(dump);
  }

  // Is pc && cond satisfiable?  base satisfies pc.  On SAT, out = a model.
  Res check(const std::vector<Expr *> &pc, Expr *cond, const Model &base, Model &out) {
    if (cond->isFalse()) { nFast++; return UNSAT; }
    evl.begin();
    if (evl.ev(cond, base)) { nFast++; out = base; return SAT; }
    for (Expr *c : pc) if (X->isNotOf(c, cond)) { nFast++; return UNSAT; }
    std::vector<Expr *> cs; slice(pc, cond, cs); cs.push_back(cond);
    std::sort(cs.begin(), cs.end(), [](Expr *a, Expr *b) { return a->id < b->id; });
    std::string key; key.reserve(cs.size() * 4);
    for (Expr *c : cs) key.append((const char *)&c->id, 4);
    auto it = cache.find(key);
    if (it != cache.end()) { nCache++; if (it->second.r == SAT) { out = base; for (auto &p : it->second.m) out.set(p.first, p.second); } return it->second.r; }
    // model reuse
    for (size_t i = 0; i < pool.size(); i++) {
      size_t j = (poolPos + pool.size() - 1 - i) % pool.size();
      Model t = base; for (auto &p : pool[j]) t.set(p.first, p.second);
      evl.begin(); bool ok = true;
      // check the condition first: it is the most likely to fail
      if (!evl.ev(cond, t)) continue;
      for (Expr *c : cs) if (!evl.ev(c, t)) { ok = false; break; }
      if (ok) {
        // keep only the slice's variables
        const VarSet *vs = &X->emptySet; for (Expr *c : cs) vs = X->uni(vs, X->varsOf(c));
        CacheEnt ce; ce.r = SAT; for (u32 v : *vs) ce.m.push_back({v, t.get(v)});
        out = base; for (auto &p : ce.m) out.set(p.first, p.second);
        cache[key] = ce; nModelHit++;
        return SAT;
      }
    }
    CacheEnt ce; ce.r = rawCheck(cs, ce.m);
    if (ce.r == SAT) {
      out = base; for (auto &p : ce.m) out.set(p.first, p.second);
      if (pool.size() < 24) { pool.push_back(ce.m); poolPos = pool.size() % 24; } else { pool[poolPos] = ce.m; poolPos = (poolPos + 1) % 24; }
      evl.begin();
      for (Expr *c : cs) if (!evl.ev(c, out)) { fprintf(stderr, "INTERNAL: solver model does not satisfy constraint (op %s)\n", opName(c->op)); exit(3); }
    }
    if (ce.r != UNKNOWN) cache[key] = ce;
    return ce.r;
  }
};
