#include "solver.h"
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstring>
#include <map>
#include <set>

static void errh(Z3_context c, Z3_error_code e) {
  fprintf(stderr, "Z3 error: %s\n", Z3_get_error_msg(c, e));
  abort();
}

Solver::Solver(unsigned t) : timeoutMs(t) {
  Z3_config cfg = Z3_mk_config();
  ctx = Z3_mk_context(cfg);
  Z3_set_error_handler(ctx, errh);
  Z3_del_config(cfg);
}

Z3_ast Solver::trBV(E e) {
  Z3_ast a = tr(e);
  if (e->w == 1) {
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_ite(ctx, a, Z3_mk_numeral(ctx, "1", s), Z3_mk_numeral(ctx, "0", s));
  }
  return a;
}

static std::string dec(u128 v) {
  if (!v) return "0";
  std::string s;
  while (v) { s.push_back('0' + (int)(v % 10)); v /= 10; }
  std::reverse(s.begin(), s.end());
  return s;
}

Z3_ast Solver::fp(E e, Z3_ast a, unsigned w) {
  (void)e;
  Z3_sort s = w == 32 ? Z3_mk_fpa_sort_32(ctx) : Z3_mk_fpa_sort_64(ctx);
  return Z3_mk_fpa_to_fp_bv(ctx, a, s);
}

Z3_ast Solver::tr(E e) {
  Z3_ast& slot = absMode ? e->za : e->z;
  if (slot) return slot;
  Z3_ast r = nullptr;
  bool b1 = e->w == 1;
  auto bit = [&](Z3_ast x) {  // BV1 -> Bool
    Z3_sort s = Z3_mk_bv_sort(ctx, 1);
    return Z3_mk_eq(ctx, x, Z3_mk_numeral(ctx, "1", s));
  };
  switch (e->op) {
    case O_CONST:
      if (b1) r = e->c ? Z3_mk_true(ctx) : Z3_mk_false(ctx);
      else r = Z3_mk_numeral(ctx, dec(e->c).c_str(), Z3_mk_bv_sort(ctx, e->w));
      break;
    case O_VAR: {
      char n[32]; snprintf(n, 32, "v%u", e->aux);
      Z3_sort s = b1 ? Z3_mk_bool_sort(ctx) : Z3_mk_bv_sort(ctx, e->w);
      r = Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, n), s);
      varAst[e->aux] = r; varW[e->aux] = e->w;
      break;
    }
    case O_ITE: r = Z3_mk_ite(ctx, tr(e->k[0]), tr(e->k[1]), tr(e->k[2])); break;
    case O_SEXT: r = Z3_mk_sign_ext(ctx, e->w - e->k[0]->w, trBV(e->k[0])); break;
    case O_EXTRACT: {
      Z3_ast x = Z3_mk_extract(ctx, e->aux + e->w - 1, e->aux, trBV(e->k[0]));
      r = b1 ? bit(x) : x; break; }
    case O_CONCAT: r = Z3_mk_concat(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case O_EQ: r = Z3_mk_eq(ctx, tr(e->k[0]), tr(e->k[1])); break;
    case O_ULT: r = Z3_mk_bvult(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case O_SLT: r = Z3_mk_bvslt(ctx, trBV(e->k[0]), trBV(e->k[1])); break;
    case O_AND: case O_OR: case O_XOR:
      if (b1) {
        if (e->op == O_XOR && isC(e->k[1])) { r = Z3_mk_not(ctx, tr(e->k[0])); break; }
        Z3_ast ab[2] = {tr(e->k[0]), tr(e->k[1])};
        r = e->op == O_AND ? Z3_mk_and(ctx, 2, ab) : e->op == O_OR ? Z3_mk_or(ctx, 2, ab) : Z3_mk_xor(ctx, ab[0], ab[1]);
        break;
      }
      // fallthrough
    default: {
      if (e->op >= O_FADD) {
        Z3_ast rm = Z3_mk_fpa_rne(ctx);
        unsigned wi = e->k[0]->w;
        Z3_ast a = trBV(e->k[0]);
        Z3_ast b = e->nk > 1 ? trBV(e->k[1]) : nullptr;
        Z3_sort os = e->w == 32 ? Z3_mk_fpa_sort_32(ctx) : e->w == 64 ? Z3_mk_fpa_sort_64(ctx) : nullptr;
        if (absMode && (e->op <= O_FDIV || e->op == O_FPTOSI || e->op == O_FPTOUI || e->op == O_FROUND || e->op == O_SITOFP || e->op == O_UITOFP)) {
          char n[40]; snprintf(n, 40, "uf%d_%u_%u_%u", (int)e->op, wi, e->w, e->aux);
          Z3_sort is = Z3_mk_bv_sort(ctx, wi), dom[2] = {is, is};
          Z3_func_decl d = Z3_mk_func_decl(ctx, Z3_mk_string_symbol(ctx, n), e->nk > 1 ? 2 : 1, dom, Z3_mk_bv_sort(ctx, e->w));
          Z3_ast ar[2] = {a, b};
          r = Z3_mk_app(ctx, d, e->nk > 1 ? 2 : 1, ar);
          if (b1) r = bit(r);
          Z3_inc_ref(ctx, r); slot = r;
          return r;
        }
        switch (e->op) {
          case O_FADD: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_add(ctx, rm, fp(e, a, wi), fp(e, b, wi))); break;
          case O_FSUB: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_sub(ctx, rm, fp(e, a, wi), fp(e, b, wi))); break;
          case O_FMUL: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_mul(ctx, rm, fp(e, a, wi), fp(e, b, wi))); break;
          case O_FDIV: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_div(ctx, rm, fp(e, a, wi), fp(e, b, wi))); break;
          case O_FLT: r = Z3_mk_fpa_lt(ctx, fp(e, a, wi), fp(e, b, wi)); break;
          case O_FLE: r = Z3_mk_fpa_leq(ctx, fp(e, a, wi), fp(e, b, wi));
            if (absMode && fpFinite(e->k[0]) && fpFinite(e->k[1])) { Z3_ast o[2] = {Z3_mk_eq(ctx, a, b), r}; r = Z3_mk_or(ctx, 2, o); }
            break;
          case O_FEQ: r = Z3_mk_fpa_eq(ctx, fp(e, a, wi), fp(e, b, wi));
            if (absMode && fpFinite(e->k[0]) && fpFinite(e->k[1])) { Z3_ast o[2] = {Z3_mk_eq(ctx, a, b), r}; r = Z3_mk_or(ctx, 2, o); }
            break;
          case O_FUNO: { Z3_ast ab[2] = {Z3_mk_fpa_is_nan(ctx, fp(e, a, wi)), Z3_mk_fpa_is_nan(ctx, fp(e, b, wi))}; r = Z3_mk_or(ctx, 2, ab); break; }
          case O_FPTOSI: r = Z3_mk_fpa_to_sbv(ctx, Z3_mk_fpa_rtz(ctx), fp(e, a, wi), e->w); break;
          case O_FPTOUI: r = Z3_mk_fpa_to_ubv(ctx, Z3_mk_fpa_rtz(ctx), fp(e, a, wi), e->w); break;
          case O_SITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_signed(ctx, rm, a, os)); break;
          case O_UITOFP: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_unsigned(ctx, rm, a, os)); break;
          case O_FPEXT: case O_FPTRUNC: r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_to_fp_float(ctx, rm, fp(e, a, wi), os)); break;
          case O_FROUND: {
            Z3_ast m = e->aux == 0 ? Z3_mk_fpa_rtn(ctx) : e->aux == 1 ? Z3_mk_fpa_rtp(ctx) : e->aux == 2 ? Z3_mk_fpa_rtz(ctx) : e->aux == 3 ? Z3_mk_fpa_rna(ctx) : rm;
            r = Z3_mk_fpa_to_ieee_bv(ctx, Z3_mk_fpa_round_to_integral(ctx, m, fp(e, a, wi))); break; }
          default: abort();
        }
        break;
      }
      Z3_ast a = trBV(e->k[0]), b = trBV(e->k[1]);
      switch (e->op) {
        case O_ADD: r = Z3_mk_bvadd(ctx, a, b); break;
        case O_SUB: r = Z3_mk_bvsub(ctx, a, b); break;
        case O_MUL: r = Z3_mk_bvmul(ctx, a, b); break;
        case O_UDIV: r = Z3_mk_bvudiv(ctx, a, b); break;
        case O_SDIV: r = Z3_mk_bvsdiv(ctx, a, b); break;
        case O_UREM: r = Z3_mk_bvurem(ctx, a, b); break;
        case O_SREM: r = Z3_mk_bvsrem(ctx, a, b); break;
        case O_AND: r = Z3_mk_bvand(ctx, a, b); break;
        case O_OR: r = Z3_mk_bvor(ctx, a, b); break;
        case O_XOR: r = Z3_mk_bvxor(ctx, a, b); break;
        case O_SHL: r = Z3_mk_bvshl(ctx, a, b); break;
        case O_LSHR: r = Z3_mk_bvlshr(ctx, a, b); break;
        case O_ASHR: r = Z3_mk_bvashr(ctx, a, b); break;
        default: fprintf(stderr, "tr op %d\n", e->op); abort();
      }
      if (b1) r = bit(r);
    }
  }
  Z3_inc_ref(ctx, r);
  slot = r;
  return r;
}

static void sliceFor(const std::vector<E>& cs, E q, std::vector<E>& out) {
  std::vector<char> used(cs.size(), 0);
  std::vector<uint32_t> vs(q->vars->begin(), q->vars->end());
  std::set<uint32_t> in(vs.begin(), vs.end());
  bool changed = true;
  while (changed) {
    changed = false;
    for (size_t i = 0; i < cs.size(); i++) {
      if (used[i]) continue;
      bool hit = false;
      for (auto v : *cs[i]->vars) if (in.count(v)) { hit = true; break; }
      if (hit) {
        used[i] = 1; changed = true;
        in.insert(cs[i]->vars->begin(), cs[i]->vars->end());
        out.push_back(cs[i]);
      }
    }
  }
}

static bool hasFp(E e, std::set<uint32_t>& seen) {
  if (!seen.insert(e->id).second) return false;
  if (e->op >= O_FADD) return true;
  for (int i = 0; i < e->nk; i++) if (hasFp(e->k[i], seen)) return true;
  return false;
}

#include "realmode.inc"
// R_UNKNOWN: not decided this way
SatRes Solver::checkReal(const std::vector<E>& sl, E q, const Model& base, std::shared_ptr<Model>& m) {
  for (int pass = 0; pass < 2; pass++) {
    Z3_config cf = Z3_mk_config();
    Z3_context c = Z3_mk_context(cf);
    Z3_del_config(cf);
    SatRes res = R_UNKNOWN; bool give = false;
    std::map<uint32_t, Z3_ast> vars;
    {
      RealMode rm(c, pass == 1, vars);
      Z3_solver s = Z3_mk_solver(c);
      Z3_solver_inc_ref(c, s);
      Z3_params p = Z3_mk_params(c);
      Z3_params_inc_ref(c, p);
      Z3_params_set_uint(c, p, Z3_mk_string_symbol(c, "timeout"), 10000);
      Z3_solver_set_params(c, s, p);
      Z3_params_dec_ref(c, p);
      for (auto* e : sl) {
        try { Z3_solver_assert(c, s, rm.boo(e)); } catch (RealMode::Give&) { if (getenv("WSYM_REAL")) fprintf(stderr, "dropped %s\n", exprStr(e, 12).substr(0, 1500).c_str()); if (e == q) { give = true; break; } }
      }
      if (!give) {
        for (auto a : rm.side) Z3_solver_assert(c, s, a);
        Z3_lbool r = Z3_solver_check(c, s);
        if (r == Z3_L_FALSE && pass == 0) res = R_UNSAT;
        if (r == Z3_L_TRUE) {
          Z3_model zm = Z3_solver_get_model(c, s);
          Z3_model_inc_ref(c, zm);
          m = std::make_shared<Model>(base);
          for (auto& v : vars) { Z3_ast val = nullptr; u128 x = 0; if (Z3_model_eval(c, zm, v.second, true, &val)) for (const char* t = Z3_get_numeral_string(c, val); *t; t++) if (*t >= '0') x = x * 10 + (*t - '0'); m->set(v.first, x); }
          m->uid = Model::nextUid();
          Z3_model_dec_ref(c, zm);
          bool ok = true;
          for (auto* e : sl) if (!evalExpr(e, *m)) { ok = false; if (getenv("WSYM_REAL")) { std::string ms; for (auto& v : vars) ms += " v" + std::to_string(v.first) + "=" + std::to_string((unsigned long long)m->get(v.first)); fprintf(stderr, "fails: %s with %s\n", exprStr(e, 30).substr(0, 6000).c_str(), ms.c_str()); } break; }
          if (ok) res = R_SAT;
        }
      }
      Z3_solver_dec_ref(c, s);
    }
    Z3_del_context(c);
    static bool dbg = getenv("WSYM_REAL"); if (dbg) fprintf(stderr, "real pass %d give %d res %d %s\n", pass, give, res, res == R_UNKNOWN ? exprStr(q, 14).substr(0, 900).c_str() : "");
    if (give || res != R_UNKNOWN) return give ? R_UNKNOWN : res;
  }
  return R_UNKNOWN;
}

SatRes Solver::check(const std::vector<E>& constraints, E q, const Model& base, Model& out) {
  if (isC(q)) { if (q->c) { out = base; return R_SAT; } return R_UNSAT; }
  std::vector<E> sl;
  sliceFor(constraints, q, sl);
  sl.push_back(q);
  std::sort(sl.begin(), sl.end(), [](E a, E b) { return a->id < b->id; });
  std::string key;
  key.resize(sl.size() * 4);
  for (size_t i = 0; i < sl.size(); i++) memcpy(&key[i * 4], &sl[i]->id, 4);
  auto apply = [&](const Model& m) {
    out = base;
    std::set<uint32_t> vs;
    for (auto* e : sl) vs.insert(e->vars->begin(), e->vars->end());
    for (auto v : vs) out.set(v, m.get(v));
  };
  auto it = cache.find(key);
  if (it != cache.end()) {
    stats.cacheHits++;
    if (it->second.r == R_SAT) apply(*it->second.m);
    return it->second.r;
  }
  // try recent models
  for (size_t i = recent.size(); i-- > 0 && i + 4 >= recent.size();) {
    bool ok = true;
    for (auto* e : sl) if (!evalExpr(e, *recent[i])) { ok = false; break; }
    if (ok) {
      stats.modelHits++;
      apply(*recent[i]);
      cache[key] = {R_SAT, recent[i]};
      return R_SAT;
    }
  }
  auto t0 = std::chrono::steady_clock::now();
  stats.queries++;
  bool fpq = false;
  { std::set<uint32_t> seen; for (auto* e : sl) if (hasFp(e, seen)) { fpq = true; break; } }
  auto run = [&](Z3_solver s, unsigned ms) {
    Z3_params p = Z3_mk_params(ctx);
    Z3_params_inc_ref(ctx, p);
    Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
    Z3_solver_set_params(ctx, s, p);
    Z3_params_dec_ref(ctx, p);
    for (auto* e : sl) Z3_solver_assert(ctx, s, tr(e));
    return Z3_solver_check(ctx, s);
  };
  Z3_lbool r = Z3_L_UNDEF;
  Z3_solver used = nullptr;
  bool incUsed = false;
  if (fpq) {  // first with floating point arithmetic uninterpreted: unsat there is unsat
    absMode = true;
    Z3_solver s = Z3_mk_solver(ctx);
    Z3_solver_inc_ref(ctx, s);
    r = run(s, 3000);
    absMode = false;
    Z3_solver_dec_ref(ctx, s);
    if (r == Z3_L_FALSE) stats.fpAbs++; else r = Z3_L_UNDEF;
  }
  std::shared_ptr<Model> realModel;
  if (fpq && r == Z3_L_UNDEF) {
    SatRes rr = checkReal(sl, q, base, realModel);
    if (rr == R_UNSAT) { r = Z3_L_FALSE; stats.fpReal++; }
    if (rr == R_SAT) { r = Z3_L_TRUE; stats.fpReal++; }
    else realModel = nullptr;
  }
  if (!fpq) {
    if (!inc) { inc = Z3_mk_simple_solver(ctx); Z3_solver_inc_ref(ctx, inc); }
    Z3_solver_push(ctx, inc);
    r = run(inc, 1500);
    used = inc; incUsed = true;
    if (r == Z3_L_UNDEF) { Z3_solver_pop(ctx, inc, 1); incUsed = false; }
  }
  if (r == Z3_L_UNDEF) {
    Z3_solver s = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, fpq ? "QF_FPBV" : "QF_BV"));
    Z3_solver_inc_ref(ctx, s);
    used = s;
    r = run(s, timeoutMs);
  }
  SatRes res = r == Z3_L_TRUE ? R_SAT : r == Z3_L_FALSE ? R_UNSAT : R_UNKNOWN;
  std::shared_ptr<Model> m;
  if (res == R_SAT && realModel) m = realModel;
  else if (res == R_SAT) {
    Z3_model zm = Z3_solver_get_model(ctx, used);
    Z3_model_inc_ref(ctx, zm);
    m = std::make_shared<Model>();
    std::set<uint32_t> vs;
    for (auto* e : sl) vs.insert(e->vars->begin(), e->vars->end());
    for (auto v : vs) {
      Z3_ast a = varAst[v], val = nullptr;
      u128 x = 0;
      if (Z3_model_eval(ctx, zm, a, true, &val)) {
        if (varW[v] == 1) x = Z3_get_bool_value(ctx, val) == Z3_L_TRUE;
        else { const char* s = Z3_get_numeral_string(ctx, val); for (; *s; s++) x = x * 10 + (*s - '0'); }
      }
      m->set(v, x);
    }
    m->uid = Model::nextUid();
    Z3_model_dec_ref(ctx, zm);
    for (auto* e : sl) if (!evalExpr(e, *m)) {
      fprintf(stderr, "model validation failed: %s\n", exprStr(e, 8).c_str());
      res = R_UNKNOWN; break;
    }
  }
  if (incUsed) Z3_solver_pop(ctx, inc, 1);
  else if (used) Z3_solver_dec_ref(ctx, used);
  double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
  stats.secs += dt;
  if (dt > stats.maxSecs) stats.maxSecs = dt;
  static const char* slow = getenv("WSYM_SLOW");
  if (slow && dt > atof(slow)) { fprintf(stderr, "slow %.1fs res=%d q=%s\n", dt, res, exprStr(q, 12).substr(0, 1500).c_str()); for (auto* e : sl) if (e != q) fprintf(stderr, "   with %s\n", exprStr(e, 8).substr(0, 300).c_str()); }
  if (res == R_SAT) { stats.sat++; apply(*m); recent.push_back(m); if (recent.size() > 64) recent.erase(recent.begin(), recent.begin() + 32); }
  else if (res == R_UNSAT) stats.unsat++;
  else stats.unknown++;
  if (res != R_UNKNOWN) {
    cache[key] = {res, m};
    if (cache.size() > 400000) cache.clear();
    if (crossEvery && (stats.queries % crossEvery) == 1 % crossEvery) crossCheck(sl, res);
  }
  return res;
}

void Solver::crossCheck(const std::vector<E>& sl, SatRes r) {
  std::vector<Z3_ast> as;
  for (auto* e : sl) as.push_back(tr(e));
  Z3_ast last = as.back(); as.pop_back();
  const char* txt = Z3_benchmark_to_smtlib_string(ctx, "q", "QF_BVFP", "unknown", "", as.size(), as.data(), last);
  char fn[256];
  snprintf(fn, 256, "%s/q%llu.smt2", dumpDir.c_str(), (unsigned long long)stats.queries);
  FILE* f = fopen(fn, "w");
  if (!f) return;
  fputs(txt, f); fclose(f);
  std::string cmd = crossCheckCmd + " " + fn + " 2>/dev/null";
  FILE* p = popen(cmd.c_str(), "r");
  char buf[256] = {0};
  std::string o;
  while (p && fgets(buf, 256, p)) o += buf;
  if (p) pclose(p);
  remove(fn);
  bool sat = o.compare(0, 3, "sat") == 0, unsat = o.compare(0, 5, "unsat") == 0;
  if (!sat && !unsat) return;
  stats.crossChecked++;
  if (sat != (r == R_SAT)) { stats.crossDisagree++; fprintf(stderr, "CROSS-CHECK DISAGREEMENT %s: %s\n", fn, o.c_str()); }
}
