// A sound over-approximation of a query that mixes integers and doubles as linear integer/real arithmetic:
// bit vectors become integers (congruent modulo 2^w, with interval bounds that justify dropping the modulo),
// doubles become reals, each rounding an error of at most half a unit in the last place of the largest possible result.
// unsat here is unsat; a model is only a candidate and is checked by evaluating the original query.
struct RealMode {
  struct Give {};  // not translatable
  typedef __int128 I;
  struct N { Z3_ast t = nullptr; I lo = 0, hi = 0; };                    // some integer congruent to the value
  struct R { Z3_ast t = nullptr; double m = 0; int g = -1100; };         // |value| <= m, value is a multiple of 2^g
  Z3_context c; Z3_solver s; bool exact; std::map<uint32_t, Z3_ast>& vars;
  std::unordered_map<uint32_t, N> ns; std::unordered_map<uint32_t, R> rs; std::unordered_map<uint32_t, Z3_ast> bs;
  std::vector<Z3_ast> side; int fresh = 0; Z3_sort IS, RS;
  RealMode(Z3_context c, bool exact, std::map<uint32_t, Z3_ast>& v) : c(c), exact(exact), vars(v) { IS = Z3_mk_int_sort(c); RS = Z3_mk_real_sort(c); }
  static std::string dec(I v) { bool neg = v < 0; u128 u = neg ? -(u128)v : (u128)v; std::string s; do s.insert(s.begin(), (char)('0' + (int)(u % 10))); while (u /= 10); return neg ? "-" + s : s; }
  Z3_ast in(I v) { return Z3_mk_numeral(c, dec(v).c_str(), IS); }
  Z3_ast add(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_add(c, 2, x); }
  Z3_ast sub(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_sub(c, 2, x); }
  Z3_ast mul(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_mul(c, 2, x); }
  Z3_ast both(Z3_ast a, Z3_ast b) { Z3_ast x[2] = {a, b}; return Z3_mk_and(c, 2, x); }
  static I lim() { return (I)1 << 110; }
  static I sat(I v) { if (v > lim() || v < -lim()) throw Give(); return v; }
  static I mulI(I a, I b) { if (a == 0 || b == 0) return 0; long double x = (long double)a * (long double)b; if (x > 1e33L || x < -1e33L) throw Give(); return a * b; }
  static I fdiv(I a, I b) { I q = a / b; if (a % b && a < 0) q--; return q; }
  N uns(E e) { N n = num(e); unsigned w = e->w; I M = (I)1 << w; if (w > 100) throw Give();
    if (n.lo >= 0 && n.hi < M) return n;
    if (n.lo >= -M && n.hi < M) { N r; r.t = Z3_mk_ite(c, Z3_mk_lt(c, n.t, in(0)), add(n.t, in(M)), n.t); r.lo = 0; r.hi = M - 1; if (n.hi < 0) { r.lo = n.lo + M; r.hi = n.hi + M; } return r; }
    N r; r.t = Z3_mk_mod(c, n.t, in(M)); r.lo = 0; r.hi = M - 1; return r; }
  N sgn(E e) { N n = num(e); unsigned w = e->w; if (w > 100) throw Give(); I H = (I)1 << (w - 1);
    if (n.lo >= -H && n.hi < H) return n;
    N u = uns(e); if (u.hi < H) return u;
    N r; r.t = Z3_mk_ite(c, Z3_mk_ge(c, u.t, in(H)), sub(u.t, in(2 * H)), u.t); r.lo = -H; r.hi = H - 1; return r; }
  N divc(N a, I d) { N r; r.t = Z3_mk_div(c, a.t, in(d)); r.lo = fdiv(a.lo, d); r.hi = fdiv(a.hi, d); return r; }
  N mulc(N a, I d) { N r; r.t = mul(in(d), a.t); I x = mulI(a.lo, d), y = mulI(a.hi, d); r.lo = sat(x < y ? x : y); r.hi = sat(x < y ? y : x); return r; }
  N num(E e) {
    auto it = ns.find(e->id); if (it != ns.end()) return it->second;
    N r = num1(e); ns[e->id] = r; return r;
  }
  N num1(E e) {
    N r;
    if (e->w == 1 && e->op != O_CONST && e->op != O_VAR) { r.t = Z3_mk_ite(c, boo(e), in(1), in(0)); r.lo = 0; r.hi = 1; return r; }
    switch (e->op) {
      case O_CONST: { I v = sextw(e->c, e->w); if (e->w > 100) throw Give(); if (e->w == 1) v = e->c; r.t = in(v); r.lo = r.hi = v; return r; }
      case O_VAR: {
        if (e->w > 100) throw Give();
        char nm[32]; snprintf(nm, 32, "i%u", e->aux);
        r.t = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), IS); r.lo = 0; r.hi = ((I)1 << e->w) - 1; vars[e->aux] = r.t;
        side.push_back(Z3_mk_ge(c, r.t, in(0))); side.push_back(Z3_mk_le(c, r.t, in(r.hi)));
        return r; }
      case O_ADD: { N a = num(e->k[0]), b = num(e->k[1]); r.t = add(a.t, b.t); r.lo = sat(a.lo + b.lo); r.hi = sat(a.hi + b.hi); return r; }
      case O_SUB: { N a = num(e->k[0]), b = num(e->k[1]); r.t = sub(a.t, b.t); r.lo = sat(a.lo - b.hi); r.hi = sat(a.hi - b.lo); return r; }
      case O_MUL: if (isC(e->k[1])) return mulc(num(e->k[0]), sextw(e->k[1]->c, e->w)); if (isC(e->k[0])) return mulc(num(e->k[1]), sextw(e->k[0]->c, e->w)); throw Give();
      case O_SHL: if (!isC(e->k[1]) || e->k[1]->c > 62) throw Give(); return mulc(num(e->k[0]), (I)1 << (int)e->k[1]->c);
      case O_LSHR: if (!isC(e->k[1]) || e->k[1]->c > 62) throw Give(); return divc(uns(e->k[0]), (I)1 << (int)e->k[1]->c);
      case O_ASHR: if (!isC(e->k[1]) || e->k[1]->c > 62) throw Give(); return divc(sgn(e->k[0]), (I)1 << (int)e->k[1]->c);
      case O_UDIV: if (!isC(e->k[1]) || !e->k[1]->c || e->k[1]->c >> 62) throw Give(); return divc(uns(e->k[0]), (I)e->k[1]->c);
      case O_UREM: { if (!isC(e->k[1]) || !e->k[1]->c || e->k[1]->c >> 62) throw Give(); N a = uns(e->k[0]); r.t = Z3_mk_mod(c, a.t, in((I)e->k[1]->c)); r.lo = 0; r.hi = (I)e->k[1]->c - 1; return r; }
      case O_SDIV: case O_SREM: {
        if (!isC(e->k[1])) throw Give();
        I d = sextw(e->k[1]->c, e->w); if (d <= 0 || d >> 62) throw Give();
        N a = sgn(e->k[0]), q = divc(a, d);
        if (a.lo < 0) { N q2; q2.t = Z3_mk_ite(c, Z3_mk_ge(c, a.t, in(0)), q.t, Z3_mk_unary_minus(c, Z3_mk_div(c, Z3_mk_unary_minus(c, a.t), in(d)))); q2.lo = q.lo; q2.hi = q.hi < 0 ? 0 : q.hi; q = q2; }
        if (e->op == O_SDIV) return q;
        r.t = sub(a.t, mul(in(d), q.t)); r.lo = a.lo < 0 ? -(d - 1) : 0; r.hi = d - 1; return r; }
      case O_OR: {
        N a = num(e->k[0]), b = num(e->k[1]);
        if (a.lo < 0 || b.lo < 0 || a.hi > 1 || b.hi > 1) throw Give();
        Z3_ast x[2] = {Z3_mk_eq(c, a.t, in(1)), Z3_mk_eq(c, b.t, in(1))};
        r.t = Z3_mk_ite(c, Z3_mk_or(c, 2, x), in(1), in(0)); r.lo = 0; r.hi = 1; return r; }
      case O_AND: { for (int i = 0; i < 2; i++) if (isC(e->k[i])) { u128 m = e->k[i]->c; if (m && !(m & (m + 1))) { int n = 0; while (m >> n) n++; if (n < 100) { N a = num(e->k[1 - i]); I M = (I)1 << n; if (a.lo >= 0 && a.hi < M) return a; r.t = Z3_mk_mod(c, a.t, in(M)); r.lo = 0; r.hi = M - 1; return r; } } } throw Give(); }
      case O_XOR: { if (!isC(e->k[1]) || e->k[1]->c != maskw(e->w)) throw Give(); N a = num(e->k[0]); r.t = sub(in(-1), a.t); r.lo = -1 - a.hi; r.hi = -1 - a.lo; return r; }
      case O_SEXT: return sgn(e->k[0]);
      case O_CONCAT: { N a = num(e->k[0]), b = uns(e->k[1]); if (e->k[1]->w > 90) throw Give(); N h = mulc(a, (I)1 << e->k[1]->w); if (isC(e->k[0]) && !e->k[0]->c) return b; r.t = add(h.t, b.t); r.lo = sat(h.lo + b.lo); r.hi = sat(h.hi + b.hi); return r; }
      case O_EXTRACT: { N a = num(e->k[0]); if (!e->aux) return a; if (e->aux > 90) throw Give(); return divc(a, (I)1 << e->aux); }
      case O_ITE: { Z3_lbool k = Z3_get_bool_value(c, boo(e->k[0])); if (k == Z3_L_TRUE) return num(e->k[1]); if (k == Z3_L_FALSE) return num(e->k[2]); N a = num(e->k[1]), b = num(e->k[2]); r.t = Z3_mk_ite(c, boo(e->k[0]), a.t, b.t); r.lo = a.lo < b.lo ? a.lo : b.lo; r.hi = a.hi > b.hi ? a.hi : b.hi; return r; }
      case O_FPTOSI: case O_FPTOUI: {
        if (e->k[0]->w != 64) throw Give();
        R x = rea(e->k[0]);
        if (!(x.m < (e->op == O_FPTOSI ? std::ldexp(1.0, e->w - 1) : std::ldexp(1.0, e->w))) || x.m > 1e30) throw Give();
        Z3_ast z = Z3_mk_numeral(c, "0", RS);
        Z3_ast t = Z3_mk_ite(c, Z3_mk_ge(c, x.t, z), Z3_mk_real2int(c, x.t), Z3_mk_unary_minus(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, x.t))));
        r.t = t; r.hi = (I)x.m + 1; r.lo = -r.hi;
        if (e->op == O_FPTOUI) throw Give();
        return r; }
      default: throw Give();
    }
  }
  Z3_ast rat(double d) {  // exactly
    if (d == 0) return Z3_mk_numeral(c, "0", RS);
    int ex; double f = std::frexp(d, &ex); I n = (I)std::ldexp(f, 53); ex -= 53;
    while (!(n & 1)) { n >>= 1; ex++; }
    if (ex > 60 || ex < -1000) { if (ex < 0) throw Give(); }
    Z3_ast a = Z3_mk_numeral(c, dec(n).c_str(), RS);
    std::string p = "1"; for (int i = 0; i < (ex < 0 ? -ex : ex); i++) { int carry = 0; for (size_t k = p.size(); k-- > 0;) { int v = (p[k] - '0') * 2 + carry; p[k] = (char)('0' + v % 10); carry = v / 10; } if (carry) p.insert(p.begin(), '1'); }
    std::string s = ex < 0 ? dec(n) + "/" + p : "";
    if (ex < 0) return Z3_mk_numeral(c, s.c_str(), RS);
    return ex ? mul(a, Z3_mk_numeral(c, p.c_str(), RS)) : a;
  }
  static int gran(double d) { if (d == 0) return 1000; int ex; double f = std::frexp(d, &ex); I n = (I)std::ldexp(f, 53); ex -= 53; while (!(n & 1)) { n >>= 1; ex++; } return ex; }
  R rounded(Z3_ast t, double m, int g, bool additive) {
    R r; r.m = m * (1 + 1e-15);
    if (!(r.m < 1e200)) throw Give();
    if (exact || (g > -1074 && m <= std::ldexp(1.0, 53) * std::ldexp(1.0, g < 900 ? g : 900))) { r.t = t; r.g = g; return r; }
    char nm[32]; snprintf(nm, 32, "r%d", fresh++);
    r.t = Z3_mk_const(c, Z3_mk_string_symbol(c, nm), RS);
    double u = std::ldexp(r.m, -53) * 1.0001 + (additive ? 0 : 1e-300);
    Z3_ast d = sub(r.t, t), z = Z3_mk_numeral(c, "0", RS);
    side.push_back(both(Z3_mk_le(c, d, rat(up(u))), Z3_mk_ge(c, d, rat(-up(u)))));
    side.push_back(Z3_mk_implies(c, Z3_mk_ge(c, t, z), Z3_mk_ge(c, r.t, z)));
    side.push_back(Z3_mk_implies(c, Z3_mk_le(c, t, z), Z3_mk_le(c, r.t, z)));
    if (additive) { side.push_back(Z3_mk_implies(c, Z3_mk_gt(c, t, z), Z3_mk_gt(c, r.t, z))); side.push_back(Z3_mk_implies(c, Z3_mk_lt(c, t, z), Z3_mk_lt(c, r.t, z))); }
    // the last place of the result
    int ex; std::frexp(r.m, &ex); (void)ex; r.g = -1074;
    return r;
  }
  static double up(double u) { int ex; double f = std::frexp(u, &ex); return std::ldexp(std::ceil(f * 1024) / 1024, ex); }  // few bits
  R rea(E e) {
    auto it = rs.find(e->id); if (it != rs.end()) return it->second;
    R r = rea1(e); rs[e->id] = r; return r;
  }
  R rea1(E e) {
    if (e->w != 64) throw Give();
    switch (e->op) {
      case O_CONST: { uint64_t b = (uint64_t)e->c; double d; memcpy(&d, &b, 8); if (!std::isfinite(d)) throw Give(); R r; r.t = rat(d); r.m = std::fabs(d); r.g = gran(d); return r; }
      case O_SITOFP: case O_UITOFP: { N n = e->op == O_SITOFP ? sgn(e->k[0]) : uns(e->k[0]); double m = (double)(n.hi > -n.lo ? n.hi : -n.lo); return rounded(Z3_mk_int2real(c, n.t), m * (1 + 1e-15), 0, true); }
      case O_FADD: { R a = rea(e->k[0]), b = rea(e->k[1]); return rounded(add(a.t, b.t), a.m + b.m, std::min(a.g, b.g), true); }
      case O_FSUB: { R a = rea(e->k[0]), b = rea(e->k[1]); return rounded(sub(a.t, b.t), a.m + b.m, std::min(a.g, b.g), true); }
      case O_FMUL: { R a = rea(e->k[0]), b = rea(e->k[1]); if (!isC(e->k[0]) && !isC(e->k[1])) throw Give(); return rounded(mul(a.t, b.t), a.m * b.m, a.g + b.g < -1073 ? -1100 : a.g + b.g, false); }
      case O_FDIV: {
        if (!isC(e->k[1])) throw Give();
        R a = rea(e->k[0]), b = rea(e->k[1]);
        if (b.m < 1e-100) throw Give();
        double bd; uint64_t bb = (uint64_t)e->k[1]->c; memcpy(&bd, &bb, 8);
        int ex; bool p2 = std::fabs(std::frexp(bd, &ex)) == 0.5;
        return rounded(Z3_mk_div(c, a.t, b.t), a.m / b.m * (1 + 1e-15), p2 && a.g > -900 ? a.g - (ex - 1) : -1100, false); }
      case O_FROUND: {
        R a = rea(e->k[0]); if (a.m > 1e15) throw Give();
        Z3_ast f = Z3_mk_real2int(c, a.t), ce = Z3_mk_unary_minus(c, Z3_mk_real2int(c, Z3_mk_unary_minus(c, a.t))), z = Z3_mk_numeral(c, "0", RS), t;
        if (e->aux == 0) t = f; else if (e->aux == 1) t = ce; else if (e->aux == 2) t = Z3_mk_ite(c, Z3_mk_ge(c, a.t, z), f, ce); else throw Give();
        R r; r.t = Z3_mk_int2real(c, t); r.m = a.m + 1; r.g = 0; return r; }
      case O_ITE: { Z3_lbool k = Z3_get_bool_value(c, boo(e->k[0])); if (k == Z3_L_TRUE) return rea(e->k[1]); if (k == Z3_L_FALSE) return rea(e->k[2]); R a = rea(e->k[1]), b = rea(e->k[2]), r; r.t = Z3_mk_ite(c, boo(e->k[0]), a.t, b.t); r.m = std::max(a.m, b.m); r.g = std::min(a.g, b.g); return r; }
      case O_XOR: { if (!isC(e->k[1]) || e->k[1]->c != (u128)1 << 63) throw Give(); R a = rea(e->k[0]); a.t = Z3_mk_unary_minus(c, a.t); return a; }
      default: throw Give();
    }
  }
  Z3_ast less(N a, N b) { if (a.hi < b.lo) return Z3_mk_true(c); if (a.lo >= b.hi) return Z3_mk_false(c); return Z3_mk_lt(c, a.t, b.t); }
  Z3_ast boo(E e) {
    auto it = bs.find(e->id); if (it != bs.end()) return it->second;
    Z3_ast r = boo1(e); bs[e->id] = r; return r;
  }
  Z3_ast boo1(E e) {
    switch (e->op) {
      case O_CONST: return e->c ? Z3_mk_true(c) : Z3_mk_false(c);
      case O_VAR: return Z3_mk_eq(c, num(e).t, in(1));
      case O_ITE: return Z3_mk_ite(c, boo(e->k[0]), boo(e->k[1]), boo(e->k[2]));
      case O_AND: { Z3_ast x[2] = {boo(e->k[0]), boo(e->k[1])}; return Z3_mk_and(c, 2, x); }
      case O_OR: { Z3_ast x[2] = {boo(e->k[0]), boo(e->k[1])}; return Z3_mk_or(c, 2, x); }
      case O_XOR: return Z3_mk_xor(c, boo(e->k[0]), boo(e->k[1]));
      case O_EQ: { if (e->k[0]->w == 1) return Z3_mk_iff(c, boo(e->k[0]), boo(e->k[1]));
        N a = num(e->k[0]), b = num(e->k[1]); I H = (I)1 << (e->k[0]->w - 1);
        if (a.lo >= -H && b.lo >= -H && a.hi < H && b.hi < H) return Z3_mk_eq(c, a.t, b.t);
        return Z3_mk_eq(c, uns(e->k[0]).t, uns(e->k[1]).t); }
      case O_ULT: return less(uns(e->k[0]), uns(e->k[1]));
      case O_SLT: return less(sgn(e->k[0]), sgn(e->k[1]));
      case O_EXTRACT: { if (e->aux == e->k[0]->w - 1) return Z3_mk_lt(c, sgn(e->k[0]).t, in(0)); N a = num(e->k[0]); if (e->aux) a = divc(a, (I)1 << e->aux); return Z3_mk_eq(c, Z3_mk_mod(c, a.t, in(2)), in(1)); }
      case O_FLT: return Z3_mk_lt(c, rea(e->k[0]).t, rea(e->k[1]).t);
      case O_FLE: return Z3_mk_le(c, rea(e->k[0]).t, rea(e->k[1]).t);
      case O_FEQ: return Z3_mk_eq(c, rea(e->k[0]).t, rea(e->k[1]).t);
      case O_FUNO: rea(e->k[0]); rea(e->k[1]); return Z3_mk_false(c);
      default: throw Give();
    }
  }
};
