#include "expr.h"
#include <algorithm>
#include <cmath>
#include <cstring>
#include <set>
#include <unordered_set>

namespace {
struct Key { const Expr* e; };
size_t hashExpr(const Expr& e) {
  size_t h = e.op * 1000003u + e.w;
  h = h * 31 + e.aux;
  h = h * 1000003 + (uint64_t)e.c;
  h = h * 1000003 + (uint64_t)(e.c >> 64);
  for (int i = 0; i < e.nk; i++) h = h * 1000003 + e.k[i]->id;
  for (auto* a : e.agg) h = h * 1000003 + a->id;
  return h ^ (h >> 29);
}
struct H { size_t operator()(const Expr* e) const { return hashExpr(*e); } };
struct EqE {
  bool operator()(const Expr* a, const Expr* b) const {
    if (a->op != b->op || a->w != b->w || a->aux != b->aux || a->c != b->c ||
        a->nk != b->nk) return false;
    for (int i = 0; i < a->nk; i++) if (a->k[i] != b->k[i]) return false;
    return a->agg == b->agg;
  }
};
std::unordered_set<const Expr*, H, EqE> table;
struct VSH { size_t operator()(const VarSet& v) const { size_t h = v.size(); for (auto x : v) h = h * 1000003 + x; return h; } };
std::unordered_set<VarSet, VSH> vsets;
const VarSet* internVS(VarSet&& v) { return &*vsets.insert(std::move(v)).first; }
const VarSet* emptyVS() { static const VarSet* e = internVS(VarSet()); return e; }
uint32_t nextId = 1;
uint32_t epoch = 1;

E intern(Expr& t) {
  auto it = table.find(&t);
  if (it != table.end()) return *it;
  Expr* n = new Expr(t);
  n->id = nextId++;
  n->z = nullptr; n->ep = 0;
  if (t.op == O_VAR) n->vars = internVS(VarSet{t.aux});
  else if (t.nk == 0 && t.agg.empty()) n->vars = emptyVS();
  else {
    const VarSet* cur = emptyVS();
    auto merge = [&](const VarSet* o) {
      if (o == cur || o->empty()) return;
      if (cur->empty()) { cur = o; return; }
      if (std::includes(cur->begin(), cur->end(), o->begin(), o->end())) return;
      if (std::includes(o->begin(), o->end(), cur->begin(), cur->end())) { cur = o; return; }
      VarSet r;
      std::set_union(cur->begin(), cur->end(), o->begin(), o->end(), std::back_inserter(r));
      cur = internVS(std::move(r));
    };
    for (int i = 0; i < t.nk; i++) merge(t.k[i]->vars);
    for (auto* a : t.agg) merge(a->vars);
    n->vars = cur;
  }
  table.insert(n);
  return n;
}
E raw(Op op, unsigned w, E a = nullptr, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
  Expr t; t.op = op; t.w = w; t.aux = aux; t.c = 0; t.nk = 0; t.id = 0; t.vars = nullptr;
  t.k[0] = a; t.k[1] = b; t.k[2] = c;
  t.nk = c ? 3 : b ? 2 : a ? 1 : 0;
  return intern(t);
}
}  // namespace

size_t exprCount() { return table.size(); }

E mkConst(u128 c, unsigned w) {
  static E small[65][257];
  c &= maskw(w);
  if (w <= 64 && c <= 256) {
    E& s = small[w][(int)c];
    if (s) return s;
    Expr t; t.op = O_CONST; t.w = w; t.aux = 0; t.c = c; t.nk = 0; t.k[0] = t.k[1] = t.k[2] = nullptr; t.id = 0; t.vars = nullptr;
    return s = intern(t);
  }
  Expr t; t.op = O_CONST; t.w = w; t.aux = 0; t.c = c; t.nk = 0; t.k[0] = t.k[1] = t.k[2] = nullptr; t.id = 0; t.vars = nullptr;
  return intern(t);
}
E mkVar(uint32_t id, unsigned w) { return raw(O_VAR, w, nullptr, nullptr, nullptr, id); }
E mkAgg(const std::vector<E>& v) {
  Expr t; t.op = O_AGG; t.w = 0; t.aux = 0; t.c = 0; t.nk = 0; t.id = 0; t.vars = nullptr;
  t.k[0] = t.k[1] = t.k[2] = nullptr;
  t.agg = v;
  return intern(t);
}

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  u128 m = maskw(w);
  ok = true;
  a &= m; b &= m;
  switch (op) {
    case O_ADD: return (a + b) & m;
    case O_SUB: return (a - b) & m;
    case O_MUL: return (a * b) & m;
    case O_UDIV: if (!b) { return m; } return a / b;
    case O_UREM: if (!b) { return a; } return a % b;
    case O_SDIV: {
      __int128 x = sextw(a, w), y = sextw(b, w);
      if (!y) return x < 0 ? 1 : m;
      if (y == -1) return (u128)(-(u128)x) & m;
      return (u128)(x / y) & m; }
    case O_SREM: {
      __int128 x = sextw(a, w), y = sextw(b, w);
      if (!y) return a;
      if (y == -1) return 0;
      return (u128)(x % y) & m; }
    case O_AND: return a & b;
    case O_OR: return a | b;
    case O_XOR: return a ^ b;
    case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & m;
    case O_LSHR: return b >= w ? 0 : a >> (unsigned)b;
    case O_ASHR: { unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(sextw(a, w) >> s) & m; }
    case O_EQ: return a == b;
    case O_ULT: return a < b;
    case O_SLT: return sextw(a, w) < sextw(b, w);
    default: ok = false; return 0;
  }
}

static double asD(u128 v, unsigned w) {
  if (w == 32) { float f; uint32_t x = (uint32_t)v; memcpy(&f, &x, 4); return f; }
  double d; uint64_t x = (uint64_t)v; memcpy(&d, &x, 8); return d;
}
static u128 fromD(double d, unsigned w) {
  if (w == 32) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return x; }
  uint64_t x; memcpy(&x, &d, 8); return x;
}
u128 foldFp(Op op, u128 a, u128 b, unsigned wi, unsigned wo, unsigned aux) {
  switch (op) {
    case O_FADD: if (wi == 32) return fromD((float)asD(a, wi) + (float)asD(b, wi), wo); return fromD(asD(a, wi) + asD(b, wi), wo);
    case O_FSUB: if (wi == 32) return fromD((float)asD(a, wi) - (float)asD(b, wi), wo); return fromD(asD(a, wi) - asD(b, wi), wo);
    case O_FMUL: if (wi == 32) return fromD((float)asD(a, wi) * (float)asD(b, wi), wo); return fromD(asD(a, wi) * asD(b, wi), wo);
    case O_FDIV: if (wi == 32) return fromD((float)asD(a, wi) / (float)asD(b, wi), wo); return fromD(asD(a, wi) / asD(b, wi), wo);
    case O_FLT: return asD(a, wi) < asD(b, wi);
    case O_FLE: return asD(a, wi) <= asD(b, wi);
    case O_FEQ: return asD(a, wi) == asD(b, wi);
    case O_FUNO: return std::isnan(asD(a, wi)) || std::isnan(asD(b, wi));
    case O_FPTOSI: { double d = asD(a, wi);
      if (!(d >= -9223372036854775808.0 && d < 9223372036854775808.0)) return ((u128)1 << (wo - 1));
      int64_t r = (int64_t)d;
      if (wo < 64 && (r < -((int64_t)1 << (wo - 1)) || r > ((int64_t)1 << (wo - 1)) - 1)) {
        if (wo == 32) return 0x80000000u;
        return (u128)r & maskw(wo); }
      return (u128)(__int128)r & maskw(wo); }
    case O_FPTOUI: { double d = asD(a, wi); if (!(d > -1 && d < 18446744073709551616.0)) return ((u128)1 << (wo - 1)); return (u128)(uint64_t)d & maskw(wo); }
    case O_SITOFP: { __int128 x = sextw(a, wi); if (wo == 32) { float f = (float)(int64_t)x; return fromD(f, 32);} return fromD((double)(int64_t)x, 64); }
    case O_UITOFP: { if (wo == 32) { float f = (float)(uint64_t)a; return fromD(f, 32);} return fromD((double)(uint64_t)a, 64); }
    case O_FPEXT: return fromD(asD(a, wi), wo);
    case O_FPTRUNC: return fromD((float)asD(a, wi), wo);
    case O_FROUND: { double d = asD(a, wi); d = aux == 0 ? std::floor(d) : aux == 1 ? std::ceil(d) : aux == 2 ? std::trunc(d) : aux == 3 ? std::round(d) : std::rint(d); return fromD(d, wo); }
    default: abort();
  }
}

// ---- pieces: view of an expression as a concatenation ----
static void pieces(E e, std::vector<E>& out) {  // most significant first
  while (e->op == O_CONCAT) { out.push_back(e->k[0]); e = e->k[1]; }
  out.push_back(e);
}
static E fromPieces(const std::vector<E>& p) {
  E r = p.back();
  for (int i = (int)p.size() - 2; i >= 0; i--) r = mkConcat(p[i], r);
  return r;
}
static bool isConcatLike(E e) { return e->op == O_CONCAT; }

E mkConcat(E hi, E lo) {
  unsigned w = hi->w + lo->w;
  if (w > 128) { fprintf(stderr, "concat too wide\n"); abort(); }
  if (hi->op == O_CONCAT) return mkConcat(hi->k[0], mkConcat(hi->k[1], lo));
  if (isC(hi) && isC(lo)) return mkConst((hi->c << lo->w) | lo->c, w);
  E first = lo->op == O_CONCAT ? lo->k[0] : lo;
  E merged = nullptr;
  if (isC(hi) && isC(first)) merged = mkConst((hi->c << first->w) | first->c, hi->w + first->w);
  else if (hi->op == O_EXTRACT && first->op == O_EXTRACT && hi->k[0] == first->k[0] &&
           hi->aux == first->aux + first->w)
    merged = mkExtractRaw(hi->k[0], first->aux, hi->w + first->w);
  else if (hi->op == O_EXTRACT && hi->k[0] == first && hi->aux == first->w) merged = nullptr;
  if (merged) {
    if (lo->op == O_CONCAT) return mkConcat(merged, lo->k[1]);
    return merged;
  }
  return raw(O_CONCAT, w, hi, lo);
}

// for bytes of stored values: nothing is pushed into arithmetic, so that a load
// of the whole value finds the value again
E mkExtractRaw(E a, unsigned lo, unsigned w) {
  if ((a->op == O_ADD || a->op == O_SUB || a->op == O_MUL) && a->w > w) return raw(O_EXTRACT, w, a, nullptr, nullptr, lo);
  return mkExtract(a, lo, w);
}
E mkExtractByte(E a, unsigned lo) { return mkExtractRaw(a, lo, 8); }
E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo == 0 && w == a->w) return a;
  switch (a->op) {
    case O_CONST: return mkConst(a->c >> lo, w);
    case O_EXTRACT: return mkExtract(a->k[0], a->aux + lo, w);
    case O_CONCAT: {
      E h = a->k[0], l = a->k[1];
      if (lo >= l->w) return mkExtract(h, lo - l->w, w);
      if (lo + w <= l->w) return mkExtract(l, lo, w);
      return mkConcat(mkExtract(h, 0, lo + w - l->w), mkExtract(l, lo, l->w - lo));
    }
    case O_SEXT: {
      E x = a->k[0];
      if (lo + w <= x->w) return mkExtract(x, lo, w);
      if (lo == 0) return mkSExt(x, w);
      break;
    }
    case O_ITE: {
      E t = a->k[1], f = a->k[2];
      if ((isC(t) || isConcatLike(t)) && (isC(f) || isConcatLike(f)))
        return mkIte(a->k[0], mkExtract(t, lo, w), mkExtract(f, lo, w));
      break;
    }
    case O_AND: case O_OR: case O_XOR:
      if (isC(a->k[1]) || isConcatLike(a->k[0]) || isConcatLike(a->k[1]))
        return mkBin(a->op, mkExtract(a->k[0], lo, w), mkExtract(a->k[1], lo, w));
      break;
    case O_ADD: case O_SUB: case O_MUL:
      if (lo == 0 && (isC(a->k[1]) || isC(a->k[0]) || isConcatLike(a->k[0]) || isConcatLike(a->k[1])))
        return mkBin(a->op, mkExtract(a->k[0], 0, w), mkExtract(a->k[1], 0, w));
      break;
    default: break;
  }
  return raw(O_EXTRACT, w, a, nullptr, nullptr, lo);
}

E mkZExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
    return mkIte(a->k[0], mkZExt(a->k[1], w), mkZExt(a->k[2], w));
  return mkConcat(mkConst(0, w - a->w), a);
}
E mkSExt(E a, unsigned w) {
  if (w == a->w) return a;
  if (isC(a)) return mkConst((u128)sextw(a->c, a->w), w);
  if (a->op == O_CONCAT && isC(a->k[0])) {
    bool neg = (a->k[0]->c >> (a->k[0]->w - 1)) & 1;
    return mkConcat(mkConst(neg ? maskw(w - a->w) : 0, w - a->w), a);
  }
  if (a->op == O_SEXT) return mkSExt(a->k[0], w);
  if (a->op == O_ITE && isC(a->k[1]) && isC(a->k[2]))
    return mkIte(a->k[0], mkSExt(a->k[1], w), mkSExt(a->k[2], w));
  return raw(O_SEXT, w, a);
}

E mkNot(E a) {
  if (isC(a)) return mkConst(!a->c, 1);
  if (a->op == O_XOR && isC(a->k[1])) return a->k[0];
  return raw(O_XOR, 1, a, mkConst(1, 1));
}
static bool isNot(E a) { return a->w == 1 && a->op == O_XOR && isC(a->k[1]); }

E mkBoolAnd(E a, E b) { return mkBin(O_AND, a, b); }
E mkBoolOr(E a, E b) { return mkBin(O_OR, a, b); }

E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a == b) return a;
  if (isNot(c)) return mkIte(c->k[0], b, a);
  if (a->w == 1) {
    if (isC(a) && isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkBoolOr(c, b) : mkBoolAnd(mkNot(c), b);
    if (isC(b)) return b->c ? mkBoolOr(mkNot(c), a) : mkBoolAnd(c, a);
  }
  if (a->op == O_ITE && a->k[0] == c) a = a->k[1];
  if (b->op == O_ITE && b->k[0] == c) b = b->k[2];
  if (a == b) return a;
  if (b->op == O_ITE && b->k[1] == a) return mkIte(mkBoolOr(c, b->k[0]), a, b->k[2]);
  if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0]->w == b->k[0]->w &&
      (a->k[0] == b->k[0] || a->k[1] == b->k[1]))
    return mkConcat(mkIte(c, a->k[0], b->k[0]), mkIte(c, a->k[1], b->k[1]));
  return raw(O_ITE, a->w, c, a, b);
}

static E constMaskAnd(E x, u128 m, unsigned w) {
  // split into runs
  int runs = 0; bool prev = false;
  for (unsigned i = 0; i < w; i++) { bool b = (m >> i) & 1; if (b != prev) runs++; prev = b; }
  if (runs > 6) return nullptr;
  E r = nullptr;
  unsigned i = 0;
  while (i < w) {
    bool b = (m >> i) & 1;
    unsigned j = i;
    while (j < w && (((m >> j) & 1) == b)) j++;
    E p = b ? mkExtract(x, i, j - i) : mkConst(0, j - i);
    r = r ? mkConcat(p, r) : p;
    i = j;
  }
  return r;
}

// combine two concat-structured terms piecewise if cheap (every piece has a const side)
static E pieceWise(Op op, E a, E b) {
  std::vector<E> pa, pb;
  pieces(a, pa); pieces(b, pb);
  std::reverse(pa.begin(), pa.end()); std::reverse(pb.begin(), pb.end());
  size_t i = 0, j = 0; unsigned oi = 0, oj = 0;
  std::vector<E> out;
  bool useful = false;
  while (i < pa.size() && j < pb.size()) {
    unsigned ra = pa[i]->w - oi, rb = pb[j]->w - oj;
    unsigned n = std::min(ra, rb);
    E x = mkExtract(pa[i], oi, n), y = mkExtract(pb[j], oj, n);
    if (isC(x) || isC(y) || x == y) useful = true; else return nullptr;
    E r = mkBin(op, x, y);
    out.push_back(r);
    oi += n; oj += n;
    if (oi == pa[i]->w) { i++; oi = 0; }
    if (oj == pb[j]->w) { j++; oj = 0; }
  }
  if (!useful) return nullptr;
  std::reverse(out.begin(), out.end());
  return fromPieces(out);
}

static bool iteConstLeaf(E e) { return e->op == O_ITE && isC(e->k[1]) && isC(e->k[2]); }

// the difference of two sums, term by term; false if it has too many terms
static bool linTerms(E e, u128 k, std::vector<std::pair<E, u128>>& t, u128& c, int& left) {
  if (--left < 0) return false;
  if (isC(e)) { c += k * e->c; return true; }
  if (e->op == O_ADD) return linTerms(e->k[0], k, t, c, left) && linTerms(e->k[1], k, t, c, left);
  if (e->op == O_SUB) return linTerms(e->k[0], k, t, c, left) && linTerms(e->k[1], (u128)0 - k, t, c, left);
  for (auto& p : t) if (p.first == e) { p.second += k; return true; }
  t.push_back({e, k});
  return true;
}
static bool linConstDiff(E a, E b, u128& c) {
  if ((a->op != O_ADD && a->op != O_SUB) && (b->op != O_ADD && b->op != O_SUB)) return false;
  std::vector<std::pair<E, u128>> t; int left = 24;
  c = 0;
  if (!linTerms(a, 1, t, c, left) || !linTerms(b, (u128)0 - 1, t, c, left)) return false;
  u128 m = maskw(a->w);
  for (auto& p : t) if (p.second & m) return false;
  c &= m;
  return true;
}
E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  if (a->w != b->w) { fprintf(stderr, "width mismatch op %d %u %u\n", op, a->w, b->w); abort(); }
  bool cmp = op == O_EQ || op == O_ULT || op == O_SLT;
  unsigned rw = cmp ? 1 : w;
  if (isC(a) && isC(b)) {
    bool ok; u128 r = foldBin(op, a->c, b->c, w, ok);
    if (ok) return mkConst(r, rw);
  }
  bool comm = op == O_ADD || op == O_MUL || op == O_AND || op == O_OR || op == O_XOR || op == O_EQ;
  if (comm) {
    if (isC(a)) std::swap(a, b);
    else if (!isC(b) && a->id > b->id) std::swap(a, b);
  }
  // push through ite with constant leaves when the other side is constant
  if (isC(b) && iteConstLeaf(a))
    return mkIte(a->k[0], mkBin(op, a->k[1], b), mkBin(op, a->k[2], b));
  if (isC(a) && iteConstLeaf(b))
    return mkIte(b->k[0], mkBin(op, a, b->k[1]), mkBin(op, a, b->k[2]));
  switch (op) {
    case O_ADD:
      if (isC(b)) {
        if (!b->c) return a;
        if (w == 1) return mkNot(a);
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c + b->c, w));
      } else {
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a->k[0], b), a->k[1]);
        if (b->op == O_ADD && isC(b->k[1])) return mkBin(O_ADD, mkBin(O_ADD, a, b->k[0]), b->k[1]);
        if (a->op == O_SUB && a->k[1] == b) return a->k[0];
        if (b->op == O_SUB && b->k[1] == a) return b->k[0];
        if (w > 1) { E r = nullptr;
          // disjoint bits -> or
          if (a->op == O_CONCAT && b->op == O_CONCAT) {
            std::vector<E> pa, pb; pieces(a, pa); pieces(b, pb);
            // quick disjointness check
            std::reverse(pa.begin(), pa.end()); std::reverse(pb.begin(), pb.end());
            size_t i = 0, j = 0; unsigned oi = 0, oj = 0; bool dis = true;
            while (dis && i < pa.size() && j < pb.size()) {
              unsigned n = std::min(pa[i]->w - oi, pb[j]->w - oj);
              bool za = isC(pa[i]) && !((pa[i]->c >> oi) & maskw(n));
              bool zb = isC(pb[j]) && !((pb[j]->c >> oj) & maskw(n));
              if (!za && !zb) dis = false;
              oi += n; oj += n;
              if (oi == pa[i]->w) { i++; oi = 0; }
              if (oj == pb[j]->w) { j++; oj = 0; }
            }
            if (dis) r = pieceWise(O_OR, a, b);
          }
          if (r) return r; }
      }
      break;
    case O_SUB:
      if (a == b) return mkConst(0, w);
      if (isC(b)) return mkBin(O_ADD, a, mkConst(-b->c, w));
      if (a->op == O_ADD) {
        if (a->k[0] == b) return a->k[1];
        if (a->k[1] == b) return a->k[0];
        if (isC(a->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a->k[0], b), a->k[1]);
      }
      if (b->op == O_ADD) {
        if (isC(b->k[1])) return mkBin(O_ADD, mkBin(O_SUB, a, b->k[0]), mkConst(-b->k[1]->c, w));
        if (b->k[0] == a) return mkBin(O_SUB, mkConst(0, w), b->k[1]);
        if (b->k[1] == a) return mkBin(O_SUB, mkConst(0, w), b->k[0]);
      }
      if (a->op == O_ADD && b->op == O_ADD) {
        if (a->k[0] == b->k[0]) return mkBin(O_SUB, a->k[1], b->k[1]);
        if (a->k[0] == b->k[1]) return mkBin(O_SUB, a->k[1], b->k[0]);
        if (a->k[1] == b->k[0]) return mkBin(O_SUB, a->k[0], b->k[1]);
        if (a->k[1] == b->k[1]) return mkBin(O_SUB, a->k[0], b->k[0]);
      }
      break;
    case O_MUL:
      if (isC(b)) {
        if (!b->c) return b;
        if (b->c == 1) return a;
        if (!(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_SHL, a, mkConst(s, w)); }
      }
      break;
    case O_UDIV:
      if (isC(b) && b->c && !(b->c & (b->c - 1))) { unsigned s = 0; while (!((b->c >> s) & 1)) s++; return mkBin(O_LSHR, a, mkConst(s, w)); }
      break;
    case O_UREM:
      if (isC(b) && b->c && !(b->c & (b->c - 1))) return mkBin(O_AND, a, mkConst(b->c - 1, w));
      break;
    case O_SDIV: case O_SREM:
      if (a->op == O_CONCAT && isC(a->k[0]) && !(a->k[0]->c >> (a->k[0]->w - 1)) && isC(b) && !(b->c >> (w - 1)))
        return mkBin(op == O_SDIV ? O_UDIV : O_UREM, a, b);
      if (op == O_SDIV && isC(b) && b->c == 1) return a;
      break;
    case O_AND:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->c) return b;
        if (b->c == maskw(w)) return a;
        E r = constMaskAnd(a, b->c, w);
        if (r) return r;
      }
      if (w == 1) {
        if (isNot(a) && a->k[0] == b) return mkConst(0, 1);
        if (isNot(b) && b->k[0] == a) return mkConst(0, 1);
      }
      if (a->op == O_CONCAT || b->op == O_CONCAT) { E r = pieceWise(op, a, b); if (r) return r; }
      break;
    case O_OR:
      if (a == b) return a;
      if (isC(b)) {
        if (!b->c) return a;
        if (b->c == maskw(w)) return b;
        // or with const: ones become constants
        int runs = 0; bool prev = false;
        for (unsigned i = 0; i < w; i++) { bool x = (b->c >> i) & 1; if (x != prev) runs++; prev = x; }
        if (runs <= 6) {
          E r = nullptr; unsigned i = 0;
          while (i < w) {
            bool x = (b->c >> i) & 1; unsigned j = i;
            while (j < w && (((b->c >> j) & 1) == x)) j++;
            E p = x ? mkConst(maskw(j - i), j - i) : mkExtract(a, i, j - i);
            r = r ? mkConcat(p, r) : p; i = j;
          }
          return r;
        }
      }
      if (w == 1) {
        if (isNot(a) && a->k[0] == b) return mkConst(1, 1);
        if (isNot(b) && b->k[0] == a) return mkConst(1, 1);
      }
      if (a->op == O_CONCAT || b->op == O_CONCAT) { E r = pieceWise(op, a, b); if (r) return r; }
      break;
    case O_XOR:
      if (a == b) return mkConst(0, w);
      if (isC(b)) { if (!b->c) return a; if (w == 1) return mkNot(a); 
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_XOR, a->k[0], mkConst(a->k[1]->c ^ b->c, w)); }
      if (w == 1) { if (isNot(a)) return mkNot(mkBin(O_XOR, a->k[0], b)); if (isNot(b)) return mkNot(mkBin(O_XOR, a, b->k[0])); 
        return mkNot(mkBin(O_EQ, a, b)); }
      if (a->op == O_CONCAT || b->op == O_CONCAT) { E r = pieceWise(op, a, b); if (r) return r; }
      break;
    case O_SHL:
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c; if (!s) return a;
        return mkConcat(mkExtract(a, 0, w - s), mkConst(0, s));
      }
      break;
    case O_LSHR:
      if (isC(b)) {
        if (b->c >= w) return mkConst(0, w);
        unsigned s = (unsigned)b->c; if (!s) return a;
        return mkZExt(mkExtract(a, s, w - s), w);
      }
      break;
    case O_ASHR:
      if (isC(b)) {
        unsigned s = b->c >= w ? w - 1 : (unsigned)b->c; if (!s) return a;
        return mkSExt(mkExtract(a, s, w - s), w);
      }
      break;
    case O_EQ:
      if (a == b) return mkConst(1, 1);
      if (w == 1) {
        if (isC(b)) return b->c ? a : mkNot(a);
        if (isNot(a) && a->k[0] == b) return mkConst(0, 1);
        if (isNot(b) && b->k[0] == a) return mkConst(0, 1);
      }
      if (isC(b)) {
        if (a->op == O_CONCAT) {
          E h = a->k[0], l = a->k[1];
          if (isC(h)) { if (h->c != (b->c >> l->w)) return mkConst(0, 1); return mkBin(O_EQ, l, mkConst(b->c, l->w)); }
          return mkBoolAnd(mkBin(O_EQ, h, mkConst(b->c >> l->w, h->w)), mkBin(O_EQ, l, mkConst(b->c, l->w)));
        }
        if (a->op == O_ADD && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c - a->k[1]->c, w));
        if (a->op == O_XOR && isC(a->k[1])) return mkBin(O_EQ, a->k[0], mkConst(b->c ^ a->k[1]->c, w));
        if (a->op == O_SUB && isC(a->k[0])) return mkBin(O_EQ, a->k[1], mkConst(a->k[0]->c - b->c, w));
        if (a->op == O_SUB && !b->c) return mkBin(O_EQ, a->k[0], a->k[1]);
        if (a->op == O_SEXT) {
          E x = a->k[0];
          if ((u128)(sextw(b->c & maskw(x->w), x->w)) << (128 - w) >> (128 - w) != b->c) return mkConst(0, 1);
          return mkBin(O_EQ, x, mkConst(b->c, x->w));
        }
        if (a->op == O_ITE) {
          if (isC(a->k[1])) {
            if (a->k[1]->c != b->c) return mkBoolAnd(mkNot(a->k[0]), mkBin(O_EQ, a->k[2], b));
            return mkBoolOr(a->k[0], mkBin(O_EQ, a->k[2], b));
          }
          if (isC(a->k[2])) {
            if (a->k[2]->c != b->c) return mkBoolAnd(a->k[0], mkBin(O_EQ, a->k[1], b));
            return mkBoolOr(mkNot(a->k[0]), mkBin(O_EQ, a->k[1], b));
          }
        }
      }
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[1]->w == b->k[1]->w)
        return mkBoolAnd(mkBin(O_EQ, a->k[0], b->k[0]), mkBin(O_EQ, a->k[1], b->k[1]));
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w)
        return mkBin(O_EQ, a->k[0], b->k[0]);
      if (a->op == O_ADD && b->op == O_ADD && isC(a->k[1]) && isC(b->k[1]))
        return mkBin(O_EQ, mkBin(O_ADD, a->k[0], mkConst(a->k[1]->c - b->k[1]->c, w)), b->k[0]);
      if (a->op == O_ADD && a->k[0] == b) return mkBin(O_EQ, a->k[1], mkConst(0, w));
      if (a->op == O_ADD && a->k[1] == b) return mkBin(O_EQ, a->k[0], mkConst(0, w));
      if (b->op == O_ADD && b->k[0] == a) return mkBin(O_EQ, b->k[1], mkConst(0, w));
      if (b->op == O_ADD && b->k[1] == a) return mkBin(O_EQ, b->k[0], mkConst(0, w));
      { u128 c; if (w > 8 && linConstDiff(a, b, c)) return mkConst(!c, 1); }
      break;
    case O_ULT: {
      if (a == b) return mkConst(0, 1);
      if (isC(b)) {
        if (!b->c) return mkConst(0, 1);
        if (b->c == 1) return mkBin(O_EQ, a, mkConst(0, w));
        if (a->op == O_CONCAT && isC(a->k[0])) {
          E l = a->k[1]; u128 bh = b->c >> l->w;
          if (a->k[0]->c < bh) return mkConst(1, 1);
          if (a->k[0]->c > bh) return mkConst(0, 1);
          return mkBin(O_ULT, l, mkConst(b->c, l->w));
        }
      }
      if (isC(a)) {
        if (a->c == maskw(w)) return mkConst(0, 1);
        if (!a->c) return mkNot(mkBin(O_EQ, b, mkConst(0, w)));
        if (b->op == O_CONCAT && isC(b->k[0])) {
          E l = b->k[1]; u128 ah = a->c >> l->w;
          if (ah < b->k[0]->c) return mkConst(1, 1);
          if (ah > b->k[0]->c) return mkConst(0, 1);
          return mkBin(O_ULT, mkConst(a->c, l->w), l);
        }
      }
      if (a->op == O_CONCAT && b->op == O_CONCAT && a->k[0] == b->k[0]) return mkBin(O_ULT, a->k[1], b->k[1]);
      if (a->op == O_CONCAT && b->op == O_CONCAT && isC(a->k[0]) && isC(b->k[0]) && a->k[0]->c == 0 && b->k[0]->c == 0) {
        unsigned m = std::max(a->k[1]->w, b->k[1]->w);
        if (m < w) return mkBin(O_ULT, mkExtract(a, 0, m), mkExtract(b, 0, m));
      }
      if (w == 1) return mkBoolAnd(mkNot(a), b);
      break;
    }
    case O_SLT: {
      if (a == b) return mkConst(0, 1);
      auto nn = [&](E e) { return (isC(e) && !(e->c >> (w - 1))) || (e->op == O_CONCAT && isC(e->k[0]) && !(e->k[0]->c >> (e->k[0]->w - 1))); };
      if (w > 1 && nn(a) && nn(b)) return mkBin(O_ULT, a, b);
      // neg constant vs nonneg
      if (isC(b) && (b->c >> (w - 1)) && nn(a)) return mkConst(0, 1);
      if (isC(a) && (a->c >> (w - 1)) && nn(b)) return mkConst(1, 1);
      if (w > 1 && isC(b) && !b->c) return mkBin(O_EQ, mkExtract(a, w - 1, 1), mkConst(1, 1));
      if (w > 1 && isC(a) && a->c == maskw(w)) return mkBin(O_EQ, mkExtract(b, w - 1, 1), mkConst(0, 1));
      if (a->op == O_SEXT && b->op == O_SEXT && a->k[0]->w == b->k[0]->w) return mkBin(O_SLT, a->k[0], b->k[0]);
      break;
    }
    default: break;
  }
  return raw(op, rw, a, b);
}

// an upper bound on the magnitude of a double, infinity if not known (then it may be NaN)
static double fpBound(E e) {
  const double inf = __builtin_inf();
  if (e->w != 64) return inf;
  switch (e->op) {
    case O_CONST: { double d = asD(e->c, 64); return d != d ? inf : d < 0 ? -d : d; }
    case O_SITOFP: case O_UITOFP: return e->k[0]->w <= 64 ? 1.9e19 : inf;
    case O_FADD: case O_FSUB: { double r = (fpBound(e->k[0]) + fpBound(e->k[1])) * 1.01; return r < 1e290 ? r : inf; }
    case O_FMUL: { double a = fpBound(e->k[0]), b = fpBound(e->k[1]); double r = a * b * 1.01; return a < inf && b < inf && r < 1e290 ? r : inf; }
    case O_FDIV: {
      double a = fpBound(e->k[0]);
      if (!isC(e->k[1])) return inf;
      double c = fpBound(e->k[1]);
      if (!(c > 1e-100) || c == inf) return inf;
      double r = a / c * 1.01 + 1e-200;
      return r < 1e290 ? r : inf; }
    case O_FROUND: { double r = fpBound(e->k[0]) + 1; return r < 1e290 ? r : inf; }
    case O_ITE: { double a = fpBound(e->k[1]), b = fpBound(e->k[2]); return a > b ? a : b; }
    default: return inf;
  }
}
bool fpFinite(E e) { return fpBound(e) < 1e290; }
E mkFp(Op op, E a, E b, unsigned w, unsigned aux) {
  if (op == O_FUNO && fpFinite(a) && fpFinite(b)) return mkConst(0, 1);
  if (op == O_FEQ && a == b && fpFinite(a)) return mkConst(1, 1);
  if (op == O_FLE && a == b && fpFinite(a)) return mkConst(1, 1);
  if (op == O_FLT && a == b) return mkConst(0, 1);
  if (op == O_FDIV && isC(b) && b->w == 64 && asD(b->c, 64) == 1.0) return a;
  if (isC(a) && (!b || isC(b))) return mkConst(foldFp(op, a->c, b ? b->c : 0, a->w, w, aux), w);
  return raw(op, w, a, b, nullptr, aux);
}

void newEvalEpoch() { epoch++; }

static u128 ev(E e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  if (e->ep == epoch) return e->ev;
  u128 r = 0;
  switch (e->op) {
    case O_VAR: r = m.get(e->aux) & maskw(e->w); break;
    case O_ITE: r = ev(e->k[0], m) ? ev(e->k[1], m) : ev(e->k[2], m); break;
    case O_SEXT: r = (u128)sextw(ev(e->k[0], m), e->k[0]->w) & maskw(e->w); break;
    case O_EXTRACT: r = (ev(e->k[0], m) >> e->aux) & maskw(e->w); break;
    case O_CONCAT: r = (ev(e->k[0], m) << e->k[1]->w) | ev(e->k[1], m); break;
    case O_AGG: fprintf(stderr, "eval agg\n"); abort();
    default:
      if (e->op >= O_FADD) {
        u128 a = ev(e->k[0], m), b = e->nk > 1 ? ev(e->k[1], m) : 0;
        r = foldFp(e->op, a, b, e->k[0]->w, e->w, e->aux) & maskw(e->w);
      } else {
        bool ok; r = foldBin(e->op, ev(e->k[0], m), ev(e->k[1], m), e->k[0]->w, ok);
      }
  }
  e->ep = epoch; e->ev = r;
  return r;
}
u128 evalExpr(E e, const Model& m) {
  if (e->op == O_CONST) return e->c;
  static uint64_t last = ~0ull;
  if (last != m.uid) { newEvalEpoch(); last = m.uid; }
  return ev(e, m);
}

std::string exprStr(E e, int d) {
  static const char* names[] = {"c", "v", "add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr", "eq", "ult", "slt", "ite", "sext", "extract", "concat", "agg", "fadd","fsub","fmul","fdiv","flt","fle","feq","funo","fptosi","fptoui","sitofp","uitofp","fpext","fptrunc","fround"};
  char b[64];
  if (e->op == O_CONST) { snprintf(b, 64, "%llx:%u", (unsigned long long)e->c, e->w); return b; }
  if (e->op == O_VAR) { snprintf(b, 64, "v%u:%u", e->aux, e->w); return b; }
  if (d == 0) return "...";
  std::string s = std::string("(") + names[e->op];
  if (e->op == O_EXTRACT) { snprintf(b, 64, "[%u+%u]", e->aux, e->w); s += b; }
  for (int i = 0; i < e->nk; i++) s += " " + exprStr(e->k[i], d - 1);
  return s + ")";
}
