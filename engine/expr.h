// Hash-consed bit-vector expressions for the symbolic executor.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unordered_map>
#include <vector>
#include <z3.h>

typedef unsigned __int128 u128;

enum Op : uint8_t {
  O_CONST, O_VAR, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR, O_EQ, O_ULT, O_SLT, O_ITE,
  O_SEXT, O_EXTRACT, O_CONCAT, O_AGG,
  // floating point, on the bit patterns
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FLT, O_FLE, O_FEQ, O_FUNO,
  O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP, O_FPEXT, O_FPTRUNC, O_FROUND,
};

typedef std::vector<uint32_t> VarSet;

struct Expr {
  Op op;
  uint16_t w;
  uint32_t id;
  uint32_t aux;  // var id / extract low bit / rounding mode
  u128 c;
  const Expr* k[3];
  int nk;
  std::vector<const Expr*> agg;
  const VarSet* vars;
  mutable Z3_ast z = nullptr, za = nullptr;
  mutable uint32_t ep = 0;
  mutable u128 ev = 0;
};
typedef const Expr* E;

inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }
inline __int128 sextw(u128 v, unsigned w) {
  if (w >= 128) return (__int128)v;
  v &= maskw(w);
  if (v >> (w - 1)) v |= ~maskw(w);
  return (__int128)v;
}

E mkConst(u128 c, unsigned w);
E mkVar(uint32_t id, unsigned w);
E mkBin(Op op, E a, E b);
E mkNot(E a);             // i1
E mkIte(E c, E a, E b);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkExtract(E a, unsigned lo, unsigned w);
E mkExtractByte(E a, unsigned lo);
E mkExtractRaw(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkAgg(const std::vector<E>& v);
E mkFp(Op op, E a, E b, unsigned w, unsigned aux = 0);
bool fpFinite(E e);
inline bool isC(E e) { return e->op == O_CONST; }
E mkBoolAnd(E a, E b);
E mkBoolOr(E a, E b);

struct Model {
  std::vector<u128> v;
  uint64_t uid = 0;
  u128 get(uint32_t id) const { return id < v.size() ? v[id] : 0; }
  void set(uint32_t id, u128 x) {
    if (id >= v.size()) v.resize(id + 1, 0);
    v[id] = x;
    uid = nextUid();
  }
  static uint64_t nextUid() { static uint64_t n = 0; return ++n; }
};
u128 evalExpr(E e, const Model& m);
void newEvalEpoch();
u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok);
u128 foldFp(Op op, u128 a, u128 b, unsigned wIn, unsigned wOut, unsigned aux);
std::string exprStr(E e, int depth = 6);
size_t exprCount();
