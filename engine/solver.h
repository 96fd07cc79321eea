#pragma once
#include "expr.h"
#include <memory>

enum SatRes { R_SAT, R_UNSAT, R_UNKNOWN };

struct SolverStats {
  uint64_t queries = 0, sat = 0, unsat = 0, unknown = 0, cacheHits = 0, modelHits = 0, crossChecked = 0, crossDisagree = 0, fpAbs = 0, fpReal = 0;
  double secs = 0, maxSecs = 0;
};

class Solver {
 public:
  explicit Solver(unsigned timeoutMs);
  // is (constraints /\ q) satisfiable?  On SAT, base is copied into out and the
  // variables of the relevant slice are overwritten.
  SatRes check(const std::vector<E>& constraints, E q, const Model& base, Model& out);
  SolverStats stats;
  unsigned timeoutMs;
  std::string crossCheckCmd;   // external SMT-LIB2 solver to cross-check a sample of queries
  unsigned crossEvery = 0;
  std::string dumpDir;
 private:
  Z3_context ctx;
  Z3_solver inc = nullptr;
  bool absMode = false;
  Z3_ast tr(E e);
  Z3_ast trBV(E e);  // BV sorted even when w==1
  Z3_ast fp(E e, Z3_ast a, unsigned w);
  std::unordered_map<uint32_t, Z3_ast> varAst;
  std::unordered_map<uint32_t, unsigned> varW;
  struct CacheEnt { SatRes r; std::shared_ptr<Model> m; };
  std::unordered_map<std::string, CacheEnt> cache;
  std::vector<std::shared_ptr<Model>> recent;
  SatRes checkReal(const std::vector<E>& sl, E q, const Model& base, std::shared_ptr<Model>& m);
  void crossCheck(const std::vector<E>& sl, SatRes r);
};
