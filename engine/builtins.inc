// included by wsym.cpp: calls, intrinsics and the modelled runtime primitives

typedef std::function<bool(State&, const DInst&, std::vector<Val>&, Val&)> Builtin;  // returns true when the call is finished normally
static std::unordered_map<std::string, Builtin> builtinTable;
static std::unordered_map<const Function*, Builtin*> builtinCache;
static std::unordered_map<const Function*, const Function*> redirectCache;

static void vcJoin(VC& a, const VC& b) {
  if (a.size() < b.size()) a.resize(b.size(), 0);
  for (size_t i = 0; i < b.size(); i++) if (b[i] > a[i]) a[i] = b[i];
}
static void hbRelease(State& s, uint64_t addr) {
  if (!optRace || s.th.size() < 2) return;
  VC& vc = s.th[s.cur].vc;
  if (vc.size() <= s.cur) vc.resize(s.cur + 1, 0);
  vcJoin(s.syncVC[addr], vc);
  vc[s.cur]++;
}
static void hbAcquire(State& s, uint64_t addr) {
  if (!optRace || s.th.size() < 2) return;
  auto it = s.syncVC.find(addr);
  if (it != s.syncVC.end()) vcJoin(s.th[s.cur].vc, it->second);
}
static void syncAccess(State& s, const Val& a, bool acq, bool rel) {
  if (s.th.size() < 2 || !optRace) return;
  uint64_t ad = conc(s, a, "atomic address");
  if (acq) hbAcquire(s, ad);
  if (rel) hbRelease(s, ad);
  // an atomic access is not a data race: clear shadow for these bytes
  const Obj* o = ad < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(ad));
  if (o && !o->c->sh.empty()) {
    Content* c = s.mem.contentW(Memory::idOf(ad));
    for (uint64_t i = ad - o->base; i < ad - o->base + 8 && i < c->sh.size(); i++) c->sh[i] = ShadowCell();
  }
}

static Val newSym(State& s, const std::string& name, unsigned w) {
  uint32_t idx = s.syms.size();
  auto key = std::make_pair(idx, w);
  auto it = varIds.find(key);
  if (it == varIds.end()) it = varIds.emplace(key, nextVar++).first;
  s.syms.push_back({name, w, it->second});
  if (s.model.get(it->second)) s.model.set(it->second, 0);
  return evl(mkVar(it->second, w));
}

static const uint64_t kMaxAlloc = 64ull << 20;

static void copyBytes(State& s, uint64_t d, uint64_t src, uint64_t n) {
  if (!n) return;
  const Obj* so = resolveConc(s, src, n, false);
  const Obj* dobj = resolveConc(s, d, n, true);
  if (s.th.size() > 1) {
    raceCheck(s, so, src - so->base, n, false);
    dobj = s.mem.get(Memory::idOf(d));
    raceCheck(s, dobj, d - dobj->base, n, true);
    so = s.mem.get(Memory::idOf(src)); dobj = s.mem.get(Memory::idOf(d));
  }
  uint64_t so_ = src - so->base, do_ = d - dobj->base;
  std::shared_ptr<Content> sc = so->c;  // keeps the source alive / forces copy on write when aliasing
  Content* dc = s.mem.contentW(Memory::idOf(d));
  memmove(&dc->b[do_], &sc->b[so_], n);
  bool srcSym = false;
  if (!sc->s.empty()) for (uint64_t i = 0; i < n; i++) if (sc->s[so_ + i]) { srcSym = true; break; }
  if (srcSym && dc->s.empty()) dc->s.assign(dc->b.size(), nullptr);
  if (!dc->s.empty()) {
    if (srcSym) { std::vector<E> t(sc->s.begin() + so_, sc->s.begin() + so_ + n); std::copy(t.begin(), t.end(), dc->s.begin() + do_); }
    else std::fill(dc->s.begin() + do_, dc->s.begin() + do_ + n, nullptr);
  }
}

static E memcmpExpr(State& s, uint64_t a, uint64_t b, uint64_t n, bool eqOnly) {
  if (!n) return mkConst(0, 32);
  const Obj* ao = resolveConc(s, a, n, false);
  const Obj* bo = resolveConc(s, b, n, false);
  if (s.th.size() > 1) { raceCheck(s, ao, a - ao->base, n, false); bo = s.mem.get(Memory::idOf(b)); raceCheck(s, bo, b - bo->base, n, false); ao = s.mem.get(Memory::idOf(a)); bo = s.mem.get(Memory::idOf(b)); }
  E r = mkConst(0, 32);
  for (uint64_t i = n; i-- > 0;) {
    E x = byteAt(ao->c.get(), a - ao->base + i), y = byteAt(bo->c.get(), b - bo->base + i);
    if (x == y) continue;
    E eq = mkBin(O_EQ, x, y);
    E ne = eqOnly ? mkConst(1, 32) : mkIte(mkBin(O_ULT, x, y), mkConst(maskw(32), 32), mkConst(1, 32));
    r = mkIte(eq, r, ne);
  }
  return r;
}

static std::string fmt(State& s, const std::string& f, const std::function<Val(unsigned&)>& next) {
  std::string out;
  for (size_t i = 0; i < f.size(); i++) {
    if (f[i] != '%') { out += f[i]; continue; }
    if (f[i + 1] == '%') { out += '%'; i++; continue; }
    std::string spec = "%"; i++;
    int longs = 0; bool sz = false;
    while (i < f.size() && strchr("-+ #0123456789.*", f[i])) {
      if (f[i] == '*') { unsigned w; Val v = next(w); spec += std::to_string((int)conc(s, v, "fmt")); }
      else spec += f[i];
      i++;
    }
    while (i < f.size() && strchr("lhzjt", f[i])) { if (f[i] == 'l') longs++; else if (f[i] == 'z' || f[i] == 'j' || f[i] == 't') sz = true; i++; }
    char c = f[i];
    unsigned w; Val v = next(w);
    char buf[512];
    if (c == 's') { std::string x = readCStr(s, conc(s, v, "fmt")); spec += 's'; std::vector<char> b(x.size() + 600); snprintf(b.data(), b.size(), spec.c_str(), x.c_str()); out += b.data(); }
    else if (strchr("fgeEG", c)) { uint64_t x = conc(s, v, "fmt"); double d; memcpy(&d, &x, 8); spec += c; snprintf(buf, 512, spec.c_str(), d); out += buf; }
    else { uint64_t x = conc(s, v, "fmt"); bool l = longs || sz || c == 'p'; 
      if (!l) { if (c == 'd' || c == 'i') x = (uint64_t)(int64_t)(int32_t)x; else x = (uint32_t)x; }
      if (c == 'c') { out += (char)x; continue; }
      spec += "ll"; spec += c == 'p' ? 'x' : c; snprintf(buf, 512, spec.c_str(), (unsigned long long)x); out += buf; }
  }
  return out;
}
static void writeCStr(State& s, uint64_t dst, uint64_t cap, const std::string& r) {
  if (!cap) return;
  uint64_t n = std::min<uint64_t>(cap - 1, r.size());
  resolveConc(s, dst, n + 1, true);
  Content* c = s.mem.contentW(Memory::idOf(dst));
  const Obj* o = s.mem.get(Memory::idOf(dst));
  for (uint64_t i = 0; i < n; i++) storeByte(c, dst - o->base + i, mkConst((uint8_t)r[i], 8));
  storeByte(c, dst - o->base + n, mkConst(0, 8));
}

static uint64_t doMalloc(State& s, const Val& szv, const Instruction* site, bool& tooBig, uint8_t fill = 0xCD) {
  tooBig = false;
  if (szv.e) {
    E big = mkBin(O_ULT, mkConst(kMaxAlloc, 64), szv.e);
    if (decide(s, big)) { tooBig = true; return 0; }
  } else if (szv.c > kMaxAlloc) { tooBig = true; return 0; }
  uint64_t n = conc(s, szv, "allocation size");
  return s.mem.alloc(n, K_HEAP, fill, site);
}
static void doFree(State& s, uint64_t p) {
  if (!p) return;
  const Obj* o = p < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(p));
  if (!o || o->kind != K_HEAP || o->base != p) fail(s, "memory", "invalid free: " + addrInfo(s, p, 0));
  if (o->freed) fail(s, "memory", "double free");
  if (s.th.size() > 1 && o->size) raceCheck(s, o, 0, o->size, true);
  Obj* w = s.mem.getW(Memory::idOf(p));
  w->freed = true; w->c = std::make_shared<Content>();
}

static void initBuiltins() {
  auto& T = builtinTable;
#define BI(n) T[n] = [](State & s, const DInst& di, std::vector<Val>& a, Val& r) -> bool
#define UNUSED (void)s; (void)di; (void)a; (void)r
  BI("wsym_sym") { UNUSED; std::string n = readCStr(s, conc(s, a[0], "string")); unsigned w = (unsigned)a[1].c;
    Val v = newSym(s, n, w); r = w < 64 ? evl(mkZExt(v.e, 64)) : v; return true; };
  BI("wsym_bytes") { UNUSED; uint64_t p = conc(s, a[0], "sym ptr"), n = conc(s, a[1], "sym len"); std::string nm = readCStr(s, conc(s, a[2], "string"));
    if (n) resolveConc(s, p, n, true);
    for (uint64_t i = 0; i < n; i++) { Val v = newSym(s, nm + "[" + std::to_string(i) + "]", 8);
      const Obj* o = s.mem.get(Memory::idOf(p)); storeObj(s, o, p - o->base + i, 1, v, 8); }
    return true; };
  BI("wsym_assume_") { UNUSED; if (!a[0].e) { if (!a[0].c) { stAssumeKilled++; s.dead = true; throw PathEnd(); } return true; }
    E c = mkNot(mkBin(O_EQ, a[0].e, mkConst(0, 64)));
    if (isC(c)) { if (!c->c) { stAssumeKilled++; s.dead = true; throw PathEnd(); } return true; }
    auto k = s.known.find(c->id);
    if (k != s.known.end()) { if (!k->second) { stAssumeKilled++; s.dead = true; throw PathEnd(); } return true; }
    if (!evalExpr(c, s.model)) {
      Model m2; SatRes q = S->check(s.pc, c, s.model, m2);
      if (q == R_UNKNOWN) { gUnknown = true; gIncompleteWhy = "solver unknown in assume"; s.dead = true; throw PathEnd(); }
      if (q == R_UNSAT) { stAssumeKilled++; s.dead = true; throw PathEnd(); }
      s.model = m2;
    }
    addC(s, c); return true; };
  BI("wsym_assert_") { UNUSED; std::string id = readCStr(s, conc(s, a[1], "string"));
    covers["assert:" + id]++;
    if (!a[0].e) { stAssertsConc++; if (!a[0].c) fail(s, "assert", id); return true; }
    E c = mkNot(mkBin(O_EQ, a[0].e, mkConst(0, 64)));
    if (isC(c)) { stAssertsConc++; if (!c->c) fail(s, "assert", id); return true; }
    auto k = s.known.find(c->id);
    if (k != s.known.end()) { stAssertsConc++; if (!k->second) fail(s, "assert", id); return true; }
    stAsserts++;
    Model m2;
    if (!evalExpr(c, s.model)) { report(s, s.model, "assert", id); }
    else {
      SatRes q = S->check(s.pc, mkNot(c), s.model, m2);
      if (q == R_UNKNOWN) { gUnknown = true; gIncompleteWhy = "solver unknown in assert " + id; return true; }
      if (q == R_UNSAT) { s.known[c->id] = true; return true; }
      report(s, m2, "assert", id);
    }
    SatRes q = S->check(s.pc, c, s.model, m2);
    if (q != R_SAT) { stViolPaths++; s.dead = true; throw PathEnd(); }
    s.model = m2; addC(s, c); return true; };
  BI("wsym_fail") { UNUSED; fail(s, readCStr(s, conc(s, a[0], "string")), readCStr(s, conc(s, a[1], "string"))); };
  BI("wsym_cover_") { UNUSED; covers[readCStr(s, conc(s, a[0], "string"))]++; return true; };
  BI("wsym_conc") { UNUSED; r = cv(conc(s, a[0], "wsym_conc")); return true; };
  BI("wsym_is_sym") { UNUSED; r = cv(a[0].e ? 1 : 0); return true; };
  BI("wsym_ite") { UNUSED; if (!a[0].e) r = a[0].c ? a[1] : a[2]; else { E c = mkNot(mkBin(O_EQ, a[0].e, mkConst(0, 64))); r = evl(mkIte(c, toE(a[1], 64), toE(a[2], 64))); } return true; };
  BI("wsym_print") { UNUSED; std::string n = readCStr(s, conc(s, a[0], "string")); if (a[1].e) fprintf(stderr, "[%s] %s  (model %llx)\n", n.c_str(), exprStr(a[1].e).c_str(), (unsigned long long)evalExpr(a[1].e, s.model)); else fprintf(stderr, "[%s] %lld 0x%llx\n", n.c_str(), (long long)a[1].c, (unsigned long long)a[1].c); return true; };
  BI("wsym_stop") { UNUSED; stPathsDone++; s.dead = true; s.completed = true; throw PathEnd(); };
  BI("wsym_native") { UNUSED; r = cv(0); return true; };
  BI("wsym_readable") { UNUSED; uint64_t p = conc(s, a[0], "p"), n = conc(s, a[1], "n"); const Obj* o = p < (16ull << 32) ? nullptr : s.mem.get(Memory::idOf(p)); r = cv(o && !o->freed && inBounds(o, p, n)); return true; };
  // threads
  BI("wsym_thread_new") { UNUSED; uint64_t fn = conc(s, a[0], "thread fn");
    auto it = faddr.find(fn); if (it == faddr.end()) engErr("thread_new: not a function");
    uint32_t tid = s.th.size();
    if (s.th[0].vc.empty()) { s.th[0].vc.resize(1, 1); }
    s.th.emplace_back();
    VC v = s.th[s.cur].vc; v.resize(std::max<size_t>(v.size(), tid + 1), 0); v[tid] = 1;
    s.th[tid].vc = v;
    if (s.th[s.cur].vc.size() <= s.cur) s.th[s.cur].vc.resize(s.cur + 1, 0);
    s.th[s.cur].vc[s.cur]++;
    pushFrame(s, tid, it->second, {a[1]}, {64});
    r = cv(tid); return true; };
  BI("wsym_thread_self") { UNUSED; r = cv(s.cur); return true; };
  BI("wsym_thread_switch") { UNUSED; uint64_t t = conc(s, a[0], "tid"); if (t >= s.th.size()) engErr("switch to unknown thread");
    Frame& f = s.top(); if (di.op == Instruction::Invoke) jump(s, f, di.s0); else f.ip++;
    s.cur = (uint32_t)t; return false; };
  BI("wsym_hb_release") { UNUSED; hbRelease(s, conc(s, a[0], "hb")); return true; };
  BI("wsym_hb_acquire") { UNUSED; hbAcquire(s, conc(s, a[0], "hb")); return true; };
  // memory
  auto mallocF = [](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool { bool big; r = cv(doMalloc(s, a[0], di.I, big)); return true; };
  auto newF = [](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool {
    bool big; uint64_t p = doMalloc(s, a[0], di.I, big);
    if (big) { const Function* f = M->getFunction("wsym_rt_bad_alloc"); if (!f) engErr("no wsym_rt_bad_alloc"); pushFrame(s, s.cur, f, {}, {}); return false; }
    r = cv(p); return true; };
  auto freeF = [](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool { (void)di; (void)r; doFree(s, conc(s, a[0], "free")); return true; };
  T["malloc"] = mallocF; T["_ZnwmRKSt9nothrow_t"] = mallocF; T["_ZnamRKSt9nothrow_t"] = mallocF;
  T["_Znwm"] = newF; T["_Znam"] = newF; T["_ZnwmSt11align_val_t"] = newF; T["_ZnamSt11align_val_t"] = newF;
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvSt11align_val_t", "cfree"}) T[n] = freeF;
  BI("calloc") { UNUSED; bool big; uint64_t n = conc(s, a[0], "calloc") * conc(s, a[1], "calloc"); r = cv(doMalloc(s, cv(n), di.I, big, 0)); return true; };
  BI("realloc") { UNUSED; bool big; uint64_t p = conc(s, a[0], "realloc"), n = conc(s, a[1], "realloc"); uint64_t q = doMalloc(s, cv(n), di.I, big);
    if (q && p) { const Obj* o = s.mem.get(Memory::idOf(p)); if (!o || o->freed) fail(s, "memory", "realloc of bad pointer"); copyBytes(s, q, p, std::min(n, o->size)); doFree(s, p); }
    r = cv(q); return true; };
  auto memcpyF = [](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool { (void)di;
    uint64_t n = conc(s, a[2], "memcpy size");
    r = a[0];
    if (!n) return true;
    if (n > kMaxAlloc) { uint64_t d0 = conc(s, a[0], "memcpy dst"); resolveConc(s, d0, n, true); }
    Val off;
    const Obj* o; uint64_t src, dst;
    if (a[1].e) { o = resolveSym(s, a[1].e, n, false, off); src = o->base + (off.e ? concretize(s, off.e, "memcpy src") : off.c); } else src = a[1].c;
    if (a[0].e) { o = resolveSym(s, a[0].e, n, true, off); dst = o->base + (off.e ? concretize(s, off.e, "memcpy dst") : off.c); } else dst = a[0].c;
    copyBytes(s, dst, src, n); return true; };
  T["memcpy"] = memcpyF; T["memmove"] = memcpyF; T["__memcpy_chk"] = memcpyF;
  BI("memset") { UNUSED; uint64_t n = conc(s, a[2], "memset size"); r = a[0]; if (!n) return true;
    uint64_t d = conc(s, a[0], "memset dst");
    const Obj* o = resolveConc(s, d, n, true);
    if (s.th.size() > 1) raceCheck(s, o, d - o->base, n, true);
    Content* c = s.mem.contentW(Memory::idOf(d)); o = s.mem.get(Memory::idOf(d));
    uint64_t off = d - o->base;
    if (a[1].e) { E b = mkExtract(a[1].e, 0, 8); for (uint64_t i = 0; i < n; i++) storeByte(c, off + i, b); }
    else { memset(&c->b[off], (int)a[1].c, n); if (!c->s.empty()) std::fill(c->s.begin() + off, c->s.begin() + off + n, nullptr); }
    return true; };
  BI("memcmp") { UNUSED; uint64_t n = conc(s, a[2], "memcmp"); r = evl(memcmpExpr(s, conc(s, a[0], "memcmp"), conc(s, a[1], "memcmp"), n, false)); return true; };
  BI("bcmp") { UNUSED; uint64_t n = conc(s, a[2], "bcmp"); r = evl(memcmpExpr(s, conc(s, a[0], "bcmp"), conc(s, a[1], "bcmp"), n, true)); return true; };
  BI("strlen") { UNUSED; uint64_t p = conc(s, a[0], "strlen"); uint64_t n = 0;
    for (;; n++) { E e = loadByteE(s, p + n); if (isC(e)) { if (!e->c) break; } else if (decide(s, mkBin(O_EQ, e, mkConst(0, 8)))) break; }
    r = cv(n); return true; };
  // process
  BI("abort") { UNUSED; fail(s, "abort", "abort() called"); };
  BI("_ZSt9terminatev") { UNUSED; fail(s, "abort", "std::terminate"); };
  BI("__cxa_pure_virtual") { UNUSED; fail(s, "abort", "pure virtual call"); };
  BI("__assert_fail") { UNUSED; fail(s, "abort", "assertion failed: " + readCStr(s, conc(s, a[0], "string"))); };
  BI("exit") { UNUSED; if (M->getFunction("wsym_rt_on_exit")) fail(s, "exit", "exit called"); s.dead = true; throw PathEnd(); };
  BI("_exit") { UNUSED; fail(s, "exit", "_exit called"); };
  BI("__cxa_atexit") { UNUSED; r = cv(0); return true; };
  BI("atexit") { UNUSED; r = cv(0); return true; };
  BI("__cxa_guard_acquire") { UNUSED; uint64_t p = conc(s, a[0], "guard"); Val v = loadMem(s, cv(p), 1, 8); r = cv(v.c ? 0 : 1); hbAcquire(s, p); return true; };
  BI("__cxa_guard_release") { UNUSED; uint64_t p = conc(s, a[0], "guard"); const Obj* o = resolveConc(s, p, 1, true); storeObj(s, o, p - o->base, 1, cv(1), 8); hbRelease(s, p); return true; };
  BI("__cxa_guard_abort") { UNUSED; return true; };
  // exceptions
  BI("__cxa_allocate_exception") { UNUSED; r = cv(s.mem.alloc(conc(s, a[0], "exc") + 16, K_HEAP, 0, di.I)); return true; };
  BI("__cxa_free_exception") { UNUSED; return true; };
  BI("__cxa_throw") { UNUSED; uint64_t o = conc(s, a[0], "throw"); s.excs.push_back({o, conc(s, a[1], "throw")}); unwind(s, o); return false; };
  BI("__cxa_begin_catch") { UNUSED; uint64_t o = conc(s, a[0], "catch"); s.th[s.cur].caught.push_back(o); r = cv(o); return true; };
  BI("__cxa_end_catch") { UNUSED; if (!s.th[s.cur].caught.empty()) s.th[s.cur].caught.pop_back(); return true; };
  BI("__cxa_get_exception_ptr") { UNUSED; r = a[0]; return true; };
  BI("__cxa_rethrow") { UNUSED; if (s.th[s.cur].caught.empty()) fail(s, "abort", "rethrow without exception"); uint64_t o = s.th[s.cur].caught.back(); unwind(s, o); return false; };
  BI("_Unwind_Resume") { UNUSED; uint64_t o = conc(s, a[0], "resume"); unwind(s, o); return false; };
  BI("__clang_call_terminate") { UNUSED; fail(s, "abort", "exception escaped a noexcept function"); };
  // formatting
  auto sp = [](int bufI, int capI, int fmtI, bool isV) { (void)isV;
    return [=](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool {
      (void)di;
      uint64_t dst = conc(s, a[bufI], "fmt"), cap = capI >= 0 ? conc(s, a[capI], "fmt") : 1 << 20;
      std::string f = readCStr(s, conc(s, a[fmtI], "fmt"));
      size_t k = fmtI + 1;
      std::string o = fmt(s, f, [&](unsigned& w) { w = 64; if (k >= a.size()) engErr("printf: missing argument"); return a[k++]; });
      writeCStr(s, dst, cap, o); r = cv((uint32_t)o.size()); return true; }; };
  T["snprintf"] = sp(0, 1, 2, false); T["sprintf"] = sp(0, -1, 1, false);
  BI("printf") { UNUSED; r = cv(0); return true; };
  BI("fprintf") { UNUSED; r = cv(0); return true; };
  BI("puts") { UNUSED; r = cv(0); return true; };
  BI("fflush") { UNUSED; r = cv(0); return true; };
  // math on concrete or symbolic doubles
  auto rnd = [](unsigned aux) { return [=](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool { (void)s; (void)di; r = evl(mkFp(O_FROUND, toE(a[0], 64), nullptr, 64, aux)); return true; }; };
  T["floor"] = rnd(0); T["ceil"] = rnd(1); T["trunc"] = rnd(2); T["round"] = rnd(3); T["rint"] = rnd(4); T["nearbyint"] = rnd(4);
  auto m1 = [](double (*fn)(double)) { return [=](State& s, const DInst& di, std::vector<Val>& a, Val& r) -> bool { (void)di; uint64_t x = conc(s, a[0], "math"); double d; memcpy(&d, &x, 8); d = fn(d); memcpy(&x, &d, 8); r = cv(x); return true; }; };
  T["sqrt"] = m1(sqrt); T["log"] = m1(log); T["log10"] = m1(log10); T["exp"] = m1(exp); T["log2"] = m1(log2);
  BI("pow") { UNUSED; uint64_t x = conc(s, a[0], "math"), y = conc(s, a[1], "math"); double d, e; memcpy(&d, &x, 8); memcpy(&e, &y, 8); d = pow(d, e); memcpy(&x, &d, 8); r = cv(x); return true; };
}

static bool doIntrinsic(State& s, const DInst& di, const IntrinsicInst* ii, std::vector<Val>& a, Val& r) {
  unsigned w = di.w;
  switch (ii->getIntrinsicID()) {
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: { Val t; builtinTable["memcpy"](s, di, a, t); return true; }
    case Intrinsic::memset: { Val t; builtinTable["memset"](s, di, a, t); return true; }
    case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::annotation: r = a[0]; return true;
    case Intrinsic::is_constant: r = cv(0); return true;
    case Intrinsic::objectsize: r = cv(m64(w)); return true;
    case Intrinsic::trap: case Intrinsic::ubsantrap: fail(s, "abort", "trap");
    case Intrinsic::stacksave: r = cv(0); return true;
    case Intrinsic::stackrestore: return true;
    case Intrinsic::eh_typeid_for: { uint64_t t = conc(s, a[0], "typeid"); r = cv(t ? (t >> 32) : 1); return true; }
    case Intrinsic::threadlocal_address: {
      auto* g = cast<GlobalVariable>(ii->getArgOperand(0)->stripPointerCasts());
      auto& tls = s.th[s.cur].tls;
      auto it = tls.find(g);
      if (it == tls.end()) {
        uint64_t sz = DL->getTypeAllocSize(g->getValueType());
        uint64_t p = s.mem.alloc(sz ? sz : 1, K_GLOBAL, 0, g);
        if (g->hasInitializer()) writeConst(s.mem.contentW(Memory::idOf(p))->b, 0, g->getInitializer());
        it = tls.emplace(g, p).first;
      }
      r = cv(it->second); return true; }
    case Intrinsic::umin: { E c = mkBin(O_ULT, toE(a[0], w), toE(a[1], w)); r = optForkSel ? (decide(s, c) ? a[0] : a[1]) : evl(mkIte(c, toE(a[0], w), toE(a[1], w))); return true; }
    case Intrinsic::umax: { E c = mkBin(O_ULT, toE(a[0], w), toE(a[1], w)); r = optForkSel ? (decide(s, c) ? a[1] : a[0]) : evl(mkIte(c, toE(a[1], w), toE(a[0], w))); return true; }
    case Intrinsic::smin: { E c = mkBin(O_SLT, toE(a[0], w), toE(a[1], w)); r = optForkSel ? (decide(s, c) ? a[0] : a[1]) : evl(mkIte(c, toE(a[0], w), toE(a[1], w))); return true; }
    case Intrinsic::smax: { E c = mkBin(O_SLT, toE(a[0], w), toE(a[1], w)); r = optForkSel ? (decide(s, c) ? a[1] : a[0]) : evl(mkIte(c, toE(a[1], w), toE(a[0], w))); return true; }
    case Intrinsic::abs: { E x = toE(a[0], w); r = evl(mkIte(mkBin(O_SLT, x, mkConst(0, w)), mkBin(O_SUB, mkConst(0, w), x), x)); return true; }
    case Intrinsic::bswap: { E x = toE(a[0], w); E o = mkExtract(x, 0, 8); for (unsigned i = 8; i < w; i += 8) o = mkConcat(o, mkExtract(x, i, 8)); r = evl(o); return true; }
    case Intrinsic::ctpop: { E x = toE(a[0], w); E o = mkConst(0, w); for (unsigned i = 0; i < w; i++) o = mkBin(O_ADD, o, mkZExt(mkExtract(x, i, 1), w)); r = evl(o); return true; }
    case Intrinsic::ctlz: { E x = toE(a[0], w); E o = mkConst(w, w); for (unsigned i = 0; i < w; i++) o = mkIte(mkExtract(x, i, 1), mkConst(w - 1 - i, w), o); r = evl(o); return true; }
    case Intrinsic::cttz: { E x = toE(a[0], w); E o = mkConst(w, w); for (unsigned i = w; i-- > 0;) o = mkIte(mkExtract(x, i, 1), mkConst(i, w), o); r = evl(o); return true; }
    case Intrinsic::fshl: case Intrinsic::fshr: {
      E sh = mkBin(O_UREM, toE(a[2], w), mkConst(w, w)); E x = toE(a[0], w), y = toE(a[1], w);
      E inv = mkBin(O_SUB, mkConst(w, w), sh);
      bool l = ii->getIntrinsicID() == Intrinsic::fshl;
      E v = l ? mkBin(O_OR, mkBin(O_SHL, x, sh), mkBin(O_LSHR, y, inv)) : mkBin(O_OR, mkBin(O_SHL, x, inv), mkBin(O_LSHR, y, sh));
      r = evl(mkIte(mkBin(O_EQ, sh, mkConst(0, w)), l ? x : y, v)); return true; }
    case Intrinsic::uadd_sat: { E x = toE(a[0], w), y = toE(a[1], w); E v = mkBin(O_ADD, x, y); r = evl(mkIte(mkBin(O_ULT, v, x), mkConst(maskw(w), w), v)); return true; }
    case Intrinsic::usub_sat: { E x = toE(a[0], w), y = toE(a[1], w); r = evl(mkIte(mkBin(O_ULT, x, y), mkConst(0, w), mkBin(O_SUB, x, y))); return true; }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow:
    case Intrinsic::umul_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ow = widthOf(ii->getArgOperand(0)->getType());
      auto id = ii->getIntrinsicID();
      bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      bool mul = id == Intrinsic::umul_with_overflow || id == Intrinsic::smul_with_overflow;
      Op op = mul ? O_MUL : (id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow) ? O_ADD : O_SUB;
      unsigned W = mul ? 2 * ow : ow + 1;
      E x = toE(a[0], ow), y = toE(a[1], ow);
      E X = sg ? mkSExt(x, W) : mkZExt(x, W), Y = sg ? mkSExt(y, W) : mkZExt(y, W);
      E R = mkBin(op, X, Y);
      E lo = mkBin(op, x, y);
      E back = sg ? mkSExt(lo, W) : mkZExt(lo, W);
      Val v; v.e = mkAgg({lo, mkNot(mkBin(O_EQ, R, back))}); r = v; return true; }
    case Intrinsic::fabs: r = evl(mkBin(O_AND, toE(a[0], w), mkConst(maskw(w - 1), w))); return true;
    case Intrinsic::floor: r = evl(mkFp(O_FROUND, toE(a[0], w), nullptr, w, 0)); return true;
    case Intrinsic::ceil: r = evl(mkFp(O_FROUND, toE(a[0], w), nullptr, w, 1)); return true;
    case Intrinsic::trunc: r = evl(mkFp(O_FROUND, toE(a[0], w), nullptr, w, 2)); return true;
    case Intrinsic::round: r = evl(mkFp(O_FROUND, toE(a[0], w), nullptr, w, 3)); return true;
    case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: r = evl(mkFp(O_FROUND, toE(a[0], w), nullptr, w, 4)); return true;
    case Intrinsic::fmuladd: r = evl(mkFp(O_FADD, mkFp(O_FMUL, toE(a[0], w), toE(a[1], w), w), toE(a[2], w), w)); return true;
    case Intrinsic::maxnum: { E x = toE(a[0], w), y = toE(a[1], w); r = evl(mkIte(mkFp(O_FLT, x, y, 1), y, x)); return true; }
    case Intrinsic::minnum: { E x = toE(a[0], w), y = toE(a[1], w); r = evl(mkIte(mkFp(O_FLT, x, y, 1), x, y)); return true; }
    case Intrinsic::sqrt: { Val t; builtinTable["sqrt"](s, di, a, t); r = t; return true; }
    case Intrinsic::vastart: {
      // x86-64 SysV va_list: everything in the overflow area
      Frame& f = s.top();
      uint64_t ap = conc(s, a[0], "va_start");
      uint64_t area = s.mem.alloc(8 * (f.va.size() + 1), K_HEAP, 0, di.I);
      const Obj* o = s.mem.get(Memory::idOf(area));
      for (size_t i = 0; i < f.va.size(); i++) { Val v = f.va[i]; if (v.e && v.e->w < 64) v = evl(mkZExt(v.e, 64)); storeObj(s, o, 8 * i, 8, v, 64); o = s.mem.get(Memory::idOf(area)); }
      const Obj* l = resolveConc(s, ap, 24, true);
      storeObj(s, l, ap - l->base, 4, cv(48), 32); l = s.mem.get(Memory::idOf(ap));
      storeObj(s, l, ap - l->base + 4, 4, cv(176), 32); l = s.mem.get(Memory::idOf(ap));
      storeObj(s, l, ap - l->base + 8, 8, cv(area), 64); l = s.mem.get(Memory::idOf(ap));
      storeObj(s, l, ap - l->base + 16, 8, cv(0), 64);
      return true; }
    case Intrinsic::vaend: return true;
    case Intrinsic::vacopy: copyBytes(s, conc(s, a[0], "va"), conc(s, a[1], "va"), 24); return true;
    case Intrinsic::ptrmask: r = evl(mkBin(O_AND, toE(a[0], 64), toE(a[1], 64))); return true;
    default: engErr("intrinsic " + ii->getCalledFunction()->getName().str());
  }
}

static void doCall(State& s, const DInst& di) {
  Frame& f = s.top();
  auto* cb = cast<CallBase>(di.I);
  unsigned na = cb->arg_size();
  std::vector<Val> a; a.reserve(na);
  for (unsigned i = 0; i < na; i++) a.push_back(getOp(s, f, di.ops[i]));
  const Function* F = di.callee;
  if (!F) {
    if (cb->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(cb->getCalledOperand());
      std::string t = std::string(ia->getAsmString());
      if (t.empty() || t == "pause" || t == "rep; nop") { finishCall(s, cv(0), di.dst >= 0); return; }
      engErr("inline asm: " + t + " at " + locOf(di.I));
    }
    Val fp = getOp(s, f, di.ops[na]);
    uint64_t ad = conc(s, fp, "function pointer");
    auto it = faddr.find(ad);
    if (it == faddr.end()) fail(s, "memory", "call through bad function pointer " + addrInfo(s, ad, 1));
    F = it->second;
  }
  if (auto* ii = dyn_cast<IntrinsicInst>(di.I)) {
    Val r;
    doIntrinsic(s, di, ii, a, r);
    finishCall(s, r, di.dst >= 0);
    return;
  }
  auto rc = redirectCache.find(F);
  if (rc == redirectCache.end()) {
    const Function* t = M->getFunction("__model_" + F->getName().str());
    rc = redirectCache.emplace(F, t && !t->isDeclaration() ? t : F).first;
  }
  F = rc->second;
  auto bc = builtinCache.find(F);
  if (bc == builtinCache.end()) {
    if (builtinTable.empty()) initBuiltins();
    auto it = builtinTable.find(F->getName().str());
    bc = builtinCache.emplace(F, it == builtinTable.end() ? nullptr : &it->second).first;
  }
  if (bc->second) {
    Val r;
    if ((*bc->second)(s, di, a, r)) {
      if (di.w && di.w < 64) { if (r.e) { if (r.e->w != di.w) r = evl(r.e->w > di.w ? mkExtract(r.e, 0, di.w) : mkZExt(r.e, di.w)); } else r.c &= m64(di.w); }
      finishCall(s, r, di.dst >= 0);
    }
    return;
  }
  if (F->isDeclaration()) engErr("unmodelled external function: " + F->getName().str() + " (" + demangle(F->getName().str()) + ") called from " + locOf(di.I));
  std::vector<unsigned> aw(na, 64);
  for (unsigned i = 0; i < na; i++) {
    aw[i] = widthOf(cb->getArgOperand(i)->getType());
    if (cb->isByValArgument(i)) {
      uint64_t n = DL->getTypeAllocSize(cb->getParamByValType(i));
      uint64_t src = conc(s, a[i], "byval");
      uint64_t p = s.mem.alloc(n, K_STACK, 0xAA, di.I);
      s.top().allocas.push_back(Memory::idOf(p));
      copyBytes(s, p, src, n);
      a[i] = cv(p);
    }
  }
  pushFrame(s, s.cur, F, a, aw);
}
