// limits, registration and release of transfers (P24)
#include "common.h"
#include "rt.h"
#include <wdt/WdtResourceController.h>
using namespace facebook::wdt;
static const char* const NS[2] = {"n", "m"};
static const char* const ID[2] = {"a", "b"};
struct PeekS : Sender { static void stale(Sender* s) { (s->*&PeekS::setTransferStatus)(TransferStatus::THREADS_JOINED); } };
struct PeekR : Receiver { static void stale(Receiver* s) { (s->*&PeekR::setTransferStatus)(TransferStatus::FINISHED); } };
struct Kind { // senders and receivers behind one face
  WdtResourceController& c; bool recv;
  ErrorCode create(int n, int i, void*& p, const WdtTransferRequest& r) {
    if (recv) { ReceiverPtr q; ErrorCode e = c.createReceiver(NS[n], ID[i], r, q); p = q.get(); return e; }
    SenderPtr q; ErrorCode e = c.createSender(NS[n], ID[i], r, q); p = q.get(); return e;
  }
  ErrorCode release(int n, int i) { return recv ? c.releaseReceiver(NS[n], ID[i]) : c.releaseSender(NS[n], ID[i]); }
  ErrorCode releaseAll(int n) { return recv ? c.releaseAllReceivers(NS[n]) : c.releaseAllSenders(NS[n]); }
  ErrorCode releaseStale(int n, std::vector<std::string>& ids) { return recv ? c.releaseStaleReceivers(NS[n], ids) : c.releaseStaleSenders(NS[n], ids); }
  void* get(int n, int i) { return recv ? (void*)c.getReceiver(NS[n], ID[i]).get() : (void*)c.getSender(NS[n], ID[i]).get(); }
  size_t all(int n) { return recv ? c.getAllReceivers(NS[n]).size() : c.getAllSenders(NS[n]).size(); }
  bool quota(int n) { return recv ? c.hasReceiverQuota(NS[n]) : c.hasSenderQuota(NS[n]); }
  void setStale(void* p) { if (recv) PeekR::stale((Receiver*)p); else PeekS::stale((Sender*)p); }
  void limit(int64_t v) { if (recv) c.updateMaxReceiversLimit(v); else c.updateMaxSendersLimit(v); }
  void limit(int n, int64_t v) { if (recv) c.updateMaxReceiversLimit(NS[n], v); else c.updateMaxSendersLimit(NS[n], v); }
  int count(int& nss, int& other) { int32_t a, b, d; c.getCounts(a, b, d); nss = a; other = recv ? b : d; return recv ? d : b; }
};
static void setup(WdtOptions& o, bool recv, int64_t g, int64_t n) {
  o.global_sender_limit = recv ? 0 : (int)g; o.global_receiver_limit = recv ? (int)g : 0;
  o.namespace_sender_limit = recv ? 0 : (int)n; o.namespace_receiver_limit = recv ? (int)n : 0;
}
// any two calls from any set of existing transfers, limits of any value
extern "C" void h_calls(long arg) {
  bool recv = arg & 1; int calls = (int)(arg >> 1) & 7;
  bool strict = arg >> 4 & 1;
  WdtOptions opts;
  int64_t gl = sym_i32("global limit"), nl = sym_i32("namespace limit");
  setup(opts, recv, 0, 0);
  WdtTransferRequest req(1, 1, "/d");
  WdtResourceController c(opts);
  Kind k{c, recv}, o{c, !recv};
  void* dummy;
  bool reg[2] = {false, false}, have[2][2] = {}; bool stale[2][2] = {}; void* obj[2][2] = {};
  int64_t lim[2] = {0, 0};
  for (int n = 0; n < 2; n++) {
    reg[n] = sym_choice("registered", 0, 1);
    if (reg[n]) {
      sym_assert(c.registerWdtNamespace(NS[n]) == OK, "registered");
      for (int i = 0; i < (n ? 1 : 2); i++) if (sym_choice("exists", 0, 1)) { sym_assert(k.create(n, i, obj[n][i], req) == OK, "no limits yet"); have[n][i] = true; }
    }
  }
  int others = 0;
  if (reg[0]) { sym_assert(o.create(0, 0, dummy, req) == OK, "one of the other kind"); others = 1; }
  setup(opts, recv, gl, nl); // namespaces seen from now on take this limit
  k.limit(gl);
  for (int n = 0; n < 2; n++) if (reg[n]) { k.limit(n, nl); lim[n] = nl; }
  if (strict) c.requireRegistration(true);
  auto num = [&](int n) { return (int64_t)have[n][0] + have[n][1]; };
  for (int j = 0; j < calls; j++) {
    int op = sym_choice("call", 0, 7), n = sym_choice("namespace", 0, 1), i = 0;
    if (op <= 1 || op == 6) i = sym_choice("id", 0, n ? 0 : 1);
    bool qg = (gl <= 0) | (num(0) + num(1) < gl), qn = !reg[n] | (lim[n] <= 0) | (num(n) < lim[n]);
    if (op == 0) {
      void* p = &k;
      ErrorCode e = k.create(n, i, p, req);
      if (!reg[n] && strict) { sym_assert(e == NOT_FOUND && !p, "unregistered namespaces are refused"); sym_cover("not found"); }
      else {
        if (!reg[n]) { reg[n] = true; lim[n] = nl; qn = true; }
        if (!qg || !qn) { sym_assert(e == QUOTA_EXCEEDED && !p, "limits are enforced"); sym_cover("quota"); }
        else if (have[n][i]) { sym_assert(e == ALREADY_EXISTS && p == obj[n][i], "an id is used once, the existing transfer is returned"); sym_cover("exists"); }
        else { sym_assert(e == OK && p, "created"); have[n][i] = true; stale[n][i] = false; obj[n][i] = p; sym_cover("created"); }
      }
    } else if (op == 1) { sym_assert(k.release(n, i) == (have[n][i] ? OK : ERROR), "release"); have[n][i] = false; }
    else if (op == 2) { sym_assert(k.releaseAll(n) == (reg[n] ? OK : ERROR), "release all"); have[n][0] = have[n][1] = false; }
    else if (op == 3) {
      for (int i = 0; i < 2; i++) if (have[n][i] && sym_choice("stale", 0, 1)) { stale[n][i] = true; k.setStale(obj[n][i]); }
      std::vector<std::string> ids;
      sym_assert(k.releaseStale(n, ids) == (reg[n] ? OK : NOT_FOUND), "release of finished transfers");
      size_t want = 0;
      for (int i = 0; i < 2; i++) if (have[n][i] && stale[n][i]) { want++; have[n][i] = false; bool in = false; for (auto& s : ids) in |= s == ID[i]; sym_assert(in, "finished transfers are released"); }
      sym_assert(ids.size() == want, "only finished transfers are released");
    } else if (op == 4) { sym_assert(c.registerWdtNamespace(NS[n]) == OK, "register"); if (!reg[n]) { reg[n] = true; lim[n] = nl; } }
    else if (op == 5) {
      sym_assert(c.deRegisterWdtNamespace(NS[n]) == (reg[n] ? OK : ERROR), "deregister");
      if (reg[n] && n == 0 && others) others = 0;
      reg[n] = false; have[n][0] = have[n][1] = false;
    } else if (op == 6) sym_assert(k.get(n, i) == (have[n][i] ? obj[n][i] : nullptr), "look up");
    else sym_assert(k.quota(n) == (qg && qn), "quota");
    int nss, oth;
    sym_assert(k.count(nss, oth) == num(0) + num(1), "number of transfers");
    sym_assert(nss == reg[0] + reg[1] && oth == others, "other counts");
    for (int n = 0; n < 2; n++) {
      sym_assert((int64_t)k.all(n) == num(n), "transfers of a namespace");
      for (int i = 0; i < 2; i++) sym_assert(k.get(n, i) == (have[n][i] ? obj[n][i] : nullptr), "each is found");
    }
  }
  c.shutdown();
  int nss, oth;
  sym_assert(k.count(nss, oth) == 0 && nss == 0 && oth == 0, "nothing is left after shutdown");
}
// concurrent calls
static WdtResourceController* gC;
static Kind* gK;
static const WdtTransferRequest* gR;
static int64_t gGl, gNl;
struct Res { int op = -1, n = 0, i = 0; ErrorCode e = OK; };
static Res res[3][3];
static int nops;
static void observe() {
  int nss, oth, c = gK->count(nss, oth);
  (void)c;
  sym_assert(gGl <= 0 || c <= gGl, "no more transfers than the limit");
  sym_assert(c >= 0, "counts are not negative");
  for (int n = 0; n < 2; n++) sym_assert(gNl <= 0 || (int64_t)gK->all(n) <= gNl, "no more transfers of a namespace than its limit");
}
static void worker(void* a) {
  int t = (int)(long)a;
  for (int j = 0; j < nops; j++) {
    Res& r = res[t][j];
    r.op = sym_choice("call", 0, 4);
    if (r.op == 0) { r.n = sym_choice("namespace", 0, 1); r.i = r.n ? 0 : t == 0 ? 0 : sym_choice("id", 0, 1); void* p; r.e = gK->create(r.n, r.i, p, *gR); }
    else if (r.op == 1) r.e = gK->release(0, 0);
    else if (r.op == 2) r.e = gK->releaseAll(0);
    else if (r.op == 3) r.e = gC->deRegisterWdtNamespace(NS[0]);
    else { std::vector<std::string> ids; r.e = gK->releaseStale(0, ids); }
    observe();
  }
}
extern "C" void h_threads(long arg) {
  bool recv = arg & 1; int T = (int)(arg >> 1) & 3; nops = (int)(arg >> 3) & 3; rt_preempt_budget = (int)(arg >> 5) & 3;
  int budget = rt_preempt_budget; rt_preempt_budget = 0;
  rt_idle_budget = 8;
  WdtOptions::get(); // (the guard of this static object is not modelled)
  WdtOptions opts;
  gGl = sym_choice("global limit", 0, 2); gNl = sym_choice("namespace limit", 0, 1);
  setup(opts, recv, gGl, gNl);
  WdtTransferRequest req(1, 1, "/d"); gR = &req;
  WdtResourceController c(opts); gC = &c;
  Kind k{c, recv}; gK = &k;
  bool had = sym_choice("exists", 0, 1); void* p;
  if (had) sym_assert(k.create(0, 0, p, req) == OK, "the first");
  rt_preempt_budget = budget;
  int th[3];
  for (int t = 0; t < T; t++) th[t] = rt_spawn(worker, (void*)(long)t);
  for (int t = 0; t < T; t++) rt_join(th[t]);
  rt_preempt_budget = 0;
  int nss, oth, live = (int)(k.all(0) + k.all(1));
  int creates[2][2] = {{had, 0}, {0, 0}}, releases[2][2] = {}; bool bulk = false;
  for (int t = 0; t < T; t++) for (int j = 0; j < nops; j++) {
    Res& r = res[t][j];
    if (r.op == 0 && r.e == OK) creates[r.n][r.i]++;
    if (r.op == 1 && r.e == OK) releases[0][0]++;
    if ((r.op == 2 || r.op == 3) && r.e == OK) bulk = true;
  }
  for (int n = 0; n < 2; n++) for (int i = 0; i < 2; i++) {
    int there = k.get(n, i) != nullptr;
    if (!bulk || n) sym_assert(there == creates[n][i] - releases[n][i], "created and not released");
    else sym_assert(there <= creates[n][i], "something was created");
  }
  sym_assert(k.count(nss, oth) == live, "the count is the number of transfers");
  sym_assert(oth == 0, "none of the other kind");
  observe();
  sym_cover(live ? "some" : "none");
  c.shutdown();
}
