#include "common.h"
#include <wdt/WdtOptions.h>
#include <wdt/util/CommonImpl.h>
#include <wdt/util/ThreadsController.h>
using namespace facebook::wdt;
struct Abort : IAbortChecker { bool flag = false; bool shouldAbort() const override { return flag; } };
static Abort gAbort;
static WdtOptions* gOpts;
static ThreadsController* gC;
static int N;
static int running, runs, arrived, entered, left_;
static ThreadCtx* ctxs[8];
static void setup(int n, int preempt) {
  N = n;
  gOpts = new WdtOptions();
  gC = new ThreadsController(n);
  for (int i = 0; i < n; i++) { ctxs[i] = new ThreadCtx(*gOpts, false, i); ctxs[i]->setAbortChecker(&gAbort); }
  rt_preempt_budget = preempt;
}
static void go(void (*f)(void*)) {
  int t[8];
  for (int i = 0; i < N; i++) t[i] = rt_spawn(f, (void*)(long)i);
  for (int i = 0; i < N; i++) rt_join(t[i]);
}
// ---- an action for the first / last thread
static int atEnd, rounds;
static void onceThread(void*) {
  for (int r = 1; r <= rounds; r++) {
    arrived++;
    auto act = [&]() {
      running++;
      sym_assert(running == 1, "the action runs in one thread only");
      rt_yield();
      if (atEnd) sym_assert(arrived == N, "the final action runs when every thread has come");
      runs++;
      running--;
    };
    if (atEnd) gC->executeAtEnd(act); else { gC->executeAtStart(act); sym_assert(runs == 1, "the others continue only after the action"); }
  }
}
extern "C" void h_once(long arg) {
  setup((int)(arg & 15), (int)(arg >> 4));
  atEnd = (int)sym_choice("atEnd", 0, 1);
  rounds = 1;
  go(onceThread);
  sym_assert(runs == 1, "the action runs exactly once");
  // a second transfer with the same controller
  runs = arrived = 0;
  gC->reset();
  rt_preempt_budget = 0;
  go(onceThread);
  sym_assert(runs == 1, "the action runs once again after a reset");
  sym_cover("once");
}
// ---- rendezvous
static bool quits[8], gone[8], inside[8];
static void barrierThread(void* a) {
  int i = (int)(long)a;
  if (!quits[i]) {
    inside[i] = true;
    gC->getBarrier(0)->execute();
    for (int j = 0; j < N; j++) sym_assert(inside[j] | gone[j], "nobody passes before all others came or left");
    left_++;
  }
  gone[i] = true;
  gC->deRegisterThread(i);
}
extern "C" void h_barrier(long arg) {
  setup((int)(arg & 15), (int)(arg >> 4));
  gC->setNumBarriers(1);
  for (int i = 0; i < N; i++) gC->registerThread(i);
  int expect = 0;
  for (int i = 0; i < N; i++) { quits[i] = sym_choice("quits", 0, 1); expect += !quits[i]; }
  go(barrierThread);
  sym_assert(left_ == expect, "everybody who came is released");
  for (int i = 0; i < N; i++) sym_assert(gC->getState(i) == FINISHED, "finished threads are marked");
  sym_cover("barrier");
  if (expect == 0) sym_cover("nobody came");
}
// ---- funnel: one attempt at a time, until one succeeds
static int failures, attempts, successes, timedWait;
static void funnelThread(void* a) {
  int i = (int)(long)a;
  auto f = gC->getFunnel(0);
  for (;;) {
    auto st = f->getStatus();
    if (st == FUNNEL_END) { sym_assert(successes == 1, "the end is announced after a success"); break; }
    if (st == FUNNEL_START) {
      running++;
      sym_assert(running == 1, "one attempt at a time");
      sym_assert(successes == 0, "no attempt after a success");
      rt_yield();
      attempts++;
      running--;
      if (failures > 0 && sym_choice("fail", 0, 1)) { failures--; f->notifyFail(); if (sym_choice("leave", 0, 1)) return; continue; }
      successes++;
      f->notifySuccess();
      continue;
    }
    if (timedWait) f->wait(1000, *ctxs[i]); else f->wait();
  }
}
extern "C" void h_funnel(long arg) {
  setup((int)(arg & 15), (int)(arg >> 4 & 15));
  failures = (int)(arg >> 8 & 15);
  rt_timeout_budget = (int)(arg >> 12 & 15);
  rt_spurious_budget = (int)(arg >> 16 & 15);
  timedWait = (int)(arg >> 20 & 1);
  gC->setNumFunnels(1);
  go(funnelThread);
  sym_assert(successes <= 1, "at most one success");
  if (successes) sym_cover("success"); else sym_cover("all left");
}
// ---- condition guards
static int items, got;
static void condThread(void* a) {
  int i = (int)(long)a;
  auto cv = gC->getCondition(0);
  if (i == 0) {
    for (int k = 0; k < N - 1; k++) { auto g = cv->acquire(); running++; sym_assert(running == 1, "the guard excludes others"); rt_yield(); items++; running--; if (sym_choice("all", 0, 1)) g.notifyAll(); else g.notifyOne(); }
    return;
  }
  auto g = cv->acquire();
  while (items == 0) {
    int before = items; (void)before;
    g.wait(1000, *ctxs[i]);
  }
  running++; sym_assert(running == 1, "the guard excludes others"); rt_yield(); running--;
  items--; got++;
}
extern "C" void h_condition(long arg) {
  setup((int)(arg & 15), (int)(arg >> 4 & 15));
  rt_timeout_budget = (int)(arg >> 8 & 15);
  gC->setNumConditions(1);
  gOpts->abort_check_interval_millis = (int)sym_choice("interval", 0, 1) * 200;
  go(condThread);
  sym_assert(got == N - 1 && items == 0, "every notification reaches a waiting thread");
  sym_cover("condition");
}
// a wait that nobody answers ends: after the time, or soon after an abort
static int64_t waited;
extern "C" void h_timeout(long) {
  setup(1, 0);
  gC->setNumConditions(1); gC->setNumFunnels(1);
  rt_timeout_budget = 12; rt_idle_budget = 0;
  int64_t ms = sym_range("ms", -5, 1000);
  gOpts->abort_check_interval_millis = (int)sym_choice("interval", 0, 1) * 200;
  gAbort.flag = sym_choice("abort", 0, 1);
  if (sym_choice("funnel", 0, 1)) {
    auto f = gC->getFunnel(0);
    sym_assert(f->getStatus() == FUNNEL_START, "first");
    f->wait((int32_t)ms, *ctxs[0]);
    sym_assert(f->getStatus() == FUNNEL_PROGRESS, "waiting changes nothing");
  } else {
    auto g = gC->getCondition(0)->acquire();
    g.wait((int)ms, *ctxs[0]);
  }
  int used = 12 - rt_timeout_budget;
  if (ms <= 0) sym_assert(used == 0, "no time to wait");
  else if (gAbort.flag || gOpts->abort_check_interval_millis <= 0) sym_assert(used == 1, "an abort ends the wait at the next check");
  else sym_assert(used == (ms + 199) / 200, "the wait lasts as long as asked");
  if (used > 1) sym_cover("long wait");
  (void)waited;
}
// ---- states
extern "C" void h_states(long k) {
  setup(3, 0);
  int st[3] = {INIT, INIT, INIT};
  for (int s = 0; s < k; s++) {
    int i = (int)sym_choice("thread", 0, 2);
    int op = (int)sym_choice("op", 0, 3);
    if (op == 0) { gC->registerThread(i); st[i] = RUNNING; }
    else if (op == 1) { gC->deRegisterThread(i); st[i] = FINISHED; }
    else if (op == 2) { gC->markState(i, WAITING); st[i] = WAITING; }
    else { gC->reset(); for (int j = 0; j < 3; j++) st[j] = RUNNING; }
  }
  int run = 0;
  for (int i = 0; i < 3; i++) { sym_assert(gC->getState(i) == st[i], "states are kept"); run += st[i] == RUNNING; }
  sym_assert(gC->numRunningThreads() == run, "running threads are counted");
  sym_assert(gC->getTotalThreads() == 3, "total");
  for (int q = INIT; q <= FINISHED; q++) {
    for (int i = -1; i < 3; i++) {
      bool any = false;
      for (int j = 0; j < 3; j++) any |= j != i && st[j] == q;
      sym_assert(gC->hasThreads(i, (ThreadStatus)q) == any, "other threads in a state");
      if (i < 0) sym_assert(gC->hasThreads((ThreadStatus)q) == any, "threads in a state");
    }
    sym_cover("states");
  }
  auto m = gC->getThreadStates();
  for (int i = 0; i < 3; i++) sym_assert(m[i] == st[i], "all states are reported");
}
