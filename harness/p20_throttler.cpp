// P20: the throttler with symbolic request sizes and clock readings (solved over integers and reals with rounding errors)
#include "common.h"
#include <thread>
#include <wdt/Throttler.h>
using namespace facebook::wdt;
static const int64_t G = 1000000000;
struct Cfg { int64_t avg, peak, burst; };
static const Cfg cfgs[] = {{1000, -1, 0}, {0, 1000, 0}, {0, 3000000, 1 << 16}, {1000000, 1500000, 0}, {700, -1, 0}, {0, 0, 0}, {1 << 20, 1 << 21, 1 << 16}, {0, 1 << 10, 1}, {1000, 1000, 10}, {50000000, 77000000, 8000000}, {-1, -1, -1}};
static const int NCFG = sizeof cfgs / sizeof *cfgs;
// A sleep does not move the clock of the others: the next request may come before or after its end (from another thread or the same).
static int64_t slept; static bool delayed;
static void onSleep(int64_t ns) { slept += ns; delayed = true; }
static ThrottlerOptions options(const Cfg& c, int64_t single) {
  ThrottlerOptions o;
  o.avg_rate_per_sec = (double)c.avg; o.max_rate_per_sec = (double)c.peak; o.throttler_bucket_limit = (double)c.burst;
  o.single_request_limit = single; o.throttler_log_time_millis = 0;
  return o;
}
static int64_t burstOf(const Cfg& c) { return c.burst > 0 ? c.burst : c.peak / 2; }
// what the rates require, in 1e-9 tokens
struct Ref {
  Cfg c; int64_t t0 = 0, sum = 0, fill = 0, tokens = 0, n = 0, big = 0;
  void start(const Cfg& cfg) { c = cfg; t0 = fill = rt_clock_ns; sum = tokens = n = big = 0; }
  void call(int64_t size, int64_t at) { // before
    sum += size; n++;
    big = (int64_t)wsym_ite((uint64_t)(size > big), (uint64_t)size, (uint64_t)big);
    if (c.peak <= 0) return;
    tokens += c.peak * (at - fill); fill = at;
    int64_t top = burstOf(c) * G;
    tokens = (int64_t)wsym_ite((uint64_t)(tokens > top), (uint64_t)top, (uint64_t)tokens) - size * G;
  }
  // the request came at "at" and went on at "now"
  void done(int64_t at, int64_t now) {
    int64_t d = now - at;
    sym_assert(d >= 0, "time");
    if (c.avg > 0) sym_assert(sum * G <= c.avg * (now - t0 + 10) + G / 1000, "no more than the average rate allows");
    if (c.peak > 0) sym_assert(sum * G <= burstOf(c) * G + c.peak * (now - t0 + 10) + (n + 1) * G + (c.avg > 0 ? big * G : 0), "no more than the peak rate and the burst allow");
    bool avgOk = c.avg > 0; if (avgOk) avgOk = c.avg * (now - t0 - 10) <= sum * G + G / 1000;
    bool peakOk = c.peak > 0; if (peakOk) peakOk = c.peak * (d - 10) <= (n + 1) * G - tokens;
    sym_assert((int)(d == 0) | (int)avgOk | (int)peakOk, "not delayed longer than required");
  }
};
// arg: configuration | requests<<4 | options<<8 (1: split requests, 2: registered again in between, 4: new rates in between, 8: a second user comes and goes)
extern "C" void h_sequence(long arg) {
  const Cfg& c = cfgs[arg & 15]; int n = (int)(arg >> 4) & 15, opt = (int)(arg >> 8) & 15;
  rt_sleep_hook = onSleep;
  int64_t single = opt & 1 ? (c.avg > 0 ? c.avg : c.peak > 0 ? c.peak : 1000) : (int64_t)1 << 40;
  Throttler t(options(c, single));
  slept = 0;
  t.limit(5);
  sym_assert(slept == 0, "not delayed before registration");
  t.startTransfer();
  Ref r; r.start(c);
  int at = opt & 6 ? (int)sym_choice("in between", 1, n - 1) : -1;
  int second = opt & 8 ? (int)sym_choice("second", 0, n - 1) : -1;
  int64_t scale = c.avg > 0 ? c.avg : c.peak > 0 ? c.peak : 1000;
  int bits = 3; while ((int64_t)1 << (bits - 1) < scale * 2) bits++;
  for (int i = 0; i < n; i++) {
    rt_clock_ns += (int64_t)wsym_sym("gap", 33);
    if (i == at && opt & 2) { t.endTransfer(); rt_clock_ns += (int64_t)wsym_sym("gap", 33); t.startTransfer(); r.start(c); sym_cover("again"); }
    if (i == at && opt & 4) {
      const Cfg& nc = cfgs[sym_choice("new rates", 0, NCFG - 2)];
      t.setThrottlerRates(options(nc, single)); r.start(nc);
      sym_assert(t.getAvgRatePerSec() == nc.avg && t.getPeakRatePerSec() == nc.peak && (nc.peak <= 0 || t.getBucketLimit() == burstOf(nc)), "the new rates");
      sym_cover("new rates");
    }
    if (i == second) t.startTransfer();
    if (i == second + 1 && second >= 0) t.endTransfer();
    int64_t size = (int64_t)wsym_sym("size", bits);
    sym_assume(size > 0); // nothing is granted otherwise
    if (opt & 1) sym_assume(size <= single * 2 + single / 2);
    int64_t now = rt_clock_ns; slept = 0; delayed = false;
    if (opt & 1) { // in parts
      int64_t before = r.sum;
      t.limit(size);
      r.call(0, now); r.sum = before + size; r.n += 2; r.big = single; r.tokens -= size * G;
      if (r.c.avg > 0) sym_assert(r.sum * G <= r.c.avg * (now + slept - r.t0 + 10) + G / 1000, "no more than the average rate allows");
      if (r.c.peak > 0) sym_assert(r.sum * G <= burstOf(r.c) * G + r.c.peak * (now + slept - r.t0 + 10) + (r.n + 1) * G + (r.c.avg > 0 ? r.big * G : 0), "no more than the peak rate and the burst allow");
      if (r.c.avg <= 0 && r.c.peak <= 0) sym_assert(slept == 0, "no delay without limits");
    } else {
      r.call(size, now);
      t.limit(size);
      r.done(now, now + slept);
    }
    sym_assert(t.getProgress() == (double)r.sum, "the progress");
    if (delayed) sym_cover("delayed"); else sym_cover("not delayed");
  }
}
// two threads; each sleeps from its own moment on
// arg: configuration | requests of each<<4
static Throttler* gT; static int64_t gEnd, gSum; static int gN;
static void user() {
  for (int i = 0; i < gN; i++) {
    int64_t size = 1 + (int64_t)wsym_sym("size", 11);
    gT->limit(size);
    gSum += size;
  }
}
static int64_t lastEnd;
static void onSleepConc(int64_t ns) { int64_t e = rt_clock_ns + ns; lastEnd = (int64_t)wsym_ite((uint64_t)(e > lastEnd), (uint64_t)e, (uint64_t)lastEnd); }
extern "C" void h_threads(long arg) {
  const Cfg& c = cfgs[arg & 15]; gN = (int)(arg >> 4) & 3;
  rt_preempt_budget = (int)(arg >> 6) & 7;
  Throttler t(options(c, (int64_t)1 << 40)); gT = &t;
  t.startTransfer();
  int64_t t0 = lastEnd = rt_clock_ns;
  rt_clock_ns += (int64_t)wsym_sym("gap", 33);
  rt_sleep_hook = onSleepConc;
  int64_t now = rt_clock_ns;
  std::thread a([] { gT->startTransfer(); user(); gT->endTransfer(); }), b([] { gT->startTransfer(); user(); gT->endTransfer(); });
  a.join(); b.join();
  t.endTransfer();
  int64_t end = (int64_t)wsym_ite((uint64_t)(now > lastEnd), (uint64_t)now, (uint64_t)lastEnd);
  if (c.avg > 0) sym_assert(gSum * G <= c.avg * (end - t0 + 10) + G / 1000, "no more than the average rate allows");
  if (c.peak > 0) sym_assert(gSum * G <= burstOf(c) * G + c.peak * (end - t0 + 10) + (2 * gN + 1) * G + (c.avg > 0 ? 2048 * G : 0), "no more than the peak rate and the burst allow");
  sym_assert(t.getProgress() == (double)gSum, "nothing is lost");
  sym_cover("end");
}
