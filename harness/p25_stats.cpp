#include "fakeos.h"
#include <wdt/Reporting.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/Stats.h>
#include <cmath>
using namespace facebook::wdt;
static int64_t lo(int64_t a, int64_t b) { return (int64_t)wsym_ite((uint64_t)(a < b), (uint64_t)a, (uint64_t)b); }
static int64_t hi(int64_t a, int64_t b) { return (int64_t)wsym_ite((uint64_t)(a > b), (uint64_t)a, (uint64_t)b); }
static int64_t val() { int64_t v = sym_i64("v"); sym_assume((v > -(1ll << 40)) & (v < (1ll << 40))); return v; }
// n values recorded in up to three counters that are then merged
extern "C" void h_counter(long maxN) {
  int n = (int)sym_choice("n", 1, maxN);
  int first = (int)sym_choice("first", 0, n), second = (int)sym_choice("second", 0, n - first);
  Counter c[3];
  int64_t cnt = 0, sum = 0, mn = 0, mx = 0;
  for (int i = 0; i < n; i++) {
    int64_t v = val();
    c[i < first ? 0 : i < first + second ? 1 : 2].record(v);
    mn = i ? lo(mn, v) : v; mx = i ? hi(mx, v) : v;
    cnt++; sum += v;
  }
  if (sym_choice("nested", 0, 1)) { c[1].merge(c[2]); c[0].merge(c[1]); } else { c[0].merge(c[1]); c[0].merge(c[2]); }
  sym_assert(c[0].getCount() == cnt, "count");
  sym_assert(c[0].getSum() == sum, "sum");
  sym_assert(c[0].getMax() == mx, "maximum");
  sym_assert(c[0].getRealMin() == mn, "minimum");
  int64_t m0 = c[0].getMin();
  sym_assert((m0 == 0) | (m0 >= mn), "minimum without zeroes is not below the minimum");
  sym_assert((mn <= 0) | (m0 == mn), "minimum without zeroes is the minimum when there are none");
  double a = c[0].getAverage();
  sym_assert(a == (double)sum / (double)cnt, "average");
  if (n > 1) sym_cover("merged");
  c[0].reset();
  int64_t v = val();
  c[0].record(v);
  sym_assert((c[0].getCount() == 1) & (c[0].getSum() == v) & (c[0].getMax() == v) & (c[0].getRealMin() == v), "a reset forgets");
}
extern "C" void h_hist(long maxN) {
  int n = (int)sym_choice("n", 1, maxN);
  Histogram h[2];
  int64_t mn = 0, mx = 0, sum = 0;
  int first = (int)sym_choice("first", 0, n);
  for (int i = 0; i < n; i++) {
    int64_t v;
    switch (sym_choice("kind", 0, 3)) {
      case 0: v = sym_choice("small", 1, 3); break;
      case 1: v = 11 + sym_choice("mid", 0, 2); break;
      case 2: v = sym_choice("big", 0, 1) ? 100001 : 99999; break;
      default: v = 0; break;
    }
    h[i < first ? 0 : 1].record(v);
    mn = i ? lo(mn, v) : v; mx = i ? hi(mx, v) : v; sum += v;
  }
  h[0].merge(h[1]);
  sym_assert((h[0].getCount() == n) & (h[0].getSum() == sum) & (h[0].getMax() == mx) & (h[0].getRealMin() == mn), "count, sum, minimum and maximum");
  static const double ps[] = {0, 20, 50, 90, 99.9, 100};
  double prev = 0;
  for (int k = 0; k < 6; k++) {
    double p = h[0].calcPercentile(ps[k]);
    sym_assert(p >= (double)mn - 1e-6, "percentiles are not below the minimum");
    sym_assert(p <= (double)mx + 1e-6, "percentiles are not above the maximum");
    if (k) sym_assert(p >= prev - 1e-6, "percentiles do not decrease");
    prev = p;
  }
  sym_cover("percentiles");
}
static bool startsWith(const OsTok& t, const char* s) { if (t.kind != 0) return false; for (int i = 0; s[i]; i++) if (i >= t.n || t.s[i] != s[i]) return false; return true; }
// performance statistics of system calls
extern "C" void h_perf(long maxN) {
  WdtOptions o;
  PerfStatReport a(o), b(o);
  int n = (int)sym_choice("n", 1, maxN);
  int type = (int)sym_choice("type", 0, 1) * 4;
  int64_t mn = 0, mx = 0, sum = 0; int cnt = 0;
  for (int i = 0; i < n; i++) {
    int64_t v = sym_choice("ms", 0, maxN > 2 ? 2 : 1) * 15000 + sym_range("us", 0, 999);
    (sym_choice("where", 0, 1) ? a : b).addPerfStat((PerfStatReport::StatType)type, v);
    mn = i ? lo(mn, v) : v; mx = i ? hi(mx, v) : v; sum += v; cnt++;
  }
  // others
  if (sym_choice("other", 0, 1)) a.addPerfStat(PerfStatReport::FSYNC_STATS, 3000000);
  a += b;
  FakeOs f;
  osN = 0;
  f.os() << a;
  int i = 0;
  while (i < osN && !startsWith(osToks[i], "Ncalls ")) i++;
  sym_assert(i + 1 < osN, "reported");
  sym_assert(osToks[i + 1].n == cnt, "number of calls");
  double got[4]; int k = 0;
  int64_t pc[3] = {-1, -1, -1}, inBuckets = 0;
  for (i += 2; i < osN && !startsWith(osToks[i], "Ncalls "); i++) {
    if (osToks[i].kind == 2 && k < 4) got[k++] = osToks[i].d;
    if (startsWith(osToks[i], "p50 ")) pc[0] = osToks[i + 1].n;
    if (startsWith(osToks[i], "p95 ")) pc[1] = osToks[i + 1].n;
    if (startsWith(osToks[i], "p99 ")) pc[2] = osToks[i + 1].n;
    if (startsWith(osToks[i], ") --> ")) inBuckets += osToks[i + 1].n;
  }
  sym_assert(k == 4, "sum, minimum, maximum and average are reported");
  sym_assert(got[0] == (double)sum / 1000, "sum");
  sym_assert(got[1] == (double)mn / 1000, "minimum");
  sym_assert(got[2] == (double)mx / 1000, "maximum");
  sym_assert(got[3] == (double)sum / (double)cnt / 1000, "average");
  sym_assert(inBuckets == cnt, "every call is in one bucket");
  int64_t last = -1;
  for (int q = 0; q < 3; q++) if (pc[q] >= 0) {
    sym_assert((pc[q] * 1000 <= mx) & (pc[q] * 1000 + 999 >= mn), "percentiles lie between minimum and maximum");
    sym_assert(pc[q] >= last, "percentiles do not decrease");
    last = pc[q];
    sym_cover("percentile");
  }
}
