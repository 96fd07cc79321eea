#include "common.h"
#include <wdt/Reporting.h>
#include <wdt/ErrorCodes.h>
#include <wdt/WdtOptions.h>
#include <wdt/util/EncryptionUtils.h>
using namespace facebook::wdt;
static const int kErrs = (int)(sizeof(kErrorToStr) / sizeof(kErrorToStr[0]));
static int64_t num(const char* n) { int64_t x = sym_i64(n); sym_assume((x >= 0) & (x < (1ll << 56))); return x; }
static ErrorCode err(const char* n) { uint32_t e = (uint32_t)wsym_sym(n, 32); sym_assume(e < (uint32_t)kErrs); return (ErrorCode)e; }
static uint32_t mx(uint32_t a, uint32_t b) { return (uint32_t)wsym_ite(a > b, a, b); }
struct V { int64_t h, d, eh, ed, nb, fa, sb, tb; uint32_t le, re; };
static V any() {
  V v = {num("header"), num("data"), num("effHeader"), num("effData"), num("blocks") & 3, num("failed") & 3, 0, 0, (uint32_t)err("local"), (uint32_t)err("remote")};
  v.sb = (int64_t)wsym_ite(sym_bool("knowsBlocks"), num("sentBlocks"), -1);
  v.tb = (int64_t)wsym_ite(sym_bool("knowsBytes"), num("sentBytes"), -1);
  return v;
}
static TransferStats mk(const V& v, const char* id = "x", bool locked = false) {
  TransferStats s(std::string(id), locked);
  s.addHeaderBytes(v.h); s.addDataBytes(v.d); s.addEffectiveBytes(v.eh, v.ed);
  for (int64_t i = 0, n = (int64_t)wsym_conc(v.nb); i < n; i++) s.incrNumBlocks();
  for (int64_t i = 0, n = (int64_t)wsym_conc(v.fa); i < n; i++) s.incrFailedAttempts();
  s.setNumBlocksSend(v.sb); s.setTotalSenderBytes(v.tb);
  s.setLocalErrorCode((ErrorCode)v.le); s.setRemoteErrorCode((ErrorCode)v.re);
  return s;
}
static bool same(const TransferStats& a, const TransferStats& b) {
  return (a.getHeaderBytes() == b.getHeaderBytes()) & (a.getDataBytes() == b.getDataBytes()) & (a.getEffectiveHeaderBytes() == b.getEffectiveHeaderBytes()) & (a.getEffectiveDataBytes() == b.getEffectiveDataBytes()) & (a.getNumBlocks() == b.getNumBlocks()) & (a.getFailedAttempts() == b.getFailedAttempts()) & (a.getLocalErrorCode() == b.getLocalErrorCode()) & (a.getRemoteErrorCode() == b.getRemoteErrorCode());
}
// sums, whatever the order; mode 0: error codes are free, 1: what the sender announced, 2: the counts
extern "C" void h_sum(long mode) {
  V v[3];
  TransferStats s[3];
  for (int i = 0; i < 3; i++) {
    v[i] = any(); v[i].nb = i ? 1 : v[i].nb; v[i].fa = i ? 2 : v[i].fa;
    if (mode != 2) { v[i].nb = v[i].fa = 1; v[i].h = v[i].d = v[i].eh = v[i].ed = i; }
    if (mode != 1) v[i].sb = v[i].tb = -1;
    if (mode == 1) { v[i].re = 0; sym_assume((v[i].le == 0) | (v[i].le == ERROR) | (v[i].le == CONN_ERROR)); }
    if (mode == 2) v[i].le = v[i].re = 0;
    s[i] = mk(v[i]);
  }
  int p = (int)sym_choice("order", 0, 4);
  static const int perm[5][3] = {{0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
  TransferStats a(true), b;
  for (int i = 0; i < 3; i++) { a += s[i]; b += s[perm[p][i]]; }
  sym_assert(same(a, b), "the order of adding does not matter");
  V t = {0, 0, 0, 0, 0, 0, -1, -1, 0, 0};
  bool mis = false;
  uint32_t le = 0, re = 0;
  for (int i = 0; i < 3; i++) {
    t.h += v[i].h; t.d += v[i].d; t.eh += v[i].eh; t.ed += v[i].ed; t.nb += v[i].nb; t.fa += v[i].fa;
    mis = mis | ((t.sb != -1) & (v[i].sb != -1) & (t.sb != v[i].sb)) | ((t.tb != -1) & (v[i].tb != -1) & (t.tb != v[i].tb));
    t.sb = (int64_t)wsym_ite(t.sb == -1, v[i].sb, t.sb);
    t.tb = (int64_t)wsym_ite(t.tb == -1, v[i].tb, t.tb);
    le = mx(le, v[i].le); re = mx(re, v[i].re);
  }
  le = (uint32_t)wsym_ite(mis, mx(le, ERROR), le);
  sym_assert((a.getHeaderBytes() == t.h) & (a.getDataBytes() == t.d), "transferred bytes add up");
  sym_assert((a.getEffectiveHeaderBytes() == t.eh) & (a.getEffectiveDataBytes() == t.ed), "delivered bytes add up");
  sym_assert((a.getNumBlocks() == t.nb) & (a.getFailedAttempts() == t.fa), "blocks and failed attempts add up");
  sym_assert((a.getTotalBytes() == t.h + t.d) & (a.getEffectiveTotalBytes() == t.eh + t.ed) & (a.getTotalBytes(false) == t.h + t.d), "totals");
  sym_assert((uint32_t)a.getLocalErrorCode() == le, "the most significant local error is kept");
  sym_assert((uint32_t)a.getRemoteErrorCode() == re, "the most significant remote error is kept");
  sym_assert((uint32_t)a.getErrorCode() == mx(le, re), "the error is the more significant of both");
  sym_assert(mis | ((a.getNumBlocksSend() == t.sb) & (a.getTotalSenderBytes() == t.tb)), "what the sender announced is kept");
  sym_cover("sum");
  a.reset();
  sym_assert(a.getTotalBytes() == 0 && a.getEffectiveTotalBytes() == 0 && a.getNumBlocks() == 0 && a.getFailedAttempts() == 0 && a.getErrorCode() == OK, "a reset forgets");
}
// the sender's report
extern "C" void h_sender(long maxThreads) {
  int nt = (int)sym_choice("threads", 1, maxThreads), nf = (int)sym_choice("failedSources", 0, 2), nd = (int)sym_choice("failedDirs", 0, 1);
  std::vector<TransferStats> ok, failed, thr;
  std::vector<std::string> dirs;
  uint32_t e = 0; bool one = false, allOk = true;
  int64_t bytes = 0;
  for (int i = 0; i < nt; i++) {
    V v = any();
    v.nb = 1; v.fa = 0; v.sb = v.tb = -1;  // sending threads do not set these
    thr.push_back(mk(v));
    uint32_t c = mx(v.le, v.re);
    e = mx(e, c); one = one | (c == 0); allOk = allOk & (c == 0);
    bytes += v.ed;
  }
  bool clean = nf == 0 && nd == 0;
  int distinct = 0; bool seen[2] = {false, false};
  for (int i = 0; i < nf; i++) {
    int nm = (int)sym_choice("name", 0, 1);
    V v = any(); v.nb = 0; v.fa = 1;
    // a block is left over only if it failed or some thread did
    sym_assume((mx(v.le, v.re) != 0) | !allOk);
    failed.push_back(mk(v, nm ? "b" : "a"));
    e = mx(e, mx(v.le, v.re));
    if (!seen[nm]) distinct++;
    seen[nm] = true;
  }
  for (int i = 0; i < nd; i++) { dirs.push_back("d"); e = mx(e, BYTE_SOURCE_READ_ERROR); }
  int64_t total = num("totalFileSize"), found = num("found"), prev = num("previous");
  sym_assume(found >= distinct);
  TransferReport r(ok, failed, thr, dirs, 1.0, total, found, prev, true);
  uint32_t got = (uint32_t)r.getSummary().getErrorCode();
  bool complete = bytes == total;
  sym_assert((got != 0) | (complete & clean & one), "success needs all bytes, no failed file or directory and a thread that finished well");
  sym_assert((got == 0) | !(complete & clean & one), "a complete transfer is a success");
  uint32_t want = (uint32_t)wsym_ite(e == 0, ERROR, e);
  sym_assert((got == 0) | (got == want), "the failure is the most significant error");
  sym_assert(r.getSummary().getNumFiles() == found - distinct, "files that did not fail are counted once");
  sym_assert(r.getSummary().getEffectiveDataBytes() == bytes, "bytes add up");
  sym_assert((r.getTotalFileSize() == total) & (r.getPreviouslySentBytes() == prev) & (r.getNumDiscoveredFiles() == found), "totals are passed on");
  sym_assert((int)r.getFailedSourceStats().size() == nf && (int)r.getFailedDirectories().size() == nd && (int)r.getThreadStats().size() == nt, "details are passed on");
  if (got == 0) { sym_cover("success"); if (e) sym_cover("recovered"); } else sym_cover("failure");
}
// the receiver's report
extern "C" void h_receiver(long) {
  V v = any();
  TransferStats s = mk(v);
  TransferReport r(std::move(s));
  uint32_t got = (uint32_t)r.getSummary().getErrorCode();
  bool complete = (v.sb != -1) & (v.sb == v.nb) & ((v.tb == -1) | (v.tb == v.ed));
  sym_assert((got != 0) | complete, "success needs every block and every byte");
  sym_assert((got != 0) | (v.re == 0), "an error of the sender is kept");
  sym_assert((got != 0) | (v.le != ENCRYPTION_ERROR), "an integrity error is kept");
  sym_assert((got == 0) | !(complete & (v.re == 0) & (v.le != ENCRYPTION_ERROR)), "a complete transfer is a success");
  sym_assert((got == 0) | (got >= mx(v.re, (uint32_t)wsym_ite(complete & (v.le != ENCRYPTION_ERROR), 0, mx(v.le, ERROR)))), "the failure is the most significant error");
  if (got == 0) { sym_cover("success"); if (v.le) sym_cover("recovered"); } else sym_cover("failure");
}
// progress reports add up all threads
extern "C" void h_progress(long) {
  std::vector<TransferStats> thr;
  int64_t eff = 0;
  for (int i = 0; i < 2; i++) { V v = any(); v.nb = i; v.fa = 0; eff += v.ed; thr.push_back(mk(v, "t", true)); }
  TransferReport r(thr, 1.0, 77, 5, false);
  sym_assert(r.getSummary().getEffectiveDataBytes() == eff && r.getSummary().getNumBlocks() == 1, "progress adds up");
  sym_assert(thr.size() == 2 && thr[0].getEffectiveDataBytes() + thr[1].getEffectiveDataBytes() == eff, "thread counts stay");
  sym_cover("progress");
}
// error codes
extern "C" void h_codes(long) {
  uint32_t a = (uint32_t)wsym_sym("a", 32), b = (uint32_t)wsym_sym("b", 32), c = (uint32_t)wsym_sym("c", 32);
  bool valid = sym_choice("valid", 0, 1);
  if (valid) sym_assume((a <= 0x7fffffff) & (b <= 0x7fffffff) & (c <= 0x7fffffff));
  ErrorCode A = (ErrorCode)a, B = (ErrorCode)b, C = (ErrorCode)c;
  if (valid) {
  sym_assert(getMoreInterestingError(A, B) == getMoreInterestingError(B, A), "symmetric");
  sym_assert(getMoreInterestingError(A, getMoreInterestingError(B, C)) == getMoreInterestingError(getMoreInterestingError(A, B), C), "order does not matter");
  sym_assert(getMoreInterestingError(A, OK) == A, "success never hides an error");
  sym_assert((getMoreInterestingError(A, B) == A) | (getMoreInterestingError(A, B) == B), "one of both");
    int i = (int)sym_choice("code", 0, kErrs - 1);
    sym_assert(errorCodeToStr((ErrorCode)i) == kErrorToStr[i], "name");
  } else {
    sym_assume((a >= (uint32_t)kErrs) & (a < 256 | a >= 0xffffff00u));
    std::string s = errorCodeToStr(A);
    sym_assert(!s.empty(), "any code has a text");
    sym_cover("unknown code");
  }
}
// a thread adds up while another counts
static TransferStats* shared;
static void counter(void*) { for (int i = 0; i < 2; i++) { shared->addDataBytes(5); shared->addEffectiveBytes(1, 5); shared->incrNumBlocks(); } shared->setLocalErrorCode(CONN_ERROR); }
static void adder(void* p) { TransferStats* t = (TransferStats*)p; *t += *shared; int64_t d = t->getDataBytes(); sym_assert(d == 0 || d == 5 || d == 10, "whole updates"); }
extern "C" void h_concurrent(long preempt) {
  rt_preempt_budget = (int)preempt;
  shared = new TransferStats(true);
  TransferStats t(true);
  int a = rt_spawn(counter, nullptr), b = rt_spawn(adder, &t);
  rt_join(a); rt_join(b);
  sym_assert(shared->getDataBytes() == 10 && shared->getNumBlocks() == 2 && shared->getErrorCode() == CONN_ERROR, "nothing lost");
  sym_cover("concurrent");
}
