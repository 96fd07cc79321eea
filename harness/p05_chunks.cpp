#include "common.h"
#include <wdt/Protocol.h>
using namespace facebook::wdt;
static int in(const std::vector<Interval>& v, int64_t x) { int n = 0; for (auto& i : v) n += (i.start_ <= x) & (x < i.end_); return n; }
static FileChunksInfo mk(int n, int64_t limit) {
  FileChunksInfo f;
  f.setFileSize(limit);
  for (int i = 0; i < n; i++) {
    int64_t a = sym_i64("start"), b = sym_i64("end");
    sym_assume((a >= 0) & (a <= b) & (b <= limit));
    f.addChunk(Interval(a, b));
  }
  return f;
}
extern "C" void h_merge(long n) {
  int64_t size = sym_i64("fileSize");
  sym_assume(size >= 0);
  int k = (int)sym_choice("k", 0, n);
  FileChunksInfo f = mk(k, size);
  std::vector<Interval> orig = f.getChunks();
  int64_t x = sym_i64("x");
  f.mergeChunks();
  const auto& m = f.getChunks();
  sym_assert((in(orig, x) > 0) == (in(m, x) > 0), "merging keeps exactly the same bytes");
  sym_assert(in(m, x) <= 1, "merged ranges are disjoint");
  for (size_t i = 0; i + 1 < m.size(); i++) sym_assert(m[i].end_ < m[i + 1].start_, "merged ranges are ordered and not adjacent");
  if (!m.empty()) sym_assert((m[0].start_ >= 0) & (m.back().end_ <= size), "merged ranges lie inside the file");
  int64_t t = 0;
  for (auto& c : m) { sym_assert(c.start_ <= c.end_, "merged ranges are well formed"); t += c.end_ - c.start_; }
  sym_assert(t == f.getTotalChunkSize(), "total of the merged ranges");
  int64_t cur = sym_i64("curSize");
  sym_assume(cur >= size);  // smaller files are sent anew
  auto r = f.getRemainingChunks(cur);
  bool inFile = (x >= 0) & (x < cur);
  sym_assert(in(r, x) + in(m, x) == (inFile ? 1 : 0), "every byte of the file is either received or remaining, once");
  int64_t rt = 0;
  for (size_t i = 0; i < r.size(); i++) {
    sym_assert(r[i].start_ < r[i].end_, "remaining ranges are not empty");
    rt += r[i].end_ - r[i].start_;
    if (i) sym_assert(r[i - 1].end_ <= r[i].start_, "remaining ranges are ordered");
  }
  sym_assert(rt + t == cur, "received plus remaining is the file");
  if (r.empty()) { sym_cover("nothing remains"); sym_assert(t == cur, "nothing remains only if all was received"); }
  else sym_cover("some remain");
  if (m.size() == (size_t)n) sym_cover("no merge");
  if (m.size() == 1 && n > 1) sym_cover("all merged");
  f.mergeChunks();
  sym_assert(f.getChunks().size() == m.size(), "merging again changes nothing");
}
