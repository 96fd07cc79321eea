#include "common.h"
#include "fs.h"
#include <wdt/util/TransferLogManager.h>
#include <wdt/WdtOptions.h>
using namespace facebook::wdt;
// what the receiver logged, in order
enum Ev { CREATE, BLOCK, RESIZE, INVAL, DIRINVAL, HEADER };
struct Event { Ev t; int64_t seq; int file; int64_t a, b; };
static const char* const names[2] = {"a", "sub/b"};
static const char* const paths[2] = {"/d/a", "/d/sub/b"};
static Event ev[16];
static int nEv = 0;
static WdtOptions* opts;
static void env(int64_t sizeA, int64_t sizeB) {
  fs_add("/d", FS_DIR); fs_add("/d/sub", FS_DIR);
  FsNode* a = fs_add("/d/a", FS_FILE, 0); a->size = sizeA;
  FsNode* b = fs_add("/d/sub/b", FS_FILE, 0); b->size = sizeB;
  fs_cap = 256;
  opts = new WdtOptions();
  opts->enable_download_resumption = true;
}
// the state after the first n events
struct St { bool valid; bool have[2]; int64_t seq[2]; int nch[2]; int64_t s[2][8], e[2][8]; };
static St replay(int n) {
  St st; memset(&st, 0, sizeof st);
  st.valid = true;
  for (int i = 0; i < n; i++) {
    const Event& x = ev[i];
    int f = -1;
    for (int k = 0; k < 2; k++) if (st.have[k] && st.seq[k] == x.seq) f = k;
    switch (x.t) {
      case HEADER: st.valid = true; break;
      case CREATE: st.have[x.file] = true; st.seq[x.file] = x.seq; st.nch[x.file] = 0; break;
      case BLOCK: if (f >= 0) { st.s[f][st.nch[f]] = x.a; st.e[f][st.nch[f]] = x.a + x.b; st.nch[f]++; } break;
      case INVAL: if (f >= 0) { st.have[f] = false; st.nch[f] = 0; } break;
      case DIRINVAL: st.valid = false; st.have[0] = st.have[1] = false; st.nch[0] = st.nch[1] = 0; break;
      case RESIZE: break;
    }
  }
  return st;
}
static bool inSt(const St& st, int f, int64_t x) { bool r = false; for (int i = 0; i < st.nch[f]; i++) r = r | ((st.s[f][i] <= x) & (x < st.e[f][i])); return r; }
static bool inRep(const FileChunksInfo& f, int64_t x) { bool r = false; for (auto& c : f.getChunks()) r = r | ((c.start_ <= x) & (x < c.end_)); return r; }
// does the report equal the state?  x: any position (checked for all by the solver)
static bool matches(const St& st, ErrorCode code, const std::vector<FileChunksInfo>& v, int64_t x) {
  if (!st.valid) return code == INCONSISTENT_DIRECTORY && v.empty();
  if (code != OK) return false;
  int want = st.have[0] + st.have[1];
  if ((int)v.size() != want) return false;
  bool ok = true;
  for (auto& f : v) {
    int k = sameStr(f.getFileName(), names[0]) ? 0 : sameStr(f.getFileName(), names[1]) ? 1 : -1;
    if (k < 0 || !st.have[k] || f.getSeqId() != st.seq[k]) return false;
    ok = ok & (inSt(st, k, x) == inRep(f, x)) & (f.getFileSize() == fs_find(paths[k])->size);
  }
  return ok;
}
static int64_t val(const char* n) { return sym_range(n, 0, 63); }
static const char* cname = "/d/.wdt.log";
// one session: k logged events, then the log is closed
struct Session {
  TransferLogManager m;
  std::vector<FileChunksInfo> got;
  ErrorCode code;
  explicit Session(const char* rec = "r", int64_t cfg = 1) : m(*opts, "/d") {
    ErrorCode o = m.openLog();
    if (o != OK) { code = o; return; }
    code = m.parseAndMatch(rec, cfg, got);
  }
};
static void add(Event x) { ev[nEv++] = x; }
static int64_t nextSeq;
static void someEvents(TransferLogManager& m, int k, int64_t sizeA, int64_t sizeB) {
  for (int i = 0; i < k; i++) {
    St st = replay(nEv);
    int f = (int)sym_choice("file", 0, 1);
    int64_t fsize = f ? sizeB : sizeA;
    if (!st.have[f]) {
      if (sym_choice("stop", 0, 1)) return;
      int64_t c = val("createSize"); sym_assume(c <= fsize);
      add({CREATE, nextSeq, f, c, 0});
      m.addFileCreationEntry(names[f], nextSeq++, c);
      continue;
    }
    switch (sym_choice("op", 0, 2)) {
      case 0: {
        int64_t o = val("off"), l = val("len"); sym_assume(o + l <= fsize);
        add({BLOCK, st.seq[f], f, o, l});
        m.addBlockWriteEntry(st.seq[f], o, l);
        break; }
      case 1: {
        // sizes only grow; the file has that size by then
        add({RESIZE, st.seq[f], f, fsize, 0});
        m.addFileResizeEntry(st.seq[f], fsize);
        break; }
      default:
        add({INVAL, st.seq[f], f, 0, 0});
        m.addFileInvalidationEntry(st.seq[f]);
        break;
    }
  }
}
static void begin(Session& s, const char* ip) {
  s.m.startThread();
  if (!s.m.verifySenderIp(ip)) { s.got.clear(); add({DIRINVAL, 0, 0, 0, 0}); }
  add({HEADER, 0, 0, 0, 0});
  s.m.writeLogHeader();
}
static bool anyMatch(int lo, const Session& s, int64_t x) { bool any = false; for (int p = lo; p <= nEv; p++) any = any | matches(replay(p), s.code, s.got, x); return any; }
// a receiver logs k events (and a second one k2 more) and dies at any moment of any write
extern "C" void h_crash(long arg) {
  int k = (int)arg & 15, k2 = (int)(arg >> 4) & 15, early = (int)(arg >> 8) & 15;
  rt_preempt_budget = early * 2;
  int64_t sa = val("sizeA"), sb = val("sizeB");
  env(sa, sb);
  int64_t x = sym_i64("position");
  nextSeq = 1;
  fs_crash_budget = 1;
  rt_timeout_budget = early;
  int durable = 0;
  {
    Session s;
    begin(s, "p");
    someEvents(s.m, k, sa, sb);
    s.m.closeLog();
    if (!fs_dead) durable = nEv;
  }
  bool crashed = fs_dead;
  if (crashed) fs_restart();
  if (k2 && !crashed) {
    {
      Session s;
      sym_assert(matches(replay(nEv), s.code, s.got, x), "a closed log is read back completely");
      if (s.code == OK) {
        begin(s, "p");
        someEvents(s.m, k2, sa, sb);
      }
      s.m.closeLog();
    }
    if (!fs_dead) durable = nEv;
    crashed = fs_dead;
    if (crashed) fs_restart();
  }
  fs_crash_budget = 0; rt_timeout_budget = 0;
  {
    Session s;
    sym_assert(anyMatch(durable, s, x), "what is read back is what had been logged up to some moment");
    if (crashed) sym_cover("crashed");
    if (crashed && nEv && !matches(replay(nEv), s.code, s.got, 0)) sym_cover("lost the tail");
    s.m.closeLog();
    Session s2;
    bool same = s2.code == s.code && s2.got.size() == s.got.size();
    for (size_t i = 0; same && i < s.got.size(); i++) same = sameStr(s.got[i].getFileName(), s2.got[i].getFileName()) & (s.got[i].getSeqId() == s2.got[i].getSeqId()) & (inRep(s.got[i], x) == inRep(s2.got[i], x));
    sym_assert(same, "reading the recovered log again gives the same");
    if (s2.code == OK) {
      // the recovered log can be continued
      s2.m.startThread();
      s2.m.verifySenderIp("p");
      s2.m.writeLogHeader();
      s2.m.addFileCreationEntry("a", 50, 0);
      s2.m.addBlockWriteEntry(50, 0, 0);
      s2.m.closeLog();
      Session s3;
      sym_assert(s3.code == OK && s3.got.size() == s2.got.size() + 1, "the recovered log can be continued");
      bool kept = true;
      for (size_t i = 0; i < s2.got.size() && i < s3.got.size(); i++) kept = kept & (s2.got[i].getSeqId() == s3.got[i].getSeqId()) & (inRep(s2.got[i], x) == inRep(s3.got[i], x));
      sym_assert(kept, "continuing keeps what was there");
      s3.m.closeLog();
    } else s2.m.closeLog();
  }
}
// a log of another transfer, configuration or sender is not used, then or later
extern "C" void h_foreign(long) {
  rt_preempt_budget = 0;
  env(10, 10);
  nextSeq = 1;
  std::string rec(1, 'r');
  {
    Session s;
    begin(s, "p");
    s.m.addFileCreationEntry("a", 1, 10); s.m.addBlockWriteEntry(1, 0, 5);
    s.m.closeLog();
  }
  char rc = (char)sym_u8("recovery"); int64_t cfg = sym_range("config", 0, 3); char ip = (char)sym_u8("ip");
  sym_assume((rc != 0) & (ip != 0));
  bool nosum = sym_choice("dontVerify", 0, 1);
  opts->disable_sender_verification_during_resumption = nosum;
  bool inv = false;
  {
    std::string r(1, rc), p(1, ip);
    TransferLogManager m(*opts, "/d");
    sym_assert(m.openLog() == OK, "open");
    std::vector<FileChunksInfo> got;
    ErrorCode c = m.parseAndMatch(r, cfg, got);
    bool foreign = (rc != 'r') | (cfg != 1);
    sym_assert((c == OK) == !foreign, "only a log of this transfer and configuration is used");
    sym_assert((c == OK) ? got.size() == 1 : c == INCONSISTENT_DIRECTORY && got.empty(), "a log of another transfer gives nothing");
    sym_assert(m.getResumptionStatus() == c, "status");
    inv = c != OK;
    if (c == OK) {
      m.startThread();
      bool ok = m.verifySenderIp(p);
      sym_assert(ok == (nosum || ip == 'p'), "the log of another sender is not used");
      sym_assert(ok || m.getResumptionStatus() == INCONSISTENT_DIRECTORY, "the log of another sender is not used");
      inv = !ok;
    }
    m.closeLog();
  }
  Session s;
  if (inv) { sym_cover("foreign"); sym_assert(s.code == INCONSISTENT_DIRECTORY && s.got.empty(), "an invalidated directory stays invalid"); }
  else { sym_cover("own"); sym_assert(s.code == OK && s.got.size() == 1, "the own log stays valid"); }
  s.m.closeLog();
}
// files that are missing or too small for what was logged do not count, not even later
extern "C" void h_missing(long) {
  rt_preempt_budget = 0;
  int64_t size = val("size"), now = val("now"), later = val("later"), logged = val("logged");
  env(size, 10);
  sym_assume(logged <= size);
  opts->disable_preallocation = sym_choice("preallocate", 0, 1) == 0;
  int64_t cfg = opts->shouldPreallocateFiles();
  FsNode* a = fs_find("/d/a");
  int64_t off = val("off"), l = val("len");
  sym_assume((l > 0) & (off + l <= logged));
  {
    Session s("r", cfg);
    begin(s, "p");
    s.m.addFileCreationEntry("a", 1, logged); s.m.addFileCreationEntry("sub/b", 2, 10);
    s.m.addBlockWriteEntry(1, off, l); s.m.addBlockWriteEntry(2, 0, 10);
    s.m.closeLog();
  }
  bool gone = sym_choice("gone", 0, 1);
  a->size = now;
  if (gone) a->nlink = 0;
  bool counted;
  {
    Session s("r", cfg);
    counted = false;
    for (auto& f : s.got) {
      sym_assert((f.getFileSize() == fs_find(sameStr(f.getFileName(), "a") ? "/d/a" : "/d/sub/b")->size), "sizes are those on disk");
      if (sameStr(f.getFileName(), "a")) counted = true;
      for (auto& c : f.getChunks()) sym_assert(c.end_ <= f.getFileSize(), "ranges lie inside the file");
    }
    sym_assert(!counted || (!gone && (now >= off + l)), "a file that is missing or lost its data does not count");
    sym_assert(!counted || !opts->shouldPreallocateFiles() || now >= logged, "a file smaller than logged does not count");
    sym_assert(counted || s.code != OK || gone || now < logged, "an intact file counts");
    if (s.code == OK) { bool b = false; for (auto& f : s.got) b = b | sameStr(f.getFileName(), "sub/b"); sym_assert(b, "the other file still counts"); }
    if (s.code == OK && !counted) sym_cover("missing");
    bool ok = s.code == OK;
    s.m.closeLog();
    if (!ok) return;
  }
  // the file appears again without the data
  a->nlink = 1; a->size = later;
  Session s("r", cfg);
  if (s.code == OK && !counted) for (auto& f : s.got) sym_assert(!sameStr(f.getFileName(), "a"), "what was dropped once is not believed later");
  s.m.closeLog();
}
// the compacted log says the same as the whole one
extern "C" void h_compact(long nb) {
  rt_preempt_budget = 0;
  int64_t sa = val("sizeA"), sb = val("sizeB");
  env(sa, sb);
  nextSeq = 1;
  int64_t x = sym_i64("position");
  int files = (int)sym_choice("files", 1, 2);
  {
    Session s;
    begin(s, "p");
    for (int f = 0; f < files; f++) {
      int64_t sz = f ? sb : sa;
      add({CREATE, 5 + f, f, sz, 0}); s.m.addFileCreationEntry(names[f], 5 + f, sz);
      int n = (int)sym_choice("blocks", 0, nb);
      for (int i = 0; i < n; i++) { int64_t o = val("off"), l = val("len"); sym_assume(o + l <= sz); add({BLOCK, 5 + f, f, o, l}); s.m.addBlockWriteEntry(5 + f, o, l); }
    }
    s.m.compactLog();
    s.m.closeLog();
  }
  Session s;
  sym_assert(matches(replay(nEv), s.code, s.got, x), "compaction does not change what the log says");
  sym_assert(s.m.getResumptionStatus() == OK, "the compacted log is valid");
  s.m.closeLog();
  sym_cover("compact");
}
// file-system calls may fail
extern "C" void h_faults(long budget) {
  rt_preempt_budget = 0;
  env(10, 10);
  nextSeq = 1;
  fs_fault_budget = (int)budget;
  int64_t x = sym_i64("position");
  {
    Session s;
    if (s.code == OK) {
      begin(s, sym_choice("other", 0, 1) ? "q" : "p");
      add({CREATE, 1, 0, 10, 0}); s.m.addFileCreationEntry("a", 1, 10);
      add({BLOCK, 1, 0, 0, 5}); s.m.addBlockWriteEntry(1, 0, 5);
      if (sym_choice("invalidate", 0, 1)) { add({DIRINVAL, 0, 0, 0, 0}); s.m.invalidateDirectory(); }
      if (sym_choice("compact", 0, 1)) s.m.compactLog();
    }
    s.m.closeLog();
  }
  {
    Session s(sym_choice("otherId", 0, 1) ? "q" : "r");
    if (s.code == OK) begin(s, "p");
    s.m.closeLog();
  }
  sym_cover("faults");
  fs_fault_budget = 0;
  Session s;
  sym_assert(s.got.empty() || (s.got.size() == 1 && s.got[0].getSeqId() == 1), "only what was logged");
  for (auto& f : s.got) for (auto& c : f.getChunks()) sym_assert((c.start_ >= 0) & (c.end_ <= 5), "only what was logged");
  s.m.closeLog();
}
// several threads log while the writer flushes: nothing is lost or torn
static TransferLogManager* shared;
static void logger(void* p) { long i = (long)p; shared->addBlockWriteEntry(1, i * 2, 2); }
extern "C" void h_threads(long preempt) {
  env(10, 10);
  rt_preempt_budget = (int)preempt; rt_timeout_budget = 1;
  {
    Session s;
    begin(s, "p");
    s.m.addFileCreationEntry("a", 1, 10);
    shared = &s.m;
    int a = rt_spawn(logger, (void*)0), b = rt_spawn(logger, (void*)1);
    rt_join(a); rt_join(b);
    s.m.closeLog();
  }
  rt_timeout_budget = 0;
  Session s;
  sym_assert(s.code == OK && s.got.size() == 1 && s.got[0].getChunks().size() == 1, "every logged block is there");
  sym_assert(s.got[0].getChunks()[0].start_ == 0 && s.got[0].getChunks()[0].end_ == 4, "every logged block is there");
  s.m.closeLog();
  sym_cover("threads");
}
// two receivers: one log
extern "C" void h_lock(long) {
  env(10, 10);
  TransferLogManager a(*opts, "/d"), b(*opts, "/d/");
  sym_assert(a.openLog() == OK, "first");
  sym_assert(b.openLog() == TRANSFER_LOG_ACQUIRE_ERROR, "a log in use is not shared");
  a.closeLog();
  sym_assert(b.openLog() == OK, "free again");
  b.closeLog();
  b.unlink();
  sym_assert(!fs_find(cname), "removed");
  sym_cover("lock");
}
// any bytes
extern "C" void h_any(long arg) {
  int maxN = (int)arg & 63, pre = (int)(arg >> 8) & 3;
  rt_preempt_budget = 0;
  env(10, val("sizeB"));
  opts->disable_preallocation = sym_choice("preallocate", 0, 1) == 0;
  if (pre) {
    TransferLogManager m(*opts, "/d");
    std::vector<FileChunksInfo> got;
    m.openLog();
    m.parseAndMatch("r", 1, got);
    m.startThread();
    m.verifySenderIp("p");
    m.writeLogHeader();
    if (pre > 1) { m.addFileCreationEntry("a", 1, 10); m.addFileCreationEntry("gone", 2, 5); }
    m.closeLog();
  }
  FsNode* f = fs_find(cname);
  if (!f) f = fs_add(cname, FS_FILE, 256);
  int n = (int)sym_choice("bytes", 0, maxN);
  if (n) { char* p = symBuf(n, "log"); memcpy(f->data + f->size, p, n); }
  f->size += n;
  TransferLogManager m(*opts, "/d");
  sym_assert(m.openLog() == OK, "open");
  std::vector<FileChunksInfo> got;
  ErrorCode c = m.parseAndMatch("r", 1, got);
  sym_assert((c == OK) | (c == INVALID_LOG) | (c == INCONSISTENT_DIRECTORY), "a verdict");
  sym_assert(c == OK || got.empty(), "nothing is believed of a log that is refused");
  for (auto& g : got) {
    std::string p("/d/"); p += g.getFileName();
    sym_assert(g.getFileSize() >= 0, "size");
    for (auto& ch : g.getChunks()) sym_assert((ch.start_ >= 0) & (ch.start_ <= ch.end_) & (ch.end_ <= g.getFileSize()), "ranges lie inside the file");
  }
  m.closeLog();
  if (c == OK) sym_cover("accepted"); else sym_cover("refused");
}
// well-formed entries with any numbers in any order
static int64_t big(const char* n, long all) { int64_t v = sym_i64(n); sym_assume(v >= 0); if (!all) sym_assume((v < 64) | (v >= (1ll << 62))); return v; }
extern "C" void h_values(long arg) {
  int n = (int)arg & 15; long all = arg >> 4;
  rt_preempt_budget = 0;
  env(big("diskSize", all), 20);
  opts->disable_preallocation = sym_choice("preallocate", 0, 1) == 0;
  FsNode* f = fs_add(cname, FS_FILE, 256);
  LogEncoderDecoder ed;
  char buf[200];
  auto put = [&](int64_t len) { sym_assert(len > 0, "encoded"); memcpy(f->data + f->size, buf, len); f->size += (int64_t)wsym_conc((uint64_t)len); };
  put(ed.encodeLogHeader(buf, 200, "r", "p", 1));
  // reference: what may be believed
  bool created[2] = {false, false};
  for (int i = 0; i < n; i++) {
    int64_t seq = sym_choice("seq", 1, 2);
    switch (sym_choice("entry", 0, 4)) {
      case 0: put(ed.encodeFileCreationEntry(buf, 200, sym_choice("name", 0, 1) ? "gone" : "a", seq, big("size", all))); created[seq - 1] = true; break;
      case 1: put(ed.encodeBlockWriteEntry(buf, 200, seq, big("offset", all), big("blockSize", all))); break;
      case 2: put(ed.encodeFileResizeEntry(buf, 200, seq, big("newSize", all))); break;
      case 3: put(ed.encodeFileInvalidationEntry(buf, 200, seq)); created[seq - 1] = false; break;
      default: put(ed.encodeLogHeader(buf, 200, sym_choice("id", 0, 1) ? "q" : "r", sym_choice("ip", 0, 1) ? "" : "p", 1)); break;
    }
  }
  TransferLogManager m(*opts, "/d");
  sym_assert(m.openLog() == OK, "open");
  std::vector<FileChunksInfo> got;
  ErrorCode c = m.parseAndMatch("r", 1, got);
  sym_assert((c == OK) | (c == INVALID_LOG) | (c == INCONSISTENT_DIRECTORY), "a verdict");
  sym_assert(c == OK || got.empty(), "nothing is believed of a log that is refused");
  for (auto& g : got) {
    sym_assert(g.getSeqId() >= 1 && g.getSeqId() <= 2 && created[g.getSeqId() - 1], "files have a valid creation entry");
    sym_assert(g.getFileSize() == fs_find("/d/a")->size, "sizes are those on disk");
    for (auto& ch : g.getChunks()) sym_assert((ch.start_ >= 0) & (ch.start_ <= ch.end_) & (ch.end_ <= g.getFileSize()), "ranges lie inside the file");
    if (!g.getChunks().empty()) sym_cover("ranges");
  }
  m.closeLog();
  if (c == OK) sym_cover("accepted"); else sym_cover("refused");
}
// a sequence number may be used again after its file was dropped
extern "C" void h_reuse(long) {
  rt_preempt_budget = 0;
  int64_t sa = val("sizeA"), sb = val("sizeB"), first = val("first"), x = sym_i64("position");
  env(sa, sb);
  sym_assume((first <= sb));
  bool missing = sym_choice("missing", 0, 1);
  {
    Session s;
    begin(s, "p");
    add({CREATE, 1, 0, sa, 0}); s.m.addFileCreationEntry("a", 1, sa);
    add({BLOCK, 1, 0, 0, sa}); s.m.addBlockWriteEntry(1, 0, sa);
    if (!missing) { add({INVAL, 1, 0, 0, 0}); s.m.addFileInvalidationEntry(1); }
    s.m.closeLog();
  }
  if (missing) { fs_find("/d/a")->nlink = 0; add({INVAL, 1, 0, 0, 0}); }
  {
    Session s;
    sym_assert(s.code == OK && s.got.empty(), "dropped");
    begin(s, "p");
    add({CREATE, 1, 1, first, 0}); s.m.addFileCreationEntry("sub/b", 1, first);
    if (sym_choice("resize", 0, 1)) { add({RESIZE, 1, 1, sb, 0}); s.m.addFileResizeEntry(1, sb); }
    add({BLOCK, 1, 1, 0, first}); s.m.addBlockWriteEntry(1, 0, first);
    s.m.closeLog();
  }
  Session s;
  sym_assert(matches(replay(nEv), s.code, s.got, x), "the file that has the sequence number now counts");
  sym_cover("reuse");
  s.m.closeLog();
}
