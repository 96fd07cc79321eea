// a real Sender against a receiver whose answers are chosen by the solver (P23)
#include "common.h"
#include "fs.h"
#include "net.h"
#include <unistd.h>
#include <wdt/Sender.h>
using namespace facebook::wdt;
static const int V = 32;
static WdtOptions* gO;
static void small(WdtOptions& o) {
  o.enable_perf_stat_collection = false;
  o.progress_report_interval_millis = 0;
  o.avg_mbytes_per_sec = -1; o.max_mbytes_per_sec = -1;
  o.buffer_size = 4096;
  o.max_retries = 2; o.sleep_millis = 1; o.max_transfer_retries = 2;
  o.read_timeout_millis = 200; o.write_timeout_millis = 200; o.connect_timeout_millis = 100; o.abort_check_interval_millis = 200;
  o.drain_extra_ms = 50;
  o.skip_fadvise = true; o.full_reporting = true;
  o.ipv4 = true; o.ipv6 = false;
  o.encryption_type = "none";
  o.block_size_mbytes = 2.0 / (1024 * 1024);
}
static bool fixedSize; static int nfiles; static int64_t size_[3]; static char data_[3][8];
static void sources(int n, int max) {
  nfiles = n;
  fs_add("/src", FS_DIR);
  for (int i = 0; i < n; i++) {
    char p[8] = "/src/f0"; p[6] = (char)('0' + i);
    FsNode* f = fs_add(p, FS_FILE, max ? max : 1);
    f->size = size_[i] = fixedSize ? max : sym_choice("size", 0, max);
    wsym_bytes(data_[i], 8, "data");
    memcpy(f->data, data_[i], size_[i]);
  }
}
struct Blk { int file; int64_t off, size, seq; };
// the bytes that arrive on one connection
struct In {
  int fd = -1; char b[8192]; int64_t n = 0, at = 0;
  bool fill() { if (at) { memmove(b, b + at, n - at); n -= at; at = 0; } int64_t r = ::read(fd, b + n, sizeof b - n); if (r <= 0) return false; n += r; return true; }
  bool need(int64_t k) { while (n - at < k) if (!fill()) return false; return true; }
  // the next command, or 0 at the end of the stream
  char cmd; Blk blk; Settings set; bool sum = false; int64_t total = -1, blocks = -1; int status = 0;
  char next() {
    if (!need(1)) return 0;
    cmd = b[at];
    if (cmd == Protocol::FILE_CMD) {
      if (!need(4)) return 0;
      int16_t l; memcpy(&l, b + at + 2, 2);
      sym_assert(l > 4 && l < 200, "header length");
      if (!need(l)) return 0;
      status = b[at + 1];
      BlockDetails d; int64_t o = at + 4;
      sym_assert(Protocol::decodeHeader(V, b, o, at + l, d) && o == at + l, "header");
      at += l;
      int i = d.fileName.size() == 2 && d.fileName[0] == 'f' ? d.fileName[1] - '0' : -1;
      sym_assert(i >= 0 && i < nfiles && d.fileSize == size_[i], "a file of the source");
      sym_assert(d.offset >= 0 && d.dataSize >= 0 && d.offset + d.dataSize <= size_[i], "a part of the file");
      blk = Blk{i, d.offset, d.dataSize, d.seqId};
      if (!need(d.dataSize)) return 0;
      uint64_t x = 0;
      for (int64_t k = 0; k < d.dataSize; k++) x |= (uint8_t)(b[at + k] ^ data_[i][d.offset + k]);
      sym_assert(x == 0, "the file's bytes");
      at += d.dataSize;
      if (sum) { if (!need(1)) return 0; sym_assert(b[at] == Protocol::FOOTER_CMD, "footer"); int32_t c; int64_t o; do { o = at + 1; if (Protocol::decodeFooter(b, o, n, c)) break; } while (fill()); at = o; }
      return cmd;
    }
    while (true) {
      int64_t o = at + 1; bool ok;
      if (cmd == Protocol::SETTINGS_CMD) { int v; ok = Protocol::decodeVersion(b, o, n, v) && Protocol::decodeSettings(V, b, o, n, set); if (ok && set.sendFileChunks) { if (!need(256)) return 0; o = at + 256; } }
      else if (cmd == Protocol::SIZE_CMD) ok = Protocol::decodeSize(b, o, n, total);
      else if (cmd == Protocol::DONE_CMD) { ok = n - at >= 256; if (ok) { status = b[o++]; ok = Protocol::decodeDone(V, b, o, n, blocks, total); sym_assert(ok, "done"); o = at + 256; } }
      else { sym_assert(false, "a command of the sender"); return 0; }
      if (ok) { at = o; return cmd; }
      if (!fill()) return 0;
    }
  }
};
static bool put(int fd, const char* b, int64_t n) { return ::write(fd, b, n) == n; }
static std::vector<Blk> confirmed, conn[2]; // confirmed parts; blocks of the current connection of each port
static int count_[2];                       // blocks confirmed so far, per port
static void confirm(const Blk& b) {
  for (auto& c : confirmed) sym_assert(c.file != b.file || b.off >= c.off + c.size || c.off >= b.off + b.size, "what was confirmed is not sent again");
  confirmed.push_back(b);
}
static void fresh(const Blk& b) { for (auto& c : confirmed) sym_assert(c.file != b.file || b.size == 0 || c.size == 0 || b.off >= c.off + c.size || c.off >= b.off + b.size, "what was confirmed is not sent again"); }
static bool everything() {
  for (int i = 0; i < nfiles; i++) {
    bool zero = size_[i] != 0;
    for (auto& c : confirmed) if (c.file == i && c.size == 0) zero = true;
    if (!zero) return false;
    for (int64_t k = 0; k < size_[i]; k++) { int t = 0; for (auto& c : confirmed) if (c.file == i && c.off <= k && k < c.off + c.size) t++; if (t != 1) return false; }
  }
  return true;
}
static void checkpoint(int fd, int port, int64_t blocks, const Blk* part, int64_t bytes, bool err) {
  static char o[256]; memset(o, 0, sizeof o);
  Checkpoint c(port); c.numBlocks = blocks;
  if (part) c.setLastBlockDetails(part->seq, part->off, bytes);
  std::vector<Checkpoint> v; v.push_back(c);
  int64_t n = 0, l = Protocol::getMaxLocalCheckpointLength(V);
  if (err) { o[n++] = Protocol::ERR_CMD; n += 2; Protocol::encodeCheckpoints(V, o, n, sizeof o, v); int16_t k = (int16_t)(n - 3); memcpy(o + 1, &k, 2); put(fd, o, n); }
  else { Protocol::encodeCheckpoints(V, o, n, l, v); put(fd, o, l); }
}
enum { SUM = 1, WAITS = 2, BAD = 4, TWO = 8, PART = 16 };
static void world(int sched) {
  net_init();
  rt_earliest_first = true; rt_preempt_budget = 0; rt_idle_budget = 800; rt_sched_budget = sched; fs_cap = 1024;
}
static const int PORT = 5000;
static WdtTransferRequest request(int ports) {
  WdtTransferRequest q(PORT, ports, "/src");
  q.hostName = "h"; q.transferId = "t"; q.protocolVersion = V;
  return q;
}
// closing a port: nobody answers there any more
static void drop(int& lfd) { if (lfd >= 0) ::close(lfd); lfd = -1; }
// arg: files | max size<<2 | breaks<<6 | options<<8
extern "C" void h_honest(long arg) {
  int n = (int)arg & 3, max = (int)(arg >> 2) & 15, breaks = (int)(arg >> 6) & 3, opt = (int)(arg >> 8) & 31;
  world(0);
  sources(n, max);
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  g.enable_checksum = opt & SUM;
  int lfd = net_listen(PORT);
  Sender s(request(1)); s.setWdtOptions(g);
  sym_assert(s.transferAsync() == OK, "started");
  bool sentDone = false, invalid = false, gaveUp = false;
  int quit = 0;
  static In in;
  for (int c = 0; ; c++) {
    in.fd = net_accept(lfd, 400); in.n = in.at = 0; in.sum = opt & SUM;
    if (in.fd < 0) { gaveUp = true; break; } // it has given up
    Blk part; int64_t bytes = 0; bool more = true;
    if (c) { // what of the last connection is confirmed
      int have = (int)conn[0].size();
      int k = (int)sym_choice("confirmed", 0, have + (opt & BAD && !quit && !invalid ? 1 : 0));
      if (k > have) { // more than was ever sent
        int64_t blocks = (int64_t)wsym_sym("blocks", 62); int64_t all = 0; for (int i = 0; i < nfiles; i++) all += size_[i] / 2 + 1;
        sym_assume(blocks > all + 1);
        checkpoint(in.fd, PORT, blocks, nullptr, 0, false);
        invalid = true;
      } else {
        for (int i = 0; i < k; i++) confirm(conn[0][i]);
        count_[0] += k;
        if (opt & PART && k < have && conn[0][k].size > 0) bytes = sym_choice("part", 0, conn[0][k].size);
        if (bytes) { part = conn[0][k]; confirm(Blk{part.file, part.off, bytes, part.seq}); }
        checkpoint(in.fd, PORT, count_[0], bytes ? &part : nullptr, bytes, false);
      }
      conn[0].clear();
    }
    if (!invalid && breaks > 0 && sym_choice("break at once", 0, 1)) { breaks--; ::close(in.fd); continue; }
    bool closed = false;
    while (char k = in.next()) {
      if (k == Protocol::FILE_CMD) { fresh(in.blk); conn[0].push_back(in.blk); }
      if (k == Protocol::DONE_CMD) break;
      if (breaks > 0 && k == Protocol::FILE_CMD && sym_choice("break", 0, 1)) { breaks--; closed = true; break; }
    }
    if (invalid) { ::close(in.fd); continue; }
    if (closed || in.cmd != Protocol::DONE_CMD) { ::close(in.fd); continue; }
    if (opt & WAITS && sym_choice("wait", 0, 1)) { char w = Protocol::WAIT_CMD; put(in.fd, &w, 1); for (auto& b : conn[0]) confirm(b); count_[0] += (int)conn[0].size(); conn[0].clear(); }
    int end = (int)sym_choice("end", 0, 2); // done, gone, something else
    if (end == 1 && breaks > 0) { breaks--; ::close(in.fd); continue; }
    sym_assume(end == 0 || (end == 2 && opt & BAD && !quit));
    char d = Protocol::DONE_CMD;
    if (end == 2) { d = (char)sym_u8("answer"); sym_assume(d != Protocol::DONE_CMD); put(in.fd, &d, 1); ::close(in.fd); quit = 1; continue; }
    put(in.fd, &d, 1);
    sentDone = true;
    for (auto& b : conn[0]) confirm(b);
    count_[0] += (int)conn[0].size(); conn[0].clear();
    bool ack = in.need(1) && in.b[in.at] == Protocol::DONE_CMD;
    sym_assert(ack, "acknowledged");
    in.at++;
    sym_assert(!in.need(1), "the end of the stream");
    ::close(in.fd);
    break;
  }
  drop(lfd);
  std::unique_ptr<TransferReport> rep = s.finish();
  ErrorCode e = rep->getSummary().getErrorCode();
  if (e == OK) { sym_assert(sentDone && !invalid, "success only after the receiver's confirmation"); sym_assert(everything(), "everything was confirmed exactly once"); sym_cover("success"); }
  else sym_cover("failure");
  if (sentDone && !quit && !invalid) sym_assert(e == OK, "confirmed: success");
}

// one of two connections is lost for good: the other one takes over what was not confirmed
// arg: files | max size<<2 | options<<8
extern "C" void h_takeover(long arg) {
  int n = (int)arg & 3, max = (int)(arg >> 2) & 15, opt = (int)(arg >> 8) & 31;
  world((int)(arg >> 13) & 7);
  sources(n, max);
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  int lfd[2] = {net_listen(PORT), net_listen(PORT + 1)};
  Sender s(request(2)); s.setWdtOptions(g);
  sym_assert(s.transferAsync() == OK, "started");
  static In in[2];
  int lost = (int)sym_choice("lost", 0, 1), kept = 1 - lost;
  for (int i = 0; i < 2; i++) { in[i].fd = net_accept(lfd[i], 400); sym_assert(in[i].fd >= 0, "both connect"); }
  int64_t upto = sym_choice("blocks", 0, 2);
  while (true) { // what arrives on the connection that will break
    char k = in[lost].next();
    if (k == Protocol::FILE_CMD) { conn[lost].push_back(in[lost].blk); if ((int64_t)conn[lost].size() > upto) break; }
    if (k == 0 || k == Protocol::DONE_CMD) break;
  }
  drop(lfd[lost]);
  ::close(in[lost].fd);
  int have = (int)conn[lost].size();
  int k = (int)sym_choice("confirmed", 0, have);
  for (int i = 0; i < k; i++) confirm(conn[lost][i]);
  int64_t bytes = 0;
  if (opt & PART && k < have && conn[lost][k].size) bytes = sym_choice("part", 0, conn[lost][k].size);
  if (bytes) { const Blk& p = conn[lost][k]; confirm(Blk{p.file, p.off, bytes, p.seq}); }
  bool told = false, sentDone = false;
  while (true) {
    char c = in[kept].next();
    if (c == 0) break;
    if (c == Protocol::FILE_CMD) { fresh(in[kept].blk); confirm(in[kept].blk); }
    if (c != Protocol::DONE_CMD) continue;
    if (!told) { checkpoint(in[kept].fd, PORT + lost, k, bytes ? &conn[lost][k] : nullptr, bytes, true); told = true; continue; }
    char d = Protocol::DONE_CMD;
    put(in[kept].fd, &d, 1);
    sentDone = true;
    sym_assert(in[kept].need(1) && in[kept].b[in[kept].at] == Protocol::DONE_CMD, "acknowledged");
    ::close(in[kept].fd);
    break;
  }
  drop(lfd[kept]);
  std::unique_ptr<TransferReport> rep = s.finish();
  ErrorCode e = rep->getSummary().getErrorCode();
  sym_assert(sentDone, "the other connection goes on to the end");
  sym_assert(everything(), "everything was confirmed exactly once");
  sym_assert(e == OK, "the transfer succeeds on one connection");
  if (have > k) sym_cover("taken over");
  sym_cover("success");
}
static void num(std::string& o, const char* name, bool wide) {
  if (wide) for (int i = 0; i < 10; i++) { uint8_t c = sym_u8(name); o.push_back((char)(i < 9 ? c | 0x80 : c & 0x7f)); }
  else { uint8_t c = sym_u8(name); sym_assume(c < 128); o.push_back((char)c); }
}
static void raw(std::string& o, const char* name, int n) { for (int i = 0; i < n; i++) o.push_back((char)sym_u8(name)); }
static void checkpoints(std::string& o, bool wide, int entries, int port) {
  o.push_back((char)entries);
  int w = wide && entries ? (int)sym_choice("long number", 0, 3) : 0; // which one may be any number; the others are below 128
  for (int i = 0; i < entries; i++) { if (port) { o.push_back((char)(0x80 | (port & 0x7f))); o.push_back((char)(port >> 7)); } else num(o, "port", false); num(o, "blocks", w == 1); num(o, "bytes", w == 2); num(o, "sequence id", false); num(o, "offset", w == 3); }
}
static void fixed(std::string& o, int64_t v, int n) { o.append((char*)&v, n); }
// arg: answers | first kind<<3 (0: any of the menu) | options<<7 | menu<<12
extern "C" void h_answers(long arg) {
  int answers = (int)arg & 7, opt = (int)(arg >> 7) & 31, menu = (int)(arg >> 12) & 1023;
  bool resume = opt & 1, two = opt & 2, again = opt & 4;
  world(0);
  fixedSize = true;
  sources(1, 3);
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  if (resume) g.enable_download_resumption = true;
  if (opt & 8) g.enable_heart_beat = true;
  int lfd = net_listen(PORT), lfd2 = two ? net_listen(PORT + 1) : -1;
  WdtTransferRequest q = request(two ? 2 : 1);
  if (resume) q.downloadResumptionEnabled = true;
  Sender s(q); s.setWdtOptions(g);
  bool done = false;
  sym_assert(s.transferAsync() == OK, "started");
  static In in[2];
  for (int c = 0; c < 2; c++) {
    in[0].fd = net_accept(lfd, 400);
    if (two && !c) in[1].fd = net_accept(lfd2, 400);
    if (in[0].fd < 0) break;
    std::string o;
    if (c && !again) { static char z[256]; memset(z, 0, sizeof z); std::vector<Checkpoint> v; v.emplace_back(PORT); int64_t m = 0, l = Protocol::getMaxLocalCheckpointLength(V); Protocol::encodeCheckpoints(V, z, m, l, v); o.append(z, l); }
    for (int a = 0; a < answers; a++) {
      int k = (int)sym_choice("answer", 0, 9);
      if (!(menu >> k & 1)) sym_assume(false);
      if (k == 0) { o.push_back(Protocol::DONE_CMD); done = true; }
      else if (k == 1) o.push_back(Protocol::WAIT_CMD);
      else if (k == 2) { // a list of checkpoints, with the right length or any
        o.push_back(Protocol::ERR_CMD); size_t at = o.size(); o.append(2, 0);
        checkpoints(o, true, 1, sym_choice("port", 0, 1) ? PORT + 1 : 0);
        int16_t l = (int16_t)(o.size() - at - 2); static const int16_t wrong[] = {0, 1, -1, 0x7fff, -0x8000};
        int h = (int)sym_choice("length", 0, 7);
        l = h == 0 ? l : h == 1 ? (int16_t)(l - 1) : h == 2 ? (int16_t)(l + 1) : wrong[h - 3];
        memcpy(&o[at], &l, 2);
      } else if (k == 3) { // abort
        o.push_back(Protocol::ABORT_CMD); fixed(o, sym_choice("version", 0, 2) == 0 ? 0 : 20 + sym_choice("v", 0, 13), 4); raw(o, "error", 1); raw(o, "checkpoint", 8);
      } else if (k == 4) { // the received chunks
        o.push_back(Protocol::CHUNKS_CMD);
        static const int64_t sizes[] = {64, 0, -1, 12, 1ll << 40, INT64_MAX, INT64_MIN};
        int odd = (int)sym_choice("odd", 0, 3); // which part is not as usual
        fixed(o, odd == 1 ? sizes[sym_choice("buffer", 1, 6)] : 64, 8);
        if (odd == 2) raw(o, "number", 8); else fixed(o, 1, 8);
        size_t at = o.size(); fixed(o, 0, 4);
        std::string l; l.push_back(2); l += "f0"; num(l, "sequence id", false); int w = (int)sym_choice("long number", 0, 3); num(l, "size", w == 1); l.push_back(1); num(l, "start", w == 2); num(l, "end", w == 3);
        o += l;
        int len = odd == 3 ? (int)sym_choice("list length", 1, 6) : 0; int32_t v = len == 0 ? (int32_t)l.size() : len == 1 ? 0 : len == 2 ? -1 : len == 3 ? 65 : len == 4 ? 0x7fffffff : len == 5 ? (int32_t)l.size() - 1 : (int32_t)l.size() + 1;
        memcpy(&o[at], &v, 4);
      } else if (k == 5) { size_t at = o.size(); checkpoints(o, true, (int)sym_choice("entries", 0, 2), sym_choice("port", 0, 1) ? PORT : 0); while (o.size() < at + Protocol::getMaxLocalCheckpointLength(V)) o.push_back(0); }
      else if (k == 6) o.push_back(Protocol::HEART_BEAT_CMD);
      else if (k == 7) o.push_back(Protocol::ACK_CMD);
      else if (k == 8) { size_t at = o.size(); raw(o, "raw", 3); sym_assume(o[at] != Protocol::ERR_CMD); done = true; } // (k == 2 has the lists)
      else o.append(300, 0);
    }
    if (!o.empty()) put(in[0].fd, o.data(), (int64_t)o.size());
    if (two && !c && !o.empty()) put(in[1].fd, o.data(), (int64_t)o.size());
    if (!(opt & 16) || sym_choice("end", 0, 1)) { char x[512]; while (::read(in[0].fd, x, sizeof x) > 0) {} }
    ::close(in[0].fd);
    if (two && !c) { char x[512]; while (::read(in[1].fd, x, sizeof x) > 0) {} ::close(in[1].fd); }
  }
  drop(lfd); drop(lfd2);
  std::unique_ptr<TransferReport> rep = s.finish();
  ErrorCode e = rep->getSummary().getErrorCode();
  if (e == OK) { sym_assert(done, "success only after the receiver's confirmation"); sym_cover("success"); }
  else sym_cover("failure");
}
