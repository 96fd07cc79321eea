// a real Receiver against a peer whose bytes are chosen by the solver (P22)
#include "common.h"
#include "fs.h"
#include "net.h"
#include <folly/lang/Bits.h>
#include <folly/hash/Checksum.h>
#include <wdt/Receiver.h>
#include <wdt/util/ClientSocket.h>
using namespace facebook::wdt;
static const int V = 32;
static void small(WdtOptions& o) {
  o.enable_perf_stat_collection = false;
  o.progress_report_interval_millis = 0;
  o.avg_mbytes_per_sec = -1; o.max_mbytes_per_sec = -1;
  o.buffer_size = 4096;
  o.max_retries = 2; o.sleep_millis = 1;
  o.accept_timeout_millis = 100; o.max_accept_retries = 2; o.accept_window_millis = 300;
  o.read_timeout_millis = 200; o.write_timeout_millis = 200; o.connect_timeout_millis = 100; o.abort_check_interval_millis = 200;
  o.skip_fadvise = true;
  o.ipv4 = true; o.ipv6 = false;
}
static WdtOptions* gO;
struct NoAbort : IAbortChecker { bool shouldAbort() const override { return false; } };
static NoAbort gNoAbort;
struct Peer {
  ThreadCtx ctx; ClientSocket s;
  char out[16384]; int64_t n = 0;
  explicit Peer(const WdtTransferRequest& q, int port) : ctx(*gO, false), s(ctx, q.hostName, port, q.encryptionData, q.ivChangeInterval) { ctx.setAbortChecker(&gNoAbort); }
  void num(const char* name, bool wide, int lim = 128) { // one byte, or ten (any 64 bit value, or too much)
    if (wide && sym_choice("wide", 0, 1)) { for (int i = 0; i < 10; i++) { uint8_t c = sym_u8(name); out[n++] = (char)(i < 9 ? c | 0x80 : c & 0x7f); } }
    else { uint8_t c = sym_u8(name); sym_assume(c < lim); out[n++] = (char)c; }
  }
  void str(const char* t) { int l = (int)strlen(t); out[n++] = (char)l; memcpy(out + n, t, l); n += l; }
  void closeHeader(int64_t at, int d) { int16_t l = (int16_t)(n - at + d); memcpy(out + at + 2, &l, 2); }
  bool connect() { return s.connect() == OK; }
  void pad(int64_t to) { while (n < to) out[n++] = 0; }
  void settings(const Settings& st) {
    out[n++] = Protocol::SETTINGS_CMD;
    sym_assert(Protocol::encodeSettings(V, out, n, sizeof out, st), "settings fit");
  }
  int64_t file(const BlockDetails& b, int status = 0, int lenOff = 0) {
    int64_t at = n;
    out[n] = Protocol::FILE_CMD; out[n + 1] = (char)status; n += 4;
    sym_assert(Protocol::encodeHeader(V, out, n, sizeof out, b), "header fits");
    int16_t l = (int16_t)(n - at + lenOff);
    memcpy(out + at + 2, &l, 2);
    return n - at;
  }
  void footer(int32_t c) { out[n++] = Protocol::FOOTER_CMD; Protocol::encodeFooter(out, n, sizeof out, c); }
  void done(int64_t blocks, int64_t total, int status = 0) {
    int64_t at = n;
    out[n++] = Protocol::DONE_CMD; out[n++] = (char)status;
    Protocol::encodeDone(V, out, n, sizeof out, blocks, total);
    pad(at + 256);
  }
  bool send(int64_t k = -1) { if (k < 0) k = n; bool ok = k == 0 || s.write(out, (int)k) == k; n = 0; return ok; }
};
static WdtTransferRequest request(Receiver& r) { r.setWdtOptions(*gO); return r.init(); }
static Settings okSettings(const WdtTransferRequest& q) {
  Settings st; st.readTimeoutMillis = 200; st.writeTimeoutMillis = 200; st.transferId = q.transferId;
  return st;
}
// ---- blocks, of which one goes wrong
static const int MAXB = 3, BIG = 300;
static char content[MAXB][BIG]; static int64_t len_[MAXB];
static int64_t lastWritten[MAXB]; // bytes of each block that are in the file
static int K;
static BlockDetails block(int i) {
  BlockDetails b;
  b.fileName = "f"; b.seqId = 1; b.fileSize = (int64_t)K * BIG; b.offset = (int64_t)i * BIG; b.dataSize = len_[i]; b.allocationStatus = NOT_EXISTS;
  return b;
}
static int64_t putBlock(Peer& p, int i, bool sum, int wrong, int64_t skip = 0) {
  BlockDetails b = block(i);
  b.offset += skip; b.dataSize -= skip;
  int64_t h = p.file(b);
  int64_t at = p.n;
  memcpy(p.out + p.n, content[i] + skip, b.dataSize); p.n += b.dataSize;
  int32_t c = sum ? folly::crc32c((const uint8_t*)content[i] + skip, b.dataSize, 0) : 0;
  if (wrong == 1) { int32_t x = (int32_t)sym_i32("wrong checksum"); sym_assume(x != c); c = x; }
  if (wrong == 2) { uint8_t x = sym_u8("xor"); sym_assume(x != 0); int64_t k = sym_choice("which", 0, 1) ? b.dataSize - 1 : 0; p.out[at + k] = (char)(p.out[at + k] ^ x); }
  if (sum) p.footer(c);
  return h;
}
// what the next session of the receiver says it already has
static void checkLog(int kept, const bool* good) {
  WdtTransferRequest rr(0, 1, "/dst"); rr.hostName = "h"; rr.transferId = "t";
  Receiver r(rr);
  WdtTransferRequest q = request(r);
  sym_assert(q.errorCode == OK && r.transferAsync() == OK, "the next session starts");
  {
    Peer p(q, q.ports[0]);
    sym_assert(p.connect(), "connected");
    Settings st = okSettings(q); st.sendFileChunks = true;
    p.settings(st); p.pad(256);
    sym_assert(p.send(), "sent");
    static char in[4096];
    sym_assert(p.s.read(in, 1) == 1 && in[0] == Protocol::CHUNKS_CMD, "the received parts are announced");
    sym_assert(p.s.read(in, Protocol::kChunksCmdLen) == Protocol::kChunksCmdLen, "announcement");
    int64_t off = 0, bs, nf;
    sym_assert(Protocol::decodeChunksCmd(in, off, sizeof in, bs, nf), "announcement");
    sym_assert(nf >= 0 && nf <= 1, "one file");
    bool have[MAXB] = {false, false, false};
    if (nf == 1) {
      int32_t l;
      sym_assert(p.s.read((char*)&l, 4) == 4 && l > 0 && l < (int)sizeof in, "list length");
      sym_assert(p.s.read(in, l) == l, "list");
      folly::ByteRange br((uint8_t*)in, l);
      FileChunksInfo c;
      sym_assert(Protocol::decodeFileChunksInfo(br, c), "list");
      sym_assert(c.getFileName() == "f" && c.getFileSize() == (int64_t)K * BIG, "the file");
      for (auto& ch : c.getChunks()) for (int i = 0; i < K; i++) {
        int64_t a = (int64_t)i * BIG, b = a + len_[i];
        if (len_[i] && ch.start_ <= a && ch.end_ >= b) have[i] = true;
        else if (len_[i]) sym_assert(ch.end_ <= a || ch.start_ >= b, "no parts of blocks");
        sym_assert(ch.end_ <= (int64_t)K * BIG, "inside the file");
      }
    }
    for (int i = 0; i < K; i++) sym_assert(!len_[i] || have[i] == good[i], "exactly the confirmed blocks are in the log");
    in[0] = Protocol::ACK_CMD;
    p.s.write(in, 1);
    p.s.closeNoCheck();
  }
  r.finish();
  sym_cover("log checked");
}
enum { SUM = 1, ENC = 2, RESUME = 4, SIZES = 8, LEAVE = 16, EARLY = 32 };
// arg: blocks | options<<2 | first cut<<10 (0: any) | step<<20
extern "C" void h_blocks(long arg) {
  K = (int)arg & 3; int opt = (int)(arg >> 2) & 255, only = (int)(arg >> 10) & 7, step = (int)(arg >> 20) & 255;
  bool sum = opt & SUM;
  net_init();
  rt_earliest_first = true; rt_preempt_budget = 0; rt_idle_budget = 800; rt_sched_budget = 0; fs_cap = 2048;
  fs_add("/dst", FS_DIR);
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  g.encryption_type = opt & ENC ? "aes128gcm" : "none";
  g.encryption_tag_interval_bytes = 256;
  g.enable_checksum = sum;
  if (opt & RESUME) g.enable_download_resumption = true;
  for (int i = 0; i < K; i++) {
    len_[i] = opt & SIZES ? (int64_t[]){BIG, 0, 2}[sym_choice("length", 0, 2)] : BIG;
    for (int k = 0; k < BIG; k++) content[i][k] = (char)(i * 31 + k * 7 + 1);
    if (len_[i]) { wsym_bytes(content[i], 1, "first"); wsym_bytes(content[i] + len_[i] - 1, 1, "last"); }
  }
  int64_t total = 0; for (int i = 0; i < K; i++) total += len_[i];
  WdtTransferRequest rr(0, 1, "/dst"); rr.hostName = "h"; rr.transferId = "t";
  Receiver r(rr);
  WdtTransferRequest q = request(r);
  sym_assert(q.errorCode == OK && r.transferAsync() == OK, "the receiver starts");
  int bad = (int)sym_choice("bad block", 0, K), kind = 0;
  int64_t from = 0; // where the second connection goes on
  int confirmed = K; bool good[MAXB];
  bool left = false;
  int64_t skip = 0;
  {
    Peer p(q, q.ports[0]);
    sym_assert(p.connect(), "connected");
    Settings st = okSettings(q); st.enableChecksum = sum;
    p.settings(st);
    for (int i = 0; i < bad; i++) putBlock(p, i, sum, 0);
    if (bad == K) {
      p.done(K, total);
      sym_assert(p.send(), "sent");
    } else {
      kind = only ? only - 1 : sum ? (int)sym_choice("kind", 0, 2) : 0;
      if (kind == 2) sym_assume(len_[bad] > 0);
      int64_t at = p.n;
      int64_t h = putBlock(p, bad, sum, kind);
      if (kind == 0) { // cut anywhere inside the block
        int64_t c = sym_choice("cut", 0, (p.n - at - 1) / step) * step;
        p.send(at + c);
        p.s.shutdownWrites(); // what was sent still arrives
        if (!sum && !(opt & ENC)) { skip = c - h; if (skip < 0) skip = 0; }
      } else {
        for (int i = bad + 1; i < K; i++) putBlock(p, i, sum, 0);
        p.done(K, total);
        p.send();
      }
      char b[16];
      int64_t got = p.s.read(b, 1, false); // the receiver ends the connection
      sym_assert(got <= 0, "no confirmation");
      p.s.closeNoCheck();
    }
    for (int i = 0; i < K; i++) good[i] = i < bad;
    if (bad < K) {
      left = opt & LEAVE && sym_choice("leave", 0, 1);
      if (!left) {
        sym_assert(p.connect(), "connected again");
        char in[256]; int64_t cl = Protocol::getMaxLocalCheckpointLength(V), off = 0;
        sym_assert(p.s.read(in, (int)cl) == cl, "the local checkpoint comes first");
        std::vector<Checkpoint> cp;
        sym_assert(Protocol::decodeCheckpoints(V, in, off, cl, cp) && cp.size() == 1, "one checkpoint");
        sym_assert(cp[0].port == q.ports[0], "of this port");
        if (opt & ENC) { sym_assert(cp[0].numBlocks >= 0 && cp[0].numBlocks <= bad, "no more than what was intact"); for (int i = (int)cp[0].numBlocks; i < K; i++) good[i] = false; }
        else if (kind) sym_assert(cp[0].numBlocks == bad, "exactly the intact blocks");
        else { // blocks too short to be read alone wait for more bytes
          sym_assert(cp[0].numBlocks >= 0 && cp[0].numBlocks <= bad, "no more than what was intact");
          if (!(opt & SIZES) && !sum) sym_assert(cp[0].numBlocks >= bad - 1, "what arrived counts");
          for (int i = (int)cp[0].numBlocks; i < K; i++) good[i] = false;
        }
        confirmed = (int)cp[0].numBlocks;
        int64_t part = cp[0].lastBlockReceivedBytes;
        if (sum || (opt & ENC)) sym_assert(part == 0, "unverified bytes do not count");
        else if (part) {
          sym_assert(cp[0].lastBlockSeqId == 1 && cp[0].lastBlockOffset == (int64_t)confirmed * BIG, "which block");
          sym_assert(part > 0 && part <= (confirmed == bad ? skip : len_[confirmed]), "bytes that arrived");
          FsNode* f = fs_find("/dst/f");
          sym_assert(f && !memcmp(f->data + confirmed * BIG, content[confirmed], part), "bytes that were written");
          sym_cover("part of a block");
        }
        skip = part;
        p.n = 0;
        p.settings(st);
        for (int i = confirmed; i < K; i++) { putBlock(p, i, sum, 0, i == confirmed ? skip : 0); good[i] = true; }
        if (skip) good[confirmed] = false; // only its rest is in the log
        p.done(K, total);
        sym_assert(p.send(), "sent");
        sym_cover("resent");
      } else sym_cover("left");
    }
    if (!left) {
      char b[16];
      int64_t got = p.s.read(b, 1);
      sym_assert(got == 1 && b[0] == Protocol::DONE_CMD, "confirmed at the end");
      b[0] = Protocol::DONE_CMD;
      p.s.write(b, 1);
      p.s.shutdownWrites();
      if (opt & EARLY && sym_choice("leave at the end", 0, 1)) p.s.closeNoCheck();
      else { sym_assert(p.s.expectEndOfStream() == OK, "the end"); sym_assert(p.s.closeConnection() == OK, "closed"); }
    }
  }
  std::unique_ptr<TransferReport> rep = r.finish();
  ErrorCode e = rep->getSummary().getErrorCode();
  FsNode* f = fs_find("/dst/f");
  bool same = f && f->size == (int64_t)K * BIG;
  for (int i = 0; same && i < K; i++) same = !memcmp(f->data + i * BIG, content[i], len_[i]);
  if (left) sym_assert(e != OK, "an unfinished transfer has failed");
  else {
    sym_assert(same, "everything has arrived");
    sym_assert(e == OK, "the receiver reports success");
    sym_assert(rep->getSummary().getNumBlocks() == K, "number of blocks");
    sym_cover(bad == K ? "clean" : "repaired");
  }
  if (opt & RESUME && (left || opt & EARLY) && fs_find("/dst/.wdt.log")) {
    bool some = false; for (int i = 0; i < K; i++) if (good[i] && len_[i]) some = true;
    if (left && !(opt & ENC) && kind) checkLog(bad, good);
  }
}
// ---- anything
static bool outside;
static void onFs(FsOp op, FsNode* n, int, int64_t off, int64_t l, int64_t) {
  if (op == FSO_WRITE && (!n || strncmp(n->path, "/dst/", 5))) outside = true;
}
static const char* names[] = {"f", "d/g", "", "/x", "d/", "a//b", "."};
// arg: commands | options<<3 | menu<<9 (bit per kind of command)
extern "C" void h_anything(long arg) {
  int cmds = (int)arg & 7, opt = (int)(arg >> 3) & 63, menu = (int)(arg >> 9) & 255;
  net_init();
  rt_earliest_first = true; rt_preempt_budget = 0; rt_idle_budget = 800; rt_sched_budget = 0; fs_cap = 2048; fs_beyond_fails = true;
  fs_add("/dst", FS_DIR); { FsNode* f = fs_add("/dst/old", FS_FILE, 16); f->size = 8; }
  fs_hook = onFs;
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  g.encryption_type = "none";
  if (opt & RESUME) g.enable_download_resumption = true;
  if (opt & LEAVE) g.delete_extra_files = true;
  WdtTransferRequest rr(0, 1, "/dst"); rr.hostName = "h"; rr.transferId = "t";
  Receiver r(rr);
  WdtTransferRequest q = request(r);
  sym_assert(q.errorCode == OK && r.transferAsync() == OK, "the receiver starts");
  {
    Peer p(q, q.ports[0]);
    sym_assert(p.connect(), "connected");
    bool first = true;
    if (!(opt & EARLY)) { Settings st = okSettings(q); st.enableChecksum = opt & SUM; p.settings(st); }
    for (int c = 0; c < cmds; c++) {
      int k = (int)sym_choice("command", 0, 7);
      if (!(menu >> k & 1)) sym_assume(false);
      if (k == 0) { // settings
        p.out[p.n++] = Protocol::SETTINGS_CMD; p.out[p.n++] = (char)sym_choice("version", 30, 33); // (zigzag is not used here)
        p.num("read timeout", true); p.num("write timeout", true); p.str("t"); bool chunks = sym_choice("chunks", 0, 1); p.out[p.n++] = (char)(chunks * 2 + sym_choice("flags", 0, 1) * 9);
        if (chunks) p.pad(256);
      } else if (k == 1) { // a block with odd numbers
        int64_t at = p.n; p.out[p.n] = Protocol::FILE_CMD; p.out[p.n + 1] = 0; p.n += 4;
        p.str("f"); p.num("seqId", false); p.num("data size", true, 3); p.num("offset", true, 3); p.num("file size", true, 4); p.out[p.n++] = 0;
        p.closeHeader(at, 0);
      } else if (k == 2) { // a block with an odd name or kind
        BlockDetails b;
        b.fileName = names[sym_choice("name", 0, 6)]; b.seqId = 3; b.dataSize = sym_choice("data size", 0, 1); b.fileSize = 1; b.prevSeqId = 3;
        int64_t at = p.n;
        p.file(b, (int)sym_choice("status", 0, 1) * 200, (int)sym_choice("header length", -1, 1));
        if (sym_choice("change kind", 0, 1)) { uint8_t x = sym_u8("kind"); p.out[p.n - 1] = (char)x; }
        for (int i = 0; i < b.dataSize; i++) p.out[p.n++] = 'x';
      } else if (k == 3) { p.out[p.n++] = Protocol::SIZE_CMD; p.num("size", true); }
      else if (k == 4) p.footer((int32_t)sym_i32("checksum"));
      else if (k == 5) { p.pad((p.n + 255) / 256 * 256); int64_t at = p.n; p.out[p.n++] = Protocol::DONE_CMD; p.out[p.n++] = (char)sym_u8("status"); p.num("blocks", true); p.num("total", true); p.pad(at + 256); }
      else if (k == 6) { for (int i = 0; i < 3; i++) p.out[p.n++] = (char)sym_u8("raw"); }
      else { p.pad(p.n + 1); wsym_bytes(p.out + p.n - 1, 1, "any command"); p.pad(p.n + 20); }
      if (sym_choice("flush", 0, 1)) p.send();
    }
    p.pad(p.n + 256);
    p.send();
    char b[16];
    p.s.read(b, 16, false);
    p.s.closeNoCheck();
  }
  std::unique_ptr<TransferReport> rep = r.finish();
  sym_assert(!outside, "no file outside the destination is written");
  sym_assert(rep->getSummary().getErrorCode() != OK, "what was never confirmed has not succeeded");
  sym_cover("survived");
}
// arg: bytes | settings first<<4 | options<<5
extern "C" void h_raw(long arg) {
  int n = (int)arg & 15, first = (int)(arg >> 4) & 1, opt = (int)(arg >> 5);
  net_init();
  rt_earliest_first = true; rt_preempt_budget = 0; rt_idle_budget = 800; rt_sched_budget = 0; fs_cap = 2048; fs_beyond_fails = true;
  fs_add("/dst", FS_DIR);
  fs_hook = onFs;
  WdtOptions::get(); WdtOptions g; gO = &g; small(g);
  g.encryption_type = "none";
  if (opt & RESUME) g.enable_download_resumption = true;
  WdtTransferRequest rr(0, 1, "/dst"); rr.hostName = "h"; rr.transferId = "t";
  Receiver r(rr);
  WdtTransferRequest q = request(r);
  sym_assert(q.errorCode == OK && r.transferAsync() == OK, "the receiver starts");
  {
    Peer p(q, q.ports[0]);
    sym_assert(p.connect(), "connected");
    if (first) { Settings st = okSettings(q); st.enableChecksum = opt & SUM; p.settings(st); }
    wsym_bytes(p.out + p.n, n, "raw"); p.n += n;
    p.pad(sym_choice("long", 0, 1) ? p.n + 600 : 256);
    p.send();
    char b[16];
    p.s.read(b, 16, false);
    p.s.closeNoCheck();
  }
  std::unique_ptr<TransferReport> rep = r.finish();
  sym_assert(!outside, "no file outside the destination is written");
  sym_assert(rep->getSummary().getErrorCode() != OK, "what was never confirmed has not succeeded");
  sym_cover("survived");
}
