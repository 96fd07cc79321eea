// whole transfers: a real Sender and a real Receiver over the modelled network and file system (P26)
#include "common.h"
#include "fs.h"
#include "net.h"
#include <wdt/Receiver.h>
#include <wdt/Sender.h>
using namespace facebook::wdt;
static void small(WdtOptions& o) {
  o.enable_perf_stat_collection = false;
  o.progress_report_interval_millis = 0;
  o.avg_mbytes_per_sec = -1; o.max_mbytes_per_sec = -1;
  o.buffer_size = 4096 * 4;
  o.max_retries = 2; o.sleep_millis = 1; o.max_transfer_retries = 2;
  o.accept_timeout_millis = 100; o.max_accept_retries = 2; o.accept_window_millis = 300;
  o.read_timeout_millis = 200; o.write_timeout_millis = 200; o.connect_timeout_millis = 100; o.abort_check_interval_millis = 200;
  o.drain_extra_ms = 50;
  o.skip_fadvise = true;
  o.full_reporting = true;
  o.ipv4 = true; o.ipv6 = false;
}
static int64_t size_[3];
static char* data_[3];
static int nfiles;
static int longName; static bool big;
static std::string path(const char* dir, int i) { std::string s(dir); s += "/f"; s.append(longName, 'x'); s.push_back((char)('0' + i)); return s; }
static void sources(int n, int max) {
  nfiles = n;
  fs_add("/src", FS_DIR); fs_add("/dst", FS_DIR);
  for (int i = 0; i < n; i++) {
    int64_t base = big ? 8192 - max / 2 : 0, most = base + max;
    FsNode* f = fs_add(path("/src", i).c_str(), FS_FILE, most ? most : 1);
    f->size = size_[i] = base + sym_choice("size", 0, max);
    data_[i] = (char*)malloc(most + 1);
    int64_t known = big ? size_[i] - 4 : 0;
    for (int64_t k = 0; k < known; k++) data_[i][k] = (char)(k * 7 + i + k / 256);
    wsym_bytes(data_[i] + known, size_[i] - known, "data");
    memcpy(f->data, data_[i], size_[i]);
  }
}
static bool arrived(int i) {
  FsNode* f = fs_find(path("/dst", i).c_str());
  if (!f || f->type != FS_FILE || f->size != size_[i]) return false;
  uint64_t d = 0;
  for (int64_t k = 0; k < size_[i]; k++) d |= (uint8_t)(f->data[k] ^ data_[i][k]);
  return d == 0;
}

// the checksum or tag must catch what happens to file data on the wire
static int64_t lastRead; static bool flipped; static int flips;
// how often each byte has been written in this session
static bool once; static int times[3][16];
static void onFs(FsOp op, FsNode* n, int, int64_t off, int64_t, int64_t r) {
  if (once && op == FSO_WRITE && n && r > 0) for (int i = 0; i < nfiles; i++) if (path("/dst", i) == n->path)
    for (int64_t k = off; k < off + r; k++) { sym_assert(k < 16 && !times[i][k], "what was received and confirmed is not sent again"); times[i][k]++; }
  if (op == FSO_READ && n && n->path[1] == 's') lastRead = r > 0 ? r : 0;
}
static void onWire(int, int side, char* d, int64_t n) {
  if (side || !lastRead || n != lastRead) return;
  lastRead = 0;
  if (flips <= 0 || !sym_choice("flip", 0, 1)) return;
  flips--; flipped = true;
  int64_t at = sym_range("at", 0, n - 1); uint8_t x = sym_u8("xor");
  sym_assume(x != 0);
  for (int64_t i = 0; i < n; i++) d[i] = (char)wsym_ite((uint64_t)(i == at), (uint8_t)(d[i] ^ x), (uint8_t)d[i]);
}
enum { PLAIN = 1, CHECKSUM = 2, NOBLOCKS = 4, RESUME = 8, TWOPHASE = 16, DELETE = 32, TINY = 64, FLIP = 128, CRASH = 256, GCM = 512, OLDPEER = 1024, EXISTING = 2048, DIRTREE = 4096, REFUSE = 8192, NOALLOC = 16384, CHANGE = 32768, KEEPLOG = 65536, SPLIT = 1 << 17, LONGNAME = 1 << 18, BIG = 1 << 19, LONGID = 1 << 20 };
static WdtOptions* gO;
static int gPorts, gOpt;
static ErrorCode gS, gR;
static bool session(int nf, int ff) {
  memset(times, 0, sizeof times);
  WdtTransferRequest rr(0, gPorts, "/dst");
  rr.hostName = "h";
  if (gOpt & LONGID) rr.transferId = std::string(300, 'i');
  if (gOpt & OLDPEER) rr.protocolVersion = (int)sym_choice("receiver version", 21, Protocol::protocol_version);
  Receiver r(rr); r.setWdtOptions(*gO);
  const WdtTransferRequest& q = r.init();
  if (q.errorCode != OK) return false;
  if (r.transferAsync() != OK) return false;
  WdtTransferRequest sr = q;
  sr.directory = "/src";
  if (gOpt & OLDPEER) sr.protocolVersion = Protocol::protocol_version;
  Sender s(sr); s.setWdtOptions(*gO);
  net_fault_budget = nf; fs_fault_budget = ff;
  if (s.transferAsync() != OK) { sym_assert(s.finish()->getSummary().getErrorCode() != OK, "a transfer that could not start has failed"); gS = ERROR; }
  else gS = s.finish()->getSummary().getErrorCode();
  gR = r.finish()->getSummary().getErrorCode();
  net_fault_budget = fs_fault_budget = 0;
  return true;
}
// arg: files | max size<<2 | connection faults<<6 | kinds<<8 | file-system faults<<11 | preemptions<<13 | ports<<15 | scheduling choices+1 (0: all)<<17 | options<<20
extern "C" void h_transfer(long arg) {
  int n = (int)arg & 3, max = (int)(arg >> 2) & 15, nf = (int)(arg >> 6) & 3, ff = (int)(arg >> 11) & 3, pre = (int)(arg >> 13) & 3, ports = (int)(arg >> 15) & 3, sched = (int)(arg >> 17) & 7, ob = (int)(arg >> 20) & 0xffffff;
  gPorts = ports ? ports : 1; gOpt = ob;
  if (ob & LONGNAME) longName = 250;
  net_init();
  if (ob & BIG) { big = true; net_sndbuf = 3000; net_chunk = 2500; }
  rt_earliest_first = true; rt_preempt_budget = 0; rt_idle_budget = 800; fs_cap = big ? 12288 : 1024;
  if (sched) rt_sched_budget = sched - 1;
  sources(n, max);
  WdtOptions::get(); WdtOptions g; gO = &g;
  small(g);
  g.num_ports = gPorts;
  if (ob & PLAIN) g.encryption_type = "none";
  if (ob & GCM) g.encryption_type = "aes128gcm";
  if (ob & CHECKSUM) g.enable_checksum = true;
  if (ob & NOBLOCKS) g.block_size_mbytes = -1;
  if (ob & RESUME) g.enable_download_resumption = true;
  if (ob & TWOPHASE) g.two_phases = true;
  if (ob & DELETE) { g.delete_extra_files = true; FsNode* x = fs_add("/dst/old", FS_FILE, 4); x->size = 3; fs_add("/dst/d", FS_DIR); x = fs_add("/dst/d/old", FS_FILE, 4); x->size = 1; }
  if (ob & TINY) g.block_size_mbytes = 2.0 / (1024 * 1024);
  if (ob & BIG) { g.buffer_size = 4096; if (!(ob & NOBLOCKS)) g.block_size_mbytes = 5000.0 / (1024 * 1024); }
  if (ob & OLDPEER) g.encryption_type = "none";
  if (ob & NOALLOC) g.disable_preallocation = true;
  if (ob & DIRTREE) { g.resume_using_dir_tree = true; g.disable_preallocation = true; g.block_size_mbytes = -1; }
  if (ob & KEEPLOG) g.keep_transfer_log = true;
  if (ob & EXISTING) { g.overwrite = true; FsNode* x = fs_add("/dst/f0", FS_FILE, 4); x->size = sym_choice("old size", 0, 4); wsym_bytes(x->data, x->size, "old data"); }
  if (ob & FLIP) { flips = 1; net_write_hook = onWire; }
  fs_hook = onFs; once = gPorts == 1 && !ff && !(ob & (CHECKSUM | GCM | BIG)) && (ob & (PLAIN | OLDPEER | CHECKSUM)); 
  if (ob & SPLIT) net_split_budget = 1;
  if (ob & REFUSE) net_refuse_budget = 1;
  net_kinds = (int)(arg >> 8) & 7;
  rt_preempt_budget = pre; rt_timeout_budget = (int)(arg >> 44) & 3;
  bool two = ob & (RESUME | CRASH), clean = !nf && !ff && !(ob & (FLIP | REFUSE));
  if (two) {
    if (ob & CRASH) fs_crash_budget = 1;
    bool up = session(nf, ff);
    fs_crash_budget = 0;
    bool dead = fs_dead;
    if (!dead) {
      bool same = true;
      for (int i = 0; i < n; i++) same &= arrived(i);
      if (up && gS == OK) { sym_assert(same, "the sender reports success: every file has arrived"); sym_cover("first succeeded"); }
      if (up && gR == OK) sym_assert(same, "the receiver reports success: every file has arrived");
    }
    if (dead) sym_cover("crashed");
    fs_restart();
    nf = ff = 0; clean = true; net_refuse_budget = 0; flips = 0; net_what = "";
    if (ob & CHANGE) for (int i = 0; i < n; i++) { // truncated or appended to in between
      FsNode* f = fs_find(path("/src", i).c_str());
      int64_t s = sym_choice("new size", 0, max), old = size_[i];
      if (s > old) { wsym_bytes(data_[i] + old, s - old, "appended"); memcpy(f->data + old, data_[i] + old, s - old); }
      f->size = size_[i] = s;
    }
  }
  bool up = session(nf, ff);
  bool same = true;
  for (int i = 0; i < n; i++) same &= arrived(i);
  if (clean) sym_assert(up, "the receiver starts");
  if (!up) return;
  if (gS == OK) { sym_assert(same, "the sender reports success: every file has arrived"); sym_cover("success"); }
  else sym_cover("failure");
  if (gR == OK) { sym_assert(same, "the receiver reports success: every file has arrived"); sym_cover("receiver success"); }
  if (clean) sym_assert(gS == OK && gR == OK, "without faults the transfer succeeds");
  if (net_what[0]) sym_cover(net_what);
  if (gS == OK && nf && net_what[0]) sym_cover("recovered");
  if (flipped) sym_cover(gS == OK ? "flip repaired" : "flip reported");
  if (ob & DELETE && ob & DIRTREE && gS == OK && gR == OK) sym_assert(!fs_find("/dst/old") && !fs_find("/dst/d/old"), "files that are not at the source are gone");
}
