#include "common.h"
#include "fs.h"
#include <wdt/util/FileCreator.h>
#include <wdt/util/FileWriter.h>
#include <wdt/util/CommonImpl.h>
#include <fcntl.h>
#include <unistd.h>
using namespace facebook::wdt;
static WdtOptions* opts;
static TransferLogManager* logm;
static FileCreator* fc;
static void env(int threads, bool skip = false) {
  opts = new WdtOptions();
  opts->skip_fadvise = true;
  fs_cap = 64;
  logm = new TransferLogManager(*opts, "/dst");
  fc = new FileCreator("/dst", threads, *logm, skip);
  sym_assert(skip || fs_find("/dst") != nullptr, "the root directory is created");
}
// ---- concurrent blocks
static BlockDetails bd[3];
static int fdOf[3];
static bool given[2];         // file handed out to somebody
static bool changedAfter;     // sized or emptied after that
static int sized[2];
static const char* const names[2] = {"x/f", "x/g"};
static const char* const paths[2] = {"/dst/x/f", "/dst/x/g"};
static int fileOf(FsNode* n) { for (int i = 0; i < 2; i++) if (n && n == fs_find(paths[i])) return i; return -1; }
static void watch(FsOp op, FsNode* n, int, int64_t off, int64_t, int64_t ret) {
  int f = fileOf(n);
  if (f < 0) return;
  bool resize = op == FSO_TRUNC || op == FSO_ALLOC || (op == FSO_OPEN && (off & O_TRUNC));
  if (!resize) return;
  if (given[f]) changedAfter = true;
  if (op == FSO_ALLOC && ret == 0) sized[f]++;
}
static int fOf[3];
static void opener(void* p) {
  long i = (long)p;
  ThreadCtx ctx(*opts, false, (int)i);
  fdOf[i] = fc->openForBlocks(ctx, &bd[i]);
  int f = fOf[i];
  if (fdOf[i] >= 0) {
    FsNode* n = fs_find(paths[f]);
    sym_assert(n && n->size >= bd[i].fileSize, "the file has its size before anyone may write");
    given[f] = true;
  }
}
extern "C" void h_alloc(long arg) {
  int threads = (int)arg & 3, preempt = (int)(arg >> 2) & 3, faults = (int)(arg >> 4) & 3, files = 1 + ((arg >> 6) & 1);
  env(threads);
  rt_preempt_budget = preempt;
  opts->overwrite = true;
  int64_t size = sym_range("size", 1, 20), old = 0;
  int st = (int)sym_choice("status", 0, 3);
  FileAllocationStatus stt = st == 0 ? NOT_EXISTS : st == 1 ? EXISTS_TOO_LARGE : st == 2 ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE;
  if (stt != NOT_EXISTS) {
    fs_add("/dst/x", FS_DIR);
    for (int f = 0; f < files; f++) { FsNode* n = fs_add(paths[f], FS_FILE, 64); old = sym_range("old", 0, 30); n->size = old; if (stt == EXISTS_TOO_LARGE) sym_assume(old > size); else if (stt == EXISTS_TOO_SMALL) sym_assume(old < size); else sym_assume(old == size); }
  }
  for (int i = 0; i < threads; i++) {
    int f = i % files;
    fOf[i] = f;
    bd[i].fileName = names[f]; bd[i].seqId = 7 + f; bd[i].fileSize = size; bd[i].offset = i; bd[i].dataSize = 1; bd[i].allocationStatus = stt; bd[i].prevSeqId = 3;
  }
  fs_fault_budget = faults;
  fs_hook = watch;
  int t[3];
  for (int i = 0; i < threads; i++) t[i] = rt_spawn(opener, (void*)(long)i);
  for (int i = 0; i < threads; i++) rt_join(t[i]);
  bool noFault = fs_fault_budget == faults;
  fs_fault_budget = 0;
  sym_assert(!changedAfter, "a file is not resized after it was given to someone");
  int ok = 0;
  for (int i = 0; i < threads; i++) {
    if (fdOf[i] < 0) continue;
    ok++;
    sym_assert(fs_fd_open(fdOf[i]), "the descriptor is open");
    for (int k = 0; k < i; k++) sym_assert(fdOf[k] != fdOf[i], "everyone has a descriptor of its own");
    FsNode* n = fs_find(paths[fOf[i]]);
    sym_assert(n && n->size == size, "the file has the announced size");
    sym_assert(write(fdOf[i], "z", 1) == 1 && n->data[0] == 'z', "the descriptor writes to the file");
    close(fdOf[i]);
  }
  sym_assert(!noFault || ok == threads, "without failures everyone can write");
  sym_assert(fs_open_count() == 0, "no descriptor is lost");
  for (int f = 0; f < files; f++) sym_assert(sized[f] <= 1, "the file is sized once");
  if (ok == threads) sym_cover("all"); else sym_cover("failed");
  if (!noFault && ok == 0) sym_cover("all failed");
  // after a session the next one starts anew
  fc->clearAllocationMap();
}
// ---- what each instruction does to the file
static bool leafOpen(int fd) { if (fd < 0) return false; close(fd); return true; }
extern "C" void h_status(long) {
  env(1, sym_choice("skipWrites", 0, 1));
  ThreadCtx ctx(*opts, false, 0);
  opts->overwrite = sym_choice("overwrite", 0, 1);
  opts->disable_preallocation = sym_choice("noPreallocation", 0, 1);
  opts->enable_download_resumption = sym_choice("resumption", 0, 1);
  bool skip = !fs_find("/dst");
  if (skip) fs_add("/dst", FS_DIR);
  bool exists = sym_choice("exists", 0, 1);
  int64_t size = sym_range("size", 0, 20), old = sym_range("old", 0, 20), x = sym_range("x", 0, 40);
  FsNode* n = nullptr;
  unsigned char c0 = 0;
  if (exists) { n = fs_add("/dst/f", FS_FILE, 64); wsym_bytes(n->data, 24, "content"); for (int i = 0; i < 24; i++) n->data[i] = (char)wsym_ite(i < old, (uint64_t)(uint8_t)n->data[i], 0); n->size = old; }
  char before[64]; memset(before, 0, 64); if (n) memcpy(before, n->data, 64);
  int s = (int)sym_choice("status", 0, 4);
  static const FileAllocationStatus sts[5] = {NOT_EXISTS, EXISTS_CORRECT_SIZE, EXISTS_TOO_LARGE, EXISTS_TOO_SMALL, TO_BE_DELETED};
  FileAllocationStatus st = sts[s];
  if (st == EXISTS_CORRECT_SIZE) sym_assume(old == size);
  BlockDetails b; b.fileName = "f"; b.seqId = 1; b.fileSize = size; b.offset = 0; b.dataSize = size; b.allocationStatus = st;
  int fd = fc->openForBlocks(ctx, &b);
  FsNode* m = fs_find("/dst/f");
  bool pre = opts->shouldPreallocateFiles();
  if (st == TO_BE_DELETED) { sym_assert(fd < 0 && !m, "a file to be deleted is gone"); sym_cover("deleted"); return; }
  bool mayReplace = opts->overwrite || opts->enable_download_resumption;
  if (st == NOT_EXISTS) {
    if (skip) { sym_assert(fd < 0, "nothing is written when writing is off"); sym_assert((m != nullptr) == exists, "nothing is written when writing is off"); if (exists) sym_assert(m->size == old, "nothing is written when writing is off"); return; }
    if (exists && !mayReplace) { sym_assert(fd < 0, "an existing file is only replaced if allowed"); sym_assert(m == n && m->size == old, "an existing file is only replaced if allowed"); for (int i = 0; i < 24; i++) sym_assert(m->data[i] == before[i], "an existing file is only replaced if allowed"); sym_cover("kept"); return; }
    sym_assert(fd >= 0 && m, "created");
    sym_assert(m->size == (pre ? size : 0), "size of the new file");
    for (int i = 0; i < 24; i++) sym_assert(m->data[i] == 0, "nothing of an old file remains");
    sym_cover("created");
  } else {
    if (!exists) { sym_assert(fd < 0 && !m, "a file that should exist is not created"); return; }
    sym_assert(fd >= 0 && m == n, "opened");
    int64_t want = (int64_t)wsym_ite(old > size, pre ? size : (size == old ? old : 0), (uint64_t)(int64_t)wsym_ite(pre, (uint64_t)size, (uint64_t)old));
    sym_assert(m->size == want, "size of the existing file");
    unsigned char now = 0;
    for (int i = 0; i < 24; i++) sym_assert((i >= m->size) | (m->data[i] == before[i]), "the part that stays is unchanged");
    sym_cover("existing");
  }
  int64_t sz = m->size;
  close(fd);
  // a second block of the same file
  int fd2 = fc->openForBlocks(ctx, &b);
  sym_assert(fd2 >= 0 && m == fs_find("/dst/f") && m->size == sz, "the next block finds the file as it is");
  sym_assert(leafOpen(fd2), "open");
  sym_assert(fs_open_count() == 0, "no descriptor is lost");
}
// ---- directories
extern "C" void h_dirs(long faults) {
  env(1);
  ThreadCtx ctx(*opts, false, 0);
  opts->overwrite = true;
  fs_fault_budget = (int)faults;
  static const char* const nm[5] = {"a", "d/a", "d/e/a", "d/e/b", "e/a"};
  bool cached = false;
  for (int i = 0; i < 3; i++) {
    int k = (int)sym_choice("name", 0, 4);
    if (i && sym_choice("vanish", 0, 1)) { // somebody removes the directories in between
      for (int j = 0; j < fs_n; j++) if (fs_nodes[j].nlink && memcmp(fs_nodes[j].path, "/dst/", 5) == 0) fs_nodes[j].nlink = 0;
      cached = true;
    }
    BlockDetails b; b.fileName = nm[k]; b.seqId = i + 1; b.fileSize = 3; b.allocationStatus = NOT_EXISTS;
    int left = fs_fault_budget;
    int fd = fc->openForBlocks(ctx, &b);
    std::string p("/dst/"); p += nm[k];
    FsNode* n = fs_find(p.c_str());
    sym_assert(left != fs_fault_budget || fd >= 0, "directories are created as needed");
    sym_assert(fd < 0 || (n && n->type == FS_FILE && n->size == 3), "the file is created in its directory");
    if (fd >= 0) close(fd);
  }
  if (cached) sym_cover("vanished");
  sym_assert(fs_open_count() == 0, "no descriptor is lost");
  sym_cover("dirs");
}
// ---- logging of allocations: sessions in a row, the file has another size in each
extern "C" void h_logged(long sessions) {
  opts = new WdtOptions();
  opts->skip_fadvise = true; opts->enable_download_resumption = true;
  fs_cap = 400;
  fs_add("/dst", FS_DIR);
  bool pre = sym_choice("preallocate", 0, 1);
  opts->disable_preallocation = !pre;
  rt_preempt_budget = 0;
  int64_t size = -1, next = 1;
  bool there = false;
  for (int s = 0; s <= sessions; s++) {
    // the receiver: what does the log say about earlier sessions
    std::vector<FileChunksInfo> got;
    TransferLogManager m(*opts, "/dst");
    sym_assert(m.openLog() == OK && m.parseAndMatch("r", pre, got) == OK, "the log stays valid");
    if (s == 0) sym_assert(got.empty(), "nothing was there");
    else if (!there) { sym_assert(got.empty() || got[0].getChunks().empty(), "data of a file that is gone does not count"); sym_cover("gone"); }
    else sym_assert(got.size() == 1 && got[0].getFileName() == "f" && got[0].getChunks().size() == 1 && got[0].getChunks()[0].start_ == 0 && got[0].getChunks()[0].end_ == size, "all data of the last session counts");
    if (s == sessions) { m.closeLog(); sym_cover("end"); return; }
    m.startThread(); m.verifySenderIp("p"); m.writeLogHeader();
    // the sender: what to send
    int64_t now = sym_range("size", 1, 9);
    BlockDetails b; b.fileName = "f"; b.fileSize = now; b.offset = 0; b.dataSize = now;
    if (got.empty()) { b.allocationStatus = NOT_EXISTS; b.seqId = next++; }
    else if (got[0].getFileSize() > now) { b.allocationStatus = EXISTS_TOO_LARGE; b.prevSeqId = got[0].getSeqId(); b.seqId = next++; sym_cover("shrank"); }
    else { b.seqId = got[0].getSeqId(); b.offset = got[0].getChunks().empty() ? 0 : got[0].getChunks()[0].end_; b.dataSize = now - b.offset; b.allocationStatus = got[0].getFileSize() < now ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE; if (b.offset > 0 && b.offset < now) sym_cover("grew"); }
    if (got.empty() || b.allocationStatus == EXISTS_TOO_LARGE || b.dataSize > 0) {
      FileCreator c("/dst", 1, m, false);
      ThreadCtx ctx(*opts, false, 0);
      FileWriter w(ctx, &b, &c);
      sym_assert(w.open() == OK, "open");
      char buf[16]; memset(buf, 'q', 16);
      int64_t n = (int64_t)wsym_conc((uint64_t)b.dataSize);
      sym_assert(w.write(buf, n) == OK && w.sync() == OK && w.close() == OK, "write");
      m.addBlockWriteEntry(b.seqId, b.offset, b.dataSize);
      sym_assert(fs_find("/dst/f")->size == now, "the file has its new size");
    }
    size = now; there = true;
    m.closeLog();
    if (sym_choice("somebody removes the file", 0, 1)) { fs_find("/dst/f")->nlink = 0; there = false; }
  }
}
// ---- writing
static int64_t lastWriteEnd; static bool outside, synced;
static int64_t bOff, bLen;
static void watchW(FsOp op, FsNode* n, int, int64_t off, int64_t len, int64_t ret) {
  if (op == FSO_WRITE && ret > 0) { synced = false; if (off < bOff || off + ret > bOff + bLen) outside = true; }
  if (op == FSO_FSYNC && ret == 0) synced = true;
  if (op == FSO_TRUNC || op == FSO_ALLOC) {}
  if (op == FSO_SYNCRANGE && (off < bOff || off + len > bOff + bLen)) outside = true;
}
extern "C" void h_write(long arg) {
  int maxLen = (int)arg & 15, faults = (int)(arg >> 4) & 3, shorts = (int)(arg >> 6) & 3;
  env(1);
  ThreadCtx ctx(*opts, false, 0);
  opts->overwrite = true;
  opts->fsync = sym_choice("fsync", 0, 1);
  opts->skip_fadvise = sym_choice("fadvise", 0, 1);
  static const double iv[3] = {-1, 0, 0.5};
  opts->disk_sync_interval_mb = iv[sym_choice("interval", 0, 2)];
  opts->disable_preallocation = sym_choice("noPreallocation", 0, 1);
  bOff = sym_choice("offset", 0, 3); bLen = sym_choice("len", 0, maxLen);
  int64_t fsize = bOff + bLen + sym_choice("tail", 0, 1);
  FsNode* n = fs_add("/dst/f", FS_FILE, 64);
  n->size = fsize;
  wsym_bytes(n->data, (size_t)fsize, "old");
  char before[64]; memcpy(before, n->data, 64);
  BlockDetails b; b.fileName = "f"; b.seqId = 1; b.fileSize = fsize; b.offset = bOff; b.dataSize = bLen; b.allocationStatus = EXISTS_CORRECT_SIZE;
  char* data = symBuf((size_t)bLen, "data");
  fs_hook = watchW;
  fs_fault_budget = faults; fs_short_budget = shorts; fs_eintr_budget = shorts;
  FileWriter w(ctx, &b, fc);
  ErrorCode e = w.open();
  int64_t at = 0;
  bool failed = e != OK;
  if (!failed && sym_choice("empty write", 0, 1)) failed = w.write(data, 0) != OK;
  while (!failed && at < bLen) {
    int64_t k = sym_choice("split", 1, bLen - at);
    char* part = exactBuf((size_t)k); memcpy(part, data + at, (size_t)k);
    failed = w.write(part, k) != OK;
    free(part);
    if (!failed) at += k;
    sym_assert(failed || w.getTotalWritten() == at, "progress");
  }
  bool wrote = !failed;
  if (!failed) failed = w.sync() != OK;
  sym_assert(failed || !opts->fsync || bLen == 0 || synced, "success means the data was flushed");
  ErrorCode c = w.close();
  bool noFault = fs_fault_budget == faults;
  fs_fault_budget = 0;
  sym_assert(!noFault || (!failed && c == OK), "a healthy disk gives success");
  sym_assert(!outside, "only the block's range is touched");
  if (wrote) {
    for (int64_t i = 0; i < bLen; i++) sym_assert(n->data[bOff + i] == data[i], "the bytes are where they belong");
    sym_cover("written");
  } else sym_cover("failed");
  for (int64_t i = 0; i < fsize; i++) if (i < bOff || i >= bOff + bLen) sym_assert(n->data[i] == before[i], "bytes outside the block stay");
  sym_assert(n->size == fsize, "the size stays");
  sym_assert(fs_open_count() == 0, "no descriptor is lost");
}
// no writing at all when that is asked for
extern "C" void h_skip(long) {
  env(1, true);
  fs_add("/dst", FS_DIR);
  opts->skip_writes = true;
  ThreadCtx ctx(*opts, false, 0);
  BlockDetails b; b.fileName = "f"; b.seqId = 1; b.fileSize = 4; b.dataSize = 4;
  char* d = symBuf(4, "d");
  FileWriter w(ctx, &b, fc);
  sym_assert(w.open() == OK && w.write(d, 2) == OK && w.write(d, 2) == OK && w.getTotalWritten() == 4 && w.sync() == OK && w.close() == OK, "accepted");
  sym_assert(!fs_find("/dst/f"), "nothing is written");
  sym_cover("skip");
}
