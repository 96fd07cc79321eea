#include "common.h"
#include "fs.h"
#include <wdt/util/FileByteSource.h>
#include <wdt/util/CommonImpl.h>
#include <fcntl.h>
using namespace facebook::wdt;
static WdtOptions* opts;
static int64_t rdPos, rdGot, rdLen; static int reads;
static bool advised, outside; static int64_t bOff, bLen;
static void watch(FsOp op, FsNode*, int, int64_t off, int64_t len, int64_t ret) {
  if (op == FSO_READ) { rdPos = off; rdGot = ret; rdLen = len; reads++; }
  if (op == FSO_FADVISE) advised = true;
}
// Reading blocks of files of any size (contents not modelled: where in the
// file the returned bytes come from is derived from what was read where).
extern "C" void h_read(long arg) {
  int direct = (int)arg & 1, maxReads = (int)(arg >> 1) & 7, faults = (int)(arg >> 4) & 1, shorts = (int)(arg >> 5) & 3, given = (int)(arg >> 7) & 1, change = (int)(arg >> 8) & 1;
  opts = new WdtOptions();
  static const int32_t sizes[4] = {4096, 8192, 65536, 262144};
  opts->buffer_size = sizes[(arg >> 9) & 3];
  opts->skip_fadvise = (arg >> 11) & 1;
  const unsigned BITS = (arg >> 12) & 1 ? 20 : 15;
  ThreadCtx ctx(*opts, true, 0);
  FsNode* n = fs_add("/src/f", FS_FILE, 0);
  fs_add("/src", FS_DIR);
  n->cap = -1;
  int64_t fsize = (int64_t)wsym_sym("fileSize", BITS);
  n->size = fsize;
  SourceMetaData md;
  md.fullPath = "/src/f"; md.relPath = "f"; md.size = fsize; md.directReads = direct; md.fd = -1; md.allocationStatus = NOT_EXISTS;
  if (given) md.fd = open("/src/f", O_RDONLY);
  int64_t off = (int64_t)wsym_sym("offset", BITS), len = (int64_t)wsym_sym("size", BITS);
  sym_assume(off + len <= fsize);
  FileByteSource* src = new FileByteSource(&md, len, off);
  // a part of the block may have been received already
  if (sym_choice("resumed", 0, 1)) {
    int64_t k = (int64_t)wsym_sym("advance", BITS);
    sym_assume(k <= len);
    src->advanceOffset(k);
    off += k; len -= k;
    sym_cover("resumed");
  }
  sym_assert(src->getOffset() == off && src->getSize() == len, "what is to be read");
  fs_hook = watch;
  fs_fault_budget = faults; fs_short_budget = shorts;
  bool changed = false;
  int rounds = 1 + (int)((arg >> 13) & 1); // the same block may be opened again
  for (int round = 0; round < rounds; round++) {
    int64_t got = 0;
    bool failed = src->open(&ctx) != OK;
    sym_assert(!failed || fs_fault_budget < faults, "opening works");
    if (failed) { sym_assert(src->hasError() && !src->finished() && src->getTransferStats().getLocalErrorCode() != OK, "an error is an error"); continue; }
    for (int i = 0; i < maxReads; i++) {
      if (src->finished()) break;
      sym_assert(!src->hasError(), "no error yet");
      if (change && sym_choice("change", 0, 1)) { n->size = (int64_t)wsym_sym("newSize", BITS); changed = true; }
      int64_t size = -1;
      char* base = ctx.getBuffer()->getData();
      int left = fs_fault_budget;
      int before = reads;
      char* p = src->read(size);
      if (reads != before) { int64_t room = opts->buffer_size - (fs_read_buf - base); sym_assert((fs_read_buf >= base) & (rdLen <= room), "the buffer is large enough"); }
      if (!p || src->hasError()) {
        sym_assert(src->hasError() && !src->finished(), "a failed read is an error");
        sym_assert(changed || left != fs_fault_budget || (direct && shorts && rdGot <= 4096), "reading what is there works");
        failed = true;
        sym_cover("failed");
        break;
      }
      sym_assert(size > 0, "progress");
      int64_t at = p - fs_read_buf; // in what was read
      sym_assert((at >= 0) & (size <= rdGot - at), "only bytes that were read");
      sym_assert(rdPos + at == off + got, "the right bytes");
      got += size;
      sym_assert(got <= len, "not more than the block");
      sym_assert(src->finished() == (got == len), "finished when all was read");
    }
    if (!failed && src->finished()) { sym_assert(got == len, "all was read"); sym_cover("finished"); }
    src->close();
  }
  if (given) sym_assert(fs_fd_open(md.fd), "a descriptor that was given stays open"), close(md.fd);
  int before = fs_open_count();
  delete src;
  sym_assert(fs_open_count() == before && before == 0, "no descriptor is lost");
}
// small files with contents: the bytes themselves
extern "C" void h_bytes(long arg) {
  int maxLen = (int)arg & 15, shorts = (int)(arg >> 4) & 3;
  opts = new WdtOptions();
  opts->buffer_size = 4096;
  ThreadCtx ctx(*opts, true, 0);
  FsNode* n = fs_add("/src/f", FS_FILE, 32);
  fs_add("/src", FS_DIR);
  int64_t off = sym_choice("offset", 0, 2), len = sym_choice("size", 0, maxLen), adv = sym_choice("advance", 0, len);
  n->size = off + len + sym_choice("tail", 0, 1);
  wsym_bytes(n->data, (size_t)n->size, "content");
  SourceMetaData md;
  md.fullPath = "/src/f"; md.relPath = "f"; md.size = n->size; md.directReads = false; md.fd = -1; md.allocationStatus = NOT_EXISTS;
  FileByteSource src(&md, len, off);
  src.advanceOffset(adv);
  fs_short_budget = shorts;
  sym_assert(src.open(&ctx) == OK, "open");
  int64_t got = 0;
  while (!src.finished()) {
    int64_t size = 0;
    char* p = src.read(size);
    sym_assert(p && !src.hasError() && size > 0 && got + size <= len - adv, "progress");
    for (int64_t i = 0; i < size; i++) sym_assert(p[i] == n->data[off + adv + got + i], "the right bytes");
    got += size;
  }
  sym_assert(got == len - adv, "all bytes");
  int64_t more = 7;
  sym_assert(src.read(more) == nullptr && more == 0, "nothing after the end");
  src.close();
  sym_assert(fs_open_count() == 0, "no descriptor is lost");
  sym_cover("read");
}
// a file to be deleted is not opened at all
extern "C" void h_deleted(long) {
  opts = new WdtOptions();
  ThreadCtx ctx(*opts, false, 0);
  SourceMetaData md;
  md.relPath = "gone"; md.fullPath = "/src/gone"; md.size = 0; md.fd = -1; md.directReads = sym_choice("direct", 0, 1); md.allocationStatus = TO_BE_DELETED;
  FileByteSource src(&md, 0, 0);
  sym_assert(src.open(&ctx) == OK && !src.hasError() && src.finished(), "nothing to read");
  src.close();
  sym_cover("deleted");
}
