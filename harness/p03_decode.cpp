#include "common.h"
#include <wdt/Protocol.h>
using namespace facebook::wdt;
using folly::ByteRange;
// arbitrary bytes of length 0..n (arg), at offsets 0..1
static int64_t N, OFF;
static char* B;
static int V;
static void setup(long n) {
  N = sym_choice("n", 0, n);
  OFF = sym_choice("off", 0, N < 1 ? N : 1);
  B = symBuf(N, "b");
  V = (int)sym_range("version", 0, Protocol::protocol_version + 1);
}
static void after(bool ok, int64_t p) {
  sym_assert(p >= OFF && p <= N, "a decoder never reports more than was received");
  if (ok) sym_cover("accepted"); else sym_cover("refused");
}
extern "C" void h_header(long n) {
  setup(n);
  BlockDetails d; int64_t p = OFF;
  bool ok = Protocol::decodeHeader(V, B, p, N, d);
  after(ok, p);
  if (ok) {
    sym_assert(d.seqId >= 0 && d.dataSize >= 0 && d.offset >= 0 && d.fileSize >= 0 && d.prevSeqId >= 0, "decoded header numbers are not negative");
    sym_assert((int64_t)d.fileName.size() <= N, "name length within the message");
    // bytes after the message do not matter
    BlockDetails e; int64_t q = OFF;
    sym_assert(!Protocol::decodeHeader(V, B, q, p - 1, e), "a header cut by one byte is refused");
  }
  free(B);
}
extern "C" void h_checkpoints(long n) {
  setup(n);
  std::vector<Checkpoint> c; int64_t p = OFF;
  bool ok = Protocol::decodeCheckpoints(V, B, p, N, c);
  after(ok, p);
  sym_assert((int64_t)c.size() <= N, "no more checkpoints than bytes");
  for (auto& x : c) sym_assert(x.numBlocks >= 0 && x.port >= 0 && x.lastBlockReceivedBytes >= 0 && x.lastBlockOffset >= 0, "decoded checkpoint numbers are not negative");
  free(B);
}
extern "C" void h_settings(long n) {
  setup(n);
  Settings s; int64_t p = OFF; int v = 0;
  bool ok = Protocol::decodeVersion(B, p, N, v);
  after(ok, p);
  if (ok) {
    sym_assert(v >= 0, "decoded version is not negative");
    int64_t q = p;
    bool ok2 = Protocol::decodeSettings(v, B, q, N, s);
    sym_assert(q >= p && q <= N, "settings stay inside the received bytes");
    if (ok2) { sym_cover("settings"); sym_assert(s.readTimeoutMillis >= 0 && s.writeTimeoutMillis >= 0, "decoded timeouts are not negative"); }
  }
  free(B);
}
extern "C" void h_small(long n) {
  setup(n);
  int w = (int)sym_choice("msg", 0, 4);
  int64_t p = OFF, a = 0, b = 0; int32_t c = 0; ErrorCode e = OK;
  bool ok = false;
  switch (w) {
    case 0: ok = Protocol::decodeDone(V, B, p, N, a, b); if (ok) sym_assert(a >= 0 && b >= 0, "done numbers"); break;
    case 1: ok = Protocol::decodeSize(B, p, N, a); if (ok) sym_assert(a >= 0, "size number"); break;
    case 2: ok = Protocol::decodeAbort(B, p, N, c, e, a); if (ok) { sym_assert(a >= 0 && c >= 0, "abort numbers"); sym_cover("abort"); } break;
    case 3: ok = Protocol::decodeChunksCmd(B, p, N, a, b); if (ok) { sym_assert(a >= 0 && b >= 0, "chunk numbers"); sym_cover("chunks"); } break;
    case 4: ok = Protocol::decodeFooter(B, p, N, c); break;
  }
  after(ok, p);
  free(B);
}
extern "C" void h_enc(long n) {
  setup(n);
  EncryptionType t = ENC_NONE; std::string iv; int32_t tag = 0; int64_t p = OFF;
  bool ok = Protocol::decodeEncryptionSettings(B, p, N, t, iv, tag);
  after(ok, p);
  if (ok) sym_assert(tag >= 0 && (int64_t)iv.size() <= N, "encryption settings within the message");
  free(B);
}
extern "C" void h_chunklist(long n) {
  setup(n);
  std::vector<FileChunksInfo> l; int64_t p = OFF;
  bool ok = Protocol::decodeFileChunksInfoList(B, p, N, l);
  after(ok, p);
  if (ok) sym_assert(p == N, "an accepted chunk list accounts for every byte");
  for (auto& f : l) sym_assert(f.getSeqId() >= 0 && f.getFileSize() >= 0 && (int64_t)f.getChunks().size() <= N, "chunk list numbers");
  free(B);
}
