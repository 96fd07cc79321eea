#include "common.h"
#include <wdt/Protocol.h>
#include <climits>
using namespace facebook::wdt;
using folly::ByteRange;
static const int kOldest = 10;
static int symVersion() { return (int)sym_range("version", kOldest, Protocol::protocol_version); }
#define RT(x) sym_assert(x, "round trip: " #x)
extern "C" void h_header(long mode) {
  int v = symVersion();
  BlockDetails d;
  int64_t n = sym_choice("nameLen", 0, 2);
  d.fileName = symStr(n, "name");
  d.seqId = symPos("seqId", mode); d.dataSize = symPos("dataSize", mode); d.offset = symPos("offset", mode); d.fileSize = symPos("fileSize", mode);
  d.allocationStatus = (FileAllocationStatus)sym_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  d.prevSeqId = symPos("prevSeqId", mode);
  int64_t cap = 60, start = 1;
  char* buf = exactBuf(cap);
  int64_t off = start;
  bool ok = Protocol::encodeHeader(v, buf, off, cap, d);
  sym_assert(ok, "a header with short name fits");
  sym_assert(off <= cap && off - start <= Protocol::kMaxHeader - PATH_MAX + n, "header length within the declared maximum");
  BlockDetails r;
  int64_t p = start;
  sym_assert(Protocol::decodeHeader(v, buf, p, off, r), "header decodes");
  sym_assert(p == off, "header decode consumes the header");
  RT(sameStr(r.fileName, d.fileName)); RT(r.seqId == d.seqId); RT(r.dataSize == d.dataSize); RT(r.offset == d.offset); RT(r.fileSize == d.fileSize);
  if (v >= Protocol::HEADER_FLAG_AND_PREV_SEQ_ID_VERSION) {
    sym_cover("flags");
    RT(r.allocationStatus == d.allocationStatus);
    if (d.allocationStatus == EXISTS_TOO_LARGE || d.allocationStatus == EXISTS_TOO_SMALL) { sym_cover("prevSeqId"); RT(r.prevSeqId == d.prevSeqId); }
    else RT(r.prevSeqId == 0);
  } else { sym_cover("noflags"); RT(r.allocationStatus == NOT_EXISTS && r.prevSeqId == 0); }
  free(buf);
}
// the longest header a sender can produce fits the declared maximum, for any lengths of the numbers
extern "C" void h_header_max(long) {
  int v = symVersion();
  BlockDetails d;
  d.fileName.assign(PATH_MAX, 'n');
  d.seqId = symPos("seqId", 0); d.dataSize = symPos("dataSize", 0); d.offset = INT64_MAX; d.fileSize = INT64_MAX;
  d.allocationStatus = (FileAllocationStatus)sym_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  d.prevSeqId = symPos("prevSeqId", 0);
  // the sender puts the command and a two byte length in front
  int64_t cap = Protocol::kMaxHeader, off = 3;
  char* buf = exactBuf(cap);
  sym_assert(Protocol::encodeHeader(v, buf, off, cap, d), "the largest header fits the declared maximum");
  sym_assert(off - 3 <= INT16_MAX, "header length fits its 16 bit length field");
  int64_t p = 3;
  BlockDetails r;
  sym_assert(Protocol::decodeHeader(v, buf, p, off, r) && p == off, "largest header decodes");
  sym_assert(r.fileName.size() == PATH_MAX && r.seqId == d.seqId && r.dataSize == d.dataSize && r.offset == d.offset && r.fileSize == d.fileSize, "largest header round trip");
  free(buf);
}
// encoding into too small a buffer: refused, nothing outside is written
extern "C" void h_header_small(long) {
  int v = symVersion();
  BlockDetails d;
  d.fileName = "ab";
  d.seqId = symPos("seqId", 0); d.dataSize = sym_range("dataSize", 0, 127); d.offset = symPos("offset", 0); d.fileSize = sym_range("fileSize", 0, 127);
  d.allocationStatus = (FileAllocationStatus)sym_range("alloc", NOT_EXISTS, TO_BE_DELETED);
  d.prevSeqId = symPos("prev", 0);
  int64_t cap = sym_choice("cap", 0, 34), start = sym_choice("off", 0, cap < 2 ? cap : 2);
  char* buf = exactBuf(cap);
  memset(buf, 0x5a, cap);
  int64_t off = start;
  bool ok = Protocol::encodeHeader(v, buf, off, cap, d);
  sym_assert(off >= start && off <= cap, "header encode stays inside the buffer");
  if (!ok) { sym_cover("nofit"); sym_assert(cap - start < 3 + 9 * 2 + 2 + 1 + 9, "header encode fails only for lack of room"); return; }
  sym_cover("fit");
  BlockDetails r;
  int64_t p = start;
  sym_assert(Protocol::decodeHeader(v, buf, p, off, r) && p == off && r.seqId == d.seqId && r.offset == d.offset && r.dataSize == d.dataSize && r.fileSize == d.fileSize, "header in a tight buffer round trips");
  BlockDetails r2;
  p = start;
  sym_assert(!Protocol::decodeHeader(v, buf, p, off - 1, r2), "a cut header is refused");
  sym_assert(p <= off - 1, "a cut header is not overrun");
  free(buf);
}
extern "C" void h_settings(long mode) {
  int v = symVersion();
  Settings s;
  s.readTimeoutMillis = sym_i32("rt"); s.writeTimeoutMillis = sym_i32("wt");
  sym_assume(s.readTimeoutMillis >= 0); sym_assume(s.writeTimeoutMillis >= 0);
  int64_t n = sym_choice("idLen", 0, 2);
  s.transferId = symStr(n, "id");
  s.enableChecksum = sym_bool("ck"); s.sendFileChunks = sym_bool("fc"); s.blockModeDisabled = sym_bool("bm"); s.enableHeartBeat = sym_bool("hb");
  char* buf = exactBuf(40);
  int64_t off = 1;
  sym_assert(Protocol::encodeSettings(v, buf, off, 40, s), "settings fit");
  sym_assert(off - 1 <= Protocol::kMaxSettings - 1 - Protocol::kMaxTransferIdLength + n, "settings length within the declared maximum");
  int64_t p = 1;
  int rv = -1;
  sym_assert(Protocol::decodeVersion(buf, p, off, rv), "version decodes");
  RT(rv == v);
  Settings r;
  r.transferId = "zz";
  sym_assert(Protocol::decodeSettings(v, buf, p, off, r) && p == off, "settings decode");
  RT(r.readTimeoutMillis == s.readTimeoutMillis); RT(r.writeTimeoutMillis == s.writeTimeoutMillis); RT(sameStr(r.transferId, s.transferId));
  if (v >= Protocol::SETTINGS_FLAG_VERSION) {
    sym_cover("flags");
    RT(r.enableChecksum == s.enableChecksum); RT(r.sendFileChunks == s.sendFileChunks); RT(r.blockModeDisabled == s.blockModeDisabled); RT(r.enableHeartBeat == s.enableHeartBeat);
  } else { sym_cover("noflags"); RT(!r.enableChecksum && !r.sendFileChunks && !r.blockModeDisabled && !r.enableHeartBeat); }
  free(buf);
}
extern "C" void h_settings_max(long) {
  int v = symVersion();
  Settings s;
  s.readTimeoutMillis = INT32_MAX; s.writeTimeoutMillis = INT32_MAX;
  s.transferId.assign(Protocol::kMaxTransferIdLength, 'i');
  s.enableChecksum = true;
  int64_t cap = Protocol::kMaxSettings;
  char* buf = exactBuf(cap);
  int64_t off = 1;
  sym_assert(Protocol::encodeSettings(v, buf, off, cap, s), "the largest settings fit the declared maximum");
  int64_t p = 1; int rv; Settings r;
  sym_assert(Protocol::decodeVersion(buf, p, off, rv) && Protocol::decodeSettings(v, buf, p, off, r) && p == off && sameStr(r.transferId, s.transferId), "largest settings round trip");
  free(buf);
}
extern "C" void h_done_size_footer(long) {
  int v = symVersion();
  int which = (int)sym_choice("msg", 0, 2);
  char* buf = exactBuf(Protocol::kMaxDone);
  if (which == 0) {
    int64_t nb = symPosFull("blocks"), tb = symPosFull("bytes"), off = 2;
    sym_assert(Protocol::encodeDone(v, buf, off, Protocol::kMaxDone, nb, tb), "done fits its declared maximum");
    int64_t p = 2, a = -1, b = -1;
    sym_assert(Protocol::decodeDone(v, buf, p, off, a, b) && p == off, "done decodes");
    RT(a == nb);
    if (v >= Protocol::CHECKPOINT_OFFSET_VERSION) { RT(b == tb); sym_cover("bytes"); } else { RT(b == -1); sym_cover("nobytes"); }
    if (off > 3) { p = 2; sym_assert(!Protocol::decodeDone(v, buf, p, off - 1, a, b), "cut done refused"); }
  } else if (which == 1) {
    int64_t t = symPosFull("total"), off = 1, p = 1, a = -1;
    sym_assert(Protocol::encodeSize(buf, off, Protocol::kMaxSize, t), "size fits its declared maximum");
    sym_assert(Protocol::decodeSize(buf, p, off, a) && p == off && a == t, "size round trip");
    sym_cover("size");
  } else {
    int32_t c = sym_i32("checksum"), r = 0;
    int64_t off = 1, p = 1;
    sym_assert(Protocol::encodeFooter(buf, off, Protocol::kMaxFooter, c), "footer fits its declared maximum");
    sym_assert(Protocol::decodeFooter(buf, p, off, r) && p == off && r == c, "footer round trip");
    sym_cover("footer");
  }
  free(buf);
}
extern "C" void h_abort(long) {
  int32_t v = sym_i32("version"); sym_assume(v >= 0);
  ErrorCode e = (ErrorCode)sym_range("err", 0, 126);
  int64_t c = symPosFull("checkpoint");
  int64_t cap = sym_choice("cap", 0, Protocol::kAbortLength + 2), start = sym_choice("off", 0, cap < 2 ? cap : 2);
  char* buf = exactBuf(cap);
  int64_t off = start;
  bool ok = Protocol::encodeAbort(buf, off, cap, v, e, c);
  sym_assert(ok == (start + Protocol::kAbortLength <= cap), "abort is written exactly when it fits");
  if (!ok) { sym_cover("nofit"); return; }
  sym_assert(off == start + Protocol::kAbortLength, "abort has its declared length");
  int64_t p = start, rc = -1; int32_t rv = -1; ErrorCode re = OK;
  sym_assert(Protocol::decodeAbort(buf, p, off, rv, re, rc) && p == off && rv == v && re == e && rc == c, "abort round trip");
  p = start;
  sym_assert(!Protocol::decodeAbort(buf, p, off - 1, rv, re, rc), "a cut abort is refused");
  sym_cover("ok");
  free(buf);
}
static Checkpoint symCk(int v, long mode) {
  Checkpoint c(0);
  c.port = sym_i32("port"); sym_assume(c.port >= 0);
  if (mode == 0) sym_assume(c.port < 128);
  c.numBlocks = symPos("numBlocks", mode);
  c.lastBlockReceivedBytes = symPos("received", mode);
  c.lastBlockSeqId = symPos("seqId", mode);
  c.lastBlockOffset = symPos("offset", mode);
  return c;
}
static void ckRound(int v, const std::vector<Checkpoint>& cks) {
  int64_t cap = 1 + 50 * (int64_t)cks.size();
  char* buf = exactBuf(cap);
  int64_t off = 0;
  sym_assert(Protocol::encodeCheckpoints(v, buf, off, cap, cks), "checkpoints fit");
  if (cks.size() == 1) sym_assert(off <= Protocol::getMaxLocalCheckpointLength(v), "a single checkpoint is no longer than declared");
  std::vector<Checkpoint> r;
  int64_t p = 0;
  sym_assert(Protocol::decodeCheckpoints(v, buf, p, off, r), "checkpoints decode");
  sym_assert(p == off, "checkpoints decode consumes them");
  sym_assert(r.size() == cks.size(), "number of checkpoints");
  for (size_t i = 0; i < cks.size(); i++) {
    RT(r[i].port == cks[i].port && r[i].numBlocks == cks[i].numBlocks);
    if (v >= Protocol::CHECKPOINT_OFFSET_VERSION) RT(r[i].lastBlockReceivedBytes == cks[i].lastBlockReceivedBytes);
    else RT(r[i].lastBlockReceivedBytes == 0);
    if (v >= Protocol::CHECKPOINT_SEQ_ID_VERSION) { sym_cover("seqid"); RT(r[i].lastBlockSeqId == cks[i].lastBlockSeqId && r[i].lastBlockOffset == cks[i].lastBlockOffset && r[i].hasSeqId); }
    else { sym_cover("noseqid"); RT(!r[i].hasSeqId && r[i].lastBlockOffset == 0); }
  }
  std::vector<Checkpoint> r2;
  p = 0;
  if (off > 0) sym_assert(!Protocol::decodeCheckpoints(v, buf, p, off - 1, r2), "cut checkpoints are refused");
  free(buf);
}
extern "C" void h_checkpoints(long mode) {
  int v = symVersion();
  std::vector<Checkpoint> cks;
  if (sym_bool("one")) cks.push_back(symCk(v, mode));
  ckRound(v, cks);
}
extern "C" void h_checkpoints2(long) {
  int v = symVersion();
  std::vector<Checkpoint> cks;
  cks.push_back(symCk(v, 0));
  Checkpoint b(5); b.numBlocks = sym_range("nb", 0, 127); b.lastBlockReceivedBytes = 3; b.lastBlockSeqId = symPos("s2", 0); b.lastBlockOffset = 9;
  cks.push_back(b);
  ckRound(v, cks);
}
// what older receivers send for "no block": -1, ten bytes long
extern "C" void h_checkpoint_old(long) {
  int v = (int)sym_range("version", Protocol::CHECKPOINT_SEQ_ID_VERSION, Protocol::VARINT_CHANGE - 1);
  int64_t lo = sym_range("offset", 0, 127);
  char b[40]; int n = 0;
  b[n++] = 1; b[n++] = 80; b[n++] = 3; b[n++] = 0;
  for (int i = 0; i < 9; i++) b[n++] = (char)0xff;
  b[n++] = 1;
  b[n++] = (char)lo;
  std::vector<Checkpoint> r;
  int64_t p = 0;
  sym_assert(Protocol::decodeCheckpoints(v, b, p, n, r) && p == n && r.size() == 1, "old style checkpoint decodes");
  sym_assert(r[0].lastBlockSeqId == -1 && r[0].lastBlockOffset == lo && r[0].numBlocks == 3 && r[0].port == 80, "old style checkpoint means no block");
  sym_assert(!r[0].hasPartialBlockInfo(), "old style checkpoint has no partial block");
  sym_cover("old");
}
extern "C" void h_enc(long) {
  EncryptionType t = (EncryptionType)sym_range("type", 0, NUM_ENC_TYPES - 1);
  int64_t n = sym_choice("ivLen", 0, 3);
  if (n == 3) n = kAESBlockSize;
  std::string iv = symStr(n, "iv");
  int32_t tag = sym_i32("tag"); sym_assume(tag >= 0);
  char* buf = exactBuf(Protocol::kEncryptionCmdLen);
  int64_t off = 1;
  sym_assert(Protocol::encodeEncryptionSettings(buf, off, Protocol::kEncryptionCmdLen, t, iv, tag), "encryption settings fit their declared length");
  if (n == kAESBlockSize) sym_assert(off == Protocol::kEncryptionCmdLen, "encryption settings have their declared length");
  int64_t p = 1; EncryptionType rt = ENC_NONE; std::string riv; int32_t rtag = -1;
  sym_assert(Protocol::decodeEncryptionSettings(buf, p, off, rt, riv, rtag) && p == off, "encryption settings decode");
  RT(rt == t); RT(sameStr(riv, iv)); RT(rtag == tag);
  free(buf);
}
extern "C" void h_chunkscmd(long) {
  int64_t b = symPosFull("bufSize"), n = symPosFull("numFiles");
  char* buf = exactBuf(Protocol::kChunksCmdLen);
  int64_t off = 0, p = 0, rb = -1, rn = -1;
  sym_assert(Protocol::encodeChunksCmd(buf, off, Protocol::kChunksCmdLen, b, n) && off == Protocol::kChunksCmdLen, "chunks command has its declared length");
  sym_assert(Protocol::decodeChunksCmd(buf, p, off, rb, rn) && p == off && rb == b && rn == n, "chunks command round trip");
  free(buf);
}
static FileChunksInfo symFci(long mode, int nchunks, int nameLen) {
  FileChunksInfo f;
  f.setSeqId(symPos("seqId", mode)); f.setFileName(symStr(nameLen, "name")); f.setFileSize(symPos("fsize", mode));
  for (int i = 0; i < nchunks; i++) {
    int64_t a = symPos("start", mode), b = symPos("end", mode);
    sym_assume(a <= b);
    f.addChunk(Interval(a, b));
  }
  return f;
}
extern "C" void h_filechunks(long mode) {
  int nc = (int)sym_choice("chunks", 0, mode == 1 ? 1 : 2);
  FileChunksInfo f = symFci(mode, nc, (int)sym_choice("nameLen", 0, 1));
  int64_t cap = Protocol::maxEncodeLen(f);
  char* buf = exactBuf(cap);
  int64_t off = 0;
  sym_assert(Protocol::encodeFileChunksInfo(buf, off, cap, f), "a chunk list entry fits its declared maximum");
  ByteRange br((uint8_t*)buf, off);
  FileChunksInfo r;
  sym_assert(Protocol::decodeFileChunksInfo(br, r) && br.empty(), "chunk list entry decodes");
  RT(r.getSeqId() == f.getSeqId()); RT(r.getFileSize() == f.getFileSize()); RT(sameStr(r.getFileName(), f.getFileName())); RT(r.getChunks().size() == f.getChunks().size());
  for (size_t i = 0; i < f.getChunks().size(); i++) RT(r.getChunks()[i].start_ == f.getChunks()[i].start_ && r.getChunks()[i].end_ == f.getChunks()[i].end_);
  FileChunksInfo r2;
  ByteRange cut((uint8_t*)buf, off - 1);
  sym_assert(!Protocol::decodeFileChunksInfo(cut, r2), "a cut chunk list entry is refused");
  free(buf);
}
// a list of entries sent through buffers of any size: every entry that fits an empty buffer arrives, in order, once
extern "C" void h_chunklist(long) {
  std::vector<FileChunksInfo> l;
  int n = (int)sym_choice("files", 0, 3);
  for (int i = 0; i < n; i++) {
    FileChunksInfo f;
    f.setSeqId(sym_range("seqId", 0, 127)); f.setFileSize(1000); f.setFileName(std::string((size_t)sym_choice("nameLen", 1, 2) * 8, (char)('a' + i)));
    if (sym_choice("chunks", 0, 1)) f.addChunk(Interval(0, 5));
    l.push_back(std::move(f));
  }
  int64_t bufSize = sym_choice("bufSize", 34, 130);
  char* buf = exactBuf(bufSize);
  std::vector<FileChunksInfo> got;
  int64_t idx = 0;
  int rounds = 0;
  std::vector<int> fits;
  for (int i = 0; i < n; i++) if (Protocol::maxEncodeLen(l[i]) < bufSize) fits.push_back(i);
  if ((int)fits.size() < n) { sym_cover("toolarge"); return; }  // see h_chunklist_skip
  while (idx < n) {
    int64_t off = 0;
    int64_t k = Protocol::encodeFileChunksInfoList(buf, off, bufSize, idx, l);
    sym_assert(k > 0, "every buffer carries at least one entry");
    sym_assert(off <= bufSize, "chunk list stays inside the buffer");
    int64_t p = 0;
    sym_assert(Protocol::decodeFileChunksInfoList(buf, p, off, got) && p == off, "chunk list decodes");
    idx += k;
    rounds++;
  }
  if (rounds > 1) sym_cover("several buffers");
  sym_assert((int)got.size() == n, "every entry arrives once");
  for (int i = 0; i < n; i++) sym_assert(got[i] == l[i], "chunk list entries round trip in order");
  free(buf);
}
