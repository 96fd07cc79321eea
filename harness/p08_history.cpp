#include "queue.h"
#include <wdt/util/ThreadTransferHistory.h>
struct Blk { int64_t off0, end, off; bool failedSend; int64_t seq; };  // off: where the part not yet delivered starts
// one connection's history against the real queue, driven by arbitrary reports
extern "C" void h_history(long arg) {
  int N = (int)(arg & 15), K = (int)(arg >> 4);
  QueueEnv e;
  e.q.setBlockSizeMbytes(0);
  int64_t sz[4];
  for (int i = 0; i < N; i++) { sz[i] = sym_i64("size"); sym_assume((sz[i] >= 0) & (sz[i] < (1ll << 40))); }
  e.files(N, sz);
  e.q.buildQueueSynchronously();
  if (sym_choice("resumed", 0, 1)) { std::vector<FileChunksInfo> none; e.q.setPreviouslyReceivedChunks(none); }
  TransferStats th(true);
  ThreadTransferHistory h(e.q, th, 1000);
  Blk b[4];
  for (int i = 0; i < N; i++) b[i] = {0, sz[i], 0, false, -1};
  int hist[16]; int nh = 0;        // sent on this connection, in order
  int64_t acked = 0;               // blocks confirmed so far
  bool haveCp = false, honest = true; Checkpoint last;
  for (int k = 0; k < K; k++) {
    int op = (int)sym_choice("op", 0, 2);
    if (op == 0) {  // send the next block, completely or not
      ErrorCode st = ERROR;
      auto s = e.q.getNextSource(&e.ctx, st);
      if (!s) { sym_assert(st == OK, "queue has no error"); sym_assert(nh == N, "queue is empty only when every block was sent"); continue; }
      sym_assert(st == OK, "queue has no error");
      int i = s->getIdentifier()[1] - '0';
      sym_assert(b[i].seq < 0 || b[i].seq == s->getMetaData().seqId, "a block keeps its file number");
      b[i].seq = s->getMetaData().seqId;
      for (int j = 0; j < N; j++) sym_assert(j == i || b[j].seq < 0 || b[j].seq != b[i].seq, "file numbers are unique");
      for (int j = 0; j < nh; j++) sym_assert(hist[j] != i, "a block is handed out once");
      sym_assert(s->getOffset() == b[i].off, "block resumes at the first byte not delivered");
      sym_assert(s->getSize() == b[i].end - b[i].off, "block ends where it ended");
      bool fail = sym_choice("sendfails", 0, 1);
      TransferStats ts;
      ts.addHeaderBytes(10);
      if (fail) { ts.setLocalErrorCode(SOCKET_WRITE_ERROR); ts.incrFailedAttempts(); }
      else { ts.addDataBytes(s->getSize()); ts.incrNumBlocks(); ts.addEffectiveBytes(10, s->getSize()); }
      th += ts; s->addTransferStats(ts); s->close();
      sym_assert(h.addSource(s), "block joins the history");
      b[i].failedSend = fail;
      hist[nh++] = i;
    } else if (op == 1) {  // a report arrives
      Checkpoint c(1000);
      c.numBlocks = sym_i64("numBlocks"); c.lastBlockReceivedBytes = sym_i64("recv"); c.lastBlockSeqId = sym_i64("seq"); c.lastBlockOffset = sym_i64("offset");
      c.hasSeqId = sym_choice("hasSeq", 0, 1);
      // what can be decoded
      sym_assume((c.numBlocks >= 0) & (c.lastBlockReceivedBytes >= 0) & (c.lastBlockOffset >= 0));
      if (!c.hasSeqId) { c.lastBlockSeqId = 0; c.lastBlockOffset = 0; }
      ErrorCode r = h.setLocalCheckpoint(c);
      if (r == INVALID_CHECKPOINT) {
        sym_cover("rejected");
        // a report that could be true is not rejected: it confirms no fewer blocks
        // than before, no more than were sent, and a part of the next block
        if (c.numBlocks >= acked && c.numBlocks <= nh && c.hasSeqId && honest) {
          int64_t n = (int64_t)wsym_conc(c.numBlocks);
          bool none = c.lastBlockReceivedBytes == 0;
          bool part = false;
          if (n < nh) part = (c.lastBlockSeqId == b[hist[n]].seq) & (c.lastBlockOffset == b[hist[n]].off) & (c.lastBlockReceivedBytes <= b[hist[n]].end - b[hist[n]].off);
          sym_assert(!(none | part), "a report that can be true is accepted");
        }
        continue;
      }
      sym_assert(c.numBlocks <= nh, "reports of more blocks than were sent are rejected");
      sym_assert(c.numBlocks >= acked, "reports of fewer blocks than before are rejected");
      int64_t n = (int64_t)wsym_conc(c.numBlocks);
      if (n < nh) {  // the first unconfirmed block may resume in its middle
        int i = hist[n];
        bool match = c.hasSeqId ? (c.lastBlockSeqId == b[i].seq) & (c.lastBlockOffset == b[i].off) : true;
        match = match & (c.lastBlockReceivedBytes <= b[i].end - b[i].off);
        honest = honest & (match | (c.lastBlockReceivedBytes == 0)) & c.hasSeqId;
        b[i].off += (int64_t)wsym_ite(match, c.lastBlockReceivedBytes, 0);
        sym_cover("some sent again");
      }
      else honest = honest & (c.lastBlockReceivedBytes == 0);
      nh = (int)n; acked = n; last = c; haveCp = true;
      sym_assert(h.getNumAcked() == n, "confirmed blocks are counted");
      sym_cover("accepted");
    } else {  // end: receiver confirmed everything
      if (sym_choice("all", 0, 1)) { h.markAllAcknowledged(); acked = nh; haveCp = false; sym_assert(h.getNumAcked() == nh, "all confirmed"); break; }
      h.returnUnackedSourcesToQueue();
      nh = (int)acked;
      break;
    }
  }
  // what is left in the queue is exactly what is not (any longer) in the history
  bool inHist[4] = {false, false, false, false};
  for (int j = 0; j < nh; j++) inHist[hist[j]] = true;
  int64_t eff = 0, blocks = 0;
  for (int i = 0; i < N; i++) {
    eff += b[i].off - b[i].off0;
    if (inHist[i] && !b[i].failedSend) { eff += b[i].end - b[i].off; blocks++; }
  }
  sym_assert(th.getEffectiveDataBytes() == eff, "delivered bytes are conserved");
  sym_assert(th.getNumBlocks() == blocks, "delivered blocks are conserved");
  int left = 0;
  for (;;) {
    ErrorCode st;
    auto s = e.q.getNextSource(&e.ctx, st);
    if (!s) break;
    int i = s->getIdentifier()[1] - '0';
    sym_assert(!inHist[i], "no block is both sent and queued");
    inHist[i] = true;
    sym_assert(s->getOffset() == b[i].off && s->getSize() == b[i].end - b[i].off, "queued block has exactly the missing bytes");
    left++;
    s->close();
  }
  sym_assert(left == N - nh, "every unconfirmed block is queued again");
  (void)haveCp; (void)last;
}
