// threads taking blocks from one queue while it is being filled (P07)
#include "queue.h"
#include <deque>
static QueueEnv* E_; static int T, F, nfail;
static int64_t sz[4];
static int handed[4], returned[4], failedOpen[4]; static int owner[4];
static bool discovered;
struct Arg { int id; bool giveBack; };
static bool ended[4]; static ErrorCode endStatus[4];
static void discover(void*) { discovered = E_->q.buildQueueSynchronously(); }
static void taker(void* a) {
  Arg* arg = (Arg*)a;
  ThreadCtx ctx(E_->opts, false, arg->id);
  ctx.setAbortChecker(&gAbort);
  bool gave = false;
  while (true) {
    ErrorCode st = ABORT;
    auto s = E_->q.getNextSource(&ctx, st);
    if (!s) {
      sym_assert(st == OK || st == ERROR, "a status");
      sym_assert(E_->q.fileDiscoveryFinished(), "no more work only after discovery has ended");
      endStatus[arg->id] = st;
      break;
    }
    int i = s->getIdentifier()[1] - '0';
    sym_assert(owner[i] == -1, "a block has one owner");
    owner[i] = arg->id; handed[i]++;
    sym_assert(handed[i] == returned[i] + 1, "a block is handed out once, and once more for every return");
    sym_assert(s->getSize() == sz[i], "the block");
    rt_yield();
    if (arg->giveBack && !gave) {
      gave = true;
      TransferStats ts; ts.incrFailedAttempts(); ts.setLocalErrorCode(SOCKET_WRITE_ERROR);
      s->addTransferStats(ts);
      s->close();
      owner[i] = -1; returned[i]++;
      E_->q.returnToQueue(s);
    } else s->close();
  }
  ended[arg->id] = true;
}
extern "C" void h_handout(long arg) {
  T = (int)arg & 3; F = (int)(arg >> 2) & 3;
  int pre = (int)(arg >> 4) & 3, give = (int)(arg >> 6) & 1, miss = (int)(arg >> 7) & 1, clients = (int)(arg >> 8) & 1, spurious = (int)(arg >> 9) & 1, tree = (int)(arg >> 10) & 1;
  QueueEnv e; E_ = &e;
  if (clients) e.q.setNumClientThreads(T);
  for (int i = 0; i < 4; i++) owner[i] = -1;
  for (int i = 0; i < F; i++) { sz[i] = (int64_t)wsym_sym("size", 20); }
  bool gone[4] = {};
  if (miss) gone[0] = true;
  std::vector<WdtFileInfo> v;
  for (int i = 0; i < F; i++) {
    std::string p = fname(i);
    if (!gone[i]) { FsNode* f = fs_add(p.c_str(), FS_FILE, 0); f->size = sz[i]; }
    v.emplace_back(p.substr(5), sz[i], false);
  }
  if (!tree) e.q.setFileInfo(v);
  else { fs_add("/src/d", FS_DIR); fs_fault_budget = 1; }
  rt_preempt_budget = pre; rt_spurious_budget = spurious;
  int d = rt_spawn(discover, nullptr);
  int t[4]; Arg a[4];
  for (int i = 0; i < T; i++) { a[i] = {i, give && i == 0}; t[i] = rt_spawn(taker, &a[i]); }
  rt_join(d);
  for (int i = 0; i < T; i++) rt_join(t[i]);
  rt_preempt_budget = 0;
  bool failed = fs_fault_budget == 0 && tree;
  fs_fault_budget = 0;
  if (!tree) sym_assert(discovered, "discovery succeeded");
  for (int i = 0; i < T; i++) sym_assert(ended[i], "every thread is told that there is no more work");
  ErrorCode st = ERROR;
  auto more = e.q.getNextSource(&e.ctx, st);
  // a block that was given back when the other threads had already ended is taken by the one that returned it
  sym_assert(!more, "nothing is left in the queue");
  sym_assert(e.q.finished(), "finished");
  auto& fs = e.q.getFailedSourceStats();
  for (int i = 0; i < F; i++) if (!tree || !failed) {
    bool f = false;
    for (auto& s : fs) if (s.getId() == fname(i).substr(5)) { sym_assert(!f, "failed once"); f = true; }
    sym_assert(gone[i] ? handed[i] == 0 && f : handed[i] == returned[i] + 1 && !f, "every block was handed out or has failed");
  }
  if (miss) sym_assert(st == ERROR, "the failure is known");
  int multi = 0; for (int i = 0; i < F; i++) if (handed[i] > 1) multi++;
  if (multi) sym_cover("returned");
  sym_cover("done");
}
// order of hand-out with earlier failures and deletions
extern "C" void h_order(long arg) {
  int n = (int)arg & 3;
  QueueEnv e;
  e.q.enableFileDeletion();
  std::string gonename("zz");
  std::vector<FileChunksInfo> prev;
  bool del = sym_choice("delete", 0, 1);
  if (del) prev.push_back(FileChunksInfo(100, gonename, 5));
  int64_t size[3];
  for (int i = 0; i < n; i++) size[i] = (int64_t)wsym_sym("size", 40);
  e.files(n, size);
  e.q.setPreviouslyReceivedChunks(prev);
  e.q.buildQueueSynchronously();
  std::vector<std::unique_ptr<ByteSource>> out;
  int64_t fails[4] = {}; int got = 0;
  while (true) { ErrorCode st = ERROR; auto s = e.q.getNextSource(&e.ctx, st); if (!s) break; out.push_back(std::move(s)); got++; }
  sym_assert(got == n + del, "all");
  for (auto& s : out) {
    int k = sym_choice("failures", 0, 2);
    for (int j = 0; j < k; j++) s->getTransferStats().incrFailedAttempts();
  }
  e.q.returnToQueue(out);
  bool first = true; bool lastDel = true; int64_t lastFails = 0, lastSize = 0;
  while (true) {
    ErrorCode st = ERROR; auto s = e.q.getNextSource(&e.ctx, st);
    if (!s) break;
    got--;
    bool d = s->getMetaData().allocationStatus == TO_BE_DELETED;
    int64_t f = s->getTransferStats().getFailedAttempts(), l = s->getSize();
    if (!first) {
      sym_assert(!d || lastDel, "files to delete first");
      if (d == lastDel) { sym_assert(f >= lastFails, "fewer failures first"); if (f == lastFails) sym_assert(l <= lastSize, "larger blocks first"); }
    }
    first = false; lastDel = d; lastFails = f; lastSize = l;
  }
  sym_assert(got == 0, "all again");
  sym_cover("order");
}
