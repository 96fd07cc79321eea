// what a DirectorySourceQueue queues (P06), what it discovers (P27)
#include "queue.h"
struct Known { bool has; int64_t seq, size; int n; int64_t a[3], b[3]; };
// n files of symbolic sizes, some of them partly received before
extern "C" void h_blocks(long arg) {
  int n = (int)arg & 3, maxRanges = (int)(arg >> 2) & 3, del = (int)(arg >> 4) & 1, late = (int)(arg >> 5) & 1, mb = (int)(arg >> 6) & 3, extra = (int)(arg >> 8) & 1;
  const unsigned bits = mb ? 22 : 44;
  QueueEnv e;
  e.q.setBlockSizeMbytes(mb == 0 ? sym_choice("unlimited", -1, 0) : mb);
  int64_t block = (int64_t)mb << 20;
  if (del) e.q.enableFileDeletion();
  int64_t sz[3];
  for (int i = 0; i < n; i++) sz[i] = (int64_t)wsym_sym("size", bits);
  Known k[4];
  std::vector<FileChunksInfo> prev;
  int total = n + extra; // one more file on the receiver only
  for (int i = 0; i < total; i++) {
    k[i].has = i >= n || sym_choice("known", 0, 1);
    k[i].n = 0; k[i].seq = -1; k[i].size = 0;
    if (!k[i].has) continue;
    k[i].seq = (int64_t)wsym_sym("seq", 40);
    k[i].size = (int64_t)wsym_sym("known size", bits);
    for (int j = 0; j < i; j++) if (k[j].has) sym_assume(k[j].seq != k[i].seq);
    std::string name = fname(i).substr(5);
    FileChunksInfo c(k[i].seq, name, k[i].size);
    int64_t last = 0;
    k[i].n = sym_choice("ranges", 0, maxRanges);
    for (int r = 0; r < k[i].n; r++) { // what the receiver holds: ranges in order with gaps between them
      int64_t a = (int64_t)wsym_sym("start", bits), b = (int64_t)wsym_sym("end", bits);
      sym_assume(a >= last); if (r) sym_assume(a > last);
      sym_assume(b > a); sym_assume(b <= k[i].size);
      k[i].a[r] = a; k[i].b[r] = b; last = b;
      c.addChunk(Interval(a, b));
    }
    prev.push_back(std::move(c));
  }
  e.files(n, sz);
  if (late) { e.q.buildQueueSynchronously(); e.q.setPreviouslyReceivedChunks(prev); }
  else { e.q.setPreviouslyReceivedChunks(prev); e.q.buildQueueSynchronously(); }
  sym_assert(e.q.fileDiscoveryFinished(), "discovery is over");
  int64_t expPrev = 0;
  for (int i = 0; i < n; i++) if (k[i].has && !(k[i].size > sz[i])) for (int r = 0; r < k[i].n; r++) expPrev += k[i].b[r] - k[i].a[r];
  sym_assert(e.q.getPreviouslySentBytes() == expPrev, "bytes not to be sent again");
  auto nb = e.q.getNumBlocksAndStatus();
  int64_t repTotal = e.q.getTotalSize(), repCount = e.q.getCount();
  int blocks[4] = {0, 0, 0, 0}, nseg[3] = {0, 0, 0}; int64_t segOff[3][24], segLen[3][24], sum = 0, seq[4]; int nblocks = 0, deleted = 0;
  int64_t prevSize = -1; bool normal = false;
  while (true) {
    ErrorCode st = ERROR;
    auto s = e.q.getNextSource(&e.ctx, st);
    sym_assert(st == OK, "no failure");
    if (!s) break;
    nblocks++;
    sym_assert(nblocks <= 24, "number of blocks");
    int i = s->getIdentifier()[1] - '0';
    const SourceMetaData& m = s->getMetaData();
    blocks[i]++;
    seq[i] = m.seqId;
    if (i >= n || m.allocationStatus == TO_BE_DELETED) {
      sym_assert(i >= n && del, "only files the sender does not have are deleted, and only if asked for");
      sym_assert(m.allocationStatus == TO_BE_DELETED && m.seqId == k[i].seq && s->getSize() == 0 && s->getOffset() == 0 && m.size == 0, "instruction to delete");
      sym_assert(!normal, "files are deleted first");
      deleted++;
      continue;
    }
    normal = true;
    sym_assert(m.size == sz[i], "announced size");
    int64_t o = s->getOffset(), l = s->getSize();
    sym_assert(prevSize < 0 || l <= prevSize, "larger blocks first");
    prevSize = l;
    sym_assert((o >= 0) & (l >= 0) & (o <= sz[i]) & (l <= sz[i] - o), "inside the file");
    sym_assert((l > 0) | (sz[i] == 0), "no empty blocks");
    if (mb) sym_assert(l <= block, "not larger than the block size");
    segOff[i][nseg[i]] = o; segLen[i][nseg[i]++] = l;
    sum += l;
    if (!k[i].has) sym_assert(m.allocationStatus == NOT_EXISTS, "new file");
    else if (k[i].size > sz[i]) sym_assert(m.allocationStatus == EXISTS_TOO_LARGE && m.prevSeqId == k[i].seq && m.seqId != k[i].seq, "file became smaller");
    else sym_assert(m.allocationStatus == (k[i].size < sz[i] ? EXISTS_TOO_SMALL : EXISTS_CORRECT_SIZE) && m.seqId == k[i].seq, "file to be continued");
  }
  int64_t entries = 0, expSum = 0;
  for (int i = 0; i < n; i++) {
    bool fresh = !k[i].has || k[i].size > sz[i];
    int64_t have = 0;
    if (!fresh) for (int r = 0; r < k[i].n; r++) { segOff[i][nseg[i]] = k[i].a[r]; segLen[i][nseg[i]++] = k[i].b[r] - k[i].a[r]; have += k[i].b[r] - k[i].a[r]; }
    // the blocks and what the receiver has follow each other without gap or overlap
    int64_t cur = 0; bool used[24] = {};
    for (int step = 0; step < nseg[i]; step++) {
      int next = -1;
      for (int j = 0; j < nseg[i] && next < 0; j++) if (!used[j] && segOff[i][j] == cur) next = j;
      sym_assert(next >= 0, "every byte of the file exactly once");
      used[next] = true; cur += segLen[i][next];
    }
    sym_assert(cur == sz[i], "every byte of the file");
    if (fresh) sym_assert(blocks[i] >= 1, "a new file is announced, even if empty");
    if (!fresh && (k[i].n == 0 ? sz[i] == 0 : k[i].n == 1 && k[i].a[0] == 0 && k[i].b[0] == sz[i])) sym_assert(blocks[i] == 0, "a complete file is not sent");
    if (blocks[i]) { entries++; for (int j = 0; j < total; j++) if (j != i && (j < n ? blocks[j] > 0 : k[j].has)) sym_assert((j < n ? seq[j] : k[j].seq) != seq[i], "sequence numbers are unique");
      for (int j = 0; j < n; j++) if (j != i && k[j].has) sym_assert(k[j].seq != seq[i], "sequence numbers of known files are not used again"); }
    expSum += sz[i] - have;
  }
  sym_assert(deleted == (del && extra ? 1 : 0), "files only the receiver has");
  sym_assert(repCount == entries + deleted, "number of files");
  sym_assert(nb.first == nblocks && nb.second == OK, "number of blocks");
  sym_assert(repTotal == sum && sum == expSum, "number of bytes");
  sym_assert(e.q.finished(), "finished");
  sym_assert(fs_open_count() == 0, "no descriptors are lost");
  if (nblocks > 2) sym_cover("blocks");
  if (k[0].n) sym_cover("resumed");
}
// files that cannot be examined or opened, descriptors given by the caller or opened early
extern "C" void h_files(long arg) {
  int n = (int)arg & 3, faults = (int)(arg >> 2) & 1;
  QueueEnv e;
  int64_t real[3], given[3]; bool missing[3]; int fd[3];
  std::vector<WdtFileInfo> v;
  int early = sym_choice("open early", -1, 1);
  e.q.setOpenFilesDuringDiscovery(early);
  for (int i = 0; i < n; i++) {
    std::string p = fname(i);
    real[i] = (int64_t)wsym_sym("size", 40);
    missing[i] = sym_choice("missing", 0, 1);
    if (!missing[i]) { FsNode* f = fs_add(p.c_str(), FS_FILE, 0); f->size = real[i]; }
    bool know = sym_choice("size given", 0, 1);
    given[i] = know ? real[i] : -1;
    fd[i] = -1;
    if (!missing[i] && know && sym_choice("descriptor given", 0, 1)) { fd[i] = open(p.c_str(), O_RDONLY); v.emplace_back(fd[i], given[i], p.substr(5)); }
    else v.emplace_back(p.substr(5), given[i], false);
  }
  e.q.setFileInfo(v);
  fs_fault_budget = faults;
  bool ok = e.q.buildQueueSynchronously();
  int left = fs_fault_budget;
  sym_assert(e.q.fileDiscoveryFinished(), "discovery is over");
  int stop = n;
  if (!faults) for (int i = n - 1; i >= 0; i--) if (missing[i] && given[i] < 0) stop = i;
  if (!faults) sym_assert(ok == (stop == n), "a file whose size is not known must exist");
  bool seen[3] = {false, false, false};
  ErrorCode st = OK;
  int handed = 0;
  while (true) {
    auto s = e.q.getNextSource(&e.ctx, st);
    if (!s) break;
    int i = s->getIdentifier()[1] - '0';
    sym_assert(!seen[i] && !missing[i] && s->getSize() == real[i], "what is handed out exists");
    seen[i] = true; handed++;
    s->close();
  }
  auto& failed = e.q.getFailedSourceStats();
  bool failedFile[3] = {false, false, false};
  for (auto& f : failed) { int i = f.getId()[1] - '0'; sym_assert(!failedFile[i] && !seen[i], "a failed file is reported once"); sym_assert(f.getLocalErrorCode() == BYTE_SOURCE_READ_ERROR, "why it failed"); failedFile[i] = true; }
  bool all = true;
  for (int i = 0; i < n; i++) if (!seen[i]) all = false;
  sym_assert(st == (failed.empty() ? OK : ERROR), "failures are known at the end");
  sym_assert(all || st != OK, "a file that is not handed out makes the transfer fail");
  if (ok) for (int i = 0; i < n; i++) sym_assert(seen[i] || failedFile[i], "every file was handed out or has failed");
  if (!faults || left == fs_fault_budget) for (int i = 0; i < stop; i++) if (!faults) sym_assert(seen[i] == !missing[i], "every file that is there");
  if (all) sym_cover("all");
  if (!failed.empty()) sym_cover("failed");
  for (int i = 0; i < n; i++) if (fd[i] >= 0) sym_assert(fs_fd_open(fd[i]), "a given descriptor stays open");
}
// ---- discovery of a directory tree
static int memoN; static std::string memoName[16], memoRe[16]; static bool memoRes[16];
static bool matches(const std::string& name, const std::string& re) {
  for (int i = 0; i < memoN; i++) if (memoName[i] == name && memoRe[i] == re) return memoRes[i];
  bool r = sym_choice("matches", 0, 1);
  memoName[memoN] = name; memoRe[memoN] = re; memoRes[memoN] = r; memoN++;
  return r;
}
extern bool (*rt_regex_hook)(const std::string&, const std::string&);
extern bool fs_unknown_dtype;
static std::string gInc, gExc, gPrune; static bool gFollow;
static std::vector<std::string> want; static std::vector<FsNode*> wantNode;
static FsNode* target(FsNode* n) { while (n && n->type == FS_LINK) n = fs_find(n->target); return n; }
// an independent walk; links to directories are followed `depth` levels
static void walk(const std::string& rel, const char* dir, int depth) {
  size_t dl = strlen(dir);
  for (int i = 0; i < fs_n; i++) {
    FsNode* n = &fs_nodes[i];
    if (n->type == FS_NONE || n->nlink <= 0 || strlen(n->path) <= dl + 1 || strncmp(n->path, dir, dl) || n->path[dl] != '/' || strchr(n->path + dl + 1, '/')) continue;
    std::string r = rel + (n->path + dl + 1);
    FsNode* t = n;
    if (n->type == FS_LINK) { if (!gFollow) continue; t = target(n); if (!t) continue; }
    if (t->type == FS_DIR) {
      if (n->type == FS_LINK && depth == 0) continue;
      if (!gPrune.empty() && matches(r + "/", gPrune)) continue;
      walk(r + "/", t->path, n->type == FS_LINK ? depth - 1 : depth);
    } else {
      if (!gExc.empty() && matches(r, gExc)) continue;
      if (!gInc.empty() && !matches(r, gInc)) continue;
      want.push_back(r); wantNode.push_back(t);
    }
  }
}
static void kind(const char* path, int k) {
  if (k == 1) { FsNode* f = fs_add(path, FS_FILE, 0); f->size = (int64_t)wsym_sym("size", 40); }
  else if (k == 2) fs_add(path, FS_DIR);
  else if (k >= 3) { FsNode* f = fs_add(path, FS_LINK); strcpy(f->target, k == 3 ? "/src/b" : k == 4 ? "/ext" : k == 5 ? "/src" : "/nothing"); }
}
extern "C" void h_explore(long arg) {
  int follow = (int)arg & 1, pats = (int)(arg >> 1) & 7, faults = (int)(arg >> 4) & 1, unknown = (int)(arg >> 5) & 1, abort = (int)(arg >> 6) & 1, links = (int)(arg >> 7) & 1;
  QueueEnv e;
  rt_regex_hook = matches;
  if (pats & 1) { gInc = "I"; e.q.setIncludePattern(gInc); }
  if (pats & 2) { gExc = "X"; e.q.setExcludePattern(gExc); }
  if (pats & 4) { gPrune = "P"; e.q.setPruneDirPattern(gPrune); }
  fs_add("/ext", FS_DIR);
  kind("/ext/e", 1);
  int a = sym_choice("a", 0, links ? 6 : 2), b = sym_choice("b", 1, 2);
  kind("/src/a", a); kind("/src/b", b);
  if (a == 2) kind("/src/a/x", sym_choice("x", 1, 2));
  if (b == 2) { int y = sym_choice("y", 0, links ? 5 : 2); kind("/src/b/.y", y); if (y == 2) kind("/src/b/.y/z", 1); }
  gFollow = follow;
  if (follow) e.q.setFollowSymlinks(true);
  sym_assert(e.q.setRootDir("/src"), "root directory");
  fs_unknown_dtype = unknown;
  walk("", "/src", 2);
  fs_fault_budget = faults;
  if (abort) gAbort.flag = sym_choice("abort", 0, 1);
  bool ok = e.q.buildQueueSynchronously();
  bool faulted = fs_fault_budget != faults;
  fs_fault_budget = 0;
  bool dangling = follow && a == 6;
  // discovery stops at directories it has seen before
  bool again = follow && (a >= 3 || (b == 2 && fs_find("/src/b/.y") && fs_find("/src/b/.y")->type == FS_LINK));
  if (!faulted && !gAbort.flag && !dangling && !again) sym_assert(ok, "discovery succeeds");
  if (faulted || gAbort.flag) sym_assert(!ok, "incomplete discovery is an error");
  std::vector<std::string> got; std::vector<FsNode*> gotNode;
  ErrorCode st = ERROR;
  while (true) {
    auto s = e.q.getNextSource(&e.ctx, st);
    if (!s) break;
    const SourceMetaData& m = s->getMetaData();
    std::string id = s->getIdentifier();
    for (auto& g : got) sym_assert(g != id, "no file is sent twice");
    FsNode* n = target(fs_find(m.fullPath.c_str()));
    // a path through a link to a directory
    int wi = -1;
    for (size_t i = 0; i < want.size(); i++) if (want[i] == id) wi = (int)i;
    sym_assert(wi >= 0, "only files that are there and selected");
    if (n) sym_assert(n == wantNode[wi], "the right file");
    sym_assert(s->getSize() == wantNode[wi]->size, "of the right size");
    got.push_back(id); gotNode.push_back(wantNode[wi]);
  }
  bool complete = true;
  for (size_t i = 0; i < want.size(); i++) {
    bool have = false;
    for (size_t j = 0; j < got.size(); j++) if (again ? gotNode[j] == wantNode[i] : got[j] == want[i]) have = true;
    if (!have) complete = false;
  }
  if (!faulted && !gAbort.flag && !(again && pats)) sym_assert(complete, "every selected file is sent");
  if (complete && want.size() > 1) sym_cover("several");
  if (got.size() < want.size()) sym_cover("fewer");
  bool dirFault = faulted && (!strcmp(fs_fault_name, "fault_opendir") || !strcmp(fs_fault_name, "fault_readdir"));
  if (dirFault) sym_assert(st != OK && e.q.getFailedDirectories().size() == 1, "a directory that cannot be read is reported");
  if (faulted && !complete) { sym_assert(st != OK, "what could not be examined makes the transfer fail"); if (!dirFault) sym_cover("failed entry"); }
  if (faulted && !e.q.getFailedDirectories().empty()) { sym_assert(st != OK, "a failed directory makes the transfer fail"); sym_cover("failed directory"); }
  else if (faulted) sym_cover("faulted");
}
