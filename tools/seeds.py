import subprocess,os,sys
def seed(id,prop,edits,needs,breaks,demo,srcs="$ALL",flags="",tmo=60):
    subprocess.run("git -C /tmp/sr checkout -q -- .",shell=True,check=True)
    if os.path.exists("/verif/seeded/"+id+"/meta.json") and id not in sys.argv: return
    for f,a,b in edits:
        p="/tmp/sr/"+f; s=open(p).read()
        assert s.count(a)==1,(id,f,a,s.count(a))
        open(p,"w").write(s.replace(a,b))
    open("/tmp/seed/demo.cpp","w").write(demo)
    e=dict(os.environ,NEEDS=needs,BREAKS=breaks,SRCS=srcs,FLAGS=flags,TMO=str(tmo))
    subprocess.run(["bash","/verif/tools/mkseed.sh",id,prop],env=e)
    subprocess.run("git -C /tmp/sr checkout -q -- .",shell=True,check=True)
HEAD='#include <cstdio>\n#include <cstdlib>\n#include <cstring>\n#include <string>\n#include <vector>\n#define NEED(c) do { if (!(c)) { printf("FAILED %s\\n", #c); fflush(stdout); _Exit(1); } } while (0)\n'
CORE="$CORE"
seed("p05-nested-chunk","P05",[("Protocol.cpp","      curChunk.end_ = std::max(curChunk.end_, chunks_[i].end_);","      curChunk.end_ = chunks_[i].end_;")],
 "a chunk lying inside another one (the same part of a file received twice with different block boundaries)",
 "merging chunks forgets the end of the outer chunk: bytes already received are reported as missing, and later chunks are wrong",
 HEAD+'''#include <wdt/Protocol.h>
using namespace facebook::wdt;
int main() { std::string n("a"); FileChunksInfo f(1, n, 10); f.addChunk(Interval(2, 5)); f.addChunk(Interval(0, 10)); f.mergeChunks(); NEED(f.getRemainingChunks(10).empty()); }
''',CORE)
seed("p02-delete-flag","P02",[("Protocol.cpp","(FileAllocationStatus)(flags & 7)","(FileAllocationStatus)(flags & (EXISTS_TOO_LARGE | EXISTS_TOO_SMALL))")],
 "a file header with allocation status TO_BE_DELETED",
 "the receiver decodes the request to delete a file as a new file: it is created (emptied) instead of removed",
 HEAD+'''#include <wdt/Protocol.h>
using namespace facebook::wdt;
int main() {
  for (int s = NOT_EXISTS; s <= TO_BE_DELETED; s++) {
    BlockDetails b, c; b.fileName = "x"; b.seqId = 3; b.dataSize = 4; b.offset = 5; b.fileSize = 9; b.allocationStatus = (FileAllocationStatus)s; b.prevSeqId = 2;
    char buf[200]; int64_t o = 0, p = 0;
    NEED(Protocol::encodeHeader(Protocol::protocol_version, buf, o, 200, b));
    NEED(Protocol::decodeHeader(Protocol::protocol_version, buf, p, o, c) && o == p && c.allocationStatus == s && c.fileName == "x" && c.fileSize == 9);
  }
}
''',CORE)
seed("p01-string-len","P01",[("util/SerializationUtil.cpp","  if (strLen > br.size()) {\n","  const int64_t available = br.size();\n  if (static_cast<int64_t>(strLen) > available) {\n")],
 "an encoded string whose length has the top bit set",
 "the length check passes for lengths of 2^63 and more: the decoder reads out of bounds or throws",
 HEAD+'''#include <wdt/util/SerializationUtil.h>
using namespace facebook::wdt;
int main() {
  char buf[32]; memset(buf, 'a', 32); int64_t off = 0;
  NEED(encodeVarU64(buf, 32, off, 0xc000000000000001ull));
  folly::ByteRange br = makeByteRange(buf, off + 3);
  std::string s; bool ok = true;
  try { ok = decodeString(br, s); } catch (...) { NEED(!"exception"); }
  NEED(!ok);
}
''',CORE)
seed("p03-header-end","P03",[("Protocol.cpp","    if (br.empty()) {\n      WLOG(ERROR) << \"Invalid (too short) input len \" << max << \" at offset \"\n                  << (max - obr.size());\n      return false;\n    }\n","")],
 "a header message that ends right before the flags byte",
 "the decoder reads one byte beyond the message and moves the offset past its end",
 HEAD+'''#include <wdt/Protocol.h>
using namespace facebook::wdt;
int main() {
  BlockDetails b, c; b.fileName = "x"; b.seqId = 3; b.dataSize = 4; b.offset = 5; b.fileSize = 9;
  char tmp[200]; int64_t o = 0, p = 0;
  NEED(Protocol::encodeHeader(10, tmp, o, 200, b)); // without flags
  char* exact = (char*)malloc(o); memcpy(exact, tmp, o);
  NEED(!Protocol::decodeHeader(Protocol::protocol_version, exact, p, o, c) && p <= o); free(exact);
}
''',CORE,"-fsanitize=address")
seed("p08-newest-partial","P08",[("util/ThreadTransferHistory.cpp","(i == numFailedSources - 1 ? &checkpoint : nullptr)","(i == 0 ? &checkpoint : nullptr)")],
 "a checkpoint with a partly received block while two or more blocks are unacknowledged, from a receiver that does not send sequence ids",
 "the partial block of the checkpoint is applied to the newest instead of the oldest unacknowledged block: bytes never received are skipped",
 HEAD+'''#include <wdt/util/ThreadTransferHistory.h>
#include <wdt/util/DirectorySourceQueue.h>
#include <wdt/util/FileByteSource.h>
#include <sys/stat.h>
using namespace facebook::wdt;
int main() {
  mkdir("src", 0755); for (const char* n : {"src/a", "src/b"}) { FILE* f = fopen(n, "w"); fputs("0123456789", f); fclose(f); }
  WdtOptions o; AbortChecker* never = nullptr; std::atomic<bool> no{false}; WdtAbortChecker ab(no);
  DirectorySourceQueue q(o, "src", &ab);
  ThreadCtx ctx(o, true, 0); ctx.setAbortChecker(&ab);
  q.buildQueueSynchronously();
  TransferStats ts; ThreadTransferHistory h(q, ts, 1);
  std::vector<std::string> order;
  for (int i = 0; i < 2; i++) {
    ErrorCode e; auto s = q.getNextSource(&ctx, e); NEED(s); order.push_back(s->getIdentifier());
    TransferStats st; st.addEffectiveBytes(3, 10); st.incrNumBlocks(); ts += st; s->addTransferStats(st);
    NEED(h.addSource(s));
  }
  Checkpoint c; c.port = 1; c.numBlocks = 0; c.lastBlockReceivedBytes = 4; c.hasSeqId = false;
  NEED(h.setLocalCheckpoint(c) == OK);
  for (int i = 0; i < 2; i++) {
    ErrorCode e; auto s = q.getNextSource(&ctx, e); NEED(s);
    int64_t want = s->getIdentifier() == order[0] ? 4 : 0;
    printf("%s offset %ld\\n", s->getIdentifier().c_str(), (long)s->getOffset());
    NEED(s->getOffset() == want);
  }
}
'''.replace("AbortChecker* never = nullptr; ",""))
seed("p09-barrier-one","P09",[("util/ThreadsController.cpp","    isComplete_ = true;\n    cv_.notify_all();","    isComplete_ = true;\n    // the caller does not need to be woken up\n    cv_.notify_one();")],
 "three or more threads at the barrier",
 "when the last thread arrives only one of the waiting threads is woken up: the others hang forever",
 HEAD+'''#include <wdt/util/ThreadsController.h>
#include <thread>
#include <unistd.h>
using namespace facebook::wdt;
int main() {
  Barrier b(4); std::atomic<int> through{0};
  for (int i = 0; i < 4; i++) std::thread([&] { b.execute(); through++; }).detach();
  for (int i = 0; i < 100 && through < 4; i++) usleep(50000);
  printf("%d threads passed\\n", (int)through); fflush(stdout);
  _Exit(through == 4 ? 0 : 1);
}
''')
seed("p10-failed-resize","P10",[("util/FileCreator.cpp","    it->second = fd >= 0 ? ALLOCATED : FAILED;","    // a file which was there before can be opened even if this open failed\n    const bool exists = blockDetails->allocationStatus != NOT_EXISTS;\n    it->second = (fd >= 0 || exists) ? ALLOCATED : FAILED;")],
 "resizing an existing file fails (disk full) for the first of its blocks, and a second block of the file arrives",
 "the second block is written although the file could not be brought to its size",
 HEAD+'''#include <wdt/util/FileCreator.h>
#include <wdt/util/TransferLogManager.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <signal.h>
using namespace facebook::wdt;
int main() {
  signal(SIGXFSZ, SIG_IGN); mkdir("dst", 0755); FILE* f = fopen("dst/f", "w"); fputs("0123456789", f); fclose(f);
  WdtOptions o; o.overwrite = true; TransferLogManager m(o, "dst/"); FileCreator c("dst/", 2, m, false);
  ThreadCtx t0(o, true, 0), t1(o, true, 1);
  BlockDetails b; b.fileName = "f"; b.seqId = 1; b.fileSize = 100000; b.dataSize = 10; b.allocationStatus = EXISTS_TOO_SMALL;
  struct rlimit r = {50000, 50000}; NEED(setrlimit(RLIMIT_FSIZE, &r) == 0);
  NEED(c.openForBlocks(t0, &b) < 0);
  NEED(c.openForBlocks(t1, &b) < 0);
}
''')
seed("p11-short-write","P11",[("util/FileWriter.cpp","::write(fd_, buf + count, size - count);","::write(fd_, buf + count, size);")],
 "a short write to the disk",
 "after a short write the rest is written with the full length: bytes beyond the buffer land beyond the block",
 HEAD+'''#include <wdt/util/FileWriter.h>
#include <wdt/util/TransferLogManager.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
using namespace facebook::wdt;
static bool once;
extern "C" ssize_t write(int fd, const void* p, size_t n) { if (once && n > 3) { once = false; n = 3; } return syscall(SYS_write, fd, p, n); }
int main() {
  mkdir("dst", 0755); FILE* f = fopen("dst/f", "w"); fputs("................", f); fclose(f);
  WdtOptions o; o.overwrite = true; TransferLogManager m(o, "dst/"); FileCreator c("dst/", 2, m, false);
  ThreadCtx t0(o, true, 0);
  BlockDetails b; b.fileName = "f"; b.seqId = 1; b.fileSize = 16; b.dataSize = 6; b.offset = 2; b.allocationStatus = EXISTS_CORRECT_SIZE;
  FileWriter w(t0, &b, &c); char buf[16]; memset(buf, '#', 16); memcpy(buf, "abcdef", 6);
  NEED(w.open() == OK); once = true; NEED(w.write(buf, 6) == OK && w.sync() == OK && w.close() == OK);
  char got[32] = {0}; f = fopen("dst/f", "r"); fread(got, 1, 31, f); printf("%s\\n", got);
  NEED(!strcmp(got, "..abcdef........"));
}
''')
seed("p13-lost-entries","P13",[("util/TransferLogManager.cpp","      entries = entries_;\n      entries_.clear();\n    }\n\n    if (!writeEntriesToDiskNoLock(entries)) {\n      return;\n    }\n","      entries = entries_;\n    }\n\n    if (!writeEntriesToDiskNoLock(entries)) {\n      return;\n    }\n    std::lock_guard<std::mutex> lock(mutex_);\n    if (!entries.empty()) {\n      entries_.clear();\n    }\n")],
 "an entry added to the transfer log while the writer thread writes earlier ones",
 "the entry is dropped: a file creation is missing in the log, whose later block entries make the log invalid",
 HEAD+'''#include <wdt/util/TransferLogManager.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <thread>
using namespace facebook::wdt;
static TransferLogManager* hook;
extern "C" ssize_t write(int fd, const void* p, size_t n) {
  if (hook && n > 8) { auto m = hook; hook = nullptr; std::thread([m] { m->addFileCreationEntry("b", 2, 5); }).join(); }
  return syscall(SYS_write, fd, p, n);
}
int main() {
  mkdir("dst", 0755); for (const char* n : {"dst/a", "dst/b"}) { FILE* f = fopen(n, "w"); fputs("01234", f); fclose(f); }
  WdtOptions o; o.enable_download_resumption = true; o.transfer_log_write_interval_ms = 10;
  { TransferLogManager m(o, "dst/"); std::vector<FileChunksInfo> v; NEED(m.openLog() == OK && m.parseAndMatch("r", 1, v) == OK);
    m.verifySenderIp("x"); m.writeLogHeader(); m.startThread();
    hook = &m; m.addFileCreationEntry("a", 1, 5); m.addBlockWriteEntry(1, 0, 5);
    for (int i = 0; i < 200 && hook; i++) usleep(10000);
    usleep(100000); m.addBlockWriteEntry(2, 0, 5); m.closeLog(); }
  TransferLogManager m(o, "dst/"); std::vector<FileChunksInfo> v; NEED(m.openLog() == OK); ErrorCode e = m.parseAndMatch("r", 1, v); m.closeLog();
  NEED(e == OK); NEED(v.size() == 2);
}
''')
seed("p13-torn-tail","P13",[("util/TransferLogManager.cpp","      int64_t extraBytes = numRead + sizeof(int16_t);","      int64_t extraBytes = numRead;")],
 "a crash that leaves the last entry of the transfer log incomplete, after its length was written",
 "the two length bytes stay in the log: entries of the resumed session are appended after them, and the next start finds an invalid log",
 HEAD+'''#include <wdt/util/TransferLogManager.h>
#include <sys/stat.h>
#include <unistd.h>
using namespace facebook::wdt;
int main() {
  mkdir("dst", 0755); { FILE* f = fopen("dst/a", "w"); fputs("01234", f); fclose(f); }
  WdtOptions o; o.enable_download_resumption = true;
  std::vector<FileChunksInfo> v;
  for (int s = 0; s < 3; s++) {
    TransferLogManager m(o, "dst/"); v.clear(); NEED(m.openLog() == OK); ErrorCode e = m.parseAndMatch("r", 1, v); if (e != OK) { m.closeLog(); NEED(!"log valid"); }
    if (s == 2) { m.closeLog(); break; }
    m.verifySenderIp("x"); m.writeLogHeader(); m.startThread();
    if (s == 0) m.addFileCreationEntry("a", 1, 5);
    m.addBlockWriteEntry(1, s, 1); m.closeLog();
    if (s == 0) { struct stat st; NEED(stat("dst/.wdt.log", &st) == 0); NEED(truncate("dst/.wdt.log", st.st_size - 3) == 0); }
  }
  NEED(v.size() == 1 && v[0].getChunks().size() == 1);
}
''')
seed("p21-failed-dir","P21",[("Reporting.cpp","  if (!failedDirectories_.empty()) {\n    possiblyOk = false;\n","  if (!failedDirectories_.empty()) {\n")],
 "a directory that could not be read, all discovered files transferred",
 "the transfer is reported as successful although files of the unreadable directory are missing",
 HEAD+'''#include <wdt/Reporting.h>
using namespace facebook::wdt;
int main() {
  std::vector<TransferStats> a, b, t(1); std::vector<std::string> d{"dir"};
  t[0].addEffectiveBytes(1, 10); t[0].setLocalErrorCode(OK);
  TransferReport r(a, b, t, d, 1.0, 10, 1, 0, true);
  NEED(r.getSummary().getErrorCode() != OK);
}
''')
