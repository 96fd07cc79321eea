"""The checks: what is compiled, which harness entries run with which bounds."""
RT = ["runtime.cpp", "crc.cpp"]
COMMON_ASSUMPTIONS = [
    "code compiled by clang 18 -O1 for x86-64 (-fwrapv, no vectorization); the shipped build uses gcc -O2",
    "folly, glog and gflags are replaced by the stubs in rt/include (log statements are not evaluated, a failed WDT_CHECK aborts)",
    "libstdc++'s compiled parts (tree, list and hash bookkeeping, exceptions, threads) are replaced by the models in rt/runtime.cpp",
    "threads interleave at synchronization operations; unsynchronized accesses between them are reported as races",
    "memory allocation succeeds up to 1 GB per object",
]


def R(entry, quick=((),), thorough=None, **kw):
    d = dict(entry=entry, quick=list(quick))
    if thorough is not None:
        d["thorough"] = list(thorough)
    d.update(kw)
    return d


CHECKS = {}


def check(id, bounds, groups, **kw):
    CHECKS[id] = dict(bounds=bounds, groups=groups, **kw)


SER = ["util/SerializationUtil.cpp"]
PROTO = SER + ["Protocol.cpp", "ErrorCodes.cpp"]

check("P01", {"quick": "all 64 bit values; buffers of 0..12 bytes, all positions; strings of 0..5 (and 126..130) bytes; arbitrary input of 0..12 bytes",
              "thorough": "all 64 bit values; buffers of 0..12 bytes; strings of 0..20 bytes; arbitrary input of 0..24 bytes"},
      [dict(name="ser", srcs=["p01_serialization.cpp"] + SER + RT, runs=[
          R("h_varu64", covers=["enc_ok", "enc_fail"]), R("h_varu64_neg", covers=["neg"]), R("h_vari64", covers=["fits", "nofit"]), R("h_vari64c", covers=["nofit"]), R("h_varstring"),
          R("h_fixed", covers=["ok", "nofit"]), R("h_string", [5], [20], covers=["ok", "nofit"]), R("h_string_long"), R("h_decode_any", [12], [24], covers=["ok", "refused"])])])

check("P02", {"quick": "versions 10..current; numbers of 1, 2 and 9 encoded bytes (all values of those lengths), every length for single-number messages; names of 0..2 and PATH_MAX bytes, transfer ids of 0..2 and the maximal length; lists of up to 3 files with 2 chunks, buffers of 34..130 bytes",
              "thorough": "as quick, with numbers of every encoded length (1..9 bytes) in headers, checkpoints and chunk entries"},
      [dict(name="proto", srcs=["p02_protocol.cpp"] + PROTO + RT, runs=[
          R("h_header", [0], [0, 1], covers=["flags", "noflags", "prevSeqId"], weight=9), R("h_header_max"), R("h_header_small", covers=["fit", "nofit"]), R("h_settings", covers=["flags", "noflags"]), R("h_settings_max"),
          R("h_done_size_footer", covers=["bytes", "nobytes", "size", "footer"]), R("h_abort", covers=["ok", "nofit"]), R("h_checkpoints", [0], [0, 1], covers=["seqid", "noseqid"], weight=5), R("h_checkpoints2"),
          R("h_checkpoint_old", covers=["old"]), R("h_enc"), R("h_chunkscmd"), R("h_filechunks", [0], [0, 1], weight=8), R("h_chunklist", covers=["several buffers"])])])

check("P03", {"quick": "arbitrary messages of 0..N bytes at offset 0 or 1: header 9, checkpoints 11, settings 10, small messages 18, encryption settings 9, chunk list 10; all versions",
              "thorough": "as quick with header 13, checkpoints 16, settings 14, chunk list 14"},
      [dict(name="dec", srcs=["p03_decode.cpp"] + PROTO + RT, runs=[
          R("h_header", [9], [13], covers=["accepted", "refused"], weight=5), R("h_checkpoints", [11], [16], covers=["accepted", "refused"], weight=5), R("h_settings", [10], [14], covers=["accepted", "refused", "settings"]),
          R("h_small", [18], covers=["accepted", "refused", "abort", "chunks"]), R("h_enc", [9], [14], covers=["accepted", "refused"]), R("h_chunklist", [10], [14], covers=["accepted", "refused"], weight=5)])])

check("P04", "all pairs of 32 bit version numbers (own version at least 10)",
      [dict(name="neg", srcs=["p04_negotiate.cpp"] + PROTO + RT, runs=[R("h_negotiate", covers=["refused", "agreed"])])])

check("P05", {"quick": "0..3 ranges with arbitrary 64 bit ends inside the file, any file size and any grown size", "thorough": "0..4 ranges"},
      [dict(name="chunks", srcs=["p05_chunks.cpp"] + PROTO + RT, runs=[R("h_merge", [3], [3, 4], covers=["nothing remains", "some remain", "no merge", "all merged"])])])

RTF = RT + ["posix.cpp", "regex.cpp", "openssl.cpp"]
CORE = PROTO + ["Reporting.cpp", "WdtOptions.cpp", "util/CommonImpl.cpp", "util/EncryptionUtils.cpp", "WdtTransferRequest.cpp"]
QUEUE = CORE + ["util/DirectorySourceQueue.cpp", "util/FileByteSource.cpp"]

check("P08", {"quick": "2 blocks of any size, 5 operations (send completely or not, any report, end)", "thorough": "3 blocks, 6 operations"},
      [dict(name="hist", srcs=["p08_history.cpp", "util/ThreadTransferHistory.cpp"] + QUEUE + RTF, runs=[
          R("h_history", [2 | 4 << 4], [3 | 6 << 4], covers=["accepted", "rejected", "some sent again"])])])

THR = CORE + ["util/ThreadsController.cpp"]
check("P09", {"quick": "3 threads with 2 preemptions each scenario (funnel: also 2 failures, with timed and untimed waits, 1 timeout, 1 spurious wakeup), waits of up to 1 s", "thorough": "4 threads, 3 preemptions"},
      [dict(name="thr", srcs=["p09_threads.cpp"] + THR + RTF, runs=[
          R("h_once", [3 | 2 << 4], [4 | 3 << 4], covers=["once"]), R("h_barrier", [3 | 2 << 4], [4 | 2 << 4, 3 | 4 << 4], covers=["barrier", "nobody came"]),
          R("h_funnel", [3 | 2 << 4 | 2 << 8, 3 | 2 << 4 | 1 << 8 | 1 << 12 | 1 << 20, 2 | 2 << 4 | 2 << 8 | 1 << 16], [4 | 2 << 4 | 2 << 8, 3 | 4 << 4 | 2 << 8, 3 | 2 << 4 | 1 << 8 | 1 << 12 | 1 << 16 | 1 << 20], covers=["success", "all left"]),
          R("h_condition", [3 | 2 << 4 | 1 << 8], [4 | 2 << 4 | 2 << 8], covers=["condition"]), R("h_timeout", covers=["long wait"]), R("h_states", [3], [4], covers=["states"])])])

check("P21", {"quick": "3 thread results with arbitrary counts and error codes in any order; sender reports of 1..2 threads, 0..2 failed sources, 0..1 failed directories; any receiver result; 2 concurrent threads with 3 preemptions",
              "thorough": "sender reports of 1..3 threads; 6 preemptions"},
      [dict(name="report", srcs=["p21_report.cpp"] + CORE + RTF, runs=[
          R("h_sum", [0, 1, 2], covers=["sum"]), R("h_sender", [2], [3], covers=["success", "recovered", "failure"]), R("h_receiver", covers=["success", "recovered", "failure"]), R("h_progress", covers=["progress"]), R("h_codes", covers=["unknown code"]),
          R("h_concurrent", [3], [6], covers=["concurrent"])])])

check("P25", {"quick": "up to 3 values (below 2^40) in up to 3 merged counters; histograms of up to 2 of 8 values (enumerated) at 6 percentiles; up to 2 call times of 0 or 15 ms + 0..999 us", "thorough": "up to 4 values, histograms of up to 3"},
      [dict(name="stats", srcs=["p25_stats.cpp", "util/Stats.cpp", "ostream.cpp"] + CORE + RTF, runs=[
          R("h_counter", [3], [4], covers=["merged"]), R("h_hist", [2], [3], covers=["percentiles"]), R("h_perf", [2], [2], covers=["percentile"])])])

LOG = CORE + ["util/TransferLogManager.cpp"]
check("P13", {"quick": "2 files of up to 63 bytes, 1..2 sessions of up to 2..3 logged events (create, block, resize, invalidate), a crash at every write and after every byte of it, 1 early flush; foreign logs with any 1-byte id and sender, 4 configurations; compaction of 2 files with 2 blocks; 1 failing file-system call; 2 threads with 2 preemptions", "thorough": "sessions of up to 4 events, 2 failing calls, 4 preemptions"},
      [dict(name="log", srcs=["p13_log.cpp"] + LOG + RTF, runs=[
          R("h_crash", [3, 2 | 1 << 4, 2 | 1 << 8], [3 | 1 << 4, 4, 3 | 1 << 8], covers=["crashed", "lost the tail"]), R("h_foreign", covers=["foreign", "own"]), R("h_missing", covers=["missing"]),
          R("h_compact", [2], [3], covers=["compact"]), R("h_faults", [1], [2], covers=["faults"]), R("h_lock", covers=["lock"]), R("h_reuse", covers=["reuse"]), R("h_threads", [2], [4], covers=["threads"])])])
check("P14", {"quick": "0..10 arbitrary bytes, or 0..9 after a valid header and creation entries; 2 well-formed entries with any non-negative numbers of 1 or 9 encoded bytes after a header", "thorough": "14 and 12 bytes; 3 entries"},
      [dict(name="log", srcs=["p13_log.cpp"] + LOG + RTF, runs=[
          R("h_any", [10, 9 | 1 << 8, 9 | 2 << 8], [14, 12 | 1 << 8, 12 | 2 << 8], covers=["accepted", "refused"]), R("h_values", [2], [3, 2 | 1 << 4], covers=["accepted", "refused", "ranges"])])])

FILES = LOG + ["util/FileCreator.cpp", "util/FileWriter.cpp"]
def A(threads, preempt, faults, files): return threads | preempt << 2 | faults << 4 | (files - 1) << 6
check("P10", {"quick": "allocation: 2-3 threads on 1-2 files with up to 2 preemptions and up to 1 failing call, sizes up to 30; every status x option x size <= 20; 3 files in nested directories that may vanish, up to 1 failing call; 2 sessions of resumption with file sizes 1..9",
              "thorough": "allocation: 3 preemptions with 2 failing calls, 3 threads with 2-3 preemptions; 2 failing calls for directories; 3 sessions"},
      [dict(name="files", srcs=["p10_files.cpp"] + FILES + RTF, runs=[
          R("h_alloc", [A(2, 2, 0, 1), A(2, 2, 1, 1), A(3, 1, 0, 1), A(3, 2, 0, 2)], [A(2, 3, 2, 1), A(3, 2, 1, 1), A(3, 3, 0, 1), A(3, 2, 1, 2)], covers=["all"]),
          R("h_status", covers=["deleted", "kept", "created", "existing"]), R("h_dirs", [0, 1], [2], covers=["dirs", "vanished"]), R("h_logged", [2], [3], covers=["end", "gone", "shrank", "grew"])])])
def W(n, faults, shorts): return n | faults << 4 | shorts << 6
check("P11", {"quick": "blocks of up to 3 bytes (all contents, all splits into writes) at offsets up to 3, up to 1 failing call, 1 short and 1 interrupted write; fsync, fadvise, sync interval and preallocation options",
              "thorough": "blocks of up to 4 bytes, 2 failing calls, 2 short writes"},
      [dict(name="files", srcs=["p10_files.cpp"] + FILES + RTF, runs=[
          R("h_write", [W(3, 0, 1), W(3, 1, 0), W(2, 1, 1)], [W(4, 1, 1), W(4, 0, 2), W(3, 2, 1)], covers=["written"]), R("h_skip", covers=["skip"])])])

def RD(direct, reads, faults=0, shorts=0, given=0, change=0, buf=0, nofadv=0, big=0, again=0): return direct | reads << 1 | faults << 4 | shorts << 5 | given << 7 | change << 8 | buf << 9 | nofadv << 11 | big << 12 | again << 13
check("P12", {"quick": "files, offsets, block sizes and (for change) new file sizes of 0..32767 bytes as symbolic numbers, contents not modelled (the place in the file every returned byte comes from is compared); buffers of 4096 and 8192 bytes; up to 3 reads per block; with and without O_DIRECT; an optional resumption offset inside the block; with at most one failing and one short read and the file replaced by one of another size before any read; a block read twice. Byte contents: files of up to 8 bytes, all contents, short reads",
       "thorough": "as quick, with sizes up to 1 MiB, buffers up to 256 KiB, up to 4 reads, 2 short reads"},
      [dict(name="read", srcs=["p12_read.cpp", "util/FileByteSource.cpp"] + CORE + RTF, runs=[
          R("h_read", [RD(0, 3, buf=1), RD(1, 2), RD(1, 1, 1, 1, 1, 1), RD(0, 1, 1, 1, 0, 1, again=1), RD(0, 2, 0, 1), RD(0, 1, buf=3, nofadv=1, big=1)],
            [RD(0, 3, buf=1, big=1), RD(1, 3, buf=1), RD(1, 2, again=1), RD(0, 2, 1, 1, 0, 1), RD(1, 2, 0, 0, 0, 1), RD(0, 4, 0, 2, 0, 0, buf=2, big=1)], covers=["resumed", "finished"], opts=["--fork-select"]),
          R("h_bytes", [5 | 1 << 4], [9 | 2 << 4], covers=["read"]), R("h_deleted", covers=["deleted"])])])

def B(n, ranges=1, dele=0, late=0, mb=0, extra=0): return n | ranges << 2 | dele << 4 | late << 5 | mb << 6 | extra << 8
check("P06", {"quick": "up to 2 files with up to 2 received ranges (one of them with ranges), plus one file only the receiver has; sizes, ranges and sequence numbers are symbolic (sizes below 16 TiB with unlimited blocks, below 4 MiB with 1 and 2 MiB blocks, which makes up to 4 blocks per range); received data reported before or after discovery; with and without deletion. Files that are missing or cannot be opened, sizes and descriptors given or not, early opening: 2 files, 1 failing call",
       "thorough": "two files with ranges, up to 3 ranges of one file, 3 files"},
      [dict(name="queue", srcs=["p06_queue.cpp"] + QUEUE + RTF, runs=[
          R("h_blocks", [B(1, 1, mb=1), B(1, 2, mb=2), B(2, 0, mb=2), B(2, 0, 0, 1), B(1, 1, 1, 1, 0, 1), B(1, 1, 1, 0, 0, 1)], [B(2, 1, 1, late=1), B(2, 1, 1), B(1, 2, mb=1), B(3, 0)], covers=["blocks", "resumed"], opts=["--fork-select"]),
          R("h_files", [2, 2 | 4], [3, 3 | 4], covers=["all", "failed"])])])
def X(follow, pats=0, faults=0, unknown=0, abort=0, links=0): return follow | pats << 1 | faults << 4 | unknown << 5 | abort << 6 | links << 7
check("P27", {"quick": "trees of up to 3 levels and 5 entries (regular files of any size, directories, links to directories inside and outside the tree, to the tree itself, dangling links), the outcome of matching every name with the include, exclude and prune patterns as a free choice, with and without following links, entry types known or not, at most one failing call (opendir, readdir, lstat, stat, realpath), aborted or not",
       "thorough": "all of these together"},
      [dict(name="queue", srcs=["p06_queue.cpp"] + QUEUE + RTF, runs=[
          R("h_explore", [X(0, 7), X(0, 0, 1, 1), X(0, 0, 0, 1, 1, 1), X(1, 0, 0, 0, 0, 1), X(1, 0, 1, 0, 0, 1), X(1, 5, 0, 1, 0, 1)], [X(0, 7, 1, 0, 0, 1), X(1, 7, 0, 0, 0, 1)], covers=["several", "fewer", "failed directory", "failed entry", "faulted"])])])
def H(t, f, pre=1, give=0, miss=0, clients=0, spurious=0, tree=0): return t | f << 2 | pre << 4 | give << 6 | miss << 7 | clients << 8 | spurious << 9 | tree << 10
check("P07", {"quick": "2 sending threads and the discovery thread with up to 2 blocks (3 threads with 1 block), one of which may be given back; all interleavings with at most 1 (with one block 2) preemptions at synchronization points, and a spurious wakeup; a file that cannot be opened, a directory that cannot be read. Order: up to 2 blocks of any size and 0 to 2 failures each, and a deletion",
       "thorough": "2 preemptions with 2 blocks, 3 threads, 3 blocks"},
      [dict(name="queue", srcs=["p07_handout.cpp"] + QUEUE + RTF, runs=[
          R("h_handout", [H(2, 2), H(2, 1, 2, clients=1), H(2, 1, 2, 1, clients=1), H(2, 2, 1, 1, clients=1, miss=1, spurious=1), H(2, 2, 1, miss=1), H(2, 1, 1, tree=1), H(3, 1, 1, clients=1)], [H(2, 2, 2, 1, 0, 1), H(3, 2, 1, 1, 0, 1), H(2, 3, 1, 1, 0, 1)], covers=["done"]),
          R("h_order", [2], [3], covers=["order"])])])

URLG = lambda runs: [dict(name="url", srcs=["p15_url.cpp"] + CORE + RTF, runs=runs)]
check("P15", {"quick": "transfer id, namespace and destination of any 2..3 bytes, host names of 3 characters, 1..3 ports of 16 (three of 10) bits or contiguous, protocol version and interval of 8 bits (either sign), every flag combination and every encryption type with secrets of 2 bytes; escaping of any 3 bytes",
              "thorough": "texts of 3 bytes, host names of 5, escaping of 4 bytes, numbers of 16 bits, three ports of 12 bits, secrets of 16 bytes"},
      URLG([R("h_escape", [1, 2, 3], [4], covers=["text"]), R("h_text", [0 | 3 << 2, 1 | 2 << 2, 2 | 2 << 2], [1 | 3 << 2, 2 | 3 << 2], covers=["same"]), R("h_host", [3], [5], covers=["same"]),
            R("h_numbers", [0 | 8 << 3, 1 | 16 << 3, 3 | 8 << 3], [0 | 14 << 3, 3 | 10 << 3], covers=["same"]), R("h_flags", [2], [16], covers=["same"])]))
check("P16", {"quick": "secrets of any 3 bytes under any hash; escapes of any 5 bytes; URLs with any 4 bytes after the prefix, before it, inside the brackets or as parameters; requests with any 3 bytes as port, port list, protocol version, tls flag, encryption, start port or anything after the prefix, any 5 digits as port, and more ports than there are",
              "thorough": "secrets of 16 bytes, 7 bytes of escapes, 5 of URLs, 4 of ports and versions, 5 of encryption"},
      URLG([R("h_logsafe", [3], [16], covers=["safe"]), R("h_unescape", [5], [7], covers=["accepted", "refused"]), R("h_uri", [4 | i << 4 for i in range(4)], [5 | i << 4 for i in range(4)], covers=["accepted", "refused"]),
            R("h_request", [3, 5, 1 | 1 << 4, 2 | 1 << 4, 5 | 1 << 4] + [3 | i << 4 for i in range(2, 8)], [4, 4 | 2 << 4, 4 | 3 << 4, 4 | 4 << 4, 4 | 5 << 4, 3 | 6 << 4, 4 | 7 << 4], covers=["accepted", "refused"])]))
check("P17", {"quick": "every type value below 256; secrets of any 3 bytes; any 4 bytes as serialized form; types of up to 10 decimal digits", "thorough": "secrets of 16 bytes, any 6 bytes"},
      URLG([R("h_params", [3], [16], covers=["same"]), R("h_parse", [4, 12 | 1 << 4], [6, 15 | 1 << 4], covers=["accepted", "refused"]), R("h_type", [0], covers=["type"])]))
ALL = FILES + ["Receiver.cpp", "ReceiverThread.cpp", "Sender.cpp", "SenderThread.cpp", "Throttler.cpp", "WdtBase.cpp", "WdtResourceController.cpp", "WdtThread.cpp", "util/ClientSocket.cpp", "util/DirectorySourceQueue.cpp", "util/FileByteSource.cpp", "util/ServerSocket.cpp", "util/Stats.cpp", "util/ThreadTransferHistory.cpp", "util/ThreadsController.cpp", "util/WdtSocket.cpp", "ostream.cpp"]
def K(recv, calls, strict=0): return recv | calls << 1 | strict << 4
def KT(recv, t, ops, pre): return recv | t << 1 | ops << 3 | pre << 5
check("P24", {"quick": "any two calls (create, release one, all or finished ones, register, deregister, look up, quota) on any set of existing transfers of two namespaces with limits of any 32 bit value, strict registration or not, senders and receivers; 2 threads with one call each (create, release one, all, finished, deregister) and 1 preemption, global limits 0..2, namespace limits 0..1",
       "thorough": "any three calls; 2 preemptions"},
      [dict(name="ctl", srcs=["p24_controller.cpp"] + ALL + RTF, runs=[
          R("h_calls", [K(0, 2), K(1, 2), K(0, 2, 1)], [K(0, 3), K(1, 3), K(0, 3, 1)], covers=["created", "quota", "exists"]), R("h_threads", [KT(0, 2, 1, 1), KT(1, 2, 1, 1)], [KT(0, 2, 1, 2), KT(1, 2, 1, 2)], covers=["some", "none"])])])

PLAIN, CHECKSUM, NOBLOCKS, RESUME, TWOPHASE, DELETE, TINY, FLIP, CRASH, GCM, OLDPEER, EXISTING, DIRTREE, REFUSE, NOALLOC, CHANGE, KEEPLOG, SPLIT, LONGNAME, BIG, LONGID = (1 << i for i in range(21))
def E(files, mx, nf=0, kinds=1, ff=0, pre=0, ports=1, sched=0, opt=0, early=0): return early << 44 | files | mx << 2 | nf << 6 | kinds << 8 | ff << 11 | pre << 13 | ports << 15 | sched << 17 | opt << 20
Q26 = [E(1,2),
              E(1,2,opt=PLAIN),
              E(2,1,opt=PLAIN),
              E(1,1,1,7,sched=1),
              E(2,1,1,7,sched=1,opt=PLAIN),
              E(1,1,1,1,opt=PLAIN),
              E(1,1,0,1,1,opt=PLAIN),
              E(2,2,0,1,1,sched=1),
              E(1,3,1,7,sched=1,opt=TINY),
              E(1,3,1,7,sched=1,opt=TINY|CHECKSUM|PLAIN,ports=2),
              E(1,3,opt=FLIP,sched=1),
              E(1,3,opt=FLIP|GCM,sched=1),
              E(1,3,opt=FLIP|PLAIN|CHECKSUM,sched=1),
              E(2,2,1,7,sched=1,opt=RESUME),
              E(2,2,1,7,sched=1,opt=RESUME|DIRTREE|DELETE),
              E(2,2,sched=1,opt=RESUME|CRASH),
              E(1,3,sched=1,opt=RESUME|CRASH|TINY|KEEPLOG),
              E(1,3,1,3,sched=1,opt=RESUME|CHANGE),
              E(1,3,sched=1,opt=CRASH|EXISTING),
              E(1,2,sched=1,opt=OLDPEER),
              E(1,2,1,7,sched=1,opt=OLDPEER),
              E(1,3,1,7,sched=1,opt=EXISTING),
              E(2,1,1,7,sched=1,opt=REFUSE),
              E(2,1,1,7,sched=1,opt=TWOPHASE),
              E(2,2,1,7,sched=1,opt=NOBLOCKS|NOALLOC),
              E(2,1,1,7,sched=1,ports=2),
              E(0,0,1,7,sched=1),
              E(1,2,sched=1,opt=SPLIT),
              E(1,1,sched=1,opt=LONGID|SPLIT|PLAIN),
              E(1,1,sched=1,opt=LONGID|RESUME),
              E(1,2,sched=1,opt=SPLIT|LONGNAME|PLAIN),
              E(1,2,sched=1,opt=BIG),
              E(2,1,sched=1,opt=BIG|NOBLOCKS|CHECKSUM),
              E(1,2,1,1,sched=1,opt=BIG|PLAIN)]
T26 = [E(2,2),
              E(1,3),
              E(2,1,1,1,opt=PLAIN),
              E(1,1,1,7,opt=RESUME),
              E(1,1,1,7,opt=NOBLOCKS),
              E(1,3,2,7,sched=1,opt=TINY),
              E(2,1,2,7,sched=1),
              E(2,1,0,1,1),
              E(2,2,0,1,2,sched=1),
              E(2,2,1,7,sched=1,opt=RESUME|CHANGE),
              E(1,3,1,7,sched=1,opt=RESUME|CRASH|TINY),
              E(2,2,sched=1,opt=SPLIT|PLAIN|CHECKSUM),
              E(2,2,1,7,sched=3,ports=2),
              E(1,2,1,7,sched=3,early=1),
              E(2,2,2,7,sched=1,opt=TWOPHASE|TINY),
              E(3,1,1,7,sched=1),
              E(1,2,1,7,sched=1,opt=BIG|RESUME),
              E(1,2,2,7,sched=1,opt=BIG|CHECKSUM),
              E(1,2,sched=1,opt=BIG|RESUME|CRASH)]
check("P26", {"quick": "a real Sender and a real Receiver (all their threads) over a modelled network and file system: 0..2 files of 0..3 arbitrary bytes (or around 8192, in several reads and blocks), 1..2 connections; at most one connection breaking at any operation (reset, closed, cut off), one failing or short file-system call, one refused connection attempt, one receiver crash at any file-system call followed by a second session, one changed byte on the wire (with checksum or gcm), one read returning any part; with and without encryption, checksums, blocks, preallocation, resumption (log or directory tree), deletion, two phases, existing files, older receivers. Threads run to their next blocking point in a fixed order except for the runs without scheduling limit (plaintext and encrypted transfers of one or two files, with one fault): there, any runnable thread",
       "thorough": "two connection faults, three files, every schedule of more scenarios, expired waits at any time"},
      [dict(name="e2e", srcs=["p26_e2e.cpp", "net.cpp"] + ALL + RTF, runs=[
          R("h_transfer", Q26, Q26 + T26, weight=2, covers=["success", "failure", "receiver success", "first succeeded", "crashed", "recovered", "reset", "closed", "cut off", "flip repaired"])])])
SUM22, ENC22, RES22, SIZES22, LEAVE22, EARLY22 = 1, 2, 4, 8, 16, 32
def RB(k, opt=0, only=0, step=1): return k | opt << 2 | only << 10 | step << 20
def RA(cmds, opt=0, menu=255): return cmds | opt << 3 | menu << 9
def RW(n, first=0, opt=0): return n | first << 4 | opt << 5
check("P22", {"quick": "one connection at a time. Blocks: up to 3 of 0, 2 or 300 bytes (arbitrary first and last byte), one of which is cut at any byte (in steps for the larger scenarios), has another checksum or another byte; then a reconnect and the rest, or nothing; with and without checksums, encryption, the transfer log (read back by a next session). Anything: up to 3 commands among settings, block headers with arbitrary numbers or odd names, kinds and lengths, size, footer, done, raw bytes, with and without settings first; or 3..5 arbitrary bytes at the start or after the settings; at least 256 bytes in all. One receiving thread, fixed schedule",
       "thorough": "cuts at every byte of every scenario, more pairs of commands"},
      [dict(name="rcv", srcs=["p22_receiver.cpp", "net.cpp"] + ALL + RTF, runs=[
          R("h_blocks", [RB(1), RB(1, SUM22), RB(2, SIZES22, step=2), RB(2, SUM22 | SIZES22, step=8), RB(2, ENC22 | SIZES22, step=8), RB(2, SUM22 | RES22 | LEAVE22, step=8), RB(2, SUM22 | RES22 | LEAVE22 | EARLY22, step=64), RB(3, RES22 | LEAVE22, step=32), RB(3, ENC22, step=32)],
            [RB(2, SIZES22), RB(2, SUM22 | SIZES22), RB(2, ENC22 | SIZES22), RB(3, SUM22 | RES22 | LEAVE22 | SIZES22, step=8), RB(3, SIZES22, step=2), RB(3, ENC22 | SIZES22, step=8)],
            covers=["clean", "repaired", "resent", "left", "log checked", "part of a block"]),
          R("h_anything", [RA(1, 0, 1), RA(1, 0, 2), RA(1, RES22, 2), RA(1, 0, 4), RA(1, RES22 | LEAVE22, 4), RA(1, RES22, 8 + 16 + 32 + 64 + 128), RA(1, EARLY22, 255), RA(2, 0, 8 + 16), RA(3, 0, 8 + 128), RA(2, 0, 2 + 8)],
            [RA(1, RES22 | LEAVE22, 7), RA(1, LEAVE22, 253), RA(2, EARLY22, 8 + 16 + 128), RA(2, RES22, 2 + 8 + 128), RA(3, SUM22, 8 + 16)], covers=["survived"]),
          R("h_raw", [RW(4), RW(4, 1), RW(4, 1, SUM22), RW(5, 1, RES22)], [RW(5), RW(5, 1), RW(5, 1, SUM22)], covers=["survived"])])])

SUM23, WAITS23, BAD23, PART23 = 1, 2, 4, 16
def SH(files, mx, breaks, opt=0): return files | mx << 2 | breaks << 6 | opt << 8
def ST(files, mx, opt=0, sched=0): return files | mx << 2 | opt << 8 | sched << 13
RESUME23, TWO23, AGAIN23, BEAT23, ENDS23 = 1, 2, 4, 8, 16
def SA(answers, menu=1023, opt=0): return answers | opt << 7 | menu << 12
check("P23", {"quick": "a real Sender (all its threads) against a scripted receiver. Following the protocol: 1..3 files of 0..5 arbitrary bytes in blocks of 2, one connection breaking up to twice at any command (or before the first), any prefix of what was sent confirmed by the next local checkpoint (also a part of a block, or more than was ever sent), waits, another answer than the confirmation; two connections of which one is lost for good after any number of blocks, any prefix of its blocks confirmed in the global checkpoint, threads in a fixed order or with up to 2 free choices. Anything: up to two connections (one or two ports), each with one answer (or two, of some kinds) among done, wait, error with checkpoints of any numbers and right or wrong length, abort of any code and version, a list of received chunks with odd sizes, a local checkpoint of up to two entries with any numbers, heart beat, an unknown command, 3 arbitrary bytes, 300 zeros; first or later, with and without resumption and heart beats. File of 3 arbitrary bytes there",
       "thorough": "up to 4 free scheduling choices, more pairs of answers, connections closed at once after the answer"},
      [dict(name="snd", srcs=["p23_sender.cpp", "net.cpp"] + ALL + RTF, runs=[
          R("h_honest", [SH(1, 3, 1), SH(1, 3, 1, SUM23), SH(1, 3, 2, PART23), SH(2, 1, 1, WAITS23), SH(2, 2, 1, PART23), SH(1, 3, 1, BAD23), SH(3, 1, 1, PART23), SH(1, 5, 2, PART23), SH(1, 2, 2, BAD23 | SUM23), SH(2, 2, 1, BAD23 | WAITS23), SH(2, 3, 2, PART23)],
            [SH(2, 3, 2, PART23 | WAITS23), SH(1, 5, 3, PART23), SH(3, 2, 2, PART23)], covers=["success", "failure"]),
          R("h_takeover", [ST(1, 3), ST(2, 3, PART23), ST(2, 3, 0, 2), ST(2, 2, PART23, 2), ST(3, 2, PART23, 2)], [ST(2, 3, PART23, 4), ST(3, 3, PART23, 3)], covers=["success", "taken over"]),
          R("h_answers", [SA(1), SA(1, 4 + 8 + 32, TWO23), SA(1, 511, RESUME23 | BEAT23), SA(1, 1 + 2 + 8, TWO23 | AGAIN23), SA(2, 1 + 2 + 64 + 128 + 512), SA(2, 1 + 16)],
            [SA(1, 511, TWO23), SA(1, 511, AGAIN23), SA(1, 511, TWO23 | AGAIN23), SA(1, 511, ENDS23), SA(1, 511, TWO23 | RESUME23), SA(3, 1 + 2 + 64 + 128)], covers=["success", "failure"])])])

def KC(cfg, n, opt=0): return cfg | n << 4 | opt << 8
def KTH(cfg, n, pre=1): return cfg | n << 4 | pre << 6
check("P20", {"quick": "sequences of two or three requests of any size from 1 to about 4 seconds' worth of tokens, at any times (up to 8.6 s apart in ns, before or after the ends of earlier sleeps), for rates: average 700, 1000, 10^6, 50*10^6 per s or none, peak 1000, 1024, 1.5*10^6, 2^21, 3*10^6, 77*10^6 or none, burst given or derived; requests split by the single request limit; all users gone and back in between; new rates in between; a second user; two threads with one request each and one preemption. Sleeps are compared up to 10 ns, 1/1000 token (average) and one token per request (peak: the bucket is kept in whole tokens). Doubles are encoded as reals with rounding errors",
       "thorough": "three requests for more configurations"},
      [dict(name="thr", srcs=["p20_throttler.cpp"] + ALL + RTF, runs=[
          R("h_sequence", [KC(i, 2) for i in range(11)] + [KC(0, 3), KC(1, 3), KC(0, 2, 1), KC(1, 2, 1), KC(0, 3, 2), KC(1, 3, 2), KC(3, 2, 4), KC(1, 2, 4), KC(3, 2, 8)], [KC(2, 3), KC(7, 3), KC(3, 3), KC(0, 3, 8), KC(1, 3, 4)], covers=["delayed", "not delayed", "again", "new rates"]), R("h_threads", [KTH(1, 1), KTH(3, 1), KTH(9, 1)], [KTH(1, 1, 2), KTH(3, 1, 2)], covers=["end"])])])
