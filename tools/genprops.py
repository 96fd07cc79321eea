#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the entries stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None):
    d = {"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    assert len(title) <= 80, title
    P.append(d)


prop("P01", "Wire integers and strings are encoded losslessly and within the buffer",
     "Every integer and string written in wire format is read back as exactly the same value, consuming exactly the bytes that were produced, in every encoding the format offers (variable length, zigzag, fixed width, length prefixed). "
     "Encoding never writes outside the room it was given and reports failure instead, and decoding any byte sequence never reads outside it, never reports a value it does not contain, and never moves past its end.",
     ["inputs"], "all 64/32/16-bit values, all buffer sizes and positions, all byte strings up to the stated length",
     "The serialization tests sample a few values and byte strings; a shift, sign or off-by-one error shows only for particular magnitudes, truncations or positions.",
     ["util/SerializationUtil.h", "util/SerializationUtil.cpp"],
     [("variable length integers", "util/SerializationUtil.h:encodeVarU64/decodeVarU64"), ("zigzag", "util/SerializationUtil.h:encodeZigZag/decodeZigZag"), ("range based decoding", "util/SerializationUtil.cpp")])
prop("P02", "Every protocol message round-trips for every protocol version",
     "Each message the two sides exchange (block header, settings, done, size, abort, checkpoints, received-chunk lists, encryption settings, footer) decodes to exactly what was encoded, for every protocol version at least as old as the oldest supported one, apart from fields that version does not carry, which keep their defaults. "
     "No message encoded from legal values is longer than the maximum the protocol declares for it, which is the space each peer reserves and the amount it reads.",
     ["inputs", "configurations"], "all field values in their legal ranges, all protocol versions from the oldest supported to the current one, names and ids up to the stated length",
     "Unit tests round-trip one or two hand-picked records for a few versions; they cannot cover all version gates crossed with all magnitudes of each variable-length field.",
     ["Protocol.cpp", "Protocol.h"],
     [("header encode/decode", "Protocol.cpp:encodeHeader/decodeHeader"), ("checkpoint list", "Protocol.cpp:encodeCheckpoints/decodeCheckpoints"), ("settings/done/size/abort/footer", "Protocol.cpp"), ("chunk lists", "Protocol.cpp:encodeFileChunksInfoList")])
prop("P03", "Messages from the peer are decoded safely whatever bytes arrive",
     "Whatever bytes a peer sends, decoding a message either succeeds or reports failure: it never reads outside the received bytes, never reports having consumed more than was received, and never crashes or aborts the process. "
     "A message that is cut short is reported as malformed rather than completed with bytes that were not received.",
     ["inputs"], "all byte strings up to the stated length, all protocol versions, all buffer offsets",
     "Tests decode messages their own encoder produced; a hostile or corrupted stream is an adversarial input that samples do not reach.",
     ["Protocol.cpp", "util/SerializationUtil.cpp"],
     [("decoders", "Protocol.cpp:decode*"), ("bounded ranges", "util/SerializationUtil.cpp:makeByteRange")])
prop("P04", "Peers settle on a common protocol version or refuse",
     "Two peers that negotiate end up using a version that neither of them lacks (never newer than either one's), and a peer older than the oldest supported version is refused rather than talked to. "
     "Negotiation is stable: proposing the negotiated version again yields the same version.",
     ["inputs"], "all pairs of version numbers (32-bit)",
     "The test tries a handful of version pairs.", ["Protocol.cpp"], [("negotiation", "Protocol.cpp:negotiateProtocol")])
prop("P05", "What remains to be sent is exactly what was not received",
     "Given any set of previously received byte ranges of a file, merging them keeps exactly the same bytes as disjoint, non-adjacent, ordered ranges, and the ranges still to be sent are exactly the bytes of the file that were not received: none missing, none twice.",
     ["inputs"], "all lists of up to the stated number of ranges with arbitrary 64-bit ends, and all file sizes",
     "Tests use two or three hand-written range lists; missing or duplicated bytes appear only for particular overlaps, adjacencies, empties and orderings.",
     ["Protocol.cpp", "Protocol.h"], [("merging", "Protocol.cpp:FileChunksInfo::mergeChunks"), ("complement", "Protocol.cpp:FileChunksInfo::getRemainingChunks")])
prop("P06", "The blocks queued for a file cover exactly the bytes to be sent",
     "For every file, block size and set of previously received ranges, the blocks queued for sending are disjoint, none larger than the configured block size, and together cover exactly the bytes of the file that the receiver does not have; the totals the queue reports (blocks, bytes, files, previously sent bytes) equal what it holds. "
     "Sequence numbers identify files uniquely, and the allocation instruction sent with a file matches what the receiver already has of it.",
     ["inputs", "configurations"], "all file sizes, block sizes and received ranges within the stated number of files, blocks and ranges",
     "End-to-end tests use fixed file sizes and one block size; rounding at block boundaries, zero-size files and resumption corner cases need all values.",
     ["util/DirectorySourceQueue.cpp", "util/DirectorySourceQueue.h"],
     [("block creation", "util/DirectorySourceQueue.cpp:createIntoQueueInternal"), ("previously received data", "util/DirectorySourceQueue.cpp:setPreviouslyReceivedChunks")])
prop("P07", "Every queued block is handed to exactly one sending thread",
     "However the sending threads and the discovery thread interleave, each queued block is handed out to exactly one thread (again only after it was returned), files to delete first, then blocks with fewer earlier failures and larger sizes first; a thread is told there is no more work only when discovery has finished and the queue is empty, and no thread waits forever.",
     ["schedules", "inputs"], "all interleavings of the stated number of threads at their synchronization points, over all block sizes of the stated number of blocks",
     "Concurrency tests observe a few schedules; a lost wakeup or a double hand-out needs a particular interleaving.",
     ["util/DirectorySourceQueue.cpp"], [("hand-out", "util/DirectorySourceQueue.cpp:getNextSource"), ("return", "util/DirectorySourceQueue.cpp:returnToQueue"), ("end of discovery", "util/DirectorySourceQueue.cpp:smartNotify/buildQueueSynchronously")])
prop("P08", "After a connection loss exactly the unconfirmed blocks are sent again",
     "When the receiver reports how many blocks (and how many bytes of the next block) it holds from a connection, the sender keeps exactly those as delivered, queues every other block sent on that connection again exactly once, resuming a partly received block at the first missing byte, and rejects reports that cannot be true. "
     "Byte and block totals are conserved by these moves.",
     ["histories", "inputs"], "all sequences of the stated number of send / report / acknowledge operations, all checkpoint values (any 64-bit numbers) and block sizes",
     "Tests drop connections at a few moments; the report values, block counts and repeated reports are unbounded.",
     ["util/ThreadTransferHistory.cpp", "util/ThreadTransferHistory.h"],
     [("local and global checkpoints", "util/ThreadTransferHistory.cpp:setLocalCheckpoint/setGlobalCheckpoint"), ("return to queue", "util/ThreadTransferHistory.cpp:returnUnackedSourcesToQueue"), ("resume offset", "ByteSource.h:advanceOffset")])
prop("P09", "Coordination between worker threads neither loses nor duplicates turns",
     "Under every interleaving, an action meant for one thread runs in exactly one thread while the others wait for it and see its outcome, a rendezvous releases its participants only when all registered participants arrived and then releases all of them, and a failed attempt lets exactly one other thread try. No participant waits forever while the others are done.",
     ["schedules"], "all interleavings of 2 to 3 threads at synchronization points",
     "The existing test runs threads on a live scheduler and sees only a few schedules.",
     ["util/ThreadsController.cpp", "util/ThreadsController.h"],
     [("barrier", "util/ThreadsController.cpp:Barrier"), ("funnel", "util/ThreadsController.cpp:Funnel"), ("execute at start/end", "util/ThreadsController.h:ExecuteOnceFunc"), ("guarded condition", "util/ThreadsController.cpp:ConditionGuardImpl")])
prop("P10", "Concurrent blocks of one file allocate it exactly once",
     "When several threads receive blocks of the same file in any order and interleaving, exactly one of them sizes the file, before any of them is given it to write into; if sizing fails the others are told so; nobody waits forever. "
     "The file then exists with the announced size, an existing file is replaced only if that is allowed, and only the part of a larger or smaller previous file that should go is discarded.",
     ["schedules", "fault_sequences", "inputs"], "all interleavings of 2 to 3 threads at synchronization points, all allocation instructions, each file-system call succeeding or failing",
     "The allocation race happens only when two blocks of one file arrive simultaneously, and its failure paths need file-system errors.",
     ["util/FileCreator.cpp", "util/FileCreator.h"],
     [("allocation hand-shake", "util/FileCreator.cpp:openForFirstBlock/openForBlocks/waitForAllocationFinish"), ("sizing", "util/FileCreator.cpp:openAndSetSize/setFileSize")])
prop("P11", "Received bytes are written once, at the right place, or reported lost",
     "The bytes a block writer accepts end up in the file at the block's offset in the order given, whatever sizes the writes come in and however the operating system shortens or interrupts them; bytes outside the block are never touched. "
     "A write or flush that fails is reported as a failure, never as success.",
     ["inputs", "fault_sequences"], "all block offsets and sizes within bounds, all splits into writes, all results of each write (full, short, interrupted, error)",
     "The file writer test writes whole buffers to a healthy disk.", ["util/FileWriter.cpp"], [("writing", "util/FileWriter.cpp:write"), ("write-back", "util/FileWriter.cpp:syncFileRange/sync")])
prop("P12", "A block is read exactly: right bytes, right length, or an error",
     "Reading a block of a file yields exactly the file's bytes of that block in order and then ends, for all block offsets and sizes, buffer sizes, short reads, aligned (direct) or ordinary reads, and after resuming in the middle; if the file is shorter than announced or a read fails, the reader reports an error instead of ending normally.",
     ["inputs", "fault_sequences", "configurations"], "all offsets and sizes within bounds, all results of each read",
     "The reader test uses one file with full reads.", ["util/FileByteSource.cpp", "util/FileByteSource.h", "ByteSource.h"],
     [("reading", "util/FileByteSource.cpp:read"), ("resume", "util/FileByteSource.h:advanceOffset")])
prop("P13", "After a crash at any point the transfer log only claims data that was logged",
     "If the receiver dies at any moment, reopening its transfer log reports only file ranges that had been logged as received before the crash, drops at most the entries not yet completely written, and leaves a log that can be appended to and parsed again with the same result. "
     "Entries logged for a file that was later invalidated, resized or removed do not count, and neither do logs of another transfer, another configuration or another sender.",
     ["crash_points", "histories"], "every prefix length of the log written by all histories of the stated number of operations, all recovery ids and configurations within bounds",
     "Tests restart from a few cut points; the cut can be at any byte of any history.",
     ["util/TransferLogManager.cpp", "util/TransferLogManager.h"],
     [("entry encoding", "util/TransferLogManager.cpp:LogEncoderDecoder"), ("replay", "util/TransferLogManager.cpp:LogParser"), ("compaction", "util/TransferLogManager.cpp:compactLog")])
prop("P14", "Recovering from an arbitrary transfer log is safe",
     "Whatever bytes the transfer log contains, parsing it ends, never reads outside it, never crashes or aborts the receiver, and never reports ranges outside the file on disk or files without a valid creation entry.",
     ["inputs"], "all logs of up to the stated number of bytes",
     "Tests parse logs the program wrote; a corrupted or hostile file is an unbounded input.",
     ["util/TransferLogManager.cpp"], [("entry decoding", "util/TransferLogManager.cpp:LogEncoderDecoder::decode*"), ("entry processing", "util/TransferLogManager.cpp:LogParser::process*")])
prop("P15", "A connection URL carries the whole transfer request",
     "Parsing the URL a receiver prints gives the sender the same request: host, ports, protocol version, transfer id, encryption data, resumption and TLS flags, whatever characters they contain and for both contiguous and arbitrary port lists. "
     "Escaping and unescaping are inverse on every string, and a request that could not be represented is not silently changed into another one.",
     ["inputs", "configurations"], "all strings up to the stated length, all port lists of the stated length, all flag combinations",
     "URL tests list examples; escaping errors hide in particular characters and lengths.",
     ["WdtTransferRequest.cpp", "WdtTransferRequest.h"], [("escaping", "WdtTransferRequest.cpp:WdtUri::escape/unescape"), ("URL generation", "WdtTransferRequest.cpp:WdtTransferRequest::genWdtUrlWithSecret"), ("parsing", "WdtTransferRequest.cpp:WdtUri::process")])
prop("P16", "Any URL is parsed safely and secrets stay out of logs",
     "Any string given as a connection URL is either accepted or rejected with an error: parsing never crashes, hangs or reads outside it, and an accepted URL has a host or ports that were in it. "
     "The text form meant for logs never contains the encryption secret.",
     ["inputs"], "all URLs up to the stated length; all secrets up to the stated length",
     "Tests try a fixed list of malformed URLs.", ["WdtTransferRequest.cpp", "util/EncryptionUtils.cpp"],
     [("parsing", "WdtTransferRequest.cpp:WdtUri::process"), ("log-safe form", "WdtTransferRequest.cpp:getLogSafeString")])
prop("P17", "Encryption parameters survive exchange and malformed ones are refused",
     "Encryption parameters written in their URL-safe form and read back are the same type and the same secret, byte for byte; malformed text is refused. "
     "Parameters are reported as set exactly when they carry a usable type and secret.",
     ["inputs"], "all secrets and texts up to the stated length", "Tests use two fixed keys.", ["util/EncryptionUtils.cpp"],
     [("text form", "util/EncryptionUtils.cpp:EncryptionParams::getUrlSafeString/unserialize")])
prop("P18", "An encrypted connection delivers the same bytes, and tampering is noticed",
     "Over an encrypted connection the receiver gets exactly the bytes the sender wrote, for every way writes and reads are split and shortened and across key-stream changes, with the integrity tags in the positions both sides expect. "
     "If any byte of the stream was altered, or the stream ends early, the receiver does not treat the affected data as verified.",
     ["inputs", "fault_sequences"], "all splits of the stated number of bytes into writes and reads, all single-byte alterations, with a symbolic stand-in for the cipher",
     "The encryption tests push one buffer through; framing errors need particular splits around tag boundaries.",
     ["util/WdtSocket.cpp", "util/EncryptionUtils.cpp"], [("tag positions", "util/WdtSocket.cpp:computeNextTagOffset/readEncryptionTag/writeEncryptionTag"), ("iv change", "util/WdtSocket.cpp:checkAndChangeDecryptionIv")])
prop("P19", "Socket reads and writes return what was transferred or an error",
     "Reading or writing through a connection returns the number of bytes really transferred in order, or an error, for every pattern of short, interrupted, blocked and failing system calls; it stops within the time limit when the peer is silent and promptly when the transfer is aborted, and it never loops forever nor reports bytes that were not transferred.",
     ["fault_sequences", "inputs"], "all results of each system call and all abort moments, within the stated number of calls",
     "Network fault tests need a live link and reproduce few patterns.", ["util/WdtSocket.cpp"],
     [("abortable io", "util/WdtSocket.cpp:ioWithAbortCheck"), ("error precedence", "util/WdtSocket.cpp:getNonRetryableErrCode")])
prop("P20", "Throttling keeps the rate within the configured limits",
     "With an average or peak rate configured, the bytes granted by any moment stay within what the average rate and the burst size allow, up to one request, for every sequence of request sizes and clock readings, and a transfer is never delayed longer than the rates require. "
     "Deregistering the last transfer and registering again does not grant credit, and without limits nothing is delayed.",
     ["inputs", "histories", "configurations"], "all sequences of the stated number of requests with arbitrary sizes, times and rates in the stated ranges",
     "The throttler tests measure a few rates on a live clock with wide tolerances.", ["Throttler.cpp", "Throttler.h"],
     [("average and peak limits", "Throttler.cpp:calculateSleep/limitInternal"), ("burst bucket", "Throttler.cpp:tokenBucket")])
prop("P21", "The final report says success only if everything arrived",
     "A transfer is reported as successful only if every byte and block was transferred and no file or directory failed; recoverable thread errors do not turn a complete transfer into a failure, and integrity errors always do. "
     "Adding up per-thread results loses nothing, does not depend on their order, and keeps the most significant error.",
     ["inputs", "histories"], "all statistics values and error codes of the stated number of threads and files",
     "Tests inspect the report after real transfers, which reach few combinations of errors and counts.", ["Reporting.cpp", "Reporting.h", "ErrorCodes.h", "ErrorCodes.cpp"],
     [("sender summary", "Reporting.cpp:TransferReport"), ("receiver summary", "Reporting.cpp:TransferReport(TransferStats&&)"), ("merge", "Reporting.cpp:TransferStats::operator+=")])
prop("P22", "The receiver confirms a block only if it is intact and written",
     "The receiver counts a block as received (and logs it as such) only when all of its bytes arrived, were written, and their checksum or integrity tag matched; whatever the peer sends, a damaged or cut block is reported back as not received, and the checkpoint sent after a reconnect counts exactly the confirmed blocks. "
     "No sequence of bytes from a peer crashes the receiver or makes it write outside its buffers.",
     ["inputs", "fault_sequences"], "all byte streams of the stated length after the connection is established, cut at every point, within the stated number of commands",
     "Tests corrupt a few bytes at random; the receiver's conversation is driven by adversarial input.",
     ["ReceiverThread.cpp"], [("file command", "ReceiverThread.cpp:processFileCmd"), ("verification", "ReceiverThread.cpp:markBlockVerified/markReceivedBlocksUnverified"), ("settings, done, size", "ReceiverThread.cpp:process*Cmd")])
prop("P23", "The sender finishes only after the receiver confirmed, whatever it answers",
     "A sending thread reports success only after the receiver confirmed the end of the transfer to it; whatever bytes the receiver answers (local and global checkpoints, wait, error, abort, chunk lists, anything malformed), the sender neither crashes, nor overruns its buffers, nor loses or duplicates unconfirmed blocks, nor loops without limit.",
     ["inputs", "fault_sequences"], "all receiver answers of the stated length at each state of the conversation, within the stated number of steps",
     "Tests run the matching receiver, which never misbehaves.", ["SenderThread.cpp"],
     [("conversation", "SenderThread.cpp:readLocalCheckPoint/readReceiverCmd/processErrCmd/processDoneCmd"), ("chunk list", "SenderThread.cpp:readFileChunks"), ("block sending", "SenderThread.cpp:sendOneByteSource")])
prop("P24", "Limits on concurrent transfers are never exceeded and counts stay exact",
     "Whatever transfers are created, released and expired in whatever namespaces and order, and from however many threads, the number of active senders and receivers never exceeds the global or namespace limit, the reported counts equal the transfers that exist, and an identifier names at most one live transfer per namespace.",
     ["histories", "schedules"], "all sequences of the stated number of operations over 2 namespaces and identifiers, and interleavings of 2 threads",
     "Tests run one or two scripted sequences.", ["WdtResourceController.cpp"],
     [("quotas", "WdtResourceController.cpp:createSender/createReceiver"), ("release", "WdtResourceController.cpp:release*")])
prop("P25", "Timing statistics are consistent with the recorded samples",
     "Whatever values are recorded, in one collector or in several that are merged, the reported count, minimum, maximum, sum and average equal those of the recorded values and every percentile lies between minimum and maximum and does not decrease with the percentage.",
     ["inputs", "histories"], "all sequences of the stated number of recorded values", "Histogram tests record a few values.",
     ["util/Stats.cpp", "util/Stats.h"], [("counters", "util/Stats.cpp:Counter"), ("histograms", "util/Stats.cpp:Histogram")])
prop("P26", "A transfer over failing connections delivers every file intact",
     "When sender and receiver run against each other and the connection breaks at arbitrary points, then either the sender reports an error or every file exists at the receiver with exactly the sender's content; blocks that were confirmed are not sent again, and the two sides never wait for each other forever.",
     ["fault_sequences", "schedules", "inputs"], "one to two small files, one connection, every break point of the byte stream in either direction within the stated number of breaks",
     "End-to-end tests break connections at random moments and see a tiny share of the cut points.",
     ["SenderThread.cpp", "ReceiverThread.cpp", "util/ThreadTransferHistory.cpp", "util/FileWriter.cpp", "util/FileCreator.cpp"],
     [("sender state machine", "SenderThread.cpp"), ("receiver state machine", "ReceiverThread.cpp")])

prop("P27", "Discovery finds exactly the selected files, or says what it missed",
     "Walking a directory tree queues every regular file of it that the include, exclude and prune patterns select exactly once, with its path relative to the root and its size, and nothing else; with links followed this extends to what links lead to, and the walk ends even if links form cycles. "
     "If something could not be examined or the transfer was aborted, discovery does not report success, and a directory that could not be opened or read completely makes the transfer fail.",
     ["inputs", "configurations", "fault_sequences"], "all trees within the stated depth and number of entries, all pattern outcomes, each file-system call succeeding or failing",
     "Discovery tests walk one fixed tree on a healthy file system; unreadable directories, unknown entry types and cyclic links need particular combinations.",
     ["util/DirectorySourceQueue.cpp"],
     [("walk", "util/DirectorySourceQueue.cpp:explore"), ("failed directories", "util/DirectorySourceQueue.cpp:failedDirectories_")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
