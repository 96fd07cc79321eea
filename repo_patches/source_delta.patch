From bd8cc131a6616d60edcd7b9507aff416d0fc22c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 01/26] fix: accept a checkpoint without partial block after
 one with the same number of blocks

A receiver that got nothing after the acknowledged blocks sends zeroes as the
details of the last block. These compared equal to the details of the first
block of file 0 (file numbers start at 0 when resuming), so that the checkpoint,
or the one made by returnUnackedSourcesToQueue, was refused as invalid.
---
 util/ThreadTransferHistory.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 3a47ee9..45d64af 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -150,8 +150,13 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
   }
   bool noProgress = false;
   // numBlocks same
-  if (checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
-      checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
+  if (checkpoint.lastBlockReceivedBytes == 0) {
+    // nothing was received after the last acknowledged block, so the details of
+    // the last block are not set and can not be compared
+    noProgress = true;
+  } else if (lastCheckpoint_->lastBlockReceivedBytes > 0 &&
+             checkpoint.lastBlockSeqId == lastCheckpoint_->lastBlockSeqId &&
+             checkpoint.lastBlockOffset == lastCheckpoint_->lastBlockOffset) {
     // same block
     if (checkpoint.lastBlockReceivedBytes !=
         lastCheckpoint_->lastBlockReceivedBytes) {
@@ -161,12 +166,6 @@ ErrorCode ThreadTransferHistory::validateCheckpoint(
       return INVALID_CHECKPOINT;
     }
     noProgress = true;
-  } else {
-    // different block
-    WDT_CHECK(checkpoint.lastBlockReceivedBytes >= 0);
-    if (checkpoint.lastBlockReceivedBytes == 0) {
-      noProgress = true;
-    }
   }
   if (noProgress && !globalCheckpoint) {
     // we can get same global checkpoint multiple times, so no need to check for
-- 
2.43.0


From 2365d1825b5e69a2b8e8eb48c28315f1404409aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:28 +0000
Subject: [PATCH 02/26] fix: ignore the partial block of a checkpoint that has
 more bytes than the block

A (bad) receiver could make the sender return a source of negative size to the
queue.
---
 util/ThreadTransferHistory.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 45d64af..5507b0b 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -201,6 +201,13 @@ void ThreadTransferHistory::markSourceAsFailed(
       validCheckpoint = true;
     }
   }
+  if (validCheckpoint &&
+      checkpoint->lastBlockReceivedBytes > source->getSize()) {
+    WLOG(ERROR) << "Checkpoint has more bytes than the history block. "
+                   "Checkpoint: "
+                << *checkpoint << " History: " << source->getSize();
+    validCheckpoint = false;
+  }
   int64_t receivedBytes =
       (validCheckpoint ? checkpoint->lastBlockReceivedBytes : 0);
   TransferStats& sourceStats = source->getTransferStats();
-- 
2.43.0


From a27330040300645cfc488abda1ee50d2c7446cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 03/26] fix: errorCodeToStr() with a negative code

A status byte received from the other side may be negative, and was used as an
index.
---
 ErrorCodes.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ErrorCodes.cpp b/ErrorCodes.cpp
index 87e7eb9..f0d2894 100644
--- a/ErrorCodes.cpp
+++ b/ErrorCodes.cpp
@@ -16,10 +16,12 @@ namespace facebook {
 namespace wdt {
 std::string errorCodeToStr(ErrorCode code) {
   int numErrorCodes = sizeof(kErrorToStr) / sizeof(kErrorToStr[0]);
-  if (code < numErrorCodes) {
-    return kErrorToStr[code];
+  // codes received from the other side can have any value
+  const int intCode = static_cast<int>(code);
+  if (intCode >= 0 && intCode < numErrorCodes) {
+    return kErrorToStr[intCode];
   }
-  return folly::to<std::string>(code);
+  return folly::to<std::string>(intCode);
 }
 
 ErrorCode getMoreInterestingError(ErrorCode err1, ErrorCode err2) {
-- 
2.43.0


From 8211c39a5f52a39d4e8128fab7a46f882df22f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 04/26] fix: keep the more interesting error when announced
 totals do not match

TransferStats::operator+= replaced e.g. ENCRYPTION_ERROR by ERROR.
---
 Reporting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 78ebfb2..2b0e6ff 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -37,7 +37,7 @@ TransferStats& TransferStats::operator+=(const TransferStats& stats) {
     WLOG_IF(ERROR, localErrCode_ == OK)
         << "Mismatch in the numBlocksSend " << numBlocksSend_ << " "
         << stats.numBlocksSend_;
-    localErrCode_ = ERROR;
+    localErrCode_ = getMoreInterestingError(localErrCode_, ERROR);
   }
   if (totalSenderBytes_ == -1) {
     totalSenderBytes_ = stats.totalSenderBytes_;
@@ -46,7 +46,7 @@ TransferStats& TransferStats::operator+=(const TransferStats& stats) {
     WLOG_IF(ERROR, localErrCode_ == OK)
         << "Mismatch in the total sender bytes " << totalSenderBytes_ << " "
         << stats.totalSenderBytes_;
-    localErrCode_ = ERROR;
+    localErrCode_ = getMoreInterestingError(localErrCode_, ERROR);
   }
   localErrCode_ = getMoreInterestingError(localErrCode_, stats.localErrCode_);
   WVLOG(2) << "Local ErrorCode now " << localErrCode_ << " from "
-- 
2.43.0


From 10574dcd0eaf791043144d6317100fa06e157153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:21 +0000
Subject: [PATCH 05/26] fix: Counter::merge() into an empty counter, and of the
 minimum

The minimum stayed 0 after merging into an empty counter, the one that includes
zeroes was not merged at all, and a negative maximum was lost.
---
 util/Stats.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/util/Stats.cpp b/util/Stats.cpp
index 5a4d504..34de85d 100644
--- a/util/Stats.cpp
+++ b/util/Stats.cpp
@@ -69,12 +69,20 @@ void Counter::record(int64_t v) {
 }
 
 void Counter::merge(const Counter& c) {
-  // merge count_, min_, max_, sum_, sumOfSquares_;
+  if (c.count_ == 0) {
+    return;
+  }
+  // merge count_, realMin_, min_, max_, sum_, sumOfSquares_;
+  const bool wasEmpty = (count_ == 0);
   count_ += c.count_;
-  if (c.min_ && c.min_ < min_) {
+  if (wasEmpty || c.realMin_ < realMin_) {
+    realMin_ = c.realMin_;
+  }
+  // min_ doesn't include 0s
+  if (c.min_ && (min_ == 0 || c.min_ < min_)) {
     min_ = c.min_;
   }
-  if (c.max_ > max_) {
+  if (wasEmpty || c.max_ > max_) {
     max_ = c.max_;
   }
   sum_ += c.sum_;
-- 
2.43.0


From 3fd8aca2e5c7628af43cc05cd42d7015a746111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:54 +0000
Subject: [PATCH 06/26] fix: initialise the minimum of every kind of
 performance statistic

---
 Reporting.cpp | 2 ++
 Reporting.h   | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/Reporting.cpp b/Reporting.cpp
index 2b0e6ff..c28151a 100644
--- a/Reporting.cpp
+++ b/Reporting.cpp
@@ -372,6 +372,8 @@ PerfStatReport::PerfStatReport(const WdtOptions& options) {
       "Mismatch between number of stat types and number of descriptions");
   networkTimeoutMillis_ =
       std::min<int>(options.read_timeout_millis, options.write_timeout_millis);
+  std::fill(std::begin(minValueMicros_), std::end(minValueMicros_),
+            std::numeric_limits<int64_t>::max());
 }
 
 /**
diff --git a/Reporting.h b/Reporting.h
index 44cae92..1f565b0 100644
--- a/Reporting.h
+++ b/Reporting.h
@@ -589,7 +589,7 @@ class PerfStatReport {
   /// max time for different stat types
   int64_t maxValueMicros_[kNumTypes_] = {0};
   /// min time for different stat types
-  int64_t minValueMicros_[kNumTypes_] = {std::numeric_limits<int64_t>::max()};
+  int64_t minValueMicros_[kNumTypes_];
   /// number of records for different stat types
   int64_t count_[kNumTypes_] = {0};
   /// sum of all records for different stat types
-- 
2.43.0


From 29b07fef5522f2508ef4bc37293d91d6020790c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 07/26] fix: do not fsync a transfer log that a failed write
 has closed

---
 util/TransferLogManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index b090251..90612ba 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -464,9 +464,9 @@ void TransferLogManager::invalidateDirectory() {
         << "Disk write error while writing directory invalidation entry "
         << written << " " << size;
     closeLog();
+    return;
   }
   fsyncLog();
-  return;
 }
 
 void TransferLogManager::writeLogHeader() {
-- 
2.43.0


From ae3c952b6817569b85df074f53fe1b80a1bbf347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:06 +0000
Subject: [PATCH 08/26] fix: overflow when a transfer log entry has huge offset
 and size

---
 util/TransferLogManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 90612ba..c0144dd 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -954,7 +954,7 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   }
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
-  if (offset + blockSize > chunksInfo.getFileSize()) {
+  if (blockSize > chunksInfo.getFileSize() - offset) {
     WLOG(ERROR) << "Block end point is greater than file size in disk "
                 << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
                 << offset << " block-size " << blockSize
-- 
2.43.0


From 593ed76f88b5982d783569612b7c9f94acaa6774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 09/26] fix: forget the size of a file that was invalidated in
 the transfer log

---
 util/TransferLogManager.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index c0144dd..39a1b78 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -993,6 +993,7 @@ ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
     return INVALID_LOG;
   }
   fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
   invalidSeqIds_.erase(seqId);
   return OK;
 }
-- 
2.43.0


From 579ee1679b856dd3ebaf687afb0ba0dd7a1037da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 10/26] fix: a file that shrank or vanished must not invalidate
 the whole transfer log

Entries of a file that has been made smaller after they were written (block
beyond the size on disk, resize beyond the size on disk, resize of a file
whose creation entry failed the size check) made the parser reject the log.
Treat such a file as invalid instead, as for a creation entry that does not
match.
---
 util/TransferLogManager.cpp | 33 ++++++++++++++++++++++++---------
 util/TransferLogManager.h   |  4 ++++
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/util/TransferLogManager.cpp b/util/TransferLogManager.cpp
index 39a1b78..2f309ef 100644
--- a/util/TransferLogManager.cpp
+++ b/util/TransferLogManager.cpp
@@ -891,6 +891,11 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
                 << seqId << " " << fileSize;
     return INVALID_LOG;
   }
+  if (invalidSeqIds_.find(seqId) != invalidSeqIds_.end()) {
+    WLOG(INFO) << "File resize entry for an invalid sequence-id " << seqId
+               << ", ignoring";
+    return OK;
+  }
   auto it = fileInfoMap_.find(seqId);
   if (it == fileInfoMap_.end()) {
     WLOG(ERROR) << "File resize entry for unknown sequence-id " << seqId << " "
@@ -909,10 +914,12 @@ ErrorCode LogParser::processFileResizeEntry(char* buf, int64_t size) {
 
   if (options_.shouldPreallocateFiles() &&
       fileSize > chunksInfo.getFileSize()) {
-    WLOG(ERROR) << "Size on the disk is less than the resized size for "
-                << fileName << " seq-id " << seqId << " disk-size "
-                << chunksInfo.getFileSize() << " resized-size " << fileSize;
-    return INVALID_LOG;
+    // the file has been made smaller after that
+    WLOG(WARNING) << "Size on the disk is less than the resized size for "
+                  << fileName << " seq-id " << seqId << " disk-size "
+                  << chunksInfo.getFileSize() << " resized-size " << fileSize;
+    markFileInvalid(seqId);
+    return OK;
   }
   sizeIt->second = fileSize;
   return OK;
@@ -955,16 +962,24 @@ ErrorCode LogParser::processBlockWriteEntry(char* buf, int64_t size) {
   FileChunksInfo& chunksInfo = it->second;
   // check whether the block is within disk size
   if (blockSize > chunksInfo.getFileSize() - offset) {
-    WLOG(ERROR) << "Block end point is greater than file size in disk "
-                << chunksInfo.getFileName() << " seq-id " << seqId << " offset "
-                << offset << " block-size " << blockSize
-                << " file size in disk " << chunksInfo.getFileSize();
-    return INVALID_LOG;
+    // the file has been made smaller after that
+    WLOG(WARNING) << "Block end point is greater than file size in disk "
+                  << chunksInfo.getFileName() << " seq-id " << seqId
+                  << " offset " << offset << " block-size " << blockSize
+                  << " file size in disk " << chunksInfo.getFileSize();
+    markFileInvalid(seqId);
+    return OK;
   }
   chunksInfo.addChunk(Interval(offset, offset + blockSize));
   return OK;
 }
 
+void LogParser::markFileInvalid(int64_t seqId) {
+  fileInfoMap_.erase(seqId);
+  seqIdToSizeMap_.erase(seqId);
+  invalidSeqIds_.insert(seqId);
+}
+
 ErrorCode LogParser::processFileInvalidationEntry(char* buf, int64_t size) {
   if (!headerParsed_) {
     WLOG(ERROR) << "Invalid log: File invalidation entry found before transfer "
diff --git a/util/TransferLogManager.h b/util/TransferLogManager.h
index 92fc5a0..f2076d7 100644
--- a/util/TransferLogManager.h
+++ b/util/TransferLogManager.h
@@ -349,6 +349,10 @@ class LogParser {
    */
   bool writeFileInvalidationEntries(int fd, const std::set<int64_t>& seqIds);
 
+  /// forgets a file which does not have the data the log claims it has, and
+  /// remembers that its entries are to be ignored
+  void markFileInvalid(int64_t seqId);
+
   ErrorCode processHeaderEntry(char* buf, int64_t max, int64_t size,
                                std::string& senderIp);
 
-- 
2.43.0


From 6c93bf84bfaa35252e1aa8d3be13816ced5f1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:36 +0000
Subject: [PATCH 11/26] fix: a direct read that ends before the requested
 position is an unexpected EOF

The read starts at the previous block boundary, so that with a file which
became shorter it could return a non-null buffer with a size of zero or less,
and the sender aborts on that.
---
 util/FileByteSource.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/FileByteSource.cpp b/util/FileByteSource.cpp
index a67a719..6babcd0 100644
--- a/util/FileByteSource.cpp
+++ b/util/FileByteSource.cpp
@@ -135,7 +135,10 @@ char* FileByteSource::read(int64_t& size) {
     transferStats_.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
     return nullptr;
   }
-  if (numRead == 0) {
+  if (numRead <= offsetRemainder) {
+    // nothing was read from the requested position on. With direct reads, the
+    // read starts at the previous block boundary and can still return bytes
+    // before that position, if the file is shorter than expected.
     WLOG(ERROR) << "Unexpected EOF on " << metadata_->fullPath << " need align "
                 << alignedReadNeeded_ << " physicalRead " << physicalRead
                 << " offset " << offset_ << " seepPos " << seekPos
-- 
2.43.0


From 501fce5d340317519167485a92fd16d8a9bffe57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:45 +0000
Subject: [PATCH 12/26] fix: a directory that could not be read completely is a
 failed directory

An error of readdir() was only logged, so that the files not seen were missing
from a transfer which reported success.
---
 util/DirectorySourceQueue.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 5b889fe..3be51e7 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -298,6 +298,8 @@ bool DirectorySourceQueue::explore() {
         if (errno) {
           WPLOG(ERROR) << "Error reading dir " << fullPath;
           // closedir always called
+          std::lock_guard<std::mutex> lock(mutex_);
+          failedDirectories_.emplace_back(fullPath);
           hasError = true;
         } else {
           WVLOG(2) << "Done with " << fullPath;
-- 
2.43.0


From dc50c4330431f82f65aa701f8ef55f4bf55e3127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:46 +0000
Subject: [PATCH 13/26] fix: data race on the list of failed directories

Sending threads look at it, with the lock held, while discovery adds to it.
---
 util/DirectorySourceQueue.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 3be51e7..2ec2057 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -280,6 +280,7 @@ bool DirectorySourceQueue::explore() {
     DIR* dirPtr = opendir(fullPath.c_str());
     if (!dirPtr) {
       WPLOG(ERROR) << "Error opening dir " << fullPath;
+      std::lock_guard<std::mutex> lock(mutex_);
       failedDirectories_.emplace_back(fullPath);
       hasError = true;
       continue;
-- 
2.43.0


From 747bad4094f06f64fa465e21fcbe0dfbe3f11025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:14 +0000
Subject: [PATCH 14/26] fix: refuse out-of-range encryption types and leave
 nothing set after an error

The type digits were accumulated without a bound, so that for instance
"100000001:ab" was accepted as type 1, and on an error the part of the
secret decoded so far stayed in the output.
---
 util/EncryptionUtils.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/util/EncryptionUtils.cpp b/util/EncryptionUtils.cpp
index ae50ef9..5ff140f 100644
--- a/util/EncryptionUtils.cpp
+++ b/util/EncryptionUtils.cpp
@@ -141,11 +141,16 @@ ErrorCode EncryptionParams::unserialize(const string& input,
     int v = WdtUri::fromHex(c);
     if (v < 0) {
       WLOG(ERROR) << "Not hex found " << (int)c << " in " << input;
+      out.erase();
       return ERROR;
     }
     if (state == IN_TYPE) {
       // Pre : hex digits
       type = (type << 4) | v;
+      if (type >= NUM_ENC_TYPES) {
+        WLOG(ERROR) << "Encryption type out of range " << type;
+        return ERROR;
+      }
       continue;
     }
     if (state != RIGHT_HEX) {
@@ -166,10 +171,7 @@ ErrorCode EncryptionParams::unserialize(const string& input,
   if (state != LEFT_HEX) {
     WLOG(ERROR) << "Odd number of hex in encryption data " << input
                 << " decoded up to: " << out.data_;
-    return ERROR;
-  }
-  if (type <= ENC_NONE || type >= NUM_ENC_TYPES) {
-    WLOG(ERROR) << "Encryption type out of range " << type;
+    out.erase();
     return ERROR;
   }
   out.type_ = static_cast<EncryptionType>(type);
-- 
2.43.0


From fe6184a721459cc137ef5d91d492ad428efff6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:48 +0000
Subject: [PATCH 15/26] fix: refuse a port range that goes beyond 65535

num_ports of a URL was not checked: a large value made the request
allocate gigabytes and port numbers overflow.
---
 WdtTransferRequest.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/WdtTransferRequest.cpp b/WdtTransferRequest.cpp
index 34a6f6c..698f605 100644
--- a/WdtTransferRequest.cpp
+++ b/WdtTransferRequest.cpp
@@ -414,6 +414,11 @@ WdtTransferRequest::WdtTransferRequest(const string& uriString) {
       errorCode = URI_PARSE_ERROR;
     }
   }
+  if (errorCode == OK && numPorts > 0 &&
+      int64_t(startPort) + numPorts - 1 > 65535) {
+    WLOG(ERROR) << "Invalid port range " << startPort << " + " << numPorts;
+    errorCode = URI_PARSE_ERROR;
+  }
   if (errorCode == OK) {
     ports = WdtTransferRequest::genPortsVector(startPort, numPorts);
   }
-- 
2.43.0


From 82450c09ceee56d271ee84a6fdbee54b796b687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:32 +0000
Subject: [PATCH 16/26] fix: deregistering a namespace counts transfers created
 meanwhile

A create that had already looked up the namespace could add its transfer
after deRegisterWdtNamespace had released everything: the global count
then stayed too high for ever.
---
 WdtResourceController.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/WdtResourceController.cpp b/WdtResourceController.cpp
index 658eea0..edf82d8 100644
--- a/WdtResourceController.cpp
+++ b/WdtResourceController.cpp
@@ -655,6 +655,12 @@ ErrorCode WdtResourceController::deRegisterWdtNamespace(
     }
     namespaceMap_.erase(it);
   }
+  // a concurrent create may still be adding to this controller
+  while (controller.use_count() > 1) {
+    /* sleep override */
+    usleep(kDelTimeToSleepMillis * 1000);
+    WLOG(INFO) << "Trying to delete the namespace " << wdtNamespace;
+  }
   int numSenders = controller->releaseAllSenders();
   int numReceivers = controller->releaseAllReceivers();
 
@@ -663,12 +669,6 @@ ErrorCode WdtResourceController::deRegisterWdtNamespace(
     numSenders_ -= numSenders;
     numReceivers_ -= numReceivers;
   }
-
-  while (controller.use_count() > 1) {
-    /* sleep override */
-    usleep(kDelTimeToSleepMillis * 1000);
-    WLOG(INFO) << "Trying to delete the namespace " << wdtNamespace;
-  }
   WLOG(INFO) << "Deleted the namespace " << wdtNamespace;
   return OK;
 }
-- 
2.43.0


From a13387cd7648d936c4a34f4ad65a252094275cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:00 +0000
Subject: [PATCH 17/26] fix: an entry that cannot be examined during discovery
 counts as failed

---
 util/DirectorySourceQueue.cpp | 27 +++++++++++++++++++--------
 util/DirectorySourceQueue.h   |  3 +++
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/util/DirectorySourceQueue.cpp b/util/DirectorySourceQueue.cpp
index 2ec2057..8c9e482 100644
--- a/util/DirectorySourceQueue.cpp
+++ b/util/DirectorySourceQueue.cpp
@@ -341,8 +341,13 @@ bool DirectorySourceQueue::explore() {
         // On XFS we don't know yet if this is a symlink, so check
         // if following symlinks is ok we will do stat() too
         if (lstat(newFullPath.c_str(), &fileStat) != 0) {
+          const int errnum = errno;
           WPLOG(ERROR) << "lstat() failed on path " << newFullPath;
           hasError = true;
+          if (errnum != ENOENT) {
+            // exists (was not just removed), but can not be sent
+            addFailedSource(newRelativePath);
+          }
           continue;
         }
         isLink = S_ISLNK(fileStat.st_mode);
@@ -351,14 +356,20 @@ bool DirectorySourceQueue::explore() {
           // Use stat to see if the pointed file is of the right type
           // (overrides previous stat call result)
           if (stat(newFullPath.c_str(), &fileStat) != 0) {
+            const int errnum = errno;
             WPLOG(ERROR) << "stat() failed on path " << newFullPath;
             hasError = true;
+            if (errnum != ENOENT && errnum != ENOTDIR && errnum != ELOOP) {
+              // not just a dangling link
+              addFailedSource(newRelativePath);
+            }
             continue;
           }
           newFullPath = resolvePath(newFullPath);
           if (newFullPath.empty()) {
             // already logged error
             hasError = true;
+            addFailedSource(newRelativePath);
             continue;
           }
           WVLOG(2) << "Resolved symlink " << dirEntryRes->d_name << " to "
@@ -581,14 +592,7 @@ bool DirectorySourceQueue::enqueueFiles(std::vector<WdtFileInfo>& fileInfo) {
       struct stat fileStat;
       if (stat(fullPath.c_str(), &fileStat) != 0) {
         WPLOG(ERROR) << "stat failed on path " << fullPath;
-
-        TransferStats failedSourceStat(info.fileName);
-        failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
-        {
-          std::unique_lock<std::mutex> lock(mutex_);
-          failedSourceStats_.emplace_back(std::move(failedSourceStat));
-        }
-
+        addFailedSource(info.fileName);
         return false;
       }
       info.fileSize = fileStat.st_size;
@@ -608,6 +612,13 @@ int64_t DirectorySourceQueue::getCount() const {
   return numEntries_;
 }
 
+void DirectorySourceQueue::addFailedSource(const string& name) {
+  TransferStats failedSourceStat(name);
+  failedSourceStat.setLocalErrorCode(BYTE_SOURCE_READ_ERROR);
+  std::lock_guard<std::mutex> lock(mutex_);
+  failedSourceStats_.emplace_back(std::move(failedSourceStat));
+}
+
 const PerfStatReport& DirectorySourceQueue::getPerfReport() const {
   return threadCtx_->getPerfReport();
 }
diff --git a/util/DirectorySourceQueue.h b/util/DirectorySourceQueue.h
index c2bf35f..dd6b2cc 100644
--- a/util/DirectorySourceQueue.h
+++ b/util/DirectorySourceQueue.h
@@ -265,6 +265,9 @@ class DirectorySourceQueue : public SourceQueue {
    */
   bool enqueueFiles(std::vector<WdtFileInfo>& fileInfo);
 
+  /// records a source that can not be read
+  void addFailedSource(const std::string& name);
+
   /**
    * initial creation from either explore or enqueue files, uses
    * createIntoQueueInternal to create blocks
-- 
2.43.0


From 7a6d7b44181aa6e54531a9ea4e122930ee91bf4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 18/26] fix: the rest of a partly read header goes after what
 was read

---
 ReceiverThread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index dd9e2f7..4de5ce7 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -429,9 +429,9 @@ ReceiverState ReceiverThread::processFileCmd() {
   sendHeartBeat();
 
   if (headerLen > numRead_) {
-    int64_t end = oldOffset_ + numRead_;
     numRead_ =
-        readAtLeast(*socket_, buf_ + end, bufSize_ - end, headerLen, numRead_);
+        readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                    headerLen, numRead_);
   }
   if (numRead_ < headerLen) {
     WTLOG(ERROR) << "Unable to read full header " << headerLen << " "
-- 
2.43.0


From 936f2f4c55dcdd7ae1e5defaa21dc94692bc79db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:09 +0000
Subject: [PATCH 19/26] fix: refuse a header longer than any legal one and keep
 room for the next command

---
 ReceiverThread.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 4de5ce7..bc6f2f1 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -256,6 +256,13 @@ ReceiverState ReceiverThread::sendLocalCheckpoint() {
 /***READ_NEXT_CMD***/
 ReceiverState ReceiverThread::readNextCmd() {
   WTVLOG(1) << "entered READ_NEXT_CMD state";
+  if (bufSize_ - off_ < Protocol::kMaxHeader) {
+    // leave room for the longest command
+    if (numRead_ > 0) {
+      memmove(buf_, buf_ + off_, numRead_);
+    }
+    off_ = 0;
+  }
   oldOffset_ = off_;
   // TODO: we shouldn't have off_ here and buffer/size inside buffer.
   numRead_ = readAtLeast(*socket_, buf_ + off_, bufSize_ - off_,
@@ -418,8 +425,9 @@ ReceiverState ReceiverThread::processFileCmd() {
   }
   int16_t headerLen = folly::loadUnaligned<int16_t>(buf_ + off_);
   headerLen = folly::Endian::little(headerLen);
-  if (headerLen <= 0) {
-    WTLOG(ERROR) << "Header length must be positive " << headerLen;
+  if (headerLen <= 0 || headerLen > Protocol::kMaxHeader) {
+    WTLOG(ERROR) << "Header length must be positive and at most "
+                 << Protocol::kMaxHeader << " " << headerLen;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
-- 
2.43.0


From fbbcb6fa320238933fd3495656eb3e99f8dbba24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 20/26] fix: refuse settings without a read timeout and DONE
 before settings

---
 ReceiverThread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index bc6f2f1..4ea8d2c 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -347,6 +347,12 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     threadStats_.setLocalErrorCode(ID_MISMATCH);
     return SEND_ABORT_CMD;
   }
+  if (settings.readTimeoutMillis <= 0) {
+    WTLOG(ERROR) << "Invalid sender read timeout "
+                 << settings.readTimeoutMillis;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   senderReadTimeout_ = settings.readTimeoutMillis;
   senderWriteTimeout_ = settings.writeTimeoutMillis;
   isBlockMode_ = !settings.blockModeDisabled;
@@ -698,7 +704,7 @@ void ReceiverThread::markReceivedBlocksVerified() {
 
 ReceiverState ReceiverThread::processDoneCmd() {
   WTVLOG(1) << "entered PROCESS_DONE_CMD state";
-  if (numRead_ != Protocol::kMinBufLength) {
+  if (numRead_ != Protocol::kMinBufLength || senderReadTimeout_ <= 0) {
     WTLOG(ERROR) << "Unexpected state for done command" << " off_: " << off_
                  << " numRead_: " << numRead_;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-- 
2.43.0


From b94cdb382c3db9bf81ba164a868cb4e375e299da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:47 +0000
Subject: [PATCH 21/26] fix: refuse a block header with an invalid name or
 allocation status

---
 ReceiverThread.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 4ea8d2c..3294ee7 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -474,6 +474,14 @@ ReceiverState ReceiverThread::processFileCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return FINISH_WITH_ERROR;
   }
+  const std::string& fileName = blockDetails.fileName;
+  if (fileName.empty() || fileName.front() == '/' || fileName.back() == '/' ||
+      blockDetails.allocationStatus > TO_BE_DELETED) {
+    WTLOG(ERROR) << "Invalid file header, name " << fileName << " status "
+                 << blockDetails.allocationStatus;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return FINISH_WITH_ERROR;
+  }
   if (blockDetails.allocationStatus == TO_BE_DELETED &&
       (blockDetails.fileSize != 0 || blockDetails.dataSize != 0)) {
     WTLOG(ERROR) << "Invalid file header, file to be deleted, but "
-- 
2.43.0


From a66fb906e800ba7d8f1c45c8902a8a3d50887365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:59 +0000
Subject: [PATCH 22/26] fix: settings with a long transfer id are sent and read
 completely

---
 ReceiverThread.cpp | 27 ++++++++++++++++++++-------
 SenderThread.cpp   |  5 ++++-
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ReceiverThread.cpp b/ReceiverThread.cpp
index 3294ee7..79d985a 100644
--- a/ReceiverThread.cpp
+++ b/ReceiverThread.cpp
@@ -331,13 +331,26 @@ ReceiverState ReceiverThread::processSettingsCmd() {
     socket_->disableIvChange();
   }
 
-  success = Protocol::decodeSettings(
-      threadProtocolVersion_, buf_, off_,
-      oldOffset_ + Protocol::kMaxVersion + Protocol::kMaxSettings, settings);
-  if (!success) {
-    WTLOG(ERROR) << "Unable to decode settings cmd ";
-    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
-    return FINISH_WITH_ERROR;
+  const int64_t maxLen = Protocol::kMaxVersion + Protocol::kMaxSettings;
+  const int64_t settingsOffset = off_;
+  while (!Protocol::decodeSettings(threadProtocolVersion_, buf_, off_,
+                                   oldOffset_ + std::min(numRead_, maxLen),
+                                   settings)) {
+    if (numRead_ >= maxLen) {
+      WTLOG(ERROR) << "Unable to decode settings cmd ";
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return FINISH_WITH_ERROR;
+    }
+    // a long transfer-id may not have arrived completely
+    off_ = settingsOffset;
+    const int64_t lastNumRead = numRead_;
+    numRead_ = readAtLeast(*socket_, buf_ + oldOffset_, bufSize_ - oldOffset_,
+                           lastNumRead + 1, lastNumRead);
+    if (numRead_ <= lastNumRead) {
+      WTLOG(ERROR) << "Unable to read settings cmd " << numRead_;
+      threadStats_.setLocalErrorCode(SOCKET_READ_ERROR);
+      return ACCEPT_WITH_TIMEOUT;
+    }
   }
   auto senderId = settings.transferId;
   auto transferId = wdtParent_->getTransferId();
diff --git a/SenderThread.cpp b/SenderThread.cpp
index add7038..93cee7f 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -233,7 +233,10 @@ SenderState SenderThread::sendSettings() {
   settings.enableHeartBeat = enableHeartBeat_;
   Protocol::encodeSettings(threadProtocolVersion_, buf_, off,
                            Protocol::kMaxSettings, settings);
-  int64_t toWrite = sendFileChunks ? Protocol::kMinBufLength : off;
+  int64_t toWrite = off;
+  if (sendFileChunks && toWrite < Protocol::kMinBufLength) {
+    toWrite = Protocol::kMinBufLength;
+  }
   int64_t written = socket_->write(buf_, toWrite);
   if (written != toWrite) {
     WTLOG(ERROR) << "Socket write failure " << written << " " << toWrite;
-- 
2.43.0


From 3cbce0b7c52a9ba8fa63e33db9ae3a4345d5a7b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 23/26] fix: sender checks the lengths in a received file chunk
 list

---
 SenderThread.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 93cee7f..ca5a4bb 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -557,16 +557,22 @@ SenderState SenderThread::readFileChunks() {
   threadStats_.addHeaderBytes(numRead);
   int64_t off = 0;
   int64_t bufSize, numFiles;
-  Protocol::decodeChunksCmd(buf_, off, bufSize_, bufSize, numFiles);
+  const bool decoded =
+      Protocol::decodeChunksCmd(buf_, off, bufSize_, bufSize, numFiles);
   WTLOG(INFO) << "File chunk list has " << numFiles
               << " entries and is broken in buffers of length " << bufSize;
-  if (bufSize < 0 || numFiles < 0) {
+  if (!decoded || bufSize < 0 || numFiles < 0) {
     WLOG(ERROR) << "Decoded bogus size for file chunks list bufSize = "
                 << bufSize << " num files " << numFiles;
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
-  std::unique_ptr<char[]> chunkBuffer(new char[bufSize]);
+  std::unique_ptr<char[]> chunkBuffer(new (std::nothrow) char[bufSize]);
+  if (!chunkBuffer) {
+    WTLOG(ERROR) << "Unable to allocate file chunks buffer " << bufSize;
+    threadStats_.setLocalErrorCode(MEMORY_ALLOCATION_ERROR);
+    return END;
+  }
   std::vector<FileChunksInfo> fileChunksInfoList;
   while (true) {
     int64_t numFileChunks = fileChunksInfoList.size();
@@ -594,6 +600,11 @@ SenderState SenderThread::readFileChunks() {
     }
     toRead = folly::loadUnaligned<int32_t>(buf_);
     toRead = folly::Endian::little(toRead);
+    if (toRead <= 0 || toRead > bufSize) {
+      WTLOG(ERROR) << "Invalid length of file chunks list " << toRead;
+      threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+      return END;
+    }
     numRead = socket_->read(chunkBuffer.get(), toRead);
     if (numRead != toRead) {
       WTLOG(ERROR) << "Socket read error " << toRead << " " << numRead;
-- 
2.43.0


From 33e00cdefb456dc17f1028a0d0c69b7a42afe148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 24/26] fix: sender refuses an invalid length of received
 checkpoints

---
 SenderThread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index ca5a4bb..c19734c 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -816,6 +816,11 @@ SenderState SenderThread::processErrCmd() {
 
   int16_t checkpointsLen = folly::loadUnaligned<int16_t>(buf_);
   checkpointsLen = folly::Endian::little(checkpointsLen);
+  if (checkpointsLen <= 0) {
+    WTLOG(ERROR) << "Invalid length of checkpoints " << checkpointsLen;
+    threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
+    return END;
+  }
   char checkpointBuf[checkpointsLen];
   numRead = socket_->read(checkpointBuf, checkpointsLen);
   if (numRead != checkpointsLen) {
-- 
2.43.0


From 7fc3bdde2547c718b2c91be0b442f4625104e69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 25/26] fix: sender ends cleanly when no protocol version can
 be negotiated

---
 SenderThread.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index c19734c..91d7f4d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -871,7 +871,8 @@ SenderState SenderThread::processAbortCmd() {
                  << " checkpoint " << checkpoint;
   wdtParent_->abort(remoteError);
   if (remoteError == VERSION_MISMATCH) {
-    if (Protocol::negotiateProtocol(
+    if (negotiatedProtocol > 0 &&
+        Protocol::negotiateProtocol(
             negotiatedProtocol, threadProtocolVersion_) == negotiatedProtocol) {
       // sender can support this negotiated version
       negotiatedProtocol_ = negotiatedProtocol;
@@ -927,7 +928,11 @@ SenderState SenderThread::processVersionMismatch() {
             negotiatedProtocol = threadProtocolVersion;
           }
         }
-        WDT_CHECK_GT(negotiatedProtocol, 0);
+        if (negotiatedProtocol <= 0) {
+          WTLOG(ERROR) << "No thread negotiated a protocol version";
+          execFunnel->notifySuccess();
+          return END;
+        }
         WLOG_IF(INFO, negotiatedProtocol != threadProtocolVersion_)
             << *this << " Changing protocol version to " << negotiatedProtocol
             << ", previous version " << threadProtocolVersion_;
-- 
2.43.0


From 630c9dc25e7b937cf2399db2f81ddd1c24b9b8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:56:27 +0000
Subject: [PATCH 26/26] fix: senders do not wait for each other's or their own
 transfer history

---
 SenderThread.cpp               | 5 +++++
 util/ThreadTransferHistory.cpp | 5 +++++
 util/ThreadTransferHistory.h   | 3 +++
 3 files changed, 13 insertions(+)

diff --git a/SenderThread.cpp b/SenderThread.cpp
index 91d7f4d..e1eb50d 100644
--- a/SenderThread.cpp
+++ b/SenderThread.cpp
@@ -838,10 +838,15 @@ SenderState SenderThread::processErrCmd() {
     threadStats_.setLocalErrorCode(PROTOCOL_ERROR);
     return END;
   }
+  // This thread has no source in its hands till the checkpoints are processed.
+  // It must not make another thread wait for it, as that other thread (or this
+  // one) could be the thread that it is going to wait for.
+  transferHistory.markNotInUse();
   for (auto& checkpoint : checkpoints) {
     WTLOG(INFO) << "Received global checkpoint " << checkpoint;
     transferHistoryController_->handleGlobalCheckpoint(checkpoint);
   }
+  transferHistory.markInUse();
   return SEND_BLOCKS;
 }
 
diff --git a/util/ThreadTransferHistory.cpp b/util/ThreadTransferHistory.cpp
index 5507b0b..4d1d413 100644
--- a/util/ThreadTransferHistory.cpp
+++ b/util/ThreadTransferHistory.cpp
@@ -242,6 +242,11 @@ void ThreadTransferHistory::markNotInUse() {
   conditionInUse_.notify_all();
 }
 
+void ThreadTransferHistory::markInUse() {
+  std::lock_guard<std::mutex> lock(mutex_);
+  inUse_ = true;
+}
+
 TransferHistoryController::TransferHistoryController(
     DirectorySourceQueue& dirQueue)
     : dirQueue_(dirQueue) {
diff --git a/util/ThreadTransferHistory.h b/util/ThreadTransferHistory.h
index 5afcc45..c324501 100644
--- a/util/ThreadTransferHistory.h
+++ b/util/ThreadTransferHistory.h
@@ -78,6 +78,9 @@ class ThreadTransferHistory {
   /// Clears the inUse_ flag and notifies other waiting threads
   void markNotInUse();
 
+  /// Sets the inUse_ flag again, after markNotInUse
+  void markInUse();
+
   /// Copy constructor deleted
   ThreadTransferHistory(const ThreadTransferHistory& that) = delete;
 
-- 
2.43.0

