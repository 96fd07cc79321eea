// a real DirectorySourceQueue over the modelled file system
#pragma once
#include "common.h"
#include "fs.h"
#include <wdt/util/DirectorySourceQueue.h>
#include <wdt/util/FileByteSource.h>
#include <wdt/Protocol.h>
using namespace facebook::wdt;
struct NeverAbort : IAbortChecker { bool flag = false; bool shouldAbort() const override { return flag; } };
static NeverAbort gAbort;
static inline std::string fname(int i) { std::string s("/src/f"); s.push_back((char)('0' + i)); return s; }
struct QueueEnv {
  WdtOptions opts;
  DirectorySourceQueue q;
  ThreadCtx ctx;
  QueueEnv() : q(opts, "/src", &gAbort), ctx(opts, false, 0) {
    ctx.setAbortChecker(&gAbort);
    opts.skip_fadvise = true;
    fs_add("/src", FS_DIR);
  }
  // n files f0.. of the given sizes (sizes may be symbolic; no data behind them)
  void files(int n, const int64_t* size, bool create = true) {
    std::vector<WdtFileInfo> v;
    for (int i = 0; i < n; i++) {
      std::string p = fname(i);
      if (create) { FsNode* f = fs_add(p.c_str(), FS_FILE, 0); f->size = size[i]; }
      v.emplace_back(p.substr(5), size[i], false);
    }
    q.setFileInfo(v);
  }
};
