// the file system model (rt/posix.cpp) as a harness sees it
#pragma once
#include <stdint.h>
#include <stddef.h>
enum FsType { FS_NONE, FS_FILE, FS_DIR, FS_LINK };
#define PATHN 360
struct FsNode {
  char path[PATHN];
  FsType type;
  int64_t size;   // files: current size (bytes past it in data are zero)
  char* data;
  int64_t cap;    // (< 0: contents are not modelled, reads only) writable part; sizes may be larger, data may not
  char target[64];
  int nlink;
  int locked;     // fd holding the lock + 1
  int version;    // incremented whenever a path is created anew
};
extern FsNode fs_nodes[];
extern int fs_n;
FsNode* fs_add(const char* path, FsType t, int64_t cap = 64);
FsNode* fs_find(const char* path);  // null when absent
// every call may fail at most this many times in total (forked)
extern int fs_fault_budget;
extern const char* fs_fault_name; // the last call that failed
extern int fs_eintr_budget;   // writes/reads interrupted
extern int fs_short_budget;   // short writes/reads
// crash: from the chosen moment on nothing reaches the disk any more
extern int fs_crash_budget;
extern bool fs_dead;
void fs_restart();            // the process starts again: all descriptors are gone
int64_t fs_default_cap();
extern bool fs_beyond_fails;     // writes past the room fail (else: the model gives up)
extern int64_t fs_cap;        // data room of created files
int fs_open_count();
extern bool fs_fd_open(int fd);
extern char* fs_read_buf;      // destination of the last read
// observation of operations
enum FsOp { FSO_OPEN, FSO_CLOSE, FSO_READ, FSO_WRITE, FSO_TRUNC, FSO_ALLOC, FSO_FSYNC, FSO_SYNCRANGE, FSO_FADVISE, FSO_UNLINK, FSO_RENAME, FSO_MKDIR, FSO_SEEK };
extern void (*fs_hook)(FsOp op, FsNode* n, int fd, int64_t off, int64_t len, int64_t ret);
// sockets: descriptors made by fs_socket() are served by these hooks
int fs_socket();
extern int64_t (*sock_read_hook)(int fd, char* buf, int64_t n);
extern int64_t (*sock_write_hook)(int fd, const char* buf, int64_t n);
extern int (*sock_poll_hook)(int fd, short events, int timeout, short* revents);
extern int (*sock_shutdown_hook)(int fd, int how);
extern int (*sock_close_hook)(int fd);
struct pollfd;
extern int (*sock_pollv_hook)(struct pollfd*, int n, int timeout);
extern int (*sock_opt_hook)(int fd, int opt, const void* v);
extern int (*sock_ioctl_hook)(int fd, int* v);
