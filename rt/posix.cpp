// In-memory file system with symbolic faults, short transfers and a crash point.
#include <wsym.h>
#include "rt.h"
#include "fs.h"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dirent.h>
#include <fcntl.h>
#include <poll.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>

#define MAXN 24
#define MAXFD 48
#define FD0 3
FsNode fs_nodes[MAXN];
int fs_n = 0;
int fs_fault_budget = 0, fs_eintr_budget = 0, fs_short_budget = 0, fs_crash_budget = 0;
bool fs_dead = false;
int64_t fs_cap = 64;
bool fs_beyond_fails = false;
void (*fs_hook)(FsOp, FsNode*, int, int64_t, int64_t, int64_t) = nullptr;
int64_t (*sock_read_hook)(int, char*, int64_t) = nullptr;
int64_t (*sock_write_hook)(int, const char*, int64_t) = nullptr;
int (*sock_poll_hook)(int, short, int, short*) = nullptr;
int (*sock_pollv_hook)(struct pollfd*, int, int) = nullptr;
int (*sock_opt_hook)(int, int, const void*) = nullptr;
int (*sock_ioctl_hook)(int, int*) = nullptr;
int (*sock_shutdown_hook)(int, int) = nullptr;
int (*sock_close_hook)(int) = nullptr;
struct Fd { int kind; FsNode* node; int64_t pos; int flags; };  // kind 0 free, 1 file, 2 socket
static Fd fds[MAXFD];
extern "C" int* __model___errno_location(void);
static int fail(int e) { *__model___errno_location() = e; return -1; }
static bool same(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return false; if (!*a) return true; } }
static int len(const char* s) { int n = 0; while (s[n]) n++; return n; }
static void note(FsOp op, FsNode* n, int fd, int64_t off, int64_t l, int64_t r) { if (fs_hook) fs_hook(op, n, fd, off, l, r); }
const char* fs_fault_name = "";
static bool fault(const char* what) {
  if (fs_fault_budget <= 0 || fs_dead) return false;
  if (!sym_choice(what, 0, 1)) return false;
  fs_fault_budget--;
  fs_fault_name = what;
  return true;
}
// is this the moment of the crash?
static bool crash() {
  if (fs_dead) return true;
  if (fs_crash_budget <= 0) return false;
  if (!sym_choice("crash", 0, 1)) return false;
  fs_crash_budget--;
  fs_dead = true;
  return true;
}
static bool haveLinks;
static FsNode* exact(const char* p) {
  for (int i = 0; i < fs_n; i++) if (fs_nodes[i].type != FS_NONE && fs_nodes[i].nlink > 0 && same(fs_nodes[i].path, p)) return &fs_nodes[i];
  return nullptr;
}
FsNode* fs_find(const char* path) {
  char p[PATHN]; int n = len(path);
  if (n >= PATHN) return nullptr;
  // collapse doubled slashes, drop trailing ones
  int k = 0;
  for (int i = 0; i < n; i++) { if (path[i] == '/' && k && p[k - 1] == '/') continue; p[k++] = path[i]; }
  bool slash = k > 1 && p[k - 1] == '/';
  while (k > 1 && p[k - 1] == '/') k--;
  p[k] = 0;
  // symbolic links to directories on the way
  for (int hops = 0, i = 1; haveLinks && (i < k || (i == k && slash));) {
    if (i < k && p[i] != '/') { i++; continue; }
    char c = p[i]; p[i] = 0; FsNode* l = exact(p); p[i] = c;
    if (!l || l->type != FS_LINK) { if (i == k) break; i++; continue; }
    if (++hops > 8) return nullptr;
    char q[2 * PATHN]; int m = 0;
    for (int j = 0; l->target[j]; j++) q[m++] = l->target[j];
    for (int j = i; j < k; j++) q[m++] = p[j];
    if (m >= PATHN) return nullptr;
    for (int j = 0; j < m; j++) p[j] = q[j];
    k = m; p[k] = 0; i = 1;
  }
  return exact(p);
}
FsNode* fs_add(const char* path, FsType t, int64_t cap) {
  if (fs_n >= MAXN) { wsym_fail("model", "too many files"); __builtin_trap(); }
  FsNode* n = &fs_nodes[fs_n++];
  int k = 0, l = len(path);
  if (l >= PATHN) { wsym_fail("model", "path too long"); __builtin_trap(); }
  for (int i = 0; i < l; i++) { if (path[i] == '/' && k && n->path[k - 1] == '/') continue; n->path[k++] = path[i]; }
  while (k > 1 && n->path[k - 1] == '/') k--;
  n->path[k] = 0;
  if (t == FS_LINK) haveLinks = true;
  n->type = t; n->size = 0; n->cap = t == FS_FILE ? cap : 0; n->nlink = 1; n->locked = 0; n->target[0] = 0;
  n->data = nullptr;
  if (t == FS_FILE && cap) { n->data = (char*)malloc(cap); memset(n->data, 0, cap); }
  n->version = fs_n;
  return n;
}
static FsNode* follow(const char* path) {
  FsNode* n = fs_find(path);
  for (int i = 0; n && n->type == FS_LINK; i++) { if (i > 4) return nullptr; n = fs_find(n->target); }
  return n;
}
static bool parentOk(const char* path) {
  int n = len(path);
  while (n > 1 && path[n - 1] == '/') n--;
  while (n > 0 && path[n - 1] != '/') n--;
  while (n > 1 && path[n - 1] == '/') n--;
  if (n <= 1) return true;
  char p[PATHN];
  for (int i = 0; i < n; i++) p[i] = path[i];
  p[n] = 0;
  FsNode* d = follow(p);
  return d && d->type == FS_DIR;
}
static int newFd(int kind, FsNode* n, int flags) {
  for (int i = FD0; i < MAXFD; i++) if (!fds[i].kind) { fds[i].kind = kind; fds[i].node = n; fds[i].pos = 0; fds[i].flags = flags; return i; }
  return fail(EMFILE);
}
static Fd* get(int fd) { if (fd < FD0 || fd >= MAXFD || !fds[fd].kind) return nullptr; return &fds[fd]; }
int fs_socket() { return newFd(2, nullptr, 0); }
bool fs_fd_open(int fd) { return get(fd) != nullptr; }
int fs_open_count() { int n = 0; for (int i = FD0; i < MAXFD; i++) n += fds[i].kind == 1; return n; }
void fs_restart() { for (int i = 0; i < MAXFD; i++) fds[i].kind = 0; for (int i = 0; i < fs_n; i++) fs_nodes[i].locked = 0; fs_dead = false; }
static void setSize(FsNode* n, int64_t size) {
  for (int64_t i = 0; i < n->cap; i++) n->data[i] = (char)wsym_ite(i < size, (uint64_t)(uint8_t)n->data[i], 0);
  n->size = size;
}

extern "C" int __model_open(const char* path, int flags, ...) {
  if (fault("fault_open")) return fail(EMFILE);
  int r;
  FsNode* n = follow(path);
  if (n && (flags & O_CREAT) && (flags & O_EXCL)) { r = fail(EEXIST); note(FSO_OPEN, n, -1, flags, 0, r); return r; }
  if (!n && !(flags & O_CREAT)) { note(FSO_OPEN, nullptr, -1, flags, 0, -1); return fail(ENOENT); }
  if (!n && !parentOk(path)) { note(FSO_OPEN, nullptr, -1, flags, 0, -1); return fail(ENOENT); }
  if (n && n->type == FS_DIR && (flags & O_ACCMODE) != O_RDONLY) return fail(EISDIR);
  bool dead = false;
  if ((!n && (flags & O_CREAT)) || (flags & O_TRUNC)) dead = crash();
  if (!n) { n = fs_add(path, FS_FILE, fs_cap); if (dead) n->nlink = 0; }
  if ((flags & O_TRUNC) && n->type == FS_FILE && !dead) setSize(n, 0);
  r = newFd(1, n, flags);
  note(FSO_OPEN, n, r, flags, 0, r);
  return r;
}
extern "C" int __model_open64(const char* p, int f, ...) { return __model_open(p, f, 0644); }
extern "C" int __model_close(int fd) {
  Fd* f = get(fd);
  if (!f) { wsym_fail("fd", "close of a descriptor that is not open"); __builtin_trap(); }
  if (f->kind == 2) { f->kind = 0; return sock_close_hook ? sock_close_hook(fd) : 0; }
  FsNode* n = f->node;
  f->kind = 0;
  if (n->locked == fd + 1) n->locked = 0;
  if (fault("fault_close")) { note(FSO_CLOSE, n, fd, 0, 0, -1); return fail(EIO); }
  note(FSO_CLOSE, n, fd, 0, 0, 0);
  return 0;
}
char* fs_read_buf;
static int64_t doRead(FsNode* n, char* buf, int64_t cnt, int64_t pos) {
  fs_read_buf = buf;
  if (fs_eintr_budget > 0 && sym_choice("eintr_read", 0, 1)) { fs_eintr_budget--; return fail(EINTR); }
  if (fault("fault_read")) return fail(EIO);
  int64_t avail = n->size - pos;
  if (avail <= 0 || cnt <= 0) return 0;
  int64_t k = cnt < avail ? cnt : avail;
  if (fs_short_budget > 0 && sym_choice("short_read", 0, 1)) {
    fs_short_budget--;
    int64_t s = sym_i64("read_len");
    sym_assume((s >= 1) & (s <= k));
    k = n->cap < 0 ? s : (int64_t)wsym_conc(s);
  }
  if (n->cap < 0) return k; // contents not modelled
  if (pos + k > n->cap) { wsym_fail("model", "read past the modelled part of a file"); __builtin_trap(); }
  memcpy(buf, n->data + pos, k);
  return k;
}
extern "C" long __model_read(int fd, void* buf, size_t cnt) {
  Fd* f = get(fd);
  if (!f) return fail(EBADF);
  if (f->kind == 2) return sock_read_hook ? sock_read_hook(fd, (char*)buf, (int64_t)cnt) : fail(ENOTCONN);
  if ((f->flags & O_ACCMODE) == O_WRONLY) return fail(EBADF);
  int64_t r = doRead(f->node, (char*)buf, (int64_t)cnt, f->pos);
  note(FSO_READ, f->node, fd, f->pos, (int64_t)cnt, r);
  if (r > 0) f->pos += r;
  return r;
}
extern "C" long __model_pread(int fd, void* buf, size_t cnt, off_t off) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  int64_t r = doRead(f->node, (char*)buf, (int64_t)cnt, off);
  note(FSO_READ, f->node, fd, off, (int64_t)cnt, r);
  return r;
}
extern "C" long __model_pread64(int fd, void* b, size_t c, off_t o) { return __model_pread(fd, b, c, o); }
static int64_t doWrite(FsNode* n, const char* buf, int64_t cnt, int64_t pos) {
  if (fs_eintr_budget > 0 && sym_choice("eintr_write", 0, 1)) { fs_eintr_budget--; return fail(EINTR); }
  if (fault("fault_write")) return fail(ENOSPC);
  if (cnt <= 0) return 0;
  int64_t k = cnt;
  if (fs_short_budget > 0 && cnt > 1 && sym_choice("short_write", 0, 1)) {
    fs_short_budget--;
    int64_t s = sym_i64("write_len");
    sym_assume((s >= 1) & (s < cnt));
    k = (int64_t)wsym_conc(s);
  }
  int64_t done = k;
  if (fs_beyond_fails && (pos < 0 || pos > n->cap - k)) return fail(EFBIG);
  if (fs_dead) done = 0;
  else if (crash()) { int64_t s = sym_i64("crash_len"); sym_assume((s >= 0) & (s <= k)); done = (int64_t)wsym_conc(s); }
  if (done > 0) {
    if (pos < 0 || pos + done > n->cap) { wsym_fail("model", "write past the modelled part of a file"); __builtin_trap(); }
    memcpy(n->data + pos, buf, done);
    if (pos + done > n->size) n->size = pos + done;
  }
  return k;
}
extern "C" long __model_write(int fd, const void* buf, size_t cnt) {
  if (fd == 1 || fd == 2) return (long)cnt;
  Fd* f = get(fd);
  if (!f) return fail(EBADF);
  if (f->kind == 2) return sock_write_hook ? sock_write_hook(fd, (const char*)buf, (int64_t)cnt) : fail(ENOTCONN);
  if ((f->flags & O_ACCMODE) == O_RDONLY) return fail(EBADF);
  int64_t at = (f->flags & O_APPEND) ? f->node->size : f->pos;
  int64_t r = doWrite(f->node, (const char*)buf, (int64_t)cnt, at);
  note(FSO_WRITE, f->node, fd, at, (int64_t)cnt, r);
  if (r > 0) f->pos = at + r;
  return r;
}
extern "C" long __model_pwrite(int fd, const void* buf, size_t cnt, off_t off) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  int64_t r = doWrite(f->node, (const char*)buf, (int64_t)cnt, off);
  note(FSO_WRITE, f->node, fd, off, (int64_t)cnt, r);
  return r;
}
extern "C" long __model_lseek(int fd, off_t off, int wh) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (fault("fault_lseek")) return fail(EIO);
  int64_t p = wh == SEEK_SET ? off : wh == SEEK_CUR ? f->pos + off : f->node->size + off;
  if (p < 0) return fail(EINVAL);
  f->pos = p;
  note(FSO_SEEK, f->node, fd, p, 0, p);
  return p;
}
extern "C" long __model_lseek64(int fd, off_t off, int wh) { return __model_lseek(fd, off, wh); }
extern "C" int __model_ftruncate(int fd, off_t size) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (size < 0) return fail(EINVAL);
  if (fault("fault_ftruncate")) { note(FSO_TRUNC, f->node, fd, size, 0, -1); return fail(EIO); }
  if (!crash()) setSize(f->node, size);
  note(FSO_TRUNC, f->node, fd, size, 0, 0);
  return 0;
}
extern "C" int __model_ftruncate64(int fd, off_t s) { return __model_ftruncate(fd, s); }
extern "C" int __model_posix_fallocate(int fd, off_t off, off_t l) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return EBADF;
  if (off < 0 || l <= 0) return EINVAL;
  if (fault("fault_fallocate")) { note(FSO_ALLOC, f->node, fd, off, l, -1); return ENOSPC; }
  if (!fs_dead) f->node->size = (int64_t)wsym_ite(off + l > f->node->size, off + l, f->node->size);
  note(FSO_ALLOC, f->node, fd, off, l, 0);
  return 0;
}
extern "C" int __model_posix_fallocate64(int fd, off_t o, off_t l) { return __model_posix_fallocate(fd, o, l); }
extern "C" int __model_fsync(int fd) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (fault("fault_fsync")) { note(FSO_FSYNC, f->node, fd, 0, 0, -1); return fail(EIO); }
  note(FSO_FSYNC, f->node, fd, 0, 0, 0);
  return 0;
}
extern "C" int __model_fdatasync(int fd) { return __model_fsync(fd); }
extern "C" int __model_sync_file_range(int fd, off64_t o, off64_t n, unsigned) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (fault("fault_sync_file_range")) { note(FSO_SYNCRANGE, f->node, fd, o, n, -1); return fail(EIO); }
  note(FSO_SYNCRANGE, f->node, fd, o, n, 0);
  return 0;
}
extern "C" int __model_posix_fadvise(int fd, off_t o, off_t n, int) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return EBADF;
  if (fault("fault_fadvise")) { note(FSO_FADVISE, f->node, fd, o, n, -1); return EINVAL; }
  note(FSO_FADVISE, f->node, fd, o, n, 0);
  return 0;
}
extern "C" int __model_posix_fadvise64(int fd, off_t o, off_t n, int a) { return __model_posix_fadvise(fd, o, n, a); }
static void fillStat(FsNode* n, struct stat* st) {
  memset(st, 0, sizeof *st);
  st->st_mode = (n->type == FS_DIR ? S_IFDIR : n->type == FS_LINK ? S_IFLNK : S_IFREG) | 0644;
  st->st_size = n->size;
  st->st_ino = (ino_t)(n - fs_nodes) + 10;
  st->st_nlink = n->nlink;
}
extern "C" int __model_stat(const char* p, struct stat* st) {
  if (fault("fault_stat")) return fail(EIO);
  FsNode* n = follow(p);
  if (!n) return fail(ENOENT);
  fillStat(n, st);
  return 0;
}
extern "C" int __model_lstat(const char* p, struct stat* st) {
  if (fault("fault_lstat")) return fail(EIO);
  FsNode* n = fs_find(p);
  if (!n) return fail(ENOENT);
  fillStat(n, st);
  return 0;
}
extern "C" int __model_fstat(int fd, struct stat* st) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (fault("fault_fstat")) return fail(EIO);
  fillStat(f->node, st);
  return 0;
}
extern "C" int __model_stat64(const char* p, struct stat* st) { return __model_stat(p, st); }
extern "C" int __model_lstat64(const char* p, struct stat* st) { return __model_lstat(p, st); }
extern "C" int __model_fstat64(int fd, struct stat* st) { return __model_fstat(fd, st); }
extern "C" int __model_unlink(const char* p) {
  if (fault("fault_unlink")) return fail(EIO);
  FsNode* n = fs_find(p);
  if (!n) return fail(ENOENT);
  if (n->type == FS_DIR) return fail(EISDIR);
  if (!crash()) n->nlink = 0;
  note(FSO_UNLINK, n, -1, 0, 0, 0);
  return 0;
}
extern "C" int __model_rename(const char* a, const char* b) {
  if (fault("fault_rename")) return fail(EIO);
  FsNode* n = fs_find(a);
  if (!n) return fail(ENOENT);
  if (!parentOk(b)) return fail(ENOENT);
  if (!crash()) {
    FsNode* o = fs_find(b);
    if (o && o != n) o->nlink = 0;
    int i = 0;
    for (; b[i]; i++) n->path[i] = b[i];
    n->path[i] = 0;
  }
  note(FSO_RENAME, n, -1, 0, 0, 0);
  return 0;
}
extern "C" int __model_mkdir(const char* p, mode_t) {
  if (fault("fault_mkdir")) return fail(EACCES);
  if (fs_find(p)) return fail(EEXIST);
  if (!parentOk(p)) return fail(ENOENT);
  FsNode* n = nullptr;
  if (!crash()) n = fs_add(p, FS_DIR, 0);
  note(FSO_MKDIR, n, -1, 0, 0, 0);
  return 0;
}
extern "C" int __model_access(const char* p, int) { return follow(p) ? 0 : fail(ENOENT); }
extern "C" int __model_fcntl(int fd, int cmd, ...) {
  Fd* f = get(fd);
  if (!f) return fail(EBADF);
  if (cmd == F_GETFL) return f->flags;
  if (cmd == F_SETFL) { va_list ap; va_start(ap, cmd); f->flags = va_arg(ap, int); va_end(ap); return 0; }
  return 0;
}
extern "C" int __model_fcntl64(int fd, int cmd, ...) {
  Fd* f = get(fd);
  if (!f) return fail(EBADF);
  if (cmd == F_GETFL) return f->flags;
  return 0;
}
extern "C" int __model_flock(int fd, int op) {
  Fd* f = get(fd);
  if (!f || f->kind != 1) return fail(EBADF);
  if (fault("fault_flock")) return fail(EIO);
  if (op & LOCK_UN) { if (f->node->locked == fd + 1) f->node->locked = 0; return 0; }
  if (f->node->locked && f->node->locked != fd + 1) return fail(EWOULDBLOCK);
  f->node->locked = fd + 1;
  return 0;
}
extern "C" char* __model_realpath(const char* p, char*) {
  if (fault("fault_realpath")) { fail(EIO); return nullptr; }
  FsNode* n = follow(p);
  if (!n) { fail(ENOENT); return nullptr; }
  int l = len(n->path);
  char* r = (char*)malloc(l + 1);
  memcpy(r, n->path, l + 1);
  return r;
}
// directories
struct FsDir { char path[PATHN]; int next; struct dirent ent; };
extern "C" DIR* __model_opendir(const char* p) {
  if (fault("fault_opendir")) { fail(EACCES); return nullptr; }
  FsNode* n = follow(p);
  if (!n || n->type != FS_DIR) { fail(n ? ENOTDIR : ENOENT); return nullptr; }
  FsDir* d = (FsDir*)malloc(sizeof(FsDir));
  memcpy(d->path, n->path, sizeof d->path);
  d->next = -2;
  return (DIR*)d;
}
bool fs_unknown_dtype = false;
extern "C" struct dirent* __model_readdir(DIR* dp) {
  FsDir* d = (FsDir*)dp;
  if (fault("fault_readdir")) { fail(EIO); return nullptr; }
  if (d->next < 0) {
    d->ent.d_name[0] = '.'; d->ent.d_name[1] = d->next == -2 ? 0 : '.'; d->ent.d_name[2] = 0;
    d->ent.d_type = DT_DIR; d->next++;
    return &d->ent;
  }
  int pl = len(d->path);
  if (pl == 1) pl = 0;
  while (d->next < fs_n) {
    FsNode* n = &fs_nodes[d->next++];
    if (n->type == FS_NONE || n->nlink <= 0 || len(n->path) <= pl + 1) continue;
    bool ok = n->path[pl] == '/';
    for (int i = 0; ok && i < pl; i++) ok = n->path[i] == d->path[i];
    for (int i = pl + 1; ok && n->path[i]; i++) ok = n->path[i] != '/';
    if (!ok) continue;
    int k = 0;
    for (int i = pl + 1; n->path[i]; i++) d->ent.d_name[k++] = n->path[i];
    d->ent.d_name[k] = 0;
    d->ent.d_type = n->type == FS_DIR ? DT_DIR : n->type == FS_LINK ? DT_LNK : DT_REG;
    if (fs_unknown_dtype && sym_choice("dt_unknown", 0, 1)) d->ent.d_type = DT_UNKNOWN;
    return &d->ent;
  }
  return nullptr;
}
extern "C" struct dirent* __model_readdir64(DIR* dp) { return __model_readdir(dp); }
extern "C" int __model_closedir(DIR* dp) { free(dp); return 0; }
// sockets
extern "C" int __model_poll(struct pollfd* p, nfds_t n, int timeout) {
  if (sock_pollv_hook) return sock_pollv_hook(p, (int)n, timeout);
  if (n != 1 || !sock_poll_hook) { wsym_fail("model", "poll"); __builtin_trap(); }
  return sock_poll_hook(p[0].fd, p[0].events, timeout, &p[0].revents);
}
extern "C" int __model_shutdown(int fd, int how) { return sock_shutdown_hook ? sock_shutdown_hook(fd, how) : 0; }
extern "C" int __model_setsockopt(int fd, int, int o, const void* v, unsigned) { return sock_opt_hook ? sock_opt_hook(fd, o, v) : 0; }
extern "C" int __model_getsockopt(int, int, int, void* v, unsigned* l) { if (*l >= 4) *(int*)v = 0; return 0; }
extern "C" int __model_ioctl(int fd, unsigned long req, ...) {
  if (!sock_ioctl_hook) return fail(EINVAL);
  va_list ap; va_start(ap, req); int* p = va_arg(ap, int*); va_end(ap);
  return sock_ioctl_hook(fd, p);
}
