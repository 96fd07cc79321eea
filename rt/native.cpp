// Native side of the wsym primitives: replays a recorded counterexample.
#include <wsym.h>
#include <ucontext.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
struct Rec { std::string n; unsigned w; unsigned long long v; };
static std::vector<Rec> recs;
static size_t pos;
static bool loaded;
static void load() {
  loaded = true;
  const char* f = getenv("WSYM_CEX");
  if (!f) return;
  FILE* fp = fopen(f, "r");
  if (!fp) { fprintf(stderr, "cannot open %s\n", f); _Exit(4); }
  char line[4096];
  while (fgets(line, sizeof line, fp)) {
    if (line[0] == '#') continue;
    // name width value; the name may contain spaces
    unsigned w; unsigned long long v;
    char* e = strrchr(line, ' ');
    if (!e) continue;
    *e = 0;
    char* d = strrchr(line, ' ');
    if (!d || sscanf(d, " %u", &w) != 1 || sscanf(e + 1, "%llx", &v) != 1) continue;
    *d = 0;
    recs.push_back({line, w, v});
  }
  fclose(fp);
}
static unsigned long long next(const char* n, unsigned w) {
  if (!loaded) load();
  if (pos >= recs.size()) return 0;
  Rec& r = recs[pos++];
  if (r.w != w) { fprintf(stderr, "REPLAY-DESYNC at %zu: %s:%u vs %s:%u\n", pos - 1, r.n.c_str(), r.w, n, w); fflush(stderr); _Exit(4); }
  return r.v;
}
static void done(const char* what, const char* msg, int rc) { printf("%s %s\n", what, msg); fflush(stdout); fflush(stderr); _Exit(rc); }
extern "C" {
uint64_t wsym_sym(const char* n, unsigned w) { return next(n, w); }
void wsym_bytes(void* p, size_t n, const char* nm) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = (unsigned char)next(nm, 8); }
void wsym_assume_(uint64_t c) { if (!c) done("REPLAY-ASSUME-FALSE", "", 5); }
void wsym_assert_(uint64_t c, const char* id) { if (!c) { char b[600]; snprintf(b, 600, "assert %s", id); done("REPLAY-VIOLATION", b, 10); } }
void wsym_fail(const char* k, const char* m) { char b[600]; snprintf(b, 600, "%s %s", k, m); done("REPLAY-VIOLATION", b, 10); }
void wsym_cover_(const char*) {}
uint64_t wsym_conc(uint64_t x) { return x; }
uint64_t wsym_is_sym(uint64_t) { return 0; }
uint64_t wsym_ite(uint64_t c, uint64_t a, uint64_t b) { return c ? a : b; }
void wsym_print(const char* n, uint64_t x) { fprintf(stderr, "[%s] %lld 0x%llx\n", n, (long long)x, (unsigned long long)x); }
void wsym_stop(void) { done("REPLAY-COMPLETED", "", 0); }
int wsym_native(void) { return 1; }
int wsym_readable(const void*, size_t) { return 1; }
void wsym_hb_release(const void*) {}
void wsym_hb_acquire(const void*) {}
void wsym_rt_thread_exit(void);
static ucontext_t ctx[20];
static int cur, nthr = 1;
struct Start { void (*fn)(void*); void* arg; } starts[20];
static void tramp(int i) { starts[i].fn(starts[i].arg); wsym_rt_thread_exit(); }
int wsym_thread_new(void (*fn)(void*), void* arg) {
  int t = nthr++;
  starts[t] = {fn, arg};
  getcontext(&ctx[t]);
  ctx[t].uc_stack.ss_sp = malloc(1 << 20); ctx[t].uc_stack.ss_size = 1 << 20; ctx[t].uc_link = nullptr;
  makecontext(&ctx[t], (void (*)())tramp, 1, t);
  return t;
}
int wsym_thread_self(void) { return cur; }
void wsym_thread_switch(int t) { int o = cur; if (o == t) return; cur = t; swapcontext(&ctx[o], &ctx[t]); }
extern void WSYM_ENTRY(long);
}
#include <exception>
static void onTerm() { done("REPLAY-VIOLATION", "abort uncaught exception", 10); }
int main(int argc, char** argv) {
  std::set_terminate(onTerm);
  WSYM_ENTRY(argc > 1 ? strtol(argv[1], nullptr, 0) : 0);
  done("REPLAY-COMPLETED", "", 0);
}
