// Models of what the code under test takes from libstdc++.so / libc, compiled to
// bitcode together with it (and linked into replays as the same models).
#include <wsym.h>
#include "rt.h"
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstring>
#include <exception>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <ostream>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <unordered_map>
#include <pthread.h>
#include <folly/synchronization/RWSpinLock.h>

extern "C" void wsym_check_failed(const char* expr, const char* file, int line) {
  (void)file; (void)line;
  wsym_fail("check", expr);
  __builtin_trap();
}
size_t (*rt_hash_hook)(const void*, size_t) = nullptr;  // a harness may define hashing
namespace wsymlog { std::ostream& nullStream() { __builtin_trap(); } }

extern "C" void wsym_rt_bad_alloc() { throw std::bad_alloc(); }

// ---------------------------------------------------------------- red-black tree helpers (ordering semantics only; no balancing)
namespace std {
static _Rb_tree_node_base* tmin(_Rb_tree_node_base* x) { while (x->_M_left) x = x->_M_left; return x; }
static _Rb_tree_node_base* tmax(_Rb_tree_node_base* x) { while (x->_M_right) x = x->_M_right; return x; }
static _Rb_tree_node_base* incr(_Rb_tree_node_base* x) {
  if (x->_M_right) return tmin(x->_M_right);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* decr(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) return tmax(x->_M_left);
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return incr(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return incr(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return decr(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return decr(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0;
  x->_M_color = _S_black;  // header stays red: decrement(end) works
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; }
    else if (p == h._M_left) h._M_left = x;
  } else {
    p->_M_right = x;
    if (p == h._M_right) h._M_right = x;
  }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  if (h._M_left == z) h._M_left = incr(z);
  if (h._M_right == z) h._M_right = (h._M_left == &h) ? &h : decr(z);
  auto repl = [&](_Rb_tree_node_base* u, _Rb_tree_node_base* v) {
    if (h._M_parent == u) h._M_parent = v;
    else if (u->_M_parent->_M_left == u) u->_M_parent->_M_left = v;
    else u->_M_parent->_M_right = v;
    if (v) v->_M_parent = u->_M_parent;
  };
  if (!z->_M_left) repl(z, z->_M_right);
  else if (!z->_M_right) repl(z, z->_M_left);
  else {
    _Rb_tree_node_base* y = tmin(z->_M_right);
    if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    repl(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  if (!h._M_parent) { h._M_left = &h; h._M_right = &h; }
  return z;
}
// ---------------------------------------------------------------- lists
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) {
    l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
    _List_node_base* t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
  }
}
// ---------------------------------------------------------------- hash tables
static const size_t kPrimes[] = {1, 2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  for (size_t p : kPrimes) if (p >= n) { _M_next_resize = p; return p; }
  _M_next_resize = n | 1; return n | 1;
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > nb) { size_t want = ne + ni; if (want < nb * 2) want = nb * 2; if (want < 11) want = 11; return {true, _M_next_bkt(want)}; }
  return {false, 0};
}
}  // namespace __detail
size_t _Hash_bytes(const void* p, size_t n, size_t seed) {
  if (::rt_hash_hook) return ::rt_hash_hook(p, n);
  // any deterministic function of the bytes will do.  Length based: keeps hashing
  // of symbolic keys off the solver; collisions are resolved by comparison.
  (void)p; (void)seed;
  return n * 31 + 7;
}
// ---------------------------------------------------------------- throw helpers
void __throw_length_error(const char* s) { throw std::length_error(s); }
void __throw_logic_error(const char* s) { throw std::logic_error(s); }
void __throw_out_of_range(const char* s) { throw std::out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw std::out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw std::invalid_argument(s); }
void __throw_bad_alloc() { throw std::bad_alloc(); }
void __throw_bad_array_new_length() { throw std::bad_alloc(); }
void __throw_bad_cast() { wsym_fail("abort", "bad_cast"); __builtin_trap(); }
void __throw_bad_function_call() { wsym_fail("abort", "bad_function_call"); __builtin_trap(); }
void __throw_system_error(int) { wsym_fail("abort", "system_error"); __builtin_trap(); }
}  // namespace std

#ifndef WSYM_NATIVE
// exception classes whose members live in libstdc++.so
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
struct wsymstr { char* p; };
logic_error::logic_error(const char*) : exception() {}
logic_error::logic_error(const string&) : exception() {}
logic_error::~logic_error() noexcept {}
const char* logic_error::what() const noexcept { return "logic_error"; }
length_error::length_error(const char* s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
runtime_error::runtime_error(const char*) : exception() {}
runtime_error::runtime_error(const string&) : exception() {}
runtime_error::~runtime_error() noexcept {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
range_error::range_error(const char* s) : runtime_error(s) {}
range_error::~range_error() noexcept {}
__cow_string::__cow_string() {}
__cow_string::~__cow_string() {}
}
#endif

// ---------------------------------------------------------------- threads
#define MAXT 20
enum TS { T_NONE, T_RUN, T_MUTEX, T_RWR, T_RWW, T_COND, T_CONDTIMED, T_JOIN, T_DONE };
struct ThreadRec { TS st; const void* on; bool timedOut; int64_t until; };
static ThreadRec T[MAXT] = {{T_RUN, nullptr, false, 0}};
bool rt_earliest_first = false;
int rt_sched_budget = 1 << 30;  // scheduling choices; afterwards: who runs keeps running, then the next one
static int nT = 1;
int rt_preempt_budget = 1000;
int rt_timeout_budget = 0, rt_idle_budget = 60;
int rt_spurious_budget = 0;
static bool spurious[MAXT];
// kind lies at the offset glibc uses (__kind), so that PTHREAD_RECURSIVE_MUTEX_INITIALIZER works
struct MM { int owner; int depth; int pad[2]; int kind; };

static bool enabled(int t) {
  switch (T[t].st) {
    case T_RUN: return true;
    case T_MUTEX: return ((const MM*)T[t].on)->owner == 0;
    case T_RWR: return !((const RtRw*)T[t].on)->writer;
    case T_RWW: return !((const RtRw*)T[t].on)->writer && !((const RtRw*)T[t].on)->readers;
    case T_CONDTIMED: return rt_timeout_budget > 0;
    case T_JOIN: return T[(long)T[t].on].st == T_DONE;
    default: return false;
  }
}
static int pick(int self) {
  int en[MAXT]; int n = 0;
  bool selfOk = self >= 0 && enabled(self) && T[self].st == T_RUN;
  for (int i = 0; i < nT; i++) if (enabled(i)) en[n++] = i;
  if (n == 0 && rt_idle_budget > 0) {  // nothing happens until some timed wait ends
    for (int i = 0; i < nT; i++) if (T[i].st == T_CONDTIMED) {
      if (rt_earliest_first && n) { if (T[i].until < T[en[0]].until) en[0] = i; continue; }
      en[n++] = i;
    }
    if (n) { rt_idle_budget--; return en[n == 1 ? 0 : (int)sym_choice("sched", 0, n - 1)]; }
  }
  if (n == 0) { wsym_fail("deadlock", "no thread can make progress"); __builtin_trap(); }
  if (selfOk && rt_preempt_budget <= 0) return self;
  if (n > 1 && rt_sched_budget <= 0) {
    if (selfOk) return self;
    int me = wsym_thread_self();
    for (int i = 0; i < n; i++) if (en[i] > me) return en[i];
    return en[0];
  }
  if (n > 1 && !selfOk && rt_sched_budget < 1 << 30) rt_sched_budget--;
  int k = n == 1 ? 0 : (int)sym_choice("sched", 0, n - 1);
  if (selfOk && en[k] != self) rt_preempt_budget--;
  return en[k];
}
static void switchTo(int t) {
  if (T[t].st == T_CONDTIMED) { if (rt_timeout_budget > 0) rt_timeout_budget--; T[t].timedOut = true; T[t].st = T_RUN; }
  if (T[t].st == T_MUTEX || T[t].st == T_JOIN || T[t].st == T_RWR || T[t].st == T_RWW) T[t].st = T_RUN;
  if (t != wsym_thread_self()) wsym_thread_switch(t);
}
extern "C" void __model_rt_yield(void) { if (nT > 1) switchTo(pick(wsym_thread_self())); }
void rt_yield() { __model_rt_yield(); }
static void block() { switchTo(pick(-1)); }

extern "C" int __model_pthread_mutex_lock(pthread_mutex_t* pm) {
  MM* m = (MM*)pm;
  int self = wsym_thread_self();
  if (nT > 1) switchTo(pick(self));
  while (m->owner) {
    if (m->owner == self + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->depth++; return 0; }
    if (m->owner == self + 1) { wsym_fail("deadlock", "mutex locked twice by the same thread"); __builtin_trap(); }
    T[self].st = T_MUTEX; T[self].on = m;
    block();
  }
  m->owner = self + 1;
  wsym_hb_acquire(m);
  return 0;
}
extern "C" int __model_pthread_mutex_trylock(pthread_mutex_t* pm) {
  MM* m = (MM*)pm;
  int self = wsym_thread_self();
  if (nT > 1) switchTo(pick(self));
  if (m->owner == self + 1 && m->kind == PTHREAD_MUTEX_RECURSIVE) { m->depth++; return 0; }
  if (m->owner) return EBUSY;
  m->owner = self + 1;
  wsym_hb_acquire(m);
  return 0;
}
extern "C" int __model_pthread_mutex_unlock(pthread_mutex_t* pm) {
  MM* m = (MM*)pm;
  if (m->owner != wsym_thread_self() + 1) { wsym_fail("lock", "unlock of a mutex not held by this thread"); __builtin_trap(); }
  if (m->depth) { m->depth--; return 0; }
  wsym_hb_release(m);
  m->owner = 0;
  return 0;
}
extern "C" int __model_pthread_mutexattr_init(pthread_mutexattr_t* a) { memset(a, 0, sizeof *a); return 0; }
extern "C" int __model_pthread_mutexattr_settype(pthread_mutexattr_t* a, int k) { *(int*)a = k; return 0; }
extern "C" int __model_pthread_mutexattr_destroy(pthread_mutexattr_t*) { return 0; }
extern "C" int __model_pthread_mutex_init(pthread_mutex_t* pm, const pthread_mutexattr_t* a) { memset(pm, 0, sizeof *pm); if (a) ((MM*)pm)->kind = *(const int*)a; return 0; }
// reader/writer locks (folly::RWSpinLock)
void rt_rw_lock(RtRw* m) {
  int self = wsym_thread_self();
  if (nT > 1) switchTo(pick(self));
  while (m->writer || m->readers) { T[self].st = T_RWW; T[self].on = m; block(); }
  m->writer = self + 1;
  wsym_hb_acquire(m);
  wsym_hb_acquire(&m->readers);
}
void rt_rw_unlock(RtRw* m) {
  if (m->writer != wsym_thread_self() + 1) { wsym_fail("lock", "unlock of a lock not held by this thread"); __builtin_trap(); }
  wsym_hb_release(m);
  m->writer = 0;
}
void rt_rw_lock_shared(RtRw* m) {
  int self = wsym_thread_self();
  if (nT > 1) switchTo(pick(self));
  while (m->writer) { T[self].st = T_RWR; T[self].on = m; block(); }
  m->readers++;
  wsym_hb_acquire(m);
}
void rt_rw_unlock_shared(RtRw* m) {
  if (m->readers <= 0) { wsym_fail("lock", "unlock of a shared lock that is not held"); __builtin_trap(); }
  wsym_hb_release(&m->readers);
  m->readers--;
}
extern "C" int __model_pthread_mutex_destroy(pthread_mutex_t* pm) {
  if (((MM*)pm)->owner) { wsym_fail("lock", "destroying a locked mutex"); __builtin_trap(); }
  return 0;
}
extern "C" int __model_pthread_cond_init(pthread_cond_t*, const pthread_condattr_t*) { return 0; }
extern "C" int __model_pthread_cond_destroy(pthread_cond_t*) { return 0; }
static int condWait(void* c, pthread_mutex_t* pm, const struct timespec* ts) {
  const bool timed = ts != nullptr;
  int self = wsym_thread_self();
  MM* m = (MM*)pm;
  if (m->owner != self + 1) { wsym_fail("lock", "condition wait without holding the mutex"); __builtin_trap(); }
  if (nT <= 1 && !(timed && (rt_timeout_budget > 0 || rt_idle_budget > 0))) { wsym_fail("deadlock", "condition wait with no other thread"); __builtin_trap(); }
  wsym_hb_release(m);
  m->owner = 0;
  T[self].st = timed ? T_CONDTIMED : T_COND; T[self].on = c; T[self].timedOut = false;
  if (timed) T[self].until = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec;
  if (rt_spurious_budget > 0 && sym_choice("spurious", 0, 1)) { rt_spurious_budget--; T[self].st = T_RUN; }
  block();
  bool to = T[self].timedOut;
  if (to) { int64_t at = (int64_t)ts->tv_sec * 1000000000 + ts->tv_nsec; rt_clock_ns = (int64_t)wsym_ite((uint64_t)(at > rt_clock_ns), (uint64_t)at, (uint64_t)rt_clock_ns); }
  while (m->owner) { T[self].st = T_MUTEX; T[self].on = m; block(); }
  m->owner = self + 1;
  wsym_hb_acquire(m);
  return to ? ETIMEDOUT : 0;
}
static void condNotify(void* c, bool all) {
  if (nT > 1) switchTo(pick(wsym_thread_self()));
  int w[MAXT]; int n = 0;
  for (int i = 0; i < nT; i++) if ((T[i].st == T_COND || T[i].st == T_CONDTIMED) && T[i].on == c) w[n++] = i;
  if (!n) return;
  if (all) { for (int i = 0; i < n; i++) T[w[i]].st = T_RUN; return; }
  int k = n == 1 ? 0 : (int)sym_choice("wake", 0, n - 1);
  T[w[k]].st = T_RUN;
}
// waits of the models themselves (sockets)
bool rt_wait(const void* chan, int64_t until) {
  int self = wsym_thread_self();
  T[self].st = until >= 0 ? T_CONDTIMED : T_COND; T[self].on = chan; T[self].timedOut = false; T[self].until = until;
  block();
  if (T[self].timedOut && until > rt_clock_ns) rt_clock_ns = until;
  return !T[self].timedOut;
}
void rt_notify(const void* chan) { for (int i = 0; i < nT; i++) if ((T[i].st == T_COND || T[i].st == T_CONDTIMED) && T[i].on == chan) T[i].st = T_RUN; }
extern "C" int __model_pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) { return condWait(c, m, nullptr); }
extern "C" int __model_pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* ts) { return condWait(c, m, ts); }
extern "C" int __model_pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const struct timespec* ts) { return condWait(c, m, ts); }
extern "C" int __model_pthread_cond_signal(pthread_cond_t* c) { condNotify(c, false); return 0; }
extern "C" int __model_pthread_cond_broadcast(pthread_cond_t* c) { condNotify(c, true); return 0; }
// std::condition_variable members live in libstdc++.so: redirect by mangled name
extern "C" void __model__ZNSt18condition_variableC1Ev(void*) {}
extern "C" void __model__ZNSt18condition_variableD1Ev(void* c) {
  for (int i = 0; i < nT; i++) if ((T[i].st == T_COND || T[i].st == T_CONDTIMED) && T[i].on == c) { wsym_fail("lock", "condition variable destroyed while a thread waits"); __builtin_trap(); }
}
extern "C" void __model__ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE(void* c, std::unique_lock<std::mutex>* l) {
  condWait(c, l->mutex()->native_handle(), nullptr);
}
extern "C" void __model__ZNSt18condition_variable10notify_oneEv(void* c) { condNotify(c, false); }
extern "C" void __model__ZNSt18condition_variable10notify_allEv(void* c) { condNotify(c, true); }

extern "C" void wsym_rt_thread_exit(void) {
  int self = wsym_thread_self();
  wsym_hb_release(&T[self]);
  T[self].st = T_DONE;
  block();
  __builtin_trap();
}
int rt_spawn(void (*fn)(void*), void* arg) {
  if (nT >= MAXT) { wsym_fail("abort", "too many threads"); __builtin_trap(); }
  int t = wsym_thread_new(fn, arg);
  T[t].st = T_RUN;
  nT = t + 1;
  return t;
}
void rt_join(int t) {
  int self = wsym_thread_self();
  while (T[t].st != T_DONE) { T[self].st = T_JOIN; T[self].on = (const void*)(long)t; block(); }
  wsym_hb_acquire(&T[t]);
}
bool rt_done(int t) { return T[t].st == T_DONE; }
// is there any way for an unfinished thread among [1,nT) to run?
bool rt_any_enabled() { for (int i = 1; i < nT; i++) if (T[i].st != T_DONE && enabled(i)) return true; return false; }
bool rt_blocked(int t) { return T[t].st != T_DONE && !enabled(t); }

// std::thread
struct StdThreadArg { std::thread::_State* st; };
static void stdThreadMain(void* a) { std::thread::_State* s = (std::thread::_State*)a; s->_M_run(); delete s; }
extern "C" void __model__ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE(unsigned long* self, std::thread::_State** st, void (*)()) {
  std::thread::_State* s = *st; *st = nullptr;
  *self = (unsigned long)rt_spawn(stdThreadMain, s);
}
extern "C" void __model__ZNSt6thread4joinEv(unsigned long* self) {
  if (!*self) { wsym_fail("abort", "join of a thread that is not joinable"); __builtin_trap(); }
  rt_join((int)*self); *self = 0; }
extern "C" void __model__ZNSt6thread6detachEv(unsigned long* self) { *self = 0; }
#ifndef WSYM_NATIVE
std::thread::_State::~_State() {}
#endif
extern "C" unsigned long __model_pthread_self(void) { return (unsigned long)wsym_thread_self() + 1; }

// ---------------------------------------------------------------- errno, clocks, misc libc
static int errnos[MAXT];
extern "C" int* __model___errno_location(void) { return &errnos[wsym_thread_self()]; }
int64_t rt_clock_ns = 1000000000000ll;
int64_t rt_clock_step_ns = 0;
int64_t (*rt_clock_hook)() = nullptr;
static int64_t now() {
  if (rt_clock_hook) return rt_clock_hook();
  rt_clock_ns += rt_clock_step_ns;
  return rt_clock_ns;
}
extern "C" int64_t __model__ZNSt6chrono3_V212steady_clock3nowEv() { return now(); }
extern "C" int64_t __model__ZNSt6chrono3_V212system_clock3nowEv() { return now(); }
extern "C" long __model_time(long* t) { long x = (long)(now() / 1000000000); if (t) *t = x; return x; }
extern "C" int __model_clock_gettime(clockid_t, struct timespec* ts) { int64_t n = now(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 0; }
void (*rt_sleep_hook)(int64_t ns) = nullptr;
// a sleeping thread gives way to the others (without preemptions left: to the next one)
static void giveWay() {
  int self = wsym_thread_self(), en[MAXT], n = 0;
  for (int i = 1; i < nT; i++) { int t = (self + i) % nT; if (enabled(t) && T[t].st != T_CONDTIMED) en[n++] = t; }
  if (!n) return;
  switchTo(en[n == 1 || rt_preempt_budget <= 0 || rt_sched_budget <= 0 ? 0 : (int)sym_choice("sched", 0, n - 1)]);
}
static void doSleep(int64_t ns) { if (rt_sleep_hook) rt_sleep_hook(ns); else rt_clock_ns += ns; giveWay(); }
extern "C" int __model_nanosleep(const struct timespec* a, struct timespec*) { doSleep(a->tv_sec * 1000000000ll + a->tv_nsec); return 0; }
extern "C" int __model_usleep(unsigned us) { doSleep((int64_t)us * 1000); return 0; }
extern "C" unsigned __model_sleep(unsigned s) { doSleep((int64_t)s * 1000000000ll); return 0; }
extern "C" int __model_sched_yield(void) { rt_yield(); return 0; }
extern "C" char* __model_getenv(const char*) { return nullptr; }
extern "C" int __model_getpid(void) { return 4242; }
extern "C" int __model_isatty(int) { return 0; }
extern "C" int __model_rand(void) { return (int)(wsym_sym("rand", 31)); }
extern "C" char* __model_strerror(int) { static char b[] = "error"; return b; }
extern "C" char* __model_strerror_r(int, char* b, size_t n) { if (n) b[0] = 0; return b; }
extern "C" int __model_posix_memalign(void** p, size_t, size_t n) { *p = malloc(n); return *p ? 0 : ENOMEM; }
extern "C" void* __model_memchr(const void* p, int c, size_t n) { const unsigned char* b = (const unsigned char*)p; for (size_t i = 0; i < n; i++) if (b[i] == (unsigned char)c) return (void*)(b + i); return nullptr; }
extern "C" char* __model_strchr(const char* s, int c) { for (;; s++) { if (*s == (char)c) return (char*)s; if (!*s) return nullptr; } }
extern "C" char* __model_strrchr(const char* s, int c) { const char* r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
extern "C" int __model_strcmp(const char* a, const char* b) { for (;; a++, b++) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } }
extern "C" int __model_strncmp(const char* a, const char* b, size_t n) { for (; n; a++, b++, n--) { if (*a != *b) return (unsigned char)*a < (unsigned char)*b ? -1 : 1; if (!*a) return 0; } return 0; }
extern "C" char* __model_strncpy(char* d, const char* s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
extern "C" char* __model_strcpy(char* d, const char* s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
extern "C" int __model_strcasecmp(const char* a, const char* b) { auto lc = [](unsigned char c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }; for (;; a++, b++) { int x = lc(*a), y = lc(*b); if (x != y) return x - y; if (!x) return 0; } }
extern "C" int __model_isdigit(int c) { return c >= '0' && c <= '9'; }
extern "C" int __model_isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
extern "C" int __model_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
extern "C" int __model_isalnum(int c) { return __model_isdigit(c) || __model_isalpha(c); }
extern "C" int __model_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
extern "C" int __model_isprint(int c) { return c >= 32 && c < 127; }
extern "C" int __model_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
extern "C" int __model_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
extern "C" long __model_strtol(const char* s, char** end, int base) {
  const char* p = s; while (__model_isspace((unsigned char)*p)) p++;
  bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { p += 2; base = 16; }
  if (base == 0) base = *p == '0' ? 8 : 10;
  const char* st = p; unsigned long v = 0; bool ov = false;
  for (;; p++) {
    int d; char c = *p;
    if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
    if (d >= base) break;
    unsigned long lim = neg ? 1ul << 63 : (1ul << 63) - 1;
    if (v > (lim - d) / base) ov = true; else v = v * base + d;
  }
  if (end) *end = (char*)(p == st ? s : p);
  if (ov) { *__model___errno_location() = ERANGE; return neg ? (long)(1ul << 63) : (long)((1ul << 63) - 1); }
  return neg ? (long)(0 - v) : (long)v;
}
extern "C" long long __model_strtoll(const char* s, char** e, int b) { return __model_strtol(s, e, b); }
extern "C" long __model___isoc23_strtol(const char* s, char** e, int b) { return __model_strtol(s, e, b); }
extern "C" long long __model___isoc23_strtoll(const char* s, char** e, int b) { return __model_strtol(s, e, b); }
extern "C" int __model_atoi(const char* s) { return (int)__model_strtol(s, nullptr, 10); }
extern "C" long __model_atol(const char* s) { return __model_strtol(s, nullptr, 10); }
extern "C" void __model__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
extern "C" void __model__ZNSt13random_device7_M_finiEv(void*) {}
extern "C" unsigned __model__ZNSt13random_device9_M_getvalEv(void*) { static unsigned n; return 12345 + n++ * 7919; }
