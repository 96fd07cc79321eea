// In-memory TCP: listening sockets, connections with ordered byte streams in both
// directions, receive timeouts, and connections that break at any moment.
#include <wsym.h>
#include "fs.h"
#include "net.h"
#include "rt.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <netdb.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/socket.h>
#define MAXS 48
#define MAXC 16
enum { S_FREE, S_NEW, S_LISTEN, S_CONN };
struct Stream { char* d; int64_t head, tail, cap; bool fin, lost; };
struct Conn { Stream s[2]; bool reset; bool closed[2]; };
struct Sk { int kind, port, conn, side; int rcvMs, sndMs; int backlog[8]; int nb; };
static Sk S[MAXS];
static Conn C[MAXC];
static int nC, nextPort = 40000;
int net_fault_budget, net_kinds = 1, net_refuse_budget, net_chunk = 1 << 20, net_sndbuf = 1 << 20, net_ops, net_split_budget;
const char* net_what = "";
void (*net_write_hook)(int, int, char*, int64_t) = nullptr;
extern "C" int* __model___errno_location(void);
static int fail(int e) { *__model___errno_location() = e; return -1; }
static Sk* sk(int fd) { return fd >= 0 && fd < MAXS && S[fd].kind ? &S[fd] : nullptr; }
static void brk(Conn& c, int kind) {
  if (kind == 0) { c.reset = true; net_what = "reset"; }
  else if (kind == 1) { for (auto& s : c.s) { s.fin = true; s.lost = true; } net_what = "closed"; }
  else { for (auto& s : c.s) s.lost = true; net_what = "cut off"; }
  rt_notify(&c);
}
static bool hurt(Conn& c) { return c.reset || c.s[0].lost || c.s[1].lost; }
static void maybeBreak(Conn& c) {
  net_ops++;
  if (net_fault_budget <= 0 || hurt(c)) return;
  int k[3], n = 0;
  for (int i = 0; i < 3; i++) if (net_kinds >> i & 1) k[n++] = i;
  int x = (int)sym_choice("connection", 0, n);
  if (x) { net_fault_budget--; brk(c, k[x - 1]); }
}
static int64_t until(int ms) { return ms > 0 ? rt_clock_ns + (int64_t)ms * 1000000 : -1; }
static int64_t onRead(int fd, char* buf, int64_t n) {
  Sk* s = sk(fd);
  if (!s || s->kind != S_CONN) return fail(ENOTCONN);
  rt_yield();
  Conn& c = C[s->conn];
  maybeBreak(c);
  Stream& q = c.s[1 - s->side];
  int64_t t = until(s->rcvMs);
  while (!c.reset && q.head == q.tail && !q.fin) if (!rt_wait(&c, t)) return fail(EAGAIN);
  if (c.reset) return fail(ECONNRESET);
  int64_t k = q.tail - q.head;
  if (k > n) k = n;
  if (k > net_chunk) k = net_chunk;
  if (net_split_budget > 0 && k > 1) {
    int64_t c = sym_choice("split", 1, k);
    if (c < k) { k = c; net_split_budget--; }
  }
  if (k > 0) memcpy(buf, q.d + q.head, k);
  q.head += k;
  if (k > 0) rt_notify(&c);
  return k;
}
static int64_t onWrite(int fd, const char* buf, int64_t n) {
  Sk* s = sk(fd);
  if (!s || s->kind != S_CONN) return fail(ENOTCONN);
  rt_yield();
  Conn& c = C[s->conn];
  maybeBreak(c);
  Stream& q = c.s[s->side];
  int64_t t = until(s->sndMs);
  while (!c.reset && !q.fin && !q.lost && !c.closed[1 - s->side] && q.tail - q.head >= net_sndbuf) if (!rt_wait(&c, t)) return fail(EAGAIN);
  if (c.reset || q.fin || c.closed[1 - s->side]) return fail(c.reset ? ECONNRESET : EPIPE);
  if (q.lost) return n;
  int64_t k = net_sndbuf - (q.tail - q.head);
  if (k > n) k = n;
  if (q.tail + k > q.cap) {
    int64_t cap = (q.tail + k) * 2 + 64;
    char* d = (char*)malloc(cap);
    if (q.tail) memcpy(d, q.d, q.tail);
    free(q.d);
    q.d = d; q.cap = cap;
  }
  memcpy(q.d + q.tail, buf, k);
  if (net_write_hook) net_write_hook(s->conn, s->side, q.d + q.tail, k);
  q.tail += k;
  rt_notify(&c);
  return k;
}
static int onShutdown(int fd, int how) {
  Sk* s = sk(fd);
  if (!s || s->kind != S_CONN) return fail(ENOTCONN);
  Conn& c = C[s->conn];
  if (c.reset) return fail(ENOTCONN);
  if (how != SHUT_RD && !c.s[s->side].lost) c.s[s->side].fin = true;
  rt_notify(&c);
  return 0;
}
static int onClose(int fd) {
  Sk* s = sk(fd);
  if (!s) return 0;
  if (s->kind == S_CONN) {
    Conn& c = C[s->conn];
    c.closed[s->side] = true;
    Stream& in = c.s[1 - s->side];
    if (in.head != in.tail && !in.lost) c.reset = true;  // unread data: the peer sees a reset
    if (!c.s[s->side].lost) c.s[s->side].fin = true;
    rt_notify(&c);
  }
  if (s->kind == S_LISTEN) for (int i = 0; i < s->nb; i++) { C[s->backlog[i]].reset = true; rt_notify(&C[s->backlog[i]]); }
  s->kind = S_FREE;
  return 0;
}
static int onPoll(struct pollfd* p, int n, int timeout) {
  rt_yield();
  int64_t t = until(timeout);
  for (;;) {
    int r = 0;
    for (int i = 0; i < n; i++) {
      Sk* s = sk(p[i].fd);
      p[i].revents = 0;
      if (!s) p[i].revents = POLLNVAL;
      else if (s->kind == S_LISTEN) { if (s->nb) p[i].revents = POLLIN; }
      else if (s->kind == S_CONN) {
        Conn& c = C[s->conn]; Stream& q = c.s[1 - s->side];
        if ((p[i].events & POLLIN) && (c.reset || q.fin || q.head < q.tail)) p[i].revents |= POLLIN;
        if ((p[i].events & POLLOUT)) p[i].revents |= POLLOUT;
      }
      if (p[i].revents) r++;
    }
    if (r || timeout == 0) return r;
    if (!rt_wait(&S[p[0].fd], t)) return 0;
  }
}
static int onOpt(int fd, int o, const void* v) {
  Sk* s = sk(fd);
  if (!s) return fail(EBADF);
  if (o == SO_RCVTIMEO || o == SO_SNDTIMEO) {
    const struct timeval* tv = (const struct timeval*)v;
    (o == SO_RCVTIMEO ? s->rcvMs : s->sndMs) = (int)(tv->tv_sec * 1000 + tv->tv_usec / 1000);
  }
  return 0;
}
static int onIoctl(int fd, int* v) {
  Sk* s = sk(fd);
  if (!s || s->kind != S_CONN) return fail(EINVAL);
  Stream& q = C[s->conn].s[s->side];
  *v = (int)(q.tail - q.head);
  return 0;
}
void net_init() {
  sock_read_hook = onRead; sock_write_hook = onWrite; sock_shutdown_hook = onShutdown; sock_close_hook = onClose;
  sock_pollv_hook = onPoll; sock_opt_hook = onOpt; sock_ioctl_hook = onIoctl;
}
static int makeConn(int lport) {
  for (int i = 0; i < MAXS; i++) if (S[i].kind == S_LISTEN && S[i].port == lport) {
    if (nC >= MAXC || S[i].nb >= 8) { wsym_fail("model", "too many connections"); __builtin_trap(); }
    S[i].backlog[S[i].nb++] = nC;
    rt_notify(&S[i]);
    return nC++;
  }
  return -1;
}
extern "C" {
int __model_socket(int, int, int) { int fd = fs_socket(); if (fd >= 0) { memset(&S[fd], 0, sizeof(Sk)); S[fd].kind = S_NEW; } return fd; }
int __model_bind(int fd, const struct sockaddr* a, socklen_t) {
  Sk* s = sk(fd);
  if (!s) return fail(EBADF);
  int port = ntohs(((const struct sockaddr_in*)a)->sin_port);
  if (!port) port = nextPort++;
  for (int i = 0; i < MAXS; i++) if (S[i].kind == S_LISTEN && S[i].port == port) return fail(EADDRINUSE);
  s->port = port;
  return 0;
}
int __model_listen(int fd, int) { Sk* s = sk(fd); if (!s) return fail(EBADF); s->kind = S_LISTEN; return 0; }
int __model_getsockname(int fd, struct sockaddr* a, socklen_t* l) {
  Sk* s = sk(fd);
  if (!s) return fail(EBADF);
  struct sockaddr_in* i = (struct sockaddr_in*)a;
  memset(i, 0, sizeof *i);
  i->sin_family = AF_INET; i->sin_port = htons((uint16_t)s->port);
  *l = sizeof *i;
  return 0;
}
int __model_accept(int fd, struct sockaddr* a, socklen_t* l) {
  Sk* s = sk(fd);
  if (!s || s->kind != S_LISTEN) return fail(EINVAL);
  while (!s->nb) rt_wait(s, -1);
  int c = s->backlog[0];
  for (int i = 1; i < s->nb; i++) s->backlog[i - 1] = s->backlog[i];
  s->nb--;
  int r = fs_socket();
  if (r < 0) return r;
  memset(&S[r], 0, sizeof(Sk));
  S[r].kind = S_CONN; S[r].conn = c; S[r].side = 1;
  if (a) {
    struct sockaddr_in* i = (struct sockaddr_in*)a;
    memset(i, 0, sizeof *i);
    i->sin_family = AF_INET; i->sin_port = htons(1);
    *l = sizeof *i;
  }
  return r;
}
int __model_connect(int fd, const struct sockaddr* a, socklen_t) {
  Sk* s = sk(fd);
  if (!s) return fail(EBADF);
  rt_yield();
  if (net_refuse_budget > 0 && sym_choice("refused", 0, 1)) { net_refuse_budget--; return fail(ECONNREFUSED); }
  int c = makeConn(ntohs(((const struct sockaddr_in*)a)->sin_port));
  if (c < 0) return fail(ECONNREFUSED);
  s->kind = S_CONN; s->conn = c; s->side = 0;
  return 0;
}
int __model_getaddrinfo(const char*, const char* port, const struct addrinfo* h, struct addrinfo** out) {
  struct Both { struct addrinfo i; struct sockaddr_in a; };
  Both* b = (Both*)malloc(sizeof(Both));
  memset(b, 0, sizeof *b);
  int v = 0;
  for (; *port >= '0' && *port <= '9'; port++) v = v * 10 + (*port - '0');
  b->a.sin_family = AF_INET; b->a.sin_port = htons((uint16_t)v);
  b->i.ai_family = AF_INET; b->i.ai_socktype = h->ai_socktype; b->i.ai_addr = (struct sockaddr*)&b->a; b->i.ai_addrlen = sizeof b->a;
  *out = &b->i;
  return 0;
}
void __model_freeaddrinfo(struct addrinfo* p) { free(p); }
const char* __model_gai_strerror(int) { return "error"; }
int __model_getnameinfo(const struct sockaddr* a, socklen_t, char* host, socklen_t, char* serv, socklen_t, int) {
  host[0] = 'h'; host[1] = 0;
  int v = ntohs(((const struct sockaddr_in*)a)->sin_port), n = 0; char t[8];
  do { t[n++] = (char)('0' + v % 10); v /= 10; } while (v);
  for (int i = 0; i < n; i++) serv[i] = t[n - 1 - i];
  serv[n] = 0;
  return 0;
}
}
int net_listen(int port) { int fd = __model_socket(0, 0, 0); S[fd].port = port; S[fd].kind = S_LISTEN; return fd; }
int net_accept(int lfd, int ms) {
  struct pollfd p = {lfd, POLLIN, 0};
  if (onPoll(&p, 1, ms) <= 0) return -1;
  return __model_accept(lfd, nullptr, nullptr);
}
int net_connect(int port) { int fd = __model_socket(0, 0, 0); int c = makeConn(port); if (c < 0) { S[fd].kind = S_NEW; return -1; } S[fd].kind = S_CONN; S[fd].conn = c; S[fd].side = 0; return fd; }
bool net_listening(int port) { for (auto& s : S) if (s.kind == S_LISTEN && s.port == port) return true; return false; }
