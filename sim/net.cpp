// Simulated stream sockets and threads for the network server.
#include "net.h"
#include <errno.h>
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#include <arpa/inet.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <deque>
int sim_newfd(int p, OFD* o); OFD* sim_getfd(int fd);
struct NListen { int port = 0; bool on = false; int bound = 0; std::deque<NConn*> q; int proc = 0; };
struct NSock { NListen* l = nullptr; NConn* c = nullptr; };
static std::vector<NConn*> conns; static std::vector<NSock*> socks; static NListen* thelisten; static u64 cserial;
struct Mtx { bool init = false, locked = false; int owner = -1; }; static std::map<u64, Mtx> mtx; static std::map<u64, bool> cnd; static std::map<u64, int> thr; static u64 tserial;
std::map<std::string, std::string> sim_envs[MAXPROC]; std::function<void(NConn*)> net_on_accept; extern bool sim_sigpipe_ignored[MAXPROC];
void net_reset() { for (auto c : conns) delete c; conns.clear(); for (auto s : socks) { delete s->l; delete s; } socks.clear(); thelisten = nullptr; cserial = 0; mtx.clear(); cnd.clear(); thr.clear(); tserial = 0; for (auto& e : sim_envs) e.clear(); net_on_accept = nullptr; for (auto& b : sim_sigpipe_ignored) b = false; }
bool net_listening() { return thelisten && thelisten->on; }
int net_open_server_conns() { int n = 0; for (auto c : conns) if (c->accepted && !c->s_closed) n++; return n; }
NConn* cl_connect(uint32_t ip, uint16_t port) {
  if (!net_listening()) return nullptr;
  NConn* c = new NConn; c->id = conns.size(); c->serial = ++cserial; c->ip = ip; c->port = port; conns.push_back(c);
  thelisten->q.push_back(c); EV(0x700, c->id, ip, "connection %d arrives from %u.%u.%u.%u", c->id, ip >> 24, ip >> 16 & 255, ip >> 8 & 255, ip & 255); wake_addr(thelisten, 7, 1); return c;
}
void cl_send(NConn* c, const std::string& d) { if (c->c_closed || c->s_closed || c->rst || c->c_fin) return; c->c2s += d; EV(0x701, c->id, d.size(), "%zu bytes arrive on connection %d", d.size(), c->id); wake_addr(&c->c2s, 7, 1); }
size_t cl_take(NConn* c, std::string& out, size_t max) { size_t n = c->s2c.size() < max ? c->s2c.size() : max; out.append(c->s2c, 0, n); c->s2c.erase(0, n); if (n) wake_addr(&c->window, 7, 1); return n; }
bool cl_wait(NConn* c, u64 dl) { while (c->s2c.empty() && !c->s_fin && !c->s_closed && !c->rst) { if (block_on(&c->s2c, 7, dl) == 1) return false; } return true; }
void cl_fin(NConn* c) { if (c->c_fin || c->c_closed) return; c->c_fin = true; EV(0x702, c->id, 0, "client ends sending on connection %d", c->id); wake_addr(&c->c2s, 7, 1); }
void cl_close(NConn* c, bool reset) { if (c->c_closed) return; c->c_closed = true; c->c_fin = true; if (reset) { c->rst = true; ST.fired[F_CONN_RESET]++; } EV(0x703, c->id, reset, "client %s connection %d", reset ? "resets" : "closes", c->id); wake_addr(&c->c2s, 7, 1); wake_addr(&c->window, 7, 1); }
static NSock* nsock(OFD* o) { return o && o->sock ? (NSock*)o->conn : nullptr; }
void net_close(void* p) { NSock* s = (NSock*)p; if (s->l) { s->l->on = false; if (thelisten == s->l) thelisten = nullptr; } if (s->c) { s->c->s_closed = true; s->c->s_fin = true; wake_addr(&s->c->s2c, 7, 1); EV(0x704, s->c->id, 0, "server closes connection %d", s->c->id); } }
ssize_t net_recv(OFD* o, void* b, size_t n) {
  NSock* s = nsock(o); if (!s || !s->c) { errno = ENOTCONN; return -1; } NConn* c = s->c; u64 prm = 0;
  mem_check_range(b, n, true); if (!n) return 0;
  if (fault(F_RECV_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_RECV_ERR, &prm)) { static const int es[] = {ECONNRESET, ETIMEDOUT, EIO}; errno = es[prm % 3]; c->recv_err = 1; return -1; }
  while (c->c2s.empty()) { if (c->rst) { errno = ECONNRESET; return -1; } if (c->c_fin) return 0; u64 d = 0;
    if (block_on(&c->c2s, 7, d) == 2) { errno = EINTR; return -1; } }
  size_t k = c->c2s.size() < n ? c->c2s.size() : n; if (k > 1 && fault(F_RECV_SHORT, &prm)) k = 1 + prm % (k - 1);
  memcpy(b, c->c2s.data(), k); c->c2s.erase(0, k); EV(0x705, c->id, k, "server reads %zu bytes from connection %d", k, c->id); return k;
}
ssize_t net_send(OFD* o, const void* b, size_t n) {
  NSock* s = nsock(o); if (!s || !s->c) { errno = ENOTCONN; return -1; } NConn* c = s->c; u64 prm = 0;
  mem_check_range(b, n, false);
  if (fault(F_SEND_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_SEND_ERR, &prm)) { static const int es[] = {ECONNRESET, ETIMEDOUT, ENOBUFS}; errno = es[prm % 3]; c->send_err = 1; return -1; }
  for (;;) {
    if (c->rst || c->c_closed || c->s_fin) { errno = c->rst ? ECONNRESET : EPIPE; EV(0x707, c->id, 0, "send on connection %d: broken", c->id);
      if (errno == EPIPE && !sim_sigpipe_ignored[G.cur->proc]) { violate("server-died", "the server is killed by SIGPIPE when it writes to a connection the client has closed"); } return -1; }
    if (c->s2c.size() < c->window) break;
    if (block_on(&c->window, 7, 0) == 2) { errno = EINTR; return -1; }
  }
  size_t k = c->window - c->s2c.size(); if (k > n) k = n; if (k > 1 && fault(F_SEND_SHORT, &prm)) k = 1 + prm % (k - 1);
  c->s2c.append((const char*)b, k); c->s_sent += k; EV(0x706, c->id, k, "server sends %zu bytes on connection %d", k, c->id); wake_addr(&c->s2c, 7, 1); return k;
}
#define SC() do { yield_point(); ST.syscalls++; } while (0)
#define PW(s) (s)
extern "C" {
int sim_socket(int, int, int) { SC(); NSock* s = new NSock; s->l = new NListen; s->l->proc = G.cur->proc; socks.push_back(s); return sim_newfd(G.cur->proc, new OFD{nullptr, 0, 0, 1, true, s, false}); }
int sim_setsockopt(int, int, int, const void*, socklen_t) { SC(); return 0; }
int sim_getsockopt(int, int, int, void*, socklen_t*) { SC(); return 0; }
int sim_bind(int fd, const struct sockaddr* a, socklen_t) { SC(); NSock* s = nsock(sim_getfd(fd)); if (!s || !s->l) { errno = EBADF; return -1; } mem_check_range(a, sizeof(struct sockaddr_in), false); s->l->port = ntohs(((struct sockaddr_in*)a)->sin_port); return 0; }
int sim_listen(int fd, int) { SC(); NSock* s = nsock(sim_getfd(fd)); if (!s || !s->l) { errno = EBADF; return -1; } s->l->on = true; thelisten = s->l; EV(0x708, s->l->port, 0, "listening on port %d", s->l->port); return 0; }
int sim_accept(int fd, struct sockaddr* a, socklen_t* al) {
  SC(); NSock* s = nsock(sim_getfd(fd)); if (!s || !s->l || !s->l->on) { errno = EINVAL; return -1; } u64 prm = 0;
  while (s->l->q.empty()) block_on(s->l, 7, 0);
  if (fault(F_ACCEPT_ERR, &prm)) { static const int es[] = {EINTR, ECONNABORTED, EMFILE, ENFILE, ENOBUFS}; errno = es[prm % 5]; sim_sleep_ns(1000); return -1; }
  NConn* c = s->l->q.front(); s->l->q.pop_front(); c->accepted = true; NSock* n = new NSock; n->c = c; socks.push_back(n);
  if (a) { struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_port = htons(c->port); si.sin_addr.s_addr = htonl(c->ip); socklen_t k = *al < sizeof si ? *al : sizeof si; mem_check_range(a, k, true); memcpy(a, &si, k); *al = sizeof si; }
  int r = sim_newfd(G.cur->proc, new OFD{nullptr, 0, 0, 1, true, n, false}); EV(0x709, c->id, r, "accept connection %d -> %d", c->id, r); if (net_on_accept) net_on_accept(c); return r;
}
int sim_accept4(int fd, struct sockaddr* a, socklen_t* al, int) { return sim_accept(fd, a, al); }
int sim_getpeername(int fd, struct sockaddr* a, socklen_t* al) {
  SC(); NSock* s = nsock(sim_getfd(fd)); if (!s) { errno = EBADF; return -1; } if (!s->c || s->c->rst || s->c->getpeer_fail) { errno = ENOTCONN; EV(0x70c, s->c ? s->c->id : 0, 0, "getpeername fails"); return -1; }
  struct sockaddr_in si; memset(&si, 0, sizeof si); si.sin_family = AF_INET; si.sin_port = htons(s->c->port); si.sin_addr.s_addr = htonl(s->c->ip); socklen_t k = *al < sizeof si ? *al : sizeof si; mem_check_range(a, k, true); memcpy(a, &si, k); *al = sizeof si; return 0;
}
ssize_t sim_recv(int fd, void* b, size_t n, int) { SC(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; EV(0x70a, fd, 0, "recv on a closed descriptor"); violate("server-fd", "the server reads from descriptor %d, which it has closed", fd); } return net_recv(o, b, n); }
ssize_t sim_send(int fd, const void* b, size_t n, int) { SC(); OFD* o = sim_getfd(fd); if (!o) { violate("server-fd", "the server writes to descriptor %d, which it has closed", fd); } return net_send(o, b, n); }
int sim_shutdown(int fd, int how) { SC(); NSock* s = nsock(sim_getfd(fd)); if (!s) { errno = EBADF; return -1; } NConn* c = s->c; if (!c || c->rst) { errno = ENOTCONN; return -1; }
  if (how != SHUT_RD) { c->s_fin = true; wake_addr(&c->s2c, 7, 1); } return 0; }
char* sim_getenv(const char* n) { auto& e = sim_envs[G.cur->proc]; auto i = e.find(n); return i == e.end() ? nullptr : (char*)i->second.c_str(); }
const char* sim_inet_ntop(int af, const void* src, char* dst, socklen_t n) { mem_check_range(src, af == AF_INET ? 4 : 16, false); char t[64]; if (!inet_ntop(af, src, t, sizeof t)) return nullptr; if (strlen(t) + 1 > n) { errno = ENOSPC; return nullptr; } mem_check_range(dst, strlen(t) + 1, true); strcpy(dst, t); return dst; }
char* sim_strerror(int e) { return strerror(e); }
// ---- threads
static Mtx& gm(void* m) { mem_check_range(m, 8, true); Mtx& x = mtx[(u64)m]; if (!x.init) violate("pthread", "use of a mutex that was not initialised"); return x; }
int sim_pthread_mutex_init(void* m, const void*) { SC(); mem_check_range(m, sizeof(pthread_mutex_t), true); mtx[(u64)m] = Mtx{true, false, -1}; return 0; }
int sim_pthread_mutex_destroy(void* m) { SC(); mtx.erase((u64)m); return 0; }
int sim_pthread_mutex_lock(void* m) { SC(); for (;;) { Mtx& x = gm(m); if (!x.locked) { x.locked = true; x.owner = G.cur->id; return 0; } if (x.owner == G.cur->id) violate("deadlock", "a thread locks a mutex it holds"); block_on(m, 8, 0); } }
int sim_pthread_mutex_trylock(void* m) { SC(); Mtx& x = gm(m); if (x.locked) return EBUSY; x.locked = true; x.owner = G.cur->id; return 0; }
int sim_pthread_mutex_unlock(void* m) { SC(); Mtx& x = gm(m); if (!x.locked || x.owner != G.cur->id) violate("pthread", "a thread unlocks a mutex it does not hold"); x.locked = false; x.owner = -1; wake_addr(m, 8, 1); return 0; }
int sim_pthread_cond_init(void* c, const void*) { SC(); mem_check_range(c, sizeof(pthread_cond_t), true); cnd[(u64)c] = true; return 0; }
int sim_pthread_cond_destroy(void* c) { SC(); cnd.erase((u64)c); return 0; }
static void chkc(void* c) { mem_check_range(c, 8, true); if (!cnd.count((u64)c)) violate("pthread", "use of a condition variable that was not initialised"); }
int sim_pthread_cond_wait(void* c, void* m) {
  SC(); chkc(c); Mtx& x = gm(m); if (!x.locked || x.owner != G.cur->id) violate("pthread", "pthread_cond_wait without the mutex"); u64 prm = 0;
  bool sp = fault(F_FUTEX_SPURIOUS, &prm); x.locked = false; x.owner = -1; wake_addr(m, 8, 1); block_on(c, 9, sp ? G.now + 1000 + prm % 50000000 : 0); return sim_pthread_mutex_lock(m);
}
int sim_pthread_cond_timedwait(void* c, void* m, const struct timespec* ts) { SC(); chkc(c); Mtx& x = gm(m); x.locked = false; x.owner = -1; wake_addr(m, 8, 1); int r = block_on(c, 9, G.now + 1000000000ULL); sim_pthread_mutex_lock(m); return r == 1 ? ETIMEDOUT : 0; }
int sim_pthread_cond_signal(void* c) { SC(); chkc(c);
  std::vector<Task*> w; for (Task* t : G.tasks) if (t->st == T_BLOCK && t->waitaddr == c && t->blockkind == 9) w.push_back(t);
  if (!w.empty()) { Task* t = w[w.size() > 1 ? choose(SS, w.size()) : 0]; t->st = T_RUN; t->wres = 0; EV(0x110, t->id, 0, "wake task %d", t->id); } return 0; }
int sim_pthread_cond_broadcast(void* c) { SC(); chkc(c); wake_addr(c, 9, 1000); return 0; }
int sim_pthread_attr_init(void* a) { SC(); mem_check_range(a, sizeof(pthread_attr_t), true); return 0; }
int sim_pthread_attr_destroy(void*) { return 0; }
int sim_pthread_attr_setdetachstate(void*, int) { return 0; }
int sim_pthread_create(u64* t, const void*, void* (*f)(void*), void* arg) { SC(); if (fault(F_PTHREAD_ERR)) return EAGAIN; int id = spawn(G.cur->proc, "worker", [f, arg] { f(arg); }); *t = ++tserial; thr[*t] = id; return 0; }
void sim_pthread_exit(void*) { task_exit(); }
int sim_pthread_join(u64 t, void**) { SC(); while (G.tasks[thr[t]]->st != T_DONE) sim_sleep_ns(1000000); return 0; }
int sim_pthread_detach(u64) { return 0; }
u64 sim_pthread_self() { return G.cur->id; }
}
