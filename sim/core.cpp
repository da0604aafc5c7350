#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <signal.h>
#include <unistd.h>
#include <sys/mman.h>
#include <math.h>
Sim G; Stats ST;
const char* fault_name[NFAULT] = {
  "write_short","write_eintr","write_err","open_err","close_err","rename_err","stat_err","trunc_err","seek_err","read_err","read_short","read_eintr","sync_err",
  "malloc_fail","segment_alloc_fail","futex_eintr","futex_spurious_wake","sleep_eintr","shmget_err","shmat_err","shmctl_err",
  "stall","crash","crash_in_io","accept_err","recv_short","recv_eintr","recv_err","send_short","send_eintr","send_err",
  "conn_reset","pthread_err","disk_full","early_eof","corrupt_bytes","torn_write","clock_jump"};

// ------------------------------------------------------------ choices
u64 Rng::next() { u64 z = (s += 0x9e3779b97f4a7c15ULL); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL; z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL; return z ^ (z >> 31); }
double Rng::unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
u64 Choices::gen(const std::function<u64(Rng&)>& f) {
  u64 v;
  if (replay && pos > data.size() + 100000) { Rng r{pos}; v = f(r); } // ends a loop that waits for something else than 0
  else if (replay) v = pos < data.size() ? data[pos] : 0; else v = f(rng);
  pos++; used.push_back(v); return v;
}
u64 Choices::below(u64 n) {
  if (n <= 1) return 0;
  u64 v = gen([&](Rng& r) { return r.below(n); });
  if (v >= n) { v %= n; used.back() = v; }
  return v;
}
u64 choose(Stream s, u64 n) { return G.ch[s].below(n); }
bool chance(Stream s, unsigned num, unsigned den) {
  if (!num) return false;
  return G.ch[s].gen([&](Rng& r) { return (u64)(r.below(den) < num); }) & 1;
}
u64 weighted(Stream s, const std::vector<unsigned>& w) {
  u64 tot = 0; for (unsigned x : w) tot += x;
  u64 v = G.ch[s].gen([&](Rng& r) { u64 t = r.below(tot), i = 0; for (unsigned x : w) { if (t < x) return i; t -= x; i++; } return (u64)0; });
  if (v >= w.size()) v = 0;
  if (!w[v]) { for (u64 i = 0; i < w.size(); i++) if (w[i]) { v = i; break; } }
  return v;
}
// ------------------------------------------------------------ log / violation
static inline void mix(u64& h, u64 v) { h ^= v; h *= 0x100000001b3ULL; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ULL; }
void evlog(u64 code, u64 a, u64 b, const char* fmt, ...) {
  mix(G.hash, code); mix(G.hash, a); mix(G.hash, b); G.seq++;
  if (G.verbose) {
    va_list ap; va_start(ap, fmt);
    printf("  [%6llu t=%lluus c%d] ", (unsigned long long)G.seq, (unsigned long long)(G.now / 1000), G.cur ? G.cur->id : -1);
    vprintf(fmt, ap); printf("\n"); va_end(ap);
  }
}
void probe(const char* name, u64 n) { ST.probes[name] += n; }
static void* main_sp; extern "C" void swctx(void** save, void* to);
asm(".globl swctx\n.type swctx,@function\nswctx:\n push %rbp\n push %rbx\n push %r12\n push %r13\n push %r14\n push %r15\n mov %rsp,(%rdi)\n mov %rsi,%rsp\n pop %r15\n pop %r14\n pop %r13\n pop %r12\n pop %rbx\n pop %rbp\n ret\n");
static void to_main() { Task* t = G.cur; t->saved_errno = errno; swctx(&t->sp, main_sp); errno = t->saved_errno; }
void violate(const char* cls, const char* fmt, ...) {
  char buf[2000]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  G.viol_class = cls; G.viol_msg = buf; G.aborted = true;
  if (G.verbose) printf("  !! %s: %s\n", cls, buf);
  if (!G.cur) { fprintf(stderr, "violation outside a task: %s\n", buf); _exit(2); }
  G.running = false; to_main(); abort();
}
void end_run(const char* why) { probe(why); EV(0xE0D, 0, 0, "run ends: %s", why); G.viol_class.clear(); G.aborted = true; G.running = false; to_main(); abort(); }
// ------------------------------------------------------------ faults
bool fault(Fault k, u64* param) {
  if (!G.faults_on || !G.cur || G.cur->nofault) return false;
  ST.opp[k]++;
  bool r = false;
  for (auto& a : G.armed) if (a.kind == k && a.left && (a.proc < 0 || a.proc == G.cur->proc)) {
    if (a.countdown) { a.countdown--; continue; }
    a.left--; a.fired = true; G.armed_fired[G.cur->proc] = true; if (param) *param = a.param; r = true; break;
  }
  if (r) { ST.fired[k]++; EV(0xFA00 + k, G.cur->id, 0, "FAULT %s", fault_name[k]); }
  return r;
}
void arm(Fault k, u64 nth, u64 param, u64 repeat, int proc) { G.armed.push_back(Armed{k, nth, param, false, repeat, proc}); }
void disarm_all() { // inside a client: the client's own faults
  if (!G.cur || G.cur->harness) { G.armed.clear(); for (auto& f : G.armed_fired) f = false; return; }
  int p = G.cur->proc; G.armed_fired[p] = false;
  for (size_t i = 0; i < G.armed.size();) if (G.armed[i].proc == p) G.armed.erase(G.armed.begin() + i); else i++;
}
bool any_fired() { if (G.cur && !G.cur->harness) return G.armed_fired[G.cur->proc]; for (auto f : G.armed_fired) if (f) return true; return false; }
// ------------------------------------------------------------ per-process globals of the code under test
extern "C" { extern char __start_simdata[] __attribute__((weak)); extern char __stop_simdata[] __attribute__((weak));
             extern char __start_simbss[] __attribute__((weak)); extern char __stop_simbss[] __attribute__((weak)); }
static std::vector<char> gl_init, gl_proc[MAXPROC];
static size_t dsz() { return __start_simdata ? __stop_simdata - __start_simdata : 0; }
static size_t bsz() { return __start_simbss ? __stop_simbss - __start_simbss : 0; }
static void gl_save(std::vector<char>& v) { v.resize(dsz() + bsz()); if (dsz()) memcpy(v.data(), __start_simdata, dsz()); if (bsz()) memcpy(v.data() + dsz(), __start_simbss, bsz()); }
static void gl_load(const std::vector<char>& v) { if (dsz()) memcpy(__start_simdata, v.data(), dsz()); if (bsz()) memcpy(__start_simbss, v.data() + dsz(), bsz()); }
static void switch_proc(int p) { if (p == G.curproc) return; if (G.curproc >= 0) gl_save(gl_proc[G.curproc]); gl_load(gl_proc[p]); G.curproc = p; }
void new_proc_state(int p) { if (G.curproc == p) gl_load(gl_init); else gl_proc[p] = gl_init; }
// ------------------------------------------------------------ tasks
static Task taskpool[MAXTASK];
static u64 stack_top(int i) { return STK0 + (u64)(i + 1) * (STKSZ + 65536); }
static void clean_stack(int i) { // refill only the part that was used
  u64 lo = STK0 + (u64)i * (STKSZ + 65536) + 65536, hi = stack_top(i);
  u64 p = lo; while (p < hi) { u64* q = (u64*)p; bool clean = true; for (int j = 0; j < 512; j++) if (q[j] != 0xA5A5A5A5A5A5A5A5ULL) { clean = false; break; } if (!clean) break; p += 4096; }
  memset((void*)p, 0xA5, hi - p);
}
static void tramp() { Task* t = G.cur; errno = 0; t->fn(); t->st = T_DONE; to_main(); abort(); }
void task_exit() { G.cur->st = T_DONE; to_main(); abort(); }
int spawn(int proc, const char* name, std::function<void()> fn, bool harness) {
  int i = -1;
  for (int k = 0; k < (int)G.tasks.size(); k++) if (G.tasks[k]->st == T_DONE && G.tasks[k] != G.cur) { i = k; break; }
  if (i < 0) { i = G.tasks.size(); if (i >= MAXTASK) { fprintf(stderr, "too many tasks\n"); _exit(2); } G.tasks.push_back(&taskpool[i]); }
  else clean_stack(i);
  Task* t = G.tasks[i]; t->id = i; t->proc = proc; t->st = T_RUN; t->wake = 0; t->waitaddr = nullptr; t->wres = 0; t->timed = false; t->fn = std::move(fn);
  t->saved_errno = 0; t->readonly = false; t->nofault = harness; t->harness = harness; t->name = name; t->acc = 0; t->blockkind = 0; t->prio = 0; t->reads = nullptr;
  u64 top = stack_top(i); u64* sp = (u64*)(top - 64); *--sp = 0; *--sp = (u64)tramp; for (int k = 0; k < 6; k++) *--sp = 0; t->sp = sp;
  EV(0x100, i, proc, "spawn task %d (%s) in process %d", i, name, proc);
  return i;
}
static void draw_gap() {
  u64 m = G.gapmean, d = G.density; u64 g = 0;
  if (G.preempts_left) {
    g = G.ch[SS].gen([&](Rng& r) -> u64 { if (!m) return 0; if (r.below(100) >= d) return 0; double u = r.unit(); double v = -log(1 - u) * (double)m; return 1 + (u64)v; });
    if (g) G.preempts_left--;
  }
  u64 fair = G.maxfairgap;
  G.next_preempt = G.acc + ((g && g < fair) ? g : fair);
}
bool other_runnable() { for (Task* t : G.tasks) if (t != G.cur && (t->st == T_RUN || ((t->st == T_SLEEP || (t->st == T_BLOCK && t->timed)) && t->wake <= G.now))) return true; return false; }
void yield_point() {
  if (!G.cur) return;
  G.acc++; G.now += 2;
  if (G.acc >= G.next_preempt) { to_main(); }
}
extern "C" void sim_preempt_slow() {
  if (!G.cur) { G.next_preempt = ~0ULL; return; }
  to_main();
}
void sim_sleep_ns(u64 ns) { Task* t = G.cur; t->st = T_SLEEP; t->wake = G.now + ns; to_main(); }
int block_on(const void* addr, int kind, u64 deadline) {
  Task* t = G.cur; t->st = T_BLOCK; t->waitaddr = addr; t->blockkind = kind; t->timed = deadline != 0; t->wake = deadline; t->wres = 0; t->blocked_since = G.now;
  to_main(); return t->wres;
}
int wake_addr(const void* addr, int kind, int n) {
  int c = 0;
  for (Task* t : G.tasks) { if (c >= n) break; if (t->st == T_BLOCK && t->waitaddr == addr && t->blockkind == kind) { t->st = T_RUN; t->wres = 0; c++; EV(0x110, t->id, 0, "wake task %d", t->id); } }
  return c;
}
bool proc_alive(int p) { for (Task* t : G.tasks) if (t->proc == p && t->st != T_DONE) return true; return false; }
void kill_proc(int p) {
  EV(0x120, p, 0, "process %d dies", p);
  bool self = false;
  for (Task* t : G.tasks) if (t->proc == p && t->st != T_DONE) { t->st = T_DONE; if (t == G.cur) self = true; }
  fs_drop_proc(p); shm_drop_proc(p); mem_drop_proc(p);
  if (self) { to_main(); abort(); }
}
void wait_tasks(const std::vector<int>& ids) {
  for (;;) { bool all = true; for (int i : ids) if (G.tasks[i]->st != T_DONE) all = false; if (all) return; Task* t = G.cur; t->st = T_BLOCK; t->waitaddr = nullptr; t->blockkind = 99; t->timed = false; to_main(); t->blockkind = 0;
    if (G.deadlock_ok) { bool a2 = true; for (int i : ids) if (G.tasks[i]->st != T_DONE) a2 = false; if (!a2) violate("deadlock", "clients wait forever and nothing can run any more"); } }
}
void sched_config(unsigned mode) {
  // mode 0: no preemption inside the code except at blocking calls; 1: swarm
  G.preempts_left = 0; G.gapmean = 0; G.density = 0;
  if (mode == 0) return;
  static const u64 means[] = {2, 5, 15, 40, 120, 400, 1500, 6000};
  u64 k = choose(SS, 9); if (k == 8) { G.gapmean = 0; } else G.gapmean = means[k];
  static const unsigned dens[] = {100, 90, 60, 30}; G.density = dens[choose(SS, 4)];
  static const u64 caps[] = {1000000, 2, 4, 8, 50, 300}; G.preempts_left = caps[choose(SS, 6)];
}
// ------------------------------------------------------------ the loop
static bool runnable(Task* t) { return t->st == T_RUN; }
RunResult run_sim(u64 seed, const std::vector<u64>* replay, std::function<void()> mainfn) {
  if (gl_init.empty()) gl_save(gl_init);
  for (int i = 0; i < (int)G.tasks.size(); i++) clean_stack(i);
  G.tasks.clear(); G.cur = nullptr; G.now = 1700000000ULL * 1000000000ULL % 1000000000000ULL; G.acc = 0; G.seq = 0; G.hash = 7; G.ihash = 17; G.aborted = false; G.running = true; G.spare_index = G.index_alloc_failed = false;
  G.faults_on = true; G.gapmean = 0; G.density = 0; G.preempts_left = 0; G.acc_cap = 60000000; G.crash_at = ~0ULL; G.crash_proc = -1; G.viol_class.clear(); G.viol_msg.clear(); G.armed.clear(); for (auto& f : G.armed_fired) f = false;
  G.watch_on = false; G.check_mem = true; G.maxfairgap = 100000; G.stall_num = 0; G.stall_den = 1; G.deadlock_ok = false; G.hang_ok = false; G.clock_off = 0; G.zone = nullptr;
  for (int s = 0; s < NSTREAM; s++) { Choices& c = G.ch[s]; c.pos = 0; c.used.clear(); c.rng.s = seed * 0x9E3779B97F4A7C15ULL + s * 0x1234567ULL + 99; c.rng.next(); c.replay = replay != nullptr; c.data = replay ? replay[s] : std::vector<u64>(); }
  gl_load(gl_init); for (int p = 0; p < MAXPROC; p++) gl_proc[p] = gl_init; G.curproc = -1;
  mem_reset(); shm_reset(); fs_reset(); if (net_reset) net_reset(); sim_out.clear();
  ST.runs++; u64 t0 = G.now;
  spawn(0, "main", mainfn, true);
  Task* last = nullptr; int rot = 0;
  while (G.running) {
    // wake sleepers
    for (Task* t : G.tasks) if (t->wake <= G.now && (t->st == T_SLEEP || (t->st == T_BLOCK && t->timed))) { t->wres = t->st == T_BLOCK ? 1 : 0; t->st = T_RUN; }
    // the harness main task polls its children
    for (Task* t : G.tasks) if (t->st == T_BLOCK && t->blockkind == 99) { t->st = T_RUN; t->prio = 1; }
    Task* cand[MAXTASK]; int n = 0;
    for (Task* t : G.tasks) if (runnable(t) && !t->prio) cand[n++] = t;
    Task* pick = nullptr;
    if (!n) {
      // no ordinary task is runnable: either time must advance, or the main task may look at the state
      Task* pm = nullptr; for (Task* t : G.tasks) if (runnable(t) && t->prio) pm = t;
      u64 best = ~0ULL; for (Task* t : G.tasks) if (t->st == T_SLEEP || (t->st == T_BLOCK && t->timed)) if (t->wake < best) best = t->wake;
      bool blocked = false; for (Task* t : G.tasks) if (t->st == T_BLOCK && t->blockkind != 99) blocked = true;
      if (best != ~0ULL) { if (pm) { pm->st = T_BLOCK; pm->blockkind = 99; } G.now = best > G.now ? best : G.now; continue; }
      if (pm && !blocked) pick = pm;
      else if (pm && G.deadlock_ok) { pick = pm; }
      else if (blocked) {
        std::string s; for (Task* t : G.tasks) if (t->st == T_BLOCK && t->blockkind != 99) s += t->name + "(kind " + std::to_string(t->blockkind) + ") ";
        G.viol_class = "deadlock"; G.viol_msg = "all clients asleep forever: " + s; G.aborted = true; break;
      } else break; // everything done
    } else {
      for (Task* t : G.tasks) if (t->prio && t->st == T_RUN) { t->st = T_BLOCK; t->blockkind = 99; }
      int li = -1; for (int i = 0; i < n; i++) if (cand[i] == last) li = i;
      if (n == 1) pick = cand[0];
      else if (li >= 0) { // preempted or fairness point: choose another one (0 => next in rotation)
        u64 c = choose(SS, n - 1); pick = cand[(li + 1 + c) % n];
      } else { u64 c = choose(SS, n); pick = cand[(c + rot) % n]; rot++; }
    }
    pick->prio = 0;
    if (pick != last) { ST.switches++; mix(G.ihash, pick->id * 1000003ULL + (last ? last->acc % 100003 : 0)); mix(G.hash, pick->id + 77); mix(G.hash, G.acc); }
    last = pick; G.now += 150;
    switch_proc(pick->proc); draw_gap();
    if (G.crash_at != ~0ULL && G.next_preempt > G.crash_at) G.next_preempt = G.crash_at > G.acc ? G.crash_at : G.acc + 1;
    u64 a0 = G.acc; G.cur = pick; swctx(&main_sp, pick->sp); G.cur = nullptr; pick->acc += G.acc - a0;
    if (!G.running) break;
    if (pick->st == T_DONE && pick->id == 0) break; // main finished
    if (G.acc >= G.crash_at && G.oncrash) { G.crash_at = ~0ULL; ST.fired[F_CRASH]++; auto f = G.oncrash; G.oncrash = nullptr; f(); }
    if (G.stall_num && pick->st == T_RUN && pick->id && G.ch[SF].gen([&](Rng& r) { return (u64)(r.below(G.stall_den) < G.stall_num); })) {
      // a slow client: it does not run for a while
      pick->st = T_SLEEP; pick->wake = G.now + (1 + choose(SF, 30)) * 100000000ULL; ST.fired[F_STALL]++;
    }
    if (G.acc > G.acc_cap && G.hang_ok) { probe("runs that hung on what a killed process left behind"); G.aborted = true; break; }
    if (G.acc > G.acc_cap) { G.viol_class = "hang"; G.viol_msg = "no progress after " + std::to_string(G.acc) + " memory accesses in " + pick->name; G.aborted = true; break; }
  }
  ST.accesses += G.acc; ST.simtime += G.now - t0;
  RunResult r; r.violated = !G.viol_class.empty(); r.cls = G.viol_class; r.msg = G.viol_msg; r.hash = G.hash; r.ihash = G.ihash; mix(r.hash, G.acc);
  G.running = false; G.cur = nullptr; return r;
}
