// C01, C02: the database lock under every schedule, timeout and interruption.
#include "../sim/core.h"
#include "../sim/scen.h"
#include <stdlib.h>
#include <string.h>
#include <algorithm>
extern "C" {
#include "dbapi.h"
}
namespace {
struct Cl { void* db; int proc; bool inacq, inrel, writer, hold; u64 t0; int tid; std::vector<int> ahead; u64 lockid; };
struct WReq { u64 t0, end; }; std::vector<WReq> wreqs; u64 last_wheld;
Cl cl[8]; int ncl; int nw, nr; u64 last_held; bool stalls, sleep_eintr; int proto; u64 maxhold; u64 grants, timeouts, waits;
bool excl, live;
void check_grant(Cl& c) {
  for (int i = 0; i < ncl; i++) if (&cl[i] != &c && cl[i].hold && (cl[i].writer || c.writer))
    if (excl) violate("exclusion", "client %d was granted the %s lock while client %d holds the %s lock", (int)(&c - cl), c.writer ? "write" : "read", i, cl[i].writer ? "write" : "read");
}
u64 acquire(Cl& c, bool w, bool final) {
  c.writer = w; c.t0 = G.now; c.ahead.clear(); bool mustwait = false;
  for (int i = 0; i < ncl; i++) if (&cl[i] != &c && cl[i].inacq && G.tasks[cl[i].tid]->st == T_BLOCK && (cl[i].writer || w)) c.ahead.push_back(i);
  for (int i = 0; i < ncl; i++) if (&cl[i] != &c && cl[i].hold && (cl[i].writer || w)) mustwait = true;
  if (mustwait) waits++;
  std::vector<u64> start; for (int i : c.ahead) start.push_back(cl[i].t0);
  c.inacq = true; EV(0x1000, &c - cl, w, "client %d asks for the %s lock", (int)(&c - cl), w ? "write" : "read");
  u64 id = w ? wg_start_write(c.db) : wg_start_read(c.db);
  u64 el = G.now - c.t0; c.inacq = false; if (w) wreqs.push_back({c.t0, G.now});
  EV(0x1001, id != 0, el / 1000000, "client %d: %s after %llu ms", (int)(&c - cl), id ? "granted" : "refused", (unsigned long long)(el / 1000000));
  if (id) {
    grants++; check_grant(c); c.hold = true; c.lockid = id; last_held = G.now;
    if (live && proto == 3) for (size_t k = 0; k < c.ahead.size(); k++) { Cl& o = cl[c.ahead[k]]; if (o.inacq && o.t0 == start[k] && G.tasks[o.tid]->st == T_BLOCK && (o.writer || w)) violate("fairness", "client %d queued later but overtook client %d, which is still waiting", (int)(&c - cl), c.ahead[k]); }
  } else {
    timeouts++;
    if (live) {
      if (el < 1800000000ULL && !sleep_eintr) violate("early-timeout", "lock request refused after %llu us, long before its timeout", (unsigned long long)(el / 1000));
      if (el > 40000000000ULL && !stalls) violate("late-timeout", "lock request refused only after %llu ms", (unsigned long long)(el / 1000000));
      bool others = false; for (int i = 0; i < ncl; i++) if (cl[i].hold) others = true;
      if (!stalls && !others && G.now - last_held > 1500000000ULL && el > 1500000000ULL) violate("lost-wakeup", "client %d was refused although nobody has held the lock for %llu ms", (int)(&c - cl), (unsigned long long)((G.now - last_held) / 1000000));
      // a reader must get in while only readers hold the lock and no writer asked before it
      if (!w && !stalls && el > 1500000000ULL) {
        u64 conf = last_wheld; for (int i = 0; i < ncl; i++) if (cl[i].writer && (cl[i].hold || cl[i].inrel || (cl[i].inacq && (proto != 3 || cl[i].t0 < c.t0 + 100000000ULL)))) conf = G.now;
        for (auto& q : wreqs) if (proto != 3 || q.t0 < c.t0 + 100000000ULL) conf = std::max(conf, q.end);
        if (G.now - conf > 1500000000ULL) violate("lost-wakeup", "client %d was refused the read lock although for %llu ms no writer has held it or waited before it", (int)(&c - cl), (unsigned long long)((G.now - conf) / 1000000));
      }
      if (final) violate("stuck", "no client uses the lock any more but a new %s request fails", w ? "write" : "read");
    }
  }
  return id;
}
void release(Cl& c) {
  c.hold = false; last_held = G.now; c.inrel = true; u64 t0 = G.now;
  EV(0x1002, &c - cl, 0, "client %d releases", (int)(&c - cl));
  wg_int r = c.writer ? wg_end_write(c.db, c.lockid) : wg_end_read(c.db, c.lockid);
  c.inrel = false; last_held = G.now; if (c.writer) last_wheld = G.now;
  if (!r && live) violate("release", "releasing the lock failed");
  if (live && !stalls && G.now - t0 > 3000000000ULL) violate("release", "releasing the lock took %llu ms", (unsigned long long)((G.now - t0) / 1000000));
}
}
SCENARIO(lock) {
  proto = optl("proto", 3); excl = OPT["property"] != "C02"; live = OPT["property"] != "C01";
  memset((void*)cl, 0, 0); for (auto& c : cl) c = Cl{}; nw = nr = 0; last_held = last_wheld = 0; wreqs.clear(); grants = timeouts = waits = 0;
  ncl = 2 + choose(SW, 4); int rounds = 1 + choose(SW, 6);
  static const unsigned wp[] = {50, 20, 80, 100}; unsigned wr = wp[choose(SW, 4)];
  static const u64 holds[] = {0, 20000, 3000000, 300000000, 1999000000, 5000000000}; int hk = choose(SW, 6);
  static const u64 pauses[] = {0, 2000, 1000000, 700000000}; int pk = choose(SW, 4);
  sched_config(1);
  unsigned fm = choose(SF, 5); stalls = false; sleep_eintr = false;
  G.maxfairgap = 30000;
  void* db0 = wg_attach_database((char*)"100", 300000); if (!db0) { return; }
  std::vector<int> ids;
  for (int i = 0; i < ncl; i++) {
    cl[i].proc = 1 + i; 
    ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [=] {
      Cl& c = cl[i]; G.cur->nofault = true; c.db = wg_attach_existing_database((char*)"100"); if (!c.db) violate("attach", "attach failed"); G.cur->nofault = false;
      for (int r = 0; r < rounds; r++) {
        if (pauses[pk]) sim_sleep_ns(choose(SW, 2) ? choose(SW, pauses[pk]) : 0);
        bool w = choose(SW, 100) < wr;
        if (acquire(c, w, false)) {
          u64 h = holds[choose(SW, hk + 1)]; if (h) sim_sleep_ns(h); else { yield_point(); yield_point(); }
          release(c);
        }
      }
      if (!G.tasks.empty()) G.cur->nofault = false;
    }));
    cl[i].tid = ids.back();
  }
  // faults: interruptions, wake-ups without cause, slow clients
  if (fm) { unsigned n = 1 + choose(SF, 4); for (unsigned k = 0; k < n; k++) { u64 w = choose(SF, 4); Fault f = w == 0 ? F_FUTEX_EINTR : w == 1 ? F_FUTEX_SPURIOUS : w == 2 ? F_SLEEP_EINTR : F_FUTEX_SPURIOUS; if (f == F_SLEEP_EINTR && proto == 3) f = F_FUTEX_EINTR; if (f == F_SLEEP_EINTR) sleep_eintr = true; arm(f, choose(SF, 8), choose(SF, 1000000), 1 + choose(SF, 3)); } }
  if (fm == 4) { stalls = true; G.stall_num = 1; G.stall_den = 40; }
  wait_tasks(ids);
  G.stall_num = 0; disarm_all(); stalls = false; sleep_eintr = false;
  // everything released: every kind of request must succeed now
  for (auto& c : cl) c.hold = false;
  std::vector<int> fin;
  for (int i = 0; i < ncl; i++) { fin.push_back(spawn(1 + i, "final", [=] { Cl& c = cl[i]; c.tid = G.cur->id; for (int k = 0; k < 2; k++) { u64 t = G.now; acquire(c, (i + k) & 1, true); if (live && G.now - t > 1000000000ULL) violate("slow", "an unloaded lock took %llu ms to acquire", (unsigned long long)((G.now - t) / 1000000)); release(c); } wg_detach_database(c.db); })); wait_tasks({fin.back()}); }
  if (waits) nontrivial();
  probe("lock granted", grants); probe("lock timed out", timeouts); probe("request had to wait", waits);
  g_sample = std::to_string(ncl) + " clients x " + std::to_string(rounds) + " rounds, " + std::to_string(wr) + "% writers, " + std::to_string(grants) + " grants, " + std::to_string(timeouts) + " timeouts, " + std::to_string(waits) + " waits";
}
