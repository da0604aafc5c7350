// C03, C13-C18: clients working on one database under its lock, with allocation faults, against the reference model.
#include "world.h"
static std::string profile; static int bulk, burst; // records created at the beginning, by one client in one transaction
static void configure() {
  Cfg& c = W.cfg; profile = OPT.count("profile") ? OPT["profile"] : "mix";
  c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 6; w[O_ENCFREE] = 2;
  c.ncol = 3 + choose(SW, 4); c.maxrec = 5 + choose(SW, 60);
  if (profile == "serial") { w[O_QUERY] = 3; w[O_MKINDEX] = 1; w[O_DROPINDEX] = 1; w[O_PARENTS] = 2; w[O_ATOMIC] = 2; c.maxrec = 5 + choose(SW, 15); }
  else if (profile == "space") { c.faults = true; c.faultpct = 15 + choose(SF, 30); w[O_QUERY] = 5; w[O_MKINDEX] = 3; w[O_DROPINDEX] = 1; w[O_PARENTS] = 1; c.hash = choose(SW, 3) == 1; }
  else if (profile == "storage") { w[O_CREATE] = 20; w[O_DELETE] = 16; w[O_ENCFREE] = 6; w[O_MKINDEX] = 1; w[O_DROPINDEX] = 1; if (choose(SF, 3) == 1) { c.faults = true; c.faultpct = 10; } c.longmax = 600; if (choose(SW, 2)) { static const int ls[] = {30, 29, 31, 33, 40, 64, 65, 100, 130, 28, 250}; int n = 1 + choose(SW, 3); for (int k = 0; k < n; k++) c.lens.push_back(ls[choose(SW, 11)]); w[O_ENCFREE] = choose(SW, 2) ? 6 : 1; } }
  else if (profile == "index") { w[O_MKINDEX] = 6; w[O_DROPINDEX] = 2; w[O_SET] = 30; c.hash = choose(SW, 2); if (choose(SF, 3) == 1) { c.faults = true; c.faultpct = 10; } if (choose(SW, 3) == 1) c.maxrec = 100; }
  else if (profile == "query") { w[O_QUERY] = 40; w[O_FIND] = 8; w[O_MKINDEX] = 4; w[O_DROPINDEX] = 1; if (choose(SF, 3) == 1) { c.faults = true; c.faultpct = 15; c.segfaults = false; } }
  else if (profile == "values") { w[O_ENCFREE] = 8; w[O_SET] = 30; c.refs = choose(SW, 3) == 1; c.valmask = ~0u; if (choose(SF, 3) == 1) { c.faults = true; c.faultpct = 12; } w[O_MKINDEX] = choose(SW, 3) == 1 ? 1 : 0; }
  else if (profile == "refs") { w[O_PARENTS] = 6; w[O_DELETE] = 12; w[O_SET] = 30; c.valmask = (1u << WG_INTTYPE) | (1u << WG_STRTYPE); c.cycles = choose(SW, 2); c.dupref = choose(SW, 2); if (choose(SF, 3) == 1) { c.faults = true; c.faultpct = 12; } w[O_MKINDEX] = choose(SW, 3) == 1 ? 1 : 0; }
  c.badindex = profile == "index" || profile == "query"; if (c.badindex && choose(SW, 8) == 1) { c.wide = true; c.lens = {128, 127, 129, 130, 126}; c.maxrec = std::min(c.maxrec, 20); }
  c.mallocfaults = true; bulk = 0; burst = 0;
  if ((profile == "serial" || profile == "values" || profile == "refs" || profile == "storage") && choose(SW, 6) == 1) { burst = 60 + choose(SW, 200); c.maxrec += burst; c.longmax = std::min(c.longmax, 200); }
  if ((profile == "query" || profile == "index") && choose(SW, 4) == 1 && !c.wide) { // many records with few values: large trees, many duplicates, several result pages
    bulk = 40 + choose(SW, 200); c.maxrec = bulk + 40; c.ncol = 2 + choose(SW, 2); c.refs = false; c.longmax = 100; static const unsigned ms[] = {1u << WG_INTTYPE, 1u << WG_TIMETYPE, 1u << WG_CHARTYPE, 1u << WG_INTTYPE | 1u << WG_DATETYPE, 1u << WG_STRTYPE, ~0u}; c.valmask = ms[choose(SW, 6)]; c.bigints = false; w[O_SCAN] = 0; w[O_CREATE] = 3; w[O_RAW] = 1; w[O_DELETE] = 10;
  }
}
static std::vector<unsigned> wv() { return W.cfg.w; }
SCENARIO(ops) {
  world_reset(); configure();
  sched_config(1); G.maxfairgap = 200000;
  int ncl = 1 + choose(SW, profile == "serial" ? 4 : 3); if (profile == "serial") ncl++; int rounds = 2 + choose(SW, profile == "serial" ? 8 : 14);
  static const i64 sizes[] = {600000, 1500000, 4000000}; i64 size = sizes[choose(SW, 3)]; if (bulk) { size = 4000000; rounds = std::min(rounds, 6); }
  if (burst) size = 4000000;
  if (profile == "space" || (profile == "storage" && choose(SW, 4) == 1)) { static const i64 ts[] = {600000, 420000, 300000, 260000}; size = ts[choose(SW, 4)]; W.cfg.tight = size < 600000; if (W.cfg.tight) { W.cfg.maxrec = 400; W.cfg.w[O_CREATE] += 30; rounds += 10; W.cfg.longmax = 600; } }
  if (OPT.count("size")) size = optl("size", 0);
  void* db0 = wg_attach_database("100", size); if (!db0) return;
  int key = 100; (void)key;
  u64 ops = 0, refused = 0; std::map<std::string, i64> base; audit_alloc(db0, &base);
  if (bulk) { bool f = W.cfg.faults; W.cfg.faults = false; wg_int early = choose(SW, 2); if (early) op_mkindex(db0); for (int k = 0; k < bulk; k++) op_create(db0, false); if (!early) op_mkindex(db0); W.cfg.faults = f; probe("bulk runs"); }
  std::vector<int> ids; bool stall = choose(SF, 6) == 1; if (stall) { G.stall_num = 1; G.stall_den = 60; }
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); G.cur->nofault = false;
    for (int r = 0; r < rounds; r++) {
      if (choose(SW, 5) == 1) {
        i64 l = wg_start_read(db); if (!l) { refused++; continue; } EV(0x1001, i, 0, "client %d reads", i);
        u64 v = W.version; verify_reader(db); if (profile != "serial" || choose(SW, 2)) { if (W.cfg.w[O_QUERY]) op_query(db); if (W.cfg.w[O_PARENTS]) op_parents(db); }
        if (W.version != v) violate("isolation", "the database changed while a reader held the lock"); wg_end_read(db, l);
      } else {
        i64 l = wg_start_write(db); if (!l) { refused++; continue; } EV(0x1002, i, 0, "client %d writes", i);
        if (burst && choose(SW, 4) == 1) { bool f = W.cfg.faults; W.cfg.faults = false; for (int k = 0; k < burst; k++) op_create(db, false); W.cfg.faults = f; burst = 0; probe("bursts of records"); }
        int n = 1 + choose(SW, 6); for (int k = 0; k < n && !W.corrupt; k++) {
          bool ok = do_op(db, weighted(SW, wv())); ops++;
          if (!ok) { disarm_all(); verify(db, "after a failed operation"); if (choose(SW, 3) == 1 && !W.m.recs.empty()) { // space is freed: things go on
              } }
        }
        if (choose(SW, 4) == 1) verify(db, "after a transaction");
        wg_end_write(db, l);
      }
    }
    i64 l = wg_start_write(db); if (l) { verify_reader(db); verify(db, "at the end of a client"); wg_end_write(db, l); }
    wg_detach_database(db);
  }));
  wait_tasks(ids); G.stall_num = 0; disarm_all();
  bool f = W.cfg.faults; W.cfg.faults = false; 
  verify(db0, "at the end"); bool hashed = false; for (auto& i : W.m.idx) if (i.second.type != WG_INDEX_TYPE_TTREE) hashed = true;
  std::string smp = std::to_string(ncl) + " clients, " + std::to_string(W.nops) + " operations, " + std::to_string(W.nfail) + " failed, " + std::to_string(W.m.recs.size()) + " records and " + std::to_string(W.m.idx.size()) + " indexes at the end";
  bool t = W.cfg.tight; 
  if (W.cfg.chk_leak && (profile == "storage" || profile == "values" || profile == "space" || profile == "refs" || profile == "index")) {
    W.cfg.tight = false; delete_everything(db0); verify(db0, "after deleting everything"); std::map<std::string, i64> u; audit_alloc(db0, &u);
    if (!hashed) for (auto& e : u) if (e.second != base[e.first]) violate("leak", "after everything was deleted %lld %s of the %s area are still in use%s", (long long)(e.second - base[e.first]), "cells or bytes", e.first.c_str(), f || t ? " (operations had failed)" : "");
  }
  if (W.nops > 5) nontrivial(); probe("operations", W.nops); probe("operations that failed", W.nfail); probe("lock refused", refused); (void)ops; g_sample = smp;
}
