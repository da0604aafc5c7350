// C07, C08: journaled work, crashes at any instant, recovery from the last dump and the journals made since.
#include "world.h"
#include "jcommon.h"
static int dumper_proc; static u64 dump_newino; static bool g_jf, g_df;
struct Base { std::string dump; u64 chain; std::map<i64, MIdx> idx; };
static Base B; static std::set<u64> damaged; static bool crashed;
static std::string jn() { return "/simlog/wgdb.journal.100"; }
static void on_write(int proc, Inode* i, OFD* o, u64 off, const char* d, u64 n) {
  std::string nm = fs_name_of(i);
  if (!d) return;
  if (o->app) violate("stray-write", "the library wrote %llu bytes to a file of the application", (unsigned long long)n);
  if (nm.compare(0, 9, "/tmp/dump") == 0) { if (proc != dumper_proc) violate("stray-write", "process %d, which is not dumping, wrote to a dump file", proc); return; }
  if (i != fs_get(jn())) violate("stray-write", "a journal write of %llu bytes went to %s, which is not the current journal", (unsigned long long)n, nm.empty() ? "a deleted file" : nm.c_str());
  if (proc == dumper_proc) dump_newino = i->ino;
}
static std::vector<Inode*> chain_files() { std::vector<Inode*> v; for (auto& n : fs.names) if (n.first.compare(0, jn().size(), jn()) == 0 && n.second->ino >= B.chain) v.push_back(n.second); std::sort(v.begin(), v.end(), [](Inode* a, Inode* b) { return a->ino < b->ino; }); return v; }
static void prune() { // what the administrator does with journals no longer needed, and with empty ones
  std::vector<std::string> rm; for (auto& n : fs.names) if (n.first.compare(0, jn().size(), jn()) == 0 && n.first != jn() && (n.second->ino < B.chain || n.second->data.size() <= 4)) rm.push_back(n.first);
  for (auto& r : rm) fs.names.erase(r);
}
static void ensure_active(void* db);
static void lock_restart(void* db) { i64 l; bool nf = G.cur->nofault; G.cur->nofault = true; while (!(l = wg_start_write(db))); ensure_active(db); wg_end_write(db, l); G.cur->nofault = nf; }
static bool do_dump(void* db) { // by any process, without a lock
  std::string fn = B.dump == "/tmp/dumpA" ? "/tmp/dumpB" : "/tmp/dumpA"; dumper_proc = G.cur->proc; dump_newino = 0; u64 nexti = fs.nextino;
  auto idx = W.m.idx; bool nf = G.cur->nofault, df = g_df && G.cur->proc != 6; G.cur->nofault = !df; char buf[64];
  if (df && choose(SF, 3)) { static const Fault k[] = {F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_OPEN_ERR, F_CLOSE_ERR, F_SEEK_ERR, F_STAT_ERR, F_RENAME_ERR}; u64 n = choose(SF, 3); arm(k[choose(SF, 8)], n == 0 ? choose(SF, 4) : n == 1 ? choose(SF, 120) : choose(SF, 600), choose(SF, 8000), 1 + choose(SF, 2), G.cur->proc); if (choose(SF, 6) == 1) { fs.limited = true; fs.diskfree = choose(SF, 2) ? choose(SF, 5000) : choose(SF, 600000); } } strcpy(buf, fn.c_str()); EV(0x3001, 0, 0, "dump to %s", buf);
  wg_int r = wg_dump(db, buf); G.cur->nofault = nf; dumper_proc = -1;
  EV(0x3002, r, dump_newino, "dump returns %lld", (long long)r);
  bool f = df && (any_fired() || fs.limited); if (df) { disarm_all(); fs.limited = false; }
  if (r == -2 && f) { if (dbmemsegh(db)->logging.active) violate("dump", "a dump failed fatally but journaling is active"); probe("dumps failed after writing"); lock_restart(db); return false; }
  if (r) { if (r == -1) { probe("dumps failed"); return false; } violate("dump", "a dump that nothing hindered failed with %lld", (long long)r); }
  if (!dump_newino) { (void)nexti; violate("dump", "a successful dump with journaling active started no new journal"); }
  B.dump = fn; B.chain = dump_newino; B.idx = idx; probe("dumps"); prune(); return true;
}
static void crash_now() { crashed = true; int me = G.cur ? G.cur->proc : -1; for (int p = 1; p < MAXPROC; p++) if (p != me) kill_proc(p); }
static void set_crash(u64 span) { crashed = false; G.crash_at = G.acc + 1 + choose(SF, choose(SF, 3) == 1 ? span / 50 + 10 : span); G.oncrash = crash_now; }
static void no_crash() { G.crash_at = ~0ULL; G.oncrash = nullptr; }
static void ensure_active(void* db) { // journaling gave up because the file could not be kept readable: it is started again
  if (dbmemsegh(db)->logging.active) return;
  disarm_all(); fs.limited = false; bool nf = G.cur->nofault; G.cur->nofault = true; Inode* j = fs_get(jn()); if (j) damaged.insert(j->ino); probe("journal damaged, restarted");
  wg_int r = wg_start_logging(db); if (r) violate("restart", "starting the journal again failed with %lld", (long long)r); G.cur->nofault = nf; if (chain_files().size() >= 6) { g_jf = g_df = false; W.cfg.jfaultpct = 0; } // only ten backups are kept
}
static void client(int me, int rounds, i64 size) {
  G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); G.cur->nofault = false;
  int appfd = fs_app_open(G.cur->proc, "/tmp/app" + std::to_string(me)); (void)appfd;
  for (int r = 0; r < rounds; r++) {
    if (choose(SW, g_df ? 3 : 8) == 1 && dumper_proc < 0) { do_dump(db); continue; }
    if (choose(SW, 14) == 1 && chain_files().size() < 6) { bool nf = G.cur->nofault; G.cur->nofault = true; i64 l = wg_start_write(db); if (l) { fs.limited = false; ensure_active(db); EV(0x3005, 0, 0, "client %d stops and starts the journal", me); wg_int a = wg_stop_logging(db), b = wg_start_logging(db); if (a || b) violate("restart", "stopping and starting the journal returned %lld and %lld", (long long)a, (long long)b); wg_end_write(db, l); } G.cur->nofault = nf; continue; }
    if (choose(SW, 14) == 1) { wg_detach_database(db); G.cur->nofault = true; db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); G.cur->nofault = false; }
    i64 l = wg_start_write(db); if (!l) continue; EV(0x1002, me, 0, "client %d writes", me); ensure_active(db);
    if (g_jf && !fs.limited && choose(SF, 12) == 1) { fs.limited = true; fs.diskfree = choose(SF, 200); EV(0x3003, fs.diskfree, 0, "  the disk is almost full"); }
    int n = 1 + choose(SW, 6); for (int k = 0; k < n && !W.corrupt; k++) {
      W.mayfail = fs.limited; bool ok = do_op(db, weighted(SW, W.cfg.w)); W.mayfail = false;
      if (!ok) { disarm_all(); verify(db, "after a failed operation"); probe("failed operations"); if (fs.limited && choose(SF, 2)) { fs.limited = false; EV(0x3004, 0, 0, "  there is space on the disk again"); } }
    }
    wg_end_write(db, l);
  }
  fs.limited = false; wg_detach_database(db);
}
static void recover_once(i64 size) {
  auto ch = chain_files(); u64 cut = 0; bool logged = choose(SW, 2) && ch.size() < 4; /* each replay with journaling on begins another journal */ EV(0x3010, ch.size(), logged, "recovery: %s, %zu journals%s", B.dump.empty() ? "no dump" : B.dump.c_str(), ch.size(), logged ? ", journaling on" : "");
  void* db = logged ? wg_attach_logged_database("100", size) : wg_attach_database("100", size); if (!db) violate("recovery", "attaching after a crash failed");
  if (!B.dump.empty()) { char fn[64]; strcpy(fn, B.dump.c_str()); i64 mn, mx; wg_int r = wg_check_dump(db, fn, &mn, &mx); if (r) violate("recovery", "the last dump is refused (%lld)", (long long)r); r = wg_import_dump(db, fn); if (r) violate("recovery", "the last dump cannot be imported (%lld)", (long long)r); }
  for (Inode* i : ch) {
    std::string nm = fs_name_of(i); if (nm.empty()) violate("recovery", "a journal made since the last dump has disappeared");
    bool bad = damaged.count(i->ino) || i->partial; char fn[96]; strcpy(fn, nm.c_str()); wg_int r = wg_replay_log(db, fn); EV(0x3011, r, bad, "  replay of %s returns %lld", fn, (long long)r);
    if (r == -1 && i->data.size() < 4) { cut++; continue; }
    if (r == -2 && bad) { cut++; probe("torn journals replayed"); continue; }
    if (r) violate("recovery", "replaying %s failed with %lld", fn, (long long)r);
  }
  if (!dbmemsegh(db)->logging.active) { wg_int r = wg_start_logging(db); if (r) violate("recovery", "journaling cannot be started after a recovery (%lld)", (long long)r); }
  std::string e = compare_tagged(db, W.m);
  if (!e.empty()) {
    if (!W.has_inflight) violate("lost", "after recovery %s", e.c_str());
    Model m2 = W.m; W.inflight(m2); std::string e2 = compare_tagged(db, m2); if (!e2.empty()) violate("lost", "after recovery %s (with the interrupted operation: %s)", e.c_str(), e2.c_str());
    W.m = m2; probe("interrupted operation recovered");
  } else if (W.has_inflight) probe("interrupted operation not recovered");
  W.has_inflight = false; W.m.idx = B.idx; adopt(db, W.m); verify(db, "after recovery");
  if (ch.size() > 4 || choose(SW, 2)) { if (!do_dump(db)) violate("dump", "dump failed after a recovery"); } else prune();
  wg_detach_database(db); probe("recoveries");
}
SCENARIO(recover) {
  world_reset(); Cfg& c = W.cfg; g_jf = optl("jfaults", 0); g_df = optl("dfaults", 0); c.w.assign(NOPS, 0); c.w[O_CREATE] = 10; c.w[O_RAW] = 5; c.w[O_SET] = 20; c.w[O_DELETE] = 7; c.w[O_ENCFREE] = 2; c.ncol = 3 + choose(SW, 4); c.maxrec = 5 + choose(SW, 40);
  c.cycles = choose(SW, 3) == 1; c.dupref = choose(SW, 2); if (g_jf) c.jfaultpct = 10 + choose(SF, 30); else if (choose(SF, 4) == 1) { c.faults = true; c.faultpct = 10; }
  sched_config(1); G.maxfairgap = 200000; dumper_proc = -1; dump_newino = 0; damaged.clear(); B = Base(); fs.onwrite = on_write; W.onfail = ensure_active;
  i64 size = choose(SW, 2) ? 600000 : 1500000; int ncl = 1 + choose(SW, 3), cycles = 1 + choose(SW, 3); u64 crashes = 0;
  { int id = spawn(6, "setup", [=] { G.cur->nofault = true; void* d0 = wg_attach_logged_database("100", size); if (!d0) violate("attach", "attach failed"); { char b[256]; wg_journal_filename(d0, b, sizeof b); if (jn() != b) violate("internal", "journal file name"); }
    B.chain = fs_get(jn()) ? fs_get(jn())->ino : 0; if (!B.chain) violate("journal", "attaching with a journal created none"); unsigned j = W.cfg.jfaultpct; bool f = W.cfg.faults; W.cfg.jfaultpct = 0; W.cfg.faults = false;
    if (choose(SW, 3) == 1) { int n = 1 + choose(SW, 3); while (n--) op_mkindex(d0); if (!do_dump(d0)) violate("dump", "initial dump failed"); }
    W.cfg.jfaultpct = j; W.cfg.faults = f; wg_detach_database(d0); }); wait_tasks({id}); }
  for (int cy = 0; cy < cycles; cy++) {
    int rounds = 2 + choose(SW, 10); std::vector<int> ids; set_crash(rounds * ncl * 9000); if (choose(SF, 3) == 1) arm(F_KILL_IO, choose(SF, 60), 0, 1);
    for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [=] { client(i, rounds, size); }));
    wait_tasks(ids); no_crash(); disarm_all(); fs.limited = false; dumper_proc = -1; if (crashed) crashes++; else if (W.has_inflight) violate("internal", "an operation never ended");
    for (int p = 1; p < MAXPROC; p++) { kill_proc(p); new_proc_state(p); } shm_reset(); EV(0x3020, crashed, 0, "all processes and the shared memory are gone");
    int tries = choose(SF, 3) == 1 ? 2 : 1; 
    for (int t = 0; t < tries; t++) { crashed = false; if (t < tries - 1) set_crash(30000); auto id = spawn(6, "recovery", [=] { G.cur->nofault = true; recover_once(size); }); wait_tasks({id}); no_crash(); dumper_proc = -1; if (!crashed) break; probe("crash during recovery"); kill_proc(6); new_proc_state(6); shm_reset(); }
  }
  if (crashes) nontrivial(); probe("operations", W.nops); probe("operations that failed", W.nfail);
  g_sample = std::to_string(ncl) + " clients, " + std::to_string(W.nops) + " operations (" + std::to_string(W.nfail) + " failed), " + std::to_string(cycles) + " cycles, " + std::to_string(crashes) + " crashes, " + std::to_string(W.m.recs.size()) + " records at the end";
}
