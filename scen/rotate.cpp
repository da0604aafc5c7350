// C09: starting, stopping and restarting the journal, its backups, and where every client's changes go.
#include "world.h"
#include "jcommon.h"
typedef std::map<std::string, std::pair<Inode*, std::string>> Dir;
static const char* JN = "/simlog/wgdb.journal.100";
static bool act, contok, dumping, initing; static std::string header;
static Inode* jcur; // the journal in use
static Dir snap() { Dir d; for (auto& n : fs.names) if (n.first.compare(0, 8, "/simlog/") == 0) d[n.first] = {n.second, n.second->data}; return d; }
static void on_write(int proc, Inode* i, OFD* o, u64 off, const char* d, u64 n) {
  std::string nm = fs_name_of(i); if (nm.compare(0, 9, "/tmp/dump") == 0 && dumping) return;
  if (initing) return; // looked at when the call returns
  if (!act) violate("stopped", "%llu bytes were written to %s although journaling is off", (unsigned long long)n, nm.c_str());
  if (i != jcur) violate("stray-write", "a change was written to %s, which is not the journal in use", nm.empty() ? "a deleted file" : nm.c_str());
  if (d) contok = true;
}
static std::string slot(const Dir& b) { // the backup name to be used next
  Inode* old = nullptr; std::string on; for (int i = 0; i < 10; i++) { std::string s = JN + ("." + std::to_string(i)); auto it = b.find(s); if (it == b.end()) return s; if (!old || it->second.first->ino < old->ino) { old = it->second.first; on = s; } } return on;
}
// what happened to the files: 0 nothing, 1 a new journal was started, 2 the existing one was moved away only, 3 a new journal without its header
static int changes(const Dir& b, const char* what) {
  Dir a = snap(); auto bj = b.find(JN); Inode* prev = bj == b.end() ? nullptr : bj->second.first; auto aj = a.find(JN); Inode* now = aj == a.end() ? nullptr : aj->second.first; std::string sl = prev ? slot(b) : "";
  bool moved = prev && prev != now;
  if (moved) { auto it = a.find(sl); if (it == a.end() || it->second.first != prev) violate("backup", "%s: the existing journal was not kept as %s", what, sl.c_str()); if (it->second.second != bj->second.second) violate("backup", "%s: the journal was changed while it was backed up", what); }
  for (auto& x : b) { if (x.first == JN || (moved && x.first == sl)) continue; auto it = a.find(x.first); if (it == a.end()) violate("backup", "%s: %s has disappeared", what, x.first.c_str()); if (it->second.first != x.second.first || it->second.second != x.second.second) violate("backup", "%s: %s was changed", what, x.first.c_str()); }
  for (auto& x : a) if (!b.count(x.first) && x.first != JN && !(moved && x.first == sl)) violate("backup", "%s: a file %s has appeared", what, x.first.c_str());
  if (now == prev) { if (now && aj->second.second != bj->second.second) violate("overwritten", "%s: the existing journal was changed", what); return 0; }
  if (!now) return 2;
  if (aj->second.second.empty() || (aj->second.second.size() < header.size() && header.compare(0, aj->second.second.size(), aj->second.second) == 0)) return 3;
  if (aj->second.second != header) violate("header", "%s: the new journal is not an empty journal (%zu bytes)", what, aj->second.second.size());
  return 1;
}
static void truth(void* db, const char* what) { bool a = dbmemsegh(db)->logging.active; if (a != act) violate("active", "%s: journaling is reported %s", what, a ? "active" : "inactive"); jcur = fs_get(JN); }
static bool inject() { G.cur->nofault = false; if (choose(SF, 3)) return false; static const Fault k[] = {F_STAT_ERR, F_RENAME_ERR, F_OPEN_ERR, F_WRITE_ERR, F_WRITE_SHORT, F_READ_ERR, F_READ_SHORT}; arm(k[choose(SF, 7)], choose(SF, choose(SF, 2) ? 12 : 2), choose(SF, 100), 1 + choose(SF, 2), G.cur->proc); return true; }
static bool fired() { bool f = any_fired(); disarm_all(); G.cur->nofault = true; return f; }
static void start(void* db, bool faults = true) {
  Dir b = snap(); bool was = act; initing = true; if (faults) inject(); EV(0x4001, was, contok, "  start journaling (%s)", was ? "is active" : "is not active"); wg_int r = wg_start_logging(db); bool f = fired(); initing = false; EV(0x4002, r, f, "  returns %lld", (long long)r);
  int c = changes(b, "starting the journal");
  if (was) { if (r != -1) violate("twice", "starting the journal twice returned %lld", (long long)r); if (c) violate("twice", "starting an active journal changed files"); truth(db, "after a refused start"); return; }
  if (r == 0) { act = true; if (c == 0 && !contok && !(fs_get(JN) && fs_get(JN)->data == header)) violate("not-new", "a start did not begin a new journal"); if (c > 1) violate("not-new", "a successful start left no proper journal"); if (c == 1) { contok = false; probe("new journals"); } else probe("journal continued"); }
  else { if (r == -1) violate("rc", "a failed start returned -1, which means that journaling is active"); if (!f) violate("rc", "a start that nothing hindered failed with %lld", (long long)r); probe("failed starts"); if (c == 1) contok = false; }
  truth(db, "after starting the journal");
}
static void stop(void* db) { Dir b = snap(); wg_int r = wg_stop_logging(db); EV(0x4003, r, act, "  stop journaling returns %lld", (long long)r); if (changes(b, "stopping the journal")) violate("stop", "stopping the journal changed files"); if (act ? r != 0 : r == 0) violate("rc", "stopping %s journal returned %lld", act ? "an active" : "an inactive", (long long)r); act = false; truth(db, "after stopping the journal"); probe("stops"); }
static int busy; static bool gate;
static void dump(void* db) { // takes the lock itself; the other clients hold back so that what it does can be told
  gate = true; while (busy) sim_sleep_ns(1000000);
  dumping = initing = true; Dir b; bool was = false; static int n; char fn[40]; snprintf(fn, sizeof fn, "/tmp/dump%d", n++ % 3);
  b = snap(); was = act; inject(); if (choose(SF, 8) == 1) { fs.limited = true; fs.diskfree = choose(SF, 30000); } EV(0x4004, was, 0, "  dump"); wg_int r = wg_dump(db, fn); fs.limited = false; bool f = fired(); dumping = initing = false; EV(0x4005, r, f, "  returns %lld", (long long)r);
  int c = changes(b, "dumping");
  if (r == 0) { if (was ? c != 1 : c != 0) violate("dump", was ? "a dump did not start a new journal" : "a dump with journaling off touched the journal"); contok = false; probe("dumps"); }
  else if (r == -1) { if (c) violate("dump", "a failed dump changed the journal"); probe("failed dumps"); }
  else { if (!was) violate("dump", "a dump with journaling off failed with %lld", (long long)r); act = false; contok = false; if (!f) violate("rc", "nothing hindered the dump but it failed with %lld", (long long)r); probe("dumps without new journal"); }
  truth(db, "after a dump"); gate = false;
}
static void admin() { // somebody tidies up or restores files
  int i = choose(SW, 10); std::string s = JN + ("." + std::to_string(i)); if (fs_exists(s)) { if (choose(SW, 3) == 1) { fs.names.erase(s); EV(0x4006, i, 0, "  backup %d is deleted", i); } } else if (choose(SW, 2)) { fs_put(s, header.empty() ? "WGD1" : header); EV(0x4007, i, 0, "  backup %d is put in place", i); }
  if (choose(SW, 6) == 1) fs_put(JN + std::string(".") + (choose(SW, 2) ? "10" : "old"), "something else");
}
static void replay(void* db) { // an empty journal: nothing is added, the journal is restarted
  fs_put("/tmp/empty", header); Dir b = snap(); bool was = act; initing = true; inject(); char fn[] = "/tmp/empty"; EV(0x4008, was, 0, "  replay an empty journal"); wg_int r = wg_replay_log(db, fn); bool f = fired(); initing = false; EV(0x4009, r, f, "  returns %lld", (long long)r);
  int c = changes(b, "replaying"); if (r == -1) { if (!f) violate("rc", "replaying an empty journal was refused"); if (c) violate("replay", "a refused replay changed the journal"); }
  else if (r == 0) { if (was ? c != 1 : c != 0) violate("replay", was ? "a replay did not start a new journal" : "a replay with journaling off touched the journal"); contok = false; }
  else { if (!f) violate("rc", "replaying an empty journal failed with %lld", (long long)r); if (dbmemsegh(db)->logging.active) violate("active", "a replay failed fatally but journaling is active"); act = false; if (c) contok = false; else contok = contok && dbmemsegh(db)->logging.dirty; }
  truth(db, "after a replay"); probe("replays");
}
SCENARIO(rotate) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); c.w[O_CREATE] = 10; c.w[O_RAW] = 3; c.w[O_SET] = 20; c.w[O_DELETE] = 6; c.ncol = 3; c.maxrec = 20; c.longmax = 100;
  sched_config(1); G.maxfairgap = 200000; act = contok = dumping = initing = false; header.clear(); jcur = nullptr; busy = 0; gate = false; fs.onwrite = on_write; W.onfail = [](void* db) { if (!dbmemsegh(db)->logging.active && act) { act = false; contok = false; probe("journal damaged"); } jcur = fs_get(JN); };
  i64 size = 600000; int ncl = 1 + choose(SW, 3), rounds = 3 + choose(SW, 14); bool many = choose(SW, 3) == 1; int pre = choose(SW, 12);
  int id = spawn(6, "setup", [=] { G.cur->nofault = true; 
    { initing = true; void* d = wg_attach_logged_database("77", 600000); if (!d) violate("attach", "attach failed"); Inode* j = fs_get("/simlog/wgdb.journal.77"); if (!j) violate("attach", "attaching with a journal created none"); header = j->data; wg_detach_database(d); char k[] = "77"; wg_delete_database(k); fs.names.erase("/simlog/wgdb.journal.77"); initing = false; if (header.empty()) violate("header", "a new journal is empty of even a header"); }
    if (choose(SW, 2)) fs_put(JN, choose(SW, 2) ? "WGD1" : ""); for (int i = 0; i < pre; i++) admin();
    bool lg = choose(SW, 3) > 0; Dir b = snap(); initing = true; void* d0 = lg ? wg_attach_logged_database("100", size) : wg_attach_database("100", size); initing = false; if (!d0) violate("attach", "attach failed");
    int ch = changes(b, "attaching"); if (ch != (lg ? 1 : 0)) violate("attach", lg ? "attaching with a journal started none" : "attaching touched a journal"); act = lg; truth(d0, "after attaching"); wg_detach_database(d0); }); wait_tasks({id});
  std::vector<int> ids; bool wr = choose(SF, 2);
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [=] {
    G.cur->nofault = true; bool lg = false; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); (void)lg;
    for (int r = 0; r < rounds; r++) {
      if (choose(SW, 10) == 1) { wg_detach_database(db); db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); }
      while (gate) sim_sleep_ns(1000000); if (choose(SW, 6) == 1) { dump(db); continue; }
      busy++; i64 l = wg_start_write(db); if (!l) { busy--; continue; } EV(0x1002, i, 0, "client %d writes", i);
      int n = 1 + choose(SW, 4); for (int k = 0; k < n && !W.corrupt; k++) {
        switch (choose(SW, many ? 9 : 16)) {
          case 0: start(db); break; case 1: stop(db); break; case 2: case 3: case 4: admin(); break; case 5: if (header.size()) replay(db); break;
          case 6: { Dir b = snap(); void* d2 = wg_attach_logged_database("100", choose(SW, 2) ? 0 : size); EV(0x400a, d2 != nullptr, act, "  attach with journaling %s", d2 ? "succeeds" : "is refused"); if (changes(b, "attaching again")) violate("attach", "attaching to an existing database changed the journal"); if (act != (d2 != nullptr)) violate("attach", act ? "attaching with a journal was refused although the database has one" : "attaching with a journal succeeded although the database has none"); if (d2) wg_detach_database(d2); truth(db, "after attaching again"); } break;
          default: { if (wr) W.cfg.jfaultpct = 15; G.cur->nofault = !wr; bool ok = do_op(db, weighted(SW, W.cfg.w)); (void)ok; G.cur->nofault = true; W.cfg.jfaultpct = 0; disarm_all(); truth(db, "after a change"); }
        }
      }
      wg_end_write(db, l); busy--;
    }
    wg_detach_database(db);
  }));
  wait_tasks(ids);
  if (W.nops > 1) nontrivial(); probe("operations", W.nops);
  g_sample = std::to_string(ncl) + " clients, " + std::to_string(W.nops) + " changes, " + std::to_string(snap().size()) + " files at the end";
}
