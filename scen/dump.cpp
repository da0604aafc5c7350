// C10, C11: dumps taken while clients work, damaged dump files, imports.
#include "world.h"
#include "jcommon.h"
struct Shot { std::string file; std::vector<Model> cand; bool ok = false; };
static std::vector<Shot> shots; static bool dumping, intx; static Shot cur; static int g_dproc;
static void tx_end() { intx = false; if (dumping) cur.cand.push_back(W.m); }
static void on_write(int proc, Inode* i, OFD* o, u64 off, const char* d, u64 n) { if (!d) return; std::string nm = fs_name_of(i); if (proc != g_dproc || nm.compare(0, 9, "/tmp/dump")) violate("stray-write", "process %d wrote to %s", proc, nm.c_str()); }
static void client(int me, int rounds) {
  G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed");
  for (int r = 0; r < rounds; r++) {
    if (choose(SW, 4) == 1) { i64 l = wg_start_read(db); if (!l) continue; u64 v = W.version; verify_reader(db); if (W.version != v) violate("isolation", "the database changed while a reader held the lock"); wg_end_read(db, l); continue; }
    i64 l = wg_start_write(db); if (!l) continue; intx = true; EV(0x1002, me, 0, "client %d writes", me); int n = 1 + choose(SW, 6); while (n--) do_op(db, weighted(SW, W.cfg.w)); tx_end(); wg_end_write(db, l);
  }
  wg_detach_database(db);
}
static bool dump_once(void* db, const std::string& fn, bool faults) {
  char b[64]; strcpy(b, fn.c_str()); cur = Shot(); cur.file = fn; dumping = true; if (!intx) cur.cand.push_back(W.m); G.cur->nofault = !faults;
  if (faults) { static const Fault k[] = {F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_OPEN_ERR, F_CLOSE_ERR, F_SEEK_ERR, F_MALLOC}; u64 n = choose(SF, 3); arm(k[choose(SF, 7)], n == 0 ? choose(SF, 4) : n == 1 ? choose(SF, 120) : choose(SF, 600), choose(SF, 8000), 1 + choose(SF, 2), G.cur->proc); if (choose(SF, 4) == 1) { fs.limited = true; fs.diskfree = choose(SF, 2) ? choose(SF, 5000) : choose(SF, 800000); } }
  EV(0x5001, 0, 0, "dump to %s", b); u64 mark = mem_mark(); wg_int r = wg_dump(db, b); bool f = any_fired() || fs.limited; disarm_all(); fs.limited = false; dumping = false; G.cur->nofault = true; EV(0x5002, r, f, "dump returns %lld", (long long)r);
  u64 first; if (mem_live_since(mark, G.cur->proc, &first)) violate("memory-leak", "a dump left private memory allocated (%s)", mem_describe(first).c_str());
  if (fs_open_fds(G.cur->proc)) violate("descriptor-leak", "a dump left a file open");
  if (r == 0) { cur.ok = true; if (cur.cand.empty()) cur.cand.push_back(W.m); for (auto it = shots.begin(); it != shots.end();) if (it->file == fn) it = shots.erase(it); else ++it; shots.push_back(cur); probe("dumps"); return true; }
  for (auto it = shots.begin(); it != shots.end();) if (it->file == fn) it = shots.erase(it); else ++it;
  if (r != -1) violate("rc", "a failed dump returned %lld", (long long)r); if (!f) violate("rc", "a dump that nothing hindered failed"); probe("dumps that failed"); return false;
}
static std::string image(void* db) { db_memsegment_header* h = dbmemsegh(db); return std::string((char*)dbmemseg(db), h->size); }
static void exercise(void* db, int n) { for (int k = 0; k < n; k++) do_op(db, weighted(SW, W.cfg.w)); verify(db, "after working with an imported database"); }
static void import_shot(Shot& s, i64 size) { // into another database
  i64 mn = 0, mx = 0; char fn[64]; strcpy(fn, s.file.c_str()); char key[] = "200"; bool small = choose(SW, 8) == 1; i64 sz = small ? 256000 : size;
  void* db = wg_attach_database(key, sz); if (!db) violate("attach", "attach failed");
  Model keep = W.m; W.m = Model(); W.m.nextid = 100000; int pre = choose(SW, 3) * 3; Cfg kc = W.cfg; W.cfg.w[O_MKINDEX] = W.cfg.w[O_DROPINDEX] = 0; W.cfg.tight = true; for (int k = 0; k < pre; k++) do_op(db, weighted(SW, W.cfg.w)); 
  wg_int c = wg_check_dump(db, fn, &mn, &mx); if (c) violate("refused", "an undamaged dump is refused (%lld)", (long long)c);
  std::string im = image(db); wg_int r = wg_import_dump(db, fn); EV(0x5010, r, small, "import of %s returns %lld", fn, (long long)r);
  if (mn > sz) { if (r != -1) violate("too-large", "importing a dump that needs %lld bytes into a segment of %lld returned %lld", (long long)mn, (long long)sz, (long long)r); if (image(db) != im) violate("changed", "a refused import changed the database"); probe("imports that do not fit"); }
  else {
    if (r) violate("refused", "importing an undamaged dump failed with %lld", (long long)r);
    if (dbmemsegh(db)->key != 200) violate("identity", "after an import the database has key %lld", (long long)dbmemsegh(db)->key); if (wg_database_size(db) != sz) violate("identity", "after an import the segment size is reported as %lld instead of %lld", (long long)wg_database_size(db), (long long)sz);
    std::string e, e1; bool hit = false; size_t k = 0; for (; k < s.cand.size(); k++) { e = compare_tagged(db, s.cand[k]); if (e.empty()) { bool ok; auto ii = index_ids(db, &ok); std::set<i64> a(ii.begin(), ii.end()), b; for (auto& q : s.cand[k].idx) b.insert(q.first); if (a != b) e = "other indexes exist"; } if (k == 0) e1 = e; if (e.empty()) { hit = true; break; } }
    if (!hit) violate("snapshot", "the dump equals none of the %zu states the database had during the call (%s)", s.cand.size(), e1.c_str());
    if (s.cand.size() > 1) probe("dumps during changes"); W.m = s.cand[k]; W.cfg = kc; W.cfg.tight = false; bool tight = sz - mn < 250000; W.cfg.tight = tight; adopt(db, W.m); check_indexes(db, "after an import"); verify(db, "after an import"); 
    i64 l = wg_start_write(db); if (!l) violate("lock", "an imported database cannot be locked"); exercise(db, 5 + choose(SW, 20)); wg_end_write(db, l); probe("imports");
  }
  wg_detach_database(db); wg_delete_database(key); W.m = keep; W.cfg = kc;
}
SCENARIO(dump) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 6; w[O_MKINDEX] = 1; w[O_DROPINDEX] = 1; c.ncol = 3 + choose(SW, 3); c.maxrec = 5 + choose(SW, 60); c.hash = choose(SW, 4) == 1; c.cycles = choose(SW, 3) == 1; c.dupref = choose(SW, 2);
  sched_config(1); G.maxfairgap = 200000; shots.clear(); dumping = intx = false; g_dproc = 5; fs.onwrite = on_write; i64 size = choose(SW, 2) ? 800000 : 1500000;
  int ncl = 1 + choose(SW, 3), rounds = 2 + choose(SW, 10), nd = 1 + choose(SW, 4); 
  int id = spawn(6, "setup", [=] { G.cur->nofault = true; void* d = wg_attach_database("100", size); if (!d) violate("attach", "attach failed"); wg_detach_database(d); }); wait_tasks({id});
  std::vector<int> ids; bool df = choose(SF, 2);
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [=] { client(i, rounds); }));
  ids.push_back(spawn(5, "dumper", [=] { G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); for (int k = 0; k < nd; k++) { if (choose(SW, 3)) sim_sleep_ns(choose(SW, 2000) * 1000); dump_once(db, "/tmp/dump" + std::to_string(choose(SW, 4)), df && choose(SF, 2)); } wg_detach_database(db); }));
  wait_tasks(ids); 
  id = spawn(6, "import", [=] { G.cur->nofault = true; void* d = wg_attach_existing_database("100"); verify(d, "at the end"); for (auto& s : shots) import_shot(s, size); verify(d, "after importing elsewhere"); wg_detach_database(d); }); wait_tasks({id});
  if (shots.size()) nontrivial(); probe("operations", W.nops); g_sample = std::to_string(ncl) + " clients, " + std::to_string(W.nops) + " operations, " + std::to_string(nd) + " dumps of which " + std::to_string(shots.size()) + " were imported";
}

// ---- damaged files, read errors, imports into databases with and without a journal
static std::string damage(const std::string& d, std::string* what) {
  std::string x = d; char b[200]; u64 n = x.size();
  switch (choose(SF, 8)) {
    case 0: { u64 k = choose(SF, n); x.resize(k); snprintf(b, sizeof b, "cut to %llu of %llu bytes", (unsigned long long)k, (unsigned long long)n); break; }
    case 1: { u64 k = choose(SF, choose(SF, 3) == 1 ? 400 : n); int bit = choose(SF, 8); x[k] ^= 1 << bit; snprintf(b, sizeof b, "bit %d of byte %llu flipped", bit, (unsigned long long)k); break; }
    case 2: { u64 k = choose(SF, n), l = 1 + choose(SF, 5000); if (k + l > n) l = n - k; bool ch = false; for (u64 i = k; i < k + l; i++) { if (x[i]) ch = true; x[i] = 0; } if (!ch) x[k] = 1; snprintf(b, sizeof b, "%llu bytes at %llu zeroed", (unsigned long long)l, (unsigned long long)k); break; }
    case 3: { u64 l = 1 + choose(SF, 20000); x.append(l, choose(SF, 2) ? 0 : 'x'); snprintf(b, sizeof b, "%llu bytes added", (unsigned long long)l); break; }
    case 4: { u64 k = choose(SF, n / 512) * 512; for (u64 i = k; i < n; i++) x[i] = 0; if (x == d) x[k] = 1; snprintf(b, sizeof b, "everything from %llu on lost", (unsigned long long)k); break; }
    case 5: { u64 k = choose(SF, n - 8); for (int i = 0; i < 8; i++) x[k + i] = choose(SF, 256); if (x == d) x[k] ^= 1; snprintf(b, sizeof b, "8 bytes at %llu overwritten", (unsigned long long)k); break; }
    case 6: { db_memsegment_header* h = (db_memsegment_header*)&x[0]; int w = choose(SF, 4); if (w == 0) h->mark ^= 0x01010101; else if (w == 1) h->version += 1; else if (w == 2) h->features ^= 1 << choose(SF, 8); else { char* m = (char*)&h->mark; std::swap(m[0], m[3]); std::swap(m[1], m[2]); } snprintf(b, sizeof b, "made by another build (%d)", w); break; }
    default: { u64 l = choose(SF, 3) ? choose(SF, 3000) : choose(SF, 30000); x.clear(); for (u64 i = 0; i < l; i++) x += (char)choose(SF, 256); snprintf(b, sizeof b, "%llu random bytes", (unsigned long long)l); }
  }
  *what = b; return x;
}
static const char* J = "/simlog/wgdb.journal.200";
SCENARIO(import) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 6; w[O_MKINDEX] = 1; c.ncol = 3 + choose(SW, 3); c.maxrec = 5 + choose(SW, 60);
  sched_config(0); i64 size = choose(SW, 2) ? 800000 : 1500000; int n1 = choose(SW, 60), n2 = choose(SW, 30), tries = 1 + choose(SW, 4); Model src; std::string smp; 
  int id = spawn(1, "import", [&] { G.cur->nofault = true; 
    { void* d = wg_attach_database("100", size); if (!d) violate("attach", "attach failed"); for (int i = 0; i < n1; i++) do_op(d, weighted(SW, w)); char f[] = "/tmp/dumpS"; wg_int r = wg_dump(d, f); if (r) violate("dump", "dump failed"); src = W.m; wg_detach_database(d); wg_delete_database("100"); }
    std::string good = fs_get("/tmp/dumpS")->data; bool logged = choose(SW, 2), small = choose(SW, 6) == 1; i64 sz = small ? good.size() - 1 - choose(SW, 3000) : size; if (sz < 260000) { sz = size; small = false; } 
    W.m = Model(); W.m.nextid = 100000; W.cfg.w[O_MKINDEX] = 0; W.cfg.tight = true; void* db = logged ? wg_attach_logged_database("200", sz) : wg_attach_database("200", sz); if (!db) violate("attach", "attach failed");
    for (int i = 0; i < n2; i++) do_op(db, weighted(SW, w));
    for (int t = 0; t < tries; t++) {
      bool dmg = choose(SF, 3) > 0; std::string what = "undamaged", x = dmg ? damage(good, &what) : good; if (x == good) dmg = false; if (choose(SF, 10) == 1) { fs.names.erase("/tmp/dumpX"); what = "missing"; dmg = true; } else fs_put("/tmp/dumpX", x); EV(0x5100, dmg, 0, "a dump file: %s", what.c_str());
      char f[] = "/tmp/dumpX"; i64 mn = -1, mx = -1; std::string im = image(db); std::string j0 = fs_exists(J) ? fs_get(J)->data : ""; Inode* ji = fs_get(J); u64 mark = mem_mark(), first;
      auto rf = [&] { G.cur->nofault = false; bool on = choose(SF, 3) == 1; if (on) { static const Fault k[] = {F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_EARLY_EOF, F_OPEN_ERR, F_MALLOC, F_SEEK_ERR, F_CLOSE_ERR}; arm(k[choose(SF, 8)], choose(SF, 3) ? choose(SF, 3) : choose(SF, 200), choose(SF, 5000), 1 + choose(SF, 3), G.cur->proc); } return on; };
      rf(); wg_int r = wg_check_dump(db, f, &mn, &mx); bool fd = any_fired(); disarm_all(); G.cur->nofault = true; EV(0x5101, r, fd, "  check returns %lld", (long long)r);
      if (r == 0 && dmg) violate("accepted", "a damaged dump (%s) passes the check", what.c_str());
      if (r && !dmg && !fd) violate("refused", "an undamaged dump is refused (%lld)", (long long)r);
      if (r == 0 && (mn != (i64)good.size() || mx != size)) violate("sizes", "the check reports sizes %lld and %lld instead of %lld and %lld", (long long)mn, (long long)mx, (long long)good.size(), (long long)size);
      if (image(db) != im) violate("changed", "checking a dump changed the database");
      if (mem_live_since(mark, 1, &first)) violate("memory-leak", "checking a dump left private memory allocated (%s)", mem_describe(first).c_str()); if (fs_open_fds(1) > (ji && 0)) {}
      bool hdr = true; if (dmg && what != "missing") { i64 fr = 0; if (x.size() >= sizeof(db_memsegment_header)) fr = ((db_memsegment_header*)x.data())->free; hdr = x.size() >= sizeof(db_memsegment_header) && fr == (i64)x.size() && [&] { auto *a = (db_memsegment_header*)x.data(), *b = (db_memsegment_header*)good.data(); return a->mark == b->mark && a->version == b->version && a->features == b->features; }(); } // would only the check notice
      if (dmg && hdr && what != "missing") continue; // an import is not to be tried without passing the check
      if (dmg && x.size() >= sizeof(db_memsegment_header) && (i64)x.size() > ((db_memsegment_header*)x.data())->free && !memcmp(x.data(), good.data(), 16)) continue;
      int fds = fs_open_fds(1); rf(); r = wg_import_dump(db, f); fd = any_fired(); disarm_all(); G.cur->nofault = true; EV(0x5102, r, fd, "  import returns %lld", (long long)r); probe(r == 0 ? "imports" : r == -1 ? "imports refused" : "imports failed");
      if (r == 0 && dmg) violate("accepted", "importing a damaged dump (%s) succeeded", what.c_str());
      if (r == 0 && small) violate("accepted", "importing a dump that does not fit succeeded");
      if (r && !dmg && !fd && !small) violate("refused", "importing an undamaged dump failed with %lld", (long long)r);
      if (small && !fd && r != -1) violate("too-large", "importing a dump that does not fit returned %lld", (long long)r);
      if (mem_live_since(mark, 1, &first) && !logged) violate("memory-leak", "an import left private memory allocated (%s)", mem_describe(first).c_str()); if (fs_open_fds(1) > fds) violate("descriptor-leak", "an import left a file open");
      if (r == -1) { if (image(db) != im) violate("changed", "an import that was refused changed the database"); if (fs_get(J) != ji || (ji && ji->data != j0)) violate("journal", "an import that was refused touched the journal"); continue; }
      if (r == -2) { probe("fatal imports"); wg_detach_database(db); wg_delete_database("200"); db = logged ? wg_attach_logged_database("200", sz) : wg_attach_database("200", sz); if (!db) violate("attach", "after a fatal import the database cannot be created again"); W.m = Model(); continue; }
      if (r) violate("rc", "an import returned %lld", (long long)r);
      if (dbmemsegh(db)->key != 200) violate("identity", "after an import the database has key %lld", (long long)dbmemsegh(db)->key); if (wg_database_size(db) != sz) violate("identity", "after an import the segment size is reported as %lld instead of %lld", (long long)wg_database_size(db), (long long)sz);
      if (logged != (bool)dbmemsegh(db)->logging.active) violate("journal", "an import changed whether journaling is active"); if (logged && (!fs_get(J) || fs_get(J) == ji)) violate("journal", "an import did not start a new journal"); if (!logged && fs_get(J) != ji) violate("journal", "an import without journaling made a journal");
      std::string e = compare_tagged(db, src); if (!e.empty()) violate("content", "after an import %s", e.c_str());
      W.m = src; adopt(db, W.m); check_indexes(db, "after an import"); verify(db, "after an import"); W.cfg.tight = sz - (i64)good.size() < 250000;
      i64 l = wg_start_write(db); if (!l) violate("lock", "an imported database cannot be locked"); exercise(db, choose(SW, 20)); wg_end_write(db, l); l = wg_start_read(db); if (!l) violate("lock", "an imported database cannot be locked"); wg_end_read(db, l);
    }
    wg_detach_database(db); }); wait_tasks({id});
  nontrivial(); g_sample = std::to_string(n1) + " operations before the dump, " + std::to_string(tries) + " files";
}
