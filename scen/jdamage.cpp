// C12: replaying journals that were cut, torn, damaged, cannot be read, or are no journals.
#include "world.h"
#include "jcommon.h"
static const char* J = "/simlog/wgdb.journal.100";
static std::string image(void* db) { return std::string((char*)dbmemseg(db), dbmemsegh(db)->size); }
SCENARIO(jdamage) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 6; w[O_ENCFREE] = 2; c.ncol = 2 + choose(SW, 4); c.maxrec = 5 + choose(SW, 30); c.longmax = choose(SW, 3) == 1 ? 5000 : 200; c.cycles = choose(SW, 3) == 1; c.dupref = choose(SW, 2);
  sched_config(0); i64 size = choose(SW, 2) ? 600000 : 1500000; int n = 1 + choose(SW, 60), tries = 1 + choose(SW, 4); bool base = choose(SW, 3) == 1; std::string what; std::set<u64> ends; u64 outcome[4] = {0};
  int id = spawn(1, "replay", [&] { G.cur->nofault = true;
    std::vector<std::pair<u64, Model>> marks; std::string jr; Model start;
    { void* d = wg_attach_logged_database("100", size); if (!d) violate("attach", "attach failed"); if (base) { for (int i = 0; i < 10; i++) do_op(d, weighted(SW, w)); char f[] = "/tmp/dumpS"; if (wg_dump(d, f)) violate("dump", "dump failed"); }
      auto sz = [] { Inode* i = fs_get(J); return i ? (u64)i->data.size() : 0; }; start = W.m; marks.push_back({sz(), W.m}); ends.insert(sz()); fs.onwrite = [&](int, Inode* i, OFD*, u64 off, const char* b, u64 k) { if (b && i == fs_get(J)) ends.insert(off + k); };
      W.ondone = [&] { marks.push_back({sz(), W.m}); }; for (int i = 0; i < n; i++) do_op(d, weighted(SW, w)); W.ondone = nullptr; fs.onwrite = nullptr; jr = fs_get(J)->data; wg_detach_database(d); wg_delete_database("100"); }
    Model last = W.m; u64 H = marks[0].first;
    for (int t = 0; t < tries; t++) {
      bool logged = choose(SW, 4) == 1; fs.names.erase("/simlog/wgdb.journal.300"); void* db = logged ? wg_attach_logged_database("300", size) : wg_attach_database("300", size); if (!db) violate("attach", "attach failed"); if (base) { char f[] = "/tmp/dumpS"; if (wg_import_dump(db, f)) violate("import", "import failed"); }
      std::string x = jr; u64 N = jr.size(); int kind = choose(SF, 6); char ds[200]; std::string expl; u64 cut = N; bool damaged = false, notj = false, rf = false;
      switch (kind) {
        case 0: case 1: cut = choose(SF, 4) == 1 ? choose(SF, std::min<u64>(N + 1, 12)) : choose(SF, N + 1); x.resize(cut); snprintf(ds, sizeof ds, "cut to %llu of %llu bytes", (unsigned long long)cut, (unsigned long long)N); break;
        case 2: { // an entry that cannot be: an unknown command, or one about a record that cannot exist
          std::vector<u64> at(ends.begin(), ends.end()); cut = at[choose(SF, at.size())]; damaged = true; int m = choose(SF, 5); auto vi = [](u64 v) { std::string o; for (int q = 0; q < 8 && (v >= 128 || !q); q++) { o += (char)(v | 0x80); v >>= 7; if (!v) break; } if (v) o += (char)v; else o.back() &= 0x7f; return o; };
          u64 bad; switch (choose(SF, 5)) { case 0: bad = 0; break; case 1: bad = (u64)size + 8 * choose(SF, 100000); break; case 2: bad = 8 * (1 + choose(SF, 30)); break; case 3: bad = choose(SF, size) | (1 + choose(SF, 7)); break; default: bad = ~0ull - choose(SF, 1000); }
          std::string e; switch (m) { case 0: e = (char)((choose(SF, 3) == 0 ? 0x60 : choose(SF, 2) ? 0xa0 : 0xe0) | choose(SF, 32)); break; case 1: e = "\x80" + vi(bad); break; case 2: e = "\xc0" + vi(bad) + vi(choose(SF, 4)) + vi(choose(SF, 50) * 8 + 3); break; case 3: e = "\x20" + vi(bad) + vi(choose(SF, 4)); break; default: e = "\x40" + vi((u64)size + 1 + choose(SF, 1000000)) + vi(8 * (1 + choose(SF, size / 8))); }
          if (m == 0 && choose(SF, 2) && cut < N) x[cut] = e[0]; else x.insert(cut, e); snprintf(ds, sizeof ds, "with an impossible entry at byte %llu of %llu (%d)", (unsigned long long)cut, (unsigned long long)N, m); break; }
        case 3: { notj = true; int m = choose(SF, 4); if (m == 0) { u64 l = choose(SF, 200); x.clear(); while (l--) x += (char)choose(SF, 256); if (x.compare(0, H, jr, 0, H) == 0 && x.size() >= H) x[0] ^= 1; } else if (m == 1) { if (H) x[choose(SF, H)] ^= 1 << choose(SF, 8); } else if (m == 2) { fs.names.erase("/tmp/j"); x = "missing"; } else x.erase(0, H); if (m == 3 && x.compare(0, H, jr, 0, H) == 0) x = ""; snprintf(ds, sizeof ds, "not a journal (%d)", m); break; }
        case 4: rf = true; snprintf(ds, sizeof ds, "whole, with errors while it is replayed"); break;
        default: rf = choose(SF, 3) == 1; snprintf(ds, sizeof ds, "whole"); }
      if (x != "missing") fs_put("/tmp/j", x); else fs.names.erase("/tmp/j"); what = ds; EV(0x6001, kind, cut, "a journal: %s", ds);
      if (rf) { G.cur->nofault = false; static const Fault k[] = {F_READ_ERR, F_READ_EINTR, F_READ_SHORT, F_MALLOC, F_SEGALLOC, F_OPEN_ERR, F_CLOSE_ERR, F_READ_ERR}; arm(k[choose(SF, 8)], choose(SF, 3) ? choose(SF, 6) : choose(SF, 400), choose(SF, 5000), choose(SF, 3) == 1 ? 1000000 : 1 + choose(SF, 3), 1); }
      std::string im = image(db); u64 mark = mem_mark(), first; int fds = fs_open_fds(1); bool a0 = dbmemsegh(db)->logging.active; Inode* ji = fs_get("/simlog/wgdb.journal.300"); char f[] = "/tmp/j"; G.spare_index = true;
      wg_int r = wg_replay_log(db, f); bool fd = any_fired(); disarm_all(); G.cur->nofault = true; EV(0x6002, r, fd, "  replay returns %lld", (long long)r); outcome[r == 0 ? 0 : r == -1 ? 1 : r == -2 ? 2 : 3]++;
      if (mem_live_since(mark, 1, &first)) violate("memory-leak", "a replay left private memory allocated (%s)", mem_describe(first).c_str()); if (fs_open_fds(1) > fds) violate("descriptor-leak", "a replay left a file open");
      if (r < -2 || r > 0) violate("rc", "a replay returned %lld", (long long)r);
      if (r == -1 && image(db) != im) violate("changed", "a replay that was refused (%s) changed the database", ds);
      if (r == -1 && fs_get("/simlog/wgdb.journal.300") != ji) violate("changed", "a replay that was refused touched the journal");
      if (r == 0 && a0 && (!dbmemsegh(db)->logging.active || fs_get("/simlog/wgdb.journal.300") == ji)) violate("journal", "a replay did not start a new journal");
      if (r != -2 && (bool)dbmemsegh(db)->logging.active != a0) violate("journal", "a replay left journaling %s", a0 ? "inactive" : "active");
      if (notj) { if (r != -1) violate("accepted", "something that is not a journal (%s) gave %lld", ds, (long long)r); }
      else if (kind < 2) {
        if (cut < H) { if (r != -1) violate("accepted", "a journal %s gave %lld", ds, (long long)r); }
        else { size_t k = 0; while (k + 1 < marks.size() && marks[k + 1].first <= cut) k++; bool whole = ends.count(cut); if (whole && r) violate("refused", "a journal cut between two entries (%s) gave %lld", ds, (long long)r); if (r == -1) violate("refused", "a journal %s was refused", ds);
          std::string e = compare_tagged(db, marks[k].second); if (!e.empty()) violate("content", "a journal %s: %s", ds, e.c_str()); if (!whole) probe("journal cut inside an entry"); else probe("journal cut between entries");
          if (r == 0) { W.m = marks[k].second; adopt(db, W.m); verify(db, "after a replay"); } } }
      else if (!damaged) { if (r && !fd) violate("refused", "an undamaged journal gave %lld", (long long)r);
        if (r == 0) { std::string e = compare_tagged(db, last); if (!e.empty()) violate("content", "replaying a whole journal%s succeeded, but %s", fd ? " with errors" : "", e.c_str()); W.m = last; adopt(db, W.m); verify(db, "after a replay"); i64 l = wg_start_write(db); if (!l) violate("lock", "locking failed"); int q = choose(SW, 12); for (int i = 0; i < q; i++) do_op(db, weighted(SW, w)); verify(db, "after working on a recovered database"); wg_end_write(db, l); } }
      else { if (r != -2) violate("accepted", "a journal %s gave %lld", ds, (long long)r); size_t k = 0; while (k + 1 < marks.size() && marks[k + 1].first <= cut) k++; std::string e = compare_tagged(db, marks[k].second); if (!e.empty()) violate("content", "a journal %s: %s", ds, e.c_str()); probe("impossible entries noticed"); }
      wg_detach_database(db); wg_delete_database("300"); W.m = last;
    } }); wait_tasks({id});
  probe("replays that succeeded", outcome[0]); probe("replays refused", outcome[1]); probe("replays that failed", outcome[2]);
  if (n > 5) nontrivial(); g_sample = std::to_string(n) + " operations, " + std::to_string(ends.size()) + " entries, last journal " + what;
}
