// C06: attach, create, detach and delete of named and local databases by several processes, with failing system calls and crashes.
#include "world.h"
namespace {
struct Db { u64 serial; std::set<i64> tags; std::set<i64> maybe; bool wrong = false; bool logged = false, sealed = false; i64 size; };
std::set<u64> left; std::map<u64, Db> dbs; // by serial number of the segment
struct Pr { bool inattach, crashed; void* h; u64 seg; bool islocal; std::set<i64> loc; };
Pr pr[MAXPROC]; u64 changes; i64 nexttag;
Seg* seg_of(void* h) { u64 o = (u64)dbmemseg(h) - SHM0; o %= SHMPOOL; for (auto& s : segs) if (s.exists && s.off == o) return &s; return nullptr; }
std::set<i64> scan(void* h) { std::set<i64> s; int n = 0; for (void* r = wg_get_first_record(h); r; r = wg_get_next_record(h, r)) { if (wg_get_record_len(h, r) != 2) violate("content", "a record of length %lld appeared", (long long)wg_get_record_len(h, r)); i64 t = wg_decode_int(h, wg_get_field(h, r, 0)); char* str = wg_decode_str(h, wg_get_field(h, r, 1)); if (!str || strcmp(str, "some value that does not fit into a short string")) violate("content", "the string of record %lld is wrong", (long long)t); if (!s.insert(t).second) violate("content", "record %lld appears twice", (long long)t); if (++n > 10000) violate("hang", "endless scan"); } return s; }
void use(void* h, std::set<i64>& tags, int n, bool* sealed = nullptr) { // the caller holds the write lock, or it is a local database
  // a deleted logged database shares its journal file with the one created after it under the same name: what its old users do then is not judged
  auto gone = [&] { if (!sealed) return false; Seg* s = seg_of(h); if (!s || !s->removed || !dbmemsegh(h)->logging.active) return false; *sealed = true; return true; };
  if (sealed && *sealed) return;
  std::set<i64> s = scan(h); if (s != tags) violate("content", "the database holds %zu records, %zu were stored", s.size(), tags.size());
  for (int i = 0; i < n; i++) { if (tags.size() && choose(SW, 4) == 1) { void* r = wg_get_first_record(h); i64 t = wg_decode_int(h, wg_get_field(h, r, 0)); if (wg_delete_record(h, r)) { if (gone()) return; violate("use", "deleting failed"); } tags.erase(t); continue; }
    void* r = wg_create_record(h, 2); if (!r) { if (gone()) return; violate("use", "a record could not be created in a fresh database"); } i64 t = ++nexttag; if (wg_set_field(h, r, 0, wg_encode_int(h, t)) || wg_set_field(h, r, 1, wg_encode_str(h, (char*)"some value that does not fit into a short string", nullptr))) { if (gone()) return; violate("use", "storing failed"); } tags.insert(t); }
  if (n) { s = scan(h); if (s != tags) violate("content", "the database holds %zu records, %zu were stored", s.size(), tags.size()); }
}
}
SCENARIO(attach) {
  world_reset(); dbs.clear(); left.clear(); for (auto& p : pr) p = Pr{}; changes = 0; nexttag = 1000; bool crashy = choose(SF, 4) == 1, faulty = choose(SF, 3) == 1, dels = choose(SW, 2), logs = choose(SW, 4) == 1; int np = 1 + choose(SW, 4), rounds = 2 + choose(SW, 6); sched_config(1); if (choose(SS, 3) == 1) { G.gapmean = 3000; G.density = 100; } G.maxfairgap = 300000; G.deadlock_ok = true;
  std::vector<int> ids; u64 made = 0, failed = 0, joined = 0; int crashed = 0; static const i64 sz[] = {300000, 400000, 0, 300000, 2000000, 5000, 100, 90000, 150000};
  int busy = 0; // calls in progress
  for (int i = 0; i < np; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    int me = 1 + i; Pr& p = pr[me]; G.cur->nofault = true;
    for (int r = 0; r < rounds; r++) {
      if (choose(SW, 2)) sim_sleep_ns(choose(SW, 3000));
      int act = choose(SW, 12); char name[8]; i64 key = choose(SW, 5) == 4 ? 101 : 100; snprintf(name, sizeof name, "%lld", (long long)key);
      if (act == 11 && dels) { // delete
        EV(0x2201, key, me, "process %d deletes %s", me, name); changes++; Seg* s0 = shm_find(key); u64 ser = s0 ? s0->serial : 0; u64 c0 = changes; busy++; int rc = wg_delete_database(name); busy--; changes++;
        if (c0 + 1 == changes && busy == 0 && (rc == 0) != (ser != 0)) violate("delete", "deleting a database gave %d", rc); Seg* s1 = shm_find(key); if (!rc && s1 && s1->serial == ser) violate("delete", "a deleted database can still be found"); continue; }
      if (act == 10) { // local database
        u64 mark = mem_mark(), f; if (choose(SF, 2)) { G.cur->nofault = false; arm(F_MALLOC, choose(SF, 4), 0, 1, me); } i64 size = sz[choose(SW, 9)]; if (!size) size = 400000; void* h = wg_attach_local_database(size); bool fd = any_fired(); disarm_all(); G.cur->nofault = true; EV(0x2202, h != 0, size, "process %d: local database of %lld bytes: %s", me, (long long)size, h ? "made" : "refused");
        if (!h) { if (!fd && size >= 300000) violate("local", "creating a local database failed"); if (mem_live_since(mark, me, &f)) violate("memory-leak", "a local database that could not be created left memory allocated: %s", mem_describe(f).c_str()); }
        else { std::set<i64> t; if (size >= 300000) use(h, t, choose(SW, 4)); wg_delete_local_database(h); if (mem_live_since(mark, me, &f)) violate("memory-leak", "a deleted local database left memory allocated: %s", mem_describe(f).c_str()); }
        continue; }
      // attach
      int how = choose(SW, 5); i64 size = sz[choose(SW, choose(SW, 3) == 1 ? 9 : 4)]; if (how == 2 && !logs) how = 0; if (logs && how == 4) how = 2; if (logs && how == 0) how = 2;
      u64 mark = mem_mark(), f; int fds = fs_open_fds(me), at = shm_attach_count(me); bool quiet = busy == 0; u64 c0 = changes; Seg* s0 = shm_find(key); u64 ser0 = s0 ? s0->serial : 0, next0 = segs.size();
      Fault kf = NFAULT; bool wantfault = faulty && choose(SF, 3) == 1; if (wantfault) { G.cur->nofault = false; static const Fault k[] = {F_MALLOC, F_SHMGET_ERR, F_SHMAT_ERR, F_SHMCTL_ERR, F_OPEN_ERR, F_WRITE_ERR, F_SHMAT_ERR, F_MALLOC}; kf = k[choose(SF, 8)]; arm(kf, choose(SF, 4), choose(SF, 100), 1 + choose(SF, 2), me); }
      static const char* hn[] = {"database", "existing", "logged", "mode", "database"}; EV(0x2203, key, how, "process %d attaches %s %s, %lld bytes%s", me, hn[how], name, (long long)size, s0 ? "" : " (none there)");
      busy++; changes++; p.inattach = true;
      void* h = how == 1 ? wg_attach_existing_database(name) : how == 2 ? wg_attach_logged_database(name, size) : how == 3 ? wg_attach_database_mode(name, size, 0666) : wg_attach_database(name, size);
      p.inattach = false; busy--; changes++; bool fd = any_fired(); disarm_all(); G.cur->nofault = true; quiet = quiet && changes == c0 + 2;
      EV(0x2204, h != 0, fd, "process %d: attach %s%s", me, h ? "succeeded" : "failed", fd ? " (faults)" : "");
      if (!h) { failed++;
        if (mem_live_since(mark, me, &f)) violate("memory-leak", "a failed attach left memory allocated: %s", mem_describe(f).c_str());
        if (fs_open_fds(me) > fds) violate("descriptor-leak", "a failed attach left a file open"); if (shm_attach_count(me) != at) violate("attach-leak", "a failed attach left the process attached to a segment");
        if (quiet && !fd) { // alone and undisturbed: when may it fail?
          Db* d = ser0 && dbs.count(ser0) ? &dbs[ser0] : nullptr; bool ok = d ? d->wrong || d->size < (how == 1 ? 0 : size) || (how == 2 && !d->logged) : ser0 ? true : how == 1 || (size && size < 300000);
          if (!ok) violate("attach", "an undisturbed attach (%s, %lld bytes) failed", hn[how], (long long)size); }
        if (quiet && (!fd)) { Seg* s1 = shm_find(key); if (!ser0 && s1) violate("segment-leak", "a failed attach left a new segment behind"); if (ser0 && (!s1 || s1->serial != ser0)) violate("segment-lost", "a failed attach removed the existing database"); }
        if (fd && shm_find(key)) { Seg* s1 = shm_find(key); if (kf == F_SHMGET_ERR || kf == F_SHMCTL_ERR) { if (!dbs.count(s1->serial)) left.insert(s1->serial); } else if (quiet && !ser0) violate("segment-leak", "a failed attach left a new segment behind"); }
        continue; }
      if (shm_attach_count(me) != at + 1) violate("attach-leak", "an attach left %d attachments instead of one", shm_attach_count(me) - at);
      Seg* s = seg_of(h); if (!s) violate("attach", "the returned database is not a shared segment"); u64 ser = s->serial;
      if (s->key != key) violate("attach", "attached to database %lld instead of %s", (long long)s->key, name); if (quiet && ser0 && ser != ser0) violate("attach", "attached to something else than the existing database"); if (quiet && s->removed) violate("attach", "attached to a deleted database");
      bool created = !dbs.count(ser) ; (void)next0; if (created) { Db d; d.serial = ser; d.size = size ? size : s->size; d.logged = how == 2; dbs[ser] = d; made++; if (how == 1) { /* another process is still inside its attach */ dbs[ser].size = s->size; } } else joined++;
      Db& d = dbs[ser]; if (d.wrong && quiet) violate("attach", "attached to an incompatible database"); if (how != 1 && size && (i64)s->size < size) violate("attach", "attached to a database smaller than asked for");
      if (dbmemsegh(h)->size != (i64)s->size && (u64)dbmemsegh(h)->size > s->size) violate("attach", "the database claims more memory than its segment has"); if (how == 2 && !dbmemsegh(h)->logging.active && !d.wrong) violate("attach", "a logged attach gave a database without journal"); if (dbmemsegh(h)->logging.active) d.logged = true;
      p.h = h;
      i64 l = wg_start_write(h); if (l) { int n = choose(SW, 4); use(h, d.tags, n, &d.sealed); if (!crashed && !d.wrong && choose(SW, 30) == 29 && !logs) { std::map<std::string, i64> u; audit_alloc(h, &u); } wg_end_write(h, l); } else if (!crashed) violate("lock", "the lock of an attached database is not available");
      if (faulty && choose(SF, 20) == 7 && !d.wrong) { d.wrong = true; changes++; if (choose(SF, 2)) dbmemsegh(h)->version ^= 0x100; else dbmemsegh(h)->features ^= 4; EV(0x2206, ser, 0, "the database becomes one of another version"); }
      if (choose(SW, 3) == 1) sim_sleep_ns(choose(SW, 5000));
      if (wg_detach_database(h)) violate("detach", "detaching failed"); p.h = nullptr; if (shm_attach_count(me) != at) violate("attach-leak", "detaching left the process attached"); if (mem_live_since(mark, me, &f)) violate("memory-leak", "detaching left memory allocated: %s", mem_describe(f).c_str()); if (fs_open_fds(me) > fds) violate("descriptor-leak", "detaching left a file open");
    } }));
  if (crashy) { G.crash_at = G.acc + choose(SF, 60000); G.oncrash = [&] { G.crash_at = ~0ULL; int v = 0; for (int i = 1; i <= np; i++) if (pr[i].inattach) v = i; if (!v || G.cur == nullptr) return; crashed++; changes += 3; EV(0x2207, v, 0, "process %d dies while it attaches", v); pr[v].inattach = false; pr[v].crashed = true; busy--; kill_proc(v); }; }
  wait_tasks(ids); G.crash_at = ~0ULL; G.oncrash = nullptr; disarm_all();
  // afterwards, undisturbed
  ids.clear(); ids.push_back(spawn(7, "final", [&] { G.cur->nofault = true;
    for (i64 key = 100; key <= 101; key++) { char name[8]; snprintf(name, sizeof name, "%lld", (long long)key); Seg* s = shm_find(key); Db* d = s && dbs.count(s->serial) ? &dbs[s->serial] : nullptr;
      if (s && d && !d->wrong) { void* h = wg_attach_existing_database(name); if (!h) violate("attach", "an existing database cannot be attached"); if (seg_of(h)->serial != s->serial) violate("attach", "attached to something else than the existing database"); i64 l = wg_start_write(h); if (!l) { if (!crashed) violate("lock", "the lock of a database nobody uses is not available"); } else { use(h, d->tags, 1); wg_end_write(h, l); } wg_detach_database(h); }
      else if (s) { void* h = wg_attach_existing_database(name); if (h && d && d->wrong) violate("attach", "attached to an incompatible database"); if (h) { i64 l = wg_start_write(h); if (l) { std::set<i64> t; t = scan(h); use(h, t, 1); wg_end_write(h, l); } wg_detach_database(h); } else if (!crashed && !(d && d->wrong) && !left.count(s->serial)) violate("attach", "a segment that is no database was left behind"); probe("unusable segment after a crash"); }
      if (s && wg_delete_database(name)) violate("delete", "deleting failed"); if (shm_find(key)) violate("delete", "a deleted database can still be found");
      void* h = wg_attach_existing_database(name); if (h) violate("delete", "a deleted database can be attached"); h = wg_attach_database(name, 400000); if (!h) violate("attach", "a new database cannot be created after the old one was deleted"); std::set<i64> t; use(h, t, 3); std::map<std::string, i64> u; audit_alloc(h, &u); wg_detach_database(h); }
  })); wait_tasks(ids);
  for (int i = 1; i <= np; i++) if (!pr[i].crashed && shm_attach_count(i)) violate("attach-leak", "process %d is still attached to a segment", i);
  if (made + joined > 1) nontrivial(); probe("databases created", made); probe("attached to existing", joined); probe("attach failed", failed); if (crashed) probe("crashed while attaching");
  g_sample = std::to_string(np) + " processes, " + std::to_string(made) + " created, " + std::to_string(joined) + " joined, " + std::to_string(failed) + " failed" + (crashed ? ", a crash" : "");
}
