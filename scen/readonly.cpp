// C05: clients that only read leave the shared segment exactly as it was, also when what they do fails.
#include "watch.h"
#include "jcommon.h"
static RWatch RW; static u64 nread, nconc, inread;
struct Guard { Guard(const char* w, int m = 1) { EV(0x3000, 0, 0, "  %s %s", G.cur->name.c_str(), w); RW.begin(w, m); } ~Guard() noexcept(false) { RW.end(); } };
static void arm_file() { static const Fault k[] = {F_WRITE_ERR, F_WRITE_SHORT, F_OPEN_ERR, F_CLOSE_ERR, F_MALLOC, F_SEEK_ERR}; arm(k[choose(SF, 6)], choose(SF, choose(SF, 2) ? 3 : 40), choose(SF, 4000), 1 + choose(SF, 3), G.cur->proc); }
static void arm_mem() { static const u64 reps[] = {1, 1, 1000}; arm(F_MALLOC, choose(SF, choose(SF, 2) ? 3 : 10), 0, reps[choose(SF, 3)], G.cur->proc); }
static void read_op(void* db, bool locked, int me, bool faults) {
  bool f = faults && choose(SF, 3) == 1; nread++; G.cur->nofault = !f;
  switch (locked ? choose(SW, 12) : 11) {
    case 0: { Guard g("scans the records"); verify_reader(db); break; }
    case 1: { Guard g("runs a query"); bool ff = W.cfg.faults; W.cfg.faults = f; op_query(db); W.cfg.faults = ff; break; }
    case 2: { Guard g("finds records"); op_find(db); break; }
    case 3: { Guard g("walks parents"); op_parents(db); break; }
    case 4: { Guard g("prints the database"); if (f) arm_mem(); wg_print_db(db); break; }
    case 5: { // printing into a buffer of any size stays inside it
      if (W.m.recs.empty()) break; auto it = W.m.recs.begin(); std::advance(it, choose(SW, W.m.recs.size())); void* p = ptr_of(db, it->second.off); int n = 4 + choose(SW, choose(SW, 2) ? 30 : 300); char* b = (char*)hmalloc(G.cur->proc, n + 8); bool nf = G.cur->nofault; Guard g("prints values"); if (f) arm_mem();
      for (size_t c = 0; c < it->second.f.size(); c++) { memset(b, 0x5a, n + 8); wg_snprint_value(db, wg_get_field(db, p, c), b, n); int k = 0; while (k < n && b[k]) k++; if (k == n) violate("print", "a value printed into %d bytes is not terminated", n); for (int z = 0; z < 8; z++) if (b[n + z] != 0x5a) violate("print", "a value printed into %d bytes wrote past them", n); }
      G.cur->nofault = nf; break; }
    case 6: { Guard g("exports the database"); char fn[40]; snprintf(fn, sizeof fn, "/tmp/x%d.csv", me); if (f) arm_file(); u64 m = mem_mark(), a; int fd0 = open_files(); wg_export_db_csv(db, fn); if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "an export left private memory allocated (%s)", mem_describe(a).c_str()); if (open_files() != fd0) violate("descriptor-leak", "an export left a file open"); break; }
    case 7: { Guard g("lists the indexes"); if (f) arm_mem(); u64 m = mem_mark(), a; bool ok; auto ids = index_ids(db, &ok); if (ok && !any_fired() && ids.size() != W.m.idx.size()) violate("index-list", "%zu indexes are listed, %zu exist", ids.size(), W.m.idx.size()); if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "listing the indexes left private memory allocated (%s)", mem_describe(a).c_str()); break; }
    case 8: { Guard g("looks records up in the indexes"); check_indexes(db, "reader"); break; }
    case 9: { Guard g("finds records while memory is short"); if (f) arm_mem(); int col = choose(SW, W.cfg.ncol); void* p = nullptr; size_t n = 0; u64 m = mem_mark(), a; int kind = choose(SW, 3);
      do { p = kind == 0 ? wg_find_record_int(db, col, WG_COND_NOT_EQUAL, 5, p) : kind == 1 ? wg_find_record_str(db, col, WG_COND_EQUAL, (char*)"a longer string that does not fit into the short string area of the database", p) : wg_find_record_uri(db, col, WG_COND_NOT_EQUAL, (char*)"x", (char*)"http://example.org/a/prefix/that/is/long#", p); if (p && !W.m.byoff.count(off_of(db, p))) violate("find", "a found record does not exist"); if (++n > W.m.recs.size() + 5) violate("find", "finding records never ends"); } while (p);
      if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "finding records left private memory allocated (%s)", mem_describe(a).c_str()); break; }
    case 10: { Guard g("counts and inspects"); wg_int a = wg_database_size(db), b = wg_database_freesize(db); if (a <= 0 || b < 0 || b > a) violate("size", "the database reports size %lld with %lld free", (long long)a, (long long)b); for (auto& i : W.m.idx) { if (wg_get_index_type(db, i.first) != i.second.type) violate("index-list", "wrong index type"); } wg_int c = choose(SW, W.cfg.ncol); wg_column_to_index_id(db, c, WG_INDEX_TYPE_TTREE, nullptr, 0); break; }
    case 11: if (!locked) { Guard g("dumps the database", 2); char fn[40]; snprintf(fn, sizeof fn, "/tmp/d%d", me); if (f) arm_file(); wg_int r = wg_dump(db, fn); disarm_all(); if (!r) { wg_int mn, mx; G.cur->nofault = true; if (wg_check_dump(db, fn, &mn, &mx)) violate("dump", "a dump is refused"); } } else { Guard g("encodes query parameters"); for (int k = 0; k < 3; k++) { Val v; do v = gen_simple(); while (v.t == WG_BLOBTYPE || v.t == WG_VARTYPE); if (f) arm_mem(); u64 m = mem_mark(), a; bool o; i64 e = enc_param(db, v, &o); bool ff = any_fired(); if (o) { disarm_all(); if (dec_val(db, e) != v) violate("param", "a query parameter decodes to something else"); wg_free_query_param(db, e); } else if (!ff) violate("param", "a query parameter could not be encoded"); disarm_all(); if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "a query parameter left private memory allocated (%s)", mem_describe(a).c_str()); } } break;
  }
  disarm_all(); G.cur->nofault = true;
}
SCENARIO(readonly) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 5; w[O_MKINDEX] = 2; w[O_DROPINDEX] = 1; c.ncol = 3 + choose(SW, 3); c.maxrec = 5 + choose(SW, 30); c.hash = choose(SW, 2); c.cycles = choose(SW, 2); c.dupref = choose(SW, 2); c.segfaults = false; c.faultpct = 100;
  sched_config(1); G.maxfairgap = 200000; nread = nconc = inread = 0; i64 size = 1500000; u64 reads = 0;
  void* db0 = wg_attach_database("100", size); if (!db0) return; G.cur->nofault = true; int hist = 5 + choose(SW, 60); for (int k = 0; k < hist; k++) do_op(db0, weighted(SW, w)); if (choose(SW, 4) == 1) wg_start_logging(db0);
  int ncl = 1 + choose(SW, 3), rounds = 1 + choose(SW, 5); bool writers = choose(SW, 3) == 1, faults = choose(SF, 3) != 0; RW.start(100);
  std::vector<int> ids; static std::string snap; static u64 snapver; snap.clear();
  auto image = [](void* db) { db_memsegment_header* h = dbmemsegh(db); std::string s((char*)dbmemseg(db), h->free ? std::min(h->free, h->size) : h->size); u64 o = (char*)&h->locks - (char*)h; memset(&s[o], 0, sizeof h->locks);
    u64 l = (char*)&h->logging - (char*)h; memset(&s[l], 0, sizeof h->logging);
#if !defined(LOCK_PROTO) || (LOCK_PROTO < 3)
    memset(&s[h->locks.global_lock], 0, SYN_VAR_PADDING); memset(&s[h->locks.writers], 0, SYN_VAR_PADDING);
#else
    memset(&s[h->locks.queue_lock], 0, SYN_VAR_PADDING); memset(&s[h->locks.storage], 0, h->locks.max_nodes * SYN_VAR_PADDING);
#endif
    return s; };
  snap = image(db0); snapver = W.version;
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed");
    for (int r = 0; r < rounds; r++) {
      if (writers && choose(SW, 3) == 1) { i64 l = wg_start_write(db); if (!l) continue; if (snapver == W.version && snap != image(db)) violate("changed", "the database changed while it was only read"); int n = 1 + choose(SW, 4); while (n--) do_op(db, weighted(SW, W.cfg.w)); W.version++; wg_end_write(db, l); snapver = ~0ULL; continue; }
      if (choose(SW, 5) == 1) { read_op(db, false, i, faults); continue; } // a dump takes the lock itself
      i64 l = wg_start_read(db); if (!l) continue; inread++; if (inread > 1) nconc++; int n = 1 + choose(SW, 4); while (n--) { reads++; read_op(db, true, i, faults); } inread--; wg_end_read(db, l);
    }
    wg_detach_database(db);
  }));
  wait_tasks(ids); RW.stop(); disarm_all(); G.cur->nofault = true;
  if (snapver == W.version && snap != image(db0)) violate("changed", "the database changed while it was only read");
  verify(db0, "at the end"); if (wg_get_first_record(db0)) nontrivial(); probe("reading operations", nread); probe("readers side by side", nconc);
  g_sample = std::to_string(ncl) + " clients, " + std::to_string(nread) + " reading operations, " + std::to_string(nconc) + " times beside other readers";
}
