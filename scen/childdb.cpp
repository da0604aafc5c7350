// C21: child databases that refer to values and records of a shared parent and of a local parent, while other clients change the parent.
#include "watch.h"
extern "C" { wg_int wg_register_external_db(void* db, void* extdb); wg_int wg_encode_external_data(void* db, void* extdb, wg_int encoded); wg_int wg_compare(void* db, wg_int a, wg_int b, int depth); }
void sim_free_ext(void*);
namespace {
struct CV { Val v; int src = 0; int id = -1; bool stale = false; }; // src 0: local, 1: shared parent, 2: local parent; id: the record for references
struct CRec { std::vector<CV> f; int refs = 0; };
struct Child { void *db = nullptr, *par = nullptr, *lp = nullptr, *un = nullptr; std::map<int, i64> off; std::map<int, CRec> r; int next = 1; std::vector<std::vector<Val>> lv; std::vector<i64> loff; std::string limg; std::map<std::string, i64> base; bool tight = false; bool reg2 = false; };
u64 nops, nfailed, next_, ncmp;
std::string bytes(void* db) { db_memsegment_header* h = dbmemsegh(db); return std::string((const char*)h, h->size); }
Val ext_val(Child& c, void* owner, i64 e) { return dec_val(c.db, wg_encode_external_data(c.db, owner, e)); }
// the value of a field of the child, read through the child
void check_field(Child& c, const CV& x, i64 e, int id, int col) {
  int t = wg_get_encoded_type(c.db, e); if (t != x.v.t) violate("value", "field %d of child record %d has type %d instead of %d", col, id, t, x.v.t);
  if (t != WG_RECORDTYPE) { Val v = dec_val(c.db, e); if (v != x.v) violate("value", "field %d of child record %d%s reads %s instead of %s", col, id, x.src ? ", a value of a parent database," : "", v.str().c_str(), x.v.str().c_str()); return; }
  void* p = wg_decode_record(c.db, e); void* want = x.src == 0 ? ptr_of(c.db, c.off[x.id]) : x.src == 1 ? ptr_of(c.par, W.m.rec(x.id).off) : ptr_of(c.lp, c.loff[x.id]); if (p != want) violate("value", "field %d of child record %d refers to the wrong record", col, id);
  if (!x.src) return; const std::vector<Val>& f = x.src == 1 ? W.m.rec(x.id).f : c.lv[x.id]; void* owner = x.src == 1 ? c.par : c.lp; if (wg_get_record_len(c.db, p) != (i64)f.size()) violate("value", "a parent record read through the child has %lld fields instead of %zu", (long long)wg_get_record_len(c.db, p), f.size());
  for (size_t k = 0; k < f.size(); k++) { if (f[k].t == WG_RECORDTYPE) { i64 q = wg_encode_external_data(c.db, owner, wg_get_field(c.db, p, k)); if (wg_decode_record(c.db, q) != ptr_of(c.par, W.m.rec(f[k].ref).off)) violate("value", "a reference inside a parent record, read through the child, leads to the wrong record"); continue; } Val v = ext_val(c, owner, wg_get_field(c.db, p, k)); if (v != f[k]) violate("value", "field %zu of a parent record, read through the child, is %s instead of %s", k, v.str().c_str(), f[k].str().c_str()); }
}
bool has_stale(const CRec& r) { for (auto& x : r.f) if (x.stale) return true; return false; }
void check_child(Child& c, const char* when) {
  std::set<i64> got; for (void* p = wg_get_first_record(c.db); p; p = wg_get_next_record(c.db, p)) if (!got.insert(off_of(c.db, p)).second) violate("scan", "scanning the child never ends"); if (got.size() != c.r.size()) violate("scan", "%s: the child has %zu records instead of %zu", when, got.size(), c.r.size());
  for (auto& e : c.r) { void* p = ptr_of(c.db, c.off[e.first]); if (!got.count(c.off[e.first])) violate("scan", "%s: a child record is missing", when); if (wg_get_record_len(c.db, p) != (i64)e.second.f.size()) violate("value", "%s: a child record has another length", when); for (size_t k = 0; k < e.second.f.size(); k++) if (!e.second.f[k].stale) check_field(c, e.second.f[k], wg_get_field(c.db, p, k), e.first, k);
    std::multiset<i64> par, want; for (void* q = wg_get_first_parent(c.db, p); q; q = wg_get_next_parent(c.db, p, q)) { par.insert(off_of(c.db, q)); if (par.size() > 1000) violate("parents", "the parents of a child record never end"); } for (auto& o : c.r) { bool y = false; for (auto& x : o.second.f) if (x.src == 0 && x.id == e.first) y = true; if (y) want.insert(c.off[o.first]); } if (par != want) violate("parents", "%s: a child record has %zu parents instead of %zu", when, par.size(), want.size()); }
  std::map<std::string, i64> u; audit_alloc(c.db, &u); if (c.limg != bytes(c.lp)) violate("write", "%s: the local parent database was changed by its child", when);
}
bool pick_ext(Child& c, CV& x, i64& e) { // a value of a parent, as the child sees it
  if (choose(SW, 3) && !W.m.recs.empty()) { auto it = W.m.recs.begin(); std::advance(it, choose(SW, W.m.recs.size())); x.src = 1; void* p = ptr_of(c.par, it->second.off); if (!choose(SW, 3) || it->second.f.empty()) { x.v = Val(); x.v.t = WG_RECORDTYPE; x.id = it->first; e = wg_encode_external_data(c.db, c.par, wg_encode_record(c.par, p)); return true; } int k = choose(SW, it->second.f.size()); x.v = it->second.f[k]; e = wg_encode_external_data(c.db, c.par, wg_get_field(c.par, p, k)); if (x.v.t == WG_RECORDTYPE) { x.id = x.v.ref; x.v = Val(); x.v.t = WG_RECORDTYPE; } return true; }
  if (!c.reg2 || c.lv.empty()) return false; x.src = 2; int r = choose(SW, c.lv.size()); void* p = ptr_of(c.lp, c.loff[r]); if (!choose(SW, 3)) { x.v = Val(); x.v.t = WG_RECORDTYPE; x.id = r; e = wg_encode_external_data(c.db, c.lp, wg_encode_record(c.lp, p)); return true; } int k = choose(SW, c.lv[r].size()); x.v = c.lv[r][k]; e = wg_encode_external_data(c.db, c.lp, wg_get_field(c.lp, p, k)); return true;
}
void arm_child() { if (choose(SF, 4) == 1) arm(F_SEGALLOC, choose(SF, 6), 0, choose(SF, 3) ? 1 : 10, G.cur->proc); }
void store(Child& c, int id, int col, bool fresh, bool faults) {
  CV x; i64 e; void* p = ptr_of(c.db, c.off[id]); bool enc = false; u64 k = choose(SW, 10); bool external = k < 6 && pick_ext(c, x, e);
  if (faults) { G.cur->nofault = false; arm_child(); }
  if (!external) { if (k == 9 && c.r.size() > 1) { auto it = c.r.begin(); std::advance(it, choose(SW, c.r.size())); if (it->first != id) { x.v.t = WG_RECORDTYPE; x.id = it->first; e = wg_encode_record(c.db, ptr_of(c.db, c.off[it->first])); } else { e = 0; } } else { x.v = gen_simple(); bool ok; e = enc_val(c.db, x.v, &ok); if (!ok) { bool f = any_fired(); disarm_all(); G.cur->nofault = true; nfailed++; if (!f && !c.tight) violate("encode", "encoding a value in the child failed"); return; } enc = true; } }
  i64 old = wg_get_field(c.db, p, col); CRec& r = c.r[id]; wg_int rc = fresh ? wg_set_new_field(c.db, p, col, e) : wg_set_field(c.db, p, col, e); bool f = any_fired(); disarm_all(); G.cur->nofault = true; nops++; EV(0x6201, id * 100 + col, rc, "  child record %d field %d = %s%s -> %lld%s", id, col, x.v.t == WG_RECORDTYPE ? "record" : x.v.str().c_str(), x.src ? x.src == 1 ? " of the shared parent" : " of the local parent" : "", (long long)rc, f ? " after an injected fault" : "");
  if (rc) { nfailed++; if (!f && !c.tight) violate("refused", "storing a%s value in the child failed with %lld", x.src ? "n external" : "", (long long)rc); if (wg_get_field(c.db, p, col) != old) violate("value", "storing a value failed but changed the field"); if (enc) wg_free_encoded(c.db, e); return; }
  r.f[col] = x; if (x.src) { next_++; probe("external values stored"); }
}
void op(Child& c, bool faults) {
  u64 k = choose(SW, 16); if (c.r.empty()) k = 0; auto pick = [&] { auto it = c.r.begin(); std::advance(it, choose(SW, c.r.size())); return it->first; };
  if (k < 2 && c.r.size() < 15) { i64 len = 1 + choose(SW, 5); bool raw = choose(SW, 3) == 1; if (faults) { G.cur->nofault = false; arm_child(); } void* p = raw ? wg_create_raw_record(c.db, len) : wg_create_record(c.db, len); bool f = any_fired(); disarm_all(); G.cur->nofault = true; nops++; EV(0x6202, len, p != nullptr, "  child record %d of %lld fields%s", c.next, (long long)len, p ? "" : " failed"); if (!p) { nfailed++; if (!f && !c.tight) violate("refused", "creating a child record failed"); return; } int id = c.next++; c.off[id] = off_of(c.db, p); c.r[id].f.resize(len); if (raw) for (int j = 0; j < len; j++) store(c, id, j, true, faults); return; }
  if (k < 9) { int id = pick(); store(c, id, choose(SW, c.r[id].f.size()), false, faults); return; }
  if (k == 9) { int id = pick(); bool ref = false; for (auto& o : c.r) for (auto& x : o.second.f) if (x.src == 0 && x.id == id) ref = true; wg_int rc = wg_delete_record(c.db, ptr_of(c.db, c.off[id])); nops++; EV(0x6203, id, rc, "  delete child record %d -> %lld", id, (long long)rc); if (ref ? rc != -1 : rc != 0) violate("delete", "deleting a child record%s returned %lld", ref ? " that is referred to" : "", (long long)rc); if (!rc) { c.r.erase(id); c.off.erase(id); probe("child records deleted"); } return; }
  if (k == 10) { CV x; i64 e; if (!pick_ext(c, x, e)) return; EV(0x6204, x.src, x.id, "  free or delete an external %s", x.v.t == WG_RECORDTYPE ? "record" : "value"); if (x.v.t == WG_RECORDTYPE) { wg_int rc = wg_delete_record(c.db, wg_decode_record(c.db, e)); if (!rc) violate("delete", "the child deleted a record of its parent"); } else wg_free_encoded(c.db, e); nops++; return; }
  if (k == 11) { // a database that is not registered
    bool from_local = !c.reg2 && choose(SW, 2); void* o = from_local ? c.lp : c.un; void* q = wg_get_first_record(o); i64 n = wg_get_record_len(o, q), j = choose(SW, n + 1); i64 raw = j == n ? wg_encode_record(o, q) : wg_get_field(o, q, j), e = wg_encode_external_data(c.db, o, raw); int id = pick(), col = choose(SW, c.r[id].f.size()); void* p = ptr_of(c.db, c.off[id]); i64 old = wg_get_field(c.db, p, col); bool imm = raw == e; if (imm) return; wg_int rc = wg_set_field(c.db, p, col, e); nops++; EV(0x6205, id, rc, "  store a value of an unregistered database -> %lld", (long long)rc); if (rc != -5) violate("unregistered", "storing a value of a database that is not registered returned %lld", (long long)rc); if (wg_get_field(c.db, p, col) != old) violate("unregistered", "storing a value of an unregistered database changed the field"); probe("values of unregistered databases refused"); return; }
  if (k < 14) { // queries by value find local and external values alike
    Val v; bool have = false; for (int tries = 0; tries < 6 && !have; tries++) { auto& r = c.r[pick()]; CV& x = r.f[choose(SW, r.f.size())]; if (!x.stale && x.v.t != WG_RECORDTYPE && x.v.t != WG_NULLTYPE && x.v.t != WG_BLOBTYPE && x.v.t != WG_VARTYPE) { v = x.v; have = true; } } if (!have) return; for (auto& r : c.r) if (has_stale(r.second)) return; int col = choose(SW, 4); bool ok; wg_query_arg a; static const int conds[] = {WG_COND_EQUAL, WG_COND_EQUAL, WG_COND_LESSTHAN, WG_COND_GTEQUAL, WG_COND_NOT_EQUAL}; a.column = col; a.cond = conds[choose(SW, 5)]; a.value = enc_param(c.db, v, &ok); if (!ok) return; std::multiset<i64> got, want; wg_query* q = wg_make_query(c.db, nullptr, 0, &a, 1); if (!q) violate("query", "a query on the child failed"); void* p; while ((p = wg_fetch(c.db, q))) { got.insert(off_of(c.db, p)); if (got.size() > 1000) violate("query", "a query on the child never ends"); } wg_free_query(c.db, q); wg_free_query_param(c.db, a.value);
    for (auto& r : c.r) { if ((int)r.second.f.size() <= col) continue; const Val& w = r.second.f[col].v; int cr = w.t != v.t ? (w.t > v.t ? 1 : -1) : vcmp(w, v); if (cond_ok(a.cond, cr)) want.insert(c.off[r.first]); } nops++; if (got != want) violate("query", "a query on the child (field %d, condition %d, value %s) finds %zu records instead of %zu", col, a.cond, v.str().c_str(), got.size(), want.size()); probe("queries on children"); return; }
  if (k == 14) { int a = pick(), b = pick(); CRec &ra = c.r[a], &rb = c.r[b]; size_t ca = choose(SW, ra.f.size()), cb = choose(SW, rb.f.size()); CV &x = ra.f[ca], &y = rb.f[cb]; if (x.stale || y.stale || x.src == 2 || y.src == 2 || (x.v.t == WG_RECORDTYPE && x.src != 1) || (y.v.t == WG_RECORDTYPE && y.src != 1)) return; Val va = x.v, vb = y.v; if (va.t == WG_RECORDTYPE) va.ref = x.id; if (vb.t == WG_RECORDTYPE) vb.ref = y.id; i64 ea = wg_get_field(c.db, ptr_of(c.db, c.off[a]), ca), eb = wg_get_field(c.db, ptr_of(c.db, c.off[b]), cb); int r = ea == eb ? 0 : wg_compare(c.db, ea, eb, 7), want = ea == eb ? 0 : vcmp(va, vb); r = r == 0 ? 0 : r == 1 ? 1 : -1; /* WG_EQUAL, WG_GREATER */ ncmp++; nops++; if (want ? r == 0 : r != 0) violate("compare", "comparing %s with %s in the child says %d instead of %d", va.str().c_str(), vb.str().c_str(), r, want); if (r != want && va.t != WG_RECORDTYPE) violate("compare", "comparing %s with %s in the child says %d instead of %d", va.str().c_str(), vb.str().c_str(), r, want); return; }
  { int id = pick(); if (has_stale(c.r[id])) return; char buf[300]; size_t j = choose(SW, c.r[id].f.size()); i64 e = wg_get_field(c.db, ptr_of(c.db, c.off[id]), j); int n = 3 + choose(SW, 290); char* hb = (char*)hmalloc(G.cur->proc, n); wg_snprint_value(c.db, e, hb, n); if (!memchr(hb, 0, n)) violate("print", "printing a value did not end the text"); snprintf(buf, sizeof buf, "%s", hb); sim_free_ext(hb); Val& v = c.r[id].f[j].v; if (v.t == WG_INTTYPE && n > 40 && atoll(buf) != v.i) violate("print", "an integer of a parent is printed as %s", buf); if (v.t == WG_STRTYPE && !v.hasx && n > 290 && v.s.size() < 200 && v.s.find('"') == std::string::npos && !strstr(buf, v.s.c_str())) violate("print", "a string of a parent is printed as %s", buf); nops++; }
}
void fill_db(void* db, std::vector<std::vector<Val>>* lv, std::vector<i64>* off) {
  int n = 2 + choose(SW, 3); while (n--) { i64 len = 1 + choose(SW, 5); void* r = wg_create_record(db, len); if (!r) violate("create", "filling a local database failed"); std::vector<Val> f(len); for (int k = 0; k < len; k++) { bool ok; f[k] = gen_simple(); i64 e = enc_val(db, f[k], &ok); if (!ok || wg_set_field(db, r, k, e)) violate("create", "filling a local database failed"); } if (lv) { lv->push_back(f); off->push_back(off_of(db, r)); } }
}
}
SCENARIO(childdb) {
  world_reset(); nops = nfailed = next_ = ncmp = 0; sched_config(1); G.maxfairgap = 200000; G.cur->nofault = true; W.cfg.w = {6, 1, 14, 5, 1, 1, 0, 0, 2, 1, 0, 0}; W.cfg.longmax = choose(SW, 2) ? 300 : 60; W.cfg.cycles = choose(SW, 3) == 1; W.cfg.maxrec = 20; W.cfg.tight = false; bool faults = choose(SF, 2);
  void* db0 = wg_attach_database("100", 2000000); if (!db0) return; int ncl = 1 + choose(SW, 3), rounds = 2 + choose(SW, 5); std::vector<int> ids; static RWatch RW; RW.start(100); { i64 l = wg_start_write(db0); int n = 4 + choose(SW, 10); while (n--) do_op(db0, choose(SW, 3) ? O_CREATE : O_SET); wg_end_write(db0, l); }
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; Child c; c.par = wg_attach_existing_database("100"); if (!c.par) violate("attach", "attach failed"); bool live = false;
    bool before = choose(SW, 2); auto mkp = [&] { c.lp = wg_attach_local_database(400000); c.un = wg_attach_local_database(300000); if (!c.lp || !c.un) violate("attach", "creating a local database failed"); fill_db(c.lp, &c.lv, &c.loff); fill_db(c.un, nullptr, nullptr); }; if (before) mkp();
    auto mkc = [&] { static const i64 sz[] = {400000, 1000000, 260000}; i64 s = sz[choose(SW, 3)]; c.tight = s < 1000000; c.db = wg_attach_local_database(s); if (!c.db) violate("attach", "creating a child database failed"); if (!c.lp) mkp(); c.limg = bytes(c.lp); if (wg_register_external_db(c.db, c.par)) violate("register", "registering the parent failed"); c.reg2 = choose(SW, 2); if (c.reg2 && wg_register_external_db(c.db, c.lp)) violate("register", "registering a local parent failed");
      if (choose(SW, 4) == 1) { int ok = 0; for (int q = 0; q < 25; q++) if (!wg_register_external_db(c.db, c.par)) ok++; else { probe("registrations refused when full"); } if (ok == 25) violate("register", "more databases were registered than there is room for, without an error"); }
      if (choose(SW, 4) == 1 && !wg_register_external_db(c.par, c.lp)) violate("register", "a shared database accepted an external database"); if (choose(SW, 4) == 1 && !wg_create_index(c.db, 1, WG_INDEX_TYPE_TTREE, nullptr, 0)) violate("register", "an index was created in a child database"); if (choose(SW, 4) == 1 && !wg_dump(c.db, (char*)"/tmp/child.dump")) violate("register", "a child database was dumped"); c.r.clear(); c.off.clear(); c.base.clear(); audit_alloc(c.db, &c.base); live = true; };
    for (int r = 0; r < rounds; r++) {
      if (choose(SW, 3) == 1) { i64 l = wg_start_write(c.par); if (!l) continue; EV(0x1002, i, 0, "client %d writes", i); int n = 1 + choose(SW, 6); while (n--) do_op(c.par, -1); if (choose(SW, 3) == 1) verify(c.par, "after a transaction"); wg_end_write(c.par, l); continue; }
      i64 l = wg_start_read(c.par); if (!l) continue; EV(0x1001, i, 0, "client %d reads", i); RW.begin("uses the data in a child database"); if (!live) mkc();
      int n = 3 + choose(SW, 25); while (n--) { op(c, faults); G.cur->nofault = true; if (choose(SW, 8) == 1) check_child(c, "between operations"); } check_child(c, "after using the parent");
      bool drop = choose(SW, 4) == 1; if (drop) { // the child goes away at once
        wg_delete_local_database(c.db); live = false; c.db = nullptr; EV(0x6206, i, 0, "  child deleted"); }
      else { bool clear = choose(SW, 2); for (auto& e : c.r) for (size_t k = 0; k < e.second.f.size(); k++) { CV& x = e.second.f[k]; if (!x.src) continue; if (clear) { if (wg_set_field(c.db, ptr_of(c.db, c.off[e.first]), k, 0)) violate("refused", "overwriting an external value with NULL failed"); x = CV(); } else if (x.src == 1) x.stale = true; } if (clear) { check_child(c, "after the external values were overwritten"); probe("external values overwritten"); } }
      RW.end(); wg_end_read(c.par, l);
    }
    if (live) { i64 l = wg_start_read(c.par); RW.begin("deletes the records of a child database"); int left = c.r.size(); while (!c.r.empty() && left-- >= 0) { for (auto it = c.r.begin(); it != c.r.end();) { bool ref = false; for (auto& o : c.r) for (auto& x : o.second.f) if (x.src == 0 && x.id == it->first) ref = true; if (ref) { it++; continue; } if (wg_delete_record(c.db, ptr_of(c.db, c.off[it->first]))) violate("delete", "deleting a child record failed"); c.off.erase(it->first); it = c.r.erase(it); } } if (c.r.empty()) { check_child(c, "after deleting everything"); std::map<std::string, i64> u; audit_alloc(c.db, &u); for (auto& e : u) if (e.second != c.base[e.first]) violate("leak", "after all child records were deleted %lld of the %s area are still in use", (long long)(e.second - c.base[e.first]), e.first.c_str()); } RW.end(); if (l) wg_end_read(c.par, l); wg_delete_local_database(c.db); }
    if (c.lp) { wg_delete_local_database(c.lp); wg_delete_local_database(c.un); } wg_detach_database(c.par);
  }));
  wait_tasks(ids); RW.stop(); verify(db0, "at the end"); delete_everything(db0); verify(db0, "after deleting everything");
  if (next_) nontrivial(); probe("child operations", nops); probe("child operations that failed", nfailed); probe("values compared", ncmp); g_sample = std::to_string(ncl) + " clients, " + std::to_string(nops) + " operations on children of which " + std::to_string(nfailed) + " failed, " + std::to_string(next_) + " external values stored, " + std::to_string(W.nops) + " operations on the parent";
}
