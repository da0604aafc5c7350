// C04: atomic field operations by clients that hold only the read lock, against a linearizable register per field.
#include "world.h"
#include <unordered_set>
namespace {
enum { A_READ, A_UPDATE, A_SET, A_ADD };
struct Op { int cl, kind; i64 a, b; u64 t0, t1; wg_int rc; i64 val; };
struct Field { int id, col; i64 init; std::vector<Op> h; bool refused; };
std::vector<Field> fl; u64 clk; void* hdbs[MAXPROC];
#define hdb hdbs[G.cur->proc]
bool imm(i64 e) { return e == 0 || wg_get_encoded_type(hdb, e) == WG_CHARTYPE || wg_get_encoded_type(hdb, e) == WG_DATETYPE || wg_get_encoded_type(hdb, e) == WG_TIMETYPE || wg_get_encoded_type(hdb, e) == WG_FIXPOINTTYPE || wg_get_encoded_type(hdb, e) == WG_VARTYPE || wg_get_encoded_type(hdb, e) == WG_ANONCONSTTYPE || (wg_get_encoded_type(hdb, e) == WG_INTTYPE && (e & 7) == 3); }
// can the operation take effect in state s, and what is the state then?
bool step(const Op& o, i64 s, i64* n) {
  *n = s; if (o.rc == -13 || o.rc == -10 || o.rc == -14 || o.rc == -2) return true; // judged when it returned
  switch (o.kind) {
    case A_READ: return s == o.val;
    case A_UPDATE: if (o.rc == 0) { *n = o.a; return s == o.b && imm(s); } if (o.rc == -15) return s != o.b; return o.rc == -11 && !imm(o.b);
    case A_SET: if (o.rc == 0) { *n = o.a; return imm(s); } return o.rc == -11 && !imm(s);
    default: { bool isint = imm(s) && s && wg_get_encoded_type(hdb, s) == WG_INTTYPE; if (o.rc == -11) return !isint; if (!isint) return false; i64 v = wg_decode_int(hdb, s) + o.a; bool sure = v < (1ll << 28) && v >= -(1ll << 28), never = v >= (1ll << 60) || v < -(1ll << 60);
      if (o.rc == -16) return !sure; if (o.rc) return false; if (never) return false; *n = v * 8 + 3; return true; }
  }
}
struct Key { u64 m; i64 s; bool operator==(const Key& o) const { return m == o.m && s == o.s; } }; struct KH { size_t operator()(const Key& k) const { return k.m * 0x9E3779B97F4A7C15ull ^ (u64)k.s * 31; } };
bool lin(const std::vector<Op>& h, u64 done, i64 s, i64 fin, std::unordered_set<Key, KH>& seen) {
  if (done == (h.size() == 64 ? ~0ull : (1ull << h.size()) - 1)) return s == fin;
  if (!seen.insert({done, s}).second) return false;
  u64 first = ~0ull; for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1)) first = std::min(first, h[i].t1);
  for (size_t i = 0; i < h.size(); i++) if (!(done >> i & 1) && h[i].t0 < first) { i64 n; if (step(h[i], s, &n) && lin(h, done | 1ull << i, n, fin, seen)) return true; }
  return false;
}
const char* kn[] = {"read", "update", "set", "add"};
// nobody else is active: decide the history of every field, bring the model up to date, compare everything
void settle(void* db, u64* decided) {
  for (auto& f : fl) if (f.h.size()) { i64 fin = wg_get_field(db, ptr_of(db, W.m.rec(f.id).off), f.col);
    std::unordered_set<Key, KH> seen; bool conc = false; for (size_t i = 1; i < f.h.size(); i++) for (size_t j = 0; j < i; j++) if (f.h[i].t0 < f.h[j].t1 && f.h[j].t0 < f.h[i].t1) conc = true; if (conc) ++*decided;
    if (!lin(f.h, 0, f.init, fin, seen)) { std::string d; for (auto& o : f.h) { char b[160]; snprintf(b, sizeof b, " [client %d %s(%llx,%llx)=%lld/%llx at %llu-%llu]", o.cl, kn[o.kind], (long long)o.a, (long long)o.b, (long long)o.rc, (long long)o.val, (unsigned long long)o.t0, (unsigned long long)o.t1); d += b; } violate("linearizability", "field %d of #%d went from %llx to %llx, which no order of these operations explains:%s", f.col, f.id, (long long)f.init, (long long)fin, d.c_str()); }
    Val v = dec_val(db, fin); if (v != W.m.rec(f.id).f[f.col]) { W.m.rec(f.id).f[f.col] = v; W.version++; } f.h.clear(); }
  verify(db, "after concurrent atomic operations");
}
void pick(void* db, int nf) { fl.clear(); std::vector<std::pair<int, int>> c; for (auto& r : W.m.recs) for (int k = W.cfg.tagged ? 1 : 0; k < (int)r.second.f.size(); k++) c.push_back({r.first, k}); for (int i = 0; i < nf && c.size(); i++) { size_t k = choose(SW, c.size()); auto p = c[k]; c.erase(c.begin() + k); fl.push_back(Field{p.first, p.second, wg_get_field(db, ptr_of(db, W.m.rec(p.first).off), p.second), {}, false}); } }
}
SCENARIO(atomic) {
  world_reset(); Cfg& c = W.cfg; c.w.assign(NOPS, 0); auto& w = c.w; w[O_CREATE] = 10; w[O_RAW] = 4; w[O_SET] = 20; w[O_DELETE] = 3; c.ncol = 2 + choose(SW, 3); c.maxrec = 4 + choose(SW, 12); c.longmax = 100; c.tagged = choose(SW, 2); int ready = 0; bool idx = choose(SW, 2); if (idx) { w[O_MKINDEX] = 2; w[O_DROPINDEX] = 1; c.hash = choose(SW, 4) == 1; }
  bool journal = choose(SW, 8) == 1; c.journal = journal; sched_config(0); G.maxfairgap = 100000; clk = 0; int ncl = 2 + choose(SW, 4), rounds = 1 + choose(SW, 4), nf = 1 + choose(SW, 3); u64 decided = 0, total = 0, okops = 0; int readers = 0;
  i64 deltas[] = {1, 1, -1, 1000, (1 << 28) - 3, 2147483647, -2147483647 - 1};
  void* db0 = journal ? wg_attach_logged_database("100", 1500000) : wg_attach_database("100", 1500000); if (!db0) return; hdb = db0;
  { G.cur->nofault = true; int n = 5 + choose(SW, 25); for (int i = 0; i < n; i++) do_op(db0, weighted(SW, w));
    for (auto& r : W.m.recs) if (r.second.f.size() > 1 && choose(SW, 2)) { Val v; v.t = choose(SW, 4) ? WG_INTTYPE : WG_DATETYPE; static const i64 sp[] = {0, 1, -1, (1 << 28) - 1, -(1 << 28), 1ll << 28, (1ll << 31) - 2, 1ll << 40, (1ll << 60) - 1}; v.i = v.t == WG_INTTYPE ? (choose(SW, 3) ? choose(SW, 10) : sp[choose(SW, 9)]) : 1 + choose(SW, 1000); op_set(db0, r.first, 1 + choose(SW, r.second.f.size() - 1), v); }
    if (idx && choose(SW, 2)) { std::vector<int> ids; for (auto& r : W.m.recs) ids.push_back(r.first); for (int id : ids) if (W.m.rec(id).f.size() > 2) { Val v; v.t = WG_RECORDTYPE; v.ref = ids[choose(SW, ids.size())]; if (v.ref < id && W.m.rec(v.ref).f.size() > 1) op_set(db0, id, 2, v); } for (int k = 0; k < 3; k++) op_mkindex(db0); }
    verify(db0, "after the preparation"); pick(db0, nf); }
  std::vector<int> ids;
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); hdb = db;
    if (++ready == ncl) { sched_config(1); if (choose(SS, 2)) { G.gapmean = 1 + choose(SS, 12); G.density = 100; } } else while (ready < ncl) sim_sleep_ns(1000);
    for (int r = 0; r < rounds; r++) {
      if (r && choose(SW, 6) == 1) { i64 l = wg_start_write(db); if (!l) continue; if (readers) violate("exclusion", "a writer works together with readers"); settle(db, &decided); int n = choose(SW, 4); for (int k = 0; k < n; k++) do_op(db, weighted(SW, w)); pick(db, nf); wg_end_write(db, l); continue; }
      i64 l = wg_start_read(db); if (!l) continue; readers++;
      int n = 1 + choose(SW, 5); for (int k = 0; k < n && fl.size(); k++) {
        Field& f = fl[choose(SW, fl.size())]; if (f.h.size() >= 40) break; MRec& rec = W.m.rec(f.id); void* p = ptr_of(db, rec.off); Op o{i, (int)choose(SW, 6), 0, 0, 0, 0, 0, 0}; bool badcol = choose(SW, 20) == 19, badval = choose(SW, 20) == 19; int col = badcol ? (choose(SW, 2) ? (int)rec.f.size() : -1) : f.col;
        auto nv = [&]() -> i64 { switch (choose(SW, 5)) { case 0: case 1: return wg_encode_int(db, choose(SW, 4)); case 2: return 0; case 3: return wg_encode_date(db, 1 + choose(SW, 3)); default: return wg_encode_char(db, 'a' + choose(SW, 3)); } };
        if (o.kind >= 4) o.kind = A_ADD; i64 last = f.h.size() && choose(SW, 2) ? (f.h.back().kind == A_READ ? f.h.back().val : f.h.back().a) : f.init; if (o.kind == A_SET || o.kind == A_UPDATE) { o.a = nv(); o.b = last; if (badval) { for (auto& q : W.m.recs) for (size_t z = 0; z < q.second.f.size(); z++) if (q.second.f[z].t == WG_STRTYPE || q.second.f[z].t == WG_DOUBLETYPE) { i64 e = wg_get_field(db, ptr_of(db, q.second.off), z); if (!imm(e)) o.a = e; } } }
        if (o.kind == A_ADD) { o.a = deltas[choose(SW, 7)]; if (o.a > 1000 && choose(SW, 2)) o.a = 2; }
        if (o.kind == A_UPDATE && f.h.size() && choose(SW, 2) && !(o.b == 0 || imm(o.b))) o.b = f.init;
        bool nonimm = (o.kind == A_SET || o.kind == A_UPDATE) && !imm(o.a); i64 before = badcol ? 0 : wg_get_field(db, p, f.col); (void)before;
        size_t at = f.h.size(); (void)at; o.t0 = ++clk;
        switch (o.kind) { case A_READ: o.val = wg_get_field(db, p, f.col); break; case A_UPDATE: o.rc = wg_update_atomic_field(db, p, col, o.a, o.b); break; case A_SET: o.rc = wg_set_atomic_field(db, p, col, o.a); break; default: o.rc = wg_add_int_atomic_field(db, p, col, (int)o.a); }
        o.t1 = ++clk; total++; if (!o.rc) okops++; EV(0x2100 + o.kind, o.a, o.rc, "client %d: %s field %d of #%d (%llx,%llx) gives %lld/%llx", i, kn[o.kind], col, f.id, (long long)o.a, (long long)o.b, (long long)o.rc, (long long)o.val);
        if (o.kind == A_READ) { f.h.push_back(o); continue; }
        if (badcol) { if (o.rc == 0) violate("atomic", "an atomic %s of field %d of a record with %d fields succeeded", kn[o.kind], col, (int)rec.f.size()); continue; }
        if (!o.rc && nonimm) violate("atomic", "an atomic %s to a value that needs storage succeeded", kn[o.kind]);
        bool ix = W.m.indexed(f.col) || W.m.tmpl_uses(f.col); if (!o.rc && ix) violate("atomic", "an atomic %s of an indexed field succeeded", kn[o.kind]);
        if (!o.rc && journal) violate("atomic", "an atomic %s succeeded while journaling was active", kn[o.kind]);
        if (o.rc == -13 && !ix && !(W.m.idx.size() && W.m.referenced(f.id))) violate("atomic", "an atomic %s was refused because of an index, but nothing with an index depends on the field", kn[o.kind]);
        if (o.rc == -14 && !journal) violate("atomic", "an atomic %s was refused because of journaling, which is not active", kn[o.kind]);
        if (o.rc == -10 && !nonimm) violate("atomic", "an atomic %s of a plain value was refused because of the value", kn[o.kind]); if (o.rc == -2) violate("atomic", "an atomic %s of an existing field was refused because of its number", kn[o.kind]);
        f.h.push_back(o);
      }
      if (choose(SW, 3) == 1) for (int q = 0; q < 3; q++) yield_point(); readers--; wg_end_read(db, l);
    }
    wg_detach_database(db);
  }));
  wait_tasks(ids); settle(db0, &decided); if (decided) nontrivial(); probe("atomic operations", total); probe("atomic operations that succeeded", okops); probe("fields with overlapping operations", decided);
  g_sample = std::to_string(ncl) + " clients, " + std::to_string(total) + " atomic operations (" + std::to_string(okops) + " succeeded), " + std::to_string(decided) + " histories with overlap";
}
