// C19 (and the JSON part of C05): documents parsed from buffers and files under faults, printed, deleted, replayed from the journal.
#include "watch.h"
#include "jcommon.h"
#include "jmodel.h"
extern "C" {
wg_int wg_parse_json_param(void* db, const char* buf, void** document); void wg_print_json_document(void* db, void* cb, void* cb_ctx, void* document);
wg_int wg_delete_document(void* db, void* document);
typedef struct { wg_int key, value; } wg_json_query_arg; wg_query* wg_make_json_query(void* db, wg_json_query_arg* arglist, wg_int argc);
}
void sim_free_ext(void*);
#define is_schema_array(r) (((gint*)(r))[1] & 0x40)     // as in dbdata.h
#define is_schema_object(r) (((gint*)(r))[1] & 0x20)
#define is_schema_document(r) (((gint*)(r))[1] & 0x10)
namespace {
// ---- the stored form
struct Doc { i64 off; J j; bool isdoc; std::set<i64> recs; };
std::map<int, Doc> docs; int nextdoc; std::set<i64> garbage; u64 ndone, nfail, nplain; bool tight;
void walk(void* db, void* rec, const J& j, bool top, bool isdoc, std::set<i64>& seen, const std::string& at);
void cmp(void* db, i64 e, const J& j, std::set<i64>& seen, const std::string& at) {
  int t = wg_get_encoded_type(db, e), want = j.t == 'n' ? WG_NULLTYPE : j.t == 'i' ? WG_INTTYPE : j.t == 'd' ? WG_DOUBLETYPE : j.t == 's' ? WG_STRTYPE : WG_RECORDTYPE;
  if (t != want) violate("content", "%s is stored with type %d instead of %d", at.c_str(), t, want);
  if (j.t == 'i' && wg_decode_int(db, e) != j.i) violate("content", "%s is stored as %lld instead of %lld", at.c_str(), (long long)wg_decode_int(db, e), (long long)j.i);
  if (j.t == 'd' && wg_decode_double(db, e) != j.d) violate("content", "%s is stored as %.17g instead of %.17g", at.c_str(), wg_decode_double(db, e), j.d);
  if (j.t == 's') { std::string s = wg_decode_str(db, e); if (s != j.s) violate("content", "%s is stored as a string of %zu bytes instead of %zu", at.c_str(), s.size(), j.s.size()); }
  if (j.t == 'a' || j.t == 'o') walk(db, wg_decode_record(db, e), j, false, false, seen, at);
}
void walk(void* db, void* rec, const J& j, bool top, bool isdoc, std::set<i64>& seen, const std::string& at) {
  if (!seen.insert(off_of(db, rec)).second) violate("content", "%s shares a record with another part", at.c_str());
  if (top && (is_schema_document(rec) != 0) != isdoc) violate("content", "%s is %smarked as a document", at.c_str(), isdoc ? "not " : ""); if (!top && is_schema_document(rec)) violate("content", "%s is marked as a document of its own", at.c_str());
  size_t n = j.t == 'a' ? j.a.size() : j.o.size(); if ((j.t == 'a') != (is_schema_array(rec) != 0) || (j.t == 'o') != (is_schema_object(rec) != 0)) violate("content", "%s is not stored as %s", at.c_str(), j.t == 'a' ? "an array" : "an object");
  if (wg_get_record_len(db, rec) != (i64)n) violate("content", "%s has %lld elements instead of %zu", at.c_str(), (long long)wg_get_record_len(db, rec), n);
  for (size_t k = 0; k < n; k++) { i64 e = wg_get_field(db, rec, k); std::string a2 = at + (j.t == 'a' ? "[" + std::to_string(k) + "]" : "." + j.o[k].first.substr(0, 20));
    if (j.t == 'a') { cmp(db, e, j.a[k], seen, a2); continue; }
    if (wg_get_encoded_type(db, e) != WG_RECORDTYPE) violate("content", "%s is not a key-value pair", a2.c_str()); void* kv = wg_decode_record(db, e); if (!seen.insert(off_of(db, kv)).second) violate("content", "%s shares a record with another part", a2.c_str()); if (wg_get_record_len(db, kv) != 3 || wg_get_field(db, kv, 0)) violate("content", "%s is not a key-value pair", a2.c_str());
    i64 ke = wg_get_field(db, kv, 1); if (wg_get_encoded_type(db, ke) != WG_STRTYPE) violate("content", "%s has no key", a2.c_str()); std::string ks = wg_decode_str(db, ke); if (ks != j.o[k].first) violate("content", "%s: a key of %zu bytes is stored with %zu bytes", a2.c_str(), j.o[k].first.size(), ks.size());
    cmp(db, wg_get_field(db, kv, 2), j.o[k].second, seen, a2); }
}
void same(const J& a, const J& b, const std::string& at) { // printed b, stored a
  if (a.t == 'd' && (b.t == 'd' || b.t == 'i')) { double v = b.t == 'd' ? b.d : (double)b.i; if (fabs(v - a.d) > 1e-6 + fabs(a.d) * 1e-15) violate("print", "%s is printed as %.17g instead of %.17g", at.c_str(), v, a.d); return; }
  if (a.t != b.t || a.i != b.i || a.s != b.s || a.a.size() != b.a.size() || a.o.size() != b.o.size()) violate("print", "%s is printed differently (type %c as %c, %lld as %lld, %zu/%zu/%zu as %zu/%zu/%zu)", at.c_str(), a.t, b.t, (long long)a.i, (long long)b.i, a.s.size(), a.a.size(), a.o.size(), b.s.size(), b.a.size(), b.o.size());
  for (size_t k = 0; k < a.a.size(); k++) same(a.a[k], b.a[k], at + "[" + std::to_string(k) + "]"); for (size_t k = 0; k < a.o.size(); k++) { if (a.o[k].first != b.o[k].first) violate("print", "%s: a key is printed differently", at.c_str()); same(a.o[k].second, b.o[k].second, at + "." + a.o[k].first.substr(0, 20)); }
}
std::string printed[MAXPROC];
void pcb(void* ctx, const char* s, size_t n) { (*(std::string*)ctx).append(s, n); }
void print_doc(void* db, const Doc& d) {
  std::string& o = printed[G.cur->proc]; o.clear(); u64 m = mem_mark(), a; void* p = ptr_of(db, d.off); wg_print_json_document(db, (void*)pcb, &o, p); if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "printing a document left private memory allocated (%s)", mem_describe(a).c_str());
  if (!d.isdoc) { if (!o.empty()) violate("print", "a fragment was printed as a document"); return; }
  J j; P q(o); if (!q.doc(&j)) violate("print", "a printed document is not valid JSON: %s", o.substr(0, 200).c_str()); same(d.j, j, "the document");
}
std::set<i64> scan(void* db) { std::set<i64> s; for (void* p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { if (!s.insert(off_of(db, p)).second || s.size() > 20000) violate("scan", "scanning the records never ends"); } return s; }
i64 kidx; // an index on the keys
bool index_ok(void* db, const std::set<i64>& got, int max, std::string& why) {
  if (!kidx) return true; std::map<std::string, std::multiset<i64>> by; for (i64 o : got) { void* p = ptr_of(db, o); if (wg_get_record_len(db, p) > 1) { i64 e = wg_get_field(db, p, 1); if (wg_get_encoded_type(db, e) == WG_STRTYPE) by[wg_decode_str(db, e)].insert(o); } }
  int n = 0; for (auto& k : by) { if (++n > max) break; wg_query_arg a; a.column = 1; a.cond = WG_COND_EQUAL; a.value = wg_encode_query_param_str(db, (char*)k.first.c_str(), nullptr); wg_query* q = wg_make_query(db, nullptr, 0, &a, 1); std::multiset<i64> g; void* p; if (q) while ((p = wg_fetch(db, q))) g.insert(off_of(db, p)); bool ok = q && g == k.second; if (q) wg_free_query(db, q); wg_free_query_param(db, a.value); if (!ok) { why = "the index on the keys finds " + std::to_string(g.size()) + " of " + std::to_string(k.second.size()) + " records with the key '" + k.first.substr(0, 60) + "'"; return false; } }
  return true;
}
void verify_docs(void* db, const char* when) {
  bool nf = G.cur->nofault; G.cur->nofault = true; std::set<i64> want = garbage; for (auto& d : docs) { std::set<i64> seen; walk(db, ptr_of(db, d.second.off), d.second.j, true, d.second.isdoc, seen, "the document"); if (seen != d.second.recs) violate("content", "%s: a document now consists of other records", when); for (i64 o : seen) if (!want.insert(o).second) violate("content", "%s: documents share a record", when); }
  std::set<i64> got = scan(db); for (i64 o : got) if (!want.count(o)) violate("leftover", "%s: a record exists that belongs to no document", when); for (i64 o : want) if (!got.count(o)) violate("missing", "%s: a record is missing from the scan", when);
  std::string why; if (!index_ok(db, got, 4, why)) violate("index", "%s: %s", when, why.c_str());
  audit_alloc(db, nullptr); G.cur->nofault = nf;
}
void arm_json() { static const Fault k[] = {F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_MALLOC, F_OPEN_ERR, F_SEGALLOC, F_MALLOC, F_SEGALLOC}; Fault f = k[choose(SF, 8)]; arm(f, choose(SF, choose(SF, 2) ? 3 : 30), choose(SF, 20000), choose(SF, 4) ? 1 : 1 + choose(SF, 50), G.cur->proc); }
bool logged; // the database has a journal
void arm_jrnl() { static const Fault k[] = {F_WRITE_ERR, F_WRITE_SHORT, F_WRITE_EINTR, F_OPEN_ERR}; arm(k[choose(SF, 4)], choose(SF, choose(SF, 2) ? 3 : 30), choose(SF, 20000), choose(SF, 4) ? 1 : 1 + choose(SF, 50), G.cur->proc); }
void accept(void* db, void* rec, const J& j, bool isdoc, const std::set<i64>& before, const char* how) {
  if (!rec) { std::set<i64> now = scan(db); std::vector<void*> c; for (i64 o : now) if (!before.count(o) && is_schema_document(ptr_of(db, o))) c.push_back(ptr_of(db, o)); if (c.size() != 1) violate("lost", "%s reports success but %zu documents were stored", how, c.size()); rec = c[0]; }
  Doc d; d.off = off_of(db, rec); d.j = j; d.isdoc = isdoc; walk(db, rec, j, true, isdoc, d.recs, "the document"); for (i64 o : d.recs) if (before.count(o)) violate("content", "a new document contains an old record"); std::set<i64> now = scan(db); if (now.size() != before.size() + d.recs.size()) violate("leftover", "%s stored %zu records, the document has %zu", how, now.size() - before.size(), d.recs.size()); docs[nextdoc++] = d;
}
void store(void* db, bool faults) {
  G.cur->nofault = true; int deep = choose(SW, 6); int depth = deep == 5 ? 5 + choose(SW, 5) : 1 + choose(SW, 4); J j; do j = gval(depth, deep == 5 ? 3 : 2 + choose(SW, 5)); while (!choose(SW, 3) && j.t != 'a' && j.t != 'o'); if (deep == 5 && choose(SW, 2)) { J in = j; for (int k = depth_of(j); k < 6; k++) { J o; if (choose(SW, 3)) { o.t = 'o'; o.o.push_back({gstr(90), in}); } else { o.t = 'a'; o.a.push_back(in); } in = o; } j = in; }
  std::string s; int st = choose(SW, 3); text(j, st, s); int mode = choose(SW, 5); std::string what = "valid";
  bool file = mode >= 2; if (file && choose(SW, 2)) { u64 k = 16384 * (1 + choose(SW, 3)), sz = k + choose(SW, 5) - 2; if (!choose(SW, 2)) sz = k; if (s.size() < sz) { size_t at = choose(SW, 3) == 1 ? s.size() : 0; if (choose(SW, 3) == 1 && j.t == 'a') { J e; e.t = 's'; size_t need = sz - s.size(); if (need > 6) { e.s.assign(need - 3, 'z'); j.a.insert(j.a.begin(), e); size_t b = s.find('['); bool first = j.a.size() == 1; s.insert(b + 1, "\"" + e.s + (first ? "\" " : "\",")); } } else s.insert(at, std::string(sz - s.size(), ' ')); probe("files that end at a buffer boundary"); } }
  if (choose(SW, 3) == 1 && s.size() > 1) { u64 c = choose(SW, 5); size_t at = choose(SW, s.size()); if (c == 0) { s.resize(at); what = "cut"; } else { static const char* st2 = "{}[]:,\"x1 -."; if (c == 1) { s.erase(at, 1); what = "with a byte missing"; } else if (c == 2) { s.insert(at, 1, st2[choose(SW, 12)]); what = "with an extra byte"; } else if (c == 3) { s += st2[choose(SW, 9)]; what = "with trailing garbage"; } else { s[at] = st2[choose(SW, 12)]; what = "with a wrong byte"; } } }
  if (!choose(SW, 40)) { s = ""; what = "empty"; } if (!choose(SW, 40)) { s = "\"\\u0000x\""; s = "[" + s + "]"; what = "with a zero character"; }
  J e; P q(s); bool valid = q.doc(&e) && (e.t == 'a' || e.t == 'o'), unsup = q.unsup; if (s.find('\0') != std::string::npos) unsup = true;
  for (size_t k = 0; k < s.size(); k++) if ((unsigned char)s[k] >= 0x80 && what != "valid") { unsup = true; break; } // broken UTF-8 may be refused
  bool boolean = false; { size_t n = 0; (void)n; if (unsup && (s.find("true") != std::string::npos || s.find("false") != std::string::npos)) boolean = true; }
  int dep = valid ? depth_of(e) : 0; bool mayrefuse = unsup || dep > 6; if (boolean) return;
  std::set<i64> before = scan(db); u64 m = mem_mark(), a; int fd0 = open_files(); bool frag = mode == 1; void* rec = nullptr; wg_int rc; char fn[40]; snprintf(fn, sizeof fn, "/tmp/j%d.json", G.cur->proc); char* buf = nullptr;
  if (mode < 2) { buf = (char*)hmalloc(G.cur->proc, s.size() + 1); memcpy(buf, s.c_str(), s.size() + 1); m = mem_mark(); } else fs_put(fn, s);
  if (faults && choose(SF, 3) == 1) { if (logged && choose(SF, 3) == 1) arm_jrnl(); else arm_json(); } G.cur->nofault = false;
  const char* how = mode == 0 ? "parsing a document" : frag ? "parsing a fragment" : "parsing a file"; EV(0x6001, mode, s.size(), "  %s of %zu bytes (%s)%s", how, s.size(), what.c_str(), s.size() < 200 ? (": " + s).c_str() : "");
  if (mode == 0) rc = wg_parse_json_document(db, buf, choose(SW, 4) == 1 ? nullptr : &rec); else if (frag) rc = wg_parse_json_fragment(db, buf, &rec); else rc = wg_parse_json_file(db, fn);
  bool f = any_fired(); disarm_all(); G.cur->nofault = true; EV(0x6002, rc, f, "  returns %lld%s", (long long)rc, f ? " after an injected fault" : ""); ndone++;
  if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "%s%s left private memory allocated (%s)", how, rc ? " that failed" : "", mem_describe(a).c_str()); if (open_files() != fd0) violate("descriptor-leak", "%s left a file open", how);
  if (!rc) { if (!valid) violate("accepted", "%s (%s) reports success although it is not valid JSON", how, what.c_str()); if (frag && !rec) violate("lost", "%s gave no record", how); if (unsup) { std::set<i64> now = scan(db); for (i64 o : now) if (!before.count(o)) garbage.insert(o); return; } accept(db, rec, e, !frag, before, how); probe("documents stored"); }
  else { nfail++; if (valid && !f && !mayrefuse && !tight) violate("refused", "%s of valid text failed with %lld", how, (long long)rc); if (valid && !f && !mayrefuse && tight && wg_database_freesize(db) > 300000) violate("refused", "%s of valid text failed with %lld although there is space", how, (long long)rc); std::set<i64> now = scan(db); if (rc == -1 && now != before) violate("leftover", "%s failed with -1 but changed the database", how); if (mode >= 2 && !valid && !unsup && now != before) violate("leftover", "%s refused a file (%s) but changed the database", how, what.c_str()); for (i64 o : before) if (!now.count(o)) violate("missing", "%s failed and removed a record", how); for (i64 o : now) if (!before.count(o)) garbage.insert(o); if (rc == -2 && (f || tight)) { std::string why; if (!index_ok(db, now, 1000, why)) end_run("an index insertion failed"); } if (!f && !valid) probe("invalid texts refused"); if (f) probe("texts refused after a fault"); }
  if (mode < 2) { G.cur->nofault = true; bool c0 = wg_check_json(db, buf) == 0; if (!unsup && dep != 7 && c0 != (valid && dep <= 6)) violate("check", "the syntax check %s text that is %s", c0 ? "accepts" : "refuses", valid ? "valid" : "not valid"); sim_free_ext(buf); }
}
void param(void* db, bool keep) { // query parameters are no data
  J j; do j = gval(3, 4); while (j.t != 'a' && j.t != 'o'); if (depth_of(j) > 6) return; std::string s; text(j, 0, s); std::set<i64> before = scan(db); void* rec = nullptr; EV(0x6003, keep, 0, "  parse a parameter: %s", s.substr(0, 200).c_str()); G.cur->nofault = true; wg_int rc = wg_parse_json_param(db, s.c_str(), &rec); ndone++;
  if (rc) { if (!tight) violate("refused", "parsing a valid parameter failed with %lld", (long long)rc); tight = true; end_run("no space for a parameter"); } std::set<i64> seen; walk(db, rec, j, true, true, seen, "the parameter"); if (scan(db) != before) violate("leftover", "a parameter shows up among the records"); if (keep) return; rc = wg_delete_document(db, rec); if (rc) violate("delete", "deleting a parameter failed with %lld", (long long)rc); 
}
// ---- JSON-style queries
i64 hidx; u64 nquery;
void jquery(void* db, bool writing, bool faults) {
  bool nf0 = G.cur->nofault; G.cur->nofault = true; int n = 1 + choose(SW, choose(SW, 2) ? 1 : 4); std::vector<std::pair<std::string, J>> a; std::vector<wg_json_query_arg> args(n); std::vector<void*> recs; std::string d; std::vector<KV> from;
  if (!docs.empty()) { auto it = docs.begin(); std::advance(it, choose(SW, docs.size())); kvs(it->second.j, from); if (choose(SW, 8) == 1) { std::vector<KV> fk; fakes(it->second.j, fk); if (!fk.empty()) from = fk; } }
  for (int k = 0; k < n; k++) {
    if (k && choose(SW, 3) == 1 && !docs.empty()) { from.clear(); auto it = docs.begin(); std::advance(it, choose(SW, docs.size())); kvs(it->second.j, from); }
    std::string key = gstr(300); J v; if (!from.empty() && choose(SW, 5)) { auto& x = from[choose(SW, from.size())]; key = x.k; v = *x.v; if (v.t == 'a' && !v.a.empty() && choose(SW, 3)) { J e = v.a[choose(SW, v.a.size())]; v = e; } else if (choose(SW, 6) == 1) v = gval(1, 3); } else v = gval(2, 3);
    bool rec = v.t == 'a' || v.t == 'o'; if (rec && (!writing || depth_of(v) > 3)) { v = J(); v.t = 's'; v.s = gstr(50); rec = false; }
    args[k].key = wg_encode_query_param_str(db, (char*)key.c_str(), nullptr);
    switch (v.t) { case 'n': args[k].value = wg_encode_query_param_null(db, nullptr); break; case 'i': args[k].value = wg_encode_query_param_int(db, v.i); break; case 'd': args[k].value = wg_encode_query_param_double(db, v.d); break; case 's': args[k].value = wg_encode_query_param_str(db, (char*)v.s.c_str(), nullptr); break;
      default: { std::string s; text(v, 0, s); void* r = nullptr; wg_int rc = wg_parse_json_param(db, s.c_str(), &r); if (rc) { if (!tight) violate("refused", "parsing a valid parameter failed with %lld", (long long)rc); end_run("no space for a parameter"); } recs.push_back(r); args[k].value = wg_encode_query_param_record(db, r); } }
    if (args[k].key == WG_ILLEGAL || args[k].value == WG_ILLEGAL) violate("query-param", "a query parameter could not be encoded"); std::string s; if (rec || v.t == 's' || v.t == 'n') text(v, 0, s); else text(v, 0, s); d += " \"" + key.substr(0, 40) + "\":" + s.substr(0, 60); a.push_back({key, v});
  }
  std::set<i64> want; for (auto& x : docs) if (x.second.isdoc) { bool m = true; for (auto& y : a) m = m && matches(x.second.j, y.first, y.second); if (m) want.insert(x.second.off); }
  u64 m = mem_mark(), ad; if (faults && choose(SF, 2)) arm(F_MALLOC, choose(SF, choose(SF, 2) ? 6 : 30), 0, choose(SF, 4) ? 1 : 1 + choose(SF, 20), G.cur->proc); G.cur->nofault = false;
  EV(0x6005, n, want.size(), "  JSON query%s", d.c_str()); wg_query* q = wg_make_json_query(db, args.data(), n); bool f = any_fired(); disarm_all(); G.cur->nofault = true; nquery++;
  if (!q) { if (!f) violate("query", "a JSON query%s failed although nothing was in its way", d.c_str()); probe("JSON queries that failed after a fault"); }
  else {
    std::vector<i64> got; void* p; while ((p = wg_fetch(db, q))) { got.push_back(off_of(db, p)); if (got.size() > 5000) violate("query", "a JSON query%s returns rows without end", d.c_str()); } if (wg_fetch(db, q)) violate("query", "a finished JSON query returns another row"); if (q->res_count != (i64)got.size()) violate("query-count", "a JSON query%s reports %lld rows and returns %zu", d.c_str(), (long long)q->res_count, got.size());
    std::set<i64> s(got.begin(), got.end()); if (s.size() != got.size()) violate("query-duplicate", "a JSON query%s returns a document twice", d.c_str()); for (i64 o : want) if (!s.count(o)) violate("query-missing", "a JSON query%s returns %zu of %zu documents%s", d.c_str(), s.size(), want.size(), f ? " after a memory allocation failed" : ""); for (i64 o : s) if (!want.count(o) && !garbage.count(o)) violate("query-extra", "a JSON query%s returns a record that does not match", d.c_str());
    if (!want.empty()) probe("JSON queries that found documents"); if (hidx) probe("JSON queries with a hash index"); if (n > 1) probe("JSON queries with several arguments"); wg_free_query(db, q);
  }
  for (auto& x : args) { wg_free_query_param(db, x.key); wg_free_query_param(db, x.value); } for (void* r : recs) if (wg_delete_document(db, r)) violate("delete", "deleting a parameter failed");
  if (mem_live_since(m, G.cur->proc, &ad)) violate("memory-leak", "a JSON query%s left private memory allocated (%s)", q ? "" : " that failed", mem_describe(ad).c_str()); G.cur->nofault = nf0;
}
void plain_rec(void* db) { // an ordinary record that looks like a key-value pair
  G.cur->nofault = true; std::vector<KV> from; if (!docs.empty()) kvs(docs.begin()->second.j, from); void* r = wg_create_record(db, 3 + choose(SW, 2)); if (!r) { if (!tight) violate("refused", "creating a record failed"); return; } J v; v.t = 'i'; v.i = choose(SW, 5); std::string k = gstr(60); if (!from.empty() && choose(SW, 4)) { auto& x = from[choose(SW, from.size())]; k = x.k; v = *x.v; }
  i64 e = wg_encode_str(db, (char*)k.c_str(), nullptr), w = v.t == 'i' ? wg_encode_int(db, v.i) : v.t == 's' ? wg_encode_str(db, (char*)v.s.c_str(), nullptr) : wg_encode_null(db, 0); if (e != WG_ILLEGAL && w != WG_ILLEGAL && !wg_set_field(db, r, 1, e)) wg_set_field(db, r, 2, w); else if (!tight) violate("refused", "storing a value failed"); garbage.insert(off_of(db, r)); nplain++; EV(0x6006, 0, 0, "  create an ordinary record");
}
void modify(void* db) { // replace a literal somewhere in a document
  G.cur->nofault = true; if (docs.empty()) return; auto it = docs.begin(); std::advance(it, choose(SW, docs.size())); J* j = &it->second.j; void* rec = ptr_of(db, it->second.off);
  for (int lev = 0; lev < 12; lev++) { size_t n = j->t == 'a' ? j->a.size() : j->o.size(); if (!n) return; size_t k = choose(SW, n); void* at = rec; int col = k; J* c = j->t == 'a' ? &j->a[k] : &j->o[k].second; if (j->t == 'o') { at = wg_decode_record(db, wg_get_field(db, rec, k)); col = 2; }
    if (c->t == 'a' || c->t == 'o') { rec = wg_decode_record(db, wg_get_field(db, at, col)); j = c; continue; }
    J v = gval(0, 2); std::string s; text(v, 0, s); i64 w = v.t == 'i' ? wg_encode_int(db, v.i) : v.t == 's' ? wg_encode_str(db, (char*)v.s.c_str(), nullptr) : v.t == 'd' ? wg_encode_double(db, v.d) : wg_encode_null(db, 0); EV(0x6007, lev, 0, "  replace a value at depth %d by %s", lev, s.substr(0, 60).c_str()); if (w == WG_ILLEGAL) { if (!tight) violate("refused", "storing a value failed"); return; }
    wg_int rc = wg_set_field(db, at, col, w); ndone++; if (rc) { if (!tight) violate("refused", "replacing a value failed with %lld", (long long)rc); nfail++; end_run("no space for an index entry"); } *c = v; probe("values replaced in a document"); return; }
}
void del(void* db, int id) {
  Doc d = docs[id]; if (!d.isdoc && choose(SW, 2)) { G.cur->nofault = true; return; } EV(0x6004, id, 0, "  delete a document of %zu records, depth %d", d.recs.size(), depth_of(d.j)); G.cur->nofault = true;
  bool armed = logged && choose(SF, 4) == 1; if (armed) { arm_jrnl(); G.cur->nofault = false; }
  wg_int rc = wg_delete_document(db, ptr_of(db, d.off)); ndone++; bool fired = armed && any_fired(); G.cur->nofault = true; if (armed) disarm_all();
  if (rc && fired && d.isdoc) { nfail++; scan(db); audit_alloc(db, nullptr); probe("deletions that failed"); end_run("a document could not be deleted completely"); }
  if (!d.isdoc) { if (!rc) violate("delete", "a fragment was deleted as a document"); return; }
  if (rc) violate("delete", "deleting a document failed with %lld", (long long)rc); docs.erase(id); std::set<i64> now = scan(db); for (i64 o : d.recs) if (now.count(o)) violate("leftover", "deleting a document left a part of it behind"); probe("documents deleted");
}
std::string canon(void* db, void* rec, int lev) { // what a replayed database says
  if (lev > 40) return "deep"; std::string s = std::string(is_schema_document(rec) ? "D" : "") + (is_schema_array(rec) ? "[" : is_schema_object(rec) ? "{" : "("); i64 n = wg_get_record_len(db, rec);
  for (i64 k = 0; k < n; k++) { i64 e = wg_get_field(db, rec, k); int t = wg_get_encoded_type(db, e); if (t == WG_RECORDTYPE) s += canon(db, wg_decode_record(db, e), lev + 1); else { Val v = dec_val(db, e); s += v.str() + ":" + std::to_string(std::hash<std::string>()(v.s)); } s += ","; } return s + ")";
}
std::multiset<std::string> canon_all(void* db) { std::multiset<std::string> r; for (i64 o : scan(db)) { void* p = ptr_of(db, o); if (is_schema_document(p) || !wg_get_first_parent(db, p)) r.insert(canon(db, p, 0)); } return r; }
}
SCENARIO(json) {
  world_reset(); docs.clear(); nextdoc = 1; garbage.clear(); ndone = nfail = nplain = nquery = 0; kidx = hidx = 0; bool c16 = OPT["property"] == "C16" || OPT["property"] == "C15"; bool c05 = OPT["property"] == "C05"; sched_config(1); G.maxfairgap = 200000;
  static const i64 sizes[] = {1500000, 4000000, 500000}; i64 size = sizes[choose(SW, 3)]; tight = size == 500000; bool journal = logged = choose(SW, 3) == 1, faults = !c05 && choose(SF, 2), keep = false; if (size == 1500000) tight = true; static RWatch RW;
  void* db0 = journal ? wg_attach_logged_database("100", size) : wg_attach_database("100", size); if (!db0) return; G.cur->nofault = true; std::map<std::string, i64> base; audit_alloc(db0, &base);
  if (choose(SW, 3) == 1) { if (wg_create_index(db0, 1, WG_INDEX_TYPE_TTREE, nullptr, 0)) violate("index", "creating an index failed"); bool ok; auto v = index_ids(db0, &ok); kidx = v[0]; }
  if (choose(SW, 3) == 1) { wg_int cols[2] = {1, 2}; if (wg_create_multi_index(db0, cols, 2, WG_INDEX_TYPE_HASH_JSON, nullptr, 0)) { if (size != 500000) violate("index", "creating a JSON index failed"); } else hidx = 1; } audit_alloc(db0, &base);
  int ncl = 1 + choose(SW, 3), rounds = 2 + choose(SW, 6); std::vector<int> ids; RW.start(100); u64 prints = 0;
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed");
    for (int r = 0; r < rounds; r++) {
      bool rd = choose(SW, c05 ? 2 : 4) == 1;
      if (rd) { i64 l = wg_start_read(db); if (!l) continue; EV(0x1001, i, 0, "client %d reads", i); RW.begin("reads documents"); for (auto& d : docs) if (choose(SW, 2)) { std::set<i64> seen; walk(db, ptr_of(db, d.second.off), d.second.j, true, d.second.isdoc, seen, "the document"); print_doc(db, d.second); prints++; } if (c16 || choose(SW, 3) == 1) for (u64 k = 1 + choose(SW, c16 ? 5 : 2); k--;) jquery(db, false, choose(SF, 3) == 1); RW.end(); wg_end_read(db, l); continue; }
      i64 l = wg_start_write(db); if (!l) continue; EV(0x1002, i, 0, "client %d writes", i); int n = 1 + choose(SW, 4);
      while (n--) { u64 k = choose(SW, c16 ? 14 : 10); if (k >= 10) jquery(db, true, faults); else if (k == 9) { if (choose(SW, 2)) modify(db); else plain_rec(db); } else if (k == 8) jquery(db, true, faults); else if (k == 7 && !docs.empty()) { auto it = docs.begin(); std::advance(it, choose(SW, docs.size())); del(db, it->first); } else if (k == 6) { bool kp = choose(SW, 4) == 1; if (kp) keep = true; param(db, kp); } else if (docs.size() < 12) store(db, faults); else del(db, docs.begin()->first); G.cur->nofault = true; disarm_all(); }
      if (choose(SW, 3) == 1) verify_docs(db, "after a transaction"); wg_end_write(db, l);
    }
    wg_detach_database(db);
  }));
  wait_tasks(ids); RW.stop(); disarm_all(); G.cur->nofault = true; verify_docs(db0, "at the end"); for (auto& d : docs) print_doc(db0, d.second); size_t nd = docs.size();
  if (journal && !(faults && nfail)) { // the journal alone rebuilds the same documents
    std::multiset<std::string> want = canon_all(db0); char jn[200]; wg_journal_filename(db0, jn, sizeof jn); size_t cnt = scan(db0).size(); int id = spawn(6, "recovery", [&] { G.cur->nofault = true; void* d = wg_attach_database("200", size); if (!d) violate("attach", "attach failed"); wg_int r = wg_replay_log(d, jn); if (r) violate("replay", "replaying a journal of JSON documents failed with %lld", (long long)r); if (scan(d).size() != cnt) violate("replay", "after replaying the journal %zu records exist instead of %zu", scan(d).size(), cnt); std::multiset<std::string> got = canon_all(d); if (got != want) { for (auto& g : got) if (!want.count(g)) violate("replay", "a document differs after replaying the journal: %s", g.substr(0, 200).c_str()); violate("replay", "a document is missing after replaying the journal"); } wg_detach_database(d); }); wait_tasks({id}); probe("journals of documents replayed");
  }
  while (!docs.empty()) { auto it = docs.begin(); std::advance(it, choose(SW, docs.size())); if (!it->second.isdoc) { for (i64 o : it->second.recs) garbage.insert(o); docs.erase(it); continue; } del(db0, it->first); } verify_docs(db0, "after deleting every document");
  std::map<std::string, i64> u; audit_alloc(db0, &u); if (garbage.empty() && !keep && !nfail) for (auto& e : u) if (e.second != base[e.first] && e.first != "tree node") violate("leak", "after all documents were deleted %lld of the %s area are still in use", (long long)(e.second - base[e.first]), e.first.c_str());
  if (ndone + nquery > 2) nontrivial(); probe("json operations", ndone); probe("JSON queries", nquery); probe("json operations that failed", nfail); g_sample = std::to_string(ncl) + " clients, " + std::to_string(ndone) + " operations of which " + std::to_string(nfail) + " failed, " + std::to_string(prints) + " documents printed, " + std::to_string(nd) + " documents at the end" + (journal ? ", journal" : "");
}
