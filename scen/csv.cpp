// C20: CSV import and export: every complete row arrives, failures are reported, whatever the stream does.
#include "watch.h"
#include "valtext.h"
extern "C" { void wg_export_db_csv(void* db, const char* filename); wg_int wg_import_db_csv(void* db, const char* filename); }
namespace {
std::string gcsv(std::string& what) {
  std::string t; int rows = choose(SW, 3) ? choose(SW, 8) : choose(SW, 60), q = choose(SW, 3); bool crlf = choose(SW, 3) == 1; what = "well-formed";
  for (int r = 0; r < rows; r++) { int n = choose(SW, 6) ? 1 + choose(SW, 5) : 1 + choose(SW, 45); for (int c = 0; c < n; c++) { std::string f = gtext(); if (c) t += ','; if (needq(f) || q == 2 || (q == 1 && choose(SW, 2))) { t += '"'; for (char x : f) { if (x == '"') t += '"'; t += x; } t += '"'; } else t += f; } if (r + 1 < rows || choose(SW, 3)) t += crlf ? "\r\n" : "\n"; if (!choose(SW, 10) && r + 1 < rows) t += "\n"; }
  if (!choose(SW, 12)) { t += "\"never closed, "; what = "with an open quote"; }
  return t;
}
std::string text_of(void* db, i64 e, bool* any) { // what an exported field says
  char b[400]; *any = false; switch (wg_get_encoded_type(db, e)) { case WG_NULLTYPE: return ""; case WG_INTTYPE: return std::to_string(wg_decode_int(db, e)); case WG_DOUBLETYPE: snprintf(b, sizeof b, "%f", wg_decode_double(db, e)); return b; case WG_FIXPOINTTYPE: snprintf(b, sizeof b, "%f", wg_decode_fixpoint(db, e)); return b;
    case WG_STRTYPE: return wg_decode_str(db, e); case WG_XMLLITERALTYPE: return wg_decode_xmlliteral(db, e); case WG_URITYPE: { char* p = wg_decode_uri_prefix(db, e); return std::string(p ? p : "") + wg_decode_uri(db, e); } case WG_CHARTYPE: return std::string(1, (char)wg_decode_char(db, e));
    case WG_DATETYPE: { int y, m, d; wg_date_to_ymd(db, wg_decode_date(db, e), &y, &m, &d); snprintf(b, sizeof b, "%04d-%02d-%02d", y, m, d); return b; } case WG_TIMETYPE: { i64 t = wg_decode_time(db, e); snprintf(b, sizeof b, "%02d:%02d:%02d.%02d", (int)(t / 360000), (int)(t / 6000 % 60), (int)(t / 100 % 60), (int)(t % 100)); return b; }
    default: *any = true; return ""; }
}
u64 nimp, nexp, nfail; bool tight; std::map<i64, Row> imported; // by offset
bool fits(const Row& got, const Row& want) { if (got.size() != want.size()) return false; for (size_t k = 0; k < got.size(); k++) if (!(got[k] == want[k]) && got[k].t != WG_NULLTYPE) return false; return true; }
void stale_errno() { static const int e[] = {0, ERANGE, EINVAL, ENOENT, EINTR}; errno = e[choose(SW, 5)]; }
void do_import(void* db, const std::string& text, const std::string& what, bool faults, const char* fn, bool other = false) { bool tight = ::tight && !other;
  std::vector<std::vector<std::string>> raw; bool closed = parse(text, raw); std::vector<Row> want; for (auto& r : raw) { Row w; for (auto& f : r) w.push_back(guess(f)); want.push_back(w); }
  std::vector<i64> b4 = scan(db); std::set<i64> before(b4.begin(), b4.end()); fs_put(fn, text); u64 m = mem_mark(), a; int fd0 = open_files();
  if (faults && choose(SF, 3)) { static const Fault k[] = {F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_MALLOC, F_OPEN_ERR, F_SEGALLOC, F_SEGALLOC, F_READ_ERR}; arm(k[choose(SF, 8)], choose(SF, choose(SF, 2) ? 3 : 40), choose(SF, 5000), choose(SF, 4) ? 1 : 1 + choose(SF, 50), G.cur->proc); }
  EV(0x6101, want.size(), text.size(), "  importing %zu rows in %zu bytes (%s)%s", want.size(), text.size(), what.c_str(), text.size() < 160 ? (": " + text).c_str() : ""); stale_errno(); G.cur->nofault = false; wg_int rc = wg_import_db_csv(db, fn); bool f = any_fired(); disarm_all(); G.cur->nofault = true; errno = 0; nimp++;
  EV(0x6102, rc, f, "  returns %lld%s", (long long)rc, f ? " after an injected fault" : ""); if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "an import%s left private memory allocated (%s)", rc ? " that failed" : "", mem_describe(a).c_str()); if (open_files() != fd0) violate("descriptor-leak", "an import left the file open");
  std::vector<i64> now = scan(db); std::vector<Row> got; std::vector<i64> goto_; for (i64 o : now) if (!before.count(o)) { got.push_back(rowof(db, o)); goto_.push_back(o); if (!other) imported[o] = got.back(); } if (now.size() - got.size() != b4.size()) violate("missing", "an import removed records");
  if (!rc) { if (!closed) violate("accepted", "a file whose last quoted field never ends was imported without an error"); std::multiset<Row> x(got.begin(), got.end()), y(want.begin(), want.end()); if (x != y) { for (auto& r : x) if (!y.count(r)) violate("row", "an import reported success%s but stored a row that is not in the file: %s", f ? " after a fault" : "", show(r).c_str()); for (auto& r : y) if (x.count(r) < y.count(r)) violate("row", "an import reported success%s but a row was not stored: %s", f ? " after a fault" : "", show(r).c_str()); violate("row", "an import stored a row twice"); } probe("rows imported", got.size()); return; }
  nfail++; if (!f && closed && !tight) violate("refused", "importing a well-formed file failed with %lld", (long long)rc);
  if (closed || f || tight) { } else if (got.size() != want.size()) violate("row", "an import of a file with an open quote stored %zu of %zu complete rows", got.size(), want.size());
  std::vector<bool> used(want.size()); bool partial = rc == -2; if (got.size() > want.size()) violate("row", "an import that failed stored more rows than the file has");
  for (auto& g : got) { bool ok = false; for (size_t k = 0; k < want.size() && !ok; k++) if (!used[k] && g == want[k]) { used[k] = true; ok = true; } if (!ok && partial) { for (size_t k = 0; k < want.size() && !ok; k++) if (!used[k] && fits(g, want[k])) { used[k] = true; ok = true; } } if (!ok) violate("row", "an import that failed with %lld stored a row that is not in the file: %s", (long long)rc, show(g).c_str()); }
  if (rc == -1) { std::multiset<Row> x(got.begin(), got.end()), y; for (size_t k = 0; k < got.size(); k++) y.insert(want[k]); if (x != y) violate("row", "an import that stopped reading early skipped a row"); } probe(f ? "imports that failed after a fault" : "imports that failed");
}
void check_export(void* db, const std::string& text) {
  std::vector<std::vector<std::string>> rows; std::vector<i64> recs = scan(db); if (!parse(text, rows)) violate("export", "the exported file has a quoted field that never ends"); size_t k = 0;
  for (i64 o : recs) { void* p = ptr_of(db, o); i64 n = wg_get_record_len(db, p); bool blank = n == 0 || (n == 1 && wg_get_encoded_type(db, wg_get_field(db, p, 0)) == WG_NULLTYPE); if (blank) continue; if (k >= rows.size()) violate("export", "the exported file lacks the record at %lld", (long long)o); auto& r = rows[k++]; if ((i64)r.size() != n) violate("export", "a record of %lld fields was exported with %zu fields", (long long)n, r.size());
    for (i64 c = 0; c < n; c++) { bool any; std::string w = text_of(db, wg_get_field(db, p, c), &any); if (!any && r[c] != w) violate("export", "field %lld of a record, type %d with the text '%s', was exported as '%s'", (long long)c, (int)wg_get_encoded_type(db, wg_get_field(db, p, c)), w.substr(0, 80).c_str(), r[c].substr(0, 80).c_str()); } }
  if (k != rows.size()) violate("export", "the exported file has %zu rows for %zu records", rows.size(), k);
}
std::string do_export(void* db, bool faults, RWatch& RW) {
  char fn[40]; snprintf(fn, sizeof fn, "/tmp/e%d.csv", G.cur->proc); u64 m = mem_mark(), a; int fd0 = open_files(); bool hard = false; fs_put(fn, "old content\n");
  if (faults && choose(SF, 2)) { static const Fault k[] = {F_WRITE_SHORT, F_WRITE_ERR, F_MALLOC, F_OPEN_ERR, F_CLOSE_ERR, F_WRITE_EINTR}; Fault x = k[choose(SF, 6)]; hard = x != F_WRITE_SHORT; arm(x, choose(SF, 6), choose(SF, 5000), choose(SF, 2) ? 1 : 1 + choose(SF, 20), G.cur->proc); }
  EV(0x6103, 0, 0, "  exporting"); G.cur->nofault = false; RW.begin("exports"); wg_export_db_csv(db, fn); RW.end(); bool f = any_fired(); disarm_all(); G.cur->nofault = true; nexp++; if (mem_live_since(m, G.cur->proc, &a)) violate("memory-leak", "an export left private memory allocated (%s)", mem_describe(a).c_str()); if (open_files() != fd0) violate("descriptor-leak", "an export left the file open");
  std::string t = fs_exists(fn) ? fs_get(fn)->data : ""; if (f && hard) { probe("exports with a failure"); return "\""; } check_export(db, t); probe("exports compared"); return t;
}
void own_rows(void* db, bool* full) { // records of other types, to be exported
  int n = 1 + choose(SW, 4); while (n--) { i64 len = 1 + choose(SW, 5); void* r = wg_create_record(db, len); if (!r) { *full = true; return; } imported[off_of(db, r)] = Row();
    for (i64 c = 0; c < len; c++) { bool ok; Val v = gen_simple(); if (v.t == WG_STRTYPE && v.hasx) { v.hasx = false; v.x = ""; } if (v.t == WG_DATETYPE && v.i < 400) v.i += 400; if (v.t == WG_CHARTYPE && choose(SW, 2)) v.i = ",\"\nz'"[choose(SW, 5)]; if (v.t == WG_STRTYPE && !choose(SW, 3)) { v.s = gtext(); } if (v.t == WG_STRTYPE && v.s.empty()) v.s = "e"; std::string bad; for (char x : v.s) if (x == '\r') bad = "r"; if (!bad.empty()) continue; i64 e = enc_val(db, v, &ok); if (!ok) { *full = true; return; } if (wg_set_field(db, r, c, e)) violate("set", "storing a field failed"); } imported[off_of(db, r)] = rowof(db, off_of(db, r)); }
}
}
SCENARIO(csv) {
  world_reset(); W.cfg.longmax = 300; W.cfg.valmask = ~(1u << WG_RECORDTYPE); imported.clear(); nimp = nexp = nfail = 0; sched_config(1); G.maxfairgap = 400000; G.cur->nofault = true;
  static const i64 sizes[] = {4000000, 900000, 350000}; i64 size = sizes[choose(SW, 3)]; tight = size < 4000000; bool faults = choose(SF, 3) > 0; void* db0 = wg_attach_database("100", size); if (!db0) return; std::map<std::string, i64> base, u; audit_alloc(db0, &base); static RWatch RW; RW.start(100);
  int ncl = 1 + choose(SW, 3), rounds = 1 + choose(SW, 5); std::vector<int> ids; bool full = false; u64 roundtrips = 0;
  for (int i = 0; i < ncl; i++) ids.push_back(spawn(1 + i, ("client " + std::to_string(i)).c_str(), [&, i] {
    G.cur->nofault = true; void* db = wg_attach_existing_database("100"); if (!db) violate("attach", "attach failed"); char fn[40]; snprintf(fn, sizeof fn, "/tmp/i%d.csv", 1 + i);
    for (int r = 0; r < rounds; r++) {
      if (choose(SW, 3) == 1) { i64 l = wg_start_read(db); if (!l) continue; EV(0x1001, i, 0, "client %d exports", i); std::string t = do_export(db, faults, RW); wg_end_read(db, l);
        if (t != "\"" && choose(SW, 2)) { // the file goes into another database
          char key[10]; snprintf(key, sizeof key, "%d", 200 + i); void* d2 = wg_attach_database(key, 4000000); if (!d2) violate("attach", "attach failed"); do_import(d2, t, "exported", false, fn, true); roundtrips++; probe("exports imported again"); wg_detach_database(d2); wg_delete_database(key); } continue; }
      i64 l = wg_start_write(db); if (!l) continue; EV(0x1002, i, 0, "client %d writes", i); int n = 1 + choose(SW, 2);
      while (n--) { if (choose(SW, 3) == 1 && !tight) own_rows(db, &full); else if (imported.size() < 300) { std::string what, t = gcsv(what); do_import(db, t, what, faults, fn); } else { auto it = imported.begin(); std::advance(it, choose(SW, imported.size())); if (wg_delete_record(db, ptr_of(db, it->first))) violate("delete", "deleting a record failed"); imported.erase(it); } }
      for (auto& e : imported) if (!(rowof(db, e.first) == e.second)) violate("row", "an imported row changed: %s", show(rowof(db, e.first)).c_str()); if (scan(db).size() != imported.size()) violate("missing", "the scan finds %zu records instead of %zu", scan(db).size(), imported.size()); audit_alloc(db, &u); wg_end_write(db, l);
    }
    wg_detach_database(db);
  }));
  wait_tasks(ids); RW.stop(); disarm_all(); G.cur->nofault = true;
  while (!imported.empty()) { auto it = imported.begin(); std::advance(it, choose(SW, imported.size())); if (wg_delete_record(db0, ptr_of(db0, it->first))) violate("delete", "deleting a record failed"); imported.erase(it); }
  if (wg_get_first_record(db0)) violate("leftover", "records are left after everything was deleted"); u.clear(); audit_alloc(db0, &u); if (!full) for (auto& e : u) if (e.second != base[e.first] && e.first != "tree node") violate("leak", "after all rows were deleted %lld of the %s area are still in use", (long long)(e.second - base[e.first]), e.first.c_str());
  if (nimp + nexp > 1) nontrivial(); probe("imports", nimp); probe("exports", nexp); g_sample = std::to_string(ncl) + " clients, " + std::to_string(nimp) + " imports of which " + std::to_string(nfail) + " failed, " + std::to_string(nexp) + " exports, " + std::to_string(roundtrips) + " imported again";
}
