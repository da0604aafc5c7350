#include "world.h"
#include <math.h>
#define DEFINED_DBDATA_H
extern "C" {
#include "dbindex.h"
}
World W; i64 g_key = 100;
#define IGN
i64 off_of(void* db, void* p) { return (char*)p - (char*)dbmemseg(db); }
void* ptr_of(void* db, i64 off) { return (char*)dbmemseg(db) + off; }
static std::string esc(const std::string& s) { std::string r; for (unsigned char c : s) { if (r.size() > 60) { r += "..(" + std::to_string(s.size()) + ")"; break; } if (c >= 32 && c < 127) r += c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } } return r; }
std::string Val::str() const {
  static const char* nm[] = {"?", "null", "rec", "int", "double", "str", "xml", "uri", "blob", "char", "fixpoint", "date", "time", "anon", "var"};
  std::string r = (t >= 0 && t <= 14) ? nm[t] : "type" + std::to_string(t); char b[64];
  switch (t) { case WG_NULLTYPE: return r; case WG_RECORDTYPE: return r + "#" + std::to_string(ref); case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: snprintf(b, sizeof b, " %.10g", d); return r + b;
    case WG_STRTYPE: case WG_XMLLITERALTYPE: case WG_URITYPE: case WG_BLOBTYPE: return r + " '" + esc(s) + "'" + (hasx ? "/'" + esc(x) + "'" : ""); default: return r + " " + std::to_string(i); }
}
void world_reset() {
  W.m = Model(); W.cfg = Cfg(); W.mayfail = false; W.inflight = nullptr; W.has_inflight = false; W.version = 0; W.nops = W.nfail = 0; W.corrupt = false;
  W.pool.clear();
  static const char* alpha = "abcdefghijklmnopqrstuvwxyz0123456789 ,.-";
  static const int lens[] = {0, 1, 2, 6, 7, 8, 15, 31, 32, 33, 40, 100, 250, 600};
  for (int k = 0; k < 14; k++) { std::string s; for (int j = 0; j < lens[k]; j++) s += alpha[(j * 7 + k * 3 + j / 11) % 40]; W.pool.push_back(s); }
}
static Val V(int t) { Val v; v.t = t; return v; }
static std::string gen_str() {
  size_t n = W.pool.size(); u64 c = choose(SW, n + 3);
  if (c < n) return W.pool[c];
  std::string s = W.pool[choose(SW, n)]; size_t maxl = W.cfg.longmax; if (s.size() > maxl) s.resize(maxl);
  if (c == n) { s += (char)('a' + choose(SW, 4)); } else if (c == n + 1) { if (!s.empty()) s[choose(SW, s.size())] = 'a' + choose(SW, 26); } else { s = std::string(1 + choose(SW, 45), 'a' + choose(SW, 3)); }
  return s;
}
Val gen_simple() {
  static const int types[] = {WG_NULLTYPE, WG_INTTYPE, WG_STRTYPE, WG_INTTYPE, WG_STRTYPE, WG_DOUBLETYPE, WG_STRTYPE, WG_XMLLITERALTYPE, WG_URITYPE, WG_BLOBTYPE, WG_CHARTYPE, WG_FIXPOINTTYPE, WG_DATETYPE, WG_TIMETYPE, WG_VARTYPE, WG_URITYPE};
  int t; do { t = types[choose(SW, 16)]; } while (!(W.cfg.valmask & (1u << t)) && t != WG_NULLTYPE);
  Val v = V(t);
  switch (t) {
    case WG_INTTYPE: { u64 k = choose(SW, 4); if (k < 2) v.i = (i64)choose(SW, 7) - 3; else { static const i64 b[] = {(1 << 28) - 1, 1 << 28, -(1 << 28), -(1 << 28) - 1, 0x7fffffff, -0x7fffffffLL - 1, 123456789, 0x80000000LL, 0x1234567890LL, -0x1234567890LL, (i64)1 << 60, -((i64)1 << 61)}; v.i = b[choose(SW, W.cfg.bigints ? 12 : 7)] + (k == 3 ? (i64)choose(SW, 3) - 1 : 0); if (!W.cfg.bigints && (v.i > 0x7fffffff || v.i < -0x7fffffffLL - 1)) v.i = 0x7fffffff; } break; }
    case WG_DOUBLETYPE: { static const double b[] = {0, 1.5, -2.25, 1e100, -1e-100, 3.14159265358979, 1e15}; v.d = b[choose(SW, 7)] + (double)choose(SW, 3); break; }
    case WG_FIXPOINTTYPE: v.d = ((double)choose(SW, 1600) - 800.0) / 4.0; break;
    case WG_DATETYPE: v.i = choose(SW, 5) ? 700000 + choose(SW, 5) : choose(SW, 100); break;
    case WG_TIMETYPE: v.i = choose(SW, 4) * 1234567; break;
    case WG_CHARTYPE: v.i = 'a' + choose(SW, 5); break;
    case WG_VARTYPE: v.i = choose(SW, 4); break;
    case WG_STRTYPE: v.s = gen_str(); if (!choose(SW, 4) && W.cfg.valmask & 1) { v.hasx = true; v.x = choose(SW, 4) ? (choose(SW, 2) ? "en" : "et") : "a-rather-long-language-tag-of-many-characters"; } break;
    case WG_XMLLITERALTYPE: v.s = gen_str(); v.hasx = true; v.x = choose(SW, 2) ? "xsd:int" : W.pool[10]; break;
    case WG_URITYPE: v.s = gen_str(); if (choose(SW, 2)) { v.hasx = true; v.x = choose(SW, 2) ? "http://example.org/ns#" : "p"; } break;
    case WG_BLOBTYPE: { int n = 1 + choose(SW, 80); for (int k = 0; k < n; k++) v.s += (char)((k * 37 + n) * (k % 5 ? 1 : 0)); if (choose(SW, 2)) { v.hasx = true; v.x = "image/png"; } break; }
  }
  return v;
}
Val gen_val(int selfid, void*) {
  if (W.cfg.refs && !choose(SW, 4) && !W.m.recs.empty()) {
    auto it = W.m.recs.begin(); std::advance(it, choose(SW, W.m.recs.size()));
    int in = 0; for (auto& r : W.m.recs) for (auto& x : r.second.f) if (x.ref == it->first) in++; // the work per change grows with the number of paths (in-degree ^ depth)
    if (in < (W.cfg.cycles || W.cfg.dupref ? 3 : 8) && (W.cfg.cycles || it->first < selfid)) { Val v = V(WG_RECORDTYPE); v.ref = it->first; return v; } // references go to older records unless cycles are allowed
  }
  return gen_simple();
}
static void* recp(void* db, int id) { return ptr_of(db, W.m.rec(id).off); }
i64 enc_val(void* db, const Val& v, bool* ok) {
  i64 e = WG_ILLEGAL; const char* x = v.hasx ? v.x.c_str() : nullptr; *ok = true;
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_null(db, 0);
    case WG_RECORDTYPE: e = wg_encode_record(db, recp(db, v.ref)); break;
    case WG_INTTYPE: e = wg_encode_int(db, v.i); break; case WG_DOUBLETYPE: e = wg_encode_double(db, v.d); break;
    case WG_FIXPOINTTYPE: e = wg_encode_fixpoint(db, v.d); break; case WG_DATETYPE: e = wg_encode_date(db, v.i); break; case WG_TIMETYPE: e = wg_encode_time(db, v.i); break;
    case WG_CHARTYPE: e = wg_encode_char(db, v.i); break; case WG_VARTYPE: e = wg_encode_var(db, v.i); break;
    case WG_STRTYPE: e = wg_encode_str(db, v.s.c_str(), (char*)x); break; case WG_XMLLITERALTYPE: e = wg_encode_xmlliteral(db, v.s.c_str(), x); break; case WG_URITYPE: e = wg_encode_uri(db, v.s.c_str(), x); break;
    case WG_BLOBTYPE: e = wg_encode_blob(db, v.s.data(), x, v.s.size()); break;
  }
  if (e == WG_ILLEGAL) *ok = false; return e;
}
i64 enc_param(void* db, const Val& v, bool* ok) {
  i64 e = WG_ILLEGAL; char* x = v.hasx ? (char*)v.x.c_str() : nullptr; *ok = true;
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_query_param_null(db, 0); case WG_RECORDTYPE: e = wg_encode_query_param_record(db, recp(db, v.ref)); break;
    case WG_INTTYPE: e = wg_encode_query_param_int(db, v.i); break; case WG_DOUBLETYPE: e = wg_encode_query_param_double(db, v.d); break; case WG_FIXPOINTTYPE: e = wg_encode_query_param_fixpoint(db, v.d); break;
    case WG_DATETYPE: e = wg_encode_query_param_date(db, v.i); break; case WG_TIMETYPE: e = wg_encode_query_param_time(db, v.i); break; case WG_CHARTYPE: e = wg_encode_query_param_char(db, v.i); break; case WG_VARTYPE: e = wg_encode_query_param_var(db, v.i); break;
    case WG_STRTYPE: e = wg_encode_query_param_str(db, (char*)v.s.c_str(), x); break; case WG_XMLLITERALTYPE: e = wg_encode_query_param_xmlliteral(db, (char*)v.s.c_str(), x); break; case WG_URITYPE: e = wg_encode_query_param_uri(db, (char*)v.s.c_str(), x); break;
    default: *ok = false; return e;
  }
  if (e == WG_ILLEGAL) *ok = false; return e;
}
static std::string cstr(const char* p) { if (!p) return "(NULL)"; mem_check_range(p, strlen(p) + 1, false); return p; }
Val dec_val(void* db, i64 e) {
  Val v; v.t = wg_get_encoded_type(db, e); char* x = nullptr;
  switch (v.t) {
    case WG_NULLTYPE: break;
    case WG_RECORDTYPE: { i64 o = off_of(db, wg_decode_record(db, e)); auto it = W.m.byoff.find(o); v.ref = it == W.m.byoff.end() ? -2 : it->second; v.i = 0; break; }
    case WG_INTTYPE: v.i = wg_decode_int(db, e); break; case WG_DOUBLETYPE: v.d = wg_decode_double(db, e); break; case WG_FIXPOINTTYPE: v.d = wg_decode_fixpoint(db, e); break;
    case WG_DATETYPE: v.i = wg_decode_date(db, e); break; case WG_TIMETYPE: v.i = wg_decode_time(db, e); break; case WG_CHARTYPE: v.i = wg_decode_char(db, e); break; case WG_VARTYPE: v.i = wg_decode_var(db, e); break;
    case WG_STRTYPE: v.s = cstr(wg_decode_str(db, e)); x = wg_decode_str_lang(db, e); break;
    case WG_XMLLITERALTYPE: v.s = cstr(wg_decode_xmlliteral(db, e)); x = wg_decode_xmlliteral_xsdtype(db, e); break;
    case WG_URITYPE: v.s = cstr(wg_decode_uri(db, e)); x = wg_decode_uri_prefix(db, e); break;
    case WG_BLOBTYPE: { i64 n = wg_decode_blob_len(db, e); char* p = wg_decode_blob(db, e); if (n < 0 || n > 1000000 || !p) { v.s = "(bad blob)"; break; } mem_check_range(p, n, false); v.s.assign(p, n); x = wg_decode_blob_type(db, e); break; }
  }
  if (x) { v.hasx = true; v.x = cstr(x); }
  return v;
}
extern "C" void sim_free(void*); static void sim_free_copy(void* p) { sim_free(p); }
void check_decode(void* db, i64 e, const Val& v) { // the other ways to read the same value
  typedef wg_int (*Len)(void*, wg_int); typedef wg_int (*Copy)(void*, wg_int, char*, wg_int); Len l, xl; Copy c, xc; bool blob = v.t == WG_BLOBTYPE;
  switch (v.t) { case WG_STRTYPE: l = wg_decode_str_len; xl = wg_decode_str_lang_len; c = wg_decode_str_copy; xc = wg_decode_str_lang_copy; break; case WG_XMLLITERALTYPE: l = wg_decode_xmlliteral_len; xl = wg_decode_xmlliteral_xsdtype_len; c = wg_decode_xmlliteral_copy; xc = wg_decode_xmlliteral_xsdtype_copy; break;
    case WG_URITYPE: l = wg_decode_uri_len; xl = wg_decode_uri_prefix_len; c = wg_decode_uri_copy; xc = wg_decode_uri_prefix_copy; break; case WG_BLOBTYPE: l = wg_decode_blob_len; xl = wg_decode_blob_type_len; c = wg_decode_blob_copy; xc = wg_decode_blob_type_copy; break; default: return; }
  for (int part = 0; part < 2; part++) { const std::string& want = part ? v.x : v.s; bool b0 = blob && !part; if (part && !v.hasx) { if (xl(db, e)) violate("value", "a value without a prefix, type or language reports one of %lld bytes", (long long)xl(db, e)); continue; }
    wg_int n = part ? xl(db, e) : l(db, e); if (n != (i64)want.size()) violate("value", "the length of %s is reported as %lld", v.str().c_str(), (long long)n);
    size_t need = want.size() + (b0 ? 0 : 1), room = need + choose(SW, 3); char* buf = (char*)hmalloc(G.cur->proc, room ? room : 1); n = part ? xc(db, e, buf, room) : c(db, e, buf, room); if (n != (i64)want.size() || memcmp(buf, want.c_str(), need)) violate("value", "copying %s gives another value (%lld)", v.str().c_str(), (long long)n); sim_free_copy(buf);
    if (need > 1) { room = 1 + choose(SW, need - 1); buf = (char*)hmalloc(G.cur->proc, room); n = part ? xc(db, e, buf, room) : c(db, e, buf, room); if (n > 0) violate("value", "copying %s into a buffer of %zu bytes reports %lld", v.str().c_str(), room, (long long)n); sim_free_copy(buf); } }
}
static double sgn(double a) { return a < 0 ? -1 : a > 0; }
int vcmp(const Val& a, const Val& b, int depth) {
  if (a.t != b.t) return a.t > b.t ? 1 : -1;
  switch (a.t) {
    case WG_NULLTYPE: return 0;
    case WG_RECORDTYPE: {
      if (a.ref == b.ref) return 0; auto& x = W.m.rec(a.ref); auto& y = W.m.rec(b.ref);
      if (!depth) return x.off > y.off ? 1 : -1;
      if (x.f.size() != y.f.size()) return x.f.size() > y.f.size() ? 1 : -1;
      for (size_t k = 0; k < x.f.size(); k++) { int c = vcmp(x.f[k], y.f[k], depth - 1); if (c) return c; } return 0; }
    case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: return sgn(a.d - b.d);
    case WG_STRTYPE: { int c = strcmp(a.s.c_str(), b.s.c_str()); return c > 0 ? 1 : c < 0 ? -1 : 0; }
    case WG_XMLLITERALTYPE: case WG_URITYPE: { 
      if (a.hasx || b.hasx) { if (!b.hasx) { if (!a.x.empty()) return 1; } else if (!a.hasx) { if (!b.x.empty()) return -1; } else { int c = strcmp(a.x.c_str(), b.x.c_str()); if (c) return c > 0 ? 1 : -1; } }
      int c = strcmp(a.s.c_str(), b.s.c_str()); return c > 0 ? 1 : c < 0 ? -1 : 0; }
    case WG_BLOBTYPE: { int c = memcmp(a.s.data(), b.s.data(), std::min(a.s.size(), b.s.size())); if (!c) c = (int)a.s.size() - (int)b.s.size(); return c > 0 ? 1 : c < 0 ? -1 : 0; }
    default: return a.i > b.i ? 1 : a.i < b.i ? -1 : 0;
  }
}
bool cond_ok(int cond, int c) {
  switch (cond) { case WG_COND_EQUAL: return c == 0; case WG_COND_NOT_EQUAL: return c != 0; case WG_COND_LESSTHAN: return c < 0; case WG_COND_GREATER: return c > 0; case WG_COND_LTEQUAL: return c <= 0; case WG_COND_GTEQUAL: return c >= 0; }
  return false;
}
bool idx_has(const MIdx& x, const MRec& r) {
  for (int c : x.cols) if (c >= (int)r.f.size()) return false;
  if (!x.tmpl.empty()) { if (x.tmpl.size() > r.f.size()) { for (size_t k = r.f.size(); k < x.tmpl.size(); k++) if (x.tmpl[k].t != WG_VARTYPE) return false; }
    for (size_t k = 0; k < x.tmpl.size() && k < r.f.size(); k++) if (x.tmpl[k].t != WG_VARTYPE && vcmp(x.tmpl[k], r.f[k])) return false; }
  return true;
}
// ------------------------------------------------------------------ operations
static void arm_journal_fault() { // what can go wrong while a journal entry is written
  int p = G.cur->proc; u64 n = choose(SF, choose(SF, 2) ? 2 : 5), prm = choose(SF, 40);
  switch (choose(SF, 9)) {
    case 0: arm(F_WRITE_ERR, n, prm, 1 + choose(SF, 3), p); break; case 1: arm(F_WRITE_SHORT, n, prm, 1 + choose(SF, 3), p); break; case 2: arm(F_WRITE_EINTR, n, 0, 1 + choose(SF, 3), p); break;
    case 3: arm(F_WRITE_SHORT, n, prm, 1, p); arm(F_WRITE_ERR, n + 1, prm, 1, p); break;
    case 4: arm(F_WRITE_SHORT, n, prm, 1, p); arm(F_WRITE_ERR, n + 1, prm, 1, p); arm(F_TRUNC_ERR, 0, 0, 1, p); break;
    case 5: arm(F_WRITE_SHORT, n, prm, 1, p); arm(F_WRITE_ERR, n + 1, prm, 1, p); arm(F_SEEK_ERR, 0, 0, 1, p); break;
    case 6: arm(F_WRITE_ERR, n, prm, 1, p); arm(F_OPEN_ERR, 0, prm, 1 + choose(SF, 2), p); arm(F_CLOSE_ERR, 0, 0, 1, p); break;
    case 7: arm(F_OPEN_ERR, 0, prm, 1, p); arm(F_READ_ERR, 0, 0, 1, p); arm(F_READ_SHORT, 0, prm, 1, p); break;
    case 8: arm(F_MALLOC, n, 0, 1, p); break;
  }
}
static void arm_faults() {
  if (W.cfg.jfaultpct && chance(SF, W.cfg.jfaultpct, 100)) { arm_journal_fault(); return; }
  if (!W.cfg.faults) return;
  if (!chance(SF, W.cfg.faultpct, 100)) return;
  bool mal = W.cfg.mallocfaults && (!W.cfg.segfaults || choose(SF, 3) == 1);
  static const u64 reps[] = {1, 1, 1, 1000};
  arm(mal ? F_MALLOC : F_SEGALLOC, choose(SF, choose(SF, 2) ? 3 : 8), choose(SF, 16), reps[choose(SF, 4)], G.cur->proc);
}
static bool fired_here() { return any_fired(); }
static void idx_full() { if (G.index_alloc_failed) end_run("run stopped: no space for index entries (known finding C13)"); }
static u64 g_full0; // disk full events before the operation
static void failed(void* db, const char* op, i64 code, i64 before_free) {
  W.nfail++; bool f = fired_here() || ST.fired[F_DISKFULL] != g_full0; W.has_inflight = false; idx_full();
  EV(0x2010, code, f, "  %s fails (%lld)%s", op, (long long)code, f ? " after an injected fault" : "");
  if (!f && !W.mayfail && !W.cfg.tight) violate("spurious-error", "%s failed with %lld although nothing was in its way", op, (long long)code);
  if (!f && !W.mayfail && W.cfg.tight && wg_database_freesize(db) > 300000) violate("spurious-error", "%s failed with %lld although %lld bytes of the segment are free", op, (long long)code, (long long)wg_database_freesize(db));
  disarm_all(); if (W.onfail) W.onfail(db); probe("operation failed cleanly");
}
static void begin(const std::function<void(Model&)>& fx) { W.inflight = fx; W.has_inflight = true; W.nops++; G.spare_index = true; G.index_alloc_failed = false; g_full0 = ST.fired[F_DISKFULL]; arm_faults(); }
static void done() { idx_full(); if (W.cfg.faults || W.cfg.jfaultpct) disarm_all(); if (W.has_inflight) { W.inflight(W.m); W.has_inflight = false; W.version++; if (W.ondone) W.ondone(); } }
static int pick_rec() { if (W.m.recs.empty()) return -1; auto it = W.m.recs.begin(); std::advance(it, choose(SW, W.m.recs.size())); return it->first; }
static bool set_raw(void* db, int id, int col, const Val& v, bool fresh) {
  if (W.cfg.faults || W.cfg.jfaultpct) disarm_all();
  begin([](Model&) {}); bool ok; i64 fb = 0;
  if (!fresh && !v.hasx && (v.t == WG_INTTYPE || v.t == WG_DOUBLETYPE || v.t == WG_STRTYPE) && choose(SW, 4) == 1) { // encodes and stores in one call
    Val v2 = v; W.inflight = [=](Model& m) { m.rec(id).f[col] = v2; }; EV(0x2011, id, col, "  set field %d of #%d directly to %s", col, id, v.str().c_str()); void* p = recp(db, id); std::map<std::string, i64> u0, u1; if (W.cfg.jfaultpct) audit_alloc(db, &u0);
    wg_int r = v.t == WG_INTTYPE ? wg_set_int_field(db, p, col, v.i) : v.t == WG_DOUBLETYPE ? wg_set_double_field(db, p, col, v.d) : wg_set_str_field(db, p, col, v.s.c_str()); if (r) { bool fz = any_fired(); failed(db, "setting a field", r, fb); if (W.cfg.jfaultpct && fz && r != -3 && r != -4) { audit_alloc(db, &u1); for (auto& a : u1) if (a.second > u0[a.first]) violate("leak", "setting a field failed with %lld and left %lld of the %s area in use", (long long)r, (long long)(a.second - u0[a.first]), a.first.c_str()); } return false; } done(); return true; }
  i64 e = enc_val(db, v, &ok);
  if (!ok) { failed(db, "encoding a value", e, fb); return false; }
  Val vv = v; W.inflight = [=](Model& m) { m.rec(id).f[col] = vv; };
  EV(0x2001, id, col, "  set field %d of #%d to %s", col, id, v.str().c_str());
  wg_int r = fresh ? wg_set_new_field(db, recp(db, id), col, e) : wg_set_field(db, recp(db, id), col, e);
  if (r) { failed(db, "setting a field", r, fb);
    if (v.t != WG_RECORDTYPE) { bool inuse = false; wg_free_encoded(db, e); (void)inuse; } // the encoded value is still ours
    return false; }
  done(); return true;
}
bool op_create(void* db, bool raw) {
  for (auto& i : W.m.idx) if (i.second.cols.size() > 1 || !i.second.tmpl.empty()) raw = false; // known finding C15: wg_set_new_field with such indexes
  int len = 1 + choose(SW, W.cfg.ncol); if (!choose(SW, 12)) len += choose(SW, 20); if (!W.cfg.lens.empty() && choose(SW, 4)) len = W.cfg.lens[choose(SW, W.cfg.lens.size())];
  if ((int)W.m.recs.size() >= W.cfg.maxrec) return op_delete(db, pick_rec());
  int id = W.m.nextid++;
  MRec r; r.id = id; r.raw = raw; r.f.resize(len); r.off = 0; auto pr = std::make_shared<MRec>(r);
  begin([pr](Model& m) { m.add(*pr); });
  EV(0x2002, id, len, "  create %srecord #%d with %d fields", raw ? "raw " : "", id, len);
  void* p = raw ? wg_create_raw_record(db, len) : wg_create_record(db, len);
  if (!p) { failed(db, "creating a record", 0, 0); return false; }
  pr->off = off_of(db, p); if (W.m.byoff.count(pr->off)) violate("overlap", "a new record was placed at the address of live record #%d", W.m.byoff[pr->off]);
  done();
  bool res = true; int c0 = 0;
  // a raw record is only usable once all its fields were set: after a failure the rest is set to NULL
  auto fill = [&](int c) { fs.limited = false; bool f = W.cfg.faults; unsigned j = W.cfg.jfaultpct; disarm_all(); W.cfg.faults = false; W.cfg.jfaultpct = 0; for (; c < len; c++) set_raw(db, id, c, V(WG_NULLTYPE), true); W.cfg.faults = f; W.cfg.jfaultpct = j; };
  if (W.cfg.tagged) { c0 = 1; Val t = V(WG_INTTYPE); t.i = 1000 + id;
    if (!set_raw(db, id, 0, t, raw)) { // leave no untagged record behind
      if (raw) fill(0); disarm_all(); return op_delete(db, id) && false; } }
  if (raw) for (int c = c0; c < len; c++) { Val v = choose(SW, 3) ? gen_val(id, db) : V(WG_NULLTYPE); if (!set_raw(db, id, c, v, true)) { fill(c); res = false; break; } }
  return res;
}
bool op_set(void* db, int id, int col, const Val& v) { return set_raw(db, id, col, v, false); }
bool op_delete(void* db, int id) {
  if (id < 0) return true; bool refd = W.m.referenced(id); 
  begin([=](Model& m) { if (!refd) m.del(id); });
  EV(0x2003, id, refd, "  delete #%d%s", id, refd ? " (referenced)" : "");
  wg_int r = wg_delete_record(db, recp(db, id));
  if (refd) { W.has_inflight = false; disarm_all(); if (r != -1) violate("referenced-deleted", "deleting #%d, which is still referenced, returned %lld", id, (long long)r); return true; }
  if (r) { if (r == -1) violate("delete-refused", "deleting #%d, which nothing references, was refused", id); failed(db, "deleting a record", r, 0); return false; }
  done(); return true;
}
bool op_encfree(void* db) { // a value that is encoded but never stored
  Val v = gen_simple(); begin([](Model&) {}); bool ok; EV(0x2004, 0, 0, "  encode and free %s", v.str().c_str());
  i64 e = enc_val(db, v, &ok); if (!ok) { failed(db, "encoding a value", e, 0); return false; }
  Val b = dec_val(db, e); if (b != v) violate("value", "a freshly encoded value reads back as %s instead of %s", b.str().c_str(), v.str().c_str()); bool nf = G.cur->nofault; G.cur->nofault = true; check_decode(db, e, v); G.cur->nofault = nf;
  wg_int r = wg_free_encoded(db, e); if (r) violate("free-encoded", "freeing an encoded value failed with %lld", (long long)r);
  done(); return true;
}
std::vector<i64> index_ids(void* db, bool* ok) {
  wg_int n = 0; std::vector<i64> v; *ok = true; wg_int* p = (wg_int*)wg_get_all_indexes(db, &n);
  if (!p) { if (n) *ok = false; return v; }
  mem_check_range(p, n * sizeof(wg_int), false); for (int i = 0; i < n; i++) v.push_back(p[i]); 
  extern void sim_free_ext(void*); sim_free_ext(p); return v;
}
extern "C" void sim_free(void*); void sim_free_ext(void* p) { sim_free(p); }
static int pick_col(int extra = 0) { if (W.cfg.wide && choose(SW, 2)) return 124 + choose(SW, 6); return choose(SW, W.cfg.ncol + extra); }
static void bad_index(void* db) { // requests that make no sense are refused and change nothing
  int kind = choose(SW, 10); std::vector<wg_int> c; wg_int type = choose(SW, 2) ? WG_INDEX_TYPE_TTREE : WG_INDEX_TYPE_HASH, n = -99; std::vector<wg_int> mr; bool lookup = true, usemr = false;
  switch (kind) {
    case 0: c = {-1 - (wg_int)choose(SW, choose(SW, 2) ? 3 : 10000)}; break;
    case 1: c = {128 + (wg_int)choose(SW, choose(SW, 2) ? 3 : 100000)}; break;
    case 2: { wg_int k = choose(SW, 128); c = {k, k}; type = WG_INDEX_TYPE_HASH; if (choose(SW, 2)) c.insert(c.begin() + choose(SW, 3), choose(SW, 128)); break; }
    case 3: c = {1}; n = -(wg_int)choose(SW, 3); break;
    case 4: for (int k = 0; k < 11; k++) c.push_back(k * 3); type = WG_INDEX_TYPE_HASH; break;
    case 5: c = {1, 2}; type = WG_INDEX_TYPE_TTREE; lookup = false; break;
    case 6: c = {1}; { static const wg_int ts[] = {0, WG_INDEX_TYPE_TTREE_JSON, 77, -1}; type = ts[choose(SW, 4)]; } lookup = false; break;
    case 7: c = {(wg_int)choose(SW, 3)}; mr = {wg_encode_int(db, 1), wg_encode_int(db, 1), wg_encode_int(db, 1)}; lookup = false; break;
    case 8: c = {1}; mr.assign(129 + choose(SW, 3), wg_encode_var(db, 0)); mr[0] = wg_encode_int(db, 1); break;
    default: c = {1}; mr = {wg_encode_int(db, 1)}; usemr = true; break;
  }
  if (n == -99) n = c.size(); bool o1, o2; auto before = index_ids(db, &o1); EV(0x2015, kind, type, "  create an index that makes no sense (kind %d)", kind);
  wg_int ml = usemr ? 0 : mr.size(); wg_int* mp = mr.empty() ? nullptr : mr.data();
  wg_int r = n == 1 && choose(SW, 2) ? wg_create_index(db, c[0], type, mp, ml) : wg_create_multi_index(db, c.data(), n, type, mp, ml);
  if (r != -1) violate("bad-index", "creating an index that makes no sense (kind %d) returned %lld", kind, (long long)r);
  auto after = index_ids(db, &o2); if (o1 && o2 && before != after) violate("bad-index", "creating an index that makes no sense (kind %d) changed the list of indexes", kind);
  if (lookup) { wg_int q = n == 1 && choose(SW, 2) ? wg_column_to_index_id(db, c[0], type, mp, ml) : wg_multi_column_to_index_id(db, c.data(), n, type, mp, ml); if (q != -1) violate("bad-index", "looking up an index that makes no sense (kind %d) gives %lld", kind, (long long)q); }
  probe("senseless index requests refused");
}
bool op_mkindex(void* db) {
  if (W.cfg.badindex && choose(SW, 6) == 1) { bool nf = G.cur->nofault; G.cur->nofault = true; bad_index(db); G.cur->nofault = nf; return true; }
  if (W.m.idx.size() >= 6) return op_dropindex(db);
  MIdx x; x.type = W.cfg.hash && choose(SW, 3) == 1 ? WG_INDEX_TYPE_HASH : WG_INDEX_TYPE_TTREE;
  int nc = x.type == WG_INDEX_TYPE_HASH ? 1 + choose(SW, 2) : 1; if (nc == 2 && choose(SW, 3) == 1) nc += 1 + choose(SW, 2); int maxc = W.cfg.ncol + 1;
  while ((int)x.cols.size() < nc) { int c = std::min(127, pick_col(1)); if (std::find(x.cols.begin(), x.cols.end(), c) == x.cols.end()) x.cols.push_back(c); else break; }
  std::vector<wg_int> cols(x.cols.begin(), x.cols.end()); std::sort(x.cols.begin(), x.cols.end()); nc = cols.size();
  begin([](Model&) {}); bool ok = true; std::vector<wg_int> mr;
  if (W.cfg.templates && !choose(SW, 3)) {
    int n = 1 + choose(SW, maxc); bool any = false; 
    for (int k = 0; k < n; k++) { Val v = V(WG_VARTYPE); if (std::find(x.cols.begin(), x.cols.end(), k) == x.cols.end() && k > 0 && choose(SW, 2)) { v = gen_simple(); if (v.t == WG_VARTYPE || v.t == WG_BLOBTYPE) v = V(WG_NULLTYPE); if (v.t != WG_VARTYPE) any = true; } x.tmpl.push_back(v); }
    if (!any) x.tmpl.clear();
    for (auto& v : x.tmpl) { bool o; i64 e = v.t == WG_VARTYPE ? wg_encode_var(db, 0) : enc_val(db, v, &o); mr.push_back(e); if (e == WG_ILLEGAL) ok = false; }
    while (!x.tmpl.empty() && x.tmpl.back().t == WG_VARTYPE && false) x.tmpl.pop_back();
  }
  bool dup = false; for (auto& i : W.m.idx) if (i.second.type == x.type && i.second.cols == x.cols) { auto trim = [](std::vector<Val>& t) { while (!t.empty() && t.back().t == WG_VARTYPE) t.pop_back(); }; trim(x.tmpl); trim(i.second.tmpl); bool eq = i.second.tmpl.size() == x.tmpl.size(); for (size_t k = 0; eq && k < x.tmpl.size(); k++) if ((x.tmpl[k].t == WG_VARTYPE) != (i.second.tmpl[k].t == WG_VARTYPE) || (x.tmpl[k].t != WG_VARTYPE && vcmp(x.tmpl[k], i.second.tmpl[k]))) eq = false; if (eq) dup = true; }
  if (!ok) { failed(db, "encoding a template", 0, 0); for (auto e : mr) if (e != WG_ILLEGAL) wg_free_encoded(db, e); return false; }
  std::string d; for (int c : x.cols) d += std::to_string(c) + " "; if (!x.tmpl.empty()) { d += "template"; for (auto& v : x.tmpl) d += " " + (v.t == WG_VARTYPE ? std::string("*") : v.str()); }
  G.spare_index = false;
  EV(0x2005, x.type, nc, "  create %s index on column %s", x.type == WG_INDEX_TYPE_HASH ? "hash" : "tree", d.c_str());
  bool wantsmuch = x.type == WG_INDEX_TYPE_HASH && wg_database_freesize(db) < 300000; // a hash index takes a large array
  wg_int r = (nc == 1 && choose(SW, 2)) ? wg_create_index(db, cols[0], x.type, mr.empty() ? nullptr : mr.data(), mr.size()) : wg_create_multi_index(db, cols.data(), nc, x.type, mr.empty() ? nullptr : mr.data(), mr.size());
  bool fd = fired_here(); disarm_all();
  bool reused = false; { auto trim = [](std::vector<Val> t) { while (!t.empty() && t.back().t == WG_VARTYPE) t.pop_back(); return t; }; auto a = trim(x.tmpl); for (auto& i : W.m.idx) { auto b = trim(i.second.tmpl); if (a.empty() || a.size() != b.size()) continue; bool eq = true; for (size_t k = 0; k < a.size(); k++) if ((a[k].t == WG_VARTYPE) != (b[k].t == WG_VARTYPE) || (a[k].t != WG_VARTYPE && vcmp(a[k], b[k]))) eq = false; if (eq) reused = true; } }
  // the template values belong to the index now, except when it failed or shares the template of another
  if (r) { if (!dup) { if (fd) G.armed_fired[G.cur->proc] = true; bool mf = W.mayfail; if (wantsmuch) W.mayfail = true; failed(db, "creating an index", r, 0); W.mayfail = mf; } for (auto e : mr) wg_free_encoded(db, e); W.has_inflight = false; return dup; }
  if (dup) violate("duplicate-index", "an index identical to an existing one was created");
  u64 nf = G.cur->nofault; G.cur->nofault = true; bool o2; auto ids = index_ids(db, &o2); G.cur->nofault = nf;
  i64 nid = 0; for (i64 i : ids) if (!W.m.idx.count(i)) nid = i;
  if (!nid) violate("index-lost", "a created index is not listed");
  x.id = nid; W.inflight = [=](Model& m) { m.idx[nid] = x; }; done();
  i64 q = wg_multi_column_to_index_id(db, cols.data(), nc, x.type, mr.empty() ? nullptr : mr.data(), mr.size());
  if (q != nid) violate("index-lookup", "looking up a created index by its columns gives %lld instead of %lld", (long long)q, (long long)nid);
  if (reused) for (auto e : mr) wg_free_encoded(db, e);
  return true;
}
bool op_dropindex(void* db) {
  std::vector<i64> c; for (auto& i : W.m.idx) if (i.second.type == WG_INDEX_TYPE_TTREE) c.push_back(i.first);
  if (c.empty()) return true; i64 id = c[choose(SW, c.size())];
  begin([=](Model& m) { m.idx.erase(id); }); EV(0x2006, 0, 0, "  drop index on column %d", W.m.idx[id].cols[0]);
  wg_int r = wg_drop_index(db, id); if (r) { failed(db, "dropping an index", r, 0); return false; }
  done(); return true;
}
static const int conds[] = {WG_COND_EQUAL, WG_COND_NOT_EQUAL, WG_COND_LESSTHAN, WG_COND_GREATER, WG_COND_LTEQUAL, WG_COND_GTEQUAL};
static Val gen_param(int col) { // often a value that is present
  if (choose(SW, 2)) { int id = pick_rec(); if (id >= 0 && col < (int)W.m.rec(id).f.size()) { Val v = W.m.rec(id).f[col]; if (v.t != WG_BLOBTYPE && (v.t != WG_RECORDTYPE || W.cfg.refs)) return v; } }
  Val v; do v = gen_simple(); while (v.t == WG_BLOBTYPE); return v;
}
bool op_query(void* db) {
  int argc = choose(SW, 3); if (!choose(SW, 10)) argc = 3 + choose(SW, 3); std::vector<Val> av; std::vector<wg_query_arg> args; std::vector<wg_int> mr; std::vector<Val> mv; bool ok = true;
  W.nops++; 
  std::string d;
  for (int k = 0; k < argc; k++) { wg_query_arg a; a.column = pick_col(); if (!W.m.idx.empty() && choose(SW, 2)) { auto it = W.m.idx.begin(); std::advance(it, choose(SW, W.m.idx.size())); a.column = it->second.cols[0]; } a.cond = conds[choose(SW, 6)]; Val v = gen_param(a.column); if (v.t == WG_VARTYPE) v = V(WG_NULLTYPE); bool o; a.value = enc_param(db, v, &o); if (!o) { ok = false; } av.push_back(v); args.push_back(a); static const char* cn[] = {"=", "!=", "<", ">", "<=", ">="}; int ci = 0; while (conds[ci] != a.cond) ci++; d += " [" + std::to_string(a.column) + "]" + cn[ci] + v.str(); }
  int lim = choose(SW, 4) == 1 ? 1 + choose(SW, 5) : 0; 
  bool usemr = !choose(SW, 5); if (usemr) { int n = 1 + choose(SW, W.cfg.ncol); for (int k = 0; k < n; k++) { Val v = V(WG_VARTYPE); if (choose(SW, 2)) { v = gen_param(k); } bool o = true; i64 e = v.t == WG_VARTYPE ? wg_encode_var(db, 0) : enc_param(db, v, &o); if (!o) ok = false; mr.push_back(e); mv.push_back(v); d += (k ? "," : " match ") + (v.t == WG_VARTYPE ? std::string("*") : v.str()); } }
  if (!ok) violate("query-param", "a query parameter could not be encoded");
  std::vector<i64> expect; for (auto& r : W.m.recs) { bool m = true; for (int k = 0; k < argc && m; k++) { if (args[k].column >= (i64)r.second.f.size() || !cond_ok(args[k].cond, vcmp(r.second.f[args[k].column], av[k]))) m = false; }
    if (m && usemr) { for (size_t k = 0; k < mv.size() && m; k++) if (mv[k].t != WG_VARTYPE && (k >= r.second.f.size() || vcmp(r.second.f[k], mv[k]))) m = false; }
    if (m) expect.push_back(r.second.off); }
  u64 mark = mem_mark(); W.cfg.faults ? arm_faults() : (void)0;
  EV(0x2007, argc, usemr, "  query%s%s", d.c_str(), lim ? (" limit " + std::to_string(lim)).c_str() : "");
  wg_query* q = lim ? wg_make_query_rc(db, usemr ? mr.data() : nullptr, usemr ? mr.size() : 0, argc ? args.data() : nullptr, argc, lim) : wg_make_query(db, usemr ? mr.data() : nullptr, usemr ? mr.size() : 0, argc ? args.data() : nullptr, argc);
  bool f = fired_here(); disarm_all(); bool r = true;
  if (!q) { u64 fst; if (!f) violate("query", "a query failed although nothing was in its way"); W.nfail++; (void)fst; r = false; }
  else {
    size_t want = lim ? std::min<size_t>(lim, expect.size()) : expect.size();
    if (q->res_count != want) violate("query-count", "query%s reports %lld rows, %zu match", d.c_str(), (long long)q->res_count, want);
    std::vector<i64> got; void* p; size_t guard = W.m.recs.size() * 3 + 10;
    while ((p = wg_fetch(db, q))) { got.push_back(off_of(db, p)); if (got.size() > guard) violate("query", "query%s returns rows without end", d.c_str()); }
    std::vector<i64> s = got; std::sort(s.begin(), s.end()); std::sort(expect.begin(), expect.end());
    for (size_t k = 1; k < s.size(); k++) if (s[k] == s[k - 1]) violate("query-duplicate", "query%s returns #%d twice", d.c_str(), W.m.byoff.count(s[k]) ? W.m.byoff[s[k]] : -1);
    for (i64 o : s) if (!std::binary_search(expect.begin(), expect.end(), o)) violate("query-extra", "query%s returns %s#%d, which does not match", d.c_str(), W.m.byoff.count(o) ? "" : "unknown record ", W.m.byoff.count(o) ? W.m.byoff[o] : -1);
    if (s.size() < want) { for (i64 o : expect) if (!std::binary_search(s.begin(), s.end(), o)) violate("query-missing", "query%s does not return #%d (%zu of %zu rows returned)", d.c_str(), W.m.byoff[o], s.size(), want); }
    if (s.size() != want) violate("query-limit", "query%s with row limit %d returns %zu rows", d.c_str(), lim, s.size());
    probe(q->qtype & WG_QTYPE_TTREE ? "query used a tree index" : "query by scan or prefetch"); if (q->column >= 0) probe("query chose an index");
    wg_free_query(db, q);
  }
  for (auto& a : args) wg_free_query_param(db, a.value); for (size_t k = 0; k < mr.size(); k++) if (mv[k].t != WG_VARTYPE) wg_free_query_param(db, mr[k]);
  if (W.cfg.chk_leak) { u64 first; u64 n = mem_live_since(mark, G.cur->proc, &first); if (n) violate("memory-leak", "a query%s left %llu blocks of private memory allocated (%s)", r ? "" : " that failed", (unsigned long long)n, mem_describe(first).c_str()); }
  W.has_inflight = false; return r;
}
bool op_find(void* db) {
  int col = pick_col(), cond = conds[choose(SW, 6)]; W.nops++; Val v = gen_param(col); if (v.t == WG_VARTYPE) v = V(WG_NULLTYPE);
  std::vector<i64> got, expect; void* p = nullptr; bool raw = choose(SW, 2) || v.t == WG_VARTYPE || (v.t == WG_INTTYPE && v.i != (int)v.i) || ((v.t == WG_RECORDTYPE || v.t == WG_STRTYPE) && v.hasx); u64 mark = mem_mark();
  bool ok; i64 e = 0; if (raw) e = enc_param(db, v, &ok);
  EV(0x2008, col, cond, "  find [%d] cond %x %s", col, cond, v.str().c_str());
  for (auto& r : W.m.recs) if (col < (int)r.second.f.size() && cond_ok(cond, vcmp(r.second.f[col], v))) expect.push_back(r.second.off);
  do {
    if (raw) p = wg_find_record(db, col, cond, e, p); else switch (v.t) {
      case WG_INTTYPE: p = wg_find_record_int(db, col, cond, (int)v.i, p); break; case WG_DOUBLETYPE: p = wg_find_record_double(db, col, cond, v.d, p); break; case WG_STRTYPE: p = wg_find_record_str(db, col, cond, (char*)v.s.c_str(), p); break;
      case WG_CHARTYPE: p = wg_find_record_char(db, col, cond, (char)v.i, p); break; case WG_FIXPOINTTYPE: p = wg_find_record_fixpoint(db, col, cond, v.d, p); break; case WG_DATETYPE: p = wg_find_record_date(db, col, cond, (int)v.i, p); break; case WG_TIMETYPE: p = wg_find_record_time(db, col, cond, (int)v.i, p); break;
      case WG_RECORDTYPE: p = wg_find_record_record(db, col, cond, recp(db, v.ref), p); break; case WG_XMLLITERALTYPE: p = wg_find_record_xmlliteral(db, col, cond, (char*)v.s.c_str(), (char*)v.x.c_str(), p); break; case WG_URITYPE: p = wg_find_record_uri(db, col, cond, (char*)v.s.c_str(), v.hasx ? (char*)v.x.c_str() : nullptr, p); break;
      default: p = wg_find_record_null(db, col, cond, nullptr, p); }
    if (p) got.push_back(off_of(db, p)); if (got.size() > W.m.recs.size() * 3 + 10) violate("find", "finding records never ends");
  } while (p);
  std::sort(got.begin(), got.end()); std::sort(expect.begin(), expect.end());
  if (got != expect) violate("find", "finding records with [%d] cond 0x%x %s returns %zu of %zu records", col, cond, v.str().c_str(), got.size(), expect.size());
  if (raw) wg_free_query_param(db, e);
  if (W.cfg.chk_leak) { u64 first; if (mem_live_since(mark, G.cur->proc, &first)) violate("memory-leak", "finding records left private memory allocated (%s)", mem_describe(first).c_str()); }
  return true;
}
static void check_parents(void* db, const MRec& r) {
  std::set<i64> want, got; for (auto& p : W.m.recs) for (auto& v : p.second.f) if (v.ref == r.id) want.insert(p.second.off);
  void* self = ptr_of(db, r.off); int n = 0; std::set<i64> order;
  for (void* p = wg_get_first_parent(db, self); p; p = wg_get_next_parent(db, self, p)) { got.insert(off_of(db, p)); if (++n > 3000) violate("parents", "walking the parents of #%d never ends", r.id); }
  if (got != want) violate("parents", "#%d has %zu parents but %zu are reported", r.id, want.size(), got.size());
}
bool op_parents(void* db) { int id = pick_rec(); if (id >= 0) { EV(0x2009, id, 0, "  parents of #%d", id); check_parents(db, W.m.rec(id)); } return true; }
bool op_atomic(void* db) { // while holding the lock; concurrent use is another scenario
  int id = pick_rec(); if (id < 0) return true; MRec& r = W.m.rec(id); int col = 1 + choose(SW, W.cfg.ncol); bool bad = col >= (int)r.f.size();
  Val nv = gen_simple(); auto big = [](const Val& v) { return v.t == WG_INTTYPE && !(v.i < (1 << 28) && v.i >= -(1 << 28)); }; /* which integers are stored in place is not specified */ auto imm = [](const Val& v) { return v.t == WG_NULLTYPE || (v.t == WG_INTTYPE && v.i < (1 << 28) && v.i >= -(1 << 28)) || v.t == WG_CHARTYPE || v.t == WG_DATETYPE || v.t == WG_TIMETYPE || v.t == WG_FIXPOINTTYPE || v.t == WG_VARTYPE; };
  if (!imm(nv)) { nv = V(WG_INTTYPE); nv.i = choose(SW, 100); } 
  bool ok; i64 e = enc_val(db, nv, &ok); EV(0x200A, id, col, "  atomically set field %d of #%d to %s", col, id, nv.str().c_str());
  wg_int rc = wg_set_atomic_field(db, recp(db, id), col, e);
  bool should = !bad && imm(r.f[col]) && !W.m.indexed(col) && !W.m.tmpl_uses(col) && !W.cfg.journal;
  if (rc == -13 && W.m.idx.size() && W.m.referenced(id)) should = false; // an index may order the record by its contents
  if (should && rc) violate("atomic", "atomic set of an eligible field failed with %lld", (long long)rc);
  if (!should && !rc && !W.m.tmpl_uses(col) && !(!bad && big(r.f[col]))) violate("atomic", "atomic set of a field that must be refused succeeded");
  if (!rc) { r.f[col] = nv; W.version++; }
  return true;
}
bool do_op(void* db, int k) {
  switch (k) {
    case O_CREATE: return op_create(db, false); case O_RAW: return op_create(db, true);
    case O_SET: { int id = pick_rec(); if (id < 0) return op_create(db, false); MRec& r = W.m.rec(id); int lo = W.cfg.tagged ? 1 : 0; if ((int)r.f.size() <= lo) return true; int c = lo + choose(SW, r.f.size() - lo); if (W.cfg.wide && r.f.size() > 124 && choose(SW, 2)) c = 124 + choose(SW, r.f.size() - 124); Val v = gen_val(id, db); if (v.t == WG_RECORDTYPE && !W.cfg.dupref) for (auto& x : r.f) if (x.ref == v.ref) { v = V(WG_NULLTYPE); break; } return op_set(db, id, c, v); }
    case O_DELETE: return op_delete(db, pick_rec()); case O_ENCFREE: return op_encfree(db); case O_MKINDEX: return op_mkindex(db); case O_DROPINDEX: return op_dropindex(db);
    case O_QUERY: return op_query(db); case O_FIND: return op_find(db); case O_PARENTS: return op_parents(db); case O_ATOMIC: return op_atomic(db); case O_SCAN: verify(db, "scan"); return true;
  }
  return true;
}
void delete_everything(void* db) {
  std::vector<i64> ix; for (auto& i : W.m.idx) if (i.second.type == WG_INDEX_TYPE_TTREE) ix.push_back(i.first);
  bool early = choose(SW, 2); if (early) while (!ix.empty()) { wg_int r = wg_drop_index(db, ix.back()); if (r) violate("drop-index", "dropping an index failed with %lld", (long long)r); W.m.idx.erase(ix.back()); ix.pop_back(); }
  // references first (cycles), then everything
  for (auto& r : W.m.recs) for (size_t c = 0; c < r.second.f.size(); c++) if (r.second.f[c].t == WG_RECORDTYPE && (r.second.f[c].ref >= r.first || choose(SW, 2))) op_set(db, r.first, c, V(WG_NULLTYPE));
  while (!W.m.recs.empty()) { std::vector<int> c; for (auto& r : W.m.recs) if (!W.m.referenced(r.first)) c.push_back(r.first); if (c.empty()) violate("delete-all", "model inconsistency"); op_delete(db, c[choose(SW, c.size())]); }
  while (!ix.empty()) { wg_int r = wg_drop_index(db, ix.back()); if (r) violate("drop-index", "dropping an index failed with %lld", (long long)r); W.m.idx.erase(ix.back()); ix.pop_back(); }
  if (wg_get_first_record(db)) violate("scan-extra", "records remain after everything was deleted");
}
// ------------------------------------------------------------------ comparison
static void walk_tree(void* db, const MIdx& x, i64 off, i64 parent, std::vector<i64>& out, std::vector<i64>& nodes, int depth, int* height) {
  *height = 0; if (!off) return; if (depth > 60 || nodes.size() > 5000) violate("index-tree", "an index tree is endless");
  if (off < 0 || off >= dbmemsegh(db)->size) violate("index-tree", "an index tree leads outside the database");
  struct wg_tnode* n = (struct wg_tnode*)ptr_of(db, off); if (n->parent_offset != parent) violate("index-tree", "an index tree node has a wrong parent");
  int hl, hr; walk_tree(db, x, n->left_child_offset, off, out, nodes, depth + 1, &hl); nodes.push_back(off);
  if (n->number_of_elements < 0 || n->number_of_elements > WG_TNODE_ARRAY_SIZE) violate("index-tree", "an index tree node holds %d elements", (int)n->number_of_elements);
  for (int i = 0; i < n->number_of_elements; i++) out.push_back(n->array_of_values[i]);
  walk_tree(db, x, n->right_child_offset, off, out, nodes, depth + 1, &hr); *height = 1 + std::max(hl, hr);
}
static std::string idxname(const MIdx& x) { std::string s = x.type == WG_INDEX_TYPE_HASH ? "hash index on" : "tree index on"; for (int c : x.cols) s += " " + std::to_string(c); if (!x.tmpl.empty()) s += " with template"; return s; }
void check_indexes(void* db, const char* when) {
  bool nf = G.cur->nofault; G.cur->nofault = true; bool ok; auto ids = index_ids(db, &ok); G.cur->nofault = nf;
  std::set<i64> a(ids.begin(), ids.end()), b; for (auto& i : W.m.idx) b.insert(i.first);
  if (a != b) violate("index-list", "%s: %zu indexes are listed, %zu exist", when, a.size(), b.size());
  for (auto& e : W.m.idx) { const MIdx& x = e.second; std::vector<i64> want; for (auto& r : W.m.recs) if (idx_has(x, r.second)) want.push_back(r.second.off); std::sort(want.begin(), want.end());
    if (wg_get_index_type(db, x.id) != x.type) violate("index-list", "%s: wrong index type", when);
    if (x.type == WG_INDEX_TYPE_TTREE) {
      wg_index_header* h = (wg_index_header*)ptr_of(db, x.id); std::vector<i64> out, nodes; int ht; walk_tree(db, x, h->ctl.t.offset_root_node, 0, out, nodes, 0, &ht);
      std::vector<i64> s = out; std::sort(s.begin(), s.end());
      for (size_t k = 1; k < s.size(); k++) if (s[k] == s[k - 1]) violate("index-duplicate", "%s: %s holds #%d twice", when, idxname(x).c_str(), W.m.byoff.count(s[k]) ? W.m.byoff[s[k]] : -1);
      for (i64 o : s) if (!std::binary_search(want.begin(), want.end(), o)) violate("index-extra", "%s: %s holds %s#%d, which does not belong there", when, idxname(x).c_str(), W.m.byoff.count(o) ? "" : "a dead record, not ", W.m.byoff.count(o) ? W.m.byoff[o] : -1);
      for (i64 o : want) if (!std::binary_search(s.begin(), s.end(), o)) violate("index-missing", "%s: %s lacks #%d", when, idxname(x).c_str(), W.m.byoff[o]);
      for (size_t k = 1; k < out.size(); k++) if (vcmp(W.m.rec(W.m.byoff[out[k - 1]]).f[x.cols[0]], W.m.rec(W.m.byoff[out[k]]).f[x.cols[0]]) > 0) violate("index-order", "%s: %s is out of order", when, idxname(x).c_str());
#ifdef TTREE_CHAINED_NODES
      std::vector<i64> ch, back; i64 o = h->ctl.t.offset_min_node; while (o && ch.size() < 6000) { ch.push_back(o); o = ((struct wg_tnode*)ptr_of(db, o))->succ_offset; } o = h->ctl.t.offset_max_node; while (o && back.size() < 6000) { back.push_back(o); o = ((struct wg_tnode*)ptr_of(db, o))->pred_offset; } std::reverse(back.begin(), back.end());
      if (ch != nodes || back != nodes) violate("index-chain", "%s: the node chain of %s disagrees with its tree", when, idxname(x).c_str());
#endif
      // the tree must also find what it holds
      for (size_t k = 0; k < want.size() && k < 6; k++) { MRec& r = W.m.rec(W.m.byoff[want[(k * 7) % want.size()]]); wg_int enc = wg_get_field(db, ptr_of(db, r.off), x.cols[0]); i64 f = wg_search_ttree_index(db, x.id, enc); if (f < 1) violate("index-search", "%s: searching %s does not find the value of #%d", when, idxname(x).c_str(), r.id); }
    } else {
      std::map<std::string, std::vector<i64>> groups; 
      for (i64 o : want) { MRec& r = W.m.rec(W.m.byoff[o]); std::vector<wg_int> vals; bool skip = false; for (int c : x.cols) { vals.push_back(wg_get_field(db, ptr_of(db, o), c)); int t = r.f[c].t; if (t == WG_BLOBTYPE || t == WG_RECORDTYPE) skip = true; } if (skip) continue;
        bool nf2 = G.cur->nofault; G.cur->nofault = true; i64 l = wg_search_hash(db, x.id, vals.data(), vals.size()); G.cur->nofault = nf2; int n = 0, hits = 0;
        while (l > 0) { gcell* c = (gcell*)ptr_of(db, l); if (c->car == o) hits++; else if (!std::binary_search(want.begin(), want.end(), c->car)) violate("index-extra", "%s: %s lists a record that does not belong there", when, idxname(x).c_str()); 
          else { MRec& r2 = W.m.rec(W.m.byoff[c->car]); for (int cc : x.cols) if (r.f[cc].t != r2.f[cc].t || (vcmp(r.f[cc], r2.f[cc]) && r.f[cc].t != WG_DOUBLETYPE)) violate("index-extra", "%s: %s lists #%d under the value of #%d (%s, %s)", when, idxname(x).c_str(), r2.id, r.id, r2.f[cc].str().c_str(), r.f[cc].str().c_str()); }
          l = c->cdr; if (++n > 5000) violate("index-hash", "endless hash chain"); }
        if (hits != 1) violate(hits ? "index-duplicate" : "index-missing", "%s: %s has #%d %d times", when, idxname(x).c_str(), r.id, hits); }
    }
  }
}
static void chk_rec(void* db, const MRec& r, const char* when) {
  void* p = ptr_of(db, r.off); i64 len = wg_get_record_len(db, p);
  if (len != (i64)r.f.size()) violate("record-length", "%s: #%d has %lld fields instead of %zu", when, r.id, (long long)len, r.f.size());
  for (int c = 0; c < len; c++) { i64 e = wg_get_field(db, p, c); Val v = dec_val(db, e); if (v != r.f[c]) violate("value", "%s: field %d of #%d is %s instead of %s", when, c, r.id, v.str().c_str(), r.f[c].str().c_str()); }
}
void verify(void* db, const char* when) {
  bool nf = G.cur->nofault; G.cur->nofault = true;
  size_t n = 0; std::set<i64> seen;
  for (void* p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { i64 o = off_of(db, p); n++; if (!seen.insert(o).second || n > W.m.recs.size() + 50) violate("scan", "%s: scanning the records never ends", when); if (!W.m.byoff.count(o)) violate("scan-extra", "%s: the scan shows a record that does not exist", when); }
  for (auto& r : W.m.recs) { if (!seen.count(r.second.off)) violate("scan-missing", "%s: #%d is missing from the scan", when, r.first); chk_rec(db, r.second, when); }
  if (W.cfg.chk_par) for (auto& r : W.m.recs) check_parents(db, r.second);
  if (W.cfg.chk_idx) check_indexes(db, when);
  if (W.cfg.chk_alloc) audit_alloc(db, nullptr);
  G.cur->nofault = nf;
}
void verify_reader(void* db) {
  size_t n = 0; for (void* p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { i64 o = off_of(db, p); auto it = W.m.byoff.find(o); if (it == W.m.byoff.end()) violate("scan-extra", "a reader sees a record that does not exist"); if (++n > W.m.recs.size()) violate("scan-extra", "a reader sees too many records"); chk_rec(db, W.m.rec(it->second), "reader"); }
  for (int k = 0; k < 3 && !W.m.recs.empty(); k++) { MRec& r = W.m.rec(pick_rec()); void* p = ptr_of(db, r.off); int c = choose(SW, r.f.size()); i64 e = wg_get_field(db, p, c); if (wg_get_record_dataarray(db, p)[c] != e) violate("value", "the data array of #%d has another value in column %d", r.id, c); int t = wg_get_field_type(db, p, c); if (t != r.f[c].t) violate("value", "field %d of #%d has the type %d instead of %d", c, r.id, t, r.f[c].t); bool nf = G.cur->nofault; G.cur->nofault = true; check_decode(db, e, r.f[c]); G.cur->nofault = nf; }
  if (n != W.m.recs.size()) violate("scan-missing", "a reader sees %zu of %zu records", n, W.m.recs.size());
}
// ------------------------------------------------------------------ allocator
static void audit_area(void* db, const char* name, db_area_header* h, std::map<std::string, i64>* usage) {
  std::vector<std::pair<i64, i64>> sub; i64 segsize = dbmemsegh(db)->size; i64 total = 0;
  for (int i = 0; i <= h->last_subarea_index && i < SUBAREA_ARRAY_SIZE; i++) { auto& s = h->subarea_array[i]; if (!s.size) continue; if (s.alignedoffset < s.offset || s.alignedoffset + s.alignedsize > s.offset + s.size || s.offset + s.size > segsize) violate("storage", "%s area: part %d lies outside its bounds", name, i); sub.push_back({s.alignedoffset, s.alignedsize}); }
  if (h->fixedlength) {
    i64 cells = 0; for (auto& s : sub) cells += s.second / h->objlength;
    std::set<i64> fr; for (i64 o = h->freelist; o; o = dbfetch(db, o)) { bool in = false; for (auto& s : sub) if (o >= s.first && o + h->objlength <= s.first + s.second && (o - s.first) % h->objlength == 0) in = true; if (!in) violate("storage", "%s area: the free list leads outside the area", name); if (!fr.insert(o).second) violate("storage", "%s area: a cell is on the free list twice", name); }
    total = cells; if ((i64)fr.size() > cells) violate("storage", "%s area: more free cells than cells", name); if (usage) (*usage)[name] = cells - (i64)fr.size();
    return;
  }
  i64 used = 0; std::set<i64> fobj; i64 dv = h->freebuckets[DVBUCKET], dvsize = h->freebuckets[DVSIZEBUCKET]; bool dvseen = false;
  for (auto& s : sub) {
    i64 o = s.first, end = s.first + s.second; bool prevfree = false; int n = 0; bool ended = false;
    while (o < end) {
      i64 hd = dbfetch(db, o), sz; if (++n > 100000) violate("storage", "%s area: endless", name);
      if (isfreeobject(hd)) { sz = getfreeobjectsize(hd); if (sz < MIN_VARLENOBJ_SIZE || o + sz > end || dbfetch(db, o + sz - sizeof(gint)) != hd) violate("storage", "%s area: a free block has a damaged frame", name); if (prevfree) violate("storage", "%s area: two free blocks side by side were not merged", name); fobj.insert(o); prevfree = true; }
      else if (isspecialusedobject(hd)) { sz = getspecialusedobjectsize(hd); if (dbfetch(db, o + sizeof(gint)) == SPECIALGINT1DV && o == dv) { if (sz != dvsize) violate("storage", "%s area: the size of the reserve block is recorded as %lld and %lld", name, (long long)sz, (long long)dvsize); dvseen = true; } else if (o != s.first) { ended = true; if (o + sz > end || end - (o + sz) >= 64) violate("storage", "%s area: %lld bytes at the end are lost", name, (long long)(end - o - sz)); break; } prevfree = false; }
      else { sz = getusedobjectsize(hd); if (o + sz > end) violate("storage", "%s area: an object reaches past the end", name); if (isnormalusedobjectprevfree(hd) != prevfree) violate("storage", "%s area: an object has the wrong mark about its neighbour", name); used += sz; prevfree = false; }
      if (sz <= 0) violate("storage", "%s area: an object of size %lld", name, (long long)sz);
      o += sz;
    }
    if (!ended) violate("storage", "%s area: the end mark is missing", name);
  }
  if (dv && !dvseen) violate("storage", "%s area: the reserve block is not where it is recorded", name);
  std::set<i64> listed; for (int b = 0; b < EXACTBUCKETS_NR + VARBUCKETS_NR; b++) { i64 prev = 0; for (i64 o = h->freebuckets[b]; o; o = dbfetch(db, o + sizeof(gint))) { if (!fobj.count(o)) violate("storage", "%s area: a free list names a block that is not free", name); if (!listed.insert(o).second) violate("storage", "%s area: a free block is listed twice", name); prev = o; } (void)prev; }
  if (listed.size() != fobj.size()) violate("storage", "%s area: %zu free blocks can never be used again", name, fobj.size() - listed.size());
  if (usage) (*usage)[name] = used;
}
void audit_alloc(void* db, std::map<std::string, i64>* u) {
  db_memsegment_header* h = dbmemsegh(db);
  struct { const char* n; db_area_header* a; } A[] = {{"record", &h->datarec_area_header}, {"long string", &h->longstr_area_header}, {"list cell", &h->listcell_area_header}, {"short string", &h->shortstr_area_header}, {"word", &h->word_area_header}, {"double word", &h->doubleword_area_header}, {"tree node", &h->tnode_area_header}, {"index header", &h->indexhdr_area_header}, {"index template", &h->indextmpl_area_header}, {"index hash", &h->indexhash_area_header}};
  std::vector<std::pair<i64, i64>> all;
  for (auto& a : A) { audit_area(db, a.n, a.a, u); for (int i = 0; i <= a.a->last_subarea_index && i < SUBAREA_ARRAY_SIZE; i++) if (a.a->subarea_array[i].size) all.push_back({a.a->subarea_array[i].offset, a.a->subarea_array[i].size}); }
  std::sort(all.begin(), all.end()); for (size_t k = 1; k < all.size(); k++) if (all[k].first < all[k - 1].first + all[k - 1].second) violate("storage", "two data areas overlap");
  if (!all.empty() && all.back().first + all.back().second > h->free && h->free) violate("storage", "a data area overlaps unallocated space");
}
// ------------------------------------------------------------------ recovered databases
static std::string serial(const Val& v, const Model& m, int depth) { if (v.t == WG_RECORDTYPE) { auto it = m.recs.find(v.ref); if (it == m.recs.end()) return "rec?"; if (!it->second.f.empty() && it->second.f[0].t == WG_INTTYPE) return "rec" + std::to_string(it->second.f[0].i); return "rec-untagged"; } Val w = v; return w.str() + (v.s.size() > 50 ? ":" + std::to_string(std::hash<std::string>()(v.s)) : ""); }
static std::string rser(const MRec& r, const Model& m) { std::string s = std::to_string(r.f.size()); for (auto& v : r.f) s += "|" + serial(v, m, 0); return s; }
static Model read_all(void* db, std::string* err) { // a model of what is really there
  Model keep = W.m, n; W.m = Model(); auto oc = G.oncrash; u64 ca = G.crash_at; G.oncrash = nullptr; G.crash_at = ~0ULL; // the simulator itself does not crash
  bool nf = G.cur->nofault; G.cur->nofault = true;
  for (void* p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { i64 o = off_of(db, p); MRec r; r.id = W.m.nextid++; r.off = o; W.m.add(r); if (W.m.recs.size() > 20000) violate("recovered", "scanning the recovered database never ends"); }
  for (auto& r : W.m.recs) { void* p = ptr_of(db, r.second.off); i64 len = wg_get_record_len(db, p); if (len < 0 || len > 10000) { *err = "a record of length " + std::to_string(len); break; } for (int c = 0; c < len; c++) { Val v = dec_val(db, wg_get_field(db, p, c)); if (v.ref == -2) *err = "a reference that leads to no record"; r.second.f.push_back(v); } }
  G.cur->nofault = nf; n = W.m; W.m = keep; G.oncrash = oc; if (oc) G.crash_at = std::max(ca, G.acc + 1); return n;
}
std::string compare_tagged(void* db, const Model& m) {
  std::string err; Model r = read_all(db, &err); if (!err.empty()) return err;
  std::map<std::string, int> a, b; std::map<i64, const MRec*> ta, tb;
  auto put = [](const Model& m, std::map<i64, const MRec*>& t, std::map<std::string, int>& u, std::string* e) { for (auto& x : m.recs) { if (!x.second.f.empty() && x.second.f[0].t == WG_INTTYPE) { if (t.count(x.second.f[0].i)) *e = "record " + std::to_string(x.second.f[0].i - 1000) + " is there twice"; t[x.second.f[0].i] = &x.second; } else u[rser(x.second, m)]++; } };
  put(m, ta, a, &err); put(r, tb, b, &err); if (!err.empty()) return err;
  for (auto& x : ta) { auto y = tb.find(x.first); if (y == tb.end()) return "#" + std::to_string(x.first - 1000) + " is missing"; const MRec &p = *x.second, &q = *y->second; if (p.f.size() != q.f.size()) return "#" + std::to_string(x.first - 1000) + " has " + std::to_string(q.f.size()) + " fields instead of " + std::to_string(p.f.size()); for (size_t c = 0; c < p.f.size(); c++) if (serial(p.f[c], m, 0) != serial(q.f[c], r, 0)) return "field " + std::to_string(c) + " of #" + std::to_string(x.first - 1000) + " is " + serial(q.f[c], r, 0) + " instead of " + serial(p.f[c], m, 0); }
  for (auto& y : tb) if (!ta.count(y.first)) return "#" + std::to_string(y.first - 1000) + " should not exist";
  if (a != b) { for (auto& x : a) if (b[x.first] != x.second) return "a record without a tag is missing: " + x.first; for (auto& x : b) if (a[x.first] != x.second) return "an unexpected record without a tag: " + x.first; }
  return "";
}
void adopt(void* db, const Model& m, bool with_idx) { // requires compare_tagged() == ""
  std::string err; Model r = read_all(db, &err), n; n.nextid = m.nextid; n.idx = m.idx; std::map<int, int> map; std::set<int> usedm;
  std::map<i64, int> tg; std::multimap<std::string, int> un; for (auto& x : m.recs) { if (!x.second.f.empty() && x.second.f[0].t == WG_INTTYPE) tg[x.second.f[0].i] = x.first; else un.insert({rser(x.second, m), x.first}); }
  for (auto& x : r.recs) { int id; if (!x.second.f.empty() && x.second.f[0].t == WG_INTTYPE && tg.count(x.second.f[0].i)) id = tg[x.second.f[0].i]; else { auto it = un.find(rser(x.second, r)); if (it == un.end()) violate("recovered", "internal: cannot match a record"); id = it->second; un.erase(it); } map[x.first] = id; }
  for (auto& x : r.recs) { MRec q = x.second; q.id = map[x.first]; for (auto& v : q.f) if (v.t == WG_RECORDTYPE) v.ref = map[v.ref]; n.add(q); }
  (void)with_idx; W.m = n;
}
