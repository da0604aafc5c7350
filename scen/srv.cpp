// C22, C23: the network server under simulated threads, sockets, clients and faults.
#include "srvcommon.h"
static std::string lit(const char* f, ...) { char b[4096]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap); return b; }
// ---------------------------------------------------------------- rendering as documented
static std::string esc_str(const std::string& s, int esc) {
  std::string o; static const char* hx = "0123456789abcdef";
  for (unsigned char c : s) {
    if (esc == 0) o += c;
    else if (esc == 3) { if (c == '"') o += "\"\""; else o += c; }
    else if (esc == 1) { if (c < ' ' || c == '%' || c == '"' || c == '\\' || c > 126) { o += '%'; o += hx[c >> 4]; o += hx[c & 15]; } else o += c; }
    else switch (c) {
      case '\b': o += "\\b"; break; case '\n': o += "\\n"; break; case '\r': o += "\\r"; break; case '\t': o += "\\t"; break; case '\f': o += "\\f"; break;
      case '"': o += "\\\""; break; case '\\': o += "\\\\"; break; case '/': o += "\\/"; break;
      default: if (c < ' ') { o += "\\u00"; o += hx[c >> 4]; o += hx[c & 15]; } else o += c; }
  }
  return o;
}
static std::string q2(const std::string& s, int esc) { return "\"" + esc_str(s, esc) + "\""; }
std::string render_row(const States& st, const State& s, const Row& r, const Query& q, int depth) {
  std::string o; int esc = q.fmt ? q.esc : 3; int maxd = q.fmt ? (q.depth > 10000 ? 10000 : q.depth) : 0; bool first = true;
  if (q.fmt) o += "[";
  if (q.showid) { o += lit("%lld", (long long)r.off); first = false; }
  for (auto& v : r.f) {
    if (!first) o += ","; first = false;
    switch (v.t) {
      case WG_NULLTYPE: if (q.fmt) o += "[]"; break;
      case WG_INTTYPE: o += lit("%lld", (long long)v.i); break;
      case WG_DOUBLETYPE: case WG_FIXPOINTTYPE: o += lit("%g", v.d); break;
      case WG_STRTYPE: o += "\"" + esc_str(v.s, esc) + (v.hasx ? "@" + esc_str(v.x, esc) : "") + "\""; break;
      case WG_URITYPE: o += "\"" + (v.hasx ? esc_str(v.x, esc) + ":" : "") + esc_str(v.s, esc) + "\""; break;
      case WG_XMLLITERALTYPE: o += "\"" + esc_str(v.x, esc) + ":" + esc_str(v.s, esc) + "\""; break;
      case WG_CHARTYPE: o += q2(std::string(1, (char)v.i), esc); break;
      case WG_DATETYPE: case WG_TIMETYPE: o += "\"" + v.s + "\""; break;
      case WG_VARTYPE: o += lit("\"?%lld\"", (long long)v.i); break;
      case WG_BLOBTYPE: o += q2(v.s, 1); break;
      case WG_RECORDTYPE: { auto i = s.find(v.ref); const Row& t = *i->second; if (!q.fmt || depth >= maxd) o += lit("%lld", (long long)t.off); else o += render_row(st, s, t, q, depth + 1); break; }
    }
  }
  if (q.fmt) o += "]";
  return o;
}
static int cmpv(const V& a, const V& b, bool* eqonly) { // same type assumed
  *eqonly = false;
  if (a.t == WG_INTTYPE) return a.i < b.i ? -1 : a.i > b.i; if (a.t == WG_DOUBLETYPE) return a.d < b.d ? -1 : a.d > b.d;
  if (a.t == WG_CHARTYPE) return a.i < b.i ? -1 : a.i > b.i; if (a.t == WG_NULLTYPE) return 0;
  int c = strcmp(a.s.c_str(), b.s.c_str()); return c < 0 ? -1 : c > 0;
}
bool row_matches(const Row& r, const Query& q) {
  if (q.byid) return std::find(q.ids.begin(), q.ids.end(), r.off) != q.ids.end();
  for (auto& c : q.conds) {
    if (c.col >= (int)r.f.size()) return false; const V& a = r.f[c.col]; bool eq; bool ok;
    if (a.t != c.v.t || (a.t == WG_STRTYPE && a.hasx)) ok = c.cmp == "not_equal"; // the generator only compares unlike types for (in)equality
    else { int k = cmpv(a, c.v, &eq); ok = c.cmp == "equal" ? k == 0 : c.cmp == "not_equal" ? k != 0 : c.cmp == "lessthan" ? k < 0 : c.cmp == "greater" ? k > 0 : c.cmp == "ltequal" ? k <= 0 : k >= 0; }
    if (!ok) return false;
  }
  return true;
}
// ---------------------------------------------------------------- history
enum { H_WRITE, H_SEARCH, H_COUNT, H_DELETE };
struct Hop { u64 inv, res; bool maybe = false; int kind; Query q; std::vector<std::string> rows; i64 num = 0; std::vector<RowP> put; std::vector<int> del; std::string db, what; };
struct Hist {
  std::vector<Hop> ops; States init; u64 steps; std::set<std::string> seen; bool gaveup; std::string why;
  bool apply(const Hop& h, States& st, bool effect, std::string* why) {
    State& s = st[h.db];
    if (h.kind == H_WRITE) { if (effect) { for (int d : h.del) s.erase(d); for (auto& r : h.put) s[r->key] = r; } return true; }
    std::vector<int> m; if (h.q.byid) { for (i64 id : h.q.ids) for (auto& r : s) if (r.second->off == id && (h.kind != H_DELETE || std::find(m.begin(), m.end(), r.first) == m.end())) m.push_back(r.first); } else for (auto& r : s) if (row_matches(*r.second, h.q)) m.push_back(r.first);
    i64 n = m.size(), from = h.q.from > 0 ? h.q.from : 0; if (h.q.byid) from = 0; i64 exp = n > from ? n - from : 0; if (h.q.count >= 0 && exp > h.q.count) exp = h.q.count;
    if (h.kind == H_COUNT) { if (h.maybe) return true; if (h.num != exp) { *why = lit("%lld reported, %lld expected", (long long)h.num, (long long)exp); return false; } return true; }
    if (h.kind == H_DELETE) { if (h.maybe && !effect) return true; if (!h.maybe && h.num != exp) { *why = lit("%lld deleted, %lld expected", (long long)h.num, (long long)exp); return false; } if (exp == n) for (int k : m) s.erase(k); return true; }
    if (h.maybe) return true;
    if ((i64)h.rows.size() != exp) { *why = lit("%zu rows returned, %lld expected", h.rows.size(), (long long)exp); return false; }
    std::multiset<std::string> want; for (int k : m) want.insert(render_row(st, s, *s[k], h.q, 0));
    for (auto& r : h.rows) { auto i = want.find(r); if (i == want.end()) { *why = "unexpected row " + r.substr(0, 300) + (m.size() ? "  (a matching row: " + (want.empty() ? std::string("-") : want.begin()->substr(0, 300)) + ")" : ""); return false; } want.erase(i); }
    return true;
  }
  std::string key(const std::vector<char>& done, const States& st) { std::string k(done.begin(), done.end()); for (auto& d : st) { k += d.first; for (auto& r : d.second) { k += ',' ; k += std::to_string(r.first) + ":" + std::to_string((u64)r.second.get()); } k += ';'; } return k; }
  bool dfs(std::vector<char>& done, size_t nd, States& st) {
    if (nd == ops.size()) return true; if (++steps > 30000) { gaveup = true; return true; }
    if (!seen.insert(key(done, st)).second) return false;
    u64 minres = ~0ULL; for (size_t i = 0; i < ops.size(); i++) if (!done[i] && ops[i].res < minres) minres = ops[i].res;
    for (size_t i = 0; i < ops.size(); i++) if (!done[i] && ops[i].inv <= minres) for (int eff = 1; eff >= 0; eff--) {
      if (!eff && !ops[i].maybe) continue; States s2 = st; std::string w; if (!apply(ops[i], s2, eff, &w)) { if (why.size() < 2000) why = "[" + ops[i].what + ": " + w + "]"; continue; }
      done[i] = 1; if (dfs(done, nd + 1, s2)) return true; done[i] = 0;
    }
    return false;
  }
  void check() { steps = 0; gaveup = false; std::vector<char> done(ops.size(), 0); States st = init; seen.clear(); if (!dfs(done, 0, st)) violate("server-result", "the responses do not fit any order of the requests and transactions; e.g. %s", why.c_str()); if (gaveup) probe("history-gave-up"); }
};
static Hist H; static States ST0;
// ---------------------------------------------------------------- configuration
struct Conf { bool used = false; std::vector<std::string> dbases, aips, wips, rips, atok, wtok, rtok; std::string defdb; i64 maxsize = -1, defsize = -1; };
static Conf CF; static bool g_slow, g_malloc, g_done; static int g_keyseq; static std::vector<std::string> DBS;
static bool inl(const std::string* s, const std::vector<std::string>& l, bool eq) { if (l.empty()) return true; if (!s || s->empty()) return false; for (auto& x : l) if (eq ? x == *s : s->compare(0, x.size(), x) == 0) return true; return false; }
static bool allowed(int level, const std::string& db, const std::string& ip, const std::string* tok) { // 0 admin 1 write 2 read
  if (!inl(&db, CF.dbases, true)) return false;
  bool a = inl(&ip, CF.aips, false) || (level >= 1 && inl(&ip, CF.wips, false)) || (level >= 2 && inl(&ip, CF.rips, false)); if (!a) return false;
  return inl(tok, CF.atok, true) || (level >= 1 && inl(tok, CF.wtok, true)) || (level >= 2 && inl(tok, CF.rtok, true));
}
static void gen_conf() {
  CF = Conf(); if (chance(SW, 1, 2)) return; CF.used = true;
  static const char* ips[] = {"10.", "10.0.0.1", "10.0.0.2", "192.168.1.", "10.0.0."}; static const char* toks[] = {"alpha", "beta", "gamma", "al"};
  auto fill = [&](std::vector<std::string>& l, const char** from, int n) { if (chance(SW, 1, 2)) { int k = 1 + choose(SW, 4); for (int i = 0; i < k; i++) l.push_back(from[choose(SW, n)]); } };
  fill(CF.aips, ips, 5); fill(CF.wips, ips, 5); fill(CF.rips, ips, 5); fill(CF.atok, toks, 4); fill(CF.wtok, toks, 4); fill(CF.rtok, toks, 4);
  if (chance(SW, 1, 3)) { for (auto& d : DBS) if (chance(SW, 2, 3)) CF.dbases.push_back(d); if (CF.dbases.empty()) CF.dbases.push_back(DBS[0]); if (chance(SW, 1, 2)) CF.dbases.push_back("2001"); }
  if (chance(SW, 1, 3)) CF.defdb = DBS[choose(SW, DBS.size())];
  if (chance(SW, 1, 3)) CF.maxsize = 400000 + choose(SW, 3) * 300000; if (chance(SW, 1, 3)) CF.defsize = 300000 + choose(SW, 5) * 100000;
  std::string t; auto cm = [&] { if (chance(SW, 1, 4)) t += "# comment = x\n"; if (chance(SW, 1, 6)) t += "\n"; if (chance(SW, 1, 6)) t += "   \n"; };
  auto put = [&](const char* k, const std::vector<std::string>& l) { if (l.empty()) return; cm(); t += k; if (chance(SW, 1, 4)) t += " "; t += "="; for (size_t i = 0; i < l.size(); i++) { if (i) t += chance(SW, 1, 2) ? "  " : "\t"; else if (chance(SW, 1, 4)) t += " "; t += l[i]; if (chance(SW, 1, 6)) t += " # c"; t += chance(SW, 1, 5) ? "\r\n" : "\n"; } };
  if (chance(SW, 1, 6)) t += "#" + std::string(200 + choose(SW, 3000), '-') + "\n";
  if (!CF.defdb.empty()) put("default_dbase", {CF.defdb}); if (CF.maxsize >= 0) put("max_dbase_size", {std::to_string(CF.maxsize)}); if (CF.defsize >= 0) put("default_dbase_size", {std::to_string(CF.defsize)});
  put("dbases", CF.dbases); put("admin_ips", CF.aips); put("write_ips", CF.wips); put("read_ips", CF.rips); put("admin_tokens", CF.atok); put("write_tokens", CF.wtok); put("read_tokens", CF.rtok);
  if (chance(SW, 1, 5) && !t.empty() && t.back() == '\n') { t.pop_back(); if (!t.empty() && t.back() == '\r') t.pop_back(); }
  if (chance(SW, 1, 30)) t = "# " + std::string((30 + choose(SW, 90)) * 10000, 'c') + "\n" + t; if (chance(SW, 1, 10)) { if (!t.empty() && t.back() != '\n') t += "\n"; t += "  \t"; }
  if (chance(SW, 1, 8)) { static const int szs[] = {999, 1000, 1001, 1999, 2000, 2001}; size_t z = szs[choose(SW, 6)]; if (t.size() + 3 < z) t = "#" + std::string(z - t.size() - 2, '-') + "\n" + t; }
  fs_put("/conf.txt", t.empty() ? "# nothing\n" : t);
}
// ---------------------------------------------------------------- rows
static std::string gen_text() {
  static const char* al[] = {"a", "b", "word", "\"", "\\", "/", "%", "\n", "\t", "\x01", "\xc3\xa4", ",", "'", "<x>", "&", "=", "\r", "\x7f", ":", "@", " "}; std::string s; int n = choose(SW, 8); for (int i = 0; i < n; i++) s += al[choose(SW, 21)];
  if (chance(SW, 1, 12)) { std::string b = s.empty() ? "x" : s; size_t k = 50 + choose(SW, 1500); while (s.size() < k) s += b; } return s;
}
static const char* GRPS[] = {"red", "green", "blue", "dark red", "a&b=c", "50%"};
static V mkv(int t) { V v; v.t = t; return v; }
static V gen_payload(const std::vector<int>& refs) {
  V v; static const int ty[] = {WG_NULLTYPE, WG_INTTYPE, WG_STRTYPE, WG_STRTYPE, WG_STRTYPE, WG_URITYPE, WG_XMLLITERALTYPE, WG_CHARTYPE, WG_DATETYPE, WG_TIMETYPE, WG_VARTYPE, WG_BLOBTYPE, WG_DOUBLETYPE, WG_FIXPOINTTYPE, WG_RECORDTYPE};
  v.t = ty[choose(SW, refs.empty() ? 14 : 15)];
  switch (v.t) {
    case WG_INTTYPE: { static const i64 sp[] = {0, -1, 2147483647LL, 2147483648LL, -2147483649LL, 5000000000LL, 42}; v.i = sp[choose(SW, 7)]; break; }
    case WG_STRTYPE: v.s = gen_text(); v.hasx = chance(SW, 1, 4); if (v.hasx) v.x = chance(SW, 1, 4) ? "x-" + std::string(1 + choose(SW, 120), 'l') : "en"; break;
    case WG_URITYPE: v.s = gen_text() + "u"; v.hasx = chance(SW, 1, 2); if (v.hasx) v.x = chance(SW, 1, 3) ? "p\"q" : "ns"; break;
    case WG_XMLLITERALTYPE: v.s = gen_text() + "x"; v.x = chance(SW, 1, 3) ? "t\\y" : "xsd:t"; v.hasx = true; break;
    case WG_CHARTYPE: v.i = "a\"\\z,/"[choose(SW, 6)]; break;
    case WG_VARTYPE: v.i = choose(SW, 1000); break;
    case WG_BLOBTYPE: { int n = 1 + choose(SW, 60); if (chance(SW, 1, 8)) n = 700; for (int i = 0; i < n; i++) v.s += (char)choose(SW, 256); break; }
    case WG_DOUBLETYPE: { static const double sp[] = {0.5, -1.25, 1e20, 3.0, 123456.789}; v.d = sp[choose(SW, 5)]; break; }
    case WG_FIXPOINTTYPE: v.d = (double)(i64)choose(SW, 1600) / 2.0 - 400; break;
    case WG_DATETYPE: v.i = 100 + choose(SW, 1000000); break; case WG_TIMETYPE: v.i = choose(SW, 8640000); break;
    case WG_RECORDTYPE: v.ref = refs[choose(SW, refs.size())]; break;
  }
  return v;
}
static i64 encv(void* db, V& v, const State& s) {
  switch (v.t) {
    case WG_NULLTYPE: return wg_encode_null(db, 0); case WG_INTTYPE: return wg_encode_int(db, v.i); case WG_DOUBLETYPE: return wg_encode_double(db, v.d); case WG_FIXPOINTTYPE: return wg_encode_fixpoint(db, v.d);
    case WG_STRTYPE: return wg_encode_str(db, (char*)v.s.c_str(), v.hasx ? (char*)v.x.c_str() : nullptr); case WG_URITYPE: return wg_encode_uri(db, (char*)v.s.c_str(), v.hasx ? (char*)v.x.c_str() : nullptr);
    case WG_XMLLITERALTYPE: return wg_encode_xmlliteral(db, (char*)v.s.c_str(), (char*)v.x.c_str()); case WG_CHARTYPE: return wg_encode_char(db, v.i);
    case WG_DATETYPE: { char b[80]; wg_strf_iso_datetime(db, v.i, 0, b); v.s = std::string(b, 10); return wg_encode_date(db, v.i); } case WG_TIMETYPE: { char b[80]; wg_strf_iso_datetime(db, 1, v.i, b); v.s = b + 11; return wg_encode_time(db, v.i); }
    case WG_VARTYPE: return wg_encode_var(db, v.i); case WG_BLOBTYPE: return wg_encode_blob(db, (char*)v.s.data(), nullptr, v.s.size());
    case WG_RECORDTYPE: return s.at(v.ref)->off;
  }
  return WG_ILLEGAL;
}
static RowP make_row(void* db, const State& s, const std::vector<int>& refs, int group) { // creates a record: key, group, word, double, then anything
  auto r = std::make_shared<Row>(); r->key = ++g_keyseq; V a = mkv(WG_INTTYPE); a.i = r->key; V b = mkv(WG_INTTYPE); b.i = group; V c = mkv(WG_STRTYPE); c.s = GRPS[choose(SW, 6)]; V d = mkv(WG_DOUBLETYPE); d.d = choose(SW, 8) * 0.5; V e; if (chance(SW, 1, 2)) { e.t = WG_CHARTYPE; e.i = 'a' + choose(SW, 3); }
  r->f = {a, b, c, d, e}; int n = choose(SW, 5); for (int i = 0; i < n; i++) r->f.push_back(gen_payload(refs));
  void* rec = wg_create_record(db, r->f.size()); if (!rec) return nullptr; r->off = wg_encode_record(db, rec);
  for (size_t i = 0; i < r->f.size(); i++) { i64 en = encv(db, r->f[i], s); if (en == WG_ILLEGAL || wg_set_field(db, rec, i, en)) violate("setup", "cannot store a field"); }
  return r;
}
// ---------------------------------------------------------------- requests
static std::string urlenc(const std::string& s) { std::string o; for (unsigned char c : s) { bool safe = isalnum(c) || strchr("-_.~", c); if (safe && !chance(SW, 1, 30)) o += c; else { char b[8]; snprintf(b, sizeof b, chance(SW, 1, 2) ? "%%%02X" : "%%%02x", c); o += b; } } return o; }
enum { E_OK, E_ERR, E_ANY };
struct Req { Query q; std::string query; int expect = E_OK; std::string what; int level = 2; bool hist = false; };
static int minus1(int) { return -1; }
static std::string q_string(Query& q, const std::vector<std::string>& extra) {
  std::vector<std::string> ps; ps.push_back("op=" + q.op); if (!q.db.empty()) ps.push_back("db=" + q.db);
  for (auto& c : q.conds) { ps.push_back("field=" + std::to_string(c.col)); ps.push_back("value=" + urlenc(c.text)); if (c.withcmp) ps.push_back("compare=" + c.cmp); if (c.withtype) ps.push_back("type=" + c.type); }
  if (q.byid) { std::string l; for (i64 i : q.ids) { if (!l.empty()) l += ","; l += std::to_string(i); } ps.push_back("recids=" + l); }
  if (q.from >= 0) ps.push_back("from=" + std::to_string(q.from)); if (q.count >= 0) ps.push_back("count=" + std::to_string(q.count));
  if (q.showid) ps.push_back("showid=yes"); if (!q.fmt) ps.push_back("format=csv"); if (q.hasesc) ps.push_back(q.esc == 0 ? "escape=no" : q.esc == 1 ? "escape=url" : "escape=json"); if (q.depth != 100) ps.push_back("depth=" + std::to_string(q.depth));
  if (q.hasjsonp) ps.push_back("jsonp=" + q.jsonp); if (q.hastoken) ps.push_back("token=" + urlenc(q.token)); if (q.size >= 0) ps.push_back("size=" + std::to_string(q.size)); if (chance(SW, 1, 6)) ps.push_back("_=123");
  for (auto& e : extra) ps.push_back(e);
  std::string s; for (auto& p : ps) { if (!s.empty()) s += "&"; s += p; } return s;
}
static std::string g_ips[] = {"10.0.0.1", "10.0.0.2", "10.0.0.12", "192.168.1.7", "172.16.0.1"};
static const State* cur_state(const std::string& db) { auto i = ST0.find(db); return i == ST0.end() ? nullptr : &i->second; }
static Req gen_req(const std::string& ip, int myno, std::set<std::string>& mydbs) {
  Req r; Query& q = r.q; unsigned k = weighted(SW, {30, 8, optl("readonly", 0) ? 0u : 10u, 8, 8, 14});
  if (chance(SW, 2, 3)) q.db = DBS[choose(SW, DBS.size())]; std::string eff = !q.db.empty() ? q.db : !CF.defdb.empty() ? CF.defdb : "1000"; bool exists = std::find(DBS.begin(), DBS.end(), eff) != DBS.end();
  if (!CF.atok.empty() || !CF.wtok.empty() || !CF.rtok.empty() ? chance(SW, 4, 5) : chance(SW, 1, 8)) { static const char* t[] = {"alpha", "beta", "gamma", "al", "alphax"}; q.hastoken = true; q.token = t[choose(SW, 5)]; }
  const std::string* tok = q.hastoken ? &q.token : nullptr; std::vector<std::string> extra;
  if (chance(SW, 1, 4)) { q.hasjsonp = true; q.jsonp = chance(SW, 1, 5) ? std::string(20 + choose(SW, 1400), 'f') : "cb"; }
  if (k <= 2) { // search count delete
    static const char* ops[] = {"search", "count", "delete"}; q.op = k == 0 && chance(SW, 1, 5) ? "select" : ops[k]; r.level = k == 2 ? 1 : 2; r.hist = true;
    unsigned how = weighted(SW, {2, 6, 2}); if (k == 2) how = weighted(SW, {eff == "1001" ? 2u : 0u, 6, 2});
    const State* s = cur_state(eff);
    if (how == 1) { int n = 1 + choose(SW, 3); if (n == 3) n = 1; for (int i = 0; i < n; i++) { Cond c; c.col = choose(SW, 5); static const char* cm[] = {"equal", "not_equal", "lessthan", "greater", "ltequal", "gtequal"}; c.cmp = cm[choose(SW, 6)];
        if (k == 2) { c.col = choose(SW, 2) ? 1 : 0; if (c.col == 1) c.cmp = "equal"; }
        switch (c.col) { case 0: c.v = mkv(WG_INTTYPE); c.v.i = 1 + choose(SW, 30); c.text = std::to_string(c.v.i); c.type = "int"; break; case 1: c.v = mkv(WG_INTTYPE); c.v.i = choose(SW, 4); c.text = std::to_string(c.v.i); c.type = "int"; break;
          case 2: c.v = mkv(WG_STRTYPE); c.v.s = GRPS[choose(SW, 6)]; c.text = c.v.s; c.type = "str"; if (choose(SW, 2)) c.cmp = "equal"; break; case 3: c.v = mkv(WG_DOUBLETYPE); c.v.d = choose(SW, 8) * 0.5; c.text = lit("%.1f", c.v.d); c.type = "double"; break;
          case 4: if (choose(SW, 2)) { c.v = mkv(WG_NULLTYPE); c.text = "x"; c.type = "null"; } else { c.v = mkv(WG_CHARTYPE); c.v.i = 'a' + choose(SW, 3); c.text = std::string(1, (char)c.v.i); c.type = "char"; } if (c.cmp != "not_equal") c.cmp = "equal"; break; }
        c.withcmp = n > 1 || c.cmp != "equal" || chance(SW, 1, 2); c.withtype = n > 1 || c.col == 4 || chance(SW, 1, 2);
        q.conds.push_back(c); }
      if (k == 2) { bool safe = false; for (auto& c : q.conds) if (c.col == 1 && c.v.i != 3) safe = true; if (!safe) { Cond c; c.col = 1; c.cmp = "equal"; c.v = mkv(WG_INTTYPE); c.v.i = choose(SW, 3); c.text = std::to_string(c.v.i); c.type = "int"; for (auto& d : q.conds) d.withcmp = d.withtype = true; q.conds.push_back(c); } } }
    else if (how == 2 && s) { q.byid = true; int n = 1 + choose(SW, 4); std::set<i64> u; std::vector<i64> targets;
      for (auto& x : *s) { if (x.second->f[1].i == 3) targets.push_back(x.second->off); if ((x.second->f[1].i == 3 ? k != 2 : chance(SW, 1, 3)) && n-- > 0 && u.insert(x.second->off).second) q.ids.push_back(x.second->off); }
      while (chance(SW, 1, 4)) { i64 id = 0; switch (choose(SW, 5)) { case 0: id = 1 + choose(SW, 100000); break; case 1: id = 2147483640 - choose(SW, 100000); break; case 2: id = q.ids.empty() ? 8 : q.ids[choose(SW, q.ids.size())] + 8 * choose(SW, 5); break; case 3: id = q.ids.empty() ? 600000 : q.ids[choose(SW, q.ids.size())]; break; case 4: id = 599980 + choose(SW, 40); break; }
        if (k == 2 && std::find(targets.begin(), targets.end(), id) != targets.end()) continue; q.ids.insert(q.ids.begin() + choose(SW, q.ids.size() + 1), id); }
      if (q.ids.empty()) { q.byid = false; if (k == 2) { Cond c; c.col = 1; c.cmp = "equal"; c.v = mkv(WG_INTTYPE); c.v.i = 0; c.text = "0"; c.type = "int"; q.conds.push_back(c); } } }

    if (k != 2 && !q.byid && chance(SW, 1, 4)) q.from = choose(SW, 12); if (k != 2 && chance(SW, 1, 4)) q.count = choose(SW, 12);
    q.showid = chance(SW, 1, 4); if (k == 0 && chance(SW, 1, 4)) q.fmt = 0; if (k == 2 && chance(SW, 1, 6)) { if (chance(SW, 1, 2) && !q.byid) q.from = chance(SW, 1, 2) ? 0 : 1000; else q.count = chance(SW, 1, 2) ? 0 : 1000; }
    if (chance(SW, 1, 4)) { q.hasesc = true; q.esc = choose(SW, 3); } if (chance(SW, 1, 5)) { static const int ds[] = {0, 1, 2, 3, 99, 101, 20000}; q.depth = ds[choose(SW, 7)]; }
    r.expect = allowed(r.level, eff, ip, tok) && exists ? E_OK : E_ERR;
  } else if (k == 3) { q.op = "create"; r.level = 0; q.db = std::to_string(2000 + myno); if (chance(SW, 1, 2)) { q.size = 200000 + choose(SW, 12) * 100000; }
    i64 sz = q.size > 0 ? q.size : CF.defsize >= 0 ? CF.defsize : 10000000; i64 mx = CF.maxsize >= 0 ? CF.maxsize : 1000000000; bool had = mydbs.count(q.db); r.expect = allowed(0, q.db, ip, tok) && sz <= mx && sz > 0 ? E_OK : E_ERR; if (r.expect == E_OK) { if (!had && (sz > 3000000 || sz < 300000)) r.expect = E_ANY; if (had) { Seg* g = shm_find(atoll(q.db.c_str())); if (g && (i64)g->size < sz) r.expect = E_ERR; } }
  } else if (k == 4) { q.op = "drop"; r.level = 0; q.db = std::to_string(2000 + myno); r.expect = allowed(0, q.db, ip, tok) && mydbs.count(q.db) ? E_OK : E_ERR;
  } else { // requests that must be refused
    r.expect = E_ERR; q.op = "search"; unsigned b = choose(SW, 10);
    switch (b) { case 0: q.op = "explode"; break; case 1: extra.push_back("nonsense=1"); break; case 2: extra.push_back("field=abc"); extra.push_back("value=1"); break; case 3: extra.push_back("field=1"); break;
      case 4: extra.push_back("field=1"); extra.push_back("value=1"); extra.push_back("compare=like"); break; case 5: extra.push_back("field=2"); extra.push_back("value=red"); extra.push_back("field=1"); extra.push_back("value=x1"); extra.push_back("type=str"); extra.push_back("type=int"); break;
      case 6: extra.push_back("showid=maybe"); break; case 7: extra.push_back("jsonq=" + std::string(2100, 'z')); break; case 8: q.db = "abc"; break; case 9: extra.push_back("field=2"); extra.push_back("value=red"); extra.push_back("field=1"); extra.push_back("type=str"); break; }
  }
  r.query = q_string(q, extra); if (r.query.size() > 2000) r.expect = E_ERR; r.what = r.query.substr(0, 200) + " from " + ip;
  q.db = eff.empty() || k >= 3 ? q.db : eff; return r;
}
static std::string http(Req& r, const std::string& query, bool* valid) {
  std::string m; bool post = chance(SW, 1, 3); *valid = true; const char* nl = "\r\n";
  auto hdrs = [&] { std::string h; int n = choose(SW, 4); for (int i = 0; i < n; i++) h += lit("X-Header-%d: %s\r\n", i, std::string(choose(SW, chance(SW, 1, 10) ? 3000 : 60), 'v').c_str()); return h; };
  if (!post) return "GET /dserve?" + query + " HTTP/1.1" + nl + (chance(SW, 1, 8) ? "" : "Host: x" + std::string(nl) + hdrs() + nl);
  std::string cl = (chance(SW, 1, 2) ? "Content-Length: " : "content-length: ") + std::to_string(query.size()) + nl; std::string ct = chance(SW, 1, 2) ? "Content-Type: application/x-www-form-urlencoded" + std::string(nl) : "";
  return "POST /dserve HTTP/1.1" + std::string(nl) + hdrs() + (chance(SW, 1, 2) ? ct + cl : cl + ct) + nl + query;
}
// splits the elements of a JSON list, or the rows of CSV, without interpreting them
static bool split_json(const std::string& b, std::vector<std::string>& out, bool bs) {
  size_t i = 0, n = b.size(); if (n < 2 || b[0] != '[') return false; i = 1; int depth = 0; bool str = false, any = false; std::string cur; bool closed = false;
  for (; i < n; i++) { char c = b[i];
    if (str) { cur += c; if (c == '\\' && bs && i + 1 < n) cur += b[++i]; else if (c == '"') str = false; continue; }
    if (c == '"') { str = true; cur += c; any = true; continue; } if (c == '[') { depth++; cur += c; any = true; continue; }
    if (c == ']') { if (!depth) { if (any) out.push_back(cur); closed = true; i++; break; } depth--; cur += c; continue; }
    if (c == ',' && !depth) { out.push_back(cur); cur.clear(); any = false; if (i + 1 < n && b[i + 1] == '\n') i++; continue; }
    if (!depth && (c == '\n')) continue; cur += c; any = true; }
  return closed && i == n;
}
static bool split_raw(const std::string& b, std::vector<std::string>& out) { // strings are not escaped: rows end with a bracket before the separator
  if (b.size() < 4 || b.compare(0, 2, "[\n") || b.compare(b.size() - 2, 2, "\n]")) return false; out.push_back(b.substr(2, b.size() - 4)); return true;
}
static void check_body(Req& r, const std::string& body, u64 inv, u64 res) {
  std::string b = body; Query& q = r.q; EV(0x7A0, body.size(), 0, "response to %s: %s", r.what.c_str(), body.substr(0, 200).c_str());
  bool err = b.compare(0, 8, "\"ERROR: ") == 0 || (q.hasjsonp && b.compare(0, q.jsonp.size() + 9, q.jsonp + "(\"ERROR: ") == 0);
  if (b.empty() && g_malloc) err = true;
  if (err) { if (r.expect == E_OK && !(g_malloc) && !(g_slow && b.find("database locked") != std::string::npos)) violate("server-result", "%s was refused: %s", r.what.c_str(), b.substr(0, 200).c_str());
    if (r.hist && r.q.op == "delete" && r.expect == E_OK) { Hop o; o.inv = inv; o.res = ~0ULL; o.maybe = true; o.kind = H_DELETE; o.q = q; o.db = q.db; o.what = r.what; H.ops.push_back(o); } return; }
  if (r.expect == E_ERR) violate("server-result", "%s was accepted: %s", r.what.c_str(), b.substr(0, 200).c_str());
  if (r.expect == E_ANY && !r.hist) return;
  if (q.hasjsonp && q.fmt) { std::string a = q.jsonp + "("; if (b.compare(0, a.size(), a) || b.size() < a.size() + 2 || b.compare(b.size() - 2, 2, ");")) violate("server-result", "%s: not wrapped into a function call: %s", r.what.c_str(), b.substr(0, 200).c_str()); b = b.substr(a.size(), b.size() - a.size() - 2); }
  if (!r.hist) { if (b != "1") violate("server-result", "%s answered %s", r.what.c_str(), b.substr(0, 200).c_str()); return; }
  Hop o; o.inv = inv; o.res = res; o.q = q; o.db = q.db; o.what = r.what; o.kind = q.op == "count" ? H_COUNT : q.op == "delete" ? H_DELETE : H_SEARCH;
  if (o.kind != H_SEARCH) { char* e; o.num = strtoll(b.c_str(), &e, 10); if (b.empty() || *e) violate("server-result", "%s answered %s", r.what.c_str(), b.substr(0, 200).c_str()); }
  else if (q.fmt) { if (q.esc == 0) { // rows cannot be told apart: compare the whole text in the sequential case only
      o.maybe = true; std::vector<std::string> x; if (!split_raw(b, x)) violate("server-result", "%s answered %s", r.what.c_str(), b.substr(0, 200).c_str()); }
    else if (!split_json(b, o.rows, q.esc == 2)) violate("server-result", "%s: the body is not a list: %s ... %s", r.what.c_str(), b.substr(0, 300).c_str(), b.size() > 300 ? b.substr(b.size() - 60).c_str() : ""); }
  else { std::string cur; bool str = false; for (size_t i = 0; i < b.size(); i++) { char c = b[i]; if (c == '"') str = !str; if (!str && c == '\r' && i + 1 < b.size() && b[i + 1] == '\n') { o.rows.push_back(cur); cur.clear(); i++; } else cur += c; } if (!cur.empty() || str) violate("server-result", "%s: the CSV ends inside a row: %s", r.what.c_str(), cur.substr(0, 200).c_str()); }
  H.ops.push_back(o);
}
static void check_response(Req& r, const std::string& ip, const std::string& resp, u64 inv, u64 res) {
  size_t h = resp.find("\r\n\r\n"); if (h == std::string::npos || resp.compare(0, 15, "HTTP/1.0 200 OK")) violate("server-response", "malformed response to %s: %s", r.what.c_str(), resp.substr(0, 200).c_str());
  size_t cl = resp.find("Content-Length:"); if (cl == std::string::npos || cl > h) violate("server-response", "no Content-Length in the response to %s", r.what.c_str());
  std::string body = resp.substr(h + 4); i64 len = atoll(resp.c_str() + cl + 15); if ((u64)len != body.size()) violate("server-response", "Content-Length %lld but %zu bytes of body in the response to %s", (long long)len, body.size(), r.what.c_str());
  check_body(r, body, inv, res);
}
// ---------------------------------------------------------------- clients
static u64 gap() { static const u64 g[] = {0, 0, 1000, 100000, 5000000, 200000000, 1500000000}; return g[choose(SF, 7)]; }
static uint32_t ipnum(const std::string& s) { unsigned a, b, c, d; sscanf(s.c_str(), "%u.%u.%u.%u", &a, &b, &c, &d); return a << 24 | b << 16 | c << 8 | d; }
static u64 g_answered, g_broken, g_conns;
static void check_admin(Req& r, bool ok, std::set<std::string>& mydbs) {
      i64 key = atoll(r.q.db.c_str()); bool there = shm_find(key) != nullptr;
      if (ok && r.q.op == "create") { mydbs.insert(r.q.db); if (!there) violate("server-result", "%s reported success but the database does not exist", r.what.c_str()); if (r.q.size > 0 && (i64)shm_find(key)->size < r.q.size && 0) {} }
      if (ok && r.q.op == "drop") { mydbs.erase(r.q.db); if (there) violate("server-result", "%s reported success but the database is still there", r.what.c_str()); }
      if (!ok && !mydbs.count(r.q.db) && there && !g_malloc) violate("server-result", "%s was refused but created the database", r.what.c_str());
      if (!ok && mydbs.count(r.q.db) && !there && !g_malloc) violate("server-result", "%s was refused but dropped the database", r.what.c_str());
}
static void net_client(int no) {
  std::set<std::string> mydbs; int n = 1 + choose(SW, 4);
  for (int k = 0; k < n; k++) {
    sim_sleep_ns(1 + gap()); std::string ip = g_ips[choose(SW, 5)]; NConn* c = cl_connect(ipnum(ip), 1000 + choose(SW, 60000)); if (!c) violate("server-died", "the server does not listen any more"); g_conns++;
    if (chance(SF, 1, 12)) { c->getpeer_fail = true; ip = ""; } // the caller's address cannot be found out: not on any list
    static const size_t win[] = {65536, 1, 7, 100, 1460, 1000000}; c->window = win[choose(SF, 6)]; if (c->window < 100 && chance(SF, 3, 4)) c->window = 4000;
    unsigned mode = weighted(SF, {14, 2, 2, 1, 1, 1});
    Req r = gen_req(ip, no, mydbs); bool valid; std::string text = http(r, r.query, &valid);
    if (mode == 5) { static const char* bad[] = {"HEAD / HTTP/1.0\r\n\r\n", "GET / HTTP/1.0\r\n\r\n", "GET /x?\r\n", "POST /dserve HTTP/1.1\r\nHost: x\r\n\r\n", "\r\n", "GET\r\n", "PUT /dserve?op=search HTTP/1.1\r\n\r\n", "POST /dserve HTTP/1.1\r\nContent-Length: -5\r\n\r\n", "POST /dserve HTTP/1.1\r\nContent-Length: 2000000000\r\n\r\n"}; unsigned b = choose(SW, 11); text = b < 9 ? bad[b] : b == 9 ? std::string(12000, 'A') + "\r\n" : "GET /" + std::string(11000, 'B') + "?op=search HTTP/1.0\r\n\r\n"; r.expect = E_ERR; r.hist = false; r.q = Query(); r.what = "the malformed request " + text.substr(0, 40); }
    u64 inv = G.seq++; size_t cut = text.size(); bool brk = mode >= 1 && mode <= 4; if (mode == 1) cut = choose(SF, text.size() + 1); // cut off inside the request
    size_t p = 0; bool chunks = chance(SF, 1, 2); while (p < cut) { size_t m = cut - p; if (chunks) { m = 1 + choose(SF, 80); if (m > cut - p) m = cut - p; if (cut > 3000) m = cut - p > 1500 ? 1500 : cut - p; } cl_send(c, text.substr(p, m)); p += m; if (p < cut && chunks && chance(SF, 1, 3)) sim_sleep_ns(1 + gap()); else yield_point(); }
    auto maybe_del = [&] { if (r.hist && r.q.op == "delete" && r.expect == E_OK) { Hop o; o.inv = inv; o.res = ~0ULL; o.maybe = true; o.kind = H_DELETE; o.q = r.q; o.db = r.q.db; o.what = r.what; H.ops.push_back(o); } if (r.q.op == "create" || r.q.op == "drop") { mydbs.clear(); } };
    if (brk && mode <= 3) { // the client goes away: before, during or after the response
      if (mode == 2) sim_sleep_ns(1 + gap()); if (mode == 3) { std::string part; cl_wait(c, G.now + 100000000); cl_take(c, part, 1 + choose(SF, 200)); }
      cl_close(c, chance(SF, 1, 2)); g_broken++; maybe_del(); if (r.q.op == "create" || r.q.op == "drop") return; continue; }
    if (mode == 4 || chance(SF, 1, 3)) cl_fin(c);
    std::string resp; u64 slowread = chance(SF, 1, 4);
    for (;;) { if (!cl_wait(c, G.now + 400000000000ULL)) violate("server-hang", "no response to %s for 400 seconds (%zu bytes so far)", r.what.c_str(), resp.size()); size_t g = cl_take(c, resp, slowread ? 1 + choose(SF, 2000) : 1 << 20); if (!g && (c->s_fin || c->s_closed)) break; if (slowread && chance(SF, 1, 4)) sim_sleep_ns(1 + gap()); }
    u64 res = G.seq++; bool excused = c->recv_err || c->send_err;
    cl_close(c, false);
    if (excused) { g_broken++; maybe_del(); if (r.q.op == "create" || r.q.op == "drop") return; continue; }
    if (resp.empty()) violate("server-response", "connection closed without a response to %s", r.what.c_str());
    check_response(r, ip, resp, inv, res); g_answered++;
    bool ok = resp.find("\"ERROR: ") == std::string::npos && resp.find("\r\n\r\n") + 4 < resp.size();
    if (mode != 5 && (r.q.op == "create" || r.q.op == "drop")) { check_admin(r, ok, mydbs);
      if (!ok && g_malloc) return; }
  }
}
static void burst_client(int no) { // many connections at once
  int n = 20 + choose(SW, 110); std::vector<NConn*> cs; std::vector<Req> rs; std::set<std::string> none;
  for (int i = 0; i < n; i++) { NConn* c = cl_connect(ipnum(g_ips[0]), 1000 + i); if (!c) violate("server-died", "the server does not listen any more"); g_conns++; cs.push_back(c); cl_send(c, "GET /dserve?op=count&db=" + DBS[0] + " HTTP/1.0\r\n\r\n"); if (chance(SF, 1, 20)) sim_sleep_ns(1 + gap()); }
  for (int i = 0; i < n; i++) { std::string resp; for (;;) { if (!cl_wait(cs[i], G.now + 400000000000ULL)) violate("server-hang", "connection %d of %d opened at the same time is never answered", i, n); size_t g = cl_take(cs[i], resp, 1 << 20); if (!g && (cs[i]->s_fin || cs[i]->s_closed)) break; } bool ex = cs[i]->recv_err || cs[i]->send_err; cl_close(cs[i], false); if (!ex && resp.find("\r\n\r\n") == std::string::npos) violate("server-response", "connection %d of %d opened at the same time is closed without a response", i, n); g_answered++; }
}
static void writer(int proc, int no) {
  std::string dbn = DBS[choose(SW, DBS.size())]; void* db = wg_attach_existing_database((char*)dbn.c_str()); if (!db) violate("setup", "cannot attach");
  int n = 1 + choose(SW, 4); std::vector<RowP> mine;
  for (int k = 0; k < n; k++) {
    sim_sleep_ns(1 + gap()); Hop o; o.kind = H_WRITE; o.db = dbn; o.inv = G.seq++; wg_int l = wg_start_write(db); if (!l) { if (!g_slow) violate("server-lock", "a client cannot get the write lock while only short requests run"); continue; }
    State dummy; int m = 1 + choose(SW, 4); for (int i = 0; i < m; i++) { if (!mine.empty() && chance(SW, 1, 3)) { // delete one of its own, if it still exists
          RowP r = mine.back(); mine.pop_back(); if (r->f[1].i != 100 + no) continue; void* x = wg_get_first_record(db); while (x && wg_encode_record(db, x) != r->off) x = wg_get_next_record(db, x); if (!x || wg_get_record_len(db, x) < 2 || wg_decode_int(db, wg_get_field(db, x, 0)) != r->key) continue; // deleted through the server by its id
          if (wg_delete_record(db, wg_decode_record(db, r->off)) == 0) { bool put = false; for (size_t x = 0; x < o.put.size(); x++) if (o.put[x]->key == r->key) { o.put.erase(o.put.begin() + x); put = true; break; } if (!put) o.del.push_back(r->key); } continue; }
        bool keep = chance(SW, 1, 2); RowP r = make_row(db, dummy, {}, keep ? 100 + no : choose(SW, 3)); if (!r) break; o.put.push_back(r); if (keep) mine.push_back(r); }
    if (chance(SF, 1, 6)) sim_sleep_ns(gap()); if (!wg_end_write(db, l)) violate("server-lock", "releasing the write lock failed"); o.res = G.seq++; o.what = "transaction"; H.ops.push_back(o); }
  wg_detach_database(db);
}
static void make_dbs() {
  for (auto& d : DBS) { void* db = wg_attach_database((char*)d.c_str(), 600000); if (!db) violate("setup", "no database"); State& s = ST0[d]; std::vector<int> refs; int n = choose(SW, 14);
    for (int i = 0; i < n; i++) { bool target = chance(SW, 1, 3); RowP r = make_row(db, s, target || chance(SW, 1, 2) ? refs : std::vector<int>(), target ? 3 : choose(SW, 3)); s[r->key] = r; if (target && d != "1001") refs.push_back(r->key); } wg_detach_database(db); }
  H.init = ST0;
}
static void final_checks() {
  for (auto& d : DBS) { void* db = wg_attach_existing_database((char*)d.c_str()); if (!db) violate("setup", "cannot attach"); wg_int l = wg_start_write(db); if (!l) violate("server-lock", "database %s stays locked after every request is done", d.c_str()); wg_end_write(db, l);
    Hop c; c.kind = H_COUNT; c.db = d; c.q.op = "count"; c.inv = G.seq++; c.num = 0; for (void* r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) c.num++; c.res = G.seq++; c.what = "final count"; H.ops.push_back(c); wg_detach_database(db); }
  for (int k = 2000; k < 2010; k++) if (shm_find(k)) { std::string d = std::to_string(k); void* db = wg_attach_existing_database((char*)d.c_str()); if (!db) continue; wg_int l = wg_start_write(db); if (!l) violate("server-lock", "database %s stays locked after every request is done", d.c_str()); wg_end_write(db, l); wg_detach_database(db); }
  H.check();
}
extern "C" { int vsim_queue_size = 100, vsim_threads = 8, vsim_pool = 1; }
SCENARIO(srv) {
  vsim_queue_size = 100; vsim_threads = 8; if (chance(SW, 1, 2)) { static const int qs[] = {1, 2, 3, 7, 100}; vsim_queue_size = qs[choose(SW, 5)]; vsim_threads = 1 + choose(SW, 8); }
  vsim_pool = chance(SW, optl("pool", 5), 6);
  H = Hist(); ST0.clear(); g_keyseq = 0; g_answered = g_broken = g_conns = 0; g_malloc = false; DBS = {"1000"}; if (chance(SW, 1, 2)) DBS.push_back("1001");
  sched_config(chance(SS, 1, 3) ? 0 : 1); g_slow = true; // lock requests may time out behind a sleeping client
  make_dbs(); gen_conf();
  // start the server
  static const char* av[] = {"dserve", "8080", "/conf.txt", nullptr}; int ac = CF.used ? 3 : 2; new_proc_state(1); u64 mark0 = mem_mark();
  bool startfault = chance(SF, 1, 12); if (startfault) { unsigned k = CF.used ? choose(SF, 4) : 2 + choose(SF, 2); arm(k == 0 ? F_READ_ERR : k == 1 ? F_OPEN_ERR : k == 3 ? F_PTHREAD_ERR : F_MALLOC, choose(SF, k == 2 ? 8 : 4), 0, 1, 1); }
  bool exited = false; int sid = spawn(1, "server", [&] { dserve_main(ac, (char**)av); });
  for (int i = 0; i < 2000 && !net_listening() && G.tasks[sid]->st != T_DONE; i++) sim_sleep_ns(1000000); (void)exited;
  if (!net_listening()) { if (startfault && any_fired()) { probe("start-refused"); nontrivial(); return; } violate("server-start", "the server did not start"); }
  disarm_all(); sim_sleep_ns(20000000); u64 mark = mem_mark(); int fds0 = fs_open_fds(1);
  if (chance(SF, 1, 2)) { int n = 1 + choose(SF, 6); for (int i = 0; i < n; i++) { static const int fk[] = {F_RECV_SHORT, F_RECV_EINTR, F_SEND_SHORT, F_SEND_EINTR, F_FUTEX_SPURIOUS, F_RECV_ERR, F_SEND_ERR, F_ACCEPT_ERR, F_MALLOC, F_SLEEP_EINTR, F_SHMGET_ERR, F_SHMAT_ERR, F_SHMCTL_ERR}; int f = fk[choose(SF, 13)]; bool sh = f == F_SHMGET_ERR || f == F_SHMAT_ERR || f == F_SHMCTL_ERR; if (f == F_MALLOC || sh) g_malloc = true; arm((Fault)f, choose(SF, sh ? 5 : f == F_MALLOC ? 20 : 60), choose(SF, 1000), f == F_RECV_SHORT || f == F_SEND_SHORT ? 1 + choose(SF, 50) : 1, 1); } }
  if (!vsim_pool && chance(SF, 1, 3)) arm(F_PTHREAD_ERR, choose(SF, 6), 0, 1, 1);
  std::vector<int> ids; int nc = 1 + choose(SW, 4), nw = choose(SW, 3); for (int i = 0; i < nc; i++) ids.push_back(spawn(2, lit("client%d", i).c_str(), [i] { net_client(i + 1); }, true));
  if (chance(SW, 1, 10) && CF.aips.empty() && CF.atok.empty() && CF.dbases.empty()) ids.push_back(spawn(2, "burst", [] { burst_client(0); }, true));
  for (int i = 0; i < nw; i++) { new_proc_state(3 + i); ids.push_back(spawn(3 + i, lit("writer%d", i).c_str(), [i] { writer(3 + i, i); }, true)); }
  G.deadlock_ok = true; wait_tasks(ids);
  // faults have ended; let the server finish what it is doing
  G.faults_on = false; sim_sleep_ns(3000000000ULL);
  if (G.tasks[sid]->st == T_DONE || !proc_alive(1)) violate("server-died", "the server has ended");
  if (net_open_server_conns()) violate("server-leak", "%d connection(s) stay open after every client is gone", net_open_server_conns());
  if (fs_open_fds(1) != fds0) violate("server-leak", "%d descriptor(s) more than at the start stay open", fs_open_fds(1) - fds0);
  if (shm_attach_count(1)) violate("server-leak", "%d database(s) stay attached after every request is done", shm_attach_count(1));
  u64 first = 0, left = mem_live_since(mark, 1, &first); if (left) violate("server-leak", "%llu allocation(s) are never freed, first %s", (unsigned long long)left, mem_describe(first).c_str());
  final_checks();probe("answered", g_answered); probe("broken", g_broken); if (g_answered) nontrivial();
  g_sample = lit("%llu connections, %llu answered, %llu broken, %d writers, conf %d, %zu history operations", (unsigned long long)g_conns, (unsigned long long)g_answered, (unsigned long long)g_broken, nw, CF.used, H.ops.size());
}
// ---------------------------------------------------------------- dserve as a command line tool and as a CGI program
static void invoker(int n) {
  std::set<std::string> mydbs;
  for (int k = 0; k < n; k++) {
    sim_sleep_ns(1 + gap()); bool cgi = chance(SW, 1, 2), post = cgi && chance(SW, 1, 2); Conf keep = CF; if (cgi) { std::string dd = CF.defdb; CF = Conf(); } else { CF.aips.clear(); CF.wips.clear(); CF.rips.clear(); CF.atok.clear(); CF.wtok.clear(); CF.rtok.clear(); }
    std::string ip = g_ips[choose(SW, 5)]; Req r = gen_req(ip, 1, mydbs); std::string qs = r.query; bool full = false;
    if (chance(SW, 1, 6) && qs.size() < 1900) { int room = 2000 - qs.size() - 3; qs += "&_=" + std::string(room, 'p'); full = true; if (chance(SW, 1, 3)) { qs += "p"; r.expect = E_ERR; } }
    (void)full; bool garbled = false; const char* av[4] = {"dserve", nullptr, nullptr, nullptr}; int ac = 1; new_proc_state(1); sim_envs[1].clear(); sim_inputs[1].clear(); sim_outp[1].clear();
    if (cgi) { sim_envs[1]["REQUEST_METHOD"] = post ? "POST" : "GET"; if (chance(SW, 7, 8)) sim_envs[1]["REMOTE_ADDR"] = ip;
      if (!post) { sim_envs[1]["QUERY_STRING"] = qs; if (chance(SW, 1, 20)) { sim_envs[1].erase("QUERY_STRING"); garbled = true; } }
      else { std::string in = qs; sim_envs[1]["CONTENT_LENGTH"] = std::to_string(qs.size()); if (chance(SW, 2, 3)) sim_envs[1]["CONTENT_TYPE"] = chance(SW, 1, 2) ? "application/x-www-form-urlencoded" : "application/x-www-form-urlencoded; charset=utf-8";
        if (chance(SF, 1, 6)) { in.resize(choose(SF, in.size())); garbled = true; ST.fired[F_READ_SHORT]++; } else if (chance(SF, 1, 20)) { static const char* bad[] = {"", "-1", "0", "abc", "2000000000"}; sim_envs[1]["CONTENT_LENGTH"] = bad[choose(SF, 5)]; garbled = true; } sim_inputs[1] = in; }
      if (chance(SW, 1, 30)) { sim_envs[1]["REQUEST_METHOD"] = chance(SW, 1, 2) ? "PUT" : ""; garbled = true; } }
    else { av[1] = qs.c_str(); ac = 2; if (keep.used) { av[2] = "/conf.txt"; ac = 3; } }
    if (!cgi && r.level == 0) r.expect = r.expect == E_ERR ? E_ERR : r.expect; if (garbled) r.expect = E_ERR;
    bool f = chance(SF, 1, 4); if (f) { static const int fk[] = {F_MALLOC, F_MALLOC, F_SHMGET_ERR, F_SHMAT_ERR, F_SHMCTL_ERR, F_READ_ERR, F_FUTEX_EINTR, F_SLEEP_EINTR}; int x = fk[choose(SF, 8)]; if (x != F_FUTEX_EINTR && x != F_SLEEP_EINTR) g_malloc = true; arm((Fault)x, choose(SF, x == F_MALLOC ? 20 : 4), 0, 1, 1); }
    r.what = std::string(cgi ? post ? "CGI POST " : "CGI GET " : "command ") + r.what; u64 inv = G.seq++; int id = spawn(1, "dserve", [&] { dserve_main(ac, (char**)av); }); wait_tasks({id}); bool fired = any_fired(); disarm_all(); if (proc_alive(1)) kill_proc(1); u64 res = G.seq++;
    std::string out = sim_outp[1]; if (f && !fired) g_malloc = false;
    std::string body; bool silent = out.empty();
    if (silent) { if (!fired) violate("server-response", "no output for %s", r.what.c_str()); }
    else if (cgi) { size_t h = out.find("\r\n\r\n"); if (h == std::string::npos) violate("server-response", "malformed output for %s: %s", r.what.c_str(), out.substr(0, 200).c_str()); size_t cl = out.find("Content-Length:"); body = out.substr(h + 4);
      if (cl == std::string::npos || cl > h) { if (!fired || !body.empty()) violate("server-response", "no Content-Length in the output for %s", r.what.c_str()); silent = true; }
      else { i64 len = atoll(out.c_str() + cl + 15); if (cl != 0) violate("server-response", "something is printed before the headers for %s: %s", r.what.c_str(), out.substr(0, 200).c_str()); if ((u64)len != body.size()) violate("server-response", "Content-Length %lld but %zu bytes of body in the output for %s", (long long)len, body.size(), r.what.c_str()); }
      if (out.find(r.q.fmt == 0 && r.expect == E_OK && !fired ? "Content-Type: text/csv" : "Content-Type: ") > h) violate("server-response", "wrong content type in the output for %s", r.what.c_str()); }
    else body = out;
    if (!silent) { if (body.empty() || body.back() != '\n') violate("server-response", "the output for %s is cut off: %s", r.what.c_str(), body.substr(0, 200).c_str()); body.pop_back(); check_body(r, body, inv, res); g_answered++; }
    else if (r.hist && r.q.op == "delete" && r.expect == E_OK) { Hop o; o.inv = inv; o.res = ~0ULL; o.maybe = true; o.kind = H_DELETE; o.q = r.q; o.db = r.q.db; o.what = r.what; H.ops.push_back(o); }
    bool ok = !silent && body.find("\"ERROR: ") == std::string::npos; if (r.q.op == "create" || r.q.op == "drop") { check_admin(r, ok, mydbs); if (!ok && g_malloc) { mydbs.clear(); CF = keep; g_malloc = false; return; } }
    g_malloc = false; CF = keep;
  }
}
SCENARIO(srvcmd) {
  H = Hist(); ST0.clear(); g_keyseq = 0; g_answered = g_broken = g_conns = 0; g_malloc = false; DBS = {"1000"}; if (chance(SW, 1, 2)) DBS.push_back("1001");
  sched_config(chance(SS, 1, 3) ? 0 : 1); g_slow = true;
  make_dbs(); gen_conf(); int nw = choose(SW, 3), n = 1 + choose(SW, 8); std::vector<int> ids; ids.push_back(spawn(2, "invoker", [n] { invoker(n); }, true));
  for (int i = 0; i < nw; i++) { new_proc_state(3 + i); ids.push_back(spawn(3 + i, lit("writer%d", i).c_str(), [i] { writer(3 + i, i); }, true)); }
  wait_tasks(ids); G.faults_on = false; final_checks(); probe("answered", g_answered); if (g_answered) nontrivial();
  g_sample = lit("%d invocations, %llu answered, %d writers, conf %d, %zu history operations", n, (unsigned long long)g_answered, nw, CF.used, H.ops.size());
}
