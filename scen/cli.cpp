// C29: the command line tool, several at a time on shared databases: what each run reports is explained by one order of all runs.
#include "world.h"
#include "valtext.h"
#include "jmodel.h"
extern "C" { int wgdb_main(int argc, char** argv); wg_int wg_check_dump(void* db, char* fn, wg_int* mn, wg_int* mx); void* wg_get_first_raw_record(void* db); void* wg_get_next_raw_record(void* db, void* rec); void wg_print_json_document(void* db, void* cb, void* cb_ctx, void* document); }
extern std::string sim_errp[MAXPROC]; extern std::string sim_inputs[MAXPROC]; extern bool sim_stdin_eof[MAXPROC];
#define is_schema_document(r) (((gint*)(r))[1] & 0x10)     // as in dbdata.h
namespace {
enum Kind { ADD, DEL, QUERY, SELECT, MKIDX, MKHASH, DROP, LIST, INFO, EXPORT, IMPORT, XCSV, ICSV, ADDJ, FINDJ, OBSERVE, NK };
const char* kname[] = {"add", "del", "query", "select", "createindex", "createhash", "dropindex", "listindex", "info", "export", "import", "exportcsv", "importcsv", "addjson", "findjson", "observation"};
typedef std::multiset<std::string> Bag;
struct St { Bag rows, docs, idx; bool log = false, logunk = false; int mode = 0600; std::string base; /* what the journal starts from: "" nothing, or a dump file; "?" unknown */ bool operator==(const St& o) const { return rows == o.rows && docs == o.docs && idx == o.idx; } };
std::map<std::string, Row> rowval; std::map<std::string, J> docval;   // what the texts stand for
std::string canon(const J& j) { std::string o; char b[40]; switch (j.t) { case 'n': return "null"; case 'i': return std::to_string(j.i); case 'd': snprintf(b, sizeof b, "%.17g", j.d); return b; case 's': return esc(j.s, 0); case 'a': o = "["; for (auto& x : j.a) o += canon(x) + ","; return o + "]"; default: o = "{"; for (auto& x : j.o) o += esc(x.first, 0) + ":" + canon(x.second) + ","; return o + "}"; } }
std::string lit(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string lit(const char* f, ...) { char b[4000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
std::string render(const Row& r) { std::string s = "["; bool first = true; for (auto& f : r) { if (!first) s += ","; first = false; switch (f.t) { case WG_NULLTYPE: s += "NULL"; break; case WG_INTTYPE: s += std::to_string(f.i); break; case WG_DOUBLETYPE: s += lit("%f", f.d); break; case WG_STRTYPE: s += "\"" + f.s + "\""; break;
    case WG_DATETYPE: s += lit("<date>%04lld-%02lld-%02lld", (long long)f.i / 10000, (long long)f.i / 100 % 100, (long long)f.i % 100); break; case WG_TIMETYPE: s += lit("<time>%02lld:%02lld:%02lld.%02lld", (long long)f.i / 360000, (long long)f.i / 6000 % 60, (long long)f.i / 100 % 60, (long long)f.i % 100); break; } } return s + "]"; }
std::string strip(const std::string& l) { std::string o; for (size_t k = 0; k < l.size();) { if (!l.compare(k, 10, "<raw date ") || !l.compare(k, 10, "<raw time ")) { size_t e = k + 10; if (e < l.size() && l[e] == '-') e++; size_t d = e; while (e < l.size() && isdigit((unsigned char)l[e])) e++; if (e > d && e < l.size() && l[e] == '>') { o += "<" + l.substr(k + 5, 4) + ">"; k = e + 1; continue; } } o += l[k++]; } return o; }
std::string note(const Row& r) { std::string s = render(r); rowval[s] = r; return s; }
int fcmp(const F& a, const F& b) { if (a.t != b.t) return a.t > b.t ? 1 : -1; switch (a.t) { case WG_NULLTYPE: return 0; case WG_DOUBLETYPE: return a.d < b.d ? -1 : a.d > b.d; case WG_STRTYPE: return a.s.compare(b.s); default: return a.i < b.i ? -1 : a.i > b.i; } }
struct Cnd { int col; std::string cond, text; F v; };
bool holds(const Row& r, const std::vector<Cnd>& cs) { for (auto& c : cs) { if (c.col >= (int)r.size()) return false; int k = fcmp(r[c.col], c.v); if (!(c.cond == "=" ? k == 0 : c.cond == "!=" ? k != 0 : c.cond == "<" ? k < 0 : c.cond == ">" ? k > 0 : c.cond == "<=" ? k <= 0 : k >= 0)) return false; } return true; }
struct Op {
  int kind; std::string db, what; u64 inv = 0, res = ~0ULL; bool maybe = false, fired = false, ok = false, lockfail = false, refuse = false, part = false; // part: the output may be cut short
  std::vector<std::string> args; std::string out, err, in; std::string text; std::vector<Row> rows; std::vector<Cnd> conds; std::vector<std::pair<std::string, J>> pairs; i64 howmany = 0, from = 0; std::string file; std::vector<int> cols; std::string idxname; bool idxok = true; St snap; Bag got; i64 count = -1; bool logging = false; bool hold = false;
};
typedef std::shared_ptr<Op> OpP;
typedef std::map<std::string, St> World1;
bool sub(const Bag& a, const Bag& b) { for (auto& x : a) if (a.count(x) > b.count(x)) return false; return true; }
Bag lines(const std::string& o, bool* bad) { Bag b; size_t k = 0; while (k < o.size()) { size_t e = o.find('\n', k); if (e == std::string::npos) { *bad = true; b.insert(strip(o.substr(k))); break; } b.insert(strip(o.substr(k, e - k))); k = e + 1; } return b; }
bool fit(const Op& o, World1& w) { // does the outcome fit, and what does it leave behind
  St& s = w[o.db]; if (!o.ok && o.kind != OBSERVE) { if (o.part) { if (o.kind == QUERY) { Bag e; for (auto& r : s.rows) if (holds(rowval[r], o.conds)) e.insert(r); return sub(o.got, e); } if (o.kind == FINDJ) return sub(o.got, s.docs); } if (!o.idxok) return (s.idx.count(o.idxname) > 0) != (o.kind == DROP); return true; }
  switch (o.kind) {
    case ADD: s.rows.insert(o.text); return true;
    case DEL: { i64 n = 0; for (auto i = s.rows.begin(); i != s.rows.end();) if (holds(rowval[*i], o.conds)) { i = s.rows.erase(i); n++; } else ++i; return o.maybe || n == o.count; }
    case QUERY: { Bag e; for (auto& r : s.rows) if (holds(rowval[r], o.conds)) e.insert(r); return e == o.got; }
    case SELECT: { i64 left = (i64)s.rows.size() - std::max<i64>(o.from, 0); if (left < 0) left = 0; if (o.howmany > 0 && left > o.howmany) left = o.howmany; return (i64)o.got.size() == left && sub(o.got, s.rows); }
    case MKIDX: case MKHASH: if (s.idx.count(o.idxname)) return o.maybe; s.idx.insert(o.idxname); return true;
    case DROP: { auto i = s.idx.find(o.idxname); if (i == s.idx.end()) return o.maybe; s.idx.erase(i); return true; }
    case LIST: return o.got == s.idx;
    case INFO: return o.count == (i64)s.idx.size() && (o.logging == s.log || s.logunk) && o.howmany == s.mode;
    case EXPORT: if (o.maybe && s.log) s.logunk = true, s.base = "?"; /* a killed rescue copy leaves the journal off */ if (!o.maybe) s.base = o.file; return o.maybe || o.snap == s;
    case IMPORT: { St n = o.snap; n.log = s.log; n.logunk = s.logunk; n.mode = s.mode; n.base = o.file; s = n; return true; }
    case XCSV: { Bag e; for (auto& r : s.rows) { std::string t; bool blank = rowval[r].empty() || (rowval[r].size() == 1 && rowval[r][0].t == WG_NULLTYPE); if (blank) continue; for (auto& f : rowval[r]) { switch (f.t) { case WG_NULLTYPE: break; case WG_INTTYPE: t += std::to_string(f.i); break; case WG_DOUBLETYPE: t += lit("%f", f.d); break; case WG_STRTYPE: t += f.s; break; case WG_DATETYPE: t += lit("%04lld-%02lld-%02lld", (long long)f.i / 10000, (long long)f.i / 100 % 100, (long long)f.i % 100); break; default: t += lit("%02lld:%02lld:%02lld.%02lld", (long long)f.i / 360000, (long long)f.i / 6000 % 60, (long long)f.i / 100 % 60, (long long)f.i % 100); } t += '\x01'; } e.insert(t); } return o.maybe || e == o.got; }
    case ICSV: for (auto& r : o.rows) s.rows.insert(render(r)); return true;
    case ADDJ: s.docs.insert(o.text); return true;
    case FINDJ: { Bag e; for (auto& d : s.docs) { bool m = true; for (auto& p : o.pairs) if (!matches(docval[d], p.first, p.second)) m = false; if (m) e.insert(d); } return e == o.got; }
    case OBSERVE: return o.snap == s;
  }
  return true;
}
std::string ser(const World1& w) { std::string s; for (auto& x : w) { s += x.first + x.second.base; for (auto& r : x.second.rows) { s += r; s += '\n'; } s += '|'; for (auto& r : x.second.docs) { s += r; s += '\n'; } s += '|'; for (auto& r : x.second.idx) { s += r; s += '\n'; } } return s; }
std::vector<OpP> ops; std::set<std::pair<u64, std::string>> seen; World1 cur, fin; u64 best; u64 steps; std::string stuck;
bool search(u64 done, const World1& w) {
  bool left = false; for (size_t k = 0; k < ops.size(); k++) if (!(done >> k & 1) && !ops[k]->maybe) left = true;
  if (!left) { fin = w; return true; } if (++steps > 400000) end_run("a history was too long to decide"); if (!seen.insert({done, ser(w)}).second) return false;
  u64 minres = ~0ULL; for (size_t k = 0; k < ops.size(); k++) if (!(done >> k & 1) && !ops[k]->maybe) minres = std::min(minres, ops[k]->res);
  for (size_t k = 0; k < ops.size(); k++) if (!(done >> k & 1) && ops[k]->inv <= minres) { World1 n = w; St& m = n[ops[k]->db]; if (!ops[k]->ok && ops[k]->fired && (ops[k]->kind == EXPORT || ops[k]->kind == IMPORT)) m.base = "?"; if (ops[k]->maybe) m.base = "?"; u64 gone = 1ULL << k; for (size_t j = 0; j < ops.size(); j++) if (ops[j]->maybe && ops[j]->res < ops[k]->inv) gone |= 1ULL << j; /* a killed tool that did nothing */ if (fit(*ops[k], n)) { if (search(done | gone, n)) return true; } else if ((u64)__builtin_popcountll(done) > best || stuck.empty()) { best = __builtin_popcountll(done); stuck = ops[k]->what; } }
  return false;
}
// ---- reading a database through the API
void pcb(void* ctx, const char* s, size_t n) { ((std::string*)ctx)->append(s, n); }
std::string idxtext(void* db, i64 id) { wg_index_header* h = (wg_index_header*)ptr_of(db, id); std::string t = wg_get_index_type(db, id) == WG_INDEX_TYPE_TTREE ? "T" : "#J"; std::set<i64> c(h->rec_field_index, h->rec_field_index + h->fields); for (i64 k : c) t += " " + std::to_string(k); return t; }
bool observe(void* db, St& s, const char* name) {
  bool docs = !strncmp(name, "11", 2); s = St(); if (!docs) for (i64 o : scan(db)) s.rows.insert(note(rowof(db, o)));
  else for (i64 o : scan(db)) { void* p = ptr_of(db, o); if (!is_schema_document(p)) continue; std::string t; wg_print_json_document(db, (void*)pcb, &t, p); J j; P q(t); if (!q.doc(&j)) violate("observed", "a stored document does not print as JSON: %s", t.substr(0, 100).c_str()); s.docs.insert(canon(j)); }
  bool ok; for (i64 id : index_ids(db, &ok)) { s.idx.insert(idxtext(db, id)); } return true;
}
#define DBSIZE "2M"
std::vector<std::string> DBS; std::map<std::string, std::map<std::string, i64>> idxids; std::map<std::string, std::map<std::string, St>> dumps; std::map<std::string, bool> hasidx; int fileno_; bool killed, stalls, holds_lock, mkphase; u64 nops, nfailed, nkilled;
std::vector<std::string> words(const std::string& s) { std::vector<std::string> v; std::string c; for (char x : s) if (x == ' ') { v.push_back(c); c.clear(); } else c += x; v.push_back(c); return v; }
std::string gval1() { for (;;) { std::string s = choose(SW, 3) ? std::to_string((i64)choose(SW, 6)) : gtext(); bool bad = s.size() > 240 || s[0] == '-'; for (char c : s) if ((unsigned char)c < 32) bad = true; F f = guess(s); if (f.t == WG_DOUBLETYPE && fabs(f.d) > 1e15) bad = true; if (!bad) return s; } }
void gconds(Op& o) { int n = 1 + (choose(SW, 3) == 1) + (choose(SW, 8) == 1); static const char* cn[] = {"=", "!=", "<", ">", "<=", ">="}; while (n--) { Cnd c; c.col = choose(SW, 8) ? choose(SW, 3) : choose(SW, 8); c.cond = cn[choose(SW, 6)]; c.text = gval1(); c.v = guess(c.text); o.args.push_back(std::to_string(c.col)); o.args.push_back(c.cond); o.args.push_back(c.text); o.conds.push_back(c); } if (choose(SW, 12) == 1) o.args.push_back("0"); if (choose(SW, 15) == 1) { size_t k = 1 + 3 * choose(SW, o.args.size() / 3) + choose(SW, 2); static const char* b[][3] = {{"-1", "-2", "x"}, {"~", "", "eq"}}; o.args[k] = b[(k + 2) % 3][choose(SW, 3)]; o.refuse = true; } }
void fixj(J& j) { if (j.t == 'd') { j = J(); j.t = 'i'; j.i = (i64)choose(SW, 50); } for (auto& x : j.a) fixj(x); for (auto& x : j.o) fixj(x.second); }
J gdoc(int depth) { J j; do j = gval(depth, 4); while (j.t != 'o' || j.o.empty()); fixj(j); return j; }
OpP gen(bool alone) {
  OpP p = std::make_shared<Op>(); Op& o = *p; o.db = DBS[choose(SW, DBS.size())]; bool docs = !o.db.compare(0, 2, "11");
  static const int rk[] = {ADD, QUERY, SELECT, DEL, ADD, ADD, MKIDX, MKHASH, DROP, LIST, INFO, EXPORT, IMPORT, XCSV, ICSV, QUERY}, dk[] = {ADDJ, FINDJ, ADDJ, FINDJ, ADDJ, LIST, MKHASH, INFO, EXPORT, IMPORT}; o.kind = docs ? dk[choose(SW, 10)] : rk[choose(SW, 16)];
  if (o.kind == IMPORT && (!alone || dumps[o.db].empty())) o.kind = EXPORT; /* an import is documented not to be parallel-safe */ if (o.kind == DROP && mkphase) o.kind = MKIDX; if (!mkphase && (o.kind == MKIDX || o.kind == MKHASH || o.kind == IMPORT)) o.kind = LIST; o.args.push_back(kname[o.kind]);
  switch (o.kind) {
    case ADD: { int n = choose(SW, 10) ? 1 + choose(SW, 4) : 1 + choose(SW, 40); Row r; while (n--) { std::string t = gval1(); o.args.push_back(t); r.push_back(guess(t)); } o.text = note(r); break; }
    case DEL: case QUERY: gconds(o); break;
    case SELECT: { static const int h[] = {1, 2, 3, 10, 100, -1}; o.howmany = h[choose(SW, 6)]; o.args.push_back(std::to_string(o.howmany)); if (choose(SW, 2)) { o.from = choose(SW, 6); o.args.push_back(std::to_string(o.from)); } if (choose(SW, 30) == 1) { o.args[1] = "0"; o.refuse = true; } break; }
    case MKIDX: { int c = choose(SW, 10) ? choose(SW, 4) : choose(SW, 140); o.args.push_back(std::to_string(c)); o.idxname = "T " + std::to_string(c); if (c > 127) o.refuse = true; if (choose(SW, 20) == 1) { static const char* b[] = {"x", "", "-1", "-"}; o.args[1] = b[choose(SW, 4)]; o.refuse = true; } break; }
    case MKHASH: { if (docs) { o.args.push_back("1"); o.args.push_back("2"); o.idxname = "#J 1 2"; break; } int n = choose(SW, 8) ? 1 + choose(SW, 3) : 1 + choose(SW, 14); std::set<int> u; while ((int)u.size() < n) u.insert(choose(SW, n < 4 ? 4 : 20)); o.idxname = "#J"; std::vector<int> c(u.begin(), u.end()); for (size_t k = c.size(); k > 1; k--) std::swap(c[k - 1], c[choose(SW, k)]); for (int x : u) o.idxname += " " + std::to_string(x); for (int x : c) o.args.push_back(std::to_string(x)); if (n > 10) o.refuse = true; if (choose(SW, 20) == 1) { static const char* b[] = {"x", "", "-1", "200"}; o.args.push_back(b[choose(SW, 4)]); o.refuse = true; } break; }
    case DROP: { auto& m = idxids[o.db]; if (m.empty() || !choose(SW, 5)) { static const char* b[] = {"0", "x", "12", "-8", "999999999", "100000", ""}; o.args.push_back(b[choose(SW, 7)]); o.refuse = true; } else { auto i = m.begin(); std::advance(i, choose(SW, m.size())); o.idxname = i->first; o.args.push_back(std::to_string(i->second)); if (i->first[0] == (char)35) o.refuse = true; } break; }
    case EXPORT: o.file = lit("/tmp/x%d.bin", fileno_++); if (choose(SW, 4) == 1 && alone) o.args.push_back("-f"); /* copies without the lock */ o.args.push_back(o.file); break;
    case IMPORT: { auto& dd = dumps[o.db]; auto i = dd.begin(); std::advance(i, choose(SW, dd.size())); o.file = i->first; o.snap = i->second; o.args.push_back(o.file); if (choose(SW, 10) == 1) { o.args[1] = "/tmp/none.bin"; o.refuse = true; } break; }
    case XCSV: o.file = lit("/tmp/x%d.csv", fileno_++); o.args.push_back(o.file); break;
    case ICSV: { o.file = lit("/tmp/i%d.csv", fileno_++); std::string t; int n = 1 + choose(SW, 6); while (n--) { Row r; int k = 1 + choose(SW, 4); std::string l; for (int c = 0; c < k; c++) { std::string f = gval1(); if (c) l += ','; if (needq(f) || choose(SW, 3) == 1) { l += '"'; for (char x : f) { if (x == '"') l += '"'; l += x; } l += '"'; } else l += f; r.push_back(guess(f)); } if (r.size() == 1 && r[0].t == WG_NULLTYPE) { r[0] = guess("1"); l = "1"; } note(r); o.rows.push_back(r); t += l + "\n"; } fs_put(o.file, t); o.args.push_back(o.file); break; }
    case ADDJ: { J j = gdoc(3); if (choose(SW, 5) == 1) { J a; a.t = 'a'; a.a.push_back(j); j = a; } o.text = canon(j); docval[o.text] = j; std::string t; text(j, choose(SW, 2), t); if (choose(SW, 10) == 1) { t.resize(choose(SW, t.size())); J e; P q(t); if (!(q.doc(&e))) o.refuse = true; else o.refuse = false; if (!o.refuse) { t.clear(); o.refuse = true; } } if (choose(SW, 3)) { o.file = lit("/tmp/j%d.json", fileno_++); fs_put(o.file, t); o.args.push_back(o.file); } else o.in = t; break; }
    case FINDJ: { J q; q.t = 'o'; std::vector<KV> l; std::set<std::string> used; if (!docval.empty()) { auto i = docval.begin(); std::advance(i, choose(SW, docval.size())); kvs(i->second, l); } int n = 1 + (choose(SW, 4) == 1); for (int k = 0; k < n; k++) { std::string key = "a"; J v; v.t = 'i'; v.i = choose(SW, 3); if (!l.empty() && choose(SW, 8)) { KV& x = l[choose(SW, l.size())]; key = x.k; v = *x.v; if (v.t == 'a' && !v.a.empty() && choose(SW, 2)) v = v.a[choose(SW, v.a.size())]; } if (!used.insert(key).second) continue; J w = v; q.o.push_back({key, w}); o.pairs.push_back({key, w}); } std::string t; text(q, 0, t); if (choose(SW, 15) == 1) { static const char* b[] = {"[1]", "{", "x", "{\"a\":}", "3"}; t = b[choose(SW, 5)]; o.refuse = true; } o.args.push_back(t); break; }
    default: break;
  }
  std::string d; for (auto& a : o.args) d += " '" + a + "'"; o.what = "wgdb " + o.db + d; if (!o.in.empty()) o.what += " < '" + o.in + "'"; return p;
}
int run_tool(int proc, Op& o) { // returns 0 when it ended by itself
  new_proc_state(proc); sim_outp[proc].clear(); sim_errp[proc].clear(); sim_inputs[proc] = o.in; sim_stdin_eof[proc] = false; std::vector<char*> av; std::vector<std::string> a; a.push_back("wgdb"); if (o.db != "1000" || choose(SW, 2)) a.push_back(o.db); for (auto& x : o.args) a.push_back(x); for (auto& x : a) av.push_back((char*)x.c_str()); av.push_back(nullptr);
  bool ended = false; o.inv = G.seq++; EV(0x7001, o.kind, proc, "%s", o.what.substr(0, 1500).c_str()); int id = spawn(proc, "wgdb", [&, proc] { wgdb_main(a.size(), av.data()); violate("return", "main returned"); }); wait_tasks({id}); ended = true; o.res = G.seq++; o.out = sim_outp[proc]; o.err = sim_errp[proc]; o.fired = any_fired(); (void)ended;
  EV(0x7002, o.out.size(), o.err.size(), "%s prints: %s%s%s", kname[o.kind], o.out.substr(0, 900).c_str(), o.err.empty() ? "" : " and complains: ", o.err.substr(0, 300).c_str()); return 0;
}
void judge(Op& o, bool dead) { // outcome from the output
  if (dead) { o.maybe = true; o.ok = true; nkilled++; return; }
  o.lockfail = o.err.find("lock") != std::string::npos && o.err.find("locked") == std::string::npos; { std::string e; size_t k = 0; while (k < o.err.size()) { size_t n = o.err.find('\n', k); if (n == std::string::npos) n = o.err.size(); std::string l = o.err.substr(k, n - k); if (l.find("index created") == std::string::npos && !l.empty()) e += l + "\n"; k = n + 1; } o.err = e; } bool bad = false, complain = !o.err.empty(); std::string& t = o.out; nops++;
  auto has = [&](const char* x) { return t == x; }; auto need = [&](bool c, const char* w) { if (!c) violate("output", "%s: %s: '%s' '%s'", o.what.substr(0, 300).c_str(), w, t.substr(0, 400).c_str(), o.err.substr(0, 300).c_str()); };
  switch (o.kind) {
    case ADD: o.ok = has("Row added.\n"); need(o.ok || t.empty(), "unexpected output"); break;
    case DEL: { int n = 0, e = 0, used = 0; if (t.empty()) { o.ok = !complain; o.count = 0; } else if (sscanf(t.c_str(), "Deleting %d rows... done\n%n", &n, &used), used == (int)t.size() && n > 0) { o.ok = true; o.count = n; } else { need(o.fired, "unexpected output"); end_run("a deletion failed halfway"); } (void)e; break; }
    case QUERY: o.got = lines(t, &bad); need(!bad, "cut off"); o.ok = !complain; o.part = true; break;
    case SELECT: o.got = lines(t, &bad); need(!bad, "cut off"); o.ok = !complain; break;
    case MKIDX: case MKHASH: need(t.empty(), "unexpected output"); o.ok = !complain; break;
    case DROP: o.ok = has("Index dropped.\n"); need(o.ok || t.empty(), "unexpected output"); break;
    case LIST: { o.ok = !complain; if (!o.ok) break; if (has("No indexes in the database.\n")) break; size_t k = t.find('\n'); need(t.compare(0, k, "col\ttype\tmulti\tid\tmask") == 0, "wrong heading"); std::map<i64, std::pair<std::string, std::set<int>>> by; std::map<i64, int> multi; while (++k < t.size()) { int c, m; char ty[8]; long long id; char y; int n = 0; if (sscanf(t.c_str() + k, "%d\t%7[TJ#]\t%d\t%lld\t%c\n%n", &c, ty, &m, &id, &y, &n) != 5) need(false, "malformed line"); by[id].first = ty; need(by[id].second.insert(c).second, "a line twice"); multi[id] = m; k = t.find('\n', k); if (k == std::string::npos) need(false, "cut off"); } for (auto& x : by) { std::string s = x.second.first; for (int c : x.second.second) s += " " + std::to_string(c); need((int)x.second.second.size() == multi[x.first], "an index is not listed for every column"); o.got.insert(s); } break; }
    case INFO: { o.ok = !complain; if (!o.ok) break; size_t k = t.find("database key: " + o.db + "\n"); need(k == 0, "wrong key"); k = t.find("database has "); need(k != std::string::npos, "lacks the indexes"); const char* s = t.c_str() + k + 13; o.count = !strcmp(s, "no indexes\n") ? 0 : !strcmp(s, "1 index\n") ? 1 : atoi(s); o.logging = t.find("logging is active, journal file: /simlog/wgdb.journal." + o.db + "\n") != std::string::npos; { size_t q = t.find("permissions: "); int m = 0; need(q != std::string::npos && sscanf(t.c_str() + q, "permissions: %o\n", &m) == 1, "lacks the permissions"); o.howmany = m; } need(o.logging || t.find("logging is not active\n") != std::string::npos, "lacks the journal"); break; }
    case EXPORT: need(t.empty(), "unexpected output"); o.ok = !complain; break;
    case IMPORT: o.ok = has("Database imported.\n"); need(o.ok || t.empty(), "unexpected output"); if (!o.ok && o.err.find("Fatal") != std::string::npos) { need(o.fired, "the import failed"); end_run("an import failed halfway"); } break;
    case XCSV: need(t.empty(), "unexpected output"); o.ok = !complain; if (o.ok) { std::vector<std::vector<std::string>> r; Inode* i = fs_get(o.file); need(i != nullptr, "no file"); need(parse(i->data, r), "a malformed file"); for (auto& x : r) { std::string l; for (auto& f : x) l += f + '\x01'; o.got.insert(l); } } break;
    case ICSV: o.ok = has("Data imported from file.\n"); need(o.ok || t.empty(), "unexpected output"); if (!o.ok && !o.lockfail && o.err.find("attach") == std::string::npos) { need(o.fired, "the import failed"); end_run("an import of CSV failed halfway"); } break;
    case ADDJ: { std::string u = t; if (o.file.empty()) { size_t k = u.find("reading JSON from stdin, press CTRL-D when done\n"); if (k == 0) u.erase(0, 48); } o.ok = u == "JSON document imported.\n"; need(o.ok || u.empty(), "unexpected output"); if (!o.ok && o.err.find("partially") != std::string::npos) { need(o.fired, "the import failed"); end_run("a JSON import failed halfway"); } break; }
    case FINDJ: { P q(t); for (;;) { q.ws(); if (q.p >= t.size()) break; J j = q.val(); if (!q.ok) { if (complain) break; need(false, "malformed document"); } o.got.insert(canon(j)); } o.ok = !complain; o.part = true; break; }
  }
  if (o.ok && complain && o.kind != ADDJ && !o.fired) violate("output", "%s reports success and complains: '%s'", o.what.substr(0, 300).c_str(), o.err.substr(0, 200).c_str());
  if (!o.ok && !complain) violate("silent", "%s failed without a word (output '%s')", o.what.substr(0, 300).c_str(), t.substr(0, 200).c_str());
  if (o.ok && o.refuse) violate("accepted", "%s was accepted", o.what.substr(0, 300).c_str());
  if (!o.ok) nfailed++;
  if (!o.ok && !o.refuse && !o.fired) { bool idx = o.kind == MKIDX || o.kind == MKHASH || o.kind == DROP; if (o.lockfail && (stalls || killed || holds_lock)) { } else if (idx && !o.lockfail) o.idxok = false; else violate("refused", "%s failed: '%s'", o.what.substr(0, 300).c_str(), o.err.substr(0, 300).c_str()); }
}
void arm_tool(int proc, const Op& o) {
  static const Fault k[] = {F_MALLOC, F_MALLOC, F_FUTEX_EINTR, F_FUTEX_SPURIOUS, F_SHMGET_ERR, F_SHMAT_ERR, F_SHMCTL_ERR, F_SEGALLOC, F_OPEN_ERR, F_READ_ERR, F_WRITE_ERR, F_CLOSE_ERR, F_WRITE_SHORT, F_READ_EINTR}; Fault f = k[choose(SF, 14)]; bool logged = cur[o.db].log;
  if ((f == F_SEGALLOC || f == F_MALLOC) && (logged || o.kind == IMPORT)) return; bool mut = o.kind == ADD || o.kind == DEL || o.kind == ICSV || o.kind == ADDJ; if ((f == F_SEGALLOC || f == F_MALLOC) && mut && (hasidx[o.db] || mkphase)) return; /* see C13 in known_findings.txt */ if (f == F_SEGALLOC && (hasidx[o.db] || o.kind == MKIDX || o.kind == MKHASH || !o.db.compare(0, 2, "11"))) return; if (f >= F_WRITE_SHORT && f <= F_SYNC_ERR && logged) return;
  arm(f, choose(SF, f == F_MALLOC || f == F_SEGALLOC ? 12 : 5), choose(SF, 5000), choose(SF, 3) ? 1 : 1 + choose(SF, 20), proc);
}
void phase(int ncl, int n, bool faults) {
  ops.clear(); mkphase = choose(SW, 3) > 0; std::vector<int> ids; World1 before = cur; fileno_ += 10; killed = false; holds_lock = false; std::vector<OpP> mine; bool holder = !faults ? false : choose(SF, 6) == 1; int dead[MAXPROC] = {0};
  stalls = faults && choose(SF, 5) == 1; if (stalls) { G.stall_num = 1; G.stall_den = 30; }
  if (faults && choose(SF, 6) == 1) { G.crash_at = G.acc + choose(SF, 400000); G.oncrash = [&] { G.crash_at = ~0ULL; std::vector<int> v; for (int p = 1; p <= ncl; p++) if (proc_alive(p)) v.push_back(p); if (v.empty()) return; int p = v[choose(SF, v.size())]; dead[p] = 1; killed = true; G.hang_ok = true; G.acc_cap = G.acc + 8000000; ST.fired[F_CRASH]++; EV(0x7003, p, 0, "the tool of process %d is killed", p); kill_proc(p); }; }
  if (holder) { holds_lock = true; ids.push_back(spawn(5, "holder", [&] { G.cur->nofault = true; void* db = wg_attach_existing_database((char*)DBS[0].c_str()); if (!db) return; sim_sleep_ns(choose(SF, 1000000)); bool w = choose(SF, 2); wg_int l = w ? wg_start_write(db) : wg_start_read(db); if (l) { ST.fired[F_STALL]++; sim_sleep_ns(500000000ULL * (1 + choose(SF, 8))); if (w) wg_end_write(db, l); else wg_end_read(db, l); } wg_detach_database(db); })); }
  for (int c = 0; c < ncl; c++) ids.push_back(spawn(6, lit("invoker %d", c).c_str(), [&, c] {
    int proc = 1 + c; for (int k = 0; k < n; k++) { if (choose(SW, 3) == 1) sim_sleep_ns(choose(SW, 3000000)); OpP o = gen(ncl == 1 && !holder); bool f = faults && choose(SF, 4) == 1; if (f) arm_tool(proc, *o); if (ops.size() >= 40) break; ops.push_back(o); o->maybe = true; o->ok = true; o->maybe = false; 
      run_tool(proc, *o); o->fired = f && G.armed_fired[proc]; G.armed_fired[proc] = false; for (size_t i = 0; i < G.armed.size();) if (G.armed[i].proc == proc) G.armed.erase(G.armed.begin() + i); else i++; bool d = dead[proc]; dead[proc] = 0; judge(*o, d); }
  }, true));
  wait_tasks(ids); G.stall_num = 0; G.crash_at = ~0ULL; G.oncrash = nullptr; disarm_all();
  // what the exported files hold
  std::vector<std::pair<OpP, std::string>> ex; for (auto& o : ops) if (o->kind == EXPORT && o->ok && !o->maybe) { void* d = wg_attach_database((char*)(o->db.compare(0, 2, "11") ? "1998" : "1198"), 2000000); if (!d) violate("attach", "attach failed"); if (wg_import_dump(d, o->file.c_str())) violate("exported", "%s reported success but the file cannot be imported", o->what.c_str()); observe(d, o->snap, o->db.c_str()); wg_detach_database(d); wg_delete_database((char*)(o->db.compare(0, 2, "11") ? "1998" : "1198")); }
  // the databases now
  bool stuck_lock = false; for (auto& name : DBS) { OpP o = std::make_shared<Op>(); o->kind = OBSERVE; o->db = name; o->what = "the contents of database " + name; o->ok = true; o->inv = G.seq++; o->res = G.seq++; void* d = wg_attach_existing_database((char*)name.c_str()); if (!d) violate("attach", "attach failed"); wg_int l = wg_start_write(d); if (!l) { if (!killed) violate("lock", "after every tool has ended the lock of database %s is still held", name.c_str()); stuck_lock = true; probe("locks left by a killed tool"); wg_detach_database(d); continue; }
    observe(d, o->snap, name.c_str()); audit_alloc(d, nullptr); idxids[name].clear(); { bool ok; for (i64 id : index_ids(d, &ok)) idxids[name][idxtext(d, id)] = id; } hasidx[name] = !idxids[name].empty(); wg_end_write(d, l); wg_detach_database(d); ops.push_back(o); }
  seen.clear(); best = 0; stuck.clear(); steps = 0; if (!search(0, before)) { std::string h; for (auto& o : ops) h += lit("\n   %llu..%lld %s%s -> %s %s", (unsigned long long)o->inv, (long long)o->res, o->what.substr(0, 200).c_str(), o->maybe ? " (killed)" : "", o->ok ? "ok" : "failed", o->out.substr(0, 160).c_str()); violate("history", "no order of the commands explains what they report, at the latest %s%s", stuck.c_str(), h.c_str()); }
  cur = fin; for (auto& o : ops) if (o->kind == EXPORT && o->ok && !o->maybe ) dumps[o->db][o->file] = o->snap; if (stuck_lock) end_run("a killed tool left a lock behind");
}
// the database is lost; it is created again from the last copy and the journal
void recover(const std::string& name) {
  St want = cur[name]; Inode* i = fs_get("/simlog/wgdb.journal." + name); if (!i) violate("journal", "the journal of a logged database is missing"); std::string j = lit("/tmp/j%d", fileno_++); fs_put(j, i->data); bool log = choose(SW, 3) == 1; std::vector<std::vector<std::string>> cmds = {{"free"}};
  if (!want.base.empty()) { cmds.push_back({"import"}); if (log) cmds.back().push_back("-l"); cmds.back().push_back(want.base); } else { cmds.push_back({"create"}); if (log) cmds.back().push_back("-l"); cmds.back().push_back("2M"); } cmds.push_back({"replay", j});
  for (auto& c : cmds) { Op o; o.kind = OBSERVE; o.db = name; o.args = c; o.what = "wgdb " + name; for (auto& a : c) o.what += " " + a; run_tool(1, o); std::string e = c[0] == "import" ? "Database imported.\n" : c[0] == "replay" ? "Log suggessfully imported from file.\n" : ""; if (o.out != e || !o.err.empty()) violate("recovery", "%s: '%s' '%s'", o.what.c_str(), o.out.substr(0, 200).c_str(), o.err.substr(0, 200).c_str()); nops++; }
  void* d = wg_attach_existing_database((char*)name.c_str()); if (!d) violate("recovery", "there is no database"); St got; wg_int l = wg_start_write(d); if (!l) violate("lock", "the recovered database is locked"); observe(d, got, name.c_str()); audit_alloc(d, nullptr); idxids[name].clear(); { bool ok; for (i64 id : index_ids(d, &ok)) idxids[name][idxtext(d, id)] = id; } hasidx[name] = !idxids[name].empty(); wg_end_write(d, l); wg_detach_database(d);
  if (got.rows != want.rows || got.docs != want.docs) violate("recovery", "%s was rebuilt from %s and the journal, and holds %zu rows and %zu documents, not the %zu and %zu it held before", name.c_str(), want.base.empty() ? "nothing" : "the last copy", got.rows.size(), got.docs.size(), want.rows.size(), want.docs.size());
  want.idx = got.idx; want.log = log; want.base = "?"; want.mode = 0600; cur[name] = want; probe("databases rebuilt from copy and journal");
}
}
SCENARIO(cli) {
  world_reset(); rowval.clear(); docval.clear(); cur.clear(); dumps.clear(); idxids.clear(); hasidx.clear(); fileno_ = 1; nops = nfailed = nkilled = 0; DBS = {"1000"}; if (choose(SW, 2)) DBS.push_back("1100"); sched_config(choose(SS, 4) ? 1 : 0); G.maxfairgap = 400000; G.cur->nofault = true; bool faults = choose(SF, 3) > 0;
  for (auto& d : DBS) { Op o; o.kind = OBSERVE; o.db = d; o.args = {"create"}; bool l = choose(SW, 4) == 1; if (l) o.args.push_back("-l"); static const char* sz[] = {"2M", "2000000", "2000k", "2m", "3M"}; o.args.push_back(sz[choose(SW, 5)]); if (choose(SW, 3) == 1) { static const int ms[] = {0660, 0600, 0666}; cur[d].mode = ms[choose(SW, 3)]; o.args.push_back(lit("%o", cur[d].mode)); } o.what = "wgdb create"; run_tool(1, o); if (!o.out.empty() || !o.err.empty()) violate("output", "creating a database: '%s' '%s'", o.out.c_str(), o.err.c_str()); Seg* s = shm_find(atoi(d.c_str())); if (!s) violate("create", "no database was created"); if (s->size < 2000000 || s->size > 3100000) violate("create", "a database of %llu bytes was created", (unsigned long long)s->size); cur[d].log = l; }
  int np = 1 + choose(SW, 3); for (int k = 0; k < np; k++) { phase(1 + choose(SW, 3), 1 + choose(SW, 5), faults && k); for (auto& d : DBS) if (cur[d].log && !cur[d].logunk && cur[d].base != "?" && choose(SW, 2)) recover(d); }
  if (nops > 2) nontrivial(); probe("commands", nops); probe("commands that failed", nfailed); probe("tools killed", nkilled); g_sample = lit("%d phases, %llu commands, %llu failed, %llu killed", np, (unsigned long long)nops, (unsigned long long)nfailed, (unsigned long long)nkilled);
}
