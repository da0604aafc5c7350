// C25: the current date and time under a clock that jumps, and their way through storage, text and fields.
#include "../sim/core.h"
#include "../sim/scen.h"
#include <string.h>
#include <stdarg.h>
extern "C" {
#include "dbapi.h"
#include "indexapi.h"

}
void sim_free_ext(void*); extern "C" struct tm* sim_localtime(const time_t*);
static std::string lit(const char* f, ...) { char b[300]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }
// ---------------------------------------------------------------- the calendar, computed independently (days from civil and back)
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; return a % b < 0 ? q - 1 : q; }
static i64 days_of(i64 y, int m, int d) { y -= m <= 2; i64 era = fdiv(y, 400); i64 yoe = y - era * 400; i64 doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1; i64 doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return era * 146097 + doe - 719468; }
static void civil(i64 z, i64* y, int* m, int* d) { z += 719468; i64 era = fdiv(z, 146097); i64 doe = z - era * 146097; i64 yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; i64 doy = doe - (365 * yoe + yoe / 4 - yoe / 100); i64 mp = (5 * doy + 2) / 153; *d = doy - (153 * mp + 2) / 5 + 1; *m = mp < 10 ? mp + 3 : mp - 9; *y = yoe + era * 400 + (*m <= 2); }
static const i64 D1970 = 719163; // the day number of 1970-01-01 where 0001-01-01 is day 1
static i64 nth_sunday(i64 y, int m, int n) { i64 f = days_of(y, m, 1); int wd = (f + 4) % 7; i64 s = f + (7 - wd) % 7; s += 7 * (n - 1); if (n == 5) { i64 next = m == 12 ? days_of(y + 1, 1, 1) : days_of(y, m + 1, 1); if (s >= next) s -= 7; } return s; }
static int z_kind; static i64 z_off;
static i64 zone(i64 t) {
  if (z_kind == 0) return z_off;
  i64 y; int m, d; civil(fdiv(t, 86400), &y, &m, &d);
  if (z_kind == 1) { i64 a = nth_sunday(y, 3, 5) * 86400 + 3600, b = nth_sunday(y, 10, 5) * 86400 + 3600; return z_off + (t >= a && t < b ? 3600 : 0); } // as in Europe
  i64 a = nth_sunday(y, 3, 2) * 86400 + 7200 - z_off, b = nth_sunday(y, 11, 1) * 86400 + 3600 - z_off; return z_off + (t >= a && t < b ? 3600 : 0); // as in America
}
// ---------------------------------------------------------------- what a reading of the clock stands for
static int date_of(i64 ns, bool local) { i64 s = fdiv(ns, 1000000000LL); if (local) s += zone(s); return fdiv(s, 86400) + D1970; }
static int time_of(i64 ns, bool local) { i64 s = fdiv(ns, 1000000000LL); int c = (ns - s * 1000000000LL) / 10000000; if (local) s += zone(s); return (s - fdiv(s, 86400) * 86400) * 100 + c; }
static std::string text_of(int date, int tm) { i64 y; int m, d; civil(date - D1970, &y, &m, &d); return lit("%04d-%02d-%02dT%02d:%02d:%02d.%02d", (int)y, m, d, tm / 360000, tm / 6000 % 60, tm / 100 % 60, tm % 100); }
static const i64 TMAX = 253402300799LL - 86400; // 9999-12-31
static const i64 BASE = 1700000000LL;
static void jump() { // the clock is set, forwards or backwards
  static const i64 special[] = {2147483647LL, 2147483648LL, 4294967295LL, 4294967296LL, 951782400LL - 1, 951868800LL - 1, 4107542400LL, 4107456000LL - 1, 13574563200LL - 1, 1LL << 33, 0, 86399};
  i64 s; switch (choose(SF, 6)) {
    case 0: s = special[choose(SF, 12)] + (i64)choose(SF, 5) - 2; break;
    case 1: { i64 y = 1970 + choose(SF, 8029); s = days_of(y, 1 + choose(SF, 12), 1) * 86400 + (i64)choose(SF, 5) - 2; break; } // around the turn of a month
    case 2: { i64 y = 1971 + choose(SF, 200); s = nth_sunday(y, choose(SF, 2) ? 3 : 10, 1 + choose(SF, 5)) * 86400 + (i64)choose(SF, 86400); break; } // a Sunday, when the clocks may change
    case 3: s = choose(SF, 1000000000ULL) * 253; break;
    case 4: { i64 now = BASE + (i64)G.now / 1000000000 + G.clock_off / 1000000000; s = fdiv(now, 86400) * 86400 + 86400 - 1 + (i64)choose(SF, 2); break; } // just before midnight
    default: { i64 now = BASE + (i64)G.now / 1000000000 + G.clock_off / 1000000000; s = now + (i64)choose(SF, 7200) - 3600; break; }
  }
  if (s < 100000 && choose(SF, 2)) s = 100000; if (s < 0) s = 0; if (s > TMAX) s = TMAX;
  i64 frac = choose(SF, 3) == 0 ? 999999999LL - (i64)choose(SF, 20000000) : (i64)choose(SF, 1000000000);
  G.clock_off = s * 1000000000LL + frac - BASE * 1000000000LL - (i64)G.now; if (G.clock_off + BASE * 1000000000LL + (i64)G.now < 0) G.clock_off = -BASE * 1000000000LL;
  ST.fired[F_CLOCK]++; ST.opp[F_CLOCK]++; EV(0x7100, s, frac, "  the clock is set to %s", text_of(date_of(s * 1000000000LL + frac, false), time_of(s * 1000000000LL + frac, false)).c_str());
}
struct Stored { int v; bool date; };
static std::map<int, std::vector<Stored>> rows; // by key
static int keyseq; static u64 nread;
static int reading(void* db, int which) {
  std::vector<i64> r; G.cur->reads = &r; static const char* nm[] = {"wg_current_utcdate", "wg_current_utctime", "wg_current_localdate", "wg_current_localtime"};
  int v = which == 0 ? wg_current_utcdate(db) : which == 1 ? wg_current_utctime(db) : which == 2 ? wg_current_localdate(db) : wg_current_localtime(db);
  G.cur->reads = nullptr; bool local = which >= 2, date = !(which & 1); bool ok = false; nread++;
  for (i64 x : r) if (v == (date ? date_of(x, local) : time_of(x, local))) ok = true;
  EV(0x7101, v, which, "  %s: %d", nm[which], v);
  if (r.empty()) violate("clock", "%s does not look at the clock", nm[which]);
  if (!ok) violate("clock", "%s returned %d, the clock showed %s UTC, zone %+lld s: expected %d", nm[which], v, text_of(date_of(r[0], false), time_of(r[0], false)).c_str(), (long long)zone(fdiv(r[0], 1000000000LL)), date ? date_of(r[0], local) : time_of(r[0], local));
  return v;
}
static void convert(void* db, int d, int t) {
  char* b = (char*)hmalloc(G.cur->proc, 40); memset(b, 0x5a, 40); std::string e = text_of(d, t); int n = wg_strf_iso_datetime(db, d, t, b); std::string got(b, strnlen(b, 40));
  if (got != e || n != (int)e.size()) violate("text", "date %d and time %d are written as %s, not %s", d, t, got.c_str(), e.c_str());
  int d2 = wg_strp_iso_date(db, b), t2 = wg_strp_iso_time(db, b + 11); if (d2 != d || t2 != t) violate("text", "%s is read back as date %d and time %d, not %d and %d", b, d2, t2, d, t);
  sim_free_ext(b);
  int y, m, dd, h, mi, s, c; wg_date_to_ymd(db, d, &y, &m, &dd); wg_time_to_hms(db, t, &h, &mi, &s, &c); i64 ey; int em, ed; civil(d - D1970, &ey, &em, &ed);
  if (y != ey || m != em || dd != ed) violate("fields", "date %d is split into %d-%d-%d, not %d-%d-%d", d, y, m, dd, (int)ey, em, ed);
  if (h != t / 360000 || mi != t / 6000 % 60 || s != t / 100 % 60 || c != t % 100) violate("fields", "time %d is split into %d:%d:%d.%d", t, h, mi, s, c);
  if (wg_ymd_to_date(db, y, m, dd) != d || wg_hms_to_time(db, h, mi, s, c) != t) violate("fields", "%s is put together as date %d and time %d, not %d and %d", e.c_str(), wg_ymd_to_date(db, y, m, dd), wg_hms_to_time(db, h, mi, s, c), d, t);
}
static void check_row(void* db, void* rec, const std::vector<Stored>& v) {
  if (wg_get_record_len(db, rec) != (wg_int)v.size() + 1) violate("stored", "a record has a wrong length");
  for (size_t i = 0; i < v.size(); i++) { wg_int e = wg_get_field(db, rec, i + 1); wg_int ty = wg_get_encoded_type(db, e); if (ty != (v[i].date ? WG_DATETYPE : WG_TIMETYPE)) violate("stored", "a stored %s has the type %lld", v[i].date ? "date" : "time", (long long)ty); int g = v[i].date ? wg_decode_date(db, e) : wg_decode_time(db, e); if (g != v[i].v) violate("stored", "the %s %d is read back as %d", v[i].date ? "date" : "time", v[i].v, g);
    if (wg_get_field_type(db, rec, i + 1) != ty) violate("stored", "the type of a field differs"); }
}
static void client(int proc, int rounds) {
  void* db = wg_attach_existing_database((char*)"100"); if (!db) violate("attach", "no database");
  for (int k = 0; k < rounds; k++) {
    if (choose(SW, 2)) sim_sleep_ns(1 + choose(SW, choose(SW, 2) ? 20000000 : 2000000000));
    switch (choose(SW, 5)) {
      case 0: case 1: { int w = choose(SW, 4), w2 = choose(SW, 4); int a = reading(db, w), b = reading(db, w2); convert(db, w & 1 ? reading(db, 0) : a, w2 & 1 ? b : reading(db, 3)); break; }
      case 2: case 3: { // stored
        std::vector<Stored> v; int n = 1 + choose(SW, 4); for (int i = 0; i < n; i++) { int w = choose(SW, 4); v.push_back({reading(db, w), !(w & 1)}); }
        wg_int l = wg_start_write(db); if (!l) break; void* r = wg_create_record(db, n + 1); if (!r) { wg_end_write(db, l); break; } int key = keyseq++; wg_set_field(db, r, 0, wg_encode_int(db, key));
        for (int i = 0; i < n; i++) { wg_int e = v[i].date ? wg_encode_date(db, v[i].v) : wg_encode_time(db, v[i].v); if (e == WG_ILLEGAL) violate("stored", "the current %s %d cannot be stored", v[i].date ? "date" : "time", v[i].v); wg_set_field(db, r, i + 1, e); }
        rows[key] = v; wg_end_write(db, l); break; }
      default: { wg_int l = wg_start_read(db); if (!l) break; size_t n = 0; for (void* r = wg_get_first_record(db); r; r = wg_get_next_record(db, r)) { auto it = rows.find(wg_decode_int(db, wg_get_field(db, r, 0))); if (it == rows.end()) violate("stored", "an unknown record"); check_row(db, r, it->second); n++; } if (n != rows.size()) violate("stored", "%zu of %zu records", n, rows.size());
        if (!rows.empty()) { // a stored value finds its record
          auto it = rows.begin(); std::advance(it, choose(SW, rows.size())); int c = choose(SW, it->second.size()); Stored s = it->second[c]; wg_query_arg a; a.column = c + 1; a.cond = WG_COND_EQUAL; a.value = s.date ? wg_encode_query_param_date(db, s.v) : wg_encode_query_param_time(db, s.v); bool found = false; size_t hits = 0, want = 0; wg_query* q = wg_make_query(db, nullptr, 0, &a, 1); if (!q) violate("query", "no query");
          while (void* r = wg_fetch(db, q)) { hits++; if (wg_decode_int(db, wg_get_field(db, r, 0)) == it->first) found = true; } wg_free_query(db, q); wg_free_query_param(db, a.value);
          for (auto& x : rows) if ((int)x.second.size() > c && x.second[c].v == s.v && x.second[c].date == s.date) want++;
          if (!found || hits != want) violate("query", "a query for the %s %d finds %zu records, not %zu", s.date ? "date" : "time", s.v, hits, want); }
        wg_end_read(db, l); break; }
    }
  }
  wg_detach_database(db);
}
SCENARIO(clock) {
  rows.clear(); keyseq = 0; nread = 0; sched_config(1); static const i64 offs[] = {0, 3600, -18000, 20700, 43200, -43200, 34200, 50400, 7200, -34200};
  z_kind = choose(SW, 3); z_off = z_kind == 0 ? offs[choose(SW, 10)] : z_kind == 1 ? (i64)choose(SW, 3) * 3600 : -((i64)choose(SW, 6) + 3) * 3600; G.zone = zone;
  void* db0 = wg_attach_database((char*)"100", 600000); if (!db0) return; if (choose(SW, 2)) { wg_create_index(db0, 1, WG_INDEX_TYPE_TTREE, nullptr, 0); } G.cur->nofault = true;
  int nc = 1 + choose(SW, 3); bool threads = choose(SW, 3) == 0; std::vector<int> ids; int left = nc; if (choose(SF, 8)) jump();
  for (int i = 0; i < nc; i++) { int proc = threads ? 1 : 1 + i, rounds = 1 + choose(SW, 10); if (!threads || !i) new_proc_state(proc); ids.push_back(spawn(proc, lit("client%d", i).c_str(), [proc, rounds, &left] { client(proc, rounds); left--; }, false)); }
  int kid = spawn(0, "clock", [&left] { while (left) { sim_sleep_ns(1 + choose(SF, choose(SF, 2) ? 10000000 : 1000000000)); if (choose(SF, 3)) jump(); else yield_point(); } }, true);
  ids.push_back(kid);
  if (threads) ids.push_back(spawn(1, "application", [&left] { while (left) { time_t t = choose(SW, 4000000000ULL); struct tm* r = sim_localtime(&t); (void)r; if (choose(SW, 3) == 0) sim_sleep_ns(1 + choose(SW, choose(SW, 2) ? 100000 : 50000000)); } }, true)); // another thread of the program works with times of its own
  wait_tasks(ids);
  client(0, 6); probe("readings", nread); if (nread) nontrivial(); g_sample = lit("%d clients%s, zone kind %d %+lld s, %llu readings, %zu records", nc, threads ? " in one process" : "", z_kind, (long long)z_off, (unsigned long long)nread, rows.size());
}
