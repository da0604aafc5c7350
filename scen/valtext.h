// Rows as text: what the command line and CSV files say, and how WhiteDB is documented to read it.
#pragma once
#include "world.h"
#include <math.h>
#include <errno.h>
namespace {
struct F { int t = WG_NULLTYPE; i64 i = 0; double d = 0; std::string s; bool operator==(const F& o) const { return t == o.t && i == o.i && d == o.d && s == o.s; } bool operator<(const F& o) const { return t != o.t ? t < o.t : i != o.i ? i < o.i : d != o.d ? d < o.d : s < o.s; } };
typedef std::vector<F> Row;
std::string show(const F& f) { char b[60]; switch (f.t) { case WG_NULLTYPE: return "NULL"; case WG_INTTYPE: return std::to_string(f.i); case WG_DOUBLETYPE: snprintf(b, sizeof b, "%.17g", f.d); return b; case WG_DATETYPE: return "date " + std::to_string(f.i); case WG_TIMETYPE: return "time " + std::to_string(f.i); default: return "'" + f.s.substr(0, 60) + (f.s.size() > 60 ? "...'" + std::to_string(f.s.size()) : "'"); } }
std::string show(const Row& r) { std::string s = "("; for (auto& f : r) s += show(f) + " "; return s + ")"; }
bool alld(const std::string& s, size_t a, size_t b) { if (a >= b) return false; for (; a < b; a++) if (!isdigit((unsigned char)s[a])) return false; return true; }
F guess(const std::string& s) { // as documented for wg_parse_and_encode and the import
  F f; if (s.empty()) return f; f.t = WG_STRTYPE; f.s = s;
  if (s.size() == 10 && s[4] == '-' && s[7] == '-' && alld(s, 0, 4) && alld(s, 5, 7) && alld(s, 8, 10)) { int m = atoi(s.c_str() + 5), d = atoi(s.c_str() + 8); if (m >= 1 && m <= 12 && d >= 1 && d <= 31) { f.t = WG_DATETYPE; f.i = atoi(s.c_str()) * 10000 + m * 100 + d; f.s = ""; } return f; }
  if (s.size() >= 8 && s[2] == ':' && s[5] == ':' && alld(s, 0, 2) && alld(s, 3, 5) && alld(s, 6, 8) && (s.size() == 8 || (s.size() >= 11 && s[8] == '.' && alld(s, 9, s.size())))) { int h = atoi(s.c_str()), m = atoi(s.c_str() + 3), q = atoi(s.c_str() + 6), c = s.size() > 8 ? (s[9] - '0') * 10 + s[10] - '0' : 0; if (h <= 24 && m <= 60 && q <= 60) { f.t = WG_TIMETYPE; f.i = ((h * 60 + m) * 60 + q) * 100 + c; f.s = ""; } return f; }
  size_t b = s[0] == '-', p = s.find('.'); if (p == std::string::npos) { if (!alld(s, b, s.size())) return f; errno = 0; i64 v = strtoll(s.c_str(), nullptr, 10); bool bad = errno != 0; errno = 0; if (!bad) { f.t = WG_INTTYPE; f.i = v; f.s = ""; } return f; }
  if (alld(s, b, p) && (p + 1 == s.size() || alld(s, p + 1, s.size()))) { errno = 0; double v = strtod(s.c_str(), nullptr); bool bad = errno != 0; errno = 0; if (!bad) { f.t = WG_DOUBLETYPE; f.d = v; f.s = ""; } } return f;
}
bool parse(const std::string& t, std::vector<std::vector<std::string>>& rows) { // false: a quoted field never ends
  std::vector<std::string> r; std::string f; int st = 0; // 0 start of a field, 1 unquoted, 2 quoted, 3 after a quoted field
  for (size_t k = 0; k <= t.size(); k++) { bool end = k == t.size(); char c = end ? '\n' : t[k];
    if (st == 2) { if (end) return false; if (c != '"') f += c; else if (k + 1 < t.size() && t[k + 1] == '"') { f += '"'; k++; } else st = 3; continue; }
    if (c == '\r') continue; if (c == ',') { r.push_back(f); f.clear(); st = 0; continue; } if (c == '\n') { if (st || !r.empty()) { r.push_back(f); rows.push_back(r); } r.clear(); f.clear(); st = 0; continue; }
    if (st == 0 && c == '"') { st = 2; continue; } st = 1; f += c; }
  return true;
}
std::string gtext() {
  static const char* w[] = {"", "a", "x y", "7", "-3", "0", "007", "268435456", "-268435457", "2147483648", "9223372036854775807", "9223372036854775808", "99999999999999999999", "1.5", "-2.25", "0.1", "1.", "-.5", "+5", "1e5", " 5", "5 ", "12abc", "1.2.3", "2012-09-30", "1999-02-28", "2010-13-01", "2012-09-30 late", "12:30:45.07", "23:59:59", "12:30:45 start", "12:30", "25:00:00", "2012", "-", ".", "3.14159", "100000000000000000000.5"};
  u64 k = choose(SW, 10); std::string s; if (k < 5) s = w[choose(SW, sizeof w / sizeof *w)]; else if (k < 7) { static const char a[] = "ab ,\"\n'\t;\xc3\xa9\xff"; int n = choose(SW, 12); while (n--) s += a[choose(SW, sizeof a - 1)]; if (s == "\xff") s = "x"; } else if (k == 7) { static const int l[] = {31, 32, 33, 63, 64, 100, 255, 256, 1000, 3000, 3900}; int n = l[choose(SW, 11)]; while ((int)s.size() < n) s += (char)('a' + (s.size() * 7 + n) % 26); if (!choose(SW, 4)) s = (choose(SW, 2) ? "-1" : "1") + std::string(70 + choose(SW, 260), '0') + (choose(SW, 2) ? ".5" : ""); else if (!choose(SW, 4)) s = "1." + std::string(60 + choose(SW, 40), '0') + "1 x"; } else if (k == 8) s = std::to_string((i64)choose(SW, 100000) - 50000); else s = "row" + std::to_string(choose(SW, 1000));
  return s;
}
bool needq(const std::string& s) { return s.find_first_of(",\"\n\r") != std::string::npos; }
F value(void* db, i64 e) {
  F f; int t = wg_get_encoded_type(db, e); f.t = t; if (t == WG_INTTYPE) f.i = wg_decode_int(db, e); else if (t == WG_DOUBLETYPE) f.d = wg_decode_double(db, e); else if (t == WG_STRTYPE) f.s = wg_decode_str(db, e); else if (t == WG_DATETYPE) { int y, m, d; wg_date_to_ymd(db, wg_decode_date(db, e), &y, &m, &d); f.i = y * 10000 + m * 100 + d; } else if (t == WG_TIMETYPE) f.i = wg_decode_time(db, e); return f;
}
std::vector<i64> scan(void* db) { std::vector<i64> v; for (void* p = wg_get_first_record(db); p; p = wg_get_next_record(db, p)) { v.push_back(off_of(db, p)); if (v.size() > 20000) violate("scan", "scanning the records never ends"); } return v; }
Row rowof(void* db, i64 o) { Row r; void* p = ptr_of(db, o); i64 n = wg_get_record_len(db, p); for (i64 k = 0; k < n; k++) r.push_back(value(db, wg_get_field(db, p, k))); return r; }
}
