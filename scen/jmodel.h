// JSON text: a model of documents, a strict parser of our own, a generator, and what a query by keys and values finds.
#pragma once
#include "world.h"
#include <math.h>
#include <errno.h>
namespace {
struct J { char t = 'n'; i64 i = 0; double d = 0; std::string s; std::vector<std::pair<std::string, J>> o; std::vector<J> a; };
int depth_of(const J& j) { int m = 0; if (j.t == 'o') for (auto& x : j.o) m = std::max(m, depth_of(x.second)); else if (j.t == 'a') for (auto& x : j.a) m = std::max(m, depth_of(x)); else return 0; return m + 1; }
// ---- a strict parser of our own
struct P {
  const std::string& s; size_t p = 0; bool ok = true, unsup = false; int lev = 0;
  explicit P(const std::string& x) : s(x) {}
  void ws() { for (;;) { while (p < s.size() && strchr(" \t\n\r\v\f", s[p]) && s[p]) p++; if (p + 1 < s.size() && s[p] == '/' && s[p + 1] == '*') { size_t e = s.find("*/", p + 2); if (e == std::string::npos) { ok = false; return; } p = e + 2; } else if (p + 1 < s.size() && s[p] == '/' && s[p + 1] == '/') { while (p < s.size() && s[p] != '\n') p++; } else return; } }
  bool lit(const char* l) { size_t n = strlen(l); if (s.compare(p, n, l)) return false; p += n; return true; }
  static void u8(std::string& o, unsigned c) { if (c < 0x80) o += (char)c; else if (c < 0x800) { o += (char)(0xC0 | c >> 6); o += (char)(0x80 | (c & 63)); } else if (c < 0x10000) { o += (char)(0xE0 | c >> 12); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } else { o += (char)(0xF0 | c >> 18); o += (char)(0x80 | (c >> 12 & 63)); o += (char)(0x80 | (c >> 6 & 63)); o += (char)(0x80 | (c & 63)); } }
  int hex4() { if (p + 4 > s.size()) { ok = false; return 0; } int v = 0; for (int k = 0; k < 4; k++) { char c = s[p++]; if (!isxdigit((unsigned char)c)) { ok = false; return 0; } v = v * 16 + (c <= '9' ? c - '0' : (c | 32) - 'a' + 10); } return v; }
  std::string str() {
    std::string r; if (p >= s.size() || s[p] != '"') { ok = false; return r; } p++;
    for (;;) { if (p >= s.size()) { ok = false; return r; } unsigned char c = s[p++]; if (c == '"') return r; if (c < 0x20) { ok = false; return r; } if (c != '\\') { r += c; continue; }
      if (p >= s.size()) { ok = false; return r; } c = s[p++]; switch (c) { case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break; case 'b': r += '\b'; break; case 'f': r += '\f'; break; case '"': case '\\': case '/': r += c; break;
        case 'u': { unsigned v = hex4(); if (!ok) return r; if (v >= 0xD800 && v < 0xDC00) { if (p + 1 < s.size() && s[p] == '\\' && s[p + 1] == 'u') { p += 2; unsigned w = hex4(); if (!ok) return r; if (w < 0xDC00 || w > 0xDFFF) unsup = true; v = 0x10000 + ((v & 0x3ff) << 10) + (w & 0x3ff); } else unsup = true; } else if (v >= 0xDC00 && v < 0xE000) unsup = true; if (!v) unsup = true; u8(r, v); break; }
        default: ok = false; return r; } }
  }
  J val() {
    J j; ws(); if (!ok || p >= s.size() || lev > 200) { ok = false; return j; } char c = s[p];
    if (c == '{') { j.t = 'o'; p++; lev++; ws(); if (p < s.size() && s[p] == '}') { p++; lev--; return j; } for (;;) { ws(); std::string k = str(); if (!ok) return j; ws(); if (p >= s.size() || s[p] != ':') { ok = false; return j; } p++; J v = val(); if (!ok) return j; j.o.push_back({k, v}); ws(); if (p >= s.size()) { ok = false; return j; } if (s[p] == ',') { p++; continue; } if (s[p] == '}') { p++; lev--; return j; } ok = false; return j; } }
    if (c == '[') { j.t = 'a'; p++; lev++; ws(); if (p < s.size() && s[p] == ']') { p++; lev--; return j; } for (;;) { J v = val(); if (!ok) return j; j.a.push_back(v); ws(); if (p >= s.size()) { ok = false; return j; } if (s[p] == ',') { p++; continue; } if (s[p] == ']') { p++; lev--; return j; } ok = false; return j; } }
    if (c == '"') { j.t = 's'; j.s = str(); return j; }
    if (lit("null")) { j.t = 'n'; return j; } if (lit("true") || lit("false")) { j.t = 'b'; unsup = true; return j; }
    size_t b = p; bool dbl = false; if (s[p] == '-') p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) { ok = false; return j; } if (s[p] == '0') p++; else while (p < s.size() && isdigit((unsigned char)s[p])) p++;
    if (p < s.size() && s[p] == '.') { dbl = true; p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) { ok = false; return j; } while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
    if (p < s.size() && (s[p] | 32) == 'e') { dbl = true; p++; if (p < s.size() && (s[p] == '+' || s[p] == '-')) p++; if (p >= s.size() || !isdigit((unsigned char)s[p])) { ok = false; return j; } while (p < s.size() && isdigit((unsigned char)s[p])) p++; }
    std::string n = s.substr(b, p - b); if (dbl) { j.t = 'd'; j.d = strtod(n.c_str(), nullptr); if (isinf(j.d)) unsup = true; } else { j.t = 'i'; errno = 0; j.i = strtoll(n.c_str(), nullptr, 10); if (errno) unsup = true; errno = 0; } return j;
  }
  bool doc(J* out) { *out = val(); if (!ok) return false; ws(); return ok && p == s.size(); }
};
// ---- generation
std::string gstr(int maxl) {
  static const char* w[] = {"", "a", "key", "name", "x", "id", "long key 0123456789", "é", "日本", "\xF0\x9F\x98\x80", "q\"uote", "back\\slash", "new\nline", "tab\t", "\x01\x1f", "sla/sh", " "};
  std::string s = w[choose(SW, 17)]; u64 r = choose(SW, 12); if (r == 1) { static const int ls[] = {31, 32, 33, 78, 79, 80, 81, 127, 255, 256, 700}; int n = ls[choose(SW, 11)]; while ((int)s.size() < n && (int)s.size() < maxl) s += (char)('a' + s.size() % 26); } else if (r == 2) s += std::to_string(choose(SW, 1000)); return s;
}
J gval(int depth, int budget) {
  J j; static const char ts[] = "issdnaoo"; j.t = ts[choose(SW, depth > 0 ? 8 : 5)];
  switch (j.t) { case 'i': { static const i64 v[] = {0, 1, -1, 42, 1 << 28, -(1 << 28) - 1, 2147483648LL, -2147483649LL, 4294967296LL, 1LL << 60, -(1LL << 60), 9223372036854775807LL}; j.i = choose(SW, 3) ? v[choose(SW, 12)] : (i64)choose(SW, 100000); break; } case 'd': { static const double v[] = {0.5, -1.25, 3.14159, 1e10, 1e22, 123456.75, 1e100, 1e300, -2.5e200, 1e-7, 0.0}; j.d = v[choose(SW, 11)]; break; } case 's': j.s = gstr(2000); break;
    case 'a': { int n = choose(SW, budget); while (n--) j.a.push_back(gval(depth - 1, budget)); break; } case 'o': { int n = choose(SW, budget); while (n--) { std::string k = gstr(300); j.o.push_back({k, gval(depth - 1, budget)}); } break; } }
  return j;
}
std::string gap(int st) { if (!st || choose(SW, 4)) return ""; static const char* g[] = {" ", "\n", "\t", "  ", "\r\n", "/* c */", "// c\n", "/* \" */"}; return g[choose(SW, st > 1 ? 8 : 5)]; }
std::string esc(const std::string& s, int st) {
  std::string r = "\""; for (size_t k = 0; k < s.size(); k++) { unsigned char c = s[k]; char b[16];
    if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if (c == '\t') r += "\\t"; else if (c == '/' && st) r += "\\/"; else if (c < 0x20) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else if (c >= 0x80 && st) { int n = c >= 0xF0 ? 4 : c >= 0xE0 ? 3 : 2; unsigned v = c & (0xff >> (n + 1)); for (int q = 1; q < n; q++) v = v << 6 | (s[k + q] & 63); k += n - 1; if (v >= 0x10000) { v -= 0x10000; snprintf(b, sizeof b, "\\u%04X\\u%04x", 0xD800 + (v >> 10), 0xDC00 + (v & 0x3ff)); } else snprintf(b, sizeof b, "\\u%04x", v); r += b; }
    else r += c; }
  return r + "\"";
}
void text(const J& j, int st, std::string& o) {
  o += gap(st); char b[64];
  switch (j.t) { case 'n': o += "null"; break; case 'i': o += std::to_string(j.i); break; case 'd': snprintf(b, sizeof b, "%.17g", j.d); o += b; if (!strpbrk(b, ".e")) o += ".0"; break; case 's': o += esc(j.s, st && choose(SW, 2)); break;
    case 'a': o += "["; for (size_t k = 0; k < j.a.size(); k++) { if (k) o += ","; text(j.a[k], st, o); } o += gap(st) + "]"; break;
    case 'o': o += "{"; for (size_t k = 0; k < j.o.size(); k++) { if (k) o += ","; o += gap(st) + esc(j.o[k].first, st && choose(SW, 2)) + gap(st) + ":"; text(j.o[k].second, st, o); } o += gap(st) + "}"; break; }
  o += gap(st);
}
struct KV { std::string k; const J* v; };
void kvs(const J& j, std::vector<KV>& o) { if (j.t == 'o') for (auto& x : j.o) { o.push_back({x.first, &x.second}); kvs(x.second, o); } else if (j.t == 'a') for (auto& x : j.a) kvs(x, o); }
void fakes(const J& j, std::vector<KV>& o) { if (j.t == 'o') for (auto& x : j.o) fakes(x.second, o); else if (j.t == 'a') { if (j.a.size() > 2 && j.a[1].t == 's') o.push_back({j.a[1].s, &j.a[2]}); for (auto& x : j.a) fakes(x, o); } } // arrays that look like a pair
bool aslist(const J& a, std::vector<J>& o) { if (a.t == 'a') { o = a.a; return true; } if (a.t != 'o') return false; for (auto& x : a.o) { J l; l.t = 'a'; J n, k; k.t = 's'; k.s = x.first; l.a.push_back(n); l.a.push_back(k); l.a.push_back(x.second); o.push_back(l); } return true; } // how the parts are stored
bool eqj(const J& a, const J& b) { std::vector<J> x, y; bool la = aslist(a, x), lb = aslist(b, y); if (la != lb) return false; if (!la) return a.t == b.t && a.i == b.i && a.d == b.d && a.s == b.s; if (x.size() != y.size()) return false; for (size_t k = 0; k < x.size(); k++) if (!eqj(x[k], y[k])) return false; return true; }
bool matches(const J& doc, const std::string& k, const J& v) { std::vector<KV> l; kvs(doc, l); for (auto& x : l) if (x.k == k) { if (eqj(*x.v, v)) return true; if (x.v->t == 'a') for (auto& e : x.v->a) if (eqj(e, v)) return true; } return false; }
}
