// Driver: search over seeds, replay of a recorded run, minimisation.
#include "core.h"
#include "scen.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <time.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <unordered_set>
#include <fstream>
#include <sstream>
#include <iostream>
std::map<std::string, std::string> OPT;
static std::string scen_name; static ScenFn scen_fn; static std::string out_path; static u64 cur_seed;
bool g_nontrivial; std::string g_sample; bool g_tracing;
void nontrivial() { g_nontrivial = true; }
std::vector<Scen>& scenarios() { static std::vector<Scen> v; return v; }
Scen::Scen(const char* n, ScenFn f) : name(n), fn(f) { scenarios().push_back(*this); }
static double nowd() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
struct Replay { std::string scen; u64 seed = 0; std::string cls, msg; u64 hash = 0; std::map<std::string, std::string> opt; std::vector<u64> s[NSTREAM]; };
static void write_replay(const std::string& path, const Replay& r) {
  std::ofstream f(path); f << "scenario " << r.scen << "\n"; for (auto& o : r.opt) f << "opt " << o.first << " " << o.second << "\n";
  f << "seed " << r.seed << "\nclass " << r.cls << "\nhash " << r.hash << "\nmsg " << r.msg << "\n";
  static const char* nm[] = {"workload", "schedule", "faults"};
  for (int i = 0; i < NSTREAM; i++) { f << nm[i]; for (u64 v : r.s[i]) f << " " << v; f << "\n"; }
}
static Replay read_replay(const std::string& path) {
  Replay r; std::ifstream f(path); std::string line; if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); _exit(2); }
  while (std::getline(f, line)) { std::istringstream is(line); std::string k; is >> k;
    if (k == "scenario") is >> r.scen; else if (k == "opt") { std::string a, b; is >> a; std::getline(is, b); r.opt[a] = b.size() ? b.substr(1) : b; } else if (k == "seed") is >> r.seed; else if (k == "class") is >> r.cls; else if (k == "hash") is >> r.hash; else if (k == "msg") { std::getline(is, r.msg); if (!r.msg.empty()) r.msg.erase(0, 1); }
    else { int i = k == "workload" ? 0 : k == "schedule" ? 1 : k == "faults" ? 2 : -1; if (i >= 0) { u64 v; while (is >> v) r.s[i].push_back(v); } } }
  return r;
}
static Replay current(const RunResult& res) { Replay r; r.scen = scen_name; r.opt = OPT; r.seed = cur_seed; r.cls = res.cls; r.msg = res.msg; r.hash = res.hash; for (int i = 0; i < NSTREAM; i++) { r.s[i] = G.ch[i].used; while (!r.s[i].empty() && r.s[i].back() == 0) r.s[i].pop_back(); } return r; }
static int crash_fd = -1; static bool in_child;
static void on_signal(int sig, siginfo_t* si, void*) {
  RunResult r; r.violated = true; r.cls = "crash"; char b[200]; u64 a = (u64)si->si_addr; bool guard = a >= STK0 && a < SHM0;
  snprintf(b, sizeof b, "the code under test received signal %d (%s)%s", sig, strsignal(sig), guard ? " - stack overflow" : (sig == SIGSEGV && a < 65536 ? " - access near NULL" : "")); r.msg = b; r.hash = G.hash; r.ihash = 0;
  bool inlib = G.cur != nullptr;
  if (!inlib) { fprintf(stderr, "simulator crashed: %s seed %llu\n", b, (unsigned long long)cur_seed); _exit(2); }
  if (G.verbose) { printf("  !! crash: %s\n", b); fflush(stdout); }
  if (in_child) { std::string m = "crash\n" + std::string(b) + "\n" + std::to_string(r.hash); if (write(crash_fd, m.data(), m.size()) < 0) {} _exit(0); }
  if (!out_path.empty()) { write_replay(out_path + ".viol", current(r)); }
  fprintf(stdout, "VIOL class=crash msg=%s seed=%llu\n", b, (unsigned long long)cur_seed); fflush(stdout); _exit(3);
}
static RunResult run_once(u64 seed, const std::vector<u64>* rep) { cur_seed = seed; g_nontrivial = false; g_sample.clear(); return run_sim(seed, rep, [] { scen_fn(); }); }
struct Out { bool viol; std::string cls, msg; u64 hash; };
static Out run_forked(const Replay& r, double lim = 20) {
  int p[2]; if (pipe(p)) _exit(2); fflush(stdout);
  pid_t c = fork();
  if (!c) { close(p[0]); crash_fd = p[1]; in_child = true; alarm((int)lim + 1); RunResult x = run_once(r.seed, r.s); std::string m = (x.violated ? x.cls : std::string("-")) + "\n" + x.msg + "\n" + std::to_string(x.hash); if (write(p[1], m.data(), m.size()) < 0) {} _exit(0); }
  close(p[1]); std::string m; char b[4096]; ssize_t n; while ((n = read(p[0], b, sizeof b)) > 0) m.append(b, n); close(p[0]); int st; waitpid(c, &st, 0);
  Out o; o.viol = false; o.hash = 0; std::istringstream is(m); std::string h; std::getline(is, o.cls); std::getline(is, o.msg); std::getline(is, h); if (!h.empty()) o.hash = strtoull(h.c_str(), 0, 10);
  if (m.empty()) { o.cls = "killed"; return o; } o.viol = o.cls != "-"; return o;
}
static std::string msgkey(const std::string& m) { std::string k; for (char c : m) { if (c == ':') break; if (!isdigit((unsigned char)c)) k += c; } return k.substr(0, 60); }
static int do_shrink(const std::string& path, double budget) {
  Replay r = read_replay(path); double t0 = nowd(); Out o = run_forked(r);
  if (!o.viol) { printf("SHRINK not reproduced\n"); return 2; }
  std::string cls = o.cls; size_t tries = 0; 
  auto ok = [&](const Replay& c) { tries++; Out x = run_forked(c, 5); return x.viol && x.cls == cls; };
  bool progress = true; 
  while (progress && nowd() - t0 < budget) {
    progress = false;
    static const int order[3] = {SF, SW, SS};
    for (int oi = 0; oi < 3; oi++) { int st = order[oi];
      // truncate, then delete chunks, then zero, then lower
      for (size_t sz = r.s[st].size(); sz >= 1 && nowd() - t0 < budget; sz = sz / 2) {
        for (size_t i = 0; i < r.s[st].size() && nowd() - t0 < budget;) {
          Replay c = r; size_t e = std::min(i + sz, c.s[st].size()); c.s[st].erase(c.s[st].begin() + i, c.s[st].begin() + e);
          if (ok(c)) { r = c; progress = true; } else {
            bool z = false; c = r; for (size_t k = i; k < e; k++) if (c.s[st][k]) { c.s[st][k] = 0; z = true; }
            if (z && ok(c)) { r = c; progress = true; }
            i += sz;
          }
        }
        if (sz == 1) break;
      }
      for (size_t i = 0; i < r.s[st].size() && nowd() - t0 < budget; i++) {
        u64 lo = 0; while (r.s[st][i] > lo + 0 && nowd() - t0 < budget) { u64 v = r.s[st][i]; u64 m = lo + (v - lo) / 2; if (m >= v) break; Replay c = r; c.s[st][i] = m; if (ok(c)) { r = c; progress = true; } else lo = m + 1; }
      }
      while (!r.s[st].empty() && r.s[st].back() == 0) r.s[st].pop_back();
    }
  }
  Out f = run_forked(r); r.cls = f.cls; r.msg = f.msg; r.hash = f.hash; write_replay(path, r);
  printf("SHRINK tries=%zu workload=%zu schedule=%zu faults=%zu class=%s hash=%llu\n", tries, r.s[0].size(), r.s[1].size(), r.s[2].size(), r.cls.c_str(), (unsigned long long)r.hash);
  return 0;
}
static std::string js(const std::string& s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((unsigned char)c < 32 || (unsigned char)c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", (unsigned char)c); o += b; } else o += c; } return o; }
int main(int argc, char** argv) {
  std::string mode = "search", file; u64 start = 1, step = 1, maxruns = ~0ULL; double tlim = 10;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
    if (a == "--scen") scen_name = nx(); else if (a == "--start") start = strtoull(argv[++i], 0, 10); else if (a == "--step") step = strtoull(argv[++i], 0, 10); else if (a == "--runs") maxruns = strtoull(argv[++i], 0, 10);
    else if (a == "--time") tlim = atof(argv[++i]); else if (a == "--out") out_path = nx(); else if (a == "--opt") { std::string k = nx(); OPT[k] = nx(); }
    else if (a == "--replay") { mode = "replay"; file = nx(); } else if (a == "--shrink") { mode = "shrink"; file = nx(); } else if (a == "--verbose") G.verbose = true; else if (a == "--hashes") mode = "hashes"; else if (a == "--list") { for (auto& s : scenarios()) printf("%s\n", s.name); return 0; } else { fprintf(stderr, "bad option %s\n", a.c_str()); return 2; } }
  if (mode == "replay" || mode == "shrink") { Replay r = read_replay(file); scen_name = r.scen; OPT = r.opt; }
  for (auto& s : scenarios()) if (scen_name == s.name) scen_fn = s.fn;
  if (!scen_fn) { fprintf(stderr, "unknown scenario %s\n", scen_name.c_str()); return 2; }
  mem_init(); setvbuf(stdout, nullptr, _IOLBF, 0);
  static char alt[65536]; stack_t ss = {}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
  struct sigaction sa = {}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK; for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL}) sigaction(s, &sa, nullptr);
  if (mode == "shrink") return do_shrink(file, tlim);
  if (mode == "replay") { Replay r = read_replay(file); g_tracing = G.verbose; RunResult x = run_once(r.seed, r.s); printf("REPLAY %s class=%s hash=%llu msg=%s\n", x.violated ? "violated" : "clean", x.cls.c_str(), (unsigned long long)x.hash, x.msg.c_str()); return x.violated ? 1 : 0; }
  if (mode == "hashes") { for (u64 i = 0; i < maxruns; i++) { RunResult x = run_once(start + i * step, nullptr); printf("%llu %llu %llu %s\n", (unsigned long long)(start + i * step), (unsigned long long)x.hash, (unsigned long long)x.ihash, x.cls.c_str()); } return 0; }
  double t0 = nowd(); std::unordered_set<u64> seen, inter; u64 nontriv = 0, n = 0; int rc = 0; std::vector<std::pair<u64, std::string>> samples; double slow = 0; u64 slowseed = 0;
  for (u64 i = 0; i < maxruns; i++) {
    u64 seed = start + i * step; double a = nowd(); if (a - t0 >= tlim) break;
    RunResult x = run_once(seed, nullptr); n++; double b = nowd(); if (b - a > slow) { slow = b - a; slowseed = seed; }
    if (x.violated) { printf("VIOL class=%s msg=%s seed=%llu\n", x.cls.c_str(), x.msg.c_str(), (unsigned long long)seed); if (!out_path.empty()) write_replay(out_path + ".viol", current(x)); rc = 3; break; }
    if (seen.size() < 400000 && g_nontrivial && seen.insert(x.hash).second) nontriv++;
    if (inter.size() < 400000) inter.insert(x.ihash);
    if (samples.size() < 3 && g_nontrivial && !g_sample.empty()) samples.push_back({seed, g_sample});
  }
  if (!out_path.empty()) {
    std::ofstream f(out_path + ".json"); f << "{\"runs\":" << n << ",\"distinct_nontrivial\":" << nontriv << ",\"interleavings\":" << inter.size() << ",\"accesses\":" << ST.accesses << ",\"switches\":" << ST.switches << ",\"syscalls\":" << ST.syscalls << ",\"simtime_ns\":" << ST.simtime << ",\"wall\":" << nowd() - t0 << ",\"slowest\":" << slow << ",\"slowest_seed\":" << slowseed << ",\"faults\":{";
    bool first = true; for (int k = 0; k < NFAULT; k++) if (ST.opp[k] || ST.fired[k]) { f << (first ? "" : ",") << "\"" << fault_name[k] << "\":{\"fired\":" << ST.fired[k] << ",\"opportunities\":" << ST.opp[k] << "}"; first = false; }
    f << "},\"probes\":{"; first = true; for (auto& p : ST.probes) { f << (first ? "" : ",") << "\"" << js(p.first) << "\":" << p.second; first = false; }
    f << "},\"samples\":["; first = true; for (auto& s : samples) { f << (first ? "" : ",") << "{\"seed\":" << s.first << ",\"case\":\"" << js(s.second) << "\"}"; first = false; } f << "]}\n"; f.close();
    std::ofstream h(out_path + ".hash", std::ios::binary); for (u64 v : seen) h.write((char*)&v, 8); std::ofstream h2(out_path + ".ihash", std::ios::binary); for (u64 v : inter) h2.write((char*)&v, 8);
  }
  return rc;
}
