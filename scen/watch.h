// Detects every change a reading client makes to the shared segment (the lock itself excepted).
#pragma once
#include "world.h"
struct RWatch {
  struct Pend { bool on = false; u64 off, n; std::string old; } pend[MAXTASK];
  int mode[MAXTASK] = {0};      // 0: may write, 1: reads, 2: dumps
  std::string what[MAXTASK]; u64 checked = 0; bool busy = false;
  static bool exempt(db_memsegment_header* h, u64 o, u64 n, int md) {
    u64 a = (u64)((char*)&h->locks - (char*)h), b = a + sizeof(h->locks);
    auto in = [&](u64 x, u64 y) { return o >= x && o + n <= y; };
    if (in(a, b)) return true;
#if !defined(LOCK_PROTO) || (LOCK_PROTO < 3)
    if (in(h->locks.global_lock, h->locks.global_lock + SYN_VAR_PADDING) || in(h->locks.writers, h->locks.writers + SYN_VAR_PADDING)) return true;
#else
    if (in(h->locks.queue_lock, h->locks.queue_lock + SYN_VAR_PADDING) || in(h->locks.storage, h->locks.storage + h->locks.max_nodes * SYN_VAR_PADDING)) return true;
#endif
    if (md == 2) { u64 l = (u64)((char*)&h->logging - (char*)h); if (in(l, l + sizeof(h->logging))) return true; }
    return false;
  }
  static const char* base(int proc, u64 off) { return (const char*)(SHM0 + proc * SHMPOOL + off); }
  void settle(int t) { Pend& p = pend[t]; if (!p.on) return; p.on = false; if (memcmp(base(G.cur->proc, p.off), p.old.data(), p.n)) { busy = true; violate("write", "while it %s, client %s changed %llu bytes at offset %llu of the shared database", what[t].c_str(), G.cur->name.c_str(), (unsigned long long)p.n, (unsigned long long)(p.off - segs[0].off)); } }
  void start(i64 key) {
    for (auto& p : pend) p.on = false; memset(mode, 0, sizeof mode); busy = false; checked = 0;
    G.watch = [this, key](uintptr_t a, unsigned n, bool) {
      if (!G.cur || busy) return; int t = G.cur->id; if (t >= MAXTASK || !mode[t]) return; settle(t);
      u64 b = SHM0 + G.cur->proc * SHMPOOL; if (a < b || a >= b + SHMPOOL) return; u64 off = a - b; Seg* s = shm_find(key); if (!s || off < s->off || off + n > s->off + s->size) return;
      u64 o = off - s->off; busy = true; bool ex = exempt((db_memsegment_header*)base(G.cur->proc, s->off), o, n, mode[t]); busy = false; if (ex) return;
      checked++; Pend& p = pend[t]; p.on = true; p.off = off; p.n = n; p.old.assign(base(G.cur->proc, off), n);
    };
    G.watch_on = true;
  }
  void begin(const char* w, int m = 1) { int t = G.cur->id; what[t] = w; mode[t] = m; }
  void end() { int t = G.cur->id; settle(t); mode[t] = 0; }
  void stop() { G.watch_on = false; G.watch = nullptr; }
};
