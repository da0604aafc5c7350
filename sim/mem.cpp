// Simulated heap, shared memory and memory access callbacks.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <unistd.h>
#include <sys/mman.h>
#include <sys/ipc.h>
#include <sys/shm.h>
#include <algorithm>
static uint8_t* shadow;            // one byte per 8 arena bytes: number of valid leading bytes
struct Blk { u64 addr, size, serial; int proc; bool live; };
static std::vector<Blk> blks; static u64 arena_top; static u64 serial_no;
std::vector<Seg> segs; bool shm_attached[MAXPROC][64]; static int shm_cnt[MAXPROC][64]; static u64 shm_top, shm_serial; static int shmfd = -1;
void mem_init() {
  void* p = mmap((void*)ARENA0, ARENASZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0);
  if (p != (void*)ARENA0) { perror("arena"); _exit(2); }
  shadow = (uint8_t*)mmap(nullptr, ARENASZ / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  for (int i = 0; i < MAXTASK; i++) {
    u64 a = STK0 + (u64)i * (STKSZ + 65536) + 65536;
    p = mmap((void*)a, STKSZ, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void*)a) { perror("stack"); _exit(2); }
    memset(p, 0xA5, STKSZ);
  }
  shmfd = memfd_create("simshm", 0); if (shmfd < 0 || ftruncate(shmfd, SHMPOOL)) { perror("memfd"); _exit(2); }
  for (int i = 0; i < MAXPROC; i++) {
    u64 a = SHM0 + i * SHMPOOL;
    p = mmap((void*)a, SHMPOOL, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED_NOREPLACE, shmfd, 0);
    if (p != (void*)a) { perror("shm map"); _exit(2); }
  }
}
void mem_reset() {
  if (arena_top) memset(shadow, 0, arena_top / 8 + 16);
  arena_top = 64; blks.clear(); serial_no = 0;
}
static void shadow_set(u64 a, u64 n) { u64 o = (a - ARENA0) >> 3; memset(shadow + o, 8, n >> 3); if (n & 7) shadow[o + (n >> 3)] = n & 7; }
static void shadow_clear(u64 a, u64 n) { memset(shadow + ((a - ARENA0) >> 3), 0, (n + 7) >> 3); }
bool mem_ok(uintptr_t a, u64 n) {
  while (n) { u64 o = (a - ARENA0) >> 3; unsigned k = a & 7; unsigned m = 8 - k; if (m > n) m = n; if (shadow[o] < k + m) return false; a += m; n -= m; }
  return true;
}
void* hmalloc(int proc, u64 n) {
  u64 sz = (n + 15) & ~15ULL; if (!sz) sz = 16;
  if (arena_top + sz + 64 > ARENASZ) { if (G.cur && !G.cur->nofault) { errno = ENOMEM; return nullptr; } fprintf(stderr, "arena exhausted\n"); _exit(2); }
  u64 a = ARENA0 + arena_top; arena_top += sz + 48;
  shadow_set(a, n); memset((void*)a, 0xBE, sz);
  blks.push_back(Blk{a, n, ++serial_no, proc, true}); return (void*)a;
}
static Blk* blk_find(u64 a) {
  size_t lo = 0, hi = blks.size();
  while (lo < hi) { size_t m = (lo + hi) / 2; if (blks[m].addr <= a) lo = m + 1; else hi = m; }
  if (!lo) return nullptr; return &blks[lo - 1];
}
u64 mem_live_bytes(int p) { u64 s = 0; for (auto& b : blks) if (b.live && b.proc == p) s += b.size; return s; }
u64 mem_live_blocks(int p) { u64 s = 0; for (auto& b : blks) if (b.live && b.proc == p) s++; return s; }
u64 mem_mark() { return serial_no; }
u64 mem_live_since(u64 mark, int p, u64* first) { u64 s = 0; for (size_t i = mark; i < blks.size(); i++) if (blks[i].live && blks[i].proc == p) { if (!s && first) *first = blks[i].serial; s++; } return s; }
std::string mem_describe(u64 ser) { char b[100]; Blk& k = blks[ser - 1]; snprintf(b, sizeof b, "allocation #%llu of %llu bytes", (unsigned long long)k.serial, (unsigned long long)k.size); return b; }
void mem_drop_proc(int p) { for (auto& b : blks) if (b.live && b.proc == p) { b.live = false; shadow_clear(b.addr, b.size); } }
static __attribute__((noinline, noreturn)) void badacc(uintptr_t a, u64 n, bool w, const char* what) {
  Blk* b = blk_find(a);
  if (a - ARENA0 < ARENASZ && b)
    violate("memory", "%s of %llu byte(s) %s: offset %lld of a %s block of %llu bytes", w ? "write" : "read", (unsigned long long)n, what, (long long)(a - b->addr), b->live ? "live" : "freed", (unsigned long long)b->size);
  violate("memory", "%s of %llu byte(s) %s", w ? "write" : "read", (unsigned long long)n, what);
}
static void shm_check(uintptr_t a, u64 n, bool w) {
  u64 o = a - SHM0; int p = o / SHMPOOL; o %= SHMPOOL;
  if (!G.cur) return;
  if (p != G.cur->proc) badacc(a, n, w, "through an address that belongs to another process");
  for (auto& s : segs) if (o >= s.off && o < s.off + s.size) {
    if (!shm_attached[p][s.id]) badacc(a, n, w, "in a shared segment that is not attached");
    if (o + n > s.off + s.size) badacc(a, n, w, "past the end of a shared segment");
    return;
  }
  badacc(a, n, w, "outside any shared segment");
}
void mem_check_range(const void* ptr, u64 n, bool w) {
  if (!G.cur || !n) return;
  uintptr_t a = (uintptr_t)ptr;
  if (a - ARENA0 < ARENASZ) { if (G.check_mem && (a - ARENA0 + n > ARENASZ || !mem_ok(a, n))) badacc(a, n, w, "outside any live heap block"); }
  else if (a - SHM0 < MAXPROC * SHMPOOL) shm_check(a, n, w);
  if (w && G.watch_on) G.watch(a, n, w);
}
extern "C" void sim_preempt_slow();
static inline __attribute__((always_inline)) void acc(void* ptr, unsigned n, bool w) {
  if (!G.cur) return;
  uintptr_t a = (uintptr_t)ptr;
  if (a - ARENA0 < ARENASZ) { if (G.check_mem && __builtin_expect(!((a & 7) + n <= 8 && shadow[(a - ARENA0) >> 3] >= (a & 7) + n), 0)) { if (!mem_ok(a, n)) badacc(a, n, w, "outside any live heap block"); } }
  else if (a - SHM0 < MAXPROC * SHMPOOL) {
    u64 o = a - SHM0; static u64 lo, hi, gen; // cache of the last good segment
    (void)lo; (void)hi; (void)gen; (void)o; shm_check(a, n, w);
  }
  if (w && __builtin_expect(G.watch_on, 0)) G.watch(a, n, w);
  G.acc++; G.now += 2;
  if (__builtin_expect(G.acc >= G.next_preempt, 0)) sim_preempt_slow();
}
extern "C" {
#define RW(n) \
 void __tsan_read##n(void* p) { acc(p, n, false); } void __tsan_write##n(void* p) { acc(p, n, true); } \
 void __tsan_unaligned_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_write##n(void* p) { acc(p, n, true); } \
 void __tsan_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_volatile_write##n(void* p) { acc(p, n, true); } \
 void __tsan_read_write##n(void* p) { acc(p, n, true); } void __tsan_unaligned_read_write##n(void* p) { acc(p, n, true); } \
 void __tsan_unaligned_volatile_read##n(void* p) { acc(p, n, false); } void __tsan_unaligned_volatile_write##n(void* p) { acc(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
void __tsan_vptr_update(void**, void*) {} void __tsan_vptr_read(void**) {}
void __tsan_read_range(void* p, u64 n) { mem_check_range(p, n, false); yield_point(); }
void __tsan_write_range(void* p, u64 n) { mem_check_range(p, n, true); yield_point(); }
#define ATOM(bits, T) \
 T __tsan_atomic##bits##_load(const volatile T* a, int) { acc((void*)a, bits / 8, false); return *a; } \
 void __tsan_atomic##bits##_store(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); *a = v; } \
 T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = v; return o; } \
 T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = o ^ v; return o; } \
 T __tsan_atomic##bits##_fetch_nand(volatile T* a, T v, int) { acc((void*)a, bits / 8, true); T o = *a; *a = ~(o & v); return o; } \
 int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((void*)a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((void*)a, bits / 8, true); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
 T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((void*)a, bits / 8, true); T o = *a; if (o == c) *a = v; return o; }
ATOM(8, uint8_t) ATOM(16, uint16_t) ATOM(32, uint32_t) ATOM(64, uint64_t)
void __tsan_atomic_thread_fence(int) { yield_point(); } void __tsan_atomic_signal_fence(int) {}

static void chunked(void* d, const void* s, u64 n) { // copies are not atomic: other clients may run in between
  char* dd = (char*)d; const char* ss = (const char*)s;
  if (n <= 64 || (dd > ss && dd < ss + n) || (ss > dd && ss < dd + n)) { memmove(d, s, n); return; }
  u64 step = n / 4 < 64 ? 64 : (n / 4 > 65536 ? 65536 : n / 4);
  while (n) { u64 k = n < step ? n : step; memcpy(dd, ss, k); dd += k; ss += k; n -= k; if (n) yield_point(); }
}
void* __tsan_memcpy(void* d, const void* s, u64 n) { mem_check_range(s, n, false); mem_check_range(d, n, true); yield_point(); chunked(d, s, n); return d; }
void* __tsan_memmove(void* d, const void* s, u64 n) { return __tsan_memcpy(d, s, n); }
void* __tsan_memset(void* d, int c, u64 n) { mem_check_range(d, n, true); yield_point(); memset(d, c, n); return d; }
void* sim_memcpy(void* d, const void* s, u64 n) { return __tsan_memcpy(d, s, n); }
void* sim_memmove(void* d, const void* s, u64 n) { return __tsan_memcpy(d, s, n); }
void* sim_memset(void* d, int c, u64 n) { return __tsan_memset(d, c, n); }
int sim_memcmp(const void* a, const void* b, u64 n) { mem_check_range(a, n, false); mem_check_range(b, n, false); yield_point(); return memcmp(a, b, n); }
int sim_bcmp(const void* a, const void* b, u64 n) { return sim_memcmp(a, b, n); }
void* sim_memchr(const void* a, int c, u64 n) { void* r = (void*)memchr(a, c, n); mem_check_range(a, r ? (u64)((char*)r - (char*)a) + 1 : n, false); yield_point(); return r; }
u64 sim_strlen(const char* s) { u64 n = strlen(s); mem_check_range(s, n + 1, false); yield_point(); return n; }
u64 sim_strnlen(const char* s, u64 m) { u64 n = strnlen(s, m); mem_check_range(s, n < m ? n + 1 : n, false); yield_point(); return n; }
static u64 dif(const char* a, const char* b, u64 m) { u64 i = 0; while (i < m && a[i] == b[i] && a[i]) i++; return i < m ? i + 1 : m; }
int sim_strcmp(const char* a, const char* b) { u64 n = dif(a, b, ~0ULL); mem_check_range(a, n, false); mem_check_range(b, n, false); yield_point(); return strcmp(a, b); }
int sim_strncmp(const char* a, const char* b, u64 m) { u64 n = dif(a, b, m); mem_check_range(a, n, false); mem_check_range(b, n, false); yield_point(); return strncmp(a, b, m); }
char* sim_strcpy(char* d, const char* s) { u64 n = strlen(s) + 1; mem_check_range(s, n, false); mem_check_range(d, n, true); yield_point(); memmove(d, s, n); return d; }
char* sim_strncpy(char* d, const char* s, u64 m) { u64 n = strnlen(s, m); mem_check_range(s, n < m ? n + 1 : n, false); mem_check_range(d, m, true); yield_point(); memmove(d, s, n); memset(d + n, 0, m - n); return d; }
char* sim_stpcpy(char* d, const char* s) { u64 n = strlen(s); sim_strcpy(d, s); return d + n; }
char* sim_strcat(char* d, const char* s) { u64 k = strlen(d); sim_strcpy(d + k, s); return d; }
char* sim_strncat(char* d, const char* s, u64 m) { u64 k = strlen(d), n = strnlen(s, m); mem_check_range(s, n < m ? n + 1 : n, false); mem_check_range(d + k, n + 1, true); memmove(d + k, s, n); d[k + n] = 0; return d; }
char* sim_strchr(const char* s, int c) { char* r = (char*)strchr(s, c); mem_check_range(s, r ? r - s + 1 : strlen(s) + 1, false); yield_point(); return r; }
char* sim_strrchr(const char* s, int c) { mem_check_range(s, strlen(s) + 1, false); yield_point(); return (char*)strrchr(s, c); }
char* sim_strstr(const char* s, const char* t) { mem_check_range(t, strlen(t) + 1, false); char* r = (char*)strstr(s, t); if (!r) mem_check_range(s, strlen(s) + 1, false); yield_point(); return r; }
// ---- heap
void* sim_malloc(u64 n) { yield_point(); ST.syscalls++; if (fault(F_MALLOC)) { errno = ENOMEM; return nullptr; } return hmalloc(G.cur ? G.cur->proc : 0, n); }
void* sim_calloc(u64 a, u64 b) { void* p = sim_malloc(a * b); if (p) memset(p, 0, a * b); return p; }
void sim_free(void* p) {
  if (!p) return; yield_point();
  Blk* b = blk_find((u64)p);
  if (!b || b->addr != (u64)p) violate("memory", "free of a pointer that was not allocated");
  if (!b->live) violate("memory", "block of %llu bytes freed twice", (unsigned long long)b->size);
  b->live = false; shadow_clear(b->addr, b->size);
}
void* sim_realloc(void* p, u64 n) {
  if (!p) return sim_malloc(n);
  Blk* b = blk_find((u64)p);
  if (!b || b->addr != (u64)p || !b->live) violate("memory", "realloc of a pointer that is not a live block");
  if (fault(F_MALLOC)) { errno = ENOMEM; return nullptr; }
  u64 os = b->size; void* q = hmalloc(G.cur->proc, n); if (!q) return nullptr;
  memcpy(q, p, os < n ? os : n); sim_free(p); return q;
}
char* sim_strdup(const char* s) { u64 n = strlen(s) + 1; mem_check_range(s, n, false); char* p = (char*)sim_malloc(n); if (p) memcpy(p, s, n); return p; }
struct NoFault { bool f; NoFault() { f = G.cur->nofault; G.cur->nofault = true; } ~NoFault() { G.cur->nofault = f; } };
void* simnf_malloc(u64 n) { NoFault x; return sim_malloc(n); } void* simnf_calloc(u64 a, u64 b) { NoFault x; return sim_calloc(a, b); } void* simnf_realloc(void* p, u64 n) { NoFault x; return sim_realloc(p, n); }
// ---- System V shared memory
int sim_shmget(key_t key, size_t size, int flg) {
  yield_point(); ST.syscalls++; u64 e = 0;
  if (fault(F_SHMGET_ERR, &e)) { static const int es[] = {ENOMEM, ENOSPC, EACCES}; errno = es[e % 3]; EV(0x301, key, errno, "shmget(%d) fails with errno %d", (int)key, errno); return -1; }
  for (auto& s : segs) if (s.exists && !s.removed && s.key == key && key != IPC_PRIVATE) {
    if ((flg & IPC_CREAT) && (flg & IPC_EXCL)) { errno = EEXIST; return -1; }
    if (size > s.size) { errno = EINVAL; return -1; }
    EV(0x300, key, s.id, "shmget(%d) finds segment %d", (int)key, s.id); return s.id;
  }
  if (!(flg & IPC_CREAT)) { errno = ENOENT; EV(0x302, key, 0, "shmget(%d): none", (int)key); return -1; }
  if (!size) { errno = EINVAL; return -1; }
  u64 sz = (size + 4095) & ~4095ULL;
  if (shm_top + sz > SHMPOOL || segs.size() >= 64) { errno = ENOSPC; return -1; }
  Seg s; s.id = segs.size(); s.key = key; s.off = shm_top; s.size = sz; s.removed = false; s.exists = true; s.nattch = 0; s.mode = flg & 0777; s.serial = ++shm_serial;
  shm_top += sz + 4096; memset((void*)(SHM0 + s.off), 0, sz); s.size = size; segs.push_back(s);
  EV(0x303, key, s.id, "shmget(%d) creates segment %d of %zu bytes", (int)key, s.id, size); return s.id;
}
void* sim_shmat(int id, const void*, int) {
  yield_point(); ST.syscalls++; u64 e = 0;
  if (id < 0 || id >= (int)segs.size() || !segs[id].exists) { errno = EINVAL; return (void*)-1; }
  if (fault(F_SHMAT_ERR, &e)) { errno = e & 1 ? ENOMEM : EMFILE; EV(0x311, id, errno, "shmat fails"); return (void*)-1; }
  int p = G.cur->proc; shm_cnt[p][id]++; shm_attached[p][id] = true; segs[id].nattch++;
  EV(0x310, id, p, "shmat segment %d in process %d", id, p); return (void*)(SHM0 + (u64)p * SHMPOOL + segs[id].off);
}
static void maybe_gone(int id) { if (segs[id].removed && !segs[id].nattch) { segs[id].exists = false; } }
int sim_shmdt(const void* a) {
  yield_point(); ST.syscalls++; int p = G.cur->proc; u64 o = (u64)a - SHM0 - (u64)p * SHMPOOL;
  for (auto& s : segs) if (s.off == o && shm_attached[p][s.id]) {
    if (--shm_cnt[p][s.id] == 0) shm_attached[p][s.id] = false; s.nattch--; EV(0x320, s.id, p, "shmdt segment %d in process %d", s.id, p); maybe_gone(s.id); return 0;
  }
  errno = EINVAL; return -1;
}
int sim_shmctl(int id, int cmd, struct shmid_ds* ds) {
  yield_point(); ST.syscalls++;
  if (id < 0 || id >= (int)segs.size() || !segs[id].exists) { errno = EINVAL; return -1; }
  if (fault(F_SHMCTL_ERR)) { errno = EPERM; EV(0x331, id, cmd, "shmctl(%d) fails", cmd); return -1; }
  Seg& s = segs[id];
  if (cmd == IPC_RMID) { s.removed = true; EV(0x330, id, 0, "segment %d removed", id); maybe_gone(id); return 0; }
  if (cmd == IPC_STAT) { memset(ds, 0, sizeof *ds); ds->shm_segsz = s.size; ds->shm_nattch = s.nattch; ds->shm_perm.mode = s.mode; return 0; }
  if (cmd == IPC_SET) return 0;
  errno = EINVAL; return -1;
}
}
void shm_reset() { segs.clear(); memset(shm_attached, 0, sizeof shm_attached); memset(shm_cnt, 0, sizeof shm_cnt); shm_top = 0; shm_serial = 0; }
void shm_drop_proc(int p) { for (auto& s : segs) if (shm_cnt[p][s.id]) { s.nattch -= shm_cnt[p][s.id]; shm_cnt[p][s.id] = 0; shm_attached[p][s.id] = false; maybe_gone(s.id); } }
int shm_attach_count(int p) { int n = 0; for (auto& s : segs) n += shm_cnt[p][s.id]; return n; }
Seg* shm_find(i64 key) { for (auto& s : segs) if (s.exists && !s.removed && s.key == key) return &s; return nullptr; }
