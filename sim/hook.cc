// Allocation inside the database segment behind a seam: the simulator may decide that the segment is full.
// The _i variants serve the index code (dbindex.c, dbhash.c).
#include "core.h"
static bool deny(int idx, const char* what) { if (idx && G.spare_index) return false; if (fault(F_SEGALLOC)) { probe(what); return true; } return false; }
static long got(int idx, long r) { if (!r && idx && G.spare_index) G.index_alloc_failed = true; return r; }
extern "C" {
void* sim_malloc(unsigned long);
void* simhook1_malloc(unsigned long n) { if (!G.spare_index) return sim_malloc(n); bool o = G.cur ? G.cur->nofault : false; if (G.cur) G.cur->nofault = true; void* p = sim_malloc(n); if (G.cur) G.cur->nofault = o; return p; }
#ifdef HAVE_HOOK_wg_alloc_gints
long wg_alloc_gints(void*, void*, long);
long simhook0_wg_alloc_gints(void* db, void* ah, long n) { if (deny(0, "segment alloc failed: variable length")) return 0; return wg_alloc_gints(db, ah, n); }
long simhook1_wg_alloc_gints(void* db, void* ah, long n) { if (deny(1, "segment alloc failed: variable length")) return 0; return got(1, wg_alloc_gints(db, ah, n)); }
#endif
#ifdef HAVE_HOOK_wg_alloc_fixlen_object
long wg_alloc_fixlen_object(void*, void*);
long simhook0_wg_alloc_fixlen_object(void* db, void* ah) { if (deny(0, "segment alloc failed: fixed length")) return 0; return wg_alloc_fixlen_object(db, ah); }
long simhook1_wg_alloc_fixlen_object(void* db, void* ah) { if (deny(1, "segment alloc failed: fixed length")) return 0; return got(1, wg_alloc_fixlen_object(db, ah)); }
#endif
}
