// Reference model of a WhiteDB database, operations on the real one that keep the two in step, and the comparison.
#pragma once
#include "../sim/core.h"
#include "../sim/scen.h"
#include <string.h>
#include <stdlib.h>
#include <algorithm>
#include <memory>
extern "C" {
#include "dballoc.h"
#include "dbapi.h"
#include "indexapi.h"
}
struct Val {
  int t = WG_NULLTYPE; i64 i = 0; double d = 0; std::string s, x; bool hasx = false; int ref = -1; // ref: record id
  bool operator==(const Val& o) const { return t == o.t && i == o.i && (d == o.d) && s == o.s && hasx == o.hasx && x == o.x && ref == o.ref; }
  bool operator!=(const Val& o) const { return !(*this == o); }
  std::string str() const;
};
struct MRec { int id; i64 off; std::vector<Val> f; bool raw = false; };
struct MIdx { i64 id; int type; std::vector<int> cols; std::vector<Val> tmpl; };
struct Model {
  std::map<int, MRec> recs; std::map<i64, int> byoff; std::map<i64, MIdx> idx; int nextid = 1;
  MRec& rec(int id) { return recs.at(id); }
  void add(const MRec& r) { recs[r.id] = r; byoff[r.off] = r.id; }
  void del(int id) { byoff.erase(recs.at(id).off); recs.erase(id); }
  bool referenced(int id) const { for (auto& r : recs) for (auto& v : r.second.f) if (v.ref == id) return true; return false; }
  bool indexed(int col) const { for (auto& i : idx) { for (int c : i.second.cols) if (c == col) return true; } return false; }
  bool tmpl_uses(int col) const { for (auto& i : idx) { if ((int)i.second.tmpl.size() > col && i.second.tmpl[col].t != WG_VARTYPE) return true; } return false; }
};
enum OpKind { O_CREATE, O_RAW, O_SET, O_DELETE, O_ENCFREE, O_MKINDEX, O_DROPINDEX, O_QUERY, O_FIND, O_PARENTS, O_ATOMIC, O_SCAN, NOPS };
struct Cfg {
  std::vector<unsigned> w;                  // weights of OpKind
  bool refs = true, cycles = false, dupref = false, hash = false, templates = true, blobs = true, bigints = true, nullrefs = true;
  unsigned valmask = ~0u;                   // value types
  int maxrec = 40, ncol = 5, longmax = 300; bool wide = false, badindex = false; // records around the largest indexed column; index requests that make no sense
  bool faults = false; unsigned faultpct = 25; unsigned jfaultpct = 0; bool mallocfaults = true; bool segfaults = true; int segrepeat = 0;
  bool journal = false;                     // journaling is active: fault-free failure allowed when a journal fault fired
  bool tight = false;                       // the segment may legitimately fill up
  bool chk_idx = true, chk_par = true, chk_alloc = true, chk_query = true, chk_leak = true;
  std::vector<int> lens;                    // frequent record lengths
  int pool = 12; bool tagged = true; bool fatal_ok = false;
};
struct World {
  Model m; Cfg cfg; bool mayfail = false;      // an external reason for failure exists right now
  std::function<void(Model&)> inflight; bool has_inflight = false; // the operation being executed
  u64 version = 0; u64 nops = 0, nfail = 0; std::vector<std::string> pool;
  bool corrupt = false; std::function<void()> ondone; std::function<void(void*)> onfail; // called when an operation reported failure
};
extern World W;
extern i64 g_key;                            // of the segment
i64 off_of(void* db, void* p); void* ptr_of(void* db, i64 off);
void world_reset();
Val gen_val(int selfid, void* db);            // random storable value
Val gen_simple();                             // without references
i64 enc_val(void* db, const Val& v, bool* ok);
i64 enc_param(void* db, const Val& v, bool* ok);
Val dec_val(void* db, i64 enc);
int vcmp(const Val& a, const Val& b, int depth = 7);
bool cond_ok(int cond, int c);
bool idx_has(const MIdx& x, const MRec& r);
// operations; the caller holds the write lock (reads: read or write lock)
bool do_op(void* db, int kind);               // returns success
bool op_create(void* db, bool raw); bool op_set(void* db, int id, int col, const Val& v); bool op_delete(void* db, int id); bool op_query(void* db); bool op_mkindex(void* db); bool op_dropindex(void* db);
bool op_find(void* db); bool op_parents(void* db); bool op_encfree(void* db); bool op_atomic(void* db);
void delete_everything(void* db);             // all records, in random order
struct Dump1 { std::map<int, std::vector<Val>> tagged; std::multiset<std::string> untagged; };
inline int open_files() { int n = 0; for (OFD* o : fs.fd[G.cur->proc]) if (o && !o->sock && fs_name_of(o->ino).compare(0, 8, "/simlog/")) n++; return n; } // by the caller, journals apart
// checks
void verify(void* db, const char* when);      // database equals model
void verify_reader(void* db);                 // by a client holding the read lock
void audit_alloc(void* db, std::map<std::string, i64>* usage);
std::string compare_tagged(void* db, const Model& m); // logical comparison by tags, "" if equal; adopts nothing
void adopt(void* db, const Model& m, bool with_idx = false);  // bind model records to the offsets of a recovered database
void check_indexes(void* db, const char* when);
std::vector<i64> index_ids(void* db, bool* ok);
