// Deterministic simulator core: choices, tasks, clock, faults, event log.
#pragma once
#include <stdint.h>
#include <stdarg.h>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
typedef uint64_t u64;
typedef int64_t i64;

// ---------------------------------------------------------------- choices
// Every nondeterministic decision of a run is a number drawn from one of three
// streams.  Recording: values come from a PRNG seeded with the run's seed.
// Replaying: values come from the replay file; an exhausted stream yields 0,
// which by convention is the simplest outcome (no preemption, no fault, ...).
enum Stream { SW = 0, SS = 1, SF = 2, NSTREAM = 3 };
struct Rng { u64 s; u64 next(); u64 below(u64 n) { return n ? next() % n : 0; } double unit(); };
struct Choices {
  std::vector<u64> data; size_t pos = 0; bool replay = false; Rng rng{0};
  std::vector<u64> used;
  u64 below(u64 n);                        // uniform in [0,n)
  u64 gen(const std::function<u64(Rng&)>& f);  // arbitrary distribution
};
u64 choose(Stream s, u64 n);               // uniform
bool chance(Stream s, unsigned num, unsigned den); // 0 => false
u64 weighted(Stream s, const std::vector<unsigned>& w); // index 0 is the simplest

// ---------------------------------------------------------------- faults
enum Fault {
  F_WRITE_SHORT, F_WRITE_EINTR, F_WRITE_ERR, F_OPEN_ERR, F_CLOSE_ERR, F_RENAME_ERR, F_STAT_ERR,
  F_TRUNC_ERR, F_SEEK_ERR, F_READ_ERR, F_READ_SHORT, F_READ_EINTR, F_SYNC_ERR,
  F_MALLOC, F_SEGALLOC, F_FUTEX_EINTR, F_FUTEX_SPURIOUS, F_SLEEP_EINTR, F_SHMGET_ERR, F_SHMAT_ERR, F_SHMCTL_ERR,
  F_STALL, F_CRASH, F_KILL_IO, F_ACCEPT_ERR, F_RECV_SHORT, F_RECV_EINTR, F_RECV_ERR, F_SEND_SHORT, F_SEND_EINTR, F_SEND_ERR,
  F_CONN_RESET, F_PTHREAD_ERR, F_DISKFULL, F_EARLY_EOF, F_CORRUPT, F_TORN, F_CLOCK, NFAULT };
extern const char* fault_name[NFAULT];
struct Armed { int kind; u64 countdown; u64 param; bool fired; u64 left; int proc; };
bool fault(Fault k, u64* param = nullptr);            // called by the seams
void arm(Fault k, u64 nth, u64 param = 0, u64 repeat = 1, int proc = -1); // nth==0: next opportunity
void disarm_all();
bool any_fired();                                     // an armed fault has fired since last arm/disarm

// ---------------------------------------------------------------- tasks
#define MAXPROC 8
enum TState { T_RUN, T_SLEEP, T_BLOCK, T_DONE };
struct Task {
  int id, proc; TState st; u64 wake; const void* waitaddr; int wres; bool timed;
  void* sp; std::function<void()> fn; int saved_errno; bool readonly; bool nofault; bool harness;
  std::string name; u64 acc; int blockkind; u64 blocked_since; int prio; std::vector<i64>* reads;
};
struct Stats { u64 runs, accesses, switches, syscalls, simtime; u64 opp[NFAULT], fired[NFAULT];
  std::map<std::string,u64> probes; };
extern Stats ST;

struct Sim {
  Task* cur; u64 now; u64 acc; u64 next_preempt; u64 seq; u64 hash, ihash;
  Choices ch[NSTREAM]; std::vector<Task*> tasks;
  bool hang_ok, running, aborted, verbose, faults_on; u64 gapmean; unsigned density; u64 acc_cap, acc_start;
  u64 crash_at; int crash_proc; std::function<void()> oncrash;
  std::string viol_class, viol_msg; u64 forced_slice; u64 slice_start; u64 maxfairgap;
  std::vector<Armed> armed; bool armed_fired[MAXPROC]; int curproc; bool check_mem;
  bool preempt_on; std::function<void(uintptr_t,unsigned,bool)> watch; bool watch_on; u64 preempts_left; u64 stall_num, stall_den; bool deadlock_ok; i64 clock_off; i64 (*zone)(i64); bool spare_index, index_alloc_failed;
};
extern Sim G;

void violate(const char* cls, const char* fmt, ...) __attribute__((noreturn, format(printf, 2, 3)));
void end_run(const char* why) __attribute__((noreturn)); // the run ends without a verdict (a recorded finding was met)
void evlog(u64 code, u64 a, u64 b, const char* fmt, ...) __attribute__((format(printf, 4, 5)));
#define EV(code, a, b, ...) do { evlog((u64)(code), (u64)(a), (u64)(b), __VA_ARGS__); } while (0)
void probe(const char* name, u64 n = 1);

int  spawn(int proc, const char* name, std::function<void()> fn, bool harness = false);
void yield_point();                        // a possible context switch
void sim_sleep_ns(u64 ns);
int  block_on(const void* addr, int kind, u64 deadline_or_0); // returns 0 woken, 1 timeout, 2 interrupted
int  wake_addr(const void* addr, int kind, int n);
void kill_proc(int proc);                  // crash of one process; never returns if it is the caller's
void new_proc_state(int proc);             // fresh globals for a (re)started process
bool proc_alive(int proc);
void wait_tasks(const std::vector<int>& ids); // harness main waits
void task_exit() __attribute__((noreturn));
struct RunResult { bool violated; std::string cls, msg; u64 hash, ihash; };
RunResult run_sim(u64 seed, const std::vector<u64>* replay, std::function<void()> mainfn);
bool other_runnable();

// probability knobs for a run
void sched_config(unsigned mode);          // picks gapmean/density from the S stream

// ---------------------------------------------------------------- memory
#define ARENA0 0x100000000000ULL
#define ARENASZ (256ULL<<20)
#define STK0   0x110000000000ULL
#define STKSZ  (1ULL<<20)
#define MAXTASK 24
#define SHM0   0x120000000000ULL
#define SHMPOOL (64ULL<<20)
void mem_init(); void mem_reset();
bool mem_ok(uintptr_t a, u64 n);           // arena bytes valid
u64 mem_live_bytes(int proc); u64 mem_live_blocks(int proc);
void mem_check_range(const void* p, u64 n, bool write);
void* hmalloc(int proc, u64 n);
u64 mem_mark(); u64 mem_live_since(u64 mark, int proc, u64* first);
std::string mem_describe(u64 serial);
void mem_drop_proc(int proc);

// ---------------------------------------------------------------- shared memory
struct Seg { int id; i64 key; u64 off, size; bool removed, exists; int nattch; int mode; u64 serial; };
extern std::vector<Seg> segs;
void shm_reset(); void shm_drop_proc(int proc);
int shm_attach_count(int proc);
Seg* shm_find(i64 key);
extern bool shm_attached[MAXPROC][64];

// ---------------------------------------------------------------- file system
struct Inode { std::string data; u64 ino; int nlink; bool dir; std::string tag; bool partial = false; };  // partial: the last write was cut short
struct OFD { Inode* ino; u64 off; int flags; int refs; bool sock; void* conn; bool app; };
struct FS {
  std::map<std::string, Inode*> names; std::vector<OFD*> fd[MAXPROC]; u64 nextino; std::vector<Inode*> all; u64 diskfree; bool limited;
  std::function<void(int proc, Inode*, OFD*, u64 off, const char* d, u64 n)> onwrite;
};
extern FS fs;
void fs_reset(); void fs_drop_proc(int proc);
Inode* fs_get(const std::string& path);
void fs_put(const std::string& path, const std::string& data);
bool fs_exists(const std::string& path);
std::string fs_name_of(Inode* i);
int fs_open_fds(int proc);
int fs_app_open(int proc, const std::string& path);  // a file opened by the application itself
void net_reset() __attribute__((weak));
extern std::string sim_outp[MAXPROC]; extern std::string sim_out;                 // text printed by the library
