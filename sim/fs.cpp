// Simulated file system, stdio, clock, futex and the remaining system calls.
#include "core.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/timeb.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <linux/futex.h>
#include <setjmp.h>
#include <pwd.h>
#include <grp.h>
FS fs; std::string sim_out, sim_outp[MAXPROC], sim_errp[MAXPROC];
struct SFile { u64 magic; int fd; bool rd, wr, eof, err; std::string* rb; size_t rp; std::string* wb; int unget; int std; bool closed; int proc; int bufmode; };
bool sim_sigpipe_ignored[MAXPROC]; std::string sim_inputs[MAXPROC]; bool sim_stdin_eof[MAXPROC];
static SFile std_in, std_out, std_err; static std::vector<SFile*> files;
extern "C" { void* sim_stdin = &std_in; void* sim_stdout = &std_out; void* sim_stderr = &std_err; int sim_close(int); }
void fs_reset() {
  for (auto i : fs.all) delete i;
  for (int p = 0; p < MAXPROC; p++) fs.fd[p].clear();
  for (auto f : files) { delete f->rb; delete f->wb; delete f; }
  files.clear(); fs.names.clear(); fs.all.clear(); fs.nextino = 1; for (auto& x : sim_inputs) x.clear(); for (auto& x : sim_stdin_eof) x = false; for (auto& x : sim_outp) x.clear(); for (auto& x : sim_errp) x.clear(); fs.limited = false; fs.diskfree = 0; fs.onwrite = nullptr;
  memset(&std_in, 0, sizeof std_in); memset(&std_out, 0, sizeof std_out); memset(&std_err, 0, sizeof std_err);
  std_in.magic = std_out.magic = std_err.magic = 0x51F11E; std_in.std = 1; std_out.std = 2; std_err.std = 3;
  static Inode tty; for (int p = 0; p < MAXPROC; p++) for (int k = 0; k < 3; k++) fs.fd[p].push_back(nullptr);
  for (int p = 0; p < MAXPROC; p++) for (int k = 0; k < 3; k++) { OFD* o = new OFD{&tty, 0, O_RDWR, 1, false, nullptr, false}; fs.fd[p][k] = o; }
}
Inode* fs_get(const std::string& p) { auto i = fs.names.find(p); return i == fs.names.end() ? nullptr : i->second; }
bool fs_exists(const std::string& p) { return fs_get(p) != nullptr; }
static Inode* mknode(const std::string& p) { Inode* i = new Inode{"", fs.nextino++, 1, false, "", false}; fs.all.push_back(i); fs.names[p] = i; return i; }
void fs_put(const std::string& p, const std::string& d) { Inode* i = fs_get(p); if (!i) i = mknode(p); i->data = d; }
std::string fs_name_of(Inode* i) { for (auto& n : fs.names) if (n.second == i) return n.first; return ""; }
static void unref(OFD* o); 
void fs_drop_proc(int p) {
  for (size_t k = 3; k < fs.fd[p].size(); k++) if (fs.fd[p][k]) { unref(fs.fd[p][k]); fs.fd[p][k] = nullptr; }
  for (auto f : files) if (f->proc == p) f->closed = true; // unflushed stdio buffers die with the process
}
int fs_open_fds(int p) { int n = 0; for (size_t k = 3; k < fs.fd[p].size(); k++) if (fs.fd[p][k]) n++; return n; }
void net_close(void* conn) __attribute__((weak));
static void unref(OFD* o) { if (--o->refs == 0) { if (o->sock && net_close) net_close(o->conn); delete o; } }
static int newfd(int p, OFD* o) { auto& v = fs.fd[p]; for (size_t k = 3; k < v.size(); k++) if (!v[k]) { v[k] = o; return k; } v.push_back(o); return v.size() - 1; }
int sim_newfd(int p, OFD* o) { return newfd(p, o); }
OFD* sim_getfd(int fd) { int p = G.cur->proc; if (fd < 0 || fd >= (int)fs.fd[p].size() || !fs.fd[p][fd]) return nullptr; return fs.fd[p][fd]; }
int fs_app_open(int p, const std::string& path) { Inode* i = fs_get(path); if (!i) i = mknode(path); i->tag = "app"; return newfd(p, new OFD{i, 0, O_RDWR, 1, false, nullptr, true}); }
#define PATH(p) (mem_check_range(p, strlen(p) + 1, false), std::string(p))
static void sc() { yield_point(); ST.syscalls++; }
static void die_io() { // the whole system stops inside this system call if the scenario says so, else only the process
  if (G.oncrash) { auto f = G.oncrash; G.oncrash = nullptr; G.crash_at = ~0ULL; f(); } kill_proc(G.cur->proc); }
static int kill_io() { // the process dies inside this system call
  if (fault(F_KILL_IO)) return 1; return 0;
}
static ssize_t do_write(OFD* o, const char* b, u64 n, bool quiet_stdio) {
  Inode* i = o->ino; u64 prm = 0; u64 want = n; bool killed = false;
  if (fault(F_WRITE_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_WRITE_ERR, &prm)) { static const int es[] = {EIO, ENOSPC, EDQUOT, EFBIG, EAGAIN}; errno = es[prm % 4]; return -1; }
  if (fault(F_WRITE_SHORT, &prm)) { if (n > 1) want = 1 + prm % (n - 1); }
  if (kill_io()) { killed = true; u64 c = 0; c = choose(SF, n + 1); want = c; }
  if (fs.limited && want > fs.diskfree) { want = fs.diskfree; ST.fired[F_DISKFULL]++; if (!want) { errno = ENOSPC; return -1; } }
  if (fs.onwrite && G.cur && !G.cur->harness) fs.onwrite(G.cur->proc, i, o, (o->flags & O_APPEND) ? i->data.size() : o->off, b, want);
  if (fs.limited) fs.diskfree -= want;
  u64 left = want; // the write is applied piecewise: a concurrent writer may come in between only for distinct calls
  if (o->flags & O_APPEND) o->off = i->data.size();
  if (o->off > i->data.size()) i->data.resize(o->off, 0);
  i->data.replace(o->off, std::min<u64>(left, i->data.size() - o->off), b, left); o->off += left;
  EV(0x201, i->ino, want, "write %llu of %llu bytes to %s", (unsigned long long)want, (unsigned long long)n, fs_name_of(i).c_str());
  i->partial = want < n; if (killed) die_io();
  return want;
}
extern "C" {
int sim_open(const char* path, int flags, ...) {
  sc(); std::string p = PATH(path); u64 prm = 0;
  if (fault(F_OPEN_ERR, &prm)) { static const int es[] = {EACCES, EMFILE, ENOSPC, EINTR, ENFILE}; errno = es[prm % 3]; EV(0x210, errno, 0, "open %s fails with errno %d", path, errno); return -1; }
  Inode* i = fs_get(p);
  if (i && i->dir) { errno = EISDIR; return -1; }
  if (!i) { if (!(flags & O_CREAT)) { errno = ENOENT; return -1; } i = mknode(p); }
  else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
  if (flags & O_TRUNC) i->data.clear();
  int fd = newfd(G.cur->proc, new OFD{i, 0, flags, 1, false, nullptr, false});
  EV(0x211, i->ino, fd, "open %s -> %d%s", path, fd, flags & O_TRUNC ? " (truncated)" : ""); if (kill_io()) die_io(); return fd;
}
int sim_open64(const char* path, int flags, int m) { return sim_open(path, flags, m); }
int sim_creat(const char* path, int m) { return sim_open(path, O_CREAT | O_WRONLY | O_TRUNC, m); }
ssize_t net_recv(OFD* o, void* b, size_t n) __attribute__((weak)); ssize_t net_send(OFD* o, const void* b, size_t n) __attribute__((weak));
ssize_t sim_write(int fd, const void* b, size_t n) {
  sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; EV(0x212, fd, 0, "write to closed descriptor %d", fd); return -1; }
  mem_check_range(b, n, false);
  if (o->sock) return net_send(o, b, n);
  if (fd < 3) return n;
  if ((o->flags & O_ACCMODE) == O_RDONLY) { errno = EBADF; return -1; }
  return do_write(o, (const char*)b, n, false);
}
ssize_t sim_pwrite(int fd, const void* b, size_t n, off_t off) { OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } u64 s = o->off; int fl = o->flags; o->off = off; o->flags &= ~O_APPEND; ssize_t r = sim_write(fd, b, n); o->off = s; o->flags = fl; return r; }
ssize_t sim_writev(int fd, const struct iovec* v, int c) { std::string s; for (int i = 0; i < c; i++) { mem_check_range(v[i].iov_base, v[i].iov_len, false); s.append((const char*)v[i].iov_base, v[i].iov_len); } sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } return do_write(o, s.data(), s.size(), false); }
ssize_t sim_read(int fd, void* b, size_t n) {
  sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } if (o->sock) return net_recv(o, b, n); u64 prm = 0;
  mem_check_range(b, n, true);
  if (fault(F_READ_EINTR)) { errno = EINTR; return -1; }
  if (fault(F_READ_ERR)) { errno = EIO; return -1; }
  Inode* i = o->ino; u64 av = o->off < i->data.size() ? i->data.size() - o->off : 0; u64 k = n < av ? n : av;
  if (k > 1 && fault(F_READ_SHORT, &prm)) k = 1 + prm % (k - 1);
  memcpy(b, i->data.data() + o->off, k); o->off += k; EV(0x202, i->ino, k, "read %llu bytes from %s", (unsigned long long)k, fs_name_of(i).c_str()); return k;
}
ssize_t sim_pread(int fd, void* b, size_t n, off_t off) { OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } u64 s = o->off; o->off = off; ssize_t r = sim_read(fd, b, n); o->off = s; return r; }
int sim_close(int fd) {
  sc(); OFD* o = sim_getfd(fd); if (!o || fd < 3) { errno = EBADF; return -1; }
  if (o->app && !G.cur->harness) violate("foreign-fd", "the library closed descriptor %d, which the application opened", fd);
  int p = G.cur->proc; fs.fd[p][fd] = nullptr; EV(0x203, fd, 0, "close %d", fd); bool sock = o->sock; unref(o);
  if (!sock && fault(F_CLOSE_ERR)) { errno = EIO; return -1; }
  return 0;
}
off_t sim_lseek(int fd, off_t off, int wh) { sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } if (fault(F_SEEK_ERR)) { errno = EIO; return -1; } i64 b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)o->off : (i64)o->ino->data.size(); if (b + off < 0) { errno = EINVAL; return -1; } o->off = b + off; return o->off; }
off_t sim_lseek64(int fd, off_t off, int wh) { return sim_lseek(fd, off, wh); }
int sim_ftruncate(int fd, off_t n) {
  sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } if (fault(F_TRUNC_ERR)) { errno = EIO; return -1; }
  if (fs.onwrite && !G.cur->harness) fs.onwrite(G.cur->proc, o->ino, o, n, nullptr, 0);
  o->ino->data.resize(n, 0); o->ino->partial = false; EV(0x204, o->ino->ino, n, "ftruncate %s to %lld", fs_name_of(o->ino).c_str(), (long long)n); return 0;
}
int sim_truncate(const char* path, off_t n) { sc(); Inode* i = fs_get(PATH(path)); if (!i) { errno = ENOENT; return -1; } if (fault(F_TRUNC_ERR)) { errno = EIO; return -1; } i->data.resize(n, 0); return 0; }
int sim_fsync(int fd) { sc(); if (fault(F_SYNC_ERR)) { errno = EIO; return -1; } return sim_getfd(fd) ? 0 : (errno = EBADF, -1); }
int sim_fdatasync(int fd) { return sim_fsync(fd); }
int sim_dup(int fd) { sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } o->refs++; return newfd(G.cur->proc, o); }
static int fillstat(Inode* i, struct stat* st) { memset(st, 0, sizeof *st); st->st_size = i->data.size(); st->st_ino = i->ino; st->st_mode = i->dir ? S_IFDIR | 0755 : S_IFREG | 0644; st->st_nlink = i->nlink; st->st_mtime = i->ino; return 0; }
int sim_stat(const char* path, struct stat* st) {
  sc(); std::string p = PATH(path); if (fault(F_STAT_ERR)) { errno = EACCES; EV(0x206, 0, 0, "stat %s fails", path); return -1; }
  Inode* i = fs_get(p); if (!i) { errno = ENOENT; return -1; } return fillstat(i, st);
}
int sim_stat64(const char* p, struct stat* st) { return sim_stat(p, st); } int sim_lstat(const char* p, struct stat* st) { return sim_stat(p, st); }
int sim_fstat(int fd, struct stat* st) { sc(); OFD* o = sim_getfd(fd); if (!o) { errno = EBADF; return -1; } if (fault(F_STAT_ERR)) { errno = EIO; return -1; } return fillstat(o->ino, st); }
int sim_access(const char* path, int) { sc(); if (fault(F_STAT_ERR)) { errno = EACCES; return -1; } if (!fs_exists(PATH(path))) { errno = ENOENT; return -1; } return 0; }
int sim_rename(const char* a, const char* b) {
  sc(); std::string x = PATH(a), y = PATH(b); Inode* i = fs_get(x);
  if (fault(F_RENAME_ERR)) { errno = EACCES; EV(0x207, 0, 0, "rename %s fails", a); return -1; }
  if (!i) { errno = ENOENT; return -1; } fs.names.erase(x); fs.names[y] = i; EV(0x208, i->ino, 0, "rename %s -> %s", a, b); if (kill_io()) die_io(); return 0;
}
int sim_unlink(const char* a) { sc(); std::string x = PATH(a); if (!fs_exists(x)) { errno = ENOENT; return -1; } fs.names.erase(x); EV(0x209, 0, 0, "unlink %s", a); return 0; }
int sim_remove(const char* a) { return sim_unlink(a); }
int sim_link(const char* a, const char* b) { sc(); Inode* i = fs_get(PATH(a)); if (!i) { errno = ENOENT; return -1; } if (fs_exists(PATH(b))) { errno = EEXIST; return -1; } fs.names[b] = i; return 0; }
int sim_mkstemp(char* t) { static int n; size_t l = strlen(t); if (l < 6) { errno = EINVAL; return -1; } snprintf(t + l - 6, 7, "s%05d", (int)(fs.nextino % 100000)); (void)n; return sim_open(t, O_CREAT | O_EXCL | O_RDWR); }
mode_t sim_umask(mode_t m) { return 022; }
uid_t sim_getuid() { return 1000; } gid_t sim_getgid() { return 1000; } uid_t sim_geteuid() { return 1000; }
pid_t sim_getpid() { return 1000 + G.cur->proc; }
__attribute__((weak)) char* sim_getenv(const char*) { return nullptr; }
// ------------------------------------------------------------ stdio
static SFile* mk(int fd, const char* m) { SFile* f = new SFile(); f->magic = 0x51F11E; f->fd = fd; f->rd = *m == 'r' || strchr(m, '+'); f->wr = *m != 'r' || strchr(m, '+'); f->rb = new std::string; f->wb = new std::string; f->rp = 0; f->unget = -1; f->proc = G.cur->proc; files.push_back(f); return f; }
static SFile* chk(void* v) { SFile* f = (SFile*)v; if (!f) violate("memory", "stdio call on a NULL stream"); bool known = f == &std_in || f == &std_out || f == &std_err; for (auto x : files) if (x == f) known = true; if (!known) violate("memory", "stdio call on an invalid stream"); if (f->closed) violate("memory", "stdio call on a closed stream"); return f; }
void* sim_fopen(const char* path, const char* mode) {
  int fl = *mode == 'r' ? O_RDONLY : O_WRONLY | O_CREAT | (*mode == 'w' ? O_TRUNC : O_APPEND); if (strchr(mode, '+')) fl = (fl & ~O_ACCMODE) | O_RDWR; if (strchr(mode, 'x')) fl |= O_EXCL;
  int fd = sim_open(path, fl, 0644); if (fd < 0) return nullptr; return mk(fd, mode);
}
void* sim_fopen64(const char* p, const char* m) { return sim_fopen(p, m); }
void* sim_fdopen(int fd, const char* mode) { sc(); if (!sim_getfd(fd)) { errno = EBADF; return nullptr; } if (fault(F_MALLOC)) { errno = ENOMEM; return nullptr; } return mk(fd, mode); }
int sim_fileno(void* v) { SFile* f = chk(v); return f->std ? f->std - 1 : f->fd; }
static int flushw(SFile* f) {
  if (f->std || !f->wr) return 0;
  while (!f->wb->empty()) {
    sc(); OFD* o = sim_getfd(f->fd); if (!o) { f->err = true; errno = EBADF; return -1; }
    ssize_t k = do_write(o, f->wb->data(), f->wb->size(), true);
    if (k < 0) { f->err = true; return -1; } // glibc keeps the unwritten data; fclose drops it
    f->wb->erase(0, k);
  }
  return 0;
}
int sim_fflush(void* v) { if (!v) { for (auto f : files) if (!f->closed) flushw(f); return 0; } SFile* f = chk(v); return flushw(f) ? -1 : 0; }
int sim_fclose(void* v) { SFile* f = chk(v); if (f->std) return 0; int r = flushw(f); f->closed = true; int c = sim_close(f->fd); return r || c ? -1 : 0; }
size_t sim_fwrite(const void* b, size_t sz, size_t n, void* v) {
  SFile* f = chk(v); mem_check_range(b, sz * n, false); if (f->std) { if (f->std == 2) { sim_out.append((const char*)b, sz * n); if (G.cur) sim_outp[G.cur->proc].append((const char*)b, sz * n); } else if (G.cur) sim_errp[G.cur->proc].append((const char*)b, sz * n); return n; }
  if (!f->wr) { f->err = true; errno = EBADF; return 0; }
  const char* p = (const char*)b; u64 left = sz * n;
  while (left) {
    // other clients may run while a large buffer is being written
    u64 k = left; if (k > 4096) { u64 parts = k / 4; k = parts < 4096 ? 4096 : parts; if (k > left) k = left; }
    f->wb->append(p, k); p += k; left -= k;
    if (f->wb->size() >= 4096) { u64 have = f->wb->size(); (void)have; if (flushw(f)) { u64 un = f->wb->size() + left; u64 done = sz * n > un ? sz * n - un : 0; f->wb->clear(); return sz ? done / sz : 0; } }
  }
  return n;
}
static int fill(SFile* f) {
  if (f->err && false) return 0; char buf[4096]; flushw(f);
  sc(); OFD* o = sim_getfd(f->fd); if (!o || !f->rd) { f->err = true; errno = EBADF; return 0; } u64 prm = 0;
  if (fault(F_READ_ERR)) { f->err = true; errno = EIO; return 0; }
  if (fault(F_READ_EINTR)) { f->err = true; errno = EINTR; return 0; }
  if (fault(F_EARLY_EOF)) { f->eof = true; return 0; }
  Inode* i = o->ino; u64 av = o->off < i->data.size() ? i->data.size() - o->off : 0; u64 k = av < sizeof buf ? av : sizeof buf;
  if (k > 1 && fault(F_READ_SHORT, &prm)) k = 1 + prm % (k - 1);
  if (!k) { f->eof = true; return 0; }
  memcpy(buf, i->data.data() + o->off, k); o->off += k; f->rb->erase(0, f->rp); f->rp = 0; f->rb->append(buf, k); return k;
}
static int getc1(SFile* f) { if (f->unget >= 0) { int c = f->unget; f->unget = -1; return c; } if (f->rp >= f->rb->size()) { f->rb->clear(); f->rp = 0; if (!fill(f)) return -1; } return (unsigned char)(*f->rb)[f->rp++]; }
size_t sim_fread(void* b, size_t sz, size_t n, void* v) {
  SFile* f = chk(v); yield_point(); u64 want = sz * n, got = 0; char* p = (char*)b; mem_check_range(b, want, true); if (f == &std_in) { if (fault(F_READ_ERR)) return 0; std::string& in = sim_inputs[G.cur ? G.cur->proc : 0]; u64 k = want < in.size() ? want : in.size(); memcpy(b, in.data(), k); in.erase(0, k); if (k < want && G.cur) sim_stdin_eof[G.cur->proc] = true; return sz ? k / sz : 0; } if (f->std || !want) return 0;
  if (f->unget >= 0) { *p++ = f->unget; f->unget = -1; got++; }
  while (got < want) { if (f->rp >= f->rb->size()) { f->rb->clear(); f->rp = 0; if (!fill(f)) break; } u64 k = std::min<u64>(want - got, f->rb->size() - f->rp); memcpy(p, f->rb->data() + f->rp, k); f->rp += k; p += k; got += k; yield_point(); }
  return got / sz;
}
int sim_fgetc(void* v) { SFile* f = chk(v); yield_point(); if (f->std) return -1; return getc1(f); }
int sim_getc(void* v) { return sim_fgetc(v); } int sim__IO_getc(void* v) { return sim_fgetc(v); }
int sim_getchar() { return -1; }
char* sim_fgets(char* s, int n, void* v) { SFile* f = chk(v); if (f->std) return nullptr; mem_check_range(s, n, true); int k = 0; while (k < n - 1) { int c = getc1(f); if (c < 0) { if (f->err) return nullptr; break; } s[k++] = c; if (c == '\n') break; } if (!k) return nullptr; s[k] = 0; return s; }
int sim_ungetc(int c, void* v) { SFile* f = chk(v); if (c < 0) return -1; f->unget = c; f->eof = false; return c; }
int sim_feof(void* v) { if (v == &std_in) return G.cur && sim_stdin_eof[G.cur->proc]; return chk(v)->eof; } int sim_ferror(void* v) { return chk(v)->err; } void sim_clearerr(void* v) { SFile* f = chk(v); f->eof = f->err = false; }
int sim_fseek(void* v, long off, int wh) {
  SFile* f = chk(v); yield_point(); if (f->std) return -1; if (flushw(f)) return -1; if (fault(F_SEEK_ERR)) { errno = EIO; return -1; } OFD* o = sim_getfd(f->fd); if (!o) { errno = EBADF; return -1; }
  i64 base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (i64)(o->off - (f->rb->size() - f->rp) - (f->unget >= 0)) : (i64)o->ino->data.size(); if (base + off < 0) { errno = EINVAL; return -1; }
  o->off = base + off; f->rb->clear(); f->rp = 0; f->unget = -1; f->eof = false; return 0;
}
int sim_fseeko(void* v, off_t o, int w) { return sim_fseek(v, o, w); }
long sim_ftell(void* v) { SFile* f = chk(v); OFD* o = sim_getfd(f->fd); if (!o) return -1; return o->off - (f->rb->size() - f->rp) + f->wb->size() - (f->unget >= 0); }
off_t sim_ftello(void* v) { return sim_ftell(v); }
void sim_rewind(void* v) { sim_fseek(v, 0, SEEK_SET); chk(v)->err = false; }
static void outs(SFile* f, const char* s, u64 n) { if (f->std) { if (f->std == 2) { sim_out.append(s, n); if (G.cur) sim_outp[G.cur->proc].append(s, n); } else { if (G.cur) sim_errp[G.cur->proc].append(s, n); if (G.verbose) printf("      lib: %.*s%s", (int)n, s, n && s[n-1] == '\n' ? "" : "\n"); } return; } sim_fwrite(s, 1, n, f); }
int sim_vfprintf(void* v, const char* fmt, va_list ap) { SFile* f = chk(v); char buf[8192]; va_list a2; va_copy(a2, ap); int n = vsnprintf(buf, sizeof buf, fmt, ap); if (n >= (int)sizeof buf) { std::string s(n + 1, 0); vsnprintf(&s[0], n + 1, fmt, a2); outs(f, s.data(), n); } else outs(f, buf, n); va_end(a2); return f->err ? -1 : n; }
int sim_fprintf(void* v, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(v, fmt, ap); va_end(ap); return n; }
int sim_printf(const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vfprintf(&std_out, fmt, ap); va_end(ap); return n; }
int sim_vprintf(const char* fmt, va_list ap) { return sim_vfprintf(&std_out, fmt, ap); }
int sim_fputs(const char* s, void* v) { SFile* f = chk(v); u64 n = strlen(s); mem_check_range(s, n + 1, false); outs(f, s, n); return f->err ? -1 : 1; }
int sim_fputc(int c, void* v) { SFile* f = chk(v); char ch = c; outs(f, &ch, 1); return f->err ? -1 : (unsigned char)c; }
int sim_putc(int c, void* v) { return sim_fputc(c, v); } int sim__IO_putc(int c, void* v) { return sim_fputc(c, v); }
int sim_putchar(int c) { return sim_fputc(c, &std_out); }
int sim_puts(const char* s) { sim_fputs(s, &std_out); return sim_putchar('\n'); }
void sim_perror(const char* s) { if (G.cur) sim_errp[G.cur->proc] += std::string(s) + "\n"; }
int sim_setvbuf(void*, char*, int, size_t) { return 0; }
int sim_fscanf(void*, const char*, ...) { return -1; }
int sim_sprintf(char* d, const char* fmt, ...) { std::string s(65536, 0); va_list ap; va_start(ap, fmt); int n = vsnprintf(&s[0], s.size(), fmt, ap); va_end(ap); mem_check_range(d, n + 1, true); memcpy(d, s.data(), n + 1); return n; }
int sim_vsnprintf(char* d, size_t m, const char* fmt, va_list ap) { va_list a2; va_copy(a2, ap); int n = vsnprintf(nullptr, 0, fmt, a2); va_end(a2); if (m) mem_check_range(d, (u64)n + 1 < m ? n + 1 : m, true); return vsnprintf(d, m, fmt, ap); }
int sim_snprintf(char* d, size_t m, const char* fmt, ...) { va_list ap; va_start(ap, fmt); int n = sim_vsnprintf(d, m, fmt, ap); va_end(ap); return n; }
struct passwd* sim_getpwuid(uid_t) { static struct passwd p; p.pw_name = (char*)"user"; return &p; }
struct group* sim_getgrgid(gid_t) { static struct group g; g.gr_name = (char*)"group"; return &g; }
// ------------------------------------------------------------ time
// the wall clock: what it shows can be moved; one call is one reading
static i64 wall() { yield_point(); i64 ns = 1700000000LL * 1000000000LL + (i64)G.now + G.clock_off; if (G.cur && G.cur->reads) G.cur->reads->push_back(ns); return ns; }
static i64 fdiv(i64 a, i64 b) { i64 q = a / b; return a % b < 0 ? q - 1 : q; }
static i64 fmod_(i64 a, i64 b) { return a - fdiv(a, b) * b; }
time_t sim_time(time_t* t) { time_t s = fdiv(wall(), 1000000000LL); if (t) *t = s; return s; }
int sim_ftime(struct timeb* t) { i64 w = wall(); t->time = fdiv(w, 1000000000LL); t->millitm = fmod_(w, 1000000000LL) / 1000000; t->timezone = 0; t->dstflag = 0; return 0; }
int sim_gettimeofday(struct timeval* tv, void*) { i64 w = wall(); tv->tv_sec = fdiv(w, 1000000000LL); tv->tv_usec = fmod_(w, 1000000000LL) / 1000; return 0; }
int sim_clock_gettime(clockid_t id, struct timespec* ts) { i64 w = wall(); if (id == CLOCK_MONOTONIC) w -= G.clock_off; ts->tv_sec = fdiv(w, 1000000000LL); ts->tv_nsec = fmod_(w, 1000000000LL); return 0; }
static struct tm* local(const time_t* t, struct tm* r) { time_t l = *t + (G.zone ? G.zone(*t) : 0); return gmtime_r(&l, r); }
static struct tm tmbuf[MAXPROC]; // localtime() and gmtime() share it among the threads of a process
struct tm* sim_localtime_r(const time_t* t, struct tm* r) { yield_point(); return local(t, r); }
struct tm* sim_gmtime_r(const time_t* t, struct tm* r) { yield_point(); return gmtime_r(t, r); }
struct tm* sim_localtime(const time_t* t) { yield_point(); struct tm* r = local(t, &tmbuf[G.cur->proc]); yield_point(); return r; }
struct tm* sim_gmtime(const time_t* t) { yield_point(); struct tm* r = gmtime_r(t, &tmbuf[G.cur->proc]); yield_point(); return r; }
int sim_nanosleep(const struct timespec* r, struct timespec* rem) {
  ST.syscalls++; if (r->tv_nsec < 0 || r->tv_nsec > 999999999 || r->tv_sec < 0) { yield_point(); errno = EINVAL; return -1; }
  u64 ns = r->tv_sec * 1000000000ULL + r->tv_nsec; u64 prm = 0;
  if (fault(F_SLEEP_EINTR, &prm)) { u64 part = ns ? prm % ns : 0; sim_sleep_ns(part); if (rem) { rem->tv_sec = (ns - part) / 1000000000ULL; rem->tv_nsec = (ns - part) % 1000000000ULL; } errno = EINTR; return -1; }
  sim_sleep_ns(ns); if (rem) rem->tv_sec = rem->tv_nsec = 0; return 0;
}
int sim_usleep(useconds_t u) { sim_sleep_ns(u * 1000ULL); return 0; }
unsigned sim_sleep(unsigned s) { sim_sleep_ns(s * 1000000000ULL); return 0; }
int sim_sched_yield() { sim_sleep_ns(1000); return 0; }
unsigned sim_alarm(unsigned) { return 0; }
void* sim_signal(int s, void* h) { yield_point(); if (s == 13 && G.cur) sim_sigpipe_ignored[G.cur->proc] = h == (void*)1; return nullptr; }
int sim_sigaction(int, const void*, void*) { return 0; }
// the identity of a futex is the physical location, not the virtual address
static u64 phys(const void* a) { u64 x = (u64)a; if (x - SHM0 < MAXPROC * SHMPOOL) return SHM0 + (x - SHM0) % SHMPOOL; return x; }
long sim_syscall(long nr, ...) {
  va_list ap; va_start(ap, nr); sc();
  if (nr != SYS_futex) { fprintf(stderr, "unsupported syscall %ld\n", nr); _exit(2); }
  int* a = va_arg(ap, int*); int op = va_arg(ap, int) & FUTEX_CMD_MASK; int val = va_arg(ap, int); const struct timespec* to = va_arg(ap, const struct timespec*); va_end(ap);
  mem_check_range(a, 4, false);
  if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
    if (fault(F_FUTEX_EINTR)) { errno = EINTR; return -1; }
    if (to && (to->tv_nsec < 0 || to->tv_nsec > 999999999 || to->tv_sec < 0)) { errno = EINVAL; return -1; }
    if (*a != val) { errno = EAGAIN; EV(0x401, 0, 0, "futex wait: value changed"); return -1; }
    u64 prm = 0; u64 dl = to ? (op == FUTEX_WAIT ? G.now : 0) + to->tv_sec * 1000000000ULL + to->tv_nsec : 0; if (to && !dl) dl = 1; if (to && dl <= G.now) dl = G.now + 1;
    if (fault(F_FUTEX_SPURIOUS, &prm)) { // a wake-up without cause (or a signal) after a while
      u64 d2 = G.now + 1000 + prm % 50000000ULL; if (!dl || d2 < dl) { EV(0x402, 0, 0, "futex wait (will be woken without cause)"); int r = block_on((void*)phys(a), 1, d2); if (r == 1) { EV(0x406, 0, 0, "woken without cause"); if (prm & 1) { errno = EINTR; return -1; } return 0; } return 0; }
    }
    EV(0x403, 0, dl, "futex wait");
    int r = block_on((void*)phys(a), 1, dl);
    if (r == 1) { EV(0x404, 0, 0, "futex wait timed out"); errno = ETIMEDOUT; return -1; }
    EV(0x407, 0, 0, "futex wait: woken"); return 0;
  }
  if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { EV(0x405, val, 0, "futex wake"); return wake_addr((void*)phys(a), 1, val); }
  fprintf(stderr, "unsupported futex op %d\n", op); _exit(2);
}
void sim_exit(int c) { EV(0x500, c, 0, "exit(%d)", c); int p = G.cur->proc; probe("exit"); kill_proc(p); abort(); }
void sim__exit(int c) { sim_exit(c); }
void sim_abort() { violate("abort", "abort() called"); }
void sim___assert_fail(const char* e, const char* f, unsigned l, const char*) { violate("abort", "assertion '%s' failed", e); }
}
