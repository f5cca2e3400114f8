// The seams: allocator, file system, process boundary.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.h"
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <new>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <unistd.h>

extern long g_arena_live;
namespace sim {
Shared *sh;
char *fs_data;
thread_local AllocState g_alloc;
int64_t g_lib_blocks = 0, g_lib_bytes = 0;
static int64_t g_new_live = 0;               // blocks of the arena held by operator new, released ones in quarantine included
int64_t c_blocks() { return g_arena_live - __atomic_load_n(&g_new_live, __ATOMIC_RELAXED); }
void (*g_switch_hook)() = nullptr, (*g_seam_hook)() = nullptr;

void init_shared() {
  sh = (Shared *)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  fs_data = (char *)mmap(nullptr, FS_FILES * FS_BYTES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
}
void stat_add(const char *name, uint64_t k) {
  int n = sh->nstats;
  for (int i = 0; i < n; i++) if (!strcmp(sh->stat_name[i], name)) { sh->stat[i] += k; return; }
  if (n < MAX_STATS) { snprintf(sh->stat_name[n], 48, "%s", name); sh->stat[n] = k; sh->nstats = n + 1; }
}
void hash_mix(uint64_t v) { if (g_transcript) { record_exact(v); return; } sh->hash = mix64(sh->hash ^ v); }
void hash_str(const char *s) { if (g_transcript) { uint64_t h = 7; for (; *s; s++) h = h * 31 + (unsigned char)*s; record_exact(h); return; } for (; *s; s++) sh->hash = (sh->hash ^ (unsigned char)*s) * 0x100000001b3ULL; }
void where(const char *f, ...) { va_list a; va_start(a, f); vsnprintf(sh->where, sizeof sh->where, f, a); va_end(a); }
std::string fmt(const char *f, ...) { char b[2048]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

void violation(const char *cls, const char *f, ...) {
  if (sh->status != 2) {
    va_list a; va_start(a, f); vsnprintf(sh->vmsg, sizeof sh->vmsg, f, a); va_end(a);
    snprintf(sh->vclass, sizeof sh->vclass, "%s", cls);
    sh->status = 2;
  }
  _exit(0);
}

// ---------------------------------------------------------------- allocator
struct Hdr { uint32_t magic; uint32_t lib; uint64_t size; };
static const uint32_t MAGIC = 0x51a110c8, FREED = 0xdeadf4ee;
static const size_t QMAX = 1 << 15;
static Hdr *quarantine[QMAX];
static size_t qpos = 0;

static void *do_alloc(size_t n, bool nothrow) {
  if (g_alloc.in_lib) {
    if (g_switch_hook) g_switch_hook();
    if (g_alloc.armed) {
      uint64_t c = g_alloc.count++;
      if (c >= g_alloc.fail_at && c < g_alloc.fail_at + g_alloc.fail_n) {
        g_alloc.fired++;
        if (nothrow) return nullptr;
        throw std::bad_alloc();
      }
    }
  }
  Hdr *h = (Hdr *)malloc(n + sizeof(Hdr));
  if (!h) { if (nothrow) return nullptr; throw std::bad_alloc(); }
  __atomic_add_fetch(&g_new_live, 1, __ATOMIC_RELAXED);
  h->magic = MAGIC; h->lib = g_alloc.in_lib; h->size = n;
  if (h->lib) { __atomic_add_fetch(&g_lib_blocks, 1, __ATOMIC_RELAXED); __atomic_add_fetch(&g_lib_bytes, (int64_t)n, __ATOMIC_RELAXED); }
  memset(h + 1, 0xA7, n < 4096 ? n : 4096);  // fresh memory has a fixed, useless content
  return h + 1;
}
static void do_free(void *p) {
  if (!p) return;
  Hdr *h = (Hdr *)p - 1;
  if (h->magic != MAGIC) { static const char m[] = "sim: invalid or double delete\n"; (void)!::write(2, m, sizeof m - 1); abort(); }
  if (h->lib) { __atomic_sub_fetch(&g_lib_blocks, 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&g_lib_bytes, (int64_t)h->size, __ATOMIC_RELAXED); }
  if (h->lib && h->size <= (1 << 16)) {
    h->magic = FREED;
    memset(p, 0xDB, h->size);
    size_t q = __atomic_fetch_add(&qpos, 1, __ATOMIC_RELAXED) % QMAX;
    Hdr *old = quarantine[q]; quarantine[q] = h;
    if (old) { __atomic_sub_fetch(&g_new_live, 1, __ATOMIC_RELAXED); free(old); }
  } else { h->magic = 0; __atomic_sub_fetch(&g_new_live, 1, __ATOMIC_RELAXED); free(h); }
}
uint64_t frees_seen() { return qpos; }
bool block_freed(void *p) { Hdr *h = (Hdr *)p - 1; return h->magic == FREED; }
}  // namespace sim

void *operator new(size_t n) { return sim::do_alloc(n, false); }
void *operator new[](size_t n) { return sim::do_alloc(n, false); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return sim::do_alloc(n, true); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return sim::do_alloc(n, true); }
void operator delete(void *p) noexcept { sim::do_free(p); }
void operator delete[](void *p) noexcept { sim::do_free(p); }
void operator delete(void *p, size_t) noexcept { sim::do_free(p); }
void operator delete[](void *p, size_t) noexcept { sim::do_free(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { sim::do_free(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { sim::do_free(p); }

// ---------------------------------------------------------------- file system
namespace sim {
struct OpenFile { int file; uint64_t pos; bool rd, wr, app; FILE *fp; bool used; };
static OpenFile g_of[1024];
static IoPlan g_io;
static bool g_io_on = false;
static Rng g_io_rng(0);
static bool g_failed = false;      // an error has been returned

bool g_simcwd = false;             // the working directory is the root of the simulated file system
static const char *full(const char *p, char *b) {
  if (!g_simcwd || !p || *p == '/') return p;
  while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') p++; }
  snprintf(b, 1200, "/simfs/%s", p); return b;
}
#define FULL(p) char full_##p[1200]; p = full(p, full_##p)
static bool is_sim(const char *p) { return p && !strncmp(p, "/simfs/", 7); }
void fs_reset() { for (int i = 0; i < FS_FILES; i++) { sh->files[i].used = 0; sh->files[i].size = 0; } }
int fs_find(const char *path) { for (int i = 0; i < FS_FILES; i++) if (sh->files[i].used && !strcmp(sh->files[i].name, path)) return i; return -1; }
static int fs_create(const char *path) {
  int f = fs_find(path); if (f >= 0) return f;
  for (int i = 0; i < FS_FILES; i++) if (!sh->files[i].used) {
    sh->files[i].used = 1; sh->files[i].size = 0; snprintf(sh->files[i].name, sizeof sh->files[i].name, "%s", path); return i; }
  return -1;
}
bool fs_exists(const char *path) { return fs_find(path) >= 0; }
std::string fs_read(const char *path) { int f = fs_find(path); if (f < 0) return ""; return std::string(fs_data + f * FS_BYTES, sh->files[f].size); }
void fs_write(const char *path, const std::string &c) {
  int f = fs_create(path); if (f < 0) { fprintf(stderr, "simfs full\n"); abort(); }
  if (c.size() > FS_BYTES) { fprintf(stderr, "simulated file too large\n"); _exit(3); }
  size_t n = c.size(); memcpy(fs_data + f * FS_BYTES, c.data(), n); sh->files[f].size = n; }
void fs_remove(const char *path) { int f = fs_find(path); if (f >= 0) sh->files[f].used = 0; }
void fs_set_plan(const IoPlan &p) { if (g_tid >= 0) return; g_io = p; g_io_on = true; g_failed = false; g_io_rng = Rng(p.benign); memset(&sh->io, 0, sizeof sh->io); }
void fs_clear_plan() { g_io_on = false; }
static bool matches(int f) { return g_io_on && (!g_io.path[0] || strstr(sh->files[f].name, g_io.path)); }

static int sim_open(const char *path, bool rd, bool wr, bool creat, bool trunc, bool app) {
  if (g_seam_hook) g_seam_hook();
  sh->io.opens++;
  if (g_io_on && (g_io.err == IO_OPEN || (g_io.err == IO_OPEN_W && wr)) && (!g_io.path[0] || strstr(path, g_io.path))) {
    g_failed = true; sh->io.errs++; errno = EMFILE; return -1; }
  int f = fs_find(path);
  if (f < 0) { if (!creat) { errno = ENOENT; return -1; } f = fs_create(path); if (f < 0) { errno = ENOSPC; return -1; } }
  if (trunc && wr) sh->files[f].size = 0;
  int fd = (int)syscall(SYS_openat, AT_FDCWD, "/dev/null", O_RDWR | O_CLOEXEC, 0);
  if (fd < 0 || fd >= 1024) { errno = EMFILE; return -1; }
  g_of[fd] = OpenFile{f, 0, rd, wr, app, nullptr, true};
  return fd;
}
// direct == false: called underneath a C stdio stream, which treats interruptions and short writes as errors,
// so only short reads are benign there
static ssize_t sim_read(int fd, char *buf, size_t n, bool direct) {
  OpenFile &o = g_of[fd];
  if (g_seam_hook) g_seam_hook();
  sh->io.reads++;
  SimFile &f = sh->files[o.file];
  uint64_t avail = o.pos < f.size ? f.size - o.pos : 0;
  size_t k = n < avail ? n : avail;
  if (matches(o.file)) {
    if (g_io.benign && direct && g_io_rng.chance(15)) { sh->io.eintr++; errno = EINTR; return -1; }
    if (g_io.benign && k > 1 && g_io_rng.chance(60)) { size_t m = 1 + g_io_rng.below(g_io_rng.chance(50) ? (k < 8 ? k : 8) : k); if (m < k) { k = m; sh->io.shorts++; } }
    if (g_io.err == IO_EIO_R && !(g_io.once && g_failed)) {
      if (sh->io.bytes_r >= g_io.at) { g_failed = true; sh->io.errs++; errno = EIO; return -1; }
      if (sh->io.bytes_r + k > g_io.at) k = g_io.at - sh->io.bytes_r;
    }
    sh->io.bytes_r += k;
  }
  memcpy(buf, fs_data + (size_t)o.file * FS_BYTES + o.pos, k);
  o.pos += k;
  return (ssize_t)k;
}
static void put(OpenFile &o, const char *buf, size_t k) {
  SimFile &f = sh->files[o.file];
  if (o.app) o.pos = f.size;
  memcpy(fs_data + (size_t)o.file * FS_BYTES + o.pos, buf, k);
  o.pos += k; if (o.pos > f.size) f.size = o.pos;
}
static ssize_t sim_write(int fd, const char *buf, size_t n, bool direct) {
  OpenFile &o = g_of[fd];
  if (g_seam_hook) g_seam_hook();
  sh->io.writes++;
  if (!o.wr) { errno = EBADF; return -1; }
  size_t k = n;
  uint64_t at = o.app ? sh->files[o.file].size : o.pos;
  if (at + k > FS_BYTES) { errno = ENOSPC; return -1; }
  if (matches(o.file)) {
    if (g_io.benign && direct && g_io_rng.chance(15)) { sh->io.eintr++; errno = EINTR; return -1; }
    if (g_io.benign && direct && k > 1 && g_io_rng.chance(60)) { size_t m = 1 + g_io_rng.below(g_io_rng.chance(50) ? (k < 8 ? k : 8) : k); if (m < k) { k = m; sh->io.shorts++; } }
    if ((g_io.err == IO_ENOSPC || g_io.err == IO_EIO_W || g_io.err == IO_CRASH_W) && !(g_io.once && g_failed)) {
      if (sh->io.bytes_w + k > g_io.at) {
        size_t part = g_io.at > sh->io.bytes_w ? g_io.at - sh->io.bytes_w : 0;
        put(o, buf, part); sh->io.bytes_w += part;
        if (g_io.err == IO_CRASH_W) { sh->io.crashes++; _exit(99); }
        sh->io.errs++;
        if (part && direct) return (ssize_t)part;   // short write now, the error follows on the next call
        g_failed = true;
        errno = g_io.err == IO_ENOSPC ? ENOSPC : EIO; return -1;
      }
    }
    sh->io.bytes_w += k;
  }
  put(o, buf, k);
  return (ssize_t)k;
}
static int sim_close(int fd) {
  OpenFile &o = g_of[fd];
  if (!o.used) return 0;
  o.used = false;
  bool wr = o.wr; int file = o.file;
  syscall(SYS_close, fd);
  if (wr && matches(file) && g_io.err == IO_CLOSE) { g_failed = true; sh->io.errs++; errno = EIO; return -1; }
  return 0;
}
static off64_t sim_seek(int fd, off64_t off, int wh) {
  OpenFile &o = g_of[fd];
  int64_t b = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)o.pos : (int64_t)sh->files[o.file].size;
  b += off; if (b < 0) { errno = EINVAL; return -1; }
  o.pos = (uint64_t)b; return b;
}
static inline bool simfd(int fd) { return fd >= 0 && fd < 1024 && g_of[fd].used; }

static ssize_t ck_read(void *c, char *b, size_t n) { return sim_read((int)(intptr_t)c, b, n, false); }
static ssize_t ck_write(void *c, const char *b, size_t n) { ssize_t r = sim_write((int)(intptr_t)c, b, n, false); return r < 0 ? 0 : r; }
static int ck_seek(void *c, off64_t *o, int w) { off64_t r = sim_seek((int)(intptr_t)c, *o, w); if (r < 0) return -1; *o = r; return 0; }
static int ck_close(void *c) { return sim_close((int)(intptr_t)c); }
static FILE *sim_fdopen(int fd, const char *mode) {
  cookie_io_functions_t f = {ck_read, ck_write, ck_seek, ck_close};
  FILE *fp = fopencookie((void *)(intptr_t)fd, mode, f);
  if (!fp) { sim_close(fd); return nullptr; }
  g_of[fd].fp = fp;
  return fp;
}
static FILE *sim_fopen(const char *path, const char *mode) {
  bool plus = strchr(mode, '+') != nullptr;
  bool rd = mode[0] == 'r' || plus, wr = mode[0] != 'r' || plus;
  int fd = sim_open(path, rd, wr, mode[0] != 'r', mode[0] == 'w', mode[0] == 'a');
  if (fd < 0) return nullptr;
  return sim_fdopen(fd, mode);
}
static void fill_stat(int f, struct stat *st) {
  memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = (off_t)sh->files[f].size; st->st_ino = (ino_t)(f + 1); st->st_blksize = 4096;
}
template <class F> static F next_sym(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
}  // namespace sim

using namespace sim;
extern "C" {
FILE *fopen(const char *p, const char *m) { FULL(p); if (is_sim(p)) return sim_fopen(p, m); static auto f = next_sym<FILE *(*)(const char *, const char *)>("fopen"); return f(p, m); }
FILE *fopen64(const char *p, const char *m) { FULL(p); if (is_sim(p)) return sim_fopen(p, m); static auto f = next_sym<FILE *(*)(const char *, const char *)>("fopen64"); return f(p, m); }
FILE *fdopen(int fd, const char *m) noexcept { if (simfd(fd)) return sim_fdopen(fd, m); static auto f = next_sym<FILE *(*)(int, const char *)>("fdopen"); return f(fd, m); }
int fileno(FILE *fp) noexcept { for (int i = 0; i < 1024; i++) if (g_of[i].used && g_of[i].fp == fp) return i; static auto f = next_sym<int (*)(FILE *)>("fileno"); return f(fp); }
ssize_t read(int fd, void *b, size_t n) { if (simfd(fd)) return sim_read(fd, (char *)b, n, true); return syscall(SYS_read, fd, b, n); }
ssize_t write(int fd, const void *b, size_t n) { if (simfd(fd)) return sim_write(fd, (const char *)b, n, true); return syscall(SYS_write, fd, b, n); }
ssize_t pread(int fd, void *b, size_t n, off_t o) { if (simfd(fd)) { uint64_t p = g_of[fd].pos; g_of[fd].pos = (uint64_t)o; ssize_t r = sim_read(fd, (char *)b, n, true); g_of[fd].pos = p; return r; } return syscall(SYS_pread64, fd, b, n, o); }
ssize_t writev(int fd, const struct iovec *v, int c) {
  if (!simfd(fd)) return syscall(SYS_writev, fd, v, c);
  ssize_t tot = 0;
  for (int i = 0; i < c; i++) {
    if (!v[i].iov_len) continue;
    ssize_t r = sim_write(fd, (const char *)v[i].iov_base, v[i].iov_len, true);
    if (r < 0) return tot ? tot : -1;
    tot += r;
    if ((size_t)r < v[i].iov_len) return tot;
  }
  return tot;
}
off_t lseek(int fd, off_t o, int w) noexcept { if (simfd(fd)) return sim_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
off64_t lseek64(int fd, off64_t o, int w) noexcept { if (simfd(fd)) return sim_seek(fd, o, w); return syscall(SYS_lseek, fd, o, w); }
int close(int fd) { if (simfd(fd)) return sim_close(fd); return (int)syscall(SYS_close, fd); }
static int open_common(const char *p, int fl, mode_t mode) {
  FULL(p);
  if (is_sim(p)) { int acc = fl & O_ACCMODE; if ((fl & O_EXCL) && (fl & O_CREAT) && fs_exists(p)) { errno = EEXIST; return -1; }
    return sim_open(p, acc != O_WRONLY, acc != O_RDONLY, fl & O_CREAT, fl & O_TRUNC, fl & O_APPEND); }
  return (int)syscall(SYS_openat, AT_FDCWD, p, fl, mode);
}
int open(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common(p, fl, m); }
int open64(const char *p, int fl, ...) { mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = va_arg(a, mode_t); va_end(a); } return open_common(p, fl, m); }
int creat(const char *p, mode_t m) { return open_common(p, O_CREAT | O_WRONLY | O_TRUNC, m); }
int fsync(int fd) { if (simfd(fd)) return 0; return (int)syscall(SYS_fsync, fd); }
int fdatasync(int fd) { if (simfd(fd)) return 0; return (int)syscall(SYS_fdatasync, fd); }
int ftruncate(int fd, off_t n) noexcept { if (simfd(fd)) { sh->files[g_of[fd].file].size = (uint64_t)n; return 0; } return (int)syscall(SYS_ftruncate, fd, n); }
pid_t getpid() noexcept { return g_alloc.in_lib ? 4242 : (pid_t)syscall(SYS_getpid); }      // one seed, one execution
int rename(const char *a, const char *b) noexcept {
  FULL(a); FULL(b);
  if (!is_sim(a) || !is_sim(b)) return (int)syscall(SYS_rename, a, b);
  int f = fs_find(a); if (f < 0) { errno = ENOENT; return -1; }
  if (g_io_on && g_io.err == IO_CRASH_W && sh->io.bytes_w >= g_io.at) { sh->io.crashes++; _exit(99); }
  int t = fs_find(b); if (t >= 0 && t != f) sh->files[t].used = 0;
  snprintf(sh->files[f].name, sizeof sh->files[f].name, "%s", b); return 0;
}
int unlink(const char *a) noexcept { FULL(a); if (!is_sim(a)) return (int)syscall(SYS_unlink, a); int f = fs_find(a); if (f < 0) { errno = ENOENT; return -1; } sh->files[f].used = 0; return 0; }
int remove(const char *a) noexcept { FULL(a); if (!is_sim(a)) { static auto f = next_sym<int (*)(const char *)>("remove"); return f(a); } return unlink(a); }
int access(const char *a, int m) noexcept { FULL(a); if (!is_sim(a)) return (int)syscall(SYS_access, a, m); if (fs_find(a) < 0) { errno = ENOENT; return -1; } return 0; }
int stat(const char *a, struct stat *st) noexcept { FULL(a); if (!is_sim(a)) return (int)syscall(SYS_newfstatat, AT_FDCWD, a, st, 0); int f = fs_find(a); if (f < 0) { errno = ENOENT; return -1; } fill_stat(f, st); return 0; }
int stat64(const char *a, struct stat64 *st) noexcept { return stat(a, (struct stat *)st); }
int lstat(const char *a, struct stat *st) noexcept { FULL(a); if (!is_sim(a)) return (int)syscall(SYS_newfstatat, AT_FDCWD, a, st, AT_SYMLINK_NOFOLLOW); return stat(a, st); }
int fstat(int fd, struct stat *st) noexcept { if (simfd(fd)) { fill_stat(g_of[fd].file, st); return 0; } return (int)syscall(SYS_newfstatat, fd, "", st, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *st) noexcept { return fstat(fd, (struct stat *)st); }
}

// ---------------------------------------------------------------- process boundary
namespace sim {
static void on_segv(int sig) { void *b[40]; int n = backtrace(b, 40); backtrace_symbols_fd(b, n, 2); signal(sig, SIG_DFL); raise(sig); }
SubResult subprocess(const std::function<void()> &f, const IoPlan *io, bool want_out, int cpu_s) {
  SubResult r{false, 0, 0, false, ""};
  int mfd = -1;
  if (want_out) mfd = (int)syscall(SYS_memfd_create, "out", 0);
  fflush(nullptr);
  pid_t p = fork();
  if (p == 0) {
    g_switch_hook = g_seam_hook = nullptr; g_tid = -1; g_transcript = nullptr;
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    struct itimerval tv = {{0, 0}, {cpu_s, 0}};
    setitimer(ITIMER_PROF, &tv, nullptr);
    signal(SIGPROF, SIG_DFL);
    if (getenv("SIM_VERBOSE")) { signal(SIGSEGV, on_segv); signal(SIGABRT, on_segv); }
    if (want_out) dup2(mfd, 1);
    if (io) fs_set_plan(*io); else fs_clear_plan();
    f();
    exit(0);
  }
  int st = 0;
  while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  fs_clear_plan();
  if (sh->status == 2) _exit(0);
  if (WIFEXITED(st)) { r.exited = true; r.code = WEXITSTATUS(st); }
  else { r.sig = WTERMSIG(st); r.hang = r.sig == SIGPROF; }
  if (want_out) {
    off_t n = syscall(SYS_lseek, mfd, 0, SEEK_END);
    syscall(SYS_lseek, mfd, 0, SEEK_SET);
    r.out.resize((size_t)n);
    size_t got = 0;
    while (got < (size_t)n) { ssize_t k = syscall(SYS_read, mfd, &r.out[got], (size_t)n - got); if (k <= 0) break; got += (size_t)k; }
    syscall(SYS_close, mfd);
  }
  return r;
}
std::string describe(const SubResult &r) {
  if (r.exited) return fmt("exit %d", r.code);
  if (r.hang) return "no progress (processor time limit)";
  return fmt("signal %d", r.sig);
}
}  // namespace sim
