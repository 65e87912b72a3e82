// Seams: the simulated file system (behind libc stdio), process exit, rand,
// environment, and the value-heap hooks.
#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <setjmp.h>
#include <stdarg.h>
#include <sys/stat.h>
#include <unistd.h>
#include <dirent.h>
#if defined(__SANITIZE_ADDRESS__)
#include <sanitizer/asan_interface.h>
#else
#define ASAN_POISON_MEMORY_REGION(a, b)
#define ASAN_UNPOISON_MEMORY_REGION(a, b)
#endif

// ---- value heap hooks ---------------------------------------------------------
SimHeapCfg sim_heap;
size_t FbleSimChunkSize = 1024 * 1024;

void sim_heap_default(void) { memset(&sim_heap, 0, sizeof sim_heap); FbleSimChunkSize = 1024 * 1024; }
void sim_heap_random(void) {
  sim_heap_default();
  sim_heap.gc_mode = (unsigned)sim_u(3);
  sim_heap.merge_mode = (unsigned)sim_u(4);
  static const size_t sizes[] = {1024 * 1024, 64 * 1024, 8192, 2048};
  FbleSimChunkSize = sizes[sim_u(4)];
}

__attribute__((weak)) size_t FbleSimExtraGcSteps(void) {
  size_t n = 0;
  switch (sim_heap.gc_mode) {
    case 1: n = (size_t)sim_u(4); break;
    case 2: n = sim_p(1, 8) ? 1 + (size_t)sim_u(64) : 0; break;
  }
  if (n) sim_fault("gc-extra-steps");
  return n;
}
void (*sim_tick_hook)(void);
__attribute__((weak)) bool FbleSimMergeFrame(bool merge) {
  if (sim_tick_hook) sim_tick_hook();
  if (sim_heap.hold_merge) return merge;
  bool r = merge;
  switch (sim_heap.merge_mode) {
    case 1: r = sim_p(1, 2) ? !merge : merge; break;
    case 2: r = false; break;
    case 3: r = true; break;
  }
  if (r != merge) sim_fault(merge ? "frame-forced-split" : "frame-forced-merge");
  return r;
}
void FbleSimStackAlloc(void* p, size_t n) { (void)p; (void)n; ASAN_UNPOISON_MEMORY_REGION(p, n); }
void FbleSimStackFree(void* lo, void* hi) {
  (void)lo; (void)hi;
  if ((char*)lo < (char*)hi) { ASAN_POISON_MEMORY_REGION(lo, (size_t)((char*)hi - (char*)lo)); }
}

extern void FbleResetMaxTotalBytesAllocated(void) __attribute__((weak));
extern size_t FbleMaxTotalBytesAllocated(void) __attribute__((weak));
size_t sim_live_bytes(void) {
  if (!FbleResetMaxTotalBytesAllocated) return 0;
  FbleResetMaxTotalBytesAllocated();
  return FbleMaxTotalBytesAllocated();
}

// ---- rand -----------------------------------------------------------------------
uint64_t sim_rand_calls;
int (*sim_rand_hook)(void);
int __wrap_rand(void) {
  sim_rand_calls++;
  if (sim_rand_hook) return sim_rand_hook();
  return (int)sim_u(1u << 31);
}
void __wrap_srand(unsigned s) { (void)s; }
long __wrap_random(void) { return __wrap_rand(); }

// ---- environment --------------------------------------------------------------
char* (*sim_getenv_hook)(const char* name);
extern char* __real_getenv(const char*);
char* __wrap_getenv(const char* n) { return sim_getenv_hook ? sim_getenv_hook(n) : __real_getenv(n); }
char* __wrap_secure_getenv(const char* n) { return __wrap_getenv(n); }

// ---- stack limit ------------------------------------------------------------------
// The evaluator raises the stack limit; under simulation it stays what the
// runner chose so that runaway recursion ends.
#include <sys/resource.h>
extern int __real_setrlimit(int, const struct rlimit*);
int __wrap_setrlimit(int r, const struct rlimit* l) {
  if (r == RLIMIT_STACK) return 0;
  return __real_setrlimit(r, l);
}

// ---- exit / abort -----------------------------------------------------------------
static jmp_buf* exit_jmp;
static int exit_code;
bool sim_in_main;
extern void __real_exit(int) __attribute__((noreturn));
extern void __real_abort(void) __attribute__((noreturn));
void __wrap_exit(int code) {
  if (exit_jmp) { exit_code = code; longjmp(*exit_jmp, 1); }
  __real_exit(code);
}
void __wrap_abort(void) {
  if (exit_jmp) { exit_code = -1; longjmp(*exit_jmp, 1); }
  __real_abort();
}
static void (*exit_fn[8])(void); static unsigned exit_nfn;
int __wrap_atexit(void (*f)(void)) {
  for (unsigned i = 0; i < exit_nfn; ++i) if (exit_fn[i] == f) return 0;
  if (exit_nfn < 8) exit_fn[exit_nfn++] = f;
  return 0;
}
static int run_exit_fns(int argc, char** argv) { (void)argc; (void)argv; for (unsigned i = exit_nfn; i-- > 0; ) exit_fn[i](); return 0; }
int sim_run_atexit(void) { return sim_main(run_exit_fns, 0, NULL); }

int sim_main(int (*m)(int, char**), int argc, char** argv) {
  jmp_buf jb;
  jmp_buf* old = exit_jmp;
  sim_in_main = true;
  if (setjmp(jb) == 0) { exit_jmp = &jb; exit_code = m(argc, argv); }
  exit_jmp = old;
  sim_in_main = false;
  return exit_code;
}

// ---- files -------------------------------------------------------------------------
typedef struct Stream { unsigned id; VFile* f; FILE* fp; size_t pos, high; bool append, err_done, std, closed, wr; struct Stream* next; } Stream;
static VFile* files;
extern bool vfs_crashed;
void (*vfs_on_event)(const char*, VFile*);
static Stream* streams;
const char* vfs_ev_path; unsigned vfs_ev_stream; size_t vfs_ev_pos; static unsigned stream_seq;
static void event(const char* what, VFile* f, Stream* s) {
  vfs_ev_stream = s ? s->id : 0; vfs_ev_pos = s ? s->pos : 0;
  if (vfs_on_event && !vfs_crashed) vfs_on_event(what, f);
}
static FILE *real_in, *real_out, *real_err;
static VFile *v_in, *v_out, *v_err;
void (*vfs_on_write)(VFile*, const char*, size_t);
int (*vfs_open_fault)(const char*, bool);
bool vfs_root_readonly = true;
long vfs_crash_at = -1, vfs_kernel_events;

static void norm(const char* p, char* o, size_t n) {
  // "./a//b/./c" -> "a/b/c" ; keeps ".." verbatim
  size_t k = 0;
  while (p[0] == '.' && p[1] == '/') { p += 2; while (*p == '/') ++p; }
  while (*p && k + 1 < n) {
    if (*p == '/' && p[1] == '/') { ++p; continue; }
    if (p[0] == '/' && p[1] == '.' && (p[2] == '/' || p[2] == 0)) { p += 2; continue; }
    o[k++] = *p++;
  }
  while (k > 1 && o[k-1] == '/') --k;
  o[k] = 0;
}
VFile* vfs_get(const char* path) {
  char b[4096]; norm(path, b, sizeof b);
  for (VFile* f = files; f; f = f->next) if (!strcmp(f->path, b)) return f;
  return NULL;
}
bool vfs_same(const char* a, const char* b) { char x[4096], y[4096]; norm(a, x, sizeof x); norm(b, y, sizeof y); return !strcmp(x, y); }
VFile* vfs_first(void) { return files; }
VFile* vfs_put(const char* path, const void* data, size_t len) {
  VFile* f = vfs_get(path);
  if (!f) {
    char b[4096]; norm(path, b, sizeof b);
    f = calloc(1, sizeof *f); f->path = strdup(b); f->next = files; files = f;
  }
  free(f->data);
  f->data = malloc(len + 1); memcpy(f->data, data, len); f->data[len] = 0; f->len = len; f->cap = len + 1;
  f->exists = true; f->unreadable = f->unwritable = false; f->read_err_at = f->write_limit = -1; f->close_fail = false;
  f->vanish_after = 0; f->short_reads = f->short_writes = false; f->read_err_transient = false;
  f->opens = f->closes = f->accesses = 0;
  f->hit_read_err = f->hit_write_err = f->hit_close_err = f->hit_open_err = false;
  return f;
}
static void kernel_event(void) {
  if (vfs_crash_at >= 0 && vfs_kernel_events == vfs_crash_at) {
    sim_fault("process-crash");
    vfs_crashed = true;
    if (exit_jmp) { exit_code = -2; vfs_kernel_events++; longjmp(*exit_jmp, 1); }
    sim_broken("crash point outside of a program");
  }
  vfs_kernel_events++;
}

static ssize_t c_read(void* ck, char* buf, size_t n) {
  Stream* s = ck; VFile* f = s->f;
  kernel_event();
  event("read", f, s);
  if (f->read_err_at >= 0 && s->pos >= (size_t)f->read_err_at && !(f->read_err_transient && s->err_done)) {
    s->err_done = true; f->hit_read_err = true;
    sim_fault(f->read_err_transient ? "read-error-transient" : "read-error");
    errno = f->read_err_transient ? EINTR : EIO;
    return -1;
  }
  size_t av = f->len > s->pos ? f->len - s->pos : 0;
  if (f->read_err_at >= 0 && !(f->read_err_transient && s->err_done) && av > (size_t)f->read_err_at - s->pos) av = (size_t)f->read_err_at - s->pos;
  if (n > av) n = av;
  if (f->short_reads && n > 1) { size_t k = 1 + (size_t)sim_u(n > 64 ? 64 : n); if (k < n) { n = k; sim_fault("short-read"); } }
  memcpy(buf, f->data + s->pos, n); s->pos += n;
  if (s->pos > s->high) s->high = s->pos;
  return (ssize_t)n;
}
static void file_write(VFile* f, size_t pos, const char* buf, size_t n) {
  if (pos + n + 1 > f->cap) { f->cap = (pos + n + 1) * 2; f->data = realloc(f->data, f->cap); }
  memcpy(f->data + pos, buf, n);
  if (pos + n > f->len) f->len = pos + n;
  f->data[f->len] = 0;
}
bool vfs_crashed;
static ssize_t c_write(void* ck, const char* buf, size_t n) {
  Stream* s = ck; VFile* f = s->f;
  size_t done = 0;
  // libc retries short writes; every piece is a kernel event of its own.
  while (done < n) {
    if (vfs_crashed) return (ssize_t)n;
    kernel_event();
    size_t k = n - done;
    if (f->short_writes && k > 1) { size_t m = 1 + (size_t)sim_u(k > 64 ? 64 : k); if (m < k) { k = m; sim_fault("short-write"); } }
    if (s->append) s->pos = f->len;
    if (f->write_limit >= 0) {
      size_t room = s->pos < (size_t)f->write_limit ? (size_t)f->write_limit - s->pos : 0;
      if (room == 0) {
        f->hit_write_err = true; sim_fault(done ? "torn-write-enospc" : "write-error-enospc"); errno = ENOSPC;
        event("wfail", f, s);
        return (ssize_t)done;
      }
      if (k > room) k = room;
    }
    vfs_ev_stream = s->id; vfs_ev_pos = s->pos;
    file_write(f, s->pos, buf + done, k); s->pos += k;
    if (vfs_on_write) vfs_on_write(f, buf + done, k);
    done += k;
  }
  return (ssize_t)n;
}
static int c_seek(void* ck, off64_t* off, int whence) {
  Stream* s = ck;
  off64_t base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? (off64_t)s->pos : (off64_t)s->f->len;
  if (base + *off < 0) { errno = EINVAL; return -1; }
  s->pos = (size_t)(base + *off); *off = (off64_t)s->pos;
  return 0;
}
static int c_close(void* ck) {
  Stream* s = ck; VFile* f = s->f;
  if (!s->wr) s->pos = s->high;
  f->closes++; s->closed = true;
  event("close", f, s);
  Stream** p = &streams;
  while (*p && *p != s) p = &(*p)->next;
  if (*p) *p = s->next;
  bool wr = s->wr;
  free(s);
  if (f->close_fail && wr) { f->hit_close_err = true; sim_fault("close-error"); errno = EIO; return -1; }
  return 0;
}
bool vfs_unbuffered_reads;
static FILE* mkstream(VFile* f, const char* mode, bool std) {
  Stream* s = calloc(1, sizeof *s);
  s->f = f; s->std = std; s->append = mode[0] == 'a'; s->wr = mode[0] != 'r' || strchr(mode, '+');
  cookie_io_functions_t io = {c_read, c_write, std ? NULL : c_seek, c_close};
  s->fp = fopencookie(s, mode, io);
  s->next = streams; streams = s;
  f->opens++;
  s->id = ++stream_seq;
  if (vfs_unbuffered_reads && !s->wr) setvbuf(s->fp, NULL, _IONBF, 0);
  event("open", f, s);
  return s->fp;
}
extern FILE* __real_fopen(const char*, const char*);
// Harnesses name the tree under test /repo wherever it really is.
static const char* passthrough(const char* p) {
  static const char* root; static char real[4096];
  if (!root) { root = __real_getenv("SIM_REPO"); if (!root) root = "/repo"; }
  if (!vfs_root_readonly) return NULL;
  size_t n = strlen(root);
  if ((strncmp(p, root, n) == 0 && p[n] == '/') || strncmp(p, "/tmp/fblesim", 12) == 0) return p;
  if (strncmp(p, "/repo/", 6) != 0) return NULL;
  snprintf(real, sizeof real, "%s%s", root, p + 5);
  return real;
}
static FILE* open_failed(VFile* f, const char* path, int e) {
  vfs_ev_path = path;
  event("openfail", f, NULL);
  errno = e;
  return NULL;
}
FILE* __wrap_fopen(const char* path, const char* mode) {
  bool wr = mode[0] != 'r' || strchr(mode, '+');
  const char* real = passthrough(path);
  if (real && !vfs_get(path)) return __real_fopen(real, mode);
  kernel_event();
  int e = vfs_open_fault ? vfs_open_fault(path, wr) : 0;
  VFile* f = vfs_get(path);
  if (e) { sim_fault(wr ? "open-write-error" : "open-read-error"); if (f) f->hit_open_err = true; return open_failed(f, path, e); }
  if (!wr || mode[0] == 'r') {
    if (!f || !f->exists) return open_failed(f, path, ENOENT);
    if (f->unreadable) { sim_fault("open-read-denied"); f->hit_open_err = true; return open_failed(f, path, EACCES); }
  } else {
    if (f && f->unwritable) { sim_fault("open-write-denied"); f->hit_open_err = true; return open_failed(f, path, EACCES); }
    if (!f) f = vfs_put(path, "", 0);
    f->exists = true;
    if (mode[0] == 'w') f->len = 0;
  }
  return mkstream(f, mode, false);
}
FILE* __wrap_fopen64(const char* p, const char* m) { return __wrap_fopen(p, m); }
extern int __real_access(const char*, int);
extern int __real_stat(const char*, struct stat*);
static int v_access(const char* path, int mode) {
  const char* real = passthrough(path);
  if (real && !vfs_get(path)) return __real_access(real, mode);
  VFile* f = vfs_get(path);
  if (!f) {
    // directories that contain a known file exist
    char b[4096]; norm(path, b, sizeof b); size_t n = strlen(b);
    for (VFile* g = files; g; g = g->next) if (g->exists && !strncmp(g->path, b, n) && g->path[n] == '/') return 0;
    errno = ENOENT; return -1;
  }
  if (!f->exists) { errno = ENOENT; return -1; }
  if ((mode & R_OK) && f->unreadable) { errno = EACCES; return -1; }
  if ((mode & W_OK) && f->unwritable) { errno = EACCES; return -1; }
  f->accesses++;
  if (f->vanish_after && f->accesses >= f->vanish_after) { f->exists = false; sim_fault("file-vanished-after-check"); }
  return 0;
}
int __wrap_access(const char* p, int m) { return v_access(p, m); }
int __wrap_faccessat(int d, const char* p, int m, int fl) { (void)d; (void)fl; return v_access(p, m); }
int __wrap_euidaccess(const char* p, int m) { return v_access(p, m); }
static int v_stat(const char* p, struct stat* st) {
  const char* real = passthrough(p);
  if (real && !vfs_get(p)) return __real_stat(real, st);
  if (v_access(p, F_OK)) return -1;
  VFile* f = vfs_get(p);
  memset(st, 0, sizeof *st);
  st->st_mode = f ? (S_IFREG | 0644) : (S_IFDIR | 0755);
  st->st_size = f ? (off_t)f->len : 0;
  return 0;
}
int __wrap_stat(const char* p, struct stat* st) { return v_stat(p, st); }
int __wrap_lstat(const char* p, struct stat* st) { return v_stat(p, st); }

void vfs_std(bool in, bool out, bool err) {
  if (!real_in) { real_in = stdin; real_out = stdout; real_err = stderr; }
  if (in) { v_in = vfs_put("<stdin>", "", 0); stdin = mkstream(v_in, "r", true); }
  if (out) { v_out = vfs_put("<stdout>", "", 0); stdout = mkstream(v_out, "w", true); }
  if (err) { v_err = vfs_put("<stderr>", "", 0); stderr = mkstream(v_err, "w", true); setvbuf(stderr, NULL, _IONBF, 0); }
}
VFile* vfs_stdin(void) { return v_in; }
VFile* vfs_stdout(void) { return v_out; }
VFile* vfs_stderr(void) { return v_err; }
unsigned vfs_open_count(void) { unsigned n = 0; for (Stream* s = streams; s; s = s->next) if (!s->std) ++n; return n; }
void vfs_exit_flush(void) {
  vfs_crash_at = -1;
  for (Stream* s = streams; s; s = s->next) if (s->wr) fflush(s->fp);
}
void vfs_reset(void) {
  vfs_on_write = NULL; vfs_on_event = NULL; vfs_open_fault = NULL; vfs_crash_at = -1; vfs_kernel_events = 0; stream_seq = 0;
  sim_getenv_hook = NULL; sim_rand_hook = NULL; sim_rand_calls = 0;
  vfs_crashed = true;  // nothing reaches the kernel while cleaning up
  while (streams) { FILE* fp = streams->fp; fclose(fp); }
  if (real_in) { stdin = real_in; stdout = real_out; stderr = real_err; }
  vfs_crashed = false;
  v_in = v_out = v_err = NULL;
  while (files) { VFile* f = files; files = f->next; free(f->path); free(f->data); free(f); }
}
