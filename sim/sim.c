#define _GNU_SOURCE
#include "sim.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

extern FILE* __real_fopen(const char* path, const char* mode);
#define fopen __real_fopen
#define MAXCH (1u << 20)
#define MAXB (1u << 16)
#define NCTR 192
#define NSAMP 6
#define BMBITS 24
#define EX_SIMFAIL 101
#define EX_BROKEN 102
#define EX_HANG 103
#define EX_OOM 104
#define EX_ASAN 99

typedef struct { char name[48]; uint64_t n; char kind; } Ctr;

typedef struct {
  // current run
  uint64_t index;
  uint32_t nch;
  uint32_t ch[MAXCH];
  uint32_t nb;
  uint32_t b[MAXB];
  char cls[128];
  char msg[2048];
  // results of one run (for determinism checks)
  uint64_t runhash;
  bool completed;
  // accumulated
  uint64_t runs, nontrivial, us, ops;
  Ctr ctr[NCTR];
  char samples[NSAMP][1024];
  uint32_t nsamples;
  uint8_t states[(1u << BMBITS) / 8];
  uint8_t hashes[(1u << BMBITS) / 8];
  uint64_t hashfile[4];
} Shared;

static Shared* S;
static const SimScenario* SC;
static uint64_t g_seed;
static bool g_verbose;
static FILE* g_trace;
uint64_t sim_run_index;
bool sim_thorough;

// per-run
static uint64_t r_rng, r_hash;
static bool r_replay, r_nontrivial, r_dry;
static uint32_t* r_choices;
static uint32_t r_nchoices, r_pos;
static char r_sample[1024];

static uint64_t splitmix(uint64_t* s) {
  uint64_t z = (*s += 0x9E3779B97F4A7C15ull);
  z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}

uint64_t sim_hash(const void* p, size_t n, uint64_t h) {
  const uint8_t* b = p;
  for (size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 0x100000001B3ull; }
  return h ^ (h >> 29);
}

void sim_step(void) { if (S->nb < MAXB) S->b[S->nb++] = r_pos; }
bool sim_exhausted(void) { return r_pos >= MAXCH - 16; }

uint64_t sim_u(uint64_t n) {
  if (n <= 1) return 0;
  uint64_t v = 0;
  if (r_pos < MAXCH) {
    if (r_replay) {
      v = r_pos < r_nchoices ? r_choices[r_pos] % n : 0;
    } else {
      v = (splitmix(&r_rng) >> 11) % n;
    }
    S->ch[r_pos++] = (uint32_t)v;
    S->nch = r_pos;
  }
  return v;
}

int64_t sim_range(int64_t lo, int64_t hi) { return lo + (int64_t)sim_u((uint64_t)(hi - lo) + 1); }
bool sim_p(unsigned num, unsigned den) { return num > 0 && sim_u(den) >= den - (num > den ? den : num); }
size_t sim_weighted(size_t n, const unsigned* w) {
  unsigned t = 0;
  for (size_t i = 0; i < n; ++i) t += w[i];
  unsigned v = (unsigned)sim_u(t);
  for (size_t i = 0; i < n; ++i) { if (v < w[i]) return i; v -= w[i]; }
  return n - 1;
}

bool sim_verbose(void) { return g_verbose; }

void sim_note(const char* fmt, ...) {
  if (!g_verbose || !g_trace) return;
  va_list ap; va_start(ap, fmt);
  char b[4096]; vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  size_t l = strlen(b);
  if (write(fileno(g_trace), b, l) < 0 || (l && b[l-1] != '\n' && write(fileno(g_trace), "\n", 1) < 0)) {}
}

void sim_note_text(const char* s) {
  while (*s) {
    const char* e = strchr(s, '\n');
    int n = e ? (int)(e - s) : (int)strlen(s);
    if (g_verbose && g_trace) { if (write(fileno(g_trace), s, (size_t)n) < 0 || write(fileno(g_trace), "\n", 1) < 0) {} }
    s += n + (e != NULL);
  }
}

void sim_ev(const char* kind, int64_t a, int64_t b, int64_t c) {
  int64_t v[3] = {a, b, c};
  r_hash = sim_hash(kind, strlen(kind), r_hash);
  r_hash = sim_hash(v, sizeof v, r_hash);
  if (g_verbose) sim_note("%s %ld %ld %ld\n", kind, (long)a, (long)b, (long)c);
}
void sim_evs(const char* kind, const char* text) {
  r_hash = sim_hash(kind, strlen(kind), r_hash);
  r_hash = sim_hash(text, strlen(text), r_hash);
  if (g_verbose) sim_note("%s %s\n", kind, text);
}

static void ctr(char kind, const char* name, uint64_t n) {
  for (int i = 0; i < NCTR; ++i) {
    Ctr* c = &S->ctr[i];
    if (c->kind == 0) { c->kind = kind; snprintf(c->name, sizeof c->name, "%s", name); c->n = n; return; }
    if (c->kind == kind && strncmp(c->name, name, sizeof c->name - 1) == 0) { c->n += n; return; }
  }
}
void sim_fault(const char* k) {
  ctr('f', k, 1);
  r_hash = sim_hash(k, strlen(k), r_hash);
  if (g_verbose) sim_note("FAULT %s\n", k);
}
void sim_probe(const char* k) { ctr('p', k, 1); }
void sim_count(const char* k, uint64_t n) { ctr('c', k, n); }
void sim_state(uint64_t h) {
  h *= 0x9E3779B97F4A7C15ull; h >>= 64 - BMBITS;
  S->states[h >> 3] |= 1u << (h & 7);
}
void sim_nontrivial(void) { r_nontrivial = true; }
void sim_sample(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); vsnprintf(r_sample, sizeof r_sample, fmt, ap); va_end(ap);
}
void sim_time(uint64_t us) { S->us += us; }
uint64_t sim_runhash(void) { return r_hash; }

_Noreturn void sim_fail(const char* cls, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(S->cls, sizeof S->cls, "%s", cls);
  vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  S->runhash = r_hash;
  sim_note("VIOLATED %s: %s\n", S->cls, S->msg);
  _exit(EX_SIMFAIL);
}
_Noreturn void sim_broken(const char* fmt, ...) {
  va_list ap; va_start(ap, fmt);
  snprintf(S->cls, sizeof S->cls, "harness");
  vsnprintf(S->msg, sizeof S->msg, fmt, ap); va_end(ap);
  _exit(EX_BROKEN);
}

void buf_add(Buf* b, const void* p, size_t n) {
  if (b->len + n + 1 > b->cap) { b->cap = (b->len + n + 1) * 2; b->data = realloc(b->data, b->cap); }
  memcpy(b->data + b->len, p, n); b->len += n; b->data[b->len] = 0;
}
void buf_printf(Buf* b, const char* fmt, ...) {
  char t[8192]; va_list ap; va_start(ap, fmt); int n = vsnprintf(t, sizeof t, fmt, ap); va_end(ap);
  if (n >= (int)sizeof t) n = sizeof t - 1;
  buf_add(b, t, (size_t)n);
}
void buf_free(Buf* b) { free(b->data); b->data = NULL; b->len = b->cap = 0; }

// ---- resource watchdog: CPU time and memory, checked on a CPU timer -----------
static double g_cpu_limit = 40;
static double g_cpu_start;
static long g_rss_limit_pages = 3l * 1024 * 256; // 3 GB

static double cpu_now(void) {
  struct rusage u; getrusage(RUSAGE_SELF, &u);
  return u.ru_utime.tv_sec + u.ru_stime.tv_sec + (u.ru_utime.tv_usec + u.ru_stime.tv_usec) / 1e6;
}
static void on_prof(int sig) {
  (void)sig;
  int e = errno;
  if (cpu_now() - g_cpu_start > g_cpu_limit) _exit(EX_HANG);
  char b[128]; int fd = open("/proc/self/statm", O_RDONLY);
  if (fd >= 0) {
    ssize_t n = read(fd, b, sizeof b - 1); close(fd);
    if (n > 0) {
      b[n] = 0; char* p = strchr(b, ' ');
      if (p && atol(p) > g_rss_limit_pages) _exit(EX_OOM);
    }
  }
  errno = e;
}
static char g_altstack[65536];
static void arm(void) {
  g_cpu_start = cpu_now();
  stack_t ss = {.ss_sp = g_altstack, .ss_size = sizeof g_altstack};
  sigaltstack(&ss, NULL);
  struct sigaction sa; memset(&sa, 0, sizeof sa);
  sa.sa_handler = on_prof; sa.sa_flags = SA_RESTART | SA_ONSTACK;
  sigaction(SIGPROF, &sa, NULL);
  struct itimerval it = {{0, 100000}, {0, 100000}};
  setitimer(ITIMER_PROF, &it, NULL);
}

static uint64_t run_seed(uint64_t index) {
  uint64_t s = g_seed * 0x9E3779B97F4A7C15ull ^ sim_hash(SC->prop, strlen(SC->prop), 0xcbf29ce484222325ull);
  s ^= index * 0xD1B54A32D192ED03ull;
  splitmix(&s);
  return splitmix(&s);
}

static void do_run(uint64_t index) {
  sim_run_index = index;
  S->index = index; S->nch = 0; S->nb = 0; S->completed = false; S->cls[0] = S->msg[0] = 0;
  r_pos = 0; r_hash = 0xcbf29ce484222325ull; r_nontrivial = false; r_sample[0] = 0;
  if (!r_replay) r_rng = run_seed(index);
  g_cpu_start = cpu_now();
  SC->run();
  S->completed = true;
  S->runhash = r_hash;
  if (!r_dry) {
    S->runs++;
    if (r_nontrivial) {
      uint64_t h = (r_hash * 0x9E3779B97F4A7C15ull) >> (64 - BMBITS);
      if (!(S->hashes[h >> 3] & (1u << (h & 7)))) { S->hashes[h >> 3] |= 1u << (h & 7); S->nontrivial++; }
      if (r_sample[0] && S->nsamples < NSAMP) memcpy(S->samples[S->nsamples++], r_sample, sizeof r_sample);
    }
  }
}

static char g_errfile[128];
static void redirect_stderr(void) {
  int fd = open(g_errfile, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd >= 0) { dup2(fd, 2); close(fd); }
}

// Determines the class of a failure from the wait status and captured stderr.
static void classify(int st) {
  if (WIFEXITED(st) && (WEXITSTATUS(st) == EX_SIMFAIL || WEXITSTATUS(st) == EX_BROKEN)) return;
  if (WIFEXITED(st) && WEXITSTATUS(st) == EX_HANG) {
    snprintf(S->cls, sizeof S->cls, "no-termination"); snprintf(S->msg, sizeof S->msg, "run did not terminate within %g s of CPU time", g_cpu_limit); return;
  }
  if (WIFEXITED(st) && WEXITSTATUS(st) == EX_OOM) {
    snprintf(S->cls, sizeof S->cls, "memory-explosion"); snprintf(S->msg, sizeof S->msg, "run used more than 3 GB"); return;
  }
  char* txt = NULL; size_t n = 0;
  int fd = open(g_errfile, O_RDONLY);
  if (fd >= 0) { txt = malloc(200001); ssize_t r = read(fd, txt, 200000); n = r > 0 ? (size_t)r : 0; txt[n] = 0; close(fd); }
  if (!txt) txt = strdup("");
  char* sum = strstr(txt, "SUMMARY: ");
  char* ub = strstr(txt, "runtime error: ");
  char* as = strstr(txt, "Assertion `");
  if (sum && !ub) {
    // "SUMMARY: AddressSanitizer: heap-use-after-free file:line in func"
    char kind[64] = ""; sscanf(sum, "SUMMARY: %*s %63s", kind);
    snprintf(S->cls, sizeof S->cls, "sanitizer:%s", kind);
    char* e = strchr(sum, '\n'); if (e) *e = 0;
    snprintf(S->msg, sizeof S->msg, "%s", sum);
  } else if (ub) {
    snprintf(S->cls, sizeof S->cls, "sanitizer:undefined-behavior");
    char* b = ub; while (b > txt && b[-1] != '\n') --b;
    char* e = strchr(ub, '\n'); if (e) *e = 0;
    snprintf(S->msg, sizeof S->msg, "%s", b);
  } else if (as) {
    snprintf(S->cls, sizeof S->cls, "assertion");
    char* e = strchr(as, '\n'); if (e) *e = 0;
    snprintf(S->msg, sizeof S->msg, "%s", as);
  } else if (WIFSIGNALED(st)) {
    snprintf(S->cls, sizeof S->cls, "signal:%d", WTERMSIG(st));
    snprintf(S->msg, sizeof S->msg, "terminated by signal %d: %.300s", WTERMSIG(st), txt);
  } else {
    snprintf(S->cls, sizeof S->cls, "exit:%d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    snprintf(S->msg, sizeof S->msg, "unexpected process exit: %.300s", txt);
  }
  free(txt);
}

// Runs one choice sequence (or the seeded run `index` when ch == NULL) in a
// fresh process. Returns 0 held, 1 violated, 2 broken.
static int run_one(uint64_t index, const uint32_t* ch, uint32_t n, bool verbose, double cpu) {
  fflush(NULL);
  pid_t p = fork();
  if (p == 0) {
    redirect_stderr();
    g_cpu_limit = cpu;
    g_verbose = verbose;
    r_dry = true;
    r_replay = ch != NULL;
    if (ch) { r_choices = malloc((n + 1) * sizeof *ch); memcpy(r_choices, ch, n * sizeof *ch); r_nchoices = n; }
    sim_harness_init();
    arm();
    do_run(index);
    _exit(0);
  }
  int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
  classify(st);
  return WIFEXITED(st) && WEXITSTATUS(st) == EX_BROKEN ? 2 : 1;
}

// ---- shrinking -------------------------------------------------------------------
static double wall(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec / 1e9; }
static uint32_t* bnds; static uint32_t nbnds;
static uint32_t* best; static uint32_t nbest; static char want[128]; static double deadline; static unsigned tries;
static bool attempt(const uint32_t* c, uint32_t n) {
  if (wall() > deadline) return false;
  ++tries;
  if (run_one(S->index, c, n, false, 15) == 1 && strcmp(S->cls, want) == 0) {
    // What was really drawn is canonical.
    uint32_t m = S->nch < n ? S->nch : n;
    memmove(best, c, m * sizeof *c); nbest = m;
    while (nbest > 0 && best[nbest - 1] == 0) --nbest;
    nbnds = S->nb; memcpy(bnds, S->b, nbnds * sizeof *bnds);
    return true;
  }
  return false;
}
static void shrink(double budget) {
  deadline = wall() + budget;
  uint32_t* t = malloc(sizeof(uint32_t) * MAXCH);
  bnds = malloc(sizeof(uint32_t) * MAXB); nbnds = S->nb; memcpy(bnds, S->b, nbnds * sizeof *bnds);
  bool progress = true;
  while (progress && wall() < deadline) {
    progress = false;
    // truncate
    for (uint32_t k = nbest / 2; k > 0; k /= 2) {
      while (nbest > k) {
        memcpy(t, best, (nbest - k) * sizeof *t);
        uint32_t before = nbest;
        if (!attempt(t, nbest - k)) break;
        if (nbest >= before) break;
        progress = true;
      }
    }
    // drop whole steps
    for (uint32_t k = nbnds / 2; k > 0 && wall() < deadline; k /= 2) {
      for (int64_t i = (int64_t)nbnds - 1; i >= 0 && wall() < deadline; i -= k) {
        if (i >= nbnds) continue;
        uint32_t lo = bnds[i], hi = (uint64_t)i + k < nbnds ? bnds[i + k] : nbest;
        if (lo >= nbest || hi <= lo) continue;
        if (hi > nbest) hi = nbest;
        memcpy(t, best, lo * sizeof *t);
        memcpy(t + lo, best + hi, (nbest - hi) * sizeof *t);
        uint32_t before = nbest;
        if (attempt(t, nbest - (hi - lo)) && nbest < before) progress = true;
      }
    }
    // delete blocks
    for (uint32_t k = nbest / 2 > 4096 ? 4096 : nbest / 2; k > 0 && wall() < deadline; k /= 2) {
      for (int64_t i = (int64_t)nbest - k; i >= 0 && wall() < deadline; i -= k) {
        if ((uint32_t)i + k > nbest) continue;
        memcpy(t, best, i * sizeof *t);
        memcpy(t + i, best + i + k, (nbest - i - k) * sizeof *t);
        uint32_t before = nbest;
        if (attempt(t, nbest - k) && nbest < before) progress = true;
      }
    }
    // zero blocks, then reduce values
    for (uint32_t k = 64; k > 0 && wall() < deadline; k /= 4) {
      for (uint32_t i = 0; i < nbest && wall() < deadline; i += k) {
        bool nz = false;
        memcpy(t, best, nbest * sizeof *t);
        for (uint32_t j = i; j < i + k && j < nbest; ++j) { nz |= t[j] != 0; t[j] = 0; }
        if (nz && attempt(t, nbest)) progress = true;
      }
      if (k == 1) break;
    }
    for (uint32_t i = 0; i < nbest && wall() < deadline; ++i) {
      for (uint32_t d = best[i] / 2; i < nbest && d > 0 && wall() < deadline; d /= 2) {
        if (best[i] < d) continue;
        memcpy(t, best, nbest * sizeof *t); t[i] -= d;
        if (attempt(t, nbest)) progress = true;
      }
    }
  }
  free(t);
}

static void json_str(FILE* f, const char* s) {
  fputc('"', f);
  for (; *s; ++s) {
    unsigned char c = (unsigned char)*s;
    if (c == '"' || c == '\\') fprintf(f, "\\%c", c);
    else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
    else fputc(c, f);
  }
  fputc('"', f);
}

static Shared* new_shared(void) {
  Shared* s = mmap(NULL, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (s == MAP_FAILED) { perror("mmap"); exit(3); }
  return s;
}

static uint64_t popcount(const uint8_t* b, size_t n) {
  uint64_t c = 0; for (size_t i = 0; i < n; ++i) c += (unsigned)__builtin_popcount(b[i]); return c;
}

static int do_replay(const char* file, bool quiet) {
  FILE* f = fopen(file, "r");
  if (!f) { fprintf(stderr, "cannot open %s\n", file); return 3; }
  char line[4096]; uint64_t idx = 0, hash = 0; uint32_t n = 0, cap = 0; uint32_t* ch = NULL; char cls[128] = ""; bool in = false;
  while (fgets(line, sizeof line, f)) {
    if (in) {
      if (strncmp(line, "end", 3) == 0) { in = false; continue; }
      char* p = line; char* e;
      while (true) {
        unsigned long v = strtoul(p, &e, 10);
        if (e == p) break;
        p = e;
        if (n == cap) { cap = cap ? cap * 2 : 256; ch = realloc(ch, cap * sizeof *ch); }
        ch[n++] = (uint32_t)v;
      }
      continue;
    }
    if (sscanf(line, "index %lu", &idx) == 1) continue;
    if (sscanf(line, "hash %lx", &hash) == 1) continue;
    if (sscanf(line, "class %127s", cls) == 1) continue;
    if (strncmp(line, "choices", 7) == 0) in = true;
  }
  fclose(f);
  if (!ch) ch = calloc(1, sizeof *ch);
  g_trace = quiet ? NULL : stdout;
  int r = run_one(idx, ch, n, !quiet, 60);
  if (r == 1) {
    printf("REPLAY property=%s class=%s message=%s hash=%lx\n", SC->prop, S->cls, S->msg, S->runhash);
    if (!quiet) { FILE* e = fopen(g_errfile, "r"); char l[1024]; while (e && fgets(l, sizeof l, e)) fputs(l, stdout); if (e) fclose(e); }
    bool same = strcmp(S->cls, cls) == 0 && (hash == 0 || hash == S->runhash);
    if (!same) printf("REPLAY-MISMATCH expected class=%s hash=%lx\n", cls, hash);
    return same ? 1 : 4;
  }
  printf("REPLAY held (result %d)\n", r);
  return r == 0 ? 0 : 3;
}

int main(int argc, char** argv) {
  const char* prop = NULL; const char* stats = NULL; const char* outdir = "."; const char* replay = NULL; const char* known = NULL;
  uint64_t nruns = 0, only = (uint64_t)-1; int jobs = 8; double maxs = 300, shrink_s = 60; bool trace = false;
  for (int i = 1; i < argc; ++i) {
    if (!strcmp(argv[i], "--prop")) prop = argv[++i];
    else if (!strcmp(argv[i], "--seed")) g_seed = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--runs")) nruns = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--jobs")) jobs = atoi(argv[++i]);
    else if (!strcmp(argv[i], "--time")) maxs = atof(argv[++i]);
    else if (!strcmp(argv[i], "--shrink")) shrink_s = atof(argv[++i]);
    else if (!strcmp(argv[i], "--stats")) stats = argv[++i];
    else if (!strcmp(argv[i], "--out")) outdir = argv[++i];
    else if (!strcmp(argv[i], "--replay")) replay = argv[++i];
    else if (!strcmp(argv[i], "--only")) only = strtoull(argv[++i], NULL, 10);
    else if (!strcmp(argv[i], "--trace")) trace = true;
    else if (!strcmp(argv[i], "--known")) known = argv[++i];
    else if (!strcmp(argv[i], "--thorough")) sim_thorough = true;
    else { fprintf(stderr, "bad arg %s\n", argv[i]); return 3; }
  }
  for (SC = sim_scenarios; SC->prop && (!prop || strcmp(SC->prop, prop)); ++SC) {}
  if (!SC->prop) { fprintf(stderr, "no such property\n"); return 3; }
  if (!nruns) nruns = sim_thorough ? SC->thorough_runs : SC->quick_runs;
  const char* tmp = getenv("SIM_TMP") ? getenv("SIM_TMP") : "/tmp";
  struct sigaction ign; memset(&ign, 0, sizeof ign); ign.sa_handler = SIG_IGN; sigaction(SIGPIPE, &ign, NULL);

  if (replay) {
    S = new_shared();
    snprintf(g_errfile, sizeof g_errfile, "%s/sim-err-%d", tmp, (int)getpid());
    int r = do_replay(replay, !trace);
    unlink(g_errfile);
    return r;
  }
  if (only != (uint64_t)-1) {
    S = new_shared();
    snprintf(g_errfile, sizeof g_errfile, "%s/sim-err-%d", tmp, (int)getpid());
    g_trace = stdout;
    int r = run_one(only, NULL, 0, trace, 100);
    printf("result %d class=%s msg=%s hash=%lx choices=%u\n", r, S->cls, S->msg, S->runhash, S->nch);
    for (int i = 0; i < NCTR && S->ctr[i].kind; ++i) printf("  %c %s %lu\n", S->ctr[i].kind, S->ctr[i].name, S->ctr[i].n);
    unlink(g_errfile);
    return r;
  }

  double t0 = wall();
  Shared** sh = calloc((size_t)jobs, sizeof *sh);
  pid_t* wp = calloc((size_t)jobs, sizeof *wp);
  int* found = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  uint64_t* det = mmap(NULL, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); // [0] checked [1] mismatched
  for (int j = 0; j < jobs; ++j) sh[j] = new_shared();
  fflush(NULL);
  for (int j = 0; j < jobs; ++j) {
    if ((wp[j] = fork()) == 0) {
      S = sh[j];
      snprintf(g_errfile, sizeof g_errfile, "%s/sim-err-%d", tmp, (int)getpid());
      uint64_t i = (uint64_t)j;
      unsigned batch = SC->batch ? SC->batch : 1;
      uint64_t batches = 0;
      while (i < nruns && !*found && wall() - t0 < maxs) {
        fflush(NULL);
        pid_t p = fork();
        if (p == 0) {
          redirect_stderr();
          sim_harness_init();
          arm();
          uint64_t k = i;
          for (unsigned b = 0; b < batch && k < nruns && !*found && wall() - t0 < maxs; ++b, k += (unsigned)jobs) do_run(k);
          _exit(0);
        }
        int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
          // Determinism: the last run of some batches is executed again in a
          // fresh process and must produce the same event log.
          if (batches++ % 8 == 0 && S->completed) {
            uint64_t h = S->runhash, idx = S->index;
            int r = run_one(idx, NULL, 0, false, 60);
            __atomic_fetch_add(&det[0], 1, __ATOMIC_RELAXED);
            if (r != 0 || S->runhash != h) { __atomic_fetch_add(&det[1], 1, __ATOMIC_RELAXED); det[2] = idx; det[3] = (uint64_t)r; }
          }
          i += (uint64_t)batch * (unsigned)jobs;
          continue;
        }
        // failure
        classify(st);
        if (WIFEXITED(st) && WEXITSTATUS(st) == EX_BROKEN) { *found = 2; break; }
        uint64_t idx = S->index;
        char cls[128]; memcpy(cls, S->cls, sizeof cls);
        char msg[300]; snprintf(msg, sizeof msg, "%.290s", S->msg);
        int r = run_one(idx, NULL, 0, false, 60);
        if (r == 1) { __atomic_store_n(found, 1, __ATOMIC_SEQ_CST); S->index = idx; S->hashfile[0] = 1; break; }
        if (r == 2) { *found = 2; break; }
        // Not reproducible from a fresh process: not a violation of this run.
        ctr('c', "unconfirmed", 1);
        snprintf(S->msg, sizeof S->msg, "unconfirmed run %lu: %s %s", idx, cls, msg);
        i = idx + (unsigned)jobs;
      }
      unlink(g_errfile);
      _exit(0);
    }
  }
  for (int j = 0; j < jobs; ++j) { int st; while (waitpid(wp[j], &st, 0) < 0 && errno == EINTR) {} }
  double t1 = wall();

  // Merge the statistics.
  Shared* M = new_shared();
  int viol = -1, broken = -1;
  for (int j = 0; j < jobs; ++j) {
    Shared* s = sh[j];
    M->runs += s->runs; M->nontrivial += s->nontrivial; M->us += s->us;
    S = M;
    for (int c = 0; c < NCTR && s->ctr[c].kind; ++c) ctr(s->ctr[c].kind, s->ctr[c].name, s->ctr[c].n);
    for (uint32_t c = 0; c < s->nsamples && M->nsamples < NSAMP && c < 2; ++c) memcpy(M->samples[M->nsamples++], s->samples[c], sizeof s->samples[c]);
    for (size_t b = 0; b < sizeof M->states; ++b) { M->states[b] |= s->states[b]; M->hashes[b] |= s->hashes[b]; }
    if (s->hashfile[0] && viol < 0) viol = j;
    if (strcmp(s->cls, "harness") == 0) broken = j;
    if (strncmp(s->msg, "unconfirmed", 11) == 0) fprintf(stderr, "%s\n", s->msg);
  }
  if (stats) {
    FILE* f = fopen(stats, "w");
    fprintf(f, "{\"runs\": %lu, \"distinct_nontrivial\": %lu, \"simulated_us\": %lu, \"states\": %lu, \"search_wall_s\": %.3f, \"determinism_checked\": %lu, \"determinism_mismatched\": %lu, \"jobs\": %d,\n",
      M->runs, popcount(M->hashes, sizeof M->hashes), M->us, popcount(M->states, sizeof M->states), t1 - t0, det[0], det[1], jobs);
    const char* names = "fpc"; const char* keys[] = {"faults", "probes", "counters"};
    for (int k = 0; k < 3; ++k) {
      fprintf(f, "\"%s\": {", keys[k]); bool first = true;
      for (int c = 0; c < NCTR && M->ctr[c].kind; ++c) if (M->ctr[c].kind == names[k]) {
        fprintf(f, first ? "" : ", "); first = false; json_str(f, M->ctr[c].name); fprintf(f, ": %lu", M->ctr[c].n);
      }
      fprintf(f, "},\n");
    }
    fprintf(f, "\"samples\": [");
    for (uint32_t c = 0; c < M->nsamples; ++c) { fprintf(f, c ? ", " : ""); json_str(f, M->samples[c]); }
    fprintf(f, "]}\n"); fclose(f);
  }
  if (broken >= 0 && viol < 0) { fprintf(stderr, "HARNESS-ERROR run %lu: %s\n", sh[broken]->index, sh[broken]->msg); return 3; }
  if (det[1]) fprintf(stderr, "NONDETERMINISM %lu of %lu runs (e.g. run %lu result %lu)\n", det[1], det[0], det[2], det[3]);
  if (viol < 0) return det[1] ? 3 : 0;

  // Minimise and write the replay file.
  S = sh[viol];
  snprintf(g_errfile, sizeof g_errfile, "%s/sim-err-%d", tmp, (int)getpid());
  uint64_t idx = S->index;
  if (run_one(idx, NULL, 0, false, 60) != 1) { fprintf(stderr, "HARNESS-ERROR violation did not reproduce\n"); unlink(g_errfile); return 3; }
  memcpy(want, S->cls, sizeof want);
  best = malloc(sizeof(uint32_t) * MAXCH); nbest = S->nch; memcpy(best, S->ch, nbest * sizeof *best);
  uint32_t orig = nbest;
  shrink(shrink_s);
  int r = run_one(idx, best, nbest, false, 60);
  if (r != 1) { fprintf(stderr, "HARNESS-ERROR minimised violation did not reproduce (%d)\n", r); unlink(g_errfile); return 3; }
  char path[512]; snprintf(path, sizeof path, "%s/%s-%lu-%lu.replay", outdir, SC->prop, g_seed, idx);
  FILE* f = fopen(path, "w");
  if (!f) { perror(path); return 3; }
  char m1[2048]; memcpy(m1, S->msg, sizeof m1); uint64_t h1 = S->runhash;
  if (strncmp(want, "sanitizer", 9) == 0 || strncmp(want, "signal", 6) == 0 || !strcmp(want, "assertion") || !strcmp(want, "no-termination") || !strcmp(want, "memory-explosion")) h1 = 0;
  fprintf(f, "property %s\nseed %lu\nindex %lu\nclass %s\nhash %lx\nmessage %s\noriginal_choices %u\nshrink_attempts %u\nchoices %u\n", SC->prop, g_seed, idx, want, h1, m1, orig, tries, nbest);
  for (uint32_t i = 0; i < nbest; ++i) fprintf(f, "%u%c", best[i], i % 24 == 23 ? '\n' : ' ');
  fprintf(f, "\nend\n--- trace of the minimised run ---\n");
  fflush(f);
  g_trace = f;
  run_one(idx, best, nbest, true, 60);
  fclose(f);
  unlink(g_errfile);
  printf("FOUND property=%s class=%s index=%lu choices=%u/%u tries=%u replay=%s message=%s\n", SC->prop, want, idx, nbest, orig, tries, path, m1);
  (void)known;
  return 1;
}
