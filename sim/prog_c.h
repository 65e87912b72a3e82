// The C back end (generated C is built with gcc and loaded into the simulated
// process), and the profile counts of whole programs.
extern char** environ;
static void* so_handle; static char so_path[300]; static FbleGeneratedModule* so_module;

static bool compile_wanted(void) {
#ifdef SIM_A64
  return true;
#endif
  return sim_p(1, sim_thorough ? 20 : 40); }
static void write_real(const char* path, const char* data, size_t n) {
  int fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd < 0) sim_broken("cannot write %s", path);
  while (n > 0) { ssize_t k = write(fd, data, n); if (k <= 0) sim_broken("cannot write %s", path); data += k; n -= (size_t)k; }
  close(fd);
}
#ifdef SIM_A64
#include "prog_a64.h"
#else
static bool compile_program(void) {
  const char* tmp = getenv("SIM_TMP"); const char* repo = getenv("SIM_REPO");
  size_t e0 = err_len();
  FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, dirname_);
  FbleModulePath* mp = FbleParseModulePath("/Main%");
  FbleLoadedProgram* lp = FbleLoad(sp, mp, NULL);
  if (!lp) sim_fail("rejected", "a program that ran cannot be loaded for compilation: %s", tail_err(e0));
  FbleCompiledProgram* cp = FbleCompileProgram(lp);
  FbleFreeLoadedProgram(lp);
  if (!cp) sim_fail("rejected", "a program that ran cannot be compiled: %s", tail_err(e0));
  char inc[300], cmd[40][320]; char* argv[60]; int n = 0, c = 0;
  snprintf(inc, sizeof inc, "-I%s/include", repo);
  snprintf(so_path, sizeof so_path, "%s/p%d.so", tmp, (int)getpid());
  static char a0[] = "gcc", a1[] = "-shared", a2[] = "-fPIC", a3[] = "-O0", a4[] = "-std=c99", a5[] = "-w", a6[] = "-o";
  argv[n++] = a0; argv[n++] = a1; argv[n++] = a2; argv[n++] = a3; argv[n++] = a4; argv[n++] = a5; argv[n++] = inc; argv[n++] = a6; argv[n++] = so_path;
  for (size_t i = 0; i <= cp->modules.size; ++i) {
    char* text = NULL; size_t len = 0; FILE* f = open_memstream(&text, &len);
    if (i < cp->modules.size) FbleGenerateC(f, cp->modules.xs[i]);
    else FbleGenerateCExport(f, "sim_exported_module", mp);
    fclose(f);
    snprintf(cmd[c], sizeof cmd[c], "%s/p%d_%d.c", tmp, (int)getpid(), c);
    write_real(cmd[c], text, len); argv[n++] = cmd[c++]; free(text);
  }
  argv[n] = NULL;
  FbleFreeCompiledProgram(cp); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  char log[320]; snprintf(log, sizeof log, "%s/p%d.log", tmp, (int)getpid());
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, log, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t pid; int st = 0;
  if (posix_spawnp(&pid, "gcc", &fa, NULL, argv, environ)) sim_broken("cannot run gcc");
  posix_spawn_file_actions_destroy(&fa);
  while (waitpid(pid, &st, 0) != pid) {}
  for (int i = 0; i < c; ++i) unlink(cmd[i]);
  if (st != 0) {
    char msg[600] = ""; int fd = open(log, O_RDONLY); if (fd >= 0) { ssize_t k = read(fd, msg, sizeof msg - 1); if (k < 0) k = 0; msg[k] = 0; close(fd); }
    unlink(log); unlink(so_path);
    sim_fail("generated-code", "the generated C does not compile: %s", msg);
  }
  unlink(log);
  so_handle = dlopen(so_path, RTLD_NOW | RTLD_LOCAL);
  unlink(so_path);
  if (!so_handle) sim_fail("generated-code", "the generated code cannot be loaded: %s", dlerror());
  FbleGeneratedModule** m = dlsym(so_handle, "sim_exported_module");
  if (!m) sim_fail("generated-code", "the exported module is missing");
  so_module = *m;
  return true;
}
static FbleValue* link_compiled(void) {
  FbleSearchPath* sp = FbleNewSearchPath();
  ncompiled++; sim_probe("c-backend-run");
  FbleValue* v = FbleLink(heap, prof, so_module, sp, NULL);
  FbleFreeSearchPath(sp); return v;
}
static void unload_compiled(void) { if (so_handle) dlclose(so_handle); so_handle = NULL; }
#endif

// ---- profile counts ------------------------------------------------------------
static long* cnt[3]; static int cntn;
static void snap(int i) { if (cntn < nblks || !cnt[i]) { for (int j = 0; j < 3; ++j) cnt[j] = realloc(cnt[j], sizeof(long) * (size_t)(nblks + 1)); cntn = nblks; } for (int j = 0; j < nblks; ++j) cnt[i][j] = blks[j].count; }
typedef struct { const char* name; long want, got; } PB;
static int pb_cmp(const void* a, const void* b) { return strcmp(((const PB*)a)->name, ((const PB*)b)->name); }
static bool skip_block(const char* n) {
  size_t l = strlen(n);
  if (l && n[l - 1] == '@') return true;             // types
  return !strncmp(n, "/P%", 3) || !strncmp(n, "/T%", 3) || !strcmp(n, "<root>") || !strcmp(n, "<main>");
}
// rounds: how often the main function was applied; extras: whether its results were.
static void check_counts(int rounds, bool extras) {
  size_t m = 0; PB* p = malloc(sizeof(PB) * ((size_t)nblks + prof->blocks.size + 1));
  for (int i = 0; i < nblks; ++i) if (!skip_block(blks[i].name)) {
    bool dead = false;   // of a module that is not part of the program
    for (int j = 0; j < nmods; ++j) if (!mods[j].reached) { int a = mods[j].blk[0], b = j + 1 < nmods ? mods[j + 1].blk[0] : native_block; if (i >= a && i < b) dead = true; }
    if (!dead) p[m++] = (PB){blks[i].name, cnt[0][i] + rounds * (cnt[1][i] - cnt[0][i]) + (extras ? cnt[2][i] - cnt[1][i] : 0), 0};
  }
  for (size_t i = 0; i < prof->blocks.size; ++i) if (!skip_block(prof->blocks.xs[i]->name.name->str)) p[m++] = (PB){prof->blocks.xs[i]->name.name->str, 0, (long)prof->blocks.xs[i]->block.count};
  qsort(p, m, sizeof(PB), pb_cmp);
  long total = 0;
  for (size_t i = 0; i < m; ) {
    size_t j = i; long w = 0, g = 0;
    for (; j < m && !strcmp(p[i].name, p[j].name); ++j) { w += p[j].want; g += p[j].got; }
    SIM_CHECK(w == g, "block-count", "block '%s' is reported as entered %ld times, it was entered %ld times", p[i].name, g, w);
    total += w; i = j;
  }
  free(p);
  sim_count("blocks-entered", (uint64_t)total); sim_probe("program-counts-checked");
}
// Relations that hold of the profile after every complete run.
static void check_graph(bool complete) {
  size_t n = prof->blocks.size; uint64_t self = 0;
  uint64_t* in = calloc(n, sizeof *in);
  for (size_t i = 0; i < n; ++i) {
    FbleBlockProfile* b = prof->blocks.xs[i];
    self += b->self;
    SIM_CHECK(b->block.id == i, "profile-graph", "block %zu has id %zu", i, b->block.id);
    SIM_CHECK(b->block.time >= b->self, "profile-graph", "block '%s' has self time %lu of %lu", b->name.name->str, (unsigned long)b->self, (unsigned long)b->block.time);
    for (size_t j = 0; j < b->callees.size; ++j) {
      FbleCallData* c = b->callees.xs[j];
      SIM_CHECK(c->id < n && (j == 0 || b->callees.xs[j - 1]->id < c->id), "profile-graph", "callees of '%s' are out of order", b->name.name->str);
      SIM_CHECK(c->time <= prof->blocks.xs[c->id]->block.time, "profile-graph", "a call of '%s' took longer than the block", prof->blocks.xs[c->id]->name.name->str);
      in[c->id] += c->count;
    }
  }
  for (size_t i = 1; i < n; ++i) SIM_CHECK(in[i] == prof->blocks.xs[i]->block.count, "profile-graph", "block '%s' was entered %lu times, but called %lu times", prof->blocks.xs[i]->name.name->str, (unsigned long)prof->blocks.xs[i]->block.count, (unsigned long)in[i]);
  SIM_CHECK(prof->blocks.xs[0]->block.time == self, "profile-graph", "the time of <root> is %lu, all self time is %lu", (unsigned long)prof->blocks.xs[0]->block.time, (unsigned long)self);
  free(in); (void)complete;
}
