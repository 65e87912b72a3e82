// Simulated command line tools: fble-compile, fble-deps, fble-disassemble and
// fble-perf-profile run with their real main functions over a simulated file
// system and simulated standard streams.
#include "sim.h"
#include <fble/fble-alloc.h>
#include <fble/fble-compile.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include <errno.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

const char* FbleBuildStamp = "sim";
extern const char* FbleDefaultPackagePath;
extern char** environ;
extern int fble_compile_main(int, const char**), fble_deps_main(int, const char**), fble_disassemble_main(int, const char**), fble_perf_profile_main(int, const char**);
#include "prog_gen.h"
#include "prog_eval.h"
#include "prog_mod.h"
#include "prog_prof.h"

static char sim_tmp[300], sim_repo[300];
static char* a_env(const char* name) { if (!strcmp(name, "FBLE_PACKAGE_PATH")) return NULL; return NULL; }
typedef int (*MainFn)(int, char**);
enum { T_COMPILE, T_DEPS, T_DISASM, T_PERF };
static const char* ToolNames[] = {"fble-compile", "fble-deps", "fble-disassemble", "fble-perf-profile"};
static MainFn Mains[] = {(MainFn)fble_compile_main, (MainFn)fble_deps_main, (MainFn)fble_disassemble_main, (MainFn)fble_perf_profile_main};

// ---- arguments ------------------------------------------------------------------
#define MAXA 60
static char argbuf[MAXA][2000]; static char* args[MAXA + 2]; static int nargs;
static void arg(const char* s) { if (nargs >= MAXA) sim_broken("arguments"); snprintf(argbuf[nargs], sizeof argbuf[0], "%s", s); args[nargs] = argbuf[nargs]; args[++nargs] = NULL; }
static const char* arg_text(void) { static char q[3000]; size_t k = 0; q[0] = 0; for (int i = 0; i < nargs && k < 2900; ++i) k += (size_t)snprintf(q + k, sizeof q - k, "%s%s", i ? " " : "", args[i]); return q; }

// One run of a tool, from the start of the process to its end.
typedef struct { int st; bool werr; Buf out; size_t nerr; } Outcome;
static void out_free(Outcome* o) { buf_free(&o->out); }
static Outcome run_tool(int tool, const char* in, size_t in_len, long wlimit, bool shortw, long in_err, bool shortr) {
  Outcome o; memset(&o, 0, sizeof o);
  size_t base = sim_live_bytes();
  vfs_std(true, true, true);
  VFile* i = vfs_put("<stdin>", in ? in : "", in_len); i->read_err_at = in_err; i->short_reads = shortr;
  vfs_stdout()->write_limit = wlimit; vfs_stdout()->short_writes = shortw;
  char* argv[MAXA + 2]; memcpy(argv, args, sizeof argv);
  o.st = sim_main(Mains[tool], nargs, argv);
  vfs_exit_flush();
  o.werr = vfs_stdout()->hit_write_err;
  buf_add(&o.out, vfs_stdout()->data, vfs_stdout()->len); o.nerr = vfs_stderr()->len;
  unsigned open = vfs_open_count();
  sim_ev(ToolNames[tool], o.st, (int64_t)o.out.len, o.werr); sim_evs("out", o.out.data ? o.out.data : "");
  if (sim_verbose()) { sim_note("%s -> status %d, %zu bytes out%s", arg_text(), o.st, o.out.len, o.werr ? ", write error" : ""); if (o.nerr) sim_note_text(vfs_stderr()->data); }
  SIM_CHECK(o.st >= 0, "crash", "%s aborted: %.300s", arg_text(), vfs_stderr()->data);
  size_t now = sim_live_bytes();
  // The allocator aborts a process that ends with memory still allocated.
  SIM_CHECK(now == base, "leak", "%s ends with status %d and %ld bytes still allocated, on which the process aborts", arg_text(), o.st, (long)(now - base));
  SIM_CHECK(o.st <= 2, "status", "%s exits with the undocumented status %d", arg_text(), o.st);
  SIM_CHECK(o.st == 0 || o.nerr > 0 || (o.out.len > 0 && !o.werr), "silent-failure", "%s exits with %d and says nothing", arg_text(), o.st);
  // Flushing what is left is the last thing a process does: nobody can report its failure.
  SIM_CHECK(!(o.st == 0 && o.werr), "output-lost", "%s exits with success although its output was not written: %zu bytes arrived", arg_text(), o.out.len);
  (void)open;
  return o;
}
static void same_output(const char* what, Outcome* o, const char* want, size_t n) {
  if (o->out.len == n && !memcmp(o->out.data ? o->out.data : "", want, n)) return;
  size_t i = 0; while (i < n && i < o->out.len && o->out.data[i] == want[i]) ++i;
  sim_fail("wrong-output", "%s: %s exits with success, but its output differs from the complete output at byte %zu (%zu bytes of %zu)", what, arg_text(), i, o->out.len, n);
}

// ---- the reference parser of arguments -----------------------------------------------
typedef struct { bool help, version, error, compile; const char *module, *target, *exp, *main_; int ndirs; const char* dirs[20]; } Opts;
static bool pkg_exists;
static bool is2(const char* a, const char* s, const char* l) { return !strcmp(a, s) || (l && !strcmp(a, l)); }
static bool take(int* i, const char** dst, Opts* o) {
  if (*i + 1 >= nargs) { o->error = true; return false; }
  if (dst && *dst) { o->error = true; return false; }
  ++*i; if (dst) *dst = args[*i];
  return true;
}
static Opts model_args(int tool) {
  Opts o; memset(&o, 0, sizeof o);
  for (int i = 1; i < nargs && !o.help && !o.version && !o.error; ++i) {
    const char* a = args[i];
    if (is2(a, "-h", "--help")) o.help = true;
    else if (is2(a, "-v", "--version")) o.version = true;
    else if (tool == T_PERF) { if (is2(a, "-s", "--squash")) take(&i, NULL, &o); else o.error = true; }
    else if (!strcmp(a, "-I")) { if (take(&i, NULL, &o)) o.dirs[o.ndirs++] = args[i]; }
    else if (a[0] == '-' && a[1] == 'I') o.dirs[o.ndirs++] = a + 2;
    else if (is2(a, "-p", "--package")) { if (take(&i, NULL, &o)) { if (!strcmp(args[i], "pk") && pkg_exists) o.dirs[o.ndirs++] = "/sim/share/fble/pk"; else o.error = true; } }
    else if (is2(a, "-m", "--module")) { if (take(&i, &o.module, &o) && (o.module[0] != '/' || o.module[strlen(o.module) - 1] != '%')) o.error = true; }
    else if (tool != T_DISASM && is2(a, "-t", "--target")) take(&i, &o.target, &o);
    else if (tool == T_COMPILE && is2(a, "-c", "--compile")) o.compile = true;
    else if (tool == T_COMPILE && is2(a, "-e", "--export")) take(&i, &o.exp, &o);
    else if (tool == T_COMPILE && !strcmp(a, "--main")) take(&i, &o.main_, &o);
    else o.error = true;
  }
  if (o.help || o.version || o.error) return o;
  if (tool != T_PERF && !o.module) o.error = true;
  if (tool == T_DEPS && !o.target) o.error = true;
  if (tool == T_COMPILE) {
    if (!o.compile && !o.exp && !o.main_) o.error = true;
    if (o.target && strcmp(o.target, "c") && strcmp(o.target, "aarch64")) o.error = true;
  }
  return o;
}

// ---- modules ---------------------------------------------------------------------------
static char moddir[100]; static char modname[200];
static char* real_files[500][2]; static int nreal;
static void slurp(const char* root, const char* rel) {
  char path[800]; snprintf(path, sizeof path, "%s/pkgs/core/%s", root, rel);
  struct stat st; int fd = open(path, O_RDONLY); if (fd < 0 || fstat(fd, &st)) { if (fd >= 0) close(fd); return; }
  char* d = calloc(1, (size_t)st.st_size + 1); if (read(fd, d, (size_t)st.st_size) != st.st_size) sim_broken("cannot read %s", path);
  close(fd); real_files[nreal][0] = strdup(rel); real_files[nreal++][1] = d;
}
static const char* RealMods[] = {"/Core/Unit%", "/Core/Bool%", "/Core/Maybe%", "/Core/List%", "/Core/Monad%", "/Core/Eq%"};
static const char* RealFiles[] = {"Core/Unit.fble", "Core/Bool.fble", "Core/Maybe.fble", "Core/List.fble", "Core/Monad.fble", "Core/Eq.fble", "Core/Unit/Unit.fble", "Core/Bool/Bool.fble", "Core/Maybe/Maybe.fble", "Core/Eq/Eq.fble", "Core/Monad/Monad.fble", "Core/List/List.fble",
  "Core/Bool/Ops.fble", "Core/Ord.fble", "Core/Ord/Ord.fble", "Core/Show.fble", "Core/List/Ops.fble", "Core/Bool/Bools.fble", "Core/Bool/Eq.fble", "Core/Bool/Show.fble", "Core/Bool/Ord.fble"};
static bool damaged;
static void make_modules(void) {
  damaged = false; pkg_exists = false;
  if (nreal > 0 && sim_p(1, 6)) {
    for (int i = 0; i < nreal; ++i) { char p[400]; snprintf(p, sizeof p, "/sim/prog/%s", real_files[i][0]); vfs_put(p, real_files[i][1], strlen(real_files[i][1])); }
    snprintf(moddir, sizeof moddir, "/sim/prog"); snprintf(modname, sizeof modname, "%s", RealMods[sim_u(sizeof RealMods / sizeof *RealMods)]);
    sim_probe("library-modules");
  } else {
    gen_program(); print_program();
    snprintf(moddir, sizeof moddir, "%s", dirname_); snprintf(modname, sizeof modname, "/Main%%");
    if (sim_p(1, 5)) {  // one of the other modules
      int m = (int)sim_u((uint64_t)nmods); Buf b = {0}; buf_printf(&b, "/"); pword(&b, mods[m].name); buf_printf(&b, "%%");
      if (b.len < sizeof modname) strcpy(modname, b.data); buf_free(&b);
    }
  }
  if (sim_p(1, 4)) {
    damaged = true; sim_fault("damaged-source");
    VFile* all[600]; int n = 0; for (VFile* f = vfs_first(); f && n < 600; f = f->next) if (f->len && strstr(f->path, ".fble")) all[n++] = f;
    VFile* f = all[sim_u((uint64_t)n)];
    switch (sim_u(4)) {
      case 0: f->len = (size_t)sim_u(f->len); f->data[f->len] = 0; break;
      case 1: f->data[sim_u(f->len)] = ";(){}@%.,=?:+x\x80"[sim_u(15)]; break;
      case 2: { size_t a = (size_t)sim_u(f->len), k = 1 + (size_t)sim_u(20); if (a + k > f->len) k = f->len - a; memmove(f->data + a, f->data + a + k, f->len - a - k); f->len -= k; f->data[f->len] = 0; break; }
      default: f->exists = false; break;
    }
  }
}

// ---- library reference ----------------------------------------------------------------------
// What the tool is to write, from the library alone, on a healthy disk.
static bool reference(int tool, Opts* o, char** text, size_t* len) {
  *text = NULL; *len = 0;
  vfs_std(true, true, true);
  FILE* f = open_memstream(text, len); bool ok = true;
  FbleModulePath* mp = FbleParseModulePath(o->module); if (!mp) sim_broken("module path %s", o->module);
  FbleSearchPath* sp = FbleNewSearchPath(); for (int i = 0; i < o->ndirs; ++i) FbleAppendToSearchPath(sp, o->dirs[i]);
  bool c = o->target && !strcmp(o->target, "c");
  if (tool == T_DEPS) {
    FbleStringV deps; FbleInitVector(deps);
    FbleLoadedProgram* p = FbleLoad(sp, mp, &deps); ok = p != NULL; FbleFreeLoadedProgram(p);
    FbleSaveBuildDeps(f, o->target, deps);
    for (size_t i = 0; i < deps.size; ++i) FbleFreeString(deps.xs[i]);
    FbleFreeVector(deps);
  } else {
    if (o->exp) { if (c) FbleGenerateCExport(f, o->exp, mp); else FbleGenerateAArch64Export(f, o->exp, mp); }
    if (o->main_) { if (c) FbleGenerateCMain(f, o->main_, mp); else FbleGenerateAArch64Main(f, o->main_, mp); }
    if (o->compile || tool == T_DISASM) {
      FbleLoadedProgram* p = FbleLoad(sp, mp, NULL); FbleCompiledModule* m = p ? FbleCompileModule(p) : NULL; FbleFreeLoadedProgram(p);
      ok = m != NULL;
      if (m) {
        if (tool == T_DISASM) FbleDisassemble(f, m);
        else { FbleFreeModulePath(m->path); m->path = FbleCopyModulePath(mp); if (c) FbleGenerateC(f, m); else FbleGenerateAArch64(f, m); }
        FbleFreeCompiledModule(m);
      }
    }
  }
  fclose(f); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  return ok;
}
// The generated text is accepted by the compiler or assembler it is made for.
static void accepted(const char* text, size_t len, bool c) {
  const char* tmp = sim_tmp; const char* repo = sim_repo;
  char src[400], obj[400], log[400], inc[400];
  snprintf(src, sizeof src, "%s/t%d.%s", tmp, (int)getpid(), c ? "c" : "s"); snprintf(obj, sizeof obj, "%s/t%d.o", tmp, (int)getpid()); snprintf(log, sizeof log, "%s/t%d.log", tmp, (int)getpid()); snprintf(inc, sizeof inc, "-I%s/include", repo);
  int fd = open(src, O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd < 0) sim_broken("cannot write %s", src);
  for (size_t i = 0; i < len; ) { ssize_t k = write(fd, text + i, len - i); if (k <= 0) sim_broken("cannot write %s", src); i += (size_t)k; }
  close(fd);
  const char* cc[] = {"gcc", "-std=c99", "-w", "-Werror=implicit-function-declaration", "-fsyntax-only", inc, src, NULL};
  const char* as[] = {"clang", "--target=aarch64-linux-gnu", "-c", src, "-o", obj, NULL};
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, log, O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t pid; int st = 0;
  if (posix_spawnp(&pid, c ? "gcc" : "clang", &fa, NULL, (char**)(c ? cc : as), environ)) sim_broken("cannot run the compiler");
  posix_spawn_file_actions_destroy(&fa);
  while (waitpid(pid, &st, 0) != pid) {}
  char msg[500] = ""; fd = open(log, O_RDONLY); if (fd >= 0) { ssize_t k = read(fd, msg, sizeof msg - 1); if (k < 0) k = 0; msg[k] = 0; close(fd); }
  unlink(src); unlink(obj); unlink(log);
  SIM_CHECK(st == 0, "generated-code", "%s: the %s is not accepted: %s", arg_text(), c ? "generated C" : "generated assembly", msg);
  sim_probe(c ? "generated-c-accepted" : "generated-assembly-accepted");
}

static char opened[300][300]; static int nopened;
static void on_event(const char* what, VFile* f) { if (!strcmp(what, "open") && f->path[0] != '<' && nopened < 300) snprintf(opened[nopened++], 300, "%s", f->path); }
// A depfile lists exactly the files that were read.
static void check_depfile(const char* text, const char* target, bool exact) {
  // A newline in a file name cannot be written in a depfile.
  for (VFile* f = vfs_first(); f; f = f->next) if (strchr(f->path, '\n')) return;
  static char words[400][2300]; int n = 0; size_t k = 0; bool in = false;
  for (const char* s = text; *s; ++s) {
    if (s[0] == '\\' && s[1] == '\n') { ++s; if (in) { words[n++][k] = 0; in = false; } continue; }
    if (*s == ' ' || *s == '\n') { if (in) { words[n++][k] = 0; in = false; } continue; }
    if (!in) { k = 0; in = true; if (n >= 399) return; }
    if (s[0] == '\\' && s[1] && strchr(" #:\\\t", s[1])) ++s; else if (s[0] == '$' && s[1] == '$') ++s;
    if (k < 2298) words[n][k++] = *s;
  }
  SIM_CHECK(!in, "depfile", "%s: the depfile has no final newline", arg_text());
  char t[2310]; snprintf(t, sizeof t, "%s:", target);
  SIM_CHECK(n >= 1 && !strcmp(words[0], t), "depfile", "%s: the depfile is not for '%s'", arg_text(), target);
  for (int i = 1; i < n; ++i) { VFile* f = vfs_get(words[i]); SIM_CHECK(f, "depfile", "%s: the depfile lists '%s', which never existed", arg_text(), words[i]); }
  if (!exact) return;
  for (int i = 0; i < nopened; ++i) { int hits = 0; for (int j = 1; j < n; ++j) hits += vfs_same(words[j], opened[i]); SIM_CHECK(hits == 1, "depfile", "%s: '%s' was read, and is listed %d times", arg_text(), opened[i], hits); }
  for (int j = 1; j < n; ++j) { bool hit = false; for (int i = 0; i < nopened; ++i) hit = hit || vfs_same(words[j], opened[i]); SIM_CHECK(hit, "depfile", "%s: '%s' is listed and was not read", arg_text(), words[j]); }
}

// ---- C13 ---------------------------------------------------------------------------------------
static void gen_args(int tool, bool one_dir) {
  nargs = 0; arg(ToolNames[tool]);
  char q[2200]; int drop = sim_p(1, 8) ? (int)sim_u(6) : -1; 
  int order = (int)sim_u(3);
  for (int r = 0; r < 3; ++r) switch ((r + order) % 3) {
    case 0:
      if (drop != 0) switch (sim_u(one_dir || !pkg_exists ? 2 : 4)) {
        case 0: arg("-I"); arg(moddir); break;
        case 1: snprintf(q, sizeof q, "-I%s", moddir); arg(q); break;
        default: arg(sim_p(1, 2) ? "-p" : "--package"); arg("pk"); break;
      }
      if (!one_dir && sim_p(1, 4)) { arg("-I"); arg("/sim/none"); }
      if (!one_dir && sim_p(1, 12)) { arg("-I"); arg(""); }
      break;
    case 1: if (drop != 1) { arg(sim_p(1, 2) ? "-m" : "--module"); arg(sim_p(1, 25) ? "/No/Such%" : modname); } break;
    default:
      if (tool == T_COMPILE) {
        if (drop != 2) { arg(sim_p(1, 2) ? "-t" : "--target"); arg(sim_p(1, 30) ? "x86" : sim_p(1, 2) ? "c" : "aarch64"); }
        unsigned w = drop == 3 ? 0 : sim_p(1, 3) ? 1 + (unsigned)sim_u(7) : 1;
        if (w & 2) { arg(sim_p(1, 2) ? "-e" : "--export"); arg(sim_p(1, 2) ? "Exported" : "x"); }
        if (w & 4) { arg("--main"); arg("FbleStdioMain"); }
        if (w & 1) arg(sim_p(1, 2) ? "-c" : "--compile");
      }
      if (tool == T_DEPS && drop != 2) {
        arg(sim_p(1, 2) ? "-t" : "--target");
        if (sim_p(1, 15)) { memset(q, 'x', sizeof q); q[100 + sim_u(1000)] = 0; arg(q); } else arg(sim_p(1, 6) ? "dir/some file.d" : "out/x.d");
      }
  }
  if (tool == T_PERF) { nargs = 1; args[1] = NULL; while (sim_p(1, 3)) { arg("-s"); arg("f1"); } }
  // Wrong or additional arguments.
  if (sim_p(1, 8)) {
    switch (sim_u(8)) {
      case 0: arg("--help"); break;
      case 1: arg("-v"); break;
      case 2: arg("--bogus"); break;
      case 3: arg("stray"); break;
      case 4: arg(tool == T_PERF ? "-s" : "-m"); break;
      case 5: if (tool == T_PERF) arg("-x"); else { arg("-m"); arg("/Main%"); } break;
      case 6: if (tool == T_PERF) arg(""); else { arg("-m"); arg("Main%"); } break;
      default: if (tool == T_PERF) arg("-I"); else { arg("-p"); arg("nopack"); } break;
    }
    if (sim_p(1, 3)) arg("-h");
  }
}
static const char* perf_in; static size_t perf_in_len;
static void gen_small_perf(Buf* b) {
  buf_printf(b, "   100.00%%     0.00%%  cmd  exe  [.] _start\n");
  int n = (int)sim_u(60); while (n-- > 0) { buf_printf(b, "%d ", 1 + (int)sim_u(90)); int d = 1 + (int)sim_u(6); for (int i = 0; i < d; ++i) buf_printf(b, "%sf%d", i ? ";" : "", (int)sim_u(12)); buf_printf(b, "\n"); }
  if (sim_p(1, 2)) buf_printf(b, "    100.00%%   main\n");
}
static void run_c13(void) {
  vfs_reset(); arena_reset(); sim_heap_default(); sim_getenv_hook = a_env; vfs_root_readonly = false;
  static const unsigned tw[] = {5, 3, 3, 2};
  int tool = (int)sim_weighted(4, tw);
  Buf in = {0};
  if (tool == T_PERF) gen_small_perf(&in);
  else make_modules();
  bool one_dir = sim_p(1, 2);
  if (tool != T_PERF && !one_dir) {
    pkg_exists = true;
    VFile* all[600]; int n = 0; for (VFile* f = vfs_first(); f && n < 600; f = f->next) if (strstr(f->path, ".fble") && f->exists && strlen(f->path) > strlen(moddir)) all[n++] = f;
    for (int i = 0; i < n; ++i) { char p[600]; snprintf(p, sizeof p, "/sim/share/fble/pk%s", all[i]->path + strlen(moddir)); vfs_put(p, all[i]->data, all[i]->len); }
  }
  gen_args(tool, one_dir);
  Opts o = model_args(tool);
  sim_evs("args", arg_text());
  char* want = NULL; size_t wn = 0; bool loads = true;
  bool plain_run = !o.error && !o.help && !o.version;
  if (plain_run) {
    if (tool != T_PERF) loads = reference(tool, &o, &want, &wn);
  }
  // A healthy run; reads and writes may be split.
  bool sr = sim_p(1, 2), sw = sim_p(1, 2);
  if (sr) for (VFile* f = vfs_first(); f; f = f->next) f->short_reads = true;
  nopened = 0; vfs_on_event = on_event;
  Outcome r = run_tool(tool, in.data, in.len, -1, sw, -1, sr);
  vfs_on_event = NULL;
  bool needs_load = tool == T_DISASM || o.compile;
  if (o.error) SIM_CHECK(r.st == 2, "usage", "%s exits with %d, not with the status of a usage error", arg_text(), r.st);
  else if (o.help || o.version) { SIM_CHECK(r.st == 0 && r.out.len > 0, "usage", "%s exits with %d and %zu bytes of output", arg_text(), r.st, r.out.len); SIM_CHECK(strstr(r.out.data, o.help ? "usage" : ToolNames[tool]), "usage", "%s prints %.60s", arg_text(), r.out.data); }
  else if (tool == T_PERF) { SIM_CHECK(r.st == 0, "status", "%s exits with %d on good samples", arg_text(), r.st); want = malloc(r.out.len + 1); memcpy(want, r.out.data ? r.out.data : "", r.out.len); wn = r.out.len; }
  else if (needs_load && !loads) { SIM_CHECK(r.st == 1, "status", "%s exits with %d although the module cannot be loaded", arg_text(), r.st); sim_probe("load-failure"); }
  else if (tool == T_DEPS && !loads) { SIM_CHECK(r.st <= 1, "status", "%s exits with %d", arg_text(), r.st); if (r.st == 0) { check_depfile(r.out.data, o.target, false); sim_probe("deps-of-broken-module"); } }
  else {
    SIM_CHECK(r.st == 0, "status", "%s exits with %d on a good module", arg_text(), r.st);
    same_output("healthy run", &r, want, wn);
    if (tool == T_DEPS) check_depfile(r.out.data, o.target, true);
    if (tool == T_COMPILE) {
      bool c = o.target && !strcmp(o.target, "c");
      if (o.exp) SIM_CHECK(strstr(r.out.data, o.exp), "wrong-output", "%s: %s is not exported", arg_text(), o.exp);
      if (o.main_) SIM_CHECK(strstr(r.out.data, o.main_) && strstr(r.out.data, "main"), "wrong-output", "%s: %s is not called", arg_text(), o.main_);
      if (sim_p(1, sim_thorough ? 10 : 25)) accepted(r.out.data, r.out.len, c);
    }
    sim_nontrivial();
  }
  int st0 = r.st; size_t olen = r.out.len; Buf keep = r.out; 
  // Runs with faults.
  int rounds = 1 + (int)sim_u(4);
  bool outs = st0 == 0;   // a healthy run succeeds and delivers `keep`
  for (int k = 0; k < rounds; ++k) {
    sim_step();
    long wl = -1, ie = -1; bool infault = false;
    if (sim_p(2, 3)) { wl = sim_p(1, 3) ? (olen ? (long)olen - 1 - (long)sim_u(olen < 8 ? olen : 8) : 0) : (long)sim_u(olen + 1); }
    VFile* hurt = NULL;
    if (tool != T_PERF && plain_run && one_dir && sim_p(1, 3)) {
      VFile* all[600]; int n = 0; for (VFile* f = vfs_first(); f && n < 600; f = f->next) if (f->exists && strstr(f->path, ".fble")) all[n++] = f;
      hurt = n ? all[sim_u((uint64_t)n)] : NULL;
      if (hurt) switch (sim_u(4)) {
        case 0: hurt->read_err_at = sim_p(1, 4) ? (long)hurt->len : (long)sim_u(hurt->len + 1); break;
        case 1: hurt->unreadable = true; break;
        case 2: hurt->vanish_after = 1; hurt->accesses = 0; break;
        default: hurt->read_err_at = (long)sim_u(hurt->len + 1); hurt->short_reads = true; break;
      }
      infault = hurt != NULL;
      if (hurt) { hurt->hit_read_err = hurt->hit_open_err = false; }
    }
    if (tool == T_PERF && plain_run && sim_p(1, 3)) { ie = (long)sim_u(in.len + 1); infault = true; }
    Outcome f = run_tool(tool, in.data, in.len, wl, sim_p(1, 2), ie, sim_p(1, 2));
    bool hit = false;
    if (tool == T_PERF) hit = vfs_stdin()->hit_read_err;
    else if (hurt) hit = hurt->hit_read_err || hurt->hit_open_err || !hurt->exists;
    if (outs && !hit && !f.werr) { SIM_CHECK(f.st == 0 || infault, "status", "%s exits with %d without a fault that explains it", arg_text(), f.st); }
    if (f.st == 0 && outs) {
      if (tool == T_DEPS && hit) check_depfile(f.out.data, o.target, false);
      else {
        if (hit && (tool != T_COMPILE || o.compile)) SIM_CHECK(!hurt ? ie < 0 : false, "input-lost", "%s exits with success although its input could not be read (%s)", arg_text(), hurt ? hurt->path : "standard input");
        same_output("run with faults", &f, keep.data ? keep.data : "", keep.len);
      }
    }
    if (!outs && !f.werr && !hit && !infault) SIM_CHECK(f.st == st0, "status", "%s exits with %d, and before with %d", arg_text(), f.st, st0);
    if (f.werr) sim_probe("output-fault-reported");
    if (hit) sim_probe("input-fault");
    if (hurt) { hurt->read_err_at = -1; hurt->unreadable = false; hurt->vanish_after = 0; hurt->exists = true; }
    out_free(&f);
  }
  sim_state(sim_hash(ToolNames[tool], 6, (uint64_t)(st0 * 64 + (o.exp != NULL) * 32 + (o.main_ != NULL) * 16 + o.compile * 8 + o.help * 4 + o.version * 2 + loads)));
  sim_sample("%s: status %d, %zu bytes", arg_text(), st0, olen);
  buf_free(&keep); free(want); buf_free(&in); vfs_reset();
}

#include "cli_perf.h"

const SimScenario sim_scenarios[] = {
  {"C13", run_c13, 12000, 150000, 60},
  {"C14", run_c14, 60000, 1000000, 300},
  {NULL, NULL, 0, 0, 0},
};
void sim_harness_init(void) {
  FbleDefaultPackagePath = "/sim/share/fble";
  const char* root = getenv("SIM_REPO"); if (!root) root = "/repo";
  const char* tmp = getenv("SIM_TMP");
  snprintf(sim_repo, sizeof sim_repo, "%s", root); snprintf(sim_tmp, sizeof sim_tmp, "%s", tmp ? tmp : "/tmp");
  for (size_t i = 0; i < sizeof RealFiles / sizeof *RealFiles; ++i) slurp(root, RealFiles[i]);
}
