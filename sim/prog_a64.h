// The AArch64 back end: generated code is assembled and runs on a simulated
// processor. Its output is compared with the interpreter's for the same run.
#include "a64.h"
static uint64_t a64_text_bytes, a64_total_insns, a64_total_calls;
static bool assemble(const char* src, const char* obj, char* msg, size_t nmsg) {
  static char a0[] = "llvm-mc", a1[] = "-triple=aarch64-linux-gnu", a2[] = "-filetype=obj", a3[] = "-o";
  char* argv[] = {a0, a1, a2, (char*)src, a3, (char*)obj, NULL};
  char log[320]; snprintf(log, sizeof log, "%s/p%d.log", getenv("SIM_TMP"), (int)getpid());
  posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
  posix_spawn_file_actions_addopen(&fa, 1, log, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  posix_spawn_file_actions_adddup2(&fa, 1, 2);
  pid_t pid; int st = 0;
  if (posix_spawnp(&pid, a0, &fa, NULL, argv, environ)) sim_broken("cannot run llvm-mc");
  posix_spawn_file_actions_destroy(&fa);
  while (waitpid(pid, &st, 0) != pid) {}
  msg[0] = 0;
  if (st != 0) { int fd = open(log, O_RDONLY); if (fd >= 0) { ssize_t k = read(fd, msg, nmsg - 1); if (k < 0) k = 0; msg[k] = 0; close(fd); } }
  unlink(log);
  return st == 0;
}
static A64Obj read_obj(const char* path) {
  A64Obj o = {0}; int fd = open(path, O_RDONLY); struct stat sb;
  if (fd < 0 || fstat(fd, &sb)) sim_broken("cannot read %s", path);
  o.n = (size_t)sb.st_size; o.d = malloc(o.n + 1);
  for (size_t k = 0; k < o.n; ) { ssize_t r = read(fd, o.d + k, o.n - k); if (r <= 0) sim_broken("cannot read %s", path); k += (size_t)r; }
  close(fd); unlink(path);
  return o;
}
// Places and relocates all modules. Returns the main module.
static FbleGeneratedModule* a64_build(FbleCompiledProgram* cp, FbleModulePath* mp) {
  A64Obj objs[40]; int n = 0;
  a64_reset();
  for (size_t i = 0; i <= cp->modules.size; ++i) {
    char* text = NULL; size_t len = 0; FILE* f = open_memstream(&text, &len);
    if (i < cp->modules.size) FbleGenerateAArch64(f, cp->modules.xs[i]);
    else { FbleGenerateAArch64Export(f, "sim_exported_module", mp); FbleGenerateAArch64Main(f, "sim_main_function", mp); }
    fclose(f);
    char src[300], obj[300], msg[600];
    snprintf(src, sizeof src, "%s/p%d.s", getenv("SIM_TMP"), (int)getpid()); snprintf(obj, sizeof obj, "%s/p%d.o", getenv("SIM_TMP"), (int)getpid());
    write_real(src, text, len); free(text);
    bool ok = assemble(src, obj, msg, sizeof msg);
    unlink(src);
    if (!ok) { unlink(obj); sim_fail("generated-code", "the generated code does not assemble: %s", msg); }
    objs[n] = read_obj(obj); a64_text_bytes += len;
    a64_place(&objs[n++]);
  }
  for (int i = 0; i < n; ++i) a64_relocate(&objs[i]);
  for (int i = 0; i < n; ++i) { free(objs[i].d); free(objs[i].at); }
  uint64_t m = a64_lookup("sim_exported_module");
  if (!m) sim_fail("generated-code", "the exported module is missing");
  return *(FbleGeneratedModule**)m;
}
static int main_calls; static void* main_got[3];
int sim_main_function(int argc, const char** argv, FbleGeneratedModule* m);
int sim_main_function(int argc, const char** argv, FbleGeneratedModule* m) { main_calls++; main_got[0] = (void*)(uintptr_t)argc; main_got[1] = (void*)argv; main_got[2] = m; return 40 + argc; }
static bool compile_program(void) {
  size_t e0 = err_len();
  FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, dirname_);
  FbleModulePath* mp = FbleParseModulePath("/Main%");
  FbleLoadedProgram* lp = FbleLoad(sp, mp, NULL);
  if (!lp) sim_fail("rejected", "a program that ran cannot be loaded for compilation: %s", tail_err(e0));
  FbleCompiledProgram* cp = FbleCompileProgram(lp);
  FbleFreeLoadedProgram(lp);
  if (!cp) sim_fail("rejected", "a program that ran cannot be compiled: %s", tail_err(e0));
  so_module = a64_build(cp, mp);
  FbleFreeCompiledProgram(cp); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  if (a64_full) { sim_probe("too-many-functions"); return false; }
  // The generated main function passes everything on and returns the result.
  if (sim_p(1, 8)) {
    int argc = 1 + (int)sim_u(5); static const char* av[] = {"prog", "a", "b", "c", "d", NULL};
    main_calls = 0;
    uint64_t r = a64_exec(a64_lookup("main"), (uint64_t)argc, (uint64_t)av, 0, 0);
    if (main_calls != 1 || main_got[0] != (void*)(uintptr_t)argc || main_got[1] != (void*)av || main_got[2] != (void*)so_module || (int)r != 40 + argc)
      sim_fail("generated-main", "the generated main function does not pass on its arguments and result");
    sim_probe("generated-main");
  }
  return true;
}
static FbleValue* link_compiled(void) {
  FbleSearchPath* sp = FbleNewSearchPath();
  ncompiled++; sim_probe("aarch64-run");
  FbleValue* v = FbleLink(heap, prof, so_module, sp, NULL);
  FbleFreeSearchPath(sp); return v;
}
static void unload_compiled(void) { a64_total_insns += a64_insns; a64_total_calls += a64_calls; }
