// Simulated module loading: random module trees spread over search path
// directories and packages of a simulated disk are loaded by the real loader
// and parser; a model of the tree decides what each load must produce.
#include "sim.h"
#include <fble/fble-alloc.h>
#include <fble/fble-arg-parse.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include <dirent.h>
#include <errno.h>

const char* FbleBuildStamp = "sim";
extern const char* FbleDefaultPackagePath;

#define MAXM 12
#define MAXD 6
typedef struct { int nseg; const char* seg[4]; } Name;
typedef struct {
  bool exists, syntax_bad, type_bad; int ndep, dep[8], use[8]; // use: 0 ignored, 1 part of the value
  int tag; VFile* f; char path[512];
} Ver;
typedef struct { Name name; Ver v[MAXD]; bool never; } Mod;
static Mod mods[MAXM]; static int nmods;
static char dirs[MAXD][128]; static int ndirs;
typedef struct { char path[512]; char ver[8]; } Opened;
static struct { char path[512]; bool close; } opened[256]; static int nopened;
static int resolved[MAXM];
static int reach[MAXM], nreach;
static uint64_t open_fail_at, open_seq;
static bool open_fault_hit;

static const char* Segs[] = {"A", "B", "Foo", "x1", "Bar", "a b", "it's", "d$", "h#sh", "long-name", "Un\xc3\xafx", "Q\"q", "p%", "C"};
static const char* Packs[] = {"core", "pk1", "q"};

static void name_path(const Name* n, char* o) { o[0] = 0; for (int i = 0; i < n->nseg; ++i) { strcat(o, "/"); strcat(o, n->seg[i]); } strcat(o, ".fble"); }
static bool plain(const char* s) { for (; *s; ++s) if (strchr(" \t\n'#(){}[];,:?=.<>+*-!$@~&|%/^", *s)) return false; return true; }
static void name_ref(const Name* n, Buf* b) {
  for (int i = 0; i < n->nseg; ++i) {
    buf_printf(b, "/");
    if (plain(n->seg[i])) { buf_printf(b, "%s", n->seg[i]); continue; }
    buf_printf(b, "'");
    for (const char* c = n->seg[i]; *c; ++c) { if (*c == '\'') buf_printf(b, "''"); else buf_add(b, c, 1); }
    buf_printf(b, "'");
  }
  buf_printf(b, "%%");
}
static bool name_eq(const Name* a, FbleModulePath* p) {
  if ((size_t)a->nseg != p->path.size) return false;
  for (int i = 0; i < a->nseg; ++i) if (strcmp(a->seg[i], p->path.xs[i].name->str)) return false;
  return true;
}
static int find_mod(FbleModulePath* p) { for (int i = 0; i < nmods; ++i) if (name_eq(&mods[i].name, p)) return i; return -1; }

static void padding(Buf* b) {
  size_t n = sim_u(4) == 0 ? sim_u(6) : 0;
  while (n--) {
    size_t len = sim_u(8) == 0 ? sim_u(5000) : sim_u(60);
    buf_printf(b, "#");
    for (size_t i = 0; i < len; ++i) buf_add(b, "c /A%(' \"x\x80\xff{]"+ (i * 7 + n) % 15, 1);
    buf_printf(b, "\n");
  }
}
// The source text of a version. Its value is a struct whose first field is
// the version's tag and whose other fields are the values of used modules.
static void gen_source(Mod* m, Ver* v, Buf* b) {
  (void)m;
  padding(b);
  buf_printf(b, "@ Unit@ = *();\n@ Tag@ = +(");
  for (int i = 0; i < 16; ++i) buf_printf(b, "%sUnit@ t%d", i ? ", " : "", i);
  buf_printf(b, ");\n");
  padding(b);
  for (int i = 0; i < v->ndep; ++i) if (!v->use[i]) {
    switch ((v->tag + i) % 3) {
      case 0: buf_printf(b, "@<"); name_ref(&mods[v->dep[i]].name, b); buf_printf(b, "> _u%d = ", i); name_ref(&mods[v->dep[i]].name, b); buf_printf(b, ";\n"); break;
      case 1: buf_printf(b, "@ _T%d@ = @<", i); name_ref(&mods[v->dep[i]].name, b); buf_printf(b, ">;\n"); break;
      default: buf_printf(b, "(Unit@) { @<"); name_ref(&mods[v->dep[i]].name, b); buf_printf(b, ">; } _f%d = (Unit@ _) {\n  ", i); name_ref(&mods[v->dep[i]].name, b); buf_printf(b, ";\n};\n"); break;
    }
  }
  padding(b);
  if (v->type_bad) buf_printf(b, "Tag@ z = nosuchvariable;\n");
  buf_printf(b, "@(tag: Tag@(t%d: Unit@()), ver: Tag@(t%d: Unit@())", v->tag & 15, v->tag >> 4);
  for (int i = 0; i < v->ndep; ++i) if (v->use[i]) { buf_printf(b, ",\n  d%d: ", i); name_ref(&mods[v->dep[i]].name, b); }
  if (v->syntax_bad) {
    switch (sim_u(9)) {
      case 4: buf_printf(b, ");\n)"); break;         // an error after the last statement
      case 5: buf_printf(b, ");\n@ X@ = Unit@;"); break;
      case 6: buf_printf(b, ");"); buf_add(b, "\0 ) ", 4); break;
      case 7: buf_printf(b, ", "); buf_add(b, "'x\0y'", 5); buf_printf(b, ": Unit@());"); break;
      case 8: buf_printf(b, ", "); buf_add(b, "x\0y", 3); buf_printf(b, ": Unit@());"); break;
      case 0: buf_printf(b, ";"); break;              // missing )
      case 1: buf_printf(b, "));"); break;
      case 2: buf_printf(b, ")"); break;              // missing ;
      default: buf_printf(b, "); @( x: ;"); break;
    }
  } else buf_printf(b, ");");
  if (sim_u(2)) buf_printf(b, "\n");
  padding(b);
}

// ---- model --------------------------------------------------------------------
static int resolve(int m) {
  for (int i = 0; i < mods[m].name.nseg; ++i) if (strchr(mods[m].name.seg[i], '/')) return -1;
  for (int d = 0; d < ndirs; ++d) {
    // The same directory may be listed twice.
    for (int e = 0; e < d; ++e) if (vfs_same(dirs[e], dirs[d])) goto next;
    if (mods[m].v[d].exists) return d;
    next:;
  }
  return -1;
}
typedef enum { GOOD, MUST_FAIL, MAY_FAIL } Want;
static bool has_cycle;
static int color[MAXM];
static void visit(int m) {
  color[m] = 1;
  reach[nreach++] = m;
  int d = resolve(m); resolved[m] = d;
  if (d >= 0 && !mods[m].v[d].syntax_bad) {
    Ver* v = &mods[m].v[d];
    for (int i = 0; i < v->ndep; ++i) {
      if (color[v->dep[i]] == 1) has_cycle = true;
      else if (!color[v->dep[i]]) visit(v->dep[i]);
    }
  }
  color[m] = 2;
}
static Want plan(void) {
  nreach = 0; has_cycle = false; memset(color, 0, sizeof color);
  visit(0);
  Want w = GOOD;
  if (has_cycle) w = MUST_FAIL;
  for (int i = 0; i < nreach; ++i) {
    int m = reach[i], d = resolved[m];
    if (d < 0 || mods[m].v[d].syntax_bad) { w = MUST_FAIL; continue; }
    VFile* f = mods[m].v[d].f;
    if (f->unreadable) w = MUST_FAIL;
    if (f->read_err_at >= 0 && (size_t)f->read_err_at <= f->len) { if (!f->read_err_transient) w = MUST_FAIL; else if (w == GOOD) w = MAY_FAIL; }
    if (f->vanish_after && w == GOOD) w = MAY_FAIL;
  }
  return w;
}
static bool type_bad(void) { for (int i = 0; i < nreach; ++i) if (mods[reach[i]].v[resolved[reach[i]]].type_bad) return true; return false; }

// ---- checks -----------------------------------------------------------------------
static void on_event(const char* what, VFile* f) {
  if (!strcmp(what, "open") && f->path[0] != '<') { if (nopened < 256) strcpy(opened[nopened++].path, f->path); sim_evs("open", f->path); }
  else if (!strcmp(what, "openfail")) sim_evs("openfail", vfs_ev_path);
}
static int open_fault(const char* path, bool wr) {
  (void)path;
  if (wr) return 0;
  if (++open_seq == open_fail_at) { open_fault_hit = true; static const int es[] = {EMFILE, EIO, EINTR, ENOMEM}; return es[open_fail_at % 4]; }
  return 0;
}
static size_t err_len(void) { return vfs_stderr() ? vfs_stderr()->len : 0; }
static bool err_has(size_t from, const char* what) { return strstr(vfs_stderr()->data + from, what) != NULL; }
static const char* err_from(size_t from) { fflush(stderr); return vfs_stderr()->data + from; }

static long nodes;
static void check_value(FbleValue* v, int m) {
  nodes++;
  Ver* ver = &mods[m].v[resolved[m]];
  SIM_CHECK(v != NULL, "wrong-program", "module value missing");
  size_t lo = FbleUnionValueTag(FbleStructValueField(v, 0)), hi = FbleUnionValueTag(FbleStructValueField(v, 1));
  SIM_CHECK((int)(lo + hi * 16) == ver->tag, "wrong-program", "module from %s expected, but the program has tag %zu instead of %d", ver->path, lo + hi * 16, ver->tag);
  int k = 2;
  for (int i = 0; i < ver->ndep; ++i) if (ver->use[i]) check_value(FbleStructValueField(v, (size_t)k++), ver->dep[i]);
}
static void free_deps(FbleStringV v) { for (size_t i = 0; i < v.size; ++i) FbleFreeString(v.xs[i]); FbleFreeVector(v); }
static Ver* ver_by_path(const char* p) {
  VFile* f = vfs_get(p);
  for (int i = 0; i < nmods; ++i) for (int d = 0; d < ndirs; ++d) if (f && mods[i].v[d].f == f) return &mods[i].v[d];
  return NULL;
}

// Reads a depfile the way make and ninja do.
static int parse_depfile(const char* s, char* target, char out[][512], int max) {
  int n = -1; char w[600]; size_t k = 0; bool have = false;
  while (true) {
    char c = *s;
    bool brk = false;
    if (c == 0) brk = true;
    else if (c == '\\' && s[1] == '\n') { brk = true; s += 2; }
    else if (c == '\\' && (s[1] == ' ' || s[1] == '#' || s[1] == '\\' || s[1] == ':')) { w[k++] = s[1]; have = true; s += 2; }
    else if (c == '$' && s[1] == '$') { w[k++] = '$'; have = true; s += 2; }
    else if (c == '$' || c == '#') return -2;
    else if (c == ' ' || c == '\t' || c == '\n') { brk = true; ++s; }
    else if (c == ':' && n < 0 && (s[1] == ' ' || s[1] == '\n')) { w[k] = 0; strcpy(target, w); k = 0; have = false; n = 0; ++s; continue; }
    else { w[k++] = c; have = true; ++s; }
    if (k > 510) return -3;
    if (brk && have) {
      w[k] = 0;
      if (n < 0) { strcpy(target, w); }
      else { if (n >= max) return -4; strcpy(out[n++], w); }
      k = 0; have = false;
    }
    if (c == 0) return n;
  }
}

enum { M_WHOLE, M_DEPS };
static int mode;

static void check_program(FbleLoadedProgram* p, bool deps_checked) {
  (void)deps_checked;
  SIM_CHECK(p->modules.size == (size_t)nreach, "module-set", "%zu modules loaded, %d expected", p->modules.size, nreach);
  bool seen[MAXM] = {0};
  for (size_t i = 0; i < p->modules.size; ++i) {
    int m = find_mod(p->modules.xs[i].path);
    SIM_CHECK(m >= 0 && color[m], "module-set", "unexpected module loaded");
    SIM_CHECK(!seen[m], "module-twice", "module loaded twice");
    seen[m] = true;
    SIM_CHECK(p->modules.xs[i].value != NULL, "module-empty", "module without an expression in a loaded program");
    Ver* v = &mods[m].v[resolved[m]];
    FbleModulePathV d = p->modules.xs[i].deps;
    SIM_CHECK(d.size == (size_t)v->ndep, "module-deps", "%s has %zu dependencies, %d expected", v->path, d.size, v->ndep);
    bool got[8] = {0};
    for (size_t j = 0; j < d.size; ++j) {
      int dm = find_mod(d.xs[j]);
      int at = -1;
      for (int q = 0; q < v->ndep; ++q) if (v->dep[q] == dm) at = q;
      SIM_CHECK(at >= 0 && !got[at], "module-deps", "wrong dependency listed for %s", v->path);
      got[at] = true;
      SIM_CHECK(seen[dm], "module-order", "%s comes before a module it depends on", v->path);
    }
    if (i + 1 == p->modules.size) SIM_CHECK(m == 0, "module-order", "the main module is not last");
  }
}

static void one_load(FbleSearchPath* sp, FbleModulePath* mp, Want want) {
  nopened = 0; open_fault_hit = false;
  for (VFile* f = vfs_first(); f; f = f->next) { f->accesses = 0; }
  size_t e0 = err_len();
  FbleStringV bd; FbleInitVector(bd);
  bool use_bd = mode == M_DEPS || sim_p(1, 2);
  FbleLoadedProgram* p = FbleLoad(sp, mp, use_bd ? &bd : NULL);
  if (open_fault_hit) want = MUST_FAIL;
  sim_note("want %d err %s", want, err_from(e0)); for (int i = 0; i < nreach; ++i) if (resolved[reach[i]] >= 0) { VFile* f = mods[reach[i]].v[resolved[reach[i]]].f; sim_note("  %s: len %zu read error at %ld%s hit %d unreadable %d vanish %u", f->path, f->len, f->read_err_at, f->read_err_transient ? " once" : "", f->hit_read_err, f->unreadable, f->vanish_after); }
  sim_ev("loaded", p != NULL, (int64_t)bd.size, nopened);
  sim_count(p ? "loads_ok" : "loads_failed", 1);
  SIM_CHECK(vfs_open_count() == 0, "file-left-open", "%u files left open by a load", vfs_open_count());
  if (want == GOOD && !p) sim_note_text(err_from(e0));
  SIM_CHECK(!(want == GOOD && !p), "good-program-refused", "loading failed without a fault: %s", err_from(e0));
  SIM_CHECK(!(want == MUST_FAIL && p), "bad-program-loaded", "loading succeeded although a module is %s", has_cycle ? "cyclic" : open_fault_hit ? "not openable" : "missing, unreadable, cut short or invalid");
  if (p) {
    check_program(p, use_bd);
    for (int i = 0; i < nopened; ++i) for (int j = 0; j < i; ++j) SIM_CHECK(strcmp(opened[i].path, opened[j].path) != 0, "read-twice", "%s was opened twice", opened[i].path);
    SIM_CHECK(nopened == nreach, "files-read", "%d files read for %d modules", nopened, nreach);
    for (int i = 0; i < nreach; ++i) {
      bool f = false;
      for (int j = 0; j < nopened; ++j) f |= mods[reach[i]].v[resolved[reach[i]]].f == vfs_get(opened[j].path);
      SIM_CHECK(f, "files-read", "%s was not read", mods[reach[i]].v[resolved[reach[i]]].path);
    }
  } else {
    SIM_CHECK(err_len() > e0, "no-error-message", "loading failed without an error message");
    for (int i = 0; i < nopened; ++i) for (int j = 0; j < i; ++j) SIM_CHECK(strcmp(opened[i].path, opened[j].path) != 0, "read-twice", "%s was opened twice", opened[i].path);
    for (int i = 0; i < nopened; ++i) {
      Ver* v = ver_by_path(opened[i].path);
      SIM_CHECK(v != NULL, "files-read", "a file of no module was read: %s", opened[i].path);
      for (int m = 0; m < nmods; ++m) for (int d = 0; d < ndirs; ++d) if (&mods[m].v[d] == v) SIM_CHECK(resolve(m) == d || mods[m].v[resolve(m) < 0 ? 0 : resolve(m)].f == v->f || v->f->vanish_after, "wrong-place", "%s was read although a directory before it has the module", opened[i].path);
    }
  }
  if (use_bd && mode == M_DEPS) {
    for (size_t i = 0; i < bd.size; ++i) {
      sim_evs("dep", bd.xs[i]->str);
      VFile* f = vfs_get(bd.xs[i]->str);
      SIM_CHECK(f != NULL && ver_by_path(bd.xs[i]->str), "dep-unknown", "build dependency %s is no file of the program", bd.xs[i]->str);
      for (size_t j = 0; j < i; ++j) SIM_CHECK(f != vfs_get(bd.xs[j]->str), "dep-twice", "build dependency %s listed twice", bd.xs[i]->str);
    }
    for (int i = 0; i < nopened; ++i) {
      bool f = false;
      for (size_t j = 0; j < bd.size; ++j) f |= vfs_get(bd.xs[j]->str) == vfs_get(opened[i].path);
      SIM_CHECK(f, "dep-missing", "%s was read but is no build dependency", opened[i].path);
    }
    if (p) SIM_CHECK(bd.size == (size_t)nreach, "dep-count", "%zu build dependencies for %d files", bd.size, nreach);
    // The depfile says the same.
    VFile* df = vfs_put("/out/prog.d", "", 0); df->short_writes = sim_p(1, 2);
    FILE* fo = fopen("/out/prog.d", "w");
    if (!fo) sim_broken("depfile");
    const char* targets[] = {"/out/prog.c", "build/a-much-longer-target-name/that-fills-most-of-the-first-line/prog.o", "x", "pro gram.o", "a$b.o"};
    const char* tg = targets[sim_u(5)];
    FbleSaveBuildDeps(fo, tg, bd);
    fclose(fo);
    char t[600] = ""; static char out[64][512];
    int n = parse_depfile(df->data, t, out, 64);
    SIM_CHECK(n == (int)bd.size, "depfile", "the depfile lists %d files instead of %zu:\n%s", n, bd.size, df->data);
    SIM_CHECK(!strcmp(t, tg), "depfile", "the depfile's target is \"%s\" instead of \"%s\"", t, tg);
    for (int i = 0; i < n; ++i) SIM_CHECK(!strcmp(out[i], bd.xs[i]->str), "depfile", "the depfile says \"%s\" for %s", out[i], bd.xs[i]->str);
    sim_count("depfiles_checked", 1);
  }
  free_deps(bd);
  FbleFreeLoadedProgram(p);
}

static void one_link(FbleSearchPath* sp, FbleModulePath* mp, Want want) {
  open_fault_hit = false;
  for (VFile* f = vfs_first(); f; f = f->next) { f->accesses = 0; }
  size_t e0 = err_len();
  FbleProfile* prof = FbleNewProfile(sim_p(1, 3));
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* prog = FbleLink(heap, prof, NULL, sp, mp);
  if (open_fault_hit) want = MUST_FAIL;
  if (want == GOOD && type_bad()) want = MUST_FAIL;
  SIM_CHECK(!(want == GOOD && !prog), "good-program-refused", "linking failed without a fault: %s", err_from(e0));
  SIM_CHECK(!(want == MUST_FAIL && prog), "bad-program-loaded", "linking succeeded with a bad module");
  if (!prog) SIM_CHECK(err_len() > e0, "no-error-message", "linking failed without an error message");
  if (prog) {
    FbleValue* v = FbleEval(heap, prog, prof);
    SIM_CHECK(v != NULL, "wrong-program", "evaluation failed: %s", err_from(e0));
    nodes = 0;
    check_value(v, 0);
    sim_count("value_nodes_checked", (uint64_t)nodes);
    sim_nontrivial();
  }
  FbleFreeValueHeap(heap);
  FbleFreeProfile(prof);
}

// ---- one run ---------------------------------------------------------------------------
static char envbuf[600]; static bool env_set;
static char* get_env(const char* n) { return !strcmp(n, "FBLE_PACKAGE_PATH") && env_set ? envbuf : NULL; }

static void run_load(void) {
  memset(mods, 0, sizeof mods); ndirs = 0; nopened = 0;
  for (int i = 0; i < MAXM; ++i) for (int d = 0; d < MAXD; ++d) mods[i].v[d].f = NULL;
  vfs_std(false, true, true);
  sim_heap_random();
  sim_getenv_hook = get_env;
  sim_rand_hook = NULL;
  vfs_on_event = on_event;
  // modules
  nmods = 1 + (int)sim_u(mode == M_DEPS ? 7 : 10);
  for (int i = 0; i < nmods; ++i) {
    bool dup;
    int guard = 0;
    do {
      Name* n = &mods[i].name; n->nseg = 1 + (int)sim_u(3);
      for (int k = 0; k < n->nseg; ++k) n->seg[k] = Segs[sim_u(sizeof Segs / sizeof *Segs)];
      dup = false;
      for (int j = 0; j < i; ++j) {
        dup |= mods[j].name.nseg == n->nseg;
        if (mods[j].name.nseg == n->nseg) { bool same = true; for (int k = 0; k < n->nseg; ++k) same &= !strcmp(mods[j].name.seg[k], n->seg[k]); if (!same) dup = false; }
        if (dup) break;
      }
      if (++guard > 40) { n->nseg = 1; static char u[MAXM][8]; sprintf(u[i], "M%d", i); n->seg[0] = u[i]; dup = false; }
    } while (dup);
  }
  // search path: -I directories and packages
  char args[MAXD * 2 + 4][160]; const char* argv[MAXD * 2 + 5]; int argc = 0;
  int nd = 1 + (int)sim_u(4);
  env_set = sim_p(2, 3);
  int npp = env_set ? 1 + (int)sim_u(3) : 0;
  char pps[5][64];
  envbuf[0] = 0;
  for (int i = 0; i < npp; ++i) {
    if (sim_p(1, 6)) sprintf(pps[i], "%c", 'p' + (int)sim_u(3));   // as short as it gets
    else sprintf(pps[i], "/pp%d%s", (int)sim_u(4), sim_p(1, 4) ? "/sub dir" : "");
    if (i) strcat(envbuf, ":");
    if (i && sim_p(1, 8)) strcat(envbuf, ":");   // an empty element
    strcat(envbuf, pps[i]);
  }
  if (env_set && sim_p(1, 8)) strcat(envbuf, ":");
  if (env_set && sim_p(1, 10)) { envbuf[0] = 0; npp = 0; }
  strcpy(pps[npp], FbleDefaultPackagePath);
  bool arg_bad = false, mp_used = false;
  bool pk_exists[3][5] = {{0}};
  for (int p = 0; p < 3; ++p) for (int i = 0; i <= npp; ++i) pk_exists[p][i] = sim_p(1, 2);
  for (int p = 0; p < 3; ++p) for (int i = 0; i <= npp; ++i) for (int j = 0; j <= npp; ++j) if (!strcmp(pps[i], pps[j])) pk_exists[p][j] |= pk_exists[p][i];
  for (int p = 0; p < 3; ++p) {
    for (int i = 0; i <= npp; ++i) if (pk_exists[p][i]) { char b[256]; sprintf(b, "%s/%s/README", pps[i], Packs[p]); vfs_put(b, "x", 1); }
    // A package of the same name at the root is on no package path.
    char b[64]; sprintf(b, "/%s/README", Packs[p]); vfs_put(b, "x", 1);
  }
  int mark_at = (int)sim_u((uint64_t)nd + 1);
  Buf ref = {0}; name_ref(&mods[0].name, &ref);
  bool mp_bad = sim_p(1, 30);
  if (mp_bad) switch (sim_u(5)) {
    case 0: buf_printf(&ref, "%%"); break;
    case 1: ref.len--; break;
    case 2: buf_printf(&ref, " x"); break;
    case 3: buf_add(&ref, "\xff", 1); buf_printf(&ref, ")"); break;
    default: ref.data[0] = '.'; break;
  }
  buf_add(&ref, "", 1);
  for (int i = 0; i <= nd; ++i) {
    if (i == mark_at) {
      strcpy(args[argc], sim_p(1, 2) ? "-m" : "--module"); argv[argc] = args[argc]; ++argc;
      strcpy(args[argc], ref.data); argv[argc] = args[argc]; ++argc; mp_used = true;
    }
    if (i == nd) break;
    if (sim_p(mode == M_DEPS ? 1 : 1, mode == M_DEPS ? 2 : 4)) {
      int p = (int)sim_u(3);
      strcpy(args[argc], sim_p(1, 2) ? "-p" : "--package"); argv[argc] = args[argc]; ++argc;
      strcpy(args[argc], Packs[p]); argv[argc] = args[argc]; ++argc;
      int at = -1;
      for (int k = 0; k <= npp && at < 0; ++k) if (pk_exists[p][k]) at = k;
      if (at < 0) { arg_bad = true; sim_probe("package-not-found"); break; }
      snprintf(dirs[ndirs++], sizeof dirs[0], "%s/%s", pps[at], Packs[p]);
    } else {
      static const char* forms[] = {"/w/s%d", "/w/s%d", "w/s%d", "./rel%d", "/w/with space%d", "/w//dbl%d", "/w/s%d/."};
      snprintf(dirs[ndirs], sizeof dirs[0], forms[sim_u(7)], (int)sim_u(5));
      if (sim_p(1, 3)) { sprintf(args[argc], "-I%s", dirs[ndirs]); argv[argc] = args[argc]; ++argc; }
      else { strcpy(args[argc], "-I"); argv[argc] = args[argc]; ++argc; strcpy(args[argc], dirs[ndirs]); argv[argc] = args[argc]; ++argc; }
      ndirs++;
    }
  }
  buf_free(&ref);
  // files
  bool faults = mode == M_WHOLE ? sim_p(2, 3) : sim_p(1, 4);
  bool cyc = faults && sim_p(1, 10);
  bool bad_syntax = faults && sim_p(1, 10), bad_type = faults && sim_p(1, 10), missing = faults && sim_p(1, 6);
  int tag = 1 + (int)sim_u(100);
  for (int i = 0; i < nmods; ++i) {
    bool any = false;
    int sure = ndirs ? (int)sim_u((uint64_t)ndirs) : 0;
    bool gone = missing && sim_p(1, 4);
    for (int d = 0; d < ndirs; ++d) {
      Ver* v = &mods[i].v[d];
      char p[512], r[256]; name_path(&mods[i].name, r); snprintf(p, sizeof p, "%s%s", dirs[d], r);
      bool again = false; // the same directory under another name
      for (int e = 0; e < d && !again; ++e) if (vfs_same(dirs[e], dirs[d])) { *v = mods[i].v[e]; again = true; }
      if (again) continue;
      if (vfs_get(p)) continue;
      if (gone || !(d == sure || sim_p(1, 3))) continue;
      sim_step();
      any = true;
      v->exists = true; v->tag = tag++ % 255;
      strcpy(v->path, p);
      int maxdep = 4;
      for (int k = (int)sim_u((uint64_t)maxdep); k > 0; --k) {
        int t = -1;
        if (cyc && sim_p(1, 4)) t = (int)sim_u((uint64_t)nmods);
        else if (i + 1 < nmods) t = i + 1 + (int)sim_u((uint64_t)(nmods - i - 1));
        bool dup = t < 0;
        for (int q = 0; q < v->ndep; ++q) dup |= v->dep[q] == t;
        if (dup) continue;
        v->use[v->ndep] = sim_p(2, 3); v->dep[v->ndep++] = t;
      }
      v->syntax_bad = bad_syntax && sim_p(1, 4);
      v->type_bad = !v->syntax_bad && bad_type && sim_p(1, 4);
      Buf b = {0};
      gen_source(&mods[i], v, &b);
      v->f = vfs_put(p, b.data, b.len);
      sim_evs("file", p); sim_ev("src", (int64_t)sim_hash(b.data, b.len, 7), v->tag, v->ndep);
      if (sim_verbose()) sim_note_text(b.data);
      buf_free(&b);
    }
    (void)any;
  }
  // read faults
  bool slow = sim_p(2, 3);
  vfs_unbuffered_reads = sim_p(1, 6);
  for (int i = 0; i < nmods; ++i) for (int d = 0; d < ndirs; ++d) {
    VFile* f = mods[i].v[d].f;
    if (!f || mods[i].v[d].path[0] == 0) continue;
    f->short_reads = slow;
    if (!faults) continue;
    if (sim_p(1, 40)) f->unreadable = true;
    if (mode == M_WHOLE && sim_p(1, 15)) { f->read_err_at = (long)sim_u(f->len + 1); f->read_err_transient = sim_p(1, 4); }
    if (sim_p(1, 50)) f->vanish_after = 1;
  }
  open_seq = 0; open_fail_at = faults && sim_p(1, 10) ? 1 + sim_u(8) : 0;
  vfs_open_fault = open_fault;

  size_t base = sim_live_bytes();
  const char** av = argv; int ac = argc; bool error = false;
  size_t e0 = err_len();
  FbleModuleArg arg = FbleNewModuleArg();
  while (ac > 0 && !error) {
    int before = ac;
    if (!FbleParseModuleArg(&arg, &ac, &av, &error)) sim_fail("argument", "argument %s is not understood", av[0]);
    if (!error && ac == before) sim_fail("argument", "argument not consumed");
  }
  sim_ev("args", error, ndirs, nmods);
  if (mp_bad && mp_used) {
    sim_probe("bad-module-path-argument");
    SIM_CHECK(error, "module-path", "a malformed module path argument was accepted");
  } else
  SIM_CHECK(error == arg_bad, "package-lookup", error ? "an existing package was not found: %s" : "a package that exists nowhere was found%s", error ? err_from(e0) : "");
  if (error) SIM_CHECK(err_len() > e0, "no-error-message", "package not found without an error message");
  if (!error) {
    SIM_CHECK(arg.module_path && name_eq(&mods[0].name, arg.module_path), "module-path", "the module path argument was not parsed as written");
    Want want = plan();
    sim_sample("%d modules in %d directories, %s", nmods, ndirs, want == GOOD ? "loads" : want == MUST_FAIL ? "must fail" : "may fail");
    sim_state(((uint64_t)nmods << 40) ^ ((uint64_t)nreach << 32) ^ ((uint64_t)ndirs << 24) ^ ((uint64_t)want << 16) ^ (has_cycle << 1) ^ (uint64_t)faults ^ ((uint64_t)(nmods ? resolved[0] + 1 : 0) << 8));
    int rounds = 1 + (int)sim_u(2);
    for (int r = 0; r < rounds; ++r) {
      // A file that vanished is back for the next attempt.
      for (int i = 0; i < nmods; ++i) for (int d = 0; d < ndirs; ++d) if (mods[i].v[d].f) mods[i].v[d].f->exists = true;
      open_seq = 0;
      one_load(arg.search_path, arg.module_path, want);
      if (want != MUST_FAIL) sim_nontrivial();
      for (int i = 0; i < nmods; ++i) for (int d = 0; d < ndirs; ++d) if (mods[i].v[d].f) mods[i].v[d].f->exists = true;
      open_seq = 0;
      one_link(arg.search_path, arg.module_path, want);
    }
  }
  FbleFreeModuleArg(arg);
  size_t now = sim_live_bytes();
  SIM_CHECK(now == base, "leak", "%zu bytes are still allocated after loading", now - base);
  sim_nontrivial();
  vfs_unbuffered_reads = false;
  vfs_reset();
}

// ---- generated modules -----------------------------------------------------------------
static FbleGeneratedModule gm[16]; static FbleExecutable ge[16]; static int gruns[16]; static int gcur;
#define GRUN(i) static FbleValue* Run##i(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return gen_run(h, f, a, i); (void)p; }
static FbleValue* gen_run(FbleValueHeap* h, FbleFunction* f, FbleValue** a, int i) {
  (void)f;
  gruns[i]++;
  FbleValue* xs[20]; size_t n = 0;
  xs[n++] = FbleNewEnumValue(h, (size_t)i);
  for (size_t k = 0; k < gm[i].deps.size; ++k) xs[n++] = a[k];
  return FbleNewStructValue(h, n, xs);
}
GRUN(0) GRUN(1) GRUN(2) GRUN(3) GRUN(4) GRUN(5) GRUN(6) GRUN(7) GRUN(8) GRUN(9)
static FbleRunFunction* const gr[10] = {Run0, Run1, Run2, Run3, Run4, Run5, Run6, Run7, Run8, Run9};
static void check_gen(FbleValue* v, int i, int depth) {
  SIM_CHECK(FbleUnionValueTag(FbleStructValueField(v, 0)) == (size_t)i, "wrong-program", "a generated module got the value of another one");
  if (depth > 5) return;
  for (size_t k = 0; k < gm[i].deps.size; ++k) check_gen(FbleStructValueField(v, k + 1), (int)(gm[i].deps.xs[k] - gm), depth + 1);
}
static void run_generated(void) {
  vfs_std(false, true, true);
  sim_heap_random();
  int n = 1 + (int)sim_u(10);
  size_t base = sim_live_bytes();
  FbleLoc loc = FbleNewLoc("gen", 1, 1);
  for (int i = 0; i < n; ++i) {
    gruns[i] = 0;
    gm[i].path = FbleNewModulePath(loc);
    // Prefixes of each other, and alike in all but one name.
    for (int k = 0; k <= i % 3; ++k) { FbleName* nm = FbleExtendVector(gm[i].path->path); char b[8]; sprintf(b, "%c%d", 'A' + k, k == i % 3 ? i / 3 : 0); nm->name = FbleNewString(b); nm->space = FBLE_NORMAL_NAME_SPACE; nm->loc = FbleCopyLoc(loc); }
    FbleInitVector(gm[i].deps);
    for (int k = (int)sim_u(4); k > 0 && i + 1 < n; --k) {
      FbleGeneratedModule* d = &gm[i + 1 + (int)sim_u((uint64_t)(n - i - 1))];
      bool dup = false;
      for (size_t q = 0; q < gm[i].deps.size; ++q) dup |= gm[i].deps.xs[q] == d;
      if (!dup) FbleAppendToVector(gm[i].deps, d);
    }
    ge[i] = (FbleExecutable){.num_args = gm[i].deps.size, .num_statics = 0, .run = gr[i]};
    gm[i].executable = &ge[i];
    FbleName bn = {.name = FbleNewString("blk"), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleCopyLoc(loc)};
    FbleInitVector(gm[i].profile_blocks);
    FbleAppendToVector(gm[i].profile_blocks, bn);
    sim_ev("gen", i, (int64_t)gm[i].deps.size, 0);
  }
  bool live[16] = {0}; live[0] = true;
  for (int i = 0; i < n; ++i) if (live[i]) for (size_t k = 0; k < gm[i].deps.size; ++k) live[gm[i].deps.xs[k] - gm] = true;
  FbleProfile* prof = FbleNewProfile(sim_p(1, 2));
  FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* prog = FbleLink(heap, prof, &gm[0], NULL, NULL);
  SIM_CHECK(prog != NULL, "good-program-refused", "a generated program was not linked");
  FbleValue* v = FbleEval(heap, prog, prof);
  SIM_CHECK(v != NULL, "wrong-program", "a generated program did not evaluate");
  for (int i = 0; i < n; ++i) SIM_CHECK(gruns[i] == (live[i] ? 1 : 0), "module-twice", "generated module %d was run %d times", i, gruns[i]);
  check_gen(v, 0, 0);
  FbleFreeValueHeap(heap);
  FbleFreeProfile(prof);
  for (int i = 0; i < n; ++i) {
    FbleFreeModulePath(gm[i].path);
    for (size_t k = 0; k < gm[i].profile_blocks.size; ++k) FbleFreeName(gm[i].profile_blocks.xs[k]);
    FbleFreeVector(gm[i].profile_blocks); FbleFreeVector(gm[i].deps);
  }
  FbleFreeLoc(loc);
  SIM_CHECK(sim_live_bytes() == base, "leak", "%zu bytes are still allocated after running a generated program", sim_live_bytes() - base);
  sim_count("generated_programs", 1);
  sim_nontrivial();
  vfs_reset();
}

static void run11(void) { mode = M_WHOLE; if (sim_p(1, 12)) run_generated(); else run_load(); }
static void run12(void) { mode = M_DEPS; run_load(); }

// ---- C17: damaged sources ------------------------------------------------------------------
#include "h_load_c17.h"

void sim_harness_init(void) { corpus_init(); }
const SimScenario sim_scenarios[] = {
  {"C11", run11, 60000, 600000, 100},
  {"C12", run12, 60000, 600000, 100},
  {"C17", run17, 40000, 400000, 50},
  {0}
};
