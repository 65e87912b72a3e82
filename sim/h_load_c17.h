// C17: sources of the repository, damaged in random ways, are compiled by the
// real front end and back ends; afterwards a known good program must compile.
#include <fble/fble-compile.h>
#include <fble/fble-generate.h>
#include <sys/stat.h>
typedef struct { char* rel; int root; size_t size; } Src;
static Src* corpus; static size_t ncorpus, ccorpus;
static char roots[4][300];
static int src_cmp(const void* a, const void* b) { const Src* x = a, *y = b; return x->root != y->root ? x->root - y->root : strcmp(x->rel, y->rel); }
static void walk(int root, const char* rel) {
  char d[1024]; snprintf(d, sizeof d, "%s/%s", roots[root], rel);
  DIR* dir = opendir(d);
  if (!dir) return;
  for (struct dirent* e; (e = readdir(dir)); ) {
    if (e->d_name[0] == '.') continue;
    char r[1024]; snprintf(r, sizeof r, "%s%s%s", rel, rel[0] ? "/" : "", e->d_name);
    char full[2048]; snprintf(full, sizeof full, "%s/%s", roots[root], r);
    size_t n = strlen(r);
    if (n > 5 && !strcmp(r + n - 5, ".fble")) {
      struct stat st; 
      FILE* f = fopen(full, "rb"); if (!f) continue;
      fseek(f, 0, SEEK_END); long sz = ftell(f); fclose(f); (void)st;
      if (sz > 20000) continue;
      if (ncorpus == ccorpus) { ccorpus = ccorpus ? ccorpus * 2 : 512; corpus = realloc(corpus, ccorpus * sizeof *corpus); }
      corpus[ncorpus].rel = strdup(r); corpus[ncorpus].root = root; corpus[ncorpus++].size = (size_t)sz;
    } else if (strchr(e->d_name, '.') == NULL || strchr(e->d_name, '-')) walk(root, r);
  }
  closedir(dir);
}
static size_t nspec;
static void corpus_init(void) {
  if (corpus) return;
  const char* r = getenv("SIM_REPO") ? getenv("SIM_REPO") : "/repo";
  snprintf(roots[0], sizeof roots[0], "%s/spec", r);
  snprintf(roots[1], sizeof roots[1], "%s/pkgs/core", r);
  walk(0, ""); nspec = ncorpus;
  walk(1, "");
  qsort(corpus, ncorpus, sizeof *corpus, src_cmp);
}
static Buf slurp(const Src* s) {
  char full[2048]; snprintf(full, sizeof full, "%s/%s", roots[s->root], s->rel);
  FILE* f = fopen(full, "rb"); Buf b = {0};
  if (!f) sim_broken("cannot read %s", full);
  char t[4096]; size_t n;
  while ((n = fread(t, 1, sizeof t, f)) > 0) buf_add(&b, t, n);
  fclose(f);
  if (!b.len) buf_add(&b, " ", 1);
  return b;
}
typedef struct { size_t at, n; char kind; } Tok; // kind: w word, q quoted, p punctuation, s space or comment
static Tok* tokenize(const Buf* b, size_t* nt) {
  size_t c = 64, n = 0; Tok* t = malloc(c * sizeof *t);
  for (size_t i = 0; i < b->len; ) {
    size_t s = i; char k; unsigned char ch = (unsigned char)b->data[i];
    if (ch == '#') { while (i < b->len && b->data[i] != '\n') ++i; k = 's'; }
    else if (strchr(" \t\r\n", ch) && ch) { while (i < b->len && b->data[i] && strchr(" \t\r\n", b->data[i])) ++i; k = 's'; }
    else if (ch == '\'') { ++i; while (i < b->len && b->data[i] != '\'') ++i; if (i < b->len) ++i; k = 'q'; }
    else if (ch && strchr("(){}[];,:?=.<>+*-!$@~&|%/^", ch)) { ++i; k = 'p'; }
    else { while (i < b->len && !(b->data[i] && strchr(" \t\r\n'#(){}[];,:?=.<>+*-!$@~&|%/^", b->data[i]))) ++i; k = 'w'; }
    if (n == c) { c *= 2; t = realloc(t, c * sizeof *t); }
    t[n].at = s; t[n].n = i - s; t[n++].kind = k;
  }
  *nt = n; return t;
}
// The balanced group that starts at token i, as a token count, or 1.
static size_t group(const Buf* b, const Tok* t, size_t nt, size_t i) {
  char o = b->data[t[i].at];
  if (t[i].kind != 'p' || !strchr("({[", o)) return 1;
  int d = 0;
  for (size_t j = i; j < nt; ++j) {
    char c = b->data[t[j].at];
    if (t[j].kind != 'p') continue;
    if (strchr("({[", c)) ++d;
    if (strchr(")}]", c) && --d == 0) return j - i + 1;
  }
  return nt - i;
}
static void splice(Buf* b, size_t at, size_t del, const char* ins, size_t n) {
  Buf o = {0};
  buf_add(&o, b->data, at); buf_add(&o, ins, n); buf_add(&o, b->data + at + del, b->len - at - del);
  buf_free(b); *b = o;
}
static size_t pick_kind(const Tok* t, size_t nt, const char* kinds) {
  size_t n = 0; for (size_t i = 0; i < nt; ++i) n += strchr(kinds, t[i].kind) != NULL;
  if (!n) return (size_t)-1;
  size_t k = (size_t)sim_u(n);
  for (size_t i = 0; i < nt; ++i) if (strchr(kinds, t[i].kind) && k-- == 0) return i;
  return (size_t)-1;
}
static const char* Frag[] = {"@", "%", "(", ")", "{", "}", "[", "]", "<", ">", ";", ",", ":", "?", "=", ".", "+", "*", "/", "|", "-", "<-", "Unit@", "x", "@<x>", ".?(", ".@(", "@(", "%(", "+(", "*(", "'", "''", "#",
  "<@ A@>", "@ T@ = T@;", "@ T@ = *(T@ x);", "@ T@ = +(T@ a, T@ b);", "<<@>@ F@>", "F@<F@>", "<@>@ R@ = <@ A@> { R@<A@>; };", "T@ t = t;", "(T@) { T@; }", "{ x; }", "/A/B%", "x.%", ".<x>(y)", "%(/A%)", "%()", "% x = x;",
  "@ A@ = B@, @ B@ = A@;", "@ A@ = <@ B@> { A@; };", "x|'", "x|abc", "x[y, z]", "_"};
static void mutate(Buf* b, const Src* other) {
  size_t nt; Tok* t = tokenize(b, &nt);
  size_t i = nt ? (size_t)sim_u(nt) : 0, j;
  if (!nt) { free(t); return; }
  switch (sim_u(16)) {
    case 0: splice(b, t[i].at, t[i].n, "", 0); break;
    case 1: { Buf x = {0}; buf_add(&x, b->data + t[i].at, t[i].n); splice(b, t[i].at, 0, x.data, x.len); buf_free(&x); break; }
    case 2: case 3: // an identifier becomes another one of the file
      i = pick_kind(t, nt, "wq"); j = pick_kind(t, nt, "wq");
      if (i != (size_t)-1) { Buf x = {0}; buf_add(&x, b->data + t[j].at, t[j].n); splice(b, t[i].at, t[i].n, x.data, x.len); buf_free(&x); }
      break;
    case 4: i = pick_kind(t, nt, "p"); j = pick_kind(t, nt, "p"); if (i != (size_t)-1) b->data[t[i].at] = b->data[t[j].at]; break;
    case 5: { const char* f = Frag[sim_u(sizeof Frag / sizeof *Frag)]; splice(b, t[i].at, 0, f, strlen(f)); break; }
    case 6: { const char* f = Frag[sim_u(sizeof Frag / sizeof *Frag)]; splice(b, t[i].at, t[i].n, f, strlen(f)); break; }
    case 7: case 8: { // a group replaces another one
      i = pick_kind(t, nt, "p"); j = pick_kind(t, nt, "p");
      if (i == (size_t)-1) break;
      size_t gi = group(b, t, nt, i), gj = group(b, t, nt, j);
      size_t e = t[i + gi - 1].at + t[i + gi - 1].n, f = t[j + gj - 1].at + t[j + gj - 1].n;
      Buf x = {0}; buf_add(&x, b->data + t[j].at, f - t[j].at);
      splice(b, t[i].at, e - t[i].at, x.data, x.len); buf_free(&x); break;
    }
    case 9: { // a group is dropped or emptied
      i = pick_kind(t, nt, "p"); if (i == (size_t)-1) break;
      size_t g = group(b, t, nt, i); size_t e = t[i + g - 1].at + t[i + g - 1].n;
      if (g > 1 && sim_p(1, 2)) splice(b, t[i].at + 1, e - t[i].at - 2, "", 0); else splice(b, t[i].at, e - t[i].at, "", 0);
      break;
    }
    case 10: { // a piece of another source
      Buf o = slurp(other); size_t n2; Tok* t2 = tokenize(&o, &n2);
      if (n2) {
        size_t k = (size_t)sim_u(n2), g = group(&o, t2, n2, k);
        if (g == 1) { g = 1 + (size_t)sim_u(12); if (k + g > n2) g = n2 - k; }
        size_t e = t2[k + g - 1].at + t2[k + g - 1].n;
        size_t del = sim_p(1, 2) ? t[i].n : 0;
        splice(b, t[i].at, del, o.data + t2[k].at, e - t2[k].at);
      }
      free(t2); buf_free(&o); break;
    }
    case 11: splice(b, (size_t)sim_u(b->len), 0, "", 0); b->len = (size_t)sim_u(b->len + 1); if (!b->len) buf_add(b, " ", 1); break; // truncation
    case 12: b->data[sim_u(b->len)] = (char)sim_u(256); break;
    case 13: { unsigned char r[8]; size_t n = 1 + (size_t)sim_u(8); for (size_t k = 0; k < n; ++k) r[k] = (unsigned char)sim_u(256); splice(b, (size_t)sim_u(b->len), 0, (char*)r, n); break; }
    case 14: { // deep nesting
      static const char* op[] = {"(", "{", "<", "[", "@<", "x(", "*(", "(Unit@ x) { ", "@(a: ", "x.?(a: ", "a, ", "x; ", "@ A@ = *(); "};
      const char* f = op[sim_u(13)]; size_t n = sim_u(6) ? (size_t)sim_u(40) : (size_t)sim_u(sim_thorough ? 6000 : 1500);
      Buf x = {0}; for (size_t k = 0; k < n; ++k) buf_add(&x, f, strlen(f));
      splice(b, t[i].at, 0, x.data, x.len); buf_free(&x); break;
    }
    case 15: { // a run of tokens moves
      size_t n = 1 + (size_t)sim_u(10); if (i + n > nt) n = nt - i;
      size_t e = t[i + n - 1].at + t[i + n - 1].n;
      Buf x = {0}; buf_add(&x, b->data + t[i].at, e - t[i].at);
      size_t to = t[sim_u(nt)].at;
      splice(b, to, 0, x.data, x.len); buf_free(&x); break;
    }
  }
  free(t);
}

static const char GoodSrc[] = "@ Unit@ = *();\n@ Bit@ = +(Unit@ zero, Unit@ one);\n@ L@ = +(*(Bit@ head, L@ tail) cons, Unit@ nil);\n"
  "(Bit@) { Bit@; } not = (Bit@ x) { x.?(zero: Bit@(one: Unit@()), one: Bit@(zero: Unit@())); };\n"
  "(L@) { L@; } inv = (L@ l) { l.?(nil: l); L@(cons: @(head: not(l.cons.head), tail: inv(l.cons.tail))); };\n"
  "Bit@ o = Bit@(one: Unit@()), Bit@ z = Bit@(zero: Unit@()), L@ n = L@(nil: Unit@());\n"
  "inv(L@(cons: @(head: o, tail: L@(cons: @(head: z, tail: n)))));\n";
static void good_program(void) {
  FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, "/good");
  FbleModulePath* mp = FbleParseModulePath("/Good%");
  SIM_CHECK(mp != NULL, "unusable-after-error", "a module path is not parsed any more");
  FbleProfile* prof = FbleNewProfile(false); FbleValueHeap* heap = FbleNewValueHeap();
  FbleValue* p = FbleLink(heap, prof, NULL, sp, mp);
  SIM_CHECK(p != NULL, "unusable-after-error", "a good program does not compile after the damaged one");
  FbleValue* v = FbleEval(heap, p, prof);
  int want[] = {0, 1};
  for (int i = 0; i < 2; ++i) {
    SIM_CHECK(v && FbleUnionValueTag(v) == 0, "unusable-after-error", "a good program computes a wrong value after the damaged one");
    FbleValue* c = FbleUnionValueField(v, 0);
    SIM_CHECK((int)FbleUnionValueTag(FbleStructValueField(c, 0)) == want[i], "unusable-after-error", "a good program computes a wrong value after the damaged one");
    v = FbleStructValueField(c, 1);
  }
  SIM_CHECK(FbleUnionValueTag(v) == 1, "unusable-after-error", "a good program computes a wrong value after the damaged one");
  FbleFreeValueHeap(heap); FbleFreeProfile(prof); FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
}

// Some message must name a place inside of a file that was read.
static void check_message(const char* e, const char* mpath, const Buf* text) {
  size_t lines = 1, maxcol = 0, col = 0;
  for (size_t i = 0; i < text->len; ++i) { if (text->data[i] == '\n') { ++lines; col = 0; } else if (++col > maxcol) maxcol = col; }
  bool any = false;
  for (const char* l = e; l && *l; ) {
    const char* nl = strchr(l, '\n'); size_t n = nl ? (size_t)(nl - l) : strlen(l);
    char line[1200]; if (n > sizeof line - 1) n = sizeof line - 1; memcpy(line, l, n); line[n] = 0;
    char* er = strstr(line, ": error: ");
    if (er) {
      *er = 0;
      char* c2 = strrchr(line, ':');
      if (c2) {
        *c2 = 0; char* c1 = strrchr(line, ':');
        if (c1) {
          *c1 = 0;
          char* x1; char* x2; long ln = strtol(c1 + 1, &x1, 10), cl = strtol(c2 + 1, &x2, 10);
          bool num = !*x1 && !*x2 && c1[1] && c2[1];
          if (num && vfs_same(line, mpath)) {
            SIM_CHECK(ln >= 1 && (size_t)ln <= lines && cl >= 0 && (size_t)cl <= maxcol + 2, "bad-location", "an error is reported at %s:%ld:%ld, but the file has %zu lines of up to %zu columns", line, ln, cl, lines, maxcol);
            any = true;
          } else if (num && line[0] == '/') any = true;   // another module
        }
      }
    }
    l = nl ? nl + 1 : NULL;
  }
  SIM_CHECK(any, "no-location", "the front end failed without naming a place: %.200s", e);
}

static void run17(void) {
  vfs_std(false, true, true);
  sim_heap_default();
  vfs_put("/good/Good.fble", GoodSrc, strlen(GoodSrc));
  size_t pick = sim_p(1, 12) ? nspec + (size_t)sim_u(ncorpus - nspec) : (size_t)sim_u(nspec);
  Src* s = &corpus[pick]; Src* other = &corpus[sim_u(ncorpus)];
  Buf b = slurp(s);
  int k = (int)sim_u(6);
  for (int i = 0; i < k; ++i) { sim_step(); mutate(&b, other); if (b.len > 60000) break; }
  char path[1200]; snprintf(path, sizeof path, "/m/%s", s->rel);
  VFile* f = vfs_put(path, b.data, b.len); f->short_reads = sim_p(1, 3);
  sim_evs("source", s->rel); sim_ev("text", (int64_t)sim_hash(b.data, b.len, 1), (int64_t)b.len, k);
  if (sim_verbose()) { buf_add(&b, "", 1); sim_note_text(b.data); b.len--; }
  sim_sample("%s with %d changes", s->rel, k);
  size_t base = sim_live_bytes(), e0 = err_len();
  // The module's path.
  FbleLoc loc = FbleNewLoc("main", 1, 1);
  FbleModulePath* mp = FbleNewModulePath(loc);
  { char r[1024]; strcpy(r, s->rel); r[strlen(r) - 5] = 0;
    for (char* q = strtok(r, "/"); q; q = strtok(NULL, "/")) { FbleName* nm = FbleExtendVector(mp->path); nm->name = FbleNewString(q); nm->space = FBLE_NORMAL_NAME_SPACE; nm->loc = FbleCopyLoc(loc); } }
  FbleFreeLoc(loc);
  FbleSearchPath* sp = FbleNewSearchPath();
  FbleAppendToSearchPath(sp, "/m"); FbleAppendToSearchPath(sp, roots[s->root]);
  if (s->root == 0 && other->root == 1) FbleAppendToSearchPath(sp, roots[1]);
  bool ok;
  if (sim_p(1, 4)) {
    // Through the whole compiler and the code generators.
    FbleLoadedProgram* lp = FbleLoad(sp, mp, NULL);
    FbleCompiledProgram* cp = lp ? FbleCompileProgram(lp) : NULL;
    FbleFreeLoadedProgram(lp);
    ok = cp != NULL;
    if (ok) {
      vfs_put("/out/x.c", "", 0);
      FILE* fo = fopen("/out/x.c", "w");
      FbleCompiledModule* m = cp->modules.xs[cp->modules.size - 1];
      FbleGenerateC(fo, m);
      FbleGenerateAArch64(fo, m);
      FbleDisassemble(fo, m);
      fclose(fo);
      sim_probe("code-generated");
    }
    FbleFreeCompiledProgram(cp);
  } else {
    FbleProfile* prof = FbleNewProfile(sim_p(1, 2)); FbleValueHeap* heap = FbleNewValueHeap();
    ok = FbleLink(heap, prof, NULL, sp, mp) != NULL;
    FbleFreeValueHeap(heap); FbleFreeProfile(prof);
  }
  sim_ev("compiled", ok, 0, 0);
  sim_count(ok ? "accepted" : "rejected", 1);
  SIM_CHECK(vfs_open_count() == 0, "file-left-open", "%u files left open", vfs_open_count());
  if (!ok) { check_message(err_from(e0), path, &b); sim_state(sim_hash(err_from(e0) , strlen(err_from(e0)) > 40 ? 40 : strlen(err_from(e0)), 3)); }
  FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  size_t now = sim_live_bytes();
  SIM_CHECK(now == base, "leak", "%zu bytes leaked by a front end that %s", now - base, ok ? "accepted the program" : "rejected the program");
  good_program();
  SIM_CHECK(sim_live_bytes() == base, "leak", "the next program leaks");
  buf_free(&b);
  sim_nontrivial();
  vfs_reset();
}
