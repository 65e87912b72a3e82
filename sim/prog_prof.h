// Random histories of the profiling API against a reference model.
#include "report.h"
#define PMAXB 400
typedef struct { int caller, callee; } PPair;
typedef struct { int id; int pairs; } PFrame;      // pairs: entries above this frame's start
typedef struct { FbleProfileThread* t; PFrame* f; int nf, cf; PPair* p; int np, cp; uint64_t rnd; } PThread;
static int pb_n; static uint64_t pb_count[PMAXB], pb_time[PMAXB], pb_self[PMAXB]; static char pb_names[PMAXB][60]; static int pb_line[PMAXB];
static uint64_t (*pc_count)[PMAXB]; static uint64_t (*pc_time)[PMAXB];
static void pm_enter(PThread* t, int b, bool replace) {
  int caller = t->f[t->nf - 1].id; bool on = false;
  for (int i = 0; i < t->np && !on; ++i) on = t->p[i].caller == caller && t->p[i].callee == b;
  pb_count[b]++; pc_count[caller][b]++;
  if (!replace) { if (t->nf == t->cf) { t->cf *= 2; t->f = realloc(t->f, sizeof(PFrame) * (size_t)t->cf); } t->f[t->nf++] = (PFrame){b, 0}; }
  PFrame* f = &t->f[t->nf - 1]; f->id = b;
  if (!on) { if (t->np == t->cp) { t->cp *= 2; t->p = realloc(t->p, sizeof(PPair) * (size_t)t->cp); } t->p[t->np++] = (PPair){caller, b}; f->pairs++; }
}
static void pm_exit(PThread* t) { t->np -= t->f[--t->nf].pairs; }
static void pm_sample(PThread* t, uint64_t w) {
  bool seen[PMAXB] = {false};
  pb_self[t->f[t->nf - 1].id] += w; pb_time[0] += w;
  for (int i = 0; i < t->np; ++i) { if (!seen[t->p[i].callee]) pb_time[t->p[i].callee] += w; seen[t->p[i].callee] = true; pc_time[t->p[i].caller][t->p[i].callee] += w; }
}
static FbleName pname(int i) {
  static const char* odd[] = {"a [b] c", "[0001X]", "%s%n", "** x **", "", "main", "a;b", "é", "X]: y"};
  if (sim_p(1, 6)) snprintf(pb_names[i], sizeof pb_names[i], "%s", odd[sim_u(9)]); else snprintf(pb_names[i], sizeof pb_names[i], "/M%%.f%d!", (int)sim_u(1000));
  pb_line[i] = (int)sim_u(5000);
  FbleName n = {.name = FbleNewString(pb_names[i]), .space = FBLE_NORMAL_NAME_SPACE, .loc = FbleNewLoc("Some/File.fble", (size_t)pb_line[i], 7)};
  return n;
}
static void compare_profile(FbleProfile* p) {
  SIM_CHECK(p->blocks.size == (size_t)pb_n, "profile-blocks", "%zu blocks of %d", p->blocks.size, pb_n);
  for (int i = 0; i < pb_n; ++i) {
    FbleBlockProfile* b = p->blocks.xs[i];
    SIM_CHECK(b->block.count == pb_count[i], "profile-count", "block %d was entered %lu times, %lu reported", i, (unsigned long)pb_count[i], (unsigned long)b->block.count);
    SIM_CHECK(b->block.time == pb_time[i], "profile-time", "block %d ran for %lu, %lu reported", i, (unsigned long)pb_time[i], (unsigned long)b->block.time);
    SIM_CHECK(b->self == pb_self[i], "profile-self", "block %d ran itself for %lu, %lu reported", i, (unsigned long)pb_self[i], (unsigned long)b->self);
    int n = 0; for (int j = 0; j < pb_n; ++j) if (pc_count[i][j]) n++;
    SIM_CHECK(b->callees.size == (size_t)n, "profile-calls", "block %d called %d blocks, %zu reported", i, n, b->callees.size);
    for (size_t j = 0; j < b->callees.size; ++j) {
      FbleCallData* c = b->callees.xs[j]; 
      SIM_CHECK(c->id < (size_t)pb_n && (j == 0 || b->callees.xs[j - 1]->id < c->id), "profile-calls", "callees of block %d are out of order", i);
      SIM_CHECK(c->count == pc_count[i][c->id], "profile-calls", "block %d called %zu %lu times, %lu reported", i, c->id, (unsigned long)pc_count[i][c->id], (unsigned long)c->count);
      SIM_CHECK(c->time == pc_time[i][c->id], "profile-time", "calls from %d to %zu took %lu, %lu reported", i, c->id, (unsigned long)pc_time[i][c->id], (unsigned long)c->time);
    }
  }
}
// The printed report says what the profile says.
static void check_report(FbleProfile* p) {
  // Names are printed as they are; one with a newline has no line of its own.
  for (size_t i = 0; i < p->blocks.size; ++i) if (strchr(p->blocks.xs[i]->name.name->str, '\n') || strlen(p->blocks.xs[i]->name.name->str) > 580) { sim_probe("report-not-checked"); return; }
  char* text = NULL; size_t len = 0; FILE* f = open_memstream(&text, &len);
  FbleGenerateProfileReport(f, p); fclose(f);
  if (!p->enabled) { SIM_CHECK(len == 0, "report", "a report of a disabled profile"); free(text); return; }
  Report r;
  bool ok = rep_parse(&r, text, p->blocks.size);
  SIM_CHECK(ok, "report", "malformed profile report: %s", r.msg);
  for (size_t i = 0; i < r.n; ++i) {
    FbleBlockProfile* b = p->blocks.xs[i]; RBlock* q = &r.b[i];
    SIM_CHECK(!strncmp(q->name, b->name.name->str, 590), "report", "block %zu is called '%s', not '%s'", i, q->name, b->name.name->str);
    SIM_CHECK(q->count == b->block.count && q->time == b->block.time && q->self == b->self, "report", "the numbers of block %zu are wrong in the report", i);
    char loc[700]; snprintf(loc, sizeof loc, "%s:%zi:%zi", b->name.loc.source->str, b->name.loc.line, b->name.loc.col);
    SIM_CHECK(!strncmp(q->where, loc, 590), "report", "the location of block %zu is '%s', not '%s'", i, q->where, loc);
    if (q->graph) {
      SIM_CHECK((size_t)q->nout == b->callees.size, "report", "block %zu has %d callees of %zu", i, q->nout, b->callees.size);
      for (int j = 0; j < q->nout; ++j) { bool hit = false; for (size_t k = 0; k < b->callees.size; ++k) { FbleCallData* c = b->callees.xs[k]; if ((long)c->id == q->out[j].id) hit = c->count == q->out[j].count && c->time == q->out[j].time; }
        SIM_CHECK(hit, "report", "a callee of block %zu is wrong", i); }
    } else SIM_CHECK(b->block.count == 0, "report", "block %zu is missing from the call graph", i);
  }
  rep_free(&r); free(text); sim_probe("report-checked");
}
static void run_profile_api(void) {
  size_t base = sim_live_bytes();
  pc_count = calloc(PMAXB, sizeof *pc_count); pc_time = calloc(PMAXB, sizeof *pc_time);
  memset(pb_count, 0, sizeof pb_count); memset(pb_time, 0, sizeof pb_time); memset(pb_self, 0, sizeof pb_self);
  bool enabled = !sim_p(1, 12);
  FbleProfile* p = FbleNewProfile(enabled); pb_n = 1; snprintf(pb_names[0], sizeof pb_names[0], "<root>");
  int nb = 1 + (int)sim_u(sim_p(1, 3) ? 200 : 8);
  while (pb_n <= nb) { int id = (int)FbleAddBlockToProfile(p, pname(pb_n)); SIM_CHECK(id == pb_n, "profile-blocks", "block %d got id %d", pb_n, id); pb_n++; }
  PThread th[3]; int nt = 0; uint64_t rnd_total = 0, rnd_samples = 0;
  unsigned steps = 20 + (unsigned)sim_u(sim_p(1, 4) ? 3000 : 400); unsigned deep = (unsigned)sim_u(4);
  uint64_t nsamp = 0; int maxd = 0;
  for (unsigned s = 0; s < steps && !sim_exhausted(); ++s) {
    sim_step();
    if (nt == 0 || (nt < 3 && sim_p(1, 60))) {
      PThread* t = &th[nt]; t->t = FbleNewProfileThread(p);
      SIM_CHECK((t->t != NULL) == enabled, "profile-thread", "a profile thread of a disabled profile");
      t->cf = 16; t->f = malloc(sizeof(PFrame) * 16); t->nf = 1; t->f[0] = (PFrame){0, 0}; t->cp = 16; t->p = malloc(sizeof(PPair) * 16); t->np = 0; t->rnd = 0;
      if (enabled) pb_count[0]++;
      nt++; sim_ev("thread", nt, 0, 0); continue;
    }
    PThread* t = &th[sim_u((uint64_t)nt)];
    unsigned wk[6] = {3 + 2 * deep, 2, 4, 3, 2, 1};
    switch (sim_weighted(6, wk)) {
      case 0: {
        unsigned k = sim_p(1, 30) ? 1 + (unsigned)sim_u(60) : 1;
        while (k--) { int b = 1 + (int)sim_u((uint64_t)pb_n - 1 > 4 && sim_p(2, 3) ? 4 : (uint64_t)pb_n - 1); FbleProfileEnterBlock(t->t, (FbleBlockId)b); if (enabled) pm_enter(t, b, false); sim_ev("enter", b, 0, 0); }
        break;
      }
      case 1: if (t->nf > 1) { unsigned k = sim_p(1, 20) ? 1 + (unsigned)sim_u(40) : 1; while (k--) { int b = 1 + (int)sim_u((uint64_t)pb_n - 1 > 6 && sim_p(2, 3) ? 6 : (uint64_t)pb_n - 1); FbleProfileReplaceBlock(t->t, (FbleBlockId)b); if (enabled) pm_enter(t, b, true); sim_ev("replace", b, 0, 0); } } break;
      case 2: if (t->nf > 1) { unsigned k = sim_p(1, 25) ? 1 + (unsigned)sim_u((uint64_t)t->nf - 1) : 1; while (k--) { FbleProfileExitBlock(t->t); if (enabled) pm_exit(t); sim_ev("exit", t->nf, 0, 0); } } break;
      case 3: { uint64_t w = sim_p(1, 10) ? sim_u(1u << 30) : 1 + sim_u(9); FbleProfileSample(t->t, w); if (enabled) pm_sample(t, w); nsamp++; sim_ev("sample", (int64_t)w, 0, 0); break; }
      case 4: {   // random samples: how many were taken shows in the total time
        size_t c = sim_p(1, 3) ? 1 + (size_t)sim_u(20000) : 1 + (size_t)sim_u(60);
        uint64_t before = p->blocks.xs[0]->block.time;
        FbleProfileRandomSample(t->t, c);
        uint64_t d = p->blocks.xs[0]->block.time - before; if (enabled && d) pm_sample(t, d);
        t->rnd += c; rnd_total += c; rnd_samples += d; nsamp += d; sim_ev("random", (int64_t)c, (int64_t)d, 0); sim_fault("profile-clock"); break;
      }
      default: if (pb_n < PMAXB - 20 && sim_p(1, 3)) {
        int k = 1 + (int)sim_u(12); sim_probe("blocks-added-mid-run");
        if (sim_p(1, 2)) { for (int i = 0; i < k; ++i) { FbleAddBlockToProfile(p, pname(pb_n)); pb_n++; } }
        else { FbleNameV v; FbleInitVector(v); for (int i = 0; i < k; ++i) { FbleName q = pname(pb_n + i); FbleAppendToVector(v, q); }
          size_t id = FbleAddBlocksToProfile(p, v); SIM_CHECK(id == (size_t)pb_n, "profile-blocks", "blocks from %d got id %zu", pb_n, id); pb_n += k;
          for (size_t i = 0; i < v.size; ++i) FbleFreeName(v.xs[i]);
          FbleFreeVector(v); }
        sim_ev("blocks", pb_n, 0, 0);
      }
    }
    if (t->nf > maxd) maxd = t->nf;
    if (nt > 1 && sim_p(1, 80)) { PThread* z = &th[--nt]; FbleFreeProfileThread(z->t); free(z->f); free(z->p); sim_ev("end-thread", nt, 0, 0); if (z->nf > 1) sim_probe("thread-freed-inside-blocks"); }
    if (sim_p(1, 60)) compare_profile(p);
  }
  compare_profile(p); check_report(p);
  // Samples come at least once in two periods of the documented mean.
  SIM_CHECK(!enabled || rnd_total < 400000 || rnd_samples >= rnd_total / 4096, "sample-rate", "%lu samples of a time of %lu", (unsigned long)rnd_samples, (unsigned long)rnd_total);
  while (nt > 0) { --nt; while (th[nt].nf > 1 && sim_p(3, 4)) { FbleProfileExitBlock(th[nt].t); th[nt].nf--; } FbleFreeProfileThread(th[nt].t); free(th[nt].f); free(th[nt].p); }
  FbleFreeProfile(p); free(pc_count); free(pc_time); pc_count = NULL; pc_time = NULL;
  size_t now = sim_live_bytes();
  SIM_CHECK(now == base, "leak", "%ld bytes are still allocated after the profile was freed", (long)(now - base));
  if (maxd > 200) sim_probe("deep-stack");
  sim_nontrivial(); sim_state(sim_runhash()); sim_count("samples", nsamp); sim_count("profile-steps", steps);
  sim_sample("profile api: blocks=%d steps=%u maxdepth=%d samples=%lu enabled=%d", pb_n, steps, maxd, (unsigned long)nsamp, enabled);
}
