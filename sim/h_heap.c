// Simulated value heap: random histories of the public heap/call API under a
// simulated GC, frame and memory-chunk schedule, checked against a small
// object-graph model after every step that can observe the heap.
#include "sim.h"
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-name.h>
#include <fble/fble-loc.h>
#include <fble/fble-string.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>

const char* FbleBuildStamp = "sim";

typedef enum { STRUCT, UNION, FUNC, PAP, REF, NATIVE } Kind;
typedef struct MV MV;
typedef struct Nat { int id; bool finalized; uint64_t fr_serial; bool has_on_free; MV* mv; struct Nat* next; } Nat;
struct MV {
  Kind kind; size_t tag, n; MV** kids;   // PAP: kids[0] = function
  MV* target;                            // REF
  int owner;                             // REF: logical frame that may assign it
  size_t arity; size_t fid;              // FUNC
  Nat* nat;
  uint64_t epoch, mark; FbleValue* seen[2]; int nseen;
  uint64_t id;
  MV* next;
};
typedef struct { FbleValue* v; MV* m; } H;
typedef struct { H* h; size_t n, cap; bool explicit_; uint64_t serial; H* ghost; size_t gn, gcap; } FR;
typedef struct Expect { MV* func; MV** args; size_t n; MV* result; bool returned, aborted; struct Expect* up; } Expect;

static FbleValueHeap* heap;
static FbleProfile* profile;
static MV* mvs; static Nat* nats; static uint64_t nmv, nnat;
static FR fr[512]; static int nfr;
static uint64_t serial_next;
static Expect* expect;
static uint64_t epoch;
static long fuel; static int depth;
static unsigned w_ops[24];
static uint64_t nops, ncalls, ntail, npops, npartial, nover, nabort, nverify;
static bool check_progress;
static size_t max_depth;
static FbleBlockId block0;

static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** args);

static MV* mv(Kind k, size_t n) {
  MV* m = calloc(1, sizeof *m); m->kind = k; m->n = n; m->kids = n ? calloc(n, sizeof(MV*)) : NULL;
  m->id = nmv++; m->next = mvs; mvs = m; m->owner = -1; return m;
}
static void add(FbleValue* v, MV* m) {
  FR* f = &fr[nfr - 1];
  if (f->n == f->cap) { f->cap = f->cap ? f->cap * 2 : 16; f->h = realloc(f->h, f->cap * sizeof(H)); }
  f->h[f->n].v = v; f->h[f->n++].m = m;
}
static bool never_merge(void) { return sim_heap.merge_mode == 2; }
// Values of a returned call may be kept until the frame the call was merged
// into goes away; they are not inspected, but do not count as garbage.
static void ghost(FR* f, H h) {
  if (f->gn == f->gcap) { f->gcap = f->gcap ? f->gcap * 2 : 16; f->ghost = realloc(f->ghost, f->gcap * sizeof(H)); }
  f->ghost[f->gn++] = h;
}
static void push_fr(bool ex) {
  if (nfr >= 510) sim_broken("frames");
  FR* f = &fr[nfr++]; memset(f, 0, sizeof *f); f->explicit_ = ex;
  f->serial = ex || never_merge() ? ++serial_next : fr[nfr - 2].serial;
}
// An explicit push really is a frame of its own; only call frames may be
// merged with their caller.
static void push_real(void) { sim_heap.hold_merge = true; FblePushFrame(heap); sim_heap.hold_merge = false; }
static bool frame_lingers;  // the returned call's frame may outlive the call
static void pop_fr(void) {
  FR* f = &fr[--nfr];
  if (!f->explicit_ && (frame_lingers || !never_merge()) && nfr > 0) {
    for (size_t i = 0; i < f->n; ++i) ghost(&fr[nfr - 1], f->h[i]);
    for (size_t i = 0; i < f->gn; ++i) ghost(&fr[nfr - 1], f->ghost[i]);
    if (f->serial != fr[nfr - 1].serial)
      for (Nat* n = nats; n; n = n->next) if (n->fr_serial == f->serial) n->fr_serial = fr[nfr - 1].serial;
  }
  free(f->h); free(f->ghost); memset(f, 0, sizeof *f);
}

static MV* strict(MV* m) { while (m && m->kind == REF) m = m->target; return m; }

static H* pick(void) {
  // Bias towards recent handles on the top frame.
  for (int tries = 0; tries < 6; ++tries) {
    int k = nfr - 1 - (int)sim_u(sim_p(1, 3) ? (uint64_t)nfr : (nfr > 3 ? 3 : (uint64_t)nfr));
    FR* f = &fr[k];
    if (f->n == 0) continue;
    size_t i = sim_p(1, 2) ? sim_u(f->n) : f->n - 1 - sim_u(f->n < 6 ? f->n : 6);
    return &f->h[i];
  }
  for (int k = nfr - 1; k >= 0; --k) if (fr[k].n) return &fr[k].h[fr[k].n - 1];
  return NULL;
}
static H* pick_kind(Kind k, bool (*ok)(MV*)) {
  for (int t = 0; t < 8; ++t) {
    H* h = pick();
    if (!h) return NULL;
    MV* m = strict(h->m);
    if (m && m->kind == k && (!ok || ok(m))) return h;
  }
  return NULL;
}
static size_t arity_of(MV* m) { return m->kind == FUNC ? m->arity : m->kind == PAP ? arity_of(strict(m->kids[0])) - (m->n - 1) : 0; }

// ---- verification ---------------------------------------------------------------
static void verify(FbleValue* v, MV* m, int d, const char* where) {
  SIM_CHECK(v != NULL, "value-lost", "%s: NULL in place of value %lu", where, m->id);
  if (d > 4000) return;
  if (m->epoch == epoch) { for (int i = 0; i < m->nseen; ++i) if (m->seen[i] == v) return; }
  else { m->epoch = epoch; m->nseen = 0; }
  if (m->nseen < 2) m->seen[m->nseen++] = v; else m->seen[1] = v;
  MV* s = strict(m);
  if (s == NULL) {
    SIM_CHECK(FbleStructValueField(v, 0) == NULL, "undefined-ref-defined", "%s: undefined reference has a field", where);
    SIM_CHECK(FbleUnionValueTag(v) == (size_t)-1, "undefined-ref-defined", "%s: undefined reference has a tag", where);
    SIM_CHECK(FbleUnionValueArg(v) == NULL, "undefined-ref-defined", "%s: undefined reference has an argument", where);
    SIM_CHECK(FbleFuncValueFunction(v) == NULL, "undefined-ref-defined", "%s: undefined reference is a function", where);
    return;
  }
  switch (s->kind) {
    case STRUCT:
      // Huge values are sampled.
      for (size_t i = 0, step = s->n > 400 ? s->n / 97 : 1; i < s->n; i += i + step < s->n || i + 1 == s->n ? step : s->n - 1 - i) verify(FbleStructValueField(v, i), s->kids[i], d + 1, where);
      break;
    case UNION: {
      size_t t = FbleUnionValueTag(v);
      SIM_CHECK(t == s->tag, "value-corrupt", "%s: union %lu has tag %zu, expected %zu", where, s->id, t, s->tag);
      verify(FbleUnionValueArg(v), s->kids[0], d + 1, where);
      SIM_CHECK(FbleUnionValueField(v, s->tag) != NULL && FbleUnionValueField(v, s->tag) != FbleWrongUnionTag, "value-corrupt", "%s: union %lu field access failed", where, s->id);
      verify(FbleUnionValueField(v, s->tag), s->kids[0], d + 1, where);
      SIM_CHECK(FbleUnionValueField(v, s->tag + 1) == FbleWrongUnionTag, "value-corrupt", "%s: union %lu wrong field accepted", where, s->id);
      break;
    }
    case FUNC: {
      FbleFunction* f = FbleFuncValueFunction(v);
      SIM_CHECK(f && f->executable.run == &Run && f->executable.num_args == s->arity && f->executable.num_statics == s->n
          && f->profile_block_id == block0 + s->fid, "value-corrupt", "%s: function %lu changed", where, s->id);
      for (size_t i = 0, step = s->n > 400 ? s->n / 97 : 1; i < s->n; i += i + step < s->n || i + 1 == s->n ? step : s->n - 1 - i) verify(f->statics[i], s->kids[i], d + 1, where);
      break;
    }
    case PAP: {
      FbleFunction* f = FbleFuncValueFunction(v);
      SIM_CHECK(f && f->executable.num_args == arity_of(s), "value-corrupt", "%s: partial application %lu takes %zu arguments, expected %zu", where, s->id, f ? f->executable.num_args : 0, arity_of(s));
      break;
    }
    case NATIVE:
      SIM_CHECK(!s->nat->finalized, "finalized-while-reachable", "%s: native %d was finalized while reachable", where, s->nat->id);
      SIM_CHECK(FbleNativeValueData(v) == s->nat, "value-corrupt", "%s: native %d has other data", where, s->nat->id);
      break;
    case REF: break;
  }
}
static void verify_all(const char* where) {
  epoch++; nverify++;
  for (int k = 0; k < nfr; ++k) for (size_t i = 0; i < fr[k].n; ++i) verify(fr[k].h[i].v, fr[k].h[i].m, 0, where);
}
static uint64_t markc;
static void mark(MV* m) {
  while (m && m->mark != markc) {
    m->mark = markc;
    for (size_t i = 0; i + 1 < m->n; ++i) mark(m->kids[i]);
    if (m->kind == REF) m = m->target; else m = m->n ? m->kids[m->n - 1] : NULL;
  }
}
static bool serial_live(uint64_t s) { for (int k = 0; k < nfr; ++k) if (fr[k].serial == s) return true; return false; }
static void mark_roots(void) {
  markc++;
  for (int k = 0; k < nfr; ++k) for (size_t i = 0; i < fr[k].n; ++i) mark(fr[k].h[i].m);
  for (int k = 0; k < nfr; ++k) for (size_t i = 0; i < fr[k].gn; ++i) mark(fr[k].ghost[i].m);
  for (Expect* e = expect; e; e = e->up) { if (e->func) mark(e->func); for (size_t i = 0; i < e->n; ++i) mark(e->args[i]); if (e->result) mark(e->result); }
}
// Natives that nothing can reach any more must have been finalized.
static void check_complete(const char* cls, const char* what) {
  if (!check_progress) return;
  mark_roots();
  for (Nat* n = nats; n; n = n->next)
    if (n->has_on_free && !n->finalized && n->mv->mark != markc && !serial_live(n->fr_serial))
      sim_fail(cls, "%s left unreachable native %d unfinalized", what, n->id);
}
static void OnFree(void* data) {
  Nat* n = data;
  SIM_CHECK(!n->finalized, "finalized-twice", "native %d finalized twice", n->id);
  n->finalized = true;
  sim_ev("finalize", n->id, 0, 0);
}

// ---- operations -------------------------------------------------------------------
static int hugeleft;
// Values larger than a chunk of the stack, with a few distinct fields.
static size_t huge_size(void) {
  if (hugeleft <= 0 || !sim_p(1, 12)) return 0;
  hugeleft--; sim_probe("value-near-chunk-size");
  size_t c = FbleSimChunkSize / sizeof(FbleValue*);
  return c + c / 4 - sim_u(c / 2) + (sim_p(1, 8) ? c : 0);
}
static bool op_huge(void) {
  size_t n = huge_size(); if (!n) return false;
  bool fn = sim_p(1, 3); H* few[8]; int k = 0;
  for (int i = 0; i < 8; ++i) if ((few[k] = pick())) k++;
  if (!k) return false;
  FbleValue** a = malloc(n * sizeof *a); MV* m = mv(fn ? FUNC : STRUCT, n); uint64_t x = sim_u(1u << 30) | 1;
  for (size_t i = 0; i < n; ++i) { x = x * 6364136223846793005ull + 1442695040888963407ull; H* h = few[(x >> 40) % (unsigned)k]; a[i] = h->v; m->kids[i] = h->m; }
  FbleValue* v;
  if (fn) {
    m->arity = 1 + sim_u(3); m->fid = sim_u(16);
    FbleExecutable e = { .num_args = m->arity, .num_statics = n, .run = &Run };
    v = FbleNewFuncValue(heap, &e, block0 + m->fid, a);
  } else v = FbleNewStructValue(heap, n, a);
  free(a); add(v, m); sim_ev("huge", (int64_t)m->id, (int64_t)n, fn);
  return true;
}
static void op_struct(void) {
  if (hugeleft > 0 && op_huge()) return;
  size_t n = sim_u(7); if (sim_p(1, 30)) n = 7 + sim_u(60);
  FbleValue* a[80]; MV* m = mv(STRUCT, n); size_t k = 0;
  for (size_t i = 0; i < n; ++i) { H* h = pick(); if (!h) break; a[k] = h->v; m->kids[k++] = h->m; }
  m->n = k;
  FbleValue* v;
  if (k == 2 && sim_p(1, 3)) v = FbleNewStructValue_(heap, 2, a[0], a[1]);
  else if (k == 0 && sim_p(1, 3)) v = FbleNewStructValue_(heap, 0);
  else v = FbleNewStructValue(heap, k, a);
  add(v, m); sim_ev("struct", (int64_t)m->id, (int64_t)k, 0);
}
static void op_union(void) {
  H* h = pick(); if (!h) return;
  size_t t = sim_u(4); if (sim_p(1, 6)) t = sim_u(90);
  MV* m = mv(UNION, 1); m->tag = t; m->kids[0] = h->m;
  add(FbleNewUnionValue(heap, t, h->v), m); sim_ev("union", (int64_t)m->id, (int64_t)t, 0);
}
static MV* unit_mv(void) { return mv(STRUCT, 0); }
static void op_enum(void) {
  size_t t = sim_u(5); if (sim_p(1, 6)) t = 50 + sim_u(30);
  MV* m = mv(UNION, 1); m->tag = t; m->kids[0] = unit_mv();
  add(FbleNewEnumValue(heap, t), m); sim_ev("enum", (int64_t)m->id, (int64_t)t, 0);
}
static MV* list_mv(size_t n, MV** xs) {
  MV* tail = mv(UNION, 1); tail->tag = 1; tail->kids[0] = unit_mv();
  for (size_t i = 0; i < n; ++i) {
    MV* c = mv(STRUCT, 2); c->kids[0] = xs[n - i - 1]; c->kids[1] = tail;
    tail = mv(UNION, 1); tail->tag = 0; tail->kids[0] = c;
  }
  return tail;
}
static void op_list(void) {
  size_t n = sim_u(6), k = 0; FbleValue* a[8]; MV* m[8];
  for (; k < n; ++k) { H* h = pick(); if (!h) break; a[k] = h->v; m[k] = h->m; }
  if (sim_p(1, 2)) {
    add(k == 2 ? FbleNewListValue_(heap, 2, a[0], a[1]) : FbleNewListValue(heap, k, a), list_mv(k, m));
  } else {
    size_t t[8];
    for (size_t i = 0; i < k; ++i) { t[i] = sim_u(70); m[i] = mv(UNION, 1); m[i]->tag = t[i]; m[i]->kids[0] = unit_mv(); }
    add(FbleNewLiteralValue(heap, k, t), list_mv(k, m));
  }
  sim_ev("list", (int64_t)k, 0, 0);
}
static void op_func(void) {
  size_t n = sim_u(4), k = 0; FbleValue* a[8];
  MV* m = mv(FUNC, n);
  for (; k < n; ++k) { H* h = pick(); if (!h) break; a[k] = h->v; m->kids[k] = h->m; }
  m->n = k; m->arity = sim_u(4); m->fid = sim_u(16);
  FbleExecutable exe = {.num_args = m->arity, .num_statics = k, .run = &Run};
  add(FbleNewFuncValue(heap, &exe, block0 + m->fid, a), m);
  sim_ev("func", (int64_t)m->id, (int64_t)m->arity, (int64_t)k);
}
static void op_native(void) {
  Nat* n = calloc(1, sizeof *n); n->id = (int)nnat++; n->next = nats; nats = n; n->fr_serial = fr[nfr - 1].serial;
  n->has_on_free = !sim_p(1, 10);
  MV* m = mv(NATIVE, 0); m->nat = n; n->mv = m;
  add(FbleNewNativeValue(heap, n, n->has_on_free ? &OnFree : NULL), m); sim_ev("native", n->id, 0, 0);
}
static void op_ref(void) { MV* m = mv(REF, 0); m->owner = nfr - 1; add(FbleNewRefValue(heap), m); sim_ev("ref", (int64_t)m->id, 0, 0); }
static void op_assign(void) {
  H* r = NULL; FR* f = &fr[nfr - 1];
  for (int t = 0; t < 6 && f->n && !r; ++t) {
    H* h = &f->h[sim_p(1, 2) ? sim_u(f->n) : f->n - 1 - sim_u(f->n < 8 ? f->n : 8)];
    if (h->m->kind == REF && h->m->target == NULL && h->m->owner == nfr - 1) r = h;
  }
  if (!r) return;
  H* x = pick(); if (!x) return;
  MV* u = x->m;
  while (u->kind == REF && u->target) u = u->target;
  bool ok = FbleAssignRefValue(heap, r->v, x->v);
  bool want = u != r->m;
  SIM_CHECK(ok == want, "vacuous-assign", "assigning reference %lu to value %lu returned %d, expected %d", r->m->id, x->m->id, ok, want);
  if (ok) r->m->target = u; else sim_probe("vacuous-assignment");
  sim_ev("assign", (int64_t)r->m->id, (int64_t)u->id, ok);
}
static void op_access(void) {
  H* h = pick(); if (!h) return;
  MV* m = strict(h->m); if (!m) { sim_probe("undefined-access"); return; }
  if (m->kind == STRUCT && m->n) { size_t i = sim_u(m->n); FbleValue* v = FbleStructValueField(h->v, i); epoch++; verify(v, m->kids[i], 0, "field access"); 
    // The field lives as long as the struct: remember it on the frame of the handle.
    int k = nfr; for (int q = 0; q < nfr; ++q) if (h >= fr[q].h && h < fr[q].h + fr[q].n) k = q;
    if (k == nfr - 1) add(v, m->kids[i]);
    else { FR save = fr[k]; (void)save; if (fr[k].n == fr[k].cap) { fr[k].cap = fr[k].cap ? fr[k].cap * 2 : 16; fr[k].h = realloc(fr[k].h, fr[k].cap * sizeof(H)); } fr[k].h[fr[k].n].v = v; fr[k].h[fr[k].n++].m = m->kids[i]; }
    sim_ev("field", (int64_t)m->id, (int64_t)i, 0);
  } else if (m->kind == UNION) {
    FbleValue* v = FbleUnionValueArg(h->v); epoch++; verify(v, m->kids[0], 0, "union access");
    int k = nfr; for (int q = 0; q < nfr; ++q) if (h >= fr[q].h && h < fr[q].h + fr[q].n) k = q;
    if (fr[k].n == fr[k].cap) { fr[k].cap = fr[k].cap ? fr[k].cap * 2 : 16; fr[k].h = realloc(fr[k].h, fr[k].cap * sizeof(H)); }
    fr[k].h[fr[k].n].v = v; fr[k].h[fr[k].n++].m = m->kids[0];
    sim_ev("arg", (int64_t)m->id, 0, 0);
  }
}
// References reachable from a value that leaves a frame now belong to the caller.
static void reown(MV* m, int from, int to) {
  if (!m || m->mark == markc) return;
  m->mark = markc;
  if (m->kind == REF && m->owner == from) m->owner = to;
  if (m->kind == REF) reown(m->target, from, to);
  for (size_t i = 0; i < m->n; ++i) reown(m->kids[i], from, to);
}
static void op_push(void) {
  if (nfr > 400) return;
  push_real(); push_fr(true); sim_ev("push", nfr, 0, 0);
}
static int base_fr(void) { int k = nfr - 1; while (k > 0 && fr[k].explicit_) --k; return k; }
static void op_pop_with(H* h0) {
  FbleValue* v = NULL; MV* m = NULL;
  if (h0) { v = h0->v; m = h0->m; }
  FbleValue* r = FblePopFrame(heap, v);
  if (m) { markc++; reown(m, nfr - 1, nfr - 2); }
  pop_fr(); npops++;
  sim_ev("pop", nfr, m ? (int64_t)m->id : -1, 0);
  if (m) { epoch++; verify(r, m, 0, "value returned from a popped frame"); add(r, m); }
  else SIM_CHECK(r == NULL, "value-corrupt", "popping a frame with no value returned a value");
}
static void op_pop(void) {
  if (nfr - 1 <= 0 || !fr[nfr - 1].explicit_ || nfr <= 1) return;
  H* h = sim_p(1, 8) ? NULL : pick();
  H c; if (h) { c = *h; h = &c; }
  op_pop_with(h);
}
static void op_fullgc(void) {
  FbleValueFullGc(heap); sim_fault("full-gc"); sim_ev("fullgc", 0, 0, 0);
  check_complete("garbage-survives-full-gc", "a full garbage collection");
}
static void finish_expect(Expect* e, FbleValue* r, const char* where) {
  // Works out what the call must have produced.
  if (!e->returned && !e->aborted) {
    MV* f = strict(e->func);
    if (!f) e->aborted = true;
    else {
      SIM_CHECK(f->kind == FUNC || f->kind == PAP, "call-model", "%s", where);
      size_t ar = arity_of(f);
      SIM_CHECK(ar > e->n, "call-lost", "%s: function %lu was given %zu of %zu arguments but was never run", where, f->id, e->n, ar);
      MV* p = mv(PAP, e->n + 1); p->kids[0] = e->func; memcpy(p->kids + 1, e->args, e->n * sizeof(MV*));
      e->result = p; e->returned = true; npartial++; sim_probe("partial-application");
    }
  }
  if (e->aborted) { SIM_CHECK(r == NULL, "abort-ignored", "%s: aborted call returned a value", where); return; }
  SIM_CHECK(r != NULL, "value-lost", "%s: call that returned value %lu yields NULL", where, e->result->id);
  epoch++; verify(r, e->result, 0, where);
}
static bool callable(MV* m) { (void)m; return true; }
static H* pick_func(void) {
  H* h = pick_kind(FUNC, callable); if (!h) h = pick_kind(PAP, callable); return h;
}
// Returns true if the call completed, false if aborted.
static bool op_call(FbleProfileThread* p, bool top) {
  if (depth > (int)max_depth) return true;
  H* f = NULL;
  if (sim_p(1, 40)) { H* h = pick(); if (h && strict(h->m) == NULL) f = h; }
  if (!f) f = pick_func();
  if (!f) return true;
  MV* fm = strict(f->m);
  size_t ar = fm ? arity_of(fm) : 1;
  size_t n = ar + sim_u(3); if (sim_p(1, 5)) n = sim_u(ar + 1);
  Expect e = {.func = f->m, .up = expect, .n = 0, .args = calloc(n + 1, sizeof(MV*))};
  FbleValue* a[16]; FbleValue* fv = f->v;
  for (; e.n < n; ++e.n) { H* h = pick(); if (!h) break; a[e.n] = h->v; e.args[e.n] = h->m; }
  // Arguments beyond what the model can account for would need the result to be a function.
  sim_ev("call", fm ? (int64_t)fm->id : -1, (int64_t)e.n, (int64_t)ar);
  expect = &e; ncalls++; depth++;
  if (e.n > ar) { nover++; sim_probe("over-application"); }
  FbleValue* r = top ? FbleApply(heap, fv, e.n, a, profile) : FbleCall(heap, p, fv, e.n, a);
  depth--; expect = e.up;
  finish_expect(&e, r, "function call");
  if (r) { markc++; reown(e.result, nfr, nfr - 1); add(r, e.result); }
  else { nabort++; sim_probe("aborted-call"); }
  sim_ev("return", r != NULL, r ? (int64_t)e.result->id : -1, 0);
  free(e.args);
  return r != NULL;
}

static bool step(FbleProfileThread* p, bool top) {
  nops++; fuel--; sim_step();
  switch (sim_weighted(14, w_ops)) {
    case 0: op_struct(); break;
    case 1: op_union(); break;
    case 2: op_enum(); break;
    case 3: op_func(); break;
    case 4: op_native(); break;
    case 5: op_ref(); break;
    case 6: op_assign(); break;
    case 7: op_access(); break;
    case 8: op_push(); break;
    case 9: op_pop(); break;
    case 10: return op_call(p, top);
    case 11: op_list(); break;
    case 12: op_fullgc(); break;
    case 13: verify_all("random inspection"); break;
  }
  return true;
}

// The body of every function value.
static FbleValue* Run(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* function, FbleValue** args) {
  SIM_CHECK(h == heap, "call-model", "wrong heap");
  Expect* e = expect;
  SIM_CHECK(e && !e->returned && !e->aborted, "call-duplicated", "a function ran that was not being called");
  // Partial applications carry their arguments.
  MV* f = strict(e->func);
  while (f && f->kind == PAP) {
    // It runs below a frame of its own, which holds on to what it was given.
    ghost(&fr[nfr - 1], (H){NULL, e->func});
    for (size_t i = 0; i < e->n; ++i) ghost(&fr[nfr - 1], (H){NULL, e->args[i]});
    MV** na = calloc(f->n + e->n + 1, sizeof(MV*));
    memcpy(na, f->kids + 1, (f->n - 1) * sizeof(MV*)); memcpy(na + f->n - 1, e->args, e->n * sizeof(MV*));
    free(e->args); e->args = na; e->n += f->n - 1; e->func = f->kids[0]; f = strict(e->func);
  }
  SIM_CHECK(f && f->kind == FUNC, "call-wrong-function", "a function ran in place of a value that is not one");
  SIM_CHECK(function->executable.run == &Run && function->profile_block_id == block0 + f->fid && function->executable.num_args == f->arity
      && function->executable.num_statics == f->n, "call-wrong-function", "another function ran in place of function %lu", f->id);
  SIM_CHECK(e->n >= f->arity, "call-wrong-function", "function %lu ran with too few arguments", f->id);
  epoch++;
  for (size_t i = 0; i < f->n; ++i) verify(function->statics[i], f->kids[i], 0, "captured variable");
  for (size_t i = 0; i < f->arity; ++i) verify(args[i], e->args[i], 0, "argument");
  sim_ev("run", (int64_t)f->id, (int64_t)f->arity, (int64_t)e->n);

  int base = nfr;
  push_fr(false);
  if (nfr > (int)0 && sim_heap.merge_mode == 0) {}
  for (size_t i = 0; i < f->n; ++i) add(function->statics[i], f->kids[i]);
  for (size_t i = 0; i < f->arity; ++i) add(args[i], e->args[i]);

  bool ok = true;
  long k = (long)sim_u(10);
  for (long i = 0; i < k && fuel > 0 && ok; ++i) {
    if (!step(p, false) && sim_p(1, 2)) ok = false;
  }
  while (nfr > base + 1) op_pop_with(NULL);
  if (!ok || sim_p(1, 60)) {
    pop_fr(); e->aborted = true; sim_ev("abort", 0, 0, 0); return NULL;
  }
  size_t left = e->n - f->arity;
  // Tail call, or return a value; leftover arguments need a function.
  H* g = (sim_p(2, 5) || left > 0) && fuel > 0 ? pick_func() : NULL;
  if (g && (sim_p(1, 2) || left == 0) && depth < (int)max_depth) {
    MV* gm = strict(g->m); size_t ar = arity_of(gm);
    size_t n = ar + sim_u(2); if (sim_p(1, 6)) n = sim_u(ar + 1);
    FbleValue* a[16]; MV** na = calloc(n + left + 1, sizeof(MV*)); size_t c = 0;
    for (; c < n; ++c) { H* x = pick(); if (!x) break; a[c] = x->v; na[c] = x->m; }
    memcpy(na + c, e->args + f->arity, left * sizeof(MV*));
    free(e->args); e->args = na; e->n = c + left; e->func = g->m;
    FbleValue* gv = g->v;
    // With arguments left over, a partial application may stay on the
    // caller's frame as the function they are applied to.
    if (left > 0) {
      ghost(&fr[nfr - 2], (H){NULL, g->m});
      for (size_t i = 0; i < e->n; ++i) ghost(&fr[nfr - 2], (H){NULL, na[i]});
    }
    ntail++; sim_probe("tail-call"); if (left) sim_probe("tail-call-with-leftover-args");
    sim_ev("tailcall", (int64_t)gm->id, (int64_t)c, (int64_t)left);
    // The frame is going away: nothing on it may be assigned any more.
    for (MV* m = mvs; m; m = m->next) if (m->kind == REF && m->owner == nfr - 1) m->owner = -1;
    // The callee's locals replace ours; forget ours now.
    pop_fr();
    return FbleTailCall(heap, FbleFuncValueFunction(gv), gv, c, a);
  }
  H r;
  if (left > 0) {
    if (!g) { pop_fr(); e->aborted = true; sim_ev("abort", 0, 0, 0); return NULL; }
    r = *g;
  } else {
    H* x = pick(); if (!x) { op_enum(); x = pick(); }
    r = *x;
  }
  if (left > 0) for (size_t i = 0; i < e->n; ++i) ghost(&fr[nfr - 1], (H){NULL, e->args[i]});
  memmove(e->args, e->args + f->arity, left * sizeof(MV*)); e->n = left;
  markc++; reown(r.m, nfr - 1, nfr - 2);
  frame_lingers = left > 0; pop_fr(); frame_lingers = false;
  if (left > 0) e->func = r.m; else { e->returned = true; e->result = r.m; }
  sim_ev("ret", (int64_t)r.m->id, (int64_t)left, 0);
  return r.v;
}

static void free_model(void) {
  while (mvs) { MV* m = mvs; mvs = m->next; free(m->kids); free(m); }
  while (nats) { Nat* n = nats; nats = n->next; free(n); }
}

static void heap_life(unsigned maxops) {
  size_t base_bytes = sim_live_bytes();
  profile = FbleNewProfile(sim_p(1, 3));
  FbleName names[16];
  for (int i = 0; i < 16; ++i) { names[i].name = FbleNewString("f"); names[i].loc = FbleNewLoc("sim", (size_t)i, 1); }
  FbleNameV nv = {.size = 16, .xs = names};
  block0 = FbleAddBlocksToProfile(profile, nv);
  for (int i = 0; i < 16; ++i) FbleFreeName(names[i]);
  heap = FbleNewValueHeap();
  nfr = 0; serial_next = 0; expect = NULL; depth = 0;
  memset(&fr[0], 0, sizeof fr[0]); fr[0].explicit_ = true; fr[0].serial = ++serial_next; nfr = 1;
  uint64_t c0 = ncalls;
  fuel = (long)maxops;
  while (fuel > 0 && !sim_exhausted()) {
    step(NULL, true);
    if (sim_p(1, 12)) verify_all("inspection");
  }
  verify_all("end of history");
  (void)c0;
  if (check_progress) {
    // Faults stop; with nothing but fresh allocations on a new frame, all
    // garbage must be reclaimed within a bounded number of them.
    SimHeapCfg save = sim_heap; sim_heap.gc_mode = 0;
    push_real(); push_fr(true);
    uint64_t steps = 2 * nmv + 4 * (uint64_t)nfr + 64;
    for (uint64_t i = 0; i < steps; ++i) FbleNewNativeValue(heap, NULL, NULL);
    check_complete("garbage-not-reclaimed", "bounded allocation after the history ended");
    verify_all("after collection");
    H none; (void)none;
    op_pop_with(NULL);
    sim_heap = save;
    sim_probe("progress-checked");
  }
  if (sim_p(1, 2)) { FbleValueFullGc(heap); sim_fault("full-gc"); check_complete("garbage-survives-full-gc", "a full garbage collection"); verify_all("after full gc"); }
  if (sim_p(1, 2)) { while (nfr > 1) { H* h = sim_p(1, 2) ? pick() : NULL; H c; if (h) c = *h; op_pop_with(h ? &c : NULL); } verify_all("after unwinding"); }
  else if (nfr > 1) sim_probe("heap-freed-with-open-frames");
  while (nfr > 0) pop_fr();
  FbleFreeValueHeap(heap); heap = NULL;
  FbleFreeProfile(profile);
  if (check_progress) for (Nat* n = nats; n; n = n->next) SIM_CHECK(!n->has_on_free || n->finalized, "never-finalized", "native %d not finalized when the heap was freed", n->id);
  size_t end_bytes = sim_live_bytes();
  SIM_CHECK(!check_progress || end_bytes == base_bytes, "leak", "heap teardown leaks %ld bytes", (long)(end_bytes - base_bytes));
  free_model();
}

static void swarm(void) {
  static const unsigned base[14] = {8, 5, 5, 5, 4, 4, 4, 6, 5, 6, 10, 2, 1, 2};
  for (int i = 0; i < 14; ++i) w_ops[i] = sim_p(1, 6) ? (i == 2 ? 1 : 0) : base[i] * (1 + (unsigned)sim_u(3));
  w_ops[2] += 1;
}

static void run_all(bool progress, bool natives) {
  nmv = nnat = 0; nops = ncalls = ntail = npops = npartial = nover = nabort = nverify = 0;
  sim_heap_random(); swarm();
  if (natives) { w_ops[4] += 10; w_ops[9] += 6; w_ops[8] += 6; }
  check_progress = progress;
  max_depth = 4 + sim_u(24);
  hugeleft = sim_p(1, FbleSimChunkSize > 100000 ? 40 : 8) ? 1 + (int)sim_u(2) : 0;
  unsigned lives = 1 + (unsigned)sim_u(2);
  unsigned ops = 40 + (unsigned)sim_u(6) * 60;
  uint64_t last = 0;
  for (unsigned i = 0; i < lives; ++i) { nmv = 0; heap_life(ops); if (i) sim_probe("second-heap-in-process"); last = nops; }
  (void)last;
  if (ncalls > 2 && npops > 2) sim_nontrivial();
  sim_state(sim_hash((uint64_t[]){ncalls, ntail, npops, npartial, nover, nabort, nnat, sim_heap.gc_mode, sim_heap.merge_mode}, 72, 1469598103934665603ull));
  sim_count("heap-operations", nops); sim_count("calls", ncalls); sim_count("tail-calls", ntail); sim_count("frames-popped", npops);
  sim_count("natives", nnat); sim_count("deep-verifications", nverify);
  sim_sample("heaps=%u ops=%lu calls=%lu tailcalls=%lu partial=%lu over=%lu aborts=%lu pops=%lu natives=%lu gc_mode=%u merge_mode=%u chunk=%zu",
      lives, nops, ncalls, ntail, npartial, nover, nabort, npops, nnat, sim_heap.gc_mode, sim_heap.merge_mode, FbleSimChunkSize);
}
static void run_c01(void) { run_all(false, false); }
static void run_c02(void) { run_all(true, true); }

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C01", run_c01, 300000, 4000000, 40},
  {"C02", run_c02, 300000, 4000000, 40},
  {NULL, NULL, 0, 0, 0},
};
