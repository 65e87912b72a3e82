// Simulated evaluation: random well-typed multi-module programs are run by the
// real front end and interpreter (and through the C back end) under simulated
// collector, frame, chunk and profile-clock schedules, with application
// functions that fail at a chosen call, against a reference evaluator.
#include "sim.h"
#include <stdarg.h>
#include <fble/fble-alloc.h>
#include <fble/fble-compile.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-load.h>
#include <fble/fble-profile.h>
#include <fble/fble-value.h>
#include <fble/fble-vector.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>

const char* FbleBuildStamp = "sim";
extern const char* FbleDefaultPackagePath;
extern char** environ;
#include "prog_gen.h"
#include "prog_eval.h"

#include "prog_mod.h"

// ---- reference run ----------------------------------------------------------------
static RV* ref_main; static RV* ref_result; static RV* ref_extra[3]; static RV* extra_args[3][24]; static int nextra; static int ref_errs[3];
static int ref_main_status, ref_status; static int ref_calls_main;
static int ref_run(void) {
  fuel = 60000; depth = 0; nref_calls = 0; maxdepth_seen = 0;
  for (int i = 0; i < nblks; ++i) blks[i].count = 0;
  int c = setjmp(ref_jmp);
  if (c == 0) {
    for (int m = 0; m < nmods; ++m) if (mods[m].reached) {
      blks[mods[m].blk[0]].count++;
      RV* v = eval(mods[m].body, NULL);
      if (m < nmods - 1) mod_vals[m] = v; else ref_main = v;
    }
  }
  ref_main_status = c;
  return c;
}
// Applies the main function. Undefined errors of one run do not disturb the next.
static int ref_apply(void) {
  int c = setjmp(ref_jmp);
  depth = 0;
  if (c == 0) ref_result = main_nargs ? apply(ref_main, main_nargs, main_args) : ref_main;
  return c;
}

// ---- the real thing ------------------------------------------------------------------
static FbleValueHeap* heap; static FbleProfile* prof;
static int real_calls; static long fail_at; static bool failed;
static uint64_t call_seq;   // native calls in the order in which they were made
static bool native_swallow; static bool undefined_arg;
static Call calls[20000];
static uint64_t real_hash(FbleValue* v, Ty* t) {
  if (--hash_budget < 0) return 77;
  uint64_t h = 1234567;
  switch (t->k) {
    case TS:
      if (t->n == 0) return h | 1;
      for (int i = 0; i < t->n; ++i) { FbleValue* f = FbleStructValueField(v, (size_t)i); if (!f) return 0; uint64_t x = real_hash(f, t->t[i]); if (!x) return 0; h = mix(h, x + (uint64_t)i); }
      return h | 1;
    case TU: { size_t tag = FbleUnionValueTag(v); if (tag == (size_t)-1) return 0; SIM_CHECK(tag < (size_t)t->n, "wrong-value", "a native got a value with tag %zu of %d", tag, t->n);
      uint64_t x = real_hash(FbleUnionValueArg(v), t->t[tag]); return x ? mix(h + (uint64_t)tag * 31, x) | 1 : 0; }
    default: return 99;
  }
}
static FbleValue* real_build(Ty* t, uint64_t h, int d) {
  if (t->k == TS) { FbleValue* f[64]; for (int i = 0; i < t->n; ++i) f[i] = real_build(t->t[i], mix(h, (uint64_t)i + 3), d - 1); return FbleNewStructValue(heap, (size_t)t->n, f); }
  int tag = 0;
  if (d <= 0 || h % 7 == 0) { for (int i = 1; i < t->n; ++i) if (t->t[i]->rank < t->t[tag]->rank) tag = i; }
  else tag = (int)((h >> 8) % (uint64_t)t->n);
  return FbleNewUnionValue(heap, (size_t)tag, real_build(t->t[tag], mix(h, 17), d - 1));
}
static FbleValue* nat_run(int i, FbleValueHeap* hp, FbleProfileThread* p, FbleValue** a) {
  Native* d = &natives[i];
  SIM_CHECK(!failed, "called-after-failure", "native %d was called after an application function had failed", i);
  real_calls++;
  SIM_CHECK(real_calls < 19999, "extra-calls", "natives were called %d times, %d expected", real_calls, nref_calls);
  uint64_t h = 5; bool undef = false;
  for (int j = 0; j < d->nargs; ++j) { hash_budget = 300; uint64_t x = real_hash(a[j], d->ty->t[j]); if (!x) undef = true; h = mix(h, x); }
  if (undef) { undefined_arg = true; real_calls--; sim_probe("undefined-native-argument"); return NULL; }
  calls[real_calls - 1].nat = i; calls[real_calls - 1].h = h;
  sim_ev("native", i, (int64_t)h, 0); call_seq = mix(call_seq * 31 + (uint64_t)i, h);
  if (fail_at == real_calls) { failed = true; sim_fault("native-failure"); return NULL; }
  switch (d->kind) {
    case K_MAKE: return real_build(d->ty->ret, h, 5);
    case K_PICK: return a[h & 1];
    case K_CALL: return FbleCall(hp, p, a[0], (size_t)d->nargs - 1, a + 1);
    case K_TAIL: {
      FbleFunction* f = FbleFuncValueFunction(a[0]);
      if (!f) { undefined_arg = true; return NULL; }
      return FbleTailCall(hp, f, a[0], (size_t)d->nargs - 1, a + 1);
    }
    case K_TWICE: { FbleValue* x = FbleCall(hp, p, a[0], 1, a + 1); return x ? FbleCall(hp, p, a[0], 1, &x) : NULL; }
    case K_OVER: return FbleCall(hp, p, a[0], 2, a + 1);
    default: { FbleValue* x = FbleCall(hp, p, a[0], 1, a + 1); return x ? FbleCall(hp, p, x, 1, a + 2) : NULL; }
  }
}
#define NAT(i) static FbleValue* nat_##i(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { (void)f; return nat_run(i, h, p, a); }
NAT(0) NAT(1) NAT(2) NAT(3) NAT(4) NAT(5) NAT(6) NAT(7)
static FbleRunFunction* nat_fns[] = {nat_0, nat_1, nat_2, nat_3, nat_4, nat_5, nat_6, nat_7};

static long cmp_budget;
static void compare(RV* r, FbleValue* v, Ty* t, const char* what) {
  if (--cmp_budget < 0) return;
  SIM_CHECK(v != NULL, "wrong-value", "%s: a value is missing", what);
  r = deref(r);
  switch (t->k) {
    case TS:
      if (!r) { SIM_CHECK(t->n == 0 || FbleStructValueField(v, 0) == NULL, "wrong-value", "%s: an undefined value is defined", what); return; }
      for (int i = 0; i < t->n; ++i) { FbleValue* f = FbleStructValueField(v, (size_t)i); compare(r->f[i], f, t->t[i], what); }
      break;
    case TU: {
      size_t tag = FbleUnionValueTag(v);
      if (!r) { SIM_CHECK(tag == (size_t)-1, "wrong-value", "%s: an undefined value is defined", what); return; }
      SIM_CHECK(tag == (size_t)r->tag, "wrong-value", "%s: tag %zu, but %d expected", what, tag, r->tag);
      compare(r->f[0], FbleUnionValueArg(v), t->t[tag], what); break;
    }
    default: {
      if (!r) { SIM_CHECK(FbleFuncValueFunction(v) == NULL, "wrong-value", "%s: an undefined function is defined", what); return; }
      FbleFunction* f = FbleFuncValueFunction(v);
      SIM_CHECK(f != NULL && f->executable.num_args <= (size_t)t->n && f->executable.num_args > 0, "wrong-value", "%s: not a function of %d arguments", what, t->n);
    }
  }
}
static FbleValue* real_arg(RV* r, Ty* t) {
  if (t->k == TS) { FbleValue* f[64]; for (int i = 0; i < t->n; ++i) f[i] = real_arg(r->f[i], t->t[i]); return FbleNewStructValue(heap, (size_t)t->n, f); }
  if (t->k == TU) return FbleNewUnionValue(heap, (size_t)r->tag, real_arg(r->f[0], t->t[r->tag]));
  FbleExecutable e = {(size_t)natives[r->tag].nargs, 0, nat_fns[r->tag]};
  return FbleNewFuncValue(heap, &e, (size_t)natives[r->tag].idx + 1000000, NULL);
}
static int call_cmp(const void* a, const void* b) { const Call* x = a, *y = b; return x->nat != y->nat ? x->nat - y->nat : x->h < y->h ? -1 : x->h > y->h; }
static size_t err_len(void) { fflush(stderr); return vfs_stderr()->len; }
static bool located_error(size_t from) {
  fflush(stderr);
  for (const char* s = vfs_stderr()->data + from; (s = strstr(s, ": error: ")); s += 5) {
    const char* q = s; int digits = 0, colons = 0;
    while (q > vfs_stderr()->data && (q[-1] == ':' || (q[-1] >= '0' && q[-1] <= '9'))) { --q; if (*q == ':') colons++; else digits++; }
    if (digits >= 2 && colons >= 2) return true;
  }
  return false;
}
static const char* tail_err(size_t from) { fflush(stderr); const char* s = vfs_stderr()->data + from; size_t n = strlen(s); return n > 700 ? s + n - 700 : s; }

static bool g_profile, extra_dropped;
static uint64_t nprog, ndrop, nerr, nruns, ninject, ncompiled, nprofiled, napply;

#include "prog_c.h"
#include "prog_prof.h"

// The order in which operands are evaluated is not specified. A program that
// makes an error in one and loops forever in another may do either.
static long ticks; static jmp_buf tick_jmp;
static void tick(void) { if (++ticks > 400000) { sim_tick_hook = NULL; longjmp(tick_jmp, 1); } }

// What a run did, as far as it must not depend on the engine.
static uint64_t rec_calls, rec_prof, rec_lcg; static char* rec_err; static size_t rec_errn;
static int rec_rand(void) { rec_lcg = rec_lcg * 6364136223846793005ull + 1442695040888963407ull; return (int)(rec_lcg >> 33); }
static uint64_t hstr(const char* x) { return sim_hash(x, strlen(x), 14695981039346656037ull); }
static uint64_t prof_digest(FbleProfile* p) {
  uint64_t h = 0;
  for (size_t i = 0; i < p->blocks.size; ++i) {
    FbleBlockProfile* b = p->blocks.xs[i]; uint64_t n = hstr(b->name.name->str);
    h += mix(mix(mix(n, b->block.count), b->block.time), b->self);
    for (size_t j = 0; j < b->callees.size; ++j) { FbleCallData* c = b->callees.xs[j]; h += mix(mix(mix(n * 3, hstr(p->blocks.xs[c->id]->name.name->str)), c->count), c->time); }
  }
  return h;
}
static void record_run(size_t from) {
  fflush(stderr); free(rec_err); rec_err = NULL;
  rec_errn = vfs_stderr()->len - from; rec_err = malloc(rec_errn + 1); memcpy(rec_err, vfs_stderr()->data + from, rec_errn); rec_err[rec_errn] = 0;
  // Errors in a whole module are located at the line of lib that called the module.
  for (char* q = rec_err; (q = strstr(q, "/link.c:")); ) { q += 8; size_t k = strspn(q, "0123456789:"); memmove(q, q + k, strlen(q + k) + 1); }
  rec_calls = call_seq; rec_prof = prof_digest(prof);
}

// One complete real run: link, evaluate, apply, compare, free.
static void real_run(bool profile, long failat, bool again, bool compiled) {
  size_t base = sim_live_bytes();
  size_t e0 = err_len();
  fail_at = failat; failed = false; real_calls = 0; undefined_arg = false;
  heap = FbleNewValueHeap();
  prof = FbleNewProfile(profile);
  nruns++; if (profile) nprofiled++;
  FbleBlockId nb[MAXNAT];
  if (profile) for (int i = 0; i < nnatives; ++i) {
    char q[20]; sprintf(q, "native-%d", i); FbleLoc nl = FbleNewLoc("sim", 1, 1);
    FbleName nm = {.name = FbleNewString(q), .space = FBLE_NORMAL_NAME_SPACE, .loc = nl};
    nb[i] = FbleAddBlockToProfile(prof, nm);
  } else memset(nb, 0, sizeof nb);
  FbleValue* linked;
  if (compiled) linked = link_compiled();
  else {
    FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, dirname_);
    FbleModulePath* mp = FbleParseModulePath("/Main%");
    linked = FbleLink(heap, prof, NULL, sp, mp);
    FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  }
  if (!linked) sim_fail("rejected", "a well-typed program was rejected: %s", tail_err(e0));
  size_t e1 = err_len(), e2 = e1; (void)e2; call_seq = 1;
  bool had_failure = false, applied_extra = false; int rounds_run = 0;
  FbleValue* fn = FbleEval(heap, linked, prof);
  FbleValue* res = NULL;
  FbleValue* extra[3] = {0};
  if (ref_main_status == REF_ERROR) {
    SIM_CHECK(fn == NULL, "error-missed", "evaluating the modules must fail (%s), but it gave a value", ref_why);
    SIM_CHECK(located_error(e1), "error-unlocated", "no located error message: %s", tail_err(e1));
    // The heap is still good for other work.
  } else {
    SIM_CHECK(fn != NULL, "spurious-error", "evaluating the program gave no value: %s", tail_err(e1));
    for (int rounds = 0; ; ++rounds) {
      FbleValue* args[24];
      for (int i = 0; i < main_nargs; ++i) {
        args[i] = real_arg(main_args[i], main_ty->t[i]);
        if (main_ty->t[i]->k == TF) {
          FbleExecutable e = {(size_t)natives[i].nargs, 0, nat_fns[i]}; args[i] = FbleNewFuncValue(heap, &e, profile ? nb[i] : 0, NULL);
        }
      }
      e1 = err_len();
      if (sim_verbose()) sim_note("apply main to %d arguments (fail at %ld)", main_nargs, fail_at);
      res = main_nargs ? FbleApply(heap, fn, (size_t)main_nargs, args, prof) : fn;
      napply++; rounds_run++; if (failed) had_failure = true;
      sim_ev("applied", res != NULL, real_calls, 0);
      bool want_fail = ref_status == REF_ERROR || (fail_at > 0 && fail_at <= nref_calls && ref_status == REF_OK);
      if (want_fail || failed) {
        SIM_CHECK(res == NULL, "error-missed", "evaluation must fail (%s), but it gave a value", failed ? "native failure" : ref_why);
        // A native that fails reports its own error.
        SIM_CHECK(failed || undefined_arg || located_error(e1), "error-unlocated", "no located error message: '%s'", tail_err(e1));
        if (ref_status == REF_OK) SIM_CHECK(failed && real_calls == fail_at, "calls-after-failure", "%d native calls, the failure was at call %ld", real_calls, fail_at);
        sim_probe(failed ? "native-failure-contained" : "runtime-error-contained");
      } else {
        SIM_CHECK(res != NULL, "spurious-error", "evaluation gave no value: %s", tail_err(e1));
        SIM_CHECK(!strstr(vfs_stderr()->data + e1, ": error: "), "spurious-error", "evaluation succeeded but printed: %s", tail_err(e1));
        cmp_budget = 3000; compare(ref_result, res, main_nargs ? (main_ty->n == main_nargs ? main_ty->ret : residual(main_ty, main_nargs)) : main_ty, "result");
        SIM_CHECK(real_calls == nref_calls, "native-calls", "natives were called %d times, %d expected", real_calls, nref_calls);
        qsort(calls, (size_t)real_calls, sizeof(Call), call_cmp);
        for (int i = 0; i < real_calls; ++i) SIM_CHECK(calls[i].nat == ref_calls[i].nat && calls[i].h == ref_calls[i].h, "native-calls", "calls of natives differ from those expected (e.g. native %d)", calls[i].nat);
      }
      if (rounds || !again) break;
      // Once more on the same heap, without a failure.
      if (sim_p(1, 3)) { FbleValueFullGc(heap); sim_fault("full-gc"); }
      fail_at = 0; failed = false; real_calls = 0;
      sim_probe("reused-heap");
    }
    // Function results are applied to data.
    Ty* rt = main_nargs ? (main_ty->n == main_nargs ? main_ty->ret : residual(main_ty, main_nargs)) : main_ty;
    if (res && nextra && rt->k == TF) {
      for (int x = 0; x < nextra; ++x) {
        FbleValue* args[24]; for (int i = 0; i < rt->n; ++i) args[i] = real_arg(extra_args[x][i], rt->t[i]);
        e1 = err_len(); fail_at = 0; failed = false;
        extra[x] = FbleApply(heap, res, (size_t)rt->n, args, prof);
        if (ref_errs[x] == REF_ERROR) { SIM_CHECK(extra[x] == NULL, "error-missed", "applying the result must fail (%s)", ref_why); SIM_CHECK(located_error(e1), "error-unlocated", "no located error message"); }
        else {
          SIM_CHECK(extra[x] != NULL, "spurious-error", "applying the result gave no value: %s", tail_err(e1));
          cmp_budget = 3000; compare(ref_extra[x], extra[x], rt->ret, "applied result");
        }
        sim_probe("result-function-applied"); applied_extra = true;
      }
      for (int x = 0; x < nextra; ++x) if (extra[x]) { cmp_budget = 1000; compare(ref_extra[x], extra[x], rt->ret, "earlier result"); }
    }
    if (res && ref_status == REF_OK) {
      if (sim_p(1, 4)) { FbleValueFullGc(heap); sim_fault("full-gc"); }
      cmp_budget = 1500; compare(ref_result, res, rt, "result afterwards");
    }
  }
  if (profile && g_profile) {
    check_graph(!failed && ref_status == REF_OK); check_report(prof);
    bool xs_ok = true; for (int x = 0; x < nextra; ++x) if (ref_errs[x]) xs_ok = false;
    if (ref_status == REF_OK && !had_failure && xs_ok && !extra_dropped) check_counts(rounds_run, nextra > 0 && applied_extra);
  }
  record_run(e2);
  FbleFreeValueHeap(heap); heap = NULL;
  FbleFreeProfile(prof);
  if (compiled) unload_compiled();
  size_t now = sim_live_bytes();
  SIM_CHECK(now == base, "leak", "%ld bytes are still allocated after the heap was freed", (long)(now - base));
}

// The same run by the interpreter and by generated code.
static void run_pair(bool errs) {
  (void)errs;
  if (!compile_program()) return;
#ifdef SIM_A64
  int pairs = 1 + (int)sim_u(2);
#else
  int pairs = 1;
#endif
  for (int i = 0; i < pairs; ++i) {
    long at = nref_calls > 0 && ref_status == REF_OK && sim_p(1, 2) ? 1 + (long)sim_u((uint64_t)nref_calls) : 0;
    bool p = sim_p(2, 3), again = sim_p(1, 3); uint64_t lcg = sim_u(1u << 30);
    ticks = 0; rec_lcg = lcg; sim_rand_hook = rec_rand;
    real_run(p, at, again, false);
    uint64_t calls1 = rec_calls, prof1 = rec_prof; char* err1 = rec_err; rec_err = NULL;
    sim_heap_random(); ticks = 0; rec_lcg = lcg;
    real_run(p, at, again, true);
    sim_rand_hook = NULL;
    SIM_CHECK(!strcmp(err1, rec_err), "error-text", "the interpreter reports '%s', the generated code '%s'", err1, rec_err);
    SIM_CHECK(calls1 == rec_calls, "native-order", "the generated code calls application functions in another order");
    SIM_CHECK(!p || prof1 == rec_prof, "profile", "the generated code leaves another profile than the interpreter");
    if (p) sim_probe("profiles-compared");
    if (err1[0]) sim_probe("error-texts-compared");
    free(err1);
    sim_heap_random();
  }
#ifdef SIM_A64
  sim_count("simulated-instructions", a64_total_insns); sim_count("calls-into-the-library", a64_total_calls); sim_count("assembly-bytes", a64_text_bytes);
#endif
}

#include "prog_big.h"

static void run_prog(bool errs) {
  vfs_reset(); vfs_std(false, false, true); vfs_root_readonly = true;
  arena_reset();
  g_errors = errs ? sim_p(2, 3) : sim_p(1, 12); g_wild = sim_p(1, 8);
  nprog = ndrop = nerr = nruns = ninject = ncompiled = nprofiled = napply = 0;
  sim_heap_random();
  gen_program();
  print_program();
  nextra = 0; extra_dropped = false; memset(ref_errs, 0, sizeof ref_errs); sim_tick_hook = NULL;
  for (int i = 0, nat = 0; i < main_nargs; ++i) {
    fuel = 100000;
    if (main_ty->t[i]->k == TF) { main_args[i] = rv(R_NAT, 0); main_args[i]->tag = nat++; }
    else if (sim_p(1, 4)) { build_left = 400; build_stop = 150; main_args[i] = build(main_ty->t[i], mix(sim_u(1u << 30), 9), 400); build_left = -1; build_stop = 7; sim_probe("large-argument"); }
    else main_args[i] = build(main_ty->t[i], mix(sim_u(1u << 30), 9), 3 + (int)sim_u(6));
  }
  if (ref_run() == REF_DROP) { sim_probe("dropped-too-long"); sim_state(1); return; }
  ref_status = ref_main_status;
  snap(0);
  if (ref_main_status == REF_OK) {
    fuel = 60000; nref_calls = 0; 
    ref_status = ref_apply();
    if (ref_status == REF_DROP) { sim_probe("dropped-too-long"); sim_state(1); return; }
  }
  qsort(ref_calls, (size_t)nref_calls, sizeof(Call), call_cmp);
  ref_calls_main = nref_calls;
  snap(1);
  if (ref_status == REF_OK) {
    Ty* rt = main_nargs ? (main_ty->n == main_nargs ? main_ty->ret : residual(main_ty, main_nargs)) : main_ty;
    bool data = rt->k == TF; if (data) for (int i = 0; i < rt->n; ++i) data = data && rt->t[i]->isdata;
    if (data) for (int x = 0; x < 3; ++x) {
      fuel = 60000; RV** a = extra_args[nextra];
      for (int i = 0; i < rt->n; ++i) a[i] = build(rt->t[i], mix(sim_u(1u << 30), 9), 3 + (int)sim_u(4));
      int keep = nref_calls; const char* w = ref_why;
      int c = setjmp(ref_jmp); depth = 0;
      if (c == 0) ref_extra[nextra] = apply(ref_result, rt->n, a);
      nref_calls = keep; ref_why = w;
      if (c == REF_DROP) { extra_dropped = true; break; }
      ref_errs[nextra++] = c;
    }
  }
  snap(2);
  if (ref_status == REF_ERROR) sim_probe("program-with-error");
  if (nref_calls) sim_probe("natives-called");
  if (maxdepth_seen > 200) sim_probe("deep-recursion");
  unsigned k = errs ? 2 : 1 + (unsigned)sim_u(2);
  ticks = 0; sim_tick_hook = g_wild && (ref_status == REF_ERROR || ref_errs[0] || ref_errs[1] || ref_errs[2]) ? tick : NULL;
  if (setjmp(tick_jmp)) { sim_probe("loops-instead-of-error"); sim_state(2); return; }
#ifdef SIM_A64
  run_pair(errs);
#else
  for (unsigned i = 0; i < k; ++i) {
    long at = 0; ticks = 0;
    if (errs && nref_calls > 0 && ref_status == REF_OK && sim_p(4, 5)) at = 1 + (long)sim_u((uint64_t)nref_calls);
    real_run(g_profile || sim_p(1, 3), at, errs ? true : sim_p(1, 4), false);
    sim_heap_random();
  }
  if (compile_wanted()) run_pair(errs);
#endif
  sim_tick_hook = NULL; sim_nontrivial();
  uint64_t h = 3; for (int i = 0; i < nblks; ++i) h = mix(h, (uint64_t)blks[i].count);
  sim_state(mix(h, (uint64_t)nref_calls * 4 + (uint64_t)ref_status));
  sim_count("program-bytes", text_len); sim_count("evaluations", nruns); sim_count("profiled-evaluations", nprofiled); sim_count("compiled-evaluations", ncompiled);
  sim_sample("modules=%d types=%d text=%zu natives=%d calls=%d status=%s blocks=%d gc_mode=%u merge_mode=%u chunk=%zu", nmods, nty, text_len, nnatives, nref_calls, ref_status == REF_OK ? "value" : ref_why, nblks, sim_heap.gc_mode, sim_heap.merge_mode, FbleSimChunkSize);
}
static void run_c04(void) { if (sim_p(1, 250)) { run_big(false, sim_p(1, 5)); return; } g_profile = false; run_prog(false); }
static void run_c05(void) { if (sim_p(1, 250)) { run_big(true, sim_p(1, 5)); return; } g_profile = false; run_prog(true); }
static void run_c06(void) { if (sim_p(1, 3)) { run_profile_api(); return; } g_profile = true; run_prog(false); }

#ifdef SIM_A64
static void run_c19(void) { a64_total_insns = a64_total_calls = a64_text_bytes = 0; if (sim_p(1, 20)) { run_big(sim_p(1, 2), true); return; } g_profile = sim_p(1, 2); run_prog(sim_p(1, 2)); }
void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C19", run_c19, 1500, 60000, 60},
  {NULL, NULL, 0, 0, 0},
};
#else
#include "prog_mem.h"

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C03", run_c03, 4000, 60000, 20},
  {"C04", run_c04, 22000, 400000, 40},
  {"C05", run_c05, 20000, 400000, 40},
  {"C06", run_c06, 20000, 400000, 40},
  {NULL, NULL, 0, 0, 0},
};
#endif
