// C03: random tail recursive loops and recursions; memory and C stack are
// watched from an application function the program calls in every iteration.
enum { MU, MB, MP, MM, MS, ML, MC, MF, NDT };
static const char* MT[] = {"Unit@", "Bool@", "P@", "M@", "S@", "L@", "C@", "F@"};
typedef struct { char name[24]; int t; } MV;
static MV mv[200]; static int nmv; static int muid, mleft;
static Buf mb;
typedef struct { int n; int t[5]; } ML_;   // a loop function: argument types, the last one is MM
static ML_ mloop[5]; static int nloop; static bool mtail; static int mdepth;
#define E_(...) buf_printf(&mb, __VA_ARGS__)
static int mvar(int t) { int c[200], n = 0; for (int i = 0; i < nmv; ++i) if (mv[i].t == t) c[n++] = i; if (!n) return -1; return c[n - 1 - (int)sim_u((uint64_t)n)]; }
static void mpush(const char* name, int t) { if (nmv == 200) sim_broken("variables"); snprintf(mv[nmv].name, sizeof mv[nmv].name, "%s", name); mv[nmv++].t = t; }
static void mdata(int t, int d);
static void mclosure(int d) {   // captures data, never another closure
  int id = muid++, keep = nmv; MV sv[200]; int n = 0; MV all[200]; memcpy(all, mv, sizeof mv);
  for (int i = 0; i < nmv; ++i) if (mv[i].t != MF) sv[n++] = mv[i];
  memcpy(mv, sv, sizeof(MV) * (size_t)n); nmv = n;
  E_("(Bool@ _c%d) { ", id); char q[24]; snprintf(q, sizeof q, "_c%d", id); mpush(q, MB); mdata(MM, d - 1); E_("; }");
  memcpy(mv, all, sizeof mv); nmv = keep;
}
static void mdata(int t, int d) {
  int v = mvar(t);
  if (--mleft < 0 && v >= 0) { E_("%s", mv[v].name); return; }
  if (mleft < 0) d = 0;
  if (v >= 0 && (d <= 0 || sim_p(1, 3))) { E_("%s", mv[v].name); return; }
  if (d > 0 && sim_p(1, 6)) {  // by a choice
    E_("{ "); mdata(MB, d - 1); E_("; }.?(true: "); mdata(t, d - 1); E_(", false: "); mdata(t, d - 1); E_(")"); return;
  }
  if (d > 0 && sim_p(1, 8)) {  // through a definition
    int id = muid++; int keep = nmv, k = (int)sim_u(MF); E_("{ %s d%d = ", MT[k], id); mdata(k, d - 1); E_("; ");
    char q[24]; snprintf(q, sizeof q, "d%d", id); mpush(q, k); mdata(t, d - 1); E_("; }"); nmv = keep; return;
  }
  switch (t) {
    case MU: E_("Unit@()"); break;
    case MB:
      if (d > 0) switch (sim_u(6)) {
        case 1: E_("Not("); mdata(MB, d - 1); E_(")"); return;
        case 2: E_("coin("); mdata(MU, d - 1); E_(")"); return;
        case 3: E_("{ "); mdata(MP, d - 1); E_("; }.%s", sim_p(1, 2) ? "a" : "b"); return;
        case 4: E_("Empty("); mdata(ML, d - 1); E_(")"); return;
      }
      E_("Bool@(%s: Unit@())", sim_p(1, 2) ? "true" : "false"); break;
    case MP: if (d > 0 && sim_p(1, 4)) { E_("Swap("); mdata(MP, d - 1); E_(")"); break; }
      if (sim_p(1, 2)) E_("P@("); else E_("@(a: "); { bool nm = mb.data[mb.len - 1] == ' '; mdata(MB, d - 1); E_(nm ? ", b: " : ", "); mdata(MB, d - 1); E_(")"); } break;
    case MM: {
      int f = mvar(MF); if (f >= 0 && d > 0 && sim_p(1, 4)) { E_("%s(", mv[f].name); mdata(MB, d - 1); E_(")"); break; }
      int s = mvar(MS); if (s >= 0 && sim_p(1, 4)) { E_("%s.m", mv[s].name); break; }
      switch (d <= 0 ? 0 : sim_u(4)) {
        case 1: E_("M@(x: "); mdata(MB, d - 1); break;
        case 2: E_("M@(y: "); mdata(MP, d - 1); break;
        case 3: E_("{ "); mclosure(d); E_("; }("); mdata(MB, d - 1); break;
        default: E_("M@(z: Unit@()"); break;
      }
      E_(")"); break;
    }
    case MS: E_("S@("); mdata(MM, d - 1); E_(", "); mdata(MP, d - 1); E_(", "); mdata(MB, d - 1); E_(")"); break;
    case ML: switch (d <= 0 ? 0 : sim_u(4)) {
        case 1: E_("Map("); if (sim_p(1, 2)) E_("Not"); else { E_("(Bool@ _x) { "); mdata(MB, d - 2); E_("; }"); } E_(", "); mdata(ML, d - 2); E_(")"); break;
        case 2: { int n = (int)sim_u(7); E_("Bools["); for (int i = 0; i < n; ++i) { if (i) E_(", "); mdata(MB, d - 2); } E_("]"); break; }
        case 3: E_("big"); break;
        default: E_("L@(nil: Unit@())"); break;
      } break;
    case MC: { static const char* w[] = {"a", "", "abcabc", "ccccccccccccccccccccc", "ba"}; E_("Chars|"); E_("'%s'", w[sim_u(5)]); break; }
    default: mclosure(d);
  }
}
static void margs(int j, int from, int to, int d) { for (int i = from; i < to; ++i) { if (i > from) E_(", "); mdata(mloop[j].t[i], d); } }
// A function of type K@ = (M@) { S@; } that goes on with loop j.
static void mtailcall(int d);
static void mk(int d) {
  int j = (int)sim_u((uint64_t)nloop), m = mloop[j].n;
  switch (sim_u(d > 0 ? 6 : 1)) {
    case 1: { int id = muid++; E_("{ (M@ m%d) { ", id); int keep = nmv; char q[24]; snprintf(q, sizeof q, "m%d", id); mpush(q, MM); mtailcall(d - 1); nmv = keep; E_("}; }"); return; }
    case 2: E_("{ "); mdata(MB, d - 1); E_("; }.?(true: "); mk(d - 1); E_(", false: "); mk(d - 1); E_(")"); return;
    case 3: E_("%sCompose(", sim_p(1, 2) ? "/H%." : ""); mk(d - 1); E_(", (M@ _x) { "); mdata(MM, d - 1); E_("; })"); return;
    case 4: { // local recursive definition
      int id = muid++; E_("{ K@ in%d = (M@ x%d) { { ", id, id); int keep = nmv; char q[24]; snprintf(q, sizeof q, "x%d", id);  mpush(q, MM);
      E_("x%d; }.?(x: in%d(M@(z: Unit@())), : ", id, id); 
      E_("{ "); mtailcall(d - 1); E_("}"); E_("); }; in%d; }", id); nmv = keep; return;
    }
  }
  if (m == 1) { E_("L%d", j); return; }
  int c = 1 + (int)sim_u((uint64_t)m - 1);
  if (c < m - 1) { E_("L%d(", j); margs(j, 0, c, d); E_(")("); margs(j, c, m - 1, d); E_(")"); }
  else { E_("L%d(", j); margs(j, 0, m - 1, d); E_(")"); }
}
// A statement (ending in ';') that continues with some loop.
static void mgarbage(int n, int d) {
  for (int i = 0; i < n; ++i) {
    int id = muid++; char q[24];
    switch (sim_u(5)) {
      case 1: snprintf(q, sizeof q, "_g%d", id); E_("(Bool@) { M@; } %s = ", q); mclosure(d); E_(";\n"); mpush(q, MF); break;
      case 2: E_("(Bool@) { Bool@; } _h%d = (Bool@ b%d) { b%d.?(true: _h%d(Bool@(false: Unit@())), false: _k%d(b%d)); }, (Bool@) { Bool@; } _k%d = (Bool@ e%d) { _h%d(e%d); };\n", id, id, id, id, id, id, id, id, id, id);
        break;
      case 3: E_("K@ _q%d = ", id); mk(d - 1); E_(";\n"); break;
      default: { int t = (int)sim_u(MF); snprintf(q, sizeof q, "_v%d", id); E_("%s %s = ", MT[t], q); mdata(t, d); E_(";\n"); mpush(q, t); }
    }
  }
}
static void mtailcall(int d) {
  int j = (int)sim_u((uint64_t)nloop), m = mloop[j].n, id = muid++, keep = nmv; char q[24];
  if (sim_p(1, 3)) mgarbage(1 + (int)sim_u(2), d - 1);
  switch (d <= 0 || mleft < 0 ? sim_u(2) : sim_u(14)) {
    case 1: if (m > 1) { int c = 1 + (int)sim_u((uint64_t)m - 1); E_("L%d(", j); margs(j, 0, c, d - 1); E_(")("); margs(j, c, m, d - 1); E_(");"); break; } // fallthrough
    case 0: E_("L%d(", j); margs(j, 0, m, d - 1); E_(");"); break;
    case 2: mk(d); E_("("); mdata(MM, d - 1); E_(");"); break;
    case 3: E_("%sApply<M@, S@>(", sim_p(1, 2) ? "/H%." : ""); mk(d - 1); E_(", "); mdata(MM, d - 1); E_(");"); break;
    case 4: E_("tail("); mk(d - 1); E_(", "); mdata(MM, d - 1); E_(");"); break;
    case 5: E_("M@ m%d <- %sReturn<M@, S@>(", id, sim_p(1, 2) ? "/H%." : ""); mdata(MM, d - 1); E_(");\n"); snprintf(q, sizeof q, "m%d", id); mpush(q, MM); mtailcall(d - 1); break;
    case 6: E_("@(u: "); mdata(MB, d - 1); E_(", f: "); mk(d - 1); E_(").f("); mdata(MM, d - 1); E_(");"); break;
    case 7: E_("KL["); mk(d - 1); if (sim_p(1, 2)) { E_(", "); mk(d - 1); } E_("].cons.head("); mdata(MM, d - 1); E_(");"); break;
    case 8: E_("{ "); mdata(MB, d - 1); E_("; }.?(true: { "); mtailcall(d - 1); E_("}, false: { "); mtailcall(d - 1); E_("});"); break;
    case 9: E_("{ "); mdata(MM, d - 1); E_("; }.?(y: { "); mtailcall(d - 1); E_("});\n"); mtailcall(d - 1); break;
    case 10: E_("Box(Unit@(), "); mk(d - 1); E_(")("); mdata(MM, d - 1); E_(");"); break;          // returns the function
    case 11: { int k = (int)sim_u(MF); E_("{ (%s x%d) { ", MT[k], id); snprintf(q, sizeof q, "x%d", id); mpush(q, k); mtailcall(d - 1); nmv = keep; E_("}; }("); mdata(k, d - 1); E_(");"); break; }
    case 12: E_("Later("); mdata(MB, d - 1); E_(", "); mk(d - 1); E_(")("); mdata(MM, d - 1); E_(");"); break;   // makes a new function
    default: E_("M@(x: "); mdata(MB, d - 1); E_(").?(x: { "); mtailcall(d - 1); E_("}, : S@("); mdata(MM, 1); E_(", "); mdata(MP, 1); E_(", "); mdata(MB, 1); E_("));"); break;
  }
  nmv = keep; E_(" ");
}
static const char* H_text =
  "<@ A@, @ B@>((A@) { B@; }, A@) { B@; } Apply = <@ A@, @ B@>((A@) { B@; } f, A@ a) { f(a); };\n"
  "<@ A@, @ B@>(A@, (A@) { B@; }) { B@; } Return = <@ A@, @ B@>(A@ a, (A@) { B@; } f) { f(a); };\n";
static void mem_program(int size) {
  mb.len = 0; nmv = 0; muid = 0;
  Buf h = {0};
  buf_printf(&h, "@ Unit@ = *(); @ Bool@ = +(Unit@ true, Unit@ false); @ P@ = *(Bool@ a, Bool@ b); @ M@ = +(Bool@ x, P@ y, Unit@ z); @ S@ = *(M@ m, P@ p, Bool@ q);\n%s"
    "%% Compose = ((M@) { S@; } f, (M@) { M@; } g, M@ m) { f(g(m)); };\n@(Unit@, Bool@, P@, M@, S@, Apply, Return, Compose);\n", H_text);
  vfs_put("/sim/prog/H.fble", h.data, h.len); buf_free(&h);
  E_("@ Unit@ = /H%%.Unit@; @ Bool@ = /H%%.Bool@; @ P@ = /H%%.P@; @ M@ = /H%%.M@; @ S@ = /H%%.S@;\n@ F@ = (Bool@) { M@; }; @ K@ = (M@) { S@; };\n");
  E_("@ L@ = +(*(Bool@ head, L@ tail) cons, Unit@ nil);\n@ A@ = +(Unit@ a, Unit@ b, Unit@ c);\n@ C@ = +(*(A@ head, C@ tail) cons, Unit@ nil);\n@ KL@ = +(*(K@ head, KL@ tail) cons, Unit@ nil);\n%s", H_text);
  E_("(L@) { L@; } Bools = (L@ l) { l; };\n(C@) { C@; } Chars = (C@ l) { l; };\n(KL@) { KL@; } KL = (KL@ l) { l; };\n"
     "%% Not = (Bool@ b) { b.?(true: Bool@(false: Unit@()), false: Bool@(true: Unit@())); };\n%% Swap = (P@ p) { P@(p.b, p.a); };\n%% Empty = (L@ l) { l.?(cons: Bool@(false: Unit@()), nil: Bool@(true: Unit@())); };\n"
     "((Bool@) { Bool@; }, L@) { L@; } Map = ((Bool@) { Bool@; } f, L@ l) { l.?(nil: l); L@(cons: @(head: f(l.cons.head), tail: Map(f, l.cons.tail))); };\n"
     "%% Compose = (K@ f, (M@) { M@; } g, M@ m) { f(g(m)); };\n%% Box = (Unit@ _u, K@ k) { k; };\n%% Later = (Bool@ b, K@ k) { K@ r = (M@ m) { b.?(true: k(m), false: k(M@(x: b))); }; r; };\n");
  E_("((Unit@) { Bool@; } go, (Unit@) { Bool@; } coin, (K@, M@) { S@; } tail, S@ s0, L@ big) {\n");
  mpush("s0", MS);
  nloop = 1 + (int)sim_u(4);
  for (int i = 0; i < nloop; ++i) { mloop[i].n = 1 + (int)sim_u(4); for (int k = 0; k < mloop[i].n - 1; ++k) mloop[i].t[k] = (int)sim_u(NDT); mloop[i].t[mloop[i].n - 1] = MM; }
  for (int i = 0; i < nloop; ++i) {
    sim_step(); mleft = size;
    E_("%s(", i ? ", " : ""); for (int k = 0; k < mloop[i].n; ++k) E_("%s%s", k ? ", " : "", MT[mloop[i].t[k]]); E_(") { S@; } L%d = (", i);
    int keep = nmv; char q[24];
    for (int k = 0; k < mloop[i].n; ++k) { snprintf(q, sizeof q, "a%d_%d", i, k); E_("%s%s %s", k ? ", " : "", MT[mloop[i].t[k]], q); mpush(q, mloop[i].t[k]); }
    E_(") {\n");
    mgarbage((int)sim_u(3), 2 + (int)sim_u(2));
    E_("go(Unit@()).?(false: s0);\n");
    mgarbage((int)sim_u(3), 2 + (int)sim_u(2));
    if (!mtail) { E_("S@ r = { "); mtailcall(3); E_("};\n"); mgarbage((int)sim_u(2), 2); mpush("r", MS); if (sim_p(1, 2)) E_("r;"); else { mdata(MS, 2); E_(";"); } }
    else mtailcall(3 + (int)sim_u(2));
    nmv = keep; E_("\n}");
  }
  E_(";\n"); mleft = 40;
  if (!mtail || sim_p(1, 2)) { E_("S@ r0 = { "); mtailcall(2); E_("};\nS@(r0.m, "); mdata(MP, 1); E_(", r0.q);\n"); } else { mtailcall(2); E_("\n"); }
  E_("};\n");
  vfs_put("/sim/prog/Main.fble", mb.data, mb.len);
  if (sim_verbose()) sim_note_text(mb.data);
}
static long go_n, w1, w2, w3; static size_t max1, max2, live0; static uintptr_t sp0, deep1, deep2; static size_t sp_now;
extern size_t FbleMaxTotalBytesAllocated(void); extern void FbleResetMaxTotalBytesAllocated(void);
static FbleValue* mbool(bool b) { return FbleNewEnumValue(heap, b ? 0 : 1); }
static FbleValue* mem_go(FbleValueHeap* hp, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  (void)hp; (void)p; (void)f; (void)a; 
  uintptr_t d = sp0 - (uintptr_t)__builtin_frame_address(0);
  ++go_n;
  if (go_n >= w1 && go_n <= w2 && d > deep1) deep1 = d;
  if (go_n > w2 && d > deep2) deep2 = d;
  if (go_n == w1 && mtail) FbleResetMaxTotalBytesAllocated();
  if (go_n == w2) { max1 = FbleMaxTotalBytesAllocated(); if (mtail) FbleResetMaxTotalBytesAllocated(); }
  if (go_n == w3) { max2 = FbleMaxTotalBytesAllocated(); return mbool(false); }
  if (go_n > w3) return mbool(false);
  return mbool(true);
}
static uint64_t coin_s;
static FbleValue* mem_coin(FbleValueHeap* hp, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { (void)hp; (void)p; (void)f; (void)a; coin_s = coin_s * 6364136223846793005ull + 1442695040888963407ull; return mbool(coin_s >> 63); }
static FbleValue* mem_tail(FbleValueHeap* hp, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { (void)p; (void)f; FbleFunction* g = FbleFuncValueFunction(a[0]); return g ? FbleTailCall(hp, g, a[0], 1, a + 1) : NULL; }

static FbleValue* mem_list(int n) { FbleValue* xs[4000]; for (int i = 0; i < n; ++i) xs[i] = mbool(i & 1); return FbleNewListValue(heap, (size_t)n, xs); }
static void mem_run(bool profile, int big, bool compiled) {
  size_t base = sim_live_bytes(); size_t e0 = err_len();
  heap = FbleNewValueHeap(); prof = FbleNewProfile(profile);
  FbleValue* linked;
  if (compiled) linked = link_compiled();
  else {
    FbleSearchPath* sp = FbleNewSearchPath(); FbleAppendToSearchPath(sp, dirname_);
    FbleModulePath* mp = FbleParseModulePath("/Main%");
    linked = FbleLink(heap, prof, NULL, sp, mp);
    FbleFreeModulePath(mp); FbleFreeSearchPath(sp);
  }
  if (!linked) sim_broken("generated program rejected: %s", tail_err(e0));
  FbleValue* fn = FbleEval(heap, linked, prof);
  SIM_CHECK(fn != NULL, "spurious-error", "no main function: %s", tail_err(e0));
  FbleExecutable eg = {1, 0, mem_go}, ec = {1, 0, mem_coin}, et = {2, 0, mem_tail};
  FbleValue* args[5]; args[0] = FbleNewFuncValue(heap, &eg, 0, NULL); args[1] = FbleNewFuncValue(heap, &ec, 0, NULL); args[2] = FbleNewFuncValue(heap, &et, 0, NULL);
  if (profile) for (int i = 0; i < 3; ++i) { FbleLoc nl = FbleNewLoc("sim", 1, 1); FbleName nm = {.name = FbleNewString("native"), .space = FBLE_NORMAL_NAME_SPACE, .loc = nl}; size_t id = FbleAddBlockToProfile(prof, nm); args[i] = FbleNewFuncValue(heap, i == 0 ? &eg : i == 1 ? &ec : &et, id, NULL); }
  FbleValue* u = FbleNewStructValue_(heap, 0); FbleValue* b = mbool(true);
  args[3] = FbleNewStructValue_(heap, 3, FbleNewUnionValue(heap, 2, u), FbleNewStructValue_(heap, 2, b, b), b);
  args[4] = mem_list(big);
  go_n = 0; deep1 = deep2 = 0; max1 = max2 = 0; sp0 = (uintptr_t)__builtin_frame_address(0); coin_s = sim_u(1u << 30) + 1;
  FbleResetMaxTotalBytesAllocated(); live0 = FbleMaxTotalBytesAllocated() - base;
  FbleValue* res = FbleApply(heap, fn, 5, args, prof);
  SIM_CHECK(res != NULL, "spurious-error", "the loop failed after %ld iterations: %s", go_n, tail_err(e0));
  bool full = go_n >= w3;
  sim_ev("loop", go_n, 0, 0);
  if (full) {
    size_t m1 = max1 - base, m2 = max2 - base, chunk = FbleSimChunkSize;
    sim_note("memory tail=%d gc=%u merge=%u chunk=%zu big=%d start=%zu m1=%zu m2=%zu d=%ld stack %zu %zu", mtail, sim_heap.gc_mode, sim_heap.merge_mode, chunk, big, live0, m1, m2, (long)(m2 - m1), (size_t)deep1, (size_t)deep2);

    if (mtail) {
      SIM_CHECK(m2 <= m1 + (m1 - live0) / 2 + chunk + 8192, "memory-growth", "a tail recursive loop used %zu bytes in iterations %ld to %ld, and %zu in iterations %ld to %ld", m1, w1, w2, m2, w2, w3);
      SIM_CHECK(deep2 <= deep1 + 8192, "stack-growth", "a tail recursive loop used %zu bytes of C stack by iteration %ld, and %zu by iteration %ld", (size_t)deep1, w2, (size_t)deep2, w3);
      sim_probe("tail-loop");
    } else {
      double k = (double)w3 / (double)w2;
      SIM_CHECK((double)(m2 - live0) <= 1.3 * k * (double)(m1 - live0) + 2.0 * (double)chunk + 16384, "memory-growth", "recursion used %zu bytes at depth %ld, and %zu at depth %ld", m1, w2, m2, w3);
      SIM_CHECK((double)deep2 <= 1.3 * k * (double)deep1 + 65536, "stack-growth", "recursion used %zu bytes of C stack at depth %ld, and %zu at depth %ld", (size_t)deep1, w2, (size_t)deep2, w3);
      sim_probe("recursion");
    }
  } else sim_probe("loop-ended-early");
  // What the loop used is given back.
  FbleValueFullGc(heap);
  FbleFreeValueHeap(heap); heap = NULL; FbleFreeProfile(prof);
  if (compiled) unload_compiled();
  size_t now = sim_live_bytes();
  SIM_CHECK(now == base, "leak", "%ld bytes are still allocated after the heap was freed", (long)(now - base));
  sim_count("iterations", (uint64_t)go_n);
}
static void run_c03(void) {
  vfs_reset(); vfs_std(false, false, true); vfs_root_readonly = true; arena_reset(); odd_names = 0; g_profile = false; sim_tick_hook = NULL; ncompiled = 0;
  snprintf(dirname_, sizeof dirname_, "/sim/prog");
  mtail = !sim_p(1, 5);
  int big = sim_p(1, 4) ? (int)sim_u(1500) : (int)sim_u(20);
  mem_program(20 + (int)sim_u(60));
  sim_heap_default(); sim_heap.gc_mode = (unsigned)sim_u(3); sim_heap.merge_mode = sim_p(1, 3) ? 2 : 0;
  static const size_t sizes[] = {65536, 8192, 2048, 16384}; FbleSimChunkSize = sizes[sim_u(4)];
  if (mtail) { w1 = 1000; w2 = 3000; w3 = 9000; if (sim_thorough) { w2 = 8000; w3 = 40000; } } else { w1 = 100; w2 = 250; w3 = 500 + 100 * (long)sim_u(8); }
  bool profile = sim_p(1, 4);
  mem_run(profile, big, false);
  if (sim_p(1, sim_thorough ? 20 : 60) && compile_program()) mem_run(profile, big, true);
  sim_nontrivial(); sim_state(sim_hash(mb.data, mb.len, 1)); sim_count("program-bytes", mb.len);
  sim_sample("%s loops=%d text=%zu iterations=%ld big=%d gc_mode=%u merge_mode=%u chunk=%zu profile=%d memory=%zu/%zu", mtail ? "tail" : "recursion", nloop, mb.len, go_n, big, sim_heap.gc_mode, sim_heap.merge_mode, FbleSimChunkSize, profile, max1, max2);
}
