// Large programs: thousands of variables, arguments, fields, tags, elements,
// captured variables, profile blocks and instructions, in source positions far
// into a file. Their results are known by construction.
static Ty* big_D; static Ty* big_L;
static char* big_items; static int big_nitems;
static long big_size(void) {
  static const int edge[] = {16, 32, 64, 128, 256, 512, 1024, 2048, 4096};
  if (sim_p(1, 3)) return 1 + (long)sim_u(4500);
  long n = edge[sim_u(9)] + (long)sim_u(7) - 3;
  return n;
}
static void item(Buf* items, int digit, const char* fmt, ...) {
  va_list ap; va_start(ap, fmt); char q[200]; vsnprintf(q, sizeof q, fmt, ap); va_end(ap);
  if (items->len) buf_printf(items, ", ");
  buf_printf(items, "%s", q);
  big_items = realloc(big_items, (size_t)big_nitems + 1); big_items[big_nitems++] = (char)digit;
}
static long some_index(long n) { static const int near[] = {63, 64, 127, 255, 256, 511, 512, 513, 1023, 2047, 4095, 4096}; if (sim_p(1, 5)) return n - 1; if (sim_p(1, 2)) { long k = near[sim_u(12)]; if (k < n) return k; } return (long)sim_u((uint64_t)n); }
// Finding a variable takes time linear in the number of variables.
static long big_left;
static void big_feature(Buf* b, Buf* items, int f, bool* has_list) {
  long n = big_size(); if (f == 6 && !sim_p(1, 8)) n = n % 1600 + 1;
  if (n > big_left) n = n % big_left + 1;
  big_left -= n; if (big_left < 20) big_left = 20; char p[20]; snprintf(p, sizeof p, "f%d_%d", f, big_nitems);
  uint64_t key = sim_u(1u << 20);
#define DIG(i) ((int)(mix(key, (uint64_t)(i)) % 10))
  switch (f) {
    case 0:    // many variables at once
      for (long i = 0; i < n; ++i) buf_printf(b, "D@ %sv%ld = D@(%d: u);\n", p, i, DIG(i));
      for (int i = 0; i < 12; ++i) { long k = some_index(n); item(items, DIG(k), "%sv%ld", p, k); }
      sim_probe("many-variables"); break;
    case 1: {  // a function of many arguments, sometimes applied in two steps
      if (n > 2500) n = 600 + n % 1900;
      buf_printf(b, "("); for (long i = 0; i < n; ++i) buf_printf(b, "%sD@", i ? ", " : "");
      buf_printf(b, ") { List@<D@>; } %sg = (", p);
      for (long i = 0; i < n; ++i) buf_printf(b, "%sD@ a%ld", i ? ", " : "", i);
      long k[6]; for (int i = 0; i < 6; ++i) k[i] = some_index(n);
      buf_printf(b, ") { List[a%ld, a%ld, a%ld, a%ld, a%ld, a%ld]; };\nList@<D@> %sr = %sg(", k[0], k[1], k[2], k[3], k[4], k[5], p, p);
      long cut = sim_p(1, 3) && n > 1 ? 1 + (long)sim_u((uint64_t)n - 1) : n;
      for (long i = 0; i < n; ++i) buf_printf(b, "%sd%d", i == cut ? ")(" : i ? ", " : "", DIG(i));
      buf_printf(b, ");\n");
      static const char* tails[] = {"", ".tail.cons", ".tail.cons.tail.cons", ".tail.cons.tail.cons.tail.cons", ".tail.cons.tail.cons.tail.cons.tail.cons", ".tail.cons.tail.cons.tail.cons.tail.cons.tail.cons"};
      for (int i = 0; i < 6; ++i) item(items, DIG(k[i]), "%sr.cons%s.head", p, tails[i]);
      sim_probe("many-arguments"); break;
    }
    case 2: {  // a struct of many fields
      if (n > 2500) n = 600 + n % 1900;
      buf_printf(b, "@ S%s@ = *(", p); for (long i = 0; i < n; ++i) buf_printf(b, "%sD@ f%ld", i ? ", " : "", i);
      buf_printf(b, ");\nS%s@ %ss = @(", p, p); for (long i = 0; i < n; ++i) buf_printf(b, "%sf%ld: d%d", i ? ", " : "", i, DIG(i));
      buf_printf(b, ");\n");
      for (int i = 0; i < 8; ++i) { long k = some_index(n); item(items, DIG(k), "%ss.f%ld", p, k); }
      long c = some_index(n), o = some_index(n); int dg = (int)sim_u(10);
      buf_printf(b, "S%s@ %st = %ss.@(f%ld: d%d);\n", p, p, p, c, dg);
      item(items, dg, "%st.f%ld", p, c); item(items, o == c ? dg : DIG(o), "%st.f%ld", p, o);
      sim_probe("many-fields"); break;
    }
    case 3: {  // a union of many tags
      bool data = sim_p(1, 2);
      buf_printf(b, "@ U%s@ = +(", p); for (long i = 0; i < n; ++i) buf_printf(b, "%s%s t%ld", i ? ", " : "", data && i % 3 == 0 ? "D@" : "Unit@", i);
      buf_printf(b, ");\n");
      for (int i = 0; i < 6; ++i) {
        long k = some_index(n); bool d = data && k % 3 == 0;
        buf_printf(b, "U%s@ %su%d = U%s@(t%ld: ", p, p, i, p, k); if (d) buf_printf(b, "d%d);\n", DIG(k)); else buf_printf(b, "u);\n");
        if (d) item(items, DIG(k), "%su%d.t%ld", p, i, k);
        // A select with some of the tags.
        long m = sim_p(1, 4) ? n : 1 + (long)sim_u(n < 40 ? (uint64_t)n : 40); uint64_t off = sim_u((uint64_t)n); long step = n / m; if (step < 1) step = 1;
        buf_printf(b, "D@ %ss%d = { %su%d.?(", p, i, p, i); long at = 0, got = -1;
        bool all = m == n;
        for (long j = all ? 0 : (long)(off % (uint64_t)step); j < n; j += all ? 1 : step) { if (!all && n - j < step && sim_p(1, 2)) j = n - 1; buf_printf(b, "%st%ld: d%d", at++ ? ", " : "", j, DIG(j + 7)); if (j == k) got = j; }
        if (at == n) buf_printf(b, "); };\n"); else buf_printf(b, "); d%d; };\n", DIG(i + 999999));
        item(items, got >= 0 ? DIG(k + 7) : DIG(i + 999999), "%ss%d", p, i);
      }
      sim_probe("many-tags"); break;
    }
    case 4: case 5:  // a long list or literal
      if (*has_list) return;
      *has_list = true;
      if (f == 4) { buf_printf(b, "List@<D@> list = List["); for (long i = 0; i < n; ++i) buf_printf(b, "%sd%d", i ? ", " : "", DIG(i)); buf_printf(b, "];\n"); }
      else { buf_printf(b, "List@<D@> list = List|'"); for (long i = 0; i < n; ++i) buf_printf(b, "%d", DIG(i)); buf_printf(b, "';\n"); }
      // Goes before the items.
      { int had = big_nitems; big_items = realloc(big_items, (size_t)(had + n)); memmove(big_items + n, big_items, (size_t)had); for (long i = 0; i < n; ++i) big_items[i] = (char)DIG(i); big_nitems += (int)n; }
      sim_probe(f == 4 ? "long-list" : "long-literal"); break;
    case 6: {  // a function that refers to many variables
      buf_printf(b, "List@<D@> %sr = {\n", p);
      for (long i = 0; i < n; ++i) buf_printf(b, "D@ w%ld = D@(%d: u);\n", i, DIG(i));
      buf_printf(b, "(Unit@) { List@<D@>; } g = (Unit@ %sx) {\nList@<D@> every = List[", p);
      for (long i = 0; i < n; ++i) buf_printf(b, "%sw%ld", i ? ", " : "", i);
      buf_printf(b, "];\n");
      long k[4]; for (int i = 0; i < 4; ++i) k[i] = some_index(n);
      buf_printf(b, "List[w%ld, w%ld, w%ld, w%ld, every.cons.head];\n};\ng(u);\n};\n", k[0], k[1], k[2], k[3]);
      static const char* tails[] = {"", ".tail.cons", ".tail.cons.tail.cons", ".tail.cons.tail.cons.tail.cons", ".tail.cons.tail.cons.tail.cons.tail.cons"};
      for (int i = 0; i < 4; ++i) item(items, DIG(k[i]), "%sr.cons%s.head", p, tails[i]);
      item(items, DIG(0), "%sr.cons%s.head", p, tails[4]);
      sim_probe("many-captured"); break;
    }
    case 7: {  // many functions, each calling the one before
      if (n > 1500) n = 200 + n % 1300;
      buf_printf(b, "(D@) { D@; } %sg0 = (D@ x) { x; };\n", p);
      for (long i = 1; i < n; ++i) buf_printf(b, "(D@) { D@; } %sg%ld = (D@ x) { x.?(0: %sg%ld(d%d)); %sg%ld(x); };\n", p, i, p, i - 1, 1 + DIG(i) % 9, p, i - 1);
      int d = (int)sim_u(10), e = d; for (long i = n - 1; i > 0; --i) if (e == 0) e = 1 + DIG(i) % 9;
      item(items, e, "%sg%ld(d%d)", p, n - 1, d);
      sim_probe("many-functions"); break;
    }
    default: {  // a lot of code between a branch and its target
      int m = 30 + (int)sim_u(45), dg = (int)sim_u(10), sel = (int)sim_u(3);
      buf_printf(b, "@ W%s@ = *(", p); for (int i = 0; i < 2400; ++i) buf_printf(b, "%sD@ f%d", i ? ", " : "", i);
      buf_printf(b, ");\n(D@) { D@; } %sg = (D@ x) {\nx.?(0: {\n", p);
      for (int i = 0; i < m; ++i) { buf_printf(b, "W%s@ w%d = W%s@(", p, i, p); for (int j = 0; j < 2400; ++j) buf_printf(b, "%sx", j ? "," : ""); buf_printf(b, ");\n"); }
      buf_printf(b, "w%d.f2399; }, 1: d%d);\nd%d;\n};\n", (int)sim_u((uint64_t)m), dg, 9 - dg);
      item(items, sel == 0 ? 0 : sel == 1 ? dg : 9 - dg, "%sg(d%d)", p, sel);
      sim_probe("much-code"); break;
    }
  }
#undef DIG
}
static long big_line, big_col; static bool big_err;
// Where an error must be reported, and why; appends an expression of type D@.
static void big_error(Buf* b, bool in_call) {
  static const char* expr[][2] = {
    {"{ Unit@ z = ", "d3.5; d0; }"}, {"{ D@ q = { ", "q.?(0: d1); d2; }; q; }"}, {"{ D@ q = { Unit@ z = ", "q.3; d0; }; q; }"},
    {"{ P@ p = { D@ z = ", "p.first; P@(d1, d2); }; p.first; }"}, {"{ (D@) { D@; } g = { D@ z = ", "g(d0); (D@ y) { y; }; }; g(d0); }"}, {"{ D@ q", " = q; q; }"},
  };
  static const char* why[] = {"wrong tag", "undefined select", "undefined union", "undefined struct", "undefined function", "vacuous"};
  int k = (int)sim_u(6); ref_why = why[k];
  if (in_call) buf_printf(b, "{ (D@) { D@; } thrower = (D@ tx) {\n");
  unsigned far = (unsigned)sim_u(4);
  if (far & 1) { long n = sim_p(1, 2) ? 65500 + (long)sim_u(80) : 300 + (long)sim_u(140000); char* q = malloc((size_t)n); memset(q, '\n', (size_t)n); buf_add(b, q, (size_t)n); free(q); sim_probe("far-line"); }
  if (far & 2) { long n = sim_p(1, 2) ? 65500 + (long)sim_u(80) : 300 + (long)sim_u(140000); char* q = malloc((size_t)n); memset(q, ' ', (size_t)n); buf_add(b, q, (size_t)n); free(q); sim_probe("far-column"); }
  big_line = 1; for (size_t i = 0; i < b->len; ++i) if (b->data[i] == '\n') big_line++;
  buf_printf(b, "%s%s", expr[k][0], expr[k][1]);
  if (in_call) buf_printf(b, "; };\nD@ thrown = thrower(d0); thrown; }");
}
static void gen_big(bool errs, long limit) {   // limit: of what gcc compiles in a few seconds
  odd_names = 0; nty = 0; nnatives = 0; nextra = 0; nmods = 0; nref_calls = 0; next_id = 1; nblks = 0;
  Unit = ty_new(TS, 0); Unit->alias = "Unit"; big_D = ty_new(TU, 10);
  for (int i = 0; i < 10; ++i) big_D->t[i] = Unit;
  ranks(); big_L = ty_inst(LIST, big_D, NULL); ranks();
  snprintf(dirname_, sizeof dirname_, "/sim/prog");
  free(big_items); big_items = NULL; big_nitems = 0;
  Buf b = {0}, items = {0};
  buf_printf(&b, "@ Unit@ = *();\n<@>@ List@ = <@ T@> { @ L@ = +(*(T@ head, L@ tail) cons, Unit@ nil); L@; };\n@ D@ = +(Unit@ 0, Unit@ 1, Unit@ 2, Unit@ 3, Unit@ 4, Unit@ 5, Unit@ 6, Unit@ 7, Unit@ 8, Unit@ 9);\n@ P@ = *(D@ first, D@ second);\n");
  main_nargs = (int)sim_u(2); main_ty = main_nargs ? ty_fn(1, &big_D, big_L) : big_L; ranks();
  if (main_nargs) buf_printf(&b, "(D@ given) {\n");
  buf_printf(&b, "Unit@ u = Unit@();\n");
  for (int i = 0; i < 10; ++i) buf_printf(&b, "D@ d%d = D@(%d: u);\n", i, i);
  buf_printf(&b, "(List@<D@>) { List@<D@>; } List = (List@<D@> l) { l; };\n(List@<D@>, List@<D@>) { List@<D@>; } Append = (List@<D@> a, List@<D@> b) { a.?(nil: b); List@<D@>(cons: @(head: a.cons.head, tail: Append(a.cons.tail, b))); };\n");
  bool has_list = false, in_call = sim_p(1, 3); int k = 1 + (int)sim_u(3);
  int g = -1;
  if (main_nargs) { g = (int)sim_u(10); main_args[0] = rv(R_U, 1); main_args[0]->tag = g; main_args[0]->f[0] = rv(R_S, 0); item(&items, g, "given"); }
  big_left = limit;
  for (int i = 0; i < k; ++i) { int f = (int)sim_u(9); if (f == 8 && (limit < 5000 || sim_p(1, 2))) f = 0; big_feature(&b, &items, f, &has_list); }
  big_err = errs;
  if (errs) {
    buf_printf(&b, "D@ bad = "); big_error(&b, in_call); buf_printf(&b, ";\n");
    item(&items, 0, "bad");
  }
  if (has_list) buf_printf(&b, "Append(list, List[%s]);\n", items.data ? items.data : ""); else buf_printf(&b, "List[%s];\n", items.data ? items.data : "");
  if (main_nargs) buf_printf(&b, "};\n");
  char path[100]; snprintf(path, sizeof path, "%s/Main.fble", dirname_); vfs_put(path, b.data, b.len); text_len = b.len;
  if (sim_verbose()) sim_note_text(b.len < 100000 ? b.data : "a large program");
  buf_free(&b); buf_free(&items);
  RV* nil = rv(R_U, 1); nil->tag = 1; nil->f[0] = rv(R_S, 0);
  ref_result = nil;
  for (int i = big_nitems; i-- > 0; ) {
    RV* d = rv(R_U, 1); d->tag = big_items[i]; d->f[0] = rv(R_S, 0);
    RV* c = rv(R_S, 2); c->f[0] = d; c->f[1] = ref_result;
    RV* u = rv(R_U, 1); u->tag = 0; u->f[0] = c; ref_result = u;
  }
  ref_main_status = errs && !main_nargs ? REF_ERROR : REF_OK; ref_status = errs ? REF_ERROR : REF_OK;
}
static void check_big_error(void) {
  char q[120]; snprintf(q, sizeof q, "%s/Main.fble:%ld:", dirname_, big_line);
  SIM_CHECK(strstr(rec_err, q), "error-location", "the error is not reported at line %ld: %.300s", big_line, rec_err);
}
static void run_big(bool errs, bool pair) {
  vfs_reset(); vfs_std(false, false, true); vfs_root_readonly = true;
  arena_reset(); fuel = 1000000000;
  g_errors = g_wild = false; g_profile = false; extra_dropped = false; sim_tick_hook = NULL;
  nprog = ndrop = nerr = nruns = ninject = ncompiled = nprofiled = napply = 0;
  memset(ref_errs, 0, sizeof ref_errs);
  sim_heap_random();
  // Collecting at every step would take forever with values this large.
#ifdef SIM_A64
  gen_big(errs, 5000);
#else
  gen_big(errs, pair ? 900 : 5000);
#endif
  real_run(sim_p(1, 2), 0, sim_p(1, 4), false);
  if (errs) check_big_error();
  if (pair) { sim_heap_random(); run_pair(errs); if (errs) check_big_error(); }
  sim_nontrivial(); sim_probe(errs ? "large-program-with-error" : "large-program");
  sim_state(mix(text_len, (uint64_t)big_nitems)); sim_count("program-bytes", text_len); sim_count("evaluations", nruns); sim_count("compiled-evaluations", ncompiled);
  sim_sample("large program: text=%zu items=%d error=%s", text_len, big_nitems, errs ? ref_why : "none");
}
