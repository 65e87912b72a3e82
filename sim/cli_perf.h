// C14: streams of stack samples through fble-perf-profile against the
// reference model of profiles.
static char pnames[PMAXB][400]; static int pvocab;
static int pid_[PMAXB];   // block of a name, or -1
static void vocab(void) {
  static const char* odd[] = {"[unknown]", "a b c", "operator new(unsigned long)", "", "%s%n", "** x **", "\xc3\xa9t\xc3\xa9", "0x7f2[k]", "<x>", "-", "1 2", "main", "\t"};
  pvocab = 1 + (int)sim_u(sim_p(1, 4) ? 250 : 12);
  for (int i = 0; i < pvocab; ++i) {
    unsigned k = (unsigned)sim_u(8);
    if (k == 7) snprintf(pnames[i], sizeof pnames[0], "%s%s", odd[sim_u(13)], i < 3 ? "" : "~");
    else if (k == 6) { size_t n = 20 + (size_t)sim_u(330); memset(pnames[i], 'a' + i % 26, n); pnames[i][n] = 0; }
    else snprintf(pnames[i], sizeof pnames[0], "f%d", i);
    for (int j = 0; j < i; ++j) if (!strcmp(pnames[i], pnames[j])) { snprintf(pnames[i], sizeof pnames[0], "g%d", i); break; }
  }
}
typedef enum { R_OK_, R_BAD } PRes;
// What the samples in the text say. Only whole lines count.
static PRes model_stream(const char* s, size_t n, int nsq, const char** sq, uint64_t* total) {
  memset(pb_count, 0, sizeof pb_count); memset(pb_time, 0, sizeof pb_time); memset(pb_self, 0, sizeof pb_self);
  memset(pc_count, 0, sizeof *pc_count * PMAXB); memset(pc_time, 0, sizeof *pc_time * PMAXB);
  for (int i = 0; i < pvocab; ++i) pid_[i] = -1;
  pb_n = 1; pb_count[0] = 1; *total = 0;
  PThread t; memset(&t, 0, sizeof t); t.cf = 16; t.f = malloc(sizeof(PFrame) * 16); t.nf = 1; t.f[0] = (PFrame){0, 0}; t.cp = 16; t.p = malloc(sizeof(PPair) * 16);
  PRes res = R_OK_; bool first = true;
  for (size_t at = 0; at < n; ) {
    const char* nl = memchr(s + at, '\n', n - at); if (!nl) break;
    const char* l = s + at; size_t len = (size_t)(nl - l); at += len + 1;
    if (first) { first = false; continue; }
    const char* sp = memchr(l, ' ', len);
    if (!sp || sp == l) break;
    uint64_t w = 0; bool bad = false;
    for (const char* c = l; c < sp; ++c) if (*c < '0' || *c > '9') bad = true; else w = w * 10 + (uint64_t)(*c - '0');
    if (sp - l > 18) bad = true;   // no count of samples
    if (bad) { res = R_BAD; break; }
    int entered = 0;
    for (const char* c = sp + 1; ; ) {
      const char* e = memchr(c, ';', (size_t)(nl - c)); if (!e) e = nl;
      bool skip = false; for (int i = 0; i < nsq; ++i) skip = skip || (strlen(sq[i]) == (size_t)(e - c) && !memcmp(sq[i], c, (size_t)(e - c)));
      if (!skip) {
        int v = 0; while (v < pvocab && !(strlen(pnames[v]) == (size_t)(e - c) && !memcmp(pnames[v], c, (size_t)(e - c)))) ++v;
        if (v == pvocab) sim_broken("a frame outside of the vocabulary");
        if (pid_[v] < 0) pid_[v] = pb_n++;
        pm_enter(&t, pid_[v], false); entered++;
      }
      if (e == nl) break;
      c = e + 1;
    }
    pm_sample(&t, w); *total += w;
    while (entered-- > 0) pm_exit(&t);
  }
  free(t.f); free(t.p); return res;
}
static void compare_report(const char* text) {
  const char* q = strstr(text, "blocks executed: "); double pc; size_t n = 0;
  SIM_CHECK(q && sscanf(q, "blocks executed: %lf%% of %zu", &pc, &n) == 2 && n >= 1 && n < PMAXB, "report", "malformed report: %.200s", text);
  Report r; bool ok = rep_parse(&r, text, n);
  SIM_CHECK(ok, "report", "malformed report: %s", r.msg);
  SIM_CHECK(n == (size_t)pb_n, "profile-blocks", "the samples name %d functions, the report has %zu", pb_n - 1, n - 1);
  int map[PMAXB], back[PMAXB];   // model block <-> report block
  for (int i = 0; i < pb_n; ++i) map[i] = -1;
  map[0] = 0; back[0] = 0;
  SIM_CHECK(!strcmp(r.b[0].name, "<root>"), "profile-blocks", "the first block is '%s'", r.b[0].name);
  for (size_t i = 1; i < n; ++i) {
    int v = 0; while (v < pvocab && strcmp(pnames[v], r.b[i].name)) ++v;
    SIM_CHECK(v < pvocab && pid_[v] > 0 && map[pid_[v]] < 0, "profile-blocks", "the report names '%s', which no sample names, or names it twice", r.b[i].name);
    map[pid_[v]] = (int)i; back[i] = pid_[v];
  }
  for (int i = 0; i < pb_n; ++i) {
    RBlock* b = &r.b[map[i]];
    SIM_CHECK(b->time == pb_time[i], "profile-time", "'%s' is in samples of weight %lu, %lu reported", b->name, (unsigned long)pb_time[i], (unsigned long)b->time);
    SIM_CHECK(b->self == pb_self[i], "profile-self", "'%s' is the innermost function in samples of weight %lu, %lu reported", b->name, (unsigned long)pb_self[i], (unsigned long)b->self);
    SIM_CHECK(b->count == pb_count[i], "profile-count", "'%s' is entered %lu times, %lu reported", b->name, (unsigned long)pb_count[i], (unsigned long)b->count);
    int m = 0; for (int j = 0; j < pb_n; ++j) if (pc_count[i][j]) m++;
    SIM_CHECK(b->nout == m, "profile-calls", "'%s' calls %d functions, %d reported", b->name, m, b->nout);
    for (int j = 0; j < b->nout; ++j) {
      int k = back[b->out[j].id];
      SIM_CHECK(b->out[j].count == pc_count[i][k] && b->out[j].time == pc_time[i][k], "profile-calls", "'%s' calls '%s' %lu times for %lu, %lu times for %lu reported", b->name, r.b[b->out[j].id].name, (unsigned long)pc_count[i][k], (unsigned long)pc_time[i][k], (unsigned long)b->out[j].count, (unsigned long)b->out[j].time);
    }
  }
  rep_free(&r); sim_probe("report-checked");
}
static void gen_stream(Buf* b, bool* bad) {
  *bad = false;
  switch (sim_u(6)) {
    case 0: buf_printf(b, "\n"); break;
    case 1: { size_t n = (size_t)sim_u(600); while (n--) buf_add(b, "100.00% _start ;x"+ n % 17, 1); buf_printf(b, "\n"); break; }
    default: buf_printf(b, "   100.00%%     0.00%%  fble-stdio  fble-stdio       [.] _start\n");
  }
  int n = (int)sim_u(sim_p(1, 5) ? 300 : 30); unsigned dk = (unsigned)sim_u(4);
  for (int i = 0; i < n && !sim_exhausted(); ++i) {
    sim_step();
    size_t start = b->len;
    switch (sim_u(40)) {
      case 0: if (sim_p(1, 4)) { static const char* wrong[] = {"x", "+5", "-3", "0x1f", "12a", "1.5", "nan", "--", "99999999999999999999999", "4,5"}; buf_printf(b, "%s ", wrong[sim_u(10)]); *bad = true; break; } // fall through
      case 1: buf_printf(b, "%lu ", (unsigned long)sim_u(1ull << 40)); break;
      case 2: buf_printf(b, "%lu ", (unsigned long)((1ull << 31) - 1 + sim_u(3))); break;
      case 3: buf_printf(b, "0%lu ", (unsigned long)sim_u(200)); break;
      case 4: buf_printf(b, "0 "); break;
      default: buf_printf(b, "%lu ", (unsigned long)(1 + sim_u(5000)));
    }
    int d = sim_p(1, 60) ? 1 + (int)sim_u(400) : 1 + (int)sim_u(dk == 0 ? 2 : dk == 1 ? 6 : 20);
    int v = (int)sim_u((uint64_t)pvocab);
    for (int k = 0; k < d; ++k) { buf_printf(b, "%s%s", k ? ";" : "", pnames[v]); v = sim_p(1, 3) ? (int)sim_u((uint64_t)pvocab) : sim_p(1, 4) ? v : (v + 1) % pvocab; }
    if (sim_p(1, 5)) {   // a line as long as a buffer that grows by powers of two
      size_t len = b->len - start, want = 4; while (want < len + 4) want *= 2; want -= (size_t)sim_u(4);
      if (want > len + 1 && want - len - 1 < 390) {
        int w = -1; for (int k = 0; k < pvocab; ++k) if (strlen(pnames[k]) == want - len - 1) w = k;
        if (w < 0 && pvocab < PMAXB - 2) { w = pvocab; memset(pnames[w], 'z', want - len - 1); pnames[w][want - len - 1] = 0; pid_[w] = -1; pvocab++; }
        if (w >= 0) { buf_printf(b, ";%s", pnames[w]); sim_probe("line-at-buffer-boundary"); }
      }
    }
    buf_printf(b, "\n");
    if (sim_p(1, 150)) { buf_printf(b, "%s", sim_p(1, 2) ? "\n" : "nospace\n"); if (sim_p(1, 2)) break; }
  }
  if (sim_p(1, 2)) { buf_printf(b, "    100.00%%     0.00%%  x  x  [.] __libc_start_main\n"); if (sim_p(1, 2)) buf_printf(b, "7 not;a;sample\nx y\n"); }
}
static void run_c14(void) {
  vfs_reset(); sim_heap_default(); sim_getenv_hook = a_env; vfs_root_readonly = false;
  pc_count = calloc(PMAXB, sizeof *pc_count); pc_time = calloc(PMAXB, sizeof *pc_time);
  Buf b = {0}; bool bad = false;
  nargs = 0; arg(ToolNames[T_PERF]);
  if (sim_p(1, 12)) {   // not samples at all
    size_t n = (size_t)sim_u(sim_p(1, 4) ? 3000 : 60);
    static const char al[] = "0123456789 ;\n\n\0\xff" "abc%x-+";
    for (size_t i = 0; i < n; ++i) { char c = sim_p(1, 6) ? (char)sim_u(256) : al[sim_u(sizeof al - 1)]; buf_add(&b, &c, 1); }
    Outcome o = run_tool(T_PERF, b.data, b.len, -1, false, sim_p(1, 4) ? (long)sim_u(n + 1) : -1, sim_p(1, 2));
    SIM_CHECK(o.st <= 1, "status", "exit status %d", o.st);
    sim_probe(o.st ? "garbage-refused" : "garbage-accepted"); sim_fault("garbage-input"); out_free(&o);
  } else {
    vocab();
    const char* sq[8]; int nsq = 0;
    while (nsq < 6 && sim_p(1, 4)) { sq[nsq] = pnames[sim_u((uint64_t)pvocab)]; arg(sim_p(1, 2) ? "-s" : "--squash"); arg(sq[nsq++]); }
    gen_stream(&b, &bad);
    size_t len = b.len; long ie = -1;
    if (sim_p(1, 4)) { len = (size_t)sim_u(b.len + 1); sim_fault("truncated-input"); }
    if (sim_p(1, 8)) ie = (long)sim_u(len + 1);
    if (sim_verbose()) { char z = 0; buf_add(&b, &z, 1); b.len--; sim_note_text(b.data); }
    uint64_t total; PRes res = model_stream(b.data, ie >= 0 ? (size_t)ie : len, nsq, sq, &total);
    Outcome o = run_tool(T_PERF, b.data, len, sim_p(1, 10) ? (long)sim_u(4000) : -1, sim_p(1, 3), ie, sim_p(1, 2));
    bool hit = vfs_stdin()->hit_read_err;
    if (o.werr) SIM_CHECK(o.st == 1, "status", "exit status %d after a write error", o.st);
    else if (res == R_BAD) { SIM_CHECK(o.st == 1, "refused", "a sample without a weight is accepted: exit status %d", o.st); sim_probe("bad-sample-refused"); }
    else if (o.st == 0) { compare_report(o.out.data ? o.out.data : ""); sim_nontrivial(); }
    else SIM_CHECK(hit && o.st == 1, "status", "exit status %d for good samples: %.200s", o.st, vfs_stderr()->data);
    sim_state(sim_hash(o.out.data, o.out.len, (uint64_t)o.st)); sim_count("samples", total);
    sim_sample("%zu bytes of samples, %d functions, %d squashed, status %d", len, pvocab, nsq, o.st);
    out_free(&o);
  }
  free(pc_count); free(pc_time); pc_count = NULL; pc_time = NULL; buf_free(&b); vfs_reset();
}
