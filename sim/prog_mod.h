// Random multi-module programs: generation and printing to the simulated disk.
static char dirname_[80];
static const char* module_ref(int i) {
  static char q[200]; Buf b = {0};
  pmod->deps |= 1u << i;
  buf_printf(&b, "/"); pword(&b, mods[i].name); buf_printf(&b, "%%");
  snprintf(q, sizeof q, "%s", b.data); buf_free(&b); return q;
}
static N* main_fn; static Ty* main_ty; static RV* main_args[24]; static int main_nargs, main_nat0;

static Ty* native_type(int kind) {
  Ty* a[4]; Ty* r = any_data(); int n;
  switch (kind) {
    case K_MAKE: n = 1 + (int)sim_u(3); for (int i = 0; i < n; ++i) a[i] = any_data(); return ty_fn(n, a, r);
    case K_PICK: a[0] = a[1] = r; return ty_fn(2, a, r);
    case K_CALL: case K_TAIL: { n = 1 + (int)sim_u(2); Ty* x[2]; for (int i = 0; i < n; ++i) x[i] = a[i + 1] = any_data(); a[0] = ty_fn(n, x, r); return ty_fn(n + 1, a, r); }
    case K_TWICE: a[0] = ty_fn(1, &r, r); a[1] = r; return ty_fn(2, a, r);
    default: { Ty* x[2] = {any_data(), any_data()}; a[0] = ty_fn(2, x, r); a[1] = x[0]; a[2] = x[1]; return ty_fn(3, a, r); }
  }
}
static void gen_program(void) {
  odd_names = sim_p(1, 3) ? 1 + (unsigned)sim_u(8) : 0;
  g_group = 0; next_id = 1; g_level = 0;
  gen_types();
  nmods = (int)sim_u(3) + 1;
  budget = 60 + (long)sim_u(5) * 60;
  int dmax = 3 + (int)sim_u(5);
  Sc* sc = NULL;
  nnatives = 0;
  long total = budget;
  for (int m = 0; m < nmods; ++m) {
    Mod* M = &mods[m]; memset(M, 0, sizeof *M);
    sim_step();
    if (m == nmods - 1) snprintf(M->name, sizeof M->name, "Main"); else snprintf(M->name, sizeof M->name, "%s%d", odd_names && sim_p(1, 2) ? Odd[sim_u(sizeof Odd / sizeof *Odd)] : "M", m);
    for (char* c = M->name; *c; ++c) if (*c == '/') *c = ':';
    budget = total / nmods;
    if (m < nmods - 1) {
      int k = 1 + (int)sim_u(3); M->nf = k; M->fn = A(sizeof(char*) * (size_t)k); M->ft = A(sizeof(Ty*) * (size_t)k);
      Sc* in = sc; N* lets[8];
      for (int i = 0; i < k; ++i) {
        char* q = A(90); sprintf(q, "%s%c", pick_name(), 'a' + i); M->fn[i] = q;
        M->ft[i] = sim_p(3, 4) ? fn_of(any_ty()) : any_data(); if (!M->ft[i]) M->ft[i] = Unit;
        budget = total / nmods / k;
        N* x = nn(N_LET, NULL, 2); x->ids = A(sizeof(int)); x->nm = A(sizeof(char*)); x->tt = A(sizeof(Ty*));
        Sc* hid = push(in, q, NULL, -1);
        x->ids[0] = next_id++; x->nm[0] = q; x->tt[0] = M->ft[i]; x->form = (int)sim_u(3);
        x->a[0] = M->ft[i]->k == TF ? p_intro(M->ft[i], dmax, hid, false) : gen(M->ft[i], dmax, hid);
        in = push(in, q, M->ft[i], x->ids[0]); lets[i] = x;
      }
      Ty* st = ty_new(TS, k); for (int i = 0; i < k; ++i) { st->t[i] = M->ft[i]; st->f[i] = M->fn[i]; }
      ranks();
      N* s = nn(N_STRUCT, st, k); s->form = 1;
      for (int i = 0; i < k; ++i) { N* v = nn(N_VAR, st->t[i], 0); v->id = lets[i]->ids[0]; v->word = st->f[i]; s->a[i] = v; }
      N* body = s; for (int i = k - 1; i >= 0; --i) { lets[i]->a[1] = body; body = lets[i]; }
      M->body = body;
      for (int i = 0; i < k; ++i) { N* r = nn(N_MOD, st->t[i], 0); r->id = m; r->tag = i; Sc* q = push(sc, NULL, st->t[i], -1); q->macro = r; q->small = -1; sc = q; }
    } else {
      int nat = (int)sim_u(4), nd = (int)sim_u(3); Ty* at[16]; int n = 0; main_nat0 = 0;
      for (int i = 0; i < nat; ++i) {
        static const unsigned wk[] = {6, 2, 2, 2, 1, 1, 1};
        int kind = (int)sim_weighted(7, wk);
        if (nty > MAXT - 30) break;
        Ty* t = native_type(kind);
        natives[nnatives] = (Native){kind, t, t->n, 0, nnatives}; nnatives++;
        at[n++] = t;
      }
      for (int i = 0; i < nd; ++i) at[n++] = any_data();
      Ty* rt = any_ty(); if (nty > MAXT - 20) rt = any_data();
      if (rt->k == TS && sim_p(1, 2)) rt = any_data();
      main_nargs = n;
      if (n == 0) { main_ty = rt; M->body = gen(rt, dmax, sc); }
      else {
        main_ty = ty_fn(n, at, rt);
        N* f = nn(N_FUNC, main_ty, 1); f->tag = n; f->ids = A(sizeof(int) * (size_t)n); f->nm = A(sizeof(char*) * (size_t)n); f->tt = A(sizeof(Ty*) * (size_t)n);
        Sc* s = sc;
        for (int i = 0; i < n; ++i) { char* q = A(90); sprintf(q, "%s%d", i < nnatives ? "nat" : pick_name(), i); f->ids[i] = next_id++; f->nm[i] = q; f->tt[i] = at[i]; s = push(s, q, at[i], f->ids[i]); }
        // Most of the natives are applied for sure.
        N* lets[MAXNAT]; int nl = 0; g_level++;
        for (int i = 0; i < nnatives; ++i) if (sim_p(3, 4)) {
          Ty* t = at[i]; int need = sim_p(1, 6) ? 1 + (int)sim_u((uint64_t)t->n) : t->n; if (nty > MAXT - 12) need = t->n;
          Sc* v = s; while (v->id != f->ids[i]) v = v->up;
          N* args[8]; for (int j = 0; j < need; ++j) args[j] = gen(t->t[j], dmax - 1, s);
          Ty* xt = residual(t, need);
          N* x = nn(N_LET, rt, 2); x->ids = A(sizeof(int)); x->nm = A(sizeof(char*)); x->tt = A(sizeof(Ty*)); x->form = (int)sim_u(3);
          char* q = A(90); sprintf(q, "r%d", i); x->ids[0] = next_id++; x->nm[0] = q; x->tt[0] = xt;
          if (!visible(s, v)) break;
          x->a[0] = app(use(v), need, args, xt); lets[nl++] = x; s = push(s, q, xt, x->ids[0]);
        }
        f->a[0] = gen(rt, dmax, s); g_level--;
        while (nl-- > 0) { lets[nl]->a[1] = f->a[0]; f->a[0] = lets[nl]; }
        if (f->a[0]->k == N_FUNC) {  // merged literal
          N* g = f->a[0]; int p = n, q = g->tag; int* ids = A(sizeof(int) * (size_t)(p + q)); const char** nm = A(sizeof(char*) * (size_t)(p + q)); Ty** tt = A(sizeof(Ty*) * (size_t)(p + q));
          for (int i = 0; i < p; ++i) { ids[i] = f->ids[i]; nm[i] = f->nm[i]; tt[i] = f->tt[i]; }
          for (int i = 0; i < q; ++i) { ids[p + i] = g->ids[i]; nm[p + i] = g->nm[i]; tt[p + i] = g->tt[i]; }
          f->ids = ids; f->nm = nm; f->tt = tt; f->tag = p + q; f->form = 1; f->id = p; f->a[0] = g->a[0];
        }
        M->body = f;
      }
    }
  }
}
static size_t text_len;
static void print_program(void) {
  nblks = 0; pseed = sim_u(1u << 30) + 1;
  snprintf(dirname_, sizeof dirname_, "/sim/%s", odd_names && sim_p(1, 4) ? "d%r \"q\"" : "prog");
  char path[400];
  snprintf(path, sizeof path, "%s/P.fble", dirname_); vfs_put(path, P_text, strlen(P_text));
  Buf t = {0}; prelude(&t, true); buf_printf(&t, "@(Unit@");
  for (int i = 1; i < nty; ++i) if (tys[i]->alias) { buf_printf(&t, ", "); pword(&t, tys[i]->alias); buf_printf(&t, "@"); }
  buf_printf(&t, ");\n"); snprintf(path, sizeof path, "%s/T.fble", dirname_); vfs_put(path, t.data, t.len); buf_free(&t);
  text_len = 0;
  for (int m = 0; m < nmods; ++m) {
    Buf b = {0}; pmod = &mods[m];
    prelude(&b, false);
    char lab[200]; snprintf(lab, sizeof lab, "/%s%%", mods[m].name);
    strcpy(bpath, lab); mods[m].blk = A(sizeof(int)); mods[m].blk[0] = blk_new(lab);
    pstmt(&b, mods[m].body); buf_printf(&b, "\n");
    snprintf(path, sizeof path, "%s/%s.fble", dirname_, mods[m].name);
    vfs_put(path, b.data, b.len); text_len += b.len;
    if (sim_verbose()) { sim_note("---- %s", path); sim_note_text(b.data); }
    buf_free(&b);
  }
  native_block = nblks;
  for (int i = 0; i < nnatives; ++i) { char q[20]; sprintf(q, "native-%d", i); blk_new(q); }
  for (int m = 0; m < nmods; ++m) mods[m].reached = false;
  mods[nmods - 1].reached = true;
  for (int m = nmods - 1; m >= 0; --m) if (mods[m].reached) for (int j = 0; j < m; ++j) if (mods[m].deps & (1u << j)) mods[j].reached = true;
}

