// Reference evaluation and printing of generated programs.

// ---- profile blocks ----------------------------------------------------------------
typedef struct { char* name; long count; } Blk;
static Blk* blks; static int nblks, cblks;
static int blk_new(const char* name) {
  if (nblks == cblks) { cblks = cblks ? cblks * 2 : 256; blks = realloc(blks, sizeof(Blk) * (size_t)cblks); }
  blks[nblks].name = A(strlen(name) + 1); strcpy(blks[nblks].name, name); blks[nblks].count = 0; return nblks++;
}
static int native_block;

// ---- values ------------------------------------------------------------------------
enum { R_S, R_U, R_F, R_NAT, R_BLT, R_PAP, R_REF };
typedef struct RV RV; typedef struct Env Env;
struct RV { int k, n, tag; RV** f; N* fn; Env* env; };
struct Env { int id; RV* v; Env* up; };
static jmp_buf ref_jmp;
enum { REF_OK, REF_ERROR, REF_DROP };
static long fuel; static int depth, maxdepth_seen;
static const char* ref_why;
static RV* rv(int k, int n) { if (--fuel < 0) longjmp(ref_jmp, REF_DROP); RV* r = A(sizeof *r); r->k = k; r->n = n; r->f = A(sizeof(RV*) * (size_t)(n + 1)); return r; }
_Noreturn static void ref_error(const char* why) { ref_why = why; longjmp(ref_jmp, REF_ERROR); }
static RV* deref(RV* v) { while (v && v->k == R_REF) v = v->f[0]; return v; }
static RV* force(RV* v, const char* why) { v = deref(v); if (!v) ref_error(why); return v; }
static Env* bind(int id, RV* v, Env* up) { Env* e = A(sizeof *e); e->id = id; e->v = v; e->up = up; return e; }

// ---- application functions ------------------------------------------------------------
enum { K_MAKE, K_PICK, K_CALL, K_TAIL, K_TWICE, K_OVER, K_PARTIAL };
typedef struct { int kind; Ty* ty; int nargs; long calls; int idx; } Native;
#define MAXNAT 8
static Native natives[MAXNAT]; static int nnatives;
typedef struct { int nat; uint64_t h; } Call;
static Call ref_calls[20000]; static int nref_calls;
static long hash_budget;
static uint64_t rv_hash(RV* v, Ty* t) {  // 0: undefined
  if (--hash_budget < 0) return 77;
  uint64_t h = 1234567;
  if (t->k == TS && t->n == 0) return h | 1;   // undefined or not cannot be seen
  v = deref(v); if (!v) return 0;
  switch (t->k) {
    case TS: for (int i = 0; i < t->n; ++i) { uint64_t x = rv_hash(v->f[i], t->t[i]); if (!x) return 0; h = mix(h, x + (uint64_t)i); } return h | 1;
    case TU: { uint64_t x = rv_hash(v->f[0], t->t[v->tag]); return x ? mix(h + (uint64_t)v->tag * 31, x) | 1 : 0; }
    default: return 99;
  }
}
static long build_left = -1; static uint64_t build_stop = 7;   // size of the data built for main's arguments
static RV* build(Ty* t, uint64_t h, int d) {
  if (build_left > 0 && --build_left == 0) { d = 0; build_left = 1; }
  if (t->k == TS) { RV* r = rv(R_S, t->n); for (int i = 0; i < t->n; ++i) r->f[i] = build(t->t[i], mix(h, (uint64_t)i + 3), d - 1); return r; }
  int tag = 0;
  if (d <= 0 || h % build_stop == 0) { for (int i = 1; i < t->n; ++i) if (t->t[i]->rank < t->t[tag]->rank) tag = i; }
  else if (build_stop > 7 && t->n == 2 && t->ctor == LIST) tag = 0;
  else if (build_stop > 7 && t == Nat) tag = 1;
  else tag = (int)((h >> 8) % (uint64_t)t->n);
  RV* r = rv(R_U, 1); r->tag = tag; r->f[0] = build(t->t[tag], mix(h, 17), d - 1); return r;
}
static RV* apply(RV* f, int n, RV** args);
static RV* eval(N* n, Env* e);
static RV* run_native(int i, RV** a) {
  Native* d = &natives[i];
  uint64_t h = 5;
  for (int j = 0; j < d->nargs; ++j) { hash_budget = 300; uint64_t x = rv_hash(a[j], d->ty->t[j]); if (!x) ref_error("native"); h = mix(h, x); }
  if (nref_calls >= 19999) longjmp(ref_jmp, REF_DROP);
  ref_calls[nref_calls].nat = i; ref_calls[nref_calls++].h = h;
  switch (d->kind) {
    case K_MAKE: return build(d->ty->ret, h, 5);
    case K_PICK: return a[h & 1];
    case K_CALL: case K_TAIL: return apply(a[0], d->nargs - 1, a + 1);
    case K_TWICE: return apply(a[0], 1, (RV*[]){apply(a[0], 1, a + 1)});
    case K_OVER: return apply(a[0], 2, a + 1);
    default: { RV* p = apply(a[0], 1, a + 1); return apply(p, 1, a + 2); }
  }
}
// ---- library functions ------------------------------------------------------------------
static const int blt_arity[] = {1, 1, 2, 3, 2, 3, 3, 1, 2, 1, 2, 0, 1, 1};
static RV* cons(RV* h, RV* t) { RV* c = rv(R_S, 2); c->f[0] = h; c->f[1] = t; RV* u = rv(R_U, 1); u->tag = 0; u->f[0] = c; return u; }
static RV* nil(void) { RV* u = rv(R_U, 1); u->tag = 1; u->f[0] = rv(R_S, 0); return u; }
static RV* run_blt(int i, RV** a) {
  switch (i) {
    case P_LIST: case P_ID: case P_CONST: case P_ABSIN: case P_ABSOUT: return a[0];
    case P_COMPOSE: return apply(a[0], 1, (RV*[]){apply(a[1], 1, a + 2)});
    case P_MAP: {
      RV* l = force(a[1], "select"); if (l->tag == 1) return nil();
      RV* c = force(l->f[0], "access");
      if (++depth > 3000) longjmp(ref_jmp, REF_DROP);
      RV* h = apply(a[0], 1, &c->f[0]); RV* t = run_blt(P_MAP, (RV*[]){a[0], c->f[1]}); --depth; return cons(h, t);
    }
    case P_FOLDL: {
      RV* acc = a[1];
      for (RV* l = force(a[2], "select"); l->tag == 0; ) { RV* c = force(l->f[0], "access"); acc = apply(a[0], 2, (RV*[]){acc, c->f[0]}); l = force(c->f[1], "select"); if (--fuel < 0) longjmp(ref_jmp, REF_DROP); }
      return acc;
    }
    case P_MAYBE: { RV* m = force(a[0], "select"); return m->tag == 0 ? apply(a[2], 1, &m->f[0]) : a[1]; }
    case P_JUST: { RV* u = rv(R_U, 1); u->tag = 0; u->f[0] = a[0]; return u; }
    case P_PAIR: { RV* u = rv(R_S, 2); u->f[0] = a[0]; u->f[1] = a[1]; return u; }
    case P_FST: return force(a[0], "access")->f[0];
    case P_APPEND: {
      RV* l = force(a[0], "select"); if (l->tag == 1) return a[1];
      RV* c = force(l->f[0], "access");
      if (++depth > 3000) longjmp(ref_jmp, REF_DROP);
      RV* t = run_blt(P_APPEND, (RV*[]){c->f[1], a[1]}); --depth; return cons(c->f[0], t);
    }
    default: sim_broken("builtin");
  }
}
static int arity(RV* f) {
  switch (f->k) {
    case R_F: return f->fn->tag;
    case R_NAT: return natives[f->tag].nargs;
    case R_BLT: return blt_arity[f->tag];
    case R_PAP: return arity(f->f[0]) - (f->n - 1);
    default: sim_broken("not a function");
  }
}
static RV* apply(RV* f, int n, RV** args) {
  if (++depth > 3000) longjmp(ref_jmp, REF_DROP);
  if (depth > maxdepth_seen) maxdepth_seen = depth;
  RV* r = NULL;
  while (true) {
    if (--fuel < 0) longjmp(ref_jmp, REF_DROP);
    f = force(f, "function");
    if (n == 0) { r = f; break; }
    int ar = arity(f);
    if (n < ar) {
      r = rv(R_PAP, n + 1); r->f[0] = f; for (int i = 0; i < n; ++i) r->f[i + 1] = args[i];
      break;
    }
    if (f->k == R_PAP) {
      int m = f->n - 1; RV** all = A(sizeof(RV*) * (size_t)(m + n));
      for (int i = 0; i < m; ++i) all[i] = f->f[i + 1];
      for (int i = 0; i < n; ++i) all[m + i] = args[i];
      f = f->f[0]; args = all; n += m; continue;
    }
    if (f->k == R_NAT) { blks[native_block + f->tag].count++; r = run_native(f->tag, args); }
    else if (f->k == R_BLT) r = run_blt(f->tag, args);
    else {
      N* fn = f->fn; Env* e = f->env;
      for (int i = 0; i < fn->tag; ++i) e = bind(fn->ids[i], args[i], e);
      blks[fn->blk[0]].count++;
      r = eval(fn->a[0], e);
    }
    n -= ar; args += ar; 
    if (n == 0) break;
    f = r;
  }
  --depth; return r;
}
static RV* mod_vals[8];
static RV* eval(N* n, Env* e) {
  if (++depth > 3000) longjmp(ref_jmp, REF_DROP);
  if (depth > maxdepth_seen) maxdepth_seen = depth;
  RV* r = NULL;
  again:
  if (--fuel < 0) longjmp(ref_jmp, REF_DROP);
  switch (n->k) {
    case N_VAR: { Env* x = e; while (x && x->id != n->id) x = x->up; if (!x) sim_broken("variable %s", n->word); r = x->v; break; }
    case N_LET: {
      int k = n->n - 1; Env* in = e; RV* refs[8];
      if (n->rec) for (int i = 0; i < k; ++i) { refs[i] = rv(R_REF, 1); in = bind(n->ids[i], refs[i], in); }
      RV* vs[8];
      for (int i = 0; i < k; ++i) { blks[n->blk[i]].count++; vs[i] = eval(n->a[i], in); }
      if (n->rec) {
        for (int i = 0; i < k; ++i) {
          RV* v = vs[i]; while (v->k == R_REF && v->f[0]) v = v->f[0];
          if (v == refs[i]) ref_error("vacuous");
          refs[i]->f[0] = v;
        }
        e = in;
      } else for (int i = 0; i < k; ++i) e = bind(n->ids[i], vs[i], e);
      n = n->a[k]; goto again;
    }
    case N_STRUCT: r = rv(R_S, n->n); for (int i = 0; i < n->n; ++i) r->f[i] = eval(n->a[i], e); break;
    case N_UNION: r = rv(R_U, 1); r->tag = n->tag; r->f[0] = eval(n->a[0], e); break;
    case N_SACC: r = force(eval(n->a[0], e), "undefined struct")->f[n->tag]; break;
    case N_UACC: { RV* u = force(eval(n->a[0], e), "undefined union"); if (u->tag != n->tag) ref_error("wrong tag"); r = u->f[0]; break; }
    case N_SEL: {
      RV* u = force(eval(n->a[0], e), "undefined select");
      N* b = n->a[1 + u->tag]; int bi = u->tag;
      if (!b) { b = n->a[n->n - 1]; bi = n->n - 2; }
      blks[n->blk[bi]].count++;
      n = b; goto again;
    }
    case N_FUNC: r = rv(R_F, 0); r->fn = n; r->env = e; break;
    case N_APP: {
      RV* f = eval(n->a[0], e); int m = n->n - 1; RV* a[24];
      for (int i = 0; i < m; ++i) a[i] = eval(n->a[i + 1], e);
      f = force(f, "function");
      if (f->k == R_F && f->fn->tag == m) {
        Env* x = f->env; for (int i = 0; i < m; ++i) x = bind(f->fn->ids[i], a[i], x);
        blks[f->fn->blk[0]].count++;
        e = x; n = f->fn->a[0]; goto again;
      }
      r = apply(f, m, a); break;
    }
    case N_LIST: case N_LIT: {
      RV* f = eval(n->a[0], e); RV* l;
      if (n->k == N_LIST) {
        RV** vs = A(sizeof(RV*) * (size_t)n->n);
        for (int i = 1; i < n->n; ++i) vs[i] = eval(n->a[i], e);
        l = nil(); for (int i = n->n - 1; i >= 1; --i) l = cons(vs[i], l);
      } else {
        int tags[2000], m = 0; const char* w = n->word;
        while (*w) {
          int best = -1; size_t bl = 0;
          for (int j = 0; j < Letters->n; ++j) { size_t k = strlen(Letters->f[j]); if (k > bl && !strncmp(w, Letters->f[j], k)) { bl = k; best = j; } }
          if (best < 0) sim_broken("literal");
          tags[m++] = best; w += bl;
        }
        l = nil();
        while (m-- > 0) { RV* u = rv(R_U, 1); u->tag = tags[m]; u->f[0] = rv(R_S, 0); l = cons(u, l); }
      }
      r = apply(f, 1, &l); break;
    }
    case N_MOD: r = mod_vals[n->id]->f[n->tag]; break;
    case N_POLY: r = rv(R_BLT, 0); r->tag = n->tag; break;
    case N_SCOPY: {
      RV* s = eval(n->a[0], e); RV* o = rv(R_S, n->n - 1);
      for (int i = 0; i < n->n - 1; ++i) if (n->a[i + 1]) o->f[i] = eval(n->a[i + 1], e);
      s = force(s, "undefined struct");
      for (int i = 0; i < n->n - 1; ++i) if (!n->a[i + 1]) o->f[i] = s->f[i];
      r = o; break;
    }
    case N_ABS: r = eval(n->a[0], e); break;
    default: sim_broken("eval");
  }
  --depth; return r;
}

// ---- printing ------------------------------------------------------------------------
typedef struct { char name[64]; int nf; const char** fn; Ty** ft; N** fv; bool usesP; uint32_t deps; N* body; int* blk; const char* label; bool reached; } Mod;
static Mod mods[8]; static int nmods;   // the last one is the main module
static const char* PName[] = {"List", "Id", "Const", "Compose", "Map", "Foldl", "Maybe", "Just", "Pair", "Fst", "Append"};
static char bpath[1 << 16];
static Mod* pmod; static uint64_t pseed;
static bool pflip(unsigned d) { pseed = mix(pseed, 1); return pseed % d == 0; }
static void pexpr(Buf* b, N* n);
static void pstmt(Buf* b, N* n);
static const char* module_ref(int i);
static void psep(Buf* b) { if (pflip(40)) buf_printf(b, " # note (\n"); else if (pflip(6)) buf_printf(b, "\n  "); else buf_printf(b, " "); }
static void ptyv(Buf* b, Ty* t) {  // a type, sometimes spelled out
  if (pflip(12) && t->alias && t->n <= 4) {
    bool selfref = false; for (int i = 0; i < t->n; ++i) if (t->t[i] == t) selfref = true;
    if (!selfref) { pty_(b, t, true); return; }
  }
  pty(b, t);
}
static void pop_(Buf* b, N* n) { // operand of a postfix operator
  bool wrap = n->k == N_FUNC || pflip(14);
  if (wrap) { buf_printf(b, "{ "); pstmt(b, n); buf_printf(b, "}"); } else pexpr(b, n);
}
static int block_here(const char* suffix) { char q[sizeof bpath + 2000]; snprintf(q, sizeof q, "%s%s", bpath, suffix); return blk_new(q); }
static size_t path_push(const char* sep, const char* s) { size_t l = strlen(bpath); if (l + strlen(s) + 4 > sizeof bpath) sim_broken("path"); sprintf(bpath + l, "%s%s", sep, s); return l; }
static void pfunc(Buf* b, N* n) {
  n->blk = A(sizeof(int)); 
  int split = n->form ? n->id : 0; if (split <= 0 || split >= n->tag) split = n->tag;
  buf_printf(b, "(");
  for (int i = 0; i < n->tag; ++i) {
    if (i == split) { buf_printf(b, n->form == 1 ? ") (" : ") { ("); }
    else if (i) { buf_printf(b, ","); psep(b); }
    ptyv(b, n->tt[i]); buf_printf(b, " "); pword(b, n->nm[i]);
  }
  buf_printf(b, ")"); psep(b); buf_printf(b, "{"); psep(b);
  n->blk[0] = block_here("!"); size_t l = path_push("", "!");
  pstmt(b, n->a[0]);
  bpath[l] = 0;
  buf_printf(b, "}");
  if (n->form == 2 && split < n->tag) buf_printf(b, "; }");
}
static void psel_head(Buf* b, N* n, bool with_default) {
  Ty* u = n->a[0]->ty;
  n->blk = A(sizeof(int) * (size_t)(u->n + 1));
  pop_(b, n->a[0]); buf_printf(b, ".?(");
  bool first = true;
  for (int i = 0; i < u->n; ++i) if (n->a[1 + i]) {
    if (!first) { buf_printf(b, ","); psep(b); } first = false;
    pword(b, u->f[i]); buf_printf(b, ": ");
    size_t l = path_push(".", u->f[i]); n->blk[i] = block_here(""); pexpr(b, n->a[1 + i]); bpath[l] = 0;
  }
  if (with_default && n->a[u->n + 1]) {
    buf_printf(b, ", : "); size_t l = path_push(".", ":"); n->blk[u->n] = block_here(""); pexpr(b, n->a[u->n + 1]); bpath[l] = 0;
  }
  buf_printf(b, ")");
}
static bool is_bind(N* n) { return n->k == N_APP && n->form == -1 && n->a[1]->k == N_FUNC; }
static void pstmt(Buf* b, N* n) {
  if (n->k == N_LET) {
    int k = n->n - 1; n->blk = A(sizeof(int) * (size_t)k);
    for (int i = 0; i < k; ++i) {
      if (i) { buf_printf(b, ","); psep(b); }
      // The kind may be given in place of the type unless it is recursive.
      if (n->form == 0 && !n->rec) buf_printf(b, "%%"); else ptyv(b, n->tt[i]);
      buf_printf(b, " "); pword(b, n->nm[i]); buf_printf(b, " = ");
      size_t l = path_push(".", n->nm[i]); n->blk[i] = block_here(""); pexpr(b, n->a[i]); bpath[l] = 0;
    }
    buf_printf(b, ";\n"); pstmt(b, n->a[k]); return;
  }
  if (is_bind(n)) {
    N* f = n->a[1]; f->blk = A(sizeof(int));
    for (int i = 0; i < f->tag; ++i) { if (i) buf_printf(b, ", "); ptyv(b, f->tt[i]); buf_printf(b, " "); pword(b, f->nm[i]); }
    buf_printf(b, " <- "); pexpr(b, n->a[0]); buf_printf(b, ";\n");
    f->blk[0] = block_here("!"); size_t l = path_push("", "!"); pstmt(b, f->a[0]); bpath[l] = 0; return;
  }
  if (n->k == N_SEL && n->form == 1 && n->a[n->a[0]->ty->n + 1]) {
    psel_head(b, n, false); buf_printf(b, ";\n");
    int d = n->a[0]->ty->n; size_t l = path_push(".", ":"); n->blk[d] = block_here(""); pstmt(b, n->a[1 + d]); bpath[l] = 0; return;
  }
  pexpr(b, n); buf_printf(b, ";"); psep(b);
}
static void pargs(Buf* b, N** a, int n) { for (int i = 0; i < n; ++i) { if (i) { buf_printf(b, ","); psep(b); } pexpr(b, a[i]); } }
static void ptargs(Buf* b, N* n) { buf_printf(b, "<"); for (int i = 0; i < 3 && n->pa[i]; ++i) { if (i) buf_printf(b, ", "); pty(b, n->pa[i]); } buf_printf(b, ">"); }
static void pexpr(Buf* b, N* n) {
  if (n->k == N_LET || is_bind(n) || (n->k == N_SEL && n->form == 1 && n->a[n->a[0]->ty->n + 1])) { buf_printf(b, "{"); psep(b); pstmt(b, n); buf_printf(b, "}"); return; }
  switch (n->k) {
    case N_VAR: pword(b, n->word); break;
    case N_STRUCT:
      if (n->form == 0 && !structural(n->ty)) { pty(b, n->ty); buf_printf(b, "("); pargs(b, n->a, n->n); buf_printf(b, ")"); }
      else if (n->form == 1 && n->n > 0 && pflip(6)) { const char* al = n->ty->alias; (void)al; pty(b, n->ty); buf_printf(b, "("); pargs(b, n->a, n->n); buf_printf(b, ")"); }
      else {
        buf_printf(b, "@(");
        for (int i = 0; i < n->n; ++i) {
          if (i) { buf_printf(b, ","); psep(b); }
          pword(b, n->ty->f[i]);
          if (n->a[i]->k == N_VAR && !strcmp(n->a[i]->word, n->ty->f[i])) continue;
          buf_printf(b, ": "); pexpr(b, n->a[i]);
        }
        buf_printf(b, ")");
      }
      break;
    case N_UNION: pty(b, n->ty); buf_printf(b, "("); pword(b, n->ty->f[n->tag]); buf_printf(b, ": "); pexpr(b, n->a[0]); buf_printf(b, ")"); break;
    case N_SACC: case N_UACC: pop_(b, n->a[0]); buf_printf(b, "."); pword(b, n->a[0]->ty->f[n->tag]); break;
    case N_SEL: psel_head(b, n, true); break;
    case N_FUNC: pfunc(b, n); break;
    case N_APP: {
      pop_(b, n->a[0]); int m = n->n - 1, s = n->form > 0 && n->form < m ? n->form : m;
      buf_printf(b, "("); pargs(b, n->a + 1, s); buf_printf(b, ")");
      if (s < m) { buf_printf(b, "("); pargs(b, n->a + 1 + s, m - s); buf_printf(b, ")"); }
      break;
    }
    case N_LIST: pop_(b, n->a[0]); buf_printf(b, "["); pargs(b, n->a + 1, n->n - 1); buf_printf(b, "]"); break;
    case N_LIT: pop_(b, n->a[0]); buf_printf(b, "|"); pword(b, n->word); break;
    case N_MOD: buf_printf(b, "%s.", module_ref(n->id)); pword(b, mods[n->id].fn[n->tag]); break;
    case N_POLY: buf_printf(b, "/P%%.%s", PName[n->tag]); if (!n->form) ptargs(b, n); break;
    case N_SCOPY:
      pop_(b, n->a[0]); buf_printf(b, ".@(");
      { bool first = true; for (int i = 0; i < n->n - 1; ++i) if (n->a[i + 1]) { if (!first) buf_printf(b, ", "); first = false; pword(b, n->ty->f[i]); buf_printf(b, ": "); pexpr(b, n->a[i + 1]); } }
      buf_printf(b, ")"); break;
    case N_ABS: buf_printf(b, "/P%%.Out<"); pty(b, n->ty); buf_printf(b, ">(/P%%.In<"); pty(b, n->ty); buf_printf(b, ">("); pexpr(b, n->a[0]); buf_printf(b, "))"); break;
  }
}
static const char* P_text =
  "@ Unit@ = *();\n"
  "<@>@ List@ = <@ T@> { @ L@ = +(*(T@ head, L@ tail) cons, Unit@ nil); L@; };\n"
  "<@>@ Maybe@ = <@ T@> { +(T@ just, Unit@ nothing); };\n"
  "<@, @>@ Pair@ = <@ A@, @ B@> { *(A@ first, B@ second); };\n"
  "<@ T@>(List@<T@>) { List@<T@>; } List = <@ T@>(List@<T@> l) { l; };\n"
  "<@ T@>(T@) { T@; } Id = <@ T@>(T@ x) { x; };\n"
  "<@ A@, @ B@>(A@, B@) { A@; } Const = <@ A@, @ B@>(A@ a, B@ _b) { a; };\n"
  "<@ A@, @ B@, @ C@>((B@) { C@; }, (A@) { B@; }, A@) { C@; } Compose = <@ A@, @ B@, @ C@>((B@) { C@; } f, (A@) { B@; } g, A@ a) { f(g(a)); };\n"
  "<@ A@, @ B@>((A@) { B@; }, List@<A@>) { List@<B@>; } Map = <@ A@, @ B@>((A@) { B@; } f, List@<A@> xs) {\n"
  "  xs.?(nil: List@<B@>(nil: Unit@()));\n  List@<B@>(cons: @(head: f(xs.cons.head), tail: Map<A@, B@>(f, xs.cons.tail)));\n};\n"
  "<@ A@, @ B@>((A@, B@) { A@; }, A@, List@<B@>) { A@; } Foldl = <@ A@, @ B@>((A@, B@) { A@; } f, A@ a, List@<B@> xs) {\n"
  "  xs.?(cons: Foldl(f, f(a, xs.cons.head), xs.cons.tail), nil: a);\n};\n"
  "<@ A@, @ B@>(Maybe@<A@>, B@, (A@) { B@; }) { B@; } Maybe = <@ A@, @ B@>(Maybe@<A@> m, B@ b, (A@) { B@; } f) { m.?(just: f(m.just), nothing: b); };\n"
  "<@ A@>(A@) { Maybe@<A@>; } Just = <@ A@>(A@ a) { Maybe@<A@>(just: a); };\n"
  "<@ A@, @ B@>(A@, B@) { Pair@<A@, B@>; } Pair = <@ A@, @ B@>(A@ a, B@ b) { @(first: a, second: b); };\n"
  "<@ A@, @ B@>(Pair@<A@, B@>) { A@; } Fst = <@ A@, @ B@>(Pair@<A@, B@> p) { p.first; };\n"
  "<@ A@>(List@<A@>, List@<A@>) { List@<A@>; } Append = <@ A@>(List@<A@> a, List@<A@> b) {\n"
  "  a.?(cons: List@<A@>(cons: @(head: a.cons.head, tail: Append<A@>(a.cons.tail, b))), nil: b);\n};\n"
  "@ Pkg@ = %(/P%);\n"
  "<@>@ Abs@ = <@ T@> { Pkg@<T@>; };\n"
  "<@ T@>(T@) { Abs@<T@>; } In = <@ T@>(T@ x) { Pkg@(x); };\n"
  "<@ T@>(Abs@<T@>) { T@; } Out = <@ T@>(Abs@<T@> x) { x.%; };\n"
  "@(Unit@, List@, Maybe@, Pair@, List, Id, Const, Compose, Map, Foldl, Maybe, Just, Pair, Fst, Append, In, Out);\n";
static void prelude(Buf* b, bool isT) {
  buf_printf(b, "@ Unit@ = /P%%.Unit@;\n<@>@ List@ = /P%%.List@, <@>@ Maybe@ = /P%%.Maybe@;\n<@, @>@ Pair@ = /P%%.Pair@;\n");
  bool first = true;
  for (int i = 1; i < nty; ++i) if (tys[i]->alias) {
    Ty* t = tys[i]; 
    buf_printf(b, first ? "" : isT ? ",\n" : pflip(2) ? ",\n" : ";\n"); first = false;
    buf_printf(b, "@ "); pword(b, t->alias); buf_printf(b, "@ = ");
    if (isT) { pty_(b, t, true); }
    else { buf_printf(b, "/T%%."); pword(b, t->alias); buf_printf(b, "@"); }
  }
  if (!first) buf_printf(b, ";\n");
}
