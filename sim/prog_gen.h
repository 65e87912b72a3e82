// Random well-typed fble programs: types, expressions, printing, and a
// reference evaluator that follows the language definition.  Values are
// erased (no types at run time); evaluation order is left open where the
// language leaves it open, which cannot be observed since natives are pure.
#include <setjmp.h>

static char* arena; static size_t arena_at, arena_cap;
static void* A(size_t n) {
  n = (n + 15) & ~(size_t)15;
  if (arena_at + n > arena_cap) {
    arena_cap = n > (1 << 20) ? n : 1 << 20; char* c = malloc(arena_cap + 16);
    *(char**)c = arena; arena = c; arena_at = 16; arena_cap += 16;
  }
  void* p = arena + arena_at; arena_at += n; memset(p, 0, n); return p;
}
static void arena_reset(void) { while (arena) { char* n = *(char**)arena; free(arena); arena = n; } arena_at = arena_cap = 0; }
static uint64_t mix(uint64_t a, uint64_t b) { uint64_t x = a * 0x9E3779B97F4A7C15ull ^ (b + 0x7F4A7C15ull); x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 32; return x; }

// ---- names ---------------------------------------------------------------------
static const char* Odd[] = {"a b", "it's", "x.y", "p%q", "\"q\"", "new\nline", "back\\slash", "#h", "@t", "Un\xc3\xafx", "9", "?", "tab\there", "a_b", "-", "%s%n", "longish-name-with-many-parts-and-more-parts-than-usual", "'", "//", "*/", "??/", "$$"};
static const char* Plain[] = {"a", "b", "c", "x", "y", "z", "xs", "ys", "n", "m", "acc", "foo", "bar", "baz", "T", "L", "int", "static", "heap", "args", "0", "42"};
static unsigned odd_names;
static const char* pick_name(void) {
  if (odd_names && sim_p(odd_names, 12)) return Odd[sim_u(sizeof Odd / sizeof *Odd)];
  return Plain[sim_u(sizeof Plain / sizeof *Plain)];
}
static bool plain(const char* s) { if (!*s) return false; for (; *s; ++s) if (strchr(" \t\n\r'#(){}[];,:?=.<>+*-!$@~&|%/^", *s)) return false; return true; }
static void pword(Buf* b, const char* s) {
  if (plain(s)) { buf_printf(b, "%s", s); return; }
  buf_printf(b, "'");
  for (; *s; ++s) { if (*s == '\'') buf_printf(b, "''"); else buf_add(b, s, 1); }
  buf_printf(b, "'");
}

// ---- types ---------------------------------------------------------------------
enum { TS, TU, TF };
typedef struct Ty Ty;
struct Ty { int k, n; Ty** t; const char** f; Ty* ret; const char* alias; const char* ctor; Ty* ca[2]; int nca; int rank; bool isdata; int idx; };
#define MAXT 120
static Ty* tys[MAXT]; static int nty;
static Ty* Unit; static Ty* Letters; static Ty* Nat;
static Ty* ty_new(int k, int n) {
  Ty* t = A(sizeof *t); t->k = k; t->n = n; t->t = A(sizeof(Ty*) * (size_t)(n + 1)); t->f = A(sizeof(char*) * (size_t)(n + 1)); t->rank = 1000; t->isdata = true;
  if (nty >= MAXT) sim_broken("types");
  t->idx = nty; tys[nty++] = t; return t;
}
static void ranks(void) {
  for (bool ch = true; ch; ) {
    ch = false;
    for (int i = 0; i < nty; ++i) {
      Ty* t = tys[i]; int r;
      if (t->k == TS) { r = 0; for (int j = 0; j < t->n; ++j) if (t->t[j]->rank > r) r = t->t[j]->rank; }
      else if (t->k == TU) { r = 1000; for (int j = 0; j < t->n; ++j) if (t->t[j]->rank < r) r = t->t[j]->rank; }
      else r = t->ret->rank;
      if (r + 1 < t->rank) { t->rank = r + 1; ch = true; }
      if (t->isdata) {
        bool d = t->k != TF; for (int j = 0; j < t->n && d; ++j) d = t->t[j]->isdata;
        if (!d) { t->isdata = false; ch = true; }
      }
    }
  }
}
static Ty* ty_fn(int n, Ty** args, Ty* ret) {
  Ty* all[24]; int m = 0;
  for (int i = 0; i < n; ++i) all[m++] = args[i];
  if (ret->k == TF) { for (int i = 0; i < ret->n; ++i) all[m++] = ret->t[i]; ret = ret->ret; }
  if (m == 0) return ret;
  for (int i = 0; i < nty; ++i) if (tys[i]->k == TF && tys[i]->n == m && tys[i]->ret == ret && !memcmp(tys[i]->t, all, sizeof(Ty*) * (size_t)m)) return tys[i];
  Ty* t = ty_new(TF, m); memcpy(t->t, all, sizeof(Ty*) * (size_t)m); t->ret = ret; t->isdata = false; ranks(); return t;
}
static Ty* residual(Ty* f, int k) { return k == f->n ? f->ret : ty_fn(f->n - k, f->t + k, f->ret); }
static Ty* ty_inst(const char* ctor, Ty* a, Ty* b) {
  for (int i = 0; i < nty; ++i) if (tys[i]->ctor == ctor && tys[i]->ca[0] == a && tys[i]->ca[1] == b) return tys[i];
  Ty* t;
  if (ctor[0] == 'L') {
    t = ty_new(TU, 2); Ty* c = ty_new(TS, 2);
    c->t[0] = a; c->t[1] = t; c->f[0] = "head"; c->f[1] = "tail";
    t->t[0] = c; t->t[1] = Unit; t->f[0] = "cons"; t->f[1] = "nil";
  } else if (ctor[0] == 'M') {
    t = ty_new(TU, 2); t->t[0] = a; t->t[1] = Unit; t->f[0] = "just"; t->f[1] = "nothing";
  } else {
    t = ty_new(TS, 2); t->t[0] = a; t->t[1] = b; t->f[0] = "first"; t->f[1] = "second";
  }
  t->ctor = ctor; t->ca[0] = a; t->ca[1] = b; t->nca = b ? 2 : 1;
  ranks(); return t;
}
static const char* LIST = "List"; static const char* MAYBE = "Maybe"; static const char* PAIR = "Pair";
static bool is_list(Ty* t) { return t->ctor == LIST; }
static bool structural(Ty* t) { if (t->k == TF) return true; if (!t->alias && !t->ctor) return true; return false; }
static void pty_(Buf* b, Ty* t, bool spell);
static void pty(Buf* b, Ty* t) { pty_(b, t, false); }
static void pty_(Buf* b, Ty* t, bool spell) {
  if (t->alias && !spell) { pword(b, t->alias); buf_printf(b, "@"); return; }
  if (t->ctor) { buf_printf(b, "%s@<", t->ctor); for (int i = 0; i < t->nca; ++i) { if (i) buf_printf(b, ", "); pty(b, t->ca[i]); } buf_printf(b, ">"); return; }
  if (t->k == TF) {
    buf_printf(b, "("); for (int i = 0; i < t->n; ++i) { if (i) buf_printf(b, ", "); pty(b, t->t[i]); }
    buf_printf(b, ") { "); pty(b, t->ret); buf_printf(b, "; }"); return;
  }
  buf_printf(b, t->k == TS ? "*(" : "+(");
  for (int i = 0; i < t->n; ++i) { if (i) buf_printf(b, ", "); pty(b, t->t[i]); buf_printf(b, " "); pword(b, t->f[i]); }
  buf_printf(b, ")");
}
static Ty* any_data(void) { for (int i = 0; i < 20; ++i) { Ty* t = tys[sim_u((uint64_t)nty)]; if (t->isdata && t->rank < 900) return t; } return Unit; }
static Ty* any_ty(void) { return sim_p(1, 5) ? tys[sim_u((uint64_t)nty)] : any_data(); }
static Ty* fn_of(Ty* ret) {
  Ty* a[4]; int n = 1 + (int)sim_u(3);
  if (nty > MAXT - 12) n = 1;
  for (int i = 0; i < n; ++i) { a[i] = any_data(); if (nty < MAXT - 20 && sim_p(1, 10)) { Ty* x = any_data(); a[i] = ty_fn(1, &x, any_data()); } }
  if (nty > MAXT - 12) { for (int i = 0; i < nty; ++i) if (tys[i]->k == TF && tys[i]->ret == ret) return tys[i]; return NULL; }
  return ty_fn(n, a, ret);
}
static void unique_fields(Ty* t) {
  for (int i = 0; i < t->n; ++i) {
    const char* s = pick_name();
    for (int j = 0; j < i; ++j) if (!strcmp(t->f[j], s)) { char* q = A(strlen(s) + 12); sprintf(q, "%s%d", s, i); s = q; j = -1; }
    t->f[i] = s;
  }
}
static const char* tname(int i) {
  char* q = A(80); const char* o = sim_p(odd_names, 14) ? Odd[sim_u(sizeof Odd / sizeof *Odd)] : sim_p(1, 2) ? "T" : "Data";
  sprintf(q, "%s%d", o, i); return q;
}
static void gen_types(void) {
  nty = 0; Unit = ty_new(TS, 0); Unit->alias = "Unit"; Letters = Nat = NULL;
  ranks();
  int n = 3 + (int)sim_u(7);
  for (int i = 0; i < n; ++i) {
    Ty* t; unsigned k = (unsigned)sim_u(10);
    switch (k) {
      case 0: case 1: {  // enum
        int m = 2 + (int)sim_u(5); if (sim_p(1, 6)) m = 40 + (int)sim_u(50);
        t = ty_new(TU, m); for (int j = 0; j < m; ++j) t->t[j] = Unit;
        if (m > 10) for (int j = 0; j < m; ++j) { char* q = A(8); sprintf(q, "e%d", j); t->f[j] = q; } else unique_fields(t);
        break;
      }
      case 2: {  // letters
        if (Letters) continue;
        static const char* ls[] = {"a", "b", "ab", "abc", "c", " ", "\n", "'", "0", "aa", "\xc3\xa9", "%"};
        int m = 2 + (int)sim_u(11); t = ty_new(TU, m); Letters = t;
        for (int j = 0; j < m; ++j) { t->t[j] = Unit; t->f[j] = ls[j]; }
        break;
      }
      case 3: case 4: {  // struct
        int m = (int)sim_u(6); if (sim_p(1, 8)) m = 9 + (int)sim_u(12);
        Ty* ft[24]; for (int j = 0; j < m; ++j) ft[j] = any_ty();
        t = ty_new(TS, m); memcpy(t->t, ft, sizeof(Ty*) * (size_t)m); unique_fields(t); break;
      }
      case 5: case 6: {  // union
        int m = 1 + (int)sim_u(4); if (sim_p(1, 8)) m = 20 + (int)sim_u(60);
        Ty* ft[90]; for (int j = 0; j < m; ++j) ft[j] = any_ty();
        t = ty_new(TU, m); memcpy(t->t, ft, sizeof(Ty*) * (size_t)m); unique_fields(t); break;
      }
      case 7: {  // nat
        if (Nat) continue;
        t = ty_new(TU, 2); t->t[0] = Unit; t->t[1] = t; t->f[0] = "Z"; t->f[1] = "S"; Nat = t; break;
      }
      case 8: {  // tree
        Ty* e = any_ty();
        t = ty_new(TU, 3); Ty* nd = ty_new(TS, 3); nd->t[0] = t; nd->t[1] = e; nd->t[2] = t; unique_fields(nd);
        t->t[0] = Unit; t->t[1] = nd; t->t[2] = e; unique_fields(t);
        nd->alias = tname(nd->idx); break;
      }
      default: {
        Ty* a = any_data(), *b2 = any_data();
        unsigned w = (unsigned)sim_u(3);
        ty_inst(w == 0 ? LIST : w == 1 ? MAYBE : PAIR, a, w == 2 ? b2 : NULL); continue;
      }
    }
    t->alias = tname(t->idx);
    ranks();
  }
  ty_inst(LIST, any_data(), NULL);
  int nf = 1 + (int)sim_u(4);
  for (int i = 0; i < nf; ++i) fn_of(any_data());
}

// ---- abstract syntax -------------------------------------------------------------
enum { N_VAR, N_LET, N_STRUCT, N_UNION, N_SACC, N_UACC, N_SEL, N_FUNC, N_APP, N_LIST, N_LIT, N_MOD, N_POLY, N_SCOPY, N_ABS };
typedef struct N N;
struct N {
  int k; Ty* ty; int n; N** a; int id; int* ids; const char** nm; Ty** tt; int tag; int form; bool rec; const char* word; Ty* pa[3]; int* blk;
};
static long budget;
static int next_id;
static N* nn(int k, Ty* ty, int n) { N* x = A(sizeof *x); x->k = k; x->ty = ty; x->n = n; x->a = A(sizeof(N*) * (size_t)(n + 2)); budget--; return x; }

typedef struct Sc Sc;
struct Sc { const char* name; Ty* ty; int id; N* macro; Sc* base; bool undef, norec; int level; int small, rec, recarg, need; Sc* up; };
static int g_level;   // nesting of function literals around the current expression
static Sc* push(Sc* up, const char* name, Ty* ty, int id) { Sc* s = A(sizeof *s); s->level = g_level; s->name = name; s->ty = ty; s->id = id; s->up = up; return s; }
static bool visible(Sc* sc, Sc* s) {
  if (s->macro) return s->base == NULL || visible(sc, s->base);
  for (Sc* x = sc; x; x = x->up) { if (x == s) return true; if (x->name && !strcmp(x->name, s->name)) return false; }
  return false;
}
static N* use(Sc* s) {
  if (s->macro) { budget--; return s->macro; }
  N* v = nn(N_VAR, s->ty, 0); v->id = s->id; v->word = s->name; return v;
}
// Options of the program generator.
static bool g_errors, g_wild;
static int g_group;

static N* gen(Ty* ty, int d, Sc* sc);
static N* gen_arg(Ty* ty, int d, Sc* sc, bool lazy);
static int count_args(Ty* t);

static Sc* pick_var(Sc* sc, bool (*ok)(Sc*, Ty*, void*), Ty* ty, void* u, bool lazy) {
  Sc* c[64]; int n = 0;
  for (Sc* s = sc; s && n < 64; s = s->up) if (s->ty && (!s->undef || lazy || s->level < g_level) && ok(s, ty, u) && visible(sc, s)) c[n++] = s;
  if (!n) return NULL;
  return c[sim_u((uint64_t)n)];
}
static bool is_ty(Sc* s, Ty* t, void* u) { (void)u; return s->ty == t && (!s->norec || g_wild); }
static bool is_struct_with(Sc* s, Ty* t, void* u) { (void)u; if (s->ty->k != TS) return false; for (int i = 0; i < s->ty->n; ++i) if (s->ty->t[i] == t) return true; return false; }
static bool is_union(Sc* s, Ty* t, void* u) { (void)u; (void)t; return s->ty->k == TU && s->ty->n > 0; }
static bool gives(Ty* f, Ty* t) {
  if (f->k != TF) return false;
  int tn = t->k == TF ? t->n : 0; Ty* tr = t->k == TF ? t->ret : t;
  return f->ret == tr && f->n > tn && (tn == 0 || !memcmp(f->t + f->n - tn, t->t, sizeof(Ty*) * (size_t)tn));
}
static bool is_fn_to(Sc* s, Ty* t, void* u) { (void)u; return (!s->norec || g_wild) && gives(s->ty, t); }
static bool is_small(Sc* s, Ty* t, void* u) { return s->small == *(int*)u && s->ty == t; }

static N* func_lit(Ty* ty, int d, Sc* sc, int params) {
  N* f = nn(N_FUNC, ty, 1);
  int p = params; N* body;
  f->ids = A(sizeof(int) * (size_t)(ty->n + 1)); f->nm = A(sizeof(char*) * (size_t)(ty->n + 1)); f->tt = A(sizeof(Ty*) * (size_t)(ty->n + 1));
  Sc* s = sc;
  // Inside a function body, letrec variables are defined by the time it runs.
  for (int i = 0; i < p; ++i) {
    f->ids[i] = next_id++; f->nm[i] = pick_name(); f->tt[i] = ty->t[i];
    s = push(s, f->nm[i], ty->t[i], f->ids[i]);
  }
  g_level++; body = gen(residual(ty, p), d - 1, s); g_level--;
  f->tag = p;
  if (body->k == N_FUNC) {
    // (A a) { (B b) { ... }; } is a function of two arguments.
    int q = body->tag;
    int* ids = A(sizeof(int) * (size_t)(p + q)); const char** nm = A(sizeof(char*) * (size_t)(p + q)); Ty** tt = A(sizeof(Ty*) * (size_t)(p + q));
    for (int i = 0; i < p; ++i) { ids[i] = f->ids[i]; nm[i] = f->nm[i]; tt[i] = f->tt[i]; }
    for (int i = 0; i < q; ++i) { ids[p + i] = body->ids[i]; nm[p + i] = body->nm[i]; tt[p + i] = body->tt[i]; }
    f->ids = ids; f->nm = nm; f->tt = tt; f->tag = p + q; f->form = (int)sim_u(3); f->id = p; // where to split
    f->a[0] = body->a[0];
  } else f->a[0] = body;
  return f;
}
static N* gen_min(Ty* ty, Sc* sc, bool lazy) {
  if (!sim_p(1, 5) || ty->k == TF) { Sc* v = pick_var(sc, is_ty, ty, NULL, lazy); if (v) return use(v); }
  switch (ty->k) {
    case TS: { N* x = nn(N_STRUCT, ty, ty->n); for (int i = 0; i < ty->n; ++i) x->a[i] = gen_min(ty->t[i], sc, lazy); x->form = structural(ty) ? 1 : (int)sim_u(2); return x; }
    case TU: {
      int tag = 0, r = 10000;
      for (int i = 0; i < ty->n; ++i) if (ty->t[i]->rank < r || (ty->t[i]->rank == r && sim_p(1, 3))) { r = ty->t[i]->rank; tag = i; }
      N* x = nn(N_UNION, ty, 1); x->tag = tag; x->a[0] = gen_min(ty->t[tag], sc, lazy); return x;
    }
    default: {
      N* f = nn(N_FUNC, ty, 1); f->tag = ty->n;
      f->ids = A(sizeof(int) * (size_t)ty->n); f->nm = A(sizeof(char*) * (size_t)ty->n); f->tt = A(sizeof(Ty*) * (size_t)ty->n);
      Sc* s = sc;
      for (int i = 0; i < ty->n; ++i) { f->ids[i] = next_id++; f->nm[i] = pick_name(); f->tt[i] = ty->t[i]; s = push(s, f->nm[i], ty->t[i], f->ids[i]); }
      g_level++; f->a[0] = gen_min(ty->ret, s, false); g_level--; return f;
    }
  }
}
static N* app(N* f, int n, N** args, Ty* ty) { N* x = nn(N_APP, ty, n + 1); x->a[0] = f; for (int i = 0; i < n; ++i) x->a[i + 1] = args[i]; x->form = sim_p(1, 4) && n > 1 && !(f->k == N_POLY && f->form) ? 1 + (int)sim_u((uint64_t)n - 1) : 0; return x; }

static N* p_intro(Ty* ty, int d, Sc* sc, bool lazy) {
  switch (ty->k) {
    case TS: { N* x = nn(N_STRUCT, ty, ty->n); for (int i = 0; i < ty->n; ++i) x->a[i] = gen_arg(ty->t[i], d - 1, sc, lazy); x->form = structural(ty) ? 1 : (int)sim_u(2); return x; }
    case TU: { N* x = nn(N_UNION, ty, 1); x->tag = (int)sim_u((uint64_t)ty->n); x->a[0] = gen_arg(ty->t[x->tag], d - 1, sc, lazy); return x; }
    default: return func_lit(ty, d, sc, sim_p(1, 3) ? 1 + (int)sim_u((uint64_t)ty->n) : ty->n);
  }
}
static N* p_let(Ty* ty, int d, Sc* sc) {
  int k = 1 + (int)sim_u(3); if (sim_p(1, 15)) k = 6;
  N* x = nn(N_LET, ty, k + 1); x->ids = A(sizeof(int) * (size_t)k); x->nm = A(sizeof(char*) * (size_t)k); x->tt = A(sizeof(Ty*) * (size_t)k);
  Sc* hid = sc;
  for (int i = 0; i < k; ++i) {
    again: x->nm[i] = pick_name(); for (int j = 0; j < i; ++j) if (!strcmp(x->nm[j], x->nm[i])) { char* q = A(90); sprintf(q, "%s%d", x->nm[i], i); x->nm[i] = q; goto dup; }
    dup: for (int j = 0; j < i; ++j) if (!strcmp(x->nm[j], x->nm[i])) goto again;
    x->tt[i] = sim_p(1, 4) ? (sim_p(1, 2) ? fn_of(any_data()) : any_ty()) : any_data(); if (!x->tt[i]) x->tt[i] = Unit;
    x->ids[i] = next_id++; hid = push(hid, x->nm[i], NULL, -1);
  }
  Sc* in = sc;
  for (int i = 0; i < k; ++i) { x->a[i] = gen(x->tt[i], d - 1, hid); }
  for (int i = 0; i < k; ++i) in = push(in, x->nm[i], x->tt[i], x->ids[i]);
  x->a[k] = gen(ty, d - 1, in);
  x->form = (int)sim_u(4);
  return x;
}
// Cyclic and mutually referring definitions.
static N* p_letrec(Ty* ty, int d, Sc* sc) {
  int k = 1 + (int)sim_u(3);
  N* x = nn(N_LET, ty, k + 1); x->rec = true; x->ids = A(sizeof(int) * (size_t)k); x->nm = A(sizeof(char*) * (size_t)k); x->tt = A(sizeof(Ty*) * (size_t)k);
  Sc* in = sc;
  for (int i = 0; i < k; ++i) {
    char* q = A(90); sprintf(q, "%s%c", pick_name(), 'A' + i); x->nm[i] = q; x->ids[i] = next_id++;
    x->tt[i] = i && sim_p(1, 3) ? x->tt[i - 1] : sim_p(1, 4) ? fn_of(any_data()) : any_data(); if (!x->tt[i]) x->tt[i] = Unit;
    in = push(in, q, x->tt[i], x->ids[i]); in->undef = !(g_errors && sim_p(1, 4)); in->norec = x->tt[i]->k == TF;
  }
  for (int i = 0; i < k; ++i) {
    N* e = NULL;
    if (sim_p(1, g_errors ? 3 : 6)) {  // just another of the variables, possibly the same
      int j = (int)sim_u((uint64_t)k);
      if (x->tt[j] == x->tt[i] && (g_errors ? true : j < i && x->a[j]->k != N_VAR)) { e = nn(N_VAR, x->tt[i], 0); e->id = x->ids[j]; e->word = x->nm[j]; }
    }
    if (!e) e = x->tt[i]->k != TF ? p_intro(x->tt[i], d - 1, in, true) : func_lit(x->tt[i], d, in, x->tt[i]->n);
    x->a[i] = e;
  }
  Sc* out = sc;
  for (int i = 0; i < k; ++i) { out = push(out, x->nm[i], x->tt[i], x->ids[i]); out->norec = false; }
  x->a[k] = gen(ty, d - 1, out);
  return x;
}
static N* sel_on(N* cond, Sc* base, Ty* ty, int d, Sc* sc, int small, int smallTo) {
  Ty* u = cond->ty;
  N* x = nn(N_SEL, ty, u->n + 2); x->a[0] = cond; // a[1+i] branch or NULL, a[n+1] default
  bool dflt = u->n > 8 || sim_p(1, 3);
  int kept = 0;
  for (int i = 0; i < u->n; ++i) {
    if (dflt && (u->n > 8 ? !sim_p(1, 10) : sim_p(1, 3)) && !(small >= 0 && u->t[i] != Unit && sim_p(2, 3))) continue;
    if (dflt && i == u->n - 1 && kept == i) continue;    // leave something to the default
    Sc* s = sc;
    if (base && (cond->k == N_VAR || cond->k == N_UACC || cond->k == N_SACC)) {
      N* ua = nn(N_UACC, u->t[i], 1); ua->a[0] = cond; ua->tag = i;
      Sc* m = push(s, NULL, u->t[i], -1); m->macro = ua; m->base = base; m->small = -1; if (u->t[i] == u && small >= 0) { m->small = smallTo; }
      s = m;
      if (u->t[i]->k == TS && small >= 0)
        for (int j = 0; j < u->t[i]->n; ++j) if (u->t[i]->t[j] == u) {
          N* sa = nn(N_SACC, u, 1); sa->a[0] = ua; sa->tag = j;
          Sc* q = push(s, NULL, u, -1); q->macro = sa; q->base = base; q->small = smallTo; s = q;
        }
    }
    x->a[1 + i] = gen(ty, d - 1, s); kept++;
  }
  if (kept < u->n) x->a[u->n + 1] = gen(ty, d - 1, sc);
  if (kept == 0) { x->a[1] = gen(ty, d - 1, sc); bool all = u->n == 1; if (all) x->a[u->n + 1] = NULL; }
  x->form = (int)sim_u(2);
  return x;
}
static bool recursive_union(Ty* t) {
  if (t->k != TU || t->rank >= 900) return false;
  for (int i = 0; i < t->n; ++i) { if (t->t[i] == t) return true; if (t->t[i]->k == TS) for (int j = 0; j < t->t[i]->n; ++j) if (t->t[i]->t[j] == t) return true; }
  return false;
}
// Structurally recursive functions, possibly mutually recursive.
static N* p_rec(Ty* ty, int d, Sc* sc) {
  Ty* c[32]; int n = 0;
  for (int i = 0; i < nty && n < 32; ++i) if (recursive_union(tys[i])) c[n++] = tys[i];
  if (!n || nty > MAXT - 10) return NULL;
  Ty* rt = c[sim_u((uint64_t)n)];
  int k = 1 + (int)sim_u(2);
  int group = ++g_group;
  N* x = nn(N_LET, ty, k + 1); x->rec = true; x->ids = A(sizeof(int) * (size_t)k); x->nm = A(sizeof(char*) * (size_t)k); x->tt = A(sizeof(Ty*) * (size_t)k);
  Sc* in = sc; int ra[3];
  for (int i = 0; i < k; ++i) {
    char* q = A(90); sprintf(q, "%s%c", sim_p(1, 2) ? "loop" : pick_name(), 'A' + i); x->nm[i] = q; x->ids[i] = next_id++;
    int m = 1 + (int)sim_u(3); Ty* at[4]; for (int j = 0; j < m; ++j) at[j] = sim_p(1, 12) ? any_ty() : any_data();
    ra[i] = (int)sim_u((uint64_t)m); at[ra[i]] = rt;
    Ty* ret = i == 0 && sim_p(3, 4) ? ty : any_data();
    x->tt[i] = ty_fn(m, at, ret);
    in = push(in, q, x->tt[i], x->ids[i]); in->norec = true; in->rec = group; in->recarg = ra[i];
  }
  for (int i = 0; i < k; ++i) {
    Ty* ft = x->tt[i];
    N* f = nn(N_FUNC, ft, 1); f->ids = A(sizeof(int) * (size_t)ft->n); f->nm = A(sizeof(char*) * (size_t)ft->n); f->tt = A(sizeof(Ty*) * (size_t)ft->n); f->tag = ft->n;
    Sc* s = in; Sc* guard = NULL;
    for (int j = 0; j < ft->n; ++j) {
      f->ids[j] = next_id++; char* q = A(90); sprintf(q, "%s%d", pick_name(), j); f->nm[j] = q; f->tt[j] = ft->t[j];
      s = push(s, q, ft->t[j], f->ids[j]); if (j == ra[i]) guard = s;
    }
    g_level++; f->a[0] = sel_on(use(guard), guard, ft->ret, d, s, 0, group); g_level--;
    f->form = (int)sim_u(3); f->id = f->tag > 1 ? 1 + (int)sim_u((uint64_t)f->tag - 1) : 0;
    x->a[i] = f;
  }
  Sc* out = sc;
  for (int i = 0; i < k; ++i) out = push(out, x->nm[i], x->tt[i], x->ids[i]);
  x->a[k] = gen(ty, d - 1, out);
  return x;
}
static N* p_reccall(Ty* ty, int d, Sc* sc) {
  // A recursive function with a smaller argument in reach.
  Sc* fs[16]; int n = 0;
  for (Sc* s = sc; s && n < 16; s = s->up) if (s->rec && s->norec && s->ty && gives(s->ty, ty) && visible(sc, s)) fs[n++] = s;
  if (!n) return NULL;
  Sc* f = fs[sim_u((uint64_t)n)];
  int need = f->ty->n - (ty->k == TF ? ty->n : 0);
  if (f->recarg >= need) return NULL;
  Sc* sm = pick_var(sc, is_small, f->ty->t[f->recarg], &f->rec, false);
  if (!sm) return NULL;
  N* args[24];
  for (int i = 0; i < need; ++i) args[i] = i == f->recarg ? use(sm) : gen(f->ty->t[i], d - 2, sc);
  return app(use(f), need, args, ty);
}
static N* p_app(Ty* ty, int d, Sc* sc) {
  Sc* f = pick_var(sc, is_fn_to, ty, NULL, false);
  if (!f) return NULL;
  int need = f->ty->n - (ty->k == TF ? ty->n : 0);
  N* args[24]; for (int i = 0; i < need; ++i) args[i] = gen_arg(f->ty->t[i], d - 1, sc, false);
  return app(use(f), need, args, ty);
}
// Application of a literal, of a partial application, or of a computed function.
static N* p_litapp(Ty* ty, int d, Sc* sc) {
  Ty* ft = fn_of(ty); if (!ft || ft->n > 12) return NULL;
  int need = ft->n - (ty->k == TF ? ty->n : 0);
  N* f = sim_p(1, 2) ? func_lit(ft, d, sc, sim_p(1, 3) ? 1 + (int)sim_u((uint64_t)ft->n) : ft->n) : gen(ft, d - 1, sc);
  N* args[24]; for (int i = 0; i < need; ++i) args[i] = gen_arg(ft->t[i], d - 1, sc, false);
  return app(f, need, args, ty);
}
static N* p_bind(Ty* ty, int d, Sc* sc) {
  if (nty > MAXT - 10 || ty->k == TF) return NULL;
  Ty* at[3]; int n = 1 + (int)sim_u(2); for (int i = 0; i < n; ++i) at[i] = any_data();
  Ty* kt = ty_fn(n, at, sim_p(2, 3) ? ty : any_data());
  Ty* ft = ty_fn(1, &kt, ty);
  N* f = gen(ft, d - 1, sc);
  N* k = func_lit(kt, d, sc, n);
  if (k->tag != n) { k->form = 0; }
  N* x = app(f, 1, &k, ty); x->form = k->tag == n ? -1 : 0; return x;
}
static N* p_list(Ty* ty, int d, Sc* sc) {
  Ty* lt = is_list(ty) && sim_p(1, 2) ? ty : NULL;
  if (!lt) { Ty* c[32]; int n = 0; for (int i = 0; i < nty && n < 32; ++i) if (is_list(tys[i])) c[n++] = tys[i]; if (!n) return NULL; lt = c[sim_u((uint64_t)n)]; }
  if (nty > MAXT - 4) return NULL;
  N* f; bool poly = false;
  if (lt == ty && sim_p(2, 3)) { f = nn(N_POLY, ty_fn(1, &lt, ty), 0); f->tag = 0; f->pa[0] = lt->ca[0]; poly = true; }
  else f = gen(ty_fn(1, &lt, ty), d - 1, sc);
  int m = (int)sim_u(5); if (sim_p(1, 20)) m = 10 + (int)sim_u(30);
  N* x = nn(N_LIST, ty, m + 1); x->a[0] = f;
  if (poly) f->form = m > 0 && sim_p(1, 2);   // inferred type argument
  for (int i = 0; i < m; ++i) x->a[1 + i] = gen(lt->ca[0], m > 6 ? 0 : d - 2, sc);
  return x;
}
static N* p_lit(Ty* ty, int d, Sc* sc) {
  if (!Letters || nty > MAXT - 6) return NULL;
  Ty* lt = ty_inst(LIST, Letters, NULL);
  N* f;
  if (lt == ty && sim_p(1, 2)) { f = nn(N_POLY, ty_fn(1, &lt, ty), 0); f->tag = 0; f->pa[0] = Letters; }
  else f = gen(ty_fn(1, &lt, ty), d - 1, sc);
  N* x = nn(N_LIT, ty, 1); x->a[0] = f;
  Buf b = {0}; int m = (int)sim_u(9); if (sim_p(1, 30)) m = 100 + (int)sim_u(400);
  for (int i = 0; i < m; ++i) buf_printf(&b, "%s", Letters->f[sim_u((uint64_t)Letters->n)]);
  char* w = A(b.len + 1); if (b.len) memcpy(w, b.data, b.len); buf_free(&b); x->word = w; return x;
}
static N* p_sacc(Ty* ty, int d, Sc* sc) {
  Sc* v = pick_var(sc, is_struct_with, ty, NULL, false);
  Ty* st; N* o;
  if (v && sim_p(3, 4)) { st = v->ty; o = use(v); }
  else {
    Ty* c[32]; int n = 0;
    for (int i = 0; i < nty && n < 32; ++i) if (tys[i]->k == TS && tys[i]->rank < 900) for (int j = 0; j < tys[i]->n; ++j) if (tys[i]->t[j] == ty) { c[n++] = tys[i]; break; }
    if (!n) return NULL;
    st = c[sim_u((uint64_t)n)]; o = gen(st, d - 1, sc);
  }
  int fs[64], n = 0; for (int j = 0; j < st->n && n < 64; ++j) if (st->t[j] == ty) fs[n++] = j;
  N* x = nn(N_SACC, ty, 1); x->a[0] = o; x->tag = fs[sim_u((uint64_t)n)]; return x;
}
static N* p_uacc(Ty* ty, int d, Sc* sc) {
  Ty* c[32]; int n = 0;
  for (int i = 0; i < nty && n < 32; ++i) if (tys[i]->k == TU && tys[i]->rank < 900) for (int j = 0; j < tys[i]->n; ++j) if (tys[i]->t[j] == ty) { c[n++] = tys[i]; break; }
  if (!n) return NULL;
  Ty* ut = c[sim_u((uint64_t)n)];
  int fs[128]; n = 0; for (int j = 0; j < ut->n; ++j) if (ut->t[j] == ty) fs[n++] = j;
  int tag = fs[sim_u((uint64_t)n)];
  if (!g_errors) {  // of a value known to have the tag
    N* o = nn(N_UNION, ut, 1); o->tag = tag; o->a[0] = gen(ty, d - 1, sc);
    N* x = nn(N_UACC, ty, 1); x->a[0] = o; x->tag = tag; return x;
  }
  N* x = nn(N_UACC, ty, 1); x->a[0] = gen(ut, d - 1, sc); x->tag = tag; return x;
}
static N* p_sel(Ty* ty, int d, Sc* sc) {
  Sc* v = pick_var(sc, is_union, NULL, NULL, false);
  if (v && sim_p(3, 4)) return sel_on(use(v), v, ty, d, sc, -1, -1);
  for (int i = 0; i < 10; ++i) { Ty* u = any_data(); if (u->k == TU && u->rank < 900 && u->n > 0) return sel_on(gen(u, d - 1, sc), NULL, ty, d, sc, -1, -1); }
  return NULL;
}
static N* p_scopy(Ty* ty, int d, Sc* sc) {
  if (ty->k != TS || ty->n < 2) return NULL;
  N* x = nn(N_SCOPY, ty, ty->n + 1); x->a[0] = gen(ty, d - 1, sc);
  int keep = (int)sim_u((uint64_t)ty->n), any = 0;
  for (int i = 0; i < ty->n; ++i) if (i != keep && sim_p(1, 2)) { x->a[1 + i] = gen_arg(ty->t[i], d - 1, sc, false); any++; }
  if (!any) { int i = keep ? 0 : 1; x->a[1 + i] = gen_arg(ty->t[i], d - 1, sc, false); }
  return x;
}
// Library functions with type parameters; see prog_p_text.
enum { P_LIST, P_ID, P_CONST, P_COMPOSE, P_MAP, P_FOLDL, P_MAYBE, P_JUST, P_PAIR, P_FST, P_APPEND, P_ITER, P_ABSIN, P_ABSOUT };
static N* poly(int tag, Ty* ty, Ty* a, Ty* b, Ty* c, bool infer) { N* f = nn(N_POLY, ty, 0); f->tag = tag; f->pa[0] = a; f->pa[1] = b; f->pa[2] = c; f->form = infer; return f; }
// Types are inferred from the first argument alone.
static N* p_poly(Ty* ty, int d, Sc* sc) {
  if (nty > MAXT - 20) return NULL;
  N* args[4]; Ty* t[4];
  bool inf = sim_p(1, 2) && ty->k != TF;
  switch (sim_u(10)) {
    case 0: { t[0] = ty; args[0] = gen(ty, d - 1, sc); return app(poly(P_ID, ty_fn(1, t, ty), ty, NULL, NULL, inf), 1, args, ty); }
    case 1: { Ty* b = any_data(); t[0] = ty; t[1] = b; args[0] = gen(ty, d - 1, sc); args[1] = gen(b, d - 2, sc); return app(poly(P_CONST, ty_fn(2, t, ty), ty, b, NULL, false), 2, args, ty); }
    case 2: {
      Ty* a = any_data(), *b = any_data(); t[0] = ty_fn(1, &b, ty); t[1] = ty_fn(1, &a, b); t[2] = a;
      if (ty->k == TF) return NULL;
      for (int i = 0; i < 3; ++i) args[i] = gen(t[i], d - 1, sc);
      return app(poly(P_COMPOSE, ty_fn(3, t, ty), a, b, ty, false), 3, args, ty);
    }
    case 3: {
      if (!is_list(ty)) return NULL;
      Ty* a = any_data(), *b = ty->ca[0]; if (b->k == TF) return NULL;
      t[0] = ty_fn(1, &a, b); t[1] = ty_inst(LIST, a, NULL);
      for (int i = 0; i < 2; ++i) args[i] = gen(t[i], d - 1, sc);
      return app(poly(P_MAP, ty_fn(2, t, ty), a, b, NULL, inf), 2, args, ty);
    }
    case 4: {
      if (ty->k == TF) return NULL;
      Ty* b = any_data(); Ty* q[2] = {ty, b}; t[0] = ty_fn(2, q, ty); t[1] = ty; t[2] = ty_inst(LIST, b, NULL);
      for (int i = 0; i < 3; ++i) args[i] = gen(t[i], d - 1, sc);
      return app(poly(P_FOLDL, ty_fn(3, t, ty), ty, b, NULL, inf), 3, args, ty);
    }
    case 5: {
      if (ty->k == TF) return NULL;
      Ty* a = any_data(); t[0] = ty_inst(MAYBE, a, NULL); t[1] = ty; t[2] = ty_fn(1, &a, ty);
      for (int i = 0; i < 3; ++i) args[i] = gen(t[i], d - 1, sc);
      return app(poly(P_MAYBE, ty_fn(3, t, ty), a, ty, NULL, false), 3, args, ty);
    }
    case 6: { if (ty->ctor != MAYBE) return NULL; t[0] = ty->ca[0]; args[0] = gen(t[0], d - 1, sc); return app(poly(P_JUST, ty_fn(1, t, ty), t[0], NULL, NULL, inf && t[0]->k != TF), 1, args, ty); }
    case 7: {
      if (ty->ctor == PAIR) { t[0] = ty->ca[0]; t[1] = ty->ca[1]; args[0] = gen(t[0], d - 1, sc); args[1] = gen(t[1], d - 1, sc); return app(poly(P_PAIR, ty_fn(2, t, ty), t[0], t[1], NULL, false), 2, args, ty); }
      Ty* b = any_data(); t[0] = ty_inst(PAIR, ty, b); args[0] = gen(t[0], d - 1, sc);
      return app(poly(P_FST, ty_fn(1, t, ty), ty, b, NULL, inf), 1, args, ty);
    }
    case 8: {
      if (!is_list(ty)) return NULL;
      t[0] = t[1] = ty; args[0] = gen(ty, d - 1, sc); args[1] = gen(ty, d - 1, sc);
      return app(poly(P_APPEND, ty_fn(2, t, ty), ty->ca[0], NULL, NULL, inf && ty->ca[0]->k != TF), 2, args, ty);
    }
    default: {  // through an abstract type
      t[0] = ty; N* x = nn(N_ABS, ty, 1); x->a[0] = gen(ty, d - 1, sc); return x;
    }
  }
}

static N* gen(Ty* ty, int d, Sc* sc) { return gen_arg(ty, d, sc, false); }
static N* gen_arg(Ty* ty, int d, Sc* sc, bool lazy) {
  if (d <= 0 || budget <= 0 || ty->rank >= 900) return gen_min(ty, sc, lazy);
  static const unsigned w0[] = {14, 14, 7, 3, 9, 4, 3, 12, 6, 3, 5, 3, 3, 5, 20, 8};
  unsigned w[16]; memcpy(w, w0, sizeof w);
  if (g_errors) w[6] = 9;
  if (ty->k == TF) { w[1] = 25; w[0] = 10; }
  for (int tries = 0; tries < 3; ++tries) {
    N* r = NULL;
    switch (sim_weighted(16, w)) {
      case 0: { Sc* v = pick_var(sc, is_ty, ty, NULL, lazy); if (v) r = use(v); break; }
      case 1: r = p_intro(ty, d, sc, lazy); break;
      case 2: r = p_let(ty, d, sc); break;
      case 3: r = p_letrec(ty, d, sc); break;
      case 4: r = p_sel(ty, d, sc); break;
      case 5: r = p_sacc(ty, d, sc); break;
      case 6: r = p_uacc(ty, d, sc); break;
      case 7: r = p_app(ty, d, sc); break;
      case 8: r = p_litapp(ty, d, sc); break;
      case 9: r = p_bind(ty, d, sc); break;
      case 10: r = p_list(ty, d, sc); break;
      case 11: r = p_lit(ty, d, sc); break;
      case 12: r = p_scopy(ty, d, sc); break;
      case 13: r = p_poly(ty, d, sc); break;
      case 14: r = p_reccall(ty, d, sc); break;
      case 15: r = p_rec(ty, d, sc); break;
    }
    if (r) return r;
  }
  return gen_min(ty, sc, lazy);
}
