// Simulated document processor: fbld's real main over a simulated file system
// and simulated standard streams, against a reference evaluator of documents.
#include "sim.h"
#include <ctype.h>
#include <setjmp.h>
#include <unistd.h>

const char* FbleBuildStamp = "sim";
extern int fbld_main(int, const char**);

// ---- memory of one run ---------------------------------------------------------
static void** ar_all; static size_t ar_n, ar_cap;
static void* ar(size_t n) {
  if (ar_n == ar_cap) { ar_cap = ar_cap ? 2 * ar_cap : 256; ar_all = realloc(ar_all, sizeof(void*) * ar_cap); }
  return ar_all[ar_n++] = calloc(1, n ? n : 1);
}
static void ar_free(void) { for (size_t i = 0; i < ar_n; ++i) free(ar_all[i]); ar_n = 0; }

// ---- documents -------------------------------------------------------------------
// A markup is a sequence of characters and commands.
typedef struct Cmd Cmd;
typedef struct { int ch; Cmd* c; } Item;   // ch >= 0: a character; -1: a command; -2: failed before
typedef struct { int n, cap; Item* x; } Seq;
struct Cmd { char name[24]; int n, cap; Seq** a; };
static Seq* seq(void) { return ar(sizeof(Seq)); }
static void put(Seq* s, int ch, Cmd* c) {
  if (s->n == s->cap) { int k = s->cap ? 2 * s->cap : 8; Item* x = ar(sizeof(Item) * (size_t)k); if (s->n) memcpy(x, s->x, sizeof(Item) * (size_t)s->n); s->x = x; s->cap = k; }
  s->x[s->n++] = (Item){ch, c};
}
static void puts_(Seq* s, const char* t) { for (; *t; ++t) put(s, (unsigned char)*t, NULL); }
static void cat(Seq* s, const Seq* t) { for (int i = 0; i < t->n; ++i) put(s, t->x[i].ch, t->x[i].c); }
static Seq* text(const char* t) { Seq* s = seq(); puts_(s, t); return s; }
static Cmd* cmd(const char* name) { Cmd* c = ar(sizeof *c); snprintf(c->name, sizeof c->name, "%s", name); return c; }
static void arg(Cmd* c, Seq* s) {
  if (c->n == c->cap) { int k = c->cap ? 2 * c->cap : 4; Seq** a = ar(sizeof(Seq*) * (size_t)k); if (c->n) memcpy(a, c->a, sizeof(Seq*) * (size_t)c->n); c->a = a; c->cap = k; }
  c->a[c->n++] = s;
}
static Seq* one(Cmd* c) { Seq* s = seq(); put(s, -1, c); return s; }

// ---- the reference evaluator ---------------------------------------------------------
typedef struct Env { const char* name; size_t len; int np; char** ps; Seq* body; struct Env* next; } Env;   // np -1: a variable
static long ev_steps, ev_limit; static int ev_depth; static bool ev_err; static jmp_buf ev_stop;
static Seq* poison(void) { ev_err = true; Seq* s = seq(); put(s, -2, NULL); return s; }
static char* ev_text(const Seq* s) {
  char* t = ar((size_t)s->n + 1);
  for (int i = 0; i < s->n; ++i) { if (s->x[i].ch < 0) { ev_err = true; return NULL; } t[i] = (char)s->x[i].ch; }
  return t;
}
static int head(const Seq* s) { return s->n == 0 ? -1 : s->x[0].ch >= 0 ? s->x[0].ch : -2; }
static Seq* eval(const Seq* s, Env* env);
static Env* bind(Env* next, const char* name, int np, char** ps, Seq* body) {
  Env* e = ar(sizeof *e); e->name = name; e->len = strlen(name); e->np = np; e->ps = ps; e->body = body; e->next = next; return e;
}
static Seq* ev_cmd(Cmd* c, Env* env) {
  for (Env* e = env; e; e = e->next) {
    if (strcmp(e->name, c->name)) continue;
    if (e->np < 0) return c->n ? poison() : e->body;
    if (c->n != e->np) return poison();
    Env* in = e;
    for (int i = 0; i < c->n; ++i) in = bind(in, e->ps[i], -1, NULL, eval(c->a[i], env));
    return eval(e->body, in);
  }
  const char* n = c->name;
#define ARGS(k) if (c->n != (k)) return poison()
  if (!strcmp(n, "error")) { ARGS(1); eval(c->a[0], env); return poison(); }
  if (!strcmp(n, "define")) {
    ARGS(4);
    char* name = ev_text(eval(c->a[0], env)); char* ps = ev_text(eval(c->a[1], env));
    if (!name || !ps) return poison();
    char** v = ar(sizeof(char*) * (strlen(ps) + 1)); int k = 0;
    for (char* p = ps; *p; ) { while (isspace((unsigned char)*p)) ++p; if (!*p) break; v[k++] = p; while (*p && !isspace((unsigned char)*p)) ++p; if (*p) *p++ = 0; }
    return eval(c->a[3], bind(env, name, k, v, c->a[2]));
  }
  if (!strcmp(n, "let")) {
    ARGS(3);
    char* name = ev_text(eval(c->a[0], env)); Seq* v = eval(c->a[1], env);
    if (!name) return poison();
    return eval(c->a[2], bind(env, name, -1, NULL, v));
  }
  if (!strcmp(n, "head") || !strcmp(n, "tail")) {
    ARGS(1);
    Seq* v = eval(c->a[0], env); int h = head(v);
    if (h == -2) return poison();
    if (h == -1) return v;
    Seq* r = seq();
    if (n[0] == 'h') put(r, h, NULL); else for (int i = 1; i < v->n; ++i) put(r, v->x[i].ch, v->x[i].c);
    return r;
  }
  if (!strcmp(n, "ifeq") || !strcmp(n, "ifneq")) {
    ARGS(4);
    Seq* a = eval(c->a[0], env); Seq* b = eval(c->a[1], env); bool eq = true;
    for (int i = 0; ; ++i) {
      int x = i < a->n ? a->x[i].ch : -9, y = i < b->n ? b->x[i].ch : -9;
      if (x == -1 || x == -2 || y == -1 || y == -2) return poison();
      if (x != y) { eq = false; break; }
      if (x == -9) break;
    }
    return eval(c->a[eq == (n[2] == 'e') ? 2 : 3], env);
  }
  if (!strcmp(n, "eval")) { ARGS(1); return eval(eval(c->a[0], env), env); }
  if (!strcmp(n, "plain")) {
    ARGS(2);
    char* f = ev_text(eval(c->a[0], env)); Seq* b = eval(c->a[1], env);
    if (!f) return poison();
    for (int i = 0; i < b->n; ++i) if (b->x[i].ch == -2) return poison();
    Seq* m = seq();   // f distributes over concatenation, so it may be applied to single characters
    for (int i = 0; i < b->n; ++i) {
      if (b->x[i].ch < 0) { put(m, -1, b->x[i].c); continue; }
      Cmd* k = cmd(f); Seq* s = seq(); put(s, b->x[i].ch, NULL); arg(k, s); put(m, -1, k);
    }
    return eval(m, env);
  }
  return one(c);   // not defined: left as it is
}
static Seq* eval(const Seq* s, Env* env) {
  if (++ev_steps + s->n / 8 > ev_limit || ++ev_depth > 1500) longjmp(ev_stop, 1);
  Seq* r = seq();
  for (int i = 0; i < s->n; ++i) {
    if (s->x[i].ch != -1) { put(r, s->x[i].ch, NULL); continue; }
    cat(r, ev_cmd(s->x[i].c, env));
    if ((ev_steps += r->n / 64) > ev_limit) longjmp(ev_stop, 1);
  }
  ev_depth--;
  return r;
}
typedef enum { D_OK, D_ERROR, D_TOO_LONG } Verdict;
static Verdict model(const Seq* doc, Buf* out) {
  ev_steps = 0; ev_depth = 0; ev_err = false;
  if (setjmp(ev_stop)) return D_TOO_LONG;
  Seq* r = eval(doc, NULL);
  for (int i = 0; i < r->n && !ev_err; ++i) { if (r->x[i].ch < 0) ev_err = true; else { char c = (char)r->x[i].ch; buf_add(out, &c, 1); } }
  return ev_err ? D_ERROR : D_OK;
}

// ---- generating documents --------------------------------------------------------------
// No name is a prefix of another one, so that a document cut off does not
// call something else.
static const char* names[] = {"ka", "kb", "kc", "d_1", "E2", "f", "g", "0", "Header", "q_", "_u"};
enum { NN = 11 };
typedef struct { char name[24]; int ar; bool var; } Sc;   // the generator's idea of what is in scope
static Sc sc[200]; static int nsc;
static int budget; static bool g_faulty, g_ctrl;
static Seq* g_inline(int depth);
static Seq* g_block(int depth);
static int g_char(void) {
  switch (sim_u(12)) {
    case 0: return "@\\[]{}"[sim_u(6)];
    case 1: return '\n';
    case 2: return ' ';
    case 3: return g_ctrl ? (int)(1 + sim_u(255)) : '.';
    case 4: return "#$%^&*()-=<>|\"'`~;:,?!/"[sim_u(24) % 23];
    default: return "abcxyzABC0123 "[sim_u(14)];
  }
}
static void g_text(Seq* s) {
  int n = (int)sim_u(sim_p(1, 10) ? 80 : 8);
  if (sim_p(1, 200)) n = (int)sim_u(3000);
  while (n-- > 0) put(s, g_char(), NULL);
}
static bool name_char(int c) { return c == '_' || (c < 128 && isalnum(c)); }
// A command keeps apart from text that would be read as part of it.
static Seq* separate(Seq* s) {
  Seq* r = seq();
  for (int i = 0; i < s->n; ++i) {
    if (i > 0 && s->x[i - 1].ch == -1) {
      int ch = s->x[i].ch;
      if (ch == '{' || (ch >= 0 && name_char(ch) && s->x[i - 1].c->n == 0)) put(r, ' ', NULL);
    }
    put(r, s->x[i].ch, s->x[i].c);
  }
  return r;
}
static Seq* g_arg(int depth, bool block) { return block && sim_p(1, 3) ? g_block(depth) : g_inline(depth); }
static Cmd* g_cmd(int depth, bool block) {
  budget--;
  static const unsigned w[] = {6, 3, 3, 3, 2, 1, 1, 2, 2, 2, 1, 1, 1, 1};
  unsigned k = budget > 0 && depth < 9 ? (unsigned)sim_weighted(14, w) : sim_p(1, 2) ? 0 : 9;
  Cmd* c; int mark = nsc;
  switch (k) {
    default: case 0: {   // something in scope
      if (nsc == 0 && g_faulty && sim_p(1, 3)) return cmd("ka");
      if (nsc == 0) { c = cmd("tail"); arg(c, g_inline(depth + 1)); return c; }
      Sc* s = &sc[nsc - 1 - (int)sim_u((uint64_t)(nsc > 12 && sim_p(1, 2) ? 12 : nsc))];
      for (int i = nsc - 1; i >= 0; --i) if (!strcmp(sc[i].name, s->name)) { s = &sc[i]; break; }
      c = cmd(s->name); int n = s->ar; if (g_faulty && sim_p(1, 25)) n += sim_p(1, 2) && n ? -1 : 1;
      for (int i = 0; i < n; ++i) arg(c, g_arg(depth + 1, block));
      return c;
    }
    case 1: case 2: {   // define
      c = cmd("define"); Sc s; memset(&s, 0, sizeof s);
      snprintf(s.name, sizeof s.name, "%s", sim_p(1, 40) ? ".block" : sim_p(1, 40) ? (sim_p(1, 2) ? "tail" : "head") : names[sim_u(NN)]);
      s.ar = (int)sim_u(4); Seq* ps = seq(); char pn[4][24];
      if (!strcmp(s.name, ".block") || !strcmp(s.name, "tail") || !strcmp(s.name, "head")) s.ar = 1;
      if (sim_p(1, 8)) puts_(ps, " \n");
      for (int i = 0; i < s.ar; ++i) { snprintf(pn[i], sizeof pn[0], "%s", names[sim_u(NN)]); puts_(ps, pn[i]); if (i + 1 < s.ar || sim_p(1, 5)) puts_(ps, sim_p(1, 6) ? " \t\n " : " "); }
      arg(c, text(s.name)); arg(c, ps);
      for (int i = 0; i < s.ar && nsc < 190; ++i) { Sc p; memset(&p, 0, sizeof p); snprintf(p.name, sizeof p.name, "%s", pn[i]); p.var = true; sc[nsc++] = p; }
      arg(c, g_arg(depth + 1, block)); nsc = mark;
      if (strcmp(s.name, ".block") && nsc < 190) sc[nsc++] = s;
      arg(c, g_arg(depth + 1, block)); nsc = mark;
      return c;
    }
    case 3: case 4: {   // let
      c = cmd("let"); Sc s; memset(&s, 0, sizeof s); s.var = true;
      snprintf(s.name, sizeof s.name, "%s", names[sim_u(NN)]);
      arg(c, text(s.name)); arg(c, g_arg(depth + 1, block));
      if (nsc < 190) sc[nsc++] = s;
      arg(c, g_arg(depth + 1, block)); nsc = mark;
      return c;
    }
    case 5: case 6: case 7: {
      c = cmd(k == 7 ? "ifneq" : "ifeq");
      Seq* a = g_inline(depth + 1); arg(c, a);
      arg(c, sim_p(1, 3) ? a : sim_p(1, 3) ? text("") : g_inline(depth + 1));
      arg(c, g_arg(depth + 1, block)); arg(c, g_arg(depth + 1, block));
      return c;
    }
    case 8: c = cmd(sim_p(1, 2) ? "head" : "tail"); arg(c, g_arg(depth + 1, block)); return c;
    case 9: {   // not defined anywhere, or not here
      c = cmd(g_faulty && sim_p(1, 3) ? "undefined" : names[sim_u(NN)]);
      bool known = false; for (int i = 0; i < nsc; ++i) known = known || !strcmp(sc[i].name, c->name);
      if (!known && !g_faulty && sim_p(29, 30)) { snprintf(c->name, sizeof c->name, "head"); arg(c, g_inline(depth + 1)); return c; }
      for (int n = (int)sim_u(3); n > 0; --n) arg(c, g_arg(depth + 1, block));
      return c;
    }
    case 10: c = cmd("eval"); arg(c, g_arg(depth + 1, block)); return c;
    case 11: {   // evaluated where it is defined
      c = cmd("let"); arg(c, text("zz")); Cmd* u = cmd("late"); int n = (int)sim_u(3);
      char ps[20] = ""; for (int i = 0; i < n; ++i) { arg(u, g_inline(depth + 1)); strcat(ps, i ? " p2" : "p1"); }
      arg(c, one(u));
      Cmd* d = cmd("define"); arg(d, text("late")); arg(d, text(ps)); Seq* b = text("<");
      for (int i = 0; i < n; ++i) { put(b, -1, cmd(i ? "p2" : "p1")); puts_(b, "|"); }
      puts_(b, ">"); arg(d, b);
      Cmd* e = cmd("eval"); arg(e, one(cmd("zz"))); arg(d, one(e)); arg(c, one(d));
      return c;
    }
    case 12: {   // plain
      static const char* homs[] = {"hom_id", "hom_none", "hom_map", "hom_twice"};
      c = cmd("plain"); arg(c, text(homs[sim_u(4)])); arg(c, g_arg(depth + 1, block)); return c;
    }
    case 13: {
      if (!g_faulty || sim_p(2, 3)) { c = cmd(sim_p(1, 2) ? "hom_map" : "hom_twice"); arg(c, g_inline(depth + 1)); return c; }
      static const char* b[] = {"error", "error", "head", "tail", "plain", "eval", "ifeq", "ifneq", "let", "define"};
      c = cmd(b[sim_u(10)]);
      for (int n = (int)sim_u(6); n > 0; --n) arg(c, g_arg(depth + 1, block));
      // What plain applies its command to is only defined for commands which distribute over concatenation.
      if (!strcmp(c->name, "plain") && c->n == 2) arg(c, text("x"));
      return c;
    }
  }
}
static Seq* g_inline(int depth) {
  Seq* s = seq();
  int n = (int)sim_u(depth > 5 ? 2 : 4);
  for (int i = 0; i < n && !sim_exhausted(); ++i) {
    if (depth < 10 && budget > 0 && sim_p(1, 2)) put(s, -1, g_cmd(depth, false)); else g_text(s);
  }
  return separate(s);
}
static Seq* g_block(int depth) {
  Seq* s = seq();
  int n = 1 + (int)sim_u(depth == 0 ? 6 : 3); bool cmds = false;
  for (int i = 0; i < n && !sim_exhausted(); ++i) {
    if (depth == 0) sim_step();
    if (sim_p(1, 2) || depth > 7) {
      Cmd* b = cmd(".block"); Seq* t = g_inline(depth + 1);
      if (t->n == 0) put(t, 'T', NULL);
      if (cmds && t->x[0].ch == ' ') t->x[0].ch = 'T';
      // The text of a paragraph ends with its line; after a
      // command it does not begin with a blank, which would make it an argument.
      put(t, '\n', NULL); arg(b, t); put(s, -1, b);
    } else { put(s, -1, g_cmd(depth + 1, true)); cmds = true; }
  }
  return s;
}
// Definitions around the document.
static Seq* prelude(Seq* doc) {
  Seq* d = doc; Cmd* c;
#define DEF(n, p, body) do { c = cmd("define"); arg(c, text(n)); arg(c, text(p)); arg(c, body); arg(c, d); d = one(c); } while (0)
  { Cmd* i = cmd("ifeq"); Cmd* hx = cmd("head"); arg(hx, one(cmd("x")));   // a -> <a>, b -> nothing, others stay
    Cmd* t = cmd("tail"); arg(t, one(cmd("x"))); Cmd* r = cmd("hom_map"); arg(r, one(t));
    Cmd* ib = cmd("ifeq"); arg(ib, one(hx)); arg(ib, text("b")); arg(ib, text("")); arg(ib, one(hx));
    Cmd* ia = cmd("ifeq"); arg(ia, one(hx)); arg(ia, text("a")); arg(ia, text("<a>")); arg(ia, one(ib));
    Seq* e = one(ia); put(e, -1, r);
    arg(i, one(cmd("x"))); arg(i, text("")); arg(i, text("")); arg(i, e);
    DEF("hom_map", "x", one(i)); }
  { Cmd* i = cmd("ifneq"); Cmd* hx = cmd("head"); arg(hx, one(cmd("s"))); Cmd* t = cmd("tail"); arg(t, one(cmd("s")));
    Cmd* r = cmd("hom_twice"); arg(r, one(t)); Seq* e = one(hx); put(e, -1, hx); put(e, -1, r);
    arg(i, one(cmd("s"))); arg(i, text("")); arg(i, e); arg(i, text(""));
    DEF("hom_twice", "s", one(i)); }
  DEF("hom_id", "x", one(cmd("x")));
  DEF("hom_none", "x", text(""));
  if (!g_faulty || sim_p(9, 10)) {
    if (sim_p(1, 4)) { Seq* b = text("("); put(b, -1, cmd("x")); puts_(b, ")"); DEF(".block", "x", b); }
    else DEF(".block", "x", one(cmd("x")));
  }
  return d;
}

// ---- writing documents -----------------------------------------------------------------
typedef struct { Buf b; bool bol; } W;
static void w_raw(W* w, const char* s) { buf_add(&w->b, s, strlen(s)); }
static void w_ch(W* w, char c) { buf_add(&w->b, &c, 1); }
static void w_indent(W* w, int ind) { for (int i = 0; i < ind; ++i) w_ch(w, ' '); }
typedef enum { X_ARG, X_PARA, X_LINE } Ctx;
static void w_cmd_inline(W* w, Cmd* c, int ind);
static bool w_blockfree(const Seq* s);
static bool c_blockfree(const Cmd* c) {
  if (!strcmp(c->name, ".block")) return false;
  for (int i = 0; i < c->n; ++i) if (!w_blockfree(c->a[i])) return false;
  return true;
}
static bool w_blockfree(const Seq* s) {
  for (int i = 0; i < s->n; ++i) if (s->x[i].ch == -1 && !c_blockfree(s->x[i].c)) return false;
  return true;
}
// A newline of text: as itself where the context allows it.
static void w_nl(W* w, Ctx x, int ind, bool* raw, bool next_nl) {
  if (x == X_LINE || (x == X_PARA && *raw) || sim_p(1, 3)) { w_raw(w, "\\n"); *raw = false; return; }
  w_ch(w, '\n'); *raw = true;
  if (!(next_nl && x == X_ARG && sim_p(1, 2))) w_indent(w, ind);
}
static void w_inline(W* w, const Seq* s, int n, Ctx x, int ind) {
  bool raw = x == X_PARA;   // just after a newline as itself
  for (int i = 0; i < n; ++i) {
    int ch = s->x[i].ch;
    if (ch == -1) { w_cmd_inline(w, s->x[i].c, ind); raw = false; continue; }
    bool after = i > 0 && s->x[i - 1].ch == -1;
    if (ch == '\n') {
      bool next_nl = i + 1 < n && s->x[i + 1].ch == '\n';
      if (x == X_ARG) { if (sim_p(1, 3)) w_raw(w, "\\n"); else { w_ch(w, '\n'); w_indent(w, ind); } }
      else if (x == X_PARA && i + 1 == n && !raw && n < s->n) { w_raw(w, "\\n"); }
      else w_nl(w, x, ind, &raw, next_nl);
      continue;
    }
    raw = false;
    if (ch == '@') w_raw(w, "\\@");
    else if (ch == '\\') w_raw(w, "\\\\");
    else if (ch == '[') w_raw(w, after || sim_p(1, 2) ? "\\[" : "[");
    else if (ch == ']') w_raw(w, x == X_ARG || sim_p(1, 2) ? "\\]" : "]");
    else w_ch(w, (char)ch);
  }
}
static bool is_text(const Seq* s) { for (int i = 0; i < s->n; ++i) if (s->x[i].ch < 0) return false; return true; }
static bool all_cmds(const Seq* s) { for (int i = 0; i < s->n; ++i) if (s->x[i].ch >= 0) return false; return true; }
static bool balanced(const Seq* s) {
  int d = 0; for (int i = 0; i < s->n; ++i) { if (s->x[i].ch == '{') d++; if (s->x[i].ch == '}' && --d < 0) return false; }
  return d == 0;
}
static bool literal_ok(const Seq* s) {
  if (!is_text(s) || s->n < 2 || s->x[s->n - 1].ch != '\n' || s->x[s->n - 2].ch == '\n') return false;
  return true;
}
static void w_arg_inline(W* w, const Seq* s, int ind) {
  if (is_text(s) && balanced(s) && sim_p(1, 3)) {
    w_ch(w, '{'); for (int i = 0; i < s->n; ++i) { w_ch(w, (char)s->x[i].ch); if (s->x[i].ch == '\n') w_indent(w, ind); } w_ch(w, '}');
  } else { w_ch(w, '['); w_inline(w, s, s->n, X_ARG, ind); w_ch(w, ']'); }
}
static void w_cmd_inline(W* w, Cmd* c, int ind) {
  w_ch(w, '@'); w_raw(w, c->name);
  for (int i = 0; i < c->n; ++i) w_arg_inline(w, c->a[i], ind);
}
static void w_blank(W* w, int ind) { if (ind && sim_p(1, 4)) w_indent(w, 1 + (int)sim_u((uint64_t)ind)); w_ch(w, '\n'); }
static void w_block(W* w, const Seq* s, int ind);
// A block command, from the '@' on; the current line is already indented.
static void w_cmd_block(W* w, Cmd* c, int ind, bool last) {
  w_ch(w, '@'); w_raw(w, c->name);
  int stage = 0;   // 0 in a row, inline arguments possible; 1 after the same line argument; 3 the row has ended
  for (int i = 0; i < c->n; ++i) {
    const Seq* s = c->a[i];
    enum { INL, SAME, LIT, NEXT, FINS, FINN, NF }; bool can[NF] = {false};
    bool bf = w_blockfree(s);
    can[INL] = bf; can[SAME] = bf; can[LIT] = literal_ok(s); can[NEXT] = s->n > 0 && all_cmds(s);
    can[FINS] = can[FINN] = all_cmds(s) && last && i + 1 == c->n;
    unsigned wt[NF] = {can[INL] ? (stage ? 1 : 4) : 0, can[SAME] ? 2 : 0, can[LIT] ? 3 : 0, can[NEXT] ? 3 : 0, can[FINS] ? 3 : 0, can[FINN] ? 3 : 0};
    size_t f = sim_weighted(NF, wt);
    static const int latest[] = {0, 0, 1, 1, 1, 3};   // the latest stage at which the form may follow
    if (f != FINN && stage > latest[f]) {
      if (stage < 3) w_ch(w, '\n');
      w_indent(w, ind); w_ch(w, '@'); stage = 0;
    }
    static const char* pn[] = {"arg-inline", "arg-same-line", "arg-literal-block", "arg-next-line", "arg-final-same-line", "arg-final-next-line"};
    sim_probe(pn[f]);
    switch (f) {
      case INL: w_arg_inline(w, s, ind); break;
      case SAME: w_ch(w, ' '); w_inline(w, s, s->n, X_LINE, ind); stage = 1; break;
      case LIT:
        w_raw(w, " @\n"); w_indent(w, ind + 1);
        for (int k = 0; k < s->n; ++k) { w_ch(w, (char)s->x[k].ch); if (s->x[k].ch == '\n' && k + 1 < s->n && !(s->x[k + 1].ch == '\n' && sim_p(1, 2))) w_indent(w, ind + 1); }
        stage = 3; break;
      case NEXT: w_ch(w, '\n'); w_block(w, s, ind + 1); stage = 3; break;
      case FINS: w_raw(w, " @@\n"); w_block(w, s, ind); return;
      case FINN: if (stage < 3) w_ch(w, '\n'); w_indent(w, ind); w_raw(w, "@@\n"); w_block(w, s, ind); return;
      default: break;
    }
  }
  if (stage < 3) w_ch(w, '\n');
}
static void w_block(W* w, const Seq* s, int ind) {
  bool prev_para = false, prev_cmd = false;
  for (int i = 0; i < s->n; ++i) {
    Cmd* c = s->x[i].c; bool last = i + 1 == s->n;
    if (!strcmp(c->name, ".block")) {
      Seq* a = c->a[0]; bool lead = a->x[0].ch == -1;
      if (prev_para || (prev_cmd && (a->x[0].ch == ' ' || a->x[0].ch == '\n' || sim_p(1, 2)))) w_blank(w, ind);
      w_indent(w, ind);
      if (lead) w_ch(w, '@');
      w_inline(w, a, a->n - 1, X_PARA, ind); w_ch(w, '\n');
      sim_probe("paragraph"); prev_para = true; prev_cmd = false;
    } else {
      if (prev_para || (prev_cmd && sim_p(1, 4))) w_blank(w, ind);
      w_indent(w, ind);
      w_cmd_block(w, c, ind, last); prev_cmd = true; prev_para = false;
    }
  }
}

// ---- running -----------------------------------------------------------------------------
typedef struct { int st; bool werr; Buf out; size_t nerr; } Out;
static char* argv_[40]; static int argc_; static char argb[40][64];
static void argp(const char* s) { snprintf(argb[argc_], sizeof argb[0], "%s", s); argv_[argc_] = argb[argc_]; argv_[++argc_] = NULL; }
static VFile* fl[40]; static int nfl;
static Out run_fbld(long wlimit, bool shortw) {
  Out o; memset(&o, 0, sizeof o);
  vfs_stdout()->write_limit = wlimit; vfs_stdout()->short_writes = shortw;
  char* av[40]; memcpy(av, argv_, sizeof av);
  o.st = sim_main((int (*)(int, char**))fbld_main, argc_, av);
  vfs_exit_flush();
  o.werr = vfs_stdout()->hit_write_err;
  buf_add(&o.out, vfs_stdout()->data, vfs_stdout()->len); o.nerr = vfs_stderr()->len;
  sim_ev("fbld", o.st, (int64_t)o.out.len, o.werr); sim_evs("out", o.out.data ? o.out.data : "");
  if (sim_verbose()) { sim_note("status %d, %zu bytes out%s", o.st, o.out.len, o.werr ? ", write error" : ""); sim_note_text(o.out.data ? o.out.data : ""); if (o.nerr) sim_note_text(vfs_stderr()->data); }
  SIM_CHECK(o.st >= 0, "crash", "fbld aborted: %.300s", vfs_stderr()->data);
  SIM_CHECK(sim_run_atexit() == 0, "leak", "fbld ends with status %d and memory still allocated, on which it aborts", o.st);
  SIM_CHECK(o.st == 0 || o.nerr > 0, "silent-failure", "fbld exits with %d and says nothing", o.st);
  SIM_CHECK(!(o.st == 0 && o.werr), "output-lost", "fbld exits with success although its output was not written: %zu bytes arrived", o.out.len);
  return o;
}
static void doc_note(void) {
  if (!sim_verbose()) return;
  for (int i = 0; i < nfl; ++i) { sim_note("%s: %zu bytes%s", argv_[i + 1], fl[i]->len, fl[i]->exists ? "" : ", missing"); sim_note_text(fl[i]->data); }
}
// Lays the document out over several files, divided at starts of lines.
static void lay(const char* d, size_t n, unsigned pieces, bool shortr) {
  vfs_reset(); vfs_root_readonly = false; vfs_std(true, true, true);
  argc_ = 0; argp("fbld"); nfl = 0; size_t at = 0; bool in_used = false;
  for (unsigned i = 0; i < pieces; ++i) {
    size_t to = n;
    if (i + 1 < pieces) {
      to = at + (size_t)sim_u(n - at + 1);
      while (to < n && to > at && d[to - 1] != '\n') to++;
      if (to == n && n > 0 && d[n - 1] != '\n') to = at;   // the last piece keeps its broken line
    }
    char p[40]; snprintf(p, sizeof p, "d/%u.fbld", i);
    VFile* f;
    if (!in_used && sim_p(1, 6)) { in_used = true; f = vfs_put("<stdin>", d + at, to - at); argp("-"); }
    else { f = vfs_put(p, d + at, to - at); argp(p); }
    f->short_reads = shortr; fl[nfl++] = f; at = to;
  }
  if (in_used && sim_p(1, 8) && nfl < 30) { argp("-"); fl[nfl++] = vfs_stdin(); sim_probe("stdin-twice"); }
}
static void compare(Verdict v, Buf* want, Out* o, const char* what) {
  if (v == D_ERROR) { SIM_CHECK(o->st == 1, "error-accepted", "%s: the document is in error, fbld exits with %d", what, o->st); sim_probe("error-reported"); return; }
  SIM_CHECK(o->st == 0, "refused", "%s: fbld exits with %d for a good document: %.300s", what, o->st, vfs_stderr()->data);
  size_t i = 0; const char* a = o->out.data ? o->out.data : ""; const char* b = want->data ? want->data : "";
  if (o->out.len == want->len && !memcmp(a, b, want->len)) { sim_probe("output-checked"); return; }
  while (i < o->out.len && i < want->len && a[i] == b[i]) ++i;
  sim_fail("wrong-output", "%s: output differs from the document's meaning at byte %zu (%zu bytes instead of %zu): ...%.40s instead of ...%.40s", what, i, o->out.len, want->len, i < o->out.len ? a + i : "", i < want->len ? b + i : "");
}
static Seq* g_doc(Buf* want, Verdict* v, bool faulty) {
  nsc = 0; budget = 5 + (int)sim_u(sim_p(1, 4) ? 80 : 25); g_faulty = faulty; g_ctrl = sim_p(1, 4); ev_limit = 8000;
  Seq* d = prelude(g_block(0));
  *v = model(d, want);
  return d;
}
static void bufs(W* w, const Seq* d) { memset(w, 0, sizeof *w); if (sim_p(1, 10)) w_raw(&w->b, "\n\n"); w_block(w, d, 0); if (sim_p(1, 6)) w_raw(&w->b, "\n"); }

static void run_c21(void) {
  Buf want = {0}; Verdict v; Seq* d = g_doc(&want, &v, sim_p(1, 3));
  if (v == D_TOO_LONG) { sim_probe("document-too-long"); goto done; }
  for (int k = 0; k < 2; ++k) {
    W w; bufs(&w, d);
    lay(w.b.data, w.b.len, 1 + (unsigned)sim_u(sim_p(1, 3) ? 6 : 1), sim_p(1, 3)); doc_note();
    Out o = run_fbld(-1, sim_p(1, 4));
    compare(v, &want, &o, "a document");
    sim_sample("%zu bytes, %d files, status %d, %zu bytes out", w.b.len, nfl, o.st, o.out.len);
    sim_count("document-bytes", w.b.len); buf_free(&o.out); buf_free(&w.b);
  }
  sim_state(sim_hash(want.data, want.len, (uint64_t)v)); sim_nontrivial();
done:
  buf_free(&want); ar_free(); vfs_reset();
}

static void mutate(Buf* b) {
  int n = 1 + (int)sim_u(4);
  static const char* frag[] = {"@", "[", "]", "{", "}", "\\", "\n", " ", " @\n", " @@\n", "@@\n", "@@", "@\n", "@[", "@ ", "\n\n", "\n ", "\n  ", "\\n", "\x03", "\xff", "@head", "@tail[", "@let[x][", "@eval[@eval", "@plain[f][@error[x]]", "@tail[@error{}]", "@head[@head]", "\t", "\r\n", "@ifeq[@error[]][][][]", "@let[@error[]][a][b]", "@plain[@x][y]", "@plain[hom_id][@tail[]@error[]]"};
  for (; n > 0; --n) {
    size_t i = (size_t)sim_u(b->len + 1), j = (size_t)sim_u(b->len + 1); if (i > j) { size_t t = i; i = j; j = t; }
    switch (sim_u(6)) {
      case 0: if (i < b->len) b->data[i] = (char)(1 + sim_u(255)); break;
      case 1: { size_t k = j - i; if (k > 40) k = (size_t)sim_u(40); memmove(b->data + i, b->data + i + k, b->len - i - k); b->len -= k; break; }
      case 2: { size_t k = j - i; if (k > 200) k = (size_t)sim_u(200); char* c = malloc(k + 1); memcpy(c, b->data + i, k); Buf t = {0}; buf_add(&t, b->data, i); buf_add(&t, c, k); buf_add(&t, b->data + i, b->len - i); free(c); buf_free(b); *b = t; break; }
      default: { const char* f = frag[sim_u(sizeof frag / sizeof frag[0])]; Buf t = {0}; buf_add(&t, b->data, i); buf_add(&t, f, strlen(f)); buf_add(&t, b->data + i, b->len - i); buf_free(b); *b = t; break; }
    }
    if (b->len == 0) buf_add(b, "\n", 1);
  }
  // Damage must not build a recursion that does not end.
  for (size_t i = 0; i + 6 <= b->len; ++i) if (!memcmp(b->data + i, "define", 6)) b->data[i] = 'D';
}
static void run_c15(void) {
  Buf want = {0}; Verdict v = D_OK; W w = {0}; W pre = {0}; unsigned kind = (unsigned)sim_u(10);
  bool faulty = sim_p(1, 4);
  if (kind >= 7) {   // damaged documents: nothing is known about the result but that it is the same for every division
    Buf doc = {0}; Seq* d;
    if (kind == 7) { d = g_doc(&want, &v, faulty); if (v == D_TOO_LONG) { sim_probe("document-too-long"); goto done; } bufs(&w, d); buf_add(&doc, w.b.data, (size_t)sim_u(w.b.len + 1)); sim_fault("truncated-input"); }
    else {
      g_faulty = false; d = prelude(seq());
      // Definitions, undamaged; everything after them belongs to the last one.
      for (Seq* s = d; s->n; ) { Cmd* k = s->x[0].c; w_raw(&pre, "@define"); for (int i = 0; i < 3; ++i) w_arg_inline(&pre, k->a[i], 0); w_raw(&pre, sim_p(1, 2) ? " @@\n" : "\n@@\n"); s = k->a[3]; }
      nsc = 0; budget = 5 + (int)sim_u(30); g_faulty = faulty; g_ctrl = sim_p(1, 2);
      if (kind == 8) bufs(&w, g_block(0));
      else { size_t n = (size_t)sim_u(sim_p(1, 4) ? 600 : 60); static const char al[] = "@@@[]{}\\\n\n  abn."; for (size_t i = 0; i < n; ++i) w_ch(&w, sim_p(1, 12) ? (char)(1 + sim_u(255)) : al[sim_u(sizeof al - 1)]); if (n == 0) w_ch(&w, '\n'); }
      mutate(&w.b); sim_fault("damaged-input"); buf_add(&doc, pre.b.data, pre.b.len); buf_add(&doc, w.b.data, w.b.len);
    }
    lay(doc.data ? doc.data : "", doc.len, 1, false); doc_note();
    Out a = run_fbld(-1, false);
    SIM_CHECK(a.st <= 1, "status", "exit status %d", a.st);
    lay(doc.data ? doc.data : "", doc.len, 1 + (unsigned)sim_u(6), true);
    Out b = run_fbld(-1, sim_p(1, 2));
    SIM_CHECK(a.st == b.st && a.out.len == b.out.len && (a.st != 0 || a.out.len == 0 || !memcmp(a.out.data, b.out.data, a.out.len)), "division", "the result depends on how the input is divided: status %d, %zu bytes, or status %d, %zu bytes", a.st, a.out.len, b.st, b.out.len);
    sim_probe(a.st ? "damage-refused" : "damage-accepted"); sim_sample("damaged document, %zu bytes, status %d", doc.len, a.st);
    sim_state(sim_hash(a.out.data, a.out.len, (uint64_t)a.st)); sim_nontrivial();
    buf_free(&a.out); buf_free(&b.out); buf_free(&doc);
  } else {
    Seq* d = g_doc(&want, &v, faulty);
    if (v == D_TOO_LONG) { sim_probe("document-too-long"); goto done; }
    bufs(&w, d);
    bool nul = kind == 6;
    if (nul) { size_t at = (size_t)sim_u(w.b.len); w.b.data[at] = 0; sim_fault("nul-in-input"); }
    lay(w.b.data, w.b.len, 1 + (unsigned)sim_u(4), sim_p(1, 2)); doc_note();
    VFile* f = fl[sim_u((uint64_t)nfl)]; long wl = -1; bool must_fail = nul, may_fail = false; const char* what = "healthy files";
    switch (kind) {
      case 1: case 2: f->read_err_at = (long)sim_u(f->len + 1); what = "a read error"; break;
      case 3: if (f != vfs_stdin()) { if (sim_p(1, 2)) f->unreadable = true; else f->exists = false; must_fail = true; what = "a file that cannot be opened"; sim_fault("open-fails"); } break;
      case 4: wl = (long)sim_u(want.len + 2); what = "a full disk"; break;
      case 5: f->read_err_at = (long)sim_u(f->len + 1); f->read_err_transient = true; what = "an interrupted read"; may_fail = true; break;
      default: break;
    }
    Out o = run_fbld(wl, sim_p(1, 3));
    for (int i = 0; i < nfl; ++i) if (fl[i]->hit_read_err && !fl[i]->read_err_transient) must_fail = true;
    if (o.werr) must_fail = true;
    SIM_CHECK(o.st <= 1, "status", "exit status %d", o.st);
    if (must_fail) SIM_CHECK(o.st == 1, "incomplete", "fbld exits with success in spite of %s", nul ? "a NUL byte, after which the line is lost" : o.werr ? "a full disk" : what);
    else if (!(may_fail && o.st == 1)) compare(v, &want, &o, what);
    sim_state(sim_hash(o.out.data, o.out.len, (uint64_t)o.st)); sim_nontrivial();
    sim_sample("%s, %zu bytes in %d files, status %d", what, w.b.len, nfl, o.st);
    buf_free(&o.out);
  }
done:
  buf_free(&want); buf_free(&w.b); buf_free(&pre.b); ar_free(); vfs_reset();
}

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C15", run_c15, 240000, 6000000, 400},
  {"C21", run_c21, 160000, 4000000, 400},
  {NULL, NULL, 0, 0, 0}
};
