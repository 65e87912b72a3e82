// Simulated standard I/O programs: random fble programs that open, read,
// write and drop streams are run by the real fble-stdio (parser, compiler,
// interpreter, heap, native functions) on a simulated disk; a small model
// gives the exact sequence of opens, reads and writes they must perform.
#include "sim.h"
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>
#include <setjmp.h>

const char* FbleBuildStamp = "sim";
int FbleStdioMain(int argc, const char** argv, FbleGeneratedModule* module);

enum { M_READ, M_WRITE, M_HANDLES };
static int mode;

typedef enum { PUT, ECHO, OPENR, OPENW, SKIP, GARB, SUB, LOOP, ENV, ARGS, ZIP, REV, ERR, HOLD } OpK;
typedef struct Op { OpK k; int a, b, c, n; int slot; unsigned char bytes[8]; char name[24]; struct Op* body; struct Op* next; } Op;

#define MAXSLOT 200
#define NRF 4
#define NWF 4
typedef struct { bool wr; int file; size_t pos; unsigned id; bool open, closed, errdone; size_t last; } Inst;
typedef struct { int t; int inst; size_t pos; int byte; char path[24]; } Ev;  // t: 'r' 'w' 'f'(write that fails) 'o' 'x'(open that fails)
static Inst inst[4096]; static int ninst;
static Ev* tr; static size_t ntr, captr, cur;
static int slot_inst[MAXSLOT]; static bool slot_wr[MAXSLOT]; static int nslot;
static int avail[MAXSLOT], navail;
static Buf src;
static Buf wcontent[NWF + 2];  // model content: write files, then stdout, stderr
static long wlimit[NWF + 2];
static struct { char name[24]; bool exists, unreadable; } rf[NRF];
static Buf rdata[NRF + 1];     // last is stdin
static long rerr[NRF + 1]; static bool rtrans[NRF + 1];
static bool wdeny[NWF];
static int open_seq_model, open_seq_real;
static unsigned open_fail_every; static uint64_t open_fail_salt;
static bool check_trace, m_err, m_ret;
static int budget;
static const char* envs[3][2] = {{"ALPHA", "one two"}, {"BETA", ""}, {"GAMMA", "~!@#{}"}};
static int nargs; static char args_[6][16];
static bool runtime_err_seen;
static long oom_ops;

static bool open_fails(int seq) {
  if (!open_fail_every) return false;
  uint64_t x = open_fail_salt + (uint64_t)seq * 0x9E3779B97F4A7C15ull; x ^= x >> 31; x *= 0xBF58476D1CE4E5B9ull; x ^= x >> 29;
  return x % open_fail_every == 0;
}

// ---- model ------------------------------------------------------------------
static Ev* ev(int t, int in) {
  if (ntr == captr) { captr = captr ? captr * 2 : 256; tr = realloc(tr, captr * sizeof *tr); }
  Ev* e = &tr[ntr++]; memset(e, 0, sizeof *e); e->t = t; e->inst = in; e->byte = -1;
  if (in >= 0) inst[in].last = ntr;
  return e;
}
static int m_read(int in) {
  Inst* I = &inst[in];
  ev('r', in)->pos = I->pos;
  Buf* d = I->file >= 100 ? &wcontent[I->file - 100] : &rdata[I->file];
  long er = I->file >= 100 ? -1 : rerr[I->file];
  if (er >= 0 && I->pos >= (size_t)er && !(rtrans[I->file] && I->errdone)) { I->errdone = true; return -1; }
  if (I->pos >= d->len) return -1;
  return (unsigned char)d->data[I->pos++];
}
static void m_write(int in, int byte) {
  Inst* I = &inst[in];
  bool fail = wlimit[I->file] >= 0 && I->pos >= (size_t)wlimit[I->file];
  Ev* e = ev(fail ? 'f' : 'w', in); e->byte = byte; e->pos = I->pos;
  if (!fail) { char c = (char)byte; buf_add(&wcontent[I->file], &c, 1); I->pos++; }
}
static int new_inst(bool wr, int file) {
  if (ninst >= 4095) sim_broken("instances");
  inst[ninst] = (Inst){.wr = wr, .file = file}; return ninst++;
}
static void wname(int f, char* o) { sprintf(o, "/d/w%d", f); }
static const char Chars[] = "\n\t !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
static bool m_exec(Op* o);
static bool m_ops(Op* o) { for (; o; o = o->next) if (!m_exec(o)) return false; return true; }
static bool m_exec(Op* o) {
  if (--oom_ops < 0) sim_broken("model ran too long");
  int A = o->a >= 0 ? slot_inst[o->a] : -1, B = o->b >= 0 ? slot_inst[o->b] : -1, C = o->c >= 0 ? slot_inst[o->c] : -1;
  switch (o->k) {
    case PUT: if (A >= 0) for (int i = 0; i < o->n; ++i) m_write(A, o->bytes[i]); break;
    case ECHO: if (A >= 0 && B >= 0) for (int i = 0; i < o->n; ++i) { int c = m_read(A); if (c < 0) { m_write(B, 'E'); break; } m_write(B, c); } break;
    case SKIP: if (A >= 0) for (int i = 0; i < o->n; ++i) if (m_read(A) < 0) break; break;
    case ZIP: if (A >= 0 && B >= 0 && C >= 0) for (int i = 0; i < o->n; ++i) {
      int x = m_read(A); m_write(C, x < 0 ? 'E' : x);
      int y = m_read(B); m_write(C, y < 0 ? 'E' : y);
    } break;
    case REV: if (A >= 0 && B >= 0) {
      int buf[64]; int n = 0;
      for (; n < o->n; ++n) { buf[n] = m_read(A); if (buf[n] < 0) break; }
      for (int i = n - 1; i >= 0; --i) m_write(B, buf[i]);
    } break;
    case GARB: break;
    case HOLD: break;
    case OPENR: case OPENW: {
      bool fail = open_fails(open_seq_model++);
      char p[24];
      if (o->k == OPENW) { wname(o->n, p); fail |= wdeny[o->n]; }
      else if (o->n >= 100) { wname(o->n - 100, p); if (wcontent[o->n - 100].data == NULL) fail = true; }
      else { strcpy(p, rf[o->n].name); fail |= !rf[o->n].exists || rf[o->n].unreadable; }
      int in = -1;
      if (!fail) {
        in = new_inst(o->k == OPENW, o->n);
        if (o->k == OPENW) { wcontent[o->n].len = 0; buf_add(&wcontent[o->n], "", 0); }
      }
      slot_inst[o->slot] = in;
      strcpy(ev(fail ? 'x' : 'o', in)->path, p);
      m_write(slot_inst[1], fail ? 'N' : 'J');
      break;
    }
    case SUB: return m_ops(o->body);
    case LOOP: for (int i = 0; i < o->n; ++i) if (!m_ops(o->body)) return false; break;
    case ENV: if (A >= 0) {
      const char* v = NULL;
      for (int i = 0; i < 3; ++i) if (!strcmp(envs[i][0], o->name)) v = envs[i][1];
      if (!v) m_write(A, 'N'); else { m_write(A, 'J'); for (; *v; ++v) m_write(A, *v); }
    } break;
    case ARGS: if (A >= 0) for (int i = 0; i < nargs; ++i) { for (char* p = args_[i]; *p; ++p) m_write(A, *p); m_write(A, 10); } break;
    case ERR: return false;
  }
  return true;
}

// ---- program generator -----------------------------------------------------------
static int nw;
static void byte_text(int c) {
  if (c == 0) { buf_printf(&src, "_Zero"); return; }
  char t[64] = "O"; 
  int top = 0; while ((c >> (top + 1)) > 0) ++top;
  char pre[32]; int n = 0; char post[32]; int q = 0;
  for (int i = 0; i < top; ++i) { pre[n++] = (c >> i) & 1 ? 'B' : 'A'; pre[n++] = '('; post[q++] = ')'; }
  pre[n] = 0; post[q] = 0;
  (void)t;
  buf_printf(&src, "P(%sO%s)", pre, post);
}
static void nat_text(int n) {
  // binary: D = double, S = successor
  if (n == 0) { buf_printf(&src, "Z"); return; }
  if (n & 1) { buf_printf(&src, "S("); nat_text(n - 1); buf_printf(&src, ")"); return; }
  buf_printf(&src, "D("); nat_text(n / 2); buf_printf(&src, ")");
}
static int pick(bool wr) {
  int c[MAXSLOT], n = 0;
  for (int i = 0; i < navail; ++i) if (slot_wr[avail[i]] == wr) c[n++] = avail[i];
  // recent slots and the standard streams come first
  return n ? c[sim_u((uint64_t)n)] : -1;
}
static void kill_writers(int f, int keep_readers);
static int slot_file[MAXSLOT];
static void kill_writers(int f, int keep_readers) {
  for (int i = 0; i < navail; ++i) if ((slot_wr[avail[i]] ? slot_file[avail[i]] == f : slot_file[avail[i]] == 100 + f && !keep_readers)) { avail[i--] = avail[--navail]; }
}
static Op* gen_ops(int depth, int* wv, bool inloop);
static void use2(int a, int b, const char* fn, const char* mid) {
  buf_printf(&src, "_s%d.?(just: _s%d.?(just: %s(_s%d.just, _s%d.just, %s), nothing: _w%d), nothing: _w%d)", a, b, fn, a, b, mid, nw, nw);
}
static int unit_cost;
static Op* gen_op(int depth, int* wv, bool inloop) {
  Op* o = calloc(1, sizeof *o); o->a = o->b = o->c = -1;
  static const unsigned wt[3][14] = {
    //PUT ECHO OPENR OPENW SKIP GARB SUB LOOP ENV ARGS ZIP REV ERR HOLD
    {3, 14, 8, 3, 4, 2, 2, 3, 1, 1, 6, 4, 0, 1},
    {14, 6, 4, 6, 1, 2, 3, 4, 1, 1, 2, 2, 1, 1},
    {5, 6, 10, 8, 2, 6, 5, 6, 1, 2, 3, 2, 1, 3},
  };
  o->k = (OpK)sim_weighted(14, wt[mode]);
  if (depth >= 3 && (o->k == SUB || o->k == LOOP)) o->k = PUT;
  if (o->k == ERR && !sim_p(1, 3)) o->k = PUT;
  int w0 = *wv, w1 = ++nw;
  #define NXT(...) do { buf_printf(&src, "  World@ _w%d = ", w1); __VA_ARGS__; buf_printf(&src, ";\n"); *wv = w1; } while (0)
  switch (o->k) {
    case PUT: {
      o->a = pick(true); if (o->a < 0) o->a = 1;
      o->n = 1 + (int)sim_u(5);
      for (int i = 0; i < o->n; ++i) o->bytes[i] = (unsigned char)(sim_p(1, 2) ? (int)(uint8_t[]){0, 255, 10, 13, 26, 4, 127, 128}[sim_u(8)] : (int)sim_u(256));
      budget -= o->n;
      NXT(
        buf_printf(&src, "_s%d.?(just: ", o->a);
        for (int i = 0; i < o->n; ++i) buf_printf(&src, "_s%d.just(", o->a), byte_text(o->bytes[o->n - 1 - i]), buf_printf(&src, ", ");
        buf_printf(&src, "_w%d", w0);
        for (int i = 0; i < o->n; ++i) buf_printf(&src, ").s");
        buf_printf(&src, ", nothing: _w%d)", w0));
      break;
    }
    case ECHO: case REV: {
      o->a = pick(false); o->b = pick(true); o->n = (int)(sim_p(1, 4) ? sim_u(60) : sim_u(9)); budget -= o->n;
      NXT(buf_printf(&src, "_s%d.?(just: _s%d.?(just: %s(_s%d.just, _s%d.just, ", o->a, o->b, o->k == ECHO ? "_Echo" : "_Rev", o->a, o->b); nat_text(o->n);
          buf_printf(&src, ", _w%d), nothing: _w%d), nothing: _w%d)", w0, w0, w0));
      break;
    }
    case SKIP: {
      o->a = pick(false); o->n = (int)sim_u(20); budget -= o->n;
      NXT(buf_printf(&src, "_s%d.?(just: _Skip(_s%d.just, ", o->a, o->a); nat_text(o->n); buf_printf(&src, ", _w%d), nothing: _w%d)", w0, w0));
      break;
    }
    case ZIP: {
      o->a = pick(false); o->b = pick(false); o->c = pick(true); o->n = (int)sim_u(12); budget -= o->n * 2;
      NXT(buf_printf(&src, "_s%d.?(just: _s%d.?(just: _s%d.?(just: _Zip(_s%d.just, _s%d.just, _s%d.just, ", o->a, o->b, o->c, o->a, o->b, o->c); nat_text(o->n);
          buf_printf(&src, ", _w%d), nothing: _w%d), nothing: _w%d), nothing: _w%d)", w0, w0, w0, w0));
      break;
    }
    case GARB: {
      o->n = (int)(mode == M_HANDLES && sim_p(1, 3) ? sim_u(400) : sim_u(40));
      NXT(buf_printf(&src, "_Garb("); nat_text(o->n); buf_printf(&src, ", _w%d)", w0));
      break;
    }
    case OPENR: case OPENW: {
      int target = o->k == OPENW ? (int)sim_u(NWF) : 0;
      bool live = false;
      // In a loop an earlier part of the body may still use an older stream of the file.
      if (o->k == OPENW && inloop) for (int i = 0; i < navail; ++i) live |= slot_file[avail[i]] == target && slot_wr[avail[i]] || slot_file[avail[i]] == 100 + target;
      if (nslot >= MAXSLOT - 1 || live) { o->k = GARB; o->n = 0; NXT(buf_printf(&src, "_w%d", w0)); break; }
      o->slot = nslot++;
      slot_wr[o->slot] = o->k == OPENW;
      if (o->k == OPENW) {
        o->n = target; slot_file[o->slot] = o->n; kill_writers(o->n, 0);
        if (inloop) {}  // a fresh writer truncates; older writers of the file are not used again
        buf_printf(&src, "  R@<Maybe@<OS@>> _r%d = _io.write(Str|'/d/w%d', _w%d);\n  Maybe@<OS@> _s%d = _r%d.x;\n", o->slot, o->n, w0, o->slot, o->slot);
      } else if (sim_p(1, 5) && !inloop) {
        int f = (int)sim_u(NWF); o->n = 100 + f; kill_writers(f, 1); slot_file[o->slot] = o->n;
        buf_printf(&src, "  R@<Maybe@<IS@>> _r%d = _io.read(Str|'/d/w%d', _w%d);\n  Maybe@<IS@> _s%d = _r%d.x;\n", o->slot, f, w0, o->slot, o->slot);
      } else {
        o->n = (int)sim_u(NRF); slot_file[o->slot] = o->n;
        buf_printf(&src, "  R@<Maybe@<IS@>> _r%d = _io.read(Str|'%s', _w%d);\n  Maybe@<IS@> _s%d = _r%d.x;\n", o->slot, rf[o->n].name, w0, o->slot, o->slot);
      }
      NXT(buf_printf(&src, "_s1.?(just: _s1.just(_s%d.?(just: ", o->slot); byte_text('J'); buf_printf(&src, ", nothing: "); byte_text('N'); buf_printf(&src, "), _r%d.s).s, nothing: _r%d.s)", o->slot, o->slot));
      avail[navail++] = o->slot;
      break;
    }
    case SUB: case LOOP: {
      int save_n = navail; int save[MAXSLOT]; memcpy(save, avail, sizeof save);
      o->n = o->k == LOOP ? (int)(sim_p(1, 4) ? sim_u(30) : sim_u(4)) : 1;
      int f = nw;
      int v = ++nw;
      int old_cost = unit_cost; unit_cost *= o->n ? o->n : 1;
      int bud = budget; 
      if (o->k == LOOP) budget = budget / (o->n + 1);
      if (budget > 60) budget = 60;
      if (o->k == LOOP) buf_printf(&src, "  (Nat@, World@) { World@; } _f%d = (Nat@ _n%d, World@ _w%d) {\n  _n%d.?(z: _w%d);\n", f, f, v, f, v);
      else buf_printf(&src, "  (World@) { World@; } _f%d = (World@ _w%d) {\n", f, v);
      int wv2 = v;
      o->body = gen_ops(depth + 1, &wv2, inloop || o->k == LOOP);
      if (o->k == LOOP) buf_printf(&src, "  _f%d(_n%d.s, _w%d);\n  };\n", f, f, wv2); else buf_printf(&src, "  _w%d;\n  };\n", wv2);
      int used = 60 - budget;
      budget = bud - used * (o->k == LOOP ? o->n : 1);
      unit_cost = old_cost;
      // slots of the body are gone; writers it replaced must stay unused
      int keep[MAXSLOT], nk = 0;
      for (int i = 0; i < save_n; ++i) for (int j = 0; j < navail; ++j) if (avail[j] == save[i]) { keep[nk++] = save[i]; break; }
      memcpy(avail, keep, sizeof(int) * (size_t)nk); navail = nk;
      NXT(if (o->k == LOOP) { buf_printf(&src, "_f%d(", f); nat_text(o->n); buf_printf(&src, ", _w%d)", w0); } else buf_printf(&src, "_f%d(_w%d)", f, w0));
      break;
    }
    case ENV:
      o->a = pick(true); if (o->a < 0) o->a = 1;
      strcpy(o->name, (const char*[]){"ALPHA", "BETA", "GAMMA", "DELTA"}[sim_u(4)]);
      budget -= 8;
      NXT(buf_printf(&src, "_s%d.?(just: _PutEnv(_s%d.just, _io.getenv(Str|'%s', _w%d)), nothing: _w%d)", o->a, o->a, o->name, w0, w0));
      break;
    case ARGS:
      o->a = pick(true); if (o->a < 0) o->a = 1;
      budget -= 10;
      NXT(buf_printf(&src, "_s%d.?(just: _PutArgs(_s%d.just, _args, _w%d), nothing: _w%d)", o->a, o->a, w0, w0));
      break;
    case HOLD: {
      // streams inside a data structure and a closure
      int a = avail[sim_u((uint64_t)navail)];
      int h = ++nw;
      buf_printf(&src, "  (World@) { World@; } _h%d = (World@ w) { *(%s s, Unit@ u)(_s%d, Unit).s.?(just: w, nothing: w); };\n", h, slot_wr[a] ? "Maybe@<OS@>" : "Maybe@<IS@>", a);
      NXT(buf_printf(&src, "_h%d(_w%d)", h, w0));
      break;
    }
    case ERR:
      buf_printf(&src, "  Unit@ _e%d = %s;\n", w1, sim_p(1, 2) ? "Maybe@<Unit@>(nothing: Unit).just" : "Maybe@<Unit@>(just: Unit).nothing");
      NXT(buf_printf(&src, "_w%d", w0));
      break;
  }
  return o;
}
static Op* gen_ops(int depth, int* wv, bool inloop) {
  int n = depth == 0 ? 2 + (int)sim_u(14) : 1 + (int)sim_u(4);
  Op* first = NULL; Op** last = &first;
  for (int i = 0; i < n && budget > 0; ++i) { if (depth == 0) sim_step(); *last = gen_op(depth, wv, inloop); last = &(*last)->next; }
  return first;
}
static void free_ops(Op* o) { while (o) { Op* n = o->next; free_ops(o->body); free(o); o = n; } }

static void letter(char c) {
  if (strchr("0123456789", c) || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) buf_printf(&src, "%c", c);
  else if (c == '\'') buf_printf(&src, "''''");
  else buf_printf(&src, "'%c'", c);
}
static void prelude(void) {
  buf_printf(&src, "@ Unit@ = *();\nUnit@ Unit = Unit@();\n@ Bool@ = +(Unit@ true, Unit@ false);\n<@>@ Maybe@ = <@ A@> { +(A@ just, Unit@ nothing); };\n"
    "@ IntP@ = +(Unit@ 1, IntP@ 2p0, IntP@ 2p1);\n@ Int@ = +(IntP@ n, Unit@ 0, IntP@ p);\n@ Char@ = +(");
  for (const char* c = Chars; *c; ++c) { buf_printf(&src, c == Chars ? "Unit@ " : ", Unit@ "); letter(*c); }
  buf_printf(&src, ");\n"
    "@ String@ = +(*(Char@ head, String@ tail) cons, Unit@ nil);\n@ Args@ = +(*(String@ head, Args@ tail) cons, Unit@ nil);\n"
    "(String@) { String@; } Str = (String@ s) { s; };\n"
    "@ World@ = *();\n<@>@ R@ = <@ T@> { *(World@ s, T@ x); };\n@ IS@ = (World@) { R@<Maybe@<Int@>>; };\n@ OS@ = (Int@, World@) { R@<Unit@>; };\n"
    "@ Stdio@ = *(IS@ in, OS@ out, OS@ err, (String@, World@) { R@<Maybe@<IS@>>; } read, (String@, World@) { R@<Maybe@<OS@>>; } write, (String@, World@) { R@<Maybe@<String@>>; } getenv);\n"
    "@ Nat@ = +(Nat@ s, Unit@ z);\nNat@ Z = Nat@(z: Unit);\n(Nat@) { Nat@; } S = (Nat@ n) { Nat@(s: n); };\n"
    "(Nat@) { Nat@; } D = (Nat@ n) { n.?(z: Z); S(S(D(n.s))); };\n"
    "IntP@ O = IntP@(1: Unit);\n(IntP@) { IntP@; } A = (IntP@ x) { IntP@(2p0: x); };\n(IntP@) { IntP@; } B = (IntP@ x) { IntP@(2p1: x); };\n"
    "(IntP@) { Int@; } P = (IntP@ x) { Int@(p: x); };\nInt@ _Zero = Int@(0: Unit);\n");
  buf_printf(&src, "(Char@) { Int@; } Ord = (Char@ c) { c.?(");
  for (const char* c = Chars; *c; ++c) { if (c != Chars) buf_printf(&src, ", "); letter(*c); buf_printf(&src, ": "); byte_text(*c); }
  buf_printf(&src, "); };\n"
    "(IS@, OS@, Nat@, World@) { World@; } _Echo = (IS@ i, OS@ o, Nat@ n, World@ w) {\n  n.?(z: w);\n  R@<Maybe@<Int@>> r = i(w);\n  r.x.?(nothing: o(");
  byte_text('E');
  buf_printf(&src, ", r.s).s);\n  _Echo(i, o, n.s, o(r.x.just, r.s).s);\n};\n"
    "(IS@, Nat@, World@) { World@; } _Skip = (IS@ i, Nat@ n, World@ w) {\n  n.?(z: w);\n  R@<Maybe@<Int@>> r = i(w);\n  r.x.?(nothing: r.s);\n  _Skip(i, n.s, r.s);\n};\n"
    "(IS@, OS@, Nat@, World@) { World@; } _Rev = (IS@ i, OS@ o, Nat@ n, World@ w) {\n  n.?(z: w);\n  R@<Maybe@<Int@>> r = i(w);\n  r.x.?(nothing: r.s);\n  World@ v = _Rev(i, o, n.s, r.s);\n  o(r.x.just, v).s;\n};\n"
    "(IS@, IS@, OS@, Nat@, World@) { World@; } _Zip = (IS@ i, IS@ j, OS@ o, Nat@ n, World@ w) {\n  n.?(z: w);\n  R@<Maybe@<Int@>> r = i(w);\n  World@ w1 = o(r.x.?(just: r.x.just, nothing: ");
  byte_text('E');
  buf_printf(&src, "), r.s).s;\n  R@<Maybe@<Int@>> q = j(w1);\n  World@ w2 = o(q.x.?(just: q.x.just, nothing: ");
  byte_text('E');
  buf_printf(&src, "), q.s).s;\n  _Zip(i, j, o, n.s, w2);\n};\n"
    "(Nat@, World@) { World@; } _Garb = (Nat@ n, World@ w) {\n  n.?(z: w);\n  *(Nat@ a, Nat@ b) g = *(Nat@ a, Nat@ b)(S(n), S(S(n)));\n  _Garb(g.a.s.s, w);\n};\n"
    "(OS@, String@, World@) { World@; } _PutStr = (OS@ o, String@ s, World@ w) {\n  s.?(nil: w);\n  _PutStr(o, s.cons.tail, o(Ord(s.cons.head), w).s);\n};\n"
    "(OS@, Args@, World@) { World@; } _PutArgs = (OS@ o, Args@ a, World@ w) {\n  a.?(nil: w);\n  _PutArgs(o, a.cons.tail, o(P(A(B(A(O)))), _PutStr(o, a.cons.head, w)).s);\n};\n"
    "(OS@, R@<Maybe@<String@>>) { World@; } _PutEnv = (OS@ o, R@<Maybe@<String@>> r) {\n  r.x.?(nothing: o(");
  byte_text('N'); buf_printf(&src, ", r.s).s);\n  _PutStr(o, r.x.just, o("); byte_text('J'); buf_printf(&src, ", r.s).s);\n};\n");
}

// ---- trace matching ---------------------------------------------------------------
static bool datapath(const char* p) { return strncmp(p, "/d/", 3) == 0 && strcmp(p, "/d/prof"); }
static int inst_of(unsigned id) { for (int i = 0; i < ninst; ++i) if (inst[i].id == id) return i; return -1; }
static const char* desc(size_t k) {
  static char b[120];
  if (k >= ntr) return "nothing more";
  Ev* e = &tr[k];
  snprintf(b, sizeof b, "%s %s stream %d offset %zu byte %d", e->t == 'r' ? "read" : e->t == 'w' || e->t == 'f' ? "write" : "open", e->path, e->inst, e->pos, e->byte);
  return b;
}
static void skip_reads(void) { while (cur < ntr && tr[cur].t == 'r') ++cur; }
static void on_write(VFile* f, const char* d, size_t n) {
  if (!strcmp(f->path, "/d/prof")) return;
  int in = inst_of(vfs_ev_stream);
  for (size_t i = 0; i < n; ++i) {
    sim_ev("w", in, (unsigned char)d[i], 0);
    if (!check_trace) continue;
    size_t at = cur;
    skip_reads();
    if (cur >= ntr) {
      if (m_err && in == 2) { runtime_err_seen = true; continue; } // the error report
      sim_fail("unexpected-write", "byte %d written to %s although the program writes nothing more", (unsigned char)d[i], f->path);
    }
    if (tr[cur].t != 'w' || tr[cur].inst != in || tr[cur].byte != (unsigned char)d[i])
      sim_fail("write-order", "byte %d reached %s (stream %d), but the program's next effect is: %s", (unsigned char)d[i], f->path, in, desc(cur));
    (void)at;
    ++cur;
  }
}
static void on_event(const char* what, VFile* f) {
  const char* path = f ? f->path : vfs_ev_path;
  if (!strcmp(path, "/d/prof")) return;
  if (!strcmp(what, "open")) {
    if (!datapath(path)) return;
    sim_evs("open", path);
    ++open_seq_real;
    size_t k = cur;
    // In-order matching of opens; writes in between are checked in trace mode.
    if (check_trace) {
      skip_reads();
      if (cur >= ntr || tr[cur].t != 'o' || strcmp(tr[cur].path, path)) sim_fail("open-order", "%s opened, but the program's next effect is: %s", path, desc(cur));
      k = cur++;
    } else {
      while (k < ntr && !(tr[k].t == 'o' || tr[k].t == 'x')) ++k;
      if (k >= ntr || tr[k].t != 'o' || strcmp(tr[k].path, path)) sim_fail("open-order", "%s opened, but the program's next open is: %s", path, desc(k));
      cur = k + 1;
    }
    inst[tr[k].inst].id = vfs_ev_stream; inst[tr[k].inst].open = true;
  } else if (!strcmp(what, "openfail")) {
    if (!datapath(path)) return;
    sim_evs("openfail", path);
    ++open_seq_real;
    if (check_trace) skip_reads(); else while (cur < ntr && !(tr[cur].t == 'o' || tr[cur].t == 'x')) ++cur;
    if (cur < ntr && tr[cur].t == 'o' && !strcmp(tr[cur].path, path)) return;   // an attempt that another one has to make good
    if (cur >= ntr || tr[cur].t != 'x' || strcmp(tr[cur].path, path)) sim_fail("open-order", "open of %s failed, but the program's next effect is: %s", path, desc(cur));
    ++cur;
  } else if (!strcmp(what, "read")) {
    int in = inst_of(vfs_ev_stream);
    if (in < 0) return;
    sim_ev("r", in, (int64_t)vfs_ev_pos, 0);
    if (!check_trace) return;
    while (cur < ntr && tr[cur].t == 'r' && !(tr[cur].inst == in && tr[cur].pos == vfs_ev_pos)) ++cur;
    if (cur < ntr && tr[cur].t != 'r') sim_fail("late-write", "offset %zu of %s (stream %d) is read before this effect took place: %s", vfs_ev_pos, path, in, desc(cur));
    if (cur < ntr) ++cur;
    else sim_fail("unexpected-read", "%s is read although the program reads nothing more", path);
  } else if (!strcmp(what, "wfail")) {
    int in = inst_of(vfs_ev_stream);
    sim_ev("wfail", in, 0, 0);
    if (!check_trace) return;
    skip_reads();
    if (cur >= ntr && m_err && in == 2) { runtime_err_seen = true; return; }
    if (cur >= ntr || tr[cur].t != 'f' || tr[cur].inst != in) sim_fail("write-order", "write to %s, but the program's next effect is: %s", path, desc(cur));
    ++cur;
  } else if (!strcmp(what, "close")) {
    int in = inst_of(vfs_ev_stream);
    if (in < 0) return;
    sim_ev("close", in, 0, 0);
    if (inst[in].closed) sim_fail("double-close", "stream %d (%s) closed twice", in, path);
    inst[in].closed = true;
    if (cur < ntr) {
      if (in > 2) sim_probe("stream-closed-while-running");
      for (size_t k = cur; k < ntr; ++k) {
        if (tr[k].inst != in) continue;
        if (tr[k].t == 'w' || tr[k].t == 'f' ) {
          if (check_trace) sim_fail("premature-close", "stream %d (%s) closed although the program still does: %s", in, path, desc(k));
        } else if (tr[k].t == 'r' && tr[k].pos > vfs_ev_pos) sim_fail("premature-close", "stream %d (%s) closed although the program still does: %s", in, path, desc(k));
      }
    }
  }
}
static int on_open(const char* path, bool wr) {
  (void)wr;
  if (!datapath(path)) return 0;
  return open_fails(open_seq_real) ? 24 : 0;
}
static char* on_env(const char* n) {
  for (int i = 0; i < 3; ++i) if (!strcmp(envs[i][0], n)) return (char*)envs[i][1];
  if (!strcmp(n, "FBLE_PACKAGE_PATH")) return (char*)"/repo/pkgs";
  return NULL;
}

static void rnd_data(Buf* b, bool text) {
  size_t n = (size_t)(sim_p(1, 6) ? 4090 + sim_u(20) : sim_p(1, 3) ? sim_u(200) : sim_u(24));
  uint64_t s = sim_u(1u << 30);
  for (size_t i = 0; i < n; ++i) {
    s = s * 6364136223846793005ull + 1442695040888963407ull;
    unsigned r = (unsigned)(s >> 40);
    char c = text ? Chars[r % (sizeof Chars - 1)] : r % 5 == 0 ? (char)(int[]){0, 255, 10, 26, 13, 254, 1}[(r / 5) % 7] : (char)(r >> 3);
    buf_add(b, &c, 1);
  }
  buf_add(b, "", 0);
}

static char tmod[8]; static int tnargs; static char targs[8][24]; static bool tret;
static FbleValue* TMain(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  (void)p; (void)f;
  // argument list, as the C API shows it
  FbleValue* l = a[1]; tnargs = 0;
  extern char* FbleStringValueAccess(FbleValue*);
  while (FbleUnionValueTag(l) == 0) {
    FbleValue* c = FbleUnionValueArg(l);
    char* s = FbleStringValueAccess(FbleStructValueField(c, 0));
    if (tnargs < 8) snprintf(targs[tnargs], 24, "%s", s);
    tnargs++;
    FbleFree(s);
    l = FbleStructValueField(c, 1);
  }
  return FbleNewStructValue_(h, 2, a[2], FbleNewEnumValue(h, tret ? 0 : 1));
}
static FbleExecutable tmain_exe = {.num_args = 3, .num_statics = 0, .run = &TMain};
static FbleValue* TMod(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { (void)p; (void)a; return FbleNewFuncValue(h, &tmain_exe, f->profile_block_id, NULL); }

// Compiled programs: argument and option handling.
static void run_compiled(void) {
  FbleExecutable exe = {.num_args = 0, .num_statics = 0, .run = &TMod};
  FbleName blk = {.name = FbleNewString("m"), .loc = FbleNewLoc("x", 1, 1)};
  FbleModulePath* mp = FbleParseModulePath("/T%");
  FbleGeneratedModule m = {.path = mp, .executable = &exe};
  m.profile_blocks.size = 1; m.profile_blocks.xs = &blk;
  vfs_reset(); vfs_std(true, true, true); sim_getenv_hook = on_env;
  tret = sim_p(1, 2); tnargs = -1;
  const char* pool[] = {"a", "--", "--help", "-v", "--profile", "/d/prof", "-m", "x y", "-"};
  const char* av[12]; int ac = 0; av[ac++] = "/bin/prog";
  int n = (int)sim_u(6); for (int i = 0; i < n; ++i) av[ac++] = pool[sim_u(9)];
  av[ac] = NULL;
  // model
  int rc = tret ? 0 : 1, first = 1; bool dd = false, runs = true;
  for (int i = 1; i < ac; ++i) if (!strcmp(av[i], "--")) dd = true;
  if (dd) {
    const char* prof = NULL;
    while (first < ac) {
      const char* a = av[first];
      if (!strcmp(a, "--help") || !strcmp(a, "-v")) { rc = 0; runs = false; break; }
      if (!strcmp(a, "--profile")) {
        if (first + 1 >= ac || prof) { rc = 2; runs = false; break; }
        prof = av[first + 1]; first += 2; continue;
      }
      if (!strcmp(a, "--")) ++first;
      break;
    }
    if (runs && prof && strcmp(prof, "/d/prof") != 0) sim_probe("odd-profile-name");
  }
  const char* copy[12]; memcpy(copy, av, sizeof copy);
  int r = FbleStdioMain(ac, copy, &m);
  sim_ev("exit", r, tnargs, 0);
  sim_nontrivial();
  sim_sample("compiled main: %d arguments, exit %d", ac - 1, r);
  if (r != rc) sim_fail("exit-status", "exit status %d, expected %d", r, rc);
  if (runs) {
    if (tnargs != ac - first) sim_fail("arguments", "program got %d arguments, expected %d", tnargs, ac - first);
    for (int i = 0; i < tnargs && i < 8; ++i) if (strcmp(targs[i], av[first + i])) sim_fail("arguments", "argument %d is %s, expected %s", i, targs[i], av[first + i]);
  } else if (tnargs >= 0) sim_fail("exit-status", "program was run although its options were not valid");
  vfs_reset();
  FbleFreeModulePath(mp); FbleFreeName(blk);
}

static int StdioMain0(int argc, char** argv) { return FbleStdioMain(argc, (const char**)argv, NULL); }

// A loop that opens, uses and drops a file each time must not run out of
// file handles: unreachable streams are closed while the program runs.
static unsigned long_open, long_peak, long_total;
static void long_event(const char* what, VFile* f) {
  if (!f || strncmp(f->path, "/d/", 3)) return;
  if (!strcmp(what, "open")) { if (++long_open > long_peak) long_peak = long_open; ++long_total; }
  if (!strcmp(what, "close")) --long_open;
}
static int StdioMain0(int argc, char** argv);
static void run_long(void) {
  src.len = 0; vfs_reset(); vfs_std(true, true, true); sim_getenv_hook = on_env;
  sim_heap_default();
  sim_heap.gc_mode = (unsigned)sim_u(3); sim_heap.merge_mode = 0;
  prelude();
  unsigned n = 2000u << sim_u(3);
  int shape = (int)sim_u(3), use = (int)sim_u(3), garb = (int)sim_u(20);
  bool wr = sim_p(1, 3);
  buf_printf(&src, "(IS@, World@) { World@; } _UseR = (IS@ i, World@ w) { i(w).s; };\n(OS@, World@) { World@; } _UseW = (OS@ o, World@ w) { o(_Zero, w).s; };\n");
  buf_printf(&src, "(Stdio@ io, Args@ _args, World@ w0) {\n  Nat@ _u1 = D(S(Z));\n  (World@) { World@; } L = (World@ w0) {\n    R@<Maybe@<Int@>> c = io.in(w0);\n    c.x.?(nothing: c.s);\n    World@ w = c.s;\n");
  const char* op = wr ? "io.write(Str|'/d/w0', w)" : "io.read(Str|'/d/r0', w)"; const char* T = wr ? "OS@" : "IS@";
  const char* U = wr ? "_UseW" : "_UseR";
  if (shape == 0) buf_printf(&src, "    R@<Maybe@<%s>> r = %s;\n    World@ v = r.x.?(just: %s(r.x.just, r.s), nothing: r.s);\n", T, op, U);
  else if (shape == 1) buf_printf(&src, "    (R@<Maybe@<%s>>) { World@; } f = (R@<Maybe@<%s>> r) { r.x.?(just: %s(r.x.just, r.s), nothing: r.s); };\n    World@ v = f(%s);\n", T, T, use ? U : "_UseX", op);
  else buf_printf(&src, "    World@ v = { R@<Maybe@<%s>> r = %s; (World@) { World@; } h = (World@ w) { r.x.?(just: %s(r.x.just, w), nothing: w); }; h(h(r.s)); };\n", T, op, U);
  if (shape == 1 && !use) { src.len = 0; prelude(); buf_printf(&src, "(Stdio@ io, Args@ _args, World@ w0) {\n  Nat@ _u1 = D(S(Z));\n  (World@) { World@; } L = (World@ w0) {\n    R@<Maybe@<Int@>> c = io.in(w0);\n    c.x.?(nothing: c.s);\n    World@ w = c.s;\n    World@ v = %s.s;\n", op); }
  buf_printf(&src, "    L(_Garb("); nat_text(garb); buf_printf(&src, ", v));\n  };\n  World@ w1 = L(w0);");
  buf_printf(&src, "\n  R@<Bool@>(w1, Bool@(true: Unit));\n};\n");
  vfs_put("/w/Main.fble", src.data, src.len); vfs_put("/d/r0", "xyz", 3);
  { VFile* f = vfs_stdin(); free(f->data); f->data = calloc(1, n + 1); f->len = n; f->cap = n + 1; }
  const char* av[] = {"fble-stdio", "-I", "/w", "-m", "/Main%", NULL};
  long_open = long_peak = long_total = 0;
  vfs_on_event = long_event;
  if (sim_verbose()) { sim_note("--- program\n"); sim_note_text(src.data); sim_note("--- \n"); }
  int r = sim_main(StdioMain0, 5, (char**)av);
  vfs_exit_flush();
  sim_ev("exit", r, long_peak, long_total);
  sim_probe("long-open-loop"); sim_nontrivial();
  sim_sample("loop opening %u files, at most %u open at once", long_total, long_peak);
  if (r != 0) sim_fail("exit-status", "loop ended with %d: %s", r, vfs_stderr()->data);
  if (long_total != n || long_open != 0) sim_fail("handle-leak", "%u opens, %u still open at the end", long_total, long_open);
  if (long_peak > 200) sim_fail("handle-leak", "%u of %u dropped files were open at once", long_peak, n);
  vfs_reset();
}

// Library programs from /repo/pkgs/core.
static void run_core(void) {
  vfs_reset(); vfs_std(true, true, true);
  if (mode == M_READ && sim_p(1, 4)) sim_heap_random();
  Buf out = {0}, err = {0}; (void)err;
  const char* av[12]; int ac = 0;
  av[ac++] = "fble-stdio"; av[ac++] = "-I"; av[ac++] = "/repo/pkgs/core";
  sim_getenv_hook = on_env;
  if (sim_p(1, 3)) { av[ac - 2] = "-p"; av[ac - 1] = "core"; }
  int rc = 0; bool ret = true;
  av[ac++] = "-m";
  av[ac++] = "/Core/Stdio/Cat%"; av[ac++] = "--";
  int nf = (int)sim_u(4);
  static char names[4][16];
  if (nf == 0) {
    Buf d = {0}; rnd_data(&d, true); if (d.len && d.data[d.len-1] != '\n') buf_add(&d, "\n", 1);
    if (d.len > 600) { d.len = 600; d.data[599] = '\n'; }
    VFile* f = vfs_stdin(); buf_add(&out, d.data, d.len);
    free(f->data); f->data = malloc(d.len + 1); memcpy(f->data, d.data, d.len + 1); f->len = d.len; f->cap = d.len + 1;
    f->short_reads = sim_p(1, 2);
    buf_free(&d);
  }
  for (int i = 0; i < nf; ++i) {
    sprintf(names[i], "/d/t%d", i);
    av[ac++] = names[i];
    if (sim_p(1, 6)) { if (ret) { ret = false; rc = 1; } continue; }
    Buf d = {0}; rnd_data(&d, true); if (d.len > 400) d.len = 400;
    if (d.len && d.data[d.len-1] != '\n') { if (d.len == 400) d.data[399] = '\n'; else buf_add(&d, "\n", 1); }
    VFile* f = vfs_put(names[i], d.data, d.len); f->short_reads = sim_p(1, 2);
    if (ret) buf_add(&out, d.data, d.len);
    buf_free(&d);
  }
  av[ac] = NULL;
  int r = sim_main(StdioMain0, ac, (char**)av);
  vfs_exit_flush();
  sim_ev("exit", r, (int64_t)vfs_stdout()->len, 0);
  sim_nontrivial(); sim_probe("library-program");
  sim_sample("library program Cat: %d files, exit %d, %zu bytes", nf, r, vfs_stdout()->len);
  if (r != rc) sim_fail("exit-status", "fble-cat ended with %d, expected %d", r, rc);
  if (vfs_stdout()->len != out.len || (out.len && memcmp(vfs_stdout()->data, out.data, out.len))) sim_fail("content", "fble-cat output differs: %zu bytes, expected %zu", vfs_stdout()->len, out.len);
  if (vfs_open_count()) sim_fail("handle-leak", "%u files still open after the program ended", vfs_open_count());
  buf_free(&out);
  vfs_reset();
}


static void run(void) {
  sim_heap_default();
  if (mode == M_HANDLES && sim_p(1, 12)) { run_compiled(); return; }
  if (sim_p(1, 60)) { run_core(); return; }
  if (mode == M_HANDLES && sim_p(1, 120)) { run_long(); return; }
  // state
  ninst = 0; ntr = cur = 0; nslot = 3; navail = 0; nw = 0; budget = 300; oom_ops = 200000; unit_cost = 1;
  open_seq_model = open_seq_real = 0; m_err = false; runtime_err_seen = false;
  src.len = 0;
  for (int i = 0; i < NWF + 2; ++i) { buf_free(&wcontent[i]); wlimit[i] = -1; }
  for (int i = 0; i <= NRF; ++i) { buf_free(&rdata[i]); rerr[i] = -1; rtrans[i] = false; }
  vfs_reset(); vfs_std(true, true, true);
  sim_getenv_hook = on_env;
  // disk
  bool faults = sim_p(1, 2), shortio = sim_p(1, 2), unbuf = sim_p(1, 3);
  for (int i = 0; i <= NRF; ++i) {
    rnd_data(&rdata[i], false);
    if (faults && sim_p(1, 4)) { rerr[i] = (long)sim_u(rdata[i].len + 2); rtrans[i] = sim_p(1, 2); }
    VFile* f;
    if (i < NRF) {
      sprintf(rf[i].name, "/d/r%d", i);
      rf[i].exists = !sim_p(1, 6); rf[i].unreadable = faults && sim_p(1, 8);
      if (!rf[i].exists) continue;
      f = vfs_put(rf[i].name, rdata[i].data, rdata[i].len);
      f->unreadable = rf[i].unreadable;
    } else {
      f = vfs_stdin();
      free(f->data); f->data = malloc(rdata[i].len + 1); memcpy(f->data, rdata[i].data, rdata[i].len); f->len = rdata[i].len; f->cap = f->len + 1;
    }
    f->read_err_at = rerr[i]; f->read_err_transient = rtrans[i];
    f->short_reads = shortio;
  }
  for (int i = 0; i < NWF + 2; ++i) {
    wlimit[i] = faults && sim_p(1, 5) ? (long)sim_u(30) : -1;
    if (i < NWF) {
      wdeny[i] = faults && sim_p(1, 8);
      if (sim_p(1, 4) || wdeny[i] || wlimit[i] >= 0) {
        char p[24]; wname(i, p); VFile* f = vfs_put(p, "old content", 11); f->write_limit = wlimit[i]; f->unwritable = wdeny[i];
        buf_add(&wcontent[i], "old content", 11);
      }
    } else (i == NWF ? vfs_stdout() : vfs_stderr())->write_limit = wlimit[i];
  }
  open_fail_every = faults && sim_p(1, 3) ? 2 + (unsigned)sim_u(6) : 0; open_fail_salt = sim_u(1u << 30);
  // standard streams are slots and instances 0..2
  inst[0] = (Inst){.file = NRF, .id = 1, .open = true}; inst[1] = (Inst){.wr = true, .file = NWF, .id = 2, .open = true}; inst[2] = (Inst){.wr = true, .file = NWF + 1, .id = 3, .open = true}; ninst = 3;
  for (int i = 0; i < 3; ++i) { slot_inst[i] = i; slot_wr[i] = i > 0; slot_file[i] = -1; avail[navail++] = i; }
  nargs = (int)sim_u(4);
  for (int i = 0; i < nargs; ++i) strcpy(args_[i], (const char*[]){"a", "--", "two words", "", "-m", "~`'\"\\"}[sim_u(6)]);
  // program
  prelude();
  buf_printf(&src, "Nat@ _u1 = D(S(Z));\nInt@ _u2 = P(A(B(O)));\nString@ _u3 = Str|'a';\nInt@ _u4 = Ord(Char@(a: Unit));\n");
  buf_printf(&src, "(Stdio@ _io, Args@ _args, World@ _w0) {\n  Maybe@<IS@> _s0 = Maybe@<IS@>(just: _io.in);\n  Maybe@<OS@> _s1 = Maybe@<OS@>(just: _io.out);\n  Maybe@<OS@> _s2 = Maybe@<OS@>(just: _io.err);\n");
  int wv = 0;
  Op* prog = gen_ops(0, &wv, false);
  m_ret = !sim_p(1, 4);
  buf_printf(&src, "  R@<Bool@>(_w%d, %s);\n};\n", wv, m_ret ? "Bool@(true: Unit)" : "Bool@(false: Unit)");
  m_err = !m_ops(prog);
  free_ops(prog);
  int rc = m_err ? 3 : m_ret ? 0 : 1;
  bool ran = true;
  const char* av[24]; int ac = 0;
  av[ac++] = "fble-stdio";
  int bad = mode == M_HANDLES && sim_p(1, 8) ? 1 + (int)sim_u(6) : 0;
  if (bad == 1) { buf_printf(&src, "oops"); rc = 3; ran = false; }                 // syntax
  if (bad == 2) { src.len -= 4; buf_printf(&src, "  zz(_w0);\n};\n"); rc = 3; ran = false; }  // undefined variable
  bool prof = sim_p(1, 4);
  if (prof) { av[ac++] = "--profile"; av[ac++] = "/d/prof"; }
  av[ac++] = sim_p(1, 4) ? "-I/w" : "-I"; if (av[ac-1][2] == 0) av[ac++] = "/w";
  if (bad != 4) { av[ac++] = sim_p(1, 2) ? "-m" : "--module"; av[ac++] = bad == 3 ? "/Nope%" : bad == 5 ? "Main" : "/Main%"; }
  if (bad == 3) { rc = 3; ran = false; }
  if (bad == 4 || bad == 5) { rc = 2; ran = false; }
  if (bad == 6) { av[ac++] = "-p"; av[ac++] = "nosuch"; rc = 2; ran = false; }
  av[ac++] = "--";
  for (int i = 0; i < nargs; ++i) av[ac++] = args_[i];
  av[ac] = NULL;
  if (!ran) { ntr = 0; }
  vfs_put("/w/Main.fble", src.data, src.len);
  if (prof) vfs_put("/d/prof", "", 0);
  if (prof && mode == M_HANDLES && sim_p(1, 8)) { vfs_get("/d/prof")->unwritable = true; if (ran || rc == 3) { rc = bad == 4 || bad == 5 || bad == 6 ? 2 : 3; ran = false; ntr = 0; m_err = true; } }
  sim_heap_random();
  if (FbleSimChunkSize < 8192) FbleSimChunkSize = 8192;
  extern bool vfs_unbuffered_reads;
  vfs_unbuffered_reads = unbuf;
  check_trace = mode == M_WRITE || (mode == M_HANDLES && unbuf);
  if (!ran) m_err = true;  // an explanation on stderr is expected
  vfs_on_write = on_write; vfs_on_event = on_event; vfs_open_fault = on_open;
  bool crash = mode == M_WRITE && sim_p(1, 3);
  if (crash) vfs_crash_at = (long)sim_u(ntr + 12);
  if (sim_verbose()) { sim_note("--- program\n"); sim_note_text(src.data); sim_note("--- %d args, exit %d\n", nargs, rc); }
  int r = sim_main(StdioMain0, ac, (char**)av);
  sim_ev("exit", r, (int64_t)ntr, 0);
  sim_nontrivial();
  sim_count("program-effects", ntr);
  sim_state(sim_hash((uint64_t[]){ntr, (uint64_t)ninst, (uint64_t)r, sim_heap.gc_mode, sim_heap.merge_mode, faults, shortio, unbuf}, 64, 14695981039346656037ull));
  sim_sample("%zu effects on %d streams, exit %d, gc_mode=%u merge_mode=%u faults=%d shortio=%d unbuffered=%d crash=%d", ntr, ninst, r, sim_heap.gc_mode, sim_heap.merge_mode, faults, shortio, unbuf, vfs_crashed);
  if (vfs_crashed) { sim_probe("crash-mid-program"); goto done; }
  vfs_exit_flush();
  if (r != rc && (mode == M_HANDLES || (r != 0) != (rc != 0))) sim_fail("exit-status", "exit status %d, expected %d", r, rc);
  if (m_err) sim_probe(ran ? "runtime-error" : "rejected-before-run");
  if (check_trace) {
    skip_reads();
    if (cur < ntr) sim_fail("lost-effect", "the program ended without this effect having reached the system: %s", desc(cur));
    if (m_err && !runtime_err_seen && wlimit[NWF + 1] < 0) sim_fail("silent-error", "program failed without an error message");
  }
  // contents
  for (int i = 0; ran && i < NWF + 2; ++i) {
    char p[24]; wname(i, p);
    VFile* f = i < NWF ? vfs_get(p) : i == NWF ? vfs_stdout() : vfs_stderr();
    if (!f || !f->exists) { if (wcontent[i].len) sim_fail("content", "%s does not exist", p); continue; }
    size_t n = f->len;
    if (i == NWF + 1 && m_err && n > wcontent[i].len) n = wcontent[i].len; // followed by the error report
    if (n != wcontent[i].len || (n && memcmp(f->data, wcontent[i].data, n))) {
      size_t k = 0; while (k < n && k < wcontent[i].len && f->data[k] == wcontent[i].data[k]) ++k;
      sim_fail("content", "%s holds %zu bytes, expected %zu; first difference at %zu", f->path, f->len, wcontent[i].len, k);
    }
  }
  if (mode == M_HANDLES) {
    for (int i = 3; i < ninst; ++i) {
      if (ran && !inst[i].open) sim_fail("open-missing", "stream %d was never opened", i);
      if (inst[i].open && !inst[i].closed) sim_fail("handle-leak", "stream %d still open after the program ended", i);
    }
  }
done:
  vfs_unbuffered_reads = false;
  vfs_reset();
  sim_heap_default();
}
static void run08(void) { mode = M_READ; run(); }
static void run09(void) { mode = M_WRITE; run(); }
static void run10(void) { mode = M_HANDLES; run(); }

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C08", run08, 16000, 150000, 30},
  {"C09", run09, 16000, 150000, 30},
  {"C10", run10, 16000, 150000, 30},
  {0}
};
