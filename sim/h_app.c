// Simulated interactive programs (C16): random event-driven fble programs are
// run by the real fble-app main loop (pkgs/app/app.c) on a simulated display,
// event queue, timer service and clock.  The simulator decides what happens
// when and what fails; a model of the program gives the exact sequence of
// bytes, frames and timers it must produce for the events it was delivered.
#include "sim.h"
#include <SDL.h>
#include <GL/gl.h>
#include <fble/fble-alloc.h>
#include <fble/fble-function.h>
#include <fble/fble-generate.h>
#include <fble/fble-link.h>
#include <fble/fble-value.h>

const char* FbleBuildStamp = "sim";
int FbleAppMain(int argc, const char** argv, FbleGeneratedModule* module);

// ---- the program and its model ------------------------------------------------
enum { NTAG = 7 };
enum { R_NONE, R_X, R_Y, R_DX, R_DY };         // event fields an integer may come from
typedef struct { int lit, ref; } Num;
typedef struct Dr { int k; Num n[6]; int col[3]; Num t[4]; struct Dr *a, *b; } Dr;
typedef enum { OUT, TICK, DRAW, NEXT, GARB, EFFVAR } OpK;
typedef struct Op { OpK k; int byte; Num tick; Dr* d; int n; bool shared; struct Op* next; } Op;
typedef struct { Op* ops; int to; } Branch;     // to: state, or -1 true, -2 false, -3 runtime error
#define MAXST 4
static Op* m_init; static Branch m_br[MAXST][NTAG]; static int m_limit, m_limit_ret, m_nst, m_start;
static Dr* g_draw[3];
static Buf src; static int nw;

// Expected effects, in order.
typedef struct { int t; int byte; int tri; int v[6]; int col[3]; int64_t tick; bool err; } Ex;  // t: 'b' byte, 'p' primitive, 's' swap, 't' timer
static Ex* ex; static size_t nex, capex, cur;
static Ex* push(int t) {
  if (nex == capex) { capex = capex ? capex * 2 : 256; ex = realloc(ex, capex * sizeof *ex); }
  Ex* e = &ex[nex++]; memset(e, 0, sizeof *e); e->t = t; return e;
}
// Model state: the program is waiting for an event when pc says so.
typedef struct { Op* op; Branch* b; int st; int left; bool done; int ret; bool started; } Prog;
static Prog P;
static int64_t ev_f[5]; static int ev_tag;

static void m_byte(int c) { push('b')->byte = c; }
static void m_int(int64_t v) {
  if (v == 0) { m_byte('0'); return; }
  m_byte(v < 0 ? '-' : '+');
  uint64_t u = v < 0 ? (uint64_t)-v : (uint64_t)v;
  while (u > 1) { m_byte(u & 1 ? 'B' : 'A'); u >>= 1; }
  m_byte('1');
}
static int64_t num(Num n) { return n.ref ? ev_f[n.ref] + 0 : n.lit; }
static void m_draw(Dr* d, int ax, int ay, int bx, int by) {
  if (!d) return;
  switch (d->k) {
    case 0: return;
    case 1: { Ex* e = push('p'); e->tri = 1; for (int i = 0; i < 6; ++i) e->v[i] = (int)num(d->n[i]) * (i & 1 ? ay : ax) + (i & 1 ? by : bx); memcpy(e->col, d->col, sizeof e->col); return; }
    case 2: {
      Ex* e = push('p'); int x = ax * (int)num(d->n[0]) + bx, y = ay * (int)num(d->n[1]) + by, w = ax * (int)num(d->n[2]), h = ay * (int)num(d->n[3]);
      e->v[0] = w < 0 ? x + w : x; e->v[1] = h < 0 ? y + h : y; e->v[2] = w < 0 ? x : x + w; e->v[3] = h < 0 ? y : y + h; memcpy(e->col, d->col, sizeof e->col); return;
    }
    case 3: m_draw(d->a, ax * (int)num(d->t[0]), ay * (int)num(d->t[1]), ax * (int)num(d->t[2]) + bx, ay * (int)num(d->t[3]) + by); return;
    case 4: m_draw(d->a, ax, ay, bx, by); m_draw(d->b, ax, ay, bx, by); return;
  }
}
// Runs the model until it waits for an event or ends.
static void m_go(void) {
  for (;;) {
    for (; P.op; P.op = P.op->next) {
      Op* o = P.op;
      if (o->k == OUT) m_byte(o->byte);
      if (o->k == TICK) push('t')->tick = num(o->tick);
      if (o->k == DRAW) { m_draw(o->shared ? g_draw[o->n] : o->d, 1, 1, 0, 0); push('s'); }
      if (o->k == NEXT) return;                // an event read in the middle of a reaction
    }
    int to = P.b ? P.b->to : m_start;
    if (to < 0) { P.done = true; P.ret = to == -1 ? 0 : to == -2 ? 1 : 3; return; }
    P.st = to; P.b = NULL;
    if (P.left-- == 0) { P.done = true; P.ret = m_limit_ret; return; }
    return;
  }
}
static void m_event(int tag, const int64_t* f, int key) {
  // what the program writes about the event
  m_byte('a' + tag);
  if (tag == 1 || tag == 2) m_byte('A' + key);
  if (tag == 3 || tag == 4) { m_byte(key ? 'R' : 'L'); m_int(f[R_X]); m_int(f[R_Y]); }
  if (tag == 5) { m_int(f[R_X]); m_int(f[R_Y]); }
  if (tag == 6) for (int i = 1; i <= 4; ++i) m_int(f[i]);
  if (P.op && P.op->k == NEXT) { P.op = P.op->next; m_go(); return; }
  ev_tag = tag; memcpy(ev_f, f, sizeof ev_f);
  P.b = &m_br[P.st][tag]; P.op = P.b->ops; m_go();
}

// ---- program text ------------------------------------------------------------
static void int_text(int v) {
  if (v == 0) { buf_printf(&src, "_Zero"); return; }
  buf_printf(&src, v < 0 ? "Ng(" : "P("); unsigned u = (unsigned)(v < 0 ? -v : v); int n = 0;
  for (; u > 1; u >>= 1) { buf_printf(&src, u & 1 ? "B(" : "A("); ++n; }
  buf_printf(&src, "O"); while (n--) buf_printf(&src, ")");
  buf_printf(&src, ")");
}
static const char* field_text(int tag, int ref) {
  static const char* t[NTAG][5] = {{0}, {0}, {0}, {"", "e.mouse_down.x", "e.mouse_down.y"}, {"", "e.mouse_up.x", "e.mouse_up.y"}, {"", "e.resize.width", "e.resize.height"}, {"", "e.mouse_motion.x", "e.mouse_motion.y", "e.mouse_motion.dx", "e.mouse_motion.dy"}};
  return t[tag][ref];
}
static void num_text(Num n, int tag) { if (n.ref) buf_printf(&src, "%s", field_text(tag, n.ref)); else int_text(n.lit); }
static Num gen_num(int tag, int lo, int hi, bool pos) {
  Num n = {0};
  if (tag >= 3 && !pos && sim_p(1, 3)) n.ref = 1 + (int)sim_u(2);
  else n.lit = (int)sim_range(lo, hi);
  return n;
}
static Dr* gen_draw(int depth, int tag) {
  Dr* d = calloc(1, sizeof *d);
  d->k = (int)sim_weighted(5, depth < 3 ? (unsigned[]){2, 4, 6, 3, 5} : (unsigned[]){1, 3, 3, 0, 0});
  for (int i = 0; i < 3; ++i) d->col[i] = (int)sim_u(257);
  if (d->k == 1) for (int i = 0; i < 6; ++i) d->n[i] = gen_num(tag, -60, 700, false);
  if (d->k == 2) for (int i = 0; i < 4; ++i) d->n[i] = gen_num(tag, -60, 700, false);
  if (d->k == 3) { for (int i = 0; i < 4; ++i) d->t[i] = i < 2 ? gen_num(tag, -3, 3, true) : gen_num(tag, -200, 200, false); d->a = gen_draw(depth + 1, tag); }
  if (d->k == 4) { d->a = gen_draw(depth + 1, tag); d->b = gen_draw(depth + 1, tag); }
  return d;
}
static void draw_text(Dr* d, int tag) {
  switch (d->k) {
    case 0: buf_printf(&src, "Dr@(blank: Unit)"); break;
    case 1: buf_printf(&src, "Dr@(triangle: Tri@(");
      for (int i = 0; i < 3; ++i) { buf_printf(&src, "Pt@("); num_text(d->n[2 * i], tag); buf_printf(&src, ", "); num_text(d->n[2 * i + 1], tag); buf_printf(&src, "), "); }
      buf_printf(&src, "Col@("); for (int i = 0; i < 3; ++i) { if (i) buf_printf(&src, ", "); int_text(d->col[i]); } buf_printf(&src, ")))"); break;
    case 2: buf_printf(&src, "Dr@(rect: Rect@("); for (int i = 0; i < 4; ++i) { num_text(d->n[i], tag); buf_printf(&src, ", "); }
      buf_printf(&src, "Col@("); for (int i = 0; i < 3; ++i) { if (i) buf_printf(&src, ", "); int_text(d->col[i]); } buf_printf(&src, ")))"); break;
    case 3: buf_printf(&src, "Dr@(transformed: Tr@(Pt@("); num_text(d->t[0], tag); buf_printf(&src, ", "); num_text(d->t[1], tag); buf_printf(&src, "), Pt@("); num_text(d->t[2], tag); buf_printf(&src, ", "); num_text(d->t[3], tag); buf_printf(&src, "), "); draw_text(d->a, tag); buf_printf(&src, "))"); break;
    case 4: buf_printf(&src, "Dr@(over: Ov@("); draw_text(d->a, tag); buf_printf(&src, ", "); draw_text(d->b, tag); buf_printf(&src, "))"); break;
  }
}
static void free_draw(Dr* d) { if (d) { free_draw(d->a); free_draw(d->b); free(d); } }
static void free_ops(Op* o) { while (o) { Op* n = o->next; free_draw(o->d); free(o); o = n; } }
static int tick_style;
// Text of a sequence of operations, from world _w<*wv> on.
static Op* gen_ops(int n, int tag, int* wv) {
  Op* first = NULL; Op** last = &first;
  for (int i = 0; i < n; ++i) {
    Op* o = calloc(1, sizeof *o); *last = o; last = &o->next;
    o->k = (OpK)sim_weighted(6, (unsigned[]){5, tick_style ? 6 : 2, 5, 2, 1, 2});
    int w0 = *wv, w1 = ++nw; *wv = w1;
    switch (o->k) {
      case OUT: o->byte = 'z' - (int)sim_u(20); buf_printf(&src, "    World@ _w%d = _io.out(", w1); int_text(o->byte); buf_printf(&src, ", _w%d).s;\n", w0); break;
      case EFFVAR:
      case TICK:
        if (tag >= 3 && sim_p(1, 6)) o->tick.ref = 1 + (int)sim_u(2);
        else o->tick.lit = sim_p(1, 6) ? -(int)sim_u(50) : sim_p(1, 6) ? 0 : sim_p(1, 12) ? (int)sim_u(100000000) : (int)(int[]){16, 1, 17, 100, 1000, 5}[sim_u(6)];
        if (o->k == EFFVAR) {  // the effect is a value made earlier
          o->k = TICK; buf_printf(&src, "    Eff@ _e%d = Eff@(tick: ", w1); num_text(o->tick, tag); buf_printf(&src, ");\n    World@ _w%d = _effect(_e%d, _w%d).s;\n", w1, w1, w0);
        } else { buf_printf(&src, "    World@ _w%d = _effect(Eff@(tick: ", w1); num_text(o->tick, tag); buf_printf(&src, "), _w%d).s;\n", w0); }
        break;
      case DRAW:
        o->shared = sim_p(1, 4); o->n = (int)sim_u(3);
        buf_printf(&src, "    World@ _w%d = _effect(Eff@(draw: ", w1);
        if (o->shared) buf_printf(&src, "_g%d", o->n); else { o->d = gen_draw(0, tag); draw_text(o->d, tag); }
        buf_printf(&src, "), _w%d).s;\n", w0);
        break;
      case NEXT: buf_printf(&src, "    World@ _w%d = _Log(_io.out, _event(_w%d));\n", w1, w0); break;
      case GARB: buf_printf(&src, "    World@ _w%d = _Garb(D(D(D(D(S(S(Z)))))), _w%d);\n", w1, w0); break;
    }
  }
  return first;
}
static void prelude(void) {
  buf_printf(&src, "@ Unit@ = *();\nUnit@ Unit = Unit@();\n@ Bool@ = +(Unit@ true, Unit@ false);\n<@>@ Maybe@ = <@ A@> { +(A@ just, Unit@ nothing); };\n"
    "@ IntP@ = +(Unit@ 1, IntP@ 2p0, IntP@ 2p1);\n@ Int@ = +(IntP@ n, Unit@ 0, IntP@ p);\n@ Char@ = +(");
  static const char Chars[] = "\n\t !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~";
  for (const char* c = Chars; *c; ++c) {
    buf_printf(&src, c == Chars ? "Unit@ " : ", Unit@ ");
    if (strchr("0123456789", *c) || (*c >= 'a' && *c <= 'z') || (*c >= 'A' && *c <= 'Z')) buf_printf(&src, "%c", *c); else if (*c == '\'') buf_printf(&src, "''''"); else buf_printf(&src, "'%c'", *c);
  }
  buf_printf(&src, ");\n@ String@ = +(*(Char@ head, String@ tail) cons, Unit@ nil);\n@ Args@ = +(*(String@ head, Args@ tail) cons, Unit@ nil);\n"
    "@ World@ = *();\n<@>@ R@ = <@ T@> { *(World@ s, T@ x); };\n@ IS@ = (World@) { R@<Maybe@<Int@>>; };\n@ OS@ = (Int@, World@) { R@<Unit@>; };\n"
    "@ Stdio@ = *(IS@ in, OS@ out, OS@ err, (String@, World@) { R@<Maybe@<IS@>>; } read, (String@, World@) { R@<Maybe@<OS@>>; } write, (String@, World@) { R@<Maybe@<String@>>; } getenv);\n"
    "@ Nat@ = +(Nat@ s, Unit@ z);\nNat@ Z = Nat@(z: Unit);\n(Nat@) { Nat@; } S = (Nat@ n) { Nat@(s: n); };\n(Nat@) { Nat@; } D = (Nat@ n) { n.?(z: Z); S(S(D(n.s))); };\n"
    "IntP@ O = IntP@(1: Unit);\n(IntP@) { IntP@; } A = (IntP@ x) { IntP@(2p0: x); };\n(IntP@) { IntP@; } B = (IntP@ x) { IntP@(2p1: x); };\n"
    "(IntP@) { Int@; } P = (IntP@ x) { Int@(p: x); };\n(IntP@) { Int@; } Ng = (IntP@ x) { Int@(n: x); };\nInt@ _Zero = Int@(0: Unit);\n"
    "@ Key@ = +(Unit@ a, Unit@ d, Unit@ h, Unit@ j, Unit@ k, Unit@ l, Unit@ q, Unit@ s, Unit@ w, Unit@ left, Unit@ right, Unit@ up, Unit@ down, Unit@ space, Unit@ lshift, Unit@ rshift);\n"
    "@ Button@ = +(Unit@ left, Unit@ right);\n@ MB@ = *(Button@ button, Int@ x, Int@ y);\n@ MM@ = *(Int@ x, Int@ y, Int@ dx, Int@ dy);\n@ RS@ = *(Int@ width, Int@ height);\n"
    "@ Event@ = +(Unit@ tick, Key@ key_down, Key@ key_up, MB@ mouse_down, MB@ mouse_up, RS@ resize, MM@ mouse_motion);\n"
    "@ Col@ = *(Int@ r, Int@ g, Int@ b);\n@ Pt@ = *(Int@ x, Int@ y);\n@ Tri@ = *(Pt@ a, Pt@ b, Pt@ c, Col@ color);\n@ Rect@ = *(Int@ x, Int@ y, Int@ w, Int@ h, Col@ color);\n"
    "@ Dr@ = +(Unit@ blank, Tri@ triangle, Rect@ rect, Tr@ transformed, Ov@ over), @ Tr@ = *(Pt@ a, Pt@ b, Dr@ drawing), @ Ov@ = *(Dr@ below, Dr@ above);\n@ Eff@ = +(Int@ tick, Dr@ draw);\n"
    "(Nat@, World@) { World@; } _Garb = (Nat@ n, World@ w) {\n  n.?(z: w);\n  *(Nat@ a, Nat@ b) g = *(Nat@ a, Nat@ b)(S(n), S(S(n)));\n  _Garb(g.a.s.s, w);\n};\n");
  buf_printf(&src, "(OS@, IntP@, World@) { World@; } _LogP = (OS@ o, IntP@ p, World@ w) {\n  p.?(1: o("); int_text('1'); buf_printf(&src, ", w).s, 2p0: _LogP(o, p.2p0, o("); int_text('A'); buf_printf(&src, ", w).s), 2p1: _LogP(o, p.2p1, o("); int_text('B'); buf_printf(&src, ", w).s));\n};\n");
  buf_printf(&src, "(OS@, Int@, World@) { World@; } _LogI = (OS@ o, Int@ i, World@ w) {\n  i.?(n: _LogP(o, i.n, o("); int_text('-'); buf_printf(&src, ", w).s), 0: o("); int_text('0'); buf_printf(&src, ", w).s, p: _LogP(o, i.p, o("); int_text('+'); buf_printf(&src, ", w).s));\n};\n");
  buf_printf(&src, "(Key@) { Int@; } _KeyI = (Key@ k) { k.?(");
  const char* keys[16] = {"a", "d", "h", "j", "k", "l", "q", "s", "w", "left", "right", "up", "down", "space", "lshift", "rshift"};
  for (int i = 0; i < 16; ++i) { buf_printf(&src, "%s%s: ", i ? ", " : "", keys[i]); int_text('A' + i); }
  buf_printf(&src, "); };\n(Button@) { Int@; } _ButI = (Button@ b) { b.?(left: "); int_text('L'); buf_printf(&src, ", right: "); int_text('R'); buf_printf(&src, "); };\n");
  buf_printf(&src, "(OS@, MB@, World@) { World@; } _LogB = (OS@ o, MB@ b, World@ w) { _LogI(o, b.y, _LogI(o, b.x, o(_ButI(b.button), w).s)); };\n");
  buf_printf(&src, "(OS@, R@<Event@>) { World@; } _Log = (OS@ o, R@<Event@> r) {\n  Event@ e = r.x;\n  e.?(\n    tick: o("); int_text('a');
  buf_printf(&src, ", r.s).s,\n    key_down: o(_KeyI(e.key_down), o("); int_text('b');
  buf_printf(&src, ", r.s).s).s,\n    key_up: o(_KeyI(e.key_up), o("); int_text('c');
  buf_printf(&src, ", r.s).s).s,\n    mouse_down: _LogB(o, e.mouse_down, o("); int_text('d');
  buf_printf(&src, ", r.s).s),\n    mouse_up: _LogB(o, e.mouse_up, o("); int_text('e');
  buf_printf(&src, ", r.s).s),\n    resize: _LogI(o, e.resize.height, _LogI(o, e.resize.width, o("); int_text('f');
  buf_printf(&src, ", r.s).s)),\n    mouse_motion: _LogI(o, e.mouse_motion.dy, _LogI(o, e.mouse_motion.dx, _LogI(o, e.mouse_motion.y, _LogI(o, e.mouse_motion.x, o("); int_text('g');
  buf_printf(&src, ", r.s).s)))));\n};\n");
}

// ---- simulated platform ---------------------------------------------------------
static uint64_t now_ms;                  // true simulated time
static bool inited, quit_done, have_window, have_ctx;
static int win_w, win_h;
typedef struct { uint64_t at; uint32_t id; SDL_TimerCallback cb; void* param; uint32_t interval; bool live; } Tm;
#define MAXTM 4096
static Tm tms[MAXTM]; static int ntm; static uint32_t tmid;
static SDL_Event* q; static size_t qh, qt, qcap;
static struct { uint64_t at; SDL_Event e; } arr; static bool arr_set;  // next input event to arrive
static int n_arrive;                       // input events still to come
static int64_t T_ref;                      // delivery time of the last requested tick, as specified
static int64_t due[MAXTM]; static size_t ndue; // requested delivery times of ticks not delivered yet
static unsigned ticks_requested, ticks_delivered, input_delivered;
static int fail_wait_at, fail_add_at, fail_push_n, waits, adds, pushes, fail_push_at;
static bool f_init, f_window, f_ctx; static bool platform_failed; static int after_fail;
static bool arr_jump; static unsigned late_max;
static bool driver_set[2]; static const char* want_driver; static bool init_called;
static uint64_t sw_start;
static int in_timer;
static int prog_failed_add;

static const char* desc(size_t k) {
  static char b[160];
  if (k >= nex) return "nothing more before the next event";
  Ex* e = &ex[k];
  if (e->t == 'b') snprintf(b, sizeof b, "the byte '%c' on standard output", e->byte);
  else if (e->t == 't') snprintf(b, sizeof b, "a tick request of %lld ms", (long long)e->tick);
  else if (e->t == 's') snprintf(b, sizeof b, "the completion of a frame");
  else snprintf(b, sizeof b, "a %s at %d,%d %d,%d", e->tri ? "triangle" : "rectangle", e->v[0], e->v[1], e->v[2], e->v[3]);
  return b;
}
static void advance(uint64_t ms) { now_ms += ms; sim_time(ms * 1000); }

static void q_push(const SDL_Event* e) {
  if (qt == qcap) { qcap = qcap ? qcap * 2 : 256; q = realloc(q, qcap * sizeof *q); }
  q[qt++] = *e;
}
// Runs due timers, as SDL's timer thread may do at any moment.
static void run_timers(bool all) {
  if (in_timer) return;
  for (int i = 0; i < ntm; ++i) {
    Tm* t = &tms[i];
    if (!t->live || t->at > now_ms) continue;
    if (!all && !sim_p(1, 2)) continue;
    in_timer++;
    uint32_t r = t->cb(t->interval, t->param);
    in_timer--;
    sim_ev("timer", t->id, (int64_t)now_ms, r);
    if (r == 0) t->live = false; else { t->interval = r; t->at = now_ms + r; }
  }
}
static void maybe_timers(void) { if (ntm && !in_timer && sim_p(1, 6)) { run_timers(false); } }

static void make_event(SDL_Event* e) {
  memset(e, 0, sizeof *e);
  static const int keys[] = {SDL_SCANCODE_A, SDL_SCANCODE_D, SDL_SCANCODE_H, SDL_SCANCODE_J, SDL_SCANCODE_K, SDL_SCANCODE_L, SDL_SCANCODE_Q, SDL_SCANCODE_S, SDL_SCANCODE_W,
    SDL_SCANCODE_LEFT, SDL_SCANCODE_RIGHT, SDL_SCANCODE_UP, SDL_SCANCODE_DOWN, SDL_SCANCODE_SPACE, SDL_SCANCODE_LSHIFT, SDL_SCANCODE_RSHIFT};
  int k = (int)sim_weighted(6, (unsigned[]){6, 5, 3, 2, 5, 5});
  if (k == 0 || k == 1) {
    e->type = sim_p(1, 2) ? SDL_KEYUP : SDL_KEYDOWN;
    e->key.keysym.scancode = sim_p(1, 5) ? (SDL_Scancode)(int[]){SDL_SCANCODE_B, SDL_SCANCODE_UNKNOWN, SDL_SCANCODE_RETURN, SDL_SCANCODE_LCTRL, 511, SDL_SCANCODE_KP_4}[sim_u(6)] : (SDL_Scancode)keys[sim_u(16)];
    e->key.keysym.sym = (SDL_Keycode)sim_u(200); e->key.state = e->type == SDL_KEYDOWN; e->key.repeat = sim_p(1, 4); e->key.keysym.mod = (Uint16)sim_u(4);
  } else if (k == 2 || k == 4) {
    if (k == 4) {
      e->type = SDL_MOUSEMOTION; e->motion.x = (int)sim_range(0, 1500); e->motion.y = (int)sim_range(-20, 1500); e->motion.xrel = (int)sim_range(-30, 30); e->motion.yrel = (int)sim_range(-30, 30);
      if (sim_p(1, 12)) { e->motion.xrel = (int)(int[]){INT32_MAX, INT32_MIN, -1, 65536}[sim_u(4)]; e->motion.yrel = (int)(int[]){INT32_MIN, 1, INT32_MAX, 0}[sim_u(4)]; }
    } else {
      e->type = sim_p(1, 2) ? SDL_MOUSEBUTTONUP : SDL_MOUSEBUTTONDOWN;
      e->button.button = (Uint8)(sim_p(1, 5) ? (int[]){SDL_BUTTON_MIDDLE, SDL_BUTTON_X1, 0, 255}[sim_u(4)] : sim_p(1, 2) ? SDL_BUTTON_RIGHT : SDL_BUTTON_LEFT);
      e->button.x = (int)sim_range(0, 1500); e->button.y = (int)sim_range(-20, 1500); e->button.clicks = 1;
    }
  } else if (k == 3) {
    e->type = (Uint32)(int[]){SDL_TEXTINPUT, SDL_QUIT, SDL_USEREVENT + 1, SDL_MOUSEWHEEL, SDL_JOYBUTTONDOWN, 0, SDL_FINGERDOWN, SDL_AUDIODEVICEADDED, 0xFFFF}[sim_u(9)];
    if (e->type == SDL_QUIT) e->type = SDL_CLIPBOARDUPDATE;   // not an event of this interface
  } else {
    e->type = SDL_WINDOWEVENT;
    e->window.event = (Uint8)(sim_p(1, 2) ? (int[]){SDL_WINDOWEVENT_EXPOSED, SDL_WINDOWEVENT_SIZE_CHANGED, SDL_WINDOWEVENT_MOVED, SDL_WINDOWEVENT_CLOSE, SDL_WINDOWEVENT_FOCUS_LOST, 200}[sim_u(6)] : SDL_WINDOWEVENT_RESIZED);
    e->window.data1 = (int)sim_range(1, 4000); e->window.data2 = (int)sim_range(1, 4000);
  }
}
static void draw_arrival(void) {
  if (n_arrive <= 0) { arr_set = false; return; }
  --n_arrive; arr_set = true;
  uint64_t gap = sim_p(1, 3) ? 0 : sim_p(1, 4) ? sim_u(40) : sim_p(1, 30) ? (arr_jump ? sim_u(6000000000ull) : sim_u(200000)) : sim_u(12);
  arr.at = now_ms + gap; make_event(&arr.e);
}
static void arrivals(void) { while (arr_set && arr.at <= now_ms) { q_push(&arr.e); draw_arrival(); } }

static int key_of(SDL_Scancode s) {
  switch (s) {
    case SDL_SCANCODE_A: return 0; case SDL_SCANCODE_D: return 1; case SDL_SCANCODE_H: return 2; case SDL_SCANCODE_J: return 3; case SDL_SCANCODE_K: return 4;
    case SDL_SCANCODE_L: return 5; case SDL_SCANCODE_Q: return 6; case SDL_SCANCODE_S: return 7; case SDL_SCANCODE_W: return 8; case SDL_SCANCODE_LEFT: return 9;
    case SDL_SCANCODE_RIGHT: return 10; case SDL_SCANCODE_UP: return 11; case SDL_SCANCODE_DOWN: return 12; case SDL_SCANCODE_SPACE: return 13; case SDL_SCANCODE_LSHIFT: return 14; case SDL_SCANCODE_RSHIFT: return 15;
    default: return -1;
  }
}
static int vp[4], ortho_w, ortho_h; static bool proj_mode, proj_identity, proj_bad;
static int size_w, size_h;               // size of the window as of the last delivered event

static void settled(const char* when) {
  if (!P.started) sim_fail("lost-effect", "%s before the program was started", when);
  if (cur < nex) sim_fail("lost-effect", "%s, but the program's next effect has not been carried out: %s", when, desc(cur));
}
// An event is handed to the program.
static void deliver(const SDL_Event* e) {
  if (P.done) { after_fail++; return; }
  int64_t f[5] = {0}; int tag = -1, key = 0;
  switch (e->type) {
    case SDL_USEREVENT: tag = 0; break;
    case SDL_KEYDOWN: case SDL_KEYUP: key = key_of(e->key.keysym.scancode); if (key >= 0) tag = e->type == SDL_KEYDOWN ? 1 : 2; break;
    case SDL_MOUSEBUTTONDOWN: case SDL_MOUSEBUTTONUP:
      key = e->button.button == SDL_BUTTON_LEFT ? 0 : e->button.button == SDL_BUTTON_RIGHT ? 1 : -1;
      if (key >= 0) tag = e->type == SDL_MOUSEBUTTONDOWN ? 3 : 4;
      f[R_X] = e->button.x; f[R_Y] = e->button.y; break;
    case SDL_WINDOWEVENT: if (e->window.event == SDL_WINDOWEVENT_RESIZED) { tag = 5; f[R_X] = size_w = e->window.data1; f[R_Y] = size_h = e->window.data2; } break;
    case SDL_MOUSEMOTION: tag = 6; f[R_X] = e->motion.x; f[R_Y] = e->motion.y; f[R_DX] = e->motion.xrel; f[R_DY] = e->motion.yrel; break;
  }
  sim_ev("event", e->type, tag, (int64_t)now_ms);
  if (tag < 0) { sim_probe("event-not-for-the-program"); return; }
  if (tag == 0) {
    // The earliest request is served.
    size_t b = ndue;
    for (size_t i = 0; i < ndue; ++i) if (b == ndue || due[i] < due[b]) b = i;
    if (b == ndue) sim_fail("tick-duplicated", "a tick is delivered that was not requested (%u requested, %u delivered)", ticks_requested, ticks_delivered);
    if ((int64_t)now_ms < due[b]) sim_fail("tick-early", "a tick is delivered at %llu ms, requested for %lld ms", (unsigned long long)now_ms, (long long)due[b]);
    due[b] = due[--ndue]; ticks_delivered++;
    sim_probe("tick-delivered");
  } else input_delivered++;
  m_event(tag, f, key);
}
static int next_event(SDL_Event* out, bool block, int timeout) {
  ++waits;
  if (waits > 4000) sim_fail("no-progress", "the event loop spins: %d event requests", waits);
  settled("the next event is requested");
  if (P.done) sim_fail("not-ended", "an event is requested although the program has ended");
  if (platform_failed) { if (++after_fail > 50) sim_fail("not-ended", "the platform's event source has failed, but events are still requested"); return 0; }
  if (fail_wait_at && waits >= fail_wait_at) { sim_fault("event-source-failure"); platform_failed = true; return 0; }
  maybe_timers(); arrivals();
  uint64_t limit = now_ms + (uint64_t)(timeout > 0 ? timeout : 0);
  while (qh == qt) {
    // Wait for whatever comes first.
    uint64_t at = UINT64_MAX;
    for (int i = 0; i < ntm; ++i) if (tms[i].live && tms[i].at < at) at = tms[i].at;
    if (arr_set && arr.at < at) at = arr.at;
    if (!block && at > limit) { if (limit > now_ms) advance(limit - now_ms); return 0; }
    if (at == UINT64_MAX) { sim_fault("event-source-failure"); platform_failed = true; return 0; }
    if (at > now_ms) advance(at - now_ms);
    if (late_max && sim_p(1, 3)) { advance(sim_u(late_max)); sim_fault("timer-late"); }
    bool first = sim_p(1, 2);
    if (first) arrivals();
    run_timers(true);
    arrivals();
  }
  *out = q[qh++];
  out->common.timestamp = (Uint32)now_ms;
  deliver(out);
  return 1;
}
int SDL_WaitEvent(SDL_Event* e) { return next_event(e, true, 0); }
int SDL_WaitEventTimeout(SDL_Event* e, int ms) { return next_event(e, false, ms); }
int SDL_PollEvent(SDL_Event* e) { return next_event(e, false, 0); }
void SDL_PumpEvents(void) {}
void SDL_Delay(Uint32 ms) { advance(ms); run_timers(false); }
Uint32 SDL_GetTicks(void) { maybe_timers(); return (Uint32)now_ms; }
Uint64 SDL_GetTicks64(void) { maybe_timers(); return now_ms; }
SDL_TimerID SDL_AddTimer(Uint32 interval, SDL_TimerCallback cb, void* param) {
  ++adds;
  if (cur >= nex || ex[cur].t != 't') sim_fail("effect-order", "a timer is set, but the program's next effect is: %s", desc(cur));
  if (ntm == MAXTM) sim_broken("timers");
  if (fail_add_at == adds) { sim_fault("timer-failure"); ex[cur].err = true; prog_failed_add = 1; return 0; }
  int64_t want = T_ref + ex[cur].tick; if (want < (int64_t)now_ms) want = (int64_t)now_ms;
  // A timer may be set to fire early only if its callback goes on waiting; what counts is the delivery.
  if ((int64_t)(now_ms + interval) > want) sim_fail("tick-late", "a tick requested for %lld ms is set to fire %u ms from now (%llu ms)", (long long)want, interval, (unsigned long long)now_ms);
  T_ref = want; due[ndue++] = want; ticks_requested++;
  tms[ntm++] = (Tm){.at = now_ms + interval, .id = ++tmid, .cb = cb, .param = param, .interval = interval, .live = true};
  sim_ev("addtimer", interval, (int64_t)now_ms, 0);
  prog_failed_add = 0;
  ++cur;
  return (SDL_TimerID)tmid;
}
SDL_bool SDL_RemoveTimer(SDL_TimerID id) { for (int i = 0; i < ntm; ++i) if (tms[i].live && tms[i].id == (uint32_t)id) { tms[i].live = false; return SDL_TRUE; } return SDL_FALSE; }
int SDL_PushEvent(SDL_Event* e) {
  ++pushes;
  if (fail_push_at && pushes >= fail_push_at && fail_push_n > 0) { --fail_push_n; sim_fault("event-queue-full"); return -1; }
  q_push(e); return 1;
}
int SDL_Init(Uint32 flags) {
  (void)flags; init_called = true;
  if (want_driver && !(driver_set[0] || driver_set[1])) sim_fail("driver", "the display is initialised without the requested driver");
  if (f_init) { sim_fault("display-init-failure"); return -1; }
  inited = true; return 0;
}
void SDL_Quit(void) { quit_done = true; }
const char* SDL_GetError(void) { return "simulated failure"; }
int SDL_GetNumVideoDrivers(void) { return 2; }
const char* SDL_GetVideoDriver(int i) { return i ? "dummy" : "x11"; }
int SDL_setenv(const char* n, const char* v, int o) {
  (void)o;
  if (!strcmp(n, "SDL_VIDEODRIVER") || !strcmp(n, "SDL_VIDEO_DRIVER")) { if (want_driver && !strcmp(v, want_driver)) driver_set[n[9] == '_'] = true; else sim_fail("driver", "driver %s set", v); }
  return 0;
}
int SDL_SetError(const char* f, ...) { (void)f; return -1; }
void SDL_ClearError(void) {}
static int win_obj, ctx_obj, surf_obj[64];
SDL_Window* SDL_CreateWindow(const char* t, int x, int y, int w, int h, Uint32 fl) {
  (void)t; (void)x; (void)y; (void)fl;
  if (!inited) sim_fail("display", "a window is made without a display");
  if (f_window) { sim_fault("window-failure"); size_w = size_h = 0; return NULL; }
  if (win_w == 0) { win_w = w; win_h = h; }
  have_window = true; size_w = win_w; size_h = win_h;
  return (SDL_Window*)(void*)&win_obj;
}
// Without a window or context the program may refuse to start or, as on SDL's dummy
// driver, run without showing anything.
static void win_check(SDL_Window* w) { if (f_window && !w) return; if (!have_window || w != (SDL_Window*)(void*)&win_obj) sim_fail("display", "a window is used that does not exist"); }
void SDL_SetWindowResizable(SDL_Window* w, SDL_bool r) { (void)r; win_check(w); }
void SDL_SetWindowTitle(SDL_Window* w, const char* t) { (void)t; win_check(w); }
void SDL_GetWindowSize(SDL_Window* w, int* pw, int* ph) { win_check(w); if (!w) return; if (pw) *pw = size_w; if (ph) *ph = size_h; }
void SDL_GL_GetDrawableSize(SDL_Window* w, int* pw, int* ph) { SDL_GetWindowSize(w, pw, ph); }
SDL_Surface* SDL_GetWindowSurface(SDL_Window* w) { win_check(w); return NULL; }
SDL_GLContext SDL_GL_CreateContext(SDL_Window* w) { win_check(w); if (f_ctx || !w) { sim_fault("context-failure"); return NULL; } have_ctx = true; return &ctx_obj; }
int SDL_GL_MakeCurrent(SDL_Window* w, SDL_GLContext c) { (void)c; win_check(w); return 0; }
void SDL_GL_DeleteContext(SDL_GLContext c) { if (c) have_ctx = false; }
void SDL_DestroyWindow(SDL_Window* w) { win_check(w); have_window = false; }
int SDL_ShowCursor(int t) { (void)t; return 0; }
int SDL_GL_SetAttribute(SDL_GLattr a, int v) { (void)a; (void)v; return 0; }
int SDL_GL_SetSwapInterval(int i) { (void)i; return 0; }

static float col[3]; static int verts[64]; static int nvert; static int prim = -1;
static void gl_check(void) { if (!have_ctx && !f_window && !f_ctx) sim_fail("display", "drawing without a graphics context"); }
static void got_prim(bool tri, const int* v) {
  gl_check();
  if (cur >= nex || ex[cur].t != 'p') sim_fail("effect-order", "a %s is drawn, but the program's next effect is: %s", tri ? "triangle" : "rectangle", desc(cur));
  Ex* e = &ex[cur];
  int r[6]; memcpy(r, v, sizeof(int) * (tri ? 6 : 4));
  if (!tri) { if (r[0] > r[2]) { int t = r[0]; r[0] = r[2]; r[2] = t; } if (r[1] > r[3]) { int t = r[1]; r[1] = r[3]; r[3] = t; } }
  bool same = e->tri == tri;
  for (int i = 0; same && i < (tri ? 6 : 4); ++i) same = e->v[i] == r[i];
  if (!same) sim_fail("drawing", "a %s at %d,%d %d,%d is drawn, the program's drawing has %s", tri ? "triangle" : "rectangle", r[0], r[1], r[2], r[3], desc(cur));
  for (int i = 0; i < 3; ++i) { float d = col[i] - (float)(e->col[i] / 256.0); if (d < -1e-5 || d > 1e-5) sim_fail("drawing", "colour component %d is %g, expected %d/256", i, col[i], e->col[i]); }
  if (vp[2] != size_w || vp[3] != size_h || vp[0] || vp[1] || ortho_w != size_w || ortho_h != size_h || proj_bad)
    sim_fail("viewport", "drawing onto a view of %dx%d (projection %dx%d%s) in a window of %dx%d", vp[2], vp[3], ortho_w, ortho_h, proj_bad ? ", compounded" : "", size_w, size_h);
  ++cur;
}
void glColor3f(GLfloat r, GLfloat g, GLfloat b) { col[0] = r; col[1] = g; col[2] = b; }
void glColor3d(GLdouble r, GLdouble g, GLdouble b) { glColor3f((float)r, (float)g, (float)b); }
void glBegin(GLenum m) { gl_check(); prim = (int)m; nvert = 0; }
void glVertex2i(GLint x, GLint y) {
  if (prim < 0) return;
  if (nvert < 60) { verts[nvert++] = x; verts[nvert++] = y; }
  if (prim == GL_TRIANGLES && nvert == 6) { got_prim(true, verts); nvert = 0; }
  if (prim == GL_QUADS && nvert == 8) { got_prim(false, (int[]){verts[0], verts[1], verts[4], verts[5]}); nvert = 0; }
}
void glVertex2f(GLfloat x, GLfloat y) { glVertex2i((int)x, (int)y); }
void glVertex2d(GLdouble x, GLdouble y) { glVertex2i((int)x, (int)y); }
void glEnd(void) { prim = -1; }
void glRecti(GLint a, GLint b, GLint c, GLint d) { got_prim(false, (int[]){a, b, c, d}); }
void glShadeModel(GLenum m) { (void)m; gl_check(); }
void glViewport(GLint x, GLint y, GLsizei w, GLsizei h) { gl_check(); vp[0] = x; vp[1] = y; vp[2] = w; vp[3] = h; }
void glMatrixMode(GLenum m) { proj_mode = m == GL_PROJECTION; }
void glLoadIdentity(void) { if (proj_mode) { proj_identity = true; proj_bad = false; ortho_w = ortho_h = 0; } }
void glOrtho(GLdouble l, GLdouble r, GLdouble b, GLdouble t, GLdouble n, GLdouble f) {
  if (!proj_mode) { proj_bad = true; return; }
  if (!proj_identity || l != 0 || t != 0 || n != -1 || f != 1) proj_bad = true;
  proj_identity = false; ortho_w = (int)r; ortho_h = (int)b;
}
void glClear(GLbitfield m) { (void)m; gl_check(); }
void glClearColor(GLfloat r, GLfloat g, GLfloat b, GLfloat a) { (void)r; (void)g; (void)b; (void)a; }
void glFlush(void) {}
void glFinish(void) {}
void SDL_GL_SwapWindow(SDL_Window* w) {
  win_check(w);
  if (cur >= nex || ex[cur].t != 's') sim_fail("effect-order", "a frame is shown, but the program's next effect is: %s", desc(cur));
  sim_ev("swap", (int64_t)cur, 0, 0);
  ++cur;
  if (sim_p(1, 2)) advance(sim_u(20));        // vertical sync
  maybe_timers();
}

// ---- one run ------------------------------------------------------------------
static bool check_out, fps_on;
static size_t out_seen;
static void on_write(VFile* f, const char* d, size_t n) {
  if (f != vfs_stdout() || !check_out) return;
  for (size_t i = 0; i < n; ++i) {
    if (fps_on && (prog_failed_add || (cur == nex && (P.done || platform_failed)))) return;   // the report printed at the end
    if (cur >= nex || ex[cur].t != 'b' || ex[cur].byte != (unsigned char)d[i])
      sim_fail("effect-order", "byte '%c' reaches standard output, but the program's next effect is: %s", d[i], desc(cur));
    sim_ev("w", (unsigned char)d[i], 0, 0);
    ++cur; ++out_seen;
  }
}
static char* on_env(const char* n) { (void)n; return NULL; }
static int AppMain0(int argc, char** argv) { return FbleAppMain(argc, (const char**)argv, NULL); }

static void platform_reset(void) {
  now_ms = sim_p(1, 8) ? 0xFFFFFFFFull - sim_u(400) : sim_p(1, 8) ? 0x7FFFFFFFull - sim_u(400) : sim_u(500);
  inited = quit_done = have_window = have_ctx = false; win_w = win_h = 0; if (sim_p(1, 3)) { win_w = (int)sim_range(1, 2000); win_h = (int)sim_range(1, 2000); }
  ntm = 0; tmid = 0; qh = qt = 0; arr_set = false; n_arrive = 3 + (int)sim_u(40); ndue = 0;
  ticks_requested = ticks_delivered = input_delivered = 0;
  waits = adds = pushes = 0; fail_wait_at = fail_add_at = fail_push_at = fail_push_n = 0; f_init = f_window = f_ctx = false; platform_failed = false; after_fail = 0;
  arr_jump = sim_p(1, 5); late_max = sim_p(1, 3) ? 1 + (unsigned)sim_u(60) : 0;
  driver_set[0] = driver_set[1] = false; want_driver = NULL; init_called = false; in_timer = 0; prog_failed_add = 0;
  memset(vp, 0, sizeof vp); ortho_w = ortho_h = 0; proj_mode = proj_identity = proj_bad = false; nvert = 0; prim = -1;
  T_ref = (int64_t)now_ms;
}

static int tnargs; static char targs[12][24]; static int t_w, t_h; static int tret;
static FbleValue* TMain(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  (void)p; (void)f;
  extern char* FbleStringValueAccess(FbleValue*); extern int64_t FbleIntValueAccess(FbleValue*);
  FbleValue* l = a[5]; tnargs = 0;
  t_w = (int)FbleIntValueAccess(a[3]); t_h = (int)FbleIntValueAccess(a[4]);
  while (FbleUnionValueTag(l) == 0) {
    FbleValue* c = FbleUnionValueArg(l);
    char* s = FbleStringValueAccess(FbleStructValueField(c, 0));
    if (tnargs < 12) snprintf(targs[tnargs], 24, "%s", s);
    tnargs++; FbleFree(s);
    l = FbleStructValueField(c, 1);
  }
  if (tret == 3) return NULL;
  return FbleNewStructValue_(h, 2, a[6], FbleNewEnumValue(h, (size_t)tret));
}
static FbleExecutable tmain_exe = {.num_args = 7, .num_statics = 0, .run = &TMain};
static FbleValue* TMod(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { (void)p; (void)a; return FbleNewFuncValue(h, &tmain_exe, f->profile_block_id, NULL); }
static void run_compiled(void) {
  FbleExecutable exe = {.num_args = 0, .num_statics = 0, .run = &TMod};
  FbleName blk = {.name = FbleNewString("m"), .loc = FbleNewLoc("x", 1, 1)};
  FbleModulePath* mp = FbleParseModulePath("/T%");
  FbleGeneratedModule m = {.path = mp, .executable = &exe};
  m.profile_blocks.size = 1; m.profile_blocks.xs = &blk;
  vfs_reset(); vfs_std(true, true, true); sim_getenv_hook = on_env; check_out = false;
  platform_reset();
  f_init = sim_p(1, 10); f_window = sim_p(1, 10); f_ctx = sim_p(1, 10);
  tret = (int)(int[]){0, 1, 3}[sim_u(3)]; tnargs = -1;
  const char* pool[] = {"a", "--", "--help", "-v", "--profile", "/d/prof", "-m", "x y", "-", "--driver", "--fps"};
  const char* av[12]; int ac = 0; av[ac++] = "/bin/prog";
  int n = (int)sim_u(7); for (int i = 0; i < n; ++i) av[ac++] = pool[sim_u(11)];
  av[ac] = NULL;
  int rc = tret, first = 1; bool dd = false, runs = true; const char *prof = NULL, *drv = NULL;
  for (int i = 1; i < ac; ++i) if (!strcmp(av[i], "--")) dd = true;
  if (dd) while (first < ac) {
    const char* a = av[first];
    if (!strcmp(a, "--help") || !strcmp(a, "-v")) { rc = 0; runs = false; break; }
    if (!strcmp(a, "--fps")) { ++first; continue; }
    if (!strcmp(a, "--profile") || !strcmp(a, "--driver")) {
      const char** v = a[2] == 'p' ? &prof : &drv;
      if (first + 1 >= ac || *v) { rc = 2; runs = false; break; }
      *v = av[first + 1]; first += 2; continue;
    }
    if (!strcmp(a, "--")) ++first;
    break;
  }
  want_driver = runs ? drv : NULL;
  if (runs && f_init) { runs = false; rc = 3; }
  const char* copy[12]; memcpy(copy, av, sizeof copy);
  int r = FbleAppMain(ac, copy, &m);
  sim_ev("exit", r, tnargs, 0);
  sim_nontrivial(); sim_probe("compiled-main");
  sim_sample("compiled main: %d arguments, exit %d", ac - 1, r);
  if (runs && (f_window || f_ctx) && tnargs < 0) { runs = false; rc = 3; }
  if (r != rc) sim_fail("exit-status", "exit status %d, expected %d", r, rc);
  if (runs) {
    if (tnargs != ac - first) sim_fail("arguments", "program got %d arguments, expected %d", tnargs, ac - first);
    for (int i = 0; i < tnargs && i < 12; ++i) if (strcmp(targs[i], av[first + i])) sim_fail("arguments", "argument %d is %s, expected %s", i, targs[i], av[first + i]);
    if (t_w != size_w || t_h != size_h) sim_fail("arguments", "program is told the window is %dx%d, it is %dx%d", t_w, t_h, size_w, size_h);
  } else if (tnargs >= 0) sim_fail("exit-status", "program was run although %s", rc == 3 ? "the display could not be set up" : "its options were not valid");
  fflush(stderr);
  if (rc >= 2 && !(runs && rc == 3) && vfs_stderr()->len == 0) sim_fail("silent-error", "exit status %d without an error message", rc);
  vfs_reset();
  FbleFreeModulePath(mp); FbleFreeName(blk);
}

static void run(void) {
  sim_heap_default();
  if (sim_p(1, 20)) { run_compiled(); return; }
  src.len = 0; nw = 0; nex = cur = 0; out_seen = 0; memset(&P, 0, sizeof P); memset(m_br, 0, sizeof m_br);
  vfs_reset(); vfs_std(true, true, true); sim_getenv_hook = on_env;
  tick_style = (int)sim_u(2);
  platform_reset();
  // the program
  m_limit = (int)(sim_p(1, 10) ? sim_u(2) : sim_p(1, 4) ? 60 : sim_u(20)); m_limit_ret = (int)sim_u(2);
  prelude();
  buf_printf(&src, "Bool@ _lim = Bool@(%s: Unit);\n", m_limit_ret ? "false" : "true");
  for (int i = 0; i < 3; ++i) { g_draw[i] = gen_draw(1, 0); buf_printf(&src, "Dr@ _g%d = ", i); draw_text(g_draw[i], 0); buf_printf(&src, ";\n"); }
  bool curried = sim_p(1, 2);
  buf_printf(&src, "(Stdio@ _io, (World@) { R@<Event@>; } _event, (Eff@, World@) { R@<Unit@>; } _effect, Int@ _w, Int@ _h, Args@ _args");
  buf_printf(&src, curried ? ") {\n  (World@ _w0) {\n" : ", World@ _w0) {\n");
  m_nst = 1 + (int)sim_u(MAXST - 1); m_start = (int)sim_u((uint64_t)m_nst);
  int start0 = m_start;
  static const char* tags[NTAG] = {"tick", "key_down", "key_up", "mouse_down", "mouse_up", "resize", "mouse_motion"};
  int ends = (int)sim_u(3);
  for (int s = 0; s < m_nst; ++s) {
    sim_step();
    buf_printf(&src, "  %s(Nat@, World@) { R@<Bool@>; } _L%d = (Nat@ n, World@ _v%d) {\n    n.?(z: R@<Bool@>(_v%d, _lim));\n    R@<Event@> r = _event(_v%d);\n    Event@ e = r.x;\n    World@ _q%d = _Log(_io.out, r);\n    e.?(\n", s ? ", " : "", s, s, s, s, s);
    for (int t = 0; t < NTAG; ++t) {
      buf_printf(&src, "    %s%s: {\n", t ? ", " : "", tags[t]);
      int wv = ++nw; buf_printf(&src, "    World@ _w%d = _q%d;\n", wv, s);
      m_br[s][t].ops = gen_ops((int)(sim_p(1, 3) ? 0 : sim_u(4)), t, &wv);
      int to = ends && sim_p(1, ends == 1 ? 12 : 40) ? -1 - (int)sim_u(3) : (int)sim_u((uint64_t)m_nst);
      m_br[s][t].to = to;
      if (to >= 0) buf_printf(&src, "    _L%d(n.s, _w%d);\n    }\n", to, wv);
      else if (to == -3) buf_printf(&src, "    Unit@ _bad = Maybe@<Unit@>(nothing: Unit).just;\n    R@<Bool@>(_w%d, Bool@(true: _bad));\n    }\n", wv);
      else buf_printf(&src, "    R@<Bool@>(_w%d, Bool@(%s: Unit));\n    }\n", wv, to == -1 ? "true" : "false");
    }
    buf_printf(&src, "    );\n  }");
  }
  buf_printf(&src, ";\n");
  int wv = 0;
  { int a = ++nw, b = ++nw; buf_printf(&src, "    World@ _w%d = _LogI(_io.out, _w, _w0);\n    World@ _w%d = _LogI(_io.out, _h, _w%d);\n", a, b, a); wv = b; }
  m_init = gen_ops((int)sim_u(4), 0, &wv);
  buf_printf(&src, "    Nat@ _lim0 = "); { int n = m_limit; for (int i = 0; i < n; ++i) buf_printf(&src, "S("); buf_printf(&src, "Z"); for (int i = 0; i < n; ++i) buf_printf(&src, ")"); }
  buf_printf(&src, ";\n    _L%d(_lim0, _w%d);\n%s};\n", start0, wv, curried ? "  };\n" : "");
  P.left = m_limit;
  // the platform's behaviour
  bool faults = sim_p(1, 2);
  if (faults) switch (sim_u(7)) {
    case 0: f_init = true; break;
    case 1: f_window = true; break;
    case 2: f_ctx = true; break;
    case 3: fail_wait_at = 1 + (int)sim_u(12); break;
    case 4: fail_add_at = 1 + (int)sim_u(5); break;
    default: fail_push_at = 1 + (int)sim_u(4); fail_push_n = 1 + (int)sim_u(6); break;
  }
  const char* av[24]; int ac = 0; av[ac++] = "fble-app";
  bool prof = sim_p(1, 6), fps = sim_p(1, 8), ok = true; int rc = 0;
  int bad = sim_p(1, 12) ? 1 + (int)sim_u(4) : 0;
  if (bad == 1) { buf_printf(&src, "oops"); rc = 3; ok = false; }
  if (prof) { av[ac++] = "--profile"; av[ac++] = "/d/prof"; }
  if (fps) av[ac++] = "--fps";
  if (sim_p(1, 5)) { want_driver = sim_p(1, 2) ? "dummy" : "kmsdrm"; av[ac++] = "--driver"; av[ac++] = want_driver; }
  av[ac++] = "-I"; av[ac++] = "/w";
  if (bad != 3) { av[ac++] = "-m"; av[ac++] = bad == 2 ? "/Nope%" : "/Main%"; }
  if (bad == 2) { rc = 3; ok = false; }
  if (bad == 3) { rc = 2; ok = false; }
  if (bad == 4) { av[ac++] = "--driver"; rc = 2; ok = false; }
  av[ac] = NULL;
  vfs_put("/w/Main.fble", src.data, src.len);
  if (prof) { VFile* f = vfs_put("/d/prof", "", 0); if (sim_p(1, 6)) { f->unwritable = true; if (ok) { ok = false; rc = 3; } } }
  sim_heap_random();
  if (FbleSimChunkSize < 8192) FbleSimChunkSize = 8192;
  if (sim_verbose()) { sim_note("--- program\n"); sim_note_text(src.data); sim_note("---\n"); }
  bool up = ok && !f_init;
  if (up) {
    // The model runs up to its first event.
    m_int(f_window ? 0 : win_w ? win_w : 640); m_int(f_window ? 0 : win_h ? win_h : 480);
    P.started = true; P.op = m_init; m_go();
    draw_arrival();
  }
  check_out = up; fps_on = fps; vfs_on_write = on_write;
  int r = sim_main(AppMain0, ac, (char**)av);
  vfs_exit_flush();
  sim_ev("exit", r, waits, (int64_t)now_ms);
  sim_nontrivial();
  sim_count("events-delivered", input_delivered + ticks_delivered); sim_count("ticks-requested", ticks_requested);
  if (up) sim_state(sim_hash((uint64_t[]){nex, input_delivered, ticks_delivered, (uint64_t)r, sim_heap.gc_mode, (uint64_t)m_nst}, 48, 14695981039346656037ull));
  sim_sample("%u input events, %u of %u ticks, %zu effects, exit %d, %s%s", input_delivered, ticks_delivered, ticks_requested, cur, r, platform_failed ? "event source failed " : "", faults ? "faults" : "");
  if (up && (f_window || f_ctx) && r == 3 && !cur && !waits && !adds) { up = false; sim_probe("no-display"); }
  if (!up) {
    if (ok) { rc = 3; sim_probe("display-failure"); }
    if (r != rc) sim_fail("exit-status", "exit status %d, expected %d", r, rc);
    if (waits || adds) sim_fail("exit-status", "the program ran although it could not be started");
    if (rc >= 2 && vfs_stderr()->len == 0) sim_fail("silent-error", "exit status %d without an error message", rc);
  } else {
    bool failed = platform_failed || (prog_failed_add && !P.done) || (cur < nex && ex[cur].err);
    if (failed) {
      sim_probe("platform-failure");
      if (r != 3) sim_fail("exit-status", "exit status %d after the platform failed, expected 3", r);
      if (vfs_stderr()->len == 0) sim_fail("silent-error", "the platform failed without an error message");
    } else {
      if (!P.done) sim_fail("ended-early", "ended with status %d although the program still waits for events", r);
      if (cur < nex) sim_fail("lost-effect", "ended with status %d, but the program's next effect has not been carried out: %s", r, desc(cur));
      if (r != P.ret) sim_fail("exit-status", "exit status %d, expected %d", r, P.ret);
      if (P.ret == 3) { sim_probe("runtime-error"); if (vfs_stderr()->len == 0) sim_fail("silent-error", "program failed without an error message"); }
    }
  }
  for (int i = 0; i < 3; ++i) { free_draw(g_draw[i]); g_draw[i] = NULL; }
  free_ops(m_init); m_init = NULL;
  for (int s = 0; s < MAXST; ++s) for (int t = 0; t < NTAG; ++t) { free_ops(m_br[s][t].ops); m_br[s][t].ops = NULL; }
  vfs_reset(); sim_heap_default();
}
void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C16", run, 14000, 150000, 30},
  {0}
};
