// Simulated users of the core library: random histories of operations on the
// library's integers, strings, lists, maps, sets, fifos, shift registers and
// checksums. The program is run by the real fble-stdio under drawn collector
// schedules and reads its initial data through the library's streams; a
// reference model in C predicts every line it prints.
#include "sim.h"
#include <fble/fble-generate.h>

const char* FbleBuildStamp = "sim";
int FbleStdioMain(int argc, const char** argv, FbleGeneratedModule* module);
static int Main0(int argc, char** argv) { return FbleStdioMain(argc, (const char**)argv, NULL); }

typedef __int128 I;
typedef struct { unsigned char* p; int n; } S;            // bytes
typedef struct { I k; S s; I v; } Ent;                   // entry of a map or set
typedef enum { T_INT, T_STR, T_LIST, T_SLIST, T_MAP, T_SMAP, T_SET, T_ISET, T_FIFO, T_BOOL, T_BITS, T_LFSR, T_ORD, NT } T;
typedef struct { T t; I i; S s; int n; I* l; S* sl; Ent* e; unsigned char* bits; unsigned char* c; } V;
#define MAXV 400
static V var[MAXV]; static int nvar;
static Buf src;
static void* arena[40000]; static int narena;
static void* al(size_t n) { void* p = calloc(1, n ? n : 1); if (narena >= 40000) sim_broken("arena"); arena[narena++] = p; return p; }

static S s_of(const char* t) { S s; s.n = (int)strlen(t); s.p = al((size_t)s.n); memcpy(s.p, t, (size_t)s.n); return s; }
static S s_cat(S a, S b) { S r; r.n = a.n + b.n; r.p = al((size_t)r.n); memcpy(r.p, a.p, (size_t)a.n); memcpy(r.p + a.n, b.p, (size_t)b.n); return r; }
static S s_sub(S a, int from, int to) { if (from > a.n) from = a.n; if (to > a.n) to = a.n; if (to < from) to = from; S r; r.n = to - from; r.p = al((size_t)r.n); memcpy(r.p, a.p + from, (size_t)r.n); return r; }
static int s_cmp(S a, S b) { int m = a.n < b.n ? a.n : b.n; int c = memcmp(a.p, b.p, (size_t)m); return c ? c < 0 ? -1 : 1 : a.n < b.n ? -1 : a.n > b.n; }
static S s_int(I x) {
  char b[64]; int k = 63; b[k] = 0; bool neg = x < 0; unsigned __int128 u = neg ? -(unsigned __int128)x : (unsigned __int128)x;
  do { b[--k] = (char)('0' + (int)(u % 10)); u /= 10; } while (u);
  if (neg) b[--k] = '-';
  return s_of(b + k);
}
static I iabs(I x) { return x < 0 ? -x : x; }
static int bitlen(I x) { x = iabs(x); int n = 0; while (x) { ++n; x >>= 1; } return n; }
static I fdiv(I a, I b) { I q = a / b; if (a % b != 0 && ((a < 0) != (b < 0))) --q; return q; }
static I isqrt(I a) { I r = 0; for (int b = 62; b >= 0; --b) { I t = r + ((I)1 << b); if (t * t <= a) r = t; } return r; }
static I s_read(S s) { bool neg = s.n && s.p[0] == '-'; I x = 0; for (int i = neg; i < s.n; ++i) x = x * 10 + (s.p[i] - '0'); return neg ? -x : x; }

// ---- maps ---------------------------------------------------------------------
static int ecmp(T t, const Ent* a, const Ent* b) { return t == T_SMAP || t == T_SET ? s_cmp(a->s, b->s) : a->k < b->k ? -1 : a->k > b->k; }
static int m_find(V* m, Ent key, bool* hit) {
  int i = 0; *hit = false;
  for (; i < m->n; ++i) { int c = ecmp(m->t, &m->e[i], &key); if (c >= 0) { *hit = c == 0; break; } }
  return i;
}
static V m_copy(V* m, int extra) { V r = *m; r.e = al(sizeof(Ent) * (size_t)(m->n + extra)); memcpy(r.e, m->e, sizeof(Ent) * (size_t)m->n); return r; }
static void m_put(V* m, Ent e) {   // m owns room for one more
  bool hit; int i = m_find(m, e, &hit);
  if (hit) { m->e[i].v = e.v; return; }
  memmove(m->e + i + 1, m->e + i, sizeof(Ent) * (size_t)(m->n - i)); m->e[i] = e; ++m->n;
}
static void m_del(V* m, Ent e) {
  bool hit; int i = m_find(m, e, &hit);
  if (hit) { memmove(m->e + i, m->e + i + 1, sizeof(Ent) * (size_t)(m->n - i - 1)); --m->n; }
}
static V l_new(int n) { V r = {.t = T_LIST, .n = n}; r.l = al(sizeof(I) * (size_t)n); return r; }
static V sl_new(int n) { V r = {.t = T_SLIST, .n = n}; r.sl = al(sizeof(S) * (size_t)n); return r; }

// ---- what a value prints as ---------------------------------------------------------
static void addS(Buf* b, S s) { buf_add(b, s.p, (size_t)s.n); }
static void m_show(Buf* b, V* v) {
  switch (v->t) {
    case T_INT: addS(b, s_int(v->i)); break;
    case T_STR: buf_add(b, "\"", 1); addS(b, v->s); buf_add(b, "\"", 1); break;
    case T_LIST: case T_SLIST: case T_FIFO:
      buf_add(b, "[", 1);
      for (int i = 0; i < v->n; ++i) { if (i) buf_add(b, ", ", 2); if (v->t == T_SLIST) { buf_add(b, "\"", 1); addS(b, v->sl[i]); buf_add(b, "\"", 1); } else addS(b, s_int(v->l[i])); }
      buf_add(b, "]", 1); break;
    case T_MAP: case T_SMAP: case T_SET: case T_ISET:
      buf_add(b, "{ ", 2);
      for (int i = 0; i < v->n; ++i) {
        if (v->t == T_SMAP || v->t == T_SET) { buf_add(b, "\"", 1); addS(b, v->e[i].s); buf_add(b, "\"", 1); } else addS(b, s_int(v->e[i].k));
        if (v->t == T_MAP || v->t == T_SMAP) { buf_add(b, " => ", 4); addS(b, s_int(v->e[i].v)); }
        buf_add(b, "; ", 2);
      }
      buf_add(b, "}", 1); break;
    case T_BOOL: buf_printf(b, "%s", v->i ? "True" : "False"); break;
    case T_ORD: buf_printf(b, "%s", v->i < 0 ? "Lt" : v->i > 0 ? "Gt" : "Eq"); break;
    case T_BITS: case T_LFSR: for (int i = 0; i < v->n; ++i) buf_add(b, v->bits[i] ? "1" : "0", 1); break;
    default: sim_broken("show");
  }
}
static const char* tname[] = {"Int@", "String@", "List@<Int@>", "List@<String@>", "Map@<Int@, Int@>", "Map@<String@, Int@>", "Set@<String@>", "Set@<Int@>", "Fifo@<Int@>", "Bool@", "List@<Bit@>", "LFSR@", "Ordering@"};

// ---- generator ---------------------------------------------------------------------
static void e(const char* f, ...) __attribute__((format(printf, 1, 2)));
#include <stdarg.h>
static void e(const char* f, ...) { char t[4096]; va_list a; va_start(a, f); vsnprintf(t, sizeof t, f, a); va_end(a); buf_add(&src, t, strlen(t)); }
static int pickv(T t) {
  int c[MAXV], n = 0;
  for (int i = nvar - 1; i >= 0; --i) if (var[i].t == t) c[n++] = i;
  if (!n) return -1;
  if (n > 6 && !sim_p(1, 4)) n = 6;   // recent ones mostly
  return c[sim_u((uint64_t)n)];
}
static int V_(V v) { var[nvar] = v; return nvar++; }
static void lit_str(S s) {
  e("Str|'"); for (int i = 0; i < s.n; ++i) { if (s.p[i] == '\'') e("''"); else { char c = (char)s.p[i]; buf_add(&src, &c, 1); } } e("'");
}
static I rnd_int(void) {
  switch (sim_u(7)) {
    case 0: return (I)sim_u(4); case 1: return -(I)sim_u(4);
    case 2: return (I)sim_u(1000) - 500;
    case 3: return ((I)1 << sim_u(64)) + (I)sim_u(3) - 1;
    case 4: return -((I)1 << sim_u(64)) + (I)sim_u(3) - 1;
    case 5: return (I)sim_u(1u << 30) * (sim_p(1, 2) ? -1 : 1);
    default: return (I)sim_u(20);
  }
}
static S rnd_word(int max) {
  static const char* al_ = " aAbBzZ09.,'\"\\~!-_\tn";
  S s; s.n = (int)sim_u((uint64_t)max); s.p = al((size_t)s.n);
  int sp = (int)sim_u(3);
  for (int i = 0; i < s.n; ++i) s.p[i] = (unsigned char)(sp == 0 ? 'a' + (int)sim_u(3) : sp == 1 ? al_[sim_u(20)] : 32 + (int)sim_u(95));
  return s;
}
static void lit_int(I x) { if (x < 0) { e("Neg(Int|"); Buf b = {0}; V v = {.t = T_INT, .i = -x}; m_show(&b, &v); buf_add(&b, "", 1); e("%s)", b.data); buf_free(&b); } else { Buf b = {0}; V v = {.t = T_INT, .i = x}; m_show(&b, &v); buf_add(&b, "", 1); e("Int|%s", b.data); buf_free(&b); } }
// an Int operand: variable or literal; its value
static I op_int(Buf* t) {
  int k = sim_p(3, 4) ? pickv(T_INT) : -1;
  I x = k >= 0 ? var[k].i : rnd_int();
  size_t at = src.len;
  if (k >= 0) e("x%d", k); else lit_int(x);
  buf_add(t, src.data + at, src.len - at); src.len = at; buf_add(&src, "", 0);
  buf_printf(t, "%s", "");
  return x;
}
static S op_str(Buf* t) {
  int k = sim_p(3, 4) ? pickv(T_STR) : -1;
  S s = k >= 0 ? var[k].s : rnd_word(6);
  size_t at = src.len;
  if (k >= 0) e("x%d", k); else lit_str(s);
  buf_add(t, src.data + at, src.len - at); src.len = at;
  buf_printf(t, "%s", "");
  return s;
}
#define D1(t, f, ...) do { e("  %s x%d = ", tname[t], nvar); e(f, __VA_ARGS__); e(";\n"); } while (0)
static unsigned ops_done[96]; 
static bool fits(I x) { return bitlen(x) <= 110; }

static void op_one(void) {
  if (nvar >= MAXV - 2) return;
  Buf A = {0}, B = {0}, C = {0};
  V r = {0};
  unsigned k = (unsigned)sim_u(92);
  int a, b;
  #define NEED(v, ty) do { v = pickv(ty); if (v < 0) goto out; } while (0)
  switch (k) {
    // integers
    case 0: case 1: case 2: case 3: case 4: {
      I x = op_int(&A), y = op_int(&B); r.t = T_INT;
      if (k == 0) { r.i = x + y; if (!fits(r.i)) goto out; D1(T_INT, "Add(%s, %s)", A.data, B.data); }
      else if (k == 1) { r.i = x - y; if (!fits(r.i)) goto out; D1(T_INT, "Sub(%s, %s)", A.data, B.data); }
      else if (k == 2) { if (bitlen(x) + bitlen(y) > 108) goto out; r.i = x * y; D1(T_INT, "Mul(%s, %s)", A.data, B.data); }
      else { if (y == 0) goto out; I q = fdiv(x, y); r.i = k == 3 ? q : x - q * y; D1(T_INT, "/Core/Int/Div%%.Div(%s, %s).%s", A.data, B.data, k == 3 ? "q" : "r"); }
      break; }
    case 5: { I x = op_int(&A); r.t = T_INT; r.i = -x; D1(T_INT, "Neg(%s)", A.data); break; }
    case 6: { I x = op_int(&A); r.t = T_INT; r.i = iabs(x); D1(T_INT, "/Core/Int%%.Abs(%s)", A.data); break; }
    case 7: { I x = op_int(&A); r.t = T_INT; r.i = x + 1; if (!fits(r.i)) goto out; D1(T_INT, "/Core/Int%%.Incr(%s)", A.data); break; }
    case 8: { I x = op_int(&A); r.t = T_INT; r.i = x - 1; if (!fits(r.i)) goto out; D1(T_INT, "/Core/Int%%.Decr(%s)", A.data); break; }
    case 9: { int x = (int)sim_u(100); r.t = T_INT; r.i = (I)1 << x; D1(T_INT, "/Core/Int%%.Exp2(Int|%d)", x); break; }
    case 10: case 11: { I x = iabs(op_int(&A)); r.t = T_INT; I q = isqrt(x); r.i = k == 10 ? q : x - q * q; D1(T_INT, "/Core/Int/Sqrt%%.Sqrt(/Core/Int%%.Abs(%s)).%s", A.data, k == 10 ? "q" : "r"); break; }
    case 12: case 13: { I x = op_int(&A), y = op_int(&B); r.t = T_INT; r.i = (x < y) == (k == 12) ? y : x; D1(T_INT, "/Core/Int/Eq%%.%s(%s, %s)", k == 12 ? "Max" : "Min", A.data, B.data); break; }
    case 14: { I x = op_int(&A); r.t = T_INT; r.i = x; D1(T_INT, "/Core/Int/Show%%.Read(/Core/Int/Show%%.Show(%s))", A.data); break; }
    case 15: { NEED(a, T_LIST); r.t = T_INT; r.i = var[a].n; D1(T_INT, "Length(x%d)", a); break; }
    case 16: { S s = op_str(&A); r.t = T_INT; r.i = s.n; D1(T_INT, "Length(%s)", A.data); break; }
    case 17: { NEED(a, T_LIST); if (!var[a].n) goto out; int i = (int)sim_u((uint64_t)var[a].n); r.t = T_INT; r.i = var[a].l[i]; D1(T_INT, "/Core/List/Length%%.Get(x%d, Int|%d)", a, i); break; }
    case 18: { NEED(a, T_LIST); if (!var[a].n) goto out; r.t = T_INT; r.i = var[a].l[var[a].n - 1]; D1(T_INT, "/Core/List%%.Last(x%d)", a); break; }
    case 19: case 20: { bool sm = k == 20; NEED(a, sm ? T_SMAP : T_MAP); Ent ky = {0}; if (sm) ky.s = op_str(&A); else ky.k = op_int(&A);
      if (var[a].n && sim_p(1, 2)) { A.len = 0; ky = var[a].e[sim_u((uint64_t)var[a].n)]; size_t at = src.len; if (sm) { for (int i = 0; i < ky.s.n; ++i) if (ky.s.p[i] < 32 || ky.s.p[i] > 126) goto out; lit_str(ky.s); } else lit_int(ky.k); buf_add(&A, src.data + at, src.len - at); buf_printf(&A, "%s", ""); src.len = at; }
      bool hit; int i = m_find(&var[a], ky, &hit); I d = op_int(&B);
      r.t = T_INT; r.i = hit ? var[a].e[i].v : d;
      D1(T_INT, "{ Maybe@<Int@> m = %s(x%d, %s); m.?(just: m.just, nothing: %s); }", sm ? "SLookup" : "MLookup", a, A.data, B.data); break; }
    case 21: { // order sensitive fold over a list
      NEED(a, T_LIST); I acc = 1; for (int i = 0; i < var[a].n; ++i) { acc = -acc + var[a].l[i]; if (!fits(acc)) goto out; }
      r.t = T_INT; r.i = acc; D1(T_INT, "/Core/List%%.ForEach(x%d, Int|1, (Int@ x, Int@ a) { Add(Neg(a), x); })", a); break; }
    case 22: { NEED(a, T_MAP); I acc = 0; for (int i = 0; i < var[a].n; ++i) { acc += var[a].e[i].k + var[a].e[i].v; if (!fits(acc)) goto out; } r.t = T_INT; r.i = acc; D1(T_INT, "/Core/Map%%.ForEach(x%d, Int|0, (Int@ k, Int@ v, Int@ a) { Add(Add(k, v), a); })", a); break; }
    case 23: { int lo = (int)sim_u(40) - 20, hi = lo - 3 + (int)sim_u(20); I acc = 3; for (int i = lo; i < hi; ++i) acc = i - acc * 2; r.t = T_INT; r.i = acc; 
      size_t at = src.len; lit_int(lo); buf_add(&A, src.data + at, src.len - at); buf_printf(&A, "%s", ""); src.len = at; lit_int(hi); buf_add(&B, src.data + at, src.len - at); buf_printf(&B, "%s", ""); src.len = at;
      D1(T_INT, "/Core/Iter%%.For(/Core/Int/Iter%%.Range(%s, %s), Int|3, (Int@ i, Int@ a) { Sub(i, Mul(a, Int|2)); })", A.data, B.data); break; }
    case 24: { int n = (int)sim_u(12); bool up = sim_p(1, 2); I acc = 0; if (up) for (int i = 0; i < n; ++i) acc = acc * 3 + i; else for (int i = n - 1; i >= 0; --i) acc = acc * 3 + i;
      r.t = T_INT; r.i = acc; D1(T_INT, "/Core/Iter%%.For(/Core/Int/Iter%%.%s(Int|%d), Int|0, (Int@ i, Int@ a) { Add(i, Mul(a, Int|3)); })", up ? "CountUpTo" : "CountDownFrom", n); break; }
    case 25: { I x = op_int(&A); r.t = T_INT; r.i = x - fdiv(x, 10) * 10; D1(T_INT, "/Core/Int/Digits%%.LeastSignificantDigit(%s).?(0: Int|0, 1: Int|1, 2: Int|2, 3: Int|3, 4: Int|4, 5: Int|5, 6: Int|6, 7: Int|7, 8: Int|8, 9: Int|9)", A.data); break; }
    case 26: { S s = op_str(&A); if (!s.n) goto out; r.t = T_INT; r.i = s.p[0]; D1(T_INT, "/Core/Char/Ascii%%.Ord(%s.cons.head)", A.data); break; }
    case 27: { // Maybe loops
      int n = (int)sim_u(9); bool dw = sim_p(1, 2); I acc = 1; if (dw || n) { int i = n; for (;;) { acc = acc * 2 + i; if (i <= 1) break; --i; } }
      r.t = T_INT; r.i = acc;
      const char* next = "(Int@ i) { Le(i, Int|1).?(true: Nothing<Int@>, false: Just(Sub(i, Int|1))); }";
      if (dw) D1(T_INT, "/Core/Maybe%%.DoWhile(Int|%d, %s, Int|1, (Int@ i, Int@ a) { Add(Mul(a, Int|2), i); })", n, next);
      else D1(T_INT, "/Core/Maybe%%.For(%s, %s, Int|1, (Int@ i, Int@ a) { Add(Mul(a, Int|2), i); })", n ? (buf_printf(&A, "Just(Int|%d)", n), A.data) : "Nothing<Int@>", next);
      break; }
    // booleans
    case 28: case 29: case 30: case 31: case 32: { I x = op_int(&A), y = sim_p(1, 3) ? (buf_printf(&B, "%s", A.data), x) : op_int(&B); static const char* nm[] = {"Lt", "Le", "Gt", "Ge", "Eq"};
      r.t = T_BOOL; r.i = k == 28 ? x < y : k == 29 ? x <= y : k == 30 ? x > y : k == 31 ? x >= y : x == y; D1(T_BOOL, "/Core/Int/Eq%%.%s(%s, %s)", nm[k - 28], A.data, B.data); break; }
    case 33: { I x = op_int(&A); r.t = T_BOOL; r.i = x == 0; D1(T_BOOL, "/Core/Int/Eq%%.IsZero(%s)", A.data); break; }
    case 34: case 35: case 36: { S s = op_str(&A); S q; if (sim_p(1, 2) || s.n == 0) q = op_str(&B); else { int f = k == 35 ? 0 : (int)sim_u((uint64_t)s.n), t = f + (int)sim_u((uint64_t)(s.n - f + 1)); q = s_sub(s, f, t); buf_printf(&B, "Take(Int|%d, Drop(Int|%d, %s))", t - f, f, A.data); }
      r.t = T_BOOL;
      if (k == 34) r.i = s_cmp(s, q) == 0; else if (k == 35) r.i = q.n <= s.n && !memcmp(s.p, q.p, (size_t)q.n); else { r.i = 0; for (int i = 0; i + q.n <= s.n; ++i) if (!memcmp(s.p + i, q.p, (size_t)q.n)) r.i = 1; }
      D1(T_BOOL, "/Core/String/Eq%%.%s(%s, %s)", k == 34 ? "Eq" : k == 35 ? "StartsWith" : "Contains", A.data, B.data); break; }
    case 37: { NEED(a, T_LIST); I x = var[a].n && sim_p(1, 2) ? var[a].l[sim_u((uint64_t)var[a].n)] : rnd_int(); r.t = T_BOOL; r.i = 0; for (int i = 0; i < var[a].n; ++i) if (var[a].l[i] == x) r.i = 1;
      size_t at = src.len; lit_int(x); buf_add(&A, src.data + at, src.len - at); buf_printf(&A, "%s", ""); src.len = at;
      D1(T_BOOL, "/Core/List/Eq%%.Contains(/Core/Int/Eq%%.Eq, x%d, %s)", a, A.data); break; }
    case 38: case 39: { bool is = k == 39; NEED(a, is ? T_ISET : T_SET); Ent ky = {0}; if (is) ky.k = op_int(&A); else ky.s = op_str(&A); bool hit; m_find(&var[a], ky, &hit); r.t = T_BOOL; r.i = hit; D1(T_BOOL, "/Core/Set%%.Contains(%s, x%d, %s)", is ? "/Core/Int/Ord%.Ord" : "/Core/String/Ord%.Ord", a, A.data); break; }
    case 40: { T t = (T[]){T_MAP, T_SMAP, T_SET, T_ISET}[sim_u(4)]; NEED(a, t); r.t = T_BOOL; r.i = var[a].n == 0; D1(T_BOOL, "%s(x%d)", t == T_SET || t == T_ISET ? "/Core/Set%.IsEmpty" : sim_p(1, 2) ? "/Core/Map%.IsEmpty" : "/Core/Map/Eq%.IsEmpty", a); break; }
    case 41: { T t = (T[]){T_MAP, T_SMAP, T_SET, T_ISET}[sim_u(4)]; NEED(a, t); NEED(b, t); r.t = T_BOOL; r.i = var[a].n == var[b].n;
      for (int i = 0; r.i && i < var[a].n; ++i) if (ecmp(t, &var[a].e[i], &var[b].e[i]) || ((t == T_MAP || t == T_SMAP) && var[a].e[i].v != var[b].e[i].v)) r.i = 0;
      if (t == T_MAP) D1(T_BOOL, "/Core/Map/Eq%%.Eq(/Core/Int/Eq%%.Eq, /Core/Int/Eq%%.Eq, x%d, x%d)", a, b); else if (t == T_SMAP) D1(T_BOOL, "/Core/Map/Eq%%.Eq(/Core/String/Eq%%.Eq, /Core/Int/Eq%%.Eq, x%d, x%d)", a, b);
      else D1(T_BOOL, "/Core/Set/Eq%%.Eq(/Core/%s/Eq%%.Eq, x%d, x%d)", t == T_SET ? "String" : "Int", a, b); break; }
    case 42: { NEED(a, T_LIST); NEED(b, T_LIST); r.t = T_BOOL; r.i = var[a].n == var[b].n && !memcmp(var[a].l, var[b].l, sizeof(I) * (size_t)var[a].n); D1(T_BOOL, "/Core/List/Eq%%.Eq(/Core/Int/Eq%%.Eq, x%d, x%d)", a, b); break; }
    case 43: { NEED(a, T_BOOL); NEED(b, T_BOOL); int o = (int)sim_u(3); r.t = T_BOOL; r.i = o == 0 ? var[a].i && var[b].i : o == 1 ? var[a].i || var[b].i : !var[a].i; if (o == 2) D1(T_BOOL, "/Core/Bool%%.Not(x%d)", a); else D1(T_BOOL, "/Core/Bool%%.%s(x%d, x%d)", o ? "Or" : "And", a, b); break; }
    case 44: { S s = op_str(&A); if (!s.n) goto out; int c = s.p[0]; static const char* nm[] = {"IsUpper", "IsLower", "IsAlpha", "IsDigit", "IsAlNum", "IsSpace", "IsNewline"}; int o = (int)sim_u(7);
      bool up = c >= 'A' && c <= 'Z', lo = c >= 'a' && c <= 'z', di = c >= '0' && c <= '9'; r.t = T_BOOL; r.i = (bool[]){up, lo, up || lo, di, up || lo || di, c == ' ' || c == '\t' || c == '\n', c == '\n'}[o]; D1(T_BOOL, "/Core/Char/Type%%.%s(%s.cons.head)", nm[o], A.data); break; }
    // orderings
    case 45: { I x = op_int(&A), y = op_int(&B); r.t = T_ORD; r.i = x < y ? -1 : x > y; D1(T_ORD, "/Core/Int/Ord%%.Ord(%s, %s)", A.data, B.data); break; }
    case 46: { S x = op_str(&A), y = op_str(&B); r.t = T_ORD; r.i = s_cmp(x, y); D1(T_ORD, "/Core/String/Ord%%.Ord(%s, %s)", A.data, B.data); break; }
    case 47: { NEED(a, T_LIST); NEED(b, T_LIST); r.t = T_ORD; int i = 0; while (i < var[a].n && i < var[b].n && var[a].l[i] == var[b].l[i]) ++i;
      r.i = i < var[a].n && i < var[b].n ? (var[a].l[i] < var[b].l[i] ? -1 : 1) : var[a].n < var[b].n ? -1 : var[a].n > var[b].n; D1(T_ORD, "/Core/List/Ord%%.Ord(/Core/Int/Ord%%.Ord, x%d, x%d)", a, b); break; }
    case 48: { NEED(a, T_BOOL); NEED(b, T_BOOL); r.t = T_ORD; r.i = var[a].i < var[b].i ? -1 : var[a].i > var[b].i; D1(T_ORD, "/Core/Bool/Ord%%.Ord(x%d, x%d)", a, b); break; }
    // strings
    case 49: { I x = op_int(&A); r.t = T_STR; r.s = s_int(x); D1(T_STR, "/Core/Int/Show%%.Show(%s)", A.data); break; }
    case 50: { S x = op_str(&A), y = op_str(&B); if (x.n + y.n > 200) goto out; r.t = T_STR; r.s = s_cat(x, y); D1(T_STR, "Append(%s, %s)", A.data, B.data); break; }
    case 51: { S x = op_str(&A), y = op_str(&B), z = op_str(&C); if (x.n + y.n + z.n > 200) goto out; r.t = T_STR; r.s = s_cat(x, s_cat(y, z)); D1(T_STR, "/Core/String%%.Strs[%s, %s, %s]", A.data, B.data, C.data); break; }
    case 52: { NEED(a, T_SLIST); S sep = op_str(&A); S t = {0}; t.p = al(0); for (int i = 0; i < var[a].n; ++i) { if (i) t = s_cat(t, sep); t = s_cat(t, var[a].sl[i]); if (t.n > 250) goto out; } r.t = T_STR; r.s = t; D1(T_STR, "/Core/String%%.Join(x%d, %s)", a, A.data); break; }
    case 53: case 54: { S x = op_str(&A); int n = (int)sim_u(9) - 1; r.t = T_STR; r.s = n <= 0 ? (k == 53 ? s_sub(x, 0, 0) : x) : k == 53 ? s_sub(x, 0, n) : s_sub(x, n, x.n); 
      if (n < 0) D1(T_STR, "%s(Neg(Int|1), %s)", k == 53 ? "Take" : "Drop", A.data); else D1(T_STR, "%s(Int|%d, %s)", k == 53 ? "Take" : "Drop", n, A.data); break; }
    case 55: { S x = op_str(&A); r.t = T_STR; r.s = s_sub(x, 0, x.n); for (int i = 0; i < x.n; ++i) r.s.p[i] = x.p[x.n - 1 - i]; D1(T_STR, "Reverse(%s)", A.data); break; }
    case 56: { S x = op_str(&A); r.t = T_STR; r.s = s_sub(x, 0, x.n ? x.n - 1 : 0); D1(T_STR, "/Core/List%%.Init(%s)", A.data); break; }
    case 57: { S x = rnd_word(9); S y = {0}; y.p = al((size_t)x.n); S in = {0}; in.p = al((size_t)x.n * 2);
      for (int i = 0; i < x.n; ++i) { int c = x.p[i]; if (sim_p(1, 4)) c = (int)"\n\t\\"[sim_u(3)]; if (c == '\n' || c == '\t' || c == '\\') { in.p[in.n++] = '\\'; in.p[in.n++] = c == '\n' ? 'n' : c == '\t' ? 't' : '\\'; } else in.p[in.n++] = (unsigned char)c; y.p[y.n++] = (unsigned char)c; }
      r.t = T_STR; r.s = y; size_t at = src.len; lit_str(in); buf_add(&A, src.data + at, src.len - at); buf_printf(&A, "%s", ""); src.len = at; char* p = strchr(A.data, '\''); D1(T_STR, "/Core/String%%.StrE|%s", p); break; }
    case 58: { NEED(a, T_SLIST); S t = {0}; t.p = al(0); for (int i = 0; i < var[a].n; ++i) { t = s_cat(t, s_cat(var[a].sl[i], s_of("\n"))); if (t.n > 250) goto out; } r.t = T_STR; r.s = t; D1(T_STR, "/Core/String%%.Lines(x%d)", a); break; }
    case 59: { S x = op_str(&A); r.t = T_STR; r.s = x; D1(T_STR, "/Core/List%%.Map(/Core/List%%.Map(%s, /Core/Char/Ascii%%.Ord), /Core/Char/Ascii%%.Chr)", A.data); break; }
    case 60: { T t = (T[]){T_LIST, T_MAP, T_SET, T_SLIST, T_ISET, T_SMAP, T_BOOL, T_STR}[sim_u(8)]; NEED(a, t); Buf sh = {0}; m_show(&sh, &var[a]); if (sh.len > 200) { buf_free(&sh); goto out; } r.t = T_STR; r.s.n = (int)sh.len; r.s.p = al(sh.len); memcpy(r.s.p, sh.data, sh.len); buf_free(&sh); D1(T_STR, "Show%d(x%d)", t, a); break; }
    case 61: { NEED(a, T_FIFO); r.t = T_STR; r.s = var[a].n ? s_cat(s_of("Just:"), s_int(var[a].l[0])) : s_of("Nothing"); D1(T_STR, "/Core/Maybe/Show%%.Show(/Core/Int/Show%%.Show, /Core/Fifo%%.First(x%d))", a); break; }
    case 62: { NEED(a, T_SLIST); if (!var[a].n) goto out; r.t = T_STR; int i = (int)sim_u((uint64_t)var[a].n); r.s = var[a].sl[i]; D1(T_STR, "/Core/List/Length%%.Get(x%d, Int|%d)", a, i); break; }
    // lists
    case 63: { int n = (int)sim_u(6); r = l_new(n); e("  List@<Int@> x%d = List<Int@>[", nvar); for (int i = 0; i < n; ++i) { A.len = 0; r.l[i] = op_int(&A); e("%s%s", i ? ", " : "", A.data); } e("];\n"); break; }
    case 64: { NEED(a, T_LIST); I x = op_int(&A); if (var[a].n > 150) goto out; r = l_new(var[a].n + 1); r.l[0] = x; memcpy(r.l + 1, var[a].l, sizeof(I) * (size_t)var[a].n); D1(T_LIST, "Cons(%s, x%d)", A.data, a); break; }
    case 65: { NEED(a, T_LIST); NEED(b, T_LIST); if (var[a].n + var[b].n > 150) goto out; r = l_new(var[a].n + var[b].n); memcpy(r.l, var[a].l, sizeof(I) * (size_t)var[a].n); memcpy(r.l + var[a].n, var[b].l, sizeof(I) * (size_t)var[b].n);
      if (sim_p(1, 2)) D1(T_LIST, "Append(x%d, x%d)", a, b); else D1(T_LIST, "/Core/List%%.Concat[x%d, Nil<Int@>, x%d]", a, b); break; }
    case 66: { NEED(a, T_LIST); I c = op_int(&A); r = l_new(var[a].n); for (int i = 0; i < r.n; ++i) { r.l[i] = var[a].l[i] - c; if (!fits(r.l[i])) goto out; } D1(T_LIST, "/Core/List%%.Map(x%d, (Int@ x) { Sub(x, %s); })", a, A.data); break; }
    case 67: { NEED(a, T_LIST); r = l_new(var[a].n); for (int i = 0; i < r.n; ++i) r.l[i] = var[a].l[r.n - 1 - i]; D1(T_LIST, "Reverse(x%d)", a); break; }
    case 68: case 69: { NEED(a, T_LIST); int n = (int)sim_u(12); int f = k == 68 ? 0 : n < var[a].n ? n : var[a].n, t = k == 68 ? n < var[a].n ? n : var[a].n : var[a].n; r = l_new(t - f); memcpy(r.l, var[a].l + f, sizeof(I) * (size_t)(t - f)); D1(T_LIST, "%s(Int|%d, x%d)", k == 68 ? "Take" : "Drop", n, a); break; }
    case 70: { NEED(a, T_LIST); if (var[a].n > 60) goto out; r = l_new(var[a].n); memcpy(r.l, var[a].l, sizeof(I) * (size_t)r.n); bool desc = sim_p(1, 3);
      for (int i = 1; i < r.n; ++i) for (int j = i; j > 0 && (desc ? r.l[j] > r.l[j-1] : r.l[j] < r.l[j-1]); --j) { I t = r.l[j]; r.l[j] = r.l[j-1]; r.l[j-1] = t; }
      D1(T_LIST, "/Core/List/Sort%%.Sort(/Core/Int/Eq%%.%s, x%d)", desc ? "Ge" : "Le", a); break; }
    case 71: { T t = sim_p(1, 2) ? T_MAP : T_ISET; NEED(a, t); r = l_new(var[a].n); for (int i = 0; i < r.n; ++i) r.l[i] = var[a].e[i].k; 
      if (t == T_MAP) D1(T_LIST, "Sorted(/Core/Map%%.ForEach(x%d, Nil<Int@>, (Int@ k, Int@ _v, List@<Int@> l) { Cons(k, l); }))", a); else D1(T_LIST, "Sorted(/Core/Set%%.ForEach(x%d, Nil<Int@>, (Int@ k, List@<Int@> l) { Cons(k, l); }))", a); if (r.n > 60) { /* quadratic sort, still fine */ } break; }
    case 72: { NEED(a, T_FIFO); r = l_new(var[a].n); memcpy(r.l, var[a].l, sizeof(I) * (size_t)r.n); D1(T_LIST, "Drain(x%d)", a); break; }
    case 73: { S s = op_str(&A); r = sl_new(0); r.sl = al(sizeof(S) * (size_t)(s.n + 1)); int i = 0; while (i < s.n) { while (i < s.n && (s.p[i] == ' ' || s.p[i] == '\t' || s.p[i] == '\n')) ++i; int f = i; while (i < s.n && !(s.p[i] == ' ' || s.p[i] == '\t' || s.p[i] == '\n')) ++i; if (i > f) r.sl[r.n++] = s_sub(s, f, i); }
      D1(T_SLIST, "Words(%s)", A.data); break; }
    case 74: { NEED(a, T_LIST); r = sl_new(var[a].n); for (int i = 0; i < r.n; ++i) r.sl[i] = s_int(var[a].l[i]); D1(T_SLIST, "/Core/List%%.Map(x%d, /Core/Int/Show%%.Show)", a); break; }
    case 75: { NEED(a, T_SLIST); if (var[a].n > 40) goto out; r = sl_new(var[a].n); memcpy(r.sl, var[a].sl, sizeof(S) * (size_t)r.n); for (int i = 1; i < r.n; ++i) for (int j = i; j > 0 && s_cmp(r.sl[j], r.sl[j-1]) < 0; --j) { S t = r.sl[j]; r.sl[j] = r.sl[j-1]; r.sl[j-1] = t; }
      D1(T_SLIST, "/Core/List/Sort%%.Sort((String@ a, String@ b) { /Core/String/Ord%%.Ord(a, b).?(gt: False, : True); }, x%d)", a); break; }
    // maps and sets
    case 76: { T t = (T[]){T_MAP, T_SMAP, T_SET, T_ISET}[sim_u(4)]; r.t = t; r.e = al(0); D1(t, "%s", t == T_MAP ? "/Core/Map%.Empty<Int@, Int@>" : t == T_SMAP ? "/Core/Map%.Empty<String@, Int@>" : t == T_SET ? "/Core/Set%.Empty<String@>" : "/Core/Set%.Empty<Int@>"); break; }
    case 77: case 78: case 79: { T t = (T[]){T_MAP, T_SMAP, T_SET, T_ISET}[sim_u(4)]; NEED(a, t); if (var[a].n > 200) goto out; Ent ky = {0}; bool sk = t == T_SMAP || t == T_SET; if (sk) ky.s = op_str(&A); else ky.k = op_int(&A);
      if (t == T_MAP || t == T_SMAP) ky.v = op_int(&B);
      bool with = (t == T_MAP || t == T_SMAP) && sim_p(1, 3);
      r = m_copy(&var[a], 1); bool hit; int i = m_find(&r, ky, &hit);
      if (with) { I nv = hit ? r.e[i].v * 2 - ky.v : ky.v; if (!fits(nv)) goto out; ky.v = nv; }
      m_put(&r, ky);
      if (with) D1(t, "/Core/Map%%.InsertWith<%s>(/Core/%s/Ord%%.Ord)<Int@>(x%d, %s, (Maybe@<Int@> m) { m.?(just: Sub(Mul(m.just, Int|2), %s), nothing: %s); })", sk ? "String@" : "Int@", sk ? "String" : "Int", a, A.data, B.data, B.data);
      else if (t == T_MAP) D1(t, "MInsert(x%d, %s, %s)", a, A.data, B.data); else if (t == T_SMAP) D1(t, "/Core/Map%%.Insert<String@>(/Core/String/Ord%%.Ord)<Int@>(x%d, %s, %s)", a, A.data, B.data);
      else D1(t, "/Core/Set%%.Insert(/Core/%s/Ord%%.Ord, x%d, %s)", sk ? "String" : "Int", a, A.data); break; }
    case 80: case 81: { T t = (T[]){T_MAP, T_SMAP, T_SET, T_ISET}[sim_u(4)]; NEED(a, t); Ent ky = {0}; bool sk = t == T_SMAP || t == T_SET; if (sk) ky.s = op_str(&A); else ky.k = op_int(&A);
      r = m_copy(&var[a], 0); m_del(&r, ky);
      if (t == T_MAP) D1(t, "MDelete(x%d, %s)", a, A.data); else if (t == T_SMAP) D1(t, "/Core/Map%%.Delete<String@>(/Core/String/Ord%%.Ord)<Int@>(x%d, %s)", a, A.data); else D1(t, "/Core/Set%%.Delete(/Core/%s/Ord%%.Ord, x%d, %s)", sk ? "String" : "Int", a, A.data); break; }
    case 82: { NEED(a, T_MAP); NEED(b, T_MAP); if (var[a].n + var[b].n > 250) goto out; r = m_copy(&var[a], var[b].n); for (int i = 0; i < var[b].n; ++i) m_put(&r, var[b].e[i]); D1(T_MAP, "/Core/Map%%.Union(/Core/Int/Ord%%.Ord, x%d, x%d)", a, b); break; }
    case 83: case 84: { // many keys at once
      T t = sim_p(1, 2) ? T_MAP : T_ISET; NEED(a, t); NEED(b, T_LIST); if (var[a].n + var[b].n > 300) goto out;
      r = m_copy(&var[a], var[b].n);
      for (int i = 0; i < var[b].n; ++i) { Ent en = {.k = var[b].l[i], .v = t == T_MAP ? i * 0 + var[b].l[i] : 0}; m_put(&r, en); }
      if (t == T_MAP) D1(t, "/Core/List%%.ForEach(x%d, x%d, (Int@ k, Map@<Int@, Int@> m) { MInsert(m, k, k); })", b, a); else D1(t, "/Core/List%%.ForEach(x%d, x%d, (Int@ k, Set@<Int@> m) { SIInsert(m, k); })", b, a); break; }
    case 85: { T t = sim_p(1, 2) ? T_MAP : T_ISET; NEED(a, t); NEED(b, T_LIST);
      r = m_copy(&var[a], 0);
      for (int i = 0; i < var[b].n; ++i) { Ent en = {.k = var[b].l[i]}; m_del(&r, en); }
      if (t == T_MAP) D1(t, "/Core/List%%.ForEach(x%d, x%d, (Int@ k, Map@<Int@, Int@> m) { MDelete(m, k); })", b, a); else D1(t, "/Core/List%%.ForEach(x%d, x%d, (Int@ k, Set@<Int@> m) { /Core/Set%%.Delete(/Core/Int/Ord%%.Ord, m, k); })", b, a); break; }
    // fifos
    case 86: { NEED(a, T_FIFO); I x = op_int(&A); if (var[a].n > 150) goto out; r = l_new(var[a].n + 1); r.t = T_FIFO; memcpy(r.l, var[a].l, sizeof(I) * (size_t)var[a].n); r.l[r.n - 1] = x; D1(T_FIFO, "/Core/Fifo%%.Put(%s, x%d)", A.data, a); break; }
    case 87: { NEED(a, T_FIFO); int n = var[a].n ? var[a].n - 1 : 0; r = l_new(n); r.t = T_FIFO; if (n) memcpy(r.l, var[a].l + 1, sizeof(I) * (size_t)n); D1(T_FIFO, "/Core/Fifo%%.Next(x%d)", a); break; }
    case 88: { NEED(a, T_FIFO); NEED(b, T_LIST); if (var[a].n + var[b].n > 150) goto out; r = l_new(var[a].n + var[b].n); r.t = T_FIFO; memcpy(r.l, var[a].l, sizeof(I) * (size_t)var[a].n); memcpy(r.l + var[a].n, var[b].l, sizeof(I) * (size_t)var[b].n); D1(T_FIFO, "/Core/List%%.ForEach(x%d, x%d, /Core/Fifo%%.Put<Int@>)", b, a); break; }
    // bits
    case 89: { int n = 1 + (int)sim_u(6); r.t = T_BITS; r.n = n * 4; r.bits = al((size_t)r.n); e("  List@<Bit@> x%d = /Core/Digits/String%%.HexToBits|", nvar); for (int i = 0; i < n; ++i) { int h = (int)sim_u(16); e("%X", h); for (int j = 0; j < 4; ++j) r.bits[i * 4 + j] = (h >> (3 - j)) & 1; } e(";\n"); break; }
    case 90: { NEED(a, T_BITS); NEED(b, T_BITS); int w = 1 + (int)sim_u(9); unsigned char poly[12], st[12]; poly[0] = 1; e("  List@<Bit@> x%d = /Core/CRC%%.Feeds(/Core/CRC%%.CRC@(/Core/Digits/String%%.BitStr|1", nvar); for (int i = 1; i <= w; ++i) { poly[i] = (unsigned char)sim_u(2); e("%d", poly[i]); } e(", /Core/Digits/String%%.BitStr|"); for (int i = 0; i < w; ++i) { st[i] = (unsigned char)sim_u(2); e("%d", st[i]); } e("), Append(x%d, x%d)).checksum;\n", a, b);
      for (int q = 0; q < var[a].n + var[b].n; ++q) { int bit = q < var[a].n ? var[a].bits[q] : var[b].bits[q - var[a].n]; int m = st[0] ^ bit; for (int i = 0; i < w; ++i) st[i] = (unsigned char)((i + 1 < w ? st[i + 1] : 0) ^ (m ? poly[i + 1] : 0)); }
      r.t = T_BITS; r.n = w; r.bits = al((size_t)w); memcpy(r.bits, st, (size_t)w); break; }
    case 91: { // shift register: a number of shifts, its output, or an integer from it
      NEED(a, T_BITS); NEED(b, T_BITS); int w = var[a].n; unsigned char s[64]; if (w < 1 || w > 40) goto out;
      for (int i = 0; i < w; ++i) { int q = var[b].n - w + i; s[i] = q >= 0 ? var[b].bits[q] : 0; }
      int o = (int)sim_u(2); buf_printf(&A, "/Core/LFSR%%.LFSR(x%d, x%d)", a, b);
      #define SH(out) do { out = s[0]; int f = 1; for (int i = 0; i < w; ++i) f ^= var[a].bits[i] & s[i]; memmove(s, s + 1, (size_t)w - 1); s[w - 1] = (unsigned char)f; } while (0)
      if (o == 0) { int n = (int)sim_u(30); r.t = T_BITS; r.n = n; r.bits = al((size_t)n); for (int i = 0; i < n; ++i) SH(r.bits[i]); D1(T_BITS, "ShiftN(%s, Int|%d)", A.data, n); }
      else { int max = 1 + (int)sim_u(20); int nb = 0; while ((1 << nb) < max) ++nb; int x, tries = 0; do { x = 0; for (int i = 0; i < nb; ++i) { int q; SH(q); x = x * 2 + q; } if (++tries > 100) goto out; } while (x >= max);
        r.t = T_INT; r.i = x; D1(T_INT, "/Core/LFSR/Int%%.ShiftInt(%s, Int|%d).output", A.data, max); }
      break; }
    default: goto out;
  }
  ++ops_done[k];
  V_(r);
out:
  buf_free(&A); buf_free(&B); buf_free(&C);
}

static char* env(const char* n) { (void)n; return NULL; }
static const char* Prelude =
"@ Bit@ = /Core/Digits%.Bit@;\n@ Int@ = /Core/Int%.Int@;\n@ String@ = /Core/String%.String@;\n@ Bool@ = /Core/Bool%.Bool@;\n% True = /Core/Bool%.True;\n% False = /Core/Bool%.False;\n"
"@ Unit@ = /Core/Unit%.Unit@;\n@ Ordering@ = /Core/Ord%.Ordering@;\n@ LFSR@ = /Core/LFSR%.LFSR@;\n"
"<@>@ List@ = /Core/List%.List@;\n<@>% List = /Core/List%.List;\n<@>% Cons = /Core/List%.Cons;\n<@>% Nil = /Core/List%.Nil;\n<@>% Append = /Core/List%.Append;\n<@>% Reverse = /Core/List%.Reverse;\n"
"<@>@ Maybe@ = /Core/Maybe%.Maybe@;\n<@>% Just = /Core/Maybe%.Just;\n<@>% Nothing = /Core/Maybe%.Nothing;\n<@,@>@ Map@ = /Core/Map%.Map@;\n<@>@ Set@ = /Core/Set%.Set@;\n<@>@ Fifo@ = /Core/Fifo%.Fifo@;\n"
"<<@>@>@ Monad@ = /Core/Monad%.Monad@;\n<<@>@>@ Stdio@ = /Core/Stdio%.Stdio@;\n<<@>@>@ Main@ = /Core/Stdio%.Main@;\n"
"% Str = /Core/String%.Str;\n% Int = /Core/Int/Lit%.Int;\n% Add = /Core/Int%.Add;\n% Sub = /Core/Int%.Sub;\n% Mul = /Core/Int%.Mul;\n% Neg = /Core/Int%.Neg;\n% Le = /Core/Int/Eq%.Le;\n"
"<@>% Length = /Core/List/Length%.Length;\n% Take = /Core/List/Length%.Take;\n% Drop = /Core/List/Length%.Drop;\n"
"% MInsert = /Core/Map%.Insert<Int@>(/Core/Int/Ord%.Ord)<Int@>;\n% MDelete = /Core/Map%.Delete<Int@>(/Core/Int/Ord%.Ord)<Int@>;\n% MLookup = /Core/Map%.Lookup<Int@>(/Core/Int/Ord%.Ord)<Int@>;\n% SLookup = /Core/Map%.Lookup<String@>(/Core/String/Ord%.Ord)<Int@>;\n% SIInsert = /Core/Set%.Insert<Int@>(/Core/Int/Ord%.Ord);\n"
"% IShow = /Core/Int/Show%.Show;\n% SShow = /Core/String/Show%.Show;\n"
"(List@<Int@>) { List@<Int@>; } Sorted = (List@<Int@> l) { /Core/List/Sort%.Sort(Le, l); };\n"
"(Fifo@<Int@>) { List@<Int@>; } Drain = (Fifo@<Int@> f) {\n  Maybe@<Int@> m = /Core/Fifo%.First(f);\n  m.?(nothing: Nil<Int@>);\n  Cons(m.just, Drain(/Core/Fifo%.Next(f)));\n};\n"
"(String@) { List@<String@>; } Words = (String@ s) { /Core/List/Eq%.Split(s, /Core/Char/Type%.IsSpace); };\n"
"(LFSR@, Int@) { List@<Bit@>; } ShiftN = (LFSR@ l, Int@ n) {\n  Le(n, Int|0).?(true: Nil<Bit@>);\n  /Core/LFSR%.Shifted@<Bit@> s = /Core/LFSR%.Shift(l);\n  Cons(s.output, ShiftN(s.lfsr, Sub(n, Int|1)));\n};\n"
"% Show0 = IShow;\n% Show1 = SShow;\n% Show2 = /Core/List/Show%.Show<Int@>(IShow);\n% Show3 = /Core/List/Show%.Show<String@>(SShow);\n% Show4 = /Core/Map/Show%.Show<Int@>(IShow)<Int@>(IShow);\n% Show5 = /Core/Map/Show%.Show<String@>(SShow)<Int@>(IShow);\n% Show6 = /Core/Set/Show%.Show<String@>(SShow);\n% Show7 = /Core/Set/Show%.Show<Int@>(IShow);\n"
"(Fifo@<Int@>) { String@; } Show8 = (Fifo@<Int@> f) { Show2(Drain(f)); };\n% Show9 = /Core/Bool/Show%.Show;\n% Show10 = /Core/Digits/Show%.ShowBits;\n% Show12 = /Core/Ord/Show%.Show;\n";

static void run(void) {
  nvar = 0; src.len = 0; memset(ops_done, 0, sizeof ops_done);
  sim_heap_default(); vfs_reset(); vfs_std(true, true, true); vfs_root_readonly = true; sim_getenv_hook = env;
  buf_add(&src, Prelude, strlen(Prelude));
  // input: lines read and parsed with the library
  int nin = 3 + (int)sim_u(4);
  Buf in = {0}; Buf want = {0};
  V init[8]; char kind[8];
  for (int i = 0; i < nin; ++i) {
    kind[i] = (char)(i == 0 ? 'i' : i == 1 ? 's' : i == 2 ? 'l' : "isll"[sim_u(4)]);
    V v = {0};
    if (kind[i] == 'i') { v.t = T_INT; v.i = rnd_int(); addS(&in, s_int(v.i)); }
    else if (kind[i] == 's') { v.t = T_STR; v.s = rnd_word(14); if (sim_p(1, 3)) for (int j = 0; j < v.s.n; ++j) { int c = (int)sim_u(256); v.s.p[j] = (unsigned char)(c == '\n' ? 1 : c); } addS(&in, v.s); }
    else {
      int n = (int)(sim_p(1, 3) ? sim_u(120) : sim_u(20)); int how = (int)sim_u(4); v = l_new(n);
      for (int j = 0; j < n; ++j) { v.l[j] = how == 0 ? (I)j * 3 : how == 1 ? (I)(n - j) : how == 2 ? (I)sim_u((uint64_t)n * 2 + 1) - n : rnd_int(); if (sim_p(1, 8)) buf_add(&in, " ", 1); addS(&in, s_int(v.l[j])); buf_add(&in, " ", 1); }
    }
    init[i] = v;
    buf_add(&in, "\n", 1);
  }
  S rest = rnd_word(30); addS(&in, rest);   // the rest of the input
  VFile* f = vfs_stdin(); free(f->data); f->data = malloc(in.len + 1); memcpy(f->data, in.data, in.len); f->len = in.len; f->cap = in.len + 1; f->short_reads = sim_p(1, 2);
  // operations
  e("(List@<String@>) { List@<String@>; } Ops = (List@<String@> in) {\n");
  for (int i = 0; i < nin; ++i) {
    const char* line = "/Core/List/Length%.Get(in, Int|"; 
    e("  String@ i%d = /Core/List%%.Init(%s%d));\n", i, line, i);
    if (kind[i] == 'i') e("  Int@ x%d = /Core/Int/Show%%.Read(i%d);\n", i, i); else if (kind[i] == 's') e("  String@ x%d = i%d;\n", i, i); else e("  List@<Int@> x%d = /Core/List%%.Map(Words(i%d), /Core/Int/Show%%.Read);\n", i, i);
    V_(init[i]);
  }
  { V r = {.t = T_STR, .s = rest}; e("  String@ x%d = /Core/List/Length%%.Get(in, Int|%d);\n", nvar, nin); V_(r); }
  for (T t = T_MAP; t <= T_ISET; ++t) { V r = {.t = t}; r.e = al(0); e("  %s x%d = %s;\n", tname[t], nvar, t == T_MAP ? "/Core/Map%.Empty<Int@, Int@>" : t == T_SMAP ? "/Core/Map%.Empty<String@, Int@>" : t == T_SET ? "/Core/Set%.Empty<String@>" : "/Core/Set%.Empty<Int@>"); V_(r); }
  { V r = l_new(0); r.t = T_FIFO; e("  Fifo@<Int@> x%d = /Core/Fifo%%.Empty<Int@>;\n", nvar); V_(r); }
  int nops = 10 + (int)sim_u(110);
  for (int i = 0; i < nops && !sim_exhausted(); ++i) { sim_step(); op_one(); }
  int base = nin + 1 + 5;
  // print (in some order) every value made
  int order[MAXV], no = 0;
  for (int i = 0; i < nvar; ++i) if (i >= base || sim_p(1, 2)) order[no++] = i;
  for (int i = no - 1; i > 0; --i) { int j = (int)sim_u((uint64_t)i + 1); int t = order[i]; order[i] = order[j]; order[j] = t; }
  e("  List@<String@> o%d = Nil<String@>;\n", no);
  for (int i = no - 1; i >= 0; --i) if (var[order[i]].t == T_LFSR) continue; else e("  List@<String@> o%d = Cons(Show%d(x%d), o%d);\n", i, var[order[i]].t, order[i], i + 1);
  e("  List@<String@> unused = List[");
  bool first = true;
  for (int i = 0; i < nvar; ++i) { bool in_o = false; for (int j = 0; j < no; ++j) in_o |= order[j] == i; if (!in_o) { e("%sShow%d(x%d)", first ? "" : ", ", var[i].t, i); first = false; } }
  if (first) e("Str|''");
  e("];\n  Int@ _u = Length(unused);\n  o0;\n};\n");
  for (int i = 0; i < no; ++i) { m_show(&want, &var[order[i]]); buf_add(&want, "\n", 1); }
  e("Main@ Main = <<@>@ M@>(Monad@<M@> m, Stdio@<M@> stdio) {\n  %% I = /Core/Stream/IStream%%(m);\n  %% O = /Core/Stream/OStream%%(m);\n");
  e("  (List@<String@>) { M@<Bool@>; } put = (List@<String@> l) {\n    l.?(nil: m.return(True));\n    Unit@ _ <- m.do(O.PutLine(stdio.out, l.cons.head));\n    put(l.cons.tail);\n  };\n");
  e("  (List@<String@> _args) {\n");
  for (int i = 0; i < nin; ++i) e("    String@ l%d <- m.do(I.GetLine(stdio.in));\n", i);
  e("    String@ rest <- m.do(I.GetText(stdio.in));\n    put(Ops(List[");
  for (int i = 0; i < nin; ++i) e("l%d, ", i);
  e("rest]));\n  };\n};\n/Core/Stdio/IO%%.Run(Main);\n");
  vfs_put("/w/Main.fble", src.data, src.len);
  if (sim_verbose()) { sim_note("--- program\n"); sim_note_text(src.data); sim_note("--- input\n"); buf_add(&in, "", 1); sim_note_text(in.data); }
  const char* av[] = {"fble-stdio", "-I", "/repo/pkgs/core", "-I", "/w", "-m", "/Main%", NULL};
  if (sim_p(1, 2)) sim_heap_random();
  if (FbleSimChunkSize < 8192) FbleSimChunkSize = 8192;
  int r = sim_main(Main0, 7, (char**)av);
  vfs_exit_flush();
  VFile* o = vfs_stdout();
  sim_ev("exit", r, (int64_t)o->len, (int64_t)sim_hash(o->data, o->len, 1469598103934665603ull));
  sim_nontrivial();
  sim_count("library-operations", (uint64_t)(nvar - base));
  for (int i = 0; i < 92; ++i) if (ops_done[i]) { char t[24]; sprintf(t, "op-%d", i); sim_probe(t); }
  sim_state(sim_hash(ops_done, sizeof ops_done, 14695981039346656037ull));
  sim_sample("%d operations, %d values printed, gc_mode=%u merge_mode=%u", nvar - base, no, sim_heap.gc_mode, sim_heap.merge_mode);
  if (r != 0) { buf_add((Buf*)&in, "", 1); sim_fail("exit-status", "the program ended with %d: %.300s", r, vfs_stderr()->data ? vfs_stderr()->data : ""); }
  size_t n = 0; while (n < o->len && n < want.len && o->data[n] == want.data[n]) ++n;
  if (n != o->len || n != want.len) {
    int line = 0; size_t ls = 0; for (size_t i = 0; i < n; ++i) if (want.data[i] == '\n') { ++line; ls = i + 1; }
    buf_add(&want, "", 1);
    char got[120]; snprintf(got, sizeof got, "%.*s", (int)(o->len - ls > 100 ? 100 : o->len - ls), o->data + ls); if (strchr(got, '\n')) *strchr(got, '\n') = 0;
    char exp[120]; snprintf(exp, sizeof exp, "%.100s", want.data + ls); if (strchr(exp, '\n')) *strchr(exp, '\n') = 0;
    sim_fail("wrong-result", "%s x%d is %s, expected %s", line < no ? tname[var[order[line]].t] : "?", line < no ? order[line] : -1, got, exp);
  }
  if (vfs_open_count()) sim_fail("handle-leak", "%u files still open", vfs_open_count());
  buf_free(&in); buf_free(&want);
  for (int i = 0; i < narena; ++i) free(arena[i]);
  narena = 0;
  vfs_root_readonly = false;
  vfs_reset(); sim_heap_default();
}

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C20", run, 1500, 15000, 10},
  {0}
};
