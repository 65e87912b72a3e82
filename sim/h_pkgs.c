// Simulated users of the programs written in fble that the packages ship: md5,
// cat, the SAT solver, the games and benchmarks and the hardware simulator.
// Each is run by the real FbleStdioMain on random input, delivered in random
// portions from files and standard input, under drawn collector schedules. A
// reference for each program, written from its documentation, judges the
// output, the error text and the exit status.
#include "sim.h"
#include <fble/fble-generate.h>

const char* FbleBuildStamp = "sim";
int FbleStdioMain(int argc, const char** argv, FbleGeneratedModule* module);
static int Main0(int argc, char** argv) { return FbleStdioMain(argc, (const char**)argv, NULL); }
static char* env(const char* n) { (void)n; return NULL; }

static Buf in, want, werr, mainsrc;
static int want_exit;
static const char* args[24]; static int nargs;
static const char* module_path; static const char* pkgs[4];
static char names[8][24];
static bool costly;   // too much work for an adversarial collector schedule

static void setfile(VFile* f, const void* d, size_t n) { free(f->data); f->data = malloc(n + 1); memcpy(f->data, d, n); f->len = n; f->cap = n + 1; }
static void put_text(const char* p, const char* t) { vfs_put(p, t, strlen(t)); }
static int pick(const char* const* l, int n) { (void)l; return (int)sim_u((uint64_t)n); }

// ---- md5 -----------------------------------------------------------------------
static void md5(const unsigned char* d, size_t n, unsigned char out[16]) {
  static const unsigned char s[64] = {7,12,17,22,7,12,17,22,7,12,17,22,7,12,17,22,5,9,14,20,5,9,14,20,5,9,14,20,5,9,14,20,4,11,16,23,4,11,16,23,4,11,16,23,4,11,16,23,6,10,15,21,6,10,15,21,6,10,15,21,6,10,15,21};
  static const uint32_t K[64] = {
    0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
    0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
    0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
    0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
  uint32_t h[4] = {0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476};
  size_t m = (n + 8) / 64 * 64 + 64; unsigned char* p = calloc(1, m); memcpy(p, d, n); p[n] = 0x80;
  for (int i = 0; i < 8; ++i) p[m - 8 + (size_t)i] = (unsigned char)(((uint64_t)n * 8) >> (8 * i));
  for (size_t o = 0; o < m; o += 64) {
    uint32_t w[16], a = h[0], b = h[1], c = h[2], e = h[3];
    for (int i = 0; i < 16; ++i) w[i] = (uint32_t)p[o + (size_t)i * 4] | (uint32_t)p[o + (size_t)i * 4 + 1] << 8 | (uint32_t)p[o + (size_t)i * 4 + 2] << 16 | (uint32_t)p[o + (size_t)i * 4 + 3] << 24;
    for (int i = 0; i < 64; ++i) {
      uint32_t f; int g;
      if (i < 16) { f = (b & c) | (~b & e); g = i; } else if (i < 32) { f = (e & b) | (~e & c); g = (5 * i + 1) % 16; } else if (i < 48) { f = b ^ c ^ e; g = (3 * i + 5) % 16; } else { f = c ^ (b | ~e); g = 7 * i % 16; }
      uint32_t t = e; e = c; c = b; uint32_t x = a + f + K[i] + w[g]; b += x << s[i] | x >> (32 - s[i]); a = t;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += e;
  }
  free(p);
  for (int i = 0; i < 16; ++i) out[i] = (unsigned char)(h[i / 4] >> (8 * (i % 4)));
}

// random bytes: text or anything
static void bytes(Buf* b, size_t n, bool text) {
  for (size_t i = 0; i < n; ++i) { unsigned char c = text ? (unsigned char)(sim_p(1, 9) ? '\n' : 32 + sim_u(95)) : (unsigned char)sim_u(256); buf_add(b, &c, 1); }
}
static bool stdin_used;
typedef struct { int kind; Buf data; } Src;   // 0 file, 1 stdin, 2 missing, 3 unreadable
static Src srcs[4];
static int sources(int maxn, size_t maxlen) {   // files and standard input as arguments
  int n = (int)sim_u((uint64_t)maxn + 1);
  bytes(&in, sim_u(maxlen), sim_p(1, 2));
  for (int i = 0; i < n; ++i) {
    memset(&srcs[i], 0, sizeof srcs[i]);
    uint64_t k = sim_u(10);
    srcs[i].kind = k < 6 ? 0 : k < 8 ? 1 : k == 8 ? 2 : 3;
    static const char* const shape[] = {"f%d", "/w/dir/f%d.txt", "%d name with spaces", "--f%d", "a/../f%d"};
    if (srcs[i].kind == 1) strcpy(names[i], "-"); else sprintf(names[i], shape[pick(shape, 5)], i);
    if (srcs[i].kind == 0 || srcs[i].kind == 3) {
      bytes(&srcs[i].data, sim_u(maxlen), sim_p(1, 2));
      VFile* f = vfs_put(names[i], srcs[i].data.data, srcs[i].data.len); f->short_reads = sim_p(1, 2); f->unreadable = srcs[i].kind == 3;
    }
    args[nargs++] = names[i];
  }
  if (n == 0) { srcs[0].kind = 1; memset(&srcs[0].data, 0, sizeof srcs[0].data); strcpy(names[0], "-"); n = 1; }
  for (int i = 0; i < n; ++i) if (srcs[i].kind == 1) { if (!stdin_used) buf_add(&srcs[i].data, in.data, in.len); stdin_used = true; }
  return n;
}
static void freesrcs(int n) { for (int i = 0; i < n; ++i) buf_free(&srcs[i].data); }

static void k_md5(void) {
  module_path = "/Md5/Main%"; pkgs[0] = "/repo/pkgs/md5";
  put_text("/w/Md5/Usage.fble", "/Core/String%.Str|'usage of md5';\n");
  static const size_t lens[] = {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120, 121, 128};
  int n = sources(3, 20); 
  // lengths around the block boundaries
  for (int i = 0; i < n; ++i) if (srcs[i].kind == 0 && sim_p(1, 2)) {
    srcs[i].data.len = 0; bytes(&srcs[i].data, lens[sim_u(13)], sim_p(1, 2));
    VFile* f = vfs_get(names[i]); setfile(f, srcs[i].data.data ? srcs[i].data.data : "", srcs[i].data.len);
  }
  if (nargs && sim_p(1, 12)) {   // --help anywhere
    int at = (int)sim_u((uint64_t)nargs + 1); for (int i = nargs; i > at; --i) args[i] = args[i - 1]; args[at] = "--help"; ++nargs;
    buf_printf(&want, "usage of md5"); freesrcs(n); return;
  }
  for (int i = 0; i < n; ++i) {
    if (srcs[i].kind >= 2) { buf_printf(&werr, "fble-md5: Unable to open %s\n", names[i]); want_exit = 1; continue; }
    unsigned char h[16]; md5((unsigned char*)(srcs[i].data.data ? srcs[i].data.data : ""), srcs[i].data.len, h);
    for (int j = 0; j < 16; ++j) buf_printf(&want, "%02x", h[j]);
    buf_printf(&want, "  %s\n", names[i]);
  }
  freesrcs(n);
}

// ---- cat -------------------------------------------------------------------------
static void k_cat(void) {
  module_path = "/Core/Stdio/Cat%";
  int n = sources(4, 200);
  for (int i = 0; i < n; ++i) {
    if (srcs[i].kind >= 2) { buf_printf(&werr, "fble-cat: Unable to open %s\n", names[i]); want_exit = 1; break; }
    if (srcs[i].data.len) buf_add(&want, srcs[i].data.data, srcs[i].data.len);
  }
  freesrcs(n);
}
static void k_fastcat(void) {
  module_path = "/Core/Stdio/FastCat%"; bytes(&in, sim_u(300), sim_p(1, 3)); buf_add(&want, in.data ? in.data : "", in.len);
  if (sim_p(1, 2)) args[nargs++] = "--monadic";
}

// ---- sat ----------------------------------------------------------------------------
static int clause[40][10], clen[40], ncl, nvars; static int ids[8];
static bool sat_ref(void) {
  for (unsigned a = 0; a < 1u << nvars; ++a) {
    bool ok = true;
    for (int i = 0; i < ncl && ok; ++i) { bool c = false; for (int j = 0; j < clen[i]; ++j) { int l = clause[i][j]; int v = (l < 0 ? -l : l) - 1; c |= ((a >> v) & 1) == (l > 0); } ok = c; }
    if (ok) return true;
  }
  return false;
}
static int sat_kind;
static void k_sat(void) {
  module_path = "/Sat/Main%"; pkgs[0] = "/repo/pkgs/sat";
  put_text("/w/Sat/Usage.fble", "/Core/String%.Str|'usage of sat';\n");
  if (sim_p(1, 40)) { if (sim_p(1, 2)) args[nargs++] = "--debug"; args[nargs++] = "--help"; buf_printf(&want, "usage of sat"); sat_kind = 0; return; }
  nvars = 1 + (int)sim_u(6); ncl = (int)sim_u(sim_p(1, 4) ? 36 : 14);
  int used = 0; bool sparse = sim_p(1, 4);
  for (int i = 0; i < nvars; ++i) { used += 1 + (sparse ? (int)sim_u(40) : 0); ids[i] = used; }
  for (int i = 0; i < ncl; ++i) {
    clen[i] = sim_p(1, 60) ? 0 : 1 + (int)sim_u(sim_p(1, 3) ? 2 : 4);
    int k = 0;
    for (int j = 0; j < clen[i]; ++j) {
      int v = 1 + (int)sim_u((uint64_t)nvars); int l = sim_p(1, 2) ? v : -v; bool clash = false; for (int q = 0; q < k; ++q) clash |= clause[i][q] == -l;
      if (!clash) clause[i][k++] = l;
    }
    clen[i] = k;
  }
  int ncom = (int)sim_u(3);
  for (int i = 0; i < ncom; ++i) { buf_printf(&in, "c"); size_t n = sim_u(12); for (size_t j = 0; j < n; ++j) { char c = (char)(32 + sim_u(95)); buf_add(&in, &c, 1); } buf_printf(&in, "\n"); }
  int bad = sim_p(1, 8) ? 1 + (int)sim_u(6) : 0;
  sat_kind = bad ? 0 : sat_ref() ? 1 : 2;
  const char* sp = sim_p(1, 4) ? "  " : sim_p(1, 6) ? "\t" : " ";
  switch (bad) {
    case 1: want_exit = 1; buf_printf(&werr, "no clauses found"); return;
    case 2: buf_printf(&in, "p cnf %d\n", nvars); want_exit = 1; buf_printf(&werr, "invalid header line: p cnf %d\n", nvars); break;
    case 3: buf_printf(&in, "pq cnf %d %d\n", nvars, ncl); want_exit = 1; buf_printf(&werr, "expected 'p', but got: pq"); break;
    case 4: buf_printf(&in, "p dnf %d %d\n", nvars, ncl); want_exit = 1; buf_printf(&werr, "expected 'cnf', but got: dnf"); break;
    case 5: buf_printf(&in, "1 2 0\n"); want_exit = 1; buf_printf(&werr, "invalid line: 1 2 0\n"); break;
    default: buf_printf(&in, "p%scnf%s%d%s%d%s\n", sp, sp, used, sp, ncl, sim_p(1, 5) ? " " : ""); break;
  }
  for (int i = 0; i < ncl; ++i) {
    if (sim_p(1, 8)) buf_printf(&in, " ");
    for (int j = 0; j < clen[i]; ++j) buf_printf(&in, "%d%s", (clause[i][j] < 0 ? -1 : 1) * ids[(clause[i][j] < 0 ? -clause[i][j] : clause[i][j]) - 1], sp);
    if (bad == 6 && i == ncl - 1) { want_exit = 1; buf_printf(&werr, "missing clause terminator"); } else buf_printf(&in, "0");
    if (i + 1 < ncl || sim_p(1, 2)) buf_printf(&in, "\n");
  }
  if (bad == 6 && ncl == 0) sat_kind = sat_ref() ? 1 : 2;
}
static const char* sat_check(const char* out) {   // "sat: [+1, -2]"
  static char msg[200];
  if (sat_kind == 2) return strcmp(out, "unsat\n") ? "the formula is unsatisfiable" : NULL;
  if (strncmp(out, "sat: [", 6)) return "the formula is satisfiable";
  int val[8] = {0}; const char* p = out + 6;
  while (*p && *p != ']') {
    int sgn = *p == '+' ? 1 : *p == '-' ? -1 : 0; if (!sgn) return "malformed assignment";
    char* e; long v = strtol(p + 1, &e, 10); if (e == p + 1) return "malformed assignment";
    int k = -1; for (int i = 0; i < nvars; ++i) if (ids[i] == v) k = i;
    if (k < 0) { sprintf(msg, "variable %ld does not occur in the formula", v); return msg; }
    if (val[k]) { sprintf(msg, "variable %ld is assigned twice", v); return msg; }
    val[k] = sgn; p = e; if (*p == ',') { ++p; if (*p == ' ') ++p; }
  }
  if (strcmp(p, "]\n")) return "malformed end";
  for (int i = 0; i < ncl; ++i) { bool c = false; for (int j = 0; j < clen[i]; ++j) { int l = clause[i][j]; c |= val[(l < 0 ? -l : l) - 1] == (l < 0 ? -1 : 1); } if (!c) { sprintf(msg, "the assignment does not satisfy clause %d", i + 1); return msg; } }
  return NULL;
}

// ---- tic-tac-toe -----------------------------------------------------------------------
// The program's own moves are not prescribed: any move that keeps the best
// result a player can force is right. The transcript is followed move by move.
static int winner(const int* b) {
  static const int L[8][3] = {{0,1,2},{3,4,5},{6,7,8},{0,3,6},{1,4,7},{2,5,8},{0,4,8},{2,4,6}};
  for (int i = 0; i < 8; ++i) if (b[L[i][0]] && b[L[i][0]] == b[L[i][1]] && b[L[i][0]] == b[L[i][2]]) return b[L[i][0]];
  return 0;
}
static int value(int* b, int who) {   // the result who, to move, can force: 1 0 -1
  int w = winner(b); if (w) return w == who ? 1 : -1;
  int best = -2;
  for (int i = 0; i < 9; ++i) if (!b[i]) { b[i] = who; int v = -value(b, 3 - who); b[i] = 0; if (v > best) best = v; }
  return best == -2 ? 0 : best;
}
static char moves[64][8]; static int nmoves; static bool last_nl;
static void k_ttt(void) {
  module_path = "/Games/TicTacToe/Stdio%"; pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  nmoves = (int)sim_u(30);
  int b[9] = {0}, fill = 0, over = 0;
  for (int i = 0; i < nmoves; ++i) {
    uint64_t k = sim_u(20);
    if (k < 13) {
      int p = (int)sim_u(9); if (!over && sim_p(3, 4)) while (b[p] && fill < 9) p = (p + 1) % 9;
      sprintf(moves[i], "%c%c%s", 'A' + p / 3, '1' + p % 3, sim_p(1, 10) ? " x" : "");
      if (!over && !b[p]) { b[p] = fill % 2 + 1; ++fill; over = winner(b) || fill == 9; }
    } else if (k < 16) {
      // the program moves; far from the end of the game it thinks too long, so
      // only a board with three or more squares taken is left to it
      if (fill < 3 && !over) { --i; --nmoves; continue; }
      strcpy(moves[i], "P"); if (!over) { over = 2; }   // the board is unknown from here: only P, quit, reset or bad lines follow
      int q = i + 1; int more = (int)sim_u(7);
      for (int j = 0; j < more && q < nmoves; ++j, ++q) strcpy(moves[q], sim_p(5, 6) ? "P" : "C2");
      i = q - 1;
      if (q < nmoves) { strcpy(moves[q], "R"); i = q; memset(b, 0, sizeof b); fill = over = 0; }
    } else if (k == 16) { strcpy(moves[i], "R"); memset(b, 0, sizeof b); fill = over = 0; }
    else if (k == 17 && sim_p(1, 3)) { strcpy(moves[i], "Q"); }
    else { static const char* const bad[] = {"", "D1", "A4", "A", "a1", " A1", "1A", "hello", "B0", "C"}; strcpy(moves[i], bad[sim_u(10)]); }
  }
  last_nl = sim_p(2, 3);
  for (int i = 0; i < nmoves; ++i) buf_printf(&in, "%s%s", moves[i], i + 1 < nmoves || last_nl ? "\n" : "");
}
static const char* ttt_check(const char* out, size_t len) {
  static char msg[300]; int b[9] = {0}, turn = 1; Buf x = {0}; size_t pos = 0; bool over = false;
  bool quit = false;
  for (int i = 0; ; ++i) {
    // the board, then the state of the game
    x.len = 0; buf_printf(&x, "  1 2 3\n");
    for (int r = 0; r < 3; ++r) buf_printf(&x, "%c %c %c %c\n", 'A' + r, "_XO"[b[r * 3]], "_XO"[b[r * 3 + 1]], "_XO"[b[r * 3 + 2]]);
    int w = winner(b); bool full = true; for (int j = 0; j < 9; ++j) full &= b[j] != 0;
    over = w || full;
    if (w) buf_printf(&x, "\nGAME OVER: Player %c wins.\n", "_XO"[w]); else if (full) buf_printf(&x, "\nGAME OVER: Draw.\n"); else buf_printf(&x, "\nPlayer %c move:\n", "_XO"[turn]);
    if (len - pos < x.len || memcmp(out + pos, x.data, x.len)) { x.data[x.len > 0 ? x.len - 1 : 0] = 0; snprintf(msg, sizeof msg, "after %d inputs the output is %.120s, expected %.100s", i, out + pos, x.data); buf_free(&x); return msg; }
    pos += x.len;
    if (i >= nmoves || quit) break;
    const char* m = moves[i];
    // an empty last line without a newline is the end of the input
    if (i == nmoves - 1 && !m[0] && !last_nl) break;
    if (m[0] == 'Q') break;
    if (m[0] == 'R') { memset(b, 0, sizeof b); turn = 1; continue; }
    if (m[0] == 'P') {
      if (over) continue;
      // the next board tells the move
      static const char hd[] = "  1 2 3\n";
      if (len - pos < sizeof hd - 1 + 24 || memcmp(out + pos, hd, sizeof hd - 1)) { snprintf(msg, sizeof msg, "no board after P"); buf_free(&x); return msg; }
      int nb[9], mv = -1, diff = 0; const char* p = out + pos + sizeof hd - 1;
      for (int r = 0; r < 3; ++r) for (int c = 0; c < 3; ++c) { char ch = p[r * 8 + 2 + c * 2]; nb[r * 3 + c] = ch == 'X' ? 1 : ch == 'O' ? 2 : 0; }
      for (int j = 0; j < 9; ++j) if (nb[j] != b[j]) { ++diff; mv = j; }
      if (diff != 1 || b[mv] || nb[mv] != turn) { snprintf(msg, sizeof msg, "the program's move on input %d is not a move", i); buf_free(&x); return msg; }
      int best = value(b, turn); b[mv] = turn; int got = -value(b, 3 - turn);
      if (got != best) { snprintf(msg, sizeof msg, "the program's move %c%d on input %d gives away the game (can force %d, keeps %d)", 'A' + mv / 3, mv % 3 + 1, i, best, got); buf_free(&x); return msg; }
      turn = 3 - turn; continue;
    }
    if (m[0] >= 'A' && m[0] <= 'C' && m[1] >= '1' && m[1] <= '3') {
      int p = (m[0] - 'A') * 3 + m[1] - '1';
      if (!over && !b[p]) { b[p] = turn; turn = 3 - turn; }
      continue;
    }
    static const char inv[] = "invalid input: expected {A,B,C}{1,2,3}, P, Q, or R\n";
    if (len - pos < sizeof inv - 1 || memcmp(out + pos, inv, sizeof inv - 1)) { snprintf(msg, sizeof msg, "no complaint about the line '%s': %.80s", m, out + pos); buf_free(&x); return msg; }
    pos += sizeof inv - 1;
  }
  buf_free(&x);
  if (pos != len) { snprintf(msg, sizeof msg, "more output than expected: %.80s", out + pos); return msg; }
  return NULL;
}

// ---- the benchmark programs ------------------------------------------------------------
static void k_revcomp(void) {
  module_path = "/Games/BenchmarkGame/ReverseComplement/Stdio%"; pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  int n = 1 + (int)sim_u(3);
  for (int i = 0; i < n; ++i) {
    Buf h = {0}; buf_printf(&h, ">"); size_t hn = sim_u(20); for (size_t j = 0; j < hn; ++j) { char c = (char)(32 + sim_u(95)); buf_add(&h, &c, 1); }
    static const size_t ls[] = {1, 59, 60, 61, 119, 120, 121, 180}; size_t m = sim_p(1, 2) ? ls[sim_u(8)] : 1 + sim_u(150);
    static const char codes[] = "ACGTUMRWSYKVHDBNacgtumrwsykvhdbn", comp[] = "TGCAAKYWSRMBDHVNTGCAAKYWSRMBDHVN";
    char* s = malloc(m); char* r = malloc(m); bool few = sim_p(1, 2);
    for (size_t j = 0; j < m; ++j) { size_t k = few ? sim_u(4) : sim_u(32); s[j] = codes[k]; r[m - 1 - j] = comp[k]; }
    buf_add(&in, h.data, h.len); buf_printf(&in, "\n");
    size_t width = sim_p(1, 2) ? 60 : 1 + sim_u(100);
    for (size_t j = 0; j < m; j += width) { buf_add(&in, s + j, m - j < width ? m - j : width); if (i + 1 < n || j + width < m || sim_p(3, 4)) buf_printf(&in, "\n"); }
    buf_add(&want, h.data, h.len); buf_printf(&want, "\n");
    for (size_t j = 0; j < m; j += 60) { buf_add(&want, r + j, m - j < 60 ? m - j : 60); buf_printf(&want, "\n"); }
    free(s); free(r); buf_free(&h);
  }
}
static void k_fannkuch(void) {
  module_path = "/Games/BenchmarkGame/FannkuchRedux/Stdio%"; pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  int n = 1 + (int)sim_u(5); static char a[8]; sprintf(a, "%d", n); args[nargs++] = a; if (sim_p(1, 4)) args[nargs++] = "3";
  int p[8], q[8], cnt[8], maxf = 0, sum = 0, idx = 0, r = n;
  for (int i = 0; i < n; ++i) p[i] = i;
  for (;;) {
    while (r != 1) { cnt[r - 1] = r; --r; }
    memcpy(q, p, sizeof p); int fl = 0, k;
    while ((k = q[0]) != 0) { for (int i = 0, j = k; i < j; ++i, --j) { int t = q[i]; q[i] = q[j]; q[j] = t; } ++fl; }
    if (fl > maxf) maxf = fl; sum += idx % 2 == 0 ? fl : -fl;
    for (;;) {
      if (r == n) goto done;
      int p0 = p[0]; for (int i = 0; i < r; ++i) p[i] = p[i + 1];
      p[r] = p0; if (--cnt[r] > 0) break; ++r;
    }
    ++idx;
  }
done:
  buf_printf(&want, "%d\nPfannkuchen(%d) = %d\n", sum, n, maxf);
}
static void k_pi(void) {
  module_path = "/Games/BenchmarkGame/PiDigits/Stdio%"; pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  static const char pi[] = "314159265358979323846264338327950288419716939937510582097494459230";
  int n = sim_p(1, 3) ? 10 : (int)sim_u(13); static char a[8]; sprintf(a, "%d", n); args[nargs++] = a; costly = n > 9;
  for (int i = 1; i <= n; ++i) { buf_add(&want, pi + i - 1, 1); if (i % 10 == 0) buf_printf(&want, "\t:%d\n", i); }
}
static void k_trees(void) {
  module_path = "/Games/BenchmarkGame/BinaryTrees/Stdio%"; pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  int n = (int)sim_u(8); static char a[8]; sprintf(a, "%d", n); int max = n < 6 ? 6 : n;
  if (n || sim_p(1, 2)) args[nargs++] = a;
  buf_printf(&want, "stretch tree of depth %d\t check: %d\n", max + 1, (1 << (max + 2)) - 1);
  for (int d = 4; d <= max; d += 2) { int it = 1 << (max - d + 4); buf_printf(&want, "%d\t trees of depth %d\t check: %d\n", it, d, it * ((1 << (d + 1)) - 1)); }
  buf_printf(&want, "long lived tree of depth %d\t check: %d\n", max, (1 << (max + 1)) - 1);
}

// ---- libraries of games and the hardware simulator, through a small program --------------
static const char* Head =
"@ Int@ = /Core/Int%.Int@;\n@ String@ = /Core/String%.String@;\n@ Char@ = /Core/Char%.Char@;\n@ Bool@ = /Core/Bool%.Bool@;\n% True = /Core/Bool%.True;\n% False = /Core/Bool%.False;\n@ Unit@ = /Core/Unit%.Unit@;\n% Unit = /Core/Unit%.Unit;\n"
"<@>@ List@ = /Core/List%.List@;\n<@>% List = /Core/List%.List;\n<@>% Cons = /Core/List%.Cons;\n<@>% Nil = /Core/List%.Nil;\n<@>% Append = /Core/List%.Append;\n<@>@ Maybe@ = /Core/Maybe%.Maybe@;\n<@>% Just = /Core/Maybe%.Just;\n<@>% Nothing = /Core/Maybe%.Nothing;\n"
"<<@>@>@ Monad@ = /Core/Monad%.Monad@;\n<<@>@>@ Stdio@ = /Core/Stdio%.Stdio@;\n<<@>@>@ Main@ = /Core/Stdio%.Main@;\n% Str = /Core/String%.Str;\n% Strs = /Core/String%.Strs;\n% Int = /Core/Int/Lit%.Int;\n% IShow = /Core/Int/Show%.Show;\n"
"(String@) { List@<Int@>; } Nums = (String@ s) { /Core/List%.Map(/Core/List/Eq%.Split(s, /Core/Char/Type%.IsSpace), /Core/Int/Show%.Read); };\n";
static const char* Tail =
"Main@ Main = <<@>@ M@>(Monad@<M@> m, Stdio@<M@> stdio) {\n  % I = /Core/Stream/IStream%(m);\n  % O = /Core/Stream/OStream%(m);\n  (List@<String@> _args) {\n    String@ text <- m.do(I.GetText(stdio.in));\n    Unit@ _ <- m.do(O.PutStr(stdio.out, Answer(text)));\n    m.return(True);\n  };\n};\n/Core/Stdio/IO%.Run(Main);\n";
static void own_main(const char* body) {
  mainsrc.len = 0; buf_add(&mainsrc, Head, strlen(Head)); buf_add(&mainsrc, body, strlen(body)); buf_add(&mainsrc, Tail, strlen(Tail));
  vfs_put("/w/Main.fble", mainsrc.data, mainsrc.len); module_path = "/Main%";
}
static int icmp(const void* a, const void* b) { const int* x = a; const int* y = b; return x[0] != y[0] ? (x[0] < y[0] ? -1 : 1) : x[1] < y[1] ? -1 : x[1] > y[1]; }
static int nlife; static int life[4000][2];
static void k_life(void) {
  pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  own_main("@ Coord@ = /Games/GameOfLife%.Coord@;\n(List@<Int@>) { List@<Coord@>; } Cells = (List@<Int@> l) {\n  l.?(nil: Nil<Coord@>);\n  Cons(Coord@(l.cons.head, l.cons.tail.cons.head), Cells(l.cons.tail.cons.tail));\n};\n"
    "(String@) { String@; } Answer = (String@ s) {\n  List@<Int@> l = Nums(s);\n  /Games/GameOfLife%.World@ w = /Games/GameOfLife%.StepN(l.cons.head, /Games/GameOfLife%.World(Cells(l.cons.tail)));\n"
    "  Strs(/Games/GameOfLife%.ForWorld(w, Nil<String@>, (Coord@ c, List@<String@> l) { Append<String@>(List[IShow(c.row), Str|' ', IShow(c.col), Str[/Core/Char%.Chars.nl]], l); }));\n};\n");
  int n = (int)sim_u(26), steps = (int)sim_u(6), span = 2 + (int)sim_u(7), r0 = (int)sim_u(40) - 20, c0 = (int)sim_u(40) - 20;
  nlife = 0; buf_printf(&in, "%d\n", steps);
  for (int i = 0; i < n; ++i) { int r = r0 + (int)sim_u((uint64_t)span), c = c0 + (int)sim_u((uint64_t)span); buf_printf(&in, "%d %d\n", r, c); bool dup = false; for (int j = 0; j < nlife; ++j) dup |= life[j][0] == r && life[j][1] == c; if (!dup) { life[nlife][0] = r; life[nlife++][1] = c; } }
  for (int s = 0; s < steps; ++s) {
    static int nx[4000][2]; int m = 0; int lo0 = 1000, hi0 = -1000, lo1 = 1000, hi1 = -1000;
    for (int i = 0; i < nlife; ++i) { if (life[i][0] < lo0) lo0 = life[i][0]; if (life[i][0] > hi0) hi0 = life[i][0]; if (life[i][1] < lo1) lo1 = life[i][1]; if (life[i][1] > hi1) hi1 = life[i][1]; }
    for (int r = lo0 - 1; r <= hi0 + 1; ++r) for (int c = lo1 - 1; c <= hi1 + 1; ++c) {
      int k = 0; bool self = false; for (int i = 0; i < nlife; ++i) { int dr = life[i][0] - r, dc = life[i][1] - c; if (dr == 0 && dc == 0) self = true; else if (dr >= -1 && dr <= 1 && dc >= -1 && dc <= 1) ++k; }
      if (k == 3 || (self && k == 2)) { nx[m][0] = r; nx[m++][1] = c; }
    }
    nlife = m; memcpy(life, nx, sizeof(int) * 2 * (size_t)m);
  }
}
static const char* life_check(const char* out) {
  static char msg[100]; static int got[4000][2]; int n = 0; const char* p = out; char* e;
  while (*p) { long r = strtol(p, &e, 10); if (e == p || *e != ' ') return "malformed line"; p = e; long c = strtol(p, &e, 10); if (*e != '\n') return "malformed line"; p = e + 1; got[n][0] = (int)r; got[n++][1] = (int)c; if (n >= 4000) break; }
  qsort(got, (size_t)n, sizeof got[0], icmp); qsort(life, (size_t)nlife, sizeof life[0], icmp);
  if (n != nlife) { sprintf(msg, "%d cells live, expected %d", n, nlife); return msg; }
  for (int i = 0; i < n; ++i) if (icmp(got[i], life[i])) { sprintf(msg, "cell %d %d lives, expected %d %d", got[i][0], got[i][1], life[i][0], life[i][1]); return msg; }
  return NULL;
}
static char grid[82]; static int sudoku_sols;
static bool su_ok(const char* g, int at, char s) { int r = at / 9, c = at % 9; for (int i = 0; i < 9; ++i) { int a = r * 9 + i, b = i * 9 + c, d = (r / 3 * 3 + i / 3) * 9 + c / 3 * 3 + i % 3; if ((a != at && g[a] == s) || (b != at && g[b] == s) || (d != at && g[d] == s)) return false; } return true; }
static long su_work;
static bool su_solve(char* g) {
  int best = -1, bn = 10; if (++su_work > 200000) return false;
  for (int i = 0; i < 81; ++i) if (g[i] == '.') { int n = 0; for (char s = '1'; s <= '9'; ++s) n += su_ok(g, i, s); if (n < bn) { bn = n; best = i; } }
  if (best < 0) return true;
  for (char s = '1'; s <= '9'; ++s) if (su_ok(g, best, s)) { g[best] = s; if (su_solve(g)) return true; g[best] = '.'; }
  return false;
}
static void k_sudoku(void) {
  pkgs[0] = "/repo/pkgs/games"; pkgs[1] = "/repo/pkgs/app";
  // the board is given as nine rows of nine symbols
  own_main("@ Symbol@ = /Games/Sudoku%.Symbol@;\n% S = /Games/Sudoku%;\n"
    "(Symbol@) { Int@; } Idx = (Symbol@ s) { s.?(1: Int|0, 2: Int|1, 3: Int|2, 4: Int|3, 5: Int|4, 6: Int|5, 7: Int|6, 8: Int|7, 9: Int|8); };\n"
    "(Char@) { Maybe@<Symbol@>; } Read = (Char@ c) { c.?(1: Just(S.1), 2: Just(S.2), 3: Just(S.3), 4: Just(S.4), 5: Just(S.5), 6: Just(S.6), 7: Just(S.7), 8: Just(S.8), 9: Just(S.9), : Nothing<Symbol@>); };\n"
    "(Symbol@) { String@; } Show = (Symbol@ s) { s.?(1: Str|1, 2: Str|2, 3: Str|3, 4: Str|4, 5: Str|5, 6: Str|6, 7: Str|7, 8: Str|8, 9: Str|9); };\n"
    "(String@) { String@; } Answer = (String@ s) {\n  List@<String@> rows = /Core/List/Eq%.Split(s, /Core/Char/Type%.IsSpace);\n"
    "  /Games/Sudoku%.Input@ board = (Symbol@ r, Symbol@ c) { Read(/Core/List/Length%.Get(/Core/List/Length%.Get(rows, Idx(r)), Idx(c))); };\n"
    "  Maybe@</Games/Sudoku%.Solved@> m = S.Solve(board);\n  m.?(nothing: Str|'none');\n  List@<Symbol@> all = List[S.1, S.2, S.3, S.4, S.5, S.6, S.7, S.8, S.9];\n"
    "  Strs(/Core/List%.Map<Symbol@>(all)<String@>((Symbol@ r) { Strs(/Core/List%.Map<Symbol@>(all)<String@>((Symbol@ c) { Show(m.just(r, c)); })); }));\n};\n");
  int perm[9], rp[9], cp[9]; int* ps[3] = {perm, rp, cp};
  for (int k = 0; k < 3; ++k) for (int i = 0; i < 9; ++i) ps[k][i] = i;
  for (int i = 8; i > 0; --i) { int j = (int)sim_u((uint64_t)i + 1), t = perm[i]; perm[i] = perm[j]; perm[j] = t; }
  for (int k = 1; k < 3; ++k) for (int b = 0; b < 3; ++b) for (int i = 2; i > 0; --i) { int j = (int)sim_u((uint64_t)i + 1), t = ps[k][b * 3 + i]; ps[k][b * 3 + i] = ps[k][b * 3 + j]; ps[k][b * 3 + j] = t; }
  for (int r = 0; r < 9; ++r) for (int c = 0; c < 9; ++c) { int rr = rp[r], cc = cp[c]; grid[r * 9 + c] = (char)('1' + perm[(rr % 3 * 3 + rr / 3 + cc) % 9]); }
  grid[81] = 0;
  int holes = (int)sim_u(45); for (int i = 0; i < holes; ++i) grid[sim_u(81)] = '.';
  if (sim_p(1, 5)) { grid[sim_u(81)] = (char)('1' + sim_u(9)); }   // perhaps no solution
  if (sim_p(1, 8)) for (int i = 0; i < 9; ++i) for (int j = 0; j < 9; ++j) if (grid[i * 9 + j] == '1' || grid[i * 9 + j] == '2') grid[i * 9 + j] = '.';
  bool consistent = true; for (int i = 0; i < 81; ++i) if (grid[i] != '.' && !su_ok(grid, i, grid[i])) consistent = false;
  char t[82]; memcpy(t, grid, 82); su_work = 0;
  sudoku_sols = consistent && su_solve(t);
  if (su_work > 200000) sudoku_sols = -1;
  for (int r = 0; r < 9; ++r) { buf_add(&in, grid + r * 9, 9); buf_printf(&in, "\n"); }
}
static const char* sudoku_check(const char* out, size_t len) {
  static char msg[120];
  if (!strcmp(out, "none")) return sudoku_sols == 1 ? "the puzzle has a solution" : NULL;
  if (len != 81) return "not a board";
  for (int i = 0; i < 81; ++i) {
    if (grid[i] != '.' && out[i] != grid[i]) { sprintf(msg, "the given %c at row %d column %d became %c", grid[i], i / 9 + 1, i % 9 + 1, out[i]); return msg; }
    if (out[i] < '1' || out[i] > '9' || !su_ok(out, i, out[i])) { sprintf(msg, "%c at row %d column %d breaks the rules", out[i], i / 9 + 1, i % 9 + 1); return msg; }
  }
  return NULL;
}
// the adder, and single steps of random designs
static int hw_kind; static unsigned hw_sum;
static Buf hw_ok[800]; static int hw_nok;
typedef struct { int x, y; char i[4], o[4]; } HR;
static HR hr[6]; static int nhr; static char hmem[8][8];
static void hw_text(Buf* b, char m[8][8]) { b->len = 0; for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) if (m[x][y] != '.') buf_printf(b, "%d %d %c\n", x, y, m[x][y]); buf_add(b, "", 1); --b->len; }
static bool hw_apply(const HR* r, char m[8][8], bool upd[8][8]) {
  int cx[4] = {r->x, r->x + 1, r->x, r->x + 1}, cy[4] = {r->y, r->y, r->y + 1, r->y + 1};
  for (int k = 0; k < 4; ++k) {
    char c = m[cx[k]][cy[k]];
    if ((r->i[k] != '.' || r->o[k] != '.') && upd[cx[k]][cy[k]]) return false;
    if (r->i[k] != '.' && c != r->i[k]) return false;
    if (r->i[k] == '.' && r->o[k] != '.' && c != '.') return false;
  }
  for (int k = 0; k < 4; ++k) if (r->i[k] != '.' || r->o[k] != '.') { m[cx[k]][cy[k]] = r->o[k]; upd[cx[k]][cy[k]] = true; }
  return true;
}
static void k_hwdg(void) {
  pkgs[0] = "/repo/pkgs/hwdg"; pkgs[1] = "/repo/pkgs/app";
  hw_kind = sim_p(1, 3) ? 1 : 0;
  static const char common[] = "@ Memory@ = /Hwdg/Memory%.Memory@;\n@ Coord@ = /Hwdg/Coord%.Coord@;\n@ Data@ = /Hwdg/Data%.Data@;\n(Memory@) { String@; } ShowM = (Memory@ m) {\n  Strs(/Hwdg/Memory%.ForEach(m, Nil<String@>, (Coord@ c, Data@ d, List@<String@> l) { Append<String@>(l, List[IShow(c.x), Str|' ', IShow(c.y), d.?(0: Str|' 0', 1: Str|' 1'), Str[/Core/Char%.Chars.nl]]); }));\n};\n"
    "(List@<Int@>, Memory@) { Memory@; } Fill = (List@<Int@> l, Memory@ m) {\n  l.?(nil: m);\n  List@<Int@> t = l.cons.tail;\n  Fill(t.cons.tail.cons.tail, /Hwdg/Memory%.Set(m, Coord@(l.cons.head, t.cons.head), /Core/Int/Eq%.IsZero(t.cons.tail.cons.head).?(true: /Hwdg/Data%.0, false: /Hwdg/Data%.1)));\n};\n";
  Buf body = {0}; buf_add(&body, common, sizeof common - 1);
  if (hw_kind) {
    unsigned bits = sim_p(1, 3) ? 1 : sim_p(1, 2) ? 2 : 4; unsigned a = (unsigned)sim_u(1u << bits), b = (unsigned)sim_u(1u << bits), c = (unsigned)sim_u(2);
    buf_printf(&body, "(String@) { String@; } Answer = (String@ s) {\n  ShowM(/Hwdg/Design%%.Run(/Hwdg/Adder%%.Adder%u, Fill(Nums(s), /Hwdg/Memory%%.Empty)));\n};\n", bits);
    unsigned sum = a + b + c;
    for (unsigned k = 0; k < bits; ++k) { buf_printf(&in, "%u 0 %u\n%u 0 %u\n", 4 * (bits - 1 - k), a >> k & 1, 4 * (bits - 1 - k) + 3, b >> k & 1); }
    buf_printf(&in, "%u 2 %u\n", 4 * bits, c);
    // sorted by x: carry at 0, then sums
    buf_printf(&want, "0 2 %u\n", sum >> bits & 1);
    for (unsigned k = bits; k-- > 0; ) buf_printf(&want, "%u 4 %u\n", 4 * (bits - 1 - k) + 3, sum >> k & 1);
  } else {
    nhr = (int)sim_u(6); memset(hmem, '.', sizeof hmem); int span = 2 + (int)sim_u(3);
    buf_printf(&body, "/Hwdg/Design%%.Design@ D = /Hwdg/Design%%.Designs(List</Hwdg/Design%%.Placed@>[");
    bool nest = sim_p(1, 3);
    for (int k = 0; k < nhr; ++k) {
      HR* r = &hr[k]; r->x = (int)sim_u((uint64_t)span); r->y = (int)sim_u((uint64_t)span);
      for (int q = 0; q < 4; ++q) { r->i[q] = "...01."[sim_u(6)]; r->o[q] = "...01."[sim_u(6)]; }
      int dx = nest ? (int)sim_u(5) - 2 : 0, dy = nest ? (int)sim_u(5) - 2 : 0;
      if (nest) buf_printf(&body, "%s/Hwdg/Design%%.Placed@(Coord@(%s(Int|%d), %s(Int|%d)), /Hwdg/Design%%.Designs(List[", k ? ", " : "", dx < 0 ? "/Core/Int%.Neg" : "/Core/Int%.Abs", dx < 0 ? -dx : dx, dy < 0 ? "/Core/Int%.Neg" : "/Core/Int%.Abs", dy < 0 ? -dy : dy);
      buf_printf(&body, "%s/Hwdg/Design%%.PlacedRule(/Core/Int%%.Sub(Int|%d, Int|%d), /Core/Int%%.Sub(Int|%d, Int|%d), /Hwdg/Design%%.Rule|'%.4s => %.4s')", k && !nest ? ", " : "", r->x + 9, dx + 9, r->y + 9, dy + 9, r->i, r->o);
      if (nest) buf_printf(&body, "]))");
    }
    int cells = (int)sim_u(10); 
    for (int k = 0; k < cells; ++k) { int x = (int)sim_u(6), y = (int)sim_u(6); if (nhr && sim_p(2, 3)) { HR* r = &hr[sim_u((uint64_t)nhr)]; int q = (int)sim_u(4); x = r->x + q % 2; y = r->y + q / 2; hmem[x][y] = r->i[q] != '.' ? r->i[q] : '0'; } else hmem[x][y] = (char)('0' + sim_u(2)); }
    for (int x = 0; x < 8; ++x) for (int y = 0; y < 8; ++y) if (hmem[x][y] != '.') buf_printf(&in, "%d %d %c\n", x, y, hmem[x][y]);
    buf_printf(&body, "]);\n(String@) { String@; } Answer = (String@ s) { ShowM(/Hwdg/Design%%.Step(D, Fill(Nums(s), /Hwdg/Memory%%.Empty))); };\n");
    // whatever order the enabled rules are taken in is right
    int p[6] = {0, 1, 2, 3, 4, 5}; hw_nok = 0;
    int c[6] = {0}; int i = 0;
    for (bool more = true; more; ) {
      char m[8][8]; bool u[8][8] = {{0}}; memcpy(m, hmem, sizeof m); for (int k = 0; k < nhr; ++k) hw_apply(&hr[p[k]], m, u);
      if (hw_nok < 800) hw_text(&hw_ok[hw_nok++], m);
      more = false;
      while (i < nhr) { if (c[i] < i) { int a = i % 2 ? c[i] : 0; int t = p[a]; p[a] = p[i]; p[i] = t; ++c[i]; i = 0; more = true; break; } c[i] = 0; ++i; }
    }
  }
  buf_add(&body, "", 1); own_main(body.data); buf_free(&body);
}

typedef struct { const char* name; void (*make)(void); unsigned w; bool thrifty; } Kind;
static const Kind kinds[] = {
  {"md5", k_md5, 10, false}, {"cat", k_cat, 8, false}, {"fastcat", k_fastcat, 3, false}, {"sat", k_sat, 16, false}, {"tictactoe", k_ttt, 12, false},
  {"reverse-complement", k_revcomp, 5, false}, {"fannkuch", k_fannkuch, 2, false}, {"pidigits", k_pi, 2, false}, {"binary-trees", k_trees, 2, true}, {"life", k_life, 6, false},
  {"sudoku", k_sudoku, 5, true}, {"hwdg", k_hwdg, 9, false},
};
#define NK ((int)(sizeof kinds / sizeof kinds[0]))

static void run(void) {
  sim_heap_default(); vfs_reset(); vfs_std(true, true, true); vfs_root_readonly = true; sim_getenv_hook = env;
  in.len = want.len = werr.len = mainsrc.len = 0; want_exit = 0; nargs = 0; memset(pkgs, 0, sizeof pkgs); stdin_used = false; costly = false;
  unsigned total = 0; for (int i = 0; i < NK; ++i) total += kinds[i].w;
  unsigned d = (unsigned)sim_u(total); int k = 0; while (d >= kinds[k].w) d -= kinds[k++].w;
  sim_step();
  kinds[k].make();
  buf_add(&in, "", 1); --in.len;
  VFile* f = vfs_stdin(); setfile(f, in.data, in.len); f->short_reads = sim_p(1, 2);
  const char* av[64]; int n = 0;
  av[n++] = "fble-stdio"; av[n++] = "-I"; av[n++] = "/repo/pkgs/core"; av[n++] = "-I"; av[n++] = "/w";
  for (int i = 0; pkgs[i]; ++i) { av[n++] = "-I"; av[n++] = pkgs[i]; }
  av[n++] = "-m"; av[n++] = module_path; av[n++] = "--";
  for (int i = 0; i < nargs; ++i) av[n++] = args[i];
  av[n] = NULL;
  if (sim_verbose()) {
    sim_note("--- %s:", kinds[k].name); for (int i = 0; i < nargs; ++i) sim_note(" '%s'", args[i]);
    sim_note("\n"); if (mainsrc.len) { buf_add(&mainsrc, "", 1); sim_note_text(mainsrc.data); } sim_note("--- standard input\n"); sim_note_text(in.data);
  }
  if (!kinds[k].thrifty && !costly && sim_p(1, 2)) sim_heap_random();
  if (FbleSimChunkSize < 8192) FbleSimChunkSize = 8192;
  int r = sim_main(Main0, n, (char**)av);
  vfs_exit_flush();
  VFile* o = vfs_stdout(); VFile* er = vfs_stderr();
  char* out = malloc(o->len + 1); memcpy(out, o->data ? o->data : "", o->len); out[o->len] = 0;
  char* err = malloc(er->len + 1); memcpy(err, er->data ? er->data : "", er->len); err[er->len] = 0;
  if (sim_verbose()) { sim_note("--- output (exit %d)\n", r); sim_note_text(out); sim_note("--- errors\n"); sim_note_text(err); }
  sim_ev(kinds[k].name, r, (int64_t)o->len, (int64_t)sim_hash(o->data, o->len, 1469598103934665603ull));
  sim_state(sim_hash(out, o->len, sim_hash(err, er->len, (uint64_t)k + 77)));
  sim_nontrivial(); sim_probe(kinds[k].name);
  sim_sample("%s with %d arguments and %u bytes of input: exit %d, %u bytes of output", kinds[k].name, nargs, (unsigned)in.len, r, (unsigned)o->len);
  if (r != want_exit) sim_fail("exit-status", "%s ended with %d, expected %d: %.200s", kinds[k].name, r, want_exit, err);
  if (!mainsrc.len && (er->len != werr.len || (werr.len && memcmp(err, werr.data, werr.len)))) sim_fail("error-text", "%s wrote to standard error: '%.100s', expected '%.*s'", kinds[k].name, err, (int)(werr.len > 100 ? 100 : werr.len), werr.data ? werr.data : "");
  const char* msg = NULL; char tmp[200];
  bool exact = true;
  if (kinds[k].make == k_sat && sat_kind) { exact = false; msg = sat_check(out); }
  else if (kinds[k].make == k_ttt) { exact = false; msg = ttt_check(out, o->len); }
  else if (kinds[k].make == k_life) { exact = false; msg = life_check(out); }
  else if (kinds[k].make == k_sudoku) { exact = false; msg = sudoku_check(out, o->len); }
  else if (kinds[k].make == k_hwdg && !hw_kind) { exact = false; msg = "no order of the enabled rules gives this memory"; for (int i = 0; i < hw_nok; ++i) if (!strcmp(out, hw_ok[i].data)) msg = NULL; }
  if (exact) {
    size_t i = 0; while (i < o->len && i < want.len && out[i] == want.data[i]) ++i;
    if (i < o->len || i < want.len) { snprintf(tmp, sizeof tmp, "output differs from offset %u: '%.40s', expected '%.*s'", (unsigned)i, out + i, (int)(want.len - i > 40 ? 40 : want.len - i), want.data ? want.data + i : ""); msg = tmp; }
  }
  if (msg) sim_fail("wrong-output", "%s: %s; output %.160s", kinds[k].name, msg, out);
  if (vfs_open_count()) sim_fail("handle-leak", "%s: %u files still open", kinds[k].name, vfs_open_count());
  free(out); free(err);
  vfs_root_readonly = false;
  vfs_reset(); sim_heap_default();
}

void sim_harness_init(void) {}
const SimScenario sim_scenarios[] = {
  {"C22", run, 1500, 15000, 10},
  {0}
};
