// A simulated AArch64 processor (integer subset) with a loader for relocatable
// ELF objects. Code generated by fble is assembled by a real assembler and
// executed here; calls that leave the generated code run the real functions of
// the library. Calling-convention violations are reported.
#include <elf.h>
#include <sys/mman.h>

typedef struct { uint64_t x[31]; uint64_t sp; bool n, z, c, v; } A64;
static A64 cpu;
static uint8_t* a64_image; static size_t a64_size, a64_used;
static uint8_t* a64_stack; static size_t a64_stack_size = 256u << 20;
static uint64_t a64_sp;                        // where the next entry starts
static uint64_t a64_insns, a64_entries, a64_calls;
#define A64_RETURN 0x4141414141414140ull
enum { A64_MAXSYM = 4096, A64_MAXEXT = 256, A64_MAXFN = 8192 };
static struct { char* name; uint64_t addr; } a64_sym[A64_MAXSYM]; static int a64_nsym;
static struct { char* name; void* fn; bool ret_bool; } a64_ext[A64_MAXEXT]; static int a64_next_;
static struct { char* name; uint64_t* cell; void* src; } a64_cell[64]; static int a64_ncell;
static uint64_t a64_fn[A64_MAXFN]; static int a64_nfn;
static uint64_t a64_ext_base; static uint64_t a64_text_lo, a64_text_hi;
static struct { uint64_t lo, hi; } a64_text[64]; static int a64_ntext;
static bool a64_full;

static uint64_t a64_exec(uint64_t pc, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3);
static FbleValue* a64_thunk(int i, FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) {
  return (FbleValue*)a64_exec(a64_fn[i], (uint64_t)h, (uint64_t)p, (uint64_t)f, (uint64_t)a);
}
#define TH1(n) static FbleValue* th_##n(FbleValueHeap* h, FbleProfileThread* p, FbleFunction* f, FbleValue** a) { return a64_thunk(0x##n, h, p, f, a); }
#define TH16(n) TH1(n##0) TH1(n##1) TH1(n##2) TH1(n##3) TH1(n##4) TH1(n##5) TH1(n##6) TH1(n##7) TH1(n##8) TH1(n##9) TH1(n##a) TH1(n##b) TH1(n##c) TH1(n##d) TH1(n##e) TH1(n##f)
#define TH4K(n) TH256(n##0) TH256(n##1) TH256(n##2) TH256(n##3) TH256(n##4) TH256(n##5) TH256(n##6) TH256(n##7) TH256(n##8) TH256(n##9) TH256(n##a) TH256(n##b) TH256(n##c) TH256(n##d) TH256(n##e) TH256(n##f)
#define TH256(n) TH16(n##0) TH16(n##1) TH16(n##2) TH16(n##3) TH16(n##4) TH16(n##5) TH16(n##6) TH16(n##7) TH16(n##8) TH16(n##9) TH16(n##a) TH16(n##b) TH16(n##c) TH16(n##d) TH16(n##e) TH16(n##f)
TH4K(0) TH4K(1)
#undef TH1
#define TH1(n) th_##n,
static FbleRunFunction* a64_thunks[A64_MAXFN] = { TH4K(0) TH4K(1) };

// ---- memory ----------------------------------------------------------------------
static void a64_check(uint64_t a, unsigned n, bool wr, uint64_t pc) {
  uint64_t lo = (uint64_t)a64_stack, hi = lo + a64_stack_size;
  if (a >= lo && a < hi) { if (a < cpu.sp) sim_fail("stack-access", "the generated code %s below the stack pointer (pc +%#llx)", wr ? "writes" : "reads", (unsigned long long)(pc - a64_text_lo)); return; }
  for (int i = 0; i < a64_ntext; ++i) if (a + n > a64_text[i].lo && a < a64_text[i].hi && wr) sim_fail("bad-write", "the generated code overwrites itself");
  if (a < 4096 || (a >> 47)) sim_fail("bad-access", "the generated code accesses address %#llx (pc +%#llx)", (unsigned long long)a, (unsigned long long)(pc - a64_text_lo));
}
static uint64_t a64_ld(uint64_t a, unsigned n, uint64_t pc) {
  a64_check(a, n, false, pc);
  switch (n) { case 1: return *(uint8_t*)a; case 2: { uint16_t v; memcpy(&v, (void*)a, 2); return v; } case 4: { uint32_t v; memcpy(&v, (void*)a, 4); return v; } default: { uint64_t v; memcpy(&v, (void*)a, 8); return v; } }
}
static void a64_st(uint64_t a, unsigned n, uint64_t v, uint64_t pc) { a64_check(a, n, true, pc); memcpy((void*)a, &v, n); }

// ---- decoding ----------------------------------------------------------------------
static uint64_t rx(unsigned r) { return r == 31 ? 0 : cpu.x[r]; }
static uint64_t rxsp(unsigned r) { return r == 31 ? cpu.sp : cpu.x[r]; }
static void wx(unsigned r, uint64_t v) { if (r != 31) cpu.x[r] = v; }
static void wxsp(unsigned r, uint64_t v) { if (r == 31) cpu.sp = v; else cpu.x[r] = v; }
static int64_t sx(uint64_t v, unsigned b) { return (int64_t)(v << (64 - b)) >> (64 - b); }
#define B(hi, lo) ((i >> (lo)) & ((1u << ((hi) - (lo) + 1)) - 1))
static uint64_t ror_(uint64_t v, unsigned r, unsigned w) { uint64_t m = w == 64 ? ~0ull : (1ull << w) - 1; v &= m; r %= w; return r ? ((v >> r) | (v << (w - r))) & m : v; }
static bool bitmask(unsigned N, unsigned imms, unsigned immr, bool sf, uint64_t* wm, uint64_t* tm) {
  int len = 31 - __builtin_clz((N << 6) | (~imms & 0x3f) | 0); if (((N << 6) | (~imms & 0x3f)) == 0 || len < 1) return false;
  unsigned size = 1u << len, levels = size - 1; if (!sf && size == 64) return false;
  unsigned S = imms & levels, R = immr & levels;
  uint64_t welem = S + 1 >= 64 ? ~0ull : (1ull << (S + 1)) - 1; uint64_t r = ror_(welem, R, size), o = 0, t = 0;
  unsigned diff = (S - R) & levels; uint64_t telem = diff + 1 >= 64 ? ~0ull : (1ull << (diff + 1)) - 1;
  for (unsigned k = 0; k < 64; k += size) { o |= r << k; t |= telem << k; }
  *wm = sf ? o : o & 0xffffffff; *tm = sf ? t : t & 0xffffffff; return true;
}
static uint64_t addc(uint64_t a, uint64_t b, unsigned cin, bool sf, bool set) {
  if (!sf) { a = (uint32_t)a; b = (uint32_t)b; uint64_t r = a + b + cin; uint32_t q = (uint32_t)r; if (set) { cpu.n = q >> 31; cpu.z = q == 0; cpu.c = r >> 32; cpu.v = (~(a ^ b) & (a ^ q)) >> 31 & 1; } return q; }
  unsigned __int128 r = (unsigned __int128)a + b + cin; uint64_t q = (uint64_t)r;
  if (set) { cpu.n = q >> 63; cpu.z = q == 0; cpu.c = (bool)(r >> 64); cpu.v = (~(a ^ b) & (a ^ q)) >> 63 & 1; }
  return q;
}
static bool cond(unsigned c) {
  bool r;
  switch (c >> 1) { case 0: r = cpu.z; break; case 1: r = cpu.c; break; case 2: r = cpu.n; break; case 3: r = cpu.v; break; case 4: r = cpu.c && !cpu.z; break; case 5: r = cpu.n == cpu.v; break; case 6: r = cpu.n == cpu.v && !cpu.z; break; default: return true; }
  return c & 1 ? !r : r;
}
static uint64_t shifted(uint64_t v, unsigned t, unsigned n, bool sf) {
  if (!sf) v = (uint32_t)v;
  switch (t) { case 0: v <<= n; break; case 1: v >>= n; break; case 2: v = sf ? (uint64_t)((int64_t)v >> n) : (uint32_t)((int32_t)v >> n); break; default: v = ror_(v, n, sf ? 64 : 32); }
  return sf ? v : (uint32_t)v;
}
static uint64_t extended(uint64_t v, unsigned o, unsigned sh) {
  switch (o) { case 0: v = (uint8_t)v; break; case 1: v = (uint16_t)v; break; case 2: v = (uint32_t)v; break; case 4: v = (uint64_t)(int8_t)v; break; case 5: v = (uint64_t)(int16_t)v; break; case 6: v = (uint64_t)(int32_t)v; break; default: break; }
  return v << sh;
}
static void a64_bad(uint32_t i, uint64_t pc) { sim_broken("instruction %08x at +%#llx is not simulated", i, (unsigned long long)(pc - a64_text_lo)); }
static void sp_check(unsigned rn, uint64_t pc) { if (rn == 31 && (cpu.sp & 15)) sim_fail("stack-alignment", "the stack pointer is used while misaligned (pc +%#llx)", (unsigned long long)(pc - a64_text_lo)); }

// One load or store of a register. opc: 0 store, 1 load, 2 sign extending to 64, 3 to 32 bits.
static void ldst(unsigned size, unsigned opc, unsigned rt, uint64_t a, uint64_t pc, uint32_t i) {
  unsigned n = 1u << size;
  if (opc == 0) a64_st(a, n, rx(rt), pc);
  else if (opc == 1) wx(rt, a64_ld(a, n, pc));
  else if (size == 3) return;   // prefetch
  else { int64_t v = sx(a64_ld(a, n, pc), n * 8); wx(rt, opc == 2 ? (uint64_t)v : (uint32_t)v); (void)i; }
}
static void a64_extern(unsigned k) {
  uint64_t* x = cpu.x;
  if (cpu.sp & 15) sim_fail("stack-alignment", "'%s' is called with a misaligned stack", a64_ext[k].name);
  if (cpu.sp < (uint64_t)a64_stack + 65536) sim_broken("simulated stack exhausted");
  if (!a64_ext[k].fn) sim_fail("generated-code", "the generated code calls '%s', which does not exist", a64_ext[k].name);
  ++a64_calls;
  uint64_t keep[12]; memcpy(keep, x + 19, sizeof keep); uint64_t sp = cpu.sp, outer = a64_sp; a64_sp = sp;
  uint64_t r;
  if (!strcmp(a64_ext[k].name, "fprintf")) r = (uint64_t)(int64_t)((int (*)(FILE*, const char*, ...))a64_ext[k].fn)((FILE*)x[0], (const char*)x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
  else r = ((uint64_t (*)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t))a64_ext[k].fn)(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]);
  if (a64_ext[k].ret_bool) r = (r & 0xff) | 0x5a5a5a5a5a5a5a00ull;   // the upper bits of a bool are unspecified
  memcpy(x + 19, keep, sizeof keep); cpu.sp = sp; a64_sp = outer;
  // Everything a called function may change is changed.
  x[0] = r;
  for (int j = 1; j < 19; ++j) x[j] = 0xBADC0DE000000000ull + (uint64_t)j * 0x10001;
  cpu.n = r & 1; cpu.z = r >> 3 & 1; cpu.c = r >> 4 & 1; cpu.v = r >> 5 & 1;
}
static uint64_t a64_exec(uint64_t entry, uint64_t a0, uint64_t a1, uint64_t a2, uint64_t a3) {
  A64 saved = cpu; ++a64_entries;
  for (int k = 0; k < a64_ncell; ++k) memcpy(a64_cell[k].cell, a64_cell[k].src, 8);
  for (int j = 0; j < 31; ++j) cpu.x[j] = 0xF00D000000000000ull + (uint64_t)j * 0x1000 + (a64_entries & 0xfff);
  uint64_t keep[11]; memcpy(keep, cpu.x + 19, sizeof keep);
  cpu.x[0] = a0; cpu.x[1] = a1; cpu.x[2] = a2; cpu.x[3] = a3; cpu.x[30] = A64_RETURN; cpu.sp = a64_sp;
  uint64_t sp0 = cpu.sp, pc = entry, budget = 400000000;
  while (pc != A64_RETURN) {
    if (pc >= a64_ext_base && pc < a64_ext_base + 4 * A64_MAXEXT) { a64_extern((unsigned)((pc - a64_ext_base) / 4)); pc = cpu.x[30]; continue; }
    bool in = false; for (int k = 0; k < a64_ntext; ++k) if (pc >= a64_text[k].lo && pc < a64_text[k].hi) { in = true; break; }
    if (!in || (pc & 3)) sim_fail("bad-jump", "the generated code jumps to %#llx", (unsigned long long)pc);
    if (--budget == 0) sim_fail("endless", "the generated code does not come to an end");
    uint32_t i; memcpy(&i, (void*)pc, 4); ++a64_insns;
    uint64_t next = pc + 4; bool sf = i >> 31;
    unsigned rd = B(4, 0), rn = B(9, 5), rm = B(20, 16);
    if ((i & 0x1f000000) == 0x10000000) {                              // adr, adrp
      int64_t imm = sx((uint64_t)B(23, 5) << 2 | B(30, 29), 21);
      wx(rd, sf ? (pc & ~0xfffull) + ((uint64_t)imm << 12) : pc + (uint64_t)imm);
    } else if ((i & 0x1f800000) == 0x11000000) {                       // add, sub immediate
      uint64_t imm = B(21, 10); if (B(22, 22)) imm <<= 12;
      bool sub = B(30, 30), set = B(29, 29);
      uint64_t r = addc(rxsp(rn), sub ? ~imm : imm, sub, sf, set);
      if (set) wx(rd, r); else wxsp(rd, r);
    } else if ((i & 0x1f800000) == 0x12000000) {                       // logical immediate
      uint64_t m, t; if (!bitmask(B(22, 22), B(15, 10), B(21, 16), sf, &m, &t)) a64_bad(i, pc);
      uint64_t a = rx(rn), r; unsigned o = B(30, 29);
      r = o == 1 ? a | m : o == 2 ? a ^ m : a & m; if (!sf) r = (uint32_t)r;
      if (o == 3) { cpu.n = sf ? r >> 63 : r >> 31 & 1; cpu.z = r == 0; cpu.c = cpu.v = false; wx(rd, r); } else wxsp(rd, r);
    } else if ((i & 0x1f800000) == 0x12800000) {                       // move wide
      unsigned sh = 16 * B(22, 21), o = B(30, 29); uint64_t imm = (uint64_t)B(20, 5) << sh, r;
      if (o == 0) r = ~imm; else if (o == 2) r = imm; else if (o == 3) r = (rx(rd) & ~(0xffffull << sh)) | imm; else { a64_bad(i, pc); return 0; }
      wx(rd, sf ? r : (uint32_t)r);
    } else if ((i & 0x1f800000) == 0x13000000) {                       // bitfield
      unsigned o = B(30, 29), immr = B(21, 16), imms = B(15, 10); uint64_t wm, tm; if (!bitmask(B(22, 22), imms, immr, sf, &wm, &tm)) a64_bad(i, pc);
      uint64_t s = rx(rn), dst = o == 1 ? rx(rd) : 0; uint64_t bot = (dst & ~wm) | (ror_(s, immr, sf ? 64 : 32) & wm);
      uint64_t top = o == 0 ? ((s >> imms & 1) ? ~0ull : 0) : dst; uint64_t r = (top & ~tm) | (bot & tm);
      wx(rd, sf ? r : (uint32_t)r);
    } else if ((i & 0x7fe00000) == 0x13800000) {                       // extr
      unsigned l = B(15, 10); uint64_t r = sf ? (l ? rx(rm) >> l | rx(rn) << (64 - l) : rx(rm)) : (uint32_t)(l ? (uint32_t)rx(rm) >> l | (uint32_t)rx(rn) << (32 - l) : (uint32_t)rx(rm));
      wx(rd, r);
    } else if ((i & 0x7c000000) == 0x14000000) {                       // b, bl
      if (sf) cpu.x[30] = next;
      next = pc + (uint64_t)(sx(B(25, 0), 26) * 4);
    } else if ((i & 0x7e000000) == 0x34000000) {                       // cbz, cbnz
      uint64_t v = sf ? rx(rd) : (uint32_t)rx(rd);
      if ((v == 0) != (bool)B(24, 24)) next = pc + (uint64_t)(sx(B(23, 5), 19) * 4);
    } else if ((i & 0x7e000000) == 0x36000000) {                       // tbz, tbnz
      unsigned b = (unsigned)sf << 5 | B(23, 19);
      if ((rx(rd) >> b & 1) == B(24, 24)) next = pc + (uint64_t)(sx(B(18, 5), 14) * 4);
    } else if ((i & 0xff000010) == 0x54000000) {                       // b.cond
      if (cond(B(3, 0))) next = pc + (uint64_t)(sx(B(23, 5), 19) * 4);
    } else if ((i & 0xff9ffc1f) == 0xd61f0000 && B(22, 21) < 3) {      // br, blr, ret
      uint64_t to = rx(rn); if (B(22, 21) == 1) cpu.x[30] = next; next = to;
    } else if ((i & 0xfffff01f) == 0xd503201f) {                       // hints
    } else if ((i & 0x3b000000) == 0x39000000 && !B(26, 26)) {         // load, store unsigned offset
      sp_check(rn, pc); ldst(B(31, 30), B(23, 22), rd, rxsp(rn) + ((uint64_t)B(21, 10) << B(31, 30)), pc, i);
    } else if ((i & 0x3b200000) == 0x38000000 && !B(26, 26)) {         // unscaled, pre, post
      int64_t off = sx(B(20, 12), 9); unsigned m = B(11, 10); if (m == 2) a64_bad(i, pc);
      sp_check(rn, pc);
      uint64_t base = rxsp(rn), a = m == 1 ? base : base + (uint64_t)off;
      if (m == 3 && off < 0) wxsp(rn, base + (uint64_t)off);
      ldst(B(31, 30), B(23, 22), rd, a, pc, i);
      if (m == 1 || m == 3) wxsp(rn, base + (uint64_t)off);
    } else if ((i & 0x3b200c00) == 0x38200800 && !B(26, 26)) {         // register offset
      sp_check(rn, pc); unsigned sz = B(31, 30);
      ldst(sz, B(23, 22), rd, rxsp(rn) + extended(rx(rm), B(15, 13), B(12, 12) ? sz : 0), pc, i);
    } else if ((i & 0x3b000000) == 0x18000000 && !B(26, 26)) {         // literal
      uint64_t a = pc + (uint64_t)(sx(B(23, 5), 19) * 4); wx(rd, a64_ld(a, B(30, 30) ? 8 : 4, pc));
    } else if ((i & 0x3a000000) == 0x28000000 && !B(26, 26)) {         // pairs
      unsigned m = B(24, 23), o = B(31, 30), n = o == 2 ? 8 : 4; if (o != 2 && o != 0) a64_bad(i, pc);
      int64_t off = sx(B(21, 15), 7) * (int64_t)n; unsigned rt2 = B(14, 10);
      sp_check(rn, pc);
      uint64_t base = rxsp(rn), a = m == 1 ? base : base + (uint64_t)off;
      if (m == 3 && off < 0) wxsp(rn, base + (uint64_t)off);
      if (B(22, 22)) { uint64_t v = a64_ld(a, n, pc), w = a64_ld(a + n, n, pc); wx(rd, v); wx(rt2, w); }
      else { a64_st(a, n, rx(rd), pc); a64_st(a + n, n, rx(rt2), pc); }
      if (m == 1 || m == 3) wxsp(rn, base + (uint64_t)off);
    } else if ((i & 0x1f000000) == 0x0a000000) {                       // logical shifted register
      uint64_t b = shifted(rx(rm), B(23, 22), B(15, 10), sf), a = rx(rn), r; if (B(21, 21)) b = ~b;
      unsigned o = B(30, 29); r = o == 1 ? a | b : o == 2 ? a ^ b : a & b; if (!sf) r = (uint32_t)r;
      if (o == 3) { cpu.n = sf ? r >> 63 : r >> 31 & 1; cpu.z = r == 0; cpu.c = cpu.v = false; }
      wx(rd, r);
    } else if ((i & 0x1f200000) == 0x0b000000) {                       // add, sub shifted register
      uint64_t b = shifted(rx(rm), B(23, 22), B(15, 10), sf); bool sub = B(30, 30);
      wx(rd, addc(rx(rn), sub ? ~b : b, sub, sf, B(29, 29)));
    } else if ((i & 0x1fe00000) == 0x0b200000) {                       // add, sub extended register
      uint64_t b = extended(rx(rm), B(15, 13), B(12, 10)); bool sub = B(30, 30), set = B(29, 29);
      uint64_t r = addc(rxsp(rn), sub ? ~b : b, sub, sf, set); if (set) wx(rd, r); else wxsp(rd, r);
    } else if ((i & 0x1fe00000) == 0x1a800000 && B(29, 29) == 0) {     // csel, csinc, csinv, csneg
      uint64_t b = rx(rm); unsigned o = B(30, 30) << 1 | B(10, 10);
      if (!cond(B(15, 12))) { if (o == 1) b++; if (o == 2) b = ~b; if (o == 3) b = -b; } else b = rx(rn);
      wx(rd, sf ? b : (uint32_t)b);
    } else if ((i & 0x1fe00000) == 0x1a400000 && B(29, 29)) {          // ccmp, ccmn
      uint64_t b = B(11, 11) ? rm : rx(rm); bool sub = B(30, 30);
      if (cond(B(15, 12))) addc(rx(rn), sub ? ~b : b, sub, sf, true);
      else { cpu.n = i >> 3 & 1; cpu.z = i >> 2 & 1; cpu.c = i >> 1 & 1; cpu.v = i & 1; }
    } else if ((i & 0x7fe00000) == 0x1b000000) {                       // madd, msub
      uint64_t r = rx(rn) * rx(rm), a = rx(B(14, 10)); r = B(15, 15) ? a - r : a + r; wx(rd, sf ? r : (uint32_t)r);
    } else if ((i & 0x7fe0f000) == 0x1ac02000) {                       // variable shifts
      wx(rd, shifted(rx(rn), B(11, 10), (unsigned)(rx(rm) & (sf ? 63 : 31)), sf));
    } else if ((i & 0x7fe0f800) == 0x1ac00800) {                       // udiv, sdiv
      uint64_t a = rx(rn), b = rx(rm); if (!sf) { a = B(10, 10) ? (uint64_t)(int32_t)a : (uint32_t)a; b = B(10, 10) ? (uint64_t)(int32_t)b : (uint32_t)b; }
      uint64_t r = b == 0 ? 0 : B(10, 10) ? (b == ~0ull ? -a : (uint64_t)((int64_t)a / (int64_t)b)) : a / b; wx(rd, sf ? r : (uint32_t)r);
    } else a64_bad(i, pc);
    pc = next;
  }
  uint64_t r = cpu.x[0];
  if (cpu.sp != sp0) sim_fail("calling-convention", "a generated function returns with its stack pointer moved by %lld", (long long)(cpu.sp - sp0));
  for (int j = 0; j < 11; ++j) if (cpu.x[19 + j] != keep[j]) sim_fail("calling-convention", "a generated function returns with x%d changed", 19 + j);
  cpu = saved;
  return r;
}

// ---- loading -----------------------------------------------------------------------
static void a64_reset(void) {
  if (!a64_image) {
    a64_size = 64u << 20;
    a64_image = mmap(NULL, a64_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    a64_stack = mmap(NULL, a64_stack_size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (a64_image == MAP_FAILED || a64_stack == MAP_FAILED) sim_broken("no memory for the simulated processor");
  }
  for (int i = 0; i < a64_nsym; ++i) free(a64_sym[i].name);
  for (int i = 0; i < a64_next_; ++i) free(a64_ext[i].name);
  for (int i = 0; i < a64_ncell; ++i) free(a64_cell[i].name);
  a64_nsym = a64_next_ = a64_ncell = a64_nfn = a64_ntext = 0; a64_full = false;
  a64_ext_base = (uint64_t)a64_image; a64_used = 4096 + 4096;   // external calls, then cells
  a64_sp = (uint64_t)a64_stack + a64_stack_size; a64_sp &= ~15ull;
  a64_insns = a64_entries = a64_calls = 0;
}
static uint64_t a64_lookup(const char* n) { for (int i = 0; i < a64_nsym; ++i) if (!strcmp(a64_sym[i].name, n)) return a64_sym[i].addr; return 0; }
static uint64_t a64_extern_addr(const char* n) {
  for (int i = 0; i < a64_next_; ++i) if (!strcmp(a64_ext[i].name, n)) return a64_ext_base + 4 * (unsigned)i;
  if (a64_next_ == A64_MAXEXT) sim_broken("external functions");
  a64_ext[a64_next_].name = strdup(n); a64_ext[a64_next_].fn = dlsym(RTLD_DEFAULT, n); a64_ext[a64_next_].ret_bool = !strcmp(n, "FbleAssignRefValue");
  return a64_ext_base + 4 * (unsigned)a64_next_++;
}
static uint64_t a64_cell_addr(const char* n) {
  for (int i = 0; i < a64_ncell; ++i) if (!strcmp(a64_cell[i].name, n)) return (uint64_t)a64_cell[i].cell;
  void* s = dlsym(RTLD_DEFAULT, n);
  if (!s) sim_fail("generated-code", "the generated code refers to '%s', which does not exist", n);
  if (a64_ncell == 64) sim_broken("cells");
  a64_cell[a64_ncell].name = strdup(n); a64_cell[a64_ncell].src = s; a64_cell[a64_ncell].cell = (uint64_t*)(a64_image + 4096 + 8 * a64_ncell);
  return (uint64_t)a64_cell[a64_ncell++].cell;
}
typedef struct { uint8_t* d; size_t n; uint64_t* at; } A64Obj;
// First all objects are placed, then their relocations are applied.
static void a64_place(A64Obj* o) {
  Elf64_Ehdr* h = (Elf64_Ehdr*)o->d;
  if (o->n < sizeof *h || memcmp(h->e_ident, ELFMAG, SELFMAG) || h->e_machine != EM_AARCH64 || h->e_type != ET_REL) sim_broken("the assembler's output is not an AArch64 object");
  Elf64_Shdr* s = (Elf64_Shdr*)(o->d + h->e_shoff);
  o->at = calloc(h->e_shnum, sizeof *o->at);
  for (int k = 0; k < h->e_shnum; ++k) {
    if (!(s[k].sh_flags & SHF_ALLOC)) continue;
    size_t al = s[k].sh_addralign > 16 ? s[k].sh_addralign : 16;
    a64_used = (a64_used + al - 1) / al * al;
    if (a64_used + s[k].sh_size > a64_size) sim_broken("simulated image too large");
    o->at[k] = (uint64_t)a64_image + a64_used;
    if (s[k].sh_type == SHT_NOBITS) memset((void*)o->at[k], 0, s[k].sh_size); else memcpy((void*)o->at[k], o->d + s[k].sh_offset, s[k].sh_size);
    if ((s[k].sh_flags & SHF_EXECINSTR) && s[k].sh_size) {
      if (a64_ntext == 64) sim_broken("text sections");
      if (a64_ntext == 0) a64_text_lo = o->at[k];
      a64_text[a64_ntext].lo = o->at[k]; a64_text[a64_ntext++].hi = o->at[k] + s[k].sh_size;
    }
    a64_used += s[k].sh_size;
  }
  for (int k = 0; k < h->e_shnum; ++k) if (s[k].sh_type == SHT_SYMTAB) {
    Elf64_Sym* y = (Elf64_Sym*)(o->d + s[k].sh_offset); const char* st = (const char*)o->d + s[s[k].sh_link].sh_offset;
    for (size_t j = 0; j < s[k].sh_size / sizeof *y; ++j) if (ELF64_ST_BIND(y[j].st_info) == STB_GLOBAL && y[j].st_shndx != SHN_UNDEF && y[j].st_shndx < h->e_shnum) {
      const char* n = st + y[j].st_name;
      if (a64_lookup(n)) sim_fail("generated-code", "the symbol '%s' is defined twice", n);
      if (a64_nsym == A64_MAXSYM) sim_broken("symbols");
      a64_sym[a64_nsym].name = strdup(n); a64_sym[a64_nsym++].addr = o->at[y[j].st_shndx] + y[j].st_value;
    }
  }
}
static void a64_relocate(A64Obj* o) {
  Elf64_Ehdr* h = (Elf64_Ehdr*)o->d; Elf64_Shdr* s = (Elf64_Shdr*)(o->d + h->e_shoff);
  for (int k = 0; k < h->e_shnum; ++k) {
    if (s[k].sh_type != SHT_RELA || s[k].sh_info >= h->e_shnum || !o->at[s[k].sh_info]) continue;
    Elf64_Rela* r = (Elf64_Rela*)(o->d + s[k].sh_offset); Elf64_Shdr* sy = &s[s[k].sh_link];
    Elf64_Sym* y = (Elf64_Sym*)(o->d + sy->sh_offset); const char* st = (const char*)o->d + s[sy->sh_link].sh_offset;
    for (size_t j = 0; j < s[k].sh_size / sizeof *r; ++j) {
      Elf64_Sym* q = &y[ELF64_R_SYM(r[j].r_info)]; unsigned ty = ELF64_R_TYPE(r[j].r_info); uint64_t P = o->at[s[k].sh_info] + r[j].r_offset, S;
      bool text = false; const char* nm = st + q->st_name;
      if (q->st_shndx != SHN_UNDEF && q->st_shndx < h->e_shnum) { S = o->at[q->st_shndx] + q->st_value; text = s[q->st_shndx].sh_flags & SHF_EXECINSTR; }
      else if ((S = a64_lookup(nm)) == 0) S = ty == R_AARCH64_CALL26 || ty == R_AARCH64_JUMP26 ? a64_extern_addr(nm) : !strcmp(nm, "sim_main_function") ? a64_extern_addr(nm) : a64_cell_addr(nm);
      uint64_t V = S + (uint64_t)r[j].r_addend; uint32_t w; memcpy(&w, (void*)P, 4);
      switch (ty) {
        case R_AARCH64_ABS64:
          if (text) {   // a function of the generated code becomes callable from outside
            int q2 = 0; while (q2 < a64_nfn && a64_fn[q2] != V) ++q2;
            if (q2 == A64_MAXFN) { a64_full = true; break; }
            if (q2 == a64_nfn) a64_fn[a64_nfn++] = V;
            V = (uint64_t)a64_thunks[q2];
          }
          memcpy((void*)P, &V, 8); break;
        case R_AARCH64_ADR_PREL_PG_HI21: {
          int64_t d = ((int64_t)(V & ~0xfffull) - (int64_t)(P & ~0xfffull)) >> 12; if (d != sx((uint64_t)d, 21)) sim_broken("adrp out of range");
          w |= ((uint32_t)d & 3) << 29 | ((uint32_t)(d >> 2) & 0x7ffff) << 5; memcpy((void*)P, &w, 4); break;
        }
        case R_AARCH64_ADD_ABS_LO12_NC: w |= (uint32_t)(V & 0xfff) << 10; memcpy((void*)P, &w, 4); break;
        case R_AARCH64_LDST64_ABS_LO12_NC: w |= (uint32_t)((V & 0xfff) >> 3) << 10; memcpy((void*)P, &w, 4); break;
        case R_AARCH64_CALL26: case R_AARCH64_JUMP26: w |= (uint32_t)((int64_t)(V - P) >> 2) & 0x3ffffff; memcpy((void*)P, &w, 4); break;
        case R_AARCH64_CONDBR19: w |= ((uint32_t)((int64_t)(V - P) >> 2) & 0x7ffff) << 5; memcpy((void*)P, &w, 4); break;
        default: sim_broken("relocation %u is not simulated", ty);
      }
    }
  }
}
#undef B
