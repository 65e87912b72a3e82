// Deterministic simulation kernel: one choice sequence decides everything.
#ifndef SIM_H_
#define SIM_H_
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

// ---- choices -------------------------------------------------------------
// Every nondeterministic decision is a draw. 0 is always the simplest choice
// (no fault, shortest, first).
uint64_t sim_u(uint64_t n);                 // [0,n), n >= 1
int64_t sim_range(int64_t lo, int64_t hi);  // [lo,hi], lo is simplest
bool sim_p(unsigned num, unsigned den);     // true with probability num/den; 0 => false
size_t sim_weighted(size_t n, const unsigned* w);
void sim_step(void);                        // start of a unit the shrinker may drop whole
bool sim_exhausted(void);                   // choice budget used up: wind down

// ---- events, faults, probes ----------------------------------------------
void sim_ev(const char* kind, int64_t a, int64_t b, int64_t c);
void sim_evs(const char* kind, const char* text);
void sim_fault(const char* kind);           // a fault/perturbation that fired
void sim_probe(const char* name);           // rare condition reached
void sim_state(uint64_t hash);              // distinct states measure
void sim_nontrivial(void);                  // this run did something worthwhile
void sim_sample(const char* fmt, ...);      // description of this run
void sim_time(uint64_t us);                 // simulated time elapsed (microseconds)
void sim_count(const char* name, uint64_t n); // extra counter
uint64_t sim_runhash(void);                 // hash of the event log so far
bool sim_verbose(void);
void sim_note(const char* fmt, ...);        // trace text only (not hashed)
void sim_note_text(const char* s);          // long text, line by line
uint64_t sim_hash(const void* p, size_t n, uint64_t h);

// ---- verdict --------------------------------------------------------------
_Noreturn void sim_fail(const char* cls, const char* fmt, ...);
_Noreturn void sim_broken(const char* fmt, ...);  // harness error, never a violation

#define SIM_CHECK(cond, cls, ...) do { if (!(cond)) sim_fail(cls, __VA_ARGS__); } while (0)

// ---- harness interface ------------------------------------------------------
typedef struct {
  const char* prop;          // property id
  void (*run)(void);         // one simulated run
  unsigned quick_runs;       // number of runs
  unsigned thorough_runs;
  unsigned batch;            // runs per forked process
} SimScenario;
extern const SimScenario sim_scenarios[];   // terminated by prop == NULL
void sim_harness_init(void);                // called once per worker process

extern uint64_t sim_run_index;
extern bool sim_thorough;

// ---- seams: heap hooks ------------------------------------------------------
typedef struct {
  unsigned gc_mode;       // 0 default, 1 random extra steps, 2 bursts
  unsigned merge_mode;    // 0 default, 1 random, 2 never merge, 3 always merge
  bool hold_merge;        // explicit pushes: do not override
  size_t chunk;
} SimHeapCfg;
extern SimHeapCfg sim_heap;
void sim_heap_default(void);
void sim_heap_random(void);     // swarm configuration drawn from choices
extern size_t FbleSimChunkSize;
extern void (*sim_tick_hook)(void);   // called at every call and return
size_t sim_live_bytes(void);    // bytes currently allocated through the fble allocator

// ---- seams: rand ------------------------------------------------------------
extern uint64_t sim_rand_calls;
extern int (*sim_rand_hook)(void);

// ---- seams: process -----------------------------------------------------------
// Runs a program's main, intercepting exit().  Returns the exit status;
// -1 when the program called abort().
int sim_main(int (*m)(int, char**), int argc, char** argv);
extern bool sim_in_main;
int sim_run_atexit(void);   // runs the exit handlers registered so far: 0, or -1 when one aborts

// ---- seams: files ---------------------------------------------------------------
typedef struct VFile {
  char* path;
  char* data;
  size_t len, cap;
  bool exists, unreadable, unwritable;
  long read_err_at;       // reading at this offset fails (EIO), -1 never
  bool read_err_transient; // fails once, then continues
  long write_limit;       // bytes accepted before ENOSPC, -1 unlimited
  bool close_fail;        // close reports an error
  unsigned vanish_after;  // file disappears after this many access() checks (0: never)
  bool short_reads, short_writes;
  unsigned opens, closes, accesses;
  bool hit_read_err, hit_write_err, hit_close_err, hit_open_err;
  struct VFile* next;
} VFile;

void vfs_reset(void);                       // forget all files; restores std streams
VFile* vfs_put(const char* path, const void* data, size_t len);
VFile* vfs_get(const char* path);           // NULL when unknown
VFile* vfs_first(void);
bool vfs_same(const char* a, const char* b);  // the same file name after normalisation
void vfs_std(bool in, bool out, bool err);  // replace std streams by vfs files
VFile* vfs_stdin(void);
VFile* vfs_stdout(void);
VFile* vfs_stderr(void);
unsigned vfs_open_count(void);              // vfs streams currently open (std streams excluded)
void vfs_exit_flush(void);                  // what exit() does to open streams
extern bool vfs_root_readonly;              // paths under /repo may be read for real
extern void (*vfs_on_write)(VFile* f, const char* data, size_t n); // data reached the kernel
extern void (*vfs_on_event)(const char* what, VFile* f);  // open openfail read wfail close
extern unsigned vfs_ev_stream;              // stream of the current event, numbered from 1 by opening
extern size_t vfs_ev_pos;                   // its offset
extern bool vfs_unbuffered_reads;
extern const char* vfs_ev_path;             // path of an openfail event
extern long vfs_crash_at;                   // crash (process loss) at the k-th kernel event, -1 never
extern long vfs_kernel_events;
extern bool vfs_crashed;
extern int (*vfs_open_fault)(const char* path, bool write); // errno to fail with, or 0
extern char* (*sim_getenv_hook)(const char* name);
void sim_real_env(const char* name, const char* value);

typedef struct { char* data; size_t len, cap; } Buf;
void buf_add(Buf* b, const void* p, size_t n);
void buf_printf(Buf* b, const char* fmt, ...);
void buf_free(Buf* b);
#endif
