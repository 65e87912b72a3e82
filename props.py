HARNESSES = {
  "h_a64": {"src": ["h_a64.c"], "groups": ["lib"]},
  "h_app": {"src": ["h_app.c"], "groups": ["lib", "core", "app"], "cflags": ["-I/usr/include/SDL2", "-D_REENTRANT"]},
  "h_cli": {"src": ["h_cli.c"], "groups": ["lib", "bin"]},
  "h_fbld": {"src": ["h_fbld.c"], "groups": ["fbld"]},
  "h_heap": {"src": ["h_heap.c"], "groups": ["lib"]},
  "h_lib": {"src": ["h_lib.c"], "groups": ["lib", "core"]},
  "h_pkgs": {"src": ["h_pkgs.c"], "groups": ["lib", "core"]},
  "h_load": {"src": ["h_load.c"], "groups": ["lib"]},
  "h_prog": {"src": ["h_prog.c"], "groups": ["lib"]},
  "h_stdio": {"src": ["h_stdio.c"], "groups": ["lib", "core"]},
}
_HEAP_REAL = ["lib/value.c (whole value heap, collector, frames, calls)", "lib/alloc.c", "lib/profile.c", "lib/string.c"]
_HEAP_STUB = ["programs: random histories of the public API and native functions instead of interpreted code", "GC work amount, frame merging and stack chunk size are drawn by the simulator"]
_IO_REAL = ["pkgs/core: the IO natives, FbleStdioMain, int/string/char/list conversions", "lib: front end, interpreter, value heap"]
_IO_STUB = ["file system and standard streams: stdio streams (fopencookie) over simulated files with faults", "process start, arguments, environment, exit and crash points"]
_LOAD_REAL = ["lib/load.c, lib/parse.y, lib/module-path.c, lib/link.c and the rest of lib"]
_LOAD_STUB = ["file system (files, access checks, read errors, short reads, vanishing files) and environment"]
_PROG_REAL = ["lib: load, parse, type check, compile, interpret, link, value heap, profile", "lib/c.c: the generated C of about one program in forty is built with gcc and run"]
_PROG_STUB = ["file system holding the generated modules (lib reads them through simulated streams)", "GC work amount, frame merging and stack chunk size are drawn by the simulator; profile sampling draws rand() from the seed", "application functions (natives) that record their calls and fail at a drawn call", "lib/aarch64.c is not run here (see C19)"]
_CLI_STUB = ["file system and standard streams (fopencookie) with faults", "process start, arguments, environment and exit"]
_FBLD_REAL = ["fbld/*.c: the whole document processor with its main"]
_N = "explores random runs; no exhaustiveness claim"
_D = dict(level="exploration", rule="one evaluation is one simulated run; a run is nontrivial if it executed its operations to the end; distinct by the hash of its complete event log", states="", real=[], stub=[], note=_N)
PROPS = {
  "C01": dict(_D, harness="h_heap", real=_HEAP_REAL, stub=_HEAP_STUB, states="distinct per-run profiles (calls, tail calls, pops, partial and over-applications, aborts, natives, GC and merge mode)",
     technique="seeded random histories of the value-heap API over a simulated GC, frame-merge and chunk schedule, against an object-graph model"),
  "C02": dict(_D, harness="h_heap", real=_HEAP_REAL, stub=_HEAP_STUB, states="as C01",
     technique="as C01 with bounded-progress checks of the collector, exactly-once finalization and heap teardown at random points"),
  "C03": dict(_D, harness="h_prog", real=_PROG_REAL, stub=_PROG_STUB + ["stack chunks are made small so that growth shows early"], states="distinct programs",
     technique="seeded random tail recursive loops and recursions in many shapes under simulated GC, frame and chunk schedules; heap and C stack are measured from an application function called in every iteration, later windows of iterations against earlier ones"),
  "C04": dict(_D, harness="h_prog", real=_PROG_REAL, stub=_PROG_STUB, states="distinct vectors of block entry counts, native calls and outcome",
     technique="seeded random well-typed multi-module programs run by the interpreter and through generated C under simulated GC, frame, chunk and profile-sampling schedules, against a reference evaluator"),
  "C05": dict(_D, harness="h_prog", real=_PROG_REAL, stub=_PROG_STUB, states="as C04",
     technique="as C04 with undefined accesses, wrong tags, vacuous definitions and application functions failing at a drawn call; containment, error location, reuse of the heap and absence of leaks are checked"),
  "C06": dict(_D, harness="h_prog", real=_PROG_REAL, stub=_PROG_STUB, states="as C04",
     technique="two thirds: random programs as in C04 with profiling on and a simulated sample clock, block counts against the reference evaluator; one third: random histories of the profiling API over several threads against a reference model; every printed report is parsed back and compared"),
  "C08": dict(_D, harness="h_stdio", real=_IO_REAL, stub=_IO_STUB, states="distinct outcomes (operations, results, exit status) of a run",
     technique="seeded random I/O programs over a simulated file system with short reads, read errors and arbitrary bytes, against a reference file model"),
  "C09": dict(_D, harness="h_stdio", real=_IO_REAL, stub=_IO_STUB, states="distinct outcomes (operations, results, exit status) of a run",
     technique="seeded random I/O programs with short writes, full disks, close errors and process loss at every kernel event; the delivered bytes are judged against the order of the program's writes"),
  "C10": dict(_D, harness="h_stdio", real=_IO_REAL, stub=_IO_STUB, states="distinct outcomes (operations, results, exit status) of a run",
     technique="seeded random I/O programs with failing opens, dropped handles and every way to end, with a count of opens and closes and the exit status as oracle"),
  "C11": dict(_D, harness="h_load", real=_LOAD_REAL, stub=_LOAD_STUB, states="distinct outcomes of loading",
     technique="seeded random module trees over a simulated file system with read errors, short reads, damaged bytes and vanishing files, against a reference loader"),
  "C12": dict(_D, harness="h_load", real=_LOAD_REAL, stub=_LOAD_STUB, states="distinct outcomes of the search",
     technique="seeded random search paths, packages and environments over a simulated file system with unreadable and vanishing files, against a reference search and a make-syntax reader of the depfile"),
  "C13": dict(_D, harness="h_cli", real=["bin/*.c (the mains of the four tools)", "lib: arguments, loading, compiling, C and aarch64 generation, disassembly, profiles"], stub=_CLI_STUB, states="distinct combinations of tool, options, exit status and outcome of loading",
     technique="seeded random module trees and argument lists; a healthy run is compared with the library and the argument model, then the same command runs under full disks, torn writes, read errors, denied opens and vanishing files"),
  "C14": dict(_D, harness="h_cli", real=["bin/fble-perf-profile.c", "lib/profile.c", "lib/arg-parse.c"], stub=_CLI_STUB, states="distinct reports",
     technique="seeded random and damaged sample streams, truncated and broken at any byte, delivered in arbitrary pieces; the printed report is read back and compared with a reference profile"),
  "C15": dict(_D, harness="h_fbld", real=_FBLD_REAL, stub=_CLI_STUB, states="distinct outputs and exit statuses",
     technique="seeded random documents in random concrete syntax, divided over files, with read errors, interrupted and short reads, missing files, full disks, truncation and damage; outcome against a reference evaluator, damaged documents against themselves under another division of the input"),
  "C16": dict(_D, harness="h_app", real=["pkgs/app/app.c: FbleAppMain with its event loop, timers, effects and drawing", "lib: front end, interpreter, value heap", "pkgs/core: standard output stream, int and string conversions"],
     stub=["SDL and OpenGL: event queue, timer service, clock, window, graphics context and primitives, each with failures", "file system, standard streams, process start and exit"], states="distinct outcomes (effects, events, ticks, exit status, GC mode)",
     technique="seeded random event-driven programs on a simulated platform whose event arrival, timer delivery, clock jumps and wrap and failures are drawn by the scheduler; every byte, primitive, frame and timer is judged online against a model of the program"),
  "C17": dict(_D, harness="h_load", real=_LOAD_REAL + ["lib/generate.*.c, lib/code.c (disassembler)"], stub=_LOAD_STUB, states="distinct kinds of diagnostics",
     technique="seeded random corruption (torn, overwritten, spliced and nested text) of the repository's own sources, delivered by a simulated file system in arbitrary pieces, with crash, leak, location and next-program checks"),
  "C19": dict(_D, harness="h_a64", real=["lib/aarch64.c (its output is assembled and every instruction of it executed)", "lib: load, parse, type check, compile, interpret, link, value heap, profile, called from the generated code", "llvm-mc as assembler"],
     stub=["the AArch64 processor and the loader (simulated; integer instructions, calling convention checked)"] + _PROG_STUB[:3], states="distinct vectors of block entry counts, native calls and outcome",
     technique="seeded random programs are compiled for aarch64, assembled, and run on a simulated processor under simulated collector, frame, chunk and profile schedules with failing application functions; values against the reference evaluator; error texts, order of application calls and whole profiles against the interpreter on the same inputs"),
  "C20": dict(_D, harness="h_lib", real=["pkgs/core/Core/**/*.fble: the library itself", "lib: front end, interpreter, value heap", "pkgs/core: the IO natives, FbleStdioMain, int/string/char conversions"], stub=_IO_STUB + ["GC work amount, frame merging and stack chunk size are drawn by the simulator"], states="distinct multisets of operations",
     technique="seeded random histories of library operations, on data read through simulated streams, run under simulated collector and frame schedules; every value made, old versions included, is compared with a reference model"),
  "C21": dict(_D, harness="h_fbld", real=_FBLD_REAL, stub=_CLI_STUB, states="distinct meanings of documents",
     technique="seeded random documents printed twice in random concrete syntax, divided over files and reads by the simulator, against a reference evaluator of the fbld specification"),
  "C22": dict(_D, harness="h_pkgs", real=["pkgs/md5, pkgs/sat, pkgs/games, pkgs/hwdg: the programs and libraries written in fble", "pkgs/core: the library, the IO natives, FbleStdioMain", "lib: front end, interpreter, value heap"], stub=_IO_STUB + ["the generated usage texts (/Md5/Usage%, /Sat/Usage%)", "GC work amount, frame merging and stack chunk size are drawn by the simulator"], states="distinct outputs and error texts",
     technique="seeded random input, arguments and missing or unreadable files, delivered by the simulator in random portions and under simulated collector and frame schedules; output, error text and exit status against a reference of each program"),
}
