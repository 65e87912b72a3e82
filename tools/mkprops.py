#!/usr/bin/env python3
"""Writes properties.jsonl from the table below."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe or [], hook_needed=hook)))

p("C01", "Reachable values survive every garbage collection schedule unchanged",
  "A value the program or the embedding application can still reach - through a live stack frame, a captured variable, an argument of a running or tail-called function, a field of a reachable value, or an assigned recursive reference - is never freed, finalized, moved away or changed, whatever work the incremental collector does and whenever it does it. Function calls run the function that was called, with the arguments it was given, exactly once, including partial application, over-application and tail calls.",
  ["histories", "schedules"], "all histories of the public value-heap and call API, all points at which the incremental collector may do work, all decisions to merge or split call frames, all sizes of stack chunk",
  "The tests run fixed programs on the one collector pacing, frame-merge limit and 1 MB chunk size the build has; a reachability bug needs a collection cycle interrupted at one particular pop or tail call.",
  ["lib/value.c", "include/fble/fble-value.h", "include/fble/fble-function.h"],
  [("incremental mark and sweep with frame generations", "lib/value.c IncrGc, MarkRefs"), ("moving values out of a frame", "lib/value.c FblePopFrame, CompactFrame, GcRealloc"), ("calls, tail calls, partial application", "lib/value.c FbleCall, TailCall, PartialApply")],
  ["FbleStructValueField, FbleUnionValueTag, FbleUnionValueArg, FbleFuncValueFunction, FbleNativeValueData", "run function of every function value"],
  "GC pacing, frame merging and chunk size hooks (FBLE_SIM)")

p("C02", "Garbage is reclaimed and native data finalized exactly once",
  "The destructor of a native value runs exactly once: never while the value is reachable, at the latest when the heap is freed. A full garbage collection frees everything that is unreachable, and ordinary allocation reclaims any unreachable value within a number of allocations bounded by the size of the heap. Freeing the heap at any point of any history releases all of its memory.",
  ["histories", "schedules"], "all histories of heap operations, including aborted calls and heaps freed with frames still open, followed by a bounded number of fault-free allocations",
  "Tests observe memory only through a few constant-memory programs; nothing counts destructor runs, and leaks of single values or of interrupted collection cycles do not show in peak-memory comparisons.",
  ["lib/value.c", "lib/alloc.c", "include/fble/fble-value.h"],
  [("free list and collection cycles", "lib/value.c IncrGc, FbleValueFullGc"), ("heap teardown", "lib/value.c FbleFreeValueHeap"), ("native values", "lib/value.c FbleNewNativeValue, FreeGcValue")],
  ["on_free callbacks", "total bytes allocated through the fble allocator"], "as C01")

p("C03", "Tail-recursive loops run in bounded memory, deep recursion in proportion",
  "A loop written with tail calls to recursively defined functions uses an amount of memory that does not grow with the number of iterations, as long as the values it carries do not grow, no matter how much garbage each iteration makes or how the loop is spread over mutually recursive functions, arguments and local definitions. Recursion that is not a tail call uses memory at most proportional to its depth.",
  ["programs", "histories"], "randomly generated loop bodies and loop shapes, iteration counts N and several multiples of N, with and without profiling, interpreted and compiled",
  "The suite has a handful of memory-constant programs with one shape each and a fixed iteration count; retention depends on the combination of shape, captured variables, frame merging and GC pacing.",
  ["lib/value.c", "lib/interpret.c", "lib/code.c", "lib/compile.c", "spec/fble.fbld"],
  [("frame compaction on tail calls", "lib/value.c CompactFrame, TailCall"), ("tail call and release of variables", "lib/compile.c, lib/interpret.c tail call instruction")],
  ["peak bytes allocated (FbleMaxTotalBytesAllocated)"], None)

p("C04", "A program computes the value the language defines under every schedule",
  "Evaluating a well-typed program yields exactly the value that the language definition gives it, and calls functions supplied by the application exactly as many times and with the same arguments as the definition says. The result does not depend on garbage collection, frame or stack-chunk scheduling, on whether profiling is on and when samples are taken, or on whether the program is interpreted or compiled to C.",
  ["programs", "schedules", "configurations"], "random well-typed multi-module programs with data types, closures, partial and over-application, mutual recursion, recursive data, polymorphism, and random schedules for each",
  "Spec tests are small programs checked against themselves under one schedule; they do not compare engines with a reference on programs that combine features, nor perturb memory management while they run.",
  ["lib/compile.c", "lib/interpret.c", "lib/c.c", "lib/value.c", "lib/typecheck.c", "lib/link.c", "spec/fble.fbld"],
  [("bytecode compiler", "lib/compile.c"), ("interpreter", "lib/interpret.c"), ("C code generator", "lib/c.c"), ("value representation", "lib/value.c")],
  ["FbleEval, FbleApply results", "calls of application functions"], "as C01")

p("C05", "Runtime errors are reported, contained, and leave nothing behind",
  "When evaluation meets a runtime error - a wrong union field, an undefined recursive value, an application function that fails at any of its calls - evaluation stops, the result is 'no value', an error naming a source location is printed, and no further application function is called on behalf of that evaluation. The heap stays usable: values made before are intact, later evaluations give correct results, and freeing everything leaves no memory behind.",
  ["programs", "fault_sequences", "schedules"], "random programs with errors at random places, application function failures injected at every call index, under random GC and frame schedules and with both engines",
  "Each runtime-error spec test has one error at one place and exits the process straight afterwards; unwinding from deep calls with live temporaries, and what happens to the heap afterwards, is not looked at.",
  ["lib/interpret.c", "lib/c.c", "lib/value.c", "lib/compile.c"],
  [("abort paths", "lib/interpret.c and lib/c.c abort instructions"), ("unwinding frames", "lib/value.c FbleCall, TailCall, FblePopFrame")],
  ["FbleEval, FbleApply results", "stderr", "allocator totals"], "as C01")

p("C06", "Profiles account for every call and every unit of time exactly once",
  "In a profile, the count of each function and of each caller-callee pair is the number of times it was entered - also through partial application, over-application, tail calls and application functions. Sampled time goes to the function running when it was spent and, once each, to every function and call then in progress, however often a recursion repeats them. The printed report lists every block with exactly these numbers, and callers and callees agree.",
  ["histories", "schedules"], "random sequences of enter, replace, exit and explicit samples over many blocks and deep, recursive stacks; random sample clocks",
  "Profile tests check a few fixed histories, and sampling is driven by a random clock which the tests can only bound loosely.",
  ["lib/profile.c", "include/fble/fble-profile.h"],
  [("call and sample stacks", "lib/profile.c FbleProfileEnterBlock, FbleProfileReplaceBlock, FbleProfileExitBlock"), ("random sampling", "lib/profile.c FbleProfileRandomSample"), ("calls of blocks", "lib/value.c FbleCall, TailCall; lib/interpret.c; lib/c.c"), ("report", "lib/profile.c FbleGenerateProfileReport")],
  ["FbleProfile contents", "FbleGenerateProfileReport output"], "rand is replaced at link time")

p("C08", "Standard I/O programs read exactly the bytes their input contains",
  "A program reading standard input or a file receives exactly the bytes of that input, in order and once each, followed by end of input, however the operating system splits the data into reads. A read that fails is never turned into bytes that were not in the input, and each stream keeps its own position when several are read in turn.",
  ["inputs", "schedules", "fault_sequences"], "all byte contents including 0 and 255, arbitrary read chunking, interrupted reads and read errors at any offset, several streams interleaved",
  "Tests feed short text inputs through pipes; byte values, read boundaries and failures are not varied.",
  ["pkgs/core/stdio.fble.c", "pkgs/core/Core/Stdio"],
  [("input stream functions", "pkgs/core/stdio.fble.c IStream"), ("int and string conversion", "pkgs/core/int.fble.c, pkgs/core/string.fble.c")],
  ["data delivered to the program"], None)

p("C09", "Output is written in order, completely and promptly, at every crash point",
  "Bytes a program writes to an output stream have been handed to the operating system, in order and unmodified, before the program takes its next step on any stream, so a crash at any moment loses nothing the program had already written and never shows bytes it did not write. What was written before an error or abort stays written.",
  ["histories", "crash_points", "fault_sequences"], "random programs writing to standard output, standard error and files, crash at every operating system call, short writes, write errors, full disks",
  "Tests compare complete output after a normal exit; buffering mistakes only show when the process dies or a second stream is watched at the same time.",
  ["pkgs/core/stdio.fble.c"],
  [("output stream functions", "pkgs/core/stdio.fble.c OStream"), ("exit path", "pkgs/core/stdio.fble.c FbleStdioMain")],
  ["bytes accepted by the file layer, in event order"], None)

p("C10", "File handles are opened, reported and closed exactly once; exit status is true",
  "Opening a file for reading or writing gives the program a stream exactly if the operating system opened it and 'nothing' otherwise; every opened file is closed exactly once, when its stream becomes unreachable or at the latest when the program ends, and never while the program can still use it. The exit status of a program is success exactly if its main function completed and returned true, and otherwise says whether it returned false, was used wrongly, or failed in any other way.",
  ["histories", "fault_sequences", "schedules"], "random programs opening, using, dropping and re-opening files with open failures, close errors, runtime errors and bad arguments, under random GC schedules",
  "Tests open one or two files that exist; handle leaks, double closes and premature closes depend on when garbage collection runs.",
  ["pkgs/core/stdio.fble.c", "pkgs/core/fble-stdio.c"],
  [("stream destructors", "pkgs/core/stdio.fble.c OnFree"), ("open", "pkgs/core/stdio.fble.c Read, Write"), ("exit status", "pkgs/core/stdio.fble.c FbleStdioMain")],
  ["open and close events of the file layer", "exit status"], "as C01")

p("C11", "A program is loaded whole or not at all",
  "Loading a program reads every module it needs exactly once, each after the modules it depends on and with the main module last, and yields exactly the program its files contain. If a module is missing, unreadable, cyclic, cut short by a read error, or invalid, loading fails with an error message and without a result, leaking nothing - it never succeeds with part of a file.",
  ["inputs", "fault_sequences"], "random module graphs with shared, nested, private and cyclic dependencies; files missing, vanishing, unreadable, read in arbitrary pieces or failing to be read at any byte offset",
  "The tests load intact files from a healthy disk.",
  ["lib/load.c", "lib/parse.y"],
  [("module stack and cycle detection", "lib/load.c FbleLoad"), ("lexer input", "lib/parse.y")],
  ["FbleLoad result, value of the loaded program, stderr, allocator totals"], None)

p("C12", "Search path order, package lookup and build dependencies are exact",
  "A module comes from the first directory of the search path that has it, a package from the first location of the package path that has it, and never from a later one or from the wrong place. The recorded build dependencies are exactly what the outcome depended on: every file that was read, each usable as written by a build tool, so that changing any file that influenced the result triggers a rebuild.",
  ["configurations", "inputs", "fault_sequences"], "random sets of directories, packages, environment settings and file placements, with files that vanish or cannot be opened",
  "Tests use one directory layout; precedence only matters when the same module exists in several places.",
  ["lib/load.c"],
  [("search path", "lib/load.c Find, FbleNewSearchPath"), ("package path", "lib/load.c FbleFindPackage"), ("depfile", "lib/load.c FbleSaveBuildDeps")],
  ["modules loaded, build_deps, text of the depfile"], None)

p("C13", "Command line tools succeed only if their complete output was delivered",
  "When fble-compile, fble-deps, fble-disassemble or fble-perf-profile exit with success, the complete and correct output has reached its destination; when arguments are wrong they exit with the usage status, and when the input cannot be read or loaded, or any write or flush of the output fails, they exit with failure (except that fble-deps, as documented, lists the files of a module that cannot be loaded). Output does not depend on how reads and writes are split, the generated code is accepted by the compiler or assembler it is made for, and the depfile lists each file that was read once.",
  ["inputs", "fault_sequences", "configurations"], "random programs and argument lists, write errors and full disks at every offset, short writes, denied opens, vanishing and damaged files, read errors",
  "The tests run the tools only with working output streams.",
  ["bin/fble-compile.c", "bin/fble-deps.c", "bin/fble-disassemble.c", "bin/fble-perf-profile.c", "lib/c.c", "lib/aarch64.c", "lib/arg-parse.c"],
  [("exit status", "bin/*.c main"), ("generated output", "lib/c.c, lib/aarch64.c, lib/code.c")],
  ["exit status and bytes delivered"], None)

p("C14", "The profile converter maps any sample stream to a consistent profile",
  "For every stream of stack samples, however it is split into lines and reads, the converter terminates without memory errors and its report accounts each sample once: totals equal the weight of the samples, and each function and call sequence gets what the samples say. A stream cut off at any point yields the report of the complete samples before it or an error, and a sample whose weight cannot be read is refused.",
  ["inputs", "fault_sequences"], "random and malformed streams: long lines at buffer boundaries, blank lines, missing fields, deep and recursive stacks, no final newline, truncation, read errors",
  "There is one small test input.",
  ["bin/fble-perf-profile.c", "lib/profile.c"],
  [("line reader", "bin/fble-perf-profile.c GetLine"), ("sample parser", "bin/fble-perf-profile.c")],
  ["exit status and report"], None)

p("C15", "The document processor is all-or-nothing under input and output faults",
  "fbld either processes the whole of its input files and delivers the complete output, exiting with success, or reports an error and exits with failure; its output does not depend on how its input is split into reads. Input cut off by a read error is never processed as if it were complete, malformed documents and failing commands nested in any way are reported without a crash, and processing terminates.",
  ["inputs", "fault_sequences"], "random documents over all commands and quoting forms, truncations and corruptions, several input files, read and write errors at every offset",
  "The tests are intact documents on healthy files.",
  ["fbld/fbld.c", "fbld/parse.c", "fbld/eval.c", "fbld/markup.c"],
  [("input", "fbld/parse.c"), ("evaluation", "fbld/eval.c"), ("output and exit status", "fbld/fbld.c")],
  ["exit status and bytes delivered"], None)

p("C21", "The document processor computes what the fbld specification defines",
  "For every document in the documented syntax, fbld outputs exactly the text the specification defines: an argument means the same in whichever syntax it is written (inline, literal, same line, next line, final, continued) and at whichever indentation; definitions, variables, comparisons, head, tail, eval and plain follow their documented meaning with lexically scoped names; undefined commands stay as they are until defined and are an error only if they remain; any error in a part of the document that is evaluated makes processing fail. It does not matter how the document is divided into files and reads.",
  ["inputs", "schedules"], "random documents nested to any depth over all commands and all syntaxes for arguments, recursion, shadowing, late definition; random division into files and reads",
  "The specification tests are some fifty short documents, each with one feature; combinations of syntaxes, nesting and scoping, and divisions of the input, are not sampled.",
  ["fbld/parse.c", "fbld/eval.c", "fbld/markup.c", "fbld/fbld.fbld"],
  [("parsing of inline and block text", "fbld/parse.c"), ("evaluation", "fbld/eval.c Eval"), ("markup", "fbld/markup.c")],
  ["bytes written to standard output, exit status"], None)

p("C16", "Interactive programs see every event once and in order, and keep time",
  "An interactive program's handler is called exactly once for each input event the platform delivers, in delivery order and with its content, and effects it requests are carried out once and in order. A timer the program sets fires exactly once, not before its time even if the clock jumps or wraps, and the program ends when it asks to or when the platform fails, without losing or duplicating events.",
  ["schedules", "histories", "fault_sequences"], "random event streams and programs with stubbed display, event queue and clock: delays, bursts, unknown events, clock wrap, platform call failures",
  "The interactive parts are not run by any test.",
  ["pkgs/app/app.c"],
  [("event loop", "pkgs/app/app.c"), ("timers", "pkgs/app/app.c"), ("effects", "pkgs/app/app.c")],
  ["calls into the display and event stubs, events delivered to the program"], None)

p("C17", "The front end survives any source text",
  "For every sequence of bytes given as source, the compiler front end terminates and either produces a program or reports an error that names a place in that source; it never crashes, corrupts memory, or leaks. Reporting an error leaves the process able to compile the next program correctly.",
  ["inputs", "fault_sequences"], "random valid programs with truncations, bit flips, token deletions, duplications, swaps, splices between programs and modules, at every stage of the pipeline",
  "Compile-error tests each hold one hand-written mistake; error recovery paths for combinations and for damaged text are not run, and nothing checks leaks or the state afterwards.",
  ["lib/parse.y", "lib/typecheck.c", "lib/type.c", "lib/compile.c", "lib/load.c"],
  [("error recovery", "lib/parse.y, lib/typecheck.c"), ("type heap", "lib/type-heap.c")],
  ["result, stderr, allocator totals"], None)

p("C18", "Ill-typed programs are rejected",
  "Every program that is not well typed under the language definition is rejected before it runs, and every well-typed one is accepted.",
  ["programs"], "all programs", "There are infinitely many programs; the spec tests list a few hundred.",
  ["lib/typecheck.c", "lib/type.c", "lib/kind.c", "spec/fble.fbld"], [("type checker", "lib/typecheck.c")])
p("C19", "The aarch64 back end does what the interpreter does",
  "For every program that compiles, the code generated for aarch64 assembles, follows the procedure call standard (stack aligned and restored, callee-saved registers kept, only specified parts of results used), and gives the same value, the same error messages at the same locations, the same calls of application functions in the same order and the same profile as the interpreter, on every collector and frame schedule. The generated main function passes its arguments and the module to the given function and returns its result.",
  ["programs", "schedules", "fault_sequences"], "random well-typed programs of up to three modules, with and without run-time errors, failing application functions, and programs with thousands of variables, arguments, fields, tags, elements, captured variables, functions and instructions at lines and columns beyond 16 bits",
  "The back end is only exercised when the tests run on an aarch64 machine, and then on small programs.",
  ["lib/aarch64.c"], [("code generator", "lib/aarch64.c"), ("shared code format", "lib/code.h, lib/compile.c")],
  ["assembly text, instructions executed, native calls, stderr, profile"], None)
p("C20", "The core library's operations agree with their documented meaning",
  "For every history of operations on the core library's values - integers, characters, strings, lists, maps, sets, fifos, bit sequences, checksums, shift registers, Maybe, iterators, orderings and their text form - each operation returns the result its documentation defines, and every value made earlier stays what it was. Numbers of up to 120 bits are exact; division rounds so that the remainder is smaller than the divisor; maps and sets behave as finite maps in key order whatever the order of insertions and deletions. This holds on every collector and frame schedule.",
  ["histories", "inputs", "schedules"], "random histories of some hundred operations of 92 kinds over a shared pool of values, old versions reused, initial data read through the library's streams; random collector schedules, frame merging and stack chunks",
  "Each function is tested on a few arguments, once; balancing, deletion and sharing of persistent structures depend on the history that built them.",
  ["pkgs/core/Core"], [("numbers", "pkgs/core/Core/Int"), ("maps", "pkgs/core/Core/Map.fble"), ("lists and strings", "pkgs/core/Core/List.fble, pkgs/core/Core/String"), ("fifo", "pkgs/core/Core/Fifo.fble"), ("checksums", "pkgs/core/Core/CRC, pkgs/core/Core/LFSR.fble")],
  ["the text the program prints, exit status"], None)
p("C22", "The shipped programs do what their descriptions say",
  "For every input, argument list and state of the files they name, the programs that come with fble - md5 sums, cat, the satisfiability solver, tic-tac-toe, life, the sudoku solver, reverse-complement, fannkuch, pidigits, binary trees and the hardware simulator - write exactly the text their descriptions define and nothing else, report every file they cannot read, exit with the documented status and end. It does not matter in which portions input arrives, nor when the collector runs. A satisfiability answer is right (an assignment satisfies the formula; unsatisfiable means no assignment does); a simulated circuit takes exactly the step its equations define.",
  ["inputs", "schedules", "fault_sequences"], "random inputs of each program, empty and at block boundaries included; random portions, missing and unreadable files, collector and frame schedules",
  "The tests run each program on one or two fixed inputs, some never.",
  ["pkgs/md5", "pkgs/sat", "pkgs/games", "pkgs/hwdg", "pkgs/core/Core/Stdio"], [("md5", "pkgs/md5/Md5"), ("sat", "pkgs/sat/Sat"), ("games and benchmarks", "pkgs/games/Games"), ("hardware simulator", "pkgs/hwdg/Hwdg"), ("cat", "pkgs/core/Core/Stdio/Cat.fble, FastCat.fble")],
  ["bytes on standard output and error, exit status"], None)

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
import sys
bad = [x["id"] for x in P if len(x["title"]) > 80]
print(len(P), "properties", "titles too long: %s" % bad if bad else "")
