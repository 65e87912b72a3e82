#!/usr/bin/env python3
"""Builds the simulators from /repo's working tree and runs one property check.

  check.py build                 build everything (setup_cmd)
  check.py run PROP [--thorough] run the check of one property
  check.py replay FILE           replay a violation file in a fresh process
"""
import sys, os, re, json, time, hashlib, subprocess, shutil, resource, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
R = os.environ.get("SIM_REPO", "/repo")
BUILD = os.path.join(V, "build")
SIM = os.path.join(V, "sim")
REPLAYS = os.path.join(V, "replays")
CC = "gcc"
CFLAGS = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address", "-DFBLE_SIM", "-w", "-fno-common"]
WRAPS = ["fopen", "fopen64", "access", "faccessat", "euidaccess", "stat", "lstat", "rand", "srand", "random",
         "getenv", "secure_getenv", "setrlimit", "exit", "abort", "atexit"]
sys.path.insert(0, V)
from props import PROPS, HARNESSES

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def read(p):
    with open(p, "rb") as f: return f.read()

_hdr = None
def headers_hash():
    global _hdr
    if _hdr is None:
        fs = []
        for d in ("include/fble", "lib", "fbld", "bin", "test", "pkgs/core", "pkgs/app"):
            dd = os.path.join(R, d)
            if os.path.isdir(dd):
                fs += [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith(".h")]
        fs += [os.path.join(SIM, f) for f in sorted(os.listdir(SIM)) if f.endswith(".h")]
        _hdr = sha(*[f.encode() + b"=" + read(f) for f in fs])
    return _hdr

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    if p.returncode != 0:
        sys.stderr.write("command failed: %s\n%s\n" % (" ".join(cmd), p.stdout.decode(errors="replace")[-6000:]))
        raise SystemExit(3)
    return p.stdout

def generated():
    """Generated sources the repository's own build would make."""
    g = os.path.join(BUILD, "gen")
    os.makedirs(g, exist_ok=True)
    y = read(os.path.join(R, "lib/parse.y"))
    stamp = os.path.join(g, "parse.stamp")
    h = sha(y)
    if not (os.path.exists(stamp) and read(stamp).decode() == h):
        run(["bison", "-o", os.path.join(g, "parse.tab.c"), os.path.join(R, "lib/parse.y")])
        open(stamp, "w").write(h)
    cfg = '#ifndef SIM_CONFIG_H_\n#define SIM_CONFIG_H_\n'
    for k, v in dict(BINDIR="/sim/bin", BUILDDIR=".", DATADIR="/sim/share", INCLUDEDIR="/sim/include", LIBDIR="/sim/lib", PREFIX="/sim", SRCDIR="..").items():
        cfg += '#define FBLE_CONFIG_%s "%s"\n' % (k, v)
    cfg += "#endif\n"
    put(os.path.join(g, "config.h"), cfg)
    for n in ("fble-compile", "fble-deps", "fble-disassemble", "fble-perf-profile", "fble-stdio", "fble-app", "fble-test", "fble-mem-test", "fble-profiles-test"):
        put(os.path.join(g, n + ".usage.h"), 'static const unsigned char fbldUsageHelpText[] = "usage: %s (simulated help text)\\n";\n' % n)
    return g

def put(p, s):
    if os.path.exists(p) and read(p).decode() == s: return
    open(p, "w").write(s)

def obj(src, extra, gen):
    std = ["-std=gnu11"] if src.startswith(SIM + os.sep) else ["-std=c99"]
    flags = std + CFLAGS + extra + ["-I" + os.path.join(R, "include"), "-I" + gen, "-I" + SIM]
    key = sha(src, read(src), " ".join(flags), headers_hash(), read(os.path.join(gen, "config.h")), *[read(os.path.join(SIM, m.decode())) for m in re.findall(rb'#include "(\w+\.c)"', read(src))])
    o = os.path.join(BUILD, "obj", "%s-%s.o" % (os.path.basename(src).replace(".", "_"), key))
    if not os.path.exists(o):
        t = o + ".%d.tmp" % os.getpid()
        run([CC] + flags + ["-c", src, "-o", t])
        os.rename(t, o)
    return o

def globc(d):
    dd = os.path.join(R, d)
    return [os.path.join(dd, f) for f in sorted(os.listdir(dd)) if f.endswith(".c")]

def groups(gen):
    core = [f for f in globc("pkgs/core") if f.endswith(".fble.c")]
    return {
        "lib": [(f, ["-I" + os.path.join(R, "lib")]) for f in globc("lib") + [os.path.join(gen, "parse.tab.c")]],
        "core": [(f, ["-I" + os.path.join(R, "pkgs/core")]) for f in core],
        "bin": [(f, ["-Dmain=" + os.path.basename(f)[:-2].replace("-", "_") + "_main"]) for f in globc("bin")],
        "fbld": [(f, ["-I" + os.path.join(R, "fbld")] + (["-Dmain=fbld_main"] if f.endswith("/fbld.c") else [])) for f in globc("fbld")],
        "app": [(os.path.join(R, "pkgs/app/app.c"), ["-I" + os.path.join(R, "pkgs/core"), "-I" + os.path.join(R, "pkgs/app"), "-I/usr/include/SDL2", "-D_REENTRANT"])],
    }

def build(names=None):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    gen = generated()
    g = groups(gen)
    out = {}
    with ThreadPoolExecutor(8) as ex:
        plan, jobs = {}, {}
        for h in names or HARNESSES:
            spec = HARNESSES[h]
            srcs = [(os.path.join(SIM, "sim.c"), []), (os.path.join(SIM, "seams.c"), [])]
            srcs += [(os.path.join(SIM, s), ["-I" + os.path.join(R, "lib")] + spec.get("cflags", [])) for s in spec["src"]]
            for k in spec["groups"]: srcs += g[k]
            for s, e in srcs:
                if (s, tuple(e)) not in jobs: jobs[(s, tuple(e))] = ex.submit(obj, s, e, gen)
            plan[h] = [jobs[(s, tuple(e))] for s, e in srcs]
        for h, fs in plan.items():
            objs = [f.result() for f in fs]
            spec = HARNESSES[h]
            key = sha(*objs, " ".join(spec.get("ldflags", [])), " ".join(WRAPS))
            exe = os.path.join(BUILD, "%s-%s" % (h, key))
            if not os.path.exists(exe):
                t = exe + ".%d.tmp" % os.getpid()
                run([CC, "-fsanitize=address", "-rdynamic", "-o", t] + objs + ["-Wl,--wrap=" + w for w in WRAPS] + spec.get("ldflags", []) + ["-lm", "-ldl"])
                os.rename(t, exe)
            out[h] = exe
    # Only the current binaries and objects are kept.
    if names is None:
        keep = set(out.values())
        for f in os.listdir(BUILD):
            p = os.path.join(BUILD, f)
            if os.path.isfile(p) and p not in keep: os.unlink(p)
    return out

def env(tmp):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "exitcode=99:detect_leaks=0:abort_on_error=0:detect_stack_use_after_return=0:allocator_may_return_null=0:handle_segv=1:max_malloc_fill_size=1048576:malloc_fill_byte=190:free_fill_byte=222:max_free_fill_size=4096:quarantine_size_mb=16:malloc_context_size=4:print_summary=1:fast_unwind_on_malloc=1:use_sigaltstack=1"
    e["SIM_TMP"] = tmp
    e["SIM_REPO"] = R
    e["SIM_GEN"] = os.path.join(BUILD, "gen")
    e["LC_ALL"] = "C"
    return e

def limits():
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (512 << 20, 512 << 20))
    except Exception:
        pass

def scratch():
    return tempfile.mkdtemp(prefix="fblesim-", dir="/tmp")

def aslr_off(cmd):
    return cmd

def check(prop, thorough):
    t0 = time.time()
    spec = PROPS[prop]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    exe = build([spec["harness"]])[spec["harness"]]
    tb = time.time() - t0
    tmp = scratch()
    try:
        stats = os.path.join(tmp, "stats.json")
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--stats", stats, "--out", REPLAYS,
               "--jobs", str(spec.get("jobs", 8)), "--time", str(spec.get("thorough_s", 780) if thorough else spec.get("quick_s", 240)), "--shrink", "30"]
        if thorough: cmd.append("--thorough")
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env(tmp), preexec_fn=limits)
        out = p.stdout.decode(errors="replace"); err = p.stderr.decode(errors="replace")
        sys.stdout.write(out); sys.stderr.write(err[-4000:])
        st = json.load(open(stats)) if os.path.exists(stats) else {}
        rc = p.returncode
        viol = 0
        m = re.search(r"replay=(\S+)", out)
        if rc == 1 and m:
            # The minimised file has to fail the same way in a fresh process.
            rp = subprocess.run([exe, "--prop", prop, "--replay", m.group(1)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(tmp), preexec_fn=limits)
            if rp.returncode == 1:
                viol = 1
            else:
                sys.stderr.write("replay of %s did not reproduce: %s\n" % (m.group(1), rp.stdout.decode(errors="replace")))
                rc = 3
        wall = time.time() - t0
        runs = st.get("runs", 0); sw = max(st.get("search_wall_s", 0), 1e-3)
        ev = {
            "property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": spec["level"],
            "coverage": {
                "evaluations": runs, "distinct_nontrivial": st.get("distinct_nontrivial", 0), "rule": spec["rule"],
                "samples": st.get("samples", []),
                "runs_per_hour": round(runs * 3600 / sw), "seeds": runs, "seeds_per_hour": round(runs * 3600 / sw),
                "simulated_seconds": st.get("simulated_us", 0) / 1e6,
                "faults_injected": st.get("faults", {}), "probes_hit": st.get("probes", {}), "counters": st.get("counters", {}),
                "distinct_states": st.get("states", 0), "distinct_states_measure": spec["states"],
                "determinism": {"runs_repeated_in_fresh_process": st.get("determinism_checked", 0), "mismatches": st.get("determinism_mismatched", 0)},
                "worker_processes": st.get("jobs", 0), "build_s": round(tb, 1),
                "real_components": spec["real"], "stubbed_components": spec["stub"],
            },
            "assumptions": spec.get("assumptions", []), "wall_s": round(wall, 2), "violations": viol,
        }
        os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
        with open(os.path.join(V, "evidence", prop + ".json"), "w") as f: json.dump(ev, f, indent=1)
        for k in known(prop): print("KNOWN-FINDING: property=%s %s" % (prop, k))
        if viol:
            print("VIOLATION property=%s replay=%s" % (prop, m.group(1)))
            return 1
        return 0 if rc == 0 else 3
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def known(prop):
    p = os.path.join(V, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r"known: property=(\S+) (.*)", l.strip())
            if m and m.group(1) == prop: out.append(m.group(2))
    return out

def main():
    a = sys.argv[1:]
    if a[0] == "build":
        for h, e in build().items(): print(h, e)
        return 0
    if a[0] == "exe":
        print(build([PROPS[a[1]]["harness"]])[PROPS[a[1]]["harness"]]); return 0
    if a[0] == "run":
        return check(a[1], "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough")
    if a[0] in ("replay", "only"):
        if a[0] == "replay":
            prop = re.search(r"^property (\S+)", open(a[1]).read(), re.M).group(1)
            extra = ["--replay", os.path.abspath(a[1])]
        else:
            prop = a[1]; extra = ["--only", a[2], "--seed", os.environ.get("VERIF_SEED", "1")]
        exe = build([PROPS[prop]["harness"]])[PROPS[prop]["harness"]]
        tmp = scratch()
        try:
            return subprocess.run([exe, "--prop", prop] + extra + (["--trace"] if "--trace" in a else []), env=env(tmp), preexec_fn=limits).returncode
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 3

if __name__ == "__main__":
    sys.exit(main())
