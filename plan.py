"""What each property's check simulates."""

VARIANTS = {
    "x86": {"flags": [], "what": "x86-64, portable reference kernels"},
    "sse4": {"flags": ["-msse4.1"], "what": "x86-64 with the SSE4 kernels"},
    "avx2": {"flags": ["-mavx2", "-mfma", "-DGEMMLOWP_ENABLE_AVX2"], "what": "x86-64 with the AVX2 kernels"},
    "a64": {"flags": [], "prefix": "aarch64-linux-gnu-", "run": ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"],
            "what": "AArch64 with the NEON kernels, under qemu user emulation"},
    "win": {"flags": ["-D_WIN32", "-I@verif/sim/win"], "what": "x86-64, portable kernels, the library's own thread layer on top of C++11 threads (as built for Windows)"},
    "winsse": {"flags": ["-D_WIN32", "-I@verif/sim/win", "-msse4.1"], "what": "as above, with the SSE4 kernels"},
    "a32": {"flags": ["-march=armv7-a", "-mfpu=neon"], "prefix": "arm-linux-gnueabihf-", "run": ["qemu-arm", "-L", "/usr/arm-linux-gnueabihf"],
            "what": "32-bit ARM with the NEON kernels, under qemu user emulation"},
    "prof": {"flags": ["-DGEMMLOWP_PROFILING"], "what": "x86-64, portable kernels, profiling compiled in"},
    "profsse": {"flags": ["-DGEMMLOWP_PROFILING", "-msse4.1"], "what": "x86-64 with the SSE4 kernels, profiling compiled in"},
    "profa64": {"flags": ["-DGEMMLOWP_PROFILING"], "prefix": "aarch64-linux-gnu-", "run": ["qemu-aarch64", "-L", "/usr/aarch64-linux-gnu"],
                "what": "AArch64 with the NEON kernels, profiling compiled in, under qemu user emulation"},
}

GEMM_SRC = ["gemm.cc"] + ["combo%d.cc" % i for i in range(1, 8)]
SCENARIOS = {
    "pool": {"src": ["pool.cc"], "sym": "kScenPool"},
    "eight": {"src": ["eight.cc", "@repo/eight_bit_int_gemm/eight_bit_int_gemm.cc"], "sym": "kScenEight"},
    "fault": {"src": ["fault.cc", "combo1.cc", "@repo/eight_bit_int_gemm/eight_bit_int_gemm.cc"], "sym": "kScenFault"},
    "counter": {"src": ["counter.cc"], "sym": "kScenCounter"},
    "alloc": {"src": ["alloc.cc"], "sym": "kScenAlloc"},
    "custom": {"src": ["custom.cc", "custom1.cc", "custom2.cc"], "sym": "kScenCustom"},
    "prof": {"src": ["prof.cc", "combo1.cc"], "sym": "kScenProf"},
    "eightm": {"src": ["eightm.cc", "meta_eight.cc"], "sym": "kScenEightM"},
    "meta": {"src": ["meta.cc", "meta_new.cc", "meta_new_a.cc", "meta_new_b.cc", "meta_new_c.cc", "meta_legacy.cc"], "sym": "kScenMeta"},
    "gemm": {"src": GEMM_SRC, "sym": "kScenGemm"},
}

REAL = ["public entry points and dispatch", "thread pool, workers, blocking counter, waits", "packing, kernels, unpacking, output pipeline",
        "scratch allocator", "libstdc++", "one real POSIX thread per simulated thread, released one at a time"]
STUB = ["pthread mutexes, condition variables, thread creation and join (simulated, same contract)", "nanosleep and clocks (virtual time)",
        "malloc/free (simulated heap with redzones)", "number of processors (drawn per run)", "hardware memory order (stale atomic loads drawn from the visible history)"]
RULE = ("each run draws a workload, a scheduling policy and a fault mix from its seed; a run is non-trivial when it had at least one context switch "
        "or injected fault and its sequence of synchronisation events was not seen before")
ASSUME = ["plain memory accesses are sequentially consistent within the simulator; weak memory is modelled for atomics, and every plain access pair "
          "is checked for a data race instead", "inline-assembly kernels are single simulated steps"]


def P(classes, jobs, **kw):
    d = {"classes": classes, "jobs": [{"variant": v, "scens": s, "workers": n} for v, s, n in jobs], "rule": RULE, "real": REAL, "stub": STUB, "assumptions": ASSUME}
    d.update(kw)
    return d

META_STUB = STUB + ["x86 builds only: the fast path's NEON assembly (packing, multiplication and transform kernels), replaced by portable code with the same contract"]
META_ASSUME = ASSUME + ["the fast path is used within its documented range: depth at most 2048 levels, operands in the layouts it accepts"]

PLAN = {
    "C01": P(["result", "crash", "abort", "hang"], [("x86", ["gemm"], 2), ("sse4", ["gemm"], 2), ("avx2", ["gemm"], 2), ("a64", ["gemm"], 1), ("a32", ["gemm"], 1)]),
    "C02": P(["mem", "crash"], [("x86", ["gemm"], 2), ("sse4", ["gemm"], 2), ("avx2", ["gemm"], 2), ("a64", ["gemm"], 1), ("a32", ["gemm"], 1)]),
    "C03": P(["exactly-once", "result", "allocator", "race", "mem", "misuse", "crash", "abort", "hang"], [("x86", ["pool"], 6), ("a64", ["pool"], 1), ("a32", ["pool"], 1)]),
    "C04": P(["hang", "crash", "abort"], [("x86", ["pool", "gemm"], 5), ("avx2", ["gemm"], 2), ("a64", ["pool", "gemm"], 1)]),
    "C05": P(["race", "misuse"], [("x86", ["pool", "gemm"], 4), ("sse4", ["gemm"], 1), ("avx2", ["gemm"], 2), ("a64", ["gemm"], 1)]),
    "C06": P(["result", "race", "mem", "misuse", "crash", "abort", "hang"], [("x86", ["eight"], 3), ("sse4", ["eight"], 2), ("avx2", ["eight"], 1), ("a64", ["eight"], 1), ("a32", ["eight"], 1)]),
    "C10": P(["result", "hang", "crash", "abort", "mem", "misuse", "teardown"], [("x86", ["fault"], 4), ("sse4", ["fault"], 2), ("avx2", ["fault"], 2)]),
    "C07": P(["teardown", "leak", "mem", "misuse", "crash", "abort", "hang"], [("x86", ["pool", "gemm", "eight"], 4), ("sse4", ["gemm", "eight"], 2), ("avx2", ["gemm", "eight"], 1), ("a64", ["pool", "eight"], 1)]),
    "C17": P(["growth", "threads", "hang", "crash", "abort"], [("x86", ["pool", "gemm", "eight"], 4), ("sse4", ["gemm", "eight"], 2), ("avx2", ["gemm", "eight"], 1), ("a64", ["pool", "eight"], 1)]),
    "C18": P(["idle", "hang", "crash", "abort"], [("x86", ["pool", "gemm", "eight"], 4), ("sse4", ["gemm", "eight"], 2), ("avx2", ["gemm", "eight"], 1), ("a64", ["pool", "eight"], 1)]),
    "C09": P(["result", "mem", "race", "misuse", "crash", "abort", "hang"], [("x86", ["gemm"], 2), ("sse4", ["gemm"], 2), ("avx2", ["gemm"], 3), ("a64", ["gemm"], 1)]),
    "C08": P(["threads"], [("x86", ["gemm", "pool", "eight"], 3), ("sse4", ["gemm", "eight"], 2), ("avx2", ["gemm", "custom"], 2), ("a64", ["gemm", "eight"], 1)]),
    "C11": P(["counter", "hang", "race", "mem", "misuse", "crash", "abort"], [("x86", ["counter"], 6), ("a64", ["counter"], 1), ("a32", ["counter"], 1)]),
    "C15": P(["allocator", "mem", "leak", "misuse", "crash", "abort", "race"], [("x86", ["alloc"], 5), ("a64", ["alloc"], 1), ("a32", ["alloc"], 2)]),
    "C12": P(["result", "race", "mem", "allocator", "misuse", "threads", "crash", "abort", "hang"], [("x86", ["custom"], 3), ("sse4", ["custom"], 2), ("avx2", ["custom"], 2), ("a64", ["custom"], 1)]),
    "C14": P(["result", "race", "mem", "leak", "misuse", "threads", "teardown", "crash", "abort", "hang"], [("x86", ["meta"], 3), ("x86", ["eightm"], 1), ("a64", ["meta"], 1), ("a64", ["eightm"], 1), ("a32", ["meta"], 1), ("a32", ["eightm"], 1)],
             stub=META_STUB, assumptions=META_ASSUME, real=["fast path: splitting into tasks, executors, scratch layout, older wrappers, 8-bit interface dispatch", "NEON assembly (AArch64 and 32-bit ARM builds)", "thread pool, workers, blocking counter, waits", "libstdc++"]),
    "C16": P(["exactly-once", "result", "race", "mem", "leak", "misuse", "teardown", "threads", "counter", "crash", "abort", "hang"],
             [("win", ["pool", "gemm", "eight", "counter", "custom"], 5), ("winsse", ["gemm", "eight", "fault"], 3)]),
    "C13": P(["profile", "result", "race", "mem", "leak", "misuse", "crash", "abort", "hang"], [("prof", ["prof"], 4), ("profsse", ["prof"], 3), ("profa64", ["prof"], 1)]),
}
