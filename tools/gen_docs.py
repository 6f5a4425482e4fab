#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from plan import PLAN

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, level_note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe, level_note=level_note, na=na))


prop("C01", "A product is exact whatever the schedule, thread count and cache settings",
     "For every valid call, every element of the result matrix equals the value the documentation defines: the exact integer product of the offset operands, passed through the requested output stages. "
     "It is bit-for-bit the same whatever the thread limit, the cache-size settings, the number of processors and the interleaving of the threads computing it. "
     "It holds for all storage orders, strides, shapes (also empty and one-column ones), scalar or per-channel offsets and the available processor-specific back ends.",
     ["schedules", "inputs", "configurations"], "every operand shape, layout, offset and output pipeline x thread limit x cache settings x processor count x interleaving x weak-memory outcome",
     "The tests compare a few hundred shapes with a reference on whatever schedule the machine happens to produce, with few thread counts; they never choose an interleaving, and default cache settings hide most blocking paths.",
     ["public/gemmlowp.h", "internal/dispatch_gemm_shape.h", "internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "internal/block_params.h", "internal/pack.h", "internal/compute.h", "internal/unpack.h", "internal/output.h"],
     [("rows split among tasks, right-hand side packed once and shared", "internal/multi_thread_gemm.h"), ("block sizes rounded to the kernel format", "internal/block_params.h"), ("packing, kernel, unpacking and output stages", "internal/pack.h")],
     ["result matrix after the call returns"])
prop("C02", "A product touches only the caller memory its arguments describe",
     "A call writes nothing of the caller's but the elements of the result matrix and reads nothing of the caller's but the elements of its operands, offset vectors and output-stage vectors. "
     "Padding between strided rows or columns, memory before and after the matrices, and the operands themselves stay untouched, at every instant of the call and for every thread taking part in it.",
     ["schedules", "inputs", "configurations"], "every shape, stride, alignment and layout x thread limit x cache settings x interleaving",
     "The tests check results only; an overrun into padding or a neighbour's row is invisible unless it happens to change a compared element at that moment.",
     ["internal/pack.h", "internal/unpack.h", "internal/output.h", "internal/multi_thread_gemm.h", "public/map.h"],
     [("partial blocks copied to zero-padded staging before the kernel sees them", "internal/pack.h"), ("partial result blocks written element by element", "internal/unpack.h")],
     ["per-byte permissions of the caller's buffers"])
prop("C03", "A thread pool runs every task exactly once, complete before the call returns",
     "When a call handing tasks to a thread pool returns, each task has been run exactly once, on a scratch allocator no other running task shares, and everything it wrote is visible to the caller. "
     "Tasks handed over as owned pointers are destroyed exactly once by then; tasks handed over as an array are never destroyed by the pool, and nothing touches them after the call has returned.",
     ["schedules", "histories", "fault_sequences"], "every sequence of task batches and pauses, one or more caller threads taking turns, every interleaving, spurious wake-up and delay",
     "A test runs each batch under one or two schedules the kernel scheduler happens to choose; a lost, repeated or late task needs a preemption between specific instructions.",
     ["internal/multi_thread_gemm.h"], [("worker state machine, blocking counter, per-worker allocator", "internal/multi_thread_gemm.h")],
     ["task bodies and destructors", "memory the tasks write"])
prop("C04", "Every call makes progress: no deadlock, lost wake-up or endless spin",
     "Once the threads of a process are scheduled fairly, every product, every batch of pool tasks and every destruction of a context or pool finishes. "
     "This holds however long any thread was delayed before, including workers that have fallen asleep after a long idle time, spurious wake-ups and late or stale observation of shared variables.",
     ["schedules", "histories", "fault_sequences"], "every history of products, pauses and destructions x every interleaving and delay followed by a fair suffix",
     "Tests that pass show only that the schedules they met terminated; a lost wake-up needs a thread to be descheduled in a window of a few instructions around falling asleep.",
     ["internal/multi_thread_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"], [("wait for a variable change: spin, then sleep on a condition variable under a mutex", "internal/multi_thread_gemm.h")],
     ["every call returns within the step budget after faults stop"])
prop("C05", "Threads computing products never race on memory",
     "Whatever the schedule, no two threads of the library ever access the same memory at the same time without synchronisation when one of them writes, during products, pool batches, creation and destruction. "
     "The same holds between callers that use different contexts, or hand one context to each other under their own lock, and for operands that several callers read at once.",
     ["schedules", "histories", "configurations"], "every history over one or more contexts and caller threads x interleaving",
     "The suite runs without a race detector, on one schedule; on strongly ordered hardware most races never change a compared result.",
     ["internal/multi_thread_gemm.h", "internal/allocator.h", "internal/dispatch_gemm_shape.h"], [("release/acquire on the completion counter, mutex around the worker state", "internal/multi_thread_gemm.h")],
     ["every plain and atomic memory access"])
prop("C06", "The global 8-bit interface is safe to call from any number of threads",
     "The global 8-bit interface may be called from any number of threads at the same time, in any mix of quantised and float products, thread-limit changes and releases of its resources. "
     "Every product still delivers exactly the result its own arguments define, writes nothing else, and every call returns; which other calls overlapped it cannot be told from its result.",
     ["schedules", "histories", "inputs"], "every overlap of products, limit changes and releases from several threads x interleaving",
     "No test calls the global interface from two threads, releases its resources while another thread uses it, or multiplies again after a release under load.",
     ["eight_bit_int_gemm/eight_bit_int_gemm.cc", "eight_bit_int_gemm/eight_bit_int_gemm.h"], [("one global lock around context, scratch buffer and each product", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
     ["results of every call", "shared state of the interface"])
prop("C07", "Destroying a context or pool releases everything, and use can start again",
     "When the destruction of a context or thread pool, or the release of the global interface's persistent resources, returns, every worker thread it started has ended and been joined, and all heap memory, mutexes and condition variables it held are given back, none of them used afterwards or given back twice. "
     "A new context, or the global interface again, then works as the first time; no number of such cycles accumulates anything.",
     ["schedules", "histories"], "every history of use, idling, destruction and reuse x interleaving (workers caught starting, spinning, working or asleep)",
     "Process exit hides leaked workers, and the tests never destroy a pool while its workers are in a chosen state; leaks and late accesses do not fail a test.",
     ["internal/multi_thread_gemm.h", "internal/allocator.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"], [("exit state, join in the worker's destructor, pool deletes its workers", "internal/multi_thread_gemm.h")],
     ["threads, heap blocks and synchronisation objects alive after destruction"])
prop("C08", "The thread limit is respected and worker threads are reused",
     "A product is never computed by more threads, the caller included, than the context's current limit, where a limit of zero means the number of processors. "
     "The library creates a worker only when the limit (or the number of tasks handed to a pool) needs more workers than the pool already holds, so workers are reused for the life of the pool, and a limit of one creates no thread at all.",
     ["histories", "configurations", "schedules"], "every history of limit changes and products of all sizes x processor count x interleaving",
     "The tests set a limit and look at the result only; how many threads were created or wrote the result is never observed.",
     ["internal/multi_thread_gemm.h", "public/gemmlowp.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"], [("thread count from limit, result size and work; pool grows only when short", "internal/multi_thread_gemm.h")],
     ["thread creations", "threads that wrote the result"])
prop("C09", "A result does not depend on what the context did before or what others do",
     "The result of a call is a function of its own arguments: it is the same on a new context and on one with any history of other products, shapes, bit depths, output stages, thread limits and cache settings. "
     "Contexts are isolated from each other: products running at the same time on different contexts influence neither each other's results nor each other's memory, and a context may move from thread to thread between calls.",
     ["histories", "schedules", "configurations"], "every history of calls and setting changes on one or more contexts and threads x interleaving",
     "Tests reuse one context in one fixed order; left-over scratch contents, stale packed data or shared state between contexts need particular sequences of sizes and overlaps.",
     ["internal/allocator.h", "internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "internal/pack.h"], [("scratch memory reserved and committed anew by every product, sums and padding reset while packing", "internal/pack.h")],
     ["result of every product of a history against the model"])
prop("C10", "Running out of memory or threads never corrupts, hangs or loses silently",
     "When an allocation or the creation of a worker thread fails at any point, the call either still delivers the exact result, or reports the failure by an exception or by ending the process with a diagnostic. "
     "It never returns with a wrong result, never blocks forever, and never damages memory; after an exception, destroying the context still ends in bounded time without a worker left behind.",
     ["fault_sequences", "schedules", "histories"], "every single or lasting failure of an allocation or thread creation at every point of a history x interleaving",
     "No test injects a failure; the paths exist only under memory or thread exhaustion.",
     ["internal/allocator.h", "internal/multi_thread_gemm.h", "internal/common.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"], [("release-build assertion on failed allocation and thread creation; room in the worker list made first", "internal/multi_thread_gemm.h")],
     ["outcome of each call after an injected failure"])
prop("C11", "A counter wait ends exactly when the last decrement has happened",
     "Waiting on a completion counter returns only after as many decrements as its initial value have happened, always returns once they have, and makes everything the decrementing threads did before visible; exactly one decrement is told that it was the last, and the counter can be reset and used again. "
     "Waiting for a variable to change returns only with a value other than the initial one that was really stored, and always returns once it was stored and announced, whether the waiter is still spinning or already asleep.",
     ["schedules", "histories", "fault_sequences"], "every number of decrementing threads, reuse, delay and interleaving, every spurious wake-up and stale load",
     "The counter test runs a few thousand iterations on the machine's own schedule; missed wake-ups and weak-memory outcomes need a chosen interleaving.",
     ["internal/multi_thread_gemm.h"], [("acquire/release counter, spin then sleep", "internal/multi_thread_gemm.h")],
     ["return of the wait, return value of the decrement, plain data published by the decrementing threads"])
prop("C12", "A caller-supplied thread pool may run the tasks in any order on any threads",
     "With a context that supplies its own thread pool, every product is exact and stays within its memory for any pool that runs each task once on whichever threads, in whichever order and with whatever overlap it likes, including one after the other on the calling thread. "
     "The library hands such a pool no more tasks than the context's thread limit and touches neither tasks nor packed operands after the pool has reported the batch complete.",
     ["schedules", "configurations", "histories"], "every pool behaviour the interface permits: order, thread placement, overlap, delay, allocator placement x interleaving",
     "No test supplies a pool of its own; the built-in pool starts tasks in order, one per worker, so dependence on that order is never exposed.",
     ["internal/multi_thread_gemm.h"], [("tasks share only the read-only packed right-hand side and write disjoint rows", "internal/multi_thread_gemm.h")],
     ["tasks as seen by the pool", "result of every product"])
prop("C13", "Profiling is safe while threads come, go and compute, and counts truly",
     "With profiling compiled in, sessions may be started and finished while labelled threads and a context's workers register, run and end, in any order: products stay exact, every call returns, memory already given back is never touched, and an ended thread or session leaves no resource behind. "
     "The printed profile shows only label stacks that a registered thread really had during the session, no more often than the session had time for, each label once below its parent, with parts adding up to their whole; threads registered throughout the session are sampled equally often.",
     ["schedules", "histories", "configurations"], "every history of sessions, labels, registrations, products and thread ends x interleaving x sampling times",
     "The profiler has no test at all; a thread ending while the sampler copies its label stack needs a chosen interleaving.",
     ["profiling/profiler.h", "profiling/instrumentation.h"], [("global lock around registration, sampling and thread end", "profiling/instrumentation.h"), ("sampler thread, printed tree", "profiling/profiler.h")],
     ["printed profile", "memory, threads and thread-specific keys after threads have ended"])
prop("C14", "The NEON fast path is exact in parallel and stays within its memory",
     "Products and element-wise transforms of the NEON fast path (its present interface, its older one, and the 8-bit interface built to use it) deliver the value their parameters define, the same on one thread and on any number of them, whatever the schedule. "
     "Parallel tasks work on disjoint parts of the result and of the scratch memory, nothing outside the caller's matrices and the scratch size the library asks for is read or written, and nothing belonging to the call is used after it returns. "
     "The thread limit is respected, every call returns, and releasing the pool leaves nothing behind.",
     ["schedules", "inputs", "configurations", "histories"], "every shape, stride, operand layout, executor and output kind the fast path accepts x thread limit x interleaving",
     "The suite does not build the parallel fast path at all on x86, and on ARM compares a few shapes on one schedule, without looking at scratch overlap or bounds.",
     ["meta/multi_thread_gemm.h", "meta/multi_thread_common.h", "meta/multi_thread_transform.h", "meta/single_thread_gemm.h", "meta/single_thread_transform.h", "meta/legacy_multi_thread_gemm.h", "meta/legacy_multi_thread_gemv.h", "meta/legacy_multi_thread_common.h", "meta/legacy_single_thread_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("rows or columns divided among tasks, each with its own slice of the scratch", "meta/multi_thread_gemm.h"), ("older interface: tasks and scratch per thread", "meta/legacy_multi_thread_common.h"), ("dispatch to the fast path", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
     ["results of every call", "accesses to scratch and matrices", "threads created"])
prop("C15", "Scratch memory handed out between commit and decommit is aligned and disjoint",
     "Between commit and decommit of a scratch allocator, every reservation gets memory of at least the requested size at the promised alignment, disjoint from every other reservation, inside memory the allocator owns, whatever the sizes and history of growth and reuse. "
     "Handles of one commit are not honoured in any later one, misuse ends in a diagnostic in checking builds and never in silent overlap, and destroying the allocator gives its memory back.",
     ["histories", "inputs", "fault_sequences"], "every sequence of reservations, commits and decommits on allocators used by several threads",
     "The allocator test does two commits with a handful of reservations.",
     ["internal/allocator.h"], [("sizes rounded up to the alignment, generation counter in each handle", "internal/allocator.h")],
     ["addresses returned for the handles"])
prop("C16", "Built on C++11 threads instead of POSIX ones, everything holds as well",
     "Where the platform has no POSIX threads (Windows), the library runs on its own layer over C++11 threads, mutexes and condition variables; there, too, products, pool batches, counter waits and the global 8-bit interface deliver exact results, return, never race, respect the thread limit and stay within their memory. "
     "Destroying contexts and pools, or releasing the global interface, joins every thread and gives back every lock, condition, thread object and other memory, so that nothing accumulates over any number of cycles.",
     ["schedules", "histories", "inputs", "fault_sequences"], "every schedule, history and resource failure, on the thread layer that is compiled where POSIX threads are missing",
     "The layer is compiled only for Windows; no test here ever builds it.",
     ["profiling/pthread_everywhere.h", "internal/platform.h", "internal/multi_thread_gemm.h"], [("pthread subset on C++11 threads: objects created and destroyed on the heap, waits adopting and releasing the caller's lock", "profiling/pthread_everywhere.h")],
     ["results", "threads, heap blocks, locks and conditions at the end", "every memory access"])
prop("C17", "Repeating calls accumulates nothing while a context or pool lives",
     "What a context, thread pool or the global 8-bit interface holds is set by the largest calls made on it, not by their number: repeating a sequence of calls leaves no more heap memory, threads, mutexes and condition variables in use than making it before did. "
     "This holds for every mix of shapes, thread limits, cache settings and forms of handing over tasks, and whatever the schedule; nothing is merely kept for release at destruction.",
     ["histories", "schedules", "configurations"], "every sequence of calls, repeated, x interleaving",
     "Tests look at results only; memory or threads that pile up until the context is destroyed are given back in the end, so leak checkers stay silent too.",
     ["internal/allocator.h", "internal/multi_thread_gemm.h", "internal/single_thread_gemm.h", "eight_bit_int_gemm/eight_bit_int_gemm.cc"],
     [("scratch storage kept and reused, grown only when a call needs more", "internal/allocator.h"), ("workers created on demand and kept; tasks destroyed with the batch", "internal/multi_thread_gemm.h"), ("global context and scratch", "eight_bit_int_gemm/eight_bit_int_gemm.cc")],
     ["heap blocks and bytes, threads, mutexes and conditions in use after each repetition"])
prop("C18", "Idle workers fall asleep and stay asleep until there is work",
     "Between calls, the worker threads of a context, pool or the global 8-bit interface wait busily for a bounded time only and then sleep, using no processor time however long the pause; a spurious wake-up makes them go back to sleep. "
     "The next call finds them and wakes them, whatever they did before: many batches, batches with fewer tasks than workers, changed limits, long idle times.",
     ["schedules", "histories", "fault_sequences"], "every history of calls and pauses x interleaving x spurious wake-ups",
     "A worker that keeps spinning gives right results; only processor time and battery life tell.",
     ["internal/multi_thread_gemm.h"], [("busy wait up to a number of no-ops, then a condition variable", "internal/multi_thread_gemm.h"), ("worker state machine", "internal/multi_thread_gemm.h")],
     ["steps executed by worker threads during a pause of simulated time"])

NA = [
 dict(id="C90", title="The fixed-point primitives round and saturate exactly as documented",
      statement="Saturating rounding multiplication, rounding division by powers of two, and the fixed-point elementary functions return the documented value for every operand, identically on every back end.",
      over=["inputs"], text="every operand value", why="The tests sample operand values; the full 64-bit operand space cannot be run.",
      files=["fixedpoint/fixedpoint.h"], mech=[("integer arithmetic on scalars and vectors", "fixedpoint/fixedpoint.h")], observe=["return values"],
      na="Pure functions of their operands: no schedule, clock, fault, I/O or shared state for a simulator to decide. (They run as real code inside the products of C01.)"),
 dict(id="C91", title="The quantisation scheme approximates real arithmetic within its bound",
      statement="Quantising real matrices as the documentation describes, multiplying, and dequantising gives the real product within the error the documentation's formulas imply.",
      over=["inputs"], text="every real matrix and range", why="One example is run.",
      files=["doc/quantization.md", "doc/quantization_example.cc"], mech=[("affine quantisation", "doc/quantization_example.cc")], observe=["example program"],
      na="A numerical statement about a pure computation; nothing nondeterministic takes part in it."),
 dict(id="C92", title="Generated kernels correspond to their generators",
      statement="The committed processor-specific kernels and streams are what the generator scripts produce, for every supported block shape.",
      over=["configurations"], text="every generated block shape", why="Nothing compares them.",
      files=["meta/generators"], mech=[("code generators", "meta/generators")], observe=["generated text"],
      na="A relation between two texts, decided by regenerating and comparing; there is no execution to simulate."),
]
for n in NA:
    prop(**n)

LEVEL = ("Seeded search over schedules, delays, weak-memory outcomes and faults on the real sources, compiled unchanged and linked against a simulator that owns threads, locks, time and memory; "
         "a clean run is evidence over the runs counted in the evidence file, not proof. Trusted: the simulator's model of pthreads, atomics and the heap, and (for results) a reference model written from the documentation.")


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in sorted(P, key=lambda p: p["id"]):
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py build",
         "checks": [{"property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                     "technique": "deterministic simulation with fault injection: seeded schedule and fault search, reference-model and invariant oracles",
                     "level": "exploration", "level_note": p["level_note"] or LEVEL} for p in sorted(P, key=lambda p: p["id"]) if not p["na"] and p["id"] in PLAN],
         "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]],
         "notes": "No hooks in /repo: the simulator takes over at the compiler's instrumentation interface and at the pthread, clock and malloc symbols of the objects it builds from /repo's sources."}
    for p in P:
        assert p["na"] or p["id"] in PLAN, p["id"]
    for k in PLAN:
        assert any(p["id"] == k for p in P), k
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
