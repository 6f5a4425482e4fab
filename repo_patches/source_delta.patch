From bbfb5c15d56587314bc466d85e8515092c7c956a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:54 +0000
Subject: [PATCH 01/14] fix: do not convert stale scratch memory when an 8-bit
 product with float results is vacuous

---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index a8d9b43..7dd398e 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -353,6 +353,12 @@ void EightBitIntGemm(bool transpose_a, bool transpose_b, bool transpose_c,
   }
 #endif
 
+  // A vacuous Gemm leaves its result alone, as the integer path does: nothing
+  // would be written to the scratch memory that is converted below.
+  if (m == 0 || n == 0 || k == 0) {
+    return;
+  }
+
   // TODO(maciekc): implement a float output stage, get rid of scratch memory.
   Scratch* scratch = GetOrCreateGlobalScratch();
   if (transpose_c) {
-- 
2.43.0


From 97d3a71aa0d22e7ea0577a7e97e0fb7f71b77b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:00:18 +0000
Subject: [PATCH 02/14] fix: fail visibly instead of waiting forever when a
 worker thread cannot be created

---
 internal/multi_thread_gemm.h   | 5 ++++-
 profiling/pthread_everywhere.h | 9 +++++----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 97183e7..66fea86 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -233,7 +233,10 @@ class Worker {
         counter_to_decrement_when_ready_(counter_to_decrement_when_ready) {
     pthread_cond_init(&state_cond_, nullptr);
     pthread_mutex_init(&state_mutex_, nullptr);
-    pthread_create(&thread_, nullptr, ThreadFunc, this);
+    const int error = pthread_create(&thread_, nullptr, ThreadFunc, this);
+    // Without its thread this worker would never become ready, and whoever
+    // waits for that would wait forever.
+    ReleaseBuildAssertion(!error, "failed to create a worker thread");
   }
 
   ~Worker() {
diff --git a/profiling/pthread_everywhere.h b/profiling/pthread_everywhere.h
index 2569bbc..b7bbeec 100644
--- a/profiling/pthread_everywhere.h
+++ b/profiling/pthread_everywhere.h
@@ -31,8 +31,8 @@
 //    Rationale: the c++11 <thread> equivalent functions return void
 //    and use exceptions to report errors; we don't want to deal with
 //    exceptions in this code, so we couldn't meaningfully return errors
-//    in the polyfill. Also, the gemmlowp code using these pthread functions
-//    never checks their return values anyway.
+//    in the polyfill. The exception is pthread_create, whose return value
+//    gemmlowp checks: ours returns 0, as failures are reported by exceptions.
 //  - True pthread *_create/*_init functions take pointers to 'attribute'
 //    structs; ours take nullptr_t. That is because gemmlowp always passes
 //    nullptr at the moment, so any support we would code for non-null
@@ -45,9 +45,10 @@ namespace gemmlowp {
 using pthread_t = std::thread *;
 using pthread_mutex_t = std::mutex *;
 using pthread_cond_t = std::condition_variable *;
-inline void pthread_create(pthread_t *thread, std::nullptr_t,
-                           void *(*start_routine)(void *), void *arg) {
+inline int pthread_create(pthread_t *thread, std::nullptr_t,
+                          void *(*start_routine)(void *), void *arg) {
   *thread = new std::thread(start_routine, arg);
+  return 0;
 }
 inline void pthread_join(pthread_t thread, std::nullptr_t) { thread->join(); }
 inline void pthread_mutex_init(pthread_mutex_t *mutex, std::nullptr_t) {
-- 
2.43.0


From 2aa28ef6272ae719b9023f93ac2e89e8e133128b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:21 +0000
Subject: [PATCH 03/14] fix: do not lose a running worker when the list of
 workers cannot grow

---
 internal/multi_thread_gemm.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/multi_thread_gemm.h b/internal/multi_thread_gemm.h
index 66fea86..e1dad5e 100644
--- a/internal/multi_thread_gemm.h
+++ b/internal/multi_thread_gemm.h
@@ -432,6 +432,9 @@ class WorkersPool {
     if (workers_.size() >= workers_count) {
       return;
     }
+    // Make room first: a failure to do so once a worker's thread is running
+    // would leave that worker without an owner.
+    workers_.reserve(workers_count);
     counter_to_decrement_when_ready_.Reset(workers_count - workers_.size());
     while (workers_.size() < workers_count) {
       workers_.push_back(new Worker(&counter_to_decrement_when_ready_));
-- 
2.43.0


From 06c4bad74313d1dc14d6e974878b09b8e04692b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:04 +0000
Subject: [PATCH 04/14] fix: unregister a profiled thread before its profiling
 data is freed

The thread-exit callback that took a thread out of the set of profiled
threads was a second thread-specific destructor, which runs after (glibc)
or in unspecified order with (POSIX) the one that deletes the data, so the
profiler thread could sample a deleted stack. It also used up one
thread-specific key per thread for ever. Unregister in the destructor.
---
 profiling/instrumentation.h | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/profiling/instrumentation.h b/profiling/instrumentation.h
index c1f852e..f8f8b7d 100644
--- a/profiling/instrumentation.h
+++ b/profiling/instrumentation.h
@@ -159,19 +159,15 @@ inline std::set<ThreadInfo*>& ThreadsUnderProfiling() {
 }
 
 struct ThreadInfo {
-  pthread_key_t key;  // used only to get a callback at thread exit.
   ProfilingStack stack;
 
-  ThreadInfo() {
-    pthread_key_create(&key, ThreadExitCallback);
-    pthread_setspecific(key, this);
-    stack.lock = new Mutex();
-  }
+  ThreadInfo() { stack.lock = new Mutex(); }
 
-  static void ThreadExitCallback(void* ptr) {
+  // Runs at thread exit, see ThreadLocalThreadInfo. The profiler thread must
+  // not find this thread anymore once its stack is gone.
+  ~ThreadInfo() {
     ScopedLock sl(GlobalMutexes::Profiler());
-    ThreadInfo* self = static_cast<ThreadInfo*>(ptr);
-    ThreadsUnderProfiling().erase(self);
+    ThreadsUnderProfiling().erase(this);
   }
 };
 
-- 
2.43.0


From c0be3e600553b45942d38fe168ae47378921deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:41:21 +0000
Subject: [PATCH 05/14] fix: read the profiler's stop flag without a data race

The profiler thread polls it without the lock under which it is set.
---
 profiling/profiler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 018da57..20a8726 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -147,6 +147,7 @@
 #error Profiling is not enabled!
 #endif
 
+#include <atomic>
 #include <vector>
 
 #include "instrumentation.h"
@@ -282,8 +283,8 @@ inline bool& IsProfiling() {
 }
 
 // This is how we tell the profiler thread to finish.
-inline bool& ProfilerThreadShouldFinish() {
-  static bool b;
+inline std::atomic<bool>& ProfilerThreadShouldFinish() {
+  static std::atomic<bool> b;
   return b;
 }
 
-- 
2.43.0


From 69ace83e2e5990f0a0fd5429d71bd596287c5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:42:42 +0000
Subject: [PATCH 06/14] fix: count the profiled threads under the lock when
 printing a profile

Other threads register and exit while the profile is being printed.
---
 profiling/profiler.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/profiling/profiler.h b/profiling/profiler.h
index 20a8726..ca97ca2 100644
--- a/profiling/profiler.h
+++ b/profiling/profiler.h
@@ -248,9 +248,13 @@ class ProfileTreeView {
   }
 
   void Print() const {
+    int threads_count;
+    {
+      ScopedLock sl(GlobalMutexes::Profiler());
+      threads_count = static_cast<int>(ThreadsUnderProfiling().size());
+    }
     printf("\n");
-    printf("gemmlowp profile (%d threads, %d samples)\n",
-           static_cast<int>(ThreadsUnderProfiling().size()),
+    printf("gemmlowp profile (%d threads, %d samples)\n", threads_count,
            static_cast<int>(root_.weight));
     PrintNode(&root_, 0);
     printf("\n");
-- 
2.43.0


From 75791310d5525cd0a56910af4ed941a4cbd095e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:37 +0000
Subject: [PATCH 07/14] fix: do not treat strided vectors as packed on the
 8-bit fast path

With the meta fast path compiled in, a one-row operand stored column major (or
a one-column one stored row major) with a stride other than 1 was taken for a
contiguous vector, so wrong elements were read or written.
---
 eight_bit_int_gemm/eight_bit_int_gemm.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/eight_bit_int_gemm/eight_bit_int_gemm.cc b/eight_bit_int_gemm/eight_bit_int_gemm.cc
index 7dd398e..2164a9d 100644
--- a/eight_bit_int_gemm/eight_bit_int_gemm.cc
+++ b/eight_bit_int_gemm/eight_bit_int_gemm.cc
@@ -192,8 +192,9 @@ bool IsRowMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one row vector? (a vector is both row and column major)
-  if (rows == 1) {
+  // Is it a nicely packed one row vector? (such a vector is both row and column
+  // major)
+  if (rows == 1 && (transpose || stride == 1)) {
     return true;
   }
 
@@ -206,8 +207,9 @@ bool IsColumnMajorOrVector(bool transpose, int stride, int rows, int cols) {
     return true;
   }
 
-  // Is it a one column vector? (a vector is both row and column major)
-  if (cols == 1) {
+  // Is it a nicely packed one column vector? (such a vector is both row and
+  // column major)
+  if (cols == 1 && (!transpose || stride == 1)) {
     return true;
   }
 
-- 
2.43.0


From dd86ecdc455da73fd0ff90c8179180c66bc9ce13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:52 +0000
Subject: [PATCH 08/14] fix: round correctly on the 8-bit fast path when the
 result shift is 0

1 << (shift - 1) is undefined for a shift of 0, and gave a huge negative
rounding term.
---
 meta/legacy_single_thread_gemm.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/meta/legacy_single_thread_gemm.h b/meta/legacy_single_thread_gemm.h
index d662e47..92b922e 100644
--- a/meta/legacy_single_thread_gemm.h
+++ b/meta/legacy_single_thread_gemm.h
@@ -63,7 +63,8 @@ void gemm_q8_strided(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      (shift < 1) ? 0 : (1 << (shift - 1));
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = result_stride;
@@ -107,7 +108,8 @@ void gemv_q8(std::uint8_t* scratch, const std::uint8_t* lhs,
   params.right_stream.additive_sum_offset = 0;
 
   params.fused_kernel.kernel.multiplicative_offset = multiplicative_offset;
-  params.fused_kernel.kernel.rounding_offset = (1 << (shift - 1));
+  params.fused_kernel.kernel.rounding_offset =
+      (shift < 1) ? 0 : (1 << (shift - 1));
   params.fused_kernel.kernel.shift = -shift;
   params.fused_kernel.kernel.count = k;
   params.fused_kernel.output_stream.stride = n;
-- 
2.43.0


From 517354b2d5bb254012d8b29012fa1f06f7b517e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:11 +0000
Subject: [PATCH 09/14] fix: keep the cache friendly fast path within its
 scratch memory

The last part of a split product could need one chunk more than fits, so its
packed operand ran past the scratch memory, in a parallel product into that of
the next task.
---
 meta/single_thread_gemm.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/meta/single_thread_gemm.h b/meta/single_thread_gemm.h
index 258de69..8fc8d0f 100644
--- a/meta/single_thread_gemm.h
+++ b/meta/single_thread_gemm.h
@@ -467,7 +467,10 @@ class GemmExecutorPackRHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.n / cache_friendly_tasks_count;
+    // Whole chunks, so that no task needs more chunks than fit the scratch.
+    const int cache_friendly_dim =
+        AlignTo<n>((params.n + cache_friendly_tasks_count - 1) /
+                   cache_friendly_tasks_count);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
@@ -516,7 +519,10 @@ class GemmExecutorPackLHSCacheFriendly {
       return;
     }
 
-    const int cache_friendly_dim = params.m / cache_friendly_tasks_count;
+    // Whole chunks, so that no task needs more chunks than fit the scratch.
+    const int cache_friendly_dim =
+        AlignTo<m>((params.m + cache_friendly_tasks_count - 1) /
+                   cache_friendly_tasks_count);
 
     P task_params = params;
     for (int i = 0; i < cache_friendly_tasks_count - 1; ++i) {
-- 
2.43.0


From 8634180f75d33e251e4ea938b82182df9837d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:41 +0000
Subject: [PATCH 10/14] fix: do not use a destroyed operation object in
 parallel legacy meta products

The tasks kept a reference to the copy of the operation that the lambda had
captured, which is gone by the time they run.
---
 meta/legacy_multi_thread_common.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/meta/legacy_multi_thread_common.h b/meta/legacy_multi_thread_common.h
index d4cec6f..65a2003 100644
--- a/meta/legacy_multi_thread_common.h
+++ b/meta/legacy_multi_thread_common.h
@@ -135,7 +135,7 @@ void MultiThreadedMatrixMatrix(gemmlowp::WorkersPool* pool,
   std::vector<Task*> tasks;
   std::for_each(
       task_rects.begin(), task_rects.end(),
-      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, operation,
+      [&tasks, &task_scratch, lhs, rhs, k, result, result_stride, &operation,
        scratch_per_thread](internal::TaskRect& rect) {
         tasks.push_back(new internal::MetaTask<IN_TYPE, OUT_TYPE, F>(
             task_scratch, lhs, rhs, rect, k, result, result_stride, operation));
-- 
2.43.0


From 7b1f3bccab6489df727c07a7f5951200a5902b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:35:00 +0000
Subject: [PATCH 11/14] fix: free the thread object when a thread is joined
 (C++11 thread layer)

---
 profiling/pthread_everywhere.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/profiling/pthread_everywhere.h b/profiling/pthread_everywhere.h
index b7bbeec..f9b35dd 100644
--- a/profiling/pthread_everywhere.h
+++ b/profiling/pthread_everywhere.h
@@ -50,7 +50,10 @@ inline int pthread_create(pthread_t *thread, std::nullptr_t,
   *thread = new std::thread(start_routine, arg);
   return 0;
 }
-inline void pthread_join(pthread_t thread, std::nullptr_t) { thread->join(); }
+inline void pthread_join(pthread_t thread, std::nullptr_t) {
+  thread->join();
+  delete thread;
+}
 inline void pthread_mutex_init(pthread_mutex_t *mutex, std::nullptr_t) {
   *mutex = new std::mutex;
 }
-- 
2.43.0


From 3cbc78c30e93144c9707539fbb6a2f777892e71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:28 +0000
Subject: [PATCH 12/14] fix: tanh output stage must not wrap around just below
 its upper cutoff

---
 internal/output.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/internal/output.h b/internal/output.h
index 92bf7b9..7ff4c2e 100644
--- a/internal/output.h
+++ b/internal/output.h
@@ -20,6 +20,7 @@
 #define GEMMLOWP_INTERNAL_OUTPUT_H_
 
 #include <cmath>
+#include <limits>
 #include <tuple>
 #include <type_traits>
 #include <typeinfo>
@@ -405,9 +406,14 @@ struct OutputStageEvalBufferImpl<OutputStageTanh,
           Sub(input.reg[i], Dup<DataType>(real_zero_as_int32));
       F3 fixedpoint_input =
           F3::FromRaw(input_centered) * inverse_amplitude_normalized;
-      // left shift
-      fixedpoint_input.raw() = ShiftLeft(fixedpoint_input.raw(),
-                                         28 - inverse_amplitude_neg_exponent);
+      // left shift. Inputs just below input_cutoff_max may have been rounded up
+      // to 8, which F3 can not represent.
+      const int left_shift = 28 - inverse_amplitude_neg_exponent;
+      fixedpoint_input.raw() = ShiftLeft(
+          Min(fixedpoint_input.raw(),
+              Dup<DataType>(std::numeric_limits<std::int32_t>::max() >>
+                            left_shift)),
+          left_shift);
       // fixed-point tanh and multiplication
       F0 fixedpoint_output = tanh(fixedpoint_input) * amplitude_normalized;
       // right shift
-- 
2.43.0


From 0498cf0bb2874648b746691377bd6e5423ead532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:45 +0000
Subject: [PATCH 13/14] fix: declare the loop counters the NEON fast path
 kernels change as changed

The multiplication and bias kernels count down a register that the asm
statements declared as an input only. Where the compiler keeps the depth in
that register from one kernel call to the next (seen with gcc on 32-bit ARM
for int32 products of the older interface), every block but the first was
computed with an exhausted count.
---
 .../quantized_mul_kernels_common.py           |   4 +-
 meta/generators/transform_kernels_common.py   |   2 +-
 meta/quantized_mul_kernels_arm_32.h           | 315 ++++++++++--------
 meta/quantized_mul_kernels_arm_64.h           | 315 ++++++++++--------
 meta/transform_kernels_arm_32.h               |  80 +++--
 meta/transform_kernels_arm_64.h               |  80 +++--
 6 files changed, 460 insertions(+), 336 deletions(-)

diff --git a/meta/generators/quantized_mul_kernels_common.py b/meta/generators/quantized_mul_kernels_common.py
index ef69eb5..786709c 100644
--- a/meta/generators/quantized_mul_kernels_common.py
+++ b/meta/generators/quantized_mul_kernels_common.py
@@ -494,7 +494,7 @@ def _Generate1xNLoadMultiplyAggregate(emitter, registers, kernel_n, aggregators,
 
 def _GenerateMultiplyKernel(emitter, registers, kernel_m, kernel_n, lhs, rhs):
   """Main muliply loop. Pick best implementation for given kernel shape."""
-  count = registers.MapParameter('count', 'params.kernel.count')
+  count = registers.MapOutputParameter('count', 'params_count_copy')
 
   aggregators = _GenerateAndClearAggregators(emitter, registers,
                                              kernel_m * kernel_n)
@@ -552,6 +552,8 @@ class QuantizedMulKernel(common.MulKernelGenerator):
 
     registers = self.asm_emitter.CreateRegisters()
 
+    self.emitter.EmitDeclare('int', 'params_count_copy', 'params.kernel.count')
+
     self.asm_emitter.PushIndent(self.emitter.indent)
     self.asm_emitter.EmitAsmBegin()
 
diff --git a/meta/generators/transform_kernels_common.py b/meta/generators/transform_kernels_common.py
index 436b40c..8602993 100644
--- a/meta/generators/transform_kernels_common.py
+++ b/meta/generators/transform_kernels_common.py
@@ -412,7 +412,7 @@ class BiasAdd(common.Transform1DKernelGenerator):
 
     self._Prepare(self.asm_emitter, registers)
 
-    rows = registers.MapParameter('rows', 'params_rows_copy')
+    rows = registers.MapOutputParameter('rows', 'params_rows_copy')
 
     self.asm_emitter.EmitNumericalLabel(1)
 
diff --git a/meta/quantized_mul_kernels_arm_32.h b/meta/quantized_mul_kernels_arm_32.h
index 1619c9d..993c3cf 100644
--- a/meta/quantized_mul_kernels_arm_32.h
+++ b/meta/quantized_mul_kernels_arm_32.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -113,6 +114,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -165,9 +167,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -191,6 +193,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -249,9 +252,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -275,6 +278,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -336,9 +340,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -363,6 +367,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -437,9 +442,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d0[4]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -464,6 +469,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -542,9 +548,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -569,6 +575,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -653,9 +660,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d0[2]}, [%[result]]!\n"
       "vst1.8 {d0[6]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -680,6 +687,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -767,9 +775,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -795,6 +803,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -858,9 +867,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -884,6 +893,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -955,9 +965,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -982,6 +992,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1065,9 +1076,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "vst1.8 {d0[2]}, [%[result]]!\n"
       "vst1.16 {d6[0]}, [r0]!\n"
       "vst1.8 {d6[2]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1093,6 +1104,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1184,9 +1196,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d8[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1212,6 +1224,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1290,9 +1303,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "vst1.8 {d0[0]}, [%[result]]!\n"
       "vst1.8 {d2[0]}, [r0]!\n"
       "vst1.8 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1317,6 +1330,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1407,9 +1421,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "vst1.16 {d0[0]}, [%[result]]!\n"
       "vst1.16 {d4[0]}, [r0]!\n"
       "vst1.16 {d8[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1435,6 +1449,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1546,9 +1561,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "vst1.8 {d6[2]}, [r0]!\n"
       "vst1.16 {d12[0]}, [r1]!\n"
       "vst1.8 {d12[2]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1575,6 +1590,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1615,9 +1631,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "cc",
         "memory");
 }
@@ -1639,6 +1655,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1683,9 +1700,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "cc", "memory");
 }
@@ -1707,6 +1724,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1757,9 +1775,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -1781,6 +1799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1834,9 +1853,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d14", "d15", "d16", "d17", "d18", "d19", "d20", "d21",
         "cc", "memory");
@@ -1859,6 +1878,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -1921,9 +1941,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "cc", "memory");
@@ -1946,6 +1966,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2011,9 +2032,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "cc", "memory");
@@ -2036,6 +2057,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2107,9 +2129,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "cc", "memory");
@@ -2132,6 +2154,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2207,9 +2230,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2233,6 +2256,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2283,9 +2307,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "cc", "memory");
 }
@@ -2307,6 +2331,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2365,9 +2390,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
         "memory");
@@ -2390,6 +2415,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2460,9 +2486,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "cc",
@@ -2486,6 +2512,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2564,9 +2591,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
         "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29", "d30",
@@ -2590,6 +2617,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2650,9 +2678,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
 }
@@ -2674,6 +2702,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2746,9 +2775,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2772,6 +2801,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2865,9 +2895,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
         "d20", "d21", "d22", "d23", "d24", "d25", "d26", "d27", "d28", "d29",
@@ -2891,6 +2921,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -2934,9 +2965,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d8", "d9", "d10", "d11", "d12",
         "d13", "cc", "memory");
@@ -2959,6 +2990,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3006,9 +3038,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10", "d11",
         "d12", "d13", "cc", "memory");
@@ -3031,6 +3063,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3084,9 +3117,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d1[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -3109,6 +3142,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3165,9 +3199,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3191,6 +3225,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3258,9 +3293,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3284,6 +3319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3354,9 +3390,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3380,6 +3416,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3456,9 +3493,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2}, [%[result]]!\n"
       "vst1.32 {d3[0]}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3482,6 +3519,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3562,9 +3600,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "vst1.32 {d0, d1, d2, d3}, [%[result]]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3589,6 +3627,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3644,9 +3683,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d8", "d9", "d10",
         "d11", "d12", "d13", "cc", "memory");
@@ -3669,6 +3708,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3732,9 +3772,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
@@ -3758,6 +3798,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3833,9 +3874,9 @@ inline void MulKernel<
       "vst1.32 {d1[0]}, [%[result]]!\n"
       "vst1.32 {d6}, [r0]!\n"
       "vst1.32 {d7[0]}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3860,6 +3901,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -3943,9 +3985,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "vst1.32 {d0, d1}, [%[result]]!\n"
       "vst1.32 {d8, d9}, [r0]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
         "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "d20",
@@ -3970,6 +4012,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4037,9 +4080,9 @@ inline void MulKernel<
       "vst1.32 {d0[0]}, [%[result]]!\n"
       "vst1.32 {d2[0]}, [r0]!\n"
       "vst1.32 {d4[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "cc", "memory");
@@ -4062,6 +4105,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4141,9 +4185,9 @@ inline void MulKernel<
       "vst1.32 {d0}, [%[result]]!\n"
       "vst1.32 {d4}, [r0]!\n"
       "vst1.32 {d8}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
@@ -4168,6 +4212,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "pld [%[lhs]]\n"
       "pld [%[rhs]]\n"
@@ -4268,9 +4313,9 @@ inline void MulKernel<
       "vst1.32 {d7[0]}, [r0]!\n"
       "vst1.32 {d12}, [r1]!\n"
       "vst1.32 {d13[0]}, [r1]!\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "r0", "r1", "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9",
         "d10", "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19",
diff --git a/meta/quantized_mul_kernels_arm_64.h b/meta/quantized_mul_kernels_arm_64.h
index abda496..9433ab9 100644
--- a/meta/quantized_mul_kernels_arm_64.h
+++ b/meta/quantized_mul_kernels_arm_64.h
@@ -39,6 +39,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -87,9 +88,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 1,
 
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -112,6 +113,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -163,9 +165,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 2,
 
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -188,6 +190,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -244,9 +247,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 3,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v0.b}[2], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -270,6 +273,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -328,9 +332,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 4,
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -354,6 +358,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -425,9 +430,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 5,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.b}[4], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -451,6 +456,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -525,9 +531,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 6,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -551,6 +557,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -630,9 +637,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 7,
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v0.h}[2], [%x[result]], #2\n"
       "st1 {v0.b}[6], [%x[result]], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -656,6 +663,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -737,9 +745,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 1, 8,
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -763,6 +771,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -826,9 +835,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 1,
       // RowMajorOutput::Output
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -852,6 +861,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -921,9 +931,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 2,
       // RowMajorOutput::Output
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -947,6 +957,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1026,9 +1037,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 3,
       "st1 {v0.b}[2], [%x[result]], #1\n"
       "st1 {v3.h}[0], [x0], #2\n"
       "st1 {v3.b}[2], [x0], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1052,6 +1063,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1137,9 +1149,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 2, 4,
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v4.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1163,6 +1175,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1241,9 +1254,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 1,
       "st1 {v0.b}[0], [%x[result]], #1\n"
       "st1 {v1.b}[0], [x0], #1\n"
       "st1 {v2.b}[0], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1267,6 +1280,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1354,9 +1368,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 2,
       "st1 {v0.h}[0], [%x[result]], #2\n"
       "st1 {v2.h}[0], [x0], #2\n"
       "st1 {v4.h}[0], [x1], #2\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1380,6 +1394,7 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1485,9 +1500,9 @@ MulKernel<uint8_t, uint8_t, QuantizedStaticPreprocessed, RowMajor, 3, 3,
       "st1 {v3.b}[2], [x0], #1\n"
       "st1 {v6.h}[0], [x1], #2\n"
       "st1 {v6.b}[2], [x1], #1\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [multiplicative_offset] "r"(params.kernel.multiplicative_offset),
         [shift] "r"(params.kernel.shift),
         [stride] "r"(params.output_stream.stride),
         [rounding_offset] "r"(params.kernel.rounding_offset)
@@ -1513,6 +1528,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1553,9 +1569,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "cc", "memory");
 }
 
@@ -1576,6 +1592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1619,9 +1636,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -1642,6 +1659,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1690,9 +1708,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
 }
@@ -1714,6 +1732,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1764,9 +1783,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
 }
@@ -1788,6 +1807,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1847,9 +1867,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
 }
@@ -1871,6 +1891,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -1933,9 +1954,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
 }
@@ -1957,6 +1978,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2024,9 +2046,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
 }
@@ -2048,6 +2070,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2117,9 +2140,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
 }
@@ -2141,6 +2164,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2191,9 +2215,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
 
@@ -2214,6 +2238,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2270,9 +2295,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
 }
@@ -2294,6 +2319,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2360,9 +2386,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2384,6 +2410,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2456,9 +2483,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
 }
@@ -2480,6 +2507,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2540,9 +2568,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
 }
@@ -2564,6 +2592,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2633,9 +2662,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
 }
@@ -2657,6 +2686,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2744,9 +2774,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride)
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
         "memory");
@@ -2769,6 +2799,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2812,9 +2843,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2836,6 +2867,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2882,9 +2914,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -2906,6 +2938,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -2957,9 +2990,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v0.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "cc",
         "memory");
@@ -2982,6 +3015,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3035,9 +3069,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "cc", "memory");
@@ -3060,6 +3094,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3124,9 +3159,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.s}[0], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "cc", "memory");
@@ -3149,6 +3184,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3216,9 +3252,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "cc", "memory");
@@ -3241,6 +3277,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3313,9 +3350,9 @@ inline void MulKernel<
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v1.2s}, [%x[result]], #8\n"
       "st1 {v1.s}[2], [%x[result]], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "cc", "memory");
@@ -3338,6 +3375,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3412,9 +3450,9 @@ inline void MulKernel<
 
       // RowMajorOutput::Output
       "st1 {v0.4s, v1.4s}, [%x[result]], #32\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "cc", "memory");
@@ -3437,6 +3475,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3492,9 +3531,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "cc", "memory");
 }
@@ -3516,6 +3555,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3577,9 +3617,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "cc", "memory");
@@ -3602,6 +3642,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3673,9 +3714,9 @@ inline void MulKernel<
       "st1 {v0.s}[2], [%x[result]], #4\n"
       "st1 {v3.2s}, [x0], #8\n"
       "st1 {v3.s}[2], [x0], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3698,6 +3739,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3775,9 +3817,9 @@ inline void MulKernel<
       // RowMajorOutput::Output
       "st1 {v0.4s}, [%x[result]], #16\n"
       "st1 {v4.4s}, [x0], #16\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9", "v10",
         "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc", "memory");
@@ -3800,6 +3842,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3867,9 +3910,9 @@ inline void MulKernel<
       "st1 {v0.s}[0], [%x[result]], #4\n"
       "st1 {v1.s}[0], [x0], #4\n"
       "st1 {v2.s}[0], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "cc", "memory");
@@ -3892,6 +3935,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -3968,9 +4012,9 @@ inline void MulKernel<
       "st1 {v0.2s}, [%x[result]], #8\n"
       "st1 {v2.2s}, [x0], #8\n"
       "st1 {v4.2s}, [x1], #8\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "cc", "memory");
@@ -3993,6 +4037,7 @@ inline void MulKernel<
             << std::flush;
 #endif
 #endif
+  int params_count_copy = params.kernel.count;
   asm volatile(
       "prfm pldl1keep, [%x[lhs]]\n"
       "prfm pldl1keep, [%x[rhs]]\n"
@@ -4087,9 +4132,9 @@ inline void MulKernel<
       "st1 {v3.s}[2], [x0], #4\n"
       "st1 {v6.2s}, [x1], #8\n"
       "st1 {v6.s}[2], [x1], #4\n"
-      : [rhs] "+r"(rhs), [lhs] "+r"(lhs), [result] "+r"(result)
-      : [count] "r"(params.kernel.count),
-        [stride] "r"(params.output_stream.stride),
+      : [count] "+r"(params_count_copy), [rhs] "+r"(rhs), [lhs] "+r"(lhs),
+        [result] "+r"(result)
+      : [stride] "r"(params.output_stream.stride),
         [scale] "r"(params.kernel.scale)
       : "x0", "x1", "v0", "v1", "v2", "v3", "v4", "v5", "v6", "v7", "v8", "v9",
         "v10", "v11", "v12", "v13", "v14", "v15", "v16", "v17", "v18", "cc",
diff --git a/meta/transform_kernels_arm_32.h b/meta/transform_kernels_arm_32.h
index 64e744e..06cbe2b 100644
--- a/meta/transform_kernels_arm_32.h
+++ b/meta/transform_kernels_arm_32.h
@@ -5590,8 +5590,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5734,8 +5735,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5878,8 +5880,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6025,8 +6028,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6169,8 +6173,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6329,8 +6334,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6488,8 +6494,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6650,8 +6657,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6807,8 +6815,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6982,8 +6991,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7157,8 +7167,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7335,8 +7346,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7701,8 +7714,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7891,8 +7905,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8084,8 +8099,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "pld [%[output]]\n"
       "subs %[rows], %[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
diff --git a/meta/transform_kernels_arm_64.h b/meta/transform_kernels_arm_64.h
index 86b5411..0f3f80e 100644
--- a/meta/transform_kernels_arm_64.h
+++ b/meta/transform_kernels_arm_64.h
@@ -5625,8 +5625,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "bne 2b\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5766,8 +5767,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -5907,8 +5909,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6051,8 +6054,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6192,8 +6196,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6349,8 +6354,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6506,8 +6512,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6666,8 +6673,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6820,8 +6828,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -6992,8 +7001,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7164,8 +7174,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7339,8 +7350,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7510,8 +7522,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7697,8 +7710,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -7884,8 +7898,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
@@ -8074,8 +8089,9 @@ inline void Transform1DKernel<uint8_t, int32_t, BiasAdd<uint8_t>, 16,
       "prfm pldl1keep, [%x[output]]\n"
       "subs %x[rows], %x[rows], #1\n"
       "bne 1b\n"
-      : [input] "+r"(input), [output] "+r"(output)
-      : [count] "r"(params.count), [rows] "r"(params_rows_copy),
+      : [input] "+r"(input), [output] "+r"(output),
+        [rows] "+r"(params_rows_copy)
+      : [count] "r"(params.count),
         [output_range_offset] "m"(params.output_range_offset),
         [input_range_scale] "m"(params.input_range_scale),
         [one_over_output_range_scale] "m"(params.one_over_output_range_scale),
-- 
2.43.0


From 5bafb9dd560de090b63b12de15d283c3d674d1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:04:45 +0000
Subject: [PATCH 14/14] fix: honour the output offset when requantising on
 32-bit ARM

The 64-bit kernels add output_range_offset, the 32-bit ones ignored it.
---
 meta/generators/transform_kernels_common.py |   7 +
 meta/transform_kernels_arm_32.h             | 180 ++++++++++++++++++--
 2 files changed, 171 insertions(+), 16 deletions(-)

diff --git a/meta/generators/transform_kernels_common.py b/meta/generators/transform_kernels_common.py
index 8602993..59fefd8 100644
--- a/meta/generators/transform_kernels_common.py
+++ b/meta/generators/transform_kernels_common.py
@@ -247,6 +247,10 @@ class RequantizeTransformation(object):
         32, emitter, registers,
         registers.MapParameter('one_over_output_range_scale',
                                'params.one_over_output_range_scale'), 4)
+    self.output_range_offset = _DuplicateGeneralRegister(
+        32, emitter, registers,
+        registers.MapParameter('output_range_offset',
+                               'params.output_range_offset'), 4)
     emitter.EmitVSub('f32', self.range_min_delta, self.range_min_delta,
                      self.output_range_min)
 
@@ -276,6 +280,9 @@ class RequantizeTransformation(object):
       emitter.EmitVMul('f32', register, register,
                        self.one_over_output_range_scale)
 
+    for register in load:
+      emitter.EmitVAdd('f32', register, register, self.output_range_offset)
+
     for register in load:
       emitter.EmitVCvt('s32', 'f32', register, register)
 
diff --git a/meta/transform_kernels_arm_32.h b/meta/transform_kernels_arm_32.h
index 06cbe2b..e0071d1 100644
--- a/meta/transform_kernels_arm_32.h
+++ b/meta/transform_kernels_arm_32.h
@@ -43,6 +43,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 0>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       "1:"
@@ -72,6 +73,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 0>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -93,9 +98,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 0>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -118,6 +125,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 1>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -151,6 +159,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 1>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -178,6 +190,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 1>::Transform(
       "vmul.f32 q0, q0, q7\n"
       "vadd.f32 q0, q0, q4\n"
       "vmul.f32 q0, q0, q8\n"
+      "vadd.f32 q0, q0, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vqmovn.s32 d0, q0\n"
       "vqmovun.s16 d0, q0\n"
@@ -190,9 +203,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 1>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -215,6 +230,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 2>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -248,6 +264,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 2>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -275,6 +295,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 2>::Transform(
       "vmul.f32 q0, q0, q7\n"
       "vadd.f32 q0, q0, q4\n"
       "vmul.f32 q0, q0, q8\n"
+      "vadd.f32 q0, q0, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vqmovn.s32 d0, q0\n"
       "vqmovun.s16 d0, q0\n"
@@ -287,9 +308,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 2>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -312,6 +335,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 3>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -345,6 +369,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 3>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -373,6 +401,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 3>::Transform(
       "vmul.f32 q0, q0, q7\n"
       "vadd.f32 q0, q0, q4\n"
       "vmul.f32 q0, q0, q8\n"
+      "vadd.f32 q0, q0, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vqmovn.s32 d0, q0\n"
       "vqmovun.s16 d0, q0\n"
@@ -386,9 +415,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 3>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -411,6 +442,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 4>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -444,6 +476,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 4>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -471,6 +507,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 4>::Transform(
       "vmul.f32 q0, q0, q7\n"
       "vadd.f32 q0, q0, q4\n"
       "vmul.f32 q0, q0, q8\n"
+      "vadd.f32 q0, q0, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vqmovn.s32 d0, q0\n"
       "vqmovun.s16 d0, q0\n"
@@ -483,9 +520,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 4>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -508,6 +547,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 5>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -541,6 +581,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 5>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -574,6 +618,8 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 5>::Transform(
       "vadd.f32 q1, q1, q4\n"
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vqmovn.s32 d0, q0\n"
@@ -589,9 +635,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 5>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -614,6 +662,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 6>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -647,6 +696,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 6>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -679,6 +732,8 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 6>::Transform(
       "vadd.f32 q1, q1, q4\n"
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vqmovn.s32 d0, q0\n"
@@ -694,9 +749,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 6>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -719,6 +776,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -752,6 +810,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -785,6 +847,8 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
       "vadd.f32 q1, q1, q4\n"
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vqmovn.s32 d0, q0\n"
@@ -801,9 +865,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 7>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -826,6 +892,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 8>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -859,6 +926,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 8>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -891,6 +962,8 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 8>::Transform(
       "vadd.f32 q1, q1, q4\n"
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vqmovn.s32 d0, q0\n"
@@ -905,9 +978,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 8>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -930,6 +1005,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 9>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -963,6 +1039,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 9>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1001,6 +1081,9 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 9>::Transform(
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1019,9 +1102,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 9>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1044,6 +1129,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 10>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1077,6 +1163,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 10>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1115,6 +1205,9 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 10>::Transform(
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1133,9 +1226,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 10>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1158,6 +1253,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 11>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1191,6 +1287,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 11>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1230,6 +1330,9 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 11>::Transform(
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1249,9 +1352,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 11>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1274,6 +1379,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 12>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1307,6 +1413,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 12>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1345,6 +1455,9 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 12>::Transform(
       "vmul.f32 q0, q0, q8\n"
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1363,9 +1476,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 12>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1388,6 +1503,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 13>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1421,6 +1537,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 13>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1465,6 +1585,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 13>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1486,9 +1610,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 13>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1511,6 +1637,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 14>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1544,6 +1671,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 14>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1587,6 +1718,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 14>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1608,9 +1743,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 14>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
@@ -1633,6 +1770,7 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 15>::Transform(
       "vdup.32 q6, %[input_range_offset]\n"
       "vdup.32 q7, %[input_range_scale]\n"
       "vdup.32 q8, %[one_over_output_range_scale]\n"
+      "vdup.32 q9, %[output_range_offset]\n"
       "vsub.f32 q4, q4, q5\n"
 
       // Reduce count by leftovers.
@@ -1666,6 +1804,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 15>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1710,6 +1852,10 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 15>::Transform(
       "vmul.f32 q1, q1, q8\n"
       "vmul.f32 q2, q2, q8\n"
       "vmul.f32 q3, q3, q8\n"
+      "vadd.f32 q0, q0, q9\n"
+      "vadd.f32 q1, q1, q9\n"
+      "vadd.f32 q2, q2, q9\n"
+      "vadd.f32 q3, q3, q9\n"
       "vcvt.s32.f32 q0, q0\n"
       "vcvt.s32.f32 q1, q1\n"
       "vcvt.s32.f32 q2, q2\n"
@@ -1732,9 +1878,11 @@ inline void Transform1DKernel<int32_t, uint8_t, Requantize, 16, 15>::Transform(
         [output_range_min] "r"(params.output_range_min),
         [input_range_offset] "r"(params.input_range_offset),
         [one_over_output_range_scale] "r"(params.one_over_output_range_scale),
+        [output_range_offset] "r"(params.output_range_offset),
         [input_range_scale] "r"(params.input_range_scale)
       : "d0", "d1", "d2", "d3", "d4", "d5", "d6", "d7", "d8", "d9", "d10",
-        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "cc", "memory");
+        "d11", "d12", "d13", "d14", "d15", "d16", "d17", "d18", "d19", "cc",
+        "memory");
 }
 
 template <>
-- 
2.43.0

