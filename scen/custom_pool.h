// custom_pool.h: workers pools a user might plug in through the context.
#ifndef CUSTOM_POOL_H_
#define CUSTOM_POOL_H_
#include <vector>

#include "harness.h"
#include "public/gemmlowp.h"

// How a pool deals with a batch; every one of them is a conforming pool: each
// task gets an allocator nobody else uses meanwhile, runs once, and is destroyed
// before Execute returns.
enum PoolKind { CP_INORDER, CP_REVERSE, CP_SHUFFLE, CP_FRESH_ALLOC, CP_THREAD_PER_TASK, CP_FEW_THREADS, CP_OTHER_THREAD, CP_NKINDS };

struct CustomPool {
  int kind; u64 seed; int batches, tasks_seen, max_batch;
  gemmlowp::Allocator* alloc[12];
  // queue of the CP_FEW_THREADS kind
  pthread_mutex_t mu;
  std::vector<gemmlowp::Task*> queue; std::size_t next;
  struct Arg { CustomPool* p; gemmlowp::Task* t; int slot; } arg[64];

  CustomPool() : kind(0), seed(1), batches(0), tasks_seen(0), max_batch(0), next(0) {
    for (int i = 0; i < 12; i++) alloc[i] = nullptr;
    pthread_mutex_init(&mu, nullptr);
  }
  ~CustomPool() {
    for (int i = 0; i < 12; i++) delete alloc[i];
    pthread_mutex_destroy(&mu);
  }
  gemmlowp::Allocator* slot_alloc(int i) { if (!alloc[i]) alloc[i] = new gemmlowp::Allocator; return alloc[i]; }
  static void* run_one(void* p) { Arg* a = (Arg*)p; a->t->Run(); return 0; }
  static void* run_queue(void* p) {
    Arg* a = (Arg*)p;
    for (;;) {
      pthread_mutex_lock(&a->p->mu);
      gemmlowp::Task* t = a->p->next < a->p->queue.size() ? a->p->queue[a->p->next++] : nullptr;
      pthread_mutex_unlock(&a->p->mu);
      if (!t) return 0;
      t->local_allocator = a->p->alloc[a->slot];
      t->Run();
    }
  }
  // Both ways of handing over a batch: tasks the pool destroys, and tasks which
  // stay with the caller.
  void Execute(const std::vector<gemmlowp::Task*>& tasks) {
    RunBatch(tasks);
    for (gemmlowp::Task* t : tasks) delete t;
  }
  void LegacyExecuteAndDestroyTasks(const std::vector<gemmlowp::Task*>& tasks) { Execute(tasks); }
  template <typename T>
  void Execute(int count, T* tasks) {
    std::vector<gemmlowp::Task*> t;
    for (int i = 0; i < count; i++) t.push_back(&tasks[i]);
    RunBatch(t);
  }
  void RunBatch(const std::vector<gemmlowp::Task*>& tasks) {
    std::vector<gemmlowp::Task*> t = tasks;
    batches++;
    int n = (int)t.size();
    tasks_seen += n;
    if (n > max_batch) max_batch = n;
    int k = kind;
    if ((k == CP_THREAD_PER_TASK || k == CP_FEW_THREADS || k == CP_OTHER_THREAD) && sim_created_threads() + n > 58) k = CP_SHUFFLE;
    Rng r(seed * 31 + batches);
    if (k != CP_INORDER) for (int i = n - 1; i > 0; i--) { int j = k == CP_REVERSE ? 0 : (int)r.below(i + 1); if (k == CP_REVERSE) { if (i > (n - 1 - i)) std::swap(t[i], t[n - 1 - i]); } else std::swap(t[i], t[j]); }
    switch (k) {
      default:
        for (int i = 0; i < n; i++) { t[i]->local_allocator = slot_alloc(0); t[i]->Run(); }
        break;
      case CP_FRESH_ALLOC:
        for (int i = 0; i < n; i++) { gemmlowp::Allocator a; t[i]->local_allocator = &a; t[i]->Run(); }
        break;
      case CP_THREAD_PER_TASK: {
        pthread_t th[64];
        for (int i = 0; i < n; i++) { t[i]->local_allocator = slot_alloc(i % 12); }
        for (int b = 0; b < n; b += 12) {
          int e = b + 12 < n ? b + 12 : n;
          for (int i = b; i < e; i++) { arg[i].p = this; arg[i].t = t[i]; pthread_create(&th[i], nullptr, run_one, &arg[i]); }
          for (int i = b; i < e; i++) pthread_join(th[i], nullptr);
        }
        break;
      }
      case CP_FEW_THREADS: {
        pthread_t th[2];
        queue = t; next = 0;
        for (int i = 0; i < 2; i++) { slot_alloc(i); arg[i].p = this; arg[i].slot = i; pthread_create(&th[i], nullptr, run_queue, &arg[i]); }
        for (int i = 0; i < 2; i++) pthread_join(th[i], nullptr);
        queue.clear();
        break;
      }
      case CP_OTHER_THREAD: {   // nothing runs on the calling thread
        pthread_t th;
        queue = t; next = 0; slot_alloc(0);
        arg[0].p = this; arg[0].slot = 0;
        pthread_create(&th, nullptr, run_queue, &arg[0]);
        pthread_join(th, nullptr);
        queue.clear();
        break;
      }
    }
  }
};

class CustomContext : public gemmlowp::MultiThreadGemmContextBase {
 public:
  CustomPool* workers_pool() { return &pool_; }
 private:
  CustomPool pool_;
};
#endif
