// Scenario "prof": the sampling profiler, with labelled threads that come and go
// and products whose workers do too.  Built with GEMMLOWP_PROFILING.
#include <cstdlib>

#include "gemm_data.h"
#include "public/gemmlowp.h"
#include "profiling/profiler.h"

extern const Combo* const* const kCombos1;

namespace {
using gemmlowp::GemmContext;
using gemmlowp::ScopedProfilingLabel;

enum { PR_SESSIONS, PR_SAMPLES, PR_EXIT_DURING, PR_REG_DURING, PR_UNREG, PR_PRODUCTS, PR_WORKERS_EXIT, PR_EMPTY, PR_DEEP, PR_UPDATE, PR_PAIR, PR_MANY };
const char* const kProbes[] = {"sessions", "samples", "thread_ended_during_session", "thread_registered_during_session", "unregistered_thread", "products", "workers_ended_during_session", "session_without_samples", "nested_labels", "label_updated", "two_threads_registered_throughout", "many_threads", nullptr};

// Label i of the table belongs to thread script slot i / 4; the first of the
// four is the outermost label of that slot.
const char* const kLabels[] = {
    "main", "main-a", "main-b", "main-c", "one", "one-a", "one-b", "one-c", "two", "two-a", "two-b", "two-c",
    "three", "three-a", "three-b", "three-c", "four", "four-a", "four-b", "four-c"};
const int kSlots = 5, kDepth = 6;

GemmContext* ctx;
struct Span { int path[kDepth]; int depth; u64 from, to; int slot; };
struct Person { u64 reg_from, reg_to; u64 lab_from, lab_to; int slot; };
const int kSpans = 4096;
Span spans[kSpans]; int nspans;
Person people[128]; int npeople;
int g_session; u64 g_start_ns; int g_products_in_session, g_registered_now;

struct Me { int person; int stack[kDepth]; int open[kDepth]; int depth; int registered; };

HARNESS int span_open(Me* m) {
  if (nspans >= kSpans) sim_fail("harness", "too many label spans");
  Span& s = spans[nspans];
  memcpy(s.path, m->stack, sizeof s.path); s.depth = m->depth; s.from = sim_now(); s.to = ~0ull; s.slot = m->person;
  return nspans++;
}
HARNESS void span_close(int i) { if (i >= 0) spans[i].to = sim_now(); }
HARNESS void note_register_begin(Me* m) { if (m->person >= 0 && people[m->person].reg_from == ~0ull) people[m->person].reg_from = sim_now(); if (g_session) sim_probe(PR_REG_DURING); }
HARNESS void note_registered(Me* m) { m->registered = 1; g_registered_now++; }
HARNESS int person_new(int slot) {
  if (npeople >= 128) sim_fail("harness", "too many threads");
  Person& p = people[npeople]; p.reg_from = p.reg_to = p.lab_from = p.lab_to = ~0ull; p.slot = slot;
  return npeople++;
}
HARNESS void me_init(Me* m, int slot) { memset((void*)m, 0, sizeof *m); m->person = person_new(slot); }
HARNESS void person_gone(int i) { people[i].reg_to = sim_now(); if (g_session) sim_probe(PR_EXIT_DURING); }
HARNESS void me_push(Me* m, int label) { m->stack[m->depth] = label; m->depth++; m->open[m->depth - 1] = span_open(m); if (m->depth > 2) sim_probe(PR_DEEP); }
HARNESS void me_pushed(Me* m) { if (m->depth == 1) people[m->person].lab_from = sim_now(); }
HARNESS void me_popping(Me* m) { if (m->depth == 1) people[m->person].lab_to = sim_now(); }
HARNESS void me_popped(Me* m) { span_close(m->open[m->depth - 1]); m->depth--; }
HARNESS int me_update(Me* m, int label) { int old = m->open[m->depth - 1]; m->stack[m->depth - 1] = label; m->open[m->depth - 1] = span_open(m); sim_probe(PR_UPDATE); return old; }

void scope(Me* m, int label, const i64* a, int level);
void body(Me* m, const i64* a, int level) {
  int slot = people[m->person].slot;
  for (int i = 0; i < 1 + (int)umod(a[1] >> level, 2); i++) {
    if (level < (int)umod(a[2], 4)) scope(m, slot * 4 + 1 + (int)umod(a[3] + level + i, 3), a, level + 1);
    sim_idle_us(umod(a[4] * (level + 1), 4000));
  }
}
void scope(Me* m, int label, const i64* a, int level) {
  me_push(m, label);
  {
    ScopedProfilingLabel l(kLabels[label]);
    me_pushed(m);
    if (level == 1 && (a[5] & 1)) {
      int old = me_update(m, people[m->person].slot * 4 + 3);
      l.Update(kLabels[people[m->person].slot * 4 + 3]);
      span_close(old);
    }
    body(m, a, level);
    me_popping(m);
  }
  me_popped(m);
}
void do_register(Me* m) {
  note_register_begin(m);
  gemmlowp::RegisterCurrentThreadForProfiling();
  if (!m->registered) note_registered(m);
}

struct Thr { pthread_t th; const i64* a; int slot; int live; Me me; };
Thr thr[kSlots];
void* thr_main(void* p) {
  Thr* t = (Thr*)p;
  const i64* a = t->a;
  int when = (int)umod(a[6], 4);   // 0 before the labels, 1 inside, 2 never, 3 twice
  if (when == 0 || when == 3) do_register(&t->me);
  if (when == 2) sim_probe(PR_UNREG);
  me_push(&t->me, t->slot * 4);
  {
    ScopedProfilingLabel l(kLabels[t->slot * 4]);
    me_pushed(&t->me);
    if (when == 1 || when == 3) do_register(&t->me);
    body(&t->me, a, 0);
    me_popping(&t->me);
  }
  me_popped(&t->me);
  return nullptr;
}
HARNESS void spawned(Thr* t, const i64* a, int slot) { t->a = a; t->slot = slot; t->live = 1; me_init(&t->me, slot); }

// The printed tree against what the threads really did.
HARNESS int label_index(const char* s) { for (int i = 0; i < kSlots * 4; i++) if (!strcmp(s, kLabels[i])) return i; return -1; }
HARNESS void check_profile(const char* text, u64 t0, u64 t1, int eintr) {
  const char* h = strstr(text, "gemmlowp profile (");
  int threads = -1, samples = -1;
  if (!h || sscanf(h, "gemmlowp profile (%d threads, %d samples)", &threads, &samples) != 2) sim_fail("profile", "no profile was printed: '%.200s'", text);
  sim_probe(PR_SESSIONS);
  if (!samples) sim_probe(PR_EMPTY);
  for (int i = 0; i < samples; i++) sim_probe(PR_SAMPLES);
  // at most every registered thread once per tick
  int maxreg = 0, reg_throughout_finish = 0;
  for (int i = 0; i < npeople; i++) {
    Person& p = people[i];
    if (p.reg_from != ~0ull && p.reg_from <= t1 && p.reg_to >= t0) maxreg++;
  }
  (void)reg_throughout_finish;
  u64 maxticks = (t1 - t0) / 1000000 + 2;
  if (!eintr && (u64)samples > maxticks * (u64)maxreg) sim_fail("profile", "%d samples although at most %d threads were registered for at most %llu ticks", samples, maxreg, (unsigned long long)maxticks);
  if (threads > maxreg + 0) sim_fail("profile", "the profile speaks of %d threads, at most %d were registered", threads, maxreg);
  const char* p = strchr(h, '\n');
  int path[32]; int known[32]; double pct_at[32], sum_at[32]; int lastlevel = 0;
  double per_person_top[kSlots]; for (int i = 0; i < kSlots; i++) per_person_top[i] = 0;
  int lines = 0; double top = 0;
  u64 seen_at[32];   // labels of ours already shown at this level below the same parent
  memset(seen_at, 0, sizeof seen_at);
  memset(known, 0, sizeof known);
  while (p && *++p && *p != '\n') {
    int level = 1; while (!strncmp(p, "    ", 4)) { level++; p += 4; }
    char* e; double pct = strtod(p, &e);
    if (e == p || *e != '%') sim_fail("profile", "malformed line in the profile: '%.80s'", p);
    char lab[200]; int n = 0; e += 2; while (*e && *e != '\n' && n < 199) lab[n++] = *e++;
    lab[n] = 0;
    p = strchr(p, '\n');
    lines++;
    if (level > 30 || level > lastlevel + 1) sim_fail("profile", "badly nested profile");
    for (int l = lastlevel; l > level; l--) { double d = sum_at[l] - pct_at[l - 1]; if (d > 0.02 * lines || d < -0.02 * lines) sim_fail("profile", "children of a node add up to %.2f%%, not %.2f%%", sum_at[l], pct_at[l - 1]); }
    if (level > lastlevel) { sum_at[level] = 0; seen_at[level] = 0; }
    sum_at[level] += pct;
    lastlevel = level;
    pct_at[level] = pct;
    if (level == 1) top += pct;
    if (pct > 100.01 || pct < 0) sim_fail("profile", "a node has %.2f%% of the samples", pct);
    bool other = !strncmp(lab, "other", 5);
    int k = other ? -1 : label_index(lab);
    path[level] = k;
    if (k >= 0 && k < 64) { if (seen_at[level] >> k & 1) sim_fail("profile", "label '%s' is shown twice below the same parent", lab); seen_at[level] |= 1ull << k; }
    known[level] = (k >= 0) && (level == 1 || known[level - 1]);
    if (other) continue;
    if (k < 0) {
      if (!g_products_in_session) sim_fail("profile", "a label nobody pushed: '%s'", lab);
      continue;
    }
    if (!known[level]) sim_fail("profile", "label '%s' is shown below a label it was never nested in", lab);
    if (k % 4 == 0 && level == 1) per_person_top[k / 4] = pct;
    if (k % 4 == 0 && level != 1) sim_fail("profile", "outermost label '%s' shown nested", lab);
    // how often could this stack have been seen at most?
    double weight = pct * samples / 100.0;
    u64 most = 0;
    for (int i = 0; i < nspans; i++) {
      Span& s = spans[i];
      if (s.depth != level) continue;
      bool eq = true; for (int l = 0; l < level; l++) if (s.path[l] != path[l + 1]) eq = false;
      if (!eq) continue;
      u64 from = s.from, to = s.to < t1 ? s.to : t1;
      Person& q = people[s.slot];
      if (q.reg_from == ~0ull) continue;
      if (q.reg_from > from) from = q.reg_from;
      if (t0 > from) from = t0;
      if (from > to) continue;
      most += (to - from) / 1000000 + 1;
    }
    if (!most) sim_fail("profile", "a stack ending in '%s' was sampled that no registered thread had during the session", lab);
    if (!eintr && weight > (double)most + 0.01 * samples + 0.5) sim_fail("profile", "a stack ending in '%s' has %.1f samples; it existed for at most %llu ticks", lab, weight, (unsigned long long)most);
  }
  if (lines && (top > 100.0 + 0.02 * lines || top < 100.0 - 0.02 * lines)) sim_fail("profile", "top level adds up to %.2f%%", top);
  // every tick samples every registered thread once
  int ref = -1;
  for (int i = 0; i < npeople; i++) {
    Person& q = people[i];
    if (!(q.reg_from < t0 && q.reg_to > t1 && q.lab_from < t0 && q.lab_to > t1)) continue;
    int only = 1;
    for (int j = 0; j < npeople; j++) if (j != i && people[j].slot == q.slot && people[j].reg_from != ~0ull && people[j].reg_to > t0) only = 0;
    if (!only) continue;
    if (ref >= 0) {
      sim_probe(PR_PAIR);
      double d = (per_person_top[people[ref].slot] - per_person_top[q.slot]) * samples / 100;
      if (d > 0.01 * samples * 0.01 + 0.6 || d < -0.01 * samples * 0.01 - 0.6)
        sim_fail("profile", "two threads registered throughout were sampled %.2f%% and %.2f%% of the time", per_person_top[people[ref].slot], per_person_top[q.slot]);
    }
    ref = i;
  }
}

GemmData data;
Me me0;
u64 t_start, t_finish;
HARNESS void began() { g_session = 1; g_products_in_session = ctx != nullptr; t_start = sim_now(); sim_stdout_clear(); }
HARNESS void ended() { t_finish = sim_now(); g_session = 0; check_profile(sim_stdout_text(), t_start, t_finish, g_cfg.p_eintr != 0); }
HARNESS void prep(const Op& o) {
  i64 rows = clampi(o.a[4], 1, 200), cols = clampi(o.a[5], 1, 200), depth = clampi(o.a[6], 1, 1000);
  while (rows * cols * depth > 500000) depth /= 2;
  gd_prepare(&data, kCombos1[umod(o.a[3], 2)], (int)rows, (int)cols, (int)(depth < 1 ? 1 : depth), 0, 0, (int)clampi(o.a[9], 0, 20), (u64)o.a[10], 0);
  g_products_in_session = 1;
  sim_probe(PR_PRODUCTS);
}
int profiling;
void start() { began(); gemmlowp::StartProfiling(); profiling = 1; }
void finish() { gemmlowp::FinishProfiling(); profiling = 0; ended(); }
void join_slot(int s) {
  if (!thr[s].live) return;
  pthread_join(thr[s].th, 0);
  thr[s].live = 0;
  person_gone(thr[s].me.person);
}
void drop_ctx() {
  if (!ctx) return;
  if (profiling) sim_probe(PR_WORKERS_EXIT);
  GemmContext* c = ctx; ctx = nullptr; delete c;
}

void* warm_main(void*) { gemmlowp::RegisterCurrentThreadForProfiling(); { ScopedProfilingLabel l("warm"); } return nullptr; }

void exec(const Workload* w) {
  me_init(&me0, 0);
  // first use, so that the counts below are those of a running system
  do_register(&me0);
  pthread_t wt; pthread_create(&wt, 0, warm_main, 0); pthread_join(wt, 0);
  u64 blocks0 = sim_live_blocks(); int keys0 = sim_live_keys(), mutexes0 = sim_live_mutexes();
  if (w->nops && w->op[0].a[20]) { me_push(&me0, 0); }
  ScopedProfilingLabel* base = w->nops && w->op[0].a[20] ? new ScopedProfilingLabel(kLabels[0]) : nullptr;
  if (base) me_pushed(&me0);
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    switch (umod(o.a[0], 8)) {
      case 0: {
        int s = 1 + (int)umod(o.a[1], kSlots - 1);
        join_slot(s);
        if (sim_created_threads() > 48) break;
        spawned(&thr[s], o.a + 8, s);
        if (pthread_create(&thr[s].th, 0, thr_main, &thr[s])) sim_fail("harness", "cannot create");
        break;
      }
      case 1: join_slot(1 + (int)umod(o.a[1], kSlots - 1)); break;
      case 2: if (!profiling && sim_created_threads() < 50) start(); break;
      case 3: if (profiling) finish(); break;
      case 4: sim_idle_us(clampi(o.a[3], 0, 20000)); break;
      case 5:
        if (sim_created_threads() > 44) break;
        if (!ctx) { ctx = new GemmContext; ctx->set_max_num_threads((int)clampi(o.a[2], 1, 4)); }
        prep(o);
        kCombos1[umod(o.a[3], 2)]->fn(ctx, &data.g);
        gd_check(&data, "product while profiling");
        break;
      case 6: drop_ctx(); break;
      case 7: if (base) scope(&me0, 1 + (int)umod(o.a[1], 3), o.a + 8, 1); break;
    }
  }
  if (profiling && (w->nops && (w->op[0].a[21] & 1))) { drop_ctx(); for (int s = 1; s < kSlots; s++) join_slot(s); }
  if (profiling) finish();
  drop_ctx();
  for (int s = 1; s < kSlots; s++) join_slot(s);
  if (base) { me_popping(&me0); delete base; me_popped(&me0); }
  if (sim_created_threads() > 20) sim_probe(PR_MANY);
  if (sim_live_threads() != 0) sim_fail("profile", "%d threads are left", sim_live_threads());
  if (sim_live_keys() != keys0) sim_fail("leak", "%d thread-specific keys are left behind by %d ended threads", sim_live_keys() - keys0, sim_created_threads() - 1);
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks are left behind by ended threads and sessions", (long long)(sim_live_blocks() - blocks0));
  if (sim_live_mutexes() != mutexes0) sim_fail("leak", "%d mutexes are left behind by ended threads", sim_live_mutexes() - mutexes0);
}

void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[20] = r.chance(600); h.a[21] = r.below(2);
  int n = (int)r.range(2, 12);
  int session = 0;
  int heavy = 1;
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    u64 k = r.below(100);
    o.a[0] = k < 34 ? 0 : k < 46 ? 1 : k < 62 ? 2 : k < 72 ? 3 : k < 82 ? 4 : k < 90 ? 5 : k < 94 ? 6 : 7;
    if (!session && r.chance(250)) o.a[0] = 2;
    if (o.a[0] == 2) session = 1;
    if (o.a[0] == 3) session = 0;
    if (o.a[0] == 5 && !heavy) o.a[0] = 4;
    if (o.a[0] == 5) heavy--;
    o.a[1] = r.below(4); o.a[2] = r.range(1, 4);
    o.a[3] = o.a[0] == 4 ? r.range(0, 12000) : (i64)r.below(2);
    i64 rows = r.range(33, 80), cols = r.range(4, rows);
    if (r.chance(400)) { rows = r.range(1, 30); cols = r.range(1, 30); o.a[6] = r.range(1, 40); }
    else o.a[6] = r.range(2, 4) * 66000 / (rows * cols) + 1;
    o.a[4] = rows; o.a[5] = cols; o.a[9] = r.below(10); o.a[10] = (i64)r.below(1 << 30);
    if (o.a[0] == 0 || o.a[0] == 7) for (int q = 8; q < 16; q++) o.a[q] = r.below(100000);
  }
  if (cfg->mem_mean && cfg->mem_mean < 300) cfg->mem_mean = 1000;
  cfg->horizon = r.chance(700) ? 20000000 : 500000;
  cfg->budget = 200000000;
}
}  // namespace

extern const Scenario kScenProf = {"prof", gen, exec, kProbes};
