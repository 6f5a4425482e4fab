// Scenario "alloc": reserve / commit / use / decommit histories of the scratch
// allocator, one allocator per thread, threads interleaved.
#include "harness.h"

#include "internal/allocator.h"

namespace {
using gemmlowp::Allocator;

enum { PR_CYCLES, PR_GROW, PR_REUSE, PR_FULL, PR_EMPTYBLOCK, PR_CALLERS, PR_EMPTYCOMMIT, PR_BIG, PR_MISUSE, PR_HUGE };
const char* const kProbes[] = {"cycles", "storage_grew", "storage_reused", "all_blocks_used", "empty_block", "several_threads", "commit_without_blocks", "large_block", "misuse", "megabytes", nullptr};

struct Blk { u8* p; size_t n; u8 tag; };
int g_callers;
u64 high[8];

HARNESS void check_block(Blk* b, int i, size_t esz) {
  if ((size_t)b[i].p % 64) sim_fail("allocator", "block %d is not aligned to a cache line", i);
  (void)esz;
  for (int k = 0; k < i; k++)
    if (b[i].n && b[k].n && b[i].p < b[k].p + b[k].n && b[k].p < b[i].p + b[i].n) sim_fail("allocator", "blocks %d and %d of one commit overlap", k, i);
}
HARNESS void note_total(int me, u64 total, int nblk, int zero) {
  sim_probe(PR_CYCLES);
  if (total > high[me]) { if (high[me]) sim_probe(PR_GROW); high[me] = total; } else sim_probe(PR_REUSE);
  if (nblk == 5) sim_probe(PR_FULL);
  if (!nblk) sim_probe(PR_EMPTYCOMMIT);
  if (zero) sim_probe(PR_EMPTYBLOCK);
  if (total > 20000) sim_probe(PR_BIG);
  if (total > (4 << 20)) sim_probe(PR_HUGE);
}
// Touches the block through instrumented code: both ends and a stride between.
template <typename T> void fill(T* p, size_t n, u8 tag) {
  if (!n) return;
  size_t st = n / 37 + 1;
  for (size_t i = 0; i < n; i += st) p[i] = (T)(tag + i);
  p[n - 1] = (T)(tag + n - 1);
}
template <typename T> void verify(T* p, size_t n, u8 tag, int blk) {
  if (!n) return;
  size_t st = n / 37 + 1;
  for (size_t i = 0; i < n; i += st) if (p[i] != (T)(tag + i)) sim_fail("allocator", "block %d does not keep what was written to it", blk);
  if (p[n - 1] != (T)(tag + n - 1)) sim_fail("allocator", "the end of block %d does not keep what was written to it", blk);
}

void cycle(Allocator* a, const Op& o, int me) {
  int nb = (int)clampi(o.a[3], 0, 5);
  Allocator::Handle h[5];
  size_t n[5]; int ty[5];
  u64 total = 0; int zero = 0;
  for (int i = 0; i < nb; i++) {
    n[i] = (size_t)clampi(o.a[4 + 2 * i], 0, 2500000); ty[i] = (int)umod(o.a[5 + 2 * i], 3);
    if (!n[i]) zero = 1;
    h[i] = ty[i] == 0 ? a->Reserve<std::uint8_t>(n[i]) : ty[i] == 1 ? a->Reserve<std::int32_t>(n[i]) : a->Reserve<std::int16_t>(n[i]);
    total += n[i] * (ty[i] == 0 ? 1 : ty[i] == 1 ? 4 : 2);
  }
  note_total(me, total, nb, zero);
  a->Commit();
  Blk b[5];
  for (int i = 0; i < nb; i++) {
    b[i].tag = (u8)(o.a[2] + i * 40);
    if (ty[i] == 0) { b[i].p = (u8*)a->GetPointer<std::uint8_t>(h[i]); b[i].n = n[i]; fill((std::uint8_t*)b[i].p, n[i], b[i].tag); }
    else if (ty[i] == 1) { b[i].p = (u8*)a->GetPointer<std::int32_t>(h[i]); b[i].n = n[i] * 4; fill((std::int32_t*)b[i].p, n[i], b[i].tag); }
    else { b[i].p = (u8*)a->GetPointer<std::int16_t>(h[i]); b[i].n = n[i] * 2; fill((std::int16_t*)b[i].p, n[i], b[i].tag); }
    check_block(b, i, 1);
  }
  sim_point();
  for (int i = 0; i < nb; i++) {
    // the same handle keeps giving the same block
    u8* again = ty[i] == 0 ? (u8*)a->GetPointer<std::uint8_t>(h[i]) : ty[i] == 1 ? (u8*)a->GetPointer<std::int32_t>(h[i]) : (u8*)a->GetPointer<std::int16_t>(h[i]);
    if (again != b[i].p) sim_fail("allocator", "block %d moved while committed", i);
    if (ty[i] == 0) verify((std::uint8_t*)b[i].p, n[i], b[i].tag, i);
    else if (ty[i] == 1) verify((std::int32_t*)b[i].p, n[i], b[i].tag, i);
    else verify((std::int16_t*)b[i].p, n[i], b[i].tag, i);
  }
  a->Decommit();
}

// Every one of these breaks the protocol; with assertions enabled the allocator
// has to notice.  Ends the run.
void misuse(int kind, i64 between) {
  sim_probe(PR_MISUSE);
  Allocator* a = new Allocator;
  const char* what = "";
  Allocator::Handle h = a->Reserve<std::uint8_t>(100), h2 = a->Reserve<std::int32_t>(50);
  if (kind == 2) { sim_allow_failstop(2); what = "a pointer was handed out before the commit"; a->GetPointer<std::uint8_t>(h); }
  else if (kind == 4) {
    for (int i = 2; i < 5; i++) a->Reserve<std::uint8_t>(10);
    sim_allow_failstop(2); what = "one block more than there is room for was reserved"; a->Reserve<std::uint8_t>(10);
  } else if (kind == 6) { sim_allow_failstop(2); what = "a decommit without a commit"; a->Decommit(); }
  else if (kind == 8) { sim_allow_failstop(2); what = "destruction with reserved blocks"; delete a; }
  else {
    a->Commit();
    if (kind == 1) { sim_allow_failstop(2); what = "a handle was honoured for another type"; a->GetPointer<std::int32_t>(h); }
    else if (kind == 3) { sim_allow_failstop(2); what = "a block was reserved while committed"; a->Reserve<std::uint8_t>(10); }
    else if (kind == 5) { sim_allow_failstop(2); what = "a second commit"; a->Commit(); }
    else if (kind == 7) { sim_allow_failstop(2); what = "destruction while committed"; delete a; }
    else {
      a->Decommit();
      if (kind == 0) {
        for (i64 i = 1; i < between; i++) { a->Reserve<std::int32_t>(60); a->Commit(); a->Decommit(); }
        for (int i = 0; i < 2; i++) a->Reserve<std::int32_t>(60);
        a->Commit();
        sim_allow_failstop(2); what = "a handle from an earlier commit was honoured"; a->GetPointer<std::int32_t>(h2);
      } else {
        sim_allow_failstop(2); what = "a handle was honoured after the decommit"; a->GetPointer<std::uint8_t>(h);
      }
    }
  }
  sim_allow_failstop(0);
  sim_fail("allocator", "misuse went unnoticed although assertions are enabled: %s", what);
}

void caller(const Workload* w, int me) {
  Allocator* a = new Allocator;
  for (int k = 1; k < w->nops; k++) {
    const Op& o = w->op[k];
    if (umod(o.a[1], g_callers) != me) continue;
    if (umod(o.a[0], 8) == 7) { delete a; a = new Allocator; continue; }
    cycle(a, o, me);
  }
  delete a;
}
void exec(const Workload* w) {
  g_callers = w->nops ? (int)clampi(w->op[0].a[1], 1, 4) : 1;
  if (g_callers > 1) sim_probe(PR_CALLERS);
  u64 blocks0 = sim_live_blocks();
  run_callers(w, g_callers, caller);
  if (w->nops && w->op[0].a[2]) misuse((int)umod(w->op[0].a[2], 10), clampi(w->op[0].a[3], 1, 70000));
  if (sim_live_blocks() != blocks0) sim_fail("leak", "%lld heap blocks leaked after all allocators were destroyed", (long long)(sim_live_blocks() - blocks0));
}
void gen(Rng& r, Workload* w, SimCfg* cfg) {
  Op& h = w->add();
  h.a[1] = r.chance(500) ? 1 : r.range(2, 4);
  h.a[2] = r.chance(80) ? r.range(1, 10) : 0;
  // how many commits later a stale handle turns up
  h.a[3] = 1;
  if (h.a[2] && r.chance(300)) {
    h.a[2] = 10;
    i64 p = (i64)1 << r.range(0, r.chance(100) ? 16 : 10);
    h.a[3] = r.chance(700) ? p : r.range(1, 600);
  }
  int n = (int)r.range(1, 14);
  // now and then totals over the whole range up to megabytes, in any order
  int wide = r.chance(120);
  if (wide) { n = (int)r.range(2, 7); h.a[1] = 1; }
  for (int i = 0; i < n; i++) {
    Op& o = w->add();
    o.a[0] = r.below(8); o.a[1] = r.below(4); o.a[2] = r.below(200);
    o.a[3] = r.chance(30) ? 0 : r.range(1, 5);
    int lg = wide ? (int)r.range(2, 22) : 0;
    for (int k = 0; k < 5; k++) {
      if (wide) { o.a[4 + 2 * k] = r.range(1, (i64)1 << (k ? r.range(1, lg > 12 ? lg - 2 : lg) : lg)); o.a[5 + 2 * k] = k ? r.below(3) : 0; continue; }
      u64 q = r.below(100);
      o.a[4 + 2 * k] = q < 5 ? 0 : q < 40 ? r.range(1, 70) : q < 75 ? r.range(1, 1100) : q < 90 ? (i64)64 * r.range(1, 64) + r.range(-1, 1) : r.range(1000, 40000);
      o.a[5 + 2 * k] = r.below(3);
    }
  }
  cfg->budget = 60000000;
}
}  // namespace

extern const Scenario kScenAlloc = {"alloc", gen, exec, kProbes};
