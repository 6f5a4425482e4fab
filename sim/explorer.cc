// explorer.cc: seeded search over schedules and faults, replay, minimisation.
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

#include <algorithm>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

#include "scenario.h"
#include "simrt.h"

extern "C" int sim_watch(u64);

namespace {

struct Run {
  std::string scen;
  u64 seed = 0;
  int by_seed = 0;   // replayed by drawing from the seed again, not from the log
  SimCfg cfg;
  Workload w;
  std::vector<Decision> dec;
};
struct Outcome {
  bool violated = false, crashed = false;
  std::string cls, msg;
  u64 hash_full = 0, hash_sched = 0;
  u64 vaddr = 0;
};

SimResult* g_sh;

const Scenario* find_scen(const std::string& n) {
  for (int i = 0; g_scenarios[i]; i++) if (n == g_scenarios[i]->name) return g_scenarios[i];
  return nullptr;
}
double now_s() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

struct BodyArg { const Scenario* s; const Workload* w; };
void body(void* p) { BodyArg* b = (BodyArg*)p; b->s->exec(b->w); }

// Executes one run in a forked child.
Outcome execute(const Run& r, bool explore, bool trace = false, u64 watch = 0) {
  memset((void*)g_sh, 0, offsetof(SimResult, dec));
  fflush(stdout);
  pid_t pid = fork();
  if (pid < 0) { perror("fork"); exit(3); }
  if (pid == 0) {
    struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (!trace) {
      int fd = open("/dev/null", O_RDWR);
      if (fd >= 0) { dup2(fd, 2); }
    }
    SimCfg c = r.cfg;
    c.seed = r.seed; c.explore = explore; c.trace = trace;
    if (watch) sim_watch(watch);
    static BodyArg ba; ba.s = find_scen(r.scen); ba.w = &r.w;
    sim_main(c, r.dec.data(), (u32)r.dec.size(), g_sh, body, &ba);
  }
  int st = 0;
  while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
  Outcome o;
  o.hash_full = g_sh->hash_full; o.hash_sched = g_sh->hash_sched;
  if (g_sh->violated) {
    o.violated = true; o.cls = g_sh->vclass; o.msg = g_sh->msg; o.vaddr = g_sh->vaddr;
  } else if (!g_sh->done) {
    o.violated = true; o.crashed = true; o.cls = "crash";
    char b[100]; snprintf(b, sizeof b, "process ended abnormally (wait status 0x%x)", st); o.msg = b;
  }
  return o;
}

void draw_cfg(Rng& r, SimCfg* c) {
  static const u32 ps[] = {5, 20, 60, 150, 300, 500, 800};
  static const u64 mm[] = {0, 0, 0, 30, 200, 1000, 5000, 20000};
  int k = (int)r.below(10);
  c->policy = k < 5 ? P_RANDOM : k < 8 ? P_PCT : P_STARVE;
  c->p_sync = ps[r.below(7)];
  c->mem_mean = mm[r.below(8)];
  c->p_spur = r.chance(500) ? (u32)r.range(2, 120) : 0;
  c->p_stale = r.chance(500) ? (u32)r.range(10, 500) : 0;
  c->p_burn = r.chance(300) ? (u32)r.range(5, 200) : 0;
  c->p_oversleep = r.chance(500) ? 300 : 0;
  c->p_eintr = r.chance(250) ? 200 : 0;
  c->p_casfail = r.chance(300) ? 200 : 0;
  c->p_tsd = r.chance(500) ? 500 : 0;
  static const u64 hz[] = {2000, 20000, 200000, 800000};
  c->horizon = hz[r.below(4)];
  c->pct_depth = (u32)r.range(1, 6);
  static const u64 pl[] = {300, 1000, 5000, 30000, 200000};
  c->pct_len = pl[r.below(5)];
  c->victims = (u32)r.range(1, 2);
  c->ncpu = (int)r.range(1, 8);
  c->heap_reuse = r.chance(400);
}

u64 hash_str(const std::string& s) { u64 h = 1469598103934665603ull; for (char ch : s) h = (h ^ (u8)ch) * 0x100000001b3ull; return h; }

Run make_run(const std::string& scen, int prop, u64 base, u64 index, int thorough) {
  Run r;
  r.scen = scen;
  r.seed = sim_mix(sim_mix(base * 1000003 + prop) ^ hash_str(scen)) ^ sim_mix(index);
  Rng g(r.seed);
  memset((void*)&r.w, 0, sizeof r.w);
  r.w.prop = prop; r.w.thorough = thorough;
  draw_cfg(g, &r.cfg);
  find_scen(scen)->gen(g, &r.w, &r.cfg);
  return r;
}

// ------------------------------------------------------------ replay files -
#define CFG_FIELDS(X) X(policy) X(p_sync) X(mem_mean) X(p_spur) X(p_stale) X(p_burn) X(p_oversleep) X(p_eintr) \
  X(p_casfail) X(p_tsd) X(horizon) X(pct_depth) X(pct_len) X(victims) X(fail_alloc) X(fail_alloc_len) X(fail_create) \
  X(fail_create_len) X(ncpu) X(heap_reuse) X(budget) X(idle_budget) X(race)

bool write_replay(const std::string& path, const Run& r, const Outcome& o, const std::string& extra) {
  FILE* f = fopen(path.c_str(), "w");
  if (!f) return false;
  fprintf(f, "# simulated run: workload, then every scheduling and fault decision that\n# differs from the default (thread, its event number, kind, value)\n");
  fprintf(f, "%s", extra.c_str());
  fprintf(f, "scenario %s\nprop %d\nthorough %d\nseed %llu\n", r.scen.c_str(), r.w.prop, r.w.thorough, (unsigned long long)r.seed);
#define X(n) fprintf(f, "cfg " #n " %lld\n", (long long)r.cfg.n);
  CFG_FIELDS(X)
#undef X
  for (int i = 0; i < r.w.nops; i++) {
    fprintf(f, "op");
    int n = kOpArgs; while (n > 1 && !r.w.op[i].a[n - 1]) n--;
    for (int k = 0; k < n; k++) fprintf(f, " %lld", (long long)r.w.op[i].a[k]);
    fprintf(f, "\n");
  }
  if (r.by_seed) fprintf(f, "byseed 1\n");
  for (auto& d : r.dec) fprintf(f, "dec %u %llu %s %llu\n", d.tid, (unsigned long long)d.ltick, kDecNames[d.kind], (unsigned long long)d.value);
  fprintf(f, "expect %s\n", o.cls.c_str());
  std::string m = o.msg; for (char& ch : m) if (ch == '\n') ch = ' ';
  fprintf(f, "message %s\n", m.c_str());
  fclose(f);
  return true;
}
bool read_replay(const char* path, Run* r, std::string* expect) {
  FILE* f = fopen(path, "r");
  if (!f) return false;
  char line[8192];
  memset((void*)&r->w, 0, sizeof r->w);
  while (fgets(line, sizeof line, f)) {
    char key[64], k2[64]; int n = 0;
    if (sscanf(line, "%63s%n", key, &n) != 1 || key[0] == '#') continue;
    const char* p = line + n;
    std::string k = key;
    if (k == "scenario") { sscanf(p, "%63s", k2); r->scen = k2; }
    else if (k == "prop") r->w.prop = atoi(p);
    else if (k == "thorough") r->w.thorough = atoi(p);
    else if (k == "seed") r->seed = strtoull(p, nullptr, 10);
    else if (k == "byseed") r->by_seed = atoi(p);
    else if (k == "expect") { sscanf(p, "%63s", k2); *expect = k2; }
    else if (k == "cfg") {
      long long v; sscanf(p, "%63s %lld", k2, &v);
#define X(nm) if (!strcmp(k2, #nm)) r->cfg.nm = (decltype(r->cfg.nm))v;
      CFG_FIELDS(X)
#undef X
    } else if (k == "op") {
      Op& o = r->w.add();
      char* e = (char*)p;
      for (int i = 0; i < kOpArgs; i++) { char* q; long long v = strtoll(e, &q, 10); if (q == e) break; o.a[i] = v; e = q; }
    } else if (k == "dec") {
      Decision d; unsigned t; unsigned long long l, v;
      if (sscanf(p, "%u %llu %63s %llu", &t, &l, k2, &v) == 4) {
        d.tid = t; d.ltick = l; d.value = v; d.kind = 0;
        for (int i = 1; i < D_NKINDS; i++) if (!strcmp(k2, kDecNames[i])) d.kind = i;
        if (d.kind) r->dec.push_back(d);
      }
    }
  }
  fclose(f);
  return find_scen(r->scen) != nullptr;
}

// ------------------------------------------------------------- minimiser ---
struct Minimiser {
  Run best; std::string cls; double deadline; int tries = 0;
  bool still(const Run& r) {
    tries++;
    Outcome o = execute(r, false);
    return o.violated && o.cls == cls;
  }
  bool time_up() { return now_s() > deadline; }
  void min_decisions() {
    size_t chunk = std::max<size_t>(1, best.dec.size() / 2);
    {
      Run r = best; r.dec.clear();
      if (still(r)) { best = r; return; }
    }
    // the shortest failing prefix, roughly
    {
      size_t lo = 0, hi = best.dec.size();
      while (lo + 1 < hi && !time_up()) {
        size_t mid = (lo + hi) / 2;
        Run r = best; r.dec.resize(mid);
        if (still(r)) hi = mid; else lo = mid;
      }
      Run r = best; r.dec.resize(hi);
      if (still(r)) best = r;
    }
    chunk = std::max<size_t>(1, best.dec.size() / 2);
    while (!time_up()) {
      bool any = false;
      for (size_t i = 0; i < best.dec.size() && !time_up();) {
        Run r = best;
        size_t e = std::min(i + chunk, r.dec.size());
        r.dec.erase(r.dec.begin() + i, r.dec.begin() + e);
        if (still(r)) { best = r; any = true; } else i += chunk;
      }
      if (chunk == 1) { if (!any) break; }
      else chunk = std::max<size_t>(1, chunk / 2);
    }
  }
  void min_ops() {
    for (int i = best.w.nops - 1; i >= 0 && !time_up(); i--) {
      if (best.w.nops <= 1) break;
      Run r = best;
      for (int k = i; k + 1 < r.w.nops; k++) r.w.op[k] = r.w.op[k + 1];
      r.w.nops--;
      if (still(r)) best = r;
    }
  }
  void min_args() {
    for (int i = 0; i < best.w.nops && !time_up(); i++)
      for (int k = 1; k < kOpArgs && !time_up(); k++) {
        i64 v = best.w.op[i].a[k];
        if (!v) continue;
        i64 cands[4] = {0, 1, v / 2, v - (v > 0 ? 1 : -1)};
        for (int q = 0; q < 4; q++) {
          if (cands[q] == best.w.op[i].a[k]) continue;
          Run r = best; r.w.op[i].a[k] = cands[q];
          if (still(r)) { best = r; if (q >= 2) q = 1; v = best.w.op[i].a[k]; cands[2] = v / 2; cands[3] = v - (v > 0 ? 1 : -1); if (!v) break; }
          if (time_up()) break;
        }
      }
  }
  void go() {
    min_decisions();
    for (int round = 0; round < 3 && !time_up(); round++) {
      int n0 = best.w.nops; size_t d0 = best.dec.size();
      min_ops();
      min_args();
      min_decisions();
      if (best.w.nops == n0 && best.dec.size() == d0 && round) break;
    }
  }
};

std::string jstr(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
std::string sample_text(const Run& r) {
  std::string s = r.scen + ":";
  for (int i = 0; i < r.w.nops && i < 6; i++) {
    s += " (";
    int n = kOpArgs; while (n > 1 && !r.w.op[i].a[n - 1]) n--;
    for (int k = 0; k < n; k++) { if (k) s += ","; s += std::to_string((long long)r.w.op[i].a[k]); }
    s += ")";
  }
  if (r.w.nops > 6) s += " ...";
  char b[160];
  snprintf(b, sizeof b, " | policy=%d p_sync=%u mem=%llu ncpu=%d seed=%llu", r.cfg.policy, r.cfg.p_sync, (unsigned long long)r.cfg.mem_mean, r.cfg.ncpu, (unsigned long long)r.seed);
  return s + b;
}

struct Stats {
  u64 nondet = 0, unrepeatable = 0; std::string nondet_msg;
  u64 runs = 0, reruns = 0, ticks = 0, switches = 0, syncops = 0, virt_ns = 0, threads = 0, failstop = 0, nontrivial = 0, decisions = 0;
  u64 maxticks = 0;
  u64 fault[D_NKINDS] = {0}, runs_with_fault[D_NKINDS] = {0};
  std::map<std::string, u64> probes;
  std::map<std::string, u64> per_scen;
  std::unordered_set<u64> inter;
  std::vector<std::string> samples;
  std::map<std::string, u64> other; std::map<std::string, std::string> other_msg;
  u64 harness = 0; std::string harness_msg;
};

int explore_main(int argc, char** argv) {
  std::string scens, out, replay_out; int prop = 0, thorough = 0, cpu = -1; u64 base = 1, start = 0, stride = 1, maxruns = ~0ull; double secs = 10, minsecs = 25;
  std::string hashfile, classes;
  for (int i = 2; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--scen") scens = v;
    else if (a == "--prop") prop = atoi(v.c_str());
    else if (a == "--seed") base = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--start") start = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--stride") stride = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--runs") maxruns = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--time") secs = atof(v.c_str());
    else if (a == "--mintime") minsecs = atof(v.c_str());
    else if (a == "--out") out = v;
    else if (a == "--hashes") hashfile = v;
    else if (a == "--replay-out") replay_out = v;
    else if (a == "--thorough") thorough = atoi(v.c_str());
    else if (a == "--classes") classes = v;
    else if (a == "--cpu") cpu = atoi(v.c_str());
  }
  if (cpu >= 0) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(cpu, &s); sched_setaffinity(0, sizeof s, &s); }
  std::vector<std::string> names;
  for (size_t p = 0; p < scens.size();) { size_t q = scens.find(',', p); if (q == std::string::npos) q = scens.size(); names.push_back(scens.substr(p, q - p)); p = q + 1; }
  for (auto& n : names) if (!find_scen(n)) { fprintf(stderr, "no scenario %s\n", n.c_str()); return 3; }
  std::set<std::string> want;
  for (size_t p = 0; p < classes.size();) { size_t q = classes.find(',', p); if (q == std::string::npos) q = classes.size(); want.insert(classes.substr(p, q - p)); p = q + 1; }
  Stats st;
  double t0 = now_s();
  int rc = 0;
  std::string vjson = "null", err;
  for (u64 k = 0; k < maxruns && now_s() - t0 < secs; k++) {
    u64 idx = start + k * stride;
    const std::string& sc = names[idx / std::max<u64>(1, stride) % names.size()];
    Run r = make_run(sc, prop, base, idx, thorough);
    if (!want.empty() && !want.count("race")) r.cfg.race = 0;
    Outcome o = execute(r, true);
    st.runs++; st.per_scen[sc]++;
    st.ticks += g_sh->ticks; st.switches += g_sh->switches; st.syncops += g_sh->syncops; st.virt_ns += g_sh->virt_ns; st.threads += g_sh->threads;
    st.maxticks = std::max<u64>(st.maxticks, g_sh->ticks);
    st.failstop += g_sh->failstop; st.decisions += g_sh->ndec;
    u64 anyf = 0;
    for (int i = 1; i < D_NKINDS; i++) { st.fault[i] += g_sh->fault[i]; if (g_sh->fault[i]) { st.runs_with_fault[i]++; anyf = 1; } }
    const Scenario* S = find_scen(sc);
    for (int i = 0; S->probes && S->probes[i]; i++) st.probes[sc + "." + S->probes[i]] += g_sh->probe[i];
    if (st.inter.insert(o.hash_sched ^ (hash_str(sc))).second && (g_sh->switches > 1 || anyf)) st.nontrivial++;
    if (st.samples.size() < 2 || (st.samples.size() < 4 && st.runs % 97 == 0)) st.samples.push_back(sample_text(r));
    std::vector<Decision> dec(g_sh->dec, g_sh->dec + g_sh->ndec);
    bool overflow = g_sh->ndec >= kMaxDec - 64;
    if (o.violated && o.cls == "harness") { st.harness++; if (st.harness_msg.empty()) st.harness_msg = o.msg + " in " + sample_text(r); continue; }
    // a violation of some other property: counted, left to that property's check
    if (o.violated && !want.empty() && !want.count(o.cls)) {
      st.other[o.cls]++;
      if (!st.other_msg.count(o.cls)) st.other_msg[o.cls] = o.msg + " in " + sample_text(r);
      continue;
    }
    if (!o.violated && st.runs % 24 == 1) {
      // determinism: the same seed again, and the decision log replayed
      Outcome o2 = execute(r, true);
      st.reruns++;
      if (o2.hash_full != o.hash_full || o2.violated) { st.nondet++; if (st.nondet_msg.empty()) st.nondet_msg = "same seed, other execution: run " + std::to_string(idx) + " " + sample_text(r); }
      if (!overflow) {
        Run rr = r; rr.dec = dec;
        Outcome o3 = execute(rr, false);
        st.reruns++;
        if (o3.hash_full != o.hash_full || o3.violated) { st.nondet++; if (st.nondet_msg.empty()) st.nondet_msg = "replay of the decision log diverged: run " + std::to_string(idx) + " " + sample_text(r); }
      }
    }
    if (o.violated) {
      Outcome o2 = execute(r, true);
      if (!o2.violated || o2.cls != o.cls || o2.hash_full != o.hash_full) {
        // never reported: the search goes on for one that repeats
        st.unrepeatable++; if (st.nondet_msg.empty()) st.nondet_msg = "violation not repeatable with the same seed: " + o.cls + ": " + o.msg + " | " + sample_text(r);
        continue;
      }
      Run rr = r; rr.dec = dec;
      Outcome o3 = execute(rr, false);
      Minimiser m; m.best = rr; m.cls = o.cls; m.deadline = now_s() + minsecs;
      bool by_seed = overflow || !o3.violated || o3.cls != o.cls;
      if (by_seed) { m.best = r; m.best.by_seed = 1; }   // the seed repeats it, its log does not: keep the seed
      else m.go();
      Outcome of = execute(m.best, by_seed);
      if (!of.violated || of.cls != o.cls) { err = "minimised run does not fail"; rc = 3; break; }
      u64 va = of.vaddr;
      if (of.cls == "race" && va) { Outcome ow = execute(m.best, by_seed, false, va); if (ow.violated) of.msg = ow.msg; }
      char extra[400];
      snprintf(extra, sizeof extra, "# found as run %llu of scenario %s (base seed %llu); %zu of %zu decisions and %d of %d operations kept after %d replays\n",
               (unsigned long long)idx, sc.c_str(), (unsigned long long)base, m.best.dec.size(), dec.size(), m.best.w.nops, r.w.nops, m.tries);
      if (!write_replay(replay_out, m.best, of, extra)) { err = "cannot write replay file"; rc = 3; break; }
      char ex[300];
      snprintf(ex, sizeof ex, ",\"index\":%llu,\"seed\":%llu,\"decisions\":%zu,\"ops\":%d,\"tries\":%d}", (unsigned long long)idx, (unsigned long long)r.seed, m.best.dec.size(), m.best.w.nops, m.tries);
      vjson = "{\"class\":" + jstr(of.cls) + ",\"msg\":" + jstr(of.msg) + ",\"original\":" + jstr(o.msg) + ",\"scenario\":" + jstr(sc) + ",\"replay\":" + jstr(replay_out) + ex;
      rc = 1;
      break;
    }
  }
  double wall = now_s() - t0;
  // A rare divergence of an otherwise clean run does not falsify anything (what
  // is reported must replay); a common one means the simulator is not in control.
  if (!rc && (st.nondet > 2 + st.reruns / 100 || st.unrepeatable)) { err = st.nondet_msg; rc = 3; }
  if (!rc && st.harness > 5 + st.runs / 50) { err = "harness limit: " + st.harness_msg; rc = 3; }
  FILE* f = fopen(out.c_str(), "w");
  if (!f) { perror("out"); return 3; }
  fprintf(f, "{\"runs\":%llu,\"reruns\":%llu,\"nondet\":%llu,\"wall\":%.3f,\"ticks\":%llu,\"maxticks\":%llu,\"switches\":%llu,\"syncops\":%llu,\"virt_ns\":%llu,\"threads\":%llu,\"failstop\":%llu,\"decisions\":%llu,\"distinct\":%zu,\"nontrivial\":%llu,",
          (unsigned long long)st.runs, (unsigned long long)st.reruns, (unsigned long long)st.nondet, wall, (unsigned long long)st.ticks, (unsigned long long)st.maxticks, (unsigned long long)st.switches, (unsigned long long)st.syncops, (unsigned long long)st.virt_ns, (unsigned long long)st.threads, (unsigned long long)st.failstop, (unsigned long long)st.decisions, st.inter.size(), (unsigned long long)st.nontrivial);
  fprintf(f, "\"faults\":{");
  for (int i = 1; i < D_NKINDS; i++) fprintf(f, "%s\"%s\":[%llu,%llu]", i > 1 ? "," : "", kDecNames[i], (unsigned long long)st.fault[i], (unsigned long long)st.runs_with_fault[i]);
  fprintf(f, "},\"probes\":{");
  bool first = true;
  for (auto& p : st.probes) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"per_scenario\":{");
  first = true;
  for (auto& p : st.per_scen) { fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second); first = false; }
  fprintf(f, "},\"samples\":[");
  for (size_t i = 0; i < st.samples.size(); i++) fprintf(f, "%s%s", i ? "," : "", jstr(st.samples[i]).c_str());
  fprintf(f, "],\"harness\":%llu,\"other\":{", (unsigned long long)st.harness);
  first = true;
  for (auto& p : st.other) { fprintf(f, "%s%s:[%llu,%s]", first ? "" : ",", jstr(p.first).c_str(), (unsigned long long)p.second, jstr(st.other_msg[p.first]).c_str()); first = false; }
  fprintf(f, "},\"error\":%s,\"violation\":%s}\n", jstr(err).c_str(), vjson.c_str());
  fclose(f);
  if (!hashfile.empty()) {
    FILE* h = fopen(hashfile.c_str(), "wb");
    if (h) { for (u64 x : st.inter) fwrite(&x, 8, 1, h); fclose(h); }
  }
  return rc;
}

int replay_main(int argc, char** argv) {
  Run r; std::string expect;
  if (argc < 3 || !read_replay(argv[2], &r, &expect)) { fprintf(stderr, "cannot read replay file\n"); return 3; }
  bool trace = argc > 3 && !strcmp(argv[3], "--trace");
  Outcome o = execute(r, r.by_seed, trace);
  if (o.violated && o.cls == "race" && o.vaddr && !trace) { Outcome w = execute(r, r.by_seed, false, o.vaddr); if (w.violated) o.msg = w.msg; }
  if (o.violated) { printf("REPRODUCED class=%s expected=%s hash=%016llx\n%s\n", o.cls.c_str(), expect.c_str(), (unsigned long long)o.hash_full, o.msg.c_str()); return o.cls == expect ? 1 : 4; }
  printf("NOT-REPRODUCED expected=%s hash=%016llx\n", expect.c_str(), (unsigned long long)o.hash_full);
  return 0;
}

// One run by index: prints its hash (determinism studies).
int hash_main(int argc, char** argv) {
  // hash SCEN PROP BASE FROM TO [cpu]
  if (argc > 7) { cpu_set_t s; CPU_ZERO(&s); CPU_SET(atoi(argv[7]), &s); sched_setaffinity(0, sizeof s, &s); }
  for (u64 i = strtoull(argv[5], 0, 10); i < strtoull(argv[6], 0, 10); i++) {
    Run r = make_run(argv[2], atoi(argv[3]), strtoull(argv[4], 0, 10), i, 0);
    Outcome o = execute(r, true);
    printf("%llu %016llx %016llx %llu %s\n", (unsigned long long)i, (unsigned long long)o.hash_full, (unsigned long long)o.hash_sched, (unsigned long long)g_sh->ticks, o.violated ? o.cls.c_str() : "ok");
  }
  return 0;
}
int trace_main(int argc, char** argv) {
  // trace SCEN PROP BASE INDEX [RACE [also-replay]]
  Run r = make_run(argv[2], atoi(argv[3]), strtoull(argv[4], 0, 10), strtoull(argv[5], 0, 10), 0);
  if (argc > 6) r.cfg.race = atoi(argv[6]);
  printf("%s\n", sample_text(r).c_str());
  Outcome o = execute(r, true, true);
  r.dec.assign(g_sh->dec, g_sh->dec + g_sh->ndec);
  printf("-- exploration ends: %s %s %016llx\n", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash_full);
  if (argc > 7) {
    o = execute(r, false, true);
    printf("-- replay ends: %s %s %016llx\n", o.cls.c_str(), o.msg.c_str(), (unsigned long long)o.hash_full);
  }
  return 0;
}

}  // namespace

int main(int argc, char** argv) {
  // Fixed addresses everywhere: re-execute without address randomisation.
  int pers = personality(0xffffffff);
  if (pers >= 0 && !(pers & ADDR_NO_RANDOMIZE) && !getenv("SIM_NOASLR")) {
    setenv("SIM_NOASLR", "1", 1);
    if (personality(pers | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
  }
  signal(SIGPIPE, SIG_IGN);
  sim_preinit();
  g_sh = (SimResult*)mmap(nullptr, sizeof(SimResult), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  if (argc > 1 && !strcmp(argv[1], "explore")) return explore_main(argc, argv);
  if (argc > 1 && !strcmp(argv[1], "replay")) return replay_main(argc, argv);
  if (argc > 6 && !strcmp(argv[1], "hash")) return hash_main(argc, argv);
  if (argc > 5 && !strcmp(argv[1], "trace")) return trace_main(argc, argv);
  fprintf(stderr, "usage: explore|replay|hash|trace ...\n");
  return 3;
}
