#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough   run one property's simulation check
   check.py replay FILE              replay a violation (needs the same tree)
   check.py selftest [SECS]          determinism study over every scenario
   check.py build                    build every binary (setup)

Exit status: 0 the property held on every simulated run, 1 a violation was found
(and printed), anything else: the machinery could not give an answer."""
import concurrent.futures, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
OUT = os.path.join(VERIF, "out")
EVID = os.path.join(VERIF, "evidence")
COV = os.environ.get("VERIF_COV")   # directory for coverage maps (tools/cov.py)
sys.path.insert(0, VERIF)
from plan import PLAN, SCENARIOS, VARIANTS  # noqa: E402


def die(msg, code=2):
    print("ERROR: " + msg, flush=True)
    sys.exit(code)


def tree_hash():
    """Content hash of everything a build depends on."""
    h = hashlib.sha256()
    files = []
    for root in (REPO, os.path.join(VERIF, "sim"), os.path.join(VERIF, "scen")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if not x.startswith(".") and x not in ("build", "out"))
            for f in sorted(fs):
                if f.endswith((".h", ".cc", ".c", ".cpp", ".hpp", ".inc", ".syms")):
                    files.append(os.path.join(d, f))
    for f in files:
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
    with open(os.path.join(VERIF, "plan.py"), "rb") as fh:
        h.update(fh.read())
    return h.hexdigest()[:16] + ("cov" if COV else "")


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, errors="replace", **kw)
    if p.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


class Builder:
    """Objects are shared between the binaries of a variant."""

    def __init__(self):
        self.hash = tree_hash()
        self.dir = os.path.join(BUILD, self.hash)
        os.makedirs(self.dir, exist_ok=True)
        # drop builds of other trees, least recently used first
        others = sorted((d for d in glob.glob(os.path.join(BUILD, "*")) if os.path.isdir(d) and d != self.dir), key=os.path.getmtime)
        for d in others[:-2]:
            shutil.rmtree(d, ignore_errors=True)
        self.pool = concurrent.futures.ThreadPoolExecutor(max_workers=os.cpu_count() or 8)
        self.futs = {}

    def obj(self, variant, kind, src):
        key = (VARIANTS[variant].get("prefix", "") if kind == "rt" else variant, src)
        if key not in self.futs:
            self.futs[key] = self.pool.submit(self._compile, variant, kind, src)
        return self.futs[key]

    def _compile(self, variant, kind, src):
        v = VARIANTS[variant]
        pre = v.get("prefix", "")
        if kind == "rt":
            tag = pre or "host-"
        else:
            tag = variant + "-"
        o = os.path.join(self.dir, tag + re.sub(r"[^A-Za-z0-9_]", "_", os.path.relpath(src, REPO if src.startswith(REPO + "/") else VERIF)) + ".o")
        if os.path.exists(o):
            return o
        tmp = o + ".%d.tmp" % os.getpid()
        if kind == "rt":
            run([pre + "g++"] + (["-DSIM_COV"] if COV else []) + ["-std=c++17", "-O3" if src.endswith("model.cc") else "-O2", "-g", "-w", "-fno-pie", "-c", src, "-o", tmp])
        else:
            run([pre + "g++", "-std=c++11", "-O2", "-g", "-w", "-fno-pie", "-U_FORTIFY_SOURCE", "-fsanitize=thread", "--param=tsan-instrument-func-entry-exit=0"]
                + [f.replace("@verif", VERIF) for f in v.get("flags", [])] + ["-I" + REPO, "-c", src, "-o", tmp])
            run([pre + "objcopy", "--redefine-syms=" + os.path.join(VERIF, "sim", "redefine.syms"), tmp])
        os.rename(tmp, o)
        return o

    def start(self, variant, scens):
        """Submits the compilations of one binary; returns what `link` needs."""
        rt = [os.path.join(VERIF, "sim", f) for f in ("simrt.cc", "explorer.cc", "model.cc")]
        objs = [self.obj(variant, "rt", f) for f in rt]
        for s in scens:
            for f in SCENARIOS[s]["src"]:
                objs.append(self.obj(variant, "scen", os.path.join(REPO, f[6:]) if f.startswith("@repo/") else os.path.join(VERIF, "scen", f)))
        return (variant, tuple(scens), objs)

    def link(self, st):
        variant, scens, futs = st
        objs = [f.result() for f in futs]
        v = VARIANTS[variant]
        pre = v.get("prefix", "")
        name = os.path.join(self.dir, "sim-%s-%s" % (variant, "-".join(scens)))
        if os.path.exists(name):
            return name
        reg = "%s-reg.%d.cc" % (name, os.getpid())
        with open(reg, "w") as f:
            f.write('#include "%s/sim/scenario.h"\n' % VERIF)
            for s in scens:
                f.write("extern const Scenario %s;\n" % SCENARIOS[s]["sym"])
            f.write("const Scenario* const g_scenarios[] = {%s, nullptr};\n" % ", ".join("&" + SCENARIOS[s]["sym"] for s in scens))
        tmp = name + ".%d.tmp" % os.getpid()
        run([pre + "g++", "-std=c++17", "-O2", "-no-pie", "-fno-pie", "-rdynamic", "-o", tmp, reg] + sorted(set(objs), key=objs.index) + ["-ldl", "-lpthread"])
        os.unlink(reg)
        os.rename(tmp, name)
        return name


def launcher(variant):
    v = VARIANTS[variant]
    return list(v.get("run", []))


def env_for(variant):
    e = dict(os.environ)
    e.pop("LD_PRELOAD", None)
    if VARIANTS[variant].get("run"):
        e["SIM_NOASLR"] = "1"
    return e


def symbolise(text, variant, binary):
    pcs = sorted(set(re.findall(r"pc 0x([0-9a-f]+)", text)))
    for pc in pcs:
        try:
            # the recorded address is a return address
            out = run([VARIANTS[variant].get("prefix", "") + "addr2line", "-f", "-C", "-i", "-s", "-e", binary, "0x%x" % (int(pc, 16) - 1)]).strip().split("\n")
        except Exception:
            continue
        fr = ["%s (%s)" % (out[i][:60], out[i + 1]) for i in range(0, len(out) - 1, 2)][:3]
        text = text.replace("pc 0x" + pc, "at " + " <- ".join(fr))
    return text


def replay_once(variant, binary, path):
    p = subprocess.run(launcher(variant) + [binary, "replay", path], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, universal_newlines=True, env=env_for(variant), timeout=300)
    return p.returncode, p.stdout


def known_findings():
    """The recorded (not repaired) defects from the committed file."""
    res = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                res.append(json.loads(line))
    return res


def merge(stats, d):
    for k in ("runs", "reruns", "nondet", "ticks", "switches", "syncops", "virt_ns", "threads", "failstop", "decisions", "nontrivial", "harness"):
        stats[k] = stats.get(k, 0) + d.get(k, 0)
    stats["maxticks"] = max(stats.get("maxticks", 0), d.get("maxticks", 0))
    stats["cpu_s"] = stats.get("cpu_s", 0) + d.get("wall", 0)
    for m in ("probes", "per_scenario"):
        t = stats.setdefault(m, {})
        for k, v in d.get(m, {}).items():
            t[k] = t.get(k, 0) + v
    t = stats.setdefault("faults", {})
    for k, v in d.get("faults", {}).items():
        o = t.get(k, [0, 0])
        t[k] = [o[0] + v[0], o[1] + v[1]]
    t = stats.setdefault("other", {})
    for k, v in d.get("other", {}).items():
        o = t.get(k, [0, v[1]])
        t[k] = [o[0] + v[0], o[1]]
    stats.setdefault("samples", []).extend(d.get("samples", [])[:2])


FAULT_NAMES = {
    "switch": "forced thread switch", "spurious_wakeup": "spurious condition wake-up", "stale_load": "stale atomic load (weak memory)",
    "spin_burn": "spinning thread keeps the CPU", "oversleep": "sleep overrun", "signal_pick": "signal wakes another waiter",
    "thread_create_failure": "thread creation fails", "alloc_failure": "allocation fails", "cas_spurious_failure": "weak compare-exchange fails",
    "tsd_order": "thread-specific destructors reordered", "key_create_failure": "key creation fails", "eintr": "sleep cut short (EINTR)",
    "late_timeout": "timed wait times out",
}


def explore(prop, tier, seed):
    t_start = time.time()
    plan = PLAN[prop]
    num = int(prop[1:])
    classes = ",".join(plan["classes"])
    b = Builder()
    jobs = [dict(j) for j in plan["jobs"]]
    # A build that no longer fits the tree (a harness naming something a
    # refactoring renamed) is left out as long as another build decides.
    sts = [b.start(j["variant"], j["scens"]) for j in jobs]
    unbuilt = []
    for j, st in zip(jobs, sts):
        try:
            j["bin"] = b.link(st)
        except RuntimeError as e:
            unbuilt.append((j, str(e)))
    jobs = [j for j in jobs if "bin" in j]
    if not jobs:
        die("build failed: %s" % unbuilt[0][1])
    for j, e in unbuilt:
        print("note: build %s/%s left out: it does not compile on this tree (%s)" % (j["variant"], "+".join(j["scens"]), next((l for l in e.split("\n") if "error" in l), "")[:200]))
    t_built = time.time()
    secs = plan.get("quick_s", 35) if tier == "quick" else plan.get("thorough_s", 900)
    if os.environ.get("VERIF_SECS"):
        secs = float(os.environ["VERIF_SECS"])
    run_dir = os.path.join(OUT, "%s-%d" % (prop, os.getpid()))
    shutil.rmtree(run_dir, ignore_errors=True)
    os.makedirs(run_dir)
    ncpu = os.cpu_count() or 8
    # one explorer per worker; jobs list how many of eight workers each gets
    workers = []
    for i, (u, _) in enumerate(unbuilt):
        jobs[i % len(jobs)]["workers"] += u["workers"]
    for ji, j in enumerate(jobs):
        n = j["workers"]
        for k in range(n):
            workers.append((ji, k, n))
    procs = []
    cpus = sorted(os.sched_getaffinity(0))
    for wi, (ji, k, n) in enumerate(workers):
        j = jobs[ji]
        base = os.path.join(run_dir, "w%d" % wi)
        cmd = launcher(j["variant"]) + [j["bin"], "explore", "--scen", ",".join(j["scens"]), "--prop", str(num), "--seed", str(seed),
              "--start", str(k), "--stride", str(n), "--time", str(secs), "--mintime", "12" if tier == "quick" else "60", "--classes", classes,
              "--out", base + ".json", "--hashes", base + ".h", "--replay-out", base + ".replay", "--thorough", "0" if tier == "quick" else "1",
              "--cpu", str(cpus[wi % len(cpus)])]
        env = env_for(j["variant"])
        if COV:
            env["SIM_COV_FILE"] = os.path.join(COV, os.path.basename(j["bin"]) + ".cov")
        lf = open(base + ".log", "w")
        procs.append({"p": subprocess.Popen(cmd, stdout=lf, stderr=lf, env=env, start_new_session=True), "base": base, "job": j, "rc": None})
    found = None
    deadline = time.time() + secs + 240
    try:
        while True:
            alive = False
            for w in procs:
                if w["rc"] is None:
                    w["rc"] = w["p"].poll()
                    if w["rc"] is None:
                        alive = True
                    elif w["rc"] == 1 and found is None:
                        found = w
            if found or not alive or time.time() > deadline:
                break
            time.sleep(0.05)
    finally:
        for w in procs:
            if w["p"].poll() is None:
                try:
                    os.killpg(w["p"].pid, signal.SIGKILL)
                except OSError:
                    pass
                w["p"].wait()
                w["killed"] = True
    stats, errors, hashes = {}, [], set()
    by_variant = {}
    for w in procs:
        try:
            d = json.load(open(w["base"] + ".json"))
        except Exception:
            if not (found and w.get("killed")):
                errors.append("explorer gave no report (rc %s): %s" % (w["rc"], open(w["base"] + ".log").read()[-500:]))
            continue
        merge(stats, d)
        bv = by_variant.setdefault(w["job"]["variant"], {"runs": 0, "what": VARIANTS[w["job"]["variant"]]["what"]})
        bv["runs"] += d["runs"]
        if not d["runs"] and not found:
            print("note: an explorer of the %s build made no runs" % w["job"]["variant"])
        if d["error"]:
            errors.append(d["error"])
        try:
            raw = open(w["base"] + ".h", "rb").read()
            salt = int(hashlib.sha256(w["job"]["variant"].encode()).hexdigest()[:15], 16)
            hashes.update(x ^ salt for x in struct.unpack("<%dQ" % (len(raw) // 8), raw))
        except OSError:
            pass
    rc, viol = 0, []
    if found:
        w, j = found, found["job"]
        v = json.load(open(w["base"] + ".json"))["violation"]
        rp = w["base"] + ".replay"
        # gate: two fresh processes must reproduce it, identically
        r1, r2 = replay_once(j["variant"], j["bin"], rp), replay_once(j["variant"], j["bin"], rp)
        if r1[0] != 1 or r2[0] != 1 or r1[1] != r2[1]:
            errors.append("violation did not replay identically in fresh processes: %s | %s | %s" % (v["msg"], r1, r2))
        else:
            final = os.path.join(OUT, "%s-%s-%s.replay" % (prop, tier, v["class"]))
            msg = symbolise(v["msg"], j["variant"], j["bin"])
            with open(rp) as f:
                body = f.read()
            with open(final, "w") as f:
                f.write("# property %s; replay with: python3 %s/check.py replay %s\nvariant %s\nscens %s\n# %s\n" % (prop, VERIF, final, j["variant"], ",".join(j["scens"]), msg.replace("\n", " ")))
                f.write(body)
            known = [k for k in known_findings() if k.get("status") == "known" and k["property"] == prop and k["class"] == v["class"] and k["scenario"] == v["scenario"] and re.search(k["match"], msg)]
            if known:
                pass
            else:
                rc = 1
                viol.append(msg)
                print("violation (%s, scenario %s, variant %s, seed %s): %s" % (v["class"], v["scenario"], j["variant"], v["seed"], msg))
                print("minimised to %d decisions over %d operations; replayed identically in two fresh processes" % (v["decisions"], v["ops"]))
                print("VIOLATION property=%s replay=%s" % (prop, final), flush=True)
    if not rc and not errors and stats.get("runs", 0) < plan.get("min_runs", 20):
        errors.append("only %d runs" % stats.get("runs", 0))
    if not rc:
        for name in plan.get("require", []):
            if not stats.get("probes", {}).get(name):
                errors.append("the situation '%s' was never reached" % name)
    wall = time.time() - t_start
    exp_wall = max(0.001, time.time() - t_built)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": stats.get("runs", 0),
            "distinct_nontrivial": min(len(hashes), stats.get("nontrivial", 0)),
            "rule": plan["rule"],
            "samples": stats.get("samples", [])[:8],
            "runs_per_hour": int(stats.get("runs", 0) * 3600 / exp_wall),
            "seeds_per_hour": int(stats.get("runs", 0) * 3600 / exp_wall),
            "simulated_seconds": round(stats.get("virt_ns", 0) * 1e-9, 3),
            "simulated_events": stats.get("ticks", 0),
            "longest_run_events": stats.get("maxticks", 0),
            "context_switches": stats.get("switches", 0),
            "synchronisation_operations": stats.get("syncops", 0),
            "threads_created": stats.get("threads", 0),
            "distinct_interleavings": len(hashes),
            "interleaving_measure": "distinct hashes of the sequence (thread, synchronisation operation, object, decision) of a run",
            "faults_injected": {FAULT_NAMES.get(k, k): {"times": v[0], "runs": v[1]} for k, v in stats.get("faults", {}).items() if v[0]},
            "determinism_reruns": stats.get("reruns", 0),
            "determinism_reruns_diverged": stats.get("nondet", 0),
            "failstop_endings": stats.get("failstop", 0),
            "situations_reached": {k: v for k, v in stats.get("probes", {}).items()},
            "runs_per_scenario": stats.get("per_scenario", {}),
            "runs_per_build": by_variant,
            "violation_classes_counted": plan["classes"],
            "other_properties_violations_seen": stats.get("other", {}),
            "components": {"real": plan["real"], "stub": plan["stub"]},
            "builds_left_out": ["%s/%s" % (j["variant"], "+".join(j["scens"])) for j, _ in unbuilt],
            "build_s": round(t_built - t_start, 1),
        },
        "assumptions": plan.get("assumptions", []),
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    os.makedirs(EVID, exist_ok=True)
    tmp = os.path.join(EVID, ".%s.json.tmp" % prop)
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True)
    os.rename(tmp, os.path.join(EVID, prop + ".json"))
    shutil.rmtree(run_dir, ignore_errors=True)
    for k in known_findings():
        if k.get("status") == "known" and k["property"] == prop:
            print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    if rc:
        return 1
    if errors:
        die("; ".join(errors)[:3000])
    o = stats.get("other", {})
    print("%s held: %d simulated runs (%d distinct interleavings) in %.0f s, %d events, %.1f simulated s%s" % (
        prop, stats["runs"], len(hashes), wall, stats["ticks"], stats["virt_ns"] * 1e-9,
        "; seen and left to other properties: " + ", ".join("%s x%d" % (k, v[0]) for k, v in o.items()) if o else ""))
    return 0


def cmd_replay(path):
    variant = scens = None
    for line in open(path):
        if line.startswith("variant "):
            variant = line.split()[1]
        if line.startswith("scens "):
            scens = line.split()[1].split(",")
    b = Builder()
    binary = b.link(b.start(variant, scens))
    p = subprocess.run(launcher(variant) + [binary, "replay", path] + sys.argv[3:], stdout=subprocess.PIPE, universal_newlines=True, env=env_for(variant))
    print(symbolise(p.stdout, variant, binary))
    return p.returncode


def cmd_build():
    b = Builder()
    sts, seen = [], set()
    for p in PLAN.values():
        for j in p["jobs"]:
            k = (j["variant"], tuple(j["scens"]))
            if k not in seen:
                seen.add(k)
                sts.append(b.start(*k))
    bad = 0
    for s in sts:
        try:
            b.link(s)
        except RuntimeError as e:
            bad += 1
            print("note: %s/%s does not build: %s" % (s[0], "+".join(s[1]), str(e)[:1500]))
    print("built %d simulation binaries in %s" % (len(sts) - bad, b.dir))
    return 0


def cmd_selftest(n):
    """Every scenario of every plan: the same seeds in other processes, on other
    CPUs and under load must give the same execution hash."""
    b = Builder()
    seen, bad, total = set(), 0, 0
    todo = []
    for prop, p in sorted(PLAN.items()):
        for j in p["jobs"]:
            for s in j["scens"]:
                if (j["variant"], s) not in seen:
                    seen.add((j["variant"], s))
                    todo.append((prop, j["variant"], s, b.start(j["variant"], j["scens"])))
    for prop, variant, s, st in todo:
        binary = b.link(st)
        m = n if not VARIANTS[variant].get("run") else max(8, n // 20)

        def go(cpu):
            return run(launcher(variant) + [binary, "hash", s, str(int(prop[1:])), "7", "0", str(m), str(cpu)], env=env_for(variant))
        with concurrent.futures.ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(go, range(min(4, os.cpu_count() or 1))))
        ok = all(o == outs[0] for o in outs)
        total += m * len(outs)
        print("%-8s %-10s %d seeds x %d processes: %s" % (variant, s, m, len(outs), "identical" if ok else "DIFFER"), flush=True)
        bad += not ok
    print("%d executions compared, %d scenario(s) not deterministic" % (total, bad))
    return 1 if bad else 0


def main():
    os.makedirs(OUT, exist_ok=True)
    if len(sys.argv) < 2:
        die(__doc__)
    c = sys.argv[1]
    if c == "replay":
        return cmd_replay(sys.argv[2])
    if c == "build":
        return cmd_build()
    if c == "selftest":
        return cmd_selftest(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
    if c not in PLAN:
        die("no such property: " + c)
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return explore(c, tier, int(os.environ.get("VERIF_SEED", "1") or 1))


if __name__ == "__main__":
    try:
        sys.exit(main())
    except SystemExit:
        raise
    except BaseException as e:  # never exit 1 for anything but a violation
        import traceback
        traceback.print_exc()
        sys.exit(2)
