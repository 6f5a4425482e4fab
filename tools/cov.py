#!/usr/bin/env python3
"""cov.py DIR: which lines of the library the simulated runs reached.

Collect with  VERIF_COV=DIR python3 check.py Cxx quick  (any number of times), then
run this: for every binary that left a map in DIR, the instrumented instructions of
library files that no run reached, grouped by source line (a line counts as reached
when any instance of it was)."""
import collections, glob, os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
d = sys.argv[1]
only = sys.argv[2] if len(sys.argv) > 2 else ""
for m in sorted(glob.glob(os.path.join(d, "*.cov"))):
    name = os.path.basename(m)[:-4]
    if only and only not in name:
        continue
    bins = glob.glob(os.path.join(HERE, "..", "build", "*cov", name))
    if not bins:
        continue
    b = max(bins, key=os.path.getmtime)
    pre = "aarch64-linux-gnu-" if "a64" in name else "arm-linux-gnueabihf-" if "a32" in name else ""
    cov = open(m, "rb").read()
    base = None
    for l in subprocess.run([pre + "nm", b], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        if l.endswith(" __executable_start"):
            base = int(l.split()[0], 16)
    pcs = []
    prev = False
    for l in subprocess.run([pre + "objdump", "-d", "--no-show-raw-insn", b], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        mm = re.match(r"\s*([0-9a-f]+):\s+(\S+)\s*(.*)", l)
        if not mm:
            continue
        if prev:
            pcs.append(int(mm.group(1), 16))
        prev = mm.group(2) in ("call", "bl", "callq") and bool(re.search(r"<(__tsan_(read|write|unaligned|atomic|vptr)|sim_mem)", mm.group(3)))
    out = subprocess.run([pre + "addr2line", "-e", b, "-i"], input="\n".join("0x%x" % (p - 1) for p in pcs), stdout=subprocess.PIPE, text=True)
    # -i prints a variable number of lines; run again without -i for the innermost frame
    out = subprocess.run([pre + "addr2line", "-e", b], input="\n".join("0x%x" % (p - 1) for p in pcs), stdout=subprocess.PIPE, text=True).stdout.splitlines()
    hit = collections.defaultdict(lambda: [0, 0])
    for p, loc in zip(pcs, out):
        loc = loc.split(" ")[0]
        f, _, ln = loc.rpartition(":")
        f = os.path.normpath(f)
        if not f.startswith(REPO + "/") or not ln.isdigit():
            continue
        h = hit[(f[len(REPO) + 1:], int(ln))]
        h[0] += 1
        h[1] += 1 if cov[p - base] else 0
    lines = len(hit); reached = sum(1 for h in hit.values() if h[1])
    sites = sum(h[0] for h in hit.values()); sreached = sum(h[1] for h in hit.values())
    print("== %s: %d of %d lines, %d of %d instrumented instructions" % (name, reached, lines, sreached, sites))
    miss = collections.defaultdict(list)
    for (f, ln), h in sorted(hit.items()):
        if not h[1]:
            miss[f].append(ln)
    for f, ls in miss.items():
        print("  %s: %s" % (f, " ".join(map(str, ls))))
