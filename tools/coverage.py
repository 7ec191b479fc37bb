#!/usr/bin/env python3
"""coverage.py SECS PROP... - which lines of the library the runs of some properties reach.
Builds a separate instrumented simulator in /tmp; prints per file the functions and lines never reached."""
import collections, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.environ["RAFT_SIM_BUILD"] = "/tmp/covbuild"
sys.path.insert(0, V + "/bin")
import build as B
B.INSTR += ["-g", "-fsanitize-coverage=bb,no-prune,trace-pc-guard,pc-table"]
orig = B.units
B.units = lambda: orig() + [(V + "/tools/cov.cpp", B.BASE + ["-O2"])]
exe = B.build()
assert exe
secs, props = sys.argv[1], sys.argv[2:]
hit, allpc = set(), set()
for p in props:
    env = dict(os.environ, SIM_COV_OUT="/tmp/cov.%s" % p)
    subprocess.run([exe, "explore", "--prop", p, "--seed", "1", "--secs", secs], stdout=subprocess.DEVNULL, env=env, check=True)
    for l in open("/tmp/cov.%s" % p):
        h, pc = l.split()
        allpc.add(pc)
        if h == "1":
            hit.add(pc)
pcs = sorted(allpc)
r = subprocess.run(["llvm-symbolizer", "--obj=" + exe, "--inlining=true", "--functions=linkage", "--output-style=LLVM"], input="\n".join(pcs) + "\n", stdout=subprocess.PIPE, text=True)
line_hit, line_all = collections.defaultdict(set), collections.defaultdict(set)
for pc, blk in zip(pcs, r.stdout.split("\n\n")):
    ls = [l for l in blk.strip().split("\n")]
    for k in range(1, len(ls), 2):
        f, ln = ls[k].rsplit(":", 2)[0:2]
        f = os.path.realpath(f) if f.startswith("/") else f
        if not f.startswith(B.REPO + "/"):
            continue
        f = f[len(B.REPO) + 1:]
        line_all[f].add(int(ln))
        if pc in hit:
            line_hit[f].add(int(ln))
for f in sorted(line_all):
    miss = sorted(line_all[f] - line_hit[f])
    print("%-34s %4d of %4d  never: %s" % (f, len(line_hit[f]), len(line_all[f]), " ".join(map(str, miss))))
