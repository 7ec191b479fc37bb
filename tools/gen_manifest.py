#!/usr/bin/env python3
"""writes MANIFEST.json from the list of built checks below"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LINK = "one link driven directly through its public interface"
GRAPH = "whole applications executed through raft::map under the real scheduler, allocators and partitioner (random acyclic topologies, inputs that end at different times, kernels that stop early)"
BOTH = LINK + ", and seen from " + GRAPH
OTHER = ", and applications of the library's own kernels, array and selecting kernels and stream operators"
CLAIMED = {
    "P01": BOTH, "P02": BOTH + ", and through the library's split and join kernels", "P03": BOTH, "P04": BOTH, "P05": BOTH,
    "P06": GRAPH + OTHER, "P07": GRAPH + OTHER,
    "P08": BOTH + OTHER, "P09": BOTH, "P10": GRAPH + ", chains of forwarding kernels",
    "P11": GRAPH, "P12": "the library's split and join kernels in applications executed through raft::map",
    "P13": "chains, splits, joins and duplicated chains written with the stream operators and executed",
    "P14": "the library's standard kernels in applications executed through raft::map",
    "P15": "the library's file reader and search kernels over simulated files with injected I/O errors",
    "P16": GRAPH + ", kernels bound by every documented way, and placed programs written with the stream operators", "P17": "two or three applications in one process, in turn or at the same time, and programs written with the stream operators in turn",
    "P18": GRAPH + ", splits, joins, shipped kernels, selections, arrays and operator statements, with allocations and thread creations failing while the application is built and executed", "P19": "selecting kernels in applications executed through raft::map",
    "P20": "for_each over arrays, with duplicated or separate workers, executed through raft::map",
    "P23": "random graphs, with arrays handed out in place and copies made by the operators, described before, during and after their execution or into a file with I/O errors",
    "P21": "random graphs and operator statements with one of 23 kinds of defect, built and executed through raft::map while another application runs, the same graphs without the defect, and graphs completed properly after a link was rejected",
}
NA = {
    "P22": "pure functions of an input container: no concurrency, time, I/O or second party for the property to depend on",
}
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in CLAIMED:
        checks.append({
            "property": i,
            "quick_cmd": "bin/check %s quick" % i,
            "thorough_cmd": "bin/check %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": "deterministic simulation with fault injection: seeded search over thread schedules, workloads and faults, history checked against a reference model",
            "level": "exploration",
            "level_note": "Scope: " + CLAIMED[i] + ". Every violation is minimised and must replay exactly in a fresh process. Seeded sampling, not a proof: executions that were not drawn were not checked. "
                          "Interleavings are those of x86-TSO memory (stores held back per thread, at most 8 and for a bounded number of switches), not of weaker models or of compiler reorderings; the simulator (threads, clock, heap, files, thread binding) and the reference models are trusted.",
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {"version": 1, "setup_cmd": "bin/build.py", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the seams are the compiler's load/store instrumentation, the libc/pthread entry points and the library's own headers for thread binding, all replaced at build time from /verif. "
              "Known findings and repaired defects: known-findings.txt. bin/replay FILE re-executes a replay file."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
