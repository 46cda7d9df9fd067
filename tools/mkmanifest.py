#!/usr/bin/env python3
"""Write /verif/MANIFEST.json from properties.jsonl"""
import json, os, subprocess
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
HOW = {
 "C01": "seeded short-read/interrupt schedules, differential against one ideal delivery",
 "C02": "simulated peer writes files, reader schedules, reference parser as model",
 "C03": "simulated peer emits arbitrary legal LZW streams, reference codec as model",
 "C04": "simulated animations, reference compositor as model",
 "C05": "simulated animations and loop counts, history of steps against the model",
 "C06": "end of input at any byte, history against the model",
 "C07": "injected read errors at any byte, history against the model",
 "C08": "corrupted input and read faults, bounded progress",
 "C09": "hostile input, heap and step budgets, bounded progress",
 "C10": "simulated files around the limit, heap budget, model",
 "C11": "stalling reader, consumed position against the model",
 "C12": "one injected malformation, history against the model",
 "C13": "simulated writer, reference reader as model",
 "C14": "simulated peer and writer, reference reader as model",
 "C15": "injected write faults at any byte, prefix of the fault-free output",
 "C16": "seeded call sequences against a state machine model",
 "C17": "crash at any byte and lost buffers, recovery against acknowledged steps",
 "C18": "seeded scheduling of threads at I/O points, each session against its run alone",
 "C19": "system calls of the command faulted by seed, output against the model",
 "C20": "long simulated streams, heap seam",
 "C21": "seeded histories of setter calls against a model after every call, then written and read under fault schedules",
 "C23": "system calls of the example programs faulted by seed, output against library and model",
 "C22": "seeded sequences of images into a simulated writer, size of each against a reference encoder",
}
NOTE = "Seeded sampling of executions of the real code; holds for every run made, each replayable from its seed. Bounds and generators per property in DESIGN.md."
NA = {
}
ids = [json.loads(l)["id"] for l in open(root + "/properties.jsonl")]
exe = root + "/sim/harness/props/mod.rs"
have = open(exe).read()
checks, na = [], []
for i in ids:
    if 'id: "%s"' % i in have:
        checks.append({
            "property": i,
            "quick_cmd": "bash check.sh %s quick" % i,
            "thorough_cmd": "bash check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i,
            "technique": T + HOW[i],
            "level": "exploration",
            "level_note": NOTE,
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "check not built yet")})
m = {
 "version": 1,
 "setup_cmd": "bash check.sh setup",
 "hooks": {"guard": "none", "enable": "no hooks are needed: every seam is a public type parameter, the allocator, or a system call", "source_commits": []},
 "checks": checks,
 "not_applicable": na,
 "notes": "Replay a violation with: bash /verif/check.sh replay FILE. Fixed defects are listed in known-findings.txt.",
}
json.dump(m, open(root + "/MANIFEST.json", "w"), indent=1)
open(root + "/MANIFEST.json", "a").write("\n")
