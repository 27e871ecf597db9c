#!/usr/bin/env python3
"""Executes the same seeds several times, split among different numbers of worker
processes, and compares the hash of every run.  determinism.py [RUNS] [ID...]"""
import os, struct, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
import check   # noqa: E402
runs = int(sys.argv[1]) if len(sys.argv) > 1 else 2000
bad = 0
for cid in sys.argv[2:] or sorted(check.CHECKS):
    with tempfile.TemporaryDirectory(prefix="determinism-") as d:
        for vname, exe in check.build(cid, check.CHECKS[cid], os.path.join(d, "b")):
            seen = []
            for n in (8, 8, 3, 1):
                outs, err = check.search(exe, 12345, "quick", runs, 100000, n, d, "%s-%d" % (vname, n))
                hashes, scheds, totals = [], [], {}
                for o in outs:
                    j = check.read_json(o + ".json")
                    for k in ("runs", "switches", "preemptions", "race_checked_accesses", "steps", "faults", "events"):
                        totals[k] = totals.get(k, 0) + j[k]
                    for name, dest in (("hashes", hashes), ("scheds", scheds)):
                        b = open(o + "." + name, "rb").read()
                        dest += struct.unpack("<%dQ" % (len(b) // 8), b)
                seen.append((sorted(set(hashes)), sorted(set(scheds)), tuple(sorted(totals.items()))))
            # with 3 workers the number of runs is rounded up
            same = seen[0] == seen[1] == seen[3] and set(seen[0][0]) <= set(seen[2][0])
            bad += not same
            print("%s %s: %d runs, %d distinct hashes, %s" % (cid, vname, runs, len(seen[0][0]), "identical" if same else "DIFFERENT"), flush=True)
sys.exit(1 if bad else 0)
