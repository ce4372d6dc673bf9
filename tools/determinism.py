#!/usr/bin/env python3
"""Runs the same seeds several times, in different processes and with different numbers of workers, and compares the
sum of the hashes of all event logs, final states and schedules. Usage: determinism.py [seeds] [run indices]"""
import os, re, shutil, subprocess, sys, tempfile
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
import check
seeds = int(sys.argv[1]) if len(sys.argv) > 1 else 3
count = int(sys.argv[2]) if len(sys.argv) > 2 else 200
d = tempfile.mkdtemp(prefix="det-", dir=check.ensure(os.path.join(here, "build")))
bad = 0
runs = 0
try:
    sim = check.build(d)
    for prop in sorted(check.QUICK):
        for seed in range(1, seeds + 1):
            res = []
            for workers in (8, 3, 5, 8):
                ps = [subprocess.Popen([sim, "search", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(workers), "--count", str(count),
                                        "--findings", "F1,F2", "--out", "%s/%d" % (d, w)], stderr=subprocess.DEVNULL) for w in range(workers)]
                for p in ps:
                    p.wait()
                tot = [0, 0, 0]
                for w in range(workers):
                    t = open("%s/%d.sum" % (d, w)).read()
                    for i, k in enumerate(("dethash", "steps", "runs")):
                        tot[i] += int(re.search(r"^%s (\d+)" % k, t, re.M).group(1))
                tot[0] %= 1 << 64
                res.append(tuple(tot))
            runs += 4 * res[0][2]
            if len(set(res)) != 1:
                bad += 1
                print("DIFFERS", prop, seed, res)
        print(prop, "ok" if not bad else "", flush=True)
    print("%d executions, %d differences" % (runs, bad))
finally:
    shutil.rmtree(d, ignore_errors=True)
sys.exit(1 if bad else 0)
