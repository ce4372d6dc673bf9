#!/usr/bin/env python3
"""check.py <property>            decide one property by seeded simulation (VERIF_TIER, VERIF_SEED)
check.py --replay <file>       re-execute a replay file against the current tree, with its event log
"""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("REPO", "/repo")
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))

# run indices explored by the quick tier (fixed, so that one VERIF_SEED is one exploration); sized for about 40 s on 8 cores
QUICK = {"C01": 6000, "C02": 8000, "C03": 6000, "C04": 6000, "C05": 6000, "C06": 1600, "C07": 2600, "C08": 12000, "C09": 3000,
         "C10": 1500, "C11": 4500, "C12": 7000, "C13": 2200, "C14": 4500, "C15": 1400, "C16": 6000, "C17": 2400, "C20": 5000}
QUICK_CAP = 240        # seconds; only a slow machine reaches it
THOROUGH_FACTOR = 25
THOROUGH_CAP = 800


def die(msg):
    print("check error: " + msg, file=sys.stderr)
    sys.exit(2)


def build(out):
    p = subprocess.run([os.path.join(HERE, "build.sh"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       env=dict(os.environ, REPO=REPO))
    if p.returncode != 0:
        sys.stderr.write(p.stdout[-4000:])
        die("build failed")
    return os.path.join(out, "sim")


def findings():
    res = []
    path = os.path.join(HERE, "known_findings.txt")
    for line in open(path):
        m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
        if m:
            res.append(m.groups())
    return res


def run_plan(sim, text, ids, scratch, log=None):
    """-> (key, message, hash, switches); key None when nothing was violated"""
    f = os.path.join(scratch, "p%d.plan" % os.getpid())
    with open(f, "w") as fh:
        fh.write(text)
    cmd = [sim, "run", f, "--findings", ids]
    if log:
        cmd += ["--log", log]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    key = msg = None
    h = ""
    sw = ""
    for line in p.stdout.splitlines():
        if line.startswith("DIED ") and key is None:
            key = "died:" + line.split()[1]
            msg = line[5:]
            m = re.search(r"SUMMARY: AddressSanitizer: (.*)", p.stderr)
            if m:
                msg = "invalid memory access: " + m.group(1)
        elif line.startswith("VIOL ") and key is None:
            w = line.split(" ", 3)
            key = w[2]
            msg = w[3]
        elif line.startswith("HASH "):
            h = line
        elif line.startswith("SWITCHES"):
            sw = ",".join(line.split()[1:])
    return key, msg, h, sw


def minimise(sim, text, key, ids, scratch, budget):
    t0 = time.time()
    runs = 0

    def fails(lines):
        nonlocal runs
        runs += 1
        k, _, _, _ = run_plan(sim, "\n".join(lines) + "\n", ids, scratch)
        return k == key

    def out_of_time():
        return time.time() - t0 > budget

    lines = [l for l in text.splitlines() if l and not l.startswith("#")]

    def ddmin(lines, removable):
        n = 2
        while not out_of_time():
            idx = [i for i, l in enumerate(lines) if removable(l)]
            if not idx:
                break
            n = min(n, len(idx))
            size = max(1, len(idx) // n)
            progress = False
            for s in range(0, len(idx), size):
                if out_of_time():
                    break
                drop = set(idx[s:s + size])
                cand = [l for i, l in enumerate(lines) if i not in drop]
                if fails(cand):
                    lines = cand
                    progress = True
                    break
            if progress:
                n = max(2, n - 1)
            elif size == 1:
                break
            else:
                n = min(len(idx), n * 2)
        return lines

    lines = ddmin(lines, lambda l: not l.startswith("knobs"))

    # simplify values
    def variants(k, v):
        if k in ("id", "t", "op", "name", "prop", "threads", "f", "s", "fid", "kind", "how", "who", "pic", "ver", "twice"):
            return []
        if k == "switches":
            return []
        if re.match(r"^-?\d+$", v):
            return [None] if v != "0" else [None]
        if ":" in v:
            parts = v.split("+")
            c = [""]
            if len(parts) > 1:
                c += ["+".join(parts[:i] + parts[i + 1:]) for i in range(len(parts))]
            m = re.match(r"^([rx]):(\d+):(\w+)$", v)
            if m and int(m.group(2)) > 4:
                c += ["%s:%d:%s" % (m.group(1), int(m.group(2)) // d, m.group(3)) for d in (64, 8, 2)]
            return c
        return []

    changed = True
    while changed and not out_of_time():
        changed = False
        for i in range(len(lines)):
            words = lines[i].split(" ")
            j = 1
            while j < len(words):
                if out_of_time():
                    break
                if "=" not in words[j]:
                    j += 1
                    continue
                k, v = words[j].split("=", 1)
                done = False
                for c in variants(k, v):
                    nw = words[:j] + ([] if c is None else ["%s=%s" % (k, c)]) + words[j + 1:]
                    if c == v:
                        continue
                    cand = lines[:i] + [" ".join(nw)] + lines[i + 1:]
                    if fails(cand):
                        lines = cand
                        words = nw
                        changed = True
                        done = c is None
                        break
                if not done:
                    j += 1
    # schedule: make it explicit, then drop switches
    kl = next((l for l in lines if l.startswith("knobs")), "")
    if "threads=" in kl and "switches=" not in kl:
        _, _, _, sw = run_plan(sim, "\n".join(lines) + "\n", ids, scratch)
        i = lines.index(kl)
        base = " ".join(w for w in kl.split(" ") if not re.match(r"(sched|mean|switches)=", w))

        def with_sw(s):
            return lines[:i] + [base + " switches=" + ",".join(s)] + lines[i + 1:]
        s = sw.split(",") if sw else []
        if len(s) < 60000 and fails(with_sw(s)):
            n = 2
            while s and not out_of_time():
                size = max(1, len(s) // n)
                progress = False
                for a in range(0, len(s), size):
                    if out_of_time():
                        break
                    cand = s[:a] + s[a + size:]
                    if fails(with_sw(cand)):
                        s = cand
                        progress = True
                        n = max(2, n - 1)
                        break
                if not progress:
                    if size == 1:
                        break
                    n = min(len(s), n * 2)
            lines = with_sw(s)
    return "\n".join(lines) + "\n", runs


def replay(path):
    scratch = tempfile.mkdtemp(prefix="replay", dir=ensure(os.path.join(HERE, "build")))
    try:
        sim = build(scratch)
        ids = ",".join(sorted({f[1] for f in findings()}))
        p = subprocess.run([sim, "run", path, "--findings", ids, "--log", "-"], text=True, errors="replace", stdout=subprocess.PIPE)
        print(p.stdout, end="")
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def parse_sum(path):
    d = {"nums": {}, "findings": set(), "samples": []}
    sample = None
    for line in open(path):
        line = line.rstrip("\n")
        if sample is not None:
            if line == "ENDSAMPLE":
                d["samples"].append(sample)
                sample = None
            else:
                sample["plan"].append(line)
            continue
        w = line.split(" ")
        if w[0] == "SAMPLE":
            sample = {"index": int(w[1]), "variant": int(w[2]), "plan": []}
        elif w[0] == "finding":
            d["findings"].add(w[1])
        elif w[0] in ("LOGS", "NONTRIV", "DIGESTS", "SCHEDS"):
            d[w[0]] = set(w[1:])
        elif w[0] == "EDGES":
            d["EDGES"] = w[1] if len(w) > 1 else ""
        elif len(w) == 2:
            d["nums"][w[0]] = int(w[1])
    return d


RULES = {
    "C01": "the run wrote at least one tag and judged the resulting file",
    "C02": "the run deleted at least one tag",
    "C03": "the run edited a tag and wrote it",
    "C04": "the run wrote at least one tag and judged the resulting file",
    "C05": "the run wrote at least one tag and judged the resulting file",
    "C06": "at least one injected failure (or full disk) hit a run that writes or deletes",
    "C07": "the named file went through more than two states, or the process was crashed",
    "C08": "stored bytes were damaged and then read",
    "C09": "more than two library operations with resource accounting and at least one judged result",
    "C10": "at least one preemption took place",
    "C11": "more than two library operations and at least one whole-disk comparison",
    "C12": "more than two library operations and at least one reader comparison",
    "C13": "at least one injected failure and at least two writes",
    "C14": "more than two library operations and at least one comparison of compatibility results",
    "C15": "at least one allocation failed",
    "C16": "at least two writes",
    "C17": "at least one injected failure or outside change in a run that reads",
    "C20": "tags were edited and compared with the other tags, held frames and arguments of the run",
}


def main():
    if len(sys.argv) == 3 and sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) != 2 or sys.argv[1] not in QUICK:
        die("usage: check.py C01..C17, C20 | --replay FILE")
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    seed &= (1 << 63) - 1
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=prop + "-", dir=ensure(os.path.join(HERE, "build")))
    procs = []
    try:
        sim = build(scratch)
        known = [f for f in findings() if f[0] == prop]
        ids = ",".join(sorted({f[1] for f in findings()}))
        count = QUICK[prop] * (THOROUGH_FACTOR if tier == "thorough" else 1)
        count = int(os.environ.get("VERIF_COUNT", count))
        cap = THOROUGH_CAP if tier == "thorough" else QUICK_CAP
        ts = time.time()
        for w in range(WORKERS):
            procs.append(subprocess.Popen([sim, "search", "--prop", prop, "--seed", str(seed), "--start", str(w), "--stride", str(WORKERS),
                                           "--count", str(count), "--time", str(cap), "--depth", "1" if tier == "thorough" else "0",
                                           "--findings", ids, "--out", os.path.join(scratch, "w%d" % w)],
                                          stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True))
        bad = None
        while bad is None and any(p.poll() is None for p in procs):
            time.sleep(0.05)
            for w, p in enumerate(procs):
                if p.poll() is not None and p.returncode not in (0, 1):
                    die("worker %d ended with %d" % (w, p.returncode))
                if p.poll() == 1:
                    bad = w
                    break
        if bad is None:
            for w, p in enumerate(procs):
                if p.returncode == 1:
                    bad = w
                elif p.returncode != 0:
                    die("worker %d ended with %d" % (w, p.returncode))
        if bad is not None:
            stop(procs)
        search_s = time.time() - ts

        if bad is not None:
            plan = open(os.path.join(scratch, "w%d.plan" % bad)).read()
            why = open(os.path.join(scratch, "w%d.viol" % bad)).read()
            # the same plan must end the same way; only code that reads uninitialised memory (itself a defect) can make it differ
            tries = [run_plan(sim, plan, ids, scratch) for _ in range(4)]
            good = [t for t in tries if t[0] is not None]
            if not good:
                sys.stderr.write(why)
                die("a violation did not reproduce: %r" % (tries,))
            a = good[0]
            exact = all(t[0] == a[0] and t[2] == a[2] for t in tries)
            small, mruns = minimise(sim, plan, a[0], ids, scratch, 45 if tier == "quick" else 150)
            key, msg, h, _ = run_plan(sim, small, ids, scratch)
            k2, m2, h2, _ = run_plan(sim, small, ids, scratch)
            if key != a[0] or (exact and (key, h) != (k2, h2)):
                small, key, msg, h = plan, a[0], a[1], a[2]
            path = os.path.join(ensure(os.path.join(HERE, "replays")), "%s-%d.plan" % (prop, seed))
            with open(path, "w") as f:
                f.write("# property %s violated: %s: %s\n# VERIF_SEED=%d tier=%s, %s# found as: %s\n# replay: python3 check.py --replay %s\n# %s\n"
                        % (prop, key, msg, seed, tier, why.splitlines()[0] + "\n", why.splitlines()[1][:300], path, h))
                f.write(small)
            evidence(prop, tier, seed, scratch, t0, search_s, 1, [], extra={"violation": "%s: %s" % (key, msg), "minimise_runs": mruns, "replays_exactly": exact})
            print("%s: %s" % (key, msg))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return 1
        met = evidence(prop, tier, seed, scratch, t0, search_s, 0, known)
        for pid, fid, text in known:
            if fid in met:
                print("KNOWN-FINDING: property=%s %s %s" % (pid, fid, text))
        print("property %s held on everything explored" % prop)
        return 0
    finally:
        stop(procs)
        shutil.rmtree(scratch, ignore_errors=True)


def stop(procs):
    for p in procs:
        if p.poll() is None:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.wait()


def evidence(prop, tier, seed, scratch, t0, search_s, violations, known, extra=None):
    tot = {}
    sets = {"LOGS": set(), "NONTRIV": set(), "DIGESTS": set(), "SCHEDS": set()}
    edges = ""
    met = set()
    samples = []
    for w in range(WORKERS):
        p = os.path.join(scratch, "w%d.sum" % w)
        if not os.path.exists(p):
            continue
        d = parse_sum(p)
        for k, v in d["nums"].items():
            tot[k] = tot.get(k, 0) + v
        for k in sets:
            sets[k] |= d.get(k, set())
        e = d.get("EDGES", "")
        edges = e if not edges else "".join("1" if a == "1" or b == "1" else "0" for a, b in zip(edges, e))
        met |= d["findings"]
        samples += d["samples"]
    samples.sort(key=lambda s: s["index"])
    g = lambda k: tot.get(k, 0)
    hours = max(search_s, 1e-3) / 3600
    cov = {
        "evaluations": g("runs"),
        "distinct_nontrivial": len(sets["NONTRIV"]),
        "rule": "One case is one simulated execution: seed -> plan (files, operations, environment knobs), executed without faults, then "
                "again with faults placed at system calls or allocations it really made. Non-trivial: " + RULES[prop] +
                ". Distinct: different hash of the complete event log.",
        "samples": [{"index": s["index"], "variant": s["variant"], "plan": s["plan"][:40]} for s in samples[:3]],
        "seeds": g("seeds"),
        "runs_per_hour": int(g("runs") / hours),
        "seeds_per_hour": int(g("seeds") / hours),
        "simulated_time": {"measure": "there is no clock in the system; simulated time is counted in basic-block steps and system calls",
                           "steps": g("steps"), "system_calls": g("syscalls"), "library_operations": g("ops"), "sessions_restarted": g("sessions")},
        "faults_injected": {
            **{"failing_" + k: g("fail_" + k) for k in ("open", "tmpfile", "read", "write", "seek", "close", "meta")},
            "disk_full": g("enospc"), "short_reads": g("short_reads"), "short_writes": g("short_writes"), "failing_allocations": g("oom"),
            "process_crashes": g("crash"), "concurrent_file_changes": g("ext"), "stored_byte_damage": g("damage"), "preemptions": g("switches")},
        "operations": {k: g(k) for k in ("reads", "edits", "writes", "deletes")},
        "oracle_evaluations": g("checks"),
        "crash_states_judged": g("states"),
        "distinct_event_logs": len(sets["LOGS"]),
        "distinct_final_states": len(sets["DIGESTS"]),
        "distinct_interleavings": {"measure": "hash of the sequence of (step, thread switched to)", "count": len(sets["SCHEDS"])},
        "library_edges_covered": {"hit": edges.count("1"), "of": len(edges)},
        "components": {"real": ["all of /repo/src (compiled from the working tree)", "glibc stdio and string functions"],
                       "stub": ["file system and system calls", "allocator front end (backed by ASan)", "thread scheduler", "process lifetime"]},
        "known_finding_hits": g("known"),
    }
    if extra:
        cov.update(extra)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "violations": violations,
          "assumptions": ["the process may die between or inside system calls; the operating system itself does not lose completed writes "
                          "(no power loss: the library never syncs)",
                          "frames with compression, encryption, unsynchronisation or a footer are outside the supported format"],
          "wall_s": round(time.time() - t0, 2)}
    ensure(os.path.join(HERE, "evidence"))
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(path + ".tmp", path)
    return met


if __name__ == "__main__":
    sys.exit(main())
