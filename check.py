#!/usr/bin/env python3
"""Decides one property by seeded search over simulated runs.

usage: check.py <property> [--tier quick|thorough] [--replay FILE]
Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Anything else: the check itself failed.
"""
import array, json, os, re, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
os.chdir(HERE)
sys.path.insert(0, HERE)
import suites

NW = max(1, min(16, len(os.sched_getaffinity(0))))


def log(*a):
    print(*a, flush=True)


def build(exes):
    t0 = time.time()
    r = subprocess.run(["make", "-s", "-j%d" % (NW + 2)] + ["build/" + e for e in exes],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        log(r.stdout[-6000:])
        log("ERROR: the harness does not build against /repo")
        sys.exit(2)
    return time.time() - t0


def demangle(text):
    try:
        return subprocess.run(["c++filt"], input=text, stdout=subprocess.PIPE,
                              text=True, timeout=20).stdout
    except Exception:
        return text


def symbolise(exe, text):
    """Adds file:line to hexadecimal code addresses of the executable."""
    addrs = sorted(set(re.findall(r"\b0x4[0-9a-f]{5}\b|\b0x5[0-9a-f]{5}\b", text)))
    if not addrs:
        return ""
    try:
        r = subprocess.run(["addr2line", "-Cfpse", "build/" + exe] + addrs,
                           stdout=subprocess.PIPE, text=True, timeout=60)
        return "\n".join("%s %s" % p for p in zip(addrs, r.stdout.splitlines()))
    except Exception:
        return ""


def replay(exe, path):
    return subprocess.run(["build/" + exe, "replay", path], stdout=subprocess.PIPE,
                          stderr=subprocess.STDOUT, text=True, timeout=300)


def search(exe, harness, prop, seed, runs, wall, tier, tmp, extra=()):
    procs = []
    for w in range(NW):
        out = os.path.join(tmp, "%s.%d" % (harness, w))
        cmd = ["build/" + exe, "search", "--harness", harness, "--prop", prop,
               "--seed", str(seed), "--worker", str(w), "--nworkers", str(NW),
               "--runs", str(runs), "--wall", "%.1f" % wall, "--out", out]
        if tier == "thorough":
            cmd.append("--thorough")
        cmd += list(extra)
        procs.append((out, subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                            stderr=subprocess.PIPE, text=True)))
    res = []
    for out, p in procs:
        o, e = p.communicate()
        st = None
        try:
            st = json.load(open(out + ".json"))
        except Exception:
            pass
        h = array.array("Q")
        try:
            with open(out + ".hash", "rb") as f:
                h.frombytes(f.read())
        except Exception:
            pass
        res.append({"out": out, "rc": p.returncode, "stdout": o, "stderr": e,
                    "stats": st, "hashes": h})
    return res


def determinism(exe, harness, prop, seed, tier, tmp):
    """The same seeds again, in other processes and on another worker count."""
    n = 24
    maps = []
    for nw in (1, 3):
        m = {}
        procs = []
        for w in range(nw):
            cmd = ["build/" + exe, "search", "--harness", harness, "--prop", prop,
                   "--seed", str(seed), "--worker", str(w), "--nworkers", str(nw),
                   "--runs", str(n), "--hashes", "--wall", "60", "--out",
                   os.path.join(tmp, "det%d.%d" % (nw, w))]
            if tier == "thorough":
                cmd.append("--thorough")
            procs.append(subprocess.Popen(cmd, stdout=subprocess.PIPE,
                                          stderr=subprocess.DEVNULL, text=True))
        for p in procs:
            for line in p.communicate()[0].splitlines():
                f = line.split()
                if len(f) >= 3 and f[0].isdigit():
                    m[int(f[0])] = f[1:]
        maps.append(m)
    common = set(maps[0]) & set(maps[1])
    bad = sorted(i for i in common if maps[0][i] != maps[1][i])
    return len(common), bad


def main():
    prop = sys.argv[1]
    args = sys.argv[2:]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in args:
        tier = args[args.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    suite = suites.SUITES[prop]
    exes = sorted(set(s[0] for s in suite["harnesses"]))
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        build(exes)
        h = re.search(r"^harness (\S+)", open(f).read(), re.M).group(1)
        exe = [s[0] for s in suite["harnesses"] if s[1] == h][0]
        r = subprocess.run(["build/" + exe, "replay", f] +
                           (["--trace"] if "--trace" in args else []))
        sys.exit(r.returncode)
    t0 = time.time()
    log("check %s tier=%s VERIF_SEED=%d workers=%d" % (prop, tier, seed, NW))
    build_s = build(exes)
    log("built in %.1f s" % build_s)
    tmp = tempfile.mkdtemp(prefix="simcheck.")
    os.makedirs("evidence", exist_ok=True)
    os.makedirs("replays", exist_ok=True)
    tot = {}
    probes, faults, others = {}, {}, {}
    distinct = {}
    samples = []
    per = {}
    search_s = 0.0
    errors = []
    violation = None
    det_checked, det_bad = 0, []
    budget = suite.get("wall", 240.0) if tier == "quick" else suite.get("wall_thorough", 780.0) - build_s
    try:
        for exe, harness, quick_runs, thorough_runs in suite["harnesses"]:
            runs = quick_runs if tier == "quick" else thorough_runs
            left = budget - (time.time() - t0 - build_s)
            if left < 5:
                log("  %s skipped: wall budget used up" % harness)
                continue
            share = left if tier == "quick" else left / (
                len(suite["harnesses"]) - len(per))
            ts = time.time()
            res = search(exe, harness, prop, seed, runs, share, tier, tmp)
            dt = time.time() - ts
            search_s += dt
            hs = {"runs": 0}
            dset = set()
            for r in res:
                st = r["stats"]
                if st is None:
                    errors.append("%s worker died (rc %s): %s" % (harness, r["rc"], r["stderr"][-500:]))
                    continue
                for k in ("runs", "ok", "inconclusive", "internal", "other", "violations",
                          "switches", "preemptions", "sync_steps", "mem_steps", "nontrivial",
                          "sim_ns", "unreproducible"):
                    tot[k] = tot.get(k, 0) + st[k]
                    hs[k] = hs.get(k, 0) + st[k]
                for src, dst in ((st["probes"], probes), (st["faults"], faults),
                                 (st["other_kinds"], others)):
                    for k, v in src.items():
                        dst[k] = dst.get(k, 0) + v
                dset.update(r["hashes"])
                if len(samples) < 6 and hs["runs"] == st["runs"]:
                    samples += st["samples"]
                if r["rc"] in (3, 4) or r["rc"] not in (0, 1):
                    errors.append("%s: rc %s: %s" % (harness, r["rc"], r["stderr"][-800:]))
            distinct[harness] = len(dset)
            per[harness] = {"runs": hs["runs"], "distinct": len(dset), "wall_s": round(dt, 2)}
            log("  %-22s %7d runs, %7d distinct, %d inconclusive, %d other, %.1f s"
                % (harness, hs["runs"], len(dset), hs.get("inconclusive", 0), hs.get("other", 0), dt))
            cands = [r for r in res if r["rc"] == 1 and os.path.exists(r["out"] + ".replay")]
            for r in cands:
                v = confirm(exe, harness, prop, r, tmp, errors)
                if v:
                    violation = v
                    break
            if violation:
                break
            n, bad = determinism(exe, harness, prop, seed, tier, tmp)
            det_checked += n
            det_bad += ["%s:%d" % (harness, i) for i in bad]
        write_evidence(prop, tier, seed, suite, tot, probes, faults, others, distinct,
                       samples, per, search_s, build_s, time.time() - t0, violation,
                       det_checked, det_bad, exes)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    if violation:
        log(violation["text"])
        log("VIOLATION property=%s replay=%s" % (prop, violation["path"]))
        sys.exit(1)
    if errors:
        for e in errors[:5]:
            log("ERROR: " + e)
        sys.exit(2)
    if det_bad:
        # Recorded in the evidence.  What was found clean stays clean, and a
        # violation only counts after it was replayed exactly.
        log("NOTE: %d of %d rechecked runs were not repeated exactly: %s" % (len(det_bad), det_checked, det_bad[:5]))
        if len(det_bad) * 10 > det_checked:
            log("ERROR: not deterministic")
            sys.exit(2)
    if tot.get("runs", 0) == 0:
        log("ERROR: nothing was explored")
        sys.exit(2)
    known_findings(prop)
    log("OK property=%s: held on %d simulated runs" % (prop, tot["runs"]))
    sys.exit(0)


def known_findings(prop):
    try:
        for line in open("KNOWN_FINDINGS"):
            if line.startswith("finding: property=%s " % prop):
                log("KNOWN-FINDING: " + line[len("finding: "):].strip())
    except OSError:
        pass


def confirm(exe, harness, prop, r, tmp, errors):
    raw = r["out"] + ".replay"
    small = r["out"] + ".min.replay"
    log("  violation in %s (seed %s): minimising" % (harness, r["stats"]["violation_seed"]))
    try:
        s = subprocess.run(["build/" + exe, "shrink", raw, small, "--wall", "40"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                           timeout=300)
        log("  " + s.stdout.strip()[-500:])
    except subprocess.TimeoutExpired:
        log("  minimisation timed out")
    for path in (small, raw):
        if not os.path.exists(path):
            continue
        a = replay(exe, path)
        b = replay(exe, path)
        if a.returncode == 1 and b.returncode == 1 and a.stdout == b.stdout:
            final = os.path.join("replays", "%s-%s.replay" % (prop, harness))
            shutil.copyfile(path, final)
            text = "  " + demangle(a.stdout).strip().replace("\n", "\n  ")
            sym = symbolise(exe, a.stdout)
            if sym:
                text += "\n  " + sym.replace("\n", "\n  ")
            with open(final, "a") as f:
                f.write("# replay with: python3 check.py %s --replay %s [--trace]\n" % (prop, final))
            return {"path": final, "text": text, "harness": harness,
                    "seed": r["stats"]["violation_seed"],
                    "message": r["stats"]["message"][:1000]}
        log("  %s does not replay (%d, %d)" % (path, a.returncode, b.returncode))
    errors.append("%s: a violation did not replay in a fresh process: %s"
                  % (harness, r["stats"]["message"][:500]))
    return None


def write_evidence(prop, tier, seed, suite, tot, probes, faults, others, distinct, samples,
                   per, search_s, build_s, wall, violation, det_checked, det_bad, exes):
    runs = tot.get("runs", 0)
    cov = {
        "evaluations": runs,
        "distinct_nontrivial": sum(distinct.values()),
        "rule": "One evaluation is one simulated run: a workload, scheduler parameters, "
                "interleaving and faults, all drawn from one seed. A run is non-trivial when "
                "at least one preemption or injected fault happened in it; two runs are distinct "
                "when workload, context-switch sequence (thread and code location of each switch) "
                "or injected faults differ.",
        "samples": samples[:6],
        "simulated_runs_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "seeds_per_hour": int(runs / search_s * 3600) if search_s else 0,
        "simulated_seconds": round(tot.get("sim_ns", 0) / 1e9, 6),
        "faults_injected": faults,
        "reach_probes": probes,
        "context_switches": tot.get("switches", 0),
        "preemptions": tot.get("preemptions", 0),
        "synchronisation_steps": tot.get("sync_steps", 0),
        "instrumented_memory_accesses": tot.get("mem_steps", 0),
        "inconclusive_runs": tot.get("inconclusive", 0),
        "runs_violating_other_properties": others,
        "harnesses": per,
        "determinism_recheck": {"runs": det_checked, "mismatches": det_bad,
                                "how": "same seeds in fresh processes at worker counts 1 and 3, trace hashes compared"},
        "real_components": suite["real"],
        "stubbed_components": suite["stub"],
        "search_wall_s": round(search_s, 2),
        "build_wall_s": round(build_s, 2),
        "workers": NW,
    }
    if violation:
        cov["violation"] = violation
    ev = {"property": prop, "tier": tier, "seed": seed, "level": suite.get("level", "exploration"),
          "coverage": cov,
          "assumptions": suite.get("assumptions", []) + suites.COMMON_ASSUMPTIONS,
          "wall_s": round(wall, 2), "violations": 1 if violation else 0}
    tmp = "evidence/.%s.tmp" % prop
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, "evidence/%s.json" % prop)


if __name__ == "__main__":
    main()
