#!/usr/bin/env python3
"""Deterministic simulation of jfcg/sorty: checks and replays.

  check.py C05 quick        simulate; exit 0 held, 1 violated, other: the check failed
  check.py replay FILE      re-execute a failing run
  check.py log C05 VARIANT COUNT [WORKERS]   event log fingerprints (for determinism tests)
"""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
ENV = dict(os.environ)
ENV.update(HOME=os.environ.get("HOME") or "/root", GOTOOLCHAIN="local", GOPROXY="off", GOFLAGS="-mod=mod", GOWORK="off",
           PATH="/usr/local/go/bin:" + os.environ.get("PATH", "/usr/bin:/bin"))
for k in ("GODEBUG", "GOEXPERIMENT", "GOARCH", "GOOS", "GOGC", "GOMEMLIMIT", "GOMAXPROCS"):
    ENV.pop(k, None)
WORKERS = min(8, os.cpu_count() or 1)
VARIANTS = {  # name: (build tags, instrumentation, GOARCH)
    "tune": ("tuneparam", "fine", "amd64"),
    "const": ("verifnone", "fine", "amd64"),
    "coarse": ("verifnone", "coarse", "amd64"),
    "tune386": ("tuneparam", "fine", "386"),
}
WHAT = {
    "tune": "length limits drawn per run (tag tuneparam), every access to shared memory a scheduling point",
    "const": "shipped length limits, every access to shared memory a scheduling point",
    "coarse": "shipped length limits, long inputs; scheduling points at synchronization, shared variables and loop heads",
    "tune386": "as tune, compiled for 32-bit",
}
NOCRASH = (64, -9, -15)  # exit codes of workers: the harness failed, somebody ended it
STUCK = 120  # seconds one run cannot take


class Err(Exception):
    pass


def run(cmd, cwd, env=ENV, what=""):
    p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise Err("%s failed (%d):\n%s" % (what or cmd[0], p.returncode, p.stdout[-4000:]))
    return p.stdout


def build(scratch, variants):
    """Instrument /repo's working tree and compile the harness against it, once per variant."""
    instr = os.path.join(scratch, "instr")
    run(["go", "build", "-o", instr, "."], os.path.join(SIM, "instr"), what="building the instrumenter")
    # dependencies are loaded with a copy of go.mod so that /repo stays as it is
    mf = os.path.join(scratch, "repo.mod")
    shutil.copy(os.path.join(REPO, "go.mod"), mf)
    if os.path.exists(os.path.join(REPO, "go.sum")):
        shutil.copy(os.path.join(REPO, "go.sum"), os.path.join(scratch, "repo.sum"))
    procs = []
    for v in variants:
        tags, mode, arch = VARIANTS[v]
        d = os.path.join(scratch, "src-" + v)
        env = dict(ENV, GOARCH=arch, CGO_ENABLED="0")
        run([instr, "-src", REPO, "-out", d, "-tags", tags, "-mode", mode, "-rt", os.path.join(SIM, "verifrt"), "-modfile", mf],
            REPO, env, "instrumenting " + v)
        reqs = "\n".join(l for l in open(mf).read().split("\n") if not l.startswith("module") and not l.startswith("go ") and not l.startswith("toolchain"))
        gm = os.path.join(scratch, "h-%s.mod" % v)
        with open(gm, "w") as f:
            f.write("module verifharness\n\ngo 1.23\n%s\nrequire github.com/jfcg/sorty/v2 v2.0.0\nrequire verifrt v0.0.0\n"
                    "replace github.com/jfcg/sorty/v2 => %s\nreplace verifrt => %s\n" % (reqs, d, os.path.join(SIM, "verifrt")))
        if os.path.exists(os.path.join(scratch, "repo.sum")):
            shutil.copy(os.path.join(scratch, "repo.sum"), os.path.join(scratch, "h-%s.sum" % v))
        out = os.path.join(scratch, "sim-" + v)
        procs.append((v, subprocess.Popen(["go", "build", "-modfile=" + gm, "-tags", tags, "-o", out, "."], cwd=os.path.join(SIM, "harness"),
                                          env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    bad = []
    for v, p in procs:
        o, _ = p.communicate()
        if p.returncode != 0:
            bad.append("compiling the simulation (%s):\n%s" % (v, o[-4000:]))
    if bad:
        raise Err("\n".join(bad))


def worker_cmd(scratch, prop, variant, seed, frm, step, count, secs, tag, rep):
    return [os.path.join(scratch, "sim-" + variant), "worker", "-prop", prop, "-variant", variant, "-seed", str(seed), "-from", str(frm),
            "-step", str(step), "-count", str(count), "-secs", "%.1f" % secs, "-sites", os.path.join(scratch, "src-" + variant),
            "-out", os.path.join(scratch, "out-" + tag), "-replay", rep, "-status", os.path.join(scratch, "st-" + tag)]


def batch(scratch, prop, variant, seed, count, secs):
    """Simulate runs 0..count-1 on all cores; returns (reports, replay file or None)."""
    procs = []
    for w in range(WORKERS):
        tag = "%s-%d" % (variant, w)
        rep = os.path.join(scratch, "rep-" + tag)
        err = open(os.path.join(scratch, "err-" + tag), "w+")
        p = subprocess.Popen(worker_cmd(scratch, prop, variant, seed, w, WORKERS, count, secs, tag, rep), cwd=scratch, env=ENV,
                             stdout=err, stderr=err)
        procs.append((w, tag, rep, p, err))
    t0 = time.time()
    found = lost = None
    pending = list(procs)
    moved = {}
    try:
        while pending:
            time.sleep(0.05)
            now = time.time()
            for item in list(pending):
                w, tag, rep, p, err = item
                rc = p.poll()
                if rc is None:
                    at = status(scratch, tag)
                    if moved.get(tag, ("", 0))[0] != at:
                        moved[tag] = (at, now)
                    if now - t0 > secs + 200:
                        raise Err("worker %s did not end in time, at run %s" % (tag, at))
                    if now - moved[tag][1] < STUCK or os.path.exists(rep):
                        continue
                    p.kill()
                    p.wait()
                pending.remove(item)
                if rc == 0:
                    if os.path.exists(rep) and (found is None or runno(rep) < runno(found)):
                        found = rep
                    continue
                err.seek(0)
                text = err.read() if rc is not None else "unexpected: run %s does not end" % status(scratch, tag)
                if rc in NOCRASH:
                    raise Err("worker %s ended with %d: %s" % (tag, rc, text[-2000:]))
                for _, _, r, q, _ in pending:  # somebody else has an answer already
                    if q.poll() == 0 and os.path.exists(r):
                        found = r
                if found is None:
                    try:
                        found = crashed(scratch, prop, variant, seed, tag, w, text, rep)
                    except Err as e:
                        lost = e  # no answer, unless another worker has one
                if found:
                    break
            if found:
                break
    finally:
        for _, _, _, p, _ in procs:
            if p.poll() is None:
                p.kill()
                p.wait()
    if lost and not found:
        raise lost
    reports = []
    for _, tag, _, p, _ in procs:
        o = os.path.join(scratch, "out-" + tag)
        if os.path.exists(o):
            try:
                with open(o) as f:
                    reports.append(json.load(f))
            except ValueError:
                if p.returncode == 0:
                    raise
                # it was being written when the worker was ended
    return reports, found


def runno(rep):
    with open(rep) as f:
        return json.load(f)["scenario"]["run"]


def status(scratch, tag):
    try:
        return open(os.path.join(scratch, "st-" + tag)).read().strip()
    except OSError:
        return "?"


def crashed(scratch, prop, variant, seed, tag, w, text, rep):
    """A worker process died. Does the run it was executing kill the process every time, alone or after the runs before it?"""
    n = int(status(scratch, tag))
    frm = n
    for first, step in ((n, 1), (w, WORKERS)):
        died = 0
        for k in range(2):
            if os.path.exists(rep):
                os.remove(rep)
            try:
                p = subprocess.run(worker_cmd(scratch, prop, variant, seed, first, step, n + 1, 300, "crash", rep), cwd=scratch, env=ENV,
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=60 if step == 1 else 100)
            except subprocess.TimeoutExpired:
                died += status(scratch, "crash") == str(n)
                continue
            if p.returncode == 0 and os.path.exists(rep):
                return rep  # it survived this time, and what it did is a violation
            died += p.returncode not in (0,) + NOCRASH
        if died == 2:
            frm = first
            break
    else:
        raise Err("worker %s died at run %d, not reproducibly:\n%s" % (tag, n, text[-2000:]))
    msg = [l for l in text.split("\n") if l.startswith("fatal error") or l.startswith("panic:") or l.startswith("unexpected")]
    with open(rep, "w") as f:
        json.dump({"property": prop, "class": "crash", "message": "the process dies: " + "; ".join(msg[:3]), "step": 0, "variant": variant,
                   "verif_seed": seed, "scenario": {"run": n, "prop": prop, "variant": variant}, "choices": [], "crash": True, "steps": 0,
                   "from": frm, "every": step, "log": "", "found": "run %d of %s" % (n, variant)}, f, indent=1)
    return rep


def popcount(words):
    return sum(bin(w).count("1") for w in words)


def known(prop):
    out = []
    try:
        for l in open(os.path.join(HERE, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l[len("finding: "):])
    except OSError:
        pass
    return out


def check(prop, tier):
    sys.path.insert(0, HERE)
    from plan import plan, BUDGET
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED") or 1)
    steps = plan(prop, tier)
    budget = BUDGET[tier]
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        build(scratch, [v for v, _, _ in steps])
        tb = time.time() - t0
        cov = {"variants": {}}
        allsigs, tot, samples, found = 0, {}, [], None
        sums = {}
        for v, count, share in steps:
            left = budget - (time.time() - t0)
            reports, found = batch(scratch, prop, v, seed, count, max(5.0, min(left, budget * share)))
            sigs = set()
            sites = None
            s = {}
            for r in reports:
                sigs.update(r.get("Sigs") or [])
                sites = [a | b for a, b in zip(sites, r["Sites"])] if sites else r["Sites"]
                for k in ("Runs", "Steps", "Calls", "Sorts", "Queries", "Nested", "Panics", "Stalls", "GorSets", "Misuses", "Boots", "Refused", "GCCycles", "GCSlots", "Helpers", "Par", "Elems"):
                    s[k] = s.get(k, 0) + r[k]
                for k, x in r["Sim"].items():
                    s["sim" + k] = max(s.get("sim" + k, 0), x) if k == "MaxTasks" else s.get("sim" + k, 0) + x
                for k in ("MaxPeak", "MaxDepth"):
                    s[k] = max(s.get(k, 0), r[k])
                for k, x in r["Pols"].items():
                    s.setdefault("pols", {})
                    s["pols"][k] = s["pols"].get(k, 0) + x
                for k, x in (r["Other"] or {}).items():
                    s.setdefault("other", {})
                    s["other"][k] = s["other"].get(k, 0) + x
                samples += (r["Samples"] or [])[:1]
            cut = any(r["Cut"] for r in reports)
            wall = max([r["Wall"] for r in reports] or [0])
            nsites = reports[0]["NSites"] if reports else 0
            cov["variants"][v] = {"what": WHAT[v], "runs": s.get("Runs", 0), "planned": count, "stopped_by_time": cut, "wall_s": round(wall, 2),
                                  "distinct_interleavings": len(sigs), "hook_sites": nsites, "hook_sites_reached": popcount(sites or []),
                                  "schedulers": s.get("pols", {}), "max_goroutines_at_work": s.get("MaxPeak", 0),
                                  "max_call_depth": s.get("MaxDepth", 0), "other_violation_classes_seen": s.get("other", {})}
            allsigs += len(sigs)
            for k, x in s.items():
                if isinstance(x, int):
                    tot[k] = max(tot.get(k, 0), x) if k.startswith("Max") or k == "simMaxTasks" else tot.get(k, 0) + x
            if found:
                break
        wall = time.time() - t0
        runs = tot.get("Runs", 0)
        cov.update({
            "evaluations": runs,
            "distinct_nontrivial": allsigs,
            "rule": "one evaluation is one simulated run: a scenario (clients, calls, collections, limits, MaxGor, faults) and a schedule, both "
                    "derived from VERIF_SEED and the run number; distinct and non-trivial are runs with at least two context switches whose "
                    "sequences of synchronization operations and context switches (by goroutine) differ",
            "samples": samples[:4],
            "runs_per_hour": int(runs / max(wall - tb, 0.1) * 3600),
            "simulated_time_steps": tot.get("Steps", 0),
            "context_switches": tot.get("simSwitches", 0),
            "preemptions": tot.get("simPreempts", 0),
            "synchronization_operations": tot.get("simSyncOps", 0),
            "calls": tot.get("Calls", 0), "sorting_calls": tot.get("Sorts", 0), "query_calls": tot.get("Queries", 0),
            "calls_that_used_goroutines": tot.get("Par", 0), "goroutines_started_by_calls": tot.get("Helpers", 0),
            "elements_handled": tot.get("Elems", 0),
            "faults_injected": {
                "goroutine_stalls": tot.get("simStalls", 0), "late_goroutine_starts": tot.get("simSpawnDelays", 0),
                "comparator_stalls": tot.get("Stalls", 0), "comparator_panics": tot.get("Panics", 0),
                "nested_calls_in_comparators": tot.get("Nested", 0), "live_MaxGor_changes": tot.get("GorSets", 0),
                "unsupported_arguments": tot.get("Misuses", 0), "starts_with_inconsistent_parameters": tot.get("Refused", 0),
                "goroutines_orphaned_by_panics": tot.get("simOrphans", 0), "clock_jumps": tot.get("simClockJumps", 0), "idle_time_skips": tot.get("simTimerJumps", 0),
                "garbage_collections": tot.get("GCCycles", 0)},
            "real_code": "all of package sorty from /repo's working tree (rewritten mechanically with hooks), jfcg/sixb, Go runtime memory",
            "stubbed": "Go scheduler, channels, sync, sync/atomic ordering (one operation at a time, sequentially consistent), time, math/rand",
        })
        nv = 0
        for k in known(prop):
            print("KNOWN-FINDING: " + k)
        if found:
            nv = 1
            rd = os.path.join(HERE, "replays")
            os.makedirs(rd, exist_ok=True)
            with open(found) as f:
                rep = json.load(f)
            dst = os.path.join(rd, "%s-%s-%d.json" % (prop, rep["variant"], rep["scenario"]["run"]))
            shutil.copy(found, dst)
            cov["violation"] = {"class": rep["class"], "message": rep["message"], "replay": dst}
        ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": round(wall, 2), "violations": nv,
              "assumptions": ["the simulator executes one memory or synchronization operation at a time: reorderings that only a weak memory "
                              "model shows are covered by the race detection (happens-before), not by execution",
                              "seeded search: what was not sampled was not checked"]}
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        if found:
            print("%s: %s (class %s, run %s)" % (prop, rep["message"], rep["class"], rep["found"]))
            print("VIOLATION property=%s replay=%s" % (prop, dst))
            return 1
        if runs == 0:
            raise Err("no run was executed")
        print("%s %s: held in %d runs (%d distinct interleavings, %d steps) in %.1f s" % (prop, tier, runs, allsigs, tot.get("Steps", 0), wall))
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def ends(cmd, scratch, secs):
    try:
        return subprocess.run(cmd, env=ENV, cwd=scratch, timeout=secs)
    except subprocess.TimeoutExpired:
        return None


def replay(path):
    with open(path) as f:
        r = json.load(f)
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        v = r["variant"]
        build(scratch, [v])
        if r.get("crash") and r.get("every", 1) != 1:  # it takes the runs before
            cmd = worker_cmd(scratch, r["property"], v, r["verif_seed"], r["from"], r["every"], r["scenario"]["run"] + 1, 600, "crash",
                             os.path.join(scratch, "rep"))
            p = ends(cmd, scratch, 100)
            if p is None or p.returncode not in (0,) + NOCRASH:
                print("VIOLATION property=%s replay=%s" % (r["property"], path))
                return 1
            return p.returncode
        cmd = [os.path.join(scratch, "sim-" + v), "replay", "-replay", os.path.abspath(path), "-sites", os.path.join(scratch, "src-" + v)]
        p = ends(cmd, scratch, 60 if r.get("crash") else None)
        if p is None or p.returncode == 1 or r.get("crash") and p.returncode not in (0,) + NOCRASH:
            print("VIOLATION property=%s replay=%s" % (r["property"], path))
            return 1
        return p.returncode
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def log(prop, variant, count, workers):
    scratch = tempfile.mkdtemp(prefix="verif-sim-")
    try:
        build(scratch, [variant])
        seed = int(os.environ.get("VERIF_SEED") or 1)
        ps = []
        for w in range(workers):
            cmd = worker_cmd(scratch, prop, variant, seed, w, workers, count, 1e6, "l%d" % w, os.path.join(scratch, "rep%d" % w)) + ["-v"]
            ps.append(subprocess.Popen(cmd, stdout=subprocess.PIPE, text=True, env=ENV, cwd=scratch))
        lines = []
        for p in ps:
            lines += [l for l in p.communicate()[0].split("\n") if l and l[0].isdigit()]
        for l in sorted(lines, key=lambda l: int(l.split()[0])):
            print(l)
        return 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def main(a):
    try:
        if len(a) == 2 and a[0] == "replay":
            return replay(a[1])
        if len(a) >= 4 and a[0] == "log":
            return log(a[1], a[2], int(a[3]), int(a[4]) if len(a) > 4 else 8)
        if len(a) in (1, 2) and a[0][:1] == "C":
            return check(a[0], a[1] if len(a) > 1 else os.environ.get("VERIF_TIER") or "quick")
        print(__doc__)
        return 5
    except Err as e:
        print("CHECK ERROR: %s" % e, file=sys.stderr)
        return 3


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
