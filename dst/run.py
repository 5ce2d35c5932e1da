"""Command line of the simulator.

  python3 -m dst.run C07 [--tier quick|thorough] [--seed N] [--runs N] [--workers N]   search
  python3 -m dst.run --replay FILE                                                     replay a violation
  python3 -m dst.run --selftest [C07 ...]                                              determinism of the simulator
  python3 -m dst.run --one C07 INDEX                                                   one run, verbosely
"""
import argparse
import importlib
import json
import os
import sys
import time

from . import boot, core

KNOWN = os.path.join(boot.VERIF, "known_findings.jsonl")


def load_prop(pid):
    return importlib.import_module("dst.props.%s" % pid.lower())


def known_findings(pid):
    found = []
    if os.path.exists(KNOWN):
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line and not line.startswith("#") and not line.startswith("fixed:"):
                    e = json.loads(line)
                    if e["property"] == pid:
                        found.append(e)
    return found


def worker(prop, seed, tier, indices, cap_at, wfd):
    """Run the given indices, each in its own fork; stream the results."""
    with os.fdopen(wfd, "w") as out:
        for i in indices:
            if time.monotonic() > cap_at:
                out.write(json.dumps(dict(index=i, status="skipped")) + "\n")
                continue
            try:
                plan = core.make_plan(prop, seed, i, tier)
                res = core.run_isolated(prop, plan)
            except Exception as e:  # noqa
                import traceback
                res = dict(status="error", kind=type(e).__name__, msg=traceback.format_exc(), count={}, faults={},
                           probes={}, states=[], sim_time=0, log="")
                plan = dict(family="?")
            res["index"], res["family"] = i, plan["family"]
            out.write(json.dumps(res) + "\n")
            out.flush()
            if res["status"] == "violation":
                break


def search(prop, seed, tier, indices, nworkers, cap_s, on_result=None):
    """Spread the indices over worker processes. Returns all results."""
    nworkers = max(1, min(nworkers, len(indices)))
    cap_at = time.monotonic() + cap_s
    procs = []
    for k in range(nworkers):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                for _, fd in procs:
                    os.close(fd)
                worker(prop, seed, tier, indices[k::nworkers], cap_at, w)
            except BaseException:  # noqa
                import traceback
                traceback.print_exc()
                os._exit(3)
            os._exit(0)
        os.close(w)
        procs.append((pid, r))
    import select
    import signal
    bufs = {r: b"" for _, r in procs}
    pids = {r: pid for pid, r in procs}
    results, stop = [], False
    open_fds = set(bufs)
    first_violation_at = None
    while open_fds:
        ready, _, _ = select.select(list(open_fds), [], [], 5)
        for r in ready:
            b = os.read(r, 1 << 16)
            if not b:
                open_fds.discard(r)
                os.close(r)
                continue
            bufs[r] += b
            while b"\n" in bufs[r]:
                line, bufs[r] = bufs[r].split(b"\n", 1)
                res = json.loads(line)
                results.append(res)
                if res["status"] == "violation" and first_violation_at is None:
                    first_violation_at = time.monotonic()
        if first_violation_at is not None and time.monotonic() - first_violation_at > 3 and not stop:
            stop = True
            for r in open_fds:
                try:
                    os.kill(pids[r], signal.SIGKILL)
                except OSError:
                    pass
    bad = 0
    for pid, _ in procs:
        _, st = os.waitpid(pid, 0)
        bad += (st != 0 and not stop)
    if bad:
        results.append(dict(status="error", kind="worker-died", msg="%d workers died" % bad, index=-1, family="?",
                            count={}, faults={}, probes={}, states=[], sim_time=0, log=""))
    return results


def total(results, key):
    acc = {}
    for r in results:
        for k, v in (r.get(key) or {}).items():
            acc[k] = acc.get(k, 0) + v
    return dict(sorted(acc.items()))


def check(pid, tier, seed, runs=None, nworkers=None, quiet=False):
    t0 = time.monotonic()
    prop = load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    n = runs or (prop.THOROUGH_RUNS if tier == "thorough" else prop.QUICK_RUNS)
    cap = 3600 * 3 if tier == "thorough" else 420
    nworkers = nworkers or int(os.environ.get("VERIF_WORKERS", "0")) or min(8, os.cpu_count() or 1)
    findings = known_findings(pid)
    kf_hits = []
    for kf in findings:  # each known finding has its own deterministic demonstration
        res = core.run_isolated(prop, kf["plan"])
        if res["status"] == "violation" and res["kind"] == kf["kind"]:
            kf_hits.append(kf)
            print("KNOWN-FINDING: property=%s %s" % (pid, kf["text"]), flush=True)
        elif res["status"] == "error":
            print("ERROR in the demonstration of a known finding: %s" % res["msg"])
            return 2
    results = search(prop, seed, tier, list(range(n)), nworkers, cap)
    violations = [r for r in results if r["status"] == "violation"]
    errors = [r for r in results if r["status"] == "error"]
    done = [r for r in results if r["status"] in ("ok", "violation")]
    skipped = [r for r in results if r["status"] == "skipped"]
    # Re-execute a sample and compare the event logs: the simulator itself must be deterministic
    again = [r for r in sorted(done, key=lambda r: r["index"]) if r["status"] == "ok"]
    again = again[::max(1, len(again) // 8)][:8]
    mismatch = 0
    if not violations:
        redo = {r["index"]: r for r in search(prop, seed, tier, [r["index"] for r in again], nworkers, 300)}
        for r in again:
            o = redo.get(r["index"])
            if o is not None and o["status"] == "violation":
                violations.append(o)
            elif o is not None and o["status"] == "ok" and o["log"] != r["log"]:
                mismatch += 1
                print("NOTE: run %d is not reproducible" % r["index"])
    wall = time.monotonic() - t0
    rc = 0
    if errors:
        for e in errors[:3]:
            print("HARNESS ERROR run=%s family=%s %s\n%s" % (e["index"], e["family"], e["kind"], e["msg"]))
        rc = 2
    if len(done) < max(1, n // 4) and not violations:
        print("HARNESS ERROR: only %d of %d runs done within the cap" % (len(done), n))
        rc = 2
    if violations:
        rc = 1
        violations.sort(key=lambda r: (r["index"]))
        seen = set()
        for v in violations:
            if v["kind"] in seen or len(seen) >= 2:
                continue
            seen.add(v["kind"])
            path = report(prop, pid, seed, tier, v)
            print("VIOLATION property=%s replay=%s" % (pid, path), flush=True)
    write_evidence(prop, pid, tier, seed, n, results, done, skipped, mismatch, len(again), kf_hits, wall, nworkers,
                   len(violations))
    fl = total(done, "faults")
    print("%s %s seed=%d: %d runs, %d violations, %d errors, %.0f s simulated, %d ticks, faults=%d, states=%d, wall %.1f s"
          % (pid, tier, seed, len(done), len(violations), len(errors), sum(r["sim_time"] for r in done),
             total(done, "count").get("ticks", 0), sum(fl.values()),
             len(set(s for r in done for s in r["states"])), wall), flush=True)
    return rc


def report(prop, pid, seed, tier, v):
    plan = core.make_plan(prop, seed, v["index"], tier)
    small, tries = core.minimise(prop, plan, v["kind"])
    res = core.run_isolated(prop, small)
    if not (res["status"] == "violation" and res["kind"] == v["kind"]):
        small, res = plan, v
    d = os.path.join(boot.OUT, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d.json" % (pid, seed, v["index"]))
    with open(path, "w") as f:
        json.dump(dict(property=pid, verif_seed=seed, tier=tier, run_index=v["index"], kind=res["kind"],
                       violation=res["msg"], data=res.get("data"), minimiser_runs=tries, plan=small,
                       how="cd /verif && ./check --replay %s" % os.path.relpath(path, boot.VERIF)), f, indent=1)
        f.write("\n")
    print("run %d (family %s): %s" % (v["index"], v["family"], res["msg"]))
    return path


def write_evidence(prop, pid, tier, seed, n, results, done, skipped, mismatch, rechecked, kf_hits, wall, nworkers, nviol):
    fams = {}
    for r in done:
        fams[r["family"]] = fams.get(r["family"], 0) + 1
    states = set(s for r in done for s in r["states"])
    nontrivial = len(set(r["log"] for r in done if r["probes"]))
    samples = []
    for r in sorted(done, key=lambda r: r["index"])[:2]:
        plan = core.make_plan(prop, seed, r["index"], tier)
        text = json.dumps(plan)
        samples.append(dict(run=r["index"], family=r["family"], plan=plan if len(text) < 4000 else text[:4000] + "...",
                            faults=r["faults"], evaluations=r["probes"]))
    sim = sum(r["sim_time"] for r in done)
    cov = dict(
        evaluations=len(done), distinct_nontrivial=nontrivial,
        rule=getattr(prop, "RULE", "one case = one simulated run of a seeded plan") +
        " Counted as distinct and non-trivial: distinct event logs of runs in which at least one oracle evaluation took place.",
        samples=samples, runs_by_family=fams, runs_not_started=len(skipped),
        runs_per_hour=round(len(done) / max(wall, 1e-9) * 3600), seeds_per_hour=round(len(done) / max(wall, 1e-9) * 3600),
        simulated_seconds=round(sim, 1), counts=total(done, "count"), faults_injected=total(done, "faults"),
        oracle_evaluations_and_probes=total(done, "probes"), distinct_states=len(states),
        distinct_states_measure=getattr(prop, "STATES", "distinct abstract world signatures recorded by the runs (at most 400 per run)"),
        determinism_rechecked_runs=rechecked, determinism_mismatches=mismatch, known_findings_seen=len(kf_hits),
        real_components=getattr(prop, "REAL", ["all of highway_env"]),
        stub_components=getattr(prop, "STUB", []), workers=nworkers)
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration", coverage=cov,
              assumptions=getattr(prop, "ASSUMPTIONS", []), wall_s=round(wall, 2), violations=nviol)
    d = os.path.join(boot.OUT, "evidence")
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(d, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    with open(path) as f:
        rep = json.load(f)
    prop = load_prop(rep["property"])
    if hasattr(prop, "setup"):
        prop.setup()
    res = core.run_isolated(prop, rep["plan"])
    print("replayed %s: status=%s kind=%s (recorded kind=%s)" % (path, res["status"], res["kind"], rep["kind"]))
    print(res["msg"])
    if res["status"] == "violation":
        print("VIOLATION property=%s replay=%s" % (rep["property"], path))
        return 1
    return 2 if res["status"] == "error" else 0


def selftest(pids, runs, seed):
    """Logs must be identical across repetitions, worker counts and string-hash seeds."""
    import subprocess
    bad = 0
    for pid in pids:
        outs = []
        for hs, workers in (("0", 8), ("1", 3), ("4711", 8)):
            env = boot.clean_environ(hs)
            o = subprocess.run([boot.PYTHON, "-B", "-m", "dst.run", "--logs", pid, "--runs", str(runs), "--workers",
                                str(workers), "--seed", str(seed)], env=env, cwd=boot.VERIF, capture_output=True, text=True)
            outs.append({l.split()[0]: l for l in o.stdout.splitlines() if l[:1].isdigit()})
        diff = [i for i in outs[0] if not (outs[0][i] == outs[1].get(i) == outs[2].get(i))]
        print("%s: %d runs x 3, %d differ %s" % (pid, len(outs[0]), len(diff), diff[:10]), flush=True)
        bad += len(diff) + (len(outs[0]) == 0)
    return 1 if bad else 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("props", nargs="*")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--replay")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--logs", action="store_true")
    ap.add_argument("--one", type=int)
    args = ap.parse_args()
    boot.load()
    if args.setup:  # nothing to build: import everything once
        for pid in sorted(f[:-3] for f in os.listdir(os.path.join(boot.VERIF, "dst", "props"))
                          if f.startswith("c") and f.endswith(".py")):
            load_prop(pid)
        print("ready")
        sys.exit(0)
    if args.replay:
        sys.exit(replay(args.replay))
    if args.selftest:
        pids = args.props or sorted(f[:-3].upper() for f in os.listdir(os.path.join(boot.VERIF, "dst", "props"))
                                    if f.startswith("c") and f.endswith(".py"))
        sys.exit(selftest(pids, args.runs or 64, args.seed))
    if args.logs:
        prop = load_prop(args.props[0])
        if hasattr(prop, "setup"):
            prop.setup()
        for r in sorted(search(prop, args.seed, args.tier, list(range(args.runs or 64)), args.workers or 8, 3000),
                        key=lambda r: r["index"]):
            print(r["index"], r["status"], r["log"])
        sys.exit(0)
    if args.one is not None:
        prop = load_prop(args.props[0])
        if hasattr(prop, "setup"):
            prop.setup()
        plan = core.make_plan(prop, args.seed, args.one, args.tier)
        print(json.dumps(plan))
        t0 = time.monotonic()
        res = core.execute(prop, plan)
        res["states"] = len(res["states"])
        print(json.dumps(res, indent=1), time.monotonic() - t0)
        print(res["msg"])
        sys.exit(0)
    rc = 0
    for pid in args.props:
        rc = max(rc, check(pid, args.tier, args.seed, args.runs, args.workers))
    sys.exit(rc)


if __name__ == "__main__":
    boot.reexec_if_needed()
    main()
