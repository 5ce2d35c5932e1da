"""Evaluate planted bugs: tools/bug.py [-a] [-n] [-j N] ID...
In a scratch copy of /repo: apply the patch, run the tests, run the demo on both trees, run the property's check
(with -a every check, with -n none) against the copy.  Nothing is left behind."""
import concurrent.futures as cf, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BUG_SCRATCH", "/tmp/w")


def sh(cmd, cwd, timeout=900, **env):
    e = dict(os.environ, **env)
    for k in [k for k, v in e.items() if v is None]:
        e.pop(k)
    try:
        p = subprocess.run(cmd, cwd=cwd, env=e, capture_output=True, text=True, timeout=timeout)
        return p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired as x:
        return 124, str(x)


def one(bid, every, none, workers, seed="1"):
    d = os.path.join(V, "seeded", bid)
    c = os.path.join(W, "bug_" + bid)
    shutil.rmtree(c, ignore_errors=True)
    out = {"id": bid}
    try:
        shutil.copytree("/repo", c, symlinks=True)
        rc, o = sh(["git", "apply", os.path.join(d, "patch.diff")], c)
        if rc:
            return dict(out, error="apply: " + o[-300:])
        base = json.load(open("/opt/vp/BASELINE.json"))
        rc, o = sh(["/opt/venv/bin/python", "-B", "-m", "pytest", "-q", "-p", "no:cacheprovider",
                    "--ignore=tests/envs/test_time.py", "tests"], c, PYTHONPATH=c, SDL_VIDEODRIVER="dummy",
                   OFFSCREEN_RENDERING="1")
        out["tests"] = o.strip().splitlines()[-1] if rc else "ok " + o.strip().splitlines()[-1]
        shutil.copytree(d, c + "_demo")
        for f in ("patch.diff", "meta.json"):
            os.remove(os.path.join(c + "_demo", f))
        t = time.time()
        rc0, o0 = sh(["bash", c + "_demo/demo.sh"], "/repo", 300)
        t = time.time() - t
        rc1, o1 = sh(["bash", c + "_demo/demo.sh"], c, 300)
        out["demo"] = "clean %d patched %d (%.0f s)" % (rc0, rc1, t)
        out["demo_msg"] = (o0[-300:] if rc0 else "") + " || " + o1.strip()[-200:]
        out["valid"] = rc0 == 0 and rc1 != 0 and out["tests"].startswith("ok")
        if none:
            return out
        props = [json.load(open(os.path.join(d, "meta.json")))["property"]]
        if every:
            props = props + [p for p in ["C%02d" % i for i in range(1, 33) if i != 30] if p not in props]
        out["checks"] = {}
        for p in props:
            t = time.time()
            rc, o = sh(["./check", p, "--tier", "quick", "--seed", seed], V, 1500, VERIF_REPO=c, VERIF_OUT=c + "_out",
                       VERIF_WORKERS=str(workers))
            v = [l for l in o.splitlines() if l.startswith("VIOLATION property=" + p)]
            m = [l[:220] for l in o.splitlines() if l.startswith("run ")]
            out["checks"][p] = ("CAUGHT" if rc == 1 and v else "missed" if rc == 0 else "rc=%d %s" % (rc, o[-300:])) + \
                " %.0f s " % (time.time() - t) + (m[0] if m and (p == props[0]) else "")
        return out
    finally:
        for x in (c, c + "_demo", c + "_out"):
            shutil.rmtree(x, ignore_errors=True)


def main(a):
    every, none = "-a" in a, "-n" in a
    j = int(a[a.index("-j") + 1]) if "-j" in a else 2
    seed = a[a.index("-s") + 1] if "-s" in a else "1"
    ids = [x for i, x in enumerate(a) if not x.startswith("-") and (i == 0 or a[i - 1] not in ("-j", "-s"))] or \
        sorted(os.listdir(os.path.join(V, "seeded")))
    with cf.ThreadPoolExecutor(j) as ex:
        for f in cf.as_completed([ex.submit(one, b, every, none, max(1, 8 // j), seed) for b in ids]):
            r = f.result()
            ch = r.pop("checks", {})
            print(("OK   " if r.get("valid") else "BAD  ") + json.dumps(r))
            for p, m in ch.items():
                print("      ", p, m)
            sys.stdout.flush()


if __name__ == "__main__":
    main(sys.argv[1:])
