"""Deterministic execution of one simulated run, and the search, minimisation and replay around it."""
import collections
import hashlib
import json
import os
import random
import signal
import sys
import time
import traceback

from . import boot

RUN_WALL_CAP = 150  # s: a run takes a few seconds at most


class Violation(Exception):
    """The property is broken. `kind` is the violation class, preserved by minimisation."""

    def __init__(self, kind, msg, **data):
        super().__init__("%s: %s" % (kind, msg))
        self.kind, self.msg, self.data = kind, msg, data


class InjectedCrash(Exception):
    """A fault injected by the simulator inside the code under test."""


class Ctx:
    """What a run records: it never feeds back into the run."""

    def __init__(self):
        self.count = collections.Counter()   # measures: ticks, steps, decisions...
        self.faults = collections.Counter()  # faults that actually fired
        self.probes = collections.Counter()  # rare conditions reached / oracle evaluations by kind
        self.states = set()
        self.sim_time = 0.0
        self._log = hashlib.sha1()

    def fault(self, kind, n=1):
        self.faults[kind] += n
        self._log.update(("F" + kind).encode())

    def probe(self, name, n=1):
        self.probes[name] += n

    def tick(self, dt, n=1):
        self.count["ticks"] += n
        self.sim_time += dt * n

    def event(self, *what):
        self._log.update(repr(what).encode())

    def state(self, sig):
        """Record the abstract state reached (for the distinct-states measure)."""
        if len(self.states) < 400:
            self.states.add(int(hashlib.md5(repr(sig).encode()).hexdigest()[:12], 16))

    def result(self):
        return dict(count=dict(self.count), faults=dict(self.faults), probes=dict(self.probes),
                    states=sorted(self.states), sim_time=self.sim_time, log=self._log.hexdigest())


def derive(*parts):
    """An independent generator for each purpose, from one seed."""
    h = hashlib.sha256("/".join(str(p) for p in parts).encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def classify(exc):
    """Exception -> (status, kind, msg). An exception out of the code under test breaks the property."""
    if isinstance(exc, Violation):
        return "violation", exc.kind, exc.msg
    repo, verif = os.path.realpath(boot.REPO) + os.sep, os.path.realpath(boot.VERIF) + os.sep
    where, origin = None, None
    for frame in traceback.extract_tb(exc.__traceback__):
        path = os.path.realpath(frame.filename)
        if path.startswith(repo):
            origin, where = "repo", "%s:%s" % (os.path.relpath(path, repo), frame.name)
        elif path.startswith(verif):
            origin, where = "verif", "%s:%s:%d" % (os.path.relpath(path, verif), frame.name, frame.lineno)
    text = "".join(traceback.format_exception(type(exc), exc, exc.__traceback__))[-2500:]
    if origin == "repo" and not isinstance(exc, (InjectedCrash, MemoryError, KeyboardInterrupt)):
        return "violation", "exception:" + type(exc).__name__, "%s raised in %s: %s" % (type(exc).__name__, where, exc)
    return "error", type(exc).__name__, text


def pin(seed):
    """Put the process-wide sources of nondeterminism behind the seed."""
    import numpy as np
    random.seed(seed)
    np.random.seed(seed % (2 ** 32))
    rng = random.Random("urandom%d" % seed)
    os.urandom = lambda n: bytes(rng.getrandbits(8) for _ in range(n))


def execute(prop, plan):
    """Run the plan in this process. Pure function of the plan and of the code under test."""
    ctx = Ctx()
    out = dict(status="ok", kind=None, msg=None)
    try:
        pin(plan.get("seed", 0))
        prop.FAMILIES[plan["family"]][2](plan, ctx)
    except BaseException as e:  # noqa
        if isinstance(e, (SystemExit, KeyboardInterrupt)):
            out.update(status="error", kind=type(e).__name__, msg=traceback.format_exc())
        else:
            status, kind, msg = classify(e)
            out.update(status=status, kind=kind, msg=msg)
            if isinstance(e, Violation):
                out["data"] = e.data
    out.update(ctx.result())
    return out


def in_child(fn, cap=RUN_WALL_CAP):
    """Call fn() in a forked child of this pristine process and return its (JSON) result, or None on a hang."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            os.setpgid(0, 0)
            res = fn()
            data = json.dumps(res, default=repr).encode()
            with os.fdopen(w, "wb") as f:
                f.write(data)
            code = 0
        except BrokenPipeError:
            pass  # the search was stopped
        except BaseException:  # noqa
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    deadline = time.monotonic() + cap
    import select
    chunks = []
    hung = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hung = True
            break
        ready, _, _ = select.select([r], [], [], min(left, 5))
        if ready:
            b = os.read(r, 1 << 16)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    if hung:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            os.kill(pid, signal.SIGKILL)
    _, status = os.waitpid(pid, 0)
    if hung:
        return None
    data = b"".join(chunks)
    if not data:
        return dict(status="error", kind="child-died", msg="child ended with status %d and no result" % status,
                    count={}, faults={}, probes={}, states=[], sim_time=0, log="")
    return json.loads(data)


def run_isolated(prop, plan, cap=RUN_WALL_CAP):
    """One run in a fresh fork, so that no run depends on what ran before it."""
    res = in_child(lambda: execute(prop, plan), cap)
    if res is None:  # no progress: try once more, alone and longer
        res = in_child(lambda: execute(prop, plan), 2 * cap)
        if res is None:
            res = dict(status="violation", kind="no-progress",
                       msg="the run did not finish within %d s of wall time, twice" % (2 * cap),
                       count={}, faults={}, probes={}, states=[], sim_time=0, log="")
    return res


def make_plan(prop, seed, index, tier):
    fams = list(prop.FAMILIES)
    weights = [prop.FAMILIES[f][0] for f in fams]
    # Deterministic round-robin proportional to the weights, so that every family gets its share early
    total = sum(weights)
    slots = [f for f, w in zip(fams, weights) for _ in range(w)]
    order = derive("order", prop.ID, index // total if total else 0)
    order.shuffle(slots)
    fam = slots[index % total]
    rng = derive(seed, prop.ID, index, fam)
    plan = prop.FAMILIES[fam][1](rng, tier)
    plan["family"] = fam
    plan.setdefault("seed", rng.getrandbits(31))
    return json.loads(json.dumps(plan))  # what is executed is exactly what a replay file holds


# ---------------------------------------------------------------------------------------- minimisation
def _get(plan, path):
    for p in path:
        plan = plan[p]
    return plan


def _set(plan, path, value):
    new = json.loads(json.dumps(plan))
    cur = new
    for p in path[:-1]:
        cur = cur[p]
    cur[path[-1]] = value
    return new


def _lists(plan, keys):
    """Paths of the shrinkable lists (by key name) anywhere in the plan, outermost first."""
    found = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in keys and isinstance(v, list):
                    found.append(path + [k])
                walk(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    walk(v, path + [i])
    walk(plan, [])
    return found


def minimise(prop, plan, kind, budget_s=75, log=None):
    keys = set(getattr(prop, "SHRINK", ["ops", "acts", "events", "faults", "vehicles", "objects"]))
    t0 = time.monotonic()
    tries = 0

    def fails(p):
        nonlocal tries
        tries += 1
        try:
            res = run_isolated(prop, p, cap=60)
        except Exception:  # noqa
            return False
        return res["status"] == "violation" and res["kind"] == kind

    def left():
        return time.monotonic() - t0 < budget_s

    changed = True
    while changed and left():
        changed = False
        i = 0
        while left():
            paths = _lists(plan, keys)
            if i >= len(paths):
                break
            path = paths[i]
            i += 1
            items = _get(plan, path)
            n = max(1, len(items) // 2)
            while n >= 1 and left():
                items = _get(plan, path)
                pos = len(items)
                while pos > 0 and left():
                    lo = max(0, pos - n)
                    cand = _set(plan, path, items[:lo] + items[pos:])
                    if lo < pos and fails(cand):
                        plan, changed = cand, True
                        items = _get(plan, path)
                        pos = min(lo, len(items))
                    else:
                        pos = lo
                n //= 2
        # configuration entries: drop what is not needed
        for path in [p for p in _dicts(plan, set(getattr(prop, "SHRINK_DICTS", ["cfg"])))]:
            for k in list(_get(plan, path)):
                if not left():
                    break
                d = dict(_get(plan, path))
                d.pop(k)
                cand = _set(plan, path, d)
                if fails(cand):
                    plan, changed = cand, True
    return plan, tries


def _dicts(plan, keys):
    found = []

    def walk(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in keys and isinstance(v, dict):
                    found.append(path + [k])
                walk(v, path + [k])
        elif isinstance(node, list):
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    walk(v, path + [i])
    walk(plan, [])
    return found
