"""Mutation sampling: which small changes of the code do the checks not notice?
tools/mutate.py [-j N] [-n COUNT] [-s SEED] [-f FILE-SUBSTRING] OUT.jsonl
Each sampled mutant is applied in a scratch copy of /repo; if the tests still pass, a fraction of the runs of every
check is executed against it (those most likely to notice first), until one reports a violation.  Survivors are for
reading.  Nothing is left behind."""
import ast, json, os, random, shutil, subprocess, sys, time
V = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = os.environ.get("BUG_SCRATCH", "/tmp/w")
ALL = ["C%02d" % i for i in range(1, 30)] + ["C31", "C32"]
FIRST = {
    "abstract.py": "C05 C24 C27 C03 C16 C20 C15 C04 C17 C18", "finite_mdp.py": "C27 C21 C03", "observation.py": "C21 C04 C20 C17",
    "action.py": "C11 C22 C04 C20", "envs/common/graphics.py": "C19 C18 C20 C16", "vehicle/graphics.py": "C18",
    "road/graphics.py": "C18 C20", "two_way_env.py": "C25 C24 C20 C15", "parking_env.py": "C25 C24 C15 C20 C04",
    "summon_env.py": "C25 C15 C24 C20", "merge_env.py": "C25 C24 C15 C20", "highway_env.py": "C25 C24 C15 C20 C22",
    "intersection_env.py": "C15 C25 C24 C22 C20", "roundabout_env.py": "C25 C24 C15 C20", "lane_keeping_env.py": "C29 C24 C16 C15",
    "interval.py": "C23 C31 C32", "road/road.py": "C26 C13 C28 C09 C03", "regulation.py": "C14 C03", "lane.py": "C06 C12 C26 C08 C13",
    "objects.py": "C07 C26 C15", "estimation.py": "C29 C32 C23", "prediction.py": "C23 C29", "controller.py": "C11 C12 C13 C28 C06 C08",
    "dynamics.py": "C06 C31 C08 C12", "behavior.py": "C09 C10 C29 C32 C01", "kinematics.py": "C06 C07 C26 C29 C28 C21", "utils.py": "C07 C32 C23 C21 C20",
}
SKIP = ("_make_road", "_make_roads", "make_roads", "make_road", "_create_road", "default_config", "__repr__", "__str__", "simulate", "main", "plot", "plot_attributes")
ATTR = {"target_speed": "speed", "speed": "target_speed", "target_lane_index": "lane_index", "lane_index": "target_lane_index",
        "LENGTH": "WIDTH", "WIDTH": "LENGTH", "length": "width", "width": "length", "min": "max", "max": "min", "sin": "cos", "cos": "sin",
        "simulation_frequency": "policy_frequency", "target_lane": "lane", "logical_and": "logical_or", "argmin": "argmax",
        "position": "velocity", "velocity": "position", "SPEED_MIN": "SPEED_MAX", "SPEED_MAX": "SPEED_MIN", "controlled_vehicles": "road.vehicles"}


def sites(src):
    """(start, end, replacement, description) of each mutant, in character offsets."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    offs = [0]
    for l in lines:
        offs.append(offs[-1] + len(l))

    def pos(line, col):
        return offs[line - 1] + len(lines[line - 1].encode()[:col].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return src[a:b]
    out = []

    def add(n, new, what):
        a, b = span(n)
        if src[a:b] != new:
            out.append((a, b, new, what))

    def visit(n, fn=""):
        if isinstance(n, (ast.FunctionDef,)):
            fn = n.name
            if fn in SKIP:
                return
            for d in n.args.defaults:
                if fn not in ("__repr__", "__str__"):
                    visit(d, fn)
            body = n.body
            if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant):
                body = body[1:]
            for b in body:
                visit(b, fn)
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            o = {ast.Lt: ">", ast.Gt: "<", ast.LtE: ">=", ast.GtE: "<=", ast.Eq: "!=", ast.NotEq: "==", ast.In: "not in", ast.NotIn: "in",
                 ast.Is: "is not", ast.IsNot: "is"}[type(n.ops[0])]
            add(n, "%s %s %s" % (text(n.left), o, text(n.comparators[0])), "cmp")
        if isinstance(n, ast.Compare) and len(n.ops) == 2:
            add(n, "%s" % text(n.comparators[0]), "cmp")
        if isinstance(n, ast.BinOp):
            o = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "/", ast.Mod: "//"}.get(type(n.op))
            if o and not isinstance(n.left, ast.Constant) or (o and not isinstance(n.left.value, str)):
                add(n, "(%s) %s (%s)" % (text(n.left), o, text(n.right)), "binop")
                if isinstance(n.op, (ast.Add, ast.Sub, ast.Mult)):
                    add(n, "(%s)" % text(n.left), "drop-term")
        if isinstance(n, ast.BoolOp):
            o = " or " if isinstance(n.op, ast.And) else " and "
            add(n, "(" + o.join("(%s)" % text(v) for v in n.values) + ")", "boolop")
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                k = " and " if isinstance(n.op, ast.And) else " or "
                add(n, "(" + k.join("(%s)" % text(v) for v in rest) + ")", "drop-cond")
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)) and not isinstance(n.operand, ast.Constant):
            add(n, "(%s)" % text(n.operand), "unary")
        if isinstance(n, ast.Constant) and not isinstance(n.value, (str, bytes)) and n.value is not None and n.value is not Ellipsis:
            if isinstance(n.value, bool):
                add(n, str(not n.value), "bool")
            elif isinstance(n.value, int):
                add(n, str(n.value + 1), "const")
                if n.value > 0:
                    add(n, str(n.value - 1), "const")
            else:
                add(n, repr(n.value * 1.5 if n.value else 1.0), "const")
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", "")
            if name in ("clip", "abs", "array", "deepcopy", "copy", "float", "int", "round", "wrap_to_pi", "not_zero", "list", "dict", "sorted", "flatten",
                        "astype", "tuple", "squeeze", "exp", "sqrt") :
                tgt = n.args[0] if n.args and not (isinstance(f, ast.Attribute) and name in ("astype", "flatten", "squeeze")) else \
                    (f.value if isinstance(f, ast.Attribute) else None)
                if tgt is not None and not (isinstance(tgt, ast.Name) and tgt.id in ("np", "copy")):
                    add(n, "(%s)" % text(tgt), "drop-call")
            if name in ("min", "max") and isinstance(f, ast.Name):
                add(f, {"min": "max", "max": "min"}[name], "minmax")
            if len(n.args) == 2 and name not in ("isinstance", "hasattr", "getattr", "setattr") and not any(isinstance(a, ast.Starred) for a in n.args):
                a, b = n.args
                x, y = pos(a.lineno, a.col_offset), pos(b.end_lineno, b.end_col_offset)
                out.append((x, y, "%s, %s" % (text(b), text(a)), "swap-args"))
            for k in n.keywords:
                if k.arg and len(n.keywords) + len(n.args) > 1:
                    a, b = span(k)
                    e = src[b:b + 1]
                    if src[a - 2:a] == ", ":
                        out.append((a - 2, b, "", "drop-keyword"))
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr in ATTR:
            b = pos(n.end_lineno, n.end_col_offset)
            out.append((b - len(n.attr), b, ATTR[n.attr], "attr"))
        if isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and fn and "logger" not in text(n) and "super()" not in text(n):
            add(n, "pass", "drop-stmt")
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, "pass", "drop-stmt")
        if isinstance(n, ast.If):
            add(n.test, "True", "if-true")
            add(n.test, "False", "if-false")
        if isinstance(n, ast.IfExp):
            add(n, "(%s)" % text(n.body), "ifexp")
            add(n, "(%s)" % text(n.orelse), "ifexp")
        if isinstance(n, ast.comprehension) and n.ifs:
            add(n.ifs[0], "True", "filter")
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(n, ast.AnnAssign):
            if n.value is not None:
                visit(n.value, fn)
            return
        for c in ast.iter_child_nodes(n):
            if isinstance(n, ast.Subscript) and c is n.slice and isinstance(n.value, ast.Name) and n.value.id in ("List", "Tuple", "Union", "Dict", "Optional"):
                continue
            visit(c, fn)
    visit(tree)
    return out


def run_checks(copy, order, frac, cap, nfirst=30):
    code = """
import sys, os, time, json
sys.path.insert(0, %r)
from dst import boot
boot.load()
from dst import core, run
frac = %r; cap = %r
nfirst = %d
for kk, pid in enumerate(%r.split()):
    prop = run.load_prop(pid)
    if hasattr(prop, "setup"):
        prop.setup()
    n = max(12, int(prop.QUICK_RUNS * frac * (1 if kk < nfirst else 0.2))); t = time.time(); err = None
    for i in range(n):
        r = core.run_isolated(prop, core.make_plan(prop, 1, i, "quick"))
        if r["status"] == "violation":
            print("KILLED %%s run %%d of %%d: %%s" %% (pid, i, n, r["msg"][:200].replace("\\n", " "))); sys.exit(0)
        if r["status"] == "error" and err is None:
            err = r
        if time.time() - t > cap:
            break
    if err is not None:
        print("ERROR %%s: %%s" %% (pid, err["msg"][-400:].replace("\\n", " ")), flush=True)
print("SURVIVED")
""" % (V, frac, cap, nfirst, order)
    env = {k: v for k, v in os.environ.items() if k not in ("OFFSCREEN_RENDERING", "PYTHONPATH", "SDL_VIDEODRIVER")}
    env.update(PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg", SDL_AUDIODRIVER="dummy", OPENBLAS_NUM_THREADS="1",
               OMP_NUM_THREADS="1", PYGAME_HIDE_SUPPORT_PROMPT="1", XDG_RUNTIME_DIR="/tmp", PYTHONWARNINGS="ignore", VERIF_BOOTED="1",
               VERIF_REPO=copy, VERIF_OUT=copy + "_out", PYTHONPATH=copy + os.pathsep + V)
    try:
        p = subprocess.run(["/opt/venv/bin/python", "-B", "-c", code], capture_output=True, text=True, timeout=3000, env=env, cwd=V)
    except subprocess.TimeoutExpired:
        return "TIMEOUT"
    return (p.stdout.strip() or "CRASH " + p.stderr[-600:])


def main():
    a = sys.argv[1:]
    opt = {"-j": "8", "-n": "100", "-s": "1", "-f": "", "-r": "0.12", "-w": ""}
    while a and a[0] in opt:
        opt[a[0]] = a[1]
        a = a[2:]
    outp = a[0]
    rng = random.Random(int(opt["-s"]))
    files = [f for f in subprocess.check_output(["git", "ls-files", "highway_env"], cwd="/repo", text=True).split() if f.endswith(".py")]
    cands = []
    for f in files:
        if not opt["-f"] and 'graphics' in f:
            continue
        if opt["-f"] and not any(x in f for x in opt["-f"].split(",")):
            continue
        src = open("/repo/" + f).read()
        for s in sites(src):
            if opt["-w"] and opt["-w"] != s[3]:
                continue
            cands.append((f,) + s)
    seen = set()
    if os.path.exists(outp):
        for l in open(outp):
            r = json.loads(l)
            seen.add((r["file"], r["a"], r["new"]))
    rng.shuffle(cands)
    print(len(cands), "candidates", flush=True)
    cands = cands[:int(opt["-n"])]
    import threading, queue
    q = queue.Queue()
    for c in cands:
        if (c[0], c[1], c[3]) not in seen:
            q.put(c)
    lock = threading.Lock()

    def work(k):
        copy = os.path.join(W, "mut_%s_%d" % (os.path.basename(outp), k))
        shutil.rmtree(copy, ignore_errors=True)
        shutil.copytree("/repo", copy, symlinks=True)
        try:
            while True:
                try:
                    f, x, y, new, what = q.get_nowait()
                except queue.Empty:
                    return
                src = open("/repo/" + f).read()
                mut = src[:x] + new + src[y:]
                try:
                    compile(mut, f, "exec")
                except SyntaxError:
                    continue
                open(os.path.join(copy, f), "w").write(mut)
                t = time.time()
                line = src.count("\n", 0, x) + 1
                rec = dict(file=f, line=line, a=x, old=src[x:y], new=new, what=what, src=src.splitlines()[line - 1].strip())
                e = dict(os.environ, PYTHONPATH=copy, SDL_VIDEODRIVER="dummy", OFFSCREEN_RENDERING="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1")
                try:
                    p = subprocess.run(["/opt/venv/bin/python", "-B", "-m", "pytest", "-x", "-q", "-p", "no:cacheprovider",
                                        "--ignore=tests/envs/test_time.py", "tests"], cwd=copy, env=e, capture_output=True, timeout=120)
                    ok = p.returncode == 0
                except subprocess.TimeoutExpired:
                    ok = False
                if not ok:
                    rec["result"] = "tests"
                else:
                    first = next((v for k2, v in FIRST.items() if f.endswith(k2)), "").split()
                    order = first + [p for p in ALL if p not in first]
                    rec["result"] = run_checks(copy, " ".join(order), float(opt["-r"]), 90, len(first))
                rec["t"] = round(time.time() - t)
                open(os.path.join(copy, f), "w").write(src)
                with lock:
                    with open(outp, "a") as h:
                        h.write(json.dumps(rec) + "\n")
                    print("%s:%d %s | %s -> %s | %s" % (f, line, what, src[x:y][:80].replace("\n", " "), new[:80].replace("\n", " "), rec["result"][-300:]), flush=True)
        finally:
            shutil.rmtree(copy, ignore_errors=True)
            shutil.rmtree(copy + "_out", ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(int(opt["-j"]))]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
