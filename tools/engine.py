"""Machinery shared by the checks: build, run the real code, validate its traces with TLC."""
from concurrent.futures import ThreadPoolExecutor
import fcntl, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla"
CP = ":".join([os.path.join(VERIF, "java/cls"), f"{TLA}/tla2tools.jar", f"{TLA}/CommunityModules-deps.jar"])
HARNESS = os.path.join(VERIF, "harness")
KMSH = os.path.join(HARNESS, "target/%s/kmsh")          # debug or release; kmsh-toy beside it: the same on the key type of ToyKey.tla

class ToolError(Exception): pass

def log(*a): print(*a, file=sys.stderr, flush=True)

def build(toy=False):
    os.makedirs(os.path.join(VERIF, "scratch"), exist_ok=True)
    with open(os.path.join(VERIF, "scratch/.lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        env = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(HARNESS, "target"))
        env.pop("RUSTFLAGS", None)
        cargo = lambda b, *more: subprocess.run(["cargo", "build", "--offline", "--locked", "--quiet", "--bin", b, *more], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        with ThreadPoolExecutor(2) as ex: both = list(ex.map(lambda more: cargo("kmsh", *more), ([], ["--release"])))
        for p in both:
            if p.returncode: raise ToolError("harness does not build:\n" + p.stdout[-4000:])
        if toy and cargo("kmsh-toy").returncode: log("kmsh-toy does not build: the key type of ToyKey.tla is left out"); toy = False
        srcs = glob.glob(os.path.join(VERIF, "java/*.java")); cls = os.path.join(VERIF, "java/cls")
        stamp = os.path.join(cls, ".stamp")
        if not os.path.exists(stamp) or any(os.path.getmtime(s) > os.path.getmtime(stamp) for s in srcs):
            os.makedirs(cls, exist_ok=True)
            p = subprocess.run(["javac", "-cp", f"{TLA}/tla2tools.jar", "-d", cls] + srcs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise ToolError("javac: " + p.stdout[-2000:])
            open(stamp, "w").write("ok")
    return toy

# ------------------------------------------------------------------ running the real code
class Stuck(Exception):
    """the code under test brought the whole process down, or never returned"""
    def __init__(self, how, session): self.how, self.session = how, session

def write_lines(path, sessions):
    with open(path, "w") as f:
        for s in sessions: f.write(json.dumps(s) + "\n")

def kmsh(sessions, work, name, mode=(), session_limit=60, total_limit=420, toy=False, release=False):
    """run the sessions in one fresh process; returns the recorded sessions (in the order they finished)"""
    i, o = os.path.join(work, name + ".in"), os.path.join(work, name + ".log")
    write_lines(i, sessions)
    for f in (o, o + ".cur", o + ".child"):
        if os.path.exists(f): os.unlink(f)
    t0 = time.time()
    p = subprocess.Popen([KMSH % ("release" if release else "debug") + ("-toy" if toy else ""), "exec", i, o, *mode], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True)
    cur, since, how = None, time.time(), None
    read = lambda: open(o + ".cur").read() if os.path.exists(o + ".cur") else None
    try:
        while True:
            try: p.wait(0.1); break
            except subprocess.TimeoutExpired: pass
            try: c = read()
            except OSError: c = cur
            if c != cur: cur, since = c, time.time()
            if "--threads" not in mode and "--hostile" not in mode and time.time() - since > session_limit or time.time() - t0 > total_limit:
                how = "does not return"; os.killpg(p.pid, signal.SIGKILL); p.wait(); break
    finally:
        if p.poll() is None: os.killpg(p.pid, signal.SIGKILL)
    if how is None and p.returncode == 0:
        logs = [json.loads(l) for l in open(o)]
        if os.path.exists(o + ".child"): logs += [{**s, "id": "forked/" + s["id"]} for s in map(json.loads, open(o + ".child"))]
        return logs
    err = p.stderr.read()
    if how is None and p.returncode in (70, 101): raise ToolError("harness: " + err[-2000:])
    if how is None: how = f"ended the process (status {p.returncode})" 
    raise Stuck(how, read())

# ------------------------------------------------------------------ TLC
def tlc(module, consts, work, cfg=None, workers=8, heap="6g", timeout=780, extra=(), toy=False):
    """run TLC on spec/<module>.tla; returns (stdout, states, distinct)"""
    d = os.path.join(work, "tlc_" + module + "_" + str(time.time_ns())); os.makedirs(d)
    for f in glob.glob(os.path.join(SPEC, "*.tla")): shutil.copy(f, d)
    text = open(os.path.join(SPEC, cfg or module + ".cfg")).read()
    if toy:                                         # the key type of ToyKey in place of secp256k1
        for op, real, sub in (("ScOk", "ScalarOk", "ToyScOk"), ("ScAdd", "ScalarAdd", "ToyScAdd"), ("PtOf", "PointOf", "ToyPtOf"), ("PtOk", "PointOk", "ToyPtOk"), ("PtAddG", "PointAddG", "ToyPtAddG")):
            assert f"  {op} <- {real}\n" in text; text = text.replace(f"  {op} <- {real}\n", f"  {op} <- {sub}\n")
    if consts: text += "\nCONSTANTS\n" + "".join(f"  {k} = {v}\n" for k, v in consts.items())
    open(os.path.join(d, "run.cfg"), "w").write(text)
    cmd = ["java", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss64m", f"-Djava.io.tmpdir={d}", "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", os.path.join(d, "st"), "-noGenerateSpecTE", *extra, "-config", "run.cfg", module + ".tla"]
    try: p = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired: raise ToolError(f"TLC on {module}: no answer in {timeout} s")
    out = p.stdout
    shutil.rmtree(os.path.join(d, "st"), ignore_errors=True)
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    gen, dis = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    ok = "Model checking completed. No error has been found." in out
    return out, ok, gen, dis, d

def printed(mark, out):
    """the JSON values TLC printed as strings starting with mark"""
    return [json.loads(json.loads(l)[len(mark) + 1:]) for l in out.splitlines() if l.startswith(f'"{mark} ')]

def validate(prop, logs, work, workers=8, toy=False):
    """trace validation: the set of (session id, event index) where the log departs from the specification"""
    bad, gen, dis = [], 0, 0
    logs = list(logs)
    for attempt in range(12):
        f = os.path.join(work, f"trace_{time.time_ns()}.ndjson")
        write_lines(f, logs)
        out, ok, g, d, _ = tlc("Trace", {"Prop": f'"{prop}"', "LogFile": json.dumps(f), "WordFile": json.dumps(os.path.join(SPEC, "data/words.json"))}, work, workers=workers, toy=toy)
        os.unlink(f)
        want = sum(len(s["evs"]) + 1 for s in logs)
        bad += [tuple(x) for x in printed("MISMATCH", out)]
        gen, dis = gen + g, dis + d
        if ok and d == want: return sorted(set(bad)), gen, dis
        # an event whose value does not even have the shape the specification prescribes
        m = re.search(r"Attempted to|was not in the domain|nonexistent field", out)
        last = re.findall(r"/\\ l = (\d+)\n/\\ s = (\d+)", out.split("The error occurred when TLC")[0])
        if not m or not last: raise ToolError(f"trace validation incomplete ({d} of {want} positions):\n" + out[-3000:])
        l, k = int(last[-1][0]), int(last[-1][1])
        bad.append((logs[k - 1]["id"], l)); del logs[k - 1]
    return sorted(set(bad)), gen, dis
