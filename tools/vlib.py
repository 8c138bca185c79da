"""Build the library and the driver, run call scripts on it, let TLC judge the traces."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CPUS = max(2, min(8, os.cpu_count() or 2))


class Infra(Exception):
    """the check could not do its work (exit 2)"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, **kw)


# ------------------------------------------------------------------ building
FLAVOURS = {
    "O0": ["gcc", "-O0"],
    "O2": ["gcc", "-O2"],
    "SH": ["gcc", "-O1", "-fsanitize=shift-exponent", "-fsanitize-trap=shift-exponent"],
    "CL": ["clang", "-O2"],
    "O3": ["gcc", "-O3", "-funsigned-char"],
}


def sources():
    src, inc = [], []
    for d, _, fs in os.walk(os.path.join(REPO, "Src")):
        src += [os.path.join(d, f) for f in fs if f.endswith(".c")]
    for d, _, fs in os.walk(os.path.join(REPO, "Inc")):
        if any(f.endswith(".h") for f in fs):
            inc.append(d)
    if not src or not inc:
        raise Infra("no sources in " + REPO)
    return sorted(src), ["-I" + d for d in sorted(inc)]


def build(work, flavours):
    """one driver per flavour: {flavour: path}"""
    src, inc = sources()
    jobs = []
    for fl in flavours:
        d = os.path.join(work, "b" + fl)
        os.makedirs(d, exist_ok=True)
        jobs.append(["gcc", "-std=gnu99", "-O0", "-w"] + inc + ["-I" + os.path.join(VERIF, "harness"), "-c",
                     os.path.join(VERIF, "harness", "driver.c"), "-o", os.path.join(d, "driver.o")])
        for k, s in enumerate(src):
            cc = FLAVOURS[fl]
            jobs.append([cc[0], "-std=gnu99", "-w", "-fno-zero-initialized-in-bss"] + cc[1:] + inc + ["-c", s, "-o", os.path.join(d, "l%d.o" % k)])
    with ThreadPoolExecutor(CPUS) as ex:
        for r in ex.map(lambda j: sh(j), jobs):
            if r.returncode:
                raise Infra("compilation failed: " + r.stderr.decode(errors="replace")[:2000])
    res = {}
    for fl in flavours:
        d = os.path.join(work, "b" + fl)
        out = os.path.join(d, "driver")
        # the library's own writable data, if any, in a section of its own: see "prew" in driver.c
        objs = [os.path.join(d, "l%d.o" % k) for k in range(len(src))]
        lib = os.path.join(d, "lib.o")
        r = sh(["ld", "-r", "-o", lib] + objs)
        if r.returncode == 0:
            r = sh(["objcopy"] + ["--rename-section=%s=libdata,alloc,load,data,contents" % x for x in (".data", ".data.rel", ".data.rel.local", ".bss")] + [lib])
        if r.returncode == 0:
            for o in objs:
                os.remove(o)
        elif os.path.exists(lib):
            os.remove(lib)
        r = sh(["gcc"] + [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".o")] + ["-o", out])
        if r.returncode:
            raise Infra("linking failed: " + r.stderr.decode(errors="replace")[:2000])
        res[fl] = out
    return res


# ------------------------------------------------------------------- running
class Shard:
    def __init__(self, name, lines, flavour="O0", module="TraceLib", heap="2g", timeout=300, hang=10):
        self.hang = hang
        self.name, self.lines, self.flavour, self.module = name, lines, flavour, module
        self.heap, self.timeout = heap, timeout


class Outcome:
    """ok, or rejected: event number (from 1), reason"""
    def __init__(self, ok, at=0, why="", events=0, distinct=0):
        self.ok, self.at, self.why, self.events, self.distinct = ok, at, why, events, distinct


def run_driver(driver, lines, trace, timeout=300, hang=10):
    env = {"PATH": os.environ.get("PATH", ""), "HANG_S": str(hang), "LC_ALL": "C"}
    with open(trace, "wb") as o:
        try:
            r = subprocess.run([driver], input=("\n".join(lines) + "\n").encode(), stdout=o, stderr=subprocess.PIPE,
                               env=env, timeout=timeout)
        except subprocess.TimeoutExpired:
            return "TIMEOUT", ""
    err = r.stderr.decode(errors="replace")
    if r.returncode == 0:
        return "OK", err
    if r.returncode == 4:
        return "SCRIPT", err
    return "DIED", err


def java(module, cfg, env, heap="2g", timeout=600, workers=1, work=None):
    md = tempfile.mkdtemp(prefix="md", dir=work)
    e = dict(os.environ)
    e.update(env)
    cmd = ["java", "-Xmx" + heap, "-Xss64m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Djava.io.tmpdir=" + md, "-cp", JARS, "tlc2.TLC",
           "-workers", str(workers), "-noGenerateSpecTE", "-metadir", md, "-config", cfg, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("TLC on %s did not finish in %d s" % (module, timeout))
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")


RESOURCE = ("OutOfMemoryError", "StackOverflowError", "Java heap space", "GC overhead", "No space left",
            "Could not create the Java", "insufficient memory")


def judge(trace, focus, module="TraceLib", heap="2g", timeout=600, work=None, extra=None):
    """is the trace a behaviour of the specification?"""
    env = {"TRACE": trace, "FOCUS": focus}
    env.update(extra or {})
    rc, out = java(module, module + ".cfg", env, heap, timeout, 1, work)
    if any(x in out for x in RESOURCE):
        raise Infra("TLC ran out of resources on %s\n%s" % (trace, out[-1500:]))
    m = re.search(r'<<"TRACE", (\d+), (\d+)>>', out)
    n = re.search(r"(\d+) states generated, (\d+) distinct", out)
    distinct = int(n.group(2)) if n else 0
    if rc == 0 and m:
        at, total = int(m.group(1)), int(m.group(2))
        if at == total:
            return Outcome(True, 0, "", total, distinct)
        return Outcome(False, at + 1, "no transition of the specification has this outcome", total, distinct)
    ls = re.findall(r"^(?:/\\ )?l = (\d+)", out, re.M)
    if "is violated" in out and ls:
        return Outcome(False, int(ls[-1]) - 1, "what was reported disagrees with the state of the specification", 0, distinct)
    if rc != 0 and ("TLC threw an unexpected exception" in out or "error occurred" in out or "valuat" in out) \
            and "Parsing or semantic analysis failed" not in out and ls:
        return Outcome(False, int(ls[-1]), "the specification has no meaning for this event: "
                       + " ".join(l for l in out.splitlines() if l.startswith("Error:"))[:400], 0, distinct)
    if rc != 0 and "valuat" in out and "Parsing or semantic" not in out:
        return Outcome(False, 0, "the specification has no meaning for an event: "
                       + " ".join(l for l in out.splitlines() if "rror" in l)[:400], 0, distinct)
    raise Infra("TLC failed on %s (exit %d)\n%s" % (trace, rc, out[-2500:]))


def model(name, cfg=None, heap="3g", timeout=800, workers=1, work=None, edges=False, fails=None):
    """check a design model; returns dict(states, transitions, edges).  fails: a property that this
    model, of a design the library must not have, has to violate"""
    t = time.time()
    rc, out = java(name, (cfg or name) + ".cfg", {}, heap, timeout, workers, work)
    n = re.search(r"(\d+) states generated, (\d+) distinct", out)
    if fails:
        if rc == 0 or fails + " is violated" not in out or not n:
            raise Infra("the model %s of a broken design was not refuted (exit %d)\n%s" % (cfg or name, rc, out[-3000:]))
        return {"model": cfg or name, "states": int(n.group(2)), "transitions": int(n.group(1)), "refuted": fails, "s": round(time.time() - t, 1)}
    if rc != 0 or "No error has been found" not in out or not n:
        raise Infra("the specification model %s does not hold (exit %d)\n%s" % (name, rc, out[-3000:]))
    res = {"model": cfg or name, "states": int(n.group(2)), "transitions": int(n.group(1)), "s": round(time.time() - t, 1)}
    if edges:
        seen = {}
        for l in out.splitlines():
            if l.startswith('"EDGE '):
                e = json.loads(json.loads(l)[5:])
                seen[json.dumps(e, sort_keys=True)] = e
        res["edges"] = list(seen.values())
    docs = [json.loads(json.loads(l)[4:]) for l in sorted({l for l in out.splitlines() if l.startswith('"DOC ')})]
    if docs:
        res["docs"] = docs
    return res


# --------------------------------------------------------------------- tours
def tours(edges, initial):
    """walks from an initial state that together use every edge.  edges: dicts s, a, t.
    initial(state) says whether a walk may start there.  Yields lists of edges."""
    num, left, near = {}, [], []       # state numbers; unused edges and one edge per neighbour of each state

    def number(x):
        k = json.dumps(x)
        if k not in num:
            num[k] = len(left)
            left.append([])
            near.append({})
        return num[k]
    starts = []
    for e in edges:
        n = len(left)
        q, t = number(e["s"]), number(e["t"])
        left[q].append((t, e))
        near[q].setdefault(t, e)
        if q == n and initial(e["s"]):
            starts.append((json.dumps(e["s"]), q))
        elif q < n and initial(e["s"]) and all(q != x for _, x in starts):
            starts.append((json.dumps(e["s"]), q))
    for l in left:
        l.reverse()
    todo = len(edges)
    for _, st in sorted(starts):
        while True:
            walk, cur = [], st
            while len(walk) < 4000:
                if left[cur]:
                    cur, e = left[cur].pop()
                    walk.append(e)
                    todo -= 1
                    continue
                prev, queue, hit = {cur: None}, [cur], None     # nearest state with an unused edge
                for q in queue:
                    if left[q]:
                        hit = q
                        break
                    for t, e in near[q].items():
                        if t not in prev:
                            prev[t] = (q, e)
                            queue.append(t)
                if hit is None:
                    break
                path, q = [], hit
                while prev[q]:
                    q, e = prev[q]
                    path.append(e)
                walk += reversed(path)
                cur = hit
            if not any(True for _ in walk):
                break
            yield walk
            if not any(left):
                break
    if todo:
        raise Infra("%d edges of the model are not reachable by a tour" % todo)


# ------------------------------------------------------------------- proofs
def prove(name, work, timeout=850):
    """the proofs of one module of spec/proofs, by the TLA+ proof system -> what was proved"""
    d = os.path.join(work, "proof-" + name)
    os.makedirs(d, exist_ok=True)
    src = os.path.join(SPEC, "proofs", name + ".tla")
    shutil.copy(src, d)
    t = time.time()
    try:
        r = subprocess.run(["tlapm", "--strict", "--threads", "4", "--stretch", "8", name + ".tla"], cwd=d,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise Infra("no answer from the proof system on " + name)
    out = r.stdout.decode(errors="replace")
    m = re.search(r"All (\d+) obligations? proved", out)
    if r.returncode or not m:
        raise Infra("the proof system could not prove %s: %s" % (name, out[-800:]))
    with open(src) as f:
        text = f.read()
    return {"module": name, "obligations": int(m.group(1)), "discharged": int(m.group(1)),
            "theorems": re.findall(r"^(?:THEOREM|LEMMA)\s+(\w+)", text, re.M), "wall_s": round(time.time() - t, 1)}
