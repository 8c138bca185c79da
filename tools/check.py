#!/usr/bin/env python3
"""check.py <property> : decide one property.  Exit 0 held, 1 violated, 2 could not decide."""
import contextlib, copy, hashlib, json, os, shutil, sys, tempfile, threading, time, traceback
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, plans
from vlib import Infra, VERIF

PID = sys.argv[1]
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = "thorough" if (os.environ.get("VERIF_TIER") == "thorough" or "--thorough" in sys.argv) else "quick"
DEEP = TIER == "thorough"
OUT = os.environ.get("IMU_OUT", VERIF)      # where evidence/ and replays/ go


# ------------------------------------------------------------ negative control
def flip(e, f):
    e[f] = not e[f]
    return True


def bump(e, f):
    if e[f]:
        e[f][-1] ^= 1
        return True
    return False


def inc(e, f):
    e[f] = [e[f][0], e[f][1] ^ 1]
    return True


MUT = {
    "C01": {"QEnq": lambda e: flip(e, "ret"), "QDeq": lambda e: bump(e, "e"), "QRear": lambda e: bump(e, "e"), "QStat": lambda e: flip(e, "full")},
    "C02": {"PEnq": lambda e: flip(e, "ret"), "PDeq": lambda e: bump(e, "e"), "PStat": lambda e: flip(e, "empty")},
    "C03": {"MIns": lambda e: flip(e, "ret"), "MGet": lambda e: bump(e, "v")},
    "C04": {"SAdd": lambda e: flip(e, "ret"), "TaskStart": lambda e: e.update(k=(e["k"] + 1) % 32) or True},
    "C05": {"JAdd": lambda e: bump(e, "txt"), "JEnd": lambda e: flip(e, "ret")},
    "C06": {"JDoc": lambda e: bump(e, "v") if e["ret"] else flip(e, "ret") and e["doc"][:1] == [123] and e["doc"][-1:] == [125]},
    "C07": {"B64E": lambda e: bump(e, "o") if e["ok"] else flip(e, "ok")},
    "C08": {"B64D": lambda e: bool(e["ok"] and e["o"]) and (e["o"].__setitem__(0, e["o"][0] ^ 1) or True)},
    "C09": {"Sort": lambda e: len(e["out"]) > 1 and bump(e["out"], -1)},
    "C10": {"Sort": lambda e: e["seen"].append([1] * e["es"]) or [1] * e["es"] not in e["in"]},
    "C11": {"Crc": lambda e: inc(e, "ret")},
    "C12": {"CTab": lambda e: inc(e["tab"], 77), "CBase": lambda e: inc(e, "ret"), "CChunk": lambda e: e["fin"] and e["ret"] != [0, 0] and e["whole"] != [0, 0] and inc(e, "ret") and e["ret"] != e["whole"]},
    "C13": {"Cha": lambda e: bool(e["blk"]) and bump(e["blk"][-1], "o")},
    "C14": {"HWhole": lambda e: bump(e, "o"), "HBack": lambda e: bump(e, "o")},
    "C15": {"Caesar": lambda e: len(e["d"]) > 1 and bump(e, "d"), "Vernam": lambda e: flip(e, "r1")},
    "C16": {"S2U": lambda e: flip(e, "ret"), "Pow10": lambda e: flip(e, "ret"), "Chr": lambda e: flip(e, "u")},
    "C17": {"Ser": lambda e: bump(e, "b"), "Des": lambda e: inc(e, "v"), "Blob": lambda e: bump(e, "o"), "Swap": lambda e: bump(e, "x")},
    "C18": {"Bit": lambda e: flip(e, "ret"), "Reflect": lambda e: inc(e, "v") and e["n"] <= 32, "Rotl": lambda e: inc(e, "v")},
    "C19": {"*": lambda e: e["mem"].update(outside=1) or True},
    "C20": {"*": lambda e: e.update(o=e["o"] + 1) or True},
}


def controls(traces, work, extra):
    """corrupted copies of accepted traces: of every kind of event one must be rejected (where a call is
    outside the property its outcome is free, so several are tried)"""
    ops = []
    for op, mut in MUT[PID].items():
        hits = []
        for sh, path in sorted(traces, key=lambda t: (t[0].heap != "2g", "big" in t[0].name, t[0].name)):
            lines = []
            with open(path) as f:
                for k, l in enumerate(f):
                    if k >= 400 or len(l) > 20000:
                        break
                    lines.append(l)
            for k in range(len(lines) - 1, -1, -1):
                e = json.loads(lines[k])
                if op != "*" and e.get("op") != op:
                    continue
                m = copy.deepcopy(e)
                if mut(m) and m != e:
                    hits.append((sh, lines[:k] + [json.dumps(m) + "\n"], k + 1))
                    break
            if len(hits) == 8:
                break
        if hits:
            ops.append((op, hits))

    def one(job):
        op, hits = job
        for n, (sh, lines, at) in enumerate(hits):
            f = os.path.join(work, "neg-%s-%d.ndjson" % ("all" if op == "*" else op, n))
            with open(f, "w") as o:
                o.writelines(lines)
            res = vlib.judge(f, PID, sh.module, "2g", 300, work, sh.__dict__.get("env"))
            if not res.ok:
                return {"event": op, "rejected_at": res.at, "corrupted_at": at}
        raise Infra("the specification accepts a corrupted %s event" % op)

    with ThreadPoolExecutor(vlib.CPUS) as ex:
        done = list(ex.map(one, ops))
    if not done:
        raise Infra("no negative control could be made")
    return done


# --------------------------------------------------------------------- running
def scenario(shard, trace, at):
    """the part of the script the rejected event belongs to"""
    notes = 0
    with open(trace) as f:
        for k, l in enumerate(f, 1):
            if k > at > 0:
                break
            notes += l.startswith('{"op":"Note"')
    out, seen, head = [], 0, []
    for l in shard.lines:
        if l.startswith("note "):
            seen += 1
        if seen == 0:
            head.append(l)
        elif seen == notes:
            out.append(l)
    return head + out if notes else shard.lines


def violation(shard, trace, res, driver_state=""):
    d = os.path.join(OUT, "replays")
    os.makedirs(d, exist_ok=True)
    ev = ""
    if os.path.exists(trace) and res.at > 0:
        with open(trace) as f:
            for k, l in enumerate(f, 1):
                if k == res.at:
                    ev = l.strip()[:4000]
                    break
    path = os.path.join(d, "%s-%s.json" % (PID, shard.name))
    with open(path, "w") as f:
        json.dump({"property": PID, "shard": shard.name, "flavour": shard.flavour, "module": shard.module, "event_number": res.at,
                   "event": ev, "why": res.why, "driver": driver_state, "part": scenario(shard, trace, res.at)[:3000], "script": shard.lines if len(shard.lines) < 200000 else []}, f, indent=0)
    print("  %s: event %d of %s rejected: %s" % (PID, res.at, shard.name, res.why))
    if ev:
        print("  " + ev[:600])
    print("VIOLATION property=%s replay=%s" % (PID, path))
    sys.stdout.flush()


def run_shard(shard, drivers, work):
    """-> (shard, trace, Outcome)"""
    trace = os.path.join(work, shard.name + ".ndjson")
    t = time.time()
    with GIANT if shard.name.startswith("giant") else contextlib.nullcontext():      # several GiB each: one at a time
        state, err = vlib.run_driver(drivers[shard.flavour], shard.lines, trace, shard.timeout, shard.hang)
    if state == "SCRIPT":
        raise Infra("driver refused the script of %s: %s" % (shard.name, err[-300:]))
    if state != "OK":
        return shard, trace, vlib.Outcome(False, 0, "the program running the calls ended (%s): %s" % (state, err[-200:]))
    if shard.hang < 60 and '"st":"HANG"' in open(trace).read():
        vlib.run_driver(drivers[shard.flavour], shard.lines, trace, 900, hang=60)
    post = getattr(shard, "post", None)
    env = None
    judged = trace
    if post:
        judged, env = post(trace, drivers[shard.flavour], work)
    shard.env = env or {}
    t1 = time.time()
    res = vlib.judge(judged, PID, shard.module, shard.heap, 850, work, env)
    if os.environ.get("TIMES"):
        print("%-12s calls %5.1f s, judging %5.1f s, %d events" % (shard.name, t1 - t, time.time() - t1, res.events))
    return shard, judged, res


def lap(what):
    if os.environ.get('TIMES'):
        print('%6.1f s  %s' % (time.time() - T0, what))


T0 = time.time()
GIANT = threading.Semaphore(1)


def main():
    t0 = T0
    work = tempfile.mkdtemp(prefix="imu-%s-" % PID)
    try:
        with ThreadPoolExecutor(vlib.CPUS) as ex:
            ms = {n: ex.submit(vlib.model, m, n, "3g", 850, 1, work, edges, *fails)
                  for n, m, edges, *fails in plans.models(PID, DEEP)}
            proofs = [ex.submit(vlib.prove, n, work) for n in plans.PROOFS.get(PID, [])] if DEEP else []
            flavours = plans.FLAVOURS.get(PID, ["O0", "O2"])
            flavours = flavours + [f for f in ("CL", "O3") if DEEP and f not in flavours]
            drivers = vlib.build(work, flavours)
            models = {n: f.result() for n, f in ms.items()}
            proofs = [f.result() for f in proofs]
        lap('models and builds')
        plan = plans.Plan(PID, SEED, DEEP, models)
        getattr(plans, "plan_" + PID)(plan)
        lap('scripts')
        plan.shards.sort(key=lambda s: -sum(len(l) for l in s.lines))
        plan.shards.sort(key=lambda s: 0 if s.heap != "2g" else 1)
        bad, good, events, distinct, samples, errors = [], [], 0, 0, [], []
        with ThreadPoolExecutor(vlib.CPUS if not DEEP else vlib.CPUS) as ex:
            futs = [ex.submit(run_shard, s, drivers, work) for s in plan.shards]
            for f in futs:
                try:
                    shard, trace, res = f.result()
                except Infra as e:
                    errors.append(e)
                    continue
                if res.ok:
                    good.append((shard, trace))
                    events += res.events
                    distinct += res.distinct
                else:
                    bad.append((shard, trace, res))
        lap('traces')
        neg = []
        if bad:
            for b in bad[:5]:
                violation(*b)
        elif errors:
            raise errors[0]
        else:
            neg = controls(good, work, None)
        lap('controls')
        for s, tr in sorted(good, key=lambda t: (t[0].heap != "2g", t[0].name))[::max(1, len(good) // 4)]:
            with open(tr) as fh:
                mine = []
                for k, l in enumerate(fh):
                    if k > 200 or len(mine) == 2:
                        break
                    if len(l) < 600 and not l.startswith('{"op":"Note"') and k % 20 >= 2:
                        mine.append(s.name + ": " + l.strip())
            samples += mine
        ops, parts = {}, 0
        for s, tr in good:
            with open(tr) as fh:
                for l in fh:
                    if l.startswith('{"op":"'):
                        o = l[7:l.index('"', 7)]
                        ops[o] = ops.get(o, 0) + 1
        parts = ops.pop("Note", 0)
        cov = {
            "states": distinct + sum(m["states"] for m in models.values()),
            "transitions": events + sum(m["transitions"] for m in models.values()),
            "traces_validated_against_impl": len(good),
            "samples": samples or [[l[:200] for l in s.lines[:5]] for s, _ in good[:2]],
            "events_validated": events, "scenarios": parts, "calls_by_operation": ops,
            "design_models": [{k: v for k, v in m.items() if k not in ("edges", "docs")} for m in models.values()],
            "unbounded_proofs": proofs, "model_edges_toured": sum(len(m.get("edges", [])) for m in models.values()),
            "library_builds": flavours, "negative_controls": neg, "rejected_traces": len(bad),
        }
        os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
        with open(os.path.join(OUT, "evidence", PID + ".json"), "w") as f:
            json.dump({"property": PID, "tier": TIER, "seed": SEED, "level": "model_checking", "coverage": cov,
                       "assumptions": plans.ASSUME + plans.ASSUMPTIONS.get(PID, []), "wall_s": round(time.time() - t0, 1), "violations": len(bad)}, f, indent=1)
        if bad:
            return 1
        print("%s held: %d traces, %d events, %d model states, %.0f s" % (PID, len(good), events, cov["states"] - distinct, time.time() - t0))
        return 0
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)
        else:
            print("work in", work)


try:
    sys.exit(main())
except Infra as e:
    print("ERROR property=%s %s" % (PID, e))
    sys.exit(2)
except Exception:
    traceback.print_exc()
    sys.exit(2)
