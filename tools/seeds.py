#!/usr/bin/env python3
"""seeds.py make DEFS.py [ID..]   write /verif/seeded/<id>/ from definitions and confirm each one
   seeds.py run [ID..]            confirm, and run the check of its property, on every planted bug
Everything happens in scratch copies of /repo mounted over /repo in a private namespace."""
import json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
DEMO = """#!/bin/bash
# exit 0: the property holds for what demo.c tries; run in /repo
d=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
gcc -std=gnu99 -O1 -w $(find Inc -type d | sed 's/^/-I/') "$d/demo.c" $(find Src -name '*.c') -o "$w/demo" || { rm -rf -- "$w"; exit 2; }
timeout 100 "$w/demo"
rc=$?
rm -rf -- "$w"
exit $rc
"""


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, shell=isinstance(cmd, str), **kw)


def inside(copy, cmd):
    """cmd with `copy` in the place of /repo"""
    return sh(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (copy, cmd)])


def confirm(id):
    d = os.path.join(S, id)
    c = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    res = {"id": id}
    try:
        sh("cp -a /repo/. %s/" % c)
        sh("git checkout -q -- .", cwd=c)
        r = inside(c, "bash /opt/vp/build.sh && bash %s/demo.sh" % d)
        res["clean"] = r.returncode
        res["clean_out"] = "" if r.returncode == 0 else r.stdout.decode(errors="replace")[-600:]
        r = sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=c)
        res["apply"] = r.returncode
        if r.returncode:
            res["clean_out"] += r.stdout.decode()
        base = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
        out = os.path.join(c, "_build", "res.json")
        inside(c, "bash /opt/vp/test.sh " + "/repo/_build/res.json")
        try:
            passed = set(json.load(open(out))["passed"])
        except Exception:
            passed = set()
        res["tests_missing"] = sorted(base - passed)[:4]
        r = inside(c, "bash %s/demo.sh" % d)
        res["demo"] = r.returncode
        res["valid"] = res["clean"] == 0 and res["apply"] == 0 and not res["tests_missing"] and res["demo"] not in (0, 2)
        return res
    finally:
        shutil.rmtree(c, ignore_errors=True)


def check(id, props=None):
    d = os.path.join(S, id)
    c = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh("cp -a /repo/. %s/" % c)
        sh("git checkout -q -- .", cwd=c)
        sh(["git", "apply", os.path.join(d, "patch.diff")], cwd=c)
        out = []
        for p in props or [json.load(open(os.path.join(d, "meta.json")))["property"]]:
            e = dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), REPO=c)
            e["IMU_OUT"] = c + "/.out"
            r = sh([sys.executable, os.path.join(V, "tools", "check.py"), p], env=e, cwd=V)
            o = r.stdout.decode(errors="replace")
            out.append((p, r.returncode, [l for l in o.splitlines() if l.startswith("VIOLATION")][:1], o[-300:] if r.returncode not in (0, 1) else ""))
        return id, out
    finally:
        shutil.rmtree(c, ignore_errors=True)


def make(id, prop, file, subs, demo, needs, breaks):
    d = os.path.join(S, id)
    os.makedirs(d, exist_ok=True)
    c = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        sh("git clone -q /repo %s" % c)
        for f, a, b in [(file, *x) for x in subs]:
            p = os.path.join(c, f)
            t = open(p, newline="").read()
            crlf = "\r\n" in t
            t = t.replace("\r\n", "\n")
            k = 0                                   # "#2 text": its second occurrence
            if a[:1] == "#" and a[1].isdigit():
                k, a = int(a[1]) - 1, a[3:]
            elif t.count(a) != 1:
                return id, "text occurs %d times: %r" % (t.count(a), a[:80])
            x = t.split(a)
            t = a.join(x[:k + 1]) + b + a.join(x[k + 1:])
            if crlf:
                t = t.replace("\n", "\r\n")
            open(p, "w", newline="").write(t)
        diff = subprocess.run(["git", "diff"], cwd=c, stdout=subprocess.PIPE).stdout
        open(os.path.join(d, "patch.diff"), "wb").write(diff)
        # only original lines may change: every removed line must exist in the base commit
        base = subprocess.run(["git", "rev-list", "--max-parents=0", "HEAD"], cwd=c, stdout=subprocess.PIPE).stdout.decode().split()[0]
    finally:
        shutil.rmtree(c, ignore_errors=True)
    open(os.path.join(d, "demo.c"), "w").write(demo.strip() + "\n")
    open(os.path.join(d, "demo.sh"), "w").write(DEMO)
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
    return id, None


if __name__ == "__main__":
    if sys.argv[1] == "make":
        ns = {}
        exec(open(sys.argv[2]).read(), ns)
        want = sys.argv[3:]
        for s in ns["SEEDS"]:
            if want and s["id"] not in want:
                continue
            id, err = make(**s)
            if err:
                print(id, "NOT MADE", err)
                continue
            r = confirm(id)
            print(id, "valid" if r["valid"] else "INVALID %s" % r)
            if not r["valid"]:
                shutil.rmtree(os.path.join(S, id))
    else:
        ids = [a for a in sys.argv[2:] if not re.fullmatch(r"C\d\d", a)] or sorted(os.listdir(S))
        props = [a for a in sys.argv[2:] if re.fullmatch(r"C\d\d", a)]
        for i in ids:
            if "noconfirm" not in os.environ:
                r = confirm(i)
                if not r["valid"]:
                    print(i, "INVALID", r)
            print(*check(i, props or None), flush=True)
