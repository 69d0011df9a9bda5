#!/usr/bin/env python3
"""Development tool: apply each planted change in /verif/seeded to a private copy of /repo (mounted over
/repo in a mount namespace of its own), build, run the tests, its demonstration and the quick checks of
its own (or all, or the given) properties.  No check uses this.
usage: seedtest.py [--no-tests] [--all] [--thorough] [--props=C01,C02] [--jobs=2] [id...]"""
import os, sys, json, subprocess, time, threading, queue, fcntl
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
OUT = "/tmp/seedtest.json"
ROOT = "/tmp/st"


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)


def one(i, tests, props, tier, src):
    d = os.path.join(src, i)
    meta = json.load(open(d + "/meta.json"))
    r = {"property": meta["property"]}
    t0 = time.time()
    demo = lambda: sh("bash", d + "/demo.sh", cwd="/repo")
    if tests:
        q = demo()
        r["demo_clean"] = q.returncode
        if q.returncode:
            print(q.stdout[-1500:])
    a = sh("git", "-C", "/repo", "apply", d + "/patch.diff")
    r["applies"] = a.returncode == 0
    try:
        if tests:
            b = sh("bash", "/opt/vp/build.sh")
            r["builds"] = b.returncode == 0
            if b.returncode:
                print(b.stdout[-1500:])
            o = "/tmp/seedtest_%d.json" % os.getpid()
            sh("bash", "/opt/vp/test.sh", o)
            o = json.load(open(o))
            r["failed_tests"] = o["failed"][:3] if isinstance(o["failed"], list) else o["failed"]
            q = demo()
            r["demo_bug"] = q.returncode
        for p in props or [meta["property"]]:
            t1 = time.time()
            c = sh("/verif/check", p, tier, cwd="/verif")
            r.setdefault("checks", {})[p] = [c.returncode, "VIOLATION property=" + p in c.stdout, round(time.time() - t1)]
            if c.returncode not in (0, 1):
                print(c.stdout[-1500:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
    r["t"] = round(time.time() - t0)
    return r


def save(i, r):
    with open(OUT + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        res = json.load(open(OUT)) if os.path.exists(OUT) else {}
        old = res.get(i, {})
        ck = old.get("checks", {})
        ck.update(r.get("checks", {}))
        old.update(r)
        old["checks"] = ck
        res[i] = old
        json.dump(res, open(OUT, "w"), indent=1)
    print(i, json.dumps(r), flush=True)


def main():
    args = sys.argv[1:]
    tests = "--no-tests" not in args
    tier = "thorough" if "--thorough" in args else "quick"
    man = [c["property"] for c in json.load(open(os.path.join(V, "MANIFEST.json")))["checks"]]
    props = man if "--all" in args else []
    jobs, src, worker = 2, S, None
    for a in args:
        if a.startswith("--props="):
            props = a[8:].split(",")
        if a.startswith("--jobs="):
            jobs = int(a[7:])
        if a.startswith("--src="):
            src = a[6:]
        if a.startswith("--worker="):
            worker = a[9:]
    ids = [a for a in args if not a.startswith("--")] or sorted(os.listdir(src))
    if worker is not None:                      # inside the namespace
        for i in ids:
            save(i, one(i, tests, props, tier, src))
        return
    q = queue.Queue()
    for i in ids:
        q.put(i)

    def go(k):
        d = "%s/%s-%d" % (ROOT, os.getpid(), k)
        os.makedirs(d)
        sh("cp", "-a", "/repo", d + "/repo")
        sh("rsync", "-a", "--exclude", ".git", "--exclude", "work", "/verif", d) if sh("which", "rsync").returncode == 0 else \
            sh("bash", "-c", "mkdir %s/verif; cd /verif && tar cf - --exclude=./.git --exclude=./.build/work . | tar xf - -C %s/verif" % (d, d))
        while True:
            try:
                i = q.get_nowait()
            except queue.Empty:
                break
            flags = [a for a in args if a.startswith("--") and not a.startswith("--jobs")]
            c = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 /verif/tools/seedtest.py --worker=%d %s --src=%s %s" % (
                d, d, k, " ".join(f for f in flags if not f.startswith("--src")), src.replace(S, "/verif/seeded"), i)
            p = sh("unshare", "-m", "bash", "-c", c)
            print(p.stdout, end="", flush=True)
        sh("rm", "-rf", d)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(jobs)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()


if __name__ == "__main__":
    main()
