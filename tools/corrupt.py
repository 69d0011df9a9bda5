#!/usr/bin/env python3
"""Development tool: does the judge notice a wrong observation?  Takes recorded calls of a property's suite, changes one
field of what was observed, and lists the kinds of change (operation and path) that the property accepts.
corrupt.py PROPERTY... ; no check uses this."""
import sys, os, json, random, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import suites, corpus
from collections import Counter


def paths(v, p=()):
    if isinstance(v, dict):
        for k in v:
            yield from paths(v[k], p + (k,))
    elif isinstance(v, list):
        yield p
        for k, a in enumerate(v):
            yield from paths(a, p + (k,))
    else:
        yield p


def change(v, p, rnd):
    if not p:
        if isinstance(v, bool):
            return not v
        if isinstance(v, int):
            return v + rnd.choice([1, -1])
        if isinstance(v, str):
            return rnd.choice([a for a in ("ok", "err", "inc", "int", "BerTypeError", "InvalidTag") if a != v])
        if isinstance(v, list):
            return v[:-1] if v and rnd.random() < 0.6 else v + ([v[-1]] if v else [0])
        return v
    w = dict(v) if isinstance(v, dict) else list(v)
    w[p[0]] = change(w[p[0]], p[1:], rnd)
    return w


def main():
    exe = build_harness()
    for prop in sys.argv[1:]:
        rnd = random.Random(7)
        w = workdir("corrupt")
        reqs = suites.SUITES[prop](corpus.Gen(1), 1, [])
        reqs = [r for r in reqs if len(r.x) < 3000]
        reqs = rnd.sample(reqs, min(1200, len(reqs)))
        out, what = [], []
        for rec in execute(exe, reqs):
            d = json.loads(rec)
            if not isinstance(d["r"], (dict, list)):
                continue
            ps = list(paths(d["r"]))
            for _ in range(3):
                if ps:
                    p = rnd.choice(ps)
                    e = dict(d)
                    e["r"] = change(d["r"], p, rnd)
                    e["id"] = len(out)
                    out.append(json.dumps(e, separators=(",", ":")))
                    what.append((d["op"], ".".join("#" if isinstance(k, int) else k for k in p)))
        # a failed evaluation is a rejection too
        bad = set(judge_all(prop, out, w))
        miss, tot = Counter(), Counter()
        ex = {}
        for j, k in enumerate(what):
            tot[k] += 1
            if j not in bad:
                miss[k] += 1
                ex.setdefault(k, out[j][:600])
        print("%s: %d of %d noticed" % (prop, len(bad), len(out)))
        for k, n in miss.most_common(14):
            print("   %4d of %4d  %s %s" % (n, tot[k], k[0], k[1]))
        for k, n in miss.most_common(3):
            print("      ", ex[k][:400])
        shutil.rmtree(w)


def judge_all(prop, out, w):
    import vp
    return vp.judge(prop, out, w, limit=10 ** 6)[0]


if __name__ == "__main__":
    main()
