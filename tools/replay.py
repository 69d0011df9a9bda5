#!/usr/bin/env python3
"""replay.py FILE: executes the calls of a replay file again on the current tree and has TLC judge them.
exit 0: all are allowed now; 1: at least one is rejected"""
import functools, os, sys, json, subprocess, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import oid


def main():
    f = json.load(open(sys.argv[1]))
    prop, rej = f["property"], f["rejected"]
    w = workdir("replay")
    deep = []
    try:
        if prop == "C23":
            recs = oid.run([(c["call"], [functools.reduce(lambda n, d: n * 128 + d, a, 0) for a in c["record"]["arcs"]], c["record"]["rel"])
                            for c in rej], w)
        else:
            exe, recs = build_harness(), []
            for k, c in enumerate(rej):
                p = subprocess.run([exe, "60"], input="0 %s\n" % c["call"], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
                raw = p.stdout.split("\t", 1)[1].strip() if "\t" in p.stdout else None
                if "raw" in c["record"] or (raw and nesting(raw) > 250):
                    # a result nested far beyond the recursion limit
                    recs.append(raw or "")
                    deep.append(k)
                    continue
                r = dict(c["record"], id=k)
                if raw is None:
                    r.update(st="hang" if p.returncode == 99 else "abort", r={"s": "abort"})
                elif raw.startswith('{"s":"panic"'):
                    r.update(st="panic", r={"s": "panic"})
                else:
                    r.update(st="done", r=json.loads(raw))
                recs.append(json.dumps(r, separators=(",", ":")))
        bad, _, _ = judge(prop, [r for k, r in enumerate(recs) if k not in deep], w)
        bad += [k for k in deep if nesting(recs[k]) > 250]
        for k, c in enumerate(rej):
            print("%s %s\n    %s" % ("rejected" if k in bad else "allowed ", c["call"][:400], recs[k][-1500:]))
        return 1 if bad else 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
