#!/usr/bin/env python3
"""check PROPERTY [quick|thorough]

1. TLC checks the model(s) of the property and generates inputs from the specification;
2. the harness, built from /repo's working tree, executes the property's calls;
3. TLC consumes the recorded calls and decides whether the specification allows each of them.

exit 0: held on everything explored; 1: VIOLATION; 2: error of the machinery."""
import os, sys, json, time, traceback, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vp import *
import models, suites, corpus, oid

KNOWN = os.path.join(VERIF, "known_findings.txt")
EVID = os.path.join(VERIF, "evidence")
REPLAY = os.path.join(BUILD, "replay")


def known(prop):
    """lines 'known: property=<id> | <request line> | <what fails>'"""
    out = {}
    if os.path.exists(KNOWN):
        for ln in open(KNOWN):
            if ln.startswith("known: property=%s " % prop):
                a = [t.strip() for t in ln.split("|")]
                out[a[1]] = a[2]
    return out


PART = 6000000         # bytes of requests judged at a time
THOROUGH_FOR = 640     # seconds


def load(rec, limit=1 << 30):
    return json.loads(rec) if nesting(rec) < 250 and len(rec) < limit else {"raw": rec[:2000]}


def depends(first, alone):
    cut = lambda r: r[r.index('"st"'):] if '"st"' in r else ""
    return first.find('"st":"done"') >= 0 and cut(first) != cut(alone) or first.find('"st":"panic"') >= 0


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.models, self.states, self.trans, self.traces, self.ok = [], 0, 0, 0, 0
        self.viol, self.known_hit, self.samples = [], {}, []
        self.known = known(prop)

    def model_check(self, w):
        gen = []
        for name, module, cfg, extra in models.runs(self.prop, self.tier, self.seed):
            info, g = models.run_model(name, module, cfg, extra, w)
            self.models.append(info)
            self.states += info["states"]
            self.trans += info["transitions"]
            gen += g
        return sorted(set(gen))

    def conform(self, reqs, recs, w, lines, rerun):
        """judge the records; confirm rejections by executing them again"""
        bad, st, tr = judge(self.prop, recs, w)
        self.states += st
        self.trans += tr
        self.traces += len(recs)
        self.ok += sum('"s":"ok"' in r or '"e":"obj"' in r for r in recs)
        if len(self.samples) < 3 and recs:
            for j in (len(recs) // 7, len(recs) // 2, len(recs) - 1):
                self.samples.append(load(recs[j], 5000))
        if not bad:
            return
        bads = set(bad)
        byid = {recid(r): r for r in recs if recid(r) in bads}
        if rerun:
            again = rerun(bad[:200])
            bad2, _, _ = judge(self.prop, again, w, tag="again")
            byid2 = {recid(r): r for r in again}
            # a call rejected once and observed differently when made alone depends on the calls before it: that
            # counts. Only hangs and deaths (the machine may be to blame) have to repeat
            still = set(bad2)
            bad = [b for b in bad[:200] if b in still or depends(byid[b], byid2.get(b, ""))]
            byid.update((b, byid2[b]) for b in bad if b in still)
        for b in bad:
            ln = lines(b)
            if ln in self.known:
                self.known_hit[ln] = self.known[ln]
            else:
                self.viol.append((ln, byid[b]))

    def finish(self, wall_extra=0):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.trans, "traces_validated_against_impl": self.traces,
                           "calls_that_succeeded": self.ok, "models": self.models,
                           "samples": self.samples[:3] or ["none"]},
              "assumptions": ["the harness reports what the public API returned", "TLC evaluates the specification correctly"],
              "violations": len(self.viol), "wall_s": round(time.time() - self.t0, 2)}
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for ln, what in self.known_hit.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, what))
        if self.viol:
            os.makedirs(REPLAY, exist_ok=True)
            path = os.path.join(REPLAY, "%s-%d.json" % (self.prop, os.getpid()))
            with open(path, "w") as f:
                json.dump({"property": self.prop, "seed": self.seed, "count": len(self.viol),
                           "rejected": [{"call": l, "record": load(r)} for l, r in self.viol[:20]]}, f, indent=1)
            for l, r in self.viol[:5]:
                print("  rejected: %s\n    observed: %s" % (l[:300], r[r.index('"st"') - 1:][:400]))
            print("VIOLATION property=%s replay=%s" % (self.prop, path), flush=True)
            return 1
        print("%s %s: held; %d states, %d recorded calls (%d successful), %.0f s"
              % (self.prop, self.tier, self.states, self.traces, self.ok, time.time() - self.t0))
        return 0


def check_oid(run, w, gen):
    rounds = 1 if run.tier == "quick" else 6
    for j in range(rounds):
        ts = oid.texts(corpus.Gen(run.seed + 1000 * j), 1 if run.tier == "quick" else 3)
        for x in gen[:: max(1, len(gen) // (300 if run.tier == "quick" else 3000))]:
            if x and j == 0:
                ts.append(("encode_oid!(rel %s)" % ".".join(map(str, x)), list(x), 1))
                ts.append(("encode_oid!(1.2.%s)" % ".".join(map(str, x)), [1, 2] + list(x), 0))
        recs = oid.run(ts, w)
        run.conform(None, recs, w, lambda b: ts[b][0], None)


def check_calls(run, w, gen, exe):
    """quick: one batch. thorough: four times larger batches with new seeds, judged in parts that each
    sample the whole batch, until the time is used up"""
    quick = run.tier == "quick"
    j = 0
    while True:
        batch = suites.SUITES[run.prop](corpus.Gen(run.seed + 7919 * j), 1 if quick else 4, gen)
        parts = 1 if quick else max(1, sum(len(q.line) + 40 for q in batch) // PART)
        for c in range(parts):
            t = time.time()
            reqs = batch[c::parts]
            recs = execute(exe, reqs)

            def rerun(ids):
                r = execute(exe, [reqs[i] for i in ids], limit=60)
                return ['{"id":%d' % i + q[q.index(","):] for q, i in zip(r, ids)]
            run.conform(reqs, recs, w, lambda b: reqs[b].line, rerun)
            now = time.time()
            if run.viol or now - run.t0 + 1.5 * (now - t) > THOROUGH_FOR and not quick:
                return
        j += 1
        if quick:
            return


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    run = Run(prop, tier, seed)
    w = workdir(prop)
    try:
        exe = None if prop == "C23" else build_harness()
        gen = run.model_check(w)
        if prop == "C23":
            check_oid(run, w, gen)
        else:
            check_calls(run, w, gen, exe)
        return run.finish()
    except ToolError as e:
        print("error: %s" % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
