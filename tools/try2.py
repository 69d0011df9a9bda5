"""development aid: run one suite"""
import sys, time
sys.path.insert(0, "/verif/tools")
from vp import *
import suites, corpus
exe = build_harness()
for p in sys.argv[3].split(","):
    t0 = time.time()
    reqs = suites.SUITES[p](corpus.Gen(int(sys.argv[1])), float(sys.argv[2]) if "." in sys.argv[2] else int(sys.argv[2]), [])
    t1 = time.time()
    recs = execute(exe, reqs)
    t2 = time.time()
    w = workdir("try2")
    try:
        bad, st, _ = judge(p, recs, w)
    except ToolError as e:
        print(p, "TOOLERROR", str(e)[-1500:]); continue
    okc = sum('"s":"ok"' in x for x in recs)
    print(p, len(reqs), len(recs), "ok", okc, "gen %.1f exec %.1f judge %.1f" % (t1-t0, t2-t1, time.time()-t2), "bad", len(bad), flush=True)
    for b in bad[:4]:
        print("   ", reqs[b].line[:300], recs[b][:900])
