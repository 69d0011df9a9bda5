"""Model checking runs: which models and bounds belong to which property."""
import os, re, signal, subprocess
from vp import *

ALPHA = [0, 1, 2, 3, 5, 31, 48, 128, 129, 160, 255]
ALPHA_SMALL = [0, 1, 2, 5, 48, 128, 160]
ALPHA_LAW = {  # alphabet, starts
    "C08": ([0, 1, 127, 128, 255], "IntStarts"),
    "C10": ([0, 1, 128, 165, 255], "Empty"),
    "C11": ([32, 42, 57, 65, 127, 128, 160, 191, 195, 224, 237, 240, 244], "Empty"),
    "C12": ([48, 49, 53, 57, 43, 45, 46, 90], "TimeStarts"),
    "C23": ([0, 1, 2, 6, 39, 40, 127, 128, 255], "Empty"),
    "C25": ([0, 1, 31, 127, 128, 129, 130, 132, 255], "Empty"),
}
SMALL_RECURSION = {"C01", "C06", "C07", "C27"}
LONG = {"C03", "C13", "C15", "C27"}
MACHINE = {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}


def law_run(p, tier):
    al, starts = ALPHA_LAW.get(p, (ALPHA if tier == "quick" else ALPHA_SMALL, "Empty"))
    n = {"quick": 4, "thorough": 6}[tier]
    if p in ALPHA_LAW:
        n = {"quick": 4, "thorough": 6 if len(al) < 10 else 5}[tier]
    if p == "C12":
        n = {"quick": 5, "thorough": 7}[tier]
    cfg = """SPECIFICATION Spec
CONSTANTS
 Alphabet = {%s}
 MaxLen = %d
 Starts <- %s
 MaxRecursion <- %s
INVARIANT I%s
CHECK_DEADLOCK FALSE
""" % (", ".join(map(str, al)), n, starts, "SmallRecursion" if p in SMALL_RECURSION else "RealRecursion", p[1:])
    return ("laws", "MC_Laws", cfg, [])


def gen_run(p, tier, seed):
    cfg = """SPECIFICATION Spec
CONSTANTS
 MaxOps = %d
 MaxStack = %d
 Leaves <- %s
 Damage = %s
INVARIANTS I%s Emit
%sCHECK_DEADLOCK FALSE
"""
    if tier == "quick":
        return [("gen", "Gen", cfg % (3, 2, "AllLeaves", "TRUE", p[1:], "VIEW View\n"), [])]
    return [("gen", "Gen", cfg % (4, 2, "FewLeaves", "TRUE", p[1:], "VIEW View\n"), []),
            ("gensim", "Gen", cfg % (14, 4, "AllLeaves", "TRUE", p[1:], ""),
             ["-simulate", "num=2500", "-depth", "14", "-seed", str(seed)])]


def machine_runs(p, tier):
    out = []
    for rules in ("ber", "der"):
        cfg = """SPECIFICATION Spec
CONSTANTS
 Alphabet = {%s}
 MaxLen = %d
 Depth = 2
 Rules = "%s"
 MaxRecursion <- SmallRecursion
INVARIANTS TypeOK StackBound Nested Agrees
PROPERTIES Progress Forward%s
CHECK_DEADLOCK FALSE
""" % (", ".join(map(str, [0, 1, 2, 5, 32, 48, 128, 160])), 5 if tier == "quick" else 6, rules, " Terminates" if tier != "quick" or p == "C01" else "")
        out.append(("machine-" + rules, "MC_Machine", cfg, []))
        cfg = """SPECIFICATION Spec
CONSTANTS
 Alphabet = {}
 Strings <- Deep
 MaxLen = %d
 Depth = %d
 Rules = "%s"
 MaxRecursion <- MoreRecursion
INVARIANTS TypeOK StackBound Nested Agrees
PROPERTIES Progress Forward
CHECK_DEADLOCK FALSE
""" % ((3, 2, rules) if tier == "quick" else (4, 3, rules))
        out.append(("deep-" + rules, "MC_Deep", cfg, []))
    return out


def stream_run(tier):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Elements <- Small
 MaxElems = %d
 MaxChunk = 3
INVARIANTS TypeOK Independent GivesUp
PROPERTY Finishes
CHECK_DEADLOCK FALSE
""" % (2 if tier == "quick" else 3)
    return ("stream", "MC_Stream", cfg, [])


def iter_run(tier):
    cfg = """SPECIFICATION Spec
CONSTANTS MaxOps = %d
INVARIANTS InOrder FlagsLast
CHECK_DEADLOCK FALSE
""" % (5 if tier == "quick" else 6)
    return ("iter", "MC_Iter", cfg, [])


def long_run(tier):
    cfg = """SPECIFICATION Spec
CONSTANTS
 Units <- %s
 Counts = {%s}
 Fewer = {7}
 MaxDepth = %d
INVARIANT ILong
CHECK_DEADLOCK FALSE
""" % (("FewUnits", "8, 9", 1) if tier == "quick" else ("FewUnits", "8", 2))
    return ("long", "MC_Long", cfg, [])


def runs(p, tier, seed):
    out = []
    if p in LONG:
        out.append(long_run(tier))
    if p != "C26":
        out.append(law_run(p, tier))
    out += gen_run(p, tier, seed)
    if p in MACHINE:
        out += machine_runs(p, tier)
    if p == "C26":
        out.append(stream_run(tier))
    if p in ("C21", "C22"):
        out.append(iter_run(tier))
    return out


SIMULATE_FOR = 100


def run_model(name, module, cfg, extra, w, timeout=600):
    c = os.path.join(w, name + ".cfg")
    with open(c, "w") as f:
        f.write(cfg)
    cmd = tlc_cmd(module, c, os.path.join(w, "meta_" + name), extra, xmx="10g", workers=str(NPROC), xss="64m")
    # random simulation has no natural end: it may be cut off, an exhaustive run may not
    simulate = "-simulate" in extra
    log = os.path.join(w, name + ".out")
    with open(log, "w") as f:
        p = subprocess.Popen(cmd, cwd=SPEC, env=env(), stdout=f, stderr=subprocess.STDOUT, start_new_session=True)
        try:
            rc = p.wait(timeout=SIMULATE_FOR if simulate else timeout)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            if not simulate:
                raise ToolError("model %s did not finish in %d s" % (name, timeout))
            rc = None
    with open(log) as f:
        stdout = f.read()
    if rc not in (0, None) or re.search(r"is violated|^Error:", stdout, re.M):
        raise ToolError("model %s failed (exit %s):\n%s" % (name, rc, "\n".join(
            l for l in stdout.splitlines() if '"GEN"' not in l)[-3000:]))
    gen = []
    for m in re.finditer(r'<<\s*"GEN",\s*<<([^>]*)>>\s*>>', stdout):
        t = m.group(1).strip()
        gen.append(bytes(int(v) for v in t.split(",")) if t else b"")
    m = re.search(r"(\d+) states generated, (\d+) distinct states found", stdout)
    if m:
        st, tr = int(m.group(2)), int(m.group(1))
    else:
        m = re.findall(r"The number of states generated: (\d+)|Progress: ([\d,]+) states checked", stdout)
        st = tr = int("".join(m[-1]).replace(",", "")) if m else 0
    return {"model": name, "module": module, "states": st, "transitions": tr}, gen
