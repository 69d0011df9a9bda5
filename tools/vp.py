"""Machinery shared by all checks: build the harness from /repo, execute requests against the
real code, and have TLC judge the recorded executions against the specification."""
import os, sys, subprocess, json, time, shutil, random, re, threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(BUILD, "target")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    e["RUSTUP_TOOLCHAIN"] = "stable-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e["CARGO_TARGET_DIR"] = TARGET
    return e


def build_harness(crate="harness"):
    os.makedirs(TARGET, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--manifest-path",
                        os.path.join(VERIF, crate, "Cargo.toml")],
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError("the harness does not build:\n" + p.stdout[-4000:])
    return os.path.join(TARGET, "debug", {"harness": "derharness", "oidharness": "oidharness"}[crate])


# ------------------------------------------------------------------------------------------
# requests

def jb(b):
    return "[" + ",".join(map(str, b)) + "]"


def tagb(n):
    return [(n >> 24) & 255, (n >> 16) & 255, (n >> 8) & 255, n & 255]


class Req:
    """line: what the harness executes (without id); rec: the fields of the trace record"""
    __slots__ = ("line", "rec", "x")

    def __init__(self, cmd, args, x, **fields):
        x = bytes(x)
        self.x = x
        self.line = " ".join([cmd] + [str(a) for a in args] + [x.hex() if x else "."])
        self.rec = ",".join('"%s":%s' % (k, v if isinstance(v, str) else json.dumps(v, separators=(",", ":")))
                            for k, v in fields.items())


def js(s):
    return json.dumps(s)


def parse(rules, x, depth=None):
    return Req(rules, ["-" if depth is None else depth], x, op=js("parse"), rules=js(rules),
               depth=50 if depth is None else depth)


def parse_any_r(x, depth):
    return Req("berx", [depth], x, op=js("parse"), rules=js("ber"), depth=depth)


def withtag(rules, tag, x):
    return Req(rules + "tag", [tag], x, op=js("tag"), rules=js(rules), tag=tagb(tag))


def withtagr(tag, depth, x):
    return Req("bertagr", [tag, depth], x, op=js("tagr"), rules=js("ber"), tag=tagb(tag), depth=depth)


KIND_TAG = {"eoc": 0, "bool": 1, "int": 2, "bits": 3, "octets": 4, "null": 5, "oid": 6,
            "objdesc": 7, "enum": 10, "utf8": 12, "reloid": 13, "seq": 16, "set": 17,
            "numeric": 18, "printable": 19, "t61": 20, "videotex": 21, "ia5": 22, "utctime": 23,
            "gentime": 24, "graphic": 25, "visible": 26, "general": 27, "universal": 28, "bmp": 30}


def typed(rules, kind, x):
    return Req(rules + "t", [kind], x, op=js("tag"), rules=js(rules), tag=tagb(KIND_TAG[kind]),
               ty=js(kind))


def header(rules, x):
    return Req(rules + "hdr", [], x, op=js("hdr"), rules=js(rules))


def anyel(x):
    return Req("berany", [], x, op=js("any"), rules=js("ber"))


def contas(rules, tag, length, con, depth, x):
    """length: None for indefinite"""
    if length is None:
        ln, lb, la = -1, [], "i"
    else:
        lb = list(length.to_bytes(8, "big").lstrip(b"\0"))
        ln, la = (length if length < (1 << 28) else -2), "%x" % length
    return Req(rules + "contas", [tag, la, con, depth], x, op=js("contas"), rules=js(rules),
               tag=tagb(tag), len=ln, lb=lb, con=con, depth=depth)


def dercont(x):
    return Req("dercont", [], x, op=js("cont"), rules=js("der"))


def ex_text(e):
    if isinstance(e, str):
        return e
    if isinstance(e, int):
        return str(e)
    if isinstance(e, (bytes, bytearray)):
        return "x" + bytes(e).hex()
    if len(e) == 1:
        return e[0] + ("()" if e[0] in ("seq", "set", "fromseq", "fromset") else "")
    return e[0] + "(" + ",".join(ex_text(a) for a in e[1:]) + ")"


# argument positions of constructor expressions that are tag numbers
TAGARG = {"hdr": 3, "tagged": 2, "unknown": 3}


def ex_json(e):
    if isinstance(e, (int, str)):
        return e
    if isinstance(e, (bytes, bytearray)):
        return list(e)
    return [e[0]] + [tagb(a) if TAGARG.get(e[0]) == k + 1 else ex_json(a) for k, a in enumerate(e[1:])]


def hx(b):
    return bytes(b).hex() if b else "."


def expr(rules, e, x):
    return Req(rules + "expr", [ex_text(e)], x, op=js("expr"), rules=js(rules), ex=ex_json(e))


def user(rules, err, times, e, x):
    """a session of user-supplied parsers; err: which error type they use"""
    return Req(rules + "user", [err, times, ex_text(e)], x, op=js("user"), rules=js(rules), ex=ex_json(e), times=times)


def long(rules, e, n, unit, suf, pre):
    """pre + n copies of unit + suf"""
    return Req(rules + "long", [ex_text(e), n, hx(unit), hx(suf)], pre, op=js("long"), rules=js(rules), ex=ex_json(e),
               n=n, unit=list(unit), suf=list(suf))


def pair(e, x):
    return Req("pair", [ex_text(e)], x, op=js("pair"), ex=ex_json(e))


def prefix(rules, e, x):
    return Req(rules + "prefix", [ex_text(e)], x, op=js("prefix"), rules=js(rules), ex=ex_json(e))


def trail(rules, e, x, sfx):
    return Req(rules + "trail", [ex_text(e), hx(sfx)], x, op=js("trail"), rules=js(rules), ex=ex_json(e))


def stream(rules, chunks, x):
    return Req(rules + "stream", [",".join(map(str, chunks))], x, op=js("stream"), rules=js(rules),
               chunks=list(chunks))


def _src(cmd, op, args, subj, **f):
    """subj: bytes (parsed), ("expr", rules, e, bytes) or ("build", e)"""
    if isinstance(subj, (bytes, bytearray)):
        return Req(cmd, args, subj, op=js(op), src=js("parse"), **f)
    if subj[0] == "expr":
        a = list(args)
        if cmd == "acc":
            a = [subj[1]]
        return Req(cmd + "expr", a + [ex_text(subj[2])], subj[3], op=js(op), src=js("expr"),
                   rules=js(subj[1]), ex=ex_json(subj[2]), **f)
    return Req(cmd + "build" if cmd != "build" else "build", list(args) + [ex_text(subj[1])], b"", op=js(op),
               src=js("build"), ex=ex_json(subj[1]), **f)


def acc(subj):
    return _src("acc", "acc", [], subj)


def iterate(subj):
    return _src("iter", "iter", [], subj)


def itops(ops, subj):
    return _src("itops", "itops", [ops], subj)


def walk(at, subj):
    return _src("walk", "walk", [at], subj, at=at)


def pretty(ind, inc, flags, subj):
    return _src("pretty", "pretty", [ind, inc, flags], subj, ind=ind, inc=inc,
                flags=list(c for c in flags if c in "rRhHn"))


def enc(cls, tag, subj):
    return _src("enc", "enc", [cls, tag], subj, ecls=cls, etag=tagb(tag))


def build_obj(e):
    return _src("build", "build", [], ("build", e))


def eq_built(e, f):
    return Req("eqbuild", [ex_text(e), ex_text(f)], b"", op=js("eq"), src=js("build"), ex=ex_json(e), ex2=ex_json(f))


def eq_parsed(x, y):
    return Req("eqparse", [hx(y)], x, op=js("eq"), src=js("parse"))


def bits(pad, x):
    return Req("bits", [pad], x, op=js("bits"), pad=pad)


def enchdr(cls, con, tag, length):
    if length is None:
        ln, lb, la = -1, [], "i"
    else:
        lb = list(length.to_bytes(8, "big").lstrip(b"\0"))
        ln, la = (length if length < (1 << 28) else -2), "%x" % length
    return Req("enchdr", [cls, con, tag, la], b"", op=js("enchdr"), ecls=cls, con=con, etag=tagb(tag),
               len=ln, lb=lb)


def tryany(rules, x):
    return Req("tryany", [rules], x, op=js("tryany"), rules=js(rules))


def total(x):
    return Req("total", [], x, op=js("total"))


# ------------------------------------------------------------------------------------------
# execution

def _exec_shard(exe, reqs, ids, out, k, limit):
    """run the requests; out[k] = list of (id, raw json or status)"""
    res = {}
    todo = list(zip(ids, reqs))
    restarts = 0
    while todo:
        text = "".join("%d %s\n" % (i, r.line) for i, r in todo)
        p = subprocess.Popen([exe, str(limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE)
        o, e = p.communicate(text.encode())
        n = 0
        for ln in o.decode("utf-8", "replace").split("\n"):
            if "\t" not in ln:
                continue
            a, b = ln.split("\t", 1)
            if not b.endswith(("}", "]")):
                continue
            res[int(a)] = ("done", b)
            n += 1
        if p.returncode == 98:
            raise ToolError("harness rejected a request: " + e.decode()[-500:])
        if n < len(todo):
            st = "hang" if p.returncode == 99 else "abort"
            res[todo[n][0]] = (st, '{"s":"%s"}' % st)
            n += 1
            restarts += 1
            if restarts > 40:
                break
        todo = todo[n:]
    out[k] = res


def execute(exe, reqs, limit=20):
    """returns the list of trace-record lines, one per request executed"""
    n = len(reqs)
    ns = max(1, min(NPROC, (n + 199) // 200))
    out = [None] * ns
    err = []

    def go(k):
        try:
            ids = list(range(k, n, ns))
            _exec_shard(exe, [reqs[i] for i in ids], ids, out, k, limit)
        except Exception as ex:  # noqa
            err.append(ex)
    ts = [threading.Thread(target=go, args=(k,)) for k in range(ns)]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    if err:
        raise err[0]
    recs = []
    for i, r in enumerate(reqs):
        res = out[i % ns].get(i)
        if res is None:
            continue
        st, raw = res
        if raw.startswith('{"s":"panic"'):
            st, raw = "panic", '{"s":"panic"}'
        elif '"op":"total"' in r.rec:
            raw = '{"s":"ok"}'            # only whether the call returned matters
        recs.append('{"id":%d,%s,"x":%s,"st":"%s","r":%s}' % (i, r.rec, jb(r.x), st, raw))
    return recs


# ------------------------------------------------------------------------------------------
# judgement by TLC

def tlc_cmd(module, cfg, meta, extra=(), xmx="3g", workers="1", xss="512m"):
    os.makedirs(meta, exist_ok=True)
    return ["java", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Xmx" + xmx, "-Xss" + xss, "-Djava.io.tmpdir=" + meta,
            "-cp", JARS, "tlc2.TLC", "-workers", workers, "-metadir", meta, "-noGenerateSpecTE",
            "-config", cfg, *extra, module]


def recid(rec):
    return int(rec[6:rec.index(",")])


def nesting(s):
    """depth of brackets"""
    d = m = 0
    for ch in re.findall(r"[][{}]", s):
        d += 1 if ch in "[{" else -1
        m = max(m, d)
    return m


def start_judge(prop, recs, ids, workdir, name):
    f = os.path.join(workdir, name + ".ndjson")
    with open(f, "w") as w:
        w.write("\n".join(recs[i] for i in ids) + "\n")
    e = env()
    e["TRACE_FILE"], e["TRACE_PROP"] = f, prop
    log = open(os.path.join(workdir, name + ".log"), "w+")
    meta = os.path.join(workdir, "meta_" + name)
    p = subprocess.Popen(tlc_cmd("Trace.tla", "Trace.cfg", meta), cwd=SPEC, env=e,
                         stdout=log, stderr=subprocess.STDOUT)
    return p, log


def judge(prop, recs, workdir, tag="t", timeout=800, limit=8):
    """TLC consumes all records; returns (rejected ids, states, generated)"""
    n = len(recs)
    if n == 0:
        return [], 0, 0
    # balance by size
    order = sorted(range(n), key=lambda i: -len(recs[i]))
    ns = max(1, min(NPROC, (n + 399) // 400))
    shards = [[] for _ in range(ns)]
    for j, i in enumerate(order):
        shards[j % ns].append(i)
    procs = []
    for k, sh in enumerate(shards):
        sh.sort()
        procs.append(start_judge(prop, recs, sh, workdir, "%s%d" % (tag, k)) + (sh,))
    bad, states, gen = [], 0, 0
    t0 = time.time()
    outside = 0
    while procs:
        p, log, sh = procs.pop(0)
        try:
            p.wait(timeout=max(1, timeout - (time.time() - t0)))
        except subprocess.TimeoutExpired:
            for q in [p] + [q for q, _, _ in procs]:
                q.kill()
            raise ToolError("TLC did not finish in time")
        log.seek(0)
        t = log.read()
        log.close()
        for m in re.finditer(r'<<"REJECT", (\d+)>>', t):
            bad.append(int(m.group(1)))
        m = re.search(r"(\d+) states generated, (\d+) distinct states found", t)
        k = int(m.group(2)) if m else 0
        states += k
        gen += int(m.group(1)) if m else 0
        if p.returncode == 0 and k == len(sh) + 1:
            continue
        # objects nested far beyond the recursion limit cannot even be read
        deep = [i for i in sh if nesting(recs[i]) > 250]
        if deep:
            for m in re.finditer(r'<<"REJECT", (\d+)>>', t):
                bad.remove(int(m.group(1)))
            bad += [recid(recs[i]) for i in deep]
            rest = [i for i in sh if i not in set(deep)]
        # an observation outside the domain of the specification: no behaviour of the specification has it
        elif 1 <= k <= len(sh) and "TLC was evaluating the nested" in t and not re.search(r"StackOverflow|OutOfMemory|heap space|fingerprint", t):
            bad.append(recid(recs[sh[k - 1]]))
            rest = sh[k:]
        else:
            for q, _, _ in procs:
                q.kill()
            raise ToolError("TLC failed (exit %s):\n%s" % (p.returncode, t[-3000:]))
        outside += 1
        if rest and outside < limit:
            procs.append(start_judge(prop, recs, rest, workdir, "%sx%d" % (tag, outside)) + (rest,))
    return sorted(bad), states, gen


def workdir(name):
    d = os.path.join(BUILD, "work", "%s-%d" % (name, os.getpid()))
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d
