"""encode_oid!: the invocations are generated, compiled with the macro built from /repo, and run.
Refused invocations are found from the compiler's diagnostics (one line each)."""
import os, re, json, subprocess, shutil
from vp import *


def build_macro():
    os.makedirs(TARGET, exist_ok=True)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet", "--message-format=json", "--manifest-path",
                        os.path.join(VERIF, "oidharness", "Cargo.toml")], env=env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    so = lib = None
    for ln in p.stdout.splitlines():
        try:
            m = json.loads(ln)
        except ValueError:
            continue
        if m.get("reason") == "compiler-artifact" and "der_oid_macro" in m["target"]["name"].replace("-", "_"):
            so = m["filenames"][0]
        if m.get("reason") == "compiler-artifact" and m["target"]["name"].replace("-", "_") == "der_parser":
            lib = [f for f in m["filenames"] if f.endswith(".rlib")][0]
    if so is None or lib is None:
        raise ToolError("the macro does not build:\n" + p.stderr[-3000:] + p.stdout[-2000:])
    return so, lib


def digits(n):
    d = []
    while n:
        d.insert(0, n & 127)
        n >>= 7
    return d


def OK_ABS(a):
    return list(a) == [0] or len(a) >= 2 and a[0] < 3 and a[1] < 40


def texts(g, k):
    """(text of the invocation, arcs, relative, form)"""
    r = g.r
    out = []

    def add(arcs, rel=0, sep=".", pre=""):
        t = ("rel " if rel else "") + sep.join(pre + str(a) for a in arcs)
        out.append(("encode_oid!(%s)" % t, list(arcs), rel))
        # oid! is that of asn1-rs: arcs of up to 128 bits, first arc up to 2
        if sep == "." and len(t) < 50 and max(arcs) < 2 ** 120 and not pre and r.random() < .4 and \
                (rel or OK_ABS(arcs)):
            out.append(("oid!(%s)" % t, list(arcs), rel))
            if not rel:
                out.append(("oid!(raw %s)" % t, list(arcs), rel))
    edge = [0, 1, 2, 39, 40, 41, 79, 80, 119, 127, 128, 129, 200, 254, 255, 256, 257, 16383, 16384, 16385, 65535, 65536]
    for b in range(7, 130 if k == 1 else 420):
        for v in (2 ** b - 1, 2 ** b, 2 ** b + 1):
            edge.append(v)
    for a in range(0, 9):
        for b in list(range(0, 48)) + [79, 80, 100, 127, 128, 255, 256, 296, 1000, 2 ** 32, 2 ** 64]:
            if a < 7 and b < 40 or k > 1 or r.random() < .5:
                add([a, b])
    for v in edge:
        add([1, 2, v])
        add([v], 1)
        if r.random() < .3 or k > 1:
            add([2, 5, v, 3])
            add([v, 1, v], 1)
            add([1, 3, 0, v])
    for v in (7, 8, 40, 255, 256, 2 ** 40):
        add([v, 1])
        add([v, 1, 5])
    for v in (0, 1, 2, 3, 7, 39, 255, 2 ** 33):
        add([v])
        add([0, v])
    for _ in range(500 * k):
        n = r.randrange(0, 9)
        add([r.randrange(3), r.randrange(40)] + [r.getrandbits(r.choice([1, 7, 8, 14, 15, 21, 28, 32, 33, 64, 65, 100, 128])) for _ in range(n)])
        add([r.getrandbits(r.choice([1, 7, 8, 14, 21, 22, 32, 64, 70, 200])) for _ in range(n + 1)], 1)
    for _ in range(30 * k):
        add([r.randrange(3), r.randrange(40), r.getrandbits(30)], 0, r.choice([" . ", " .", ". "]))
        add([r.getrandbits(30), r.getrandbits(12)], 1, r.choice([" . ", " .", ". "]))
        add([1, r.randrange(40), r.getrandbits(9)], 0, ".", "0")
    # "1. 2" lexes as the float 1. followed by 2: the text handed to the macro is the same
    return out


def run(texts_, w):
    so, lib = build_macro()
    lines = ["fn p(i: usize, d: &[u8]) { println!(\"{} {:?}\", i, d); }",
             "fn q(i: usize, rel: bool, o: der_parser::Oid) { let same = if rel { der_parser::Oid::new_relative(o.as_bytes().to_vec().into()) } "
             "else { der_parser::Oid::new(o.as_bytes().to_vec().into()) }; if o == same { p(i, o.as_bytes()) } else { p(i, &[255, 255, 255]) } }",
             "fn main() {"]
    first = len(lines) + 1
    for i, t in enumerate(texts_):
        if t[0].startswith("encode_oid!"):
            lines.append("p(%d, &der_oid_macro::%s);" % (i, t[0]))
        elif t[0].startswith("oid!(raw"):
            lines.append("p(%d, &der_parser::%s);" % (i, t[0]))
        else:
            lines.append("q(%d, %s, der_parser::%s);" % (i, "true" if t[2] else "false", t[0]))
    src = os.path.join(w, "oids.rs")

    def rustc(emit, skip):
        with open(src, "w") as f:
            f.write("\n".join("" if (j + 1 - first) in skip else ln for j, ln in enumerate(lines)) + "\n}\n")
        return subprocess.run(["rustc", "--edition=2021", "--error-format=short", "--crate-name", "oids",
                               "--extern", "der_oid_macro=" + so, "--extern", "der_parser=" + lib, "-L", os.path.dirname(so), "--cap-lints=allow", *emit, src],
                              env=env(), cwd=w, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    skip = set()
    exe = os.path.join(w, "oids")
    for _ in range(6):
        p = rustc(["--crate-type=bin", "-Cdebuginfo=0", "-Copt-level=0", "-o", exe], skip)
        if p.returncode == 0:
            break
        new = set(int(m.group(1)) - first for m in re.finditer(r"oids\.rs:(\d+):\d+: error", p.stdout))
        new = {j for j in new if 0 <= j < len(texts_)} - skip
        if not new:
            raise ToolError("the generated program does not build:\n" + p.stdout[-2000:])
        skip |= new
    else:
        raise ToolError("the generated program does not build")
    o = subprocess.run([exe], stdout=subprocess.PIPE, text=True).stdout
    got = {}
    for ln in o.splitlines():
        a, b = ln.split(" ", 1)
        got[int(a)] = b.replace(" ", "")
    recs = []
    for i, (t, arcs, rel) in enumerate(texts_):
        ok = i in got
        if not ok and i not in skip:
            raise ToolError("no output for " + t)
        recs.append('{"id":%d,"op":"oid","rel":%d,"arcs":%s,"x":[],"st":"done","r":{"s":"%s","d":%s}}'
                    % (i, rel, json.dumps([digits(a) for a in arcs]).replace(" ", ""), "ok" if ok else "err", got.get(i, "[]")))
    return recs
