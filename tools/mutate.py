#!/usr/bin/env python3
"""Development tool: systematic small changes of /repo's sources.  For each one that compiles and passes
the tests, the recorded calls of every suite are compared with those of the unchanged tree, and the
differing records are judged by the specification: which properties notice the change?  No check uses this.

mutate.py list            writes /tmp/mut/list.json
mutate.py base            requests and records of the unchanged tree (/tmp/mut/base)
mutate.py run [--jobs=3] [--from=N] [--to=N] [k...]      results in /tmp/mut/res.jsonl
"""
import os, sys, re, json, subprocess, time, threading, queue, fcntl, pickle, random
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
M = "/tmp/mut"
FILES = ["src/ber/ber.rs", "src/ber/integer.rs", "src/ber/mod.rs", "src/ber/multi.rs", "src/ber/parser.rs", "src/ber/print.rs",
         "src/ber/serialize.rs", "src/ber/tagged.rs", "src/ber/visit.rs", "src/ber/visit_mut.rs", "src/ber/wrap_any.rs",
         "src/der/mod.rs", "src/der/multi.rs", "src/der/parser.rs", "src/der/tagged.rs", "src/error.rs"]
TAGS = ["Boolean", "Integer", "BitString", "OctetString", "Null", "Oid", "ObjectDescriptor", "Enumerated", "Utf8String", "RelativeOid", "Sequence",
        "Set", "NumericString", "PrintableString", "T61String", "VideotexString", "Ia5String", "UtcTime", "GeneralizedTime", "GraphicString",
        "VisibleString", "GeneralString", "UniversalString", "BmpString"]
RULES = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" < ", " > "), (r" > ", " < "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " + "), (r" / ", " % "), (r" % ", " / "),
    (r" & ", " | "), (r" \| ", " & "), (r" << ", " >> "), (r" >> ", " << "), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"!(?=[a-z(])", ""), (r"(?<=[( ])(?=[a-z_.]+\.(is_\w+|constructed)\(\))", "!"),
    (r" - 1\b", ""), (r" \+ 1\b", ""), (r"\bmax_depth - 1\b", "MAX_RECURSION"), (r"\bMAX_RECURSION\b", "(MAX_RECURSION - 1)"), (r"\bMAX_RECURSION\b", "1000"),
    (r"\.skip\(1\)", ""), (r"\.rev\(\)", ""), (r"\bIncomplete\b", "Error"), (r"Err::Error\(", "Err::Failure("), (r"Err::Failure\(", "Err::Error("),
    (r"\bber_", "der_"), (r"\bder_", "ber_"), (r"_ber_", "_der_"), (r"_der_", "_ber_"), (r"\bfrom_ber\b", "from_der"), (r"\bfrom_der\b", "from_ber"),
    (r"Class::Universal\b", "Class::ContextSpecific"), (r"Class::ContextSpecific\b", "Class::Application"), (r"Class::Application", "Class::Private"),
    (r"\.is_constructed\(\)", ".is_primitive()"), (r"\.is_primitive\(\)", ".is_constructed()"), (r"\.definite\(\)\?", ".definite().unwrap_or(0)"),
    (r"Length::Indefinite", "Length::Definite(0)"), (r"\brest\b", "i"), (r"\brem\b", "i"), (r"\bi\b(?=\)$)", "rem"), (r"Ok\(\(rem, ", "Ok((&rem[rem.len()..], "),
    (r"\.into_iter\(\)", ".into_iter().skip(1)"), (r"\.iter\(\)", ".iter().rev()"), (r"\.iter\(\)", ".iter().skip(1)"), (r"\bu64\b", "u32"), (r"\bu32\b", "u64"), (r"\bi64\b", "i32"),
    (r"\bas u64\b", "as u8 as u64"), (r"\bas u32\b", "as u8 as u32"), (r"\bas u8\b", "as u8 & 0x7f"), (r"\bSome\(", "None.or("), (r"Sequence\(", "Set("), (r"\bSet\(", "Sequence("),
    (r"\.unwrap_or\((\w+)\)", ".unwrap_or(1)"), (r"\.checked_sub\(", ".checked_add("), (r"\.saturating_sub\(", ".wrapping_sub("), (r"\.all\(", ".any("), (r"\.any\(", ".all("),
]
ERRS = ["UnexpectedTag", "UnexpectedClass", "InvalidTag", "InvalidLength", "InvalidClass", "BerValueError", "BerTypeError", "InvalidValueInitializer", "ConstructExpected",
        "ConstructUnexpected", "IntegerTooLarge", "IntegerNegative", "BerMaxDepth", "ObjectTooShort", "UnknownTag", "Unsupported", "IndefiniteLengthUnexpected", "InvalidDateTime", "NomError"]


def strip(t):
    """lines outside comments, attributes and test modules"""
    out, test = [], False
    for n, ln in enumerate(t.split("\n")):
        s = ln.strip()
        if s.startswith("#[cfg(test)]") or s.startswith("mod tests"):
            test = True
        if not test and s and not s.startswith("//") and not s.startswith("#[") and not s.startswith("use ") and not s.startswith("#!["):
            out.append(n)
    return out


def sites():
    res = []
    for f in FILES:
        t = open("/repo/" + f).read()
        L = t.split("\n")
        for n in strip(t):
            ln = L[n]
            code = ln.split(" // ")[0]
            if re.match(r"\s*(pub )?(fn|impl|type|where|struct|enum|mod)\b", code) or "->" in code and "=>" not in code and "{" in code:
                continue
            for pat, rep in RULES:
                for m in re.finditer(pat, code):
                    new = ln[:m.start()] + m.expand(rep) + ln[m.end():]
                    if new != ln:
                        res.append((f, n, ln, new))
            for m in re.finditer(r"Tag::(\w+)", code):
                if m.group(1) in TAGS:
                    for d in (1, -1):
                        k = TAGS[(TAGS.index(m.group(1)) + d) % len(TAGS)]
                        res.append((f, n, ln, ln[:m.start()] + "Tag::" + k + ln[m.end():]))
            for m in re.finditer(r"BerError::(\w+)", code):
                k = m.group(1)
                if k in ERRS:
                    k2 = "BerTypeError" if k != "BerTypeError" else "BerValueError"
                    res.append((f, n, ln, ln[:m.start()] + "BerError::" + k2 + ln[m.end():]))
            for m in re.finditer(r"\b(0x[0-9a-f_]+|\d+)\b(?![.\w])", code):
                if m.start() and code[m.start() - 1] in "._\"":
                    continue
                try:
                    v = int(m.group(1).replace("_", ""), 0)
                except ValueError:
                    continue
                for w in {v + 1, max(v - 1, 0)} - {v}:
                    res.append((f, n, ln, ln[:m.start()] + str(w) + ln[m.end():]))
            s = code.strip()
            # removal of a whole statement or arm
            if (s.endswith(";") and not s.startswith(("let ", "return", "}", ")", ".")) and s.count("(") == s.count(")")) or re.match(r"^[^=]*=> .*,$", s) and s.count("(") == s.count(")"):
                res.append((f, n, ln, re.match(r"\s*", ln).group(0) + "// removed"))
            m = re.match(r"(\s*)if (.*) \{$", code)
            if m and not m.group(2).startswith("let "):
                for c in ("true", "false"):
                    res.append((f, n, ln, "%sif (%s) == (%s == (%s)) {" % (m.group(1), "true", c if False else m.group(2), m.group(2)) if False else "%sif %s {" % (m.group(1), c)))
            m = re.match(r"(\s*\| )(Tag::\w+)$", code)
            if m:
                res.append((f, n, ln, m.group(1) + "Tag::EndOfContent"))
    seen, out = set(), []
    for r in res:
        if r not in seen:
            seen.add(r)
            out.append(r)
    return out


def shards(reqs, k):
    return [(j, reqs[j::k]) for j in range(k)]


def run_exe(exe, lines, limit=10):
    """all responses; NPROC 4"""
    n = 4
    res = [None] * len(lines)

    def go(j):
        ids = list(range(j, len(lines), n))
        pos = 0
        fails = 0
        while pos < len(ids) and fails < 5:
            text = "".join("%d %s\n" % (i, lines[i]) for i in ids[pos:])
            p = subprocess.Popen([exe, str(limit)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            o = p.communicate(text.encode())[0].decode("utf-8", "replace")
            for ln in o.split("\n"):
                if "\t" in ln and ln.endswith(("}", "]")):
                    a, b = ln.split("\t", 1)
                    res[int(a)] = b
                    pos += 1
            if pos < len(ids):
                res[ids[pos]] = '{"s":"abort"}'
                pos += 1
                fails += 1
    ts = [threading.Thread(target=go, args=(j,)) for j in range(n)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return res


def base():
    from vp import build_harness
    import suites, corpus
    exe = build_harness()
    gen = pickle.load(open(M + "/gen.pkl", "rb")) if os.path.exists(M + "/gen.pkl") else []
    lines, recs, prop = [], [], []
    for p in sorted(suites.SUITES):
        for r in suites.SUITES[p](corpus.Gen(1), 1, gen):
            if len(r.x) > 30000:
                continue
            lines.append(r.line)
            recs.append((r.rec, bytes(r.x)))
            prop.append(p)
    t = time.time()
    res = run_exe(exe, lines)
    print(len(lines), "requests", time.time() - t, "s", sum(r is None for r in res), "missing")
    pickle.dump((lines, recs, prop, res), open(M + "/base.pkl", "wb"))


def worker(ks):
    """inside the namespace"""
    from vp import build_harness, judge, workdir, jb, ToolError, env
    lines, recs, prop, res0 = pickle.load(open(M + "/base.pkl", "rb"))
    L = json.load(open(M + "/list.json"))
    import shutil
    for line in sys.stdin:
        k = int(line)
        f, n, old, new = L[k]
        p = "/repo/" + f
        t = open(p).read().split("\n")
        assert t[n] == old
        t[n] = new
        out = {"k": k, "f": f, "n": n + 1, "old": old.strip(), "new": new.strip()}
        t0 = time.time()
        try:
            open(p, "w").write("\n".join(t))
            try:
                exe = build_harness()
            except ToolError:
                out["r"] = "nobuild"
                continue
            e = dict(os.environ)
            q = subprocess.run("source /opt/vp/env.sh; cd /repo; timeout 120 cargo test --workspace --all-features --offline --quiet -- --test-threads 4", shell=True,
                               executable="/bin/bash", stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if q.returncode:
                out["r"] = "tests"
                continue
            res = run_exe(exe, lines)
            diff = [i for i in range(len(lines)) if res[i] is not None and res[i] != res0[i]]
            # equal text of different calls is judged once per property
            by = {}
            for i in diff:
                by.setdefault(prop[i], []).append(i)
            out["diff"] = {a: len(b) for a, b in by.items()}
            det = {}
            w = workdir("mut%d" % k)
            for pr, ids in by.items():
                ids = ids if len(ids) <= 120 else random.Random(1).sample(ids, 120)
                rs = []
                for j, i in enumerate(ids):
                    raw = res[i]
                    st = "done"
                    if raw.startswith('{"s":"panic"'):
                        st, raw = "panic", '{"s":"panic"}'
                    elif raw == '{"s":"abort"}':
                        st = "abort"
                    rs.append('{"id":%d,%s,"x":%s,"st":"%s","r":%s}' % (j, recs[i][0], jb(recs[i][1]), st, raw))
                try:
                    bad, _, _ = judge(pr, rs, w)
                    det[pr] = len(bad)
                except ToolError as ex:
                    det[pr] = "TOOL " + str(ex)[-300:]
            shutil.rmtree(w, ignore_errors=True)
            out["det"] = det
            out["r"] = "caught" if any(v != 0 for v in det.values()) else "survived"
        finally:
            open(p, "w").write("\n".join(t[:n] + [old] + t[n + 1:]))
            out["t"] = round(time.time() - t0)
            print(json.dumps(out), flush=True)


def main():
    os.makedirs(M, exist_ok=True)
    cmd = sys.argv[1]
    if cmd == "list":
        s = sites()
        json.dump(s, open(M + "/list.json", "w"))
        print(len(s))
        from collections import Counter
        print(Counter(x[0] for x in s))
    elif cmd == "base":
        base()
    elif cmd == "worker":
        worker(None)
    elif cmd == "run":
        jobs = 3
        L = json.load(open(M + "/list.json"))
        done = set()
        if os.path.exists(M + "/res.jsonl"):
            done = {json.loads(l)["k"] for l in open(M + "/res.jsonl")}
        ks = [int(a) for a in sys.argv[2:] if not a.startswith("--")]
        for a in sys.argv[2:]:
            if a.startswith("--jobs="):
                jobs = int(a[7:])
        if not ks:
            ks = [k for k in range(len(L)) if k not in done]
            random.Random(5).shuffle(ks)
        q = queue.Queue()
        for k in ks:
            q.put(k)

        def go(j):
            d = "%s/w%d" % (M, j)
            subprocess.run("rm -rf /tmp/mut/w%d; mkdir -p %s/verif; cp -a /repo %s/repo; cd /verif && tar cf - --exclude=./.git --exclude=./.build/work . | tar xf - -C %s/verif" % (j, d, d, d), shell=True)
            c = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && exec python3 /verif/tools/mutate.py worker" % (d, d)
            p = subprocess.Popen(["unshare", "-m", "bash", "-c", c], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
            while True:
                try:
                    k = q.get_nowait()
                except queue.Empty:
                    break
                p.stdin.write("%d\n" % k)
                p.stdin.flush()
                ln = p.stdout.readline()
                if not ln:
                    print("worker died", j, k, flush=True)
                    break
                with open(M + "/res.jsonl", "a") as f:
                    f.write(ln)
            p.stdin.close()
            p.wait()
            subprocess.run("rm -rf /tmp/mut/w%d" % j, shell=True)
        ts = [threading.Thread(target=go, args=(j,)) for j in range(jobs)]
        [t.start() for t in ts]
        [t.join() for t in ts]


if __name__ == "__main__":
    main()
