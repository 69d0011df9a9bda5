"""For every property, the calls that are executed against the implementation.  Each suite is a
function (g, k, gen) -> list of requests; g: seeded generator, k: scale (1 = quick), gen: inputs
generated by TLC from the specification (spec/Gen.tla)."""
import re
from vp import *
import corpus as C
from corpus import tlv, u, seq, set_, TYPES, STR, BYTE_STR

RULES = ("ber", "der")
NUMS = ("i32", "i64", "u32", "u64")


# ------------------------------------------------------------------------------------------
# random combinator expressions and matching inputs

def members(n):
    """contents of a SEQUENCE, n octets: few members where n is large"""
    if n <= 1100:
        return b"\x05\0" * (n // 2)
    x = b"\x05\0" + u(4, b"\x01" * (n - 12))
    return x + (b"\x05\0" * n)[:n - len(x)] if (n - len(x)) % 2 == 0 else x + b"\x04\x01a" + (b"\x05\0" * n)[:n - len(x) - 3]


def rexpr(g, d, obj=True):
    r = g.r
    base = [("any",), ("t", r.choice([1, 2, 3, 4, 5, 6, 10, 12, 16, 17, 22, 23])), ("ty", r.choice(TYPES)),
            ("impl", r.choice([0, 1, 5, 30, 31, 128]), r.choice([1, 2, 3, 4, 5, 6, 10, 12, 16, 17, 19, 23, 24, 30])),
            ("implg", r.choice([0, 2]), r.choice([1, 2, 3, 4, 16])), ("implold", r.choice([0, 3]), r.choice([2, 4, 17]))]
    if not obj:
        base += [(n,) for n in NUMS] * 2 + [("slice", r.choice([2, 4, 16, 0, 31]))]
    if d <= 0:
        return r.choice(base)
    k = r.randrange(16 if obj else 21)
    sub = lambda o=True: rexpr(g, d - 1, o)
    if k < 3:
        return r.choice(base)
    if k == 3 or k == 4:
        return ("seqof", sub())
    if k == 5:
        return ("setof", sub())
    if k == 6 or k == 7:
        return ("seqdef",) + tuple(sub() for _ in range(r.choice([1, 2, 3])))
    if k == 8:
        return ("setdef",) + tuple(sub() for _ in range(r.choice([1, 2])))
    if k in (9, 10):
        return ("expl", r.choice([0, 1, 30, 31, 200]), sub())
    if k == 11:
        return ("explg", r.choice([0, 4]), sub())
    if k in (12, 13):
        return ("opt", sub())
    if k == 14:
        return ("explopt", r.choice([0, 1]), sub())
    if k == 15:
        return r.choice(base)
    if k == 16:
        return ("seqofv", sub(False))
    if k == 17:
        return ("setofv", sub(False))
    if k == 18:
        return ("seqdefg",) + tuple(sub(False) for _ in range(r.choice([0, 1, 2, 3])))
    if k == 19:
        return ("setdefg",) + tuple(sub(False) for _ in range(r.choice([1, 2])))
    return ("cont",) + tuple(sub(False) for _ in range(r.choice([1, 2])))


def match(g, e, indef=.15, der=False):
    """an input the expression should like"""
    r = g.r
    op = e[0]

    def wrap(cls, con, tag, c):
        return g.wrap(cls, con, tag, c, 0 if der else indef, .03)
    many = lambda x: b"".join(match(g, x, indef, der) for _ in range(r.choice([0, 1, 2, 2, 3, 5])))
    each = lambda xs: b"".join(match(g, x, indef, der) for x in xs)
    if op in ("any", "rec"):
        return g.der_tree(2) if der or r.random() < .4 else g.tree(2)
    if op in ("t", "ty"):
        t = e[1] if op == "t" else {"visibleold": 26}.get(e[1], KIND_TAG.get(e[1]))
        if t in (16, 17):
            return wrap(0, 1, t, b"".join(g.der_leaf() for _ in range(r.randrange(3))))
        return wrap(0, 0, t, g.content(t))
    if op in NUMS:
        return u(2, r.choice([b"\0", b"\x01", b"\x7f", b"\x80", b"\0\xff", b"\x7f" + b"\xff" * 3, b"\x80" + b"\0" * 3,
                              b"\0\xff\xff\xff\xff", b"\0\x80" + b"\0" * 7, b"\x7f" + b"\xff" * 7, b"\0" + b"\xff" * 8]))
    if op in ("seqof", "seqofv"):
        return wrap(0, 1, 16, many(e[1]))
    if op in ("setof", "setofv"):
        return wrap(0, 1, 17, many(e[1]))
    if op in ("seqdef", "seqdefg", "setdef", "setdefg", "cont"):
        c = each(e[1:])
        if r.random() < .2:
            c += g.der_leaf()
        return wrap(0, 1, 17 if op.startswith("set") else 16, c)
    if op in ("expl", "explg", "explopt"):
        c = match(g, e[2], indef, der)
        if r.random() < .1:
            c += g.der_leaf()
        if op == "explopt" and r.random() < .3:
            return b""
        return wrap(r.choice([2, 2, 2, 1, 3, 0]), 1 if r.random() < .95 else 0, e[1], c)
    if op in ("impl", "implg", "implold"):
        t = e[2]
        c = b"".join(g.der_leaf() for _ in range(r.randrange(3))) if t in (16, 17) else g.content(t)
        return wrap(r.choice([2, 2, 1, 3, 0]), 1 if t in (16, 17) else 0, e[1], c)
    if op == "opt":
        return match(g, e[1], indef, der) if r.random() < .7 else b""
    if op == "slice":
        return wrap(0, r.randrange(2), e[1], g.bytes(g.small()))
    return b""


def near(g, x):
    r = g.r
    k = r.random()
    if k < .25:
        x = g.mutate(x)
    elif k < .32:
        x = x[:r.randrange(len(x) + 1)]
    if r.random() < .3:
        x += g.bytes(r.choice([1, 2, 3])) if r.random() < .5 else g.der_leaf()
    return x


def exprs(g, n, depth, only=None, obj=False, zero=True, rules=None, p_near=.5):
    """(rules, expression, input) triples; only: outermost operator must be one of these"""
    out = []
    while len(out) < n:
        e = rexpr(g, depth, obj)
        if only and not uses(e, only):
            continue
        if not zero and e[0] in ("opt", "explopt", "nothing"):
            continue
        ru = rules or g.r.choice(RULES)
        for _ in range(3):
            x = match(g, e, der=(ru == "der" and g.r.random() < .8))
            if g.r.random() < p_near:
                x = near(g, x)
            out.append((ru, e, x))
    return out[:n]


def uses(e, ops):
    return e[0] in ops


# ------------------------------------------------------------------------------------------
# shared input pools

def pool(g, n, gen, depth=3):
    """mixed inputs: TLC-generated ones and random ones"""
    r = g.r
    out = list(gen) if len(gen) <= n // 3 else r.sample(gen, n // 3)
    while len(out) < n:
        out.append(g.any_input(r.choice([1, 2, 3, depth])))
    return out


def valid_pool(g, n, gen, depth=3):
    r = g.r
    out = []
    while len(out) < n:
        k = r.random()
        out.append(g.der_tree(depth) if k < .5 else g.tree(depth))
    return out


DEEP_KINDS = [[(0, 16, "min")], [(0, 17, "min")], [(0, 16, "indef")], [(0, 16, "min"), (0, 17, "indef")],
              [(0, 17, "indef"), (0, 16, "min"), (0, 16, "indef")], [(2, 0, "min")], [(2, 3, "indef")],
              [(0, 16, "min"), (2, 1, "min")], [(0, 4, "indef")], [(0, 16, "indef"), (1, 2, "indef")],
              [(0, 16, 2)], [(0, 16, "indef"), (0, 16, "indef"), (0, 16, "min")]]


def chains(depths, inners=(b"", b"\x05\0")):
    for ks in DEEP_KINDS:
        for d in depths:
            for inner in inners:
                yield ks, d, C.chain([ks[j % len(ks)] for j in range(d)], inner)


BIGN = (127, 128, 129, 255, 256, 257, 300, 511, 512, 1000, 4095, 4096, 32768, 65535, 65536, 65537)


def big_leaf(g, n, kind=None):
    r = g.r
    kind = kind or r.choice(["oct", "oct", "utf8", "print", "bits", "int", "bmp", "ctx", "enum", "oid", "univ", "gen"])
    return {"oct": lambda: u(4, bytes([r.randrange(256)]) * n), "utf8": lambda: u(12, b"a" * n), "print": lambda: u(19, b"P" * n),
            "bits": lambda: u(3, b"\x03" + b"\xa8" * (n - 1)), "int": lambda: u(2, b"\x01" * n), "bmp": lambda: u(30, b"\0a" * (n // 2)),
            "ctx": lambda: tlv(2, 0, r.choice([0, 1, 31, 200]), b"z" * n), "enum": lambda: u(10, b"\0" * (n - 1) + b"\x07"),
            "oid": lambda: u(6, b"\x2a" * n), "univ": lambda: u(28, b"\0\0\0a" * (n // 4)), "gen": lambda: u(27, b"g" * n)}[kind]()


def many(g, n):
    """n elements"""
    k = g.r.randrange(3)
    return b"".join(u(5) if k == 0 else u(2, bytes([j & 127])) if k == 1 else g.der_leaf() for j in range(n))


def bigs(g, top=70000, der=False):
    """elements with long contents and with many elements"""
    r = g.r
    form = lambda: "min" if der else r.choice(["min", "min", "min", "indef", 3])
    out = []
    for n in BIGN:
        if n > top:
            break
        for x in [big_leaf(g, n) for _ in range(6 if n < 1000 else 2)]:
            out.append(x)
            out.append(r.choice([lambda: seq(x, u(5)), lambda: u(17, u(5) + x, form=form()), lambda: u(16, u(16, u(1, b"\xff") + x + u(5), form=form()), form=form()),
                                 lambda: u(16, b"".join([u(2, b"\x05"), x, u(5)]), form=form())])())
        if n <= 1000:
            for tag in (16, 17):
                out.append(u(tag, many(g, n), form=form()))
            out.append(u(16, u(2, b"\x01") + u(16, many(g, n), form=form()) + u(5), form=form()))
            out.append(tlv(2, 1, 3, many(g, n), form=form()))
    return out


LONG_LEAF = [(4, b"ab"), (4, b"\x01"), (12, "a\u00e9".encode()), (22, b"a"), (18, b"1 "), (19, b"Az?"), (26, b"~ "), (20, b"x"), (27, b"\x7f"), (30, b"\0a"),
             (28, b"\0\0\0a"), (2, b"\x01"), (2, b"\x7f\xff"), (6, b"\x2a"), (6, b"\x81\x00"), (13, b"\x85\x01"), (3, b"\x03\xa8"), (3, b"\0\x01"), (7, b"d"), (25, b"g"),
             (12, b"\xc3"), (22, b"a\x80"), (2, b"\0\x01"), (21, b"v"), (5, b"\0"), (1, b"\xff"), (0, b"\0"), (15, b"zz"), (23, b"25"), (14, b"q")]
LONG_ITEM = [b"\x05\0", b"\x02\x01\x05", b"\x01\x01\xff", b"\x04\x03abc", b"\x30\0", b"\x31\x02\x05\0", b"\xa0\x03\x02\x01\x07", b"\x0c\x02\xc3\xa9",
             b"\x30\x80\x05\0\0\0", b"\x0a\x01\x09", b"\x17\x0d250102030405Z", b"\x02\x02\0\x80", b"\x03\x02\x01\xfe", b"\x9f\x1f\x01a", b"\x02\x02\0\x01", b"\x01\x01\x07"]
LONG_N = [0, 1, 2, 3, 4, 5, 63, 64, 126, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 9999, 10000,
          10001, 16383, 16384, 16385, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 70000, 99999, 100000, 100001]


LONG_NS = [[n for n in LONG_N if n < 1000], [n for n in LONG_N if 1000 <= n < 60000], [n for n in LONG_N if n >= 10000]]


def longs(g, ops, count, rules=RULES, top=2 ** 24 + 2):
    """(rules, expression, copies, unit, suffix, prefix): elements of up to 16 MB and 100 000 members"""
    r = g.r
    A = ("any",)
    out = []
    left = 8                                 # very large ones
    while len(out) < count:
        ru = r.choice(rules)
        form = lambda: "min" if r.random() < (.9 if ru == "der" else .5) else r.choice(["indef", 3, 4])
        o = r.choice(ops)
        listy = o in ("seqof", "setof", "seqofv", "setofv")
        tagno = r.choice([0, 1, 30, 31, 200])
        con = 0
        if listy or r.random() < .4:
            unit = r.choice(LONG_ITEM)
            tag, con = (17 if o.startswith("setof") or (not listy and r.random() < .4) else 16), 1
            cls = 0
            n = r.choice(r.choice(LONG_NS))
            e = A if not listy else (o, r.choice([A, ("t", unit[0] & 31)] + ([("u32",), ("i64",)] if o.endswith("v") else [])))
            if o == "slice":
                e = ("slice", tag)
        else:
            tag, unit = r.choice(LONG_LEAF)
            cls = 0
            if r.random() < .12:
                cls, tag = r.choice([1, 2, 3]), r.choice([0, 4, 31, 2 ** 14])
            n = r.choice(r.choice(LONG_NS))
            if left and r.random() < .2:
                n = r.choice([2 ** 20, 2 ** 24, top]) // len(unit) + r.choice([-1, 0, 0, 1])
                left -= 1
            e = A if o != "slice" else ("slice", tag)
        if o == "t":
            e = ("t", tag)
        rest = b""
        inner = r.choice([b""] * 4 + [b"\x05\0", b"\x04\x02zz\x02\x01\x03"] if con else [b""] * 4 + [b"\xff", b"a", b"\x80"])
        if o in ("impl", "implg", "implold") and cls == 0:
            e, cls, tag = (o, tagno, tag), 2, tagno
        if o == "opt":
            e = ("opt", e)
        wrap = [(cls, con, tag)]
        for _ in range(r.choice([0, 0, 0, 1, 2])) if o in ("any", "rec") else range(1) if o in ("expl", "explg", "explopt", "seqdef", "setdef", "seqdefg", "cont", "t2") else ():
            if o in ("expl", "explg", "explopt"):
                e, h = (o, tagno, e), (2, 1, tagno)
            elif o in ("seqdef", "seqdefg"):
                e, h = (o, e), (0, 1, 16)
            elif o == "setdef":
                e, h = (o, e), (0, 1, 17)
            elif o == "cont":
                e, h = (o, e), (2, 1, 5)
            else:
                h = r.choice([(0, 1, 16), (0, 1, 17), (2, 1, 1)])
            wrap.insert(0, h)
        # from the inside out; the suffix collects what follows the run
        pre, suf, size = b"", inner, n * len(unit) + len(inner)
        for k, (c, p, t) in enumerate(reversed(wrap)):
            f = form() if p else r.choice(["min", "min", 3, 4])
            if k == 0 and not con and f == "indef":
                f = "min"
            if k > 0:
                extra = r.choice([b"", b"", b"\x05\0", b"\x02\x01\x2a"])
                suf += extra
                size += len(extra)
            h = C.ident(c, p, t)
            if f == "indef":
                h += b"\x80"
                suf += b"\0\0"
                size += 2
            elif f == "min" and size < 128:
                h += bytes([size])
            else:
                b = size.to_bytes(8, "big").lstrip(b"\0")
                w = max(len(b), 1) if f == "min" else max(f, len(b))
                h += bytes([128 + w]) + b.rjust(w, b"\0")
            pre, size = h + pre, size + len(h)
        q = r.random()
        if q < .3:
            suf += r.choice([b"\0", b"\0\0", b"\x05\0", b"zzz", b"\x30\x80"])
        elif q < .42 and suf:
            suf = suf[:r.randrange(len(suf))]
        elif q < .5 and n > 3:
            n, suf = n - 1, b""
            if len(wrap) > 1 or "indef" in (f,):
                continue
            # one copy too few: the header is that of n + 1 copies
            out.append((ru, e, n, unit, unit[:-1], pre))
            continue
        out.append((ru, e, n, unit, suf, pre))
    return out


HUGE = [2 ** j + d for j in (15, 16, 24, 28, 31, 32, 33, 40, 48, 56, 62, 63) for d in (-2, -1, 0, 1)] + [2 ** 64 - 2, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 5, 2 ** 72, 2 ** 127]


def huge(g, k, rules=RULES, share=.12):
    """announced lengths far beyond the input, through every way to an element"""
    r = g.r
    out = []
    for ln in HUGE:
        b = ln.to_bytes(17, "big").lstrip(b"\0")
        for cls, con, tag in [(0, 0, t) for t in range(1, 31) if t not in (16, 17)] + [(0, 1, 16), (0, 1, 17), (0, 1, 4), (1, 1, 1), (2, 1, 0), (2, 0, 31), (2, 1, 16), (3, 0, 9)]:
            if k == 1 and r.random() > share and not (tag in (4, 16) and cls == 0 and 2 ** 31 <= ln <= 2 ** 33):
                continue
            w = len(b) + (r.choice([0, 0, 1, 3]) if len(b) < 100 else 0)
            x = C.ident(cls, con, tag) + bytes([128 + w]) + b.rjust(w, b"\0") + r.choice([b"", b"\0", b"\x05\0", b"\x01\x02\x03\x04"])
            ru = r.choice(rules)
            m = [t for t in TYPES if cls == 0 and KIND_TAG[t] == tag]
            for e in [("any",), r.choice([("rec", 1), ("rec", 2), ("any",)]), ("ty", m[0]) if m else ("t", tag),
                      r.choice([("expl", tag, ("any",)), ("impl", tag, 4), ("opt", ("t", tag)), ("seqof", ("any",)), ("setof", ("any",)), ("cont", ("any",)), ("slice", tag), ("u32",), ("i64",), ("seqdef", ("any",))])]:
                out.append(expr(ru, e, x))
            out.append(r.choice([parse(ru, x, r.choice([None, 1, 50])), withtag(ru, tag, x)]))
            # nested
            out.append(parse(ru, r.choice([b"\x30\x80" + x, b"\x30\x80\x05\0" + x, b"\xa0\x80" + x, tlv(0, 1, 16, x), tlv(0, 1, 17, u(5) + x), b"\x30\x84\xff\xff\xff\xff" + x])))
            out.append(expr(ru, r.choice([("seqof", ("any",)), ("expl", 0, ("any",)), ("setof", ("any",)), ("seqdef", ("any",))]), tlv(*r.choice([(0, 1, 16), (2, 1, 0), (0, 1, 17)]), x, r.choice(["min", "indef"]))))
    return out


def typed_forms(g, k, rules=RULES):
    """every typed parser on its type in both forms and all kinds of length"""
    r = g.r
    out = []
    for t in TYPES + ["visibleold"]:
        tn = 26 if t == "visibleold" else KIND_TAG[t]
        for con in (0, 1):
            for form in ("min", "indef", 1, 3):
                for cls in (0, r.choice([1, 2, 3])):
                    for _ in range(2):
                        c = g.content(tn) if tn not in (16, 17) else b"".join(g.der_leaf() for _ in range(r.randrange(3)))
                        if form == "indef" and con == 0 and r.random() < .5:
                            continue
                        for e in (("ty", t), ("t", tn), r.choice([("impl", tn, tn), ("opt", ("ty", t)), ("any",)])):
                            for ru in rules:
                                out.append(expr(ru, e, tlv(cls, con, tn, r.choice([c, c, u(5), b""]), form) + r.choice([b"", b"\0"])))
    return out


def long_leaf(ru, e, tag, n, unit, inner=b"", suf=b"", w=4):
    size = n * len(unit) + len(inner)
    return long(ru, e, n, unit, inner + suf, bytes([tag, 128 + w]) + size.to_bytes(w, "big"))


def long_strings(g, k):
    """every string type: a long run of legal characters, then one that is legal or not"""
    r = g.r
    out = []
    for t, good, other in ((12, "\u20ac".encode(), [b"\x80", b"\xe2\x82", b"a"]), (18, b"7 ", [b"x", b"+"]), (19, b"Zz", [b"*", b"@", b"?"]), (20, b"t", [b"\x80", b"~"]), (21, b"v", [b"\xff"]),
                           (22, b"i", [b"\x80", b"\0"]), (25, b"g", [b"\n", b"\x80"]), (26, b"w", [b"\n", b"\xe9"]), (27, b"g", [b"\x80"]), (28, b"\0\0\0u", [b"a", b"\0\x11\0\0"]),
                           (30, b"\0b", [b"a", b"\xd8\0", b"\xdc\0"]), (7, b"d", [b"\xff"])):
        for size in (100, 255, 256, 1000, 1024, 4096, 8192, 16384, 32768, 65535, 65536, 65600, 100000, 2 ** 20, 2 ** 24 - 1, 2 ** 24):
            if k == 1 and size >= 2 ** 20 and r.random() < .85:
                continue
            n = size // len(good) + r.choice([-1, 0, 0, 1])
            for bad in [b""] + other:
                if k > 1 or r.random() < .6:
                    out.append(long_leaf(r.choice(RULES), r.choice([("any",), ("t", t)]), t, n, good, bad, r.choice([b"", b"", b"\x05\0"])))
    return out


def long_reqs(g, ops, count, rules=RULES):
    return [long(*a) for a in longs(g, ops, count, rules)]


def big_exprs(g, ops, n):
    """combinators on long contents and on many elements: (rules, expression, input)"""
    r = g.r
    out = []
    A = ("any",)
    while len(out) < n:
        o = r.choice(ops)
        ru = r.choice(RULES)
        form = lambda: "min" if ru == "der" and r.random() < .9 else r.choice(["min", "indef", 3])
        m = r.choice([127, 128, 200, 255, 256, 257, 300, 511, 512, 700] + ([1000, 4096, 65535, 65536] if r.random() < .1 else []))
        x = big_leaf(g, m) if r.random() < .6 or m > 700 else u(16, many(g, m), form=form())
        it = r.choice([A, A, ("t", x[0] & 31), ("opt", A)])
        few, after = r.choice([0, 0, 1, 3]), r.choice([0, 0, 1])
        body = u(5) * few + x + u(5) * after
        if o in ("seqof", "setof", "seqofv", "setofv"):
            tag = 16 if o.startswith("seq") else 17
            if r.random() < .5 and m <= 700:
                cnt = m
                e, y = (o, r.choice([A, ("t", 2)] + ([("u32",), ("i64",)] if o.endswith("v") else []))), u(tag, b"".join(u(2, bytes([j & 127])) for j in range(cnt)), form=form())
            else:
                e, y = (o, A), u(tag, body, form=form())
        elif o in ("seqdef", "setdef", "seqdefg", "setdefg", "cont"):
            e = (o,) + (("t", 5),) * few + (it,) + (("t", 5),) * (after if r.random() < .7 else 0)
            y = tlv(0, 1, 17 if o.startswith("set") else 16, body, form=form())
        elif o in ("expl", "explg", "explopt"):
            e, y = (o, 1, it), tlv(2, 1, 1, x + u(5) * after, form=form())
        elif o in ("impl", "implg", "implold"):
            t = r.choice([4, 12, 2, 3, 16, 17])
            e, y = (o, 1, t), tlv(2, 1, 1, many(g, m % 701), form=form()) if t > 15 else tlv(2, 0, 1, b"\0" + b"a" * (m - 1))
        else:
            e, y = ("opt", it), x
        if r.random() < .2 and not e[0].endswith("v") and e[0] != "cont":
            e, y = ("seqdefg" if e[0].endswith("g") else "seqdef", e), u(16, y, form=form())
        y += r.choice([b"", b"", b"\x05\0", b"a" * 300])
        if r.random() < .2:
            y = y[:r.randrange(len(y))] if r.random() < .5 else y[:-1]
        out.append((ru, e, y))
    return out


def big_calls(g, ops, n):
    return [expr(*a) for a in big_exprs(g, ops, n)]


def cut(g, x):
    """x or a prefix of it"""
    k = g.r.random()
    return x if k < .5 else x[:-1] if k < .7 else x[:g.r.randrange(len(x))] if k < .9 else x[:g.r.randrange(min(12, len(x)))]


# ------------------------------------------------------------------------------------------
def c01(g, k, gen):
    """totality: every entry point, on everything"""
    r = g.r
    xs = []
    xs += r.sample(C.headers(), 700 * k if 700 * k < 14000 else 14000)
    xs += [bytes([b]) for b in range(256)]
    xs += r.sample(list(C.leaf_grid()), min(1200 * k, 27000))
    xs += [u(2, c) for c in r.sample(C.int_contents(), min(250 * k, 4900))]
    xs += [u(3, bytes([p]) + d) for p, d in r.sample(C.bit_contents(), min(200 * k, 2500))]
    xs += [x for _, _, x in chains([1, 2, 10, 49, 50, 51, 52])]
    xs += [g.any_input(r.choice([1, 2, 3, 4])) for _ in range(2500 * k)]
    xs += [g.mutate(g.any_input(3)) for _ in range(800 * k)]
    xs += [u(t, g.time(t == 24)) for t in (23, 24) for _ in range(200 * k)]
    xs += [tlv(g.r.choice([0, 2]), 1, 0, x) for x in xs[-300:]]
    xs += [x for x in gen if True][:1500 * k]
    out = [total(x) for x in xs]
    # size: deep and wide inputs on the generic entry points only (the harness would be slow on them)
    deep = []
    for n in (60, 200, 1000, 5000, 20000):
        deep += [b"\x30\x80" * n, b"\x30\x80" * n + b"\0\0" * n, b"\xa0\x80" * n, b"\x31\x80" * n + b"\0\0" * (n // 2),
                 b"\x24\x80" * n, b"\x30\x80\x02\x01\x05" * n]
        x = b""
        for _ in range(min(n, 5000)):
            x = tlv(0, 1, 16, x)
        deep.append(x)
    deep += [u(16, b"\x05\0" * n) for n in (10000, 40000)] + [u(2, b"\0" * n) for n in (1000, 100000)] + \
            [u(3, b"\0" * n) for n in (1000, 70000)] + [u(4, b"\0" * 200000), u(12, b"a" * 100000), u(30, b"\0a" * 50000)]
    deep += [u(2, b"\0" * 30000 + b"\x01"), u(2, b"\xff" * 100000), u(10, b"\0" * 100000), u(6, b"\x80" * 60000), u(6, b"\x2a" * 30000)]
    for x in deep:
        for ru in RULES:
            out.append(Req(ru, ["-"], x, op=js("total")))
            out.append(Req(ru + "expr", ["seqof(any)"], x, op=js("total")))
            out.append(Req(ru + "expr", ["opt(expl(0,any))"], x, op=js("total")))
            out.append(Req(ru + "hdr", [], x, op=js("total")))
        out.append(Req("berany", [], x, op=js("total")))
        out.append(Req("tryany", ["ber"], x, op=js("total")))
        out.append(Req("tryany", ["der"], x, op=js("total")))
        if len(x) < 250000:
            out.append(Req("acc", [], x, op=js("total")))
            out.append(Req("iter", [], x, op=js("total")))
            if len(x) < 80000 and x[:1] != b"\x06":
                out.append(Req("enc", [2, 1], x, op=js("total")))
                out.append(Req("pretty", [0, 2, "h"], x, op=js("total")))
    # combinators: arbitrary nesting
    for ru, e, x in exprs(g, 6000 * k, 3):
        out.append(Req(ru + "expr", [ex_text(e)], x, op=js("total")))
    for e in (("nothing",), ("failure",)):
        for op in ("seqof", "setof", "opt", "seqdef"):
            for x in (b"", seq(), seq(u(5)), set_(), set_(u(5))):
                for ru in RULES:
                    out.append(Req(ru + "expr", [ex_text((op, e))], x, op=js("total")))
    # content readers with arbitrary declared lengths
    for _ in range(2000 * k):
        x = g.bytes(g.small())
        ln = r.choice([None, 0, 1, len(x), len(x) + 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63, 2 ** 64 - 1])
        q = contas(r.choice(RULES), r.choice(list(range(32)) + [2 ** 32 - 1]), ln, r.randrange(2), r.choice([0, 1, 50, 1000]), x)
        q.rec = '"op":"total"'
        out.append(q)
    for b in range(256):
        for n in (0, 1, 7, 8, 9):
            out.append(Req("bits", [b], bytes([0xa5]) * n, op=js("total")))
    return out


def c02(g, k, gen):
    r = g.r
    out = []
    for x in pool(g, 9000 * k, gen):
        ru = r.choice(RULES)
        sfx = r.choice([b"\0", b"\0\0", b"\xff", b"\x30\x80", b"\x05\0", b"\x80", g.bytes(r.choice([1, 4, 9, 40]))])
        e = r.choice([("any",), ("any",), ("rec", r.choice([1, 2, 5, 50])), ("ty", r.choice(TYPES)), ("t", x[0] & 31 if x else 4)])
        if e[0] == "ty" and x:
            m = [t for t in TYPES if KIND_TAG[t] == x[0] & 31]
            if m and r.random() < .9:
                e = ("ty", m[0])
        out.append(trail(ru, e, x, sfx))
        out.append(parse(ru, x + r.choice([b"", sfx])))
    for t in TYPES:
        for _ in range(60 * k):
            x = match(g, ("ty", t), 0.2) + r.choice([b"", b"\0\0", b"\x05\0", g.bytes(3)])
            out.append(typed(r.choice(RULES), t, x))
            out.append(trail(r.choice(RULES), ("ty", t), x, r.choice([b"\0", b"\0\0\0", b"\x30\0", g.bytes(5)])))
    for n in C.big_lengths(70000 if k > 1 else 66000):
        for t in (4, 12, 2, 3, 16, 28):
            c = b"\0" * n if t != 16 else members(n)
            x = u(t, c)
            for ru in RULES:
                if n < 3000 or t == 4:
                    out.append(parse(ru, x + b"\x01\x02"))
                    out.append(trail(ru, ("any",), x, b"\0\0"))
                    out.append(expr(ru, ("slice", t), x + b"\x01"))
    for ru, e, x in exprs(g, 9000 * k, 2):
        out.append(expr(ru, e, x))
        if e[0] not in ("opt", "explopt"):
            out.append(trail(ru, e, x, r.choice([b"\0", b"\0\0", b"\x05\0", b"\xff\xff", g.bytes(6)])))
    for _ in range(1500 * k):
        x = g.any_input()
        out.append(anyel(x))
        out.append(header(r.choice(RULES), x))
        out.append(dercont(x))
        out.append(withtagr(x[0] & 31 if x else 1, r.choice([1, 5, 50]), x))
        b = g.bytes(g.small())
        out.append(contas(r.choice(RULES), r.randrange(31), r.choice([len(b), max(0, len(b) - 1), None]), r.randrange(2), 50,
                          b + r.choice([b"", b"\0\0", b"\x05\0\0\0"])))
    return out


def decode_suite(g, k, gen, rules):
    r = g.r
    out = []
    for x in C.leaf_grid():
        if k > 1 or r.random() < .35:
            out.append(parse(rules, x))
    for c in C.int_contents():
        if k > 1 or r.random() < .2:
            out.append(parse(rules, u(2, c)))
            if len(c) < 12:
                out.append(parse(rules, seq(u(2, c))))
                out.append(parse(rules, u(10, c)))
    for p, d in C.bit_contents():
        if k > 1 or r.random() < .4:
            out.append(parse(rules, u(3, bytes([p]) + d)))
            out.append(parse(rules, seq(u(3, bytes([p]) + d))))
    for x in pool(g, 16000 * k, gen, 4):
        out.append(parse(rules, x, r.choice([None, None, None, None, 1, 2, 3, 50])))
    for _ in range(3000 * k):
        x = g.any_input(2)
        t = x[0] & 31 if x and r.random() < .85 else r.randrange(31)
        out.append(withtag(rules, t, x))
        if rules == "ber":
            out.append(withtagr(t, r.choice([1, 2, 50]), x))
            out.append(parse_any_r(x, r.choice([1, 2, 50])))
            out.append(anyel(x))
        else:
            out.append(dercont(x))
        c = g.content(t)
        if t in (16, 17):
            c = b"".join(g.leaf() for _ in range(r.randrange(4)))
        out.append(contas(rules, t, r.choice([None, len(c), len(c), len(c), len(c) + 1, max(0, len(c) - 1)]),
                          1 if t in (16, 17) or r.random() < .1 else 0, r.choice([0, 1, 2, 50]),
                          c + r.choice([b"", b"", b"\0\0", g.bytes(2)])))
    for t in TYPES:
        for _ in range(60 * k):
            out.append(typed(rules, t, near(g, match(g, ("ty", t)))))
    # the same leaves, at several nesting levels and positions
    for _ in range(3000 * k):
        x = g.leaf()
        if r.random() < .2:
            x = g.mutate(x)
        d = r.choice([1, 1, 2, 3, 8, 20])
        for _ in range(d):
            a = g.der_leaf() if r.random() < .3 else b""
            b = g.der_leaf() if r.random() < .3 else b""
            x = tlv(0, 1, r.choice([16, 17]), a + x + b, r.choice(["min", "min", "min", "indef", 2]) if rules == "ber" or r.random() < .1 else "min")
        out.append(parse(rules, x))
    # wide, long, large
    for n in (0, 1, 2, 10, 127, 128, 200, 1000):
        out.append(parse(rules, seq(*[u(2, bytes([j & 127])) for j in range(n)])))
        out.append(parse(rules, set_(*[g.der_leaf() for j in range(min(n, 200))])))
        if n <= 200:
            out.append(parse(rules, seq(*[u(2, bytes([j & 127])) for j in range(n)], form="indef")))
    for n in C.big_lengths():
        for t in (4, 12, 22, 3, 2):
            if n < 3000 or (t == 4 and n < 40000) or k > 1:
                out.append(parse(rules, u(t, b"\0" * n)))
    # indefinite lengths and end-of-contents
    eocs = [b"\0\0", b"\0\x01\0", b"\x20\0", b"\x80\0", b"\x40\0", b"\xc0\0", b"\0\x81\0", b"\x1f\0\0", b"\0", b"", b"\0\0\0\0", b"\xa0\0", b"\0\x80"]
    for body in [b"", u(2, b"\x05"), u(4, b"\0\0"), u(16), seq(u(5), form="indef"), u(4, b"\0\0") * 2, b"\x80\0", b"\0\x01\0", b"\x20\0"]:
        for t in (16, 17, 4, 3, 2, 12):
            for cls in (0, 2):
                for con in (0, 1):
                    for eo in eocs:
                        for tail in (b"", b"\0\0", b"\x05\0"):
                            if k > 1 or r.random() < .5:
                                out.append(parse(rules, C.ident(cls, con, t) + b"\x80" + body + eo + tail))
    return out


def c03(g, k, gen):
    return decode_suite(g, k, gen, "ber")


def c04(g, k, gen):
    r = g.r
    out = decode_suite(g, k, gen, "der")
    # one departure from DER, at any depth and position, in an otherwise correct structure
    bad = [u(1, b"\x01"), u(1, b"\x80"), u(1, b"\xfe"), u(1, b"\x7f"), u(2, b""), u(2, b"\0\0"), u(2, b"\0\x7f"), u(2, b"\xff\xff"), u(2, b"\xff\x80"),
           u(3, b""), u(3, b"\x01"), u(3, b"\x07"), u(3, b"\x08\0"), u(3, b"\x01\x01"), u(3, b"\x07\x40"), u(3, b"\x04\x08"), u(3, b"\xff\xff"),
           u(4, b"\x04\x01a", con=1), u(3, b"\x03\x02\0a", con=1), u(12, b"\x0c\x01a", con=1), u(22, b"\x16\x01a", con=1),
           u(23, b"250102030405+0000"), u(23, b"250102030405"), u(23, b"2501020304"), u(24, b"20250102030405"), u(24, b"20250102030405+0100"),
           u(24, b"20250102030405.5"), u(23, b""), u(24, b""), u(16, u(5), form="indef"), u(17, b"", form="indef"), tlv(2, 1, 0, u(5), "indef"),
           u(30, b"\0a", con=1), u(28, b"\0\0\0a", con=1), u(18, b"1", con=1), u(19, b"a", con=1), u(26, b"a", con=1), u(20, b"a", con=1),
           u(21, b"a", con=1), u(25, b"a", con=1), u(27, b"a", con=1), u(7, b"a", con=1), u(4, b"", con=1)]
    good = [u(1, b"\0"), u(1, b"\xff"), u(2, b"\0"), u(2, b"\0\x80"), u(2, b"\xff\x7f"), u(2, b"\x80"), u(3, b"\0"), u(3, b"\0\xff"), u(3, b"\x07\x80"),
            u(3, b"\x04\xf0"), u(4, b""), u(23, b"250102030405Z"), u(24, b"20250102030405Z"), u(24, b"20250102030405.5Z"), u(16), u(17, u(5)), tlv(2, 1, 0, u(5))]
    for b in bad + good:
        for d in list(range(0, 6)) + [10, 30, 48, 49, 50]:
            for pos in (0, 1, 2):
                for t in (16, 17):
                    x = b
                    for j in range(d):
                        x = u(t if j % 2 == 0 else 16, (u(5) if pos >= 1 else b"") + x + (u(5) if pos != 1 else b""))
                    if k > 1 or d < 4 or r.random() < .4:
                        out.append(parse("der", x))
                        if d:
                            out.append(expr("der", ("seqof", ("any",)), x))
                            out.append(expr("der", ("setof", ("any",)), x))
                            out.append(typed("der", "seq" if x[0] == 0x30 else "set", x))
        for e in (("any",), ("t", b[0] & 31)):
            out.append(expr("der", ("expl", 0, e), tlv(2, 1, 0, b)))
            out.append(expr("der", ("seqdef", e, ("opt", e)), seq(b, b)))
            out.append(expr("der", ("setdef", e), set_(b)))
            out.append(expr("der", ("cont", e), seq(b)))
            out.append(expr("der", ("opt", e), b))
            out.append(expr("der", ("seqofv", e), seq(b, b)))
            out.append(expr("der", ("explopt", 0, e), tlv(2, 1, 0, b)))
        body = b[2:]
        if b[1] < 128:
            for con in (0, 1):
                for op in ("impl", "implg", "implold"):
                    out.append(expr("der", (op, 3, b[0] & 31), tlv(2, con, 3, body)))
        out.append(withtag("der", b[0] & 31, b))
        out.append(dercont(b))
    # indefinite lengths through every combinator
    for ru, e, x in exprs(g, 4000 * k, 2, rules="der"):
        out.append(expr("der", e, match(g, e, indef=.5) if r.random() < .5 else x))
    for nk in NUMS:
        for c in C.int_contents():
            if len(c) < 11 and r.random() < (.15 if k == 1 else 1):
                out.append(expr("der", (nk,), u(2, c)))
    return out


def c05(g, k, gen):
    r = g.r
    out = []
    for x in pool(g, 15000 * k, gen, 4):
        out.append(pair(r.choice([("any",), ("any",), ("rec", r.choice([1, 2, 3, 10, 50, 60]))]), x))
    for _ in range(12000 * k):
        x = g.der_tree(r.choice([1, 2, 3, 4]))
        if r.random() < .3:
            x = g.mutate(x)
        out.append(pair(r.choice([("any",), ("any",), ("rec", r.choice([1, 2, 3, 10, 50, 60])), ("t", x[0] & 31 if x else 2)]), x + r.choice([b"", b"\0"])))
    for x in C.leaf_grid(cons=(0, 1)):
        if k > 1 or r.random() < .3:
            out.append(pair(("any",), x))
            out.append(pair(("t", x[0] & 31), x))
    for t in TYPES:
        for _ in range(150 * k):
            out.append(pair(("ty", t), near(g, match(g, ("ty", t), 0, True))))
    for _, e, x in exprs(g, 10000 * k, 2, rules="der"):
        if has_opt(e):
            continue
        out.append(pair(e, x))
    for ks, d, x in chains([1, 2, 5, 25, 48, 49, 50, 51]):
        out.append(pair(("any",), x))
        out.append(pair(("rec", d), x))
        out.append(pair(("rec", d + 1), x))
    for c in C.int_contents():
        for e in NUMS:
            if k > 1 or r.random() < .15:
                out.append(pair((e,), u(2, c)))
    for x in bigs(g, der=True):
        out.append(pair(r.choice([("any",), ("rec", 3), ("t", x[0] & 31)]), x + r.choice([b"", b"\0\0"])))
    for _, e, x in big_exprs(g, ("seqof", "setof", "seqdef", "setdef", "expl", "impl", "seqofv", "cont"), 60 * k):
        if not has_opt(e):
            out.append(pair(e, x))
    return out


def has_opt(e):
    return e[0] in ("opt", "explopt") or any(has_opt(a) for a in e[1:] if isinstance(a, tuple))


def c06(g, k, gen):
    r = g.r
    out = []
    dd = list(range(0, 13)) + [20, 30, 45, 46, 47, 48, 49, 50, 51, 52, 53, 55, 60]
    lims = [0, 1, 2, 3, 4, 5, 8, 10, 20, 47, 48, 49, 50, 51, 52, 53, 60, 100]
    for ks, d, x in chains(dd, (b"", b"\x05\0", b"\x02\x01\x07", b"\xa0\0", b"\x30\0")):
        near_l = {max(0, d + j) for j in (-3, -2, -1, 0, 1, 2, 3)} | {0, 1, 50} | (set(lims) if k > 1 else set(r.sample(lims, 3)))
        for ru in RULES:
            out.append(parse(ru, x))
            for l in near_l:
                if k > 1 or r.random() < .5:
                    out.append(parse(ru, x, l))
        for l in near_l:
            if r.random() < (.3 if k == 1 else 1):
                out.append(parse_any_r(x, l))
                out.append(withtagr(x[0] & 31 if x else 16, l, x))
        if x:
            out.append(dercont(x))
            for ru in RULES:
                out.append(withtag(ru, x[0] & 31, x))
                out.append(expr(ru, ("seqof", ("any",)), x))
                out.append(expr(ru, ("impl", 2, 16), tlv(2, 1, 2, x)))
                out.append(expr(ru, ("expl", 2, ("any",)), tlv(2, 1, 2, x)))
                if k > 1 or r.random() < .5:
                    out.append(expr(ru, ("ty", "seq" if x[0] & 1 == 0 else "set"), x))
                    out.append(expr(ru, ("implg", 2, 17), tlv(2, 1, 2, x)))
                    out.append(expr(ru, ("seqdef", ("opt", ("any",)), ("any",)), seq(u(5), x)))
                    out.append(expr(ru, ("explopt", 2, ("any",)), tlv(2, 1, 2, x)))
                for l in r.sample(sorted(near_l), 3):
                    out.append(contas(ru, 16, len(x), 1, l, x))
                    out.append(contas(ru, 17, None, 1, l, x + b"\0\0"))
                    out.append(contas(ru, r.choice([2, 4, 3, 12]), len(x), 0, l, x))
    # the deepest branch need not be the first
    for _ in range(3000 * k):
        d = r.choice([1, 2, 3, 4, 6, 10])
        x = g.leaf() if r.random() < .7 else u(16)
        for j in range(d):
            x = u(r.choice([16, 17]), b"".join([g.der_leaf()] * r.randrange(3)) + x + b"".join([g.der_leaf()] * r.randrange(2)),
                  form=r.choice(["min", "min", "indef"]))
        out.append(parse(r.choice(RULES), x, max(0, d + r.choice([-2, -1, 0, 1, 2]))))
    for x in pool(g, 4000 * k, gen, 5):
        out.append(parse(r.choice(RULES), x, r.randrange(8)))
    return out


def c07(g, k, gen):
    r = g.r
    out = []
    for x in valid_pool(g, 5000 * k, gen, 3):
        if len(x) > 300:
            continue
        ru = "der" if r.random() < .4 else "ber"
        out.append(prefix(ru, r.choice([("any",), ("any",), ("rec", 50), ("t", x[0] & 31)]), x + r.choice([b"", b"", b"\0", b"\x05\0"])))
    for x in (gen if len(gen) < 1500 * k else r.sample(gen, 1500 * k)):
        out.append(prefix(r.choice(RULES), ("any",), x))
    for t in TYPES:
        for _ in range(40 * k):
            out.append(prefix(r.choice(RULES), ("ty", t), match(g, ("ty", t))))
    for ru, e, x in exprs(g, 2500 * k, 2, zero=False, p_near=0):
        out.append(prefix(ru, e, x))
    for n in (1, 126, 127, 128, 129, 255, 256, 257, 300):
        for t in (2, 3, 4, 12, 16, 28):
            c = b"\0" * n if t != 16 else members(n)
            for form in ("min", 2, 3, 4):
                out.append(prefix(r.choice(RULES), ("any",), u(t, c, form=form)))
    for ks, d, x in chains([1, 2, 3, 10, 30]):
        out.append(prefix("ber", ("any",), x))
        out.append(prefix("der", ("any",), x))
    for cls in range(4):
        for tag in (0, 30, 31, 127, 128, 16384, 2 ** 28, 2 ** 32 - 1):
            for form in ("min", "indef", 1, 2, 4):
                out.append(prefix("ber", ("any",), tlv(cls, 1, tag, u(5), form)))
                out.append(prefix("der", ("any",), tlv(cls, 1, tag, u(5), form)))
    # contents alone, cut anywhere, under every limit that allows them
    for t in range(31):
        for _ in range(25 * k):
            c = g.content(t) if t not in (16, 17) else b"".join(g.leaf() for _ in range(r.randrange(4)))
            for ru in RULES:
                dep = r.choice([50, 50, 49, 48, 20, 3, 2, 1])
                ln = len(c) + r.choice([0, 0, 0, 1, 2, 100, 70000])
                n = r.choice([len(c), len(c), max(0, len(c) - 1), 0, r.randrange(len(c) + 1)])
                out.append(contas(ru, t, ln, r.choice([0, 1]) if t not in (16, 17) else 1, dep, c[:n]))
                if r.random() < .3:
                    out.append(contas(ru, t, None, 1, dep, (c + b"\0\0")[:n + r.randrange(3)]))
    for x in bigs(g):
        for _ in range(2):
            out.append(parse(r.choice(RULES), cut(g, x)))
    for ru, e, x in big_exprs(g, ("seqof", "setof", "seqdef", "expl", "impl", "seqofv"), 80 * k):
        if not has_opt(e):
            out.append(expr(ru, e, cut(g, x)))
    return out


def c08(g, k, gen):
    r = g.r
    out = []
    for c in C.int_contents():
        if k > 1 or r.random() < .8:
            out.append(acc(u(2, c)))
            if r.random() < .3:
                out.append(acc(("build", ("intslice", c))))
            if len(c) <= 6:
                out.append(acc(u(10, c)))
    for _ in range(12000 * k):
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 7, 8, 8, 8, 9, 9, 9, 10, 12, 16, 17, 33])
        c = bytes([r.choice([0, 0, 1, 0x7f, 0x80, 0xff, 0xff, r.randrange(256)])]) + g.bytes(n - 1)
        out.append(acc(u(2, c)) if r.random() < .7 else acc(("build", ("intslice", c))))
    for v in [0, 1, 127, 128, 255, 256, 65535, 65536, 2 ** 24, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]:
        out.append(acc(("build", ("enum", v.to_bytes(8, "big")))))
        out.append(acc(u(10, v.to_bytes(8, "big").lstrip(b"\0"))))
    for p, d in C.bit_contents():
        if k > 1 or r.random() < .5:
            out.append(acc(u(3, bytes([p]) + d)))
    for t in range(31):
        for _ in range(20 * k):
            out.append(acc(u(t, g.content(t))))
    for _ in range(2000 * k):
        out.append(acc(tlv(2, 0, 2, g.bytes(r.choice([1, 4, 8])))))
        e = r.choice([("impl", 0, 2), ("impl", 0, 10), ("impl", 0, 3), ("t", 2), ("opt", ("t", 2)), ("expl", 0, ("t", 2))])
        out.append(acc(("expr", r.choice(RULES), e, match(g, e, 0, True))))
    for n in (127, 128, 255, 256, 257, 300, 1000, 4096):
        for c in (b"\0" * n, b"\xff" * n, b"\0" * (n - 1) + b"\x05", b"\0" * (n - 8) + b"\x80" + b"\x01" * 7, b"\0" * (n - 4) + b"\xff" * 4, b"\x01" + b"\0" * (n - 1),
                  b"\xff" * (n - 1) + b"\x80", g.bytes(n)):
            if n <= 300 or r.random() < .3:
                out.append(acc(u(2, c)))
        out.append(acc(big_leaf(g, n)))
    return out


def c09(g, k, gen):
    r = g.r
    out = []
    for c in C.int_contents():
        for nk in NUMS:
            if k > 1 or r.random() < .75:
                out.append(expr(r.choice(RULES), (nk,), u(2, c) + r.choice([b"", b"\0"])))
    for _ in range(15000 * k):
        n = r.choice([1, 2, 3, 4, 4, 5, 5, 7, 8, 8, 9, 9, 10])
        c = bytes([r.choice([0, 0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])]) + g.bytes(n - 1)
        e = (r.choice(NUMS),)
        if r.random() < .15:
            e = (r.choice(["seqofv", "setofv"]), e)
            x = tlv(0, 1, 16 if e[0] == "seqofv" else 17, b"".join(u(2, c[:1 + j]) for j in range(r.randrange(4))))
        else:
            x = g.wrap(0, 0, 2, c, 0, .05)
        out.append(expr(r.choice(RULES), e, near(g, x) if r.random() < .2 else x))
    for t in range(31):
        for cls in range(4):
            for con in (0, 1):
                for nk in NUMS:
                    out.append(expr(r.choice(RULES), (nk,), tlv(cls, con, t, b"\x05")))
    for x in pool(g, 2000 * k, gen, 1):
        out.append(expr(r.choice(RULES), (r.choice(NUMS),), x))
    return out


def c10(g, k, gen):
    r = g.r
    out = [bits(p, d) for p, d in C.bit_contents()]
    for _ in range(6000 * k):
        out.append(bits(r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 63, 64, r.randrange(256)]), g.bytes(r.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33]))))
    for p, d in C.bit_contents():
        out.append(acc(u(3, bytes([p]) + d)))
    for n in range(1, 10):
        for bit in range(8 * n):
            b = bytearray(n)
            b[bit // 8] = 0x80 >> bit % 8
            out.append(bits(r.randrange(8), bytes(b)))
            out.append(bits(r.randrange(8), bytes(255 ^ c for c in b)))
    for n in (31, 32, 33, 63, 64, 65, 127, 128, 255, 256, 257, 300):
        out.append(bits(r.randrange(8), g.bytes(n)))
        out.append(bits(r.randrange(8), b"\0" * (n - 1) + b"\x01"))
        out.append(bits(r.randrange(8), b"\x80" + b"\0" * (n - 1)))
    return out


def c11(g, k, gen):
    r = g.r
    out = []
    for kind, t in STR.items():
        ok = {"numeric": b"0", "printable": b"a"}.get(kind, b"a")
        for b in range(256):
            for pre, post in ((b"", b""), (ok, b""), (b"", ok), (ok * 3, ok * 4), (ok * 15, ok), (ok * 7, b""), (ok, ok * 16)):
                x = u(t, pre + bytes([b]) + post)
                if k > 1 or r.random() < .55:
                    out.append(parse(r.choice(RULES), x))
                if r.random() < (.2 if k == 1 else 1):
                    out.append(typed(r.choice(RULES), kind, x))
                    out.append(parse(r.choice(RULES), seq(x)))
                    out.append(expr(r.choice(RULES), ("impl", 0, t), tlv(2, 0, 0, pre + bytes([b]) + post)))
                    out.append(contas(r.choice(RULES), t, len(pre) + 1 + len(post), 0, 50, pre + bytes([b]) + post))
        for n in (0, 1, 2, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256):
            for b in (0, 0x1f, 0x20, 0x7e, 0x7f, 0x80, 0xff, 0x2a, 0x40, 0x30):
                for p in {0, n // 2, max(0, n - 1)}:
                    c = bytearray(ok * n)
                    if n:
                        c[p] = b
                    out.append(parse(r.choice(RULES), u(t, bytes(c))))
        out.append(parse("ber", u(t, b"", con=1)))
        for _ in range(300 * k):
            out.append(typed(r.choice(RULES), kind, u(t, g.content(t))))
            out.append(acc(u(t, g.content(t))))
        for n in (255, 257, 300, 512, 1000, 4096, 65535, 65536):
            for b in (ok[0], 0, 0x7f, 0x80, 0xff, 0x2a):
                for p in {0, n // 2, 255, n - 1, r.randrange(n)}:
                    if p < n and r.random() < (.3 if n < 4000 else .04):
                        c = bytearray(ok * n)
                        c[p] = b
                        out.append(parse(r.choice(RULES), u(t, bytes(c))))
    # well-formed UTF-8 in the types that do not allow it (and where it is text)
    utf = ["\u0080", "\u00a0", "\u00e9", "\u00ff", "\u0100", "\u07ff", "\u0800", "\u20ac", "\ud7ff", "\ue000", "\ufeff", "\uffff", "\U00010000", "\U0001f600", "\U0010ffff"]
    for kind, t in STR.items():
        for ch in utf:
            for pre, post in ((b"", b""), (b"a", b""), (b"", b"1"), (b"A" * 9, b"0" * 9), (b"1" * 31, b"1" * 40)):
                c = pre + ch.encode() + post
                out.append(parse(r.choice(RULES), u(t, c)))
                if r.random() < .3 or k > 1:
                    out.append(typed(r.choice(RULES), kind, u(t, c)))
                    out.append(expr(r.choice(RULES), ("impl", 0, t), tlv(2, 0, 0, c)))
                    out.append(parse(r.choice(RULES), seq(u(t, c))))
                    out.append(tryany(r.choice(RULES), u(t, c)))
    # UTF-8: every two-byte sequence around the boundaries, and the three and four byte limits
    lead = [0x7f, 0x80, 0xbf, 0xc0, 0xc1, 0xc2, 0xdf, 0xe0, 0xe1, 0xec, 0xed, 0xee, 0xef, 0xf0, 0xf1, 0xf3, 0xf4, 0xf5, 0xf7, 0xf8, 0xff]
    cont = [0x00, 0x41, 0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0, 0xff]
    for a in lead:
        for b in cont:
            out.append(parse("ber", u(12, bytes([a, b]))))
            for c in cont:
                out.append(parse("ber", u(12, bytes([a, b, c]))))
                for d in (0x41, 0x7f, 0x80, 0xbf, 0xc0):
                    if k > 1 or r.random() < .4:
                        out.append(parse(r.choice(RULES), u(12, bytes([a, b, c, d]))))
    for a in (0, 0xd7, 0xd8, 0xd9, 0xdb, 0xdc, 0xdd, 0xdf, 0xe0, 0xff):
        out.append(parse("ber", u(30, bytes([a, 0]))))
        for b in (0, 0xd7, 0xd8, 0xdb, 0xdc, 0xdf, 0xe0):
            out.append(parse(r.choice(RULES), u(30, bytes([a, 0x41, b, 0x42]))))
            for c in (0, 0xd8, 0xdc, 0xdf):
                out.append(parse(r.choice(RULES), u(30, bytes([a, 0, b, 0xff, c, 1]))))
                out.append(typed(r.choice(RULES), "bmp", u(30, bytes([a, 0, b, 0xff, c, 1]))))
    return out


def c12(g, k, gen):
    r = g.r
    out = []

    def both(t, c):
        x = u(t, c)
        m = r.randrange(5)
        ru = r.choice(RULES)
        out.append(parse(ru, x) if m < 2 else typed(ru, "gentime" if t == 24 else "utctime", x) if m == 2 else
                   expr(ru, ("impl", 1, t), tlv(2, 0, 1, c)) if m == 3 else parse(ru, seq(x)))
    for t in (23, 24):
        base = b"20250102030405" if t == 24 else b"250102030405"
        off = 4 if t == 24 else 2
        # every two-digit value of every field
        for f in range(0, len(base), 2):
            for v in range(100):
                for z in (b"Z", b"+0130") if r.random() < .5 or k > 1 else (b"Z",):
                    both(t, base[:f] + b"%02d" % v + base[f + 2:] + z)
        # every byte at every position
        full = base + b"Z"
        for p in range(len(full)):
            for b in range(256) if k > 1 else r.sample(range(256), 90):
                both(t, full[:p] + bytes([b]) + full[p + 1:])
        for p in range(len(full) + 1):
            both(t, full[:p])
            both(t, full[:p] + b"Z")
            both(t, full[:p] + b"0" + full[p:])
            both(t, full[:p] + full[p + 1:])
        # zones
        for s in (b"+", b"-"):
            for h in (0, 1, 9, 10, 11, 12, 13, 14, 23, 24, 59, 60, 99):
                for m in (0, 1, 30, 45, 59, 60, 99):
                    both(t, base + s + b"%02d%02d" % (h, m))
                    both(t, base[:-2] + s + b"%02d%02d" % (h, m))
        for z in (b"", b"z", b"Z0", b"ZZ", b"+", b"+0", b"+00", b"+000", b"+00000", b"+0000Z", b"*0000", b"+0a00", b"+00a0", b" Z", b"Z\0"):
            both(t, base + z)
            both(t, base[:-2] + z)
            both(t, base + b".5" + z)
        for fr in [b"." + b"1" * n for n in range(0, 7)] + [b"," + b"9" * n for n in range(0, 6)] + [b".0", b".00", b".000", b".001", b".010", b".100", b".999", b".0001", b".a", b".1a", b"..1", b".-1", b".05", b".5", b".50", b".500"]:
            for z in (b"Z", b"", b"+0100", b"-0030"):
                both(t, base + fr + z)
                both(t, base[:-2] + fr + z)
        for _ in range(9000 * k):
            both(t, g.time(t == 24))
    # contents of other lengths
    for n in range(0, 40):
        for b in (b"0", b"1", b"Z", b"9"):
            both(23, b * n)
            both(24, b * n)
    return out


# ------------------------------------------------------------------------------------------
# objects built by constructors

def bobj(g, d, simple=False):
    r = g.r
    k = r.randrange(27 if not simple else 21)
    asc = lambda: bytes(r.choice(b"azAZ09 ") for _ in range(r.randrange(6)))
    if d > 0 and r.random() < .45:
        n = r.choice([0, 1, 2, 3])
        return (r.choice(["seq", "set", "fromseq", "fromset"]),) + tuple(bobj(g, d - 1, simple) for _ in range(n))
    tm = lambda gen: (r.choice([0, 25, 49, 50, 99] if not gen else [0, 1970, 2025, 9999]), r.randint(1, 12), r.randint(1, 31), r.randrange(24), r.randrange(60),
                      r.randrange(60), r.choice([-1, -1, 0, 5, 50, 120, 999]) if gen else -1) + r.choice([(1, 0, 0), (1, 0, 0), (2, 1, 30), (2, -5, 0), (2, 0, 0), (2, 12, 59)] + ([(0, 0, 0)] if gen else []))
    return [
        lambda: ("null",), lambda: ("eoc",), lambda: ("bool", r.randrange(2)), lambda: ("int", bytes([r.choice([0, 1, 127, 128, 255])]) + g.bytes(r.randrange(9))),
        lambda: ("octets", g.bytes(g.small())), lambda: ("bits", r.choice([0, 0, 1, 3, 7]), g.bytes(r.randrange(5))),
        lambda: ("enum", r.choice([b"", b"\x01", b"\x7f", b"\x80", b"\xff", b"\x01\0", b"\xff\xff\xff\xff"])),
        lambda: ("oid", b"\x2a" + bytes(r.choice([1, 0x7f, 3]) for _ in range(r.randrange(4)))), lambda: ("reloid", b"\x81\x01\x03"),
        lambda: ("numeric", b"0 9"[:r.randrange(4)]), lambda: ("visible", asc()), lambda: ("printable", asc()), lambda: ("ia5", asc()),
        lambda: ("utf8", "aé€😀"[:r.randrange(5)].encode()), lambda: ("t61", asc()), lambda: ("videotex", asc()), lambda: ("objdesc", asc()),
        lambda: ("graphic", asc()), lambda: ("general", asc()), lambda: ("bmp", b"\0a" * r.randrange(3)), lambda: ("universal", b"\0\0\0a" * r.randrange(3)),
        lambda: ("utctime",) + tm(False), lambda: ("gentime",) + tm(True),
        lambda: ("intslice", g.bytes(r.choice([1, 2, 8, 9]))),
        lambda: ("unknown", r.randrange(4), r.randrange(2), g.tag(), g.bytes(g.small())),
        lambda: ("hdr", r.choice([1, 2, 3]), r.randrange(2), g.tag(), ("unknown", 2, 1, 5, g.bytes(g.small()))),
        lambda: ("fromoid", b"\x2a\x03"),
    ][k]()


def wobj(g, d):
    """with OPTIONAL and Tagged wrappers"""
    r = g.r
    k = r.random()
    if k < .15:
        o = bobj(g, d)
        if r.random() < .3:   # contents under a header that is not theirs
            o = ("hdr", r.choice([0, 1, 2, 3]), r.randrange(2), g.tag(), o if o[0] != "hdr" else o[4])
        return ("some", o)
    if k < .2:
        return ("none",)
    if k < .4:
        return ("tagged", r.randrange(4), r.choice([0, 1, 5, 30, 31, 300]), bobj(g, d))
    if k < .5:
        return ("seq",) + tuple(wobj(g, d - 1) if d > 0 else bobj(g, 0) for _ in range(r.randrange(3)))
    return bobj(g, d)


def big_objects():
    """contents lengths around the changes of the length form"""
    for n in (0, 1, 2, 125, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 1000, 65533, 65535, 65536):
        yield ("octets", b"\x5a" * n)
        if n > 60000:
            yield ("set", ("null",), ("octets", b"\x5b" * (n - 6)))
            yield ("tagged", 2, 1, ("utf8", b"u" * n))
        if n <= 1000:
            yield ("seq",) + (("null",),) * n
            yield ("tagged", 1, 5, ("set",) + (("int", b"\x05"),) * n)
            yield ("seq", ("octets", b"\x5a" * n))
            yield ("set", ("bits", 0, b"\x5a" * n), ("null",))
            yield ("unknown", 2, 0, 5, b"\x5a" * n)
            yield ("utf8", b"a" * n)


def enc_suite(g, k, gen):
    r = g.r
    ct = lambda: (r.choice([1, 2, 2, 3]), r.choice([0, 1, 5, 29, 30, 31, 32, 127, 128, 129, 16383, 16384, 65535]))
    out = []
    for x in valid_pool(g, 7000 * k, gen, 3):
        out.append(enc(*ct(), x))
    for x in (gen if len(gen) < 1500 * k else r.sample(gen, 1500 * k)):
        out.append(enc(*ct(), x))
    for x in C.leaf_grid(cons=(0, 1)):
        if k > 1 or r.random() < .12:
            out.append(enc(*ct(), x))
    for t in range(31):
        for _ in range(50 * k):
            out.append(enc(*ct(), tlv(0, 1 if t in (16, 17) else 0, t, g.content(t) if t not in (16, 17) else g.leaf())))
    for _ in range(4000 * k):
        out.append(enc(*ct(), ("build", bobj(g, 2))))
    for _ in range(1500 * k):
        out.append(enc(*ct(), ("build", wobj(g, 2))))
    for cls in range(4):
        for con in (0, 1):
            for tag in (0, 1, 15, 16, 29, 30, 31, 32, 126, 127, 128, 129, 16383, 16384, 2 ** 21 - 1, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 32 - 1):
                if cls == 0 and tag < 31:
                    continue
                out.append(enc(*ct(), tlv(cls, con, tag, u(5) if con else b"\x01")))
                out.append(enc(*ct(), seq(tlv(cls, con, tag, b""))))
    for e in big_objects():
        out.append(enc(*ct(), ("build", e)))
    for n in C.big_lengths(1100 if k == 1 else 66000):
        out.append(enc(2, 1, u(4, b"\x01" * n)))
        out.append(enc(2, 1, seq(u(4, b"\x01" * n), u(5))))
        out.append(enc(2, 1, u(16, members(n), form="indef")))
    for v in list(range(0, 300)) + [2 ** j + d for j in (15, 16, 23, 24, 31) for d in (-1, 0, 1)] + [2 ** 32 - 1]:
        b = v.to_bytes(8, "big").lstrip(b"\0")
        out.append(enc(*ct(), ("build", ("enum", b))))
        out.append(enc(*ct(), u(10, b or b"\0")))
    for t in (23, 24):
        for _ in range(1500 * k):
            out.append(enc(*ct(), u(t, g.time(t == 24, True))))
    for ru, e, x in exprs(g, 1500 * k, 2, obj=True):
        if ru == "ber":
            out.append(enc(*ct(), ("expr", "ber", e, x)))
    return out


def c13(g, k, gen):
    return enc_suite(g, k, gen)


def c14(g, k, gen):
    r = g.r
    out = enc_suite(g, k, gen)
    tags = list(range(0, 40)) + [126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 2 ** 21 - 1, 2 ** 21, 2 ** 21 + 1, 2 ** 28 - 1, 2 ** 28, 2 ** 31, 2 ** 32 - 1]
    lens = [None, 0, 1, 126, 127, 128, 129, 255, 256, 65535, 65536, 2 ** 24 - 1, 2 ** 24, 2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 56 - 1, 2 ** 56, 2 ** 63, 2 ** 64 - 1]
    for cls in range(4):
        for con in (0, 1):
            for t in tags:
                for l in lens:
                    if k > 1 or r.random() < .6:
                        out.append(enchdr(cls, con, t, l))
    for _ in range(1000 * k):
        out.append(enchdr(r.randrange(4), r.randrange(2), r.getrandbits(r.randint(1, 32)), r.getrandbits(r.randint(1, 64))))
    return out


def comb(g, k, gen, only, extra=()):
    r = g.r
    out = []
    for d in (1, 2, 3):
        for ru, e, x in exprs(g, 12000 * k, d, only):
            out.append(expr(ru, e, x))
    for e in extra:
        for _ in range(60 * k):
            out.append(expr(r.choice(RULES), e, near(g, match(g, e))))
        for x in (gen if len(gen) < 60 * k else r.sample(gen, 60 * k)):
            out.append(expr(r.choice(RULES), e, x))
    return out


DEPTHS = [0, 1, 2, 3, 4, 6, 8, 10, 12, 14, 16, 20, 24, 30, 40, 45, 46, 47, 48, 49, 50, 51, 52, 55]


def deep_under(g, ops, n):
    """a combinator applied to a deeply nested element, alone or next to others, at every position"""
    r = g.r
    A = ("any",)
    out = []
    for _ in range(n):
        ks, d = r.choice(DEEP_KINDS), r.choice(DEPTHS)
        x = C.chain([ks[j % len(ks)] for j in range(d)], r.choice([b"", b"\x05\0", b"\x02\x01\x07"]))
        o = r.choice(ops)
        form = r.choice(["min", "min", "indef", 2])
        before, after = [u(5)] * r.choice([0, 0, 1, 3]), [u(5)] * r.choice([0, 0, 1])
        body = b"".join(before) + x + b"".join(after)
        if o in ("seqof", "seqofv"):
            e, y = (o, A), u(16, body, form=form)
        elif o in ("setof", "setofv"):
            e, y = (o, A), u(17, body, form=form)
        elif o in ("seqdef", "seqdefg", "setdef", "setdefg", "cont"):
            e = (o,) + (A,) * (len(before) + (1 if x else 0) + r.choice([len(after), len(after), 0]))
            e = e if len(e) > 1 else (o, ("opt", A))
            if r.random() < .3:
                e = e[:-1] + (("opt", e[-1]) if e[-1][0] == "any" else e[-1],)
            y = tlv(0, 1, 17 if o.startswith("set") else 16, body, form) if o != "cont" or r.random() < .5 else tlv(r.randrange(4), 1, r.randrange(20), body, form)
        elif o in ("expl", "explg", "explopt"):
            e, y = (o, 1, A), tlv(2, 1, 1, x, form)
        elif o in ("impl", "implg", "implold"):
            t = r.choice([16, 17])
            e, y = (o, 1, t), tlv(2, 1, 1, body, form)
        else:
            e, y = ("opt", A), x
        ru = r.choice(RULES) if form == "min" and all(f[2] == "min" for f in ks) else r.choice(("ber", "ber", "ber", "der"))
        q = r.random()
        if q < .3:
            y = u(16, y, form=r.choice(["min", "indef"]) if ru == "ber" else "min")
            e = ("seqdefg" if e[0].endswith("g") else "seqdef", e) if e[0] not in ("seqofv", "setofv", "cont") else ("seqofv", e)
        out.append(expr(ru, e, y + r.choice([b"", b"\x05\0"]) if r.random() < .85 else y[:-r.randrange(1, 4)]))
    return out


def c15(g, k, gen):
    r = g.r
    ops = ("seqof", "setof", "seqofv", "setofv")
    inner = [("any",), ("t", 2), ("t", 16), ("u32",), ("i64",), ("slice", 4), ("seqofv", ("u32",)), ("opt", ("t", 2)), ("expl", 0, ("any",)),
             ("impl", 0, 2), ("seqdef", ("t", 2)), ("nothing",), ("failure",)]
    objs = {"any", "t", "opt", "expl", "impl", "seqdef", "nothing", "failure"}
    extra = [(o, i) for o in ops for i in inner if o.endswith("v") or i[0] in objs]
    out = comb(g, k, gen, ops, extra)
    # positions of a bad element, counts, truncations, wrong outer tag
    for o in ops:
        tag = 16 if o.startswith("seq") else 17
        for n in (0, 1, 2, 3, 5, 50, 127, 128, 300):
            good = [u(2, bytes([j & 127])) for j in range(n)]
            for e in [("t", 2), ("any",)] + ([("u32",)] if o.endswith("v") else []):
                for form in ("min", "indef", 2):
                    for ru in RULES:
                        out.append(expr(ru, (o, e), u(tag, b"".join(good), form=form) + b"\x05\0"))
                        for bad in (u(4, b"x"), b"\x02", b"\x02\x05", b"\0\0", b"\x02\0", b"\x1f", u(1, b"\x05"), b"\x02\x80"):
                            if n in (1, 2, 3):
                                for p in range(n + 1):
                                    if k > 1 or r.random() < .4:
                                        out.append(expr(ru, (o, e), u(tag, b"".join(good[:p]) + bad + b"".join(good[p:]), form=form)))
        for b0 in range(256):
            for e in (("any",), ("t", 2)):
                out.append(expr(r.choice(RULES), (o, e), bytes([b0]) + b"\x03\x02\x01\x07" if b0 & 31 != 31 else bytes([b0, 1, 3, 2, 1, 7])))
    return out + deep_under(g, ops, 2000 * k) + big_calls(g, ops, 100 * k)


def c16(g, k, gen):
    r = g.r
    ops = ("seqdef", "setdef", "seqdefg", "setdefg", "cont")
    lists = [(("any",),), (("t", 2), ("t", 4)), (("t", 2), ("opt", ("t", 4)), ("t", 1)), (("any",), ("any",), ("any",)), (("opt", ("t", 2)),),
             (("expl", 0, ("t", 2)), ("impl", 1, 4)), (("seqdef", ("t", 2)), ("setof", ("any",))), (("t", 2), ("failure",))]
    extra = [(o,) + l for o in ops for l in lists]
    out = comb(g, k, gen, ops, extra)
    for o in ops:
        for b0 in range(256):
            for l in ((("t", 2),), (("any",), ("opt", ("any",)))):
                hd = bytes([b0]) if b0 & 31 != 31 else bytes([b0, 1])
                for body in (b"\x02\x01\x07", b"\x02\x01\x07\x05\0", b"\x02\x02\x07", b""):
                    if k > 1 or r.random() < .5:
                        out.append(expr(r.choice(RULES), (o,) + l, hd + bytes([len(body)]) + body + b"\x05\0"))
                out.append(expr("ber", (o,) + l, hd + b"\x80\x02\x01\x07\0\0\x05\0"))
    return out + deep_under(g, ops, 3000 * k) + big_calls(g, ops, 150 * k)


def c17(g, k, gen):
    r = g.r
    ops = ("expl", "explg", "impl", "implg", "implold")
    extra = []
    for t in (0, 1, 2, 16, 30, 31, 127, 128, 1000):
        extra += [("expl", t, ("any",)), ("explg", t, ("t", 2))]
        extra += [(o, t, n) for o in ("impl", "implg", "implold") for n in (1, 2, 3, 4, 5, 6, 10, 12, 16, 17, 19, 23, 24, 30)]
    out = comb(g, k, gen, ops, extra if k > 1 else r.sample(extra, 60))
    for cls in range(4):
        for con in (0, 1):
            for tag in (0, 1, 2, 3, 30, 31):
                for want in (0, 1, 2, 3, 30, 31):
                    if want != tag and r.random() < .6:
                        continue
                    for form in ("min", "indef", 2):
                        for ru in RULES:
                            for c in (u(2, b"\x05"), b"", u(2, b"\x05") + u(5), b"\x02\x02\x05", u(16, u(2, b"\x05"))):
                                x = tlv(cls, con, tag, c, form)
                                for e in (("expl", want, ("t", 2)), ("expl", want, ("any",)), ("explg", want, ("any",)), ("impl", want, 4),
                                          ("implg", want, 16), ("implold", want, 2), ("impl", want, 3)):
                                    if k > 1 or r.random() < .35:
                                        out.append(expr(ru, e, x + b"\x05\0"))
    return out + deep_under(g, ops, 2000 * k) + big_calls(g, ops, 120 * k)


def c18(g, k, gen):
    r = g.r
    ops = ("opt", "explopt")
    inner = [("any",), ("t", 2), ("t", 1), ("ty", "bool"), ("seqof", ("t", 2)), ("expl", 0, ("t", 2)), ("impl", 0, 2), ("failure",), ("opt", ("t", 2)), ("seqdef", ("t", 2), ("t", 1))]
    extra = [("opt", i) for i in inner] * 3 + [("explopt", t, i) for t in (0, 1, 31) for i in inner]
    out = comb(g, k, gen, ops, extra)
    for t in range(31):
        for i in range(31):
            x = u(i, g.content(i))
            for e in (("opt", ("t", t)), ("explopt", 0, ("t", t))):
                if t == i or r.random() < .2:
                    out.append(expr(r.choice(RULES), e, x))
                    out.append(expr(r.choice(RULES), e, tlv(2, 1, 0, x) + b"\x05\0"))
                    out.append(expr(r.choice(RULES), e, x[:-1]))
            if r.random() < .3 or t == i:
                out.append(expr(r.choice(RULES), ("seqdef", ("opt", ("t", t)), ("opt", ("any",))), seq(x)))
                out.append(expr(r.choice(RULES), ("seqdef", ("opt", ("t", t)), ("any",)), seq(x, u(5))))
    for x in (b"", b"\x02", b"\x02\x01", b"\x1f", b"\x02\x81", b"\xa0", b"\xa0\x80", b"\xa0\x80\x02\x01\x05", b"\xa0\x03\x02\x01", b"\xa0\0", b"\x80\0", b"\xa0\x03\x02\x01\x05"):
        for e in extra:
            for ru in RULES:
                out.append(expr(ru, e, x))
    return out + deep_under(g, ops, 1500 * k) + big_calls(g, ops, 100 * k)


def c19(g, k, gen):
    r = g.r
    out = []
    for t in TYPES + ["visibleold"]:
        tn = 26 if t == "visibleold" else KIND_TAG[t]
        e = ("ty", t)
        for i in list(range(32)):
            for cls in range(4):
                for con in (0, 1):
                    if i == tn or r.random() < .12 * min(k, 8):
                        c = g.content(tn) if tn not in (16, 17) else b"".join(g.der_leaf() for _ in range(r.randrange(3)))
                        for ru in RULES:
                            out.append(expr(ru, e, tlv(cls, con, i, c)))
                            out.append(expr(ru, ("t", tn), tlv(cls, con, i, c)))
        for _ in range(400 * k):
            out.append(expr(r.choice(RULES), e, near(g, match(g, e))))
        for x in ([b"", b"\x1f", b"\x80", bytes([tn])] + [bytes([tn, n]) for n in (0, 1, 127, 128, 129, 255)] + [bytes([tn | 32, 128, 0, 0])] +
                  [C.ident(0, 0, tn, p) + b"\0" for p in (1, 2)] + [C.ident(0, 0, tn + 128) + b"\0", C.ident(0, 0, tn + 2 ** 16) + b"\0", C.ident(0, 0, tn + 2 ** 8) + b"\0"]):
            for ru in RULES:
                out.append(expr(ru, e, x))
        for v in (0, 1, 0x7f, 0x80, 0xff):
            for n in (0, 1, 2, 3):
                for ru in RULES:
                    out.append(expr(ru, e, u(tn, bytes([v]) * n)))
        for n in (126, 127, 128, 255, 256, 300):
            for ru in RULES:
                out.append(expr(ru, e, u(tn, (members(n) if tn in (16, 17) else b"0" * n)) + b"zz"))
        for n in (257, 511, 1000, 4096, 65535, 65536):
            if n < 1000 or r.random() < .3 and tn not in (16, 17):
                x = u(tn, (members(n) if tn in (16, 17) else b"0" * n)) + b"zz"
                out.append(expr(r.choice(RULES), e, x if r.random() < .7 else x[:-3]))
    for x in (gen if len(gen) < 1000 * k else r.sample(gen, 1000 * k)):
        m = [t for t in TYPES if x and KIND_TAG[t] == x[0] & 31]
        if m:
            for ru in RULES:
                out.append(expr(ru, ("ty", m[0]), x))
    for tag in (8, 9, 11, 14, 15, 29, 31, 32, 128, 255, 256, 258, 65535, 65538, 2 ** 32 - 1):
        for t2 in (tag, tag & 255, 2):
            for ru in RULES:
                out.append(withtag(ru, tag, tlv(0, 0, t2, b"ab")))
    return out


def objects(g, k, gen, n):
    """sources of objects for accessors, iterators, visitors, printing"""
    r = g.r
    out = list(valid_pool(g, n, gen, 3))
    out += gen if len(gen) < n // 3 else r.sample(gen, n // 3)
    for t in range(31):
        for _ in range(12 * k):
            c = g.content(t) if t not in (16, 17) else b"".join(g.leaf() for _ in range(r.randrange(4)))
            out.append(tlv(0, 1 if t in (16, 17) else 0, t, c))
    for ks, d, x in chains([1, 2, 5, 20, 49]):
        out.append(x)
    out += bigs(g, 4096)
    for m in (0, 1, 2, 3, 10, 100, 200):
        out.append(seq(*[g.der_leaf() for _ in range(m)]))
        out.append(set_(*[u(2, bytes([j & 127])) for j in range(m)]))
    for cls in (0, 1, 2, 3):
        for tag in (0, 1, 30, 31, 32, 39, 40, 128, 2 ** 28, 2 ** 32 - 1):
            for con in (0, 1):
                out.append(tlv(cls, con, tag, b"" if con else b"\0"))
    out += [("build", bobj(g, 2)) for _ in range(n // 4)]
    out += [("build", wobj(g, 2)) for _ in range(n // 4)]
    return out


def c20(g, k, gen):
    r = g.r
    out = [walk(r.choice([0, 1, 2, 7, 100]), s) for s in objects(g, k, gen, 6000 * k)]
    for ru, e, x in exprs(g, 2500 * k, 2, obj=True):
        if ru == "ber":
            out.append(walk(r.choice([0, 1, 3]), ("expr", "ber", e, x)))
    return out


def c21(g, k, gen):
    r = g.r
    out = []
    for s in objects(g, k, gen, 4000 * k):
        out.append(iterate(s))
        m = r.randrange(1, 14)
        out.append(itops("".join(r.choice("aaabbiiirRAIdDhH") for _ in range(m)), s))
        out.append(acc(s))
    for ru, e, x in exprs(g, 1500 * k, 2, obj=True):
        out.append(acc(("expr", ru, e, x)))
    return out


def c22(g, k, gen):
    r = g.r
    out = []
    for s in objects(g, k, gen, 5000 * k):
        fl = "".join(r.choice("rRhHrRhHn") for _ in range(r.choice([0, 1, 1, 2, 3, 5]))) or "-"
        out.append(pretty(r.choice([0, 0, 1, 2, 4, 7]), r.choice([0, 1, 2, 4]), fl, s))
    for t in (12, 30, 28, 6, 13, 23, 24, 3, 10):
        for _ in range(200 * k):
            out.append(pretty(0, 2, r.choice(["-", "h"]), u(t, g.content(t))))
    for t in (6, 13):   # sub-identifiers around 64 bits, terminated or not, in every position
        for n in (1, 2, 7, 8, 9, 10, 11, 12, 17, 20):
            for first in (0x80, 0x81, 0x82, 0xc0, 0xfe, 0xff):
                for fill in (0x80, 0xff, 0xaa):
                    arc = bytes([first] + [fill] * (n - 1))
                    for pre in (b"", b"\x2a", b"\x2a\x03", b"\x88\x37"):
                        for post in (b"", b"\0", b"\x7f", b"\x01\x05", b"\x05\x81"):
                            if k > 1 or r.random() < .2:
                                out.append(pretty(0, 2, "-", u(t, pre + arc + post)))
    for ks, d, x in chains([1, 2, 3, 10, 40]):
        for fl in ("-", "h", "R", "Rh", "hR", "rhH", "n", "hnn"):
            out.append(pretty(r.choice([0, 3]), r.choice([0, 2, 5]), fl, x))
    # wide indentations: 8, 16 and more bits, reached at once or by nesting
    for n in (79, 80, 127, 128, 255, 256, 257, 1000, 4096, 32768, 65534, 65535, 65536, 70000):
        for fl, x in (("-", bytes.fromhex("0500")), ("n", bytes.fromhex("3000")), ("h", bytes.fromhex("30030101ff"))):
            if n <= 4096 or fl == "n":
                out.append(pretty(n, 1, fl, x))
                out.append(pretty(0, n, fl, x))
            else:
                out.append(pretty(n, 1, fl, x))
    return out


def c24(g, k, gen):
    r = g.r
    out = []
    for x in pool(g, 12000 * k, gen, 3):
        out.append(tryany(r.choice(RULES), x))
    for x in C.leaf_grid():
        if k > 1 or r.random() < .35:
            out.append(tryany(r.choice(RULES), x))
    for x in C.leaf_grid(cls=(1, 2, 3), maxlen=2):
        if k > 1 or r.random() < .04:
            out.append(tryany(r.choice(RULES), x))
    for ks, d, x in chains([1, 2, 10, 48, 49, 50, 51, 52]):
        out.append(tryany("ber", x))
        out.append(tryany("der", x))
    for _ in range(3000 * k):
        out.append(tryany(r.choice(RULES), g.tree(3, .5)))
    for n in C.big_lengths(1100 if k == 1 else 66000):
        out.append(tryany(r.choice(RULES), u(4, b"\x01" * n)))
        out.append(tryany(r.choice(RULES), u(16, members(n))))
    for x in bigs(g):
        out.append(tryany(r.choice(RULES), x))
    return out


def c25(g, k, gen):
    r = g.r
    out = []
    for h in C.headers():
        x = h + r.choice([b"", b"", b"\0", b"\x05\0", b"abc"])
        out.append(header(r.choice(RULES), x))
        if k > 1 or r.random() < .25:
            out.append(header(r.choice(RULES), x))
            out.append(anyel(x))
    for x in C.exhaustive([0, 1, 0x1f, 0x30, 0x3f, 0x7f, 0x80, 0x81, 0x82, 0x84, 0x9f, 0xff], 4 if k > 1 else 3):
        for ru in RULES:
            out.append(header(ru, x))
    for a in range(256):
        for b in (range(256) if k > 1 else [r.randrange(256) for _ in range(24)]):
            out.append(header(r.choice(RULES), bytes([a, b]) + g.bytes(r.randrange(3))))
    for n in range(0, 127):
        for v in (0, 1, 127, 128, 255, 256, 65536, 2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64):
            if n and v < 256 ** n:
                out.append(header(r.choice(RULES), b"\x30" + bytes([128 + n]) + v.to_bytes(n, "big")))
                if r.random() < .3:
                    out.append(header("ber", b"\x30" + bytes([128 + n]) + v.to_bytes(n, "big")[:-1]))
    for _ in range(8000 * k):
        t = r.getrandbits(r.randint(1, 36))
        x = C.ident(r.randrange(4), r.randrange(2), t, r.choice([0, 0, 0, 1, 2])) + C.length(r.getrandbits(r.randint(0, 64)), "min")
        x = x if r.random() < .8 else x[:r.randrange(len(x))]
        out.append(header(r.choice(RULES), x + g.bytes(r.randrange(2))))
    return out


def c26(g, k, gen):
    r = g.r
    out = []
    for _ in range(6000 * k):
        ru = r.choice(RULES)
        n = r.choice([1, 1, 2, 2, 3, 4])
        x = b"".join(g.der_tree(2) if ru == "der" or r.random() < .4 else g.tree(2) for _ in range(n))
        if len(x) > 160:
            x = x[:160]
        if r.random() < .15:
            x = g.mutate(x)
        m = r.randrange(5)
        if m == 0:
            ch = [1] * len(x)
        elif m == 1:
            a = r.randint(1, 5)
            ch = [a] * (len(x) // a + 1)
        elif m == 2:
            ch = [len(x)]
        else:
            ch, left = [], len(x)
            while left > 0:
                c = r.choice([0, 1, 1, 2, 3, 5, 8, 20])
                ch.append(min(c, left))
                left -= c
        if not ch:
            ch = [0]
        out.append(stream(ru, ch, x))
    # every split point in two chunks
    for _ in range(250 * k):
        ru = r.choice(RULES)
        x = (g.der_tree(2) + g.der_leaf()) if ru == "der" else g.tree(2) + g.leaf()
        if len(x) <= 60:
            for j in range(len(x) + 1):
                out.append(stream(ru, [j, len(x) - j], x))
    for x in (gen if len(gen) < 800 * k else r.sample(gen, 800 * k)):
        ru = r.choice(RULES)
        out.append(stream(ru, [1] * (2 * len(x) or 1), x + x))
    for x in bigs(g, 4096):
        ru = r.choice(RULES)
        x += r.choice([b"", u(5), u(2, b"\x05")])
        ch, left = [], len(x)
        while left > 0:
            ch.append(min(left, r.choice([1, 2, 3, 4, 127, 128, 255, 256, 300, len(x)])))
            left -= ch[-1]
            if len(ch) > 12:
                ch.append(left)
                break
        out.append(stream(ru, ch, x))
    return out


PARSE_OP = re.compile(r'"op":"(parse|tag|tagr|expr|hdr|any|contas|cont)"')


def borrow(g, suites, n, gen, big=4000):
    """a sample of the parse calls of other suites"""
    out = []
    for f in suites:
        l = [q for q in f(C.Gen(g.r.randrange(1 << 30)), 1, gen) if len(q.x) < big and PARSE_OP.search(q.rec)]
        out += g.r.sample(l, min(n, len(l)))
    return out


def c27(g, k, gen):
    """error classification"""
    r = g.r
    out = []
    for x in pool(g, 14000 * k, gen, 3):
        out.append(parse(r.choice(RULES), x, r.choice([None, None, 1, 2])))
        out.append(withtag(r.choice(RULES), x[0] & 31 if x and r.random() < .6 else r.randrange(31), x))
    for ru, e, x in exprs(g, 10000 * k, 2):
        out.append(expr(ru, e, x))
    for c in C.int_contents():
        if k > 1 or r.random() < .3:
            out.append(acc(u(2, c)))
            out.append(expr(r.choice(RULES), (r.choice(NUMS),), u(2, c)))
    for p, d in C.bit_contents():
        if k > 1 or r.random() < .3:
            out.append(acc(u(3, bytes([p]) + d)))
            out.append(bits(p, d))
    for _ in range(600 * k):
        out.append(bits(r.choice([0, 1, 7, 8, 9, 64, 255]), g.bytes(r.choice([0, 1, 3, 4, 5, 8, 9, 10]))))
        out.append(acc(u(10, g.content(10))))
    for t in range(31):
        for _ in range(15 * k):
            out.append(acc(u(t, g.content(t) if t not in (16, 17) else g.leaf())))
    for _ in range(400 * k):
        out.append(acc(("build", bobj(g, 1))))
    for x in pool(g, 3000 * k, gen, 3):
        out.append(tryany(r.choice(RULES), x))
    for ks, d, x in chains([48, 49, 50, 51, 52]):
        out.append(tryany("ber", x))
    for x in bigs(g):
        out.append(parse(r.choice(RULES), cut(g, x)))
    for ru, e, x in big_exprs(g, ("seqof", "setof", "seqdef", "setdefg", "expl", "explopt", "impl", "opt", "seqofv", "cont"), 100 * k):
        out.append(expr(ru, e, cut(g, x)))
    return out + borrow(g, (c03, c04, c06, c06, c09, c11, c12, c15, c16, c17, c18, c19, c25), 2500 * k, gen)


class Labels:
    def __init__(self):
        self.n = 0

    def __call__(self):
        self.n += 1
        return self.n


def uexpr(g, d, lab, obj=False, mine=True):
    """an expression with user parsers in it"""
    r = g.r
    sub = lambda o=obj: uexpr(g, d - 1, lab, o, mine)
    leafs = [lambda: ("note", lab(), ("any",))] * 3 + [lambda: ("note", lab(), ("t", r.choice([1, 2, 4, 5, 16])))] + \
            [lambda: ("ufail", lab(), r.choice(["err", "fail", "inc"]), r.randrange(1, 10))]
    if not obj:
        leafs += [lambda: ("utake", lab(), r.choice([1, 1, 2, 3, 5]))] * 2 + \
                 [lambda: ("ucount", lab(), r.choice([1, 2, 3]), r.choice([0, 1, 2, 3, 5, 20]), r.randrange(1, 10))] * 2 + \
                 [lambda: ("note", lab(), (r.choice(NUMS),)), lambda: ("note", lab(), ("slice", r.choice([2, 4, 16])))]
    if d <= 0 or r.random() < .12:
        return r.choice(leafs)()
    k = r.randrange(8 if obj else 16)
    if k in (0, 1):
        return (r.choice(["seqof", "setof"]), sub(True))
    if k in (2, 3):
        return (r.choice(["seqdef", "setdef"]),) + tuple(sub(True) for _ in range(r.choice([1, 2, 3])))
    if k == 4:
        return ("expl", r.choice([0, 1, 31]), sub(True))
    if k == 5:
        return ("opt", sub(True))
    if k in (6, 7):
        return ("note", lab(), sub(obj))
    if k in (8, 9, 10):
        return (r.choice(["seqofv", "setofv"]), sub())
    l = lab()
    if k in (11, 12, 13):
        return (r.choice(["seqdefg", "setdefg", "cont"]), l) + tuple(sub() for _ in range(r.choice([0, 1, 2, 3])))
    return (("explg" if k == 14 else "implg"), l, r.choice([0, 2, 31, 200])) + tuple(sub() for _ in range(r.choice([0, 1, 1, 2])))


def umatch(g, e, der):
    """octets a user expression should like"""
    r = g.r
    op = e[0]
    wrap = lambda cls, con, tag, c: g.wrap(cls, con, tag, c, 0 if der else .2, .03)
    if op in ("utake", "ucount"):
        return g.bytes(e[2]) if r.random() < .5 else b"\x05\0" * 3
    if op == "ufail":
        return g.der_leaf() if r.random() < .5 else b""
    if op == "note":
        return umatch(g, e[2], der)
    if op in ("seqof", "setof", "seqofv", "setofv"):
        n = r.choice([0, 1, 2, 3, 3, 5, 9])
        c = b"".join(umatch(g, e[1], der) for _ in range(n))
        return wrap(0, 1, 16 if op.startswith("seq") else 17, c)
    if op in ("seqdef", "setdef", "seqdefg", "setdefg", "cont"):
        c = b"".join(umatch(g, a, der) for a in (e[1:] if op in ("seqdef", "setdef") else e[2:]))
        if r.random() < .25:
            c += g.der_leaf()
        if op == "cont":
            return wrap(r.randrange(4), r.choice([1, 1, 0]), r.choice([0, 2, 4, 16, 17, 40]), c)
        return wrap(0, 1, 16 if op.startswith("seq") else 17, c)
    if op == "expl":
        return wrap(r.choice([2, 2, 1, 3]), 1, e[1], umatch(g, e[2], der))
    if op in ("explg", "implg"):
        c = b"".join(umatch(g, a, der) for a in e[3:]) + (g.der_leaf() if r.random() < .2 else b"")
        return wrap(r.choice([2, 2, 1, 3]), 1 if op == "explg" else r.randrange(2), e[2], c)
    if op == "opt":
        return umatch(g, e[1], der) if r.random() < .75 else b""
    return match(g, e, der=der)


def c29(g, k, gen):
    """parsers supplied by the user"""
    r = g.r
    out = []
    n = 0
    while n < 16000 * k:
        e = uexpr(g, r.choice([1, 1, 2, 2, 3]), Labels())
        for _ in range(4):
            n += 1
            ru = r.choice(RULES)
            der = ru == "der" and r.random() < .85
            t = r.choice([1, 1, 2, 3, 5])
            x = b"".join(umatch(g, e, der) for _ in range(r.choice([1, t, t])))
            if r.random() < .35:
                x = near(g, x)
            out.append(user(ru, r.choice(["lib", "mine"]), t, e, x))
    fixed = [("seqofv", ("utake", 1, 1)), ("seqofv", ("utake", 1, 3)), ("setofv", ("ucount", 1, 2, 3, 7)), ("seqofv", ("note", 1, ("any",))),
             ("seqof", ("note", 1, ("any",))), ("seqofv", ("seqdefg", 1, ("note", 2, ("any",)))), ("seqdefg", 1, ("utake", 2, 1), ("ufail", 3, "inc", 1)),
             ("cont", 1, ("utake", 2, 2)), ("cont", 1), ("explg", 1, 0, ("utake", 2, 1)), ("implg", 1, 0, ("utake", 2, 1)),
             ("seqofv", ("explg", 1, 0, ("note", 2, ("any",)))), ("seqofv", ("ufail", 1, "err", 4)), ("seqdefg", 1, ("ufail", 2, "err", 4)),
             ("seqofv", ("implg", 1, 2)), ("setdef", ("note", 1, ("any",)), ("opt", ("note", 2, ("t", 2)))),
             ("seqdef", ("opt", ("note", 1, ("t", 2))), ("note", 2, ("any",))), ("opt", ("note", 1, ("any",)))]
    for x in (gen if len(gen) < 500 * k else r.sample(gen, 500 * k)):
        for e in r.sample(fixed, 4):
            out.append(user(r.choice(RULES), r.choice(["lib", "mine"]), 3, e, x))
    for e in fixed:
        for _ in range(120 * k):
            ru = r.choice(RULES)
            x = b"".join(umatch(g, e, ru == "der") for _ in range(r.choice([1, 2, 3])))
            out.append(user(ru, r.choice(["lib", "mine"]), r.choice([1, 3, 5]), e, near(g, x) if r.random() < .4 else x))
        for form in ("min", "indef", 2, 3):
            for cls in range(4):
                for tag in (0, 16, 17, 2, 31, 300):
                    for con in (0, 1):
                        for c in (b"", b"\x05\0", b"\x02\x01\x07\x05\0", b"\x30\x03\x02\x01\x07", b"\x02\x02\x07"):
                            if r.random() < (.06 if k == 1 else .5):
                                for er in ("lib", "mine"):
                                    out.append(user(r.choice(RULES), er, 2, e, tlv(cls, con, tag, c, form) * 2))
        for n in (40, 300):
            for form in ("min", "indef"):
                out.append(user("ber", "mine", 2, e, tlv(0, 1, 16, b"\x05\0" * n, form) * 2))
    # one parser object, many elements and many uses
    for op, t in (("seqofv", 16), ("setofv", 17), ("seqof", 16), ("setof", 17)):
        for e in ((op, ("note", 1, ("any",))),) + (((op, ("utake", 1, 2)), (op, ("ucount", 1, 1, 700, 3))) if op.endswith("v") else ()):
            for n, times in ((100, 8), (30, 30), (1, 60), (0, 60), (300, 3), (700, 1)):
                for ru in RULES:
                    out.append(user(ru, r.choice(["lib", "mine"]), times, e, u(t, b"\x05\0" * n) * times))
    for e, x in ((("seqdefg", 1, ("note", 2, ("any",))), u(16, b"\x05\0")), (("setdefg", 1, ("note", 2, ("any",))), u(17, b"\x05\0")), (("cont", 1), u(16, b"\x05\0")),
                 (("explg", 1, 0, ("utake", 2, 1)), tlv(2, 1, 0, u(5))), (("implg", 1, 0, ("utake", 2, 1)), tlv(2, 1, 0, u(5))), (("expl", 0, ("note", 2, ("any",))), tlv(2, 1, 0, u(5))),
                 (("seqdef", ("note", 1, ("any",))), u(16, b"\x05\0")), (("opt", ("note", 2, ("any",))), b"\x05\0")):
        for ru in RULES:
            for er in ("lib", "mine"):
                out.append(user(ru, er, 60, e, x * 60))
    return out


STRK = ("visible", "printable", "ia5", "utf8", "t61", "videotex", "objdesc", "graphic", "general", "octets", "int", "bmp", "universal")


def variant(g, e):
    """an object expression that may or may not be equal to e: one change somewhere"""
    r = g.r
    op = e[0]
    k = r.random()
    if op in ("seq", "set", "fromseq", "fromset"):
        c = list(e[1:])
        if k < .15:
            return (r.choice(["seq", "set", "fromseq", "fromset"]),) + e[1:]
        if k < .3 and c:
            c.pop(r.randrange(len(c)))
        elif k < .45:
            c.insert(r.randrange(len(c) + 1), bobj(g, 0))
        elif k < .55 and len(c) > 1:
            c[0], c[-1] = c[-1], c[0]
        elif c:
            j = r.randrange(len(c))
            c[j] = variant(g, c[j])
        return (op,) + tuple(c)
    if op in STRK and k < .4:
        ks = [s for s in STRK if not (any(b > 127 for b in e[1]) and s not in ("octets", "int", "bmp", "universal"))]
        return (r.choice(ks), e[1])
    if op in STRK and k < .7:
        return (op, e[1] + b"a" if k < .55 else e[1][:-1] if op != "utf8" else b"x")
    if op == "bits":
        return r.choice([("bits", (e[1] + 1) % 8, e[2]), ("bits", e[1], e[2] + b"\0"), ("octets", e[2])])
    if op == "bool":
        return r.choice([("bool", 1 - e[1]), e])
    if op in ("utctime", "gentime"):
        t = list(e[1:])
        j = r.randrange(6)
        t[j] = t[j] + 1
        return r.choice([(op,) + tuple(t), ({"utctime": "gentime", "gentime": "utctime"}[op],) + e[1:], e])
    if op == "oid":
        return r.choice([("reloid", e[1]), ("fromoid", e[1]), ("oid", e[1] + b"\x01")])
    if op == "unknown":
        return r.choice([("unknown", (e[1] + 1) % 4) + e[2:], e[:2] + (1 - e[2],) + e[3:], e[:3] + (e[3] + 1,) + e[4:] if e[3] < 2 ** 32 - 1 else e,
                         e[:4] + (e[4] + b"z",)])
    if op in ("tagged",):
        return r.choice([("tagged", (e[1] + 1) % 4) + e[2:], e[:2] + (e[2] + 1,) + e[3:], e[:3] + (variant(g, e[3]),), e[3]])
    if op == "some":
        return r.choice([("some", variant(g, e[1])), ("none",), e[1]])
    if op == "enum":
        return r.choice([("enum", e[1] + b"\x01"), ("enum", b"\0" + e[1]), ("int", e[1] or b"\0")])
    return bobj(g, 0) if k < .5 else e


def no_unknown(e):
    return not isinstance(e, tuple) or (e[0] != "unknown" and all(no_unknown(c) for c in e))


def eq_suite(g, k, gen):
    r = g.r
    out = []
    for _ in range(5000 * k):
        e = bobj(g, r.choice([0, 0, 1, 2])) if r.random() < .7 else wobj(g, 1)
        # the tag inside unknown contents is visible only where the object has it too
        hd = lambda o: ("hdr", r.choice([0, 0, 1, 2]), r.randrange(2), r.choice([0, 2, 4, 16, 31]), o)
        f = e if r.random() < .15 else variant(g, e)
        if "hdr" in (e[0], f[0]):
            continue
        if no_unknown(e) and no_unknown(f):
            if r.random() < .15:
                e = hd(e)
            if r.random() < .15:
                f = e[:4] + (f,) if e[0] == "hdr" and r.random() < .7 else hd(f)
            if r.random() < .2:
                e = ("rawtag", r.choice([b"\x30", b"\x02", b"\x1f\x02"]), e)
            if r.random() < .2:
                f = ("rawtag", r.choice([b"\x30", b"\x02", b"\x1f\x02"]), f)
        out.append(eq_built(e, f))
    for _ in range(2500 * k):
        x = g.tree(r.choice([0, 1, 2]))
        y = x if r.random() < .2 else g.mutate(x)
        out.append(eq_parsed(x, y))
    for c in (b"\x01", b"a", b"ab", b"\0a", b""):
        for s in range(1, 31):
            for t in range(1, 31):
                if s <= t and r.random() < .3:
                    out.append(eq_parsed(u(s, c, con=int(s in (16, 17))), u(t, c, con=int(t in (16, 17)))))
    xs = [u(16, u(2, b"\x05")), u(16, u(2, b"\x05"), form="indef"), u(16, tlv(0, 0, 2, b"\x05", 2), form=2), tlv(2, 1, 0, u(5)), tlv(2, 1, 0, u(5), "indef"),
          tlv(2, 1, 0, u(5), 1), b"\x1f\x02\x01\x05", b"\x02\x01\x05", b"\x1f\x80\x02\x01\x05", b"\x22\x01\x05", u(2, b"\0\x05")]
    for x in xs:
        for y in xs:
            out.append(eq_parsed(x, y))
    return out


def c28(g, k, gen):
    out = []
    r = g.r
    for _ in range(9000 * k):
        out.append(build_obj(bobj(g, r.choice([0, 1, 2, 3]))))
        out.append(build_obj(wobj(g, 2)))
    for _ in range(1500 * k):
        o = bobj(g, 1)
        out.append(build_obj(("rawtag", g.bytes(r.choice([1, 2, 5])), o)))
        out.append(build_obj(("norawtag", ("rawtag", b"\x30", o))))
        out.append(build_obj(("fromcontent", o)))
        out.append(build_obj(("fromcontent", wobj(g, 1))))
        out.append(build_obj(("hdr", r.randrange(4), r.randrange(2), g.tag(), bobj(g, 1))))
    for e in big_objects():
        out.append(build_obj(e))
        if r.random() < .3:
            out.append(eq_built(e, e))
    return out + eq_suite(g, k, gen)


LIST_OPS = ("seqof", "setof", "seqofv", "setofv")
ANY_OPS = ("any", "any", "any", "t")
LONGS = {  # operations and number of long inputs of each suite
    "C01": (ANY_OPS + LIST_OPS + ("impl", "opt", "expl", "explopt", "seqdef", "setdef", "cont", "slice"), 160),
    "C02": (ANY_OPS + LIST_OPS + ("impl", "expl", "seqdef", "cont", "slice"), 160),
    "C03": (ANY_OPS, 260, ("ber",)), "C04": (ANY_OPS, 260, ("der",)), "C05": (("any",), 120), "C06": (("any",), 120), "C07": (ANY_OPS + ("seqof", "seqdef", "expl", "impl"), 200),
    "C11": (("any", "t", "t"), 160), "C13": (ANY_OPS, 260, ("ber",)), "C14": (ANY_OPS + ("seqof", "impl"), 260, ("ber",)), "C15": (LIST_OPS, 260),
    "C16": (("seqdef", "setdef", "seqdefg", "cont", "slice"), 200), "C17": (("impl", "implg", "implold", "expl", "explg"), 200), "C18": (("opt", "explopt"), 160),
    "C19": (("t", "t", "any"), 160), "C20": (ANY_OPS + ("seqof", "setof"), 160, ("ber",)), "C21": (ANY_OPS + ("seqof", "setof"), 160, ("ber",)), "C24": (("any",), 160, ("ber",)),
    "C27": (ANY_OPS + LIST_OPS + ("impl", "implg", "implold", "opt", "expl", "explg", "explopt", "seqdef", "setdef", "seqdefg", "cont", "slice"), 260), "C28": (ANY_OPS, 120),
}


def with_longs(name, f):
    if name not in LONGS:
        return f
    ops, n, *rules = LONGS[name]
    more = {"C11": long_strings, "C03": lambda g, k: huge(g, k, ("ber",)), "C04": lambda g, k: huge(g, k, ("der",)) + typed_forms(g, k, ("der",)), "C07": huge, "C02": huge,
            "C27": lambda g, k: huge(g, k) + typed_forms(g, k)}.get(name, lambda g, k: [])
    return lambda g, k, gen: f(g, k, gen) + long_reqs(g, ops, n * k, *rules) + more(g, k)


SUITES = {n.upper(): with_longs(n.upper(), f) for n, f in list(globals().items()) if n.startswith("c") and n[1:].isdigit()}
