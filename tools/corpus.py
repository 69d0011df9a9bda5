"""Inputs: systematic boundary families and seeded random structures."""
import random, itertools

UNI = list(range(0, 31))
BYTE_STR = {"objdesc": 7, "numeric": 18, "printable": 19, "t61": 20, "videotex": 21, "ia5": 22,
            "graphic": 25, "visible": 26, "general": 27}
STR = dict(BYTE_STR, utf8=12, bmp=30, universal=28)
TYPES = ["eoc", "bool", "int", "bits", "octets", "null", "oid", "enum", "utf8", "reloid", "seq", "set",
         "numeric", "visible", "printable", "t61", "videotex", "ia5", "utctime", "gentime", "objdesc",
         "graphic", "general", "bmp", "universal"]


def ident(cls, con, tag, pad=0):
    b0 = cls << 6 | con << 5
    if tag < 31 and pad == 0:
        return bytes([b0 | tag])
    ds = []
    t = tag
    while True:
        ds.insert(0, t & 127)
        t >>= 7
        if not t:
            break
    ds = [0] * pad + ds
    return bytes([b0 | 31] + [d | 128 for d in ds[:-1]] + [ds[-1]])


def length(n, form="min"):
    """form: min, or the number of octets of the long form"""
    if form == "min":
        if n < 128:
            return bytes([n])
        k = (n.bit_length() + 7) // 8
        return bytes([128 + k]) + n.to_bytes(k, "big")
    return bytes([128 + form]) + n.to_bytes(form, "big")


def tlv(cls, con, tag, content=b"", form="min", pad=0):
    if form == "indef":
        return ident(cls, con, tag, pad) + b"\x80" + content + b"\0\0"
    return ident(cls, con, tag, pad) + length(len(content), form) + content


def u(tag, content=b"", con=None, form="min"):
    return tlv(0, (1 if tag in (16, 17) else 0) if con is None else con, tag, content, form)


def seq(*els, form="min"):
    return u(16, b"".join(els), form=form)


def set_(*els, form="min"):
    return u(17, b"".join(els), form=form)


EDGE = [0, 1, 2, 5, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff, 0x30, 0x39, 0x41, 0x5a, 0x20]


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)

    # ---------------------------------------------------------------- leaves
    def bytes(self, n):
        r = self.r
        m = r.randrange(4)
        if m == 0:
            return bytes(r.choice(EDGE) for _ in range(n))
        if m == 1:
            return bytes([r.choice(EDGE)]) * n
        return bytes(r.randrange(256) for _ in range(n))

    def small(self):
        return self.r.choice([0, 0, 1, 1, 1, 2, 2, 3, 4, 5, 8, 9, 17])

    def time(self, gen, valid=None):
        r = self.r
        if valid is None:
            valid = r.random() < .7
        y = r.choice([0, 1, 49, 50, 99, r.randrange(100)])
        f = [r.choice([1, 12, r.randint(1, 12)]), r.choice([1, 28, 29, 30, 31, r.randint(1, 31)]),
             r.choice([0, 23, r.randrange(24)]), r.choice([0, 59, r.randrange(60)]),
             r.choice([0, 59, r.randrange(60)])]
        sec = r.random() < .8
        s = ("%02d" % r.choice([0, 19, 20, 99]) if gen else "") + "%02d" % y
        s += "".join("%02d" % v for v in f[:4]) + ("%02d" % f[4] if sec else "")
        if gen and r.random() < .4:
            s += r.choice([".", ","]) + "".join(r.choice("0159") for _ in range(r.choice([1, 2, 3, 3, 3, 4, 5])))
        s += r.choice(["Z", "Z", "Z", "Z", "", "+0000", "-0000", "+0130", "-0030", "+1259", "-1200", "+2400", "+0160"])
        b = bytearray(s.encode())
        if not valid:
            k = r.randrange(6)
            if k == 0 and b:
                b[r.randrange(len(b))] = r.choice([0x2f, 0x3a, 0x20, 0x5a, 0x2b, 0x2d, 0x30, 0x39, 0x7f, 0x80, 0, 0x2e])
            elif k == 1:
                b = b[:r.randrange(len(b) + 1)]
            elif k == 2:
                b += bytes([r.choice([0x5a, 0x30, 0, 0x20])])
            elif k == 3:
                p = r.randrange(0, 12, 2)
                b[p:p + 2] = b"%02d" % r.choice([0, 12, 13, 24, 31, 32, 59, 60, 61, 99])
            elif k == 4:
                del b[r.randrange(len(b))]
            else:
                b.insert(r.randrange(len(b) + 1), r.choice([0x30, 0x5a, 0x2b]))
        return bytes(b)

    def utf8(self):
        r = self.r
        out = b""
        for _ in range(r.randrange(5)):
            c = r.choice([0x41, 0x7f, 0x80, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xffff, 0x10000, 0x10ffff, r.randrange(0x20, 0x3000)])
            out += chr(c).encode()
        if r.random() < .4:
            out += r.choice([b"\xc0\x80", b"\xc1\xbf", b"\xed\xa0\x80", b"\xf4\x90\x80\x80", b"\xe0\x80\x80",
                             b"\x80", b"\xff", b"\xc2", b"\xe2\x82", b"\xf0\x90\x80", b"\xf5\x80\x80\x80", b"\xe0\x9f\xbf"])
            out += r.choice([b"", b"a"])
        return out

    def utf16(self):
        r = self.r
        out = b""
        for _ in range(r.randrange(5)):
            out += r.choice([b"\0A", b"\xd7\xff", b"\xe0\0", b"\xd8\0\xdc\0", b"\xdb\xff\xdf\xff", b"\xff\xff"])
        if r.random() < .4:
            out += r.choice([b"\xd8\0", b"\xdc\0", b"\xdc\0\xd8\0", b"\xd8\0\0A", b"\0", b"\xdb\xff\xdb\xff", b"A"])
            out += r.choice([b"", b"\0A"])
        return out

    def content(self, tag):
        """contents for a universal tag, mostly plausible"""
        r = self.r
        if r.random() < .12:
            return self.bytes(self.small())
        if tag == 1:
            return bytes([r.choice([0, 255, 255, 1, 127, 128])])
        if tag in (2, 10):
            n = r.choice([1, 1, 2, 3, 4, 4, 5, 8, 8, 9, 10, 17] if tag == 2 else [1, 1, 2, 3, 4, 5])
            return bytes([r.choice([0, 1, 0x7f, 0x80, 0xff, r.randrange(256)])]) + self.bytes(n - 1)
        if tag == 3:
            return bytes([r.choice([0, 0, 1, 3, 4, 7, 8, 9, 255])]) + bytes(
                r.choice([0, 0x80, 0xf0, 0xf8, 0x08, 0xff, r.randrange(256)]) for _ in range(r.choice([0, 1, 1, 2, 3, 8, 9])))
        if tag in (4,):
            return self.bytes(self.small())
        if tag in (0, 5):
            return b"" if r.random() < .8 else self.bytes(self.small())
        if tag in (6, 13):
            return bytes([r.choice([0, 0x2a, 0x55, 0x28, 0x51, 0x80])]) + bytes(
                r.choice([1, 0x7f, 0x80, 0x81, 0xff, r.randrange(256)]) for _ in range(r.randrange(8)))
        if tag == 12:
            return self.utf8()
        if tag == 30:
            return self.utf16()
        if tag == 28:
            return b"".join(r.choice([b"\0\0\0A", b"\0\x10\xff\xff", b"\0\x11\0\0", b"\0\0\xd8\0", b"\x01\0\0\0", b"\0\0\xdf\xff", b"\0\0\xe0\0"])
                            for _ in range(r.randrange(3))) + r.choice([b"", b"", b"", b"\0", b"\0\0A"])
        if tag in (23, 24):
            return self.time(tag == 24)
        if tag in (18, 19, 20, 21, 22, 25, 26, 27, 7) and r.random() < .04:
            return self.utf8()
        if tag == 18:
            al = b"0123456789 " + (b":/aA" if r.random() < .2 else b"")
        elif tag == 19:
            al = b"azAZ09 '()+,-./:=?" + (b"!\"#$%&*;<>@[_`{|~\x7f\x1f\x80" if r.random() < .2 else b"")
        elif tag in (20, 21, 26):
            al = b" !09AZaz~" + (b"\x1f\x7f\x80\0\n" if r.random() < .2 else b"")
        elif tag in (22, 25, 27, 7):
            al = b"\0\x01 09AZaz~\x7f" + (b"\x80\xff" if r.random() < .2 else b"")
        else:
            return self.bytes(self.small())
        return bytes(r.choice(al) for _ in range(self.small()))

    def leaf(self):
        r = self.r
        t = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 10, 12, 23, 24] + list(range(31)))
        if t in (16, 17):
            return u(t)
        c = self.content(t)
        con = 1 if r.random() < .06 else 0
        return self.wrap(0, con, t, c)

    def wrap(self, cls, con, tag, c, indef=.0, odd=.08):
        r = self.r
        form = "min"
        if con and r.random() < indef:
            form = "indef"
        elif r.random() < odd:
            k = (len(c).bit_length() + 7) // 8 or 1
            form = r.choice([k, k + 1, k + 2, 8, 9])
        pad = 1 if r.random() < .01 else 0
        return tlv(cls, con, tag, c, form, pad)

    def tag(self):
        r = self.r
        return r.choice([0, 1, 2, 3, 4, 16, 17, 30, 31, 32, 127, 128, 129, 16383, 16384, 2 ** 21, 2 ** 28 - 1, 2 ** 28, 2 ** 32 - 1,
                         r.randrange(31)])

    def tree(self, depth, indef=.25, width=4):
        r = self.r
        k = r.random()
        if depth <= 0 or k < .35:
            return self.leaf()
        n = r.choice([0, 1, 1, 2, 2, 3, width])
        c = b"".join(self.tree(depth - 1, indef, width) for _ in range(n))
        if k < .85:
            return self.wrap(0, 1, r.choice([16, 16, 17]), c, indef)
        return self.wrap(r.choice([1, 2, 2, 3]), 1 if r.random() < .8 else 0, self.tag(), c, indef)

    # ---------------------------------------------------------------- DER-correct structures
    def der_leaf(self):
        r = self.r
        t = r.choice([1, 2, 2, 3, 3, 4, 4, 5, 6, 10, 12, 13, 18, 19, 22, 23, 24, 26, 30])
        if t == 1:
            c = r.choice([b"\0", b"\xff"])
        elif t in (2, 10):
            n = r.choice([1, 2, 3, 4, 5, 8, 9]) if t == 2 else r.choice([1, 2, 3])
            c = bytearray(self.bytes(n))
            if n > 1 and (c[0] == 0 and c[1] < 128 or c[0] == 255 and c[1] >= 128 or (t == 10 and c[0] == 0)):
                c[0] = r.choice([1, 0x7f, 0x80])
            c = bytes(c)
        elif t == 3:
            p = r.randrange(8)
            d = bytearray(self.bytes(r.randrange(5)))
            if not d:
                p = 0
            else:
                d[-1] &= 255 << p & 255
            c = bytes([p]) + bytes(d)
        elif t in (23, 24):
            c = (b"20" if t == 24 else b"") + b"%02d1231235959Z" % r.randrange(100)
        elif t == 30:
            c = b"\0A" * r.randrange(4)
        elif t == 12:
            c = "aé€😀"[:r.randrange(5)].encode()
        elif t == 18:
            c = b"0123 "[:r.randrange(6)]
        elif t == 5:
            c = b""
        elif t in (6, 13):
            c = bytes([0x2a, 0x86, 0x48, 0x01])[:r.randint(1, 4)]
        elif t == 4:
            c = self.bytes(self.small())
        else:
            c = b"abcXYZ 09"[:r.randrange(10)]
        return u(t, c)

    def der_tree(self, depth, width=4):
        r = self.r
        if depth <= 0 or r.random() < .3:
            return self.der_leaf()
        c = b"".join(self.der_tree(depth - 1, width) for _ in range(r.choice([0, 1, 2, 2, 3, width])))
        if r.random() < .85:
            return u(r.choice([16, 16, 17]), c)
        return tlv(r.choice([1, 2, 2, 3]), 1, self.tag(), c)

    # ---------------------------------------------------------------- perturbations
    def mutate(self, x):
        r = self.r
        b = bytearray(x)
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.randrange(8)
            if not b:
                b = bytearray([r.randrange(256)])
            p = r.randrange(len(b))
            if k == 0:
                b[p] ^= 1 << r.randrange(8)
            elif k == 1:
                b[p] = r.choice(EDGE)
            elif k == 2:
                b[p] = r.randrange(256)
            elif k == 3:
                del b[p]
            elif k == 4:
                b.insert(p, r.choice(EDGE))
            elif k == 5:
                b = b[:p]
            elif k == 6:
                b[p] = (b[p] + r.choice([1, -1])) & 255
            else:
                q = r.randrange(len(b) + 1)
                b[p:p] = b[min(p, q):max(p, q)][:8]
        return bytes(b)

    def any_input(self, depth=3):
        """one of everything"""
        r = self.r
        k = r.random()
        if k < .45:
            x = self.tree(depth)
        elif k < .7:
            x = self.der_tree(depth)
        elif k < .8:
            x = self.bytes(r.choice([0, 1, 2, 3, 5, 9, 16]))
        else:
            x = self.tree(depth)
        if r.random() < .3:
            x = self.mutate(x)
        if r.random() < .3:
            x += self.bytes(r.choice([1, 2, 3]))
        return x


# -------------------------------------------------------------------------------- systematic
def headers():
    """identifier and length octets of every shape"""
    out = []
    ids = [bytes([b]) for b in range(256) if b & 31 != 31]
    for b0 in (0x1f, 0x3f, 0x5f, 0x9f, 0xbf, 0xdf, 0xff):
        for t in (b"", b"\0", b"\x01", b"\x1e", b"\x1f", b"\x7f", b"\x80", b"\x81", b"\x81\0", b"\x80\x01",
                  b"\xff\x7f", b"\x81\x80\0", b"\xff\xff\x7f", b"\xff\xff\xff\x7f", b"\x8f\xff\xff\xff\x7f",
                  b"\x90\x80\x80\x80\0", b"\xff\xff\xff\xff\x7f", b"\x81\x81\x81\x81\x81", b"\x81\x81\x81\x81\x81\x01",
                  b"\x80\x80\x80\x80\x80\x01", b"\x80\x80\x80\x80\x1f"):
            ids.append(bytes([b0]) + t)
    lens = [bytes([b]) for b in (0, 1, 2, 126, 127, 128, 255)]
    lens += [b"", b"\x81", b"\x81\0", b"\x81\x01", b"\x81\x7f", b"\x81\x80", b"\x81\xff", b"\x82\0", b"\x82\0\x01",
             b"\x82\x01\0", b"\x82\xff\xff", b"\x83\0\0\x02", b"\x83\x01\0\0", b"\x84\0\0\0\x01", b"\x84\xff\xff\xff\xff",
             b"\x84\x01\0\0\0", b"\x85\0\0\0\0\x01", b"\x85\x01\0\0\0\0", b"\x88" + b"\xff" * 8, b"\x88" + b"\0" * 7 + b"\x01",
             b"\x89" + b"\0" * 8 + b"\x01", b"\x89\x01" + b"\0" * 8, b"\xfe" + b"\0" * 125 + b"\x01", b"\xfe" + b"\0" * 126,
             b"\x8f" + b"\xff" * 15, b"\x90" + b"\0" * 15 + b"\x02", b"\x80\0\0", b"\x80\0", b"\xff" + b"\0" * 127]
    for i in ids:
        for l in lens:
            out.append(i + l)
    return out


def leaf_grid(tags=range(31), cls=(0,), cons=(0, 1), maxlen=3):
    """every universal tag with short contents over edge bytes"""
    pats = [b""]
    ed = [0, 1, 0x7f, 0x80, 0xff]
    pats += [bytes([b]) for b in range(256)]
    pats += [bytes([a, b]) for a in ed + [0x41, 0x30] for b in ed + [0x41, 0x30, 0x08]]
    if maxlen >= 3:
        pats += [bytes([a, b, c]) for a in ed for b in ed for c in ed]
    for t in tags:
        for c in cls:
            for k in cons:
                for p in pats:
                    yield tlv(c, k, t, p)


def int_contents():
    """INTEGER contents around every width boundary"""
    out = {b""}
    first = [0, 1, 0x7f, 0x80, 0x81, 0xfe, 0xff]
    for n in range(1, 19):
        for a in first:
            for fill in (0, 0xff, 0x80, 0x7f, 0x01):
                out.add(bytes([a]) + bytes([fill]) * (n - 1))
                if n > 2:
                    out.add(bytes([a]) + bytes([fill]) * (n - 2) + bytes([a ^ 0x81]))
                for a2 in first:
                    if n > 1:
                        out.add(bytes([a, a2]) + bytes([fill]) * (n - 2))
    for v in [2 ** k + d for k in (7, 8, 15, 16, 23, 24, 31, 32, 33, 39, 40, 47, 55, 56, 62, 63, 64, 65, 127) for d in (-2, -1, 0, 1)]:
        for s in (v, -v):
            m = (s.bit_length() + 8) // 8
            out.add(s.to_bytes(m, "big", signed=True))
            for pad in (1, 2, 9):
                out.add((b"\xff" if s < 0 else b"\0") * pad + s.to_bytes(m, "big", signed=True))
    out |= {b"\0" * n for n in (20, 64, 129, 300)} | {b"\xff" * n for n in (20, 64)} | {b"\0" * 40 + b"\x7f", b"\0" * 200 + b"\x80" + b"\0" * 7}
    return sorted(out)


def bit_contents():
    out = set()
    for n in range(0, 12):
        for p in list(range(0, 10)) + [15, 16, 63, 64, 65, 72, 80, 255]:
            for fill in (0, 0xff, 0xa5, 0x01, 0x80):
                d = bytes([fill]) * n
                out.add((p, d))
                if n:
                    out.add((p, d[:-1] + bytes([255 << min(p, 8) & 255])))
                    out.add((p, b"\0" * (n - 1) + b"\x80"))
                    out.add((p, b"\x01" + b"\0" * (n - 1)))
                    out.add((p, d[:-1] + bytes([1 << (p - 1) & 255 if p else 1])))
    return sorted(out)


def chain(kinds, inner=b""):
    """nested containers, outermost first; each kind is (cls, tag, form)"""
    x = inner
    for cls, tag, form in reversed(kinds):
        x = tlv(cls, 1, tag, x, form)
    return x


def big_lengths(limit=70000):
    return [n for n in (0, 1, 2, 126, 127, 128, 129, 130, 254, 255, 256, 257, 1000, 32767, 32768, 65534, 65535, 65536, 65537) if n <= limit]


def exhaustive(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield bytes(t)
