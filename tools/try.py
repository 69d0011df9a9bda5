"""development aid: run a quick random comparison"""
import sys, random
sys.path.insert(0, "/verif/tools")
from vp import *
exe = build_harness()
rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 2000
def el(d):
    t = rnd.choice(list(range(31)) + [2, 3, 4, 16, 17, 16, 17, 48 - 32])
    if t in (16, 17) and d > 0:
        c = b"".join(el(d - 1) for _ in range(rnd.randrange(4)))
        if rnd.random() < .3:
            return bytes([0x20 | t, 0x80]) + c + (b"\0\0" if rnd.random() < .9 else b"\0\1\0")
        return bytes([0x20 | t, len(c)]) + c if len(c) < 128 else bytes([0x20 | t, 0x82, len(c) >> 8, len(c) & 255]) + c
    c = bytes(rnd.choice([0, 1, 5, 127, 128, 255, 48, 57, 65, 90, rnd.randrange(256)]) for _ in range(rnd.randrange(6)))
    if t in (23, 24) and rnd.random() < .8:
        c = (b"20" if t == 24 else b"") + b"25%02d%02d%02d%02d" % (rnd.randrange(14), rnd.randrange(33), rnd.randrange(25), rnd.randrange(61))
        c += rnd.choice([b"", b"30", b"59", b"60", b"3"]) + rnd.choice([b"", b"", b".1", b".12", b",123", b".1234", b".", b".12345"]) + rnd.choice([b"Z", b"", b"+0130", b"-0030", b"Zx", b"+01"])
    cls = rnd.choice([0, 0, 0, 0, 0, 64, 128, 192]) | rnd.choice([0, 0, 0, 32])
    return bytes([cls | t]) + bytes([len(c)]) + c
reqs = []
for _ in range(N):
    x = el(3)
    if rnd.random() < .3:
        x = bytearray(x)
        for _ in range(rnd.randrange(3)):
            if x:
                x[rnd.randrange(len(x))] = rnd.randrange(256)
        x = bytes(x)
    if rnd.random() < .2:
        x = x[:rnd.randrange(len(x) + 1)]
    x += bytes(rnd.randrange(256) for _ in range(rnd.randrange(3)))
    k = rnd.randrange(8)
    t = x[0] & 31 if x and rnd.random() < .8 else rnd.randrange(31)
    if k < 2: reqs.append(parse(rnd.choice(["ber", "der"]), x, rnd.choice([None, None, 0, 1, 2, 3])))
    elif k == 2: reqs.append(withtag(rnd.choice(["ber", "der"]), t, x))
    elif k == 3: reqs.append(withtagr(t, rnd.choice([1, 2, 3, 50]), x))
    elif k == 4: reqs.append(header(rnd.choice(["ber", "der"]), x))
    elif k == 5: reqs.append(anyel(x))
    elif k == 6: reqs.append(contas(rnd.choice(["ber", "der"]), t, rnd.choice([None, len(x), max(0, len(x) - 1), len(x) + 1, 0, 2**40]), rnd.randrange(2), rnd.choice([0, 1, 2, 50]), x))
    else: reqs.append(dercont(x))
w = workdir("try")
recs = execute(exe, reqs)
t0 = time.time()
bad, st, _ = judge(sys.argv[3] if len(sys.argv) > 3 else "EX", recs, w)
print(len(recs), "records", st, "states", round(time.time() - t0, 1), "s; bad", len(bad))
for b in bad[:15]:
    print(reqs[b].line, recs[b][:600])
