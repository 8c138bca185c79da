"""Call scripts that go through the arguments systematically: contents of every shape at every width, pairs that are
nearly alike, every size, every position, every byte value.  Like gens.py this only chooses calls."""
from gens import *


def shapes(r, n):
    """contents of n bytes that some predicate on bytes may single out"""
    c, d = r.randrange(1, 255), r.randrange(256)
    u = r.randbytes(n)
    at = lambda k, v, b: b[:k] + bytes([v]) + b[k + 1:]
    p = r.randrange(n)
    nz = bytes(r.randrange(1, 255) for _ in range(n))
    half = u[:(n + 1) // 2]
    out = [bytes(n), b"\xff" * n, b"\x80" * n, b"\x7f" * n, b"\x01" * n, b"\x20" * n, bytes([c]) * n, bytes(b | 128 for b in u), bytes(b & 127 for b in u), bytes(b | 1 for b in u), bytes(b & 254 for b in u),
           bytes((d + k) & 255 for k in range(n)), bytes((d - k) & 255 for k in range(n)), bytes(k * 255 // n for k in range(n)), bytes(255 - k * 255 // n for k in range(n)), bytes(sorted(u)), bytes(sorted(u)[::-1]),
           half + half[:n // 2][::-1], (half + half)[:n], bytes(255 * (k & 1) for k in range(n)), bytes(85 << (k & 1) for k in range(n)),
           at(0, c, bytes(n)), at(n - 1, c, bytes(n)), at(p, 255, bytes(n)), at(p, 1, bytes(n)), at(p, 128, bytes(n)),
           at(0, 0, nz), at(n - 1, 0, nz), at(p, 0, nz), at(p, 255, nz), at(p, 0, b"\xff" * n), at(0, 254, b"\xff" * n), at(n - 1, 127, b"\xff" * n),
           at(0, u[-1], u), at(p, u[p - 1], u), at(n - 1, sum(u[:-1]) * 255 & 255, u), bytes(r.randrange(33, 127) for _ in u), bytes(r.randrange(48, 58) for _ in u), bytes(r.randrange(97, 123) for _ in u), u]
    x = 0
    for b in u[:-1]:
        x ^= b
    return out + [u[:-1] + bytes([x])]


def some_shapes(r, n, k=8):
    s = shapes(r, n)
    return s if n <= 64 or n in (63, 64, 65, 127, 128, 129, 255, 256, 257) else s[:2] + r.sample(s, k)


def alike(r, b, all=False):
    """others of the same length that a hasty comparison takes for b"""
    n = len(b)
    at = lambda k, v: b[:k] + bytes([v & 255]) + b[k + 1:]
    out = [b, b[::-1], b[1:] + b[:1], b[-1:] + b[:-1], at(0, b[0] ^ 1), at(n - 1, b[-1] ^ 1), at(0, b[0] ^ 128), at(n - 1, b[-1] ^ 128), at(0, b[0] + 1), at(n - 1, b[-1] - 1), bytes(255 - x for x in b),
           b[:n // 2] + bytes(x ^ 85 for x in b[n // 2:]), bytes(x ^ 85 for x in b[:n // 2]) + b[n // 2:], at(0, b[0] ^ 32), at(n - 1, b[-1] ^ 32)]
    ks = range(n) if all else [r.randrange(n)]
    out += [at(k, b[k] ^ r.choice([1, 2, 4, 8, 16, 32, 64, 128, 255])) for k in ks]
    if n > 1:
        i, j = r.sample(range(n), 2)
        d, t, u, v = r.randrange(1, 256), bytearray(b), bytearray(b), bytearray(b)
        t[i], t[j] = (t[i] + d) & 255, (t[j] - d) & 255     # the same sum
        u[i], u[j] = u[i] ^ d, u[j] ^ d                     # the same exclusive or
        v[i], v[j] = v[j], v[i]                             # the same bytes
        out += [bytes(t), bytes(u), bytes(v)]
    return out


def bits32(lo=0, hi=300):
    out = set(range(lo, hi + 1)) | {2**32 - k for k in range(1, hi + 1)}
    for b in range(33):
        out |= {2**b + d for d in (-2, -1, 0, 1, 2)} | {2**32 - 2**b + d for d in (-1, 0, 1)}
        out |= {0xFFFFFFFF ^ 1 << b}
    for k in range(256):
        out |= {k << 8, k << 16, k << 24, k * 0x01010101, k * 0x00010001}
    return sorted(v for v in out if 0 <= v < 2**32)


def patterns32():
    """words with a period, one bit of them turned round, their low and high ends; runs of ones anywhere, turned over"""
    out, full = set(), 0xFFFFFFFF
    for p in (0x55555555, 0x33333333, 0x0F0F0F0F, 0x00FF00FF, 0x0000FFFF, 0x11111111, 0x01010101, 0x80808080, 0x24924924, 0x7F7F7F7F):
        for v in (p, p ^ full, (p << 1 | p >> 31) & full):
            out |= {v} | {v ^ 1 << b for b in range(32)}
            out |= {v & (1 << b) - 1 for b in range(1, 33)} | {v & full ^ (1 << b) - 1 for b in range(1, 32)}
    for lo in range(32):
        for hi in range(lo + 1, 33):
            out |= {(1 << hi) - (1 << lo), (1 << hi) - (1 << lo) ^ full}
    return sorted(out)


def dealt(name, r, ls, k=60, head=()):
    """lines of stateless calls in parts"""
    return [["note " + name] + ambient(r) + list(head) + ls[j:j + k] for j in range(0, len(ls), k)]


def walk(r, n, count):
    """contents each of which is of some shape or nearly like one of the last few"""
    out = some_shapes(r, n)
    r.shuffle(out)
    res = []
    for s in out:
        res.append(s)
        for _ in range(count):
            res.append(r.choice(alike(r, res[-r.choice([1, 1, 1, 2, 3]) if len(res) > 3 else -1])))
    return res


# ------------------------------------------------------------------- containers
def C01(r):
    parts = []
    for n in range(1, 301):
        es = walk(r, n, 2 if n <= 40 else 1)
        cap, size = r.choice([1, 2, 2, 3, 4]), 0
        out = ["note shapes"] + ambient(r) + ["qinit 0 %d %d 1" % (cap, n)]
        for e in es:
            out += ["qenq 0 " + xb(e)] + r.choice([[], ["qrear 0 1"], ["qfront 0 1"]])
            size = min(cap, size + 1)
            while size and r.random() < size / cap * 0.6:
                out.append("qdeq 0 1")
                size -= 1
        parts.append(out + ["qdeq 0 1"] * size)
    for n in range(1, 5):
        for at in range(n):
            base = bytearray(r.randbytes(n))
            out = ["note bytes"] + ambient(r) + ["qinit 0 3 %d 1" % n]
            for v in range(256):
                base[at] = v
                out += ["qenq 0 " + xb(base)] + r.choice([["qrear 0 1"], []]) + (r.choice([["qfront 0 1"], []]) + ["qdeq 0 1"] if v > 1 else [])
            parts.append(out)
    for cap in range(1, 13):
        for front in range(cap):
            out = ["note states"] + ambient(r) + ["qinit 0 %d 2 1" % cap, "qfill 0 1 %d" % front, "qdrain 0 %d" % front]
            for size in range(cap + 1):
                # from (front, 0): up to the size, everything asked, down again and once around
                out += (["qfill 0 %d %d" % (r.randrange(1, 60000), size)] if size else []) + ["qfront 0 1", "qrear 0 1", "qstat 0", "qenq 0 " + xb(r.randbytes(2)), "qrear 0 1", "qdeq 0 1", "qfront 0 1", "qstat 0"]
                left = min(size + 1, cap) - 1
                out += (["qdrain 0 %d" % left] if left else []) + ["qdeq 0 1"]
                used = (min(size + 1, cap)) % cap       # the front has moved that far: back to where it was
                out += ["qfill 0 7 %d" % (cap - used), "qdrain 0 %d" % (cap - used)] if used else []
            parts.append(out)
    for cap in range(13, 301):
        t, es = r.randrange(1, 60000), r.choice([1, 2, 3, 4, 5, 8])
        end = ["qfront 0 1", "qrear 0 1", "qstat 0"]
        parts.append(["note caps"] + ambient(r) + ["qinit 0 %d %d 1" % (cap, es), "qfill 0 %d %d" % (t, cap - 1), "qrear 0 1", "qfill 0 %d 2" % (t + cap - 1)] + end + ["qenq 0 " + xb(r.randbytes(es)), "qdrain 0 %d" % (cap - 2)] + end + ["qdrain 0 1"] + end
                     + ["qenq 0 " + xb(r.randbytes(es))] + end + ["qdeq 0 1"] + end + ["qdeq 0 1", "qdeq 0 1"] + end + ["qenq 0 " + xb(r.randbytes(es))] + end + ["qfill 0 %d %d" % (t, cap), "qstat 0", "qrear 0 1", "qdeq 0 1"] + end)
    return parts, 4


def C02(r):
    parts = []
    e = lambda p, b: "penq 0 %d %s" % (p & 0xFFFFFFFF, xb(b))
    for n in range(1, 301):
        es = walk(r, n, 1)
        cap = r.choice([1, 2, 2, 3, 4])
        out = ["note shapes"] + ambient(r) + ["pinit 0 %d %d 1" % (cap, n)]
        p = r.randrange(2**32)
        for x in es:
            p = r.choice([p, p, p + 1, p - 1, p ^ 1 << r.randrange(32), r.randrange(2**32)]) & 0xFFFFFFFF
            out += [e(p, x)] + (["pdeq 0"] if r.random() < 0.45 else [])
        parts.append(out + ["pdeq 0"] * cap)
    for n in range(1, 4):
        for at in range(n):
            base, out = bytearray(r.randbytes(n)), ["note bytes"] + ambient(r) + ["pinit 0 3 %d 1" % n]
            for v in range(256):
                base[at] = v
                out += [e(r.randrange(3), base)] + (["pdeq 0"] if v > 1 else [])
            parts.append(out)
    for s in range(1, 13):
        for h in range(s):
            h2 = r.randrange(s)
            cap, hi = s + r.choice([0, 0, 1, 5]), r.choice([1, 2, 5, 2**31, 2**32 - 1])
            body = lambda top, low: [e(hi if k in top else r.randrange(low, hi), bytes([k, r.randrange(256)])) for k in range(s)]
            out = ["note place"] + ambient(r) + ["pinit 0 %d 2 1" % cap] + body({h}, 0) + ["pstat 0"] + ["pdeq 0"] * s + body({h, h2}, 0) + ["pdeq 0"] * (s + 1)
            # full; the least of them is displaced, or the newcomer is refused
            lo = r.choice([0, 1, 255, 256, 65535, 65536, 2**31 - 1, 2**31, 2**32 - 3])
            for d in (0, 1, -1, 2**32 - 1 - lo):
                out += ["pinit 0 %d 2 %d" % (s, r.choice([1, 2]))]
                out += [e(lo if k in (h, h2) else r.randrange(lo + 1, 2**32), bytes([k, r.randrange(256)])) for k in range(s)]
                out += [e(max(0, lo + d), r.randbytes(2)), e(lo, r.randbytes(2)), "pstat 0"] + ["pdeq 0"] * (s + 1)
            parts.append(out)
    prios = bits32()
    pairs = [(v, v + d) for v in prios for d in (1,)] + [(v, v + d) for d in range(1, 301) for v in (0, 2**32 - 1 - d, r.randrange(2**32 - d))] + [(2**a, 2**b) for a in range(32) for b in range(a)]
    for j in range(0, len(pairs), 40):
        out = ["note prios"] + ambient(r) + ["pinit 0 2 2 1"]
        for a, b in pairs[j:j + 40]:
            if b < 2**32:
                x, y = (a, b) if r.random() < 0.5 else (b, a)
                out += [e(x, r.randbytes(2)), e(y, r.randbytes(2))] + ([e(r.choice([a, b]), r.randbytes(2))] if r.random() < 0.5 else []) + ["pdeq 0", "pdeq 0"]
        parts.append(out)
    for cap in range(65, 301):
        parts.append(["note caps"] + ambient(r) + ["pinit 0 %d 2 1" % cap, "pfill 0 %d %d %d %d %d" % (r.randrange(60000), cap - 1, r.randrange(5), r.randrange(2, 9), r.choice([1, 3, 17, 65521])), "pstat 0", e(r.choice([0, 4, 70000]), r.randbytes(2)), "pstat 0",
                                                   e(0, r.randbytes(2)), e(80000, r.randbytes(2)), e(3, r.randbytes(2)), "pdeq 0", "pdeq 0", "pstat 0", e(r.randrange(9), r.randbytes(2))])
    return parts, 5


def C03(r):
    parts = []
    ins = lambda k, v: "mins 0 %s %s" % (xb(k), xb(v))
    get = lambda k: "mget 0 " + xb(k)
    for n in range(1, 301):
        for both in (True, False) if n <= 40 or n % 8 == r.randrange(8) else (r.random() < 0.5,):
            ks, vs = (n, r.choice([n, r.randrange(1, 9)])) if both else (r.randrange(2, 6), n)
            keys, vals = (walk(r, ks, 1), walk(r, vs, 1))
            cap = r.choice([2, 3, 4, 7])
            out, used = ["note shapes"] + ambient(r) + ["minit 0 %d %d %d 1 1" % (ks, vs, cap)], []
            for j in range(max(len(keys), len(vals))):
                if j % (3 * cap) == 0:
                    out.append("minit 0 %d %d %d %d %d" % (ks, vs, cap, r.choice([1, 2]), r.choice([1, 2])))
                    used = []
                k = r.choice(used + [keys[j % len(keys)]] * 2)
                used.append(k)
                if ks == vs and r.random() < 0.4:
                    vals[j % len(vals)] = r.choice(alike(r, k))
                out += [get(k)] * (r.random() < 0.3) + [ins(k, vals[j % len(vals)]), get(r.choice(used[-2:] + [k]))]
            parts.append(out + [get(k) for k in dict.fromkeys(used)])
    for ks in range(1, 25):     # every key that differs from one in a single byte; every prefix and every suffix shared
        base = r.choice([r.randbytes(ks), bytes(ks), b"\xff" * ks, bytes(r.randrange(97, 123) for _ in range(ks))])
        keys = list(dict.fromkeys(alike(r, base, all=True) + [base[:k] + bytes(x ^ r.choice([1, 255]) for x in base[k:]) for k in range(ks)] + [bytes(x ^ r.choice([1, 255]) for x in base[:k]) + base[k:] for k in range(1, ks)]))
        r.shuffle(keys)
        out = ["note near"] + ambient(r) + ["minit 0 %d 2 %d 1 1" % (ks, len(keys))]
        for j, k in enumerate(keys):
            out += ([get(r.choice(keys[j:]))] if r.random() < 0.5 else []) + [ins(k, r.randbytes(2))]
        out += [get(k) for k in keys] + [x for k in keys[::3] for x in (ins(k, r.randbytes(2)), get(r.choice(keys)))] + [get(bytes(255 - b for b in keys[0])), get(r.randbytes(ks))]
        parts.append(out)
    for ks, at in ((1, 0), (2, 0), (2, 1), (4, 0), (4, 3)):
        base, out, keys = bytearray(r.randbytes(ks)), ["note bytes"] + ambient(r) + ["minit 0 %d %d 256 1 1" % (ks, ks)], []
        for v in r.sample(range(256), 256):
            base[at] = v
            keys.append(bytes(base))
            out += [ins(base, base if v & 1 else bytes(255 - b for b in base))] + ([get(base)] if v % 3 == 0 else [])
        parts.append(out + [get(k) for k in keys[::5]])
    for s in range(1, 13):
        for h in range(s):
            ks, cap = r.choice([1, 2, 3, 4]), s + r.choice([0, 0, 1, 4])
            keys = [bytes([17 * k + 3] * ks) for k in range(s + 2)]
            out = ["note place"] + ambient(r) + ["minit 0 %d 3 %d 1 1" % (ks, cap)] + [ins(k, r.randbytes(3)) for k in keys[:s]] + [get(keys[h]), ins(keys[h], r.randbytes(3)), get(keys[h]), ins(keys[s], r.randbytes(3)), ins(keys[h], r.randbytes(3))]
            parts.append(out + [get(k) for k in keys])
    for cap in range(65, 301):
        k0, ks, vs = r.randrange(1, 60000), r.choice([3, 4, 5]), r.choice([1, 2, 4])
        parts.append(["note caps"] + ambient(r) + ["minit 0 %d %d %d 1 1" % (ks, vs, cap), "mfill 0 %d %d 7" % (k0, cap - 1), "mlook 0 %d 4 1" % (k0 + cap - 3), "mfill 0 %d 2 50" % (k0 + cap - 1), "mlook 0 %d 4 1" % (k0 + cap - 3), "mfill 0 %d 1 90" % (k0 + cap - 1), "mlook 0 %d 4 1" % (k0 + cap - 3)])
    for ks in range(1, 13):
        for vs in range(1, 13):
            keys = [r.randbytes(ks) for _ in range(3)]
            out = ["note sizes"] + ambient(r) + ["minit 0 %d %d 2 1 1" % (ks, vs)] + [ins(k, r.randbytes(vs)) for k in keys] + [ins(keys[0], r.randbytes(vs))] + [get(k) for k in keys]
            parts.append(out)
    return parts, 6


def C04(r):
    parts = []
    codes = [(-1, 0), (-1, 1), (0, 0), (0, 1)]
    tables = [t for n in range(1, 5) for t in itertools.product(codes, repeat=n)] + [tuple(r.choice(codes) for _ in range(n)) for n in (5, 6, 7, 8, 9) for _ in range(60)]
    r.shuffle(tables)
    for j in range(0, len(tables), 8):
        out = ["note codes"] + ambient(r) + ["progclear"]
        for t in tables[j:j + 8]:
            n = len(t)
            out += ["stable 0 %d" % n] + ["sset 0 %d %d %d" % (k, -1 if f < 0 else r.randrange(12), a) for k, (f, a) in enumerate(t)]
            out += ["srun 0 %d" % n, "sadd 0 %d %d %d" % (n, r.randrange(12), r.randrange(2)), "srun 0 %d" % r.choice([n, n, max(1, n - 1)]), "sadd 0 %d %d 1" % (r.choice([n, max(1, n - 1)]), r.randrange(12)), "srun 0 %d" % n]
        parts.append(out)
    for n in range(1, 101):
        one = r.random() < 0.3
        out = ["note active"] + ambient(r) + ["progclear", "stable 0 %d" % n, "sinit 0 %d" % n] + ["sset 0 %d %d 1" % (k, 3 if one else r.randrange(12)) for k in range(n)] + ["srun 0 %d" % n, "sadd 0 %d 1 1" % n]
        free = r.randrange(n)
        parts.append(out + ["sset 0 %d -1 %d" % (free, r.randrange(2)), "sadd 0 %d 9 1" % n, "srun 0 %d" % n])
    for n in range(65, 301):
        parts.append(s_big(r, n))
    for d in range(1, 20):      # the same function twice in a table, any distance apart
        n = d + r.randrange(1, 4)
        a = r.randrange(n - d)
        out = ["note twice"] + ambient(r) + ["progclear", "stable 0 %d" % n, "sinit 0 %d" % n] + ["sset 0 %d %d 1" % (k, 5 if k in (a, a + d) else 6 + k % 4) for k in range(n)]
        parts.append(out + ["srun 0 %d" % n, "sset 0 %d 5 0" % a, "srun 0 %d" % n, "sset 0 %d -1 0" % a, "sadd 0 %d 5 1" % n, "srun 0 %d" % n])
    return parts, 4


# ------------------------------------------------------------------------- text
def C05(r):
    parts = []
    chars = [c for c in range(1, 256)]
    pad = lambda n: bytes(r.choice(b"kxyz,:{} 1vw_-") for _ in range(n))
    build = lambda s, ps: ["jbuf 0 %d x" % s, "jstart 0 %d" % s] + ["jadd 0 %d %s %s" % (s, xb(k), xb(v)) for k, v in ps] + ["jend 0 %d" % s]
    ls = []
    for c in chars:
        b = bytes([c])
        for k, v in ((b, pad(2)), (pad(2), b), (b + pad(2), pad(1) + b), (pad(1) + b, b + pad(2)), (pad(1) + b + pad(1), pad(1) + b + pad(1))):
            need = len(k) + len(v) + 8
            ls.append(build(need, [(k, v)]))
        for t in (b, b"{" + b, b'{"a":"' + b):
            ls += [["jbuf 0 %d %s" % (len(t) + 12, xb(t)), "jadd 0 %d x6b x76" % (len(t) + 12), "jbuf 0 %d %s" % (len(t) + d, xb(t)), "jend 0 %d" % (len(t) + d)] for d in (2, 5)]
            ls += [["jbuf 0 %d %s" % (len(t) + 2, xb(t)), "jstart 0 %d" % (len(t) + 2)]]
    for kl in range(16):
        for vl in range(16):
            k = pad(kl)
            ls.append(build(kl + vl + 8, [(k, pad(vl))]))
            ls.append(build(kl + vl + 7 + 5 * r.randrange(2), [(k, pad(vl)), (b"", b"")]))
    for s in range(8, 301):
        kl = r.randrange(s - 7)
        k, v = pad(kl), pad(s - 8 - kl)
        ls.append(build(s, [(k, v)]))           # exactly fits
        ls.append(build(s - 1, [(k, v)]))       # the end does not
        ls.append(build(s - 2, [(k, v)]))       # nor the pair
        if s > 20:
            ls.append(build(s + r.randrange(3), [(k[:kl // 2], v[:len(v) // 2]), (k[kl // 2:], v[len(v) // 2:][:max(0, len(v) - len(v) // 2 - 6)])]))
        t = b"{" + pad(s - 4)
        ls.append(["jbuf 0 %d %s" % (s, xb(t)), "jend 0 %d" % s, "jbuf 0 %d %s" % (s, xb(t + b"x")), "jend 0 %d" % s, "jbuf 0 %d %s" % (s, xb(t + b"xy")), "jend 0 %d" % s, "jstart 0 %d" % r.randrange(s + 1)])
    for n in range(1, 101):
        for x in r.sample(shapes(r, n), 20 if n <= 40 else 6):
            x = bytes(c or 7 for c in x)
            for y in r.sample(alike(r, x), 3):
                y = bytes(c or 7 for c in y)
                ls.append(build(2 * n + 8 + r.randrange(3), [(x, y)]))
    for n in range(2, 14):      # many pairs
        ls.append(build(400, [(pad(r.randrange(4)), pad(r.randrange(6))) for _ in range(n)]))
    r.shuffle(ls)
    return dealt_groups("sys", r, ls, 12), 4


def dealt_groups(name, r, gs, k):
    return [["note " + name] + ambient(r) + [l for x in gs[j:j + k] for l in x] for j in range(0, len(gs), k)]


def C06(r):
    ls = []
    ok = [c for c in range(1, 256) if c not in (34, 92)]
    pad = lambda n: bytes(r.choice(b"kxyz,:{} 1vw_-") for _ in range(n))
    doc = lambda d, q, m: ls.append(["jdoc %s %s %d" % (xb(d), xb(q), max(0, m))])
    obj = lambda *ps: b"{" + b",".join(b'"' + k + b'":"' + v + b'"' for k, v in ps) + b"}"
    for c in ok:
        b = bytes([c])
        for k, v in ((b, pad(2)), (pad(2), b), (b + pad(2), pad(1) + b), (pad(1) + b, b + pad(2)), (pad(1) + b + pad(1), pad(1) + b + pad(1))):
            doc(obj((k, v)), k, len(v) + 1)
            doc(obj((pad(3), k), (k, v)), k, len(v) + 1)
            doc(obj((k + b"q", b), (k, v)), k, len(v) + r.choice([0, 1, 4]))
            doc(obj((k, v)), b, 4)
    for kl in range(16):
        for vl in range(16):
            k, v = pad(kl), pad(vl)
            doc(obj((k, v)), k, vl + 1)
            doc(obj((b"q%d" % kl, v), (k, v), (b"z", pad(3))), k, vl + r.choice([0, 1, 2]))
    for n in list(range(1, 301)):
        k, v = pad(r.randrange(1, 4)), pad(r.randrange(4))
        fill = obj((b"f", pad(n)))[:-1]
        doc(fill + b"," + obj((k + b"k", v))[1:], k + b"k", len(v) + 1)                 # far into the text
        if n > 12:
            doc(obj((b"f", pad(n - 12)), (k, v)), k, len(v) + 1)
        doc(obj((pad(n) + b"q", v)), pad(r.choice([n, n + 1])), 5)                      # not there
        if n >= 200 or n % 7 == 0:
            a = pad(n)
            doc(obj((a, v)), a, len(v) + 1)
            doc(obj((k, a)), k, n + 1)
            doc(obj((k, a)), k, n)
            doc(obj((k, a), (k + b"2", v)), k + b"2", len(v) + 1)
        doc(obj((k, pad(n))), k, r.randrange(n + 30))
        doc(obj((k, v)), k, n)
    for a in range(21):         # white space before and after a colon, around everything else
        for b in range(21):
            if a < 6 or b < 6 or r.random() < 0.2:
                w = lambda n: bytes(r.choice(b" \n\t\r") for _ in range(n))
                k, v = pad(2) + b"k", pad(3)
                doc(b"{" + w(b) + b'"' + k + b'"' + w(a) + b":" + w(b) + b'"' + v + b'"' + w(a) + b"}" + w(r.randrange(3)), k, 4)
    for one in b" \n\t\r":
        for two in b" \n\t\r":
            w = bytes([one, two])
            k, v = pad(2) + b"k", pad(3)
            for j in range(5):
                g_ = [b""] * 5
                g_[j] = w
                doc(b"{" + g_[0] + b'"' + k + b'"' + g_[1] + b":" + g_[2] + b'"' + v + b'"' + g_[3] + b',"z":"y"' + g_[4] + b"}", r.choice([k, k, b"z"]), 4)
    clean = lambda x: bytes(c if c not in (0, 34, 92) else 7 for c in x)
    for n in range(1, 101):
        for x in r.sample(shapes(r, n), 16 if n <= 40 else 4):
            x = clean(x)
            for y in r.sample(alike(r, x, all=n < 6), 5):
                y = clean(y)
                doc(obj((y, x), (x, y)), x, n + r.choice([0, 1, 1]))
                doc(obj((x, y), (y, b"last")), y, max(5, n + 1))
                doc(obj((b"a", x), (y, b"b")), x, n + 1)
    for n in range(1, 13):      # the n-th member of many; the same key again
        for at in range(n):
            ps = [(b"k%d" % j, b"v%d" % (j * 7)) for j in range(n)]
            doc(obj(*ps), b"k%d" % at, 5)
            doc(obj(*(ps + [(b"k%d" % at, b"again")])), b"k%d" % at, 7)
            bare = b"{" + b",".join(b'"k%d":%s' % (j, b'"v%d"' % j if j == at else r.choice([b"1", b"true", b"null", b"false", b"-0.5e+7", b"1234567890"])) for j in range(n)) + b"}"
            doc(bare, b"k%d" % at, 5)
    r.shuffle(ls)
    return dealt_groups("sys", r, ls, 16), 5


def C07(r):
    ls = []
    for n in range(100):
        el = 4 * ((n + 2) // 3)
        x = rbytes(r, n)
        ls += ["b64e %s %d" % (xb(x if r.random() < 0.5 else rbytes(r, n)), max(0, el + d)) for d in range(-20, 21)]
    ls += ["b64e %s %d" % (xb(rbytes(r, r.choice([1, 2, 3, r.randrange(0, 60)]))), m) for m in range(301)]
    for n in range(1, 301):
        ls += ["b64e %s %d" % (xb(x), 4 * ((n + 2) // 3) + 1) for x in some_shapes(r, n, 3)]
    # every pair of bytes at the first two places of a group, the last two, and across
    tri = [bytes([a, b, a]) for a in range(256) for b in range(256)]
    r.shuffle(tri)
    tri = [b"".join(tri[j:j + 512]) for j in range(0, len(tri), 512)]
    big = [["note pairs"] + ambient(r) + ["b64e %s %d" % (xb(t), 4 * len(t) // 3 + 1)] for t in tri]
    return dealt("sys", r, ls) + big, 6


def C08(r):
    ls = []
    dec = lambda d, m, sp=None: ls.append("b64d %s %d %d" % (xb(spelled(r, d, sp)), max(0, m), len(d)))
    for n in range(1, 100):
        d = rbytes(r, n)
        for k in range(-10, 21):
            dec(d, n + k)
    for m in range(301):
        n = r.choice([1, 2, 3, r.randrange(1, 60)])
        dec(rbytes(r, n), m)
    for n in range(1, 301):
        for x in some_shapes(r, n, 3):
            dec(x, n)
    for sp in range(6):         # every pair of letters at every place of a group
        six = [(a << 18 | b << 12 | a << 6 | b).to_bytes(3, "big") for a in range(64) for b in range(64)]
        r.shuffle(six)
        for j in range(0, 4096, 256):
            t = b"".join(six[j:j + 256])
            dec(t, len(t), sp)
    for a in range(64):         # the last group short by one and by two
        for b in range(64):
            if b % 4 == a % 4:
                dec(r.randbytes(3 * r.randrange(3)) + (a << 18 | b << 12 | r.randrange(64) << 6).to_bytes(3, "big")[:2], 20)
            if b % 16 == 0:
                dec(r.randbytes(3 * r.randrange(3)) + bytes([a << 2 | b >> 4]), 20)
    return dealt("sys", r, ls), 6


# ------------------------------------------------------------------------- sort
def C09(r):
    ls, parts = [], []
    for alg in ALGS:
        for n in range(1, 20):
            for at in range(n):
                es = r.choice([1, 2, 3, 4])
                for v, lo, hi in ((0, 1, 256), (255, 0, 255), (7, 0, 256), (200, 0, 200), (100, 101, 256)):     # one that is the least, the greatest, anything
                    if v in (7, 200, 100) and r.random() < 0.6:
                        continue
                    els = [bytes([v if k == at else r.randrange(lo, hi)]) + r.randbytes(es - 1) for k in range(n)]
                    ls.append("sort %s %d %d %s" % (alg, es, 0, xb(b"".join(els))))
                if at:                                                                                       # two exchanged in an ordered list
                    els = [bytes([10 * k + 3]) + r.randbytes(es - 1) for k in range(n)]
                    j = r.randrange(at)
                    els[at], els[j] = els[j], els[at]
                    ls.append("sort %s %d %d %s" % (alg, es, r.choice([0, 1, 2]), xb(b"".join(els))))
        for n in range(2, 20):
            for es in range(1, 65):
                if n <= 4 or es <= 8 or r.random() < 0.25:
                    ls.append(sort_random(r, alg, n, es, r.choice(modes_for(es))))
        for es in list(range(1, 65)) + (list(range(65, 301, 3)) if alg != "insertion" else []):
            s = some_shapes(r, es, 3)
            for j in range(0, len(s), 6):
                els = s[j:j + 3] + [r.choice(alike(r, r.choice(s[j:j + 3]))) for _ in range(r.randrange(1, 5))]
                r.shuffle(els)
                ls.append("sort %s %d %d %s" % (alg, es, r.choice([0, 0, 1]), xb(b"".join(els))))
        for n in range(1, 101):         # the whole area of some shape
            for es in [e for e in range(1, 65) if n % e == 0]:
                ls += ["sort %s %d 0 %s" % (alg, es, xb(x)) for x in r.sample(shapes(r, n), 8 if es == 1 else 3)]
        for ks in itertools.product(range(5), repeat=5):        # every weak order of five
            if set(ks) == set(range(max(ks) + 1)) and max(ks) > 2:
                ls.append("sort %s 2 0 %s" % (alg, xb(b"".join(bytes([30 * k + 7, j]) for j, k in enumerate(ks)))))
        for ks in itertools.permutations(range(6)):
            ls.append("sort %s 1 0 %s" % (alg, xb(bytes(30 * k + 7 for k in ks))))
        for n in range(61, 301):
            ls.append("sortn %s 5 %d %d %d %d" % (alg, n, *r.choice(sort_shapes(r, n))))
        for x in range(256):
            ls.append("sort %s 2 0 %s" % (alg, xb(b"".join(bytes([k, j]) for j, k in enumerate(r.sample([x, x, x ^ 255, (x + 1) & 255, (x - 1) & 255, x ^ 128], 6))))))
    r.shuffle(ls)
    return dealt("sys", r, ls, 20), 7


# --------------------------------------------------------------------- check values
def C11(r):
    ls = []
    for fam in (CRC8, CRC16, CRC32):
        for _ in range(2):
            ns = r.sample(range(301), 301)
            vs = r.sample(fam, len(fam))
            ls += ["crc %s %s" % (vs[j % len(vs)], crc_message(r, n)) for j, n in enumerate(ns)]
        for n in list(range(1, 70)) + [127, 128, 129, 255, 256, 257]:
            ls += ["crc %s %s" % (r.choice(fam), xb(x)) for x in r.sample(shapes(r, n), 12)]
        for x in range(256):
            for k in (2, 3, r.randrange(4, 30)):
                b = bytearray(r.randbytes(k))
                b[r.choice([0, -1])] = x
                ls.append("crc %s %s" % (r.choice(fam), xb(b)))
    for v in CRCS:
        for n in range(1, 33):
            ls.append("crc %s %s" % (v, xb(r.choice(shapes(r, n)))))
        for x in range(0, 256, 2):      # a message after which the register, and so the value, begins or ends with a given byte
            reg = Register(v)
            w = reg.w
            m = reg.feed(r.randbytes(r.randrange(4)))
            y = (r.getrandbits(w) & ~255 | x ^ r.randrange(2)) if x & 2 else (r.getrandbits(w) & ~(255 << w - 8) | (x ^ r.randrange(2)) << w - 8)
            ls.append("crc %s %s" % (v, xb(m + reg.towards(y))))
    r.shuffle(ls)
    return dealt("sys", r, ls, 80), 6


def C12(r):
    gs = []
    for fam in (CRC8, CRC16, CRC32):
        for first in (0, 1):
            for last in (0, 1):
                vs = r.sample(fam, len(fam))
                for j, n in enumerate(r.sample(range(301), 301)):
                    v, i = vs[j % len(vs)], r.randrange(3)
                    gs.append(["cnew %d %s" % (i, v)] + ([] if first else ["cchunk %d %s 0" % (i, crc_message(r, r.randrange(4)))]) + ["cchunk %d %s %d" % (i, crc_message(r, n), last)]
                              + ([] if last else ["cchunk %d %s 1" % (i, crc_message(r, r.randrange(4)))]))
        for x in range(256):
            v, i = r.choice(fam), r.randrange(3)
            gs.append(["cnew %d %s" % (i, v)] + ["cchunk %d %s %d" % (i, xb(b), f) for b, f in ((bytes([x]), 0), (bytes([r.randrange(256), x]), 0), (bytes([x, r.randrange(256)]), 0), (bytes([x]), 1))])
        for n in range(1, 41):
            for x in r.sample(shapes(r, n), 8):
                v, i, k = r.choice(fam), r.randrange(3), r.randrange(n + 1)
                gs.append(["cnew %d %s" % (i, v), "cchunk %d %s 0" % (i, xb(x[:k])), "cchunk %d %s 1" % (i, xb(x[k:]))])
    for v in CRCS:
        for a in range(5):
            for b in range(5):
                gs.append(["cnew 0 " + v, "cchunk 0 %s 0" % xb(r.randbytes(a)), "cchunk 0 %s 0" % xb(r.randbytes(b)), "cchunk 0 %s %d" % (xb(r.randbytes(r.randrange(3))), 1)])
        for k in range(8):      # many pieces
            n = r.choice([5, 8, 13, 30])
            gs.append(["cnew 1 " + v] + ["cchunk 1 %s %d" % (xb(r.randbytes(r.choice([0, 1, 1, 2]))), j == n - 1) for j in range(n)])
        for x in range(0, 256, 4):      # a register handed back that begins or ends with a given byte
            reg = Register(v)
            w = reg.w
            m = reg.feed(r.randbytes(r.randrange(4)))
            y = (r.getrandbits(w) & ~255 | x + r.randrange(4)) if x & 4 else (r.getrandbits(w) & ~(255 << w - 8) | (x + r.randrange(4)) << w - 8)
            gs.append(["cnew 0 " + v, "cchunk 0 %s 0" % xb(m + reg.towards(y)), "cchunk 0 %s 1" % xb(r.randbytes(r.randrange(3)))])
    r.shuffle(gs)
    return dealt_groups("sys", r, gs, 25), 6


# ---------------------------------------------------------------------- ciphers
def chacha_lines(r, op):
    ls = []
    line = lambda k, n, c, d, ip: ls.append("%s %s %s %d %s %d" % (op, xb(k), xb(n), c & 0xFFFFFFFF, d if isinstance(d, str) else xb(d), ip))
    ctrs = set(range(301)) | {2**32 - c for c in range(1, 301)} | {2**b + d for b in range(32) for d in (-1, 0, 1)} | {2**32 - 2**b for b in range(32)} | {c << s for c in range(256) for s in (8, 16, 24) if c % 5 == s % 3}
    for c in sorted(ctrs):
        line(r.randbytes(32), r.randbytes(12), c, r.randbytes(r.choice([1, 9, 64, 64, 65])), r.randrange(2))
    for n in range(0, 301):
        for ip in (0, 1):
            line(ch_key(r, 32), ch_key(r, 12), r.randrange(2**32), r.randbytes(n), ip)
    for x in range(256):
        for size, which in ((32, 0), (12, 1)):
            for at in (0, size - 1, r.randrange(size)):
                b = [bytearray(r.randbytes(32)), bytearray(r.randbytes(12))]
                b[which][at] = x
                line(b[0], b[1], r.randrange(2**32), r.randbytes(r.choice([1, 4, 33, 64])), r.randrange(2))
        d = bytearray(r.randbytes(r.randrange(1, 70)))
        d[r.choice([0, -1])] = x
        line(r.randbytes(32), r.randbytes(12), r.randrange(2**32), d, r.randrange(2))
    for n in range(1, 131):     # the result is all zero, all one, the key, ...
        k, no, c = r.randbytes(32), r.randbytes(12), r.randrange(2**32)
        ks = b"".join(keystream(k, c + j, no) for j in range(3))[:n]
        for t in (bytes(n), b"\xff" * n, (k * 5)[:n]) if n % 3 == 0 else (bytes(n),):
            line(k, no, c, bytes(a ^ b for a, b in zip(ks, t)), r.randrange(2))
        for x in r.sample(shapes(r, n), 8):
            line(r.randbytes(32), r.randbytes(12), r.randrange(2**32), x, r.randrange(2))
    for k in shapes(r, 32):
        line(k, r.choice(shapes(r, 12)), r.choice([0, 1, r.randrange(2**32)]), r.randbytes(r.choice([5, 64, 70])), r.randrange(2))
    for k in shapes(r, 12):
        line(r.choice(shapes(r, 32)), k, r.choice([0, 1, r.randrange(2**32)]), r.randbytes(r.choice([5, 64, 70])), r.randrange(2))
    for b in range(1, 101):
        line(r.randbytes(32), r.randbytes(12), r.choice([0, 1, 2**32 - b, 2**32 - b + 1, r.randrange(2**32)]), g(r.randrange(256), r.randrange(256), r.randrange(256), 64 * b + r.choice([0, 0, 1, 63])), r.randrange(2))
    r.shuffle(ls)
    return dealt("sys", r, ls, 20) + [["note align", "place M %d %d" % (a, s)] + r.sample(ls, 2) for a in range(16) for s in range(0, 16)]


def C13(r):
    return chacha_lines(r, "chacha"), 8


def C14(r):
    parts = chacha_lines(r, "hback")
    for n in range(1, 101):     # pieces of whole blocks, any number of them
        k = r.choice([1, 2, n]) if n < 12 else r.choice([1, 2])
        if n > 12 and n % 6:
            continue
        out = ["note stream"] + ambient(r) + ["hnew 0 %s %s %d" % (xb(r.randbytes(32)), xb(r.randbytes(12)), r.choice([0, 1, 2**32 - n, 2**32 - n // 2 - 1, 2**31 - 1, 65535, 255, r.randrange(2**32)]))]
        left = n
        while left:
            m = min(left, (n + k - 1) // k)
            left -= m
            out.append("hpart 0 %s %d" % (g(r.randrange(256), r.randrange(256), r.randrange(256), 64 * m + (r.choice([0, 1, 63]) if not left else 0)), r.randrange(2)))
        parts.append(out + ["hwhole 0 %d" % r.randrange(2)])
    return parts, 8


def C15(r):
    ls = []
    for n in range(41):
        for s in range(27):
            if n < 14 or s % 3 == n % 3:
                ls.append("caesar %d %s" % (r.choice([s, s, s + 26, s + 26 * r.randrange(9)]), xb(plain_message(r, n))))
        for d in range(-20, 21):
            if n < 12 or d % 4 == n % 4 or abs(d) < 3:
                ls.append(vernam(r, n, n + d) if d else vernam(r, n))
    for n in range(1, 101):
        for x in shapes(r, n) if n <= 40 else r.sample(shapes(r, n), 12):
            x = bytes(c or 65 for c in x)
            lets = bytes(r.choice(LET) for _ in x)
            ls += ["caesar %d %s" % (r.randrange(256), xb(x)), "vernam %s %d %s" % (xb(lets), n, xb(x)), "vernam %s %d %s" % (xb(r.choice(shapes(r, n))), n, xb(lets)), "vernam %s %d %s" % (xb(r.choice(alike(r, lets))), n, xb(lets))]
    for a in b"AZazMm":         # messages and keys of one letter; case patterns
        for b in b"AZazNn":
            for n in (1, 2, 3, 8):
                ls += ["vernam %s %d %s" % (xb([a] * n), n, xb([b] * n)), "caesar %d %s" % (a, xb([b] * n))]
    for n in range(1, 9):
        for bits in range(1 << n):
            if n < 6 or bits % 7 == 0:
                m = bytes(r.randrange(26) + (65 if bits >> k & 1 else 97) for k in range(n))
                k = bytes(r.randrange(26) + (65 if r.random() < 0.5 else 97) for _ in range(n))
                ls += ["vernam %s %d %s" % (xb(k), n, xb(m)), "caesar %d %s" % (r.randrange(256), xb(m))]
    return dealt("sys", r, ls, 30) + [["note align", "place M %d %d" % (a, s)] + r.sample(ls, 2) for a in range(16) for s in range(0, 16, 3)], 4


# ------------------------------------------------------------------------ words
def C16(r):
    ss = []
    for n in range(1, 12):
        for at in range(n):
            for c in range(256):
                b = bytearray(r.randrange(48, 58) for _ in range(n))
                b[at] = c
                ss.append(bytes(b))
    for v in range(301):
        ss += [b"%d" % v, (b"%d" % v).rjust(r.randrange(1, 12), b"0"), b"%d" % (2**32 - 1 - v), b"%d" % (2**32 + v), b"%d" % (2**31 - v), b"%d" % (10**10 - 1 - v)]
    for b in range(35):
        ss += [b"%d" % (2**b + d) for d in (-1, 0, 1) if 2**b + d >= 0]
    for e in range(11):
        ss += [b"%d" % (d * 10**e + k) for d in range(1, 10) for k in (-1, 0, 1)]
        ss += [b"%d" % ((2**32 // 10**e + k) * 10**e) for k in (-1, 0, 1, 2)]
    for n in range(1, 256):
        ss += [b"0" * n, bytes(r.randrange(48, 58) for _ in range(n)), b"0" * (n - 1) + bytes([r.randrange(49, 58)])]
        at, x = r.randrange(n), bytearray(r.randrange(48, 58) for _ in range(n))
        x[at] = r.choice([c for c in range(256) if not 48 <= c <= 57])
        ss += [bytes(x)] + ([b"0" * (n - 10) + b"%010d" % r.randrange(2**32)] if n > 10 else [])
    for n in range(2, 11):
        ss += [bytes(sorted(r.randrange(48, 58) for _ in range(n))), bytes([r.randrange(48, 58)]) * n, (bytes(r.randrange(48, 58) for _ in range((n + 1) // 2)) * 2)[:n]]
        ss += [b"%d" % (10**(n - 1) * d) for d in range(1, 10)]
    r.shuffle(ss)
    ls = ["s2u " + xb(s) for s in ss]
    return dealt("sys", r, ls, 40) + [["note align", "place M %d 1" % a] + r.sample(ls, 4) for a in range(16)], 4


def C17(r):
    ls = []
    for v in bits32():
        for w in (8, 16, 24, 32):
            u = v - 2**32 + 2**w if v >= 2**32 - 2**(w - 1) else v      # -v of that width
            if u < 2**w or r.random() < 0.1:
                for o, end in (("be", "big"), ("le", "little")):
                    ls += ["ser %d %s %d" % (w, o, u % 2**32), "des %s %s" % (o, xb((u % 2**w).to_bytes(w // 8, end)))]
    for v in patterns32():
        for o, end in (("be", "big"), ("le", "little")):
            ls += ["ser %d %s %d" % (r.choice([8, 16, 24, 32, 32, 32]), o, v), "des %s %s" % (o, xb(v.to_bytes(4, end)))]
    for n in range(1, 5):
        for at in range(n):
            for x in range(256):
                b = bytearray(r.randbytes(n))
                b[at] = x
                for o in ("be", "le"):
                    ls.append("des %s %s" % (o, xb(b)))
                    ls.append("ser %d %s %d" % (8 * n, o, int.from_bytes(b, "big")))
    for n in range(1, 301):
        for x in some_shapes(r, n, 2):
            ls += ["blob %s %s %s" % (k, o, xb(x)) for k in ("ser", "des") for o in ("be", "le") if n <= 64 or r.random() < 0.3]
            if n <= 40 or r.random() < 0.5:
                ls.append("swap %s %s" % (xb(x), xb(r.choice(alike(r, x)))))
    for n in range(1, 20):
        x = r.randbytes(n)
        ls += ["swap %s %s" % (xb(x), xb(y)) for y in alike(r, x, all=True)]
    r.shuffle(ls)
    parts = dealt("sys", r, ls, 60)
    for a in range(16):
        for s in range(16):
            out = ["note align", "place M %d %d" % (a, s)]
            for n in r.sample(range(1, 34), 3) + [r.randrange(1, 80)]:
                x, y = r.randbytes(n), r.randbytes(n)
                out += ["blob %s %s %s" % (k, o, xb(x)) for k in ("ser", "des") for o in ("be", "le")] + ["swap %s %s" % (xb(x), xb(y))]
            parts.append(out + ["des %s %s" % (o, xb(r.randbytes(w))) for w in (1, 2, 3, 4) for o in ("be", "le")] + ["ser %d %s %d" % (w, o, r.randrange(2**32)) for w in (8, 16, 24, 32) for o in ("be", "le")])
    return parts, 5


def C18(r):
    ls = []
    for v in bits32():
        n = r.randrange(32)
        ls += ["bit %s %d %d" % (f, v, r.choice([n, r.randrange(32)])) for f in ("test", "set", "clear", "toggle")] + ["rotl %d %d" % (v, r.randrange(33)), "refl %d %d" % (v, r.choice([8, 16, 32, r.randrange(33)]))]
    for at in range(4):
        for x in range(256):
            v = r.getrandbits(32) & ~(255 << 8 * at) | x << 8 * at
            ls += ["bit %s %d %d" % (f, v, r.randrange(32)) for f in ("test", "set", "clear", "toggle")] + ["rotl %d %d" % (v, r.randrange(33)), "refl %d %d" % (v, r.choice([8, 16, 32, r.randrange(33)]))]
    for v in patterns32():
        ls += ["refl %d 32" % v, "refl %d %d" % (v, r.randrange(33)), "rotl %d %d" % (v, r.randrange(33))] + ["bit %s %d %d" % (f, v, r.randrange(32)) for f in ("test", "set", "clear", "toggle")]
    for n in range(33):
        for b in range(32):
            ls += ["rotl %d %d" % (1 << b, n), "refl %d %d" % (1 << b, n), "refl %d %d" % (0xFFFFFFFF ^ 1 << b, n)]
            if n < 32:
                ls += ["bit %s %d %d" % (f, v, n) for f in ("test", "set", "clear", "toggle") for v in (1 << b, 0xFFFFFFFF ^ 1 << b) if r.random() < 0.5]
    r.shuffle(ls)
    return dealt("sys", r, ls, 120), 5


C10 = C09


def parts(pid, r):
    f = globals().get(pid)
    return f(r) if f else ([], 1)
