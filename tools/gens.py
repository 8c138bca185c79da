"""Call-script generators.  A generator only chooses calls; it never says what they should do."""
import base64, itertools, os, random, re


def xb(b):
    return "x" + bytes(b).hex()


def g(a, b, c, n):
    return "g:%d:%d:%d:%d" % (a, b, c, n)


def rbytes(rng, n):
    return seasoned(rng, bytes(rng.randrange(256) for _ in range(n)))


def seasoned(rng, b, bad=b""):
    """now and then with a byte string in it that is written in the sources under test"""
    toks = getattr(rng, "tokens", None)
    if toks and b and rng.random() < 0.1:
        t = rng.choice(toks)[:len(b)]
        if not any(c in bad for c in t):
            at = rng.choice([0, 0, len(b) - len(t), rng.randrange(len(b) - len(t) + 1)])
            return b[:at] + t + b[at + len(t):]
    return b


def tok_parts(pid, r, t):
    """t wherever a call of the property takes bytes"""
    n, ok = len(t), b"\0" not in t
    out = ["note token"] + ambient(r)
    fill = lambda k: bytes(r.randrange(1, 128) for _ in range(k))
    put = lambda k: r.choice([fill(k) + t, t + fill(k), fill(k) + t + fill(r.randrange(1, 5))])
    if pid == "C01":
        for e in (t, put(r.randrange(1, 4))):
            m = len(e)
            out += ["qinit 0 3 %d 1" % m, "qenq 0 " + xb(fill(m)), "qenq 0 " + xb(e), "qrear 0 1", "qenq 0 " + xb(fill(m)), "qdeq 0 1", "qfront 0 1", "qenq 0 " + xb(e), "qenq 0 " + xb(e)]
            out += ["qstat 0", "qdeq 0 1", "qdeq 0 1", "qdeq 0 1", "qdeq 0 1"]
    elif pid == "C02":
        for e in (t, put(r.randrange(1, 4))):
            m = len(e)
            out += ["pinit 0 3 %d 1" % m, "penq 0 5 " + xb(fill(m)), "penq 0 4 " + xb(e), "penq 0 5 " + xb(e), "penq 0 %d %s" % (r.choice([4, 5, 9]), xb(e)), "penq 0 6 " + xb(fill(m))] + ["pdeq 0"] * 4
    elif pid == "C03":
        for k in (t, put(r.randrange(1, 4))):
            v = put(r.randrange(0, 4))
            out += ["minit 0 %d %d 3 1 1" % (len(k), len(v)), "mins 0 %s %s" % (xb(fill(len(k))), xb(v)), "mget 0 " + xb(k), "mins 0 %s %s" % (xb(k), xb(fill(len(v)))), "mget 0 " + xb(k),
                    "mins 0 %s %s" % (xb(k), xb(v)), "mins 0 %s %s" % (xb(fill(len(k))), xb(v)), "mget 0 " + xb(k), "mins 0 %s %s" % (xb(fill(len(k))), xb(v))]
    elif pid == "C05" and ok:
        for a in (t, put(2)):
            for b in (t, fill(3), b"", put(1)):
                for k, v in ((a, b), (b, a)):
                    size = len(k) + len(v) + 25
                    out += ["jbuf 0 %d x" % size, "jstart 0 %d" % size, "jadd 0 %d %s %s" % (size, xb(k), xb(v)), "jadd 0 %d x61 x62" % size, "jend 0 %d" % size]
            out += j_fits(r, a, b"v", b'{"k":"v"')[3:] + j_fits(r, b"k", a, b'{')[3:] + j_fits(r, b"k", b"v", a)[3:]
    elif pid == "C06" and not any(c in b'\0"\\' for c in t):
        f2 = lambda k: bytes(r.choice(b"abkz019_ ,:{}") for _ in range(k))
        for a in (t, f2(2) + t, t + f2(2), f2(1) + t + f2(1)):
            b = f2(3)
            for k, v in ((a, b), (b, a), (a, a), (a, t)):
                for d in (b'{"' + k + b'":"' + v + b'"}', b'{"a":"' + v + b'","' + k + b'":"q", "' + t + b'x" : "1"}', b'{"' + k + b'":1,"z":"' + v + b'"}'):
                    out += ["jdoc %s %s %d" % (xb(d), xb(q), len(v) + r.choice([1, 1, 5])) for q in (k, b"a", b"z", t + b"x")]
    elif pid == "C07":
        out += ["b64e %s %d" % (xb(d), 4 * ((len(d) + 2) // 3) + r.choice([1, 1, 0, 9])) for d in (t, put(1), put(2), put(3), t + t, fill(3) + t + fill(3))]
    elif pid == "C08":
        for d in (t, put(1), put(2), put(3), fill(3) + t + fill(3)):
            out += ["b64d %s %d %d" % (xb(spelled(r, d)), len(d) + r.choice([0, 0, -1, 3]), len(d)) for _ in range(3)]
        q = bytes(c for c in t if chr(c).isalnum() and c < 128 or c in b"+/-_")
        for x in (q, b"A" * r.randrange(1, 5) + q, b"QUJD" + q, q + b"QUJDREVG"):
            x = (x + b"AAA")[:(len(x) + 3) // 4 * 4]
            if x:
                out += ["b64d %s %d %d" % (xb(x), len(x) // 4 * 3 + r.choice([0, 0, 2]), len(x) // 4 * 3)]
    elif pid in ("C09", "C10"):
        e = put(r.randrange(0, 3))
        for alg in ALGS:
            if alg == "insertion" and len(e) > 64:          # MAX_ELEMENT_SIZE
                continue
            for k in (2, 3, 5, r.randrange(6, 20)):
                els = [fill(len(e)) if r.random() < 0.6 else r.choice([e, bytes(x ^ (j == len(e) - 1) for j, x in enumerate(e))]) for _ in range(k - 1)] + [e]
                r.shuffle(els)
                out.append("sort %s %d %d %s" % (alg, len(e), r.choice([0, 1, 2]), xb(b"".join(els))))
    elif pid in ("C11", "C12"):
        for v in CRCS if n > 1 else r.sample(CRCS, 6):
            m = put(r.randrange(0, 4))
            if pid == "C11":
                out += ["crc %s %s" % (v, xb(m)), "crc %s %s" % (v, xb(t))]
            else:
                at = r.randrange(len(m) + 1)
                out += ["cnew 0 " + v, "cchunk 0 %s 0" % xb(m[:at]), "cchunk 0 %s 0" % xb(t), "cchunk 0 %s 1" % xb(m[at:])]
    elif pid in ("C13", "C14"):
        key = (put(r.randrange(0, 20)) + rbytes(r, 32))[:32]
        for k, no, d in ((key, rbytes(r, 12), rbytes(r, 70)), (rbytes(r, 32), (t + rbytes(r, 12))[:12], rbytes(r, 70)), (rbytes(r, 32), (rbytes(r, 12) + t)[-12:], put(60)), (ch_key(r, 32), ch_key(r, 12), put(r.randrange(70)))):
            out.append("%s %s %s %d %s %d" % ("chacha" if pid == "C13" else "hback", xb(k), xb(no), ch_ctr(r), xb(d), r.randrange(2)))
    elif pid == "C15":
        lets = lambda k: bytes(r.choice(LET) for _ in range(k))
        for m in (t, t + lets(3), lets(2) + t, lets(3) + t + lets(2)):
            k = (lets(2) + t + lets(len(m)))[:len(m)]
            if ok:
                out += ["caesar %d %s" % (r.randrange(256), xb(m)), "vernam %s %d %s" % (xb(lets(len(m))), len(m), xb(m)), "vernam %s %d %s" % (xb((t + lets(len(m)))[:len(m)]), len(m), xb(m))]
            out += ["vernam %s %d %s" % (xb(k), len(m), xb(lets(len(m))))]
    elif pid == "C16":
        out += ["s2u " + xb(x[:255]) for x in (t, b"1" + t, t + b"1", b"12" + t + b"3", b"00" + t)]
    elif pid == "C17":
        for m in (t, put(1), put(2), put(9)):
            out += ["blob %s %s %s" % (k, o, xb(m)) for k in ("ser", "des") for o in ("be", "le")] + ["swap %s %s" % (xb(m), xb(fill(len(m)))), "swap %s %s" % (xb(fill(len(m))), xb(m))]
        for w in (1, 2, 3, 4):
            out += ["des %s %s" % (o, xb((m + fill(4))[:w])) for o in ("be", "le") for m in (t, fill(1) + t, fill(2) + t)]
    return out


def arrangements(r, b):
    """other byte strings of the same bytes: hashes and sums that do not look at the order agree"""
    b = bytes(b)
    return [b[::-1], b[1:] + b[:1], b[-1:] + b[:-1], bytes(sorted(b)), bytes(r.sample(list(b), len(b)))]


def keystream(key, ctr, nonce):
    """one block, to make messages whose encryption is remarkable"""
    rot = lambda x, n: (x << n | x >> 32 - n) & 0xFFFFFFFF
    s = [0x61707865, 0x3320646E, 0x79622D32, 0x6B206574] + [int.from_bytes(key[4 * k:4 * k + 4], "little") for k in range(8)] + [ctr & 0xFFFFFFFF] + [int.from_bytes(nonce[4 * k:4 * k + 4], "little") for k in range(3)]
    x = list(s)
    for k in range(20):
        for j in range(4):
            a, b, c, d = (j, 4 + j, 8 + j, 12 + j) if k % 2 == 0 else (j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4)
            for p, q, z, n in ((a, b, d, 16), (c, d, b, 12), (a, b, d, 8), (c, d, b, 7)):
                x[p] = (x[p] + x[q]) & 0xFFFFFFFF
                x[z] = rot(x[z] ^ x[p], n)
    return b"".join(((u + v) & 0xFFFFFFFF).to_bytes(4, "little") for u, v in zip(x, s))


def rel_parts(pid, r):
    """arguments that stand in a relation to one another or to the state: equal, reversed, rearranged, complemented, a
    size or a count of the state as bytes, a message with its own check value, ..."""
    out = ["note rel"] + ambient(r)
    if pid == "C01":
        es, cap = r.choice([1, 2, 4, 4, 5, 8, 12, 16]), r.choice([2, 3, 4, 5, 8])
        num = lambda n: (n & 0xFFFFFFFF).to_bytes(4, "little")
        fit = lambda b: (b + bytes(es))[:es]
        els = [rbytes(r, es)]
        out.append("qinit 0 %d %d 1" % (cap, es))
        for k in range(24):
            e = els[-1]
            n = r.choice([r.choice(arrangements(r, e)), e, e, bytes(255 - b for b in e), e[:-1] + bytes([e[-1] ^ 1]), fit(num(cap) + num(es)), fit(num(k % cap)), fit(num(es)), fit(num(k)), rbytes(r, es)])
            els.append(n)
            out += ["qenq 0 " + xb(n)] + r.choice([[], ["qdeq 0 1"], ["qdeq 0 1", "qrear 0 1"], ["qfront 0 1"], ["qdeq 0 1"] * 2])
        out += ["qrear 0 1", "qstat 0"] + ["qdeq 0 1"] * cap
    elif pid == "C02":
        es, cap = r.choice([1, 2, 4, 4, 5, 8]), r.choice([2, 3, 4, 5, 8])
        out.append("pinit 0 %d %d 1" % (cap, es))
        last, e = 7, rbytes(r, es)
        for k in range(24):
            pr = r.choice([k, k % cap, cap, es, last, last, last + 1, max(0, last - 1), last ^ 1, last ^ 0x80000000, 0xFFFFFFFF - last, cap * es, int.from_bytes(e[:4], "little")])
            e = r.choice([r.choice(arrangements(r, e)), e, ((pr & 0xFFFFFFFF).to_bytes(4, "little") + bytes(es))[:es], bytes(255 - b for b in e), rbytes(r, es)])
            last = pr & 0xFFFFFFFF
            out += ["penq 0 %d %s" % (last, xb(e))] + r.choice([[], [], ["pdeq 0"]])
        out += ["pdeq 0"] * cap
    elif pid == "C03":
        ks, cap = r.choice([1, 2, 3, 4, 8, 8, 16, 20, 33]), r.choice([2, 4, 7, 12])
        vs = r.choice([ks, ks, 1, 4])
        out.append("minit 0 %d %d %d 1 1" % (ks, vs, cap))
        k0 = rbytes(r, ks) if r.random() < 0.5 else bytes(r.randrange(97, 100) for _ in range(ks))
        keys = [k0] + arrangements(r, k0) + [bytes(255 - b for b in k0), (k0[:ks // 2] * 2 + k0)[:ks], bytes(ks), b"\xff" * ks]
        if ks > 1:
            a, b = r.sample(range(ks), 2)       # the same sum, the same exclusive or
            t = bytearray(k0)
            t[a], t[b] = (t[a] + 1) & 255, (t[b] - 1) & 255
            u = bytearray(k0)
            u[a] ^= 0x20
            u[b] ^= 0x20
            keys += [bytes(t), bytes(u)]
        r.shuffle(keys)
        fit = lambda b: (b * (vs // max(1, len(b)) + 1))[:vs]
        for k in keys:
            v = r.choice([fit(k), fit(r.choice(keys)), rbytes(r, vs), bytes(vs)])
            out += ["mget 0 " + xb(k), "mins 0 %s %s" % (xb(k), xb(v)), "mget 0 " + xb(r.choice(keys))]
        for k in keys + r.sample(keys, len(keys) // 2):
            out += r.choice([[], ["mins 0 %s %s" % (xb(k), xb(r.choice([fit(k), fit(r.choice(keys))])))]]) + ["mget 0 " + xb(k)]
    elif pid in ("C05", "C06"):
        a = bytes(r.choice(b"abcdk01_ ") for _ in range(r.choice([1, 2, 3, 4, 6, 9])))
        rel = [a, a + a, a[:-1], a[1:], a + b"x", b"x" + a, a.upper(), a.swapcase(), b" " + a, a + b" "] + arrangements(r, a)
        ps = [(r.choice([a, r.choice(rel)]), r.choice([a, r.choice(rel)])) for _ in range(r.choice([2, 3, 4]))]
        if pid == "C05":
            size = sum(len(k) + len(v) + 6 for k, v in ps) + 2
            for s in (size, size - 1, size + 5):
                out += ["jbuf 0 %d x" % s, "jstart 0 %d" % s] + ["jadd 0 %d %s %s" % (s, xb(k), xb(v)) for k, v in ps] + ["jend 0 %d" % s]
        else:
            sp = lambda: r.choice([b"", b"", b" ", b"\n", b"\t", b"\r\n"])
            doc = b"{" + b",".join(sp() + b'"' + k + b'"' + sp() + b":" + sp() + (b'"' + v + b'"' if r.random() < 0.8 else r.choice([b"1", b"true", b"null", b"-2.5e3"])) + sp() for k, v in ps) + b"}"
            for q in {k for k, _ in ps} | {v for _, v in ps} | set(r.sample(rel, 4)):
                out += ["jdoc %s %s %d" % (xb(doc), xb(q), m) for m in {len(a) + 1, len(a), len(doc), r.randrange(1, 2 * len(a) + 3)}]
    elif pid in ("C07", "C08"):
        d = rbytes(r, r.choice([1, 2, 3, 3, 4, 5, 6, 9, 12, 15]))
        e = base64.b64encode(d)
        for x in [d, d + d, d + d[::-1], d * 5, e, base64.b64encode(e), bytes(255 - b for b in d), d[:1] * len(d), e.rstrip(b"=")] + arrangements(r, d):
            out += ["b64e %s %d" % (xb(x), 4 * ((len(x) + 2) // 3) + r.choice([1, 1, 0, 2, len(x)]))] if pid == "C07" else ["b64d %s %d %d" % (xb(spelled(r, x)), len(x) + r.choice([0, 0, 1, -1, 4]), len(x))]
    elif pid in ("C09", "C10"):
        es = r.choice([2, 3, 4, 5, 8])
        for alg in ALGS:
            n = r.choice([4, 5, 7, 8, 9, 15, 16, 17])
            num = [bytes([k * 3 + 1] + [k] * (es - 1)) for k in range(n)]
            up = num[r.randrange(n):]
            shapes = [num, num[::-1], num[1:] + num[:1], num[-1:] + num[:-1], num[::2] + num[1::2], num[::2] + num[1::2][::-1], num[n // 2:] + num[:n // 2], num[1:2] + num[:1] + num[2:], num[:-2] + num[-1:] + num[-2:-1],
                      num[-1:] + num[1:-1] + num[:1], [num[0]] * (n - 1) + [num[1]], [num[1]] + [num[0]] * (n - 1), [num[k % 2] for k in range(n)], [num[k // 2] for k in range(n)], num[:n // 2] + num[:n - n // 2],
                      [bytes([5]) + e[1:] for e in num], [bytes([n - 1 - k if k % 2 else k]) + e[1:] for k, e in enumerate(num)], up + up[::-1]]
            for s in r.sample(shapes, 9):
                out.append("sort %s %d %d %s" % (alg, es, r.choice([0, 0, 1, 2]), xb(b"".join(s))))
    elif pid in ("C11", "C12"):
        for v in CRCS:
            w = CRC_PARAMETERS[v][0] // 8
            reg = Register(v)
            m = reg.feed(rbytes(r, r.randrange(0, 12)))
            own = reg.r
            own = reflected(own, 8 * w) if reg.ref else own
            own ^= reg.xor
            for order in ("big", "little"):
                x = m + own.to_bytes(w, order)
                more = rbytes(r, r.choice([0, 0, 2]))
                out += ["crc %s %s" % (v, xb(x + more))] if pid == "C11" else ["cnew 0 " + v, "cchunk 0 %s 0" % xb(m), "cchunk 0 %s %d" % (xb(x[len(m):]), not more)] + (["cchunk 0 %s 1" % xb(more)] if more else [])
            y = r.choice(arrangements(r, m) if m else [b""])
            out += ["crc %s %s" % (v, xb(z)) for z in (m + m, m + y, m[:1] * 9)] if pid == "C11" else ["cnew 0 " + v, "cchunk 0 %s 0" % xb(m), "cchunk 0 %s 0" % xb(m), "cchunk 0 %s 1" % xb(y)]
    elif pid in ("C13", "C14"):
        k, n, c = ch_key(r, 32), ch_key(r, 12), ch_ctr(r)
        ks = b"".join(keystream(k, c + j, n) for j in range(3))
        w = rbytes(r, 4)
        sets = [(k, n, c, k), (k, k[:12], c, k + n), (k, k[-12:], c, ks[:70]), (k, n, c, ks), (k, n, c, bytes(255 - b for b in ks[:130])), (w * 8, w * 3, int.from_bytes(w, "little"), w * 20), (w * 8, n, c, n + k),
                (k[:16] * 2, n, c, k * 3), (k, n[::-1], c, n * 6), (rbytes(r, 32), n, c, ks[64:] + ks[:64]), (k, n, 64, bytes(64)), (k, n, 65, bytes(65)), (k, n, int.from_bytes(n[:4], "little"), rbytes(r, 66)),
                (k, n, int.from_bytes(k[28:], "little"), rbytes(r, 66)), (k, n, int.from_bytes(n[:4], "big"), rbytes(r, 66)), (k, n, c, bytes(a ^ b for a, b in zip(ks, k * 6)))]
        for a, b, q, d in sets:
            out += ["%s %s %s %d %s %d" % ("chacha" if pid == "C13" else "hback", xb(a), xb(b), q, xb(d), t) for t in (0, 1)]
    elif pid == "C15":
        m = message(r, r.choice([1, 2, 3, 5, 8, 12, 26]))
        lets = bytes(r.choice(LET) for _ in range(len(m)))
        for x in [m, lets, m + m, m[:1] * len(m), lets + lets[::-1]] + arrangements(r, m):
            out += ["caesar %d %s" % (s & 255, xb(x)) for s in (len(x), x[0], x[-1], x[0] - 65, 26 - (x[0] - 65) % 26, x[0] - 97, 255 - x[0])]
            out += ["vernam %s %d %s" % (xb(k), len(x), xb(x)) for k in [x, x.swapcase(), x[::-1], bytes((155 - b) & 255 for b in x), bytes((b + 1) & 255 for b in x), bytes(187 - b if 97 <= b < 123 else b for b in x)]]
    elif pid == "C16":
        d = bytes(r.randrange(48, 58) for _ in range(r.choice([1, 2, 3, 5, 9, 10])))
        out += ["s2u " + xb(x) for x in [d, d[::-1], d[:1] * 10, d[:1] * 9, b"%010d" % len(d), b"%d" % len(d), d + d, b"0" * (10 - len(d)) + d] + arrangements(r, d)]
    elif pid == "C17":
        for n in (1, 2, 3, 4, 5, 8, 13, 64):
            m = rbytes(r, n)
            for x in [m, m + m[::-1], m[:1] * n, bytes([n & 255]) * n, (n.to_bytes(4, "little") * n)[:n]] + arrangements(r, m)[:2]:
                out += ["blob %s %s %s" % (k, o, xb(x)) for k in ("ser", "des") for o in ("be", "le")]
                out += ["swap %s %s" % (xb(x), xb(y)) for y in (x, x[::-1], bytes(255 - b for b in x), x[1:] + x[:1])]
                if n <= 4:
                    out += ["des %s %s" % (o, xb(x[:n])) for o in ("be", "le")] + ["ser %d %s %d" % (8 * n, o, v & (1 << 8 * n) - 1) for o in ("be", "le") for v in (int.from_bytes(x[:n], "big"), n, 8 * n, int.from_bytes(x[:n], "little"))]
    elif pid == "C18":
        for n in range(33):
            b = (1 << n) & 0xFFFFFFFF
            for v in {n, b, ~b & 0xFFFFFFFF, b - 1 & 0xFFFFFFFF, (b << 1) - 1 & 0xFFFFFFFF, -b & 0xFFFFFFFF, b | 1, b | 0x80000000, n * 0x01010101, int(format(b | n, "032b")[::-1], 2), 31 - min(n, 31)}:
                out += ["rotl %d %d" % (v, n), "refl %d %d" % (v, n)] + (["bit %s %d %d" % (f, v, n) for f in ("test", "set", "clear", "toggle")] if n < 32 else [])
    return out


def ambient(rng):
    """placement of areas against the unmapped pages, and what fresh memory holds"""
    return ["place " + rng.choice(["R", "R", "L", "M %d" % rng.choice([1, 2, 3, 4, 5, 7, 8, 9, 13])]), "fill %d" % rng.choice([0xC3, 0x00, 0xFF, 0x01, 0x22, rng.randrange(256)])]


# ------------------------------------------------------------------- queue
class Elems:
    """elements: fresh numbers, or a small alphabet"""
    def __init__(self, rng, esz):
        self.rng, self.esz, self.n = rng, esz, rng.randrange(1000)
        self.kind = rng.choice("ffffrs")

    def numbered(self):
        return self.esz <= 4 or self.kind == "f"

    def next(self):
        self.n += 1
        if self.kind == "f":
            b = self.n.to_bytes(4, "little")
            return bytes((b[k] if k < 4 else (self.n * 7 + k * 13 + 5) & 255) for k in range(self.esz))
        if self.kind == "s":
            return bytes([self.rng.choice([0, 0, 1, 0xFF, 0x80])] * self.esz)
        return rbytes(self.rng, self.esz)


def q_tour(walk, rng, id=0, esz=None):
    esz = esz or rng.choice([1, 2, 3, 4, 5, 8])
    cap = walk[0]["s"][0]
    el = Elems(rng, esz)
    out = ["note tour"] + ambient(rng) + ["qinit %d %d %d 1" % (id, cap, esz)]
    for e in walk:
        op, nil = e["a"]
        if op == "enq":
            out.append("qenq %s %s" % ("-" if nil == 2 else id, "-" if nil == 1 else xb(el.next())))
        elif op in ("deq", "front", "rear"):
            out.append("q%s %s %d" % (op, "-" if nil == 2 else id, 0 if nil == 1 else 1))
        elif op == "stat":
            out.append("qstat %d" % id)
        else:
            out.append(rng.choice(["qinit %d 0 %d 1" % (id, esz), "qinit %d %d 0 1" % (id, cap), "qinit %d %d %d 0" % (id, cap, esz)]))
    return out


def q_ops(rng, id, cap, esz, n, size=0, bulk=False):
    el = Elems(rng, esz)
    out, phase = [], 0
    bias = 0.5
    for _ in range(n):
        phase -= 1
        if phase <= 0:
            phase = rng.randrange(1, 3 * min(cap, 40) + 3)
            bias = rng.choice([0.9, 0.1, 0.5, 0.65])
        r = rng.random()
        if r < 0.70:
            if rng.random() < bias:
                out.append("qenq %d %s" % (id, xb(el.next())))
            else:
                out.append("qdeq %d 1" % id)
        elif r < 0.78:
            out.append("qfront %d 1" % id)
        elif r < 0.86:
            out.append("qrear %d 1" % id)
        elif r < 0.93:
            out.append("qstat %d" % id)
        elif r < 0.97:
            out.append(rng.choice(["qenq %d -" % id, "qdeq %d 0" % id, "qfront %d 0" % id, "qrear %d 0" % id,
                                   "qenq - %s" % xb(el.next()), "qdeq - 1", "qfront - 1", "qrear - 1"]))
        elif r < 0.985:
            out.append(rng.choice(["qinit %d 0 %d 1" % (id, esz), "qinit %d %d 0 1" % (id, cap), "qinit %d %d %d 0" % (id, cap, esz)]))
        else:
            k = rng.randrange(1, cap + 3) if cap < 400 else rng.randrange(1, 50)
            out.append(rng.choice(["qfill %d %d %d" % (id, el.n, k), "qdrain %d %d" % (id, k) if el.numbered() else "qdeq %d 1" % id]))
            el.n += k
    return out


def q_life(rng, id=0, n=60, caps=(1, 1, 2, 2, 3, 4, 5, 7, 8, 16, 17), eszs=(1, 1, 2, 3, 4, 4, 5, 7, 8, 12, 16, 33)):
    cap, esz = rng.choice(caps), rng.choice(eszs)
    out = ["note queue"] + ambient(rng) + ["qinit %d %d %d 1" % (id, cap, esz), "qstat %d" % id] + q_ops(rng, id, cap, esz, n)
    while rng.random() < 0.4:       # the queue, as it then is, initialised again: with its old storage or with another
        old = cap, esz
        cap, esz = rng.choice([old, old, (rng.choice(caps), rng.choice(eszs))])
        if rng.random() < 0.3:
            cap, esz = old[1], old[0]
        out += ["qinit %d %d %d %d" % (id, cap, esz, rng.choice([1, 2, 2])), "qstat %d" % id] + (["qdeq %d 1" % id, "qfront %d 1" % id] if rng.random() < 0.5 else []) + q_ops(rng, id, cap, esz, n // 2)
    return out


def q_width(rng, esz, id=0):
    cap = rng.choice([1, 2, 2, 3])
    enq = lambda: "qenq %d %s" % (id, wide_bytes(rng, esz))
    out = ["note width"] + ambient(rng) + ["qinit %d %d %d 1" % (id, cap, esz)] + [enq() for _ in range(cap)]
    for _ in range(2):
        out += ["qfront %d 1" % id, "qdeq %d 1" % id, enq(), "qrear %d 1" % id]
    return out + ["qdeq %d 1" % id]


def q_churn(rng, n, id=0):
    """a small queue used for a long time"""
    cap = rng.choice([1, 2, 3, 3, 5, 6, 7])
    s, t = rng.randrange(cap), rng.randrange(1, 60000)
    return ["note churn"] + ambient(rng) + ["qinit %d %d 2 1" % (id, cap), "qfill %d %d %d" % (id, t, s), "qchurn %d %d %d" % (id, t + s, n), "qstat %d" % id,
            "qfill %d 7 %d" % (id, cap), "qstat %d" % id, "qdrain %d %d" % (id, cap + 1)]


def q_big(rng, cap, esz, rounds=3, id=0):
    """fill, overfill, drain, wrap"""
    t = rng.randrange(1, 50)
    out = ["note big"] + ambient(rng) + ["qinit %d %d %d 1" % (id, cap, esz), "qfill %d %d %d" % (id, t, cap - 1), "qstat %d" % id]
    t += cap
    for r in range(rounds):
        a, b = rng.randrange(1, cap + 1), rng.randrange(1, cap + 4)
        out += ["qfill %d %d %d" % (id, t, 3), "qstat %d" % id, "qrear %d 1" % id, "qfront %d 1" % id,
                "qdrain %d %d" % (id, a), "qstat %d" % id, "qfill %d %d %d" % (id, t + 3, b), "qrear %d 1" % id, "qfront %d 1" % id]
        t += 3 + b
    out += ["qdrain %d %d" % (id, cap + 2), "qstat %d" % id]
    return out


# ---------------------------------------------------------- priority queue
PRIOS = [[0, 1, 2], [0, 1], [5], [0, 0xFFFFFFFF], [0, 1, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF], [255, 256, 257, 0],
         [65535, 65536, 65537, 1], [0x10000, 0x20000, 0x10001, 0x1FFFF], list(range(10)), None]


def p_tour(walk, rng, id=0):
    cap = walk[0]["s"][0]
    esz = rng.choice([1, 2, 3, 4, 6, 8])
    el = Elems(rng, esz)
    ranks = sorted(rng.choice([rng.sample(range(2**32), 6), [0, 1, 2, 3, 4, 5], [0, 0x7FFFFFFF, 0x80000000, 0x80000001, 0xFFFFFFFE, 0xFFFFFFFF],
                               [0, 255, 256, 65535, 65536, 0x1000000]]))
    out = ["note tour"] + ambient(rng) + ["pinit %d %d %d 1" % (id, cap, esz)]
    for e in walk:
        op, r = e["a"]
        if op == "enq":
            out.append("penq %d %d %s" % (id, ranks[r], xb(el.next())))
        elif op == "deq":
            out.append("pdeq %d" % id)
        elif op == "stat":
            out.append("pstat %d" % id)
        else:
            out.append(p_badinit(rng, id, cap, esz))
    return out


def p_badinit(rng, id, cap, esz):
    return rng.choice(["pinit %d 0 %d 1" % (id, esz), "pinit %d %d 0 1" % (id, cap), "pinit %d %d %d 0" % (id, cap, esz), "pinit - %d %d 1" % (cap, esz)])


def p_ops(rng, id, cap, esz, n):
    el = Elems(rng, esz)
    pr = rng.choice(PRIOS)
    prio = (lambda: rng.choice(pr)) if pr else (lambda: rng.randrange(2**32))
    out, phase, bias = [], 0, 0.5
    for _ in range(n):
        phase -= 1
        if phase <= 0:
            phase = rng.randrange(1, 3 * min(cap, 30) + 3)
            bias = rng.choice([0.95, 0.1, 0.5, 0.7])
        r = rng.random()
        if r < 0.85:
            out.append("penq %d %d %s" % (id, prio(), xb(el.next())) if rng.random() < bias else "pdeq %d" % id)
        elif r < 0.95:
            out.append("pstat %d" % id)
        elif r < 0.98:
            out.append(p_badinit(rng, id, cap, esz))
        else:
            k = rng.randrange(1, min(cap, 20) + 3)
            out.append(rng.choice(["pfill %d %d %d %d %d %d" % (id, el.n, k, rng.randrange(5), rng.randrange(9), rng.randrange(1, 6)),
                                   "pdrain %d %d" % (id, k) if el.numbered() else "pdeq %d" % id]))
            el.n += k
    return out


def p_life(rng, id=0, n=60, caps=(1, 1, 2, 2, 3, 4, 5, 6, 8, 9), eszs=(1, 2, 3, 4, 4, 5, 8, 12, 33)):
    cap, esz = rng.choice(caps), rng.choice(eszs)
    out = ["note pq"] + ambient(rng) + ["pinit %d %d %d 1" % (id, cap, esz), "pstat %d" % id] + p_ops(rng, id, cap, esz, n)
    while rng.random() < 0.4:
        old = cap, esz
        cap, esz = rng.choice([old, old, (rng.choice(caps), rng.choice(eszs))])
        out += ["pinit %d %d %d %d" % (id, cap, esz, rng.choice([1, 2, 2])), "pstat %d" % id] + (["pdeq %d" % id] if rng.random() < 0.5 else []) + p_ops(rng, id, cap, esz, n // 2)
    return out + ["pdeq %d" % id] * (cap + 1)


def p_churn(rng, n, id=0):
    cap = rng.choice([1, 2, 3, 3, 5, 6])
    s, t, p = rng.randrange(cap), rng.randrange(1, 60000), rng.choice([0, 5, 65535])
    return ["note churn"] + ambient(rng) + ["pinit %d %d 2 1" % (id, cap), "pfill %d %d %d 0 %d 70000" % (id, t, s, p), "pchurn %d %d %d %d" % (id, t + s, n, p), "pstat %d" % id,
            "pfill %d 7 %d 1 0 5" % (id, cap), "pdrain %d %d" % (id, cap + 1)]


def p_big(rng, cap, esz, over=8, drain=12, id=0):
    pm = rng.choice([1, 2, 3, 7, 61, 1000, 65521])
    a, b = rng.randrange(1, 60), rng.randrange(100)
    t = rng.randrange(1, 100)
    return ["note big"] + ambient(rng) + ["pinit %d %d %d 1" % (id, cap, esz), "pfill %d %d %d %d %d %d" % (id, t, cap, a, b, pm), "pstat %d" % id,
            "pfill %d %d %d %d %d %d" % (id, t + cap, over, 1, 0, 70000), "pdrain %d %d" % (id, drain),
            "pfill %d %d %d %d %d %d" % (id, t + cap + over, drain + 2, a, b, pm), "pdrain %d %d" % (id, drain), "pstat %d" % id]


def q_top16(rng, esz, id=0):
    """both ends of a queue at positions above 65535, one after another"""
    cap, t = 65536 + rng.randrange(4, 9), rng.randrange(1, 200)
    out = ["note top"] + ambient(rng) + ["qinit %d %d %d 1" % (id, cap, esz), "qfill %d %d 65535" % (id, t), "qdrain %d 65534" % id, "qfront %d 1" % id]
    for k in range(12):
        out += ["qfill %d %d 1" % (id, t + 65535 + k), "qrear %d 1" % id, "qdrain %d 1" % id, "qfront %d 1" % id]
    return out + ["qdrain %d 3" % id, "qstat %d" % id]


def p_top16(rng, id=0):
    """elements at positions above 65535 that are the best, the worst, displaced and moved"""
    esz, cap, t = rng.choice([2, 3, 5]), 65536 + rng.randrange(4, 9), rng.randrange(1, 200)
    e = lambda pr: "penq %d %d %s" % (id, pr, xb(rbytes(rng, esz)))
    return (["note top"] + ambient(rng) + ["pinit %d %d %d 1" % (id, cap, esz), "pfill %d %d 65536 0 5 9" % (id, t), e(3), e(9)] + [e(5)] * (cap - 65539) + [e(8), "pstat %d" % id, e(4), e(6)]
            + ["pdeq %d" % id] * 2 + [e(2), e(7), e(5), e(6)] + ["pdeq %d" % id] * 5 + ["pstat %d" % id])


def wide_bytes(rng, n):
    """n bytes in which no two distant parts are alike"""
    return g(rng.randrange(1, 256, 2), rng.randrange(256), rng.randrange(1, 256, 2), n)


def p_wide(rng, esz, id=0):
    """elements of any width: equal priorities drained in order, removal from the front and from the middle,
    displacement at the front and behind"""
    out = ["note wide"] + ambient(rng) + ["pinit %d 3 %d 1" % (id, esz)]
    e = lambda pr: "penq %d %d %s" % (id, pr, wide_bytes(rng, esz))
    out += [e(5), e(5), e(5), "pdeq %d" % id, e(5), "pdeq %d" % id, "pdeq %d" % id]
    out += [e(9), e(7), "pdeq %d" % id, e(1), e(3), e(2), "pdeq %d" % id, e(4), "pdeq %d" % id, "pdeq %d" % id, "pdeq %d" % id]
    return out


def p_prios(rng, words, id=0):
    """priorities from a list, and their neighbours"""
    cap, esz = rng.choice([2, 3, 4, 6]), rng.choice([2, 4, 5])
    el = Elems(rng, esz)
    out = ["note prios"] + ambient(rng) + ["pinit %d %d %d 1" % (id, cap, esz)]
    few = rng.sample(words, min(len(words), 5))
    for _ in range(4 * cap):
        out.append("penq %d %d %s" % (id, rng.choice(few), xb(el.next())) if rng.random() < 0.7 else "pdeq %d" % id)
    return out + ["pdeq %d" % id] * (cap + 1)


# --------------------------------------------------------------------- map
def m_keys(rng, ks):
    """a confusable family of keys"""
    base = bytes(rng.choice([0, 0, 1, 97, 255]) for _ in range(ks))
    out = [base]
    for _ in range(rng.randrange(2, 7)):
        b = bytearray(rng.choice(out))
        p = rng.choice([0, ks - 1, ks // 2, rng.randrange(ks)])
        b[p] = rng.choice([0, 1, b[p] ^ 1, 97, 255, rng.randrange(256)])
        out.append(bytes(b))
    return out


def m_tour(walk, rng, id=0):
    mx = walk[0]["s"][0]
    ks, vs = rng.choice([1, 2, 3, 4, 8, 13]), rng.choice([1, 2, 3, 4, 8, 11])
    while True:
        keys = list(dict.fromkeys(m_keys(rng, ks) + m_keys(rng, ks) + [rbytes(rng, ks) for _ in range(8)]))
        if len(keys) >= 8:
            break
    vals = list(dict.fromkeys([bytes(vs), b"\xff" * vs] + [rbytes(rng, vs) for _ in range(9)]))
    rng.shuffle(keys)
    rng.shuffle(vals)
    while len(vals) < 8:
        vals.append(rbytes(rng, vs))
    out = ["note tour"] + ambient(rng) + ["minit %d %d %d %d 1 1" % (id, ks, vs, mx)]
    for e in walk:
        op, k, v = e["a"]
        if op == "ins":
            out.append("mins %d %s %s" % (id, xb(keys[k]), xb(vals[v])))
        elif op == "get":
            out.append("mget %d %s" % (id, xb(keys[k])))
        elif op == "nil":
            out.append(rng.choice(["mins - %s %s" % (xb(keys[0]), xb(vals[0])), "mget - %s" % xb(keys[0])]))
        else:
            out.append(m_badinit(rng, id, ks, vs, mx))
    return out


def m_badinit(rng, id, ks, vs, mx):
    return rng.choice(["minit %d 0 %d %d 1 1" % (id, vs, mx), "minit %d %d 0 %d 1 1" % (id, ks, mx), "minit %d %d %d 0 1 1" % (id, ks, vs),
                       "minit %d %d %d %d 0 1" % (id, ks, vs, mx), "minit %d %d %d %d 1 0" % (id, ks, vs, mx)])


def m_life(rng, id=0, n=60, maxs=(1, 1, 2, 3, 4, 5, 8), kss=(1, 2, 2, 3, 4, 4, 5, 8, 9, 16, 33), vss=(1, 2, 3, 4, 4, 5, 8, 12, 40)):
    mx, ks, vs = rng.choice(maxs), rng.choice(kss), rng.choice(vss)
    keys = m_keys(rng, ks)
    out = ["note map"] + ambient(rng) + ["minit %d %d %d %d 1 1" % (id, ks, vs, mx)] + m_ops(rng, id, ks, vs, mx, n, keys)
    while rng.random() < 0.4:       # initialised again, also with keys of its former life left in the storage
        if rng.random() < 0.4:
            mx, ks, vs = rng.choice(maxs), rng.choice(kss), rng.choice(vss)
            keys = m_keys(rng, ks)
        out += ["minit %d %d %d %d %d %d" % (id, ks, vs, mx, rng.choice([1, 2, 2]), rng.choice([1, 2, 2]))]
        out += ["mget %d %s" % (id, xb(k)) for k in keys if rng.random() < 0.5] + m_ops(rng, id, ks, vs, mx, n // 2, keys)
    return out


def m_wide(rng, ks, vs, id=0):
    """keys and values of any width: keys that differ only at one end, every value replaced"""
    k = bytearray(rng.randbytes(ks))
    keys = [bytes(k)]
    for at in sorted({ks - 1, 0, ks // 2, min(ks - 1, 255), min(ks - 1, 65535)}):
        c = bytearray(k)
        c[at] ^= rng.choice([1, 128, 255])
        keys.append(bytes(c))
    keys = list(dict.fromkeys(keys))
    some = rng.sample(keys, min(3, len(keys)))
    out = ["note wide"] + ambient(rng) + ["minit %d %d %d %d 1 1" % (id, ks, vs, len(some) - rng.randrange(2) if len(some) > 1 else 1)]
    for j in range(2):
        out += ["mins %d %s %s" % (id, xb(x), wide_bytes(rng, vs)) for x in some]
        out += ["mget %d %s" % (id, xb(x)) for x in some]
    return out + ["mget %d %s" % (id, xb(x)) for x in keys if x not in some]


def m_width(rng, ks, vs, id=0):
    """two keys that differ in one byte, each stored and replaced"""
    k = bytearray(rng.randbytes(ks))
    a = bytes(k)
    k[rng.choice([ks - 1, 0, rng.randrange(ks)])] ^= rng.choice([1, 2, 32, 128, 255])
    ins = lambda x: "mins %d %s %s" % (id, xb(x), wide_bytes(rng, vs))
    get = lambda x: "mget %d %s" % (id, xb(x))
    return ["note width"] + ambient(rng) + ["minit %d %d %d %d 1 1" % (id, ks, vs, rng.choice([1, 2, 3])), ins(a), get(bytes(k)), ins(k), get(a), ins(a), get(k), get(a)]


def m_churn(rng, rounds, id=0):
    """a small map updated many times over"""
    mx, ks, vs = rng.choice([1, 2, 3, 5]), rng.choice([2, 3, 4]), rng.choice([2, 4, 5])
    k0 = rng.randrange(1, 999)
    out = ["note churn"] + ambient(rng) + ["minit %d %d %d %d 1 1" % (id, ks, vs, mx)]
    for j in range(rounds):
        out.append("mfill %d %d %d %d" % (id, k0, rng.choice([mx, mx, mx + 1]), rng.randrange(60000)))
        if rng.random() < 0.05:
            out.append("mlook %d %d %d 1" % (id, max(0, k0 - 1), mx + 2))
    return out + ["mlook %d %d %d 1" % (id, max(0, k0 - 1), mx + 2)]


def m_ops(rng, id, ks, vs, mx, n, keys=None):
    keys = (keys or m_keys(rng, ks)) + [rbytes(rng, ks) for _ in range(mx // 2 + 1)]
    out = []
    for _ in range(n):
        r = rng.random()
        k = rng.choice(keys)
        if r < 0.5:
            v = rng.choice([bytes(vs), b"\xff" * vs, rbytes(rng, vs), rbytes(rng, vs)])
            out.append("mins %d %s %s" % (id, xb(k), xb(v)))
        elif r < 0.94:
            out.append("mget %d %s" % (id, xb(k)))
        elif r < 0.97:
            out.append(rng.choice(["mins - %s %s" % (xb(k), xb(bytes(vs))), "mget - %s" % xb(k)]))
        else:
            out.append(m_badinit(rng, id, ks, vs, mx))
    for k in keys:
        out.append("mget %d %s" % (id, xb(k)))
    return out


def m_big(rng, mx, ks, vs, id=0, look=40):
    k0 = rng.randrange(1, 1000)
    st = max(1, mx // look)
    return ["note big"] + ambient(rng) + (["place L"] if mx > 5000 else []) + ["minit %d %d %d %d 1 1" % (id, ks, vs, mx), "mfill %d %d %d 7" % (id, k0, mx - 1), "mfill %d %d 3 50" % (id, k0 + mx - 1),
            "mlook %d %d %d %d" % (id, max(0, k0 - 3), look + 2, st), "mlook %d %d 12 1" % (id, k0 + mx - 8), "mfill %d %d 2 90" % (id, k0 + mx - 3),
            "mfill %d %d 5 77" % (id, k0), "mlook %d %d 12 1" % (id, k0 + mx - 8), "mlook %d %d 9 1" % (id, k0)]


# --------------------------------------------------------------- scheduler
def s_script(rng, tabs, depth, name):
    """caller operations"""
    out = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 5])):
        t, n = rng.choice(tabs)
        m = rng.choice([n, n, n, n, max(1, n - 1), rng.randrange(1, n + 1)])
        r = rng.random()
        k = rng.randrange(12)
        if r < 0.35:
            out.append("sadd %d %d %d %d" % (t, m, k, rng.random() < 0.75))
        elif r < 0.65:
            out.append("sset %d %d %d %d" % (t, rng.randrange(n), rng.choice([-1, -1, k, k, k]), rng.random() < 0.7))
        elif r < 0.70 and depth > 0:
            out.append("sinit %d %d" % (t, m))
        elif depth < 3:
            out.append("srun %d %d" % (t, m))
        else:
            out.append("sadd %d %d %d %d" % (t, m, k, rng.random() < 0.75))
    return out


def s_session(rng, base=0, sizes=(1, 2, 2, 3, 3, 4, 5, 8), rounds=6):
    tabs = [(base + j, rng.choice(sizes)) for j in range(rng.choice([1, 1, 2]))]
    out = ["note sched"] + ambient(rng) + ["progclear"]
    for t, n in tabs:
        out += ["stable %d %d" % (t, n), "sinit %d %d" % (t, n)]
    names = []
    for j in range(rng.randrange(2, 12)):
        name = "s%d" % j
        out += ["def " + name] + s_script(rng, tabs, rng.choice([1, 2, 3]), name) + ["end"]
        names.append(name)
    for k in range(12):
        if rng.random() < 0.6:
            out.append("prog %d %s" % (k, " ".join(rng.choice(names) for _ in range(rng.randrange(1, 4)))))
    for _ in range(rounds):
        for _ in range(rng.randrange(1, 4)):
            out += s_script(rng, tabs, 3, "")
        t, n = rng.choice(tabs)
        out.append("srun %d %d" % (t, n))
    for t, n in tabs:
        if rng.random() < 0.5:
            out += ["sinit %d %d" % (t, rng.randrange(0, n + 1)), "srun %d %d" % (t, n)]
    return out


def s_big(rng, n):
    """a long table: few live slots near interesting places"""
    out = ["note big"] + ambient(rng) + ["progclear", "stable 0 %d" % n, "srun 0 %d" % min(n, 3)]
    out += ["sset 0 %d -1 1" % (n - rng.randrange(2, min(n, 30))), "sadd 0 %d 6 1" % n, "sadd 0 %d 7 1" % n]  # the only free slot, then none
    out += ["sinit 0 %d" % (n - 1), "sadd 0 %d 0 1" % n]
    slots = sorted({s for s in [n - 1, n - 2, 1, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, rng.randrange(n)] if 0 < s < n})
    k = 1
    for s in slots:
        out.append("sset 0 %d %d %d" % (s, k, rng.random() < 0.85))
        k += 1
    out.append("srun 0 %d" % n)
    out.append("srun 0 %d" % (n - 1))
    out.append("sadd 0 1 5 1")
    return out


def s_churn(rng, passes):
    """many passes over one table"""
    n = rng.choice([1, 2, 3, 4])
    out = ["note churn"] + ambient(rng) + ["progclear", "stable 0 %d" % n, "sinit 0 %d" % n]
    for j in range(rng.randrange(1, n + 1)):
        out.append("sadd 0 %d %d %d" % (n, j, rng.random() < 0.8))
    for _ in range(passes):
        out.append("srun 0 %d" % n)
        if rng.random() < 0.02:
            out.append("sset 0 %d %d %d" % (rng.randrange(n), rng.choice([-1, 7, 8]), rng.random() < 0.7))
        if rng.random() < 0.02:
            out.append("sadd 0 %d 9 1" % n)
    return out


def s_full(rng, n):
    """fill a table entirely through addTask"""
    out = ["note fill"] + ambient(rng) + ["progclear", "stable 0 %d" % n, "sinit 0 %d" % n]
    for j in range(n + 1):
        out.append("sadd 0 %d %d %d" % (n, j % 30, rng.random() < 0.9))
    out += ["sset 0 %d -1 1" % rng.randrange(n), "srun 0 %d" % n, "sadd 0 %d 31 1" % n, "sadd 0 %d 30 1" % n, "srun 0 %d" % n]
    return out


def s_tour(walk, rng):
    """a walk through MC_Scheduler: caller operations, task starts and task ends.  What happens between a start and its
    end becomes the next program of that task."""
    nslots = len(walk[0]["s"][0])
    out = ["note tour"] + ambient(rng) + ["progclear", "stable 0 %d" % nslots, "sinit 0 %d" % nslots]
    progs, stack, top = {}, [], []
    defs = []
    cur = top
    names = [0]
    for e in walk:
        op = e["a"]
        if op[0] == "add":
            cur.append("sadd 0 %d %d %d" % (op[3], op[1], op[2]))
        elif op[0] == "set":
            cur.append("sset 0 %d %d %d" % (op[1] - 1, op[2], op[3]))
        elif op[0] == "init":
            cur.append("sinit 0 %d" % op[1])
        elif op[0] == "run":
            cur.append("srun 0 %d" % op[1])
        elif op[0] == "start":
            name = "t%d" % names[0]
            names[0] += 1
            body = []
            defs.append((name, body))
            progs.setdefault(op[1], []).append(name)
            stack.append(cur)
            cur = body
        elif op[0] == "end":
            cur = stack.pop()
    for name, body in defs:
        out += ["def " + name] + body + ["end"]
    for k in sorted(progs):
        for j in range(0, len(progs[k]), 50):
            out.append("prog %d %s" % (k, " ".join(progs[k][j:j + 50])))
    return out + top


# -------------------------------------------------------------------- JSON
SOME = [b"", b"a", b"b", b"ab", b"key", b"value", b",", b"}", b"{", b":", b"%s", b"%d%n", b" ", b"\\", b"\x80\xff", b"a\tb", b"'", b"x" * 20]


def j_pair(rng):
    k, v = rng.choice(SOME), rng.choice(SOME)
    if rng.random() < 0.3:
        v = bytes(rng.choice(b"abc,:{}[] 01\x7f\xc3") for _ in range(rng.randrange(30)))
    return k, v


def j_tour(walk, rng, id=0):
    size = walk[0]["s"][0]
    letter = rng.choice([97, 97, 37, 39, 255, 32])
    sub = lambda t: xb(letter if x == 97 else x for x in t)
    out = ["note tour"] + ambient(rng) + ["jbuf %d %d x" % (id, size)]
    for e in walk:
        op, n, k, v = e["a"]
        out.append("jstart %d %d" % (id, n) if op == "start" else "jend %d %d" % (id, n) if op == "end" else "jadd %d %d %s %s" % (id, n, sub(k), sub(v)))
    return out


def j_build(rng, id=0, size=None, n=None, check=True):
    """one buffer, several builder calls, sizes near the fits"""
    n = n or rng.randrange(1, 8)
    plan, length = [], 1
    pairs = [j_pair(rng) for _ in range(n)]
    full = 2 + sum(len(k) + len(v) + 5 for k, v in pairs) + n - 1 + 1
    size = size or max(1, rng.choice([full, full - 1, full + 1, full - 2, rng.randrange(1, full + 3), rng.randrange(1, 8), full + 50]))
    out = ["note json"] + ambient(rng)
    out.append("jbuf %d %d %s" % (id, size, xb(rng.choice([b"", b"", b"junk", b'"', b'{"', b"\xff" * (size + 3)]) if size > 1 else b"")))
    out.append("jstart %d %d" % (id, size))
    for k, v in pairs:
        s = size if rng.random() < 0.9 else rng.randrange(0, size + 1)
        if rng.random() < 0.05:
            out.append("jstart %d %d" % (id, s))
        out.append("jadd %d %d %s %s" % (id, s, xb(k), xb(v)))
        if rng.random() < 0.1:
            out.append("jend %d %d" % (id, rng.randrange(0, size + 1)))
        if check and rng.random() < 0.3 and b'"' not in k and b"\\" not in k + v:
            out.append("jfind %d %d %s %d" % (id, size, xb(k), len(v) + rng.randrange(0, 3)))
    out.append("jend %d %d" % (id, size))
    return out


def j_fits(rng, k, v, prefix, id=0):
    """one add to a given text, at every buffer size around the fit"""
    out = ["note fit"] + ambient(rng)
    need = len(prefix) + (1 if prefix.endswith(b'"') else 0) + len(k) + len(v) + 5 + 1
    for s in sorted({max(len(prefix) + 1, need + d) for d in (-4, -3, -2, -1, 0, 1, 2)}):
        out += ["jbuf %d %d %s" % (id, s, xb(prefix)), "jadd %d %d %s %s" % (id, s, xb(k), xb(v))]
    return out


def j_len(rng, n, m, id=0):
    """pairs with a key of n and a value of m bytes and the other way round, with room and without"""
    k, v = bytes(rng.choice(b"kxyz,:{} 1") for _ in range(n)), bytes(rng.choice(b"vwab,:{} 0") for _ in range(m))
    out = []
    for a, b in ((k, v), (v, k)):
        need = len(a) + len(b) + 5
        out += ["jbuf %d %d x" % (id, 2 + need + 1), "jstart %d %d" % (id, 2 + need + 1), "jadd %d %d %s %s" % (id, need + 3, xb(a), xb(b)), "jend %d %d" % (id, need + 3),
                "jfind %d %d %s %d" % (id, need + 3, xb(a), len(b) + 1), "jbuf %d %d x7b" % (id, need + 1), "jadd %d %d %s %s" % (id, need + 1, xb(a), xb(b))]
    return out


def j_edges(rng, id=0):
    """start and end at every small size, also with a stated size below the area, and on all kinds of text"""
    out = ["note ends"]
    for size in range(1, 7):
        for stated in range(0, size + 1):
            out += ambient(rng) + ["jbuf %d %d %s" % (id, size, xb(b"")), "jstart %d %d" % (id, stated)]
            for text in (b"", b"{", b'{"', b'{""', b'"', b"abcd", b'{"a"'):
                if len(text) < size:
                    out += ["jbuf %d %d %s" % (id, size, xb(text)), "jend %d %d" % (id, stated),
                            "jbuf %d %d %s" % (id, size, xb(text)), "jadd %d %d x x" % (id, stated)]
    return out


def j_reach(rng, length, id=0):
    """end and add on a text of the given length, at every room around the fit"""
    text = lambda tail: b'{"k":"' + b"y" * (length - 6 - len(tail)) + tail
    out = ["note reach"] + ambient(rng)
    for tail in (b'"', b"y", b"{"):
        for d in (1, 2, 3):
            out += ["jbuf %d %d %s" % (id, length + d, xb(text(tail))), "jend %d %d" % (id, length + d)]
        need = length + 1 + (tail == b'"')
        k, v = rng.choice([(b"", b""), (b"a", b""), (b"k", b"v"), (b"key", b"value"), (b"a" * 40, b"%d" * 20)])
        for d in (-2, -1, 0, 1):
            s = max(length + 1, need + len(k) + len(v) + 5 + d)
            out += ["jbuf %d %d %s" % (id, s, xb(text(tail))), "jadd %d %d %s %s" % (id, s, xb(k), xb(v))]
    return out + ["jbuf %d %d %s" % (id, length + 1, xb(text(b"}"))), "jstart %d %d" % (id, length + 1)]


# ------------------------------------------------------------- JSON lookup
KEYS = [b"a", b"b", b"aa", b"ab", b"ba", b"", b"key", b"key1", b"ke", b"ey", b"a b", b"a,b", b"a:b", b"true", b"1", b"{", b"}", b"id", b"idx", b"x" * 16]
def rbytes_plain(rng, n):
    return seasoned(rng, bytes(rng.choice([c for c in range(1, 256) if c not in (34, 92)]) for _ in range(n)), b'\0"\\')


WS = [b"", b"", b"", b" ", b"\n", b"\t", b"  ", b" \r\n\t"]


def relatives(rng, k):
    """keys and values that are easily taken for k"""
    out = [k]
    for _ in range(rng.randrange(2, 7)):
        b = bytearray(rng.choice(out))
        x = rng.choice(b"abkz019_ ,:{}%-.\t'\x80\xff\x7f")
        m = rng.randrange(11)
        i = rng.randrange(len(b)) if b else 0
        if m == 0 or not b:
            b.append(x)
        elif m == 1:
            b.insert(0, x)
        elif m == 2:
            b.pop()
        elif m == 3:
            b.pop(0)
        elif m == 4:
            b[i] = x
        elif m == 5:
            b[i] ^= 32 if bytes(b[i:i + 1]).isalpha() else 1
        elif m == 6:
            b.insert(i, x)
        elif m == 7:
            b = b + b
        elif m == 8:
            b = b + bytearray(rng.choice([b" ", b":", b"\x80", b"\t"]))
        elif m == 9:
            b[i] ^= 128
        else:
            b = b[::-1]
        b = bytes(c for c in b if c not in (0, 34, 92))
        out.append(b[:40])
    return out


def jl_doc(rng, ws=None, bare=True, big=0):
    keys = rng.sample(KEYS, rng.randrange(1, 5))
    if rng.random() < 0.5:
        keys = relatives(rng, rng.choice(KEYS + [rbytes_plain(rng, rng.choice([1, 2, 3, 4, 8, 15, 16, 17, 31, 32, 33]))]))
    mem, txt = [], b""
    w = (lambda: rng.choice(WS)) if (rng.random() < 0.5 if ws is None else ws) else (lambda: b"")
    parts = []
    for _ in range(rng.choice([0, 1, 1, 2, 2, 3, 3, 4, 6])):
        k = rng.choice(keys)
        r = rng.random()
        if bare and r < 0.25:
            v, s = rng.choice([b"1", b"0", b"-12.5e+3", b"true", b"false", b"null", b"123456"]), False
        else:
            v, s = rng.choice(keys + keys + [b"", b"v", b"val", b":", b",", b" ", b"{", b"}", b"a,b", b"a:b", b" a ", b"\x80", b"'a'", b"[1]", b"key:", b"value value"]), True
            if rng.random() < 0.1:
                v = bytes(rng.choice(b"abk:,{} ") for _ in range(rng.randrange(1, 40)))
        if big and rng.random() < 0.5:
            v, s = b"v" * big, True
        mem.append((k, s, v))
        parts.append(w() + b'"' + k + b'"' + w() + b":" + w() + (b'"' + v + b'"' if s else v) + w())
    txt = w() + b"{" + b",".join(parts) + (w() if not parts else b"") + b"}" + w()
    return txt, mem, keys


def jl_looks(rng, txt, mem, keys, n=3):
    out = []
    cand = [k for k, _, _ in mem] + keys + [rng.choice(KEYS)] + [v for _, s, v in mem if s and len(v) < 20]
    for _ in range(n):
        k = rng.choice(cand)
        vals = [v for kk, s, v in mem if kk == k and s]
        l = len(rng.choice(vals)) if vals else rng.randrange(5)
        m = max(0, l + rng.choice([1, 1, 1, 0, -1, 2, 10]))
        r = rng.random()
        d = txt
        if r < 0.15:
            d = txt + b"\0" + rng.choice([b'"a":"b"}', b',"%s":"no"}' % k, b"}", rbytes(rng, 5)])
        elif r < 0.27:
            d = txt + b"\0"
        out.append("jdoc %s %s %d" % (xb(d), xb(k), m))
    return out


def jl_cut(rng, txt, mem, keys):
    """buffer_size ends inside the text"""
    k = rng.choice([k for k, _, _ in mem] + keys)
    n = rng.randrange(len(txt) + 1)
    return ["jbuf 1 %d %s" % (len(txt) + 1, xb(txt)), "jfind 1 %d %s %d" % (n, xb(k), rng.choice([1, 2, 3, 5, 40]))]


def m_alias(rng):
    """keys handed over where they lie in the storage of the map itself"""
    ks = rng.choice([1, 2, 3, 4, 8, 9])
    vs, n = ks + rng.choice([0, 0, 1, 5]), rng.randrange(2, 6)
    out = ["note alias", "minit 0 %d %d %d 1 1" % (ks, vs, n + rng.randrange(4))]
    out += ["mins 0 %s %s" % (xb(bytes([k]) + rbytes(rng, ks - 1)), xb(bytes([rng.choice([k, k + 100])]) + rbytes(rng, vs - 1))) for k in range(n)]
    for _ in range(12):
        at = rng.choice("kv") + str(rng.randrange(n))
        out += [rng.choice(["mget 0 @%s" % at, "mins 0 @%s %s" % (at, xb(rbytes(rng, vs)))])]
    return out + ["mget 0 @k%d" % k for k in range(n)]


def jl_long(rng, n):
    """long keys, values and documents"""
    key, val = b"k" * n, b"w" * n
    d1 = b'{"' + key + b'":"' + val + b'","z":"t"}'
    d2 = b'{"y":"' + val + b'" , "' + key[:-1] + b'":"n","' + key + b'" : "y"}'
    out = []
    for d in (d1, d2):
        for k, l in ((key, n), (key[:-1], 1), (b"z", 1), (b"y", n), (key + b"k", 1)):
            for m in (l, l + 1):
                out.append("jdoc %s %s %d" % (xb(d), xb(k), m))
    return out


def jl_wide(rng, n):
    """keys, values and gaps of n bytes"""
    mk = lambda l, a: bytes(rng.choice(a) for _ in range(l))
    k, v = mk(n, b"kxy,:1 "), mk(n, b"vwz,:0 ")
    out = []
    for d, key, l in ((b'{"' + k + b'":"' + v + b'"}', k, n), (b'{"' + k + b'x":"1","' + k + b'":"q"}', k, 1), (b'{"a":' + b" " * n + b'"b"}', b"a", 1),
                      (b'{"a":"' + v + b'","b" :"c"}', b"b", 1), (b'{"' + k + b'":1,"b":"c"}', b"b", 1)):
        for m in (l + 1, l):
            out.append("jdoc %s %s %d" % (xb(d), xb(key), m))
    return out


# ------------------------------------------------------------------ base64
def b64_enc_room(rng, n):
    el = 4 * ((n + 2) // 3)
    out = []
    for m in sorted({max(0, el + d) for d in (-4, -3, -2, -1, 0, 1, 2, 7)} | {0, 1}):
        out.append("b64e %s %d" % (xb(rbytes(rng, n)), m))
    return out


def spelled(rng, d, sp=None):
    """a text of d: padded or not, standard, URL-safe or mixed alphabet"""
    t = base64.b64encode(d)
    sp = rng.randrange(6) if sp is None else sp
    if sp & 1:
        t = t.rstrip(b"=")
    if sp >= 4:
        t = bytes(rng.choice([c, {43: 45, 47: 95}.get(c, c)]) for c in t)
    elif sp & 2:
        t = t.replace(b"+", b"-").replace(b"/", b"_")
    return t


def b64_dec_room(rng, d, sp=None):
    t, n = spelled(rng, d, sp), len(d)
    return ["b64d %s %d %d" % (xb(t), m, n) for m in sorted({max(0, n + k) for k in (-3, -2, -1, 0, 1, 2)} | {0})]


def b64_junk(rng):
    """texts that are nobody's encoding: only memory is at stake"""
    k = rng.randrange(5)
    if k == 0:
        t = rbytes(rng, rng.randrange(0, 9))
    elif k == 1:
        t = b"=" * rng.randrange(0, 9)
    elif k == 2:
        t = bytes(rng.choice(b"AZaz09+/-_=") for _ in range(rng.randrange(0, 13)))
    elif k == 3:
        t = spelled(rng, rbytes(rng, rng.randrange(1, 10)))[:-1]
    else:
        t = spelled(rng, rbytes(rng, rng.randrange(1, 10))) + rng.choice([b"=", b"A", b"\n", b"\0"])
    return ["b64d %s %d %d" % (xb(t), m, m) for m in (rng.randrange(0, 12), 3 * len(t) // 4)]


# -------------------------------------------------------------------- sort
ALGS = ["bubble", "heap", "insertion", "selection"]


def sort_small(alg, maxn=5, keys=(1, 2, 3), es=2, extra=None):
    out = []
    for n in range(maxn + 1):
        for ks in itertools.product(keys, repeat=n):
            d = b"".join(bytes([k] + [10 + j] * (es - 1)) for j, k in enumerate(ks)) if es > 1 else bytes(ks)
            out.append("sort %s %d %d %s" % (alg, es, 0, xb(d)))
    return out


def sort_random(rng, alg, n, es, mode):
    keys = rng.choice([[0, 1], [0, 1, 2, 3], list(range(256)), [0, 127, 128, 255], [7]])
    els = []
    for j in range(n):
        b = bytearray(rbytes(rng, es))
        b[0] = rng.choice(keys)
        if es > 1 and rng.random() < 0.5:
            b[-1] = j & 255 if mode != 7 else b[0]
        if mode in (3, 6) and es > 1:
            b[1] = rng.choice([0, 1, 127, 128, 255])
        els.append(bytes(b))
    shape = rng.randrange(6)
    if shape == 0:
        els.sort()
    elif shape == 1:
        els.sort(reverse=True)
    elif shape == 2 and els:
        els = [els[0]] * n
    elif shape == 3:
        els.sort()
        if n > 1:
            i, j = rng.randrange(n), rng.randrange(n)
            els[i], els[j] = els[j], els[i]
    return "sort %s %d %d %s" % (alg, es, mode, xb(b"".join(els)))


def sort_shapes(rng, n):
    """(a, b, m) of the keys (a*i + b) mod m: orders that matter to some algorithm; n at most 32000"""
    m = 65521
    return [(1, 0, m), (m - 1, n - 1, m), (1, 0, 1), (1, rng.randrange(2), 2), (rng.randrange(1, 3), 0, 3),
            (1, m - 1, m),                    # the greatest first, the rest in order
            (1, m - (n - 1), m),              # the least last, the rest in order
            (m - 1, n - 2, m),                # the greatest last, the rest reversed
            (m - 1, 0, m),                    # the least first, the rest reversed
            (1, m - n // 2, m), (m - 1, n // 2, m),   # two runs, up and down
            (1, 0, max(1, n // 2)), (1, 0, max(1, n - 1)),
            (rng.randrange(1, 999), rng.randrange(50), rng.choice([3, 17, 256, m])), (rng.randrange(1, 30000), rng.randrange(50), m)]


def modes_for(es):
    return [0, 1, 2, 4, 5, 7] + ([3, 6] if es >= 2 else [])


# --------------------------------------------------------------------- CRC
CRC8 = "Crc8 Crc8_8h2f Crc8_cdma2000 Crc8_darc Crc8_dvbS2 Crc8_ebu Crc8_icode Crc8_itu Crc8_maxim Crc8_rohc Crc8_saeJ1850 Crc8_saeJ1850Zero Crc8_wcdma".split()
CRC16 = ("Crc16_a Crc16_arc Crc16_augCcit Crc16_buypass Crc16_ccitFalse Crc16_ccitZero Crc16_cdma2000 Crc16_dds110 Crc16_dectR Crc16_dectX Crc16_dnp "
         "Crc16_en13757 Crc16_genibus Crc16_kermit Crc16_maxim Crc16_mcrf4xx Crc16_modbus Crc16_riello Crc16_t10Dif Crc16_teledisk Crc16_tms37157 Crc16_usb Crc16_x25").split()
CRC32 = "Crc32 Crc32_bzip2 Crc32_c Crc32_d Crc32_jamcrc Crc32_mpeg2 Crc32_posix Crc32_q Crc32_xfer".split()
CRCS = CRC8 + CRC16 + CRC32


def crc_message(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return xb(rbytes(rng, n)) if n < 400 else g(rng.randrange(256), rng.randrange(256), rng.randrange(1, 256), n)
    if k == 1:
        return g(0, rng.choice([0, 255, 1, 128, 85]), 0, n)
    if k == 2:
        return g(1, rng.randrange(256), 0, n)
    return g(rng.randrange(256), rng.randrange(256), rng.randrange(256), n)


def crc_stream(rng, v, id=0, pieces=None, big=False):
    out = ["cnew %d %s" % (id, v)]
    n = rng.choice([1, 2, 2, 3, 4, 6]) if pieces is None else pieces
    for j in range(n):
        l = rng.choice([0, 0, 1, 1, 2, 3, 5, 8, 17]) if not big else rng.choice([0, 1, 255, 256, 257, 300])
        out.append("cchunk %d %s %d" % (id, crc_message(rng, l), j == n - 1))
    return out


# The register of a division, in Python, to choose messages that bring it to a remarkable value; what
# the values ought to be is decided by Crc.tla alone.
def crc_parameters():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    txt = open(os.path.join(here, "spec", "Crc.tla")).read()
    out = {}
    for v, w, args in re.findall(r'"(Crc\w+)"\s*:> P(8|16|32)\((.*?)\)\s*(?:@@|\\\*)', txt):
        a = args.replace("F32", "<<65535, 65535>>").replace("Z32", "<<0, 0>>")
        n = []
        for word, hi, lo, num, b in re.findall(r"(<<(\d+), (\d+)>>)|(\d+)|(TRUE|FALSE)", a):
            n.append(int(hi) << 16 | int(lo) if word else int(num) if num else b == "TRUE")
        out[v] = (int(w), n[0], n[1], n[2], n[3])      # width, polynomial, initial, reflected, final XOR
    return out


def reflected(x, w):
    return int(format(x, "0%db" % w)[::-1], 2)


class Register:
    def __init__(self, v):
        self.w, self.poly, self.init, self.ref, self.xor = CRC_PARAMETERS[v]
        self.r = self.init
        self.top = 1 << self.w - 1

    def feed(self, bs):
        for b in bs:
            b = reflected(b, 8) if self.ref else b
            self.r ^= b << self.w - 8
            for _ in range(8):
                self.r = ((self.r << 1) ^ (self.poly if self.r & self.top else 0)) & (2 * self.top - 1)
        return bytes(bs)

    def towards(self, target):
        """the width/8 bytes after which the register holds target"""
        x = target
        for _ in range(self.w):
            x = ((x ^ self.poly) >> 1 | self.top) if x & 1 else x >> 1
        bs = (x ^ self.r).to_bytes(self.w // 8, "big")
        return bytes(reflected(b, 8) for b in bs) if self.ref else bs

    def remarkable(self, rng):
        m = 2 * self.top - 1
        x = rng.choice([0, 0, 0, m, m, self.init, self.init, self.xor, self.poly, 1, self.top, m ^ self.init, self.top - 1, 0x80, 0xFF, rng.randrange(256), rng.randrange(256) << self.w - 8])
        return rng.choice([x, reflected(x, self.w)])


CRC_PARAMETERS = crc_parameters()


def crc_reach(rng, v, id=None):
    """a message, in one piece (id None) or as a stream, during which the register takes remarkable values"""
    reg = Register(v)
    pieces, cur = [], b""
    for _ in range(rng.choice([1, 1, 2, 3])):
        cur += reg.feed(rbytes(rng, rng.choice([0, 0, 1, 2, 5])))
        cur += reg.feed(reg.towards(reg.remarkable(rng)))
        if rng.random() < 0.75:
            pieces.append(cur)
            cur = b""
            if rng.random() < 0.3:
                pieces.append(b"")
    if cur or rng.random() < 0.5:
        pieces.append(cur + rbytes(rng, rng.choice([0, 1, 3])))
    if id is None:
        return ["crc %s %s" % (v, xb(b"".join(pieces)))]
    return ["cnew %d %s" % (id, v)] + ["cchunk %d %s %d" % (id, xb(c), j == len(pieces) - 1) for j, c in enumerate(pieces)]


# ------------------------------------------------------------------ chacha
COUNTERS = [0, 1, 2, 255, 256, 65535, 65536, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE, 0xFFFFFFFD, 0xFFFFFF00, 0x00FFFFFF]


def ch_key(rng, n):
    k = rng.randrange(5)
    if k == 0:
        return bytes(n)
    if k == 1:
        return b"\xff" * n
    if k == 2:
        return bytes(range(n))
    return rbytes(rng, n)


def ch_ctr(rng):
    return rng.choice(COUNTERS + [rng.randrange(2**32)] * 4)


def chacha(rng, n, data=None, inplace=None, blk=()):
    d = data or (xb(rbytes(rng, n)) if n <= 512 else g(rng.randrange(256), rng.randrange(256), rng.randrange(256), n))
    ip = rng.randrange(2) if inplace is None else inplace
    return " ".join(["chacha", xb(ch_key(rng, 32)), xb(ch_key(rng, 12)), str(ch_ctr(rng)), d, str(ip)] + [str(b) for b in blk])


def ch_stream(rng, id=0, big=0):
    out = ["hnew %d %s %s %d" % (id, xb(ch_key(rng, 32)), xb(ch_key(rng, 12)), ch_ctr(rng))]
    n = rng.randrange(1, 5)
    for j in range(n):
        l = 64 * rng.choice([0, 1, 1, 2, 3, 5])
        if j == n - 1:
            l += rng.choice([0, 1, 17, 63, 32])
        if big and j == 0:
            l = big
        d = xb(rbytes(rng, l)) if l < 600 else g(rng.randrange(256), rng.randrange(256), rng.randrange(256), l)
        out.append("hpart %d %s %d" % (id, d, rng.randrange(2)))
    out.append("hwhole %d %d" % (id, rng.randrange(2)))
    return out


def ch_back(rng, n, inplace=None):
    d = xb(rbytes(rng, n)) if n < 600 else g(rng.randrange(256), rng.randrange(256), rng.randrange(256), n)
    ip = rng.randrange(2) if inplace is None else inplace
    return "hback %s %s %d %s %d" % (xb(ch_key(rng, 32)), xb(ch_key(rng, 12)), ch_ctr(rng), d, ip)


# ----------------------------------------------------------------- ciphers
LET = b"ABCXYZabcxyzMNmn"


def message(rng, n):
    return seasoned(rng, plain_message(rng, n), b"\0")


def plain_message(rng, n):
    k = rng.randrange(4)
    if k == 0:
        return bytes(rng.randrange(1, 256) for _ in range(n))
    if k == 1:
        return bytes(rng.choice(LET) for _ in range(n))
    if k == 2:
        return bytes(rng.choice(b"@AZ[`az{ 09\x80\xff\x7f") for _ in range(n))
    return bytes(rng.choice(b"The quick brown Fox. ") for _ in range(n))


def vernam(rng, n, kl=None):
    m = message(rng, n)
    k = rng.choice([lambda: bytes(rng.choice(LET) for _ in range(n)), lambda: bytes(rng.choice(LET) for _ in range(n)),
                    lambda: rbytes(rng, n), lambda: bytes(rng.choice(b"@AZ[`az{ 09\x80\xff\x7f\0") for _ in range(n))])()
    if kl is not None:
        k = (k + bytes(rng.choice(LET) for _ in range(300)))[:max(0, min(kl, n + 300))]
    return "vernam %s %d %s" % (xb(k), n if kl is None else kl, xb(m))


# ------------------------------------------------------------------- utils
def s2u_cases(rng, many):
    out = []
    for v in [0, 1, 9, 10, 99, 100, 255, 256, 65535, 65536, 999999999, 1000000000, 2147483647, 2147483648, 4294967294, 4294967295, 4294967296, 4294967297,
              4294967300, 4294967305, 4999999999, 5000000000, 8589934591, 8589934592, 9999999999, 4300000000, 4294967200, 6442450944]:
        out.append(b"%d" % v)
        for z in range(1, 11):
            s = (b"%d" % v).rjust(z, b"0")
            out.append(s)
    for n in list(range(11, 20)) + [20, 63, 64, 127, 128, 254, 255]:
        out += [b"0" * n, b"0" * (n - 1) + b"7", b"1" * n, bytes(rng.choice(b"0123456789") for _ in range(n))]
    for c in range(256):
        out += [bytes([c]), b"1" + bytes([c]), bytes([c]) + b"2"]
        p = rng.randrange(10)
        s = bytearray(b"1234567890")
        s[p] = c
        out.append(bytes(s))
    for p in range(10):
        for c in b"/:\0 -+.aA\xff\xb0":
            s = bytearray(b"0000000001")
            s[p] = c
            out.append(bytes(s))
    for _ in range(many):
        n = rng.randrange(1, 12)
        out.append(bytes(rng.choice(b"0123456789") for _ in range(n)))
        out.append(b"%d" % (2**32 + rng.randrange(-30, 30)))
        out.append(b"%d" % rng.randrange(2**32 - 10**rng.randrange(1, 10), 2**32 + 10**rng.randrange(1, 10)))
        out.append(b"%d" % rng.randrange(10**rng.randrange(1, 11)))
    return ["s2u " + xb(s) for s in out]


def words(rng, n):
    out = [0, 1, 0xFF, 0x100, 0xFFFF, 0x10000, 0xFFFFFF, 0x1000000, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0x01020304, 0x80808080, 0xFEDCBA98]
    return out + [1 << k for k in range(32)] + [rng.randrange(2**32) for _ in range(n)]


# --------------------------------------------- every operation, every small size
def sweep(rng):
    """parts; every operation at every small size, for the footprint of the calls"""
    out = []
    bs = lambda n: xb(rbytes(rng, n))
    for w in (8, 16, 24, 32):
        out.append(["note ser"] + [l for o in ("be", "le") for v in (0, 0xFFFFFFFF, rng.randrange(2**32)) for l in ("ser %d %s %d" % (w, o, v), "des %s %s" % (o, bs(w // 8)))])
    for k in ("ser", "des"):
        for o in ("be", "le"):
            out.append(["note blob"] + ["blob %s %s %s" % (k, o, bs(n)) for n in range(41)])
    out.append(["note swap"] + ["swap %s %s" % (bs(n), bs(n)) for n in range(41)])
    for n in range(21):
        el = 4 * ((n + 2) // 3)
        out.append(["note b64e"] + ["b64e %s %d" % (bs(n), max(0, el + d)) for d in (-5, -4, -3, -2, -1, 0, 1, 2, 3)])
        out.append(["note b64d"] + [l for sp in range(4) for l in b64_dec_room(rng, rbytes(rng, n), sp)])
    out += [["note junk"] + b64_junk(rng) for _ in range(60)]
    for v in CRCS:
        out.append(["note crc"] + ["crc %s %s" % (v, bs(n)) for n in range(6)] + crc_stream(rng, v))
    out.append(["note tab"] + ["ctab %d %d" % (w, rng.randrange(2**w)) for w in (8, 16, 32)] +
               ["cbase %d %d %d %d %d %d %d %s" % (w, rng.randrange(2**w), rng.randrange(2**w), rng.randrange(2**w), a, b, c, bs(n))
                for w in (8, 16, 32) for a in (0, 1) for b in (0, 1) for c in (0, 1) for n in (0, 1, 3)])
    out += [["note chacha"] + [chacha(rng, n, inplace=ip) for n in range(k, k + 24)] for k in range(0, 140, 24) for ip in (0, 1)]
    out += [["note text"] + ["caesar %d %s" % (rng.randrange(256), xb(message(rng, n))), vernam(rng, n), vernam(rng, n, n + 1), vernam(rng, n, 0)] for n in range(10)]
    out.append(["note dec"] + ["s2u " + xb(bytes(rng.choice(b"0123456789") for _ in range(n))) for n in range(1, 13)] + ["s2u x30780a", "s2u x" + "30" * 40, "s2u x41"]
               + ["pow %d" % e for e in (0, 1, 9, 10, 255)] + ["chr %d" % c for c in (0, 47, 48, 57, 58, 255)])
    out.append(["note bit"] + ["bit %s %d %d" % (f, rng.randrange(2**32), n) for f in ("test", "set", "clear", "toggle") for n in (0, 7, 31, 32, 255)]
               + ["refl %d %d" % (rng.randrange(2**32), n) for n in range(33)] + ["rotl %d %d" % (rng.randrange(2**32), n) for n in range(33)])
    for es in range(1, 10):
        for cap in (1, 2, 3):
            q = ["qinit 0 %d %d 1" % (cap, es), "qstat 0", "qfront 0 1", "qrear 0 1", "qdeq 0 1"]
            q += ["qenq 0 %s" % bs(es)] * (cap + 1) + ["qstat 0", "qfront 0 1", "qrear 0 1"] + ["qdeq 0 1", "qenq 0 " + bs(es)] * 3 + ["qdeq 0 1"] * (cap + 1)
            q += ["qenq 0 -", "qdeq 0 0", "qfront 0 0", "qrear 0 0", "qenq - " + bs(4), "qdeq - 1", "qfront - 1", "qrear - 1", "qinit 0 0 1 1", "qinit 0 1 0 1", "qinit 0 %d %d 0" % (cap, es)]
            out.append(["note queue"] + q)
            p = ["pinit 0 %d %d 1" % (cap, es), "pstat 0", "pdeq 0"] + ["penq 0 %d %s" % (x, bs(es)) for x in (5, 3, 9, 9, 2, 30, 1)]
            p += ["pdeq 0", "penq 0 4 " + bs(es), "pdeq 0", "pdeq 0", "pdeq 0", "pdeq 0", "pstat 0", p_badinit(rng, 0, cap, es)]
            out.append(["note pq"] + p)
        for vs in range(1, 10):
            k = m_keys(rng, es)
            out.append(["note map", "minit 0 %d %d 2 1 1" % (es, vs)] + [l for x in (k + k)[:4] for l in ("mins 0 %s %s" % (xb(x), bs(vs)), "mget 0 " + xb(x))]
                       + ["mget 0 " + xb(x) for x in k] + ["mins - %s %s" % (bs(4), bs(4)), m_badinit(rng, 0, es, vs, 2)])
    for es in (1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 33, 63, 64):
        for alg in ALGS:
            out.append(["note sort"] + [sort_random(rng, alg, n, es, rng.choice(modes_for(es))) for n in range(7)])
    out += [["note end"] + ["jbuf 0 %d %s" % (n + 1 + d, xb((b'{"a":"b"' + b"c" * n)[:n])) + x for d in (0, 1, 2, 3) for x in ("\njend 0 %d" % (n + 1 + d), "\njadd 0 %d x61 x62" % (n + 1 + d), "\njstart 0 %d" % (n + 1 + d))]
            for n in range(12)]
    out = [[y for l in part for y in l.split("\n")] for part in out]
    for _ in range(120):
        txt, mem, keys = jl_doc(rng)
        out.append(["note doc"] + jl_looks(rng, txt, mem, keys, 3) + jl_cut(rng, txt, mem, keys))
    for n in range(1, 6):
        out.append(s_full(rng, n))
        out += [s_session(rng, sizes=(n,), rounds=3) for _ in range(4)]
    return out


# ------------------------------------------------------------ mixed scripts
def pure_call(rng):
    """one call of a function without state"""
    k = rng.randrange(17)
    n = rng.randrange(0, 12)
    if k == 0:
        return "b64e %s %d" % (xb(rbytes(rng, n)), 4 * ((n + 2) // 3) + rng.choice([0, 1, 2]))
    if k == 1:
        t = spelled(rng, rbytes(rng, n + 1))
        return "b64d %s %d %d" % (xb(t), n + rng.choice([0, 1, 2]), n)
    if k <= 4:
        es = rng.choice([1, 2, 3, 4, 8, 17, 64])
        return sort_random(rng, rng.choice(ALGS), n, es, rng.choice(modes_for(es)))
    if k <= 7:
        return "crc %s %s" % (rng.choice(CRCS), crc_message(rng, rng.randrange(0, 20)))
    if k == 8:
        return chacha(rng, rng.randrange(0, 140))
    if k == 9:
        return "caesar %d %s" % (rng.randrange(256), xb(message(rng, n)))
    if k == 10:
        return vernam(rng, n)
    if k == 11:
        return "s2u " + xb(bytes(rng.choice(b"0123456789") for _ in range(rng.randrange(1, 12))))
    if k == 12:
        return rng.choice(["pow %d" % rng.randrange(12), "chr %d" % rng.randrange(256)])
    if k == 13:
        w = rng.choice([8, 16, 24, 32])
        return rng.choice(["ser %d %s %d" % (w, rng.choice(["be", "le"]), rng.randrange(2**32)), "des %s %s" % (rng.choice(["be", "le"]), xb(rbytes(rng, w // 8)))])
    if k == 14:
        return rng.choice(["blob %s %s %s" % (rng.choice(["ser", "des"]), rng.choice(["be", "le"]), xb(rbytes(rng, n))),
                           "swap %s %s" % (xb(rbytes(rng, n)), xb(rbytes(rng, n)))])
    if k == 15:
        return rng.choice(["bit %s %d %d" % (rng.choice(["test", "set", "clear", "toggle"]), rng.randrange(2**32), rng.randrange(40)),
                           "refl %d %d" % (rng.randrange(2**32), rng.randrange(33)), "rotl %d %d" % (rng.randrange(2**32), rng.randrange(33))])
    txt, mem, keys = jl_doc(rng)
    return jl_looks(rng, txt, mem, keys, 1)[0]
