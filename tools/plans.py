"""What each property's check runs: design models and call scripts."""
import itertools, json, os, random, re
import systematic
import vlib
from gens import *
from vlib import Shard, tours


class Plan:
    def __init__(self, pid, seed, deep, models):
        self.pid, self.deep, self.models = pid, deep, models   # models: name -> result of vlib.model
        self.rng = random.Random("%s/%s" % (pid, seed))
        self.shards = []
        self.k = 0
        self.numbers = source_numbers()
        self.tokens = self.rng.tokens = source_tokens()
        self.single = False     # only the scripts are wanted: one build will do

    def n(self, quick, thorough):
        return thorough if self.deep else quick

    def flavours(self):
        return ["O0", "O2"] if not self.deep else ["O0", "O2", "CL", "O3"]

    def add(self, name, lines, flavour=None, **kw):
        fl = flavour or self.flavours()[self.k % len(self.flavours())]
        self.k += 1
        self.shards.append(Shard("%s-%d" % (name, self.k), lines, fl, **kw))

    def giant(self, *parts, flavour="O2"):
        """storage of several GiB"""
        for ls in parts:
            self.add("giant", ["note giant"] + ls, flavour, timeout=600, hang=200)

    def spread(self, name, parts, shards, each=None, **kw):
        """parts (lists of lines) dealt over a number of shards; every part runs on the unoptimised build and on
        an optimised one"""
        parts = list(parts)
        self.rng.shuffle(parts)
        shards = min(shards, len(parts))
        fl = self.flavours()
        for j in range(shards):
            ls = [l for p in parts[j::shards] for l in p]
            if ls:
                self.add(name, ls, fl[0], **kw)
                if not self.single:
                    self.add(name, ls, fl[1 + self.k // 2 % (len(fl) - 1)], **kw)

    def content_parts(self):
        if self.pid != "C18":
            self.spread("token", [tok_parts(self.pid, self.rng, t) for t in self.tokens], self.n(1, 2))
        few = self.pid in ("C11", "C12", "C17", "C18")
        self.spread("sys", *systematic.parts(self.pid, self.rng))
        self.spread("rel", [rel_parts(self.pid, self.rng) for _ in range(self.n(2 if few else 12, 20 if few else 300))], self.n(1, 4))

    def tour_parts(self, model, initial, conv):
        if model not in self.models:
            return []
        return [conv(w) for w in tours(self.models[model]["edges"], initial)]


def dm(module, *cfgs):
    return [(c, module, c in EDGES) for c in cfgs]


EDGES = {"MC_Queue", "MC_PQ", "MC_Map", "MC_SchedTour", "MC_SchedTour3", "MC_JsonTour"}   # configurations that emit their transitions
PROOFS = {  # property -> modules of spec/proofs, checked with the proof system in the thorough tier
    "C01": ["RingProof"], "C02": ["PQProof"], "C03": ["MapProof"],
    "C09": ["BubbleProof", "InsertionProof", "SelectionProof", "HeapProof"],
    "C10": ["BubbleProof", "InsertionProof", "SelectionProof", "HeapProof"],
}
MODELS = {  # property -> design models checked with it: (configuration, module, emits edges[, the property it must violate])
    "C01": dm("MC_Queue", "MC_Queue"),
    "C02": dm("MC_PQ", "MC_PQ"),
    "C03": dm("MC_Map", "MC_Map"),
    "C04": dm("MC_Scheduler", "MC_Scheduler", "MC_SchedTour", "MC_SchedTour3"),
    "C05": dm("MC_Json", "MC_Json", "MC_JsonTour"),
    "C06": dm("MC_JsonDocs", "MC_JsonDocs"),
    "C07": dm("MC_Base64", "MC_Base64"),
    "C08": dm("MC_Base64", "MC_Base64"),
    "C09": dm("MC_Sort", "MC_Sort"),
    "C10": dm("MC_Sort", "MC_Sort"),
    "C11": dm("MC_Crc", "MC_Crc"),
    "C12": dm("MC_Crc", "MC_Crc"),
    "C13": dm("MC_ChaCha", "MC_ChaCha"),
    "C14": dm("MC_ChaCha", "MC_ChaCha"),
    "C15": dm("MC_Ciphers", "MC_Ciphers"),
    "C16": dm("MC_Decimal", "MC_Decimal"),
    "C17": dm("MC_Bits", "MC_Bits"),
    "C18": dm("MC_Bits", "MC_Bits"),
    "C19": dm("MC_Base64", "MC_Base64") + dm("MC_Sort", "MC_Sort") + dm("MC_Json", "MC_Json"),
    "C20": dm("MC_Isolation", "MC_Isolation", "MC_IsolationThreads", "MC_IsolationLazyEnd")
           + [(c, "MC_Isolation", False, "Refines") for c in ("MC_IsolationScratch", "MC_IsolationLazy")],
}
DEEP_MODELS = {
    "C01": dm("MC_Queue", "MC_QueueDeep"),
    "C02": dm("MC_PQ", "MC_PQDeep"),
    "C03": dm("MC_Map", "MC_MapDeep"),
    "C04": dm("MC_Scheduler", "MC_SchedDeep"),
    "C05": dm("MC_Json", "MC_JsonDeep"),
    "C06": dm("MC_JsonDocs", "MC_JsonDocsDeep"),
    "C07": dm("MC_Base64", "MC_Base64Deep"),
    "C08": dm("MC_Base64", "MC_Base64Deep"),
    "C09": dm("MC_Sort", "MC_SortDeep"),
    "C10": dm("MC_Sort", "MC_SortDeep"),
    "C11": dm("MC_Crc", "MC_CrcDeep"),
    "C12": dm("MC_Crc", "MC_CrcDeep"),
    "C13": dm("MC_ChaCha", "MC_ChaChaDeep"),
    "C14": dm("MC_ChaCha", "MC_ChaChaDeep"),
    "C15": dm("MC_Ciphers", "MC_CiphersDeep"),
    "C16": dm("MC_Decimal", "MC_DecimalDeep"),
    "C17": dm("MC_Bits", "MC_BitsDeep"),
    "C18": dm("MC_Bits", "MC_BitsDeep"),
    "C19": dm("MC_Base64", "MC_Base64Deep") + dm("MC_Sort", "MC_SortDeep"),
    "C20": dm("MC_Isolation", "MC_IsolationDeep"),
}
FLAVOURS = {"C18": ["O0", "O2", "SH"], "C19": ["O0", "O2", "CL", "O3"]}
ASSUME = ["64-bit little-endian host, gcc/clang builds of the working tree", "the driver's record of arguments, results and memory is faithful (it contains no oracle)"]
ASSUMPTIONS = {}


def models(pid, deep):
    return MODELS.get(pid, []) + (DEEP_MODELS.get(pid, []) if deep else [])


def source_numbers():
    """numbers written in the sources under test, tables left out: inputs worth trying; nothing depends on them otherwise"""
    found = set()
    for f in vlib.sources()[0] + [os.path.join(d[2:], h) for d in vlib.sources()[1] for h in sorted(os.listdir(d[2:])) if h.endswith(".h")]:
        txt = open(f, errors="replace").read()
        txt = re.sub(r"/\*.*?\*/|//[^\n]*", " ", txt, flags=re.S)
        for line in txt.split("\n"):
            n = re.findall(r"(?<![\w.])(0[xX][0-9a-fA-F]+|\d+)[uUlL]*(?![\w.])", line)
            if len(n) <= 3:
                found |= {int(x, 16) if x[:2] in ("0x", "0X") else int(x) for x in n}
    return found


def source_tokens():
    """byte strings written in the sources under test: string literals, and what is compared with constants in one expression"""
    found = set()
    esc = lambda s: s.encode().decode("unicode_escape").encode("latin-1", "replace")
    num = r"0[xX][0-9a-fA-F]+|\d+"
    for f in vlib.sources()[0]:
        txt = re.sub(r"/\*.*?\*/|//[^\n]*|^\s*#\s*(include|error)[^\n]*", " ", open(f, errors="replace").read(), flags=re.S | re.M)
        for s in re.findall(r'"((?:[^"\\\n]|\\.)*)"', txt):
            found.add(esc(s))
        for st in re.split(r"[;{}]", re.sub(r'"((?:[^"\\\n]|\\.)*)"', " ", txt)):
            cs = re.findall(r"(?:[=!<>]=?|\^|case)\s*\(?\s*(?:\([\w\s]+\)\s*)?(?:'((?:[^'\\]|\\.)+)'|(%s)[uUlL]*(?![\w.]))" % num, st)
            vals = []
            for c, n in cs:
                v = esc(c)[0] if c else int(n, 16 if n[:2] in ("0x", "0X") else 10)
                vals.append(v)
                if v < 2**32:
                    for w in (1, 2, 4):
                        if v < 256**w:
                            found |= {v.to_bytes(w, "big"), v.to_bytes(w, "little")}
            small = bytes(v for v in vals if v < 256)
            found |= {small, small[::-1]}
    return sorted(t for t in found if 0 < len(t) <= 64)


def near(numbers, lo, hi, most=60, rng=random):
    """them and their neighbours within lo..hi"""
    out = sorted({n + d for n in numbers for d in (-1, 0, 1) if lo <= n + d <= hi})
    return out if len(out) <= most else sorted(rng.sample(out, most))


def plan_C01(p):
    r = p.rng
    p.content_parts()
    sizes = near(p.numbers, 301, 9000, 12, r)
    p.spread("width", [q_width(r, e) for e in range(1, 301)], 2)
    p.spread("caps", [q_big(r, c, r.choice([1, 2, 3]), 1) for c in range(1, 131)], 1)
    p.spread("numbers", [q_big(r, n, 2, 1) for n in sizes] + [q_width(r, n) for n in sizes] + [q_churn(r, n) for n in sizes], 1)
    parts = p.tour_parts("MC_Queue", lambda s: s[1] == 0 and s[2] == 0, lambda w: q_tour(w, r))
    p.spread("tour", parts, 2)
    p.spread("tour", p.tour_parts("MC_Queue", lambda s: s[1] == 0 and s[2] == 0, lambda w: q_tour(w, r)), 2)
    p.spread("random", [q_life(r, id=r.randrange(4), n=r.choice([20, 60, 150])) for _ in range(p.n(220, 4000))], p.n(6, 40))
    p.spread("big", [q_big(r, c, e) for c in (254, 255, 256, 257, 300) for e in (1, 2, 4, 5)] +
             [q_big(r, r.choice([1, 2, 3, 5]), e) for e in (64, 127, 128, 129, 255, 256, 257, 300, 1000)], 2)
    p.spread("big16", [q_big(r, c, e, 1) for c, e in p.n([(65535, 1), (65537, 2)], [(65535, 4), (65536, 1), (65537, 3), (70000, 2)])], 4, heap="3g")
    p.add("big16", q_top16(r, r.choice([2, 3])), heap="3g")
    p.spread("wide", [q_big(r, c, e, 1) for c, e in ((2, 65537), (1, 65536), (2, 32768), (2, 40000), (1, 65535), (2, 70000))], 3, heap="3g")
    p.add("churn", [l for n in (254, 255, 256, 257, 300, 65535, 65536, 65537, 70000, 2**24 + 3) for l in q_churn(r, n)])
    # 2^32 calls and some: positions that are never brought back into range
    p.add("churn32", ["note churn32", "qinit 0 3 2 1", "qfill 0 10 1", "qchurn 0 11 %d" % (2**32 + 999), "qstat 0", "qfill 0 7 3", "qdrain 0 4"], flavour="O2", heap="3g", timeout=800)
    p.giant(["qinit 0 4099 1048579 1", "qfill 0 5 4098", "qstat 0", "qfill 0 4103 3", "qstat 0", "qdrain 0 3", "qfill 0 9000 4", "qdrain 0 4102", "qstat 0"])


def plan_C02(p):
    r = p.rng
    p.content_parts()
    # the first is served first (the others move up), the rest from the end
    p.giant(["pinit 0 4099 1048579 1", "pfill 0 5 4099 1 64994 65000", "pstat 0", "pdrain 0 8", "pfill 0 9000 3 0 64999 65000", "pdrain 0 2", "pstat 0"])
    sizes = near(p.numbers, 301, 9000, 6, r)
    words = near(p.numbers, 0, 2**32 - 1, 80, r)
    p.spread("width", [p_wide(r, e) for e in range(1, 301)], 4)
    p.spread("caps", [p_big(r, c, r.choice([2, 3])) for c in range(2, 65)], 1)
    p.spread("numbers", [p_big(r, n, 2) for n in sizes] + [p_wide(r, n) for n in sizes] + [p_prios(r, words) for _ in range(20)], 1)
    for _ in range(2):
        p.spread("tour", p.tour_parts("MC_PQ", lambda s: s[1] == [], lambda w: p_tour(w, r)), 2)
    p.spread("random", [p_life(r, id=r.randrange(4), n=r.choice([20, 60, 150])) for _ in range(p.n(260, 4500))], p.n(7, 40))
    p.spread("big", [p_big(r, c, e) for c in (255, 256, 257, 300) for e in (1, 2, 4, 5)] + [p_big(r, 3, e, 4, 4) for e in (64, 255, 256, 257, 1000)], 4)
    p.add("big16", p_big(r, 65537, 2, 3, 4), heap="3g")
    p.add("big16", p_top16(r), heap="3g")
    p.spread("wide", [p_wide(r, e) for e in (1, 2, 3, 4, 7, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000)], 1)
    p.spread("wide16", [p_wide(r, e) for e in (32767, 32768, 40000, 65535, 65536, 65537, 65792, 70000)], 4, heap="3g")
    p.add("churn", [l for n in (254, 255, 256, 257, 300, 65535, 65536, 65537, 70000, 2**24 + 3) for l in p_churn(r, n)])
    if p.deep:
        p.add("churn32", ["note churn32", "pinit 0 3 2 1", "pfill 0 10 1 0 5 7", "pchurn 0 11 %d 5" % (2**32 + 999), "pstat 0", "pfill 0 7 3 0 5 7", "pdrain 0 4"], flavour="O2", heap="3g", timeout=800)
    if p.deep:
        p.add("big16", p_big(r, 65536, 5, 3, 4), heap="3g")


def plan_C03(p):
    r = p.rng
    p.content_parts()
    sizes = near(p.numbers, 301, 9000, 6, r)
    p.spread("width", [m_width(r, e, r.randrange(1, 20)) for e in range(1, 301)] + [m_width(r, r.randrange(1, 20), e) for e in range(1, 301)], 3)
    p.spread("caps", [m_big(r, c, r.choice([2, 3]), 2) for c in range(9, 65)], 1)
    p.spread("numbers", [m_big(r, n, 3, 2) for n in sizes] + [m_width(r, n, 3) for n in sizes] + [m_width(r, 3, n) for n in sizes], 1)
    for _ in range(2):
        p.spread("tour", p.tour_parts("MC_Map", lambda s: s[1] == [], lambda w: m_tour(w, r)), 4)
    p.spread("random", [m_life(r, id=r.randrange(4), n=r.choice([20, 50, 100])) for _ in range(p.n(260, 4500))], p.n(6, 40))
    p.spread("big", [m_big(r, c, e, v) for c in (255, 256, 257, 300) for e, v in ((2, 1), (4, 4), (5, 9))] +
             [m_life(r, n=25, maxs=(3,), kss=(k,), vss=(v,)) for k, v in ((255, 4), (256, 4), (257, 4), (4, 255), (4, 256), (4, 257), (300, 300))], 3)
    p.add("big16", m_big(r, 65540 + r.randrange(20), 4, 2), flavour="O2", heap="4g", timeout=600)
    p.spread("alias", [m_alias(r) for _ in range(p.n(60, 1500))], 1)
    p.spread("churn", [m_churn(r, p.n(400, 30000)) for _ in range(4)], 2)
    p.spread("wide", [m_wide(r, k, v) for e in (1, 2, 127, 128, 129, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000) for k, v in ((3, e), (e, 2), (e, e))], 2)
    p.spread("wide16", [m_wide(r, k, v) for k, v in ((2, 32767), (2, 32768), (3, 40000), (2, 65535), (4, 65536), (2, 65537), (3, 70000), (32768, 2), (40000, 2), (65535, 1), (65536, 3), (65537, 2))], 6, heap="3g")
    if p.deep:
        p.add("big16", m_big(r, 140000, 4, 2), flavour="O2", heap="6g")
    p.giant(["minit 0 4 1048579 2051 1 1", "mfill 0 5 2052 700", "mlook 0 3 2056 1", "mfill 0 2053 5 9000", "mlook 0 2040 20 1"],
            ["minit 0 1048579 4 2051 1 1", "mfill 0 5 2052 700", "mlook 0 3 2056 1", "mfill 0 2053 5 9000", "mlook 0 2040 20 1"])


def plan_C04(p):
    r = p.rng
    p.spread("sys", *systematic.parts("C04", r))
    p.spread("sizes", [s_full(r, n) for n in range(1, 65)] + [s_big(r, n) for n in near(p.numbers, 65, 5000, 12, r)], 2)
    fresh = lambda s: s[1] == [] and all(x == [-1, 0] for x in s[0])
    for m in ("MC_SchedTour", "MC_SchedTour3"):
        p.spread("tour", p.tour_parts(m, fresh, lambda w: s_tour(w, r)), 3)
    p.spread("random", [s_session(r, sizes=r.choice([(1, 2, 2, 3, 3, 4, 5, 8), (2, 3), (1,), (6, 9, 16)]), rounds=r.choice([3, 6, 12])) for _ in range(p.n(300, 6000))], p.n(8, 48))
    p.spread("big", [s_full(r, n) for n in (1, 2, 7, 31, 64, 100)] + [s_big(r, n) for n in (255, 256, 257, 258, 300)], 2)
    p.spread("churn", [s_churn(r, p.n(300, 20000)) for _ in range(p.n(3, 6))], p.n(1, 6))
    p.add("fill256", s_full(r, r.choice([256, 257])))
    p.add("big16", s_big(r, 65600), heap="4g", flavour=r.choice(["O0", "O2"]))
    if p.deep:
        p.add("big16", s_big(r, 70000), heap="4g", flavour="CL")


def plan_C05(p):
    r = p.rng
    p.content_parts()
    sizes = near(p.numbers, 301, 9000, 10, r)
    p.spread("width", [["note width"] + ambient(r) + j_len(r, n, m) for n in range(0, 301, 3) for m in (r.randrange(4), n)], 3)
    p.spread("numbers", [j_reach(r, n) for n in sizes] + [["note width"] + j_len(r, n, 2) for n in sizes], 1)
    for _ in range(p.n(1, 4)):
        p.spread("tour", p.tour_parts("MC_JsonTour", lambda s: s[1] == [], lambda w: j_tour(w, r)), 4)
    p.spread("random", [j_build(r, id=r.randrange(3)) for _ in range(p.n(1200, 20000))], p.n(6, 32))
    fits = []
    for prefix in (b"", b"{", b'{"a":"b"', b'{"a":1', b'{"a":{', b'{"a":"b",', b'"', b'{"":""', b"{'", b'x"x', b'{"a":"b"}'):
        for k in (b"", b"k", b"key", b"a,b", b"%s"):
            for v in (b"", b"v", b"%d%n", b'"', b"x" * 9):
                fits.append(j_fits(r, k, v, prefix))
    p.spread("fits", fits, 3)
    p.spread("ends", [j_edges(r)], 1)
    p.spread("reach", [j_reach(r, n) for n in (7, 8, 15, 16, 31, 32, 63, 64, 100, 126, 127, 128, 129, 253, 254, 255, 256, 257, 258, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048)], 2)
    p.spread("reach16", [j_reach(r, n) for n in (4095, 4096, 32767, 32768, 65534, 65535, 65536, 65537, 70000)], 4, heap="3g")
    p.giant(*[["jbuf 0 %d x" % n, "jstart 0 %d" % n, "jadd 0 %d x6b x7677" % n, "jadd 0 %d x78 x" % n, "jfind 0 %d x6b 9" % n, "jend 0 %d" % n, "jfind 0 %d x78 %d" % (n, n)]
              for n in (2**31 + r.randrange(8), 2**32 + r.randrange(8))])
    p.spread("long", [j_fits(r, b"k" * a, b"v" * b, pre) for a, b in ((1, 255), (255, 1), (256, 256), (3, 300), (120, 130)) for pre in (b"{", b'{"a":"b"', b'{"z":"' + b"y" * 250 + b'"')], 2)
    p.add("big16", ["note long"] + ["place R"] + [l for s in (65535, 65536, 65537, 65547, 65548, 65549, 66000) for l in
          ("jbuf 0 %d x" % s, "jstart 0 %d" % s, "jadd 0 %d x61 %s" % (s, g(0, 98, 0, 65536)), "jadd 0 %d x63 x64" % s, "jend 0 %d" % s)], heap="3g")


def plan_C06(p):
    r = p.rng
    p.content_parts()
    p.spread("width", [["note width"] + ambient(r) + jl_wide(r, n) for n in list(range(0, 200)) + near(p.numbers, 200, 9000, 10, r)], 3)
    parts = []
    for _ in range(p.n(2600, 40000)):
        txt, mem, keys = jl_doc(r)
        part = ["note doc"] + ambient(r) + jl_looks(r, txt, mem, keys, r.choice([2, 3, 5]))
        if r.random() < 0.4:
            part += jl_cut(r, txt, mem, keys) + jl_cut(r, txt, mem, keys)
        parts.append(part)
    p.spread("docs", parts, p.n(8, 48))
    # white space of more than 4 GiB before a key, before a colon, behind it; more than 4 GiB of room
    cut = r.choice([b'{', b'{"a":"bc",', b'{"a":"bc","k"', b'{"a":"bc","k":', b'{"k0":"k",'])
    rest = b'{"a":"bc","k":"vw","z":"k"}'[len(cut):] if not cut.startswith(b'{"k0') else b'"a":"k","k":"vw"}'
    p.giant(["jpad %s %d %s %s 9" % (xb(cut), 2**32 + r.randrange(100), xb(rest), xb(k)) for k in (b"k", b"a")])
    p.giant(["jdoc %s %s %d" % (xb(b'{"a":"bc","k":"%s"}' % (b"v" * n)), xb(k), m) for m in (2**31, 2**31 + 2, 2**32, 2**32 + 2) for n in (1, 5) for k in (b"k", b"q")])
    p.spread("long", [["note long"] + jl_long(r, n) for n in (40, 127, 128, 254, 255, 256, 257, 300)], 3)
    p.add("big16", ["note long"] + jl_long(r, 65535)[:3] + jl_long(r, 65537)[10:14], heap="3g")
    n = 65536 + r.randrange(200)
    p.add("big16", ["note long"] + ["jdoc %s %s %d" % (xb(b'{"a":"b","k":"' + b"vw,:{}1 "[r.randrange(8):][:1] * n + b'","z":"t"}'), xb(k), m) for k, m in ((b"k", n + 1), (b"k", n), (b"z", 2))], heap="3g")
    if "docs" in p.models.get("MC_JsonDocs", {}):
        docs = p.models["MC_JsonDocs"]["docs"]
        # every lookup once, and once more with other bytes in the role of the letters
        for letters in ({}, {97: r.choice(b"abkz_0{},:"), 98: r.choice(b"cdxy-9")}):
            sub = lambda t: xb(letters.get(x, x) for x in t)
            p.spread("model", [["note doc", r.choice(["place R", "place L"])] + ["jdoc %s %s %d" % (sub(d[0]), sub(d[1]), d[2])] for d in docs], 4)


def plan_C07(p):
    r = p.rng
    p.content_parts()
    p.spread("lens", [["note len"] + ambient(r) + ["b64e %s %d" % (xb(rbytes(r, n)), 4 * ((n + 2) // 3) + d) for d in (1, 0)] for n in list(range(70, 400)) + near(p.numbers, 400, 9000, 12, r)], 2)
    p.add("repeat", ["note repeat"] + ["rep 66000 b64e %s %d" % (xb(rbytes(r, n)), m) for n, m in ((2, 5), (1, 3))])
    parts = [["note len"] + ambient(r) + b64_enc_room(r, n) for n in list(range(0, 70)) * p.n(2, 10) + list(range(70, 300, 7)) + [254, 255, 256, 257, 258, 259]]
    for n in range(1, 7):
        for pos in range(n):
            b = bytearray(rbytes(r, n))
            part = ["note sweep"]
            for v in range(256):
                b[pos] = v
                part.append("b64e %s %d" % (xb(b), 4 * ((n + 2) // 3) + 1))
            parts.append(part)
    for n in range(0, 9):
        parts.append(["note room"] + ambient(r) + ["b64e %s %d" % (xb(rbytes(r, n)), m) for m in range(0, 4 * ((n + 2) // 3) + 4)])
    p.giant(["b64e %s %d" % (xb(rbytes(r, n)), m) for m in (2**31 - 1, 2**31, 2**31 + 3, 2**32, 2**32 + 3, 2**32 + 5) for n in (0, 1, 2, 3, 10)])
    p.spread("enc", parts, p.n(6, 16))
    p.spread("big", [["note big"] + ambient(r) + ["b64e %s %d" % (g(r.randrange(256), r.randrange(256), r.randrange(256), n), 4 * ((n + 2) // 3) + d) for d in (1, 0)]
                     for n in (49149, 49150, 49151, 49152, 49153, 65534, 65535, 65536, 65537, 65538, 65539, 65540, 66001, 98304, 131071, 131074, 196609)], 4, heap="3g")


def plan_C08(p):
    r = p.rng
    p.content_parts()
    p.spread("lens", [["note len"] + ambient(r) + ["b64d %s %d %d" % (xb(spelled(r, rbytes(r, n))), n + d, n) for d in (0, -1)] for n in list(range(50, 400)) + near(p.numbers, 400, 9000, 12, r)], 2)
    p.add("repeat", ["note repeat"] + ["rep 66000 b64d %s %d %d" % (xb(spelled(r, rbytes(r, n), s)), m, n) for n, m, s in ((2, 2, 1), (1, 0, 0))])
    parts = [["note len"] + ambient(r) + b64_dec_room(r, rbytes(r, n), sp) for n in list(range(1, 50)) * p.n(1, 6) + [63, 64, 127, 128, 255, 256, 257, 300] for sp in range(6)]
    parts += [["note small"] + ambient(r) + b64_dec_room(r, rbytes(r, r.randrange(1, 8))) for _ in range(p.n(400, 6000))]
    for n in (1, 2, 3, 4, 5, 6):
        for pos in range(n):
            b = bytearray(rbytes(r, n))
            part = ["note sweep"]
            for v in range(256):
                b[pos] = v
                part.append("b64d %s %d %d" % (xb(spelled(r, bytes(b))), n, n))
            parts.append(part)
    parts += [["note special"] + ambient(r) + [l for a in (62, 63) for b in (62, 63) for c in (62, 63, 0) for l in b64_dec_room(r, bytes([a << 2 | b >> 4, (b & 15) << 4 | c >> 2, (c & 3) << 6 | a]), sp)] for sp in range(6)]
    parts += [["note junk"] + ambient(r) + [l for _ in range(6) for l in b64_junk(r)] for _ in range(p.n(250, 3000))]
    parts += [["note empty", "b64d x %d 0" % m] for m in (0, 1, 5)]
    p.giant(["b64d %s %d %d" % (xb(spelled(r, rbytes(r, n))), m, n) for m in (2**31 - 1, 2**31, 2**31 + 1, 2**32, 2**32 + 1, 2**32 + 2) for n in (1, 2, 3, 10)])
    p.spread("dec", parts, p.n(8, 32))
    p.spread("big", [["note big"] + b64_dec_room(r, r.randbytes(n), r.randrange(6))[-4:-1] for n in (49151, 49152, 49153, 65535, 65536, 65537, 65538, 65539, 65540, 66001, 131073)], 4, heap="3g")


def sort_parts(p):
    r = p.rng
    small = []
    for alg in ALGS:
        for es, n, keys in ((2, 5, (1, 2, 3)), (1, 5, (1, 2, 3)), (3, 4, (5, 9, 200)), (2, 7, (0, 255))):
            ls = sort_small(alg, n, keys, es)
            for j in range(0, len(ls), 60):
                small.append(["note small"] + ambient(r) + ls[j:j + 60])
    rand = []
    for _ in range(p.n(900, 15000)):
        alg = r.choice(ALGS)
        es = r.choice([1, 2, 3, 4, 5, 7, 8, 12, 16, 31, 32, 33, 63, 64] + ([] if alg == "insertion" else [65, 100, 128]))
        rand.append(["note random"] + ambient(r) + [sort_random(r, alg, r.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 20, 31]), es, r.choice(modes_for(es))) for _ in range(3)])
    wide = [["note wide"] + ambient(r) + [sort_random(r, alg, n, es, r.choice(modes_for(es)))] for alg in ALGS if alg != "insertion" for n in (2, 3, 6, 9) for es in (127, 129, 254, 255, 256, 257, 300)]
    wide += [["note wide"] + ambient(r) + [sort_random(r, alg, n, es, r.choice(modes_for(es)))] for alg in ALGS for n in (60, 100, 127, 128, 129) for es in (1, 4, 9)]
    return small, rand, wide


def sort_big(p):
    r = p.rng
    every = [["note width"] + ambient(r) + [sort_random(r, alg, r.choice([3, 4, 5]), es, r.choice(modes_for(es)))] for alg in ALGS for es in list(range(1, 65)) * 2 + (list(range(65, 301)) if alg != "insertion" else [])]
    every += [["note n"] + ambient(r) + [sort_random(r, alg, n, es, r.choice(modes_for(es)))] for alg in ALGS for n in range(2, 60) for es in (1, r.choice([2, 3, 4, 8]))]
    p.spread("every", every, 3)
    p.spread("numbers", [["note n"] + ["sortn %s 5 %d %d %d %d" % (alg, n, *r.choice(sort_shapes(r, n)))] for n in near(p.numbers, 64, 3000, 8, r) for alg in ALGS]
             + [["note width", sort_random(r, alg, 3, es, 0)] for es in near(p.numbers, 301, 9000, 8, r) for alg in ALGS if alg != "insertion"], 1)
    p.add("repeat", ["note repeat"] + ["rep 66000 " + sort_random(r, alg, 3, 2, 0) for alg in ALGS])
    for alg in ALGS:
        p.spread("n256", [["note n"] + ambient(r) + ["sortn %s %d %d %d %d %d" % (alg, r.choice([5, 6, 8]), n, *abm) for abm in sort_shapes(r, n)]
                          for n in (5, 6, 7, 8, 9, 15, 16, 17, 33, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 258, 259, 260, 300, 400, 511, 512, 513, 1000)], 1)
    for alg in ALGS:
        p.add("n16", ["note n", "sortn %s 5 %d %s" % (alg, 65600 + r.randrange(50), {"heap": "%d 3 65521" % r.randrange(1, 65521), "insertion": "1 0 65521 2"}.get(alg, "1 0 65521 %d" % r.choice([2, 3])))], flavour="O2", heap="3g", hang=100, timeout=300)
    p.add("n15", ["note n", "sortn selection 5 33000 %d 3 65521" % r.randrange(1, 65521), "sortn bubble 6 33000 %d 0 %d" % (r.choice([0, 1]), r.choice([40000, 65536]))], flavour="O2", heap="3g")
    p.add("wide16", ["note n"] + [sort_random(r, alg, 3, 65537, 0) for alg in ALGS if alg != "insertion"], heap="3g")
    if p.deep:
        for alg in ALGS:
            p.add("deep16", ["note n", "sortn %s 5 %d %d 3 %d" % (alg, 131200 if alg == "heap" else 66000, r.randrange(1, 65521), r.choice([2, 300, 65521]))], flavour="O2", heap="4g", timeout=800)


def plan_C09(p):
    p.content_parts()
    small, rand, wide = sort_parts(p)
    # more than 2 GiB: few elements each of more than 1 GiB, and very many
    p.giant(*[["sortn %s %d 3 %d %d 3" % (alg, 2**30 + 3, p.rng.choice([1, 2]), p.rng.randrange(3))] for alg in ("selection", "heap")],
            ["sortg insertion 64 %d %d" % (2**25 + 7, 2**25 + 5)])
    p.giant(["sortn bubble %d 3 2 0 3" % (2**30 + 3)], flavour="O0")
    p.giant(["sortg heap 1 %d %d" % (2**30 + 3, 2**29)])
    p.spread("small", small, 6)
    p.spread("random", rand, p.n(7, 40))
    p.spread("wide", wide, 3)
    sort_big(p)


plan_C10 = plan_C09


def plan_C11(p):
    r = p.rng
    p.content_parts()
    parts = []
    lens = list(range(24, 300)) + near(p.numbers, 300, 9000, 20, r)
    p.spread("lens", [["note lens"] + ambient(r) + ["crc %s %s" % (v, crc_message(r, n)) for n in r.sample(lens, 24)] for v in CRCS], 2)
    p.add("repeat", ["note repeat"] + ["rep 66000 crc %s %s" % (v, xb(rbytes(r, 2))) for v in (r.choice(CRC8), r.choice(CRC16), r.choice(CRC32))])
    p.add("numbers", ["note numbers"] + ["crc %s %s" % (v, xb(n.to_bytes(k, e))) for n in near(p.numbers, 0, 2**32 - 1, 12, r) for v in CRCS for k, e in ((4, "big"), (4, "little")) if n > 255])
    for v in CRCS:
        a = r.randrange(256)
        parts.append(["note single"] + ["crc %s %s" % (v, xb([x])) for x in range(256)])
        parts.append(["note pair"] + ["crc %s %s" % (v, xb([x, a])) for x in range(256)])
        parts.append(["note lengths"] + ambient(r) + ["crc %s %s" % (v, crc_message(r, n)) for n in list(range(0, 24)) * p.n(1, 8) + [63, 64, 65, 127, 128, 254, 255, 256, 257, 300, 513]]
                     + ["crc %s %s" % (v, xb(b"123456789"))])
        for _ in range(p.n(4, 40)):
            parts.append(["note reach"] + ambient(r) + [l for _ in range(8) for l in crc_reach(r, v)])
    p.spread("crc", parts, p.n(8, 24))
    big = lambda v: ["note copies"] + ["crc %s %s" % (v, g(0, r.choice([0, 255, r.randrange(1, 255)]), 0, n)) for n in (32767, 32768, 65535, 65536, 65537, 65540, 2**17 + 1, 2**20 + 3, 2**24 + 1 + r.randrange(9))]
    p.spread("copies", [big(v) for v in CRCS], 2)
    p.add("copies28", ["note copies"] + ["crc %s %s" % (v, g(0, r.randrange(256), 0, 2**28 + 5)) for v in (r.choice(CRC8), r.choice(CRC16), r.choice(CRC32))], flavour="O2")
    # the reflected variants take four times as long
    fast = [["Crc8", "Crc8_8h2f", "Crc8_cdma2000", "Crc8_dvbS2", "Crc8_icode", "Crc8_itu", "Crc8_saeJ1850", "Crc8_saeJ1850Zero"], ["Crc16_buypass", "Crc16_ccitFalse", "Crc16_ccitZero", "Crc16_cdma2000", "Crc16_dds110", "Crc16_genibus"], ["Crc32_bzip2", "Crc32_mpeg2", "Crc32_posix", "Crc32_q", "Crc32_xfer"]]
    for vs, top in zip(fast, r.sample([2**31 + 1000, 2**31 + 1000, 2**32], 3)):
        p.giant(["gcrc %s %d %d" % (r.choice(vs), r.randrange(256), top - 1 - r.randrange(1000))])
    if p.deep:
        for vs in (CRC8, CRC16, CRC32):
            p.giant(*[["gcrc %s %d %d" % (r.choice(vs), r.randrange(256), top - 1 - r.randrange(k))] for top, k in ((2**31 + 5, 10), (2**32, 4))])
    p.spread("long", [["note long", "crc %s %s" % (v, g(r.randrange(256), r.randrange(256), r.randrange(1, 256), r.choice([65535, 65536, 65537, 65800, 66000])))] for v in CRCS * p.n(1, 4)], p.n(5, 16))


def plan_C12(p):
    r = p.rng
    p.content_parts()
    parts = []
    for v in CRCS:
        part = ["note stream"] + ambient(r)
        for _ in range(p.n(24, 300)):
            part += crc_stream(r, v, r.randrange(3))
            part += crc_reach(r, v, r.randrange(3))
        for cut in ((0,), (0, 0), (0, 3), (3, 0), (1, 0, 1), (0, 0, 4), (256, 1), (1, 256), (255, 2), (257, 0, 1)):
            part += ["cnew 0 " + v] + ["cchunk 0 %s %d" % (crc_message(r, n), j == len(cut) - 1) for j, n in enumerate(cut)]
        parts.append(part)
        # two streams of one variant, alternating
        parts.append(["note two", "cnew 0 " + v, "cnew 1 " + v, "cchunk 0 %s 0" % crc_message(r, 5), "cchunk 1 %s 0" % crc_message(r, 4), "cchunk 0 %s 1" % crc_message(r, 3), "cchunk 1 %s 1" % crc_message(r, 2)])
    p.spread("stream", parts, p.n(6, 24))
    p.spread("long", [["note long", "cnew 0 " + v, "cchunk 0 %s 0" % g(3, r.randrange(256), r.randrange(256), r.choice([65535, 65536, 65537])), "cchunk 0 %s 1" % g(5, 1, 7, r.choice([0, 1, 65536]))]
                      for v in r.sample(CRCS, p.n(12, 45))], p.n(3, 8))
    reps = lambda: g(0, r.randrange(256), 0, r.choice([0, 1, 255, 256, 65535, 65536, 65537, 2**20 + 1, 2**24 + 1]))
    p.spread("copies", [["note copies"] + ["cnew 0 " + v] + ["cchunk 0 %s %d" % (reps(), j == 2) for j in range(3)] for v in CRCS], 2)
    tabs = [["note tab"] + ["ctab 8 %d" % q for q in range(k, 256, 16)] for k in range(16)]
    poly = {16: [0x1021, 0x8005, 0x8BB7, 0, 1, 0xFFFF, 0x8000, 0x0080], 32: [0x04C11DB7, 0x1EDC6F41, 0, 1, 0xFFFFFFFF, 0x80000000, 0xAF, 0x814141AB, 0x00800000, 0x8000]}
    for w in (16, 32):
        tabs += [["note tab", "ctab %d %d" % (w, q)] for q in poly[w] + [r.randrange(2**w) for _ in range(p.n(12, 200))]]
    p.spread("tab", tabs, p.n(4, 16))
    base = []
    for w in (8, 16, 32):
        for ro, ri, fx in itertools.product((0, 1), repeat=3):
            for _ in range(p.n(6, 60)):
                v = lambda: r.choice([0, 1, 2**w - 1, r.randrange(2**w), r.randrange(2**w)])
                base.append(["note base"] + ambient(r) + ["cbase %d %d %d %d %d %d %d %s" % (w, v(), v(), v(), ro, ri, fx, crc_message(r, n)) for n in (0, 1, r.randrange(2, 30), r.choice([255, 256, 257, 40]))])
    p.spread("base", base, p.n(4, 16))


def plan_C13(p):
    r = p.rng
    p.content_parts()
    p.spread("lens", [["note len"] + ambient(r) + [chacha(r, n)] for n in sorted({64 * k + d for k in range(8, 33) for d in (-1, 0, 1)} | set(near(p.numbers, 200, 2000, 20, r)))], 2)
    p.spread("numbers", [["note ctr", "chacha %s %s %d %s 0" % (xb(ch_key(r, 32)), xb(ch_key(r, 12)), c, xb(rbytes(r, 130)))] for c in near(p.numbers, 3, 2**32 - 1, 60, r)], 1)
    p.add("repeat", ["note repeat", "rep 66000 " + chacha(r, 5, inplace=0), "rep 66000 " + chacha(r, 65, inplace=0)])
    parts = [["note len"] + ambient(r) + [chacha(r, n)] for n in list(range(0, 200)) + [r.randrange(0, 520) for _ in range(p.n(120, 2500))]]
    parts += [["note ctr", "chacha %s %s %d %s %d" % (xb(ch_key(r, 32)), xb(ch_key(r, 12)), c, xb(rbytes(r, r.choice([64, 65, 128, 150, 200]))), r.randrange(2))] for c in COUNTERS * p.n(2, 10)]
    bit = []
    for k in range(256):
        key = bytearray(32)
        key[k // 8] = 1 << k % 8
        bit.append(["note bit", "chacha %s %s 0 %s 0" % (xb(key), xb(bytes(12)), g(0, 0, 0, 64))])
    for k in range(96):
        key = bytearray(12)
        key[k // 8] = 1 << k % 8
        bit.append(["note bit", "chacha %s %s 0 %s 0" % (xb(bytes(32)), xb(key), g(0, 0, 0, 64))])
    for k in range(32):
        bit.append(["note bit", "chacha %s %s %d %s 0" % (xb(bytes(32)), xb(bytes(12)), 1 << k, g(0, 0, 0, 64))])
    p.spread("len", parts + bit, p.n(12, 40))
    p.spread("long", [["note long"] + ambient(r) + [chacha(r, n, blk=(0, 1, n // 64 - 1, n // 64, n // 128))] for n in (16319, 16320, 16383, 16384, 16385, 16447, 16448, 16449, 20000)], 3)
    for top in (2**31 + 1000, 2**32)[:2 if p.deep else 1]:
        n = top - 1 - r.randrange(1000)
        p.giant(["gchacha %s %s %d %d %d %d 0 1 %d %d %d %d %d" % (xb(ch_key(r, 32)), xb(ch_key(r, 12)), r.choice([0, 1, 2**32 - 2**20, r.randrange(2**32)]), r.randrange(1, 256, 2), r.randrange(256), n,
                                                              r.randrange(2**25), 2**25 - 1, n // 128, n // 64 - 1, n // 64)])
    n = 65537 * 64 + 13
    p.add("big16", ["note long", chacha(r, n, blk=(0, 255, 256, 257, 1023, 1024, 1025, 16384, 32768, 65534, 65535, 65536, 65537)), chacha(r, 65601, blk=(0, 1022, 1023, 1024, 1025))], flavour="O2")


def plan_C14(p):
    r = p.rng
    p.content_parts()
    p.spread("lens", [["note back"] + ambient(r) + [ch_back(r, n)] for n in sorted({64 * k + d for k in range(8, 33) for d in (-1, 0, 1)} | set(near(p.numbers, 200, 2000, 20, r)))], 2)
    parts = [["note stream"] + ambient(r) + ch_stream(r, r.randrange(3)) for _ in range(p.n(700, 10000))]
    parts += [["note back"] + ambient(r) + [ch_back(r, n)] for n in list(range(0, 200)) + [r.randrange(600) for _ in range(p.n(150, 3000))]]
    p.spread("stream", parts, p.n(10, 32))
    p.spread("long", [["note long"] + ch_stream(r, 0, big) for big in (16320, 16384, 16448, 65536)] + [["note long"] + [ch_back(r, n)] for n in (16383, 16384, 16385, 16449, 65535, 65536, 65537, 65601)], 4, heap="3g")
    n = 65536 * 64
    p.add("big16", ["note long", "hnew 0 %s %s 4294967290" % (xb(ch_key(r, 32)), xb(ch_key(r, 12))), "hpart 0 %s 0" % g(1, 2, 3, 1024 * 64), "hpart 0 %s 1" % g(5, 2, 3, 257 * 64 + 5), "hwhole 0 1"], flavour="O2", heap="3g")


def plan_C15(p):
    r = p.rng
    p.content_parts()
    p.spread("lens", [["note n"] + ambient(r) + [vernam(r, n), "caesar %d %s" % (r.randrange(256), xb(message(r, n)))] for n in list(range(300)) + near(p.numbers, 300, 9000, 12, r)], 2)
    p.add("repeat", ["note repeat", "rep 66000 " + vernam(r, 3), "rep 66000 caesar 30 x4142637a"])
    allb = bytes(range(1, 256))
    parts = [["note shift"] + ambient(r) + ["caesar %d %s" % (s, xb(allb)), "caesar %d %s" % (s, xb(message(r, r.randrange(0, 30))))] for s in range(256)]
    for m in range(1, 256):
        parts.append(["note every", "vernam %s 256 %s" % (xb(range(256)), xb([m] * 256))])
    parts += [["note vernam"] + ambient(r) + [vernam(r, r.choice([0, 1, 1, 2, 3, 5, 8, 13, 40]))] for _ in range(p.n(900, 15000))]
    parts += [["note length"] + ambient(r) + [vernam(r, n, kl)] for n in (0, 1, 2, 5, 255, 256, 257) for kl in (n - 1, n + 1, 0, -1, n + 256, 2 * n, -n, n - 256) if kl != n]
    parts += [["note length", "vernam %s %d %s" % (xb(b"KEYkey"), n + 65536, xb(b"abc" * 2)[:1 + 2 * n])] for n in (0, 3, 6)]
    parts += [["note n"] + ambient(r) + [vernam(r, n), "caesar %d %s" % (r.randrange(256), xb(message(r, n)))] for n in (127, 128, 254, 255, 256, 257, 300)]
    p.spread("cipher", parts, p.n(8, 32))
    p.giant(["gvernam %d %d" % (2**32 + n, n) for n in (r.randrange(1, 200), 0)])
    p.add("big16", ["note long", vernam(r, 65537), "caesar 7 %s" % xb(message(r, 65537)), vernam(r, 32769)], heap="3g")


def plan_C16(p):
    r = p.rng
    p.content_parts()
    ls = s2u_cases(r, p.n(800, 20000))
    ls += ["s2u " + xb(b"%d" % n) for n in near(p.numbers, 0, 2**33, 300, r)] + ["s2u " + xb((b"%d" % n).rjust(10, b"0")) for n in near(p.numbers, 0, 2**33, 300, r)]
    p.add("repeat", ["note repeat", "rep 66000 s2u x343239", "rep 66000 s2u x3432786a", "rep 66000 pow 7", "rep 300 chr 65"])
    p.spread("dec", [["note dec"] + ambient(r) + ls[j:j + 20] for j in range(0, len(ls), 20)] + [["note chr"] + ["chr %d" % c for c in range(256)], ["note pow"] + ["pow %d" % e for e in range(256)]] * 2, p.n(6, 24))


def plan_C17(p):
    r = p.rng
    p.content_parts()
    parts = []
    nums = near(p.numbers, 0, 2**32 - 1, 300, r)
    p.spread("lens", [["note blob"] + ambient(r) + ["blob %s %s %s" % (k, o, xb(rbytes(r, n))) for k in ("ser", "des") for o in ("be", "le")] + ["swap %s %s" % (xb(rbytes(r, n)), xb(rbytes(r, n)))]
                      for n in list(range(70, 301)) + near(p.numbers, 301, 9000, 10, r)], 2)
    p.spread("numbers", [["note numbers"] + ambient(r) + ["ser %d %s %d" % (w, o, n) for w in (8, 16, 24, 32) for o in ("be", "le")]
                         + ["des %s %s" % (o, xb((n % 2**w).to_bytes(w // 8, "big" if o == "be" else "little"))) for w in (8, 16, 24, 32) for o in ("be", "le")] for n in nums], 1)
    p.add("repeat", ["note repeat"] + ["rep 66000 " + l for l in ("ser 32 be 19088743", "ser 24 le 19088743", "ser 16 le 4386", "des be x010203", "des le x01020304", "blob ser le x010203", "swap x0102 x0304")])
    for w in (8, 16, 24, 32):
        for o in ("be", "le"):
            vs = words(r, p.n(80, 2000))
            parts += [["note ser"] + ambient(r) + ["ser %d %s %d" % (w, o, v) for v in vs[j:j + 30]] for j in range(0, len(vs), 30)]
            ds = [rbytes(r, w // 8) for _ in range(p.n(80, 2000))] + [bytes([x if k == q else 0 for k in range(w // 8)]) for q in range(w // 8) for x in (1, 127, 128, 255)]
            parts += [["note des"] + ambient(r) + ["des %s %s" % (o, xb(d)) for d in ds[j:j + 30]] for j in range(0, len(ds), 30)]
    for k in ("ser", "des"):
        for o in ("be", "le"):
            parts += [["note blob"] + ambient(r) + ["blob %s %s %s" % (k, o, xb(rbytes(r, n)))] for n in list(range(0, 70)) + [127, 128, 254, 255, 256, 257, 258, 300]]
    parts += [["note swap"] + ambient(r) + ["swap %s %s" % (xb(rbytes(r, n)), xb(rbytes(r, n))), "swap %s self" % xb(rbytes(r, n))] for n in list(range(0, 70)) + [127, 128, 255, 256, 257, 300]]
    p.spread("bytes", parts, p.n(6, 24))
    p.giant(*[["gblob %s %s %d %d %d" % (k, o, r.randrange(1, 256, 2), r.randrange(256), 2**31 + r.randrange(1, 1000))] for k, o in (("ser", "le"), ("des", "le"), (r.choice(["ser", "des"]), "be"))])
    p.add("big16", ["note big"] + ["blob %s %s %s" % (k, o, g(r.randrange(256), 5, r.randrange(256), n)) for k in ("ser", "des") for o in ("be", "le") for n in (65535, 65536, 65537)]
          + ["swap %s %s" % (g(1, 2, 3, 65537), g(7, 2, 3, 65537))], heap="3g")


def plan_C18(p):
    r = p.rng
    p.content_parts()
    parts = []
    nums = near(p.numbers, 0, 2**32 - 1, 100, r)
    p.spread("numbers", [["note numbers"] + ["bit %s %d %d" % (f, v, r.randrange(32)) for f in ("test", "set", "clear", "toggle")] + ["rotl %d %d" % (v, r.randrange(33)), "refl %d %d" % (v, r.randrange(33))] for v in nums for _ in range(3)], 1)
    rev = lambda v, n: int(format(v & 2**n - 1, "0%db" % n)[::-1], 2)
    p.spread("numbers", [["note numbers"]       # values whose image is such a number, or one bit away from it
        + ["refl %d %d" % (x, n) for n in (8, 16, 32) for x in (rev(v, n), rev(v, n) ^ 1 << n - 1, rev(v, n) ^ 1 << r.randrange(n))]
        + ["rotl %d %d" % ((v >> k | v << 32 - k) & 0xFFFFFFFF, k) for k in r.sample(range(33), 3)]
        + ["bit %s %d %d" % (f, v ^ 1 << k, k) for f in ("set", "clear", "toggle") for k in r.sample(range(32), 2)] for v in nums], 1)
    p.add("repeat", ["note repeat"] + ["rep 66000 " + l for l in ("bit set 5 9", "bit clear 5 0", "bit toggle 5 31", "bit test 4 2", "bit set 5 40", "refl 19 8", "rotl 19 8")])
    for f in ("test", "set", "clear", "toggle"):
        for v in [0, 0xFFFFFFFF, 0x80000001, r.randrange(2**32), r.randrange(2**32)] + [r.randrange(2**32) for _ in range(p.n(2, 60))]:
            parts.append(["note bit"] + ambient(r) + ["bit %s %d %d" % (f, v, n) for n in (range(256) if v in (0, 0xFFFFFFFF) or r.random() < 0.3 else list(range(34)) + [63, 64, 128, 255])])
    for n in range(33):
        vs = words(r, p.n(12, 400))
        parts.append(["note rotl"] + ["rotl %d %d" % (v, n) for v in vs])
        parts.append(["note refl"] + ["refl %d %d" % (v, n) for v in vs])
    p.spread("bits", parts, p.n(6, 24))
    p.add("shift", ["note shift"] + ["rotl %d %d" % (v, n) for n in range(33) for v in (0, 1, 0x80000000, 0xFFFFFFFF)] + ["refl %d %d" % (v, n) for n in range(33) for v in (0, 1, 0x80000000, 0xFFFFFFFF)]
          + ["bit %s %d %d" % (f, v, n) for f in ("test", "set", "clear", "toggle") for n in range(256) for v in (0, 0xFFFFFFFF)], flavour="SH")


# ------------------------------------------------------------------ memory (C19)
def only_memory(trace, driver, work):
    out = trace + ".mem"
    with open(trace) as f, open(out, "w") as o:
        for l in f:
            e = json.loads(l)
            o.write(json.dumps({"op": e["op"], "st": e["st"], "mem": e["mem"]}, separators=(",", ":")) + "\n")
    return out, None


def plan_C19(p):
    """every generator of the other properties, with the footprint of each call recorded, at both placements"""
    r = p.rng
    parts = []
    for pid in ("C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18"):
        q = Plan(pid, "%d" % r.randrange(10**6), p.deep, {})
        q.single = True
        globals()["plan_" + pid](q)
        mine = []
        for s in q.shards:
            if any(x in s.name for x in ("giant", "big16", "n16", "n15", "wide16", "deep16", "long", "shift", "wide", "reach16", "copies", "churn")):
                continue
            if s.name.startswith("repeat"):         # not among many living areas: each of the calls looks at them all
                p.add("repeat", ["memlog 1"] + s.lines, module="TraceFootprint")
                continue
            part = []
            for l in s.lines:
                if l.startswith("note ") and part:
                    mine.append(part)
                    part = []
                part.append(l)
            if part:
                mine.append(part)
        r.shuffle(mine)
        budget = p.n(12000, 60000)
        for m in mine:
            if budget <= 0:
                break
            budget -= len(m)
            parts.append(m)
    for s in range(p.n(8, 32)):
        ls = [l for q in parts[s::p.n(8, 32)] for l in (["progclear"] + q)]
        p.add("all", ["memlog 1"] + ls, module="TraceFootprint")
    for what in ("L", "R"):  # the same calls at both placements
        ls = []
        for q in r.sample(parts, min(len(parts), p.n(400, 4000))):
            ls += ["progclear"] + [l if not l.startswith("place") else "place " + what for l in q]
        p.add("place" + what, ["memlog 1", "place " + what] + ls, module="TraceFootprint")
    for fl in ("O0", "O2", "CL", "O3"):
        for what in ("L", "R"):
            ls = [l for q in sweep(r) for l in ["progclear"] + [l for l in q if not l.startswith("place")]]
            p.add("sweep" + what, ["memlog 1", "place " + what] + ls, fl, module="TraceFootprint")
    p.add("long", ["memlog 1"] + ["note long"] + jl_long(r, 300) + ["b64e %s 65540" % g(3, 1, 1, 49150), "b64e %s 65536" % g(3, 1, 1, 49150), chacha(r, 16385), "blob ser le %s" % g(1, 1, 1, 65537)]
          + q_big(r, 257, 3) + p_big(r, 257, 3) + m_big(r, 257, 3, 2), module="TraceFootprint")
    for s in p.shards:
        s.post = only_memory


# --------------------------------------------------------------- isolation (C20)
FAM = {"QInit": "Q", "QEnq": "Q", "QDeq": "Q", "QFront": "Q", "QRear": "Q", "QStat": "Q", "QFill": "Q", "QDrain": "Q",
       "PInit": "P", "PEnq": "P", "PDeq": "P", "PStat": "P", "PFill": "P", "PDrain": "P",
       "MInit": "M", "MIns": "M", "MGet": "M", "MFill": "M", "MLook": "M",
       "STable": "S", "SInit": "S", "SAdd": "S", "SSet": "S", "RunStart": "S", "RunEnd": "S", "TaskStart": "S", "TaskEnd": "S",
       "JBuf": "J", "JStart": "J", "JAdd": "J", "JEnd": "J", "JFind": "J", "CNew": "C", "CChunk": "C",
       "HNew": "H", "HPart": "H", "HWhole": "H"}


def histories(trace):
    """object -> (pure, commands in order, outcomes in order); and the sequence of (object, outcome)"""
    objs, seq, stack = {}, [], []
    with open(trace) as f:
        for l in f:
            e = json.loads(l)
            cmd = e.pop("cmd")
            op = e["op"]
            if op == "Note":
                continue
            fam = FAM.get(op)
            if op == "RunStart":
                stack.append(e["id"])
            if op in ("TaskStart", "TaskEnd"):
                e["id"] = stack[-1] if stack else -1
            key = (fam, e["id"]) if fam else ("pure", cmd)
            if op == "RunEnd" and stack:
                stack.pop()
            o = objs.setdefault(key, [[], []])
            if op not in ("RunEnd", "TaskStart", "TaskEnd"):
                o[0].append(cmd)
            o[1].append(json.dumps(e, sort_keys=True))
            seq.append((key, o[1][-1]))
    return objs, seq


def against_alone(trace, driver, work):
    """record every object's history again in a process of its own and set it against the mixed run"""
    import subprocess, os, tempfile
    objs, seq = histories(trace)
    index, alone, codes = {}, [], {}
    code = lambda s: codes.setdefault(s, len(codes))
    d = tempfile.mkdtemp(dir=work)
    pure = [k for k in objs if k[0] == "pure"]
    # pure calls: one process per call would be thousands; each process starts from the same state, so a batch
    # of processes forked by one shell is used, one call each
    keys = [k for k in objs if k[0] != "pure"] + pure
    for k in keys:
        cmds = objs[k][0] if k[0] != "pure" else [k[1]]
        t = os.path.join(d, "alone")
        with open(t, "wb") as o:
            r = subprocess.run([driver], input=("cmdlog 1\n" + "\n".join(cmds) + "\n").encode(), stdout=o, stderr=subprocess.PIPE, env={"HANG_S": "20"})
        h, pr = [], k[0] == "pure"
        if r.returncode == 0:
            _, s2 = histories(t)
            h = [code(o) for _, o in s2]
        index[k] = len(index) + 1
        alone.append({"k": list(map(str, k)), "pure": pr, "h": h or [-1]})
    a, t = os.path.join(d, "alone.ndjson"), trace + ".mix"
    with open(a, "w") as o:
        o.writelines(json.dumps(x) + "\n" for x in alone)
    with open(t, "w") as o:
        o.writelines(json.dumps({"k": index[k], "o": code(x), "what": k[1] if k[0] == "pure" else "%s%s" % k}) + "\n" for k, x in seq)
    return t, {"ALONE": a}


class Obj:
    """an object of some family with an endless supply of calls on it"""
    def __init__(self, r, fam, id):
        self.r, self.fam, self.id = r, fam, id
        self.q = []
        self.done = False

    def init(self):
        r, i = self.r, self.id
        self.cap, self.esz = r.choice([1, 2, 3, 4]), r.choice([1, 2, 4, 5])
        if self.fam == "Q":
            return ["qinit %d %d %d 1" % (i, self.cap, self.esz)]
        if self.fam == "P":
            return ["pinit %d %d %d 1" % (i, self.cap, self.esz)]
        if self.fam == "M":
            return ["minit %d %d %d %d 1 1" % (i, self.esz, self.esz, self.cap)]
        if self.fam == "S":
            return ["stable %d %d" % (i, self.cap), "sinit %d %d" % (i, self.cap)]
        if self.fam == "J":
            return ["jbuf %d 60 x" % i, "jstart %d 60" % i]
        if self.fam == "C":
            self.v = r.choice(CRCS)
            return ["cnew %d %s" % (i, self.v)]
        return ["hnew %d %s %s %d" % (i, xb(ch_key(r, 32)), xb(ch_key(r, 12)), ch_ctr(r))]

    def call(self):
        r, i = self.r, self.id
        if self.fam == "Q":
            return r.choice(["qenq %d %s" % (i, xb(rbytes(r, self.esz)))] * 3 + ["qdeq %d 1" % i] * 2 + ["qfront %d 1" % i, "qrear %d 1" % i, "qstat %d" % i])
        if self.fam == "P":
            return r.choice(["penq %d %d %s" % (i, r.randrange(3), xb(rbytes(r, self.esz)))] * 3 + ["pdeq %d" % i] * 2 + ["pstat %d" % i])
        if self.fam == "M":
            k = xb([r.randrange(3)] * self.esz)
            return r.choice(["mins %d %s %s" % (i, k, xb(rbytes(r, self.esz))), "mget %d %s" % (i, k)])
        if self.fam == "S":
            return r.choice(["sadd %d %d %d %d" % (i, self.cap, self.task(), 1), "srun %d %d" % (i, self.cap), "sset %d %d -1 0" % (i, r.randrange(self.cap))])
        if self.fam == "J":
            return r.choice(["jadd %d 60 %s %s" % (i, xb(rng_key(r)), xb(rng_key(r))), "jfind %d 60 %s 5" % (i, xb(rng_key(r))), "jend %d 60" % i, "jstart %d 60" % i])
        if self.fam == "C":
            if r.random() < 0.25:
                return "cchunk %d %s 1\ncnew %d %s" % (i, crc_message(r, r.randrange(6)), i, self.v)
            return "cchunk %d %s 0" % (i, crc_message(r, r.randrange(6)))
        if r.random() < 0.3:
            return "hwhole %d %d" % (i, r.randrange(2))
        return "hpart %d %s %d" % (i, xb(rbytes(r, 64 * r.randrange(0, 3))), r.randrange(2))

    def task(self):
        return 4 * (self.id % 8) + self.r.randrange(4)


def rng_key(r):
    return bytes(r.choice(b"ab") for _ in range(r.randrange(3)))


PURE_FAMILIES = [
    lambda r: "b64e %s 40" % xb(rbytes(r, r.randrange(1, 20))),
    lambda r: "b64d %s 30 20" % xb(spelled(r, rbytes(r, 20))),
    lambda r: sort_random(r, "bubble", r.randrange(2, 7), r.choice([1, 4, 9]), 0),
    lambda r: sort_random(r, "heap", r.randrange(2, 7), r.choice([1, 4, 9]), 0),
    lambda r: sort_random(r, "insertion", r.randrange(2, 7), r.choice([1, 4, 9]), 0),
    lambda r: sort_random(r, "selection", r.randrange(2, 7), r.choice([1, 4, 9]), 0),
    lambda r: "crc %s %s" % (r.choice(CRC8), xb(rbytes(r, r.randrange(1, 9)))),
    lambda r: "crc %s %s" % (r.choice(CRC16), xb(rbytes(r, r.randrange(1, 9)))),
    lambda r: "crc %s %s" % (r.choice(CRC32), xb(rbytes(r, r.randrange(1, 9)))),
    lambda r: "ctab %d %d" % (r.choice([8, 16, 32]), r.randrange(256)),
    lambda r: chacha(r, r.choice([5, 64, 100])),
    lambda r: "caesar %d %s" % (r.randrange(256), xb(message(r, 9))),
    lambda r: vernam(r, 9),
    lambda r: "s2u " + xb(b"%d" % r.randrange(10**10)),
    lambda r: "pow %d" % r.randrange(12),
    lambda r: "blob %s %s %s" % (r.choice(["ser", "des"]), r.choice(["be", "le"]), xb(rbytes(r, 9))),
    lambda r: "swap %s %s" % (xb(rbytes(r, 9)), xb(rbytes(r, 9))),
    lambda r: "ser %d %s %d" % (r.choice([16, 24, 32]), r.choice(["be", "le"]), r.randrange(2**32)),
    lambda r: "des %s %s" % (r.choice(["be", "le"]), xb(rbytes(r, 4))),
    lambda r: r.choice(["refl %d %d" % (r.randrange(2**32), r.randrange(33)), "rotl %d %d" % (r.randrange(2**32), r.randrange(33)), "bit set %d %d" % (r.randrange(2**32), r.randrange(32))]),
    lambda r: (lambda d: jl_looks(r, *d, 1)[0])(jl_doc(r)),
]


def functions(crcs=True):
    """every function without state, one entry each (a static variable of one disturbs only itself); with the number
    of the library's calls that the command makes"""
    word = lambda r: r.choice([r.randrange(2**32), r.randrange(2**32), 2**32 - 1, 0x80000001])
    out = [(f, 1) for f in PURE_FAMILIES[:6]]
    if crcs:
        out += [((lambda r, v=v: "crc %s %s" % (v, xb(rbytes(r, r.randrange(1, 6))))), 1) for v in CRCS]
    out += [((lambda r, w=w: "ctab %d %d" % (w, r.randrange(256))), 1) for w in (8, 16, 32)]
    out += [((lambda r, w=w: "cbase %d %d %d %d %d %d %d %s" % (w, *(r.randrange(2**w) for _ in range(3)), r.randrange(2), r.randrange(2), r.randrange(2), xb(rbytes(r, 4)))), 1) for w in (8, 16, 32)]
    out += [(lambda r: chacha(r, r.choice([5, 64, 70])), 1), (lambda r: "caesar %d %s" % (r.randrange(256), xb(message(r, 5))), 2), (lambda r: vernam(r, 5), 2),
            (lambda r: "b64rt " + xb(rbytes(r, r.randrange(1, 9))), 3), (lambda r: "s2u " + xb(b"%d" % r.randrange(10**10)), 1), (lambda r: "pow %d" % r.randrange(10), 1),
            (lambda r: "chr %d" % r.randrange(256), 1), (lambda r: (lambda n: "swap %s %s" % (xb(rbytes(r, n)), xb(rbytes(r, n))))(r.randrange(1, 9)), 1),
            (lambda r: "refl %d %d" % (word(r), r.choice([8, 16, 32, r.randrange(33)])), 1), (lambda r: "rotl %d %d" % (word(r), r.randrange(33)), 1),
            (lambda r: jl_looks(r, *jl_doc(r), 1)[0], 1)]
    out += [((lambda r, b=b: "bit %s %d %d" % (b, word(r), r.randrange(32))), 2 if b == "test" else 1) for b in ("test", "set", "clear", "toggle")]
    out += [((lambda r, o=o, w=w: "ser %d %s %d" % (w, o, word(r))), 1) for w in (8, 16, 24, 32) for o in ("be", "le")]
    out += [((lambda r, o=o, w=w: "des %s %s" % (o, xb(rbytes(r, w)))), 1) for w in (1, 2, 3, 4) for o in ("be", "le")]
    out += [((lambda r, o=o, d=d: "blob %s %s %s" % (d, o, xb(rbytes(r, r.randrange(2, 9))))), 1) for d in ("ser", "des") for o in ("be", "le")]
    return out


def iso_mix(p, r, rounds):
    """objects of all families, interleaved, nested in comparators and tasks"""
    objs = [Obj(r, f, i) for f in "QPMSJCH" for i in r.sample(range(8), 2)]
    out = ["progclear"]
    fams = objs[:]
    r.shuffle(fams)
    for o in fams:
        out += o.init()
    k = 0
    lines = lambda cs: [l for c in cs for l in c.split("\n")]
    tabs = [o for o in objs if o.fam == "S"]
    others = [o for o in objs if o.fam != "S"]
    for t in tabs:   # what the tasks of this table do: calls on other objects, never on a table that may be running
        for b in range(4):
            name = "k%d" % k
            k += 1
            out += ["def " + name] + lines([r.choice(others).call() if r.random() < 0.7 else pure_call(r) for _ in range(r.randrange(1, 4))]) + ["end"]
            out.append("prog %d %s" % (4 * (t.id % 8) + b, " ".join([name] * 3)))
    for _ in range(rounds):
        x = r.random()
        if x < 0.62:
            out += lines([r.choice(objs).call()])
        elif x < 0.80:
            out.append(pure_call(r))
        else:
            name = "k%d" % k
            k += 1
            out += ["def " + name] + lines([r.choice(others).call() if r.random() < 0.5 else pure_call(r) for _ in range(r.randrange(1, 4))]) + ["end"]
            out += ["hook %d %s" % (r.randrange(1, 6), name)]
            es = r.choice([1, 2, 5, 8, 33, 64])
            out += [sort_random(r, r.choice(ALGS), r.randrange(3, 8), es, 0)]
    return out


def iso_preempt(p, r, pairs):
    """a call interrupted at its machine instructions by calls of the same or another family"""
    out, k = ["progclear"], 0
    for main, intr in pairs:
        name = "p%d" % k
        k += 1
        out += ["def " + name] + [intr(r) for _ in range(r.choice([1, 1, 2]))] + ["end"]
        call = main(r)
        for _ in range(2):
            out += [window(r, 60) + name, call if r.random() < 0.5 else main(r)]
        out += ["prew 40 " + name, call]
        out += ["prew 3 " + name, main(r)]
    return out


def window(r, most):
    """where to interrupt: from a step of any magnitude on, at intervals of any magnitude"""
    stride = int(2 ** r.uniform(0, 9))
    return "pre %d %d %d " % (int(2 ** r.uniform(0, 13)), stride, r.choice([1, 3, most]))


def iso_preempt_objs(p, r, n):
    out, k = ["progclear"], 0
    for fam in "QPMSJCH":
        a, b = Obj(r, fam, 1), Obj(r, fam, 2)
        out += a.init() + b.init()
        if fam == "S":
            out = [l for l in out if not l.startswith("prog ")]
        for _ in range(n):
            name = "o%d" % k
            k += 1
            out += ["def " + name] + b.call().split("\n") + ["end"]
            ls = a.call().split("\n")
            out += [r.choice([window(r, 25), "pre %d %d 25 " % (r.randrange(1, 60), r.choice([1, 2, 3, 5, 7])), "prew 20 "]) + name, ls[0]] + ls[1:]
    return out


# every operation of one object against balanced use of another object of its family: the operations of the
# first (setup, operations) and what is done to the second (setup, scripts)
def iso_family(r, fam, i, j):
    e1 = r.choice([1, 2, 4, 5, 8, 9])
    e2 = r.choice([e1, e1, 1, 3, 8])
    b = lambda n: xb(rbytes(r, n))
    if fam == "Q":
        return (["qinit %d 3 %d 1" % (i, e1), "qenq %d %s" % (i, b(e1)), "qenq %d %s" % (i, b(e1))],
                ["qdeq %d 1" % i, "qenq %d %s" % (i, b(e1)), "qfront %d 1" % i, "qrear %d 1" % i, "qstat %d" % i, "qenq %d %s" % (i, b(e1)), "qenq %d %s" % (i, b(e1)), "qdeq %d 1" % i, "qinit %d 3 %d 2" % (i, e1), "qdeq %d 1" % i],
                ["qinit %d 2 %d 1" % (j, e2), "qenq %d %s" % (j, b(e2))],
                [["qenq %d %s" % (j, b(e2)), "qdeq %d 1" % j], ["qdeq %d 1" % j, "qenq %d %s" % (j, b(e2))], ["qfront %d 1" % j, "qrear %d 1" % j, "qstat %d" % j], ["qinit %d 2 %d 2" % (j, e2), "qenq %d %s" % (j, b(e2))]])
    if fam == "P":
        enq = lambda k, p, e: "penq %d %d %s" % (k, p, b(e))
        return (["pinit %d 3 %d 1" % (i, e1), enq(i, 4, e1), enq(i, 2, e1)],
                ["pdeq %d" % i, enq(i, 7, e1), enq(i, 1, e1), enq(i, 5, e1), enq(i, 0, e1), "pstat %d" % i, "pdeq %d" % i, "pdeq %d" % i, "pinit %d 3 %d 2" % (i, e1), "pdeq %d" % i],
                ["pinit %d 2 %d 1" % (j, e2), enq(j, 9, e2)],
                [[enq(j, 3, e2), "pdeq %d" % j], [enq(j, 2**31 + 5, e2), "pdeq %d" % j], ["pdeq %d" % j, enq(j, 6, e2), "pstat %d" % j], ["pinit %d 2 %d 2" % (j, e2), enq(j, 1, e2)]])
    if fam == "M":
        ins = lambda k, c, e: "mins %d %s %s" % (k, xb([c] * e), b(e))
        get = lambda k, c, e: "mget %d %s" % (k, xb([c] * e))
        return (["minit %d %d %d 3 1 1" % (i, e1, e1), ins(i, 1, e1), ins(i, 2, e1)],
                [get(i, 2, e1), get(i, 9, e1), ins(i, 1, e1), get(i, 1, e1), ins(i, 3, e1), ins(i, 4, e1), get(i, 3, e1), "minit %d %d %d 3 2 2" % (i, e1, e1), get(i, 1, e1), ins(i, 5, e1), get(i, 5, e1)],
                ["minit %d %d %d 2 1 1" % (j, e2, e2), ins(j, 3, e2), ins(j, 2, e2)],
                [[get(j, 3, e2)], [get(j, 7, e2)], [ins(j, 3, e2), get(j, 3, e2)], ["minit %d %d %d 2 2 2" % (j, e2, e2), ins(j, 2, e2)]])
    if fam == "S":
        return (["stable %d 3" % i, "sinit %d 3" % i],
                ["sadd %d 3 %d 1" % (i, 4 * (i % 8)), "sadd %d 3 %d 1" % (i, 4 * (i % 8) + 1), "srun %d 3" % i, "sset %d 1 -1 0" % i, "srun %d 3" % i, "sadd %d 3 %d 0" % (i, 4 * (i % 8) + 2), "srun %d 3" % i, "sadd %d 1 2 1" % i, "sinit %d 3" % i, "srun %d 3" % i],
                ["stable %d 2" % j, "sinit %d 2" % j, "sadd %d 2 %d 1" % (j, 4 * (j % 8))],
                [["srun %d 2" % j], ["sadd %d 2 %d 1" % (j, 4 * (j % 8) + 1), "sset %d 1 -1 1" % j], ["sadd %d 1 5 1" % j], ["sinit %d 2" % j, "sadd %d 2 %d 1" % (j, 4 * (j % 8)), "srun %d 2" % j]])
    if fam == "J":
        return (["jbuf %d 60 x" % i],
                ["jstart %d 60" % i, "jadd %d 60 x6161 x626262" % i, "jadd %d 60 x63 x" % i, "jend %d 60" % i, "jfind %d 60 x63 5" % i, "jfind %d 60 x6161 5" % i, "jfind %d 60 x7a 5" % i, "jadd %d 60 %s x" % (i, xb(b"y" * 50))],
                ["jbuf %d 30 x" % j],
                [["jstart %d 30" % j, "jadd %d 30 x78 x79" % j, "jend %d 30" % j, "jfind %d 30 x78 3" % j], ["jstart %d 30" % j, "jadd %d 30 x787878 x79797979" % j, "jadd %d 30 x %s" % (j, xb(b"z" * 30))]])
    if fam == "C":
        v = r.choice([CRC8, CRC16, CRC32])
        w = r.choice([v, v, CRCS])
        return (["cnew %d %s" % (i, r.choice(v))],
                ["cchunk %d %s 0" % (i, b(3)), "cchunk %d %s 0" % (i, b(2)), "cchunk %d x 0" % i, "cchunk %d %s 1" % (i, b(4))],
                [],
                [["cnew %d %s" % (j, r.choice(w)), "cchunk %d %s 0" % (j, b(2)), "cchunk %d %s 1" % (j, b(1))]])
    if fam == "H":
        new = lambda k: "hnew %d %s %s %d" % (k, xb(ch_key(r, 32)), xb(ch_key(r, 12)), ch_ctr(r))
        return ([new(i)], ["hpart %d %s %d" % (i, b(64), ip) for ip in (0, 1)] + ["hpart %d %s 0" % (i, b(20)), "hwhole %d 0" % i, "hwhole %d 1" % i],
                [], [[new(j), "hpart %d %s 0" % (j, b(64)), "hpart %d %s 1" % (j, b(33))]])


def iso_pairs(r, fam, n):
    """every operation interrupted at each of its first n instructions, at fewer points all along, and wherever it
    has changed data of the library's own"""
    out = ["note pairs %s" % fam, "place " + r.choice("LR")]
    setup, ops, other, scripts = iso_family(r, fam, 1, 2)
    for k, s in enumerate(scripts):
        name = "%s%d" % (fam, k)
        out += ["def " + name] + s + ["end"] + (other if k == 0 else [])
        out += setup
        for op in ops:
            step = r.choice([1, 1, 2, 3, 5])
            out += [r.choice(["prew 30 " + name, "prew 30 " + name, "pre %d %d %d %s" % (r.randrange(1, 4), step, n, name), "pre %d %d %d %s" % (int(2 ** r.uniform(0, 12)), int(2 ** r.uniform(3, 8)), n // 4, name)]), op]
        out += setup
        for op in ops:
            out += ["prew 30 " + name, op]
        out += setup
        for op in ops:
            out += ["pre 1 1 %d %s" % (n, name), op]
    return out


def iso_first(r):
    """the first call of each function in this process, interrupted by another call of it"""
    out, k = ["note first"], 0
    fs = functions(crcs=False)
    for fam, calls in r.sample(fs, len(fs)):
        k += 1
        out += ["def f%d" % k, fam(r), "end", "prew 40 f%d %d" % (k, r.randrange(calls)), fam(r)]
    for v in r.sample(CRCS, len(CRCS)):
        k += 1
        m = lambda: xb(rbytes(r, r.randrange(1, 6)))
        out += ["def f%d" % k, "crc %s %s" % (v, m()), "end", r.choice(["prew 300 f%d", "prew 300 f%d", "pre 1 1 40 f%d", "pre 1 29 100 f%d"]) % k, "crc %s %s" % (v, m())]
        out.append("crc %s %s" % (v, m()))
    return out


def iso_each(r, n):
    """each function without state, interrupted at each of its first n instructions by a call of it on other data"""
    out, k = ["note each", "place " + r.choice("LR")], 0
    for fam, calls in functions():
        for c in range(calls):
            k += 1
            out += ["def e%d" % k, fam(r), "end"]
            out += ["pre %d 1 %d e%d %d" % (r.choice([1, 1, n]), n, k, c), fam(r), "pre 1 %d %d e%d %d" % (r.choice([7, 17, 31]), n, k, c), fam(r), "prew 60 e%d %d" % (k, c), fam(r)]
    return out


def iso_reentrant(r):
    """a comparator that itself sorts another array, at one of its calls or at all"""
    parts, k = [], 0
    for a in ALGS:
        for b in ALGS:
            for hook in (0, 0, 0, 1, 2, 3, 4, 5, 6, 9):
                k += 1
                es = r.choice([1, 1, 2, 4, 5, 8, 9, 33, 64])
                part = ["note reentrant", "def r%d" % k] + [sort_random(r, b, r.choice([2, 3, 3, 4, 5]), r.choice([es, es, 1, 7, 64]), 0) for _ in range(r.choice([1, 1, 2]))] + ["end"]
                if r.random() < 0.3:
                    part[2:2] = [pure_call(r)]
                for _ in range(3):
                    part += ["hook %d r%d" % (hook, k), sort_random(r, a, r.choice([2, 3, 4, 4, 5, 6, 7]), es, r.choice(modes_for(es)))]
                parts.append(part)
            # every order of four (and some of five) elements, the comparator sorting at each of its calls
            k += 1
            es = r.choice([1, 2, 5, 8])
            row = lambda ks: xb(b"".join(bytes([x]) + bytes(es - 1) for x in ks))
            part = ["note orders", "def r%d" % k, "sort %s %d 0 %s" % (b, es, row(r.choice([(3, 2, 1), (2, 1), (1, 2, 3)]))), "end"]
            orders = list(itertools.permutations((1, 2, 3, 4)))
            r.shuffle(orders)
            for o in orders + [r.sample((1, 2, 3, 4, 5), 5) for _ in range(6)]:
                part += ["hook 0 r%d" % k, "sort %s %d 0 %s" % (a, es, row(o))]
            parts.append(part)
    return parts


def plan_C20(p):
    r = p.rng
    for _ in range(p.n(8, 48)):
        p.add("mix", ["cmdlog 1"] + iso_mix(p, r, p.n(220, 600)), module="TraceIso")
    same = [(f, f) for f in PURE_FAMILIES] * p.n(2, 8)
    crc = [(lambda r: "crc %s %s" % (r.choice(CRCS), xb(rbytes(r, 5))),) * 2] * p.n(6, 40)
    cross = [tuple(r.sample(PURE_FAMILIES, 2)) for _ in range(p.n(40, 400))]
    pairs = same + crc + cross
    r.shuffle(pairs)
    for s in range(p.n(6, 24)):
        p.add("interrupt", ["cmdlog 1"] + iso_preempt(p, r, pairs[s::p.n(6, 24)]), module="TraceIso")
    for _ in range(p.n(2, 10)):
        p.add("objects", ["cmdlog 1"] + iso_preempt_objs(p, r, p.n(6, 20)), module="TraceIso")
    for fam in "QPMSJCH":
        for fl in p.flavours():
            for _ in range(p.n(1, 4)):
                p.add("pairs" + fam, ["cmdlog 1"] + iso_pairs(r, fam, p.n(40, 160)), fl, module="TraceIso")
    for fl in p.flavours():
        for _ in range(p.n(1, 6)):
            p.add("first", ["cmdlog 1"] + iso_first(r), fl, module="TraceIso")
            p.add("each", ["cmdlog 1"] + iso_each(r, p.n(60, 400)), fl, module="TraceIso")
            re = iso_reentrant(r)
            r.shuffle(re)
            p.add("reentrant", ["cmdlog 1"] + [l for q in re for l in q], fl, module="TraceIso")
    for s in p.shards:
        s.post = against_alone
