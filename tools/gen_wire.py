"""Scenario families for the wire format (C24): what the library writes (bytes checked by WireTrace), and a foreign peer
that says the same thing in every way the protocol allows (over a faithful network, so whatever is found wrong is a
matter of understanding: the twin of such a scenario is empty)."""
import gen, gen_life
from gen_life import Sc

MAGIC = bytes([0, 255, 255, 0, 254, 254, 254, 254, 253, 253, 253, 253, 18, 52, 86, 120])


def u16(v): return v.to_bytes(2, "big")
def u24(v): return v.to_bytes(3, "little")
def u32(v): return v.to_bytes(4, "big")
def u64(v): return v.to_bytes(8, "big")


def v4(r):
    return b"\4" + bytes(r.randrange(256) for _ in range(4)) + u16(r.randrange(65536))


def v6(r):
    return b"\6" + r.choice([b"\x17\0", b"\0\x0a", b"\x1e\0"]) + u16(r.randrange(65536)) + u32(r.choice([0, 0, 77])) \
        + bytes(r.randrange(256) for _ in range(16)) + u32(r.choice([0, 0, 3]))


def addr(r):
    return r.choice([v4, v4, v6])(r)


def big(r):
    return r.choice([0, 1, 255, 256, 65535, 1 << 24, 1 << 32, (1 << 40) - 1, (1 << 63) - 1, r.randrange(1 << 63)])


def acks(r, k, lo, hi):
    """an acknowledgement of lo..hi in some way of writing it"""
    x = r.randrange(6)
    seqs = list(range(lo, hi + 1))
    if x == 0:
        recs = [(lo, hi, False)]
    elif x == 1:
        recs = [(q, q, True) for q in seqs]
    elif x == 2:
        recs = [(q, q, False) for q in seqs]                # a range of one
    elif x == 3:
        recs = [(q, q, r.random() < 0.5) for q in seqs]
        r.shuffle(recs)
    else:
        recs, q = [], lo
        while q <= hi:
            n = min(r.randrange(1, 6), hi - q + 1)
            recs.append((q, q + n - 1, n == 1 and r.random() < 0.5))
            q += n
        if x == 5:
            recs.reverse()
    b = bytes([k]) + u16(len(recs))
    for a, c, one in recs:
        b += b"\1" + u24(a) if one else b"\0" + u24(a) + u24(c)
    return {"k": "hex", "b": b.hex()}


def data(s, q, ri, oi, si, fid, dst, rounds, ids):
    """messages of all kinds, as a foreign sender may put them into datagrams"""
    r = s.r
    for _ in range(rounds):
        todo = []
        for _ in range(r.randrange(1, 7)):
            k = r.choice([0, 1, 2, 3, 3, 4])
            if k == 3 and r.random() < 0.4:
                chunk, parts = r.choice([(4, 9), (10, 4), (100, 5), (1000, 3), (4, 40)])
                ln = chunk * (parts - 1) + r.randrange(1, chunk + 1)
                m = s.id()
                for x in range(parts):
                    off = x * chunk
                    todo.append({"rel": 3, "ri": ri, "oi": oi, "m": m, "len": ln, "off": off, "n": min(chunk, ln - off), "frag": [parts, fid, x]})
                    ri += 1
                oi += 1
                fid = (fid + 1) % 65536
            else:
                f = {"rel": k, "m": s.id(), "len": r.choice([4, 5, 40, 300, 1300])}
                if k >= 2:
                    f["ri"] = ri
                    ri += 1
                if k in (1, 4):
                    f["si"], f["oi"] = si, oi
                    si += 1
                if k == 3:
                    f["oi"] = oi
                    oi += 1
                todo.append(f)
        while todo:
            n = r.choice([1, 2, 3, 8, 20])
            while n > 1 and sum(f.get("n", f["len"]) + 23 for f in todo[:n]) > 1360:
                n -= 1
            s.op("rawsend", "p", dst, {"k": "frames", "id": ids[q % len(ids)], "seq": q, "frames": todo[:n]})
            q += 1
            todo = todo[n:]
            if r.random() < 0.3:
                s.op("adv", r.choice([1, 20, 70]))
        s.op("adv", r.choice([10, 60, 120])).op("pull", "p")
    return q, ri, oi, si, fid


def answers(s, ep, dst, rounds):
    """the library sends; the peer acknowledges in its own way of writing, and reports some as missing first"""
    r = s.r
    hi = 40
    for _ in range(rounds):
        for _ in range(r.randrange(1, 8)):
            k = r.choice([0, 1, 2, 3, 3, 4])
            s.msg(ep, k, r.choice([4, 20, 700, 1300, 3000 if k == 3 else 9]), now=False)
        s.op("settle").op("pull", "p")
        if r.random() < 0.5:
            s.op("rawsend", "p", dst, acks(r, 0xa0, 0, hi)).op("adv", 60).op("pull", "p")
        s.op("rawsend", "p", dst, acks(r, 0xc0, 0, hi))
        hi += 60
        s.op("adv", r.choice([60, 130])).op("pull", "p")
        s.op("rawsend", "p", dst, acks(r, 0xc0, 0, hi)).op("adv", 60).op("pull", "p")
    s.op("rawsend", "p", dst, acks(r, 0xc0, 0, 4000 if r.random() < 0.2 else 700)).op("flush", ep).op("adv", 200)


def wirein(name, seed, k):
    s = Sc(name, seed, focus="C24", bytes=True)
    r = s.r
    six = k % 5 == 4
    at = ["v6"] if six else []
    ids = r.choice([[0x80], [0x8d], [0x84, 0x8c], list(range(0x80, 0x8e)), [0x88, 0x81, 0x8a]])
    s.op("bind", "L", *at).op("listen", "L").op("auto", 1).op("raw", "p", *at)
    guid = big(r)
    if k % 2 == 0:
        dst, ep = "L", "s1"
        for _ in range(r.randrange(3)):
            s.op("rawsend", "p", "L", {"k": "ping", "id": r.choice([1, 2]), "time": big(r), "guid": big(r)}).op("adv", 5)
        s.op("rawsend", "p", "L", {"k": "req1", "ver": r.choice([10, 11]), "size": r.choice([18, 19, 400, 1000, 1372, 1372, 1464])}).op("adv", 2).op("pull", "p")
        s.op("rawsend", "p", "L", {"k": "req2", "mtu": r.choice([1400, 1400, 1200, 576, 1492]), "guid": guid}).op("adv", 2).op("pull", "p")
        s.op("rawsend", "p", "L", {"k": "frames", "id": ids[0], "seq": 0, "frames": [
            {"rel": r.choice([2, 3]), "ri": 0, "oi": 0, "hex": (b"\x09" + u64(guid) + u64(big(r)) + b"\0").hex()}]})
        s.op("adv", 60).op("pull", "p")
        hello = b"\x13" + addr(r) + b"".join(addr(r) for _ in range(10)) + u64(big(r)) + u64(big(r))
        more = [{"rel": 0, "hex": (b"\0" + u64(big(r))).hex()}] if r.random() < 0.5 else []
        s.op("rawsend", "p", "L", {"k": "frames", "id": ids[-1], "seq": 1, "frames": [{"rel": 2, "ri": 1, "hex": hello.hex()}] + more})
        s.op("adv", 60).op("pull", "p").op("accept", "L", "s1").op("adv", 5)
        q, ri, oi = 2, 2, 1
    else:
        dst, ep = "c1", "c1"
        s.op("connect", "c1", "p", r.choice([10, 11])).op("adv", 1).op("pull", "p")
        s.op("rawsend", "p", "c1", {"k": "hex", "b": (b"\x06" + MAGIC + u64(guid) + b"\0" + u16(r.choice([1400, 1400, 1300, 600]))).hex()}).op("adv", 2).op("pull", "p")
        s.op("rawsend", "p", "c1", {"k": "hex", "b": (b"\x08" + MAGIC + u64(guid) + addr(r) + u16(1400) + b"\0").hex()}).op("adv", 2).op("pull", "p")
        s.op("adv", 60).op("pull", "p")
        acc = b"\x10" + addr(r) + u16(r.choice([0, 1, 700])) + b"".join(addr(r) for _ in range(r.choice([10, 10, 20, 0]))) + u64(big(r)) + u64(big(r))
        more = [{"rel": 0, "hex": (b"\0" + u64(big(r))).hex()}] if r.random() < 0.5 else []
        s.op("rawsend", "p", "c1", {"k": "frames", "id": ids[0], "seq": 0, "frames": [{"rel": r.choice([2, 3]), "ri": 0, "oi": 0, "hex": acc.hex()}] + more})
        s.op("adv", 60).op("pull", "p")
        q, ri, oi = 1, 1, 1
    return s, q, ri, oi, dst, ep, ids


def fam_in(name, seed, k):
    s, q, ri, oi, dst, ep, ids = wirein(name, seed, k)
    r = s.r
    s.op("rawsend", "p", dst, acks(r, 0xc0, 0, 20))
    fid = r.choice([0, 1, 255, 256, 4660, 65534])
    st = (q, ri, oi, 0, fid)
    for _ in range(3):
        st = data(s, *st, dst, 2, ids)
        answers(s, ep, dst, 2)
    s.op("quiesce", 3000, 50, 45)
    return s.done(twin=[])


def fam_out(name, seed, k):
    """what the library writes: everything it says between two of its own ends, on small numbers and on larger ones"""
    s = Sc(name, seed, bytes=True)
    r = s.r
    v6 = k % 4 == 3
    at = ["v6"] if v6 else []
    s.op("bind", "L", *at).op("motd", "L", r.choice(["", "x", "MCPE;a;1;2;0;10", "é漢", "y" * 200])).op("listen", "L")
    s.op("auto", 1, r.choice([0, 0, 15]))
    s.op("ping", "g0", "L").op("adv", 30)
    for c in (1, 2):
        s.op("connect", f"c{c}", "L", r.choice([10, 11])).op("adv", 130).op("accept", "L", f"s{c}").op("adv", 130)
    ends = ["c1", "s1", "c2", "s2"]
    for _ in range(10):
        for _ in range(r.randrange(1, 5)):
            kd = r.choice([0, 1, 2, 3, 3, 4])
            s.msg(r.choice(ends), kd, r.choice([4, 5, 60, 130] + ([1339, 1340, 1341, 2680, 2681] if kd == 3 and r.random() < 0.3 else [])), now=False)
        s.op("adv", r.choice([5, 60, 160]))
    if r.random() < 0.4:
        s.op("adv", 5200)          # connected pings
    s.op(r.choice(["close", "drop"]), r.choice(["c1", "s1"])).op("adv", 200)
    s.op("quiesce", 20000, 50, 45)
    return s.done()


def fam_many(name, seed, k):
    """numbers of the library beyond one byte, and beyond two"""
    s = Sc(name, seed, bytes=True)
    s.open(1)
    for b in range(14):
        for _ in range(22):
            s.msg("c1" if b % 2 == 0 else "s1", (4, 3, 2, 1)[k % 4], 4, now=False)
        s.op("adv", 120)
    s.op("quiesce", 3000, 50, 45)
    return s.done()


def withbytes(f):
    def g(seed, k):
        d = f(seed, k)
        d["cfg"] = dict(d["cfg"], bytes=True)
        d["name"] = "w" + d["name"]
        d.pop("focus", None)
        return d
    return g


L = gen_life.LIFE_FAMILIES
WIRE_FAMILIES = {
    "wirein": lambda sd, k: fam_in(f"wirein{k}", sd, k),
    "wireout": lambda sd, k: fam_out(f"wireout{k}", sd, k),
    "wiremany": lambda sd, k: fam_many(f"wiremany{k}", sd, k),
    **{"w" + f: withbytes(L[f]) for f in ("hand", "pings", "rawpings", "ipv6", "mtus", "incompat", "rawvers", "intruder", "vers")},
}
