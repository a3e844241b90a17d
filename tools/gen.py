"""Scenario families for the flow properties. Every scenario drives the real crate; all choices come from the seed."""
import random, zlib


class Sc:
    """builder of one scenario"""

    def __init__(self, name, seed, **cfg):
        self.name, self.ops, self.cfg = name, [], cfg
        self.r = random.Random(zlib.crc32(name.encode()) * 1000003 + seed)
        self.seed = self.r.randrange(1, 2**31)
        self.m = 0

    def __getattr__(self, op):
        def f(*a):
            self.ops.append([op.rstrip("_").replace("__", "!"), *a])
            return self
        return f

    def op(self, *a):
        self.ops.append(list(a))
        return self

    def id(self):
        self.m += 1
        return self.m

    def msg(self, ep, kd, ln, now=True, b0=None):
        i = self.id()
        a = ["send" if now else "send!", ep, kd, ln, i]
        if b0 is not None:
            a.append(b0)
        self.ops.append(a)
        return i

    def open(self, n=1, v6=False, ver=None, listener="L"):
        self.op("bind", listener, *(["v6"] if v6 else [])).op("listen", listener).op("auto", 1)
        for k in range(1, n + 1):
            self.connect1(k, listener, ver)
        return self

    def connect1(self, k, listener="L", ver=None):
        self.op("connect", f"c{k}", listener, *([ver] if ver else []))
        self.op("adv", 130).op("accept", listener, f"s{k}").op("adv", 130)
        return self

    def rawclient(self, mtu=1400, listener="L", p="p", v6=False, autoack=True):
        self.op("bind", listener, *(["v6"] if v6 else [])).op("listen", listener).op("auto", 1)
        self.op("raw", p, *(["v6"] if v6 else [])).op("rawconn", p, listener, mtu)
        self.op("accept", listener, "s1").op("auto", 0)
        self.op("pull", p)
        if autoack:
            self.op("autoack", p, 1)
        return self

    def rawserver(self, mtu=1400, p="p", autoack=True):
        self.op("raw", p).op("connect", "c1", p).op("rawserve", p, "c1", mtu)
        if autoack:
            self.op("autoack", p, 1)
        return self

    def done(self):
        return {"name": self.name, "seed": self.seed, "cfg": self.cfg, "ops": self.ops}


def size(r, mtu=1400, big=True):
    lim = mtu - 60
    c = r.randrange(12)
    if c < 4:
        return r.randrange(4, 60)
    if c < 6:
        return r.randrange(4, lim)
    if c < 9 or not big:
        return lim + r.choice([-2, -1, 0])
    return r.choice([lim + 1, lim + r.randrange(2, 200), 2 * lim - 1, 2 * lim, 2 * lim + 1, 3 * lim, r.randrange(lim, 9 * lim)])


def pick(r, kinds, mtu=1400):
    k = r.choice(kinds)
    return k, size(r, mtu, big=(k == 3))


def traffic(s, ends, kinds, n, gap=60, burst=0.4, quiet=True, maxlen=None):
    r = s.r
    for _ in range(n):
        ep = r.choice(ends)
        if r.random() < burst:
            for _ in range(r.randrange(2, 6)):
                k, ln = pick(r, kinds)
                s.msg(ep, k, min(ln, maxlen) if maxlen else ln, now=False)
            s.op("settle")
        else:
            k, ln = pick(r, kinds)
            s.msg(ep, k, min(ln, maxlen) if maxlen else ln)
        x = r.random()
        if x < 0.5:
            s.op("adv", r.randrange(1, gap))
        elif x < 0.6:
            s.op("adv", r.randrange(gap, 6 * gap))
        if quiet and r.random() < 0.15:
            s.op("quiet")


def lossy(name, seed, kinds, n=25, loss=None, dup=None, delay=None, clients=1, fin=30000, only=None, maxlen=None):
    s = Sc(name, seed)
    r = s.r
    s.open(clients)
    ends = [x for k in range(1, clients + 1) for x in (f"c{k}", f"s{k}")]
    lo = r.choice([0, 5, 10, 20, 35, 50]) if loss is None else loss
    du = r.choice([0, 0, 10, 30, 60]) if dup is None else dup
    de = r.choice([0, 0, 20, 50, 70]) if delay is None else delay
    s.op("auto", 1, lo, du, de)
    traffic(s, ends, kinds, n, maxlen=maxlen)
    s.op("quiesce", fin, 50, 12)
    traffic(s, ends, kinds, 3, maxlen=maxlen)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def ackloss(name, seed, kinds, n=8):
    """data arrives, acknowledgements are lost for a while, so data is repeated"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    for _ in range(n):
        a, b, link = r.choice([("c1", "s1", ("c1", "L")), ("s1", "c1", ("L", "c1"))])
        k, ln = pick(r, kinds)
        s.msg(a, k, ln)
        for _ in range(r.randrange(1, 4)):
            s.op("dlall", *link).op("loseall", link[1], link[0])
            s.op("adv", r.choice([20, 60, 110, 170]))
        if r.random() < 0.5:
            k, ln = pick(r, kinds)
            s.msg(a, k, ln)
        s.op("dlall", *link, r.choice(["", "rev"]))
        s.op("quiet")
        if r.random() < 0.6:
            s.op("dlall", link[1], link[0])
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def reorder(name, seed, kinds, n=6):
    """bursts whose datagrams arrive in any order, some twice, some late"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    for _ in range(n):
        a, link = r.choice([("c1", ("c1", "L")), ("s1", ("L", "c1"))])
        # a batch builds up while something is unacknowledged
        s.msg(a, 2, 10)
        for _ in range(r.randrange(2, 9)):
            k, ln = pick(r, kinds)
            s.msg(a, k, ln, now=False)
        s.op("settle")
        s.op("dlall", *link).op("dlall", link[1], link[0]).op("adv", 60)
        for _ in range(r.randrange(3, 14)):
            x = r.random()
            ix = r.randrange(8)
            s.op("dup" if x < 0.2 else "lose" if x < 0.35 else "dl", *link, ix)
            if r.random() < 0.2:
                s.op("quiet")
        if r.random() < 0.7:
            s.op("dlall", *link, "rev")
        s.op("quiet")
        if r.random() < 0.6:
            s.op("dlall", link[1], link[0])
        s.op("adv", r.choice([10, 60, 120, 300]))
    s.op("quiesce", 40000, 50, 130)
    return s.done()


def blackout(name, seed, kinds, dark=None):
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    traffic(s, ["c1", "s1"], kinds, 4)
    dark = dark or r.choice([300, 1500, 6000, 15000, 28000])
    s.op("auto", 1, 100)
    for _ in range(6):
        k, ln = pick(r, kinds)
        s.msg(r.choice(["c1", "s1"]), k, ln)
        s.op("adv", dark // 6)
    s.op("quiesce", dark * 2 + 15000, 50, 60)
    traffic(s, ["c1", "s1"], kinds, 3)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def fragments(name, seed, mtu=1400, counts=(1, 2, 3, 10, 11, 17), real=True):
    s = Sc(name, seed)
    r = s.r
    if real:
        s.open(1)
        ends = [("c1", ("c1", "L")), ("s1", ("L", "c1"))]
        mtu = 1400
    else:
        s.rawclient(mtu)
        ends = [("s1", ("L", "p"))]
    lim = mtu - 60
    s.op("auto", 0)
    for c in counts:
        for d in (-1, 0, 1):
            a, link = r.choice(ends)
            s.msg(a, 3, max(4, lim * c + d))
            x = r.random()
            if x < 0.3:
                s.op("dlall", *link, "rev")
            elif x < 0.7:
                for _ in range(r.randrange(1, 2 * c + 2)):
                    s.op(r.choice(["dl", "dl", "dup", "lose"]), *link, r.randrange(c + 1))
            s.op("quiet")
            s.op("dlall", *link).op("dlall", link[1], link[0]).op("adv", r.choice([20, 60, 150]))
            s.op("dlall", *link).op("dlall", link[1], link[0])
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def fragrepeat(name, seed, kinds=(3,)):
    """large messages whose fragments come again after the message is complete or waits for its turn"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    for _ in range(3):
        s.msg("c1", 2, 9)
        s.msg("c1", 3, 30, now=False)
        for _ in range(r.randrange(2, 4)):
            s.msg("c1", 3, r.choice([1340, 1341, 2680, 2700, 5000, 14000]), now=False)
        s.op("settle").op("dlall", "c1", "L").op("dlall", "L", "c1").op("adv", 60)
        # lose the first, deliver all others (twice), never the acks
        s.op("lose", "c1", "L", 0)
        for _ in range(r.randrange(4, 20)):
            s.op("dup", "c1", "L", r.randrange(16))
        s.op("dlall", "c1", "L", r.choice(["", "rev"]))
        s.op("loseall", "L", "c1")
        for _ in range(r.randrange(1, 4)):
            s.op("expire", "c1", "L", 3000)
            for _ in range(r.randrange(0, 10)):
                s.op(r.choice(["dl", "lose", "dup"]), "c1", "L", r.randrange(16))
            s.op("quiet")
            if r.random() < 0.5:
                s.op("dlall", "c1", "L", "rev")
            s.op("loseall", "L", "c1")
        s.op("dlall", "c1", "L").op("dlall", "L", "c1")
        s.op("quiet")
    s.op("quiesce", 40000, 50, 130)
    return s.done()


def latency(name, seed, rtt=None):
    """constant round trip time, then loss: timeouts must follow the measured round trips"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    rtt = rtt or r.choice([0, 20, 60, 100, 160, 240, 400, 900])
    a, link = r.choice([("c1", ("c1", "L")), ("s1", ("L", "c1"))])
    for k in range(r.randrange(6, 22)):
        s.msg(a, r.choice([2, 3, 4]), r.choice([8, 200, 1500, 3000]) if k % 3 == 0 else 12)
        s.op("dlall", *link)
        if rtt:
            s.op("adv", rtt)
        # the acknowledgement of the first transmission, and whatever was repeated meanwhile
        s.op("dlall", link[1], link[0]).op("dlall", *link).op("dlall", link[1], link[0])
        s.op("adv", r.choice([5, 50, 70]))
        s.op("dlall", *link).op("dlall", link[1], link[0])
    for _ in range(3):
        s.msg(a, r.choice([2, 3, 4]), 20)
        s.op("loseall", *link)
        for _ in range(r.randrange(1, 6)):
            s.op("expire", *link, 20000)
            s.op("loseall", *link)
        s.op("expire", *link, 30000).op("dlall", *link).op("dlall", link[1], link[0])
        s.op("adv", 100)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def nacks(name, seed):
    """the receiver reports gaps; the sender repeats exactly those at the next flush"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    for _ in range(6):
        a, link = r.choice([("c1", ("c1", "L")), ("s1", ("L", "c1"))])
        n = r.randrange(3, 9)
        s.msg(a, 2, 9)
        for _ in range(n):
            k = r.choice([0, 1, 2, 2, 3, 3, 4])
            s.msg(a, k, r.choice([10, 300, 1339]) if k != 3 else r.choice([10, 1400, 3000]), now=False)
        s.op("settle").op("dlall", *link).op("dlall", link[1], link[0]).op("adv", 60)
        for _ in range(r.randrange(1, 3)):
            s.op("lose", *link, r.randrange(n))
        s.op("dlall", *link)
        if r.random() < 0.5:
            # acknowledgements are late, the NACK comes first
            s.op("adv", 40)
            if r.random() < 0.5:
                s.op("loseall", link[1], link[0])
            s.op("adv", 20)
        s.op("dlall", link[1], link[0], r.choice(["", "rev"]))
        s.op("adv", 60)
        s.op("quiet")
        if r.random() < 0.4:
            s.op("lose", *link, 0)
        s.op("dlall", *link).op("dlall", link[1], link[0])
        s.op("adv", r.choice([20, 60]))
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def flushes(name, seed):
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    fid = 0
    s.op("auto", 1, r.choice([0, 20, 40]), r.choice([0, 20]), r.choice([0, 30]))
    for _ in range(10):
        a = r.choice(["c1", "s1"])
        for _ in range(r.randrange(0, 4)):
            k, ln = pick(r, [0, 1, 2, 3, 4])
            s.msg(a, k, ln, now=r.random() < 0.5)
        fid += 1
        s.op("flush", a, fid)
        s.op("adv", r.choice([1, 10, 60, 200]))
        if r.random() < 0.3:
            s.msg(a, r.choice([2, 3]), 50)
    s.op("quiesce", 30000, 50, 130)
    # deterministic part: flush waits as long as acks are lost
    s.op("auto", 0)
    for a, link in (("c1", ("c1", "L")), ("s1", ("L", "c1"))):
        for kinds in ([2], [3], [4], [0], [0, 2, 3], [3, 3, 1]):
            for k in kinds:
                s.msg(a, k, r.choice([8, 700]), now=False)
            fid += 1
            s.op("settle").op("flush", a, fid).op("adv", 30).op("dlall", *link).op("loseall", link[1], link[0])
            s.op("adv", 150).op("dlall", *link).op("dlall", link[1], link[0]).op("adv", 20)
            s.op("dlall", *link).op("dlall", link[1], link[0]).op("adv", 80)
            s.op("dlall", *link).op("dlall", link[1], link[0]).op("adv", 80)
    s.op("quiesce", 30000, 50, 130)
    fid += 1
    s.msg("c1", 3, 20)
    s.op("auto", 0).op("flush", "c1", fid).op("adv", 60).op("close", "s1").op("adv", 200).op("dlall", "L", "c1").op("adv", 200)
    s.op("flush", "c1", fid + 1).op("adv", 100).op("flush", "s1", fid + 2).op("adv", 100).op("quiet")
    return s.done()


def validation(name, seed, mtu=1400, real=True):
    s = Sc(name, seed)
    r = s.r
    if real:
        s.open(1)
        ends = ["c1", "s1"]
        mtu = 1400
    else:
        s.rawclient(mtu)
        ends = ["s1"]
    lim = min(mtu, 1400) - 60
    for k in range(5):
        for ln in (4, 5, lim - 1, lim, lim + 1, lim + 28, lim + 32, lim + 60, lim + 61, 2 * lim, 3 * lim + 7):
            s.msg(r.choice(ends), k, ln)
            if r.random() < 0.3:
                s.op("adv", 30)
        s.msg(ends[0], k, 0)
        for b0 in (0, 1, 0x15, 0x84, 0xfd, 0xff):
            s.msg(ends[-1], k, r.choice([5, 100, 1500]), b0=b0)
        s.op("adv", 60)
    s.msg(ends[0], r.randrange(5), 1)
    s.op("quiesce", 30000, 50, 130)
    traffic(s, ends, [0, 1, 2, 3, 4], 5)
    s.op("quiesce", 30000, 50, 130)
    if real:
        s.op("close", "c1")
        for k in range(5):
            s.msg("c1", k, 30)
            s.msg("c1", k, 0)
            s.msg("c1", k, 8, b0=7)
            s.msg("c1", k, 5000)
        s.op("adv", 300)
        for k in range(5):
            s.msg("s1", k, 30)
            s.msg("c1", k, 31)
        s.op("adv", 300).op("quiet")
    return s.done()


def stalled(name, seed, n=30):
    """the application does not call recv() for a long time"""
    s = Sc(name, seed)
    r = s.r
    s.open(2)
    s.op("stall", "s1").op("auto", 1, r.choice([0, 10]), r.choice([0, 10]))
    for _ in range(n):
        s.msg("c1", r.choice([2, 3, 0, 4, 1]), r.choice([5, 100, 1400]) if False else r.choice([5, 100, 1300]), now=r.random() < 0.7)
        if r.random() < 0.3:
            s.msg(r.choice(["c2", "s2", "s1"]), 3, r.choice([5, 3000]))
        s.op("adv", r.choice([1, 20, 60]))
    s.op("quiesce", 30000, 50, 130)
    s.op("unstall", "s1")
    traffic(s, ["c1", "s1", "c2", "s2"], [2, 3], 4)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def rawin(name, seed, base=0, server=True, mtu=1400):
    """a foreign implementation as the sender: several frames in one datagram, any fragment size, any id 0x80..0x8d,
    any order and repetition, counters starting near a wrap"""
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1)
    if server:
        s.op("raw", "p").op("rawconn", "p", "L", mtu).op("accept", "L", "s1")
        p, d = "p", "L"
        seq, ri, oi = 2, 2, 2
    else:
        s.op("raw", "p").op("connect", "c1", "p").op("rawserve", "p", "c1", mtu)
        p, d = "p", "c1"
        seq, ri, oi = 1, 1, 1
    s.op("auto", 0).op("autoack", "p", 1)
    si, fid = 0, r.choice([0, 255, 65534])
    M = 1 << 24
    seqs = base + seq if base else seq
    q = seqs % M
    sent = []
    for _ in range(14):
        todo = []
        for _ in range(r.randrange(1, 8)):
            k = r.choice([0, 1, 2, 3, 3, 3, 4])
            if k == 3 and r.random() < 0.5:
                chunk = r.choice([4, 10, 100, 1000])
                parts = r.randrange(2, 9)
                ln = chunk * (parts - 1) + r.randrange(1, chunk + 1)
                m = s.id()
                for x in range(parts):
                    off = x * chunk
                    todo.append({"rel": 3, "ri": ri % M, "oi": oi % M, "m": m, "len": ln, "off": off, "n": min(chunk, ln - off), "frag": [parts, fid, x]})
                    ri += 1
                oi += 1
                fid = (fid + 1) % 65536
            else:
                f = {"rel": k, "m": s.id(), "len": r.choice([4, 5, 40, 300])}
                if k >= 2:
                    f["ri"] = ri % M
                    ri += 1
                if k in (1, 4):
                    f["si"] = si % M
                    f["oi"] = oi % M
                    si += 1
                if k == 3:
                    f["oi"] = oi % M
                    oi += 1
                todo.append(f)
        dg = []
        while todo:
            n = r.choice([1, 1, 1, 2, 3, 5])
            while n > 1 and sum(f.get("n", f["len"]) + 23 for f in todo[:n]) > 1360:
                n -= 1
            dg.append((q, r.randrange(0x80, 0x8e), todo[:n]))
            q = (q + 1) % M
            todo = todo[n:]
        sent.append(dg)
        order = list(dg)
        if r.random() < 0.6:
            r.shuffle(order)
        late = [x for x in order if r.random() < 0.2]
        for x in order:
            if x in late:
                continue
            for _ in range(1 if r.random() < 0.8 else 2):
                s.op("rawsend", p, d, {"k": "frames", "id": x[1], "seq": x[0], "frames": x[2]})
        s.op("quiet")
        s.op("adv", r.choice([10, 60, 120]))
        for x in late:
            # a repetition carries a new sequence number if anything in it is reliable
            nq = q
            if r.random() < 0.5:
                q = (q + 1) % M
            else:
                nq = x[0]
            s.op("rawsend", p, d, {"k": "frames", "id": x[1], "seq": nq, "frames": x[2]})
        s.op("quiet")
        if r.random() < 0.3:
            old = r.choice(r.choice(sent))
            s.op("rawsend", p, d, {"k": "frames", "id": old[1], "seq": old[0], "frames": old[2]})
            rel = [f for f in old[2] if f["rel"] >= 2]
            if rel:
                s.op("rawsend", p, d, {"k": "frames", "id": 0x84, "seq": q, "frames": rel})
                q = (q + 1) % M
    s.op("pull", p).op("quiesce", 3000, 50, 45)
    return s.done()


def rawwrap(name, seed, server=True):
    """counters of the sending peer jump to just before their wrap (sequence numbers, sequenced and reliable indexes)"""
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1)
    s.op("raw", "p").op("rawconn", "p", "L", 1400).op("accept", "L", "s1").op("auto", 0).op("autoack", "p", 1)
    M = 1 << 24
    H = M // 2
    q, si, oi, ri = 2, 0, 2, 2
    seqs = [H - 200, M - 12, M - 6]
    sis = [H - 200, M - 30, M - 5]
    for k in range(60):
        if k in (10, 20, 30):
            q = seqs[k // 10 - 1]
        if k in (12, 22, 32):
            si = sis[k // 10 - 1]
        kd = r.choice([0, 1, 4, 3, 2, 1, 4])
        f = {"rel": kd, "m": s.id(), "len": r.choice([4, 33])}
        if kd >= 2:
            f["ri"] = ri % M
            ri += 1
        if kd in (1, 4):
            f["si"] = si % M
            f["oi"] = oi % M
            si += 1
        if kd == 3:
            f["oi"] = oi % M
            oi += 1
        if r.random() < 0.15:
            q += 1          # a gap
        s.op("rawsend", "p", "L", {"k": "frames", "seq": q % M, "frames": [f]})
        q += 1
        if r.random() < 0.3:
            s.op("adv", 60)
        s.op("quiet")
    s.op("pull", "p").op("quiesce", 3000, 50, 45)
    return s.done()


def rawack(name, seed, mtu=1400):
    """a foreign receiver: acknowledges and reports in ranges, late, twice, in any order"""
    s = Sc(name, seed)
    r = s.r
    s.rawclient(mtu, autoack=False)
    q = 1           # the server's next sequence number: the handshake took 0 (and possibly more)
    s.op("auto", 0)
    for _ in range(8):
        n = r.randrange(1, 7)
        s.msg("s1", 2, 8)
        for _ in range(n):
            k, ln = pick(r, [0, 1, 2, 3, 4], min(mtu, 1400))
            if k != 3 and ln > min(mtu, 1400) - 60:
                ln = 20
            s.msg("s1", k, min(ln, 4000), now=False)
        s.op("settle").op("pull", "p")
        hi = r.randrange(0, 60)
        x = r.random()
        if x < 0.4:
            s.op("rawsend", "p", "L", {"k": "nack", "r": [[r.randrange(0, hi + 1), hi]]})
        elif x < 0.8:
            a = r.randrange(0, hi + 1)
            s.op("rawsend", "p", "L", {"k": "ack", "r": [[a, a], [a + 2, a + 4]]})
        s.op("adv", r.choice([10, 55, 110])).op("pull", "p")
        s.op("rawsend", "p", "L", {"k": "ack", "r": [[0, 400]]})
        s.op("adv", 60).op("pull", "p")
        s.op("rawsend", "p", "L", {"k": "ack", "r": [[0, 4000]]})
        s.op("adv", 60).op("pull", "p")
        s.op("quiet")
    return s.done()


def many(name, seed, n=300, kind=3, ln=8, batch=20, loss=0):
    """a long connection: indexes beyond 256"""
    s = Sc(name, seed)
    s.open(1)
    s.op("auto", 1, loss)
    for k in range(n):
        s.msg("c1" if (k // batch) % 2 == 0 else "s1", kind if kind >= 0 else s.r.randrange(5), ln, now=(k % batch == 0))
        if k % batch == batch - 1:
            s.op("adv", 120)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def racing(name, seed, kinds):
    """many calls at once, tasks interleaved arbitrarily (the network is fair)"""
    s = Sc(name, seed, micro=True)
    r = s.r
    s.open(1)
    s.op("micro", r.randrange(0, 4))
    for _ in range(25):
        for _ in range(r.randrange(1, 5)):
            k, ln = pick(r, kinds)
            s.msg(r.choice(["c1", "s1"]), k, min(ln, 6000), now=False)
        x = r.random()
        if x < 0.3:
            s.op("adv", r.randrange(1, 80))
        elif x < 0.6:
            s.op("yields", r.randrange(1, 6))
    s.op("micro", -1)
    s.op("quiesce", 30000, 50, 130)
    return s.done()


def outage(name, seed, kinds):
    """nothing gets through for so long that the timeouts have grown large, but the connection survives"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    traffic(s, ["c1", "s1"], kinds, 2)
    s.op("quiesce", 3000, 50, 60)
    dark = r.choice([9000, 20000, 32000, 45000, 54000])
    s.op("auto", 1, 100)
    for ep in ("c1", "s1"):
        for _ in range(r.randrange(1, 4)):
            k, ln = pick(r, kinds)
            s.msg(ep, k, ln)
    s.op("adv", dark // 2)
    for ep in ("c1", "s1"):
        k, ln = pick(r, kinds)
        s.msg(ep, k, ln)
    s.op("adv", dark - dark // 2)
    s.op("quiesce", dark + 15000, 50, 60)
    traffic(s, ["c1", "s1"], kinds, 2)
    s.op("quiesce", 40000, 50, 130)
    return s.done()


def burst(name, seed, kinds, n=None, how=None):
    """very many messages under way at once: what is late or lost is far behind"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    a, link = r.choice([("c1", ("c1", "L")), ("s1", ("L", "c1"))])
    back = (link[1], link[0])
    n = n or r.choice([40, 70, 110, 150])
    how = how if how is not None else r.randrange(6)
    s.op("auto", 0)
    s.msg(a, 2, 9)
    fat = kinds == "fat"
    if fat:
        n = n // 3
    for k in range(n):
        kd = 3 if fat else r.choice(kinds)
        s.msg(a, kd, r.choice([1341, 1400, 2700, 4100]) if fat else r.choice([5, 6, 40]), now=False)
    s.op("settle").op("dlall", *link).op("dlall", *back).op("adv", 60)
    if how == 0:                       # the first is late
        s.op("lose", *link, 0).op("dlall", *link)
    elif how == 1:                     # every other one is lost
        for k in range(n):
            s.op("lose", *link, 0).op("dl", *link, 0)
        s.op("dlall", *link)
    elif how == 2:                     # everything the other way round
        s.op("dlall", *link, "rev")
    elif how == 3:                     # the first part last
        for k in range(n // 2):
            s.op("dl", *link, n // 2)
        s.op("dlall", *link, r.choice(["", "rev"]))
    elif how == 4:                     # two lost of every three
        for k in range(n // 2):
            s.op("dl", *link, 0).op("lose", *link, 0).op("lose", *link, 0)
        s.op("dlall", *link)
    else:                              # arbitrary
        for k in range(n):
            s.op(r.choice(["dl", "dl", "lose", "dup"]), *link, r.randrange(0, n))
        s.op("dlall", *link)
    s.op("quiet")
    s.op("adv", r.choice([20, 60, 120]))
    if r.random() < 0.3:
        s.op("loseall", *back)
    s.op("dlall", *back).op("adv", 60).op("dlall", *link).op("quiet").op("dlall", *back).op("adv", 60)
    for _ in range(3):
        s.op("dlall", *link).op("dlall", *back).op("adv", 60)
    s.op("quiesce", 40000, 50, 130)
    return s.done()


def flushclose(name, seed):
    """the connection closes, in every way, while flush() waits"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    s.op("auto", 0)
    a, b, link = r.choice([("c1", "s1", ("c1", "L")), ("s1", "c1", ("L", "c1"))])
    for k in range(r.randrange(1, 4)):
        s.msg(a, r.choice([2, 3, 4]), r.choice([8, 700, 1500]), now=False)
    s.op("settle").op("flush", a, 1).op("adv", r.choice([1, 30, 60, 200]))
    if r.random() < 0.4:
        s.op("flush", a, 2)
    if r.random() < 0.3:
        s.op("dlall", *link).op("adv", 60).op("loseall", link[1], link[0])
    x = r.randrange(4)
    if x == 0:
        s.op("close", a)
    elif x == 1:
        s.op("close", b).op("adv", 5).op("dlall", link[1], link[0])
    elif x == 2:
        s.op("close", b).op("close", a)
    else:                               # silence
        s.op("auto", 1, 100).op("adv", 62000)
    s.op("adv", 100).op("flush", a, 3).op("adv", 300).op("adv", 300).op("adv", 300).op("quiet")
    s.op("auto", 1).op("adv", 12000).op("quiet")
    return s.done()


def fragmany(name, seed, k):
    """messages of hundreds of fragments; dozens of messages incomplete at the same time"""
    s = Sc(name, seed)
    r = s.r
    if k % 3 == 2:                      # between two ends of the library
        s.open(1)
        s.op("auto", 0)
        a, link = r.choice([("c1", ("c1", "L")), ("s1", ("L", "c1"))])
        n = r.randrange(34, 70)
        for _ in range(n):
            s.msg(a, 3, r.choice([1341, 1500, 2680]), now=False)
        s.op("settle")
        for j in range(n):              # one part of each gets through
            if r.random() < 0.5:
                s.op("lose", *link, j).op("dl", *link, j)
            else:
                s.op("dl", *link, j).op("lose", *link, j)
        s.op("quiet").op("auto", 1).op("quiesce", 30000, 50, 130)
        return s.done()
    s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "p")
    if r.random() < 0.5:
        s.op("rawconn", "p", "L", 1400).op("accept", "L", "s1")
        d, q, ri, oi = "L", 2, 2, 2
    else:
        s.op("connect", "c1", "p").op("rawserve", "p", "c1", 1400)
        d, q, ri, oi = "c1", 1, 1, 1
    s.op("auto", 0).op("autoack", "p", 1)
    fid = r.choice([0, 250, 65500])
    first, rest = [], []
    if k % 3 == 0:
        jobs = [(r.choice([257, 300, 513, 700]), r.choice([1, 3, 8])) for _ in range(r.choice([1, 2]))]
    else:
        jobs = [(r.choice([2, 3, 4]), r.choice([4, 20])) for _ in range(r.choice([34, 66, 130, 260]))]
    for parts, chunk in jobs:
        m = s.id()
        ln = max(4, chunk * (parts - 1) + r.randrange(1, chunk + 1))
        fs = [{"rel": 3, "ri": ri + x, "oi": oi, "m": m, "len": ln, "off": x * chunk, "n": min(chunk, ln - x * chunk), "frag": [parts, fid % 65536, x]}
              for x in range(parts)]
        ri += parts
        oi += 1
        fid += 1
        if k % 3 == 0:
            first += fs
        else:
            y = r.choice([0, parts - 1, parts - 1, r.randrange(parts)])
            rest.append(fs.pop(y))
            first += fs
    if k % 3 == 0:
        how = r.randrange(3)
        if how == 0:
            r.shuffle(first)
        elif how == 1:
            first.reverse()
        else:
            h = len(first) // 2
            first = first[h:] + first[:h]
    else:
        r.choice([lambda x: None, r.shuffle, list.reverse])(rest)
    for f in (first, rest):
        while f:
            n = r.choice([1, 5, 20, 40])
            s.op("rawsend", "p", d, {"k": "frames", "seq": q, "frames": f[:n]})
            q += 1
            f = f[n:]
        s.op("adv", 20)
    s.op("quiet").op("pull", "p").op("quiesce", 3000, 50, 45)
    return s.done()


FLOW_FAMILIES = {
    "fragmany": lambda sd, k: fragmany(f"fragmany{k}", sd, k),
    "mixed": lambda sd, k: lossy(f"mixed{k}", sd, [0, 1, 2, 3, 4], 25),
    "two": lambda sd, k: lossy(f"two{k}", sd, [0, 1, 2, 3, 4], 25, clients=2),
    "ordered": lambda sd, k: lossy(f"ordered{k}", sd, [3], 20),
    "reliable": lambda sd, k: lossy(f"reliable{k}", sd, [2, 4], 25),
    "seq": lambda sd, k: lossy(f"seq{k}", sd, [1, 4], 30),
    "unrel": lambda sd, k: lossy(f"unrel{k}", sd, [0, 1, 0, 2], 30),
    "ackloss": lambda sd, k: ackloss(f"ackloss{k}", sd, [[2], [3], [4], [2, 3, 4], [0, 1, 2, 3, 4]][k % 5]),
    "reorder": lambda sd, k: reorder(f"reorder{k}", sd, [[3], [1, 4], [2], [0, 1, 2, 3, 4]][k % 4]),
    "blackout": lambda sd, k: blackout(f"blackout{k}", sd, [0, 1, 2, 3, 4]),
    "frag": lambda sd, k: fragments(f"frag{k}", sd),
    "fragmtu": lambda sd, k: fragments(f"fragmtu{k}", sd, mtu=[400, 576, 1200, 1399, 1400, 1500][k % 6], real=False, counts=(1, 2, 3, 11)),
    "fragrep": lambda sd, k: fragrepeat(f"fragrep{k}", sd),
    "latency": lambda sd, k: latency(f"latency{k}", sd, [0, 20, 60, 100, 160, 240, 400, 900][k % 8]),
    "nacks": lambda sd, k: nacks(f"nacks{k}", sd),
    "flush": lambda sd, k: flushes(f"flush{k}", sd),
    "valid": lambda sd, k: validation(f"valid{k}", sd, *((1400, True) if k % 3 == 0 else ([400, 500, 1000, 1399, 1492][k % 5], False))),
    "stall": lambda sd, k: stalled(f"stall{k}", sd),
    "rawin": lambda sd, k: rawin(f"rawin{k}", sd, server=(k % 2 == 0)),
    "rawwrap": lambda sd, k: rawwrap(f"rawwrap{k}", sd),
    "rawack": lambda sd, k: rawack(f"rawack{k}", sd, [1400, 576][k % 2]),
    "many": lambda sd, k: many(f"many{k}", sd, kind=[3, -1, 2, 4][k % 4], loss=[0, 0, 5, 10][k % 4]),
    "outage": lambda sd, k: outage(f"outage{k}", sd, [[3], [2, 3, 4], [0, 1, 2, 3, 4]][k % 3]),
    "burst": lambda sd, k: burst(f"burst{k}", sd, [[3], [2], [1, 4], [0, 1, 2, 3, 4], [4], [0]][k % 6]),
    "burstfat": lambda sd, k: burst(f"burstfat{k}", sd, "fat"),
    "flushclose": lambda sd, k: flushclose(f"flushclose{k}", sd),
    "racing": lambda sd, k: racing(f"racing{k}", sd, [0, 1, 2, 3, 4]),
}
