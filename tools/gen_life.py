"""Scenario families for handshakes, closing, listeners, pings, hostile datagrams. A family may name a focus property and
ops that must not matter (hop): the scenario is then also run without them (its twin), and whatever only the scenario
with them shows counts against the focus."""
import gen
from gen import Sc as Base, pick, size, traffic


class Sc(Base):
    def __init__(self, name, seed, focus=None, **cfg):
        super().__init__(name, seed, **cfg)
        self.focus, self.hops, self.twinops = focus, set(), None

    def hop(self, *a):
        self.hops.add(len(self.ops))
        self.ops.append(list(a))
        return self

    def done(self, twin=None):
        d = super().done()
        if self.focus:
            d["focus"] = self.focus
            d["twin"] = twin if twin is not None else [o for k, o in enumerate(self.ops) if k not in self.hops]
        return d

    def up(self, l="L", *at):
        return self.op("bind", l, *at).op("listen", l).op("auto", 1)

    def probe(self, k, l="L", ver=None, data=True, ping=True):
        """is everything still served: a ping and a new connection that talks"""
        self.op("auto", 1)
        if ping:
            self.op("ping", f"g{k}", l)
        self.op("connect", f"z{k}", l, *([ver] if ver else [])).op("adv", 400).op("accept", l, f"zs{k}").op("adv", 60)
        if data:
            self.msg(f"z{k}", 3, 1500)
            self.msg(f"zs{k}", 2, 40)
            self.op("adv", 150)
        return self

    def fin(self, ms=20000, calm=45):
        return self.op("quiesce", ms, 50, calm)


# ------------------------------------------------------------------------------------------------ handshakes (C11)
def handshake(name, seed, n=3, rates=None):
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("listen", "L")
    s.op("auto", 1, *(rates or (r.choice([0, 10, 25, 40, 60]), r.choice([0, 20, 50, 80]), r.choice([0, 30, 60]))))
    acc = 0
    for k in range(1, n + 1):
        s.op("connect", f"c{k}", "L", *([r.choice([10, 11])] if r.random() < 0.5 else []))
        if r.random() < 0.6:
            s.op("adv", r.choice([1, 40, 130, 700]))
        if r.random() < 0.4:
            acc += 1
            s.op("accept", "L", f"s{acc}")
    if r.random() < 0.25:
        s.op("cancel", f"connect:c{r.randrange(1, n + 1)}")
    s.op("adv", r.choice([500, 3000]))
    s.op("quiesce", 25000, 50, 60)
    for _ in range(n + 1):
        acc += 1
        s.op("accept", "L", f"s{acc}")
    for k in range(1, n + 1):
        s.msg(f"c{k}", 3, 1400)
        s.msg(f"c{k}", 2, 30)
    for k in range(1, acc + 1):
        s.msg(f"s{k}", 3, 40)
        s.msg(f"s{k}", 4, 41)
    for k in range(1, n + 1):
        s.op("getver", "L", f"c{k}")
    s.op("quiesce", 12000, 50, 45).op("quiet")
    return s.done()


def handstep(name, seed, k):
    """one datagram of the handshake is lost, repeated, or held back; every one in turn"""
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 0)
    s.op("connect", "c1", "L")
    if k % 7 == 6:
        s.op("connect", "c2", "L")
    what = ["lose", "dup", "hold", "lose2"][k % 4]
    step = (k // 4) % 9
    up = (k // 36) % 2 == 0
    for j in range(14):
        for d, link in ((True, ("c1", "L")), (False, ("L", "c1"))):
            if j == step and d == up:
                if what == "lose":
                    s.op("lose", *link, 0)
                elif what == "lose2":
                    s.op("loseall", *link)
                elif what == "dup":
                    s.op("dup", *link, 0).op("dup", *link, 0)
                else:
                    continue
            s.op("dlall", *link)
        s.op("dlall", "c2", "L").op("dlall", "L", "c2")
        s.op("adv", r.choice([10, 50, 60]))
        if j == 5:
            s.op("accept", "L", "s1")
    s.op("quiesce", 20000, 50, 60)
    s.op("accept", "L", "s2").op("accept", "L", "s3").op("accept", "L", "s4")
    for x in ("s1", "s2", "s3"):
        s.msg(x, 3, 50)
    s.msg("c1", 3, 2000)
    s.op("quiesce", 8000, 50, 45).op("quiet")
    return s.done()


def handend(name, seed, k):
    """the server gives the session up while the client still waits, or the client gives up and comes again"""
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 0)
    s.op("connect", "c1", "L")
    j = k % 6
    for _ in range(j):
        s.op("dlall", "c1", "L").op("dlall", "L", "c1").op("adv", r.choice([1, 30, 60]))
    x = (k // 6) % 4
    if x == 0:
        s.op("lclose", "L").op("adv", 400).op("dlall", "L", "c1").op("adv", 400)
        s.op("dlall", "L", "c1").op("adv", 300)
        s.op("quiesce", 8000, 50, 30)
        s.op("bind", "M").op("listen", "M").probe(1, "M")
    elif x == 1:
        s.op("cancel", "connect:c1").op("auto", 1).op("adv", 100)
        s.op("accept", "L", "s1").op("adv", 100)
        s.probe(1)
        s.fin()
        s.op("accept", "L", "s7")
    elif x == 2:
        s.op("auto", 1).op("adv", 40).op("accept", "L", "s1").op("close", "s1").op("adv", 500)
        s.op("accept", "L", "s7")
        s.probe(1)
    else:
        s.op("auto", 1, 100).op("adv", r.choice([2000, 30000, 61000, 70000])).op("auto", 1)
        s.op("adv", 3000).op("accept", "L", "s1")
        s.fin(30000, 60)
        s.op("accept", "L", "s7")
        s.msg("c1", 3, 33)
        s.msg("s1", 3, 33)
    s.fin()
    s.op("quiet")
    return s.done()


# ------------------------------------------------------------------------------------------------ versions (C12)
def versions(name, seed, k):
    s = Sc(name, seed)
    r = s.r
    s.up()
    vs = [10, 11, 0, 1, 9, 12, 13, 127, 128, 255] + [r.randrange(256) for _ in range(2)]
    r.shuffle(vs)
    j = 0
    for n, v in enumerate(vs[:6], 1):
        s.op("auto", 1, *r.choice([(0, 0, 0), (15, 30, 30)]))
        s.op("connect", f"c{n}", "L", v)
        if r.random() < 0.4:
            j += 1
            s.op("connect", f"d{n}", "L", r.choice([10, 11]))
        s.op("adv", r.choice([20, 200, 1500]))
        s.op("accept", "L", f"s{n}").op("accept", "L", f"t{n}")
    s.fin(15000, 60)
    for n in range(1, 7):
        s.op("getver", "L", f"c{n}").op("accept", "L", f"u{n}")
        s.msg(f"s{n}", 3, 20)
        s.msg(f"u{n}", 3, 20)
    s.fin(15000)
    s.op("getver", "L", "nobody")
    return s.done()


def rawvers(name, seed, k):
    """request 1 with each version"""
    s = Sc(name, seed)
    s.up()
    for v in range(k * 64 % 256, k * 64 % 256 + 64):
        p = f"p{v}"
        s.op("raw", p)
        if v % 3 == 0 or v in (10, 11):
            s.op("rawconn", p, "L", 1400, v) if v in (10, 11) else s.op("rawsend", p, "L", {"k": "req1", "ver": v}, 2)
        else:
            s.op("rawsend", p, "L", {"k": "req1", "ver": v})
        if v % 16 == 0:
            s.op("adv", 70).op("accept", "L", f"s{v}").op("getver", "L", p)
    s.op("raw", "q").op("rawsend", "q", "L", {"k": "req1", "ver": 7}).op("rawsend", "q", "L", {"k": "req1", "ver": 11})
    s.op("rawsend", "q", "L", {"k": "req2", "mtu": 1400}).op("adv", 100).op("getver", "L", "q")
    for j, v in enumerate((9, 12, 0, 255)):      # asks again although it was refused
        s.op("raw", f"n{j}").op("rawsend", f"n{j}", "L", {"k": "req1", "ver": v})
        s.op("rawsend", f"n{j}", "L", {"k": "req2", "mtu": 1400}, 2)
    s.op("accept", "L", "sa").op("accept", "L", "sb").op("accept", "L", "sc").op("accept", "L", "sd")
    s.probe(1).fin(8000)
    return s.done()


def rawincompat(name, seed, k):
    """a server that refuses, at once or after some silence, perhaps with extra bytes of its own version"""
    s = Sc(name, seed)
    r = s.r
    s.op("raw", "p").op("auto", 1)
    v = r.choice([9, 10, 11, 200])
    s.op("connect", "c1", "p", v).op("adv", r.choice([1, 300, 1200, 4000])).op("pull", "p")
    s.op("rawsend", "p", "c1", {"k": "incompat", "ver": r.choice([8, 10, 11])}, r.choice([1, 3]))
    s.op("adv", 200).op("quiet")
    s.op("connect", "c2", "p", v).op("adv", 20).op("rawserve", "p", "c2", 1400) if v in (10, 11) else None
    s.fin(4000)
    return s.done()


# ------------------------------------------------------------------------------------------------ closing (C13)
def calls(s, ends, n):
    r = s.r
    fid = 100
    for _ in range(n):
        x = r.random()
        e = r.choice(ends)
        if x < 0.6:
            k, ln = pick(r, [0, 1, 2, 3, 4])
            s.msg(e, k, min(ln, 6000), now=r.random() < 0.3)
        elif x < 0.75:
            fid += 1
            s.op("flush", e, fid)
        elif x < 0.85:
            s.op("adv", r.choice([1, 10, 55]))
        elif x < 0.95:
            s.op("yields", r.randrange(1, 5))
    return fid


def closing(name, seed, k):
    """close or drop in the middle of everything"""
    micro = k % 2 == 1
    s = Sc(name, seed, **({"micro": True} if micro else {}))
    r = s.r
    s.open(2)
    s.op("auto", 1, *r.choice([(0, 0, 0), (0, 0, 30), (20, 20, 20)]))
    if micro:
        s.op("micro", r.randrange(0, 4))
    calls(s, ["c1", "s1", "c2", "s2"], r.randrange(0, 14))
    who = r.choice(["c1", "s1"])
    other = "s1" if who == "c1" else "c1"
    for _ in range(r.randrange(1, 3)):
        x = r.random()
        if x < 0.55:
            s.op(r.choice(["close", "close!"]), who)
        elif x < 0.75:
            s.op("drop", who)
        else:
            s.op("close!", who).op("close!", other)
        calls(s, ["c1", "s1", "c1", "s1", "c2", "s2"], r.randrange(0, 8))
        who = r.choice(["c1", "s1"])
    if r.random() < 0.3:
        s.op("drop", r.choice(["c1", "s1"]))
    s.op("micro", -1)
    s.fin(15000, 60)
    for e in ("c1", "s1"):
        for kd in (0, 3):
            s.msg(e, kd, 30)
        s.op("flush", e, 900 + kd)
        s.op("close", e).op("close", e)
    s.op("adv", 300)
    s.probe(1)
    s.msg("c2", 3, 3000)
    s.msg("s2", 3, 3000)
    s.fin(15000, 45)
    s.op("quiet")
    return s.done()


def closelate(name, seed, k):
    """what was received before the end is handed out, then ConnectionClosed; calls that wait are woken"""
    s = Sc(name, seed)
    r = s.r
    s.open(2)
    a, b, link = [("c1", "s1", ("c1", "L")), ("s1", "c1", ("L", "c1"))][k % 2]
    s.op("auto", 0)
    s.op("stall", b)
    # give the receiver plenty
    for _ in range(r.choice([1, 5, 40, 150])):
        s.msg(a, r.choice([2, 3, 0]), r.choice([10, 1000]))
        s.op("dlall", *link).op("dlall", link[1], link[0])
        if r.random() < 0.3:
            s.op("adv", 20)
    # b waits for an acknowledgement of its own
    s.op("loseall", *link)
    if k % 3 == 0:
        s.msg(b, 3, 50)
        s.op("flush", b, 1)
        s.msg(b, 2, 50)
    if k % 4 == 1:
        s.op("unstall", b).op("recvwait", b)
    x = (k // 2) % 4
    if x == 0:
        s.op("close", a).op("dlall", *link)
    elif x == 1:
        s.op("drop", a).op("adv", 200).op("dlall", *link)
    elif x == 2:
        s.op("close", b)
    else:
        s.op("close", a).op("dlall", *link).op("close", b)
    s.op("adv", r.choice([1, 50, 150, 400]))
    s.op("unstall", b)
    s.op("adv", 400)
    for kd in range(5):
        s.msg(a, kd, 20)
        s.msg(b, kd, 20)
    s.op("flush", b, 2).op("flush", a, 3).op("adv", 200).op("quiet")
    s.op("close", a).op("close", b).op("close", a)
    s.fin(15000, 60)
    s.op("adv", 11000)
    s.probe(1)
    s.fin()
    return s.done()


def closelost(name, seed, k):
    """the word of the end is lost: the other side stays open and finds out by silence"""
    s = Sc(name, seed)
    r = s.r
    s.open(1)
    a, b, link = [("c1", "s1", ("c1", "L")), ("s1", "c1", ("L", "c1"))][k % 2]
    s.op("auto", 0)
    s.msg(a, 3, 30)
    s.op("dlall", *link).op("loseall", link[1], link[0])
    s.op("close", a).op("adv", 100).op("loseall", *link)
    for _ in range(8):
        if r.random() < 0.7:
            s.msg(b, 3, 20)
        s.op("adv", r.choice([100, 3000, 6000])).op("dlall", link[1], link[0])
        if k % 3 == 0:
            s.op("dlall", *link)
        else:
            s.op("loseall", *link)
    s.op("adv", 62000)
    s.fin(5000)
    s.msg(b, 3, 9)
    s.probe(1)
    s.fin()
    return s.done()


# ------------------------------------------------------------------------------------------------ silence (C14)
def silence(name, seed, k):
    s = Sc(name, seed, step=20)
    r = s.r
    server = k % 2 == 0
    if server:
        s.rawclient()
        p, d, e = "p", "L", "s1"
    else:
        s.rawserver()
        p, d, e = "p", "c1", "c1"
    s.op("auto", 0).op("autoack", "p", 0)
    forms = [
        {"k": "ack", "r": [[0, 0]]}, {"k": "nack", "r": [[900, 900]]},
        {"k": "frames", "seq": 5, "frames": [{"rel": 0, "ctl": "cping"}]},
        {"k": "frames", "seq": 6, "frames": [{"rel": 0, "m": 77, "len": 9}]},
        {"k": "frames", "seq": 2, "frames": [{"rel": 2, "ri": 2, "m": 78, "len": 9}]},
    ]
    mode = (k // 2) % 5
    if mode == 0:                       # nothing at all
        if r.random() < 0.5:
            s.msg(e, 3, 40)
        s.op("adv", 59800).op("quiet").op("adv", 900)
    elif mode == 1:                     # something now and then keeps it open
        for j in range(5):
            s.op("adv", r.choice([58000, 59500, 30000])).op("rawsend", p, d, forms[(j + k // 10) % len(forms)]).op("quiet")
        s.msg(e, 3, 40)
        s.op("adv", 59500).op("quiet").op("adv", 1200)
    elif mode == 2:                     # the wrong address talks, the peer is silent
        s.op("raw", "q")
        for j in range(8):
            s.op("adv", 10000).op("rawsend", "q", d, r.choice(forms))
    elif mode == 3:                     # calls are pending when it ends
        s.op("recvwait", e)
        s.msg(e, 3, 40)
        s.op("flush", e, 1).op("adv", 61000)
    else:                               # the application keeps sending, nobody answers
        for j in range(13):
            s.msg(e, r.choice([0, 3, 2]), 40)
            s.op("adv", 5000)
    s.op("adv", 400).op("quiet")
    s.msg(e, 3, 41)
    s.op("flush", e, 2).op("adv", 400)
    s.op("pull", "p")
    if server:
        s.op("mark", "epoch", ["p", "L"])
        s.op("rawconn", "p", "L", 1400).op("accept", "L", "s2").op("autoack", "p", 1).op("pull", "p")
        s.op("rawmsg", "p", "L", 3, 20, s.id())
        s.msg("s2", 3, 21)
        s.op("adv", 300).op("pull", "p").op("adv", 100)
        s.op("auto", 1)
        s.probe(1)
    s.fin(4000)
    return s.done()


def darkness(name, seed, k):
    """both ends real: blackouts shorter and longer than the limit"""
    s = Sc(name, seed, step=20)
    r = s.r
    s.open(2)
    dark = [50000, 58000, 59000, 61500, 70000, 90000][k % 6]
    if k % 2:
        s.msg("c1", 3, 40)
        s.msg("s2", 3, 40)
    s.op("adv", 100)
    s.op("auto", 1, 100)
    if (k // 6) % 2:
        s.msg("c1", 3, 50)
        s.msg("s2", 2, 50)
    s.op("adv", dark)
    s.op("auto", 1).op("adv", 500)
    for e in ("c1", "s1", "c2", "s2"):
        s.msg(e, 2, 60)
    s.op("adv", 500)
    s.fin(3000)
    s.probe(1)
    s.fin(30000, 60)
    return s.done()


def keepalive(name, seed, k):
    """traffic in one direction only keeps both sides open"""
    s = Sc(name, seed, step=20)
    r = s.r
    s.open(2)
    for j in range(6):
        s.msg(["c1", "s1"][k % 2], [2, 3, 0, 4][(k // 2) % 4], 30)
        s.op("adv", [50000, 59000, 20000][(k // 8) % 3])
    s.msg("c1", 3, 31)
    s.msg("s1", 3, 31)
    s.fin(5000)
    return s.done()


# ------------------------------------------------------------------------------------------------ isolation (C15)
def isolation(name, seed, k):
    s = Sc(name, seed, focus="C15", disturbed=["c1"])
    r = s.r
    s.open(3)
    mode = k % 6
    if mode == 0:                       # an application that does not receive
        s.hop("stall", "s1")
    for j in range(r.choice([40, 150, 330]) if mode in (0, 4) else 30):
        s.msg("c1", r.choice([0, 2, 3]), r.choice([10, 900]), now=j % 10 == 0)
        if j % 10 == 9:
            s.op("adv", 10)
    if mode == 1:                       # one that loses everything
        s.hop("auto", 0)
        s.op("adv", 200)
        for _ in range(15):
            s.msg("c2", 3, 30)
            s.msg("s1", 3, 30)
            for a, b in (("c2", "L"), ("L", "c2"), ("c3", "L"), ("L", "c3")):
                s.op("dlall", a, b)
            s.op("adv", 50)
        s.hop("loseall", "c1", "L").hop("loseall", "L", "c1")
    elif mode == 2:                     # one that ends
        s.hop(r.choice(["close", "drop"]), r.choice(["c1", "s1"]))
    elif mode == 3:                     # a flood of datagrams on one
        for _ in range(40):
            s.hop("dup", "c1", "L", 0)
            s.hop("rawsend", "c1", "L", {"k": "frames", "seq": 900, "frames": [{"rel": 0, "ctl": "cping"}]}, 20)
    elif mode == 4:                     # one that never reads and whose messages are large and many
        s.hop("stall", "s1")
        for j in range(30):
            s.msg("c1", 3, 5000, now=False)
        s.op("adv", 200)
    else:                               # one that never finishes its handshake
        s.op("raw", "p")
        s.hop("rawsend", "p", "L", {"k": "req1"})
        s.hop("rawsend", "p", "L", {"k": "req2", "mtu": 1400})
    traffic(s, ["c2", "s2", "c3", "s3"], [0, 1, 2, 3, 4], 12)
    s.probe(1)
    traffic(s, ["c2", "s2", "c3", "s3"], [2, 3], 4)
    s.fin(20000, 60)
    s.probe(2)
    if mode in (0, 4):
        s.hop("unstall", "s1")
    s.fin(20000, 45)
    return s.done()


# ------------------------------------------------------------------------------------------------ listeners (C16)
def listeners(name, seed, k):
    micro = k % 5 == 4
    s = Sc(name, seed, **({"micro": True} if micro else {}))
    r = s.r
    mode = k % 8
    s.op("bind", "L")
    if mode == 0:                       # never listened
        s.op("laddr", "L").op("accept", "L", "s9").op("lclose", "L").op("adv", 300)
        s.op("laddr", "L").op("lclose", "L").op("adv", 100).op("accept", "L", "s8")
    else:
        s.op("listen", "L").op("auto", 1, *r.choice([(0, 0, 0), (15, 15, 15)]))
        if mode == 7:
            s.op("listen", "L")
        n = r.randrange(0, 5)
        for j in range(1, n + 1):
            s.op("connect", f"c{j}", "L").op("adv", r.choice([1, 30, 60, 200]))
            if r.random() < 0.6:
                s.op("accept", "L", f"s{j}").op("adv", r.choice([1, 80]))
        if mode in (2, 3):
            for j in range(1, n + 1):
                s.msg(f"c{j}", 3, 3000)
                s.msg(f"s{j}", 2, 300)
                s.op("flush", f"c{j}", j)
        if mode == 3:
            s.op("auto", 1, 100).op("adv", 50)
        if mode == 5 and n:
            s.op("close", f"s{r.randrange(1, n + 1)}")
        if mode == 6 and n:
            s.op("drop", f"s{r.randrange(1, n + 1)}").op("stall", f"s{r.randrange(1, n + 1)}")
        if micro:
            s.op("micro", r.randrange(0, 3))
        for j in range(1, n + 1):
            if r.random() < 0.3:
                s.msg(f"c{j}", 3, 100, now=False)
        s.op("laddr", "L").op("lclose", "L")
        if r.random() < 0.5:
            s.op("connect", "c9", "L")
        s.op("micro", -1)
        s.op("adv", r.choice([1, 50, 400, 3000]))
        s.op("adv", 4000)
        s.op("accept", "L", "s8").op("laddr", "L").op("lclose", "L").op("adv", 100)
    s.op("auto", 1).op("adv", 600)
    s.op("bind", "M", "@L").op("listen", "M")
    s.op("adv", 1500)
    s.probe(1, "M")
    s.op("accept", "M", "zz").fin(15000)
    s.op("lclose", "L").op("adv", 100)
    s.msg("c1", 3, 20)
    s.msg("s1", 3, 20)
    s.fin(5000)
    s.probe(2, "M").fin(8000)
    return s.done()


def bindstd(name, seed, k):
    """from_std and an address of one's own"""
    s = Sc(name, seed)
    s.op("bind", "L", "", "std").op("laddr", "L").op("listen", "L").op("auto", 1).op("laddr", "L")
    s.probe(1).op("lclose", "L").op("adv", 500).op("bind", "M", "@L", "std").op("listen", "M").probe(2, "M")
    s.fin()
    return s.done()


# ------------------------------------------------------------------------------------------------ backlog (C19)
def backlog(name, seed, k):
    s = Sc(name, seed)
    r = s.r
    s.up()
    n = [3, 10, 11, 12, 14, 25][k % 6]
    s.op("auto", 1, *([(0, 0, 0), (10, 10, 10)][(k // 6) % 2]))
    for j in range(1, n + 1):
        s.op("connect", f"c{j}", "L").op("adv", r.choice([10, 130, 130]))
        if j % 4 == 0:
            s.op("ping", f"g{j}", "L")
        if r.random() < 0.2 and j > 1:
            s.msg(f"c{r.randrange(1, j)}", r.choice([2, 3, 0]), r.choice([20, 2000]))
        if r.random() < 0.1 and j > 2:
            s.op("close", f"c{r.randrange(1, j)}")
    s.op("adv", 300)
    for j in range(1, min(n, 9)):
        s.msg(f"c{j}", 3, 44)
    s.op("adv", r.choice([200, 3000, 3000, 20000]))
    for j in range(1, n + 4):
        s.op("accept", "L", f"s{j}")
        if r.random() < 0.3:
            s.op("adv", r.choice([10, 1200]))
    s.fin(20000, 60)
    for j in range(n + 4, n + 12):
        s.op("accept", "L", f"s{j}")
    s.msg("c1", 3, 45)
    s.msg("s1", 3, 45)
    s.fin(10000, 50)
    return s.done()


def blockedaccept(name, seed, k):
    """accept() that waits"""
    s = Sc(name, seed)
    r = s.r
    s.up()
    for j in range(1, 5):
        s.op("acceptwait", "L", f"s{j}").op("adv", r.choice([1, 200])).op("connect", f"c{j}", "L").op("adv", 200)
        s.msg(f"c{j}", 3, 50)
        if k % 2:
            s.op("connect", f"d{j}", "L").op("adv", 200).op("accept", "L", f"t{j}")
    s.op("acceptwait", "L", "s9").op("adv", 100)
    s.fin(5000)
    return s.done()


# ------------------------------------------------------------------------------------------------ pings (C20)
MOTDS = ["", "x", "MCPE;Dedicated Server;390;1.14.60;0;10;13253860892328930865;Bedrock level;Survival;1;19132;19133;",
         "ünïcödé ✓", "a" * 255, "b" * 256, "c" * 900, ";;;", "\u0001\u00fe", "0"]


def pings(name, seed, k):
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L")
    g = 0
    if k % 3 == 0:
        s.op("motd", "L", MOTDS[k % len(MOTDS)])
    s.op("listen", "L").op("getmotd", "L").op("auto", 1)
    for j in range(12):
        x = r.random()
        if x < 0.3:
            s.op("motd", "L", r.choice(MOTDS)).op("getmotd", "L")
        elif x < 0.4:
            s.op("setmotd", "L", r.choice(["srv", "A;B", ""]), r.choice([0, 10, 100000]), "1.18.0", "Survival", "yes", 19132).op("getmotd", "L")
        elif x < 0.5:
            s.op("auto", 1, r.choice([0, 40, 70]), r.choice([0, 50]), r.choice([0, 60]))
        g += 1
        s.op("ping", f"g{g}", "L")
        if r.random() < 0.2:
            s.op("cancel", f"ping:g{g}")
        s.op("adv", r.choice([1, 40, 500, 2100]))
        if r.random() < 0.2:
            s.op("connect", f"c{j}", "L").op("adv", 100).op("accept", "L", f"s{j}")
    s.op("adv", 500)
    s.fin(12000, 60)
    s.op("auto", 1).op("ping", "ga", "L").op("adv", 20).fin(2000)
    return s.done()


def pingbusy(name, seed, k):
    """pings while the listener has other things to do: connections that wait for accept(), none of which is read,
    that flood it, that die"""
    s = Sc(name, seed)
    r = s.r
    s.op("bind", "L").op("motd", "L", r.choice(MOTDS)).op("listen", "L").op("auto", 1).op("raw", "q")
    n = [10, 11, 13, 9, 1, 20][k % 6]
    acc = 0

    def ask(j):
        if r.random() < 0.4:
            s.op("motd", "L", r.choice(MOTDS))
        s.op("ping", f"g{j}", "L").op("adv", r.choice([1, 30]))
        s.op("rawsend", "q", "L", {"k": "ping", "id": r.choice([1, 2]), "time": r.randrange(1 << 40)}).op("adv", r.choice([1, 70]))
    for j in range(1, n + 1):
        s.op("connect", f"c{j}", "L").op("adv", r.choice([10, 130]))
        if r.random() < 0.2:
            s.msg(f"c{r.randrange(1, j + 1)}", 3, 3000)
        if r.random() < 0.3:
            ask(j)
    s.op("adv", 300)
    for j in range(4):
        ask(100 + j)
        x = r.random()
        if x < 0.3:
            acc += 1
            s.op("accept", "L", f"s{acc}").op("stall", f"s{acc}")
            s.msg(f"c{r.randrange(1, n + 1)}", 2, 300)
        elif x < 0.5:
            s.op("close", f"c{r.randrange(1, n + 1)}")
        elif x < 0.7:
            s.op("loseall", "L", "*")
        s.op("adv", r.choice([20, 200, 2000]))
    ask(200)
    s.fin(12000, 60)
    s.op("auto", 1).op("ping", "ga", "L").op("adv", 20).fin(2000)
    return s.done()


def rawpings(name, seed, k):
    """strangers ping the listener in every way, also with open connections"""
    s = Sc(name, seed)
    r = s.r
    s.up()
    s.op("motd", "L", r.choice(MOTDS))
    s.op("raw", "q").op("raw", "p")
    if k % 2:
        s.op("rawconn", "p", "L").op("accept", "L", "s1")
    for t in (0, 1, -1, 2**63 - 1, -2**63, 12345):
        for i in (1, 2):
            s.op("rawsend", r.choice(["p", "q"]), "L", {"k": "ping", "id": i, "time": t})
    for j in range(3):
        s.op("rawsend", "q", "L", {"k": "ping"}, 40)
        s.op("motd", "L", r.choice(MOTDS)).op("rawsend", "q", "L", {"k": "ping", "id": 2}).op("adv", 30)
    s.probe(1).fin(3000)
    return s.done()


def rawpongs(name, seed, k):
    """ping() of a strange server: clocks that are off, pongs malformed, late, repeated, from elsewhere"""
    s = Sc(name, seed)
    r = s.r
    s.op("raw", "p").op("raw", "q").op("auto", 1)
    for j in range(1, 5):
        g = f"g{j}"
        s.op("ping", g, "p").op("adv", r.choice([1, 30, 400, 1100])).op("pull", "p")
        for b in r.sample(["", "1c", "1c00", "ff", "1c" + "00" * 32, "1c" + "00" * 20, "00", "0500", "1c" + "ff" * 40,
                           "1c00000000000000010000000000000002" + "00ffff00fefefefefdfdfdfd12345678" + "0009" + "61",
                           "1c00000000000000010000000000000002" + "00ffff00fefefefefdfdfdfd12345678" + "0002" + "fffe"], 3):
            s.op("rawsend", "p", g, {"k": "hex", "b": b})
        s.op("adv", r.choice([1, 100, 2500]))
        t = r.choice([0, -1, 1, 2**63 - 1, -2**63, 1600000000000 * 2, 1600000000500])
        s.op("rawsend", "p", g, {"k": "pong", "time": t, "motd": r.choice(MOTDS)}, r.choice([1, 2]))
        s.op("adv", 200).op("quiet")
    s.fin(9000)
    return s.done()


# ------------------------------------------------------------------------------------------------ IPv6 (C21)
def ipv6(name, seed, k):
    s = Sc(name, seed, focus="C21")
    r = s.r
    s.op("bind", "L", "v6").op("motd", "L", "six").op("listen", "L").op("auto", 1)
    rates = [(0, 0, 0), (20, 20, 20)][k % 2]
    s.op("auto", 1, *rates)
    s.op("ping", "g1", "L").op("adv", 200)
    for j in (1, 2):
        s.op("connect", f"c{j}", "L", r.choice([10, 11])).op("adv", 600).op("accept", "L", f"s{j}").op("adv", 100)
    s.op("auto", 1)
    s.fin(10000, 60)
    for j in (1, 2):
        s.op("accept", "L", f"t{j}").op("getver", "L", f"c{j}")
    traffic(s, ["c1", "s1", "c2", "s2", "t1", "t2"], [0, 1, 2, 3, 4], 10)
    s.op("raw", "p", "v6").op("rawconn", "p", "L", 1400).op("accept", "L", "s3").op("adv", 10).op("autoack", "p", 1)
    s.op("rawmsg", "p", "L", 3, 3000, s.id()).op("adv", 100).op("pull", "p")
    s.fin(10000)
    s.op("close", "c1").op("adv", 300).op("lclose", "L").op("adv", 500).op("laddr", "L")
    s.op("bind", "M", "@L").op("listen", "M").probe(1, "M").fin(8000)
    return s.done([[x for x in o if x != "v6"] for o in s.ops])


# ------------------------------------------------------------------------------------------------ hostile bytes (C17), strangers (C22)
MAGIC = "00ffff00fefefefefdfdfdfd12345678"


def garbage(r):
    """bytes of any kind, also such that could be read as data"""
    x = r.randrange(6)
    if x == 0:
        return f"{r.randrange(0x80, 0x8e):02x}" + f"{r.randrange(2**24):06x}" + f"{r.randrange(8) << 5 | r.choice([0, 16]):02x}" + r.choice(["0000", "0008", "0001", "0007", "0010", "0028"]) + "00" * r.randrange(0, 24)
    if x == 1:
        return f"{r.randrange(0x80, 0x8e):02x}" + bytes(r.randrange(256) for _ in range(r.randrange(0, 60))).hex()
    if x == 2:
        return r.choice(["a0", "c0"]) + bytes(r.choice([0, 0, 1, 2, 255, r.randrange(256)]) for _ in range(r.randrange(0, 30))).hex()
    if x == 3:                      # control messages of the session, cut or with wrong content
        body = r.choice(["09", "09" + "00" * 16, "0900", "10", "10" + "06" * 40, "1004", "13", "13" + "04" * 30, "1306", "00", "0000", "03", "03" + "ff" * 16, "00" + "ff" * 8, "04", "8e"])
        kd = r.choice([0, 2])
        n = len(body) // 2
        return "84" + r.randrange(2**24).to_bytes(3, "little").hex() + f"{kd << 5:02x}" + f"{n * 8:04x}" + ("ff0f00" if kd == 2 else "") + body
    if x == 4:
        i = r.choice([1, 2, 5, 6, 7, 8, 9, 0x10, 0x12, 0x13, 0x19, 0x1c])
        return f"{i:02x}" + bytes(r.randrange(256) for _ in range(r.randrange(0, 16 if i in (5, 7) else 60))).hex()
    return hostile(r)


def hostile(r, deep=True):
    """bytes that are no well-formed datagram of the protocol in the place where they arrive (or that the place ignores)"""
    x = r.randrange(16)
    if x == 0:
        return ""
    if x == 1:
        return f"{r.randrange(256):02x}" if r.random() < 0.7 else "15" + "00" * 0 if False else f"{r.choice([0,1,2,5,6,7,8,9,16,19,25,28,128,132,141,160,192,255]):02x}"
    if x == 2:
        return f"{r.choice([2, 4, 0x10, 0x17, 0x40, 0x8e, 0xb0, 0xd0, 0xfe]):02x}" + bytes(r.randrange(256) for _ in range(r.randrange(2, 60))).hex()
    if x == 3:                      # a frame set cut anywhere
        full = "84000000" + "60" + "0050" + "000000" + "000000" + "00" + "fe" * 10
        return full[: 2 * r.randrange(1, len(full) // 2)]
    if x == 4:                      # a frame whose length does not fit
        return "84" + f"{r.randrange(2**24):06x}" + f"{r.randrange(8) << 5 | r.choice([0, 16]):02x}" + r.choice(["ffff", "fff8", "0800"]) + "00" * r.randrange(0, 24)
    if x == 5:                      # acknowledgements cut or inverted or huge
        return r.choice(["c0", "c000", "c00001", "c0000100", "c000010000", "c00001010000", "c0000100ffffff000000", "c0ffff01000000",
                         "c0000100000000ffffff", "c00002010000000100000000", "c0000002000000"])
    if x == 6:
        return r.choice(["a0", "a00001", "a0000100", "a0000100ffffff000000", "a0ffff", "a0000100000000ffffff", "a0000101feffff"])
    if x == 7:                      # offline messages with wrong magic or cut
        full = r.choice(["01" + "00" * 8 + MAGIC + "00" * 8, "05" + MAGIC + "0a" + "00" * 20, "07" + MAGIC + "04" + "80fffffe" + "1234" + "0578" + "00" * 8,
                         "06" + MAGIC + "00" * 8 + "00" + "0578", "08" + MAGIC + "00" * 8 + "0480fffffe12340578" + "00", "1c" + "00" * 16 + MAGIC + "000161",
                         "19" + "0a" + MAGIC + "00" * 8, "12" + MAGIC + "00" * 8])
        return full[: 2 * r.randrange(1, len(full) // 2)]
    if x == 8:                      # addresses of strange families
        return "07" + MAGIC + r.choice(["00", "05", "06", "06" + "17" * 10, "04ff"]) + "00" * r.randrange(0, 12)
    if x == 9:                      # fragment headers that make no sense
        fs, fi = r.choice([(0, 0), (0, 5), (1, 1), (3, 3), (2, 9), (2**32 - 1, 0), (2**31, 1), (2, 2**32 - 1)])
        return "84" + "ff0f00" + "70" + "0050" + "ff0f00" + "ff0f00" + "00" + f"{fs & 0xffffffff:08x}" + "0007" + f"{fi & 0xffffffff:08x}" + "fe" * 10
    if x == 10:
        return f"{r.randrange(0x80, 0x8e):02x}" + "ffffff"
    if x == 11:                     # unknown reliabilities
        return "84" + "050f00" + r.choice(["a0", "c0", "e0", "b0", "f0"]) + "0050" + "00" * 16
    if x == 12:                     # empty message
        return "84" + "060f00" + "00" + "0000"
    if x == 13:
        return f"{r.choice([3, 9, 16, 19, 0, 4, 0x14, 0x17, 0x7f, 0x8e, 0x9f, 0xa1, 0xbf, 0xc1, 0xfe]):02x}" + "00" * r.choice([0, 1, 8, 9, 40, 1400])
    if x == 14:                     # several frames, the last one cut
        return "84" + "070f00" + "00" + "0020" + "feaabbcc" + "00" + "0050" + "fe00"
    return "ff" * r.choice([1, 3, 100, 1472])


SENTINEL = {"15"}


def mutate(s, src, dst, n, op="rawsend", make=hostile):
    r = s.r
    for _ in range(n):
        b = make(r)
        while b.startswith("15"):
            b = make(r)
        s.hop(op, src, dst, {"k": "hex", "b": b})


def isconsistent(b):
    return True


def hostilestranger(name, seed, k):
    """bytes of strangers at a listener and at clients, at every stage"""
    s = Sc(name, seed, focus="C17")
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "q").op("raw", "u")
    mutate(s, "q", "L", 6)
    s.op("auto", 0).op("connect", "c1", "L")
    for j in range(6):
        mutate(s, "q", "L", 2)
        if j >= 2:
            mutate(s, "q", "c1", 2)
        s.op("dlall", "c1", "L").op("dlall", "L", "c1").op("adv", 30)
    s.op("auto", 1).op("adv", 200).op("accept", "L", "s1").op("adv", 100)
    for j in range(6):
        mutate(s, r.choice(["q", "u"]), r.choice(["L", "c1"]), 4)
        k_, ln = pick(r, [0, 1, 2, 3, 4])
        s.msg(r.choice(["c1", "s1"]), k_, ln)
        s.op("adv", r.choice([10, 60]))
    s.op("ping", "g1", "L").op("adv", 50)
    s.probe(2)
    s.fin(20000)
    return s.done()


def hostilepeer(name, seed, k):
    """bytes of the peer itself, at every stage"""
    s = Sc(name, seed, focus="C17")
    r = s.r
    server = k % 2 == 0
    if server:
        s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "p")
        if k % 4 == 0:
            mutate(s, "p", "L", 3)
            s.op("rawsend", "p", "L", {"k": "req1"}).op("pull", "p")
            mutate(s, "p", "L", 3)
        s.op("rawconn", "p", "L", 1400).op("accept", "L", "s1").op("autoack", "p", 1).op("auto", 0)
        d, e = "L", "s1"
    else:
        s.rawserver()
        s.op("auto", 0)
        d, e = "c1", "c1"
    for j in range(10):
        mutate(s, "p", d, r.randrange(1, 5))
        for _ in range(r.randrange(1, 4)):
            kd = r.choice([0, 2, 3, 3])
            s.op("rawmsg", "p", d, kd, r.choice([9, 50, 3000]) if kd == 3 else 20, s.id(), 1000)
        kd, ln = pick(r, [0, 2, 3])
        s.msg(e, kd, ln)
        s.op("adv", r.choice([20, 60])).op("pull", "p").op("quiet")
    s.op("adv", 300).op("pull", "p").op("adv", 100)
    if server:
        s.op("auto", 1)
        s.probe(1)
    s.fin(5000)
    return s.done()


def garbagepeer(name, seed, k):
    """bytes of any kind from a peer and from strangers: its own connection may end, nothing else may suffer"""
    s = Sc(name, seed, focus="C17", disturbed=["p", "q", "c9"])
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "p").op("raw", "q")
    s.op("connect", "c2", "L").op("adv", 300).op("accept", "L", "s2").op("adv", 50)
    s.op("rawconn", "p", "L", 1400).op("accept", "L", "s1").op("autoack", "p", 1)
    srv = k % 2 == 0
    if srv:
        s.op("connect", "c9", "q").op("adv", 20).op("rawserve", "q", "c9").op("autoack", "q", 1)
    for j in range(10):
        mutate(s, "p", "L", r.randrange(1, 5), make=garbage)
        if srv:
            mutate(s, "q", "c9", r.randrange(1, 5), make=garbage)
        else:
            mutate(s, "q", r.choice(["L", "c2"]), r.randrange(1, 4), make=garbage)
        for e in ("c2", "s2"):
            s.msg(e, r.choice([0, 2, 3]), r.choice([9, 50, 900]))
        s.op("adv", r.choice([20, 60])).op("pull", "p").op("quiet")
    s.op("adv", 300).op("pull", "p").op("adv", 100).op("auto", 1)
    s.probe(1)
    s.fin(5000)
    return s.done()


def hostileping(name, seed, k):
    s = Sc(name, seed, focus="C17")
    r = s.r
    s.op("raw", "p").op("raw", "q").op("auto", 1)
    for j in range(4):
        s.op("ping", f"g{j}", "p").op("adv", 10).op("pull", "p")
        mutate(s, "p", f"g{j}", 5)
        mutate(s, "q", f"g{j}", 2)
        s.op("rawsend", "p", f"g{j}", {"k": "pong", "motd": "fine"}).op("adv", 100).op("quiet")
    # connect(): what is not the reply that is waited for is ignored
    s.op("connect", "c1", "p")
    for _ in range(6):
        b = hostile(r)
        if b[:2] not in ("06", "08", "19", "15"):
            s.hop("rawsend", "p", "c1", {"k": "hex", "b": b})
    s.op("adv", 20).op("rawserve", "p", "c1").op("autoack", "p", 1)
    s.op("rawmsg", "p", "c1", 3, 40, s.id()).op("adv", 100).fin(17000)
    return s.done()


def strangers(name, seed, k):
    """well-formed datagrams of a session, from another address"""
    s = Sc(name, seed, focus="C22")
    r = s.r
    server = k % 2 == 0
    s.open(2)
    s.op("raw", "q").op("raw", "u")
    a, b, link = ("c1", "s1", ("c1", "L")) if not server else ("s1", "c1", ("L", "c1"))
    d = "L" if server else "c1"
    s.op("auto", 0)
    for j in range(8):
        for _ in range(r.randrange(1, 4)):
            kd, ln = pick(r, [0, 1, 2, 3, 4])
            s.msg(a, kd, ln, now=False)
        s.msg(b, r.choice([2, 3]), 40)
        s.op("settle")
        for _ in range(r.randrange(1, 4)):
            x = r.randrange(6)
            v = [{"k": "disc"}, {"k": "ack", "r": [[0, 200]]}, {"k": "nack", "r": [[0, 200]]},
                 {"k": "frames", "seq": r.randrange(0, 30), "frames": [{"rel": r.randrange(5), "ri": r.randrange(2, 40), "oi": r.randrange(2, 40), "si": r.randrange(0, 40), "m": s.id() + 5000, "len": 30}]},
                 {"k": "frames", "seq": r.randrange(0, 30), "frames": [{"rel": 3, "ri": r.randrange(2, 40), "oi": r.randrange(2, 40), "ctl": "disc"}]},
                 {"k": "frames", "seq": r.randrange(0, 3000), "frames": [{"rel": 0, "ctl": "cping"}]}][x]
            s.hop("rawsend", r.choice(["q", "u"]), d, v)
        if r.random() < 0.5:
            s.op("loseall", *link)
        s.op("adv", r.choice([10, 60, 160]))
        if r.random() < 0.6:
            s.op("dlall", *link).op("dlall", link[1], link[0])
        s.op("quiet")
    s.fin(25000, 50)
    for e in ("c1", "s1", "c2", "s2"):
        s.msg(e, 3, 50)
    s.fin(8000)
    return s.done()


def strangehello(name, seed, k):
    """during connect(), after the first reply, others answer too"""
    s = Sc(name, seed, focus="C22")
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 0).op("raw", "q")
    s.op("connect", "c1", "L").op("dlall", "c1", "L").op("dlall", "L", "c1")
    stage = k % 5
    for j in range(6):
        if j >= stage:
            for _ in range(r.randrange(1, 3)):
                s.hop("rawsend", "q", "c1", r.choice([{"k": "rep2", "mtu": r.choice([1400, 500])}, {"k": "rep1", "mtu": 600}, {"k": "incompat"}, {"k": "already"}, {"k": "disc"},
                                                     {"k": "frames", "seq": 0, "frames": [{"rel": 3, "ri": 0, "oi": 0, "ctl": "accepted"}]},
                                                     {"k": "hex", "b": "08"}, {"k": "hex", "b": "06"}]))
        s.op("adv", r.choice([10, 60]))
        s.op("dlall", "c1", "L").op("dlall", "L", "c1")
    s.op("auto", 1).op("adv", 200).op("accept", "L", "s1")
    s.msg("c1", 3, 2000)
    s.msg("s1", 3, 2000)
    s.fin(15000)
    return s.done()


# ------------------------------------------------------------------------------------------------ reconnecting (C18)
def reconnect(name, seed, k):
    s = Sc(name, seed, step=20)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "p").op("autoack", "p", 1)
    g = 100
    s.op("rawconn", "p", "L", 1400, 10, g).op("accept", "L", "e0")
    for n in range(1, 5):
        cur, nxt = f"e{n - 1}", f"e{n}"
        s.op("auto", 0)
        for _ in range(r.randrange(0, 4)):
            s.op("rawmsg", "p", "L", *r.choice([(2, 9), (3, 9), (3, 2500)]), s.id())
            s.msg(cur, r.choice([2, 3, 0]), r.choice([9, 2500]))
        if r.random() < 0.4:
            s.op("stall", cur)
            s.op("rawmsg", "p", "L", 3, 30, s.id())
        if r.random() < 0.6:
            s.op("adv", 60).op("pull", "p")
        how = (k + n) % 7
        if how == 0:
            s.op("rawsend", "p", "L", {"k": "disc"})
        elif how == 1:
            s.op("close", cur)
        elif how == 2:
            s.op("drop", cur)
        elif how == 3:
            s.op("autoack", "p", 0).op("adv", 60600).op("autoack", "p", 1)
        elif how == 4:
            s.op("close", cur).op("rawsend", "p", "L", {"k": "disc"})
        elif how == 5:
            s.op("rawsend", "p", "L", {"k": "disc"}).op("close", cur)
        else:
            s.op("stall", cur).op("rawsend", "p", "L", {"k": "disc"})
        s.op("adv", r.choice([120, 350, 600, 2000]) if how in (1, 2, 4, 5) else r.choice([310, 600, 2000])).op("pull", "p")
        s.op("mark", "epoch", ["p", "L"])
        if r.random() < 0.5:
            g += 1
        s.op("rawconn", "p", "L", r.choice([1400, 1000]), r.choice([10, 11]), g).op("accept", "L", nxt)
        if r.random() < 0.5:
            s.op("drop", cur)          # the old handle goes away while the new connection lives
        elif r.random() < 0.5:
            s.op("close", cur)
        s.op("rawmsg", "p", "L", 3, 50, s.id())
        s.msg(nxt, 3, 51)
        s.op("adv", 100).op("pull", "p")
        s.op("getver", "L", "p")
        s.op("adv", r.choice([100, 1000]))
    s.op("rawmsg", "p", "L", 3, 52, s.id())
    s.msg("e4", 3, 53)
    s.op("adv", 200).op("pull", "p").op("auto", 1)
    s.probe(1)
    s.fin(5000)
    return s.done()


def manyend(name, seed, k):
    """many connections end in the same moment; each peer comes back from its address"""
    s = Sc(name, seed, step=20)
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1)
    n = r.choice([11, 12, 14, 20, 24])
    ps = [f"p{j}" for j in range(n)]
    for j, p in enumerate(ps):
        s.op("raw", p).op("autoack", p, 1)
        s.op("rawsend", p, "L", {"k": "req1", "ver": 10}).op("rawsend", p, "L", {"k": "req2", "mtu": 1400, "guid": 100 + j})
        s.op("accept", "L", f"e{j}")
    for p in ps:
        s.op("rawsend", p, "L", {"k": "frames", "seq": 0, "frames": [{"rel": 3, "ri": 0, "oi": 0, "ctl": "connreq"}]})
    s.op("adv", 60)
    for p in ps:
        s.op("rawsend", p, "L", {"k": "frames", "seq": 1, "frames": [{"rel": 3, "ri": 1, "oi": 1, "ctl": "newinc"}]}).op("pull", p)
        for c in ("seq", "ridx", "oidx"):
            s.op("rawset", p, c, 2)
        s.op("rawmsg", p, "L", 3, 9, s.id())
    s.op("adv", 60)
    how = k % 4
    if how == 0:                        # silence, all at once
        for p in ps:
            s.op("autoack", p, 0)
        s.op("adv", 60600)
        for p in ps:
            s.op("autoack", p, 1)
    elif how == 1:                      # all peers leave
        for p in ps:
            s.op("rawfly", p, "L", {"k": "disc"})
        s.op("auto", 0)
        for p in ps:
            s.op("dlall!", p, "L")
        s.op("adv", 400)
    elif how == 2:                      # the application closes all
        for j in range(n):
            s.op("close!", f"e{j}")
        s.op("adv", 400)
    else:
        for j in range(n):
            s.op(r.choice(["close!", "drop"]), f"e{j}")
        s.op("adv", 400)
    for j, p in enumerate(ps):
        s.op("pull", p).op("mark", "epoch", [p, "L"])
    for j, p in enumerate(ps):
        s.op("rawconn", p, "L", 1400, 10, 500 + j if r.random() < 0.7 else 100 + j).op("accept", "L", f"f{j}")
        s.op("rawmsg", p, "L", 3, 50, s.id())
        s.msg(f"f{j}", 2, 51)
    s.op("adv", 100)
    for p in ps:
        s.op("pull", p)
    s.op("auto", 1)
    s.probe(1)
    s.fin(5000)
    return s.done()


def intruder(name, seed, k):
    """requests of somebody else (another guid) from the address of an open connection"""
    s = Sc(name, seed, focus="C18")
    r = s.r
    s.op("bind", "L").op("listen", "L").op("auto", 1).op("raw", "p").op("autoack", "p", 1)
    s.op("rawconn", "p", "L", 1400, 10, 100).op("accept", "L", "s1").op("auto", 0).op("connect", "c2", "L")
    for j in range(8):
        for _ in range(r.randrange(0, 3)):
            s.op("rawmsg", "p", "L", *r.choice([(2, 9), (3, 9), (3, 2500)]), s.id())
            s.msg("s1", r.choice([2, 3, 0]), r.choice([9, 2500]))
        for _ in range(r.randrange(1, 4)):
            s.hop("rawsend", "p", "L", r.choice([{"k": "req2", "mtu": 1400, "guid": 200}, {"k": "req2", "mtu": 600, "guid": 201}, {"k": "req1", "ver": 10},
                                                  {"k": "req1", "ver": 3}, {"k": "req2", "mtu": 100, "guid": 202}, {"k": "ping"}, {"k": "req2", "mtu": 1400, "guid": 100}]))
        s.op("adv", r.choice([20, 60, 200])).op("pull", "p").op("quiet")
    s.hop("rawsend", "p", "L", {"k": "req1", "ver": 10})
    s.op("rawmsg", "p", "L", 3, 52, s.id())
    s.msg("s1", 3, 53)
    s.op("adv", 200).op("pull", "p").op("auto", 1)
    s.probe(1)
    s.op("accept", "L", "s8").op("accept", "L", "s9")
    s.fin(5000)
    return s.done()


# ------------------------------------------------------------------------------------------------ MTU (C23)
def mtus(name, seed, k):
    s = Sc(name, seed)
    r = s.r
    vals = [0, 1, 27, 28, 60, 61, 100, 399, 400, 401, 460, 576, 1000, 1399, 1400, 1401, 1492, 1500, 9000, 65535]
    if k % 2 == 0:
        s.up()
        for j, m in enumerate(r.sample(vals, 6) if k else vals[:8]):
            p = f"p{j}"
            s.op("raw", p).op("rawconn", p, "L", m).op("autoack", p, 1)
            s.op("accept", "L", f"s{j}")
            if m < 400 and r.random() < 0.5:
                s.op("rawconn", p, "L", r.choice([400, 1400])).op("accept", "L", f"s{j}")
            s.msg(f"s{j}", 3, r.choice([300, 1340, 5000]))
            s.msg(f"s{j}", 2, min(max(m, 400), 1400) - 60)
            s.msg(f"s{j}", 2, min(max(m, 400), 1400) - 59)
            s.op("adv", 60).op("pull", p).op("adv", 60)
        for j, m in enumerate((1, 400, 1400, 1464, 2000)):
            s.op("raw", f"q{j}").op("rawsend", f"q{j}", "L", {"k": "req1", "size": m})
        s.probe(1)
    else:
        s.op("raw", "p")
        for j, m in enumerate(r.sample(vals, 5)):
            s.op("connect", f"c{j}", "p").op("rawserve", "p", f"c{j}", m).op("autoack", "p", 1)
            s.msg(f"c{j}", 3, r.choice([300, 1340, 5000]))
            s.msg(f"c{j}", 2, min(max(m, 400), 1400) - 60)
            s.msg(f"c{j}", 2, min(max(m, 400), 1400) - 59)
            s.op("adv", 60).op("pull", "p").op("adv", 60)
    s.fin(8000)
    return s.done()


# ------------------------------------------------------------------------------------------------ the operating system refuses to send (C25)
ERRNO = [1, 22, 90, 101, 105, 111, 113]      # EPERM EINVAL EMSGSIZE ENETUNREACH ENOBUFS ECONNREFUSED EHOSTUNREACH


def refused(name, seed, k):
    """for a while the operating system refuses some or all of what one side sends"""
    s = Sc(name, seed, focus="C25")
    r = s.r
    s.open(2)
    traffic(s, ["c1", "s1", "c2", "s2"], [0, 1, 2, 3, 4], 3)
    links = {"c1": ("c1", "L"), "s1": ("L", "c1"), "*": ("*", "*"), "L": ("L", "*"), "in": ("*", "L")}
    for _ in range(r.randrange(1, 4)):
        e = r.choice(["c1", "s1", "s1", "*", "L", "in"])
        pct = r.choice([100, 100, 60, 30])
        s.hop("senderr", *links[e], pct, r.choice(ERRNO))
        traffic(s, ["c1", "s1", "c2", "s2"], [0, 1, 2, 3, 4], r.randrange(2, 7))
        if r.random() < 0.3:
            s.op("flush", r.choice(["c1", "s1"]), s.id())
        s.op("adv", r.choice([60, 300, 1500, 4000]))
        s.hop("senderr", *links[e], 0)
        s.op("adv", r.choice([50, 400]))
        if r.random() < 0.5:
            traffic(s, ["c1", "s1"], [0, 2, 3, 4], 3)
    s.op("quiesce", 25000, 50, 45)
    traffic(s, ["c1", "s1", "c2", "s2"], [1, 2, 3, 4], 4)
    s.probe(1)
    s.fin(12000)
    return s.done()


def refusedhand(name, seed, k):
    """connect() while the operating system refuses to send, on either side"""
    s = Sc(name, seed, focus="C25")
    r = s.r
    s.up()
    s.op("connect", "c0", "L").op("adv", 150).op("accept", "L", "s0").op("adv", 60)
    x = k % 4
    src, dst = (("*", "L"), ("L", "*"), ("*", "*"), ("*", "L"))[x]
    if x == 3:                          # from a step of the handshake on
        s.op("auto", 0).op("connect", "c1", "L")
        for _ in range((k // 4) % 5):
            s.op("dlall", "c1", "L").op("dlall", "L", "c1").op("adv", 60)
        s.hop("senderr", *r.choice([("c1", "L"), ("L", "c1")]), 100, r.choice(ERRNO))
        s.op("auto", 1)
    else:
        s.hop("senderr", src, dst, r.choice([100, 100, 50]), r.choice(ERRNO))
        s.op("connect", "c1", "L")
    s.op("adv", r.choice([50, 1000, 3000]))
    if r.random() < 0.5:
        s.op("connect", "c2", "L").op("adv", r.choice([50, 2500]))
    if x < 3:
        s.hop("senderr", src, dst, 0)
    s.op("quiesce", 20000, 50, 60)
    s.op("accept", "L", "s1").op("accept", "L", "s2").op("adv", 60)
    for e in ("c0", "s0", "c1", "s1", "c2", "s2"):
        s.msg(e, 3, 1500)
        s.msg(e, 2, 30)
    s.op("quiesce", 8000, 50, 45)
    s.probe(1).fin(8000)
    return s.done()


def refusedclose(name, seed, k):
    """connections and listeners end while the operating system refuses to send"""
    s = Sc(name, seed, focus="C25")
    r = s.r
    s.open(3)
    traffic(s, ["c1", "s1", "c2", "s2", "c3", "s3"], [0, 2, 3, 4], 4)
    x = k % 5
    link = [("c1", "L"), ("L", "c1"), ("L", "*"), ("*", "L"), ("*", "*")][r.randrange(5)]
    s.hop("senderr", *link, r.choice([100, 100, 60]), r.choice(ERRNO))
    traffic(s, ["c1", "s1"], [0, 2, 3], r.randrange(0, 3))
    if x in (0, 1):
        s.op(r.choice(["close", "drop"]), "c1" if x == 0 else "s1")
    elif x == 2:
        s.op("close!", "c1").op("close!", "s1")
    elif x == 3:
        s.op("lclose", "L")
    else:
        s.op("close", r.choice(["c1", "s1"])).op("adv", 100).op("lclose", "L")
    s.op("adv", r.choice([50, 700, 1500]))
    s.hop("senderr", *link, 0)
    s.op("adv", 2000)
    if x < 3:
        traffic(s, ["c2", "s2", "c3", "s3"], [2, 3, 4], 4)
        s.probe(1)
        s.op("quiesce", 15000, 50, 45)
        s.op("adv", 75000)
        traffic(s, ["c2", "s2", "c3", "s3"], [2, 3], 3)
        s.probe(2)
    else:
        s.op("bind", "M").op("listen", "M").probe(1, "M")
        s.op("adv", 75000).probe(2, "M")
    s.fin(15000)
    return s.done()


def refusedping(name, seed, k):
    """strangers whose answers cannot be sent (a source port or address that nothing can be sent to)"""
    s = Sc(name, seed, focus="C25")
    r = s.r
    s.op("raw", "q").op("raw", "p")
    s.open(2)
    s.hop("senderr", "L", "q", 100, r.choice(ERRNO))
    for j in range(r.randrange(3, 9)):
        x = r.randrange(5)
        if x == 0:
            s.op("rawsend", "q", "L", {"k": "ping", "id": r.choice([1, 2]), "time": j}, r.choice([1, 30]))
        elif x == 1:
            s.op("rawsend", "q", "L", {"k": "req1", "ver": r.choice([8, 10, 11])})
        elif x == 2:
            s.op("rawsend", "q", "L", {"k": "req1"}).op("rawsend", "q", "L", {"k": "req2", "mtu": 1400})
        elif x == 3:
            s.op("rawsend", "q", "L", {"k": "req2", "mtu": 1400}, 2)
        else:
            s.op("rawsend", "q", "L", {"k": "disc"})
        traffic(s, ["c1", "s1", "c2", "s2"], [0, 2, 3, 4], 2)
        if r.random() < 0.5:
            s.op("adv", r.choice([60, 1000]))
    s.op("rawsend", "p", "L", {"k": "ping"}).op("adv", 60)
    s.probe(1)
    s.op("adv", r.choice([500, 63000]))
    s.hop("senderr", "L", "q", 0)
    s.op("rawsend", "q", "L", {"k": "ping"}).op("adv", 60)
    traffic(s, ["c1", "s1", "c2", "s2"], [2, 3], 3)
    s.probe(2)
    s.fin(15000)
    return s.done()


LIFE_FAMILIES = {
    "refused": lambda sd, k: refused(f"refused{k}", sd, k),
    "refhand": lambda sd, k: refusedhand(f"refhand{k}", sd, k),
    "refclose": lambda sd, k: refusedclose(f"refclose{k}", sd, k),
    "refping": lambda sd, k: refusedping(f"refping{k}", sd, k),
    "hand": lambda sd, k: handshake(f"hand{k}", sd, 1 + k % 5),
    "handstep": lambda sd, k: handstep(f"handstep{k}", sd, k),
    "handend": lambda sd, k: handend(f"handend{k}", sd, k),
    "vers": lambda sd, k: versions(f"vers{k}", sd, k),
    "rawvers": lambda sd, k: rawvers(f"rawvers{k}", sd, k),
    "incompat": lambda sd, k: rawincompat(f"incompat{k}", sd, k),
    "closing": lambda sd, k: closing(f"closing{k}", sd, k),
    "closelate": lambda sd, k: closelate(f"closelate{k}", sd, k),
    "closelost": lambda sd, k: closelost(f"closelost{k}", sd, k),
    "silence": lambda sd, k: silence(f"silence{k}", sd, k),
    "darkness": lambda sd, k: darkness(f"darkness{k}", sd, k),
    "keepalive": lambda sd, k: keepalive(f"keepalive{k}", sd, k),
    "isolation": lambda sd, k: isolation(f"isolation{k}", sd, k),
    "listeners": lambda sd, k: listeners(f"listeners{k}", sd, k),
    "bindstd": lambda sd, k: bindstd(f"bindstd{k}", sd, k),
    "backlog": lambda sd, k: backlog(f"backlog{k}", sd, k),
    "blockacc": lambda sd, k: blockedaccept(f"blockacc{k}", sd, k),
    "pings": lambda sd, k: pings(f"pings{k}", sd, k),
    "pingbusy": lambda sd, k: pingbusy(f"pingbusy{k}", sd, k),
    "rawpings": lambda sd, k: rawpings(f"rawpings{k}", sd, k),
    "rawpongs": lambda sd, k: rawpongs(f"rawpongs{k}", sd, k),
    "ipv6": lambda sd, k: ipv6(f"ipv6{k}", sd, k),
    "hstranger": lambda sd, k: hostilestranger(f"hstranger{k}", sd, k),
    "hpeer": lambda sd, k: hostilepeer(f"hpeer{k}", sd, k),
    "hgarb": lambda sd, k: garbagepeer(f"hgarb{k}", sd, k),
    "hping": lambda sd, k: hostileping(f"hping{k}", sd, k),
    "strangers": lambda sd, k: strangers(f"strangers{k}", sd, k),
    "strhello": lambda sd, k: strangehello(f"strhello{k}", sd, k),
    "manyend": lambda sd, k: manyend(f"manyend{k}", sd, k),
    "reconn": lambda sd, k: reconnect(f"reconn{k}", sd, k),
    "intruder": lambda sd, k: intruder(f"intruder{k}", sd, k),
    "mtus": lambda sd, k: mtus(f"mtus{k}", sd, k),
}
