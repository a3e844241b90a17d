"""Projection of a recorded scenario (one list of harness events) onto its flows: for every connection and
direction the events the specification FlowTrace speaks about. Nothing is judged here."""


def sessions(evs):
    """(end a, end b) pairs that talked data, with the api endpoint names of either side"""
    eps = {}      # api endpoint name -> (own address name, peer address name)
    raws = set()
    listeners = set()
    conn = {}
    nreq = {}
    for e in evs:
        k = e["e"]
        if k == "bindret":
            listeners.add(e["l"])
        elif k == "conncall":
            conn[e["ep"]] = e["to"]
        elif k == "connret" and e["res"] == "ok":
            eps[e["ep"]] = (e["ep"], e["peer"])
        elif k == "accret" and e["res"] == "ok":
            eps[e["ep"]] = (e["l"], e["peer"])
        elif k == "rawtx":
            raws.add(e["src"])
        elif k == "tx" and e["k"] == "rep2":
            nreq[(e["src"], e["dst"])] = nreq.get((e["src"], e["dst"]), 0) + 1
    own = listeners | set(conn) | {e["g"] for e in evs if e["e"] == "pingcall"}
    return eps, raws - own, listeners, conn


def flows(name, evs, cfg=None):
    cfg = cfg or {}
    eps, raws, listeners, conn = sessions(evs)
    pairs = []
    for e in evs:
        if e["e"] in ("tx", "rawtx") and e.get("k") in ("rep2",):
            p = (e["dst"], e["src"])          # (client, server)
            if p not in pairs and (e["e"] == "tx" or e["dst"] not in conn or conn[e["dst"]] == e["src"]):
                pairs.append(p)
        if e["e"] == "conncall":
            p = (e["ep"], e["to"])
            if p not in pairs:
                pairs.append(p)
    alias = {}                          # address name -> (the name it gets, when)
    for k, e in enumerate(evs):
        if e["e"] == "bindret" and e["res"] == "ok" and e.get("at", e["l"]) != e["l"]:
            alias.setdefault(e["at"], (e["l"], k))
    micro = 1 if cfg.get("micro") else 0
    bulk = set()
    out = []
    for c, srv in pairs:
        if cfg.get("only") and [c, srv] not in cfg["only"]:
            continue
        creal, sreal = c in conn, srv in listeners
        if creal and eps.get(c, (c, srv))[1] != srv:
            continue
        if {c, srv} & set(cfg.get("disturbed", ())):
            continue                        # nothing is promised for these
        if not creal and c not in raws:
            continue
        if not sreal and srv not in raws:
            continue
        # api endpoint names
        cep = c if creal else None
        sep = [n for n, (o, p) in eps.items() if o == srv and p == c] if sreal else []
        # several sessions of one address: the scenario says where the next one begins
        cuts = [k for k, e in enumerate(evs) if e["e"] == "mark" and e["what"] == "epoch" and e["v"] == [c, srv]]
        if len(sep) > len(cuts) + 1:
            continue
        bounds = [0] + cuts + [alias[srv][1] if srv in alias else len(evs)]
        for n in range(len(bounds) - 1):
            se = sep[n] if n < len(sep) else None
            for a, b, aep, bep, ar, br in ((c, srv, cep, se, creal, sreal), (srv, c, se, cep, sreal, creal)):
                out.append(flow(name + (f":{n}" if cuts else ""), evs, a, b, aep, bep, ar, br, c, srv, micro, raws, bounds[n], bounds[n + 1], bounds[-1]))
    return [f for f in out if f]


def flow(name, evs, a, b, aep, bep, ar, br, c, srv, micro, raws, first, end, stop):
    seg = f"{name}:{a}->{b}"
    o = [{"e": "reset", "t": 0, "seg": seg, "ar": int(ar), "br": int(br), "micro": micro}]
    nosock = {(e["ep"], e["m"]) for e in evs if e["e"] == "sendret" and e["res"] == "nosock"}
    num = {}          # message id -> position among the sends of this flow
    foreign = set()
    for x, e in enumerate(evs):
        if e["e"] == "send" and e["ep"] != aep:
            foreign.add(e["m"])
        if e["e"] == "rawtx" and e["k"] == "frames" and (e["src"] != a or not first <= x < end):
            foreign.update(f["m"] for f in e["fr"])

    def mm(m):
        if m in num:
            return num[m]
        if m >= 1000000:
            return 0
        if m >= 0 and m in foreign:
            return -2
        return -1

    def fr(e):
        return [{"r": f["r"], "ri": f["ri"], "si": f["si"], "oi": f["oi"], "fg": f["fg"], "fs": min(f["fs"], 2000000000),
                 "fi": f["fi"], "fx": min(f["fx"], 2000000000), "m": mm(f["m"]), "off": f["off"], "n": f["n"], "tot": f["tot"]}
                for f in e["fr"] if f["n"] > 0 or f["r"] > 0]     # an empty unreliable frame stands for nothing

    srvopen = False
    acc = False
    last = {}
    aop = bop = False

    def add(k, t, **kw):
        kw["e"] = k
        kw["t"] = t
        o.append(kw)

    def opened(side, t):
        nonlocal aop, bop
        if side == a and not aop:
            aop = True
            add("aopen", t)
            last[a] = t
        if side == b and not bop:
            bop = True
            add("bopen", t)
            last[b] = t
            if bep == b and br:               # a client has its own receiver at once
                pass

    pend = set()
    for x, e in enumerate(evs):
        k, t = e["e"], e["t"]
        if x >= stop:
            break
        if not first <= x < end and (k in ("tx", "rx", "rawtx") or x < first and k != "net"):
            continue
        for side, op in ((a, aop), (b, bop)):
            if op and t - last.get(side, t) > 59000:
                add("acl" if side == a else "bcl", t)
                last[side] = t + 10**9
        if k in ("tx", "rawtx"):
            s, d, kind = e["src"], e["dst"], e["k"]
            if k == "rawtx" and s == a and d == b and kind == "frames" and not ar:
                for f in e["fr"]:
                    if 0 <= f["m"] < 1000000 and f["m"] not in num:
                        num[f["m"]] = len(num) + 1
                        add("send", t, m=num[f["m"]], kd=f["r"], len=f["tot"], b0=254)
            if k == "tx":
                if kind == "rep2" and s == srv and d == c:
                    opened(srv, t)
                if (s, d) == (a, b):
                    if kind == "frames":
                        add("tx", t, q=e["q"], sz=e["sz"], fr=fr(e))
                    elif kind == "disc":
                        add("acl", t)
                elif (s, d) == (b, a):
                    if kind == "ack":
                        add("atx", t, rs=e["rs"])
                    elif kind == "nack":
                        add("ntx", t, rs=e["rs"])
                    elif kind == "disc":
                        add("bcl", t)
        elif k == "rx":
            s, d, kind = e["src"], e["dst"], e["k"]
            if kind == "req2" and s == c and d == srv:
                if a == srv:
                    if not aop:
                        add("mtu", t, v=e["mtu"])
                if not aop or not bop:
                    pass
            if kind == "rep1" and s == srv and d == c and a == c and not aop:
                add("mtu", t, v=e["mtu"])
            if kind == "rep2" and s == srv and d == c:
                opened(c, t)
            if (s, d) in ((a, b), (b, a)):
                last[d] = t
            if (s, d) == (a, b):
                if kind == "frames":
                    add("rx", t, q=e["q"], fr=fr(e))
                    if any(f["c"] == "disc" for f in e["fr"]):
                        add("bcl", t)
                elif kind == "disc":
                    add("bcl", t)
            elif (s, d) == (b, a):
                if kind == "ack":
                    add("arx", t, rs=e["rs"])
                elif kind == "nack":
                    add("nrx", t, rs=e["rs"])
                elif kind == "disc":
                    add("acl", t)
                elif kind == "frames" and any(f["c"] == "disc" for f in e["fr"]):
                    add("acl", t)
        elif k == "send" and e["ep"] == aep and (aep, e["m"]) not in nosock:
            num[e["m"]] = len(num) + 1
            pend.add(e["m"])
            add("send", t, m=num[e["m"]], kd=e["kd"], len=e["len"], b0=e["b0"])
        elif k == "sendret" and e["ep"] == aep:
            if e["m"] in num and e["res"] != "nosock":
                add("sret", t, m=num[e["m"]], res=e["res"])
        elif k == "flush" and e["ep"] == aep:
            add("fl", t, id=e["id"])
        elif k == "flushret" and e["ep"] == aep:
            add("flret", t, id=e["id"], res=e["res"])
        elif k == "connret" and e["res"] == "ok" and e["ep"] == bep and b == c:
            add("bacc", t)
        elif k == "accret" and e["res"] == "ok" and e["ep"] == bep and b == srv:
            add("bacc", t)
        elif k == "dlv" and e["ep"] == bep:
            add("dlv", t, m=mm(e["m"]), len=e["len"])
        elif k == "recverr" and e["ep"] == bep:
            add("rerr", t, res=e["res"])
        elif k in ("close", "dropped"):
            if e["ep"] == aep:
                add("acl", t)
            if e["ep"] == bep:
                add("bcl", t)
                if k == "dropped":
                    add("stall", t)
        elif k in ("stall", "unstall") and e["ep"] == bep:
            add(k, t)
        elif k in ("lclose", "ldropped"):
            if e["l"] == srv:
                add("acl" if a == srv else "bcl", t)
        elif k == "cancel":
            if e["what"] == "connect:" + c:
                add("acl" if a == c else "bcl", t)
        elif k == "net":
            add("net", t, fair=bool(e["fair"]))
        elif k == "quiet":
            add("quiet", t)
        elif k in ("panic", "hang"):
            add(k, t)
    if not (aop or bop):
        return None
    return o


def life(name, evs, cfg=None):
    """the whole scenario, for LifeTrace"""
    cfg = cfg or {}
    raws = sessions(evs)[1]
    o = [{"e": "reset", "t": 0, "seg": name, "micro": 1 if cfg.get("micro") else 0}]
    nosock = {(e["ep"], e["m"]) for e in evs if e["e"] == "sendret" and e["res"] == "nosock"}
    owner, first = {}, {}
    keep = {"bindret": "l res", "listen": "l", "motd": "l motd", "getmotd": "l motd", "getver": "l peer ver", "laddr": "l res",
            "conncall": "ep to ver", "connret": "ep res peer ver portok", "accret": "l ep res peer ver laok blk", "acceptcall": "l",
            "pingcall": "g l", "pingret": "g res lat motd", "send": "ep m", "sendret": "ep m res", "flush": "ep id",
            "flushret": "ep id res", "close": "ep", "closeret": "ep res", "dropped": "ep", "recverr": "ep res", "dlv": "ep m",
            "stall": "ep", "unstall": "ep", "lclose": "l", "lcloseret": "l res live", "ldropped": "l", "net": "fair", "quiet": "ms"}
    opt = ("ver", "mtu", "guid", "ok", "motd")
    for e in evs:
        k = e["e"]
        if k in keep:
            if k in ("send", "sendret") and (e["ep"], e["m"]) in nosock:
                continue
            d = {"e": k, "t": e["t"]}
            for x in keep[k].split():
                d[x] = e[x]
            if k == "bindret":
                d["was"] = e.get("at", e["l"])
                d["was"], root = owner.get(d["was"], d["was"]), d["was"]
                owner[root] = e["l"]
                first[e["l"]] = root
            if k == "lcloseret" and owner.get(first.get(e["l"])) != e["l"]:
                d["live"] = False                 # the address belongs to another listener by now
            if k == "conncall":
                d["to"] = owner.get(e["to"], e["to"])
            if k == "pingret" and abs(d["lat"]) > 2000000000:
                d["lat"] = -1
            if k == "net":
                d["fair"] = bool(e["fair"])
            o.append(d)
        elif k in ("tx", "rx"):
            if (k == "rx" and e["dst"] in raws) or (k == "tx" and e["k"] in ("ack", "nack", "frames", "ping")):
                continue
            d = {"e": k, "t": e["t"], "src": e["src"], "dst": e["dst"], "k": e["k"], "sz": e["sz"], "b0": e["b0"]}
            for x in opt:
                if x in e:
                    d[x] = e[x]
            if e["k"] == "frames":
                d["cs"] = sorted({f["c"] for f in e["fr"] if f["c"]})
            o.append(d)
        elif k == "cancel":
            a, _, b = e["what"].partition(":")
            o.append({"e": "cancel", "t": e["t"], "k": a, "ep": b.split(":")[0]})
    return [o]



def api(name, evs, cfg):
    """histories of calls (scenarios with real threads)"""
    if not any(e["e"] == "inv" for e in evs):
        return []
    o = [{"e": "reset", "t": 0, "seg": name}]
    for e in evs:
        if e["e"] == "inv":
            o.append(dict(e, n=0))
        elif e["e"] in ("ret", "done"):
            o.append(e)
    return [o]


def wire(name, evs, cfg):
    """the bytes of what the library sent and was handed (scenarios with cfg bytes)"""
    if not cfg.get("bytes"):
        return []
    raws = sessions(evs)[1]
    o = [{"e": "reset", "t": 0, "seg": name}]
    for e in evs:
        if e["e"] in ("tx", "rx") and "b" in e and e["src" if e["e"] == "tx" else "dst"] not in raws:
            o.append({k: e[k] for k in ("e", "t", "src", "dst", "da", "b")})
    return [o]


PROJ = {"WireTrace": wire, "FlowTrace": flows, "LifeTrace": life, "ApiTrace": api}
