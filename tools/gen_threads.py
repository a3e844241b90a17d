"""Scenarios with real threads: what every cell does is drawn here, the schedule is the machine's."""
import random


def cell(fam, seed, k, ends, **kw):
    r = random.Random(f"{fam}/{seed}/{k}")
    end = ends[k % len(ends)]
    abrupt = r.random() < kw.get("abrupt", 0.5)
    c = r.choice(kw.get("clients", [1, 1, 2, 3]))
    p = dict(seed=r.randrange(1 << 40), workers=r.choice([2, 3, 4]), chaos=r.choice([0, 2, 20, 60, 200]), clients=c,
             take=r.randint(0, c) if abrupt and end == "lclose" else c, writers=r.choice(kw.get("writers", [1, 1, 2])),
             msgs=r.choice(kw.get("msgs", [5, 15])), end=end, abrupt=abrupt, churn=r.choice(kw.get("churn", [0, 1])),
             ping=r.random() < kw.get("ping", 0.1))
    return {"name": f"{fam}-{seed}-{k}", "seed": seed, "cfg": {}, "ops": [], "threads": p}


ENDS = ["cclose", "sclose", "both", "cdrop", "sdrop", "lclose", "ldrop"]


def thrclose(seed, k):
    """closing in every way while others write, read and flush"""
    return cell("thrclose", seed, k, ENDS, abrupt=0.7)


def thrdata(seed, k):
    """many messages of every kind from several tasks both ways, then flush() and an orderly end"""
    return cell("thrdata", seed, k, ["cclose", "sclose", "lclose"], abrupt=0.0, clients=[1, 2], writers=[1, 2, 3],
                msgs=[30, 60, 100])


def thropen(seed, k):
    """listeners that come and go, many clients that connect at once"""
    return cell("thropen", seed, k, ["lclose", "cdrop", "lclose"], churn=[20, 40, 60], clients=[3, 6, 10], msgs=[1, 3],
                ping=0.3)


THREAD_FAMILIES = {f.__name__: f for f in (thrclose, thrdata, thropen)}
