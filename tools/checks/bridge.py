"""The bridge between a contract on Ethereum and Witnet: spec/Bridge.tla."""
import json

GOOD = dict(w=2, r=50, c=2000, pct=51, form="ok")
HOWS = ["ok", "refused", "unreachable", "reverted", "expired", "mined"]


def request(r):
    k = dict(GOOD)
    x = r.random()
    if x < 0.45:
        return k
    if x < 0.7:
        # around every limit
        k.update(w=r.choice([0, 1, 2, 3, 10]), pct=r.choice([50, 51, 51, 51, 75, 99, 100]), c=r.choice([0, 1, 600, 999, 1000, 1001, 2000, 6250, 6251, 12500, 12501]),
                 r=r.choice([0, 1, 8, 15, 16, 50, 83, 99, 100, 101, 400, 600, 998, 999, 1000, 1500, 5000]))
    elif x < 0.8:
        # the whole value close to what is allowed; every pair of coins counts, as the fees are twice the number of the query
        w = r.choice([1, 2, 4, 5])
        k.update(w=w, r=10_000 // w - 2 * r.randint(1, 6) + r.choice([-1, 0, 0, 1]))
    elif x < 0.87:
        k.update(form=r.choice(["junk", "script"]))
    elif x < 0.94:
        k.update(w=r.choice([0, 300, 5000]))
    else:
        k.update(c=600, r=r.choice([5, 50, 400, 599, 600]))
    return k


def result(r):
    n = r.choice([1, 1, 2, 5, 19, 20, 21, 40])
    return "".join(r.choice("0123456789abcdef") for _ in range(2 * n))


def scripts(r, n, length):
    out = []
    for i in range(n):
        cfg = dict(batch=r.choice([1, 2, 2, 3, 4, 16]), skip=r.choice([0, 0, 0, 1, 3]))
        ops, posts, sends = [], 0, 0
        trouble = r.choice([0, 0.02, 0.1, 0.3])
        crowd, fewer = r.choice([3, 6, 9]), r.random() < 0.4
        weights = r.choice([(3, 3, 3, 3), (3, 3, 3, 3), (1, 3, 3, 6), (4, 4, 2, 1), (1, 2, 8, 4), (2, 2, 6, 1)])
        while len(ops) < length:
            x = r.random()
            if posts < crowd and x < (0.5 if len(ops) < 10 else 0.08):
                posts += 1
                ops.append(dict(op="post", **request(r)))
            elif x < 0.10 and posts:
                if r.random() < 0.5:
                    ops.append(dict(op="settle", q=r.randint(1, posts), to=r.choice([0, 2, 2, 3])))
            elif x < 0.24 and posts:
                res = result(r) if r.random() < 0.8 else ""
                ops.append(dict(op="mine", n=r.randint(1, max(1, min(sends, posts + 2))), res=res, len=len(res), epoch=r.choice([60, 95, 98, 99, 100, 101, 150]), round=r.choice([0, 0, 1, 3])))
            elif x < 0.29:
                ops.append(dict(op="time", by=r.choice([1, 10, 50, 99, 100, 101])))
            elif x < 0.30 and trouble:
                ops.append(dict(op="crash"))
            else:
                a = r.choices(["eth", "send", "wit", "rep"], weights)[0]
                # several times in a row, so that each gets somewhere
                n = r.choice([1, 2, 3, 4] if a in ("eth", "send") else [1, 2, 4, 6, 8])
                for _ in range(n):
                    how = "ok" if r.random() >= trouble else r.choice(HOWS)
                    ops.append(dict(op="go", a=a, i=1 if a != "rep" or fewer else r.choice([1, 1, 1, 2]), how=how))
                sends += a == "send"
        out.append(dict(id=i, cfg=cfg, ops=ops))
    return out


def batches(r, n, _length=0):
    """Many results at once, and estimates that are refused: reports are halved, and halved again."""
    out = []
    for i in range(n):
        k = r.randint(2, 9)
        go = lambda a, m, bad=0, hows=("refused",): [dict(op="go", a=a, i=1, how=r.choice(hows) if r.random() < bad else "ok") for _ in range(m)]
        ops = [dict(op="post", **request(r)) for _ in range(k)] + go("eth", 3 * k + 3) + go("send", 6 * k)
        for q in range(1, k + 1):
            res = result(r)
            ops.append(dict(op="mine", n=q, res=res, len=len(res), epoch=r.choice([95, 99, 100]), round=r.choice([0, 1])))
        ops += go("wit", r.choice([2 * k, 4 * k, 6 * k]))
        ops += go("rep", 2) + go("rep", 8 * k, r.choice([0.2, 0.5, 0.8]), r.choice([("refused",), HOWS]))
        if r.random() < 0.3:
            ops += go("wit", 3) + [dict(op="go", a="rep", i=r.choice([1, 2]), how="ok") for _ in range(20)]
        out.append(dict(id=i, cfg=dict(batch=r.choice([4, 16, 16]), skip=0), ops=ops))
    return out


def interleavings(c, cfg, limit):
    """What TLC explored, as scripts for the real actors, whose traces are then checked."""
    seen = []
    c.design("MC_Bridge", cfg, emit=seen.append)
    n = len(seen)
    if n > limit:
        seen = [seen[i] for i in sorted(c.rng.sample(range(n), limit))]
    c.validate("bridge", "Trace_Bridge", [dict(id=i, cfg=dict(batch=1 if "two" not in cfg else 2, skip=0), ops=h) for i, h in enumerate(seen)], probe=False)
    c.cov["models"][-1].update(scripts_emitted=n, scripts_run=len(seen))


def bridge(c):
    c.build("bridge")
    k = 10 if c.thorough else 1
    interleavings(c, "MC_Bridge.cfg", 2000 * k)
    interleavings(c, "MC_Bridge_two.cfg", 600 * k)
    c.design("MC_Bridge", "MC_Bridge_live.cfg")
    if c.thorough:
        for x in ("gg", "gj", "jr"):
            c.design("MC_Bridge", f"MC_Bridge_{x}.cfg", timeout=1800)
    c.validate("bridge", "Trace_Bridge", scripts(c.rng, 700 * k, 160) + batches(c.rng, 300 * k))
    c.assumptions += ["the contract and the node of Witnet are stand-ins that answer as the interface says; the actor system is a deterministic one: an actor runs until it waits for an answer",
                      "what is written to the database is on the disk when the step is over; a crash loses all the rest", "a tally is final", "query numbers fit what the contract promises: they are given one after another"]
