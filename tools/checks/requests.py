"""Data requests: life cycle against spec/DataReq.tla."""


def canon(v):
    if isinstance(v, list):
        return sorted((canon(x) for x in v), key=repr)
    return v


def match(s, e, o):
    if not o["same"] or ("done" in e and o["done"] != e["done"]):
        return False
    return all(canon(o[k]) == canon(e[k]) for k in ("res", "upto", "ready", "all", "locked")) and \
        canon([x[:4] + [sorted(x[4]), sorted(x[5]), x[6]] for x in o["st"]]) == canon([x[:4] + [sorted(x[4]), sorted(x[5]), x[6]] for x in e["st"]])


def life_scripts(rng, n, length):
    out = []
    for i in range(n):
        extra = rng.choice([0, 1, 3, 3, 20])
        cfg = dict(extra=extra, mincol=rng.choice([1, 100]), eps=sorted(rng.sample(range(60), 4)), vals=rng.choice([1, 8, 40, 100]), div=rng.choice([2, 4]), v2at=rng.choice([20, 20, 1000]))
        ops, drs, ep, nid = [], {}, 0, 0
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            if k < 0.1 or not drs:
                nid += 1
                nn = rng.choice([1, 2, 3, 10, 12, 60000])
                small = nn < 100
                drs[nid] = (nn, set())
                ops.append(dict(op="request", id=nid, ep=ep, n=nn, reward=rng.randint(1, 1000) if small else 1, fee=rng.choice([0, 1, 30]) if small else 0, col=rng.choice([0, 2000])))
                continue
            d = rng.choice(sorted(drs))
            if rng.random() < 0.03:
                d = nid + 5
            nn, cm = drs.get(d, (1, set()))
            who = rng.choice(sorted(cm)) if cm and rng.random() < 0.7 else rng.randint(1, 8)
            if k < 0.3:
                if d in drs and len(cm | {who}) > nn:
                    continue
                cm.add(who)
                ops.append(dict(op="commit", id=d, who=who))
            elif k < 0.5:
                ops.append(dict(op="reveal", id=d, who=rng.choice(sorted(cm)) if cm else 1))
            elif k < 0.58:
                ops.append(dict(op="tally", id=d))
            elif k < 0.66:
                if d in drs:
                    ops.append(dict(op="keep", id=d, who=who))
            elif k < 0.93:
                ep += 1
                ops.append(dict(op="epoch", e=ep))
            elif k < 0.97:
                ops.append(dict(op="finished"))
            else:
                ops.append(dict(op="reload"))
        out.append(dict(id=i, cfg=cfg, ops=ops))
    return out


def life(c):
    c.build("ds")
    c.replay("datareq", "MC_DataReq", "MC_DataReq_thorough.cfg" if c.thorough else None, match=match, limit=400000 if c.thorough else 60000)
    c.validate("datareq", "Trace_DataReq", life_scripts(c.rng, 3000 if c.thorough else 500, 120))
    c.assumptions += ["a block has no more commits for a request than it wants, and reveals only of those who committed (block validation)"]
