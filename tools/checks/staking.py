"""Stakes ledger against spec/Stakes.tla."""


def canon(o):
    if isinstance(o, dict):
        o = dict(o)
        for k in ("entries",):
            o[k] = sorted(o[k], key=lambda e: (e["v"], e["w"]))
        for k in ("byv", "byw"):
            o[k] = sorted([x[:1] + [sorted(x[1])] + x[2:] for x in o[k]])
        o.pop("same", None)
    return o


def match(s, e, o):
    return o["same"] and canon(e) == canon(o)


def scripts(rng, n, length):
    out = []
    for i in range(n):
        unit = rng.choice([1, 2, 10, 100])
        mn = unit * rng.choice([1, 1, 2, 5])
        scale = unit * rng.choice([1, 3, 20, 500])
        single, multi = list(range(1, rng.randint(2, 6))), list(range(10, 10 + rng.randint(0, 3)))
        wdr = [1, 2, 20, 21][: rng.randint(1, 4)]
        coins, at, top, ops = {}, rng.choice([0, 0, 5, 1000]), 0, []

        def amount():
            return rng.choice([mn, mn, mn - 1, 0, 1, rng.randint(0, 3 * mn), rng.randint(mn, mn + scale), rng.randint(mn, mn + scale)])
        for _ in range(rng.randint(length // 2, length)):
            at += rng.choice([0, 0, 1, 1, 2, 7, 40])
            k = rng.random()
            v = rng.choice(single)
            op = None
            if k < 0.22:
                w, c = rng.choice(wdr), amount()
                key = coins.get(v)
                op = dict(op="stake", v=v, w=w, c=c, at=at)
                if c >= mn and (key is None or key[0] == w):
                    coins[v] = [w, (key[1] if key else 0) + c]
            elif k < 0.36 and multi:
                op = dict(op="add", v=rng.choice(multi), w=rng.choice(wdr), c=amount(), at=at, nonce=rng.random() < 0.7)
            elif k < 0.44 and multi:
                op = dict(op="remove", v=rng.choice(multi), w=rng.choice(wdr), c=amount(), at=at, nonce=rng.random() < 0.7)
            elif k < 0.58:
                cur = coins.get(v)
                w = cur[0] if cur and rng.random() < 0.9 else rng.choice(wdr)
                c = rng.choice([amount(), cur[1], cur[1], cur[1] - mn, cur[1] - mn + 1, cur[1] + 1] if cur else [amount()])
                c = max(0, c)
                op = dict(op="remove", v=v, w=w, c=c, at=at, nonce=rng.random() < 0.8)
                if cur and cur[0] == w:
                    left = cur[1] - c
                    if left == 0:
                        del coins[v]
                    elif left >= mn:
                        cur[1] = left
            elif k < 0.68:
                c = rng.choice([0, 1, rng.randint(0, mn), rng.randint(0, scale)])
                op = dict(op="reward", v=v, c=c, at=at)
                if v in coins:
                    coins[v][1] += c
            elif k < 0.76:
                cur = coins.get(v)
                c = rng.choice([0, 1, rng.randint(0, mn)] + ([cur[1] - mn, cur[1] - mn + 1, cur[1] + 3] if cur else []))
                c = max(0, c)
                if cur:
                    if cur[1] == c:
                        continue
                    if cur[1] - c >= mn:
                        cur[1] -= c
                op = dict(op="reserve", v=v, c=c)
            elif k < 0.84:
                a = at + rng.choice([0, 1, 1, 10])
                f, cp = 1, rng.choice(["m", "x"])
                if rng.random() < 0.3 and at >= top:
                    f, cp, a = rng.choice([2, 3, 10]), "x", at
                if cp == "x":
                    top = max(top, a)
                op = dict(op="reset", v=rng.choice(single + multi), cap=cp, at=a, f=f)
                if f > 1:
                    op["at"] = max(a, top)
            elif k < 0.95:
                op = dict(op="mining", v=rng.choice(single + multi), at=at)
            else:
                op = dict(op="reload")
            if op:
                op.update(q=at + rng.choice([0, 1, 1, 2, 5, 30, 300]), k=rng.choice([0, 1, 2, 3, 5]))
                ops.append(op)
        out.append(dict(id=i, cfg=dict(unit=unit, min=mn), ops=ops))
    return out


def stakes(c):
    c.build("ds")
    c.replay("stakes", "MC_Stakes", "MC_Stakes_thorough.cfg" if c.thorough else None, match=match, limit=None if c.thorough else 60000)
    c.validate("stakes", "Trace_Stakes", scripts(c.rng, 4000 if c.thorough else 400, 50))
    c.assumptions += ["amounts times epochs below 2^31 (TLC's integers); rewards and collateral only for validators with one withdrawer, which is what validated stake transactions produce"]
