"""What a node owns and spends: spec/Spending.tla."""
BIG = 2147483647
RAD = 16   # of a request without sources


def spending(rng, n, length):
    out = []
    for i in range(n):
        whole = rng.random() < 0.3   # in units of a tenth of a wit: only then the least that witnesses own is reached
        cfg = dict(unit=10**8 if whole else 1, patience=rng.choice([1, 3, 10]), cached=rng.random() < 0.5, floor=1000 if whole else BIG)
        many = rng.choice([6, 12, 40])
        vals = rng.choice([[1, 2, 3], [5, 10, 1000], [100, 101, 5000, 20000], [1], [700, 800, 1300]])
        t, made, ops = 10, 0, []

        def pays(k):
            return [[rng.choice([1, 1, 1, 2, 3]), rng.choice(vals), rng.choice([0, 0, 0, t, t + 1, t + 4, 2000000000])] for _ in range(k)]

        ops.append({"op": "mine", "ks": [], "pays": pays(many)})
        rel = not whole and rng.random() < 0.6
        worth = sum(vals) / len(vals) * many * 0.6
        for _ in range(length):
            k = rng.random()
            if k < 0.5:
                kind = rng.choice(["vt", "vt", "dr", "st", "co"])
                fee = rng.choice([0, 0, 1, 2, 5, rng.choice(vals), int(worth * rng.random())])
                if kind == "co":
                    fee = rng.choice([0, 1, rng.choice(vals), int(worth * rng.random() / 2)])
                amount = int(rng.choice([0, 1, rng.choice(vals), worth * rng.random() / 3, worth * rng.random(), worth * 2]))
                if rng.random() < 0.02:
                    amount = BIG
                if rng.random() < 0.02:
                    fee = BIG
                relative = rel and kind != "co" and rng.random() < 0.7
                if relative:
                    fee = rng.choice([0, 1, 1, 2, 3, 4, 8]) if max(vals) < 5000 else rng.choice([1, 4, 20, 33])
                parts = rng.choice([0, 1, 1, 2, 3])
                outs = []
                for p in range(parts):
                    v = amount if p == parts - 1 else rng.randint(0, min(amount, 10**6)) if amount else 0
                    amount = max(0, amount - v) if amount != BIG else amount
                    outs.append([rng.choice([1, 2, 2, 3]), v, rng.choice([0, 0, 7])])
                w = rng.choice([0, 1, 2, 4])
                small = {"vt": 133 + 360 * (parts + 1), "dr": 133 + 36 + RAD + 30 + 636 * w + 100, "st": 133 + 36 + 105, "co": 0}[kind]
                mx = 4294967295 if kind == "co" else small + rng.choice([-1, 0, 132, 133, 134, 266, 266, 97, 400, 1000, 20000, 20000]) if rng.random() < 0.5 else 20000
                if kind == "st" and mx < small:
                    mx = small
                ops.append({"op": "make", "kind": kind, "outs": outs, "stake": sum(o[1] for o in outs) if sum(o[1] for o in outs) < BIG else BIG,
                            "dr": dict(w=w, reward=rng.choice([0, 1, rng.choice(vals)]), fee=rng.choice([0, 1, 2]), rad=RAD), "rel": relative, "fee": fee,
                            "by": "small" if kind == "co" else "any" if kind == "dr" else rng.choice(["big", "small", "any"]),
                            "from": 0 if kind in ("co", "dr") else rng.choice([0, 0, 0, 1, 1, 2]), "t": t,
                            "limit": rng.choice([0, 0, 1, 3, 100]) if kind == "co" else -1, "max": min(mx, BIG) if kind != "co" else BIG, "dry": rng.random() < 0.25})
                made += 1
            elif k < 0.7:
                ops.append({"op": "mine", "ks": [rng.randint(1, max(1, made // 2 + 1)) for _ in range(rng.choice([0, 1, 2, 4]))], "pays": pays(rng.choice([0, 1, 2, 4]))})
            elif k < 0.75:
                ops.append({"op": "leak", "is": [rng.randint(1, 60) for _ in range(4)]})
            elif k < 0.82:
                ops.append(dict(op="persist"))
            elif k < 0.84:
                ops.append(dict(op="again"))
            elif k < 0.9:
                ops.append({"op": "look", "a": rng.choice([1, 1, 2, 3]), "own": rng.random() < 0.5, "t": t, "limit": rng.choice([0, 1, 3, 5])})
            else:
                t += rng.choice([1, 1, 2, 5, 11])
        out.append(dict(id=i, cfg=cfg, ops=ops))
    return out


def matches(s, e, o):
    return "panic" not in o and (e is None or all(o[k] == v for k, v in e.items()))


def spend(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("spend", "MC_Spending", f"MC_Spending{t}.cfg", match=matches)
    k = 8 if c.thorough else 1
    c.validate("spend", "Trace_Spending", spending(c.rng, 600 * k, 40))
    c.assumptions += ["numbers below 2^31, and the biggest of 64 bits", "what is made is not signed", "the pool is that of C20, on a storage in memory"]
