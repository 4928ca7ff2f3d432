"""Upgrades, the clock and the versions: spec/Tapi.tla, spec/Clock.tla and spec/Versions.tla."""


def asked(s, e, o):
    """Only what is asked is expected; the words of TLC's sets come in any order."""
    if e is None:
        return "panic" not in o
    if "obs" in e:
        x = e["obs"]
        return all(o[k] == x[k] for k in ("slots", "pending", "len", "last")) and sorted(o["force"]) == sorted(x["force"]) \
            and all(sorted(a) == sorted(b) for k in ("voting", "on") for a, b in zip(o[k], e[k], strict=True))
    if "epochs" in e:
        return o["epochs"] == e["epochs"] and o["at"] == e["at"]
    return all(o[k] == e[k] for k in e)


def word(n):
    return list(n.to_bytes(8, "big"))


NAMES = ["a", "b", "c", "d", "e", "WIP0022", "WIP0028", "WIP0014-0016", "WIP0027"]


def votes(rng, n, length):
    out = []
    for i in range(n):
        ops, e, used = [], rng.choice([0, 0, 1, 100, 192000 - 30, 376320 - 10, 445440 - 3, 549141 - 20, 683541 - 5, 1059861 - 9, 1708901 - 14, 3048960 - 40]), {}
        avoid = rng.sample(NAMES, rng.choice([0, 0, 0, 1, 2]))
        eager = rng.choice([0.5, 0.8, 0.85, 0.9, 1])
        for b in rng.sample(range(34), rng.choice([1, 2, 4])) if rng.random() < 0.9 else []:
            used[b] = 1
            ops.append(dict(op="insert", b=b, w=rng.choice(NAMES), init=e + rng.randint(0, 5), period=rng.choice([1, 2, 4, 5, 5, 6, 7, 10, 20]), end=e + rng.choice([3, 20, 50, 300, 1000])))
        for _ in range(rng.randint(length // 2, length)):
            r = rng.random()
            if r < 0.02:
                ops.append(dict(op="load", env=rng.choice(["main", "test", "dev"])))
                used = {}
            elif r < 0.06:
                b = rng.randrange(34)
                used[b] = 1
                ops.append(dict(op="insert", b=b, w=rng.choice(NAMES), init=max(0, e + rng.randint(-5, 5)), period=rng.choice([1, 2, 5, 5, 10]), end=e + rng.choice([3, 20, 50, 300])))
            elif r < 0.09:
                ops.append(dict(op="remove", b=rng.choice(list(used) or [0]) if rng.random() < 0.8 else rng.randrange(40)))
            elif r < 0.2:
                ops.append(dict(op="ask", eps=[max(0, e + rng.choice([-21, -20, -3, -1, 0, 1, 2, 5, 15, 20, 21, 22])) for _ in range(4)] + [rng.choice([0, 191999, 192000, 376319, 376320, 445439, 445440, 549140, 549141, 683540, 683541, 1059860, 1059861, 1708900, 1708901, 3048959, 3048960, 5000000]) for _ in range(3)]
                                + [rng.choice([750, 1344, 44165, 45509, 144200, 145500, 224300, 304896]) + rng.choice([-1, 0, 1]) for _ in range(2)]))
            else:
                e += rng.choice([1, 1, 1, 1, 1, 1, 2, 3, 7, 30]) if rng.random() < 0.3 else 1
                ops.append(dict(op="vote", bits=[b for b in used if b < 32 and rng.random() < eager], e=e, at=e if rng.random() < 0.8 else e + rng.randint(0, 9), avoid=avoid))
        ops.append(dict(op="ask", eps=[e + x for x in range(-3, 23)]))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def clocks(rng, n, length):
    out = []
    for i in range(n):
        p, z = rng.choice([1, 2, 3, 20, 45, 90, 30000, 65535]), rng.choice([0, 1, 1000, 1602666000, 1 << 33])
        top = ((1 << 32) - 1) // p          # the last epoch that a clock of 32 bits can tell
        span = rng.choice([20, 1000, 2000000])
        ops, v2 = [], None
        for _ in range(length):
            if v2 is None and rng.random() < 0.2:
                e = rng.choice([0, 1, rng.randint(0, span), rng.randint(0, span)])
                if rng.random() < 0.1 and top < (1 << 31) - 9:
                    e = top + 1
                p2 = rng.choice([x for x in (1, 2, 20, 45, p, 7) if x <= p])
                ops.append(dict(op="begin", p=p2, e=e))
                if e <= top:
                    v2 = (p2, e)
            else:
                at = v2[1] if v2 else span
                es = [rng.randint(0, span), max(0, at + rng.randint(-2, 2)), max(0, at + rng.randint(-2, 2)), at + rng.randint(0, span)]
                es += [min(top + rng.choice([-1, 0, 1, 2]), (1 << 31) - 2), (1 << 31) - 1 if p > 2 else 5]
                ts = []
                for e in es[:5]:
                    t = z + p * e if not v2 or e < v2[1] else z + p * v2[1] + v2[0] * (e - v2[1])
                    ts += [t, t - 1 if t else 0, t + rng.randint(0, p)]
                ts += [max(0, z - rng.randint(0, 5)), z + rng.randint(0, p * span), z + (1 << 32) - 1, z + (1 << 32) + (0 if p > 1 else span), z + (1 << 34)][:2 if v2 and v2[0] == 1 else 5]
                rs = [dict(first=word(rng.choice([0, 1, 250 * 10**9, 50 * 10**9, rng.randint(0, 1 << 38)])), e=rng.choice([0, rng.randint(0, 1 << 20), (1 << 31) - 1]), halving=rng.choice([1, 2, 35000, 3500000, rng.randint(1, 1 << 22)])) for _ in range(3)]
                for r in rs:
                    k = rng.choice([1, 2, 5, 40, 63, 64])
                    if rng.random() < 0.6 and r["halving"] * k < 1 << 30:
                        r["e"] = r["halving"] * k + rng.choice([-1, 0, 1])
                ops.append(dict(op="ask", es=es, ts=[word(t) for t in ts], rs=rs))
        out.append(dict(id=i, cfg=dict(p=p, z=word(z)), ops=ops))
    return out


def versions(rng, n, length):
    out = []
    for i in range(n):
        ops, known = [], {}
        top = rng.choice([5, 30, 4000, 300000])
        for _ in range(length):
            r = rng.random()
            if r < 0.35 and len(known) < 4:
                v = rng.choice([v for v in range(1, 5) if v not in known])
                known[v] = rng.randint(0, top)
                ops.append(dict(op="register", v=v, e=known[v], s=rng.choice([1, 20, 45, 90])))
            elif r < 0.4:
                ops.append(dict(op="clear"))
                known = {}
            elif r < 0.47:
                ops.append(dict(op="use", v=rng.randint(1, 4)))
            elif r < 0.6:
                ops.append(dict(op="refresh", e=max(0, rng.choice([*known.values(), rng.randint(0, top * 2)]) + rng.randint(-1, 1))))
            elif r < 0.7:
                ops.append(dict(op="reload"))
            else:
                es = [max(0, e + d) for e in known.values() for d in (-1, 0, 1)] + [0, rng.randint(0, top * 2), 2000000000]
                fs = []
                for e in es:
                    if e < 2000000000:
                        fs += [[e, max(0, e - rng.choice([0, 1, 2, 5, 12, 13, 14, 15, 60]))], [e, e + rng.choice([0, 1, 5])]]
                ops.append(dict(op="ask", es=es, fs=fs))
        out.append(dict(id=i, cfg=dict(z=rng.choice([0, 1000, 1602666000]), p=rng.choice([1, 20, 45]), env=rng.choice(["main", "test", "dev"])), ops=ops))
    return out


def upgrades(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("tapi", "MC_Tapi", f"MC_Tapi{t}.cfg", match=asked)
    c.replay("clock", "MC_Clock", match=asked)
    c.replay("versions", "MC_Versions", f"MC_Versions{t}.cfg", match=asked)
    k = 10 if c.thorough else 1
    c.validate("tapi", "Trace_Tapi", votes(c.rng, 400 * k, 80))
    c.validate("clock", "Trace_Clock", clocks(c.rng, 300 * k, 8))
    c.validate("versions", "Trace_Versions", versions(c.rng, 500 * k, 25))
    c.assumptions += ["epochs below 2^31 (TLC's integers) and, once wit/2 has begun, within 2^32 seconds of its beginning",
                      "a version is registered once between two clearings, and blocks are counted by ascending epochs, as the node does"]
