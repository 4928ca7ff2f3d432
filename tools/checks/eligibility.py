"""Who may mine and witness: spec/Eligibility.tla, spec/Candidates.tla and spec/RepEngine.tla."""


def match(s, e, o):
    return all(o[k] == v for k, v in e.items()) and o.get("same", True)


def scripts(rng, n, length):
    out = []
    for i in range(n):
        mn = rng.choice([2, 2, 4, 10, 20000])
        vals = list(range(1, rng.choice([2, 3, 4, 6, 9, 14])))
        coins, at, ops = {}, rng.choice([0, 0, 5, 1000]), []
        big = rng.choice([1, 3, 20, 500]) if mn < 20000 else 2
        at = min(at, 5) if mn >= 20000 else at
        for _ in range(rng.randint(length // 2, length)):
            at += rng.choice([0, 0, 1, 1, 2, 7, 40])
            v, w = rng.choice(vals), 1
            k = rng.random()
            if k < 0.5:
                op = dict(op="stake", v=v, w=rng.choice([1, 1, 1, 2]), c=rng.choice([mn, mn, mn + 1, mn - 1, rng.randint(mn, mn * big), rng.randint(mn, mn * big)]), at=at)
            elif k < 0.56:
                op = dict(op="add", v=20 + v, w=rng.choice([1, 2, 3]), c=rng.randint(mn, mn * big), at=at)
            elif k < 0.66:
                op = dict(op="remove", v=v, w=1, c=rng.choice([mn, 1, rng.randint(0, mn * big)]), at=at)
            elif k < 0.8:
                op = dict(op="reset", v=v, cap=rng.choice("mx"), at=at + rng.choice([0, 0, 1, 5]))
            else:
                op = dict(op="mining", v=v, at=at)
            ops.append(op)
            if rng.random() < 0.5:
                qs = []
                who = vals + [20 + x for x in vals] if rng.random() < 0.3 else vals
                for _ in range(rng.randint(1, 8)):
                    x = rng.choice(who)
                    if rng.random() < 0.4:
                        qs.append(dict(q="mine", v=x, rf=rng.choice([0, 1, 2, 3, 4, 5, 10, 65535])))
                    else:
                        rounds = rng.choice([1, 2, 4, 4, 10])
                        qs.append(dict(q="wit", v=x, w=rng.choice([1, 2, 2, 3, 3, 4, 5, 10, 100, 65535]), round=rng.randint(0, min(rounds, 5)), rounds=rounds))
                ops.append(dict(op="ask", q=at + rng.choice([0, 1, 1, 2, 5, 30, 300]), qs=qs))
        out.append(dict(id=i, cfg=dict(unit=2, min=mn), ops=ops))
    return out


def candidates(rng, n, length):
    out = []
    for i in range(n):
        ops = []
        for _ in range(length):
            if rng.random() < 0.6:
                t = sorted(rng.randint(0, 12) for _ in range(rng.randint(0, 5)))
                cs = [dict(h=h, rep=rng.choice([0, 0, 1, 2, 900]), vrf=rng.randint(0, 12), act=rng.random() < 0.5, pow=rng.choice([0, 1, 1, 2, 1 << 30]))
                      for h in rng.sample(range(40), rng.randint(1, 6))]
                ops.append(dict(op="order", t=t, v2=rng.random() < 0.5, cs=cs))
            else:
                easy = rng.choice([0, 10, 2000])
                rf = rng.choice([1, 3, 4, 8])
                ops.append(dict(op="slots", n=rng.choice([0, 1, 2, 3, 7, 100, 5000, rng.randint(0, 1 << 22)]), rf=rf, bf=rf + rng.randint(-1, 4), ep=max(0, easy + rng.choice([-1, 0, 1, 50])),
                                diff=rng.choice([0, 1, 2, 3, 100, 2000]), easy=easy, wips=rng.random() < 0.5))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def current(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("elig", "MC_Eligibility", f"MC_Eligibility{t}.cfg", match=match)
    c.replay("cands", "MC_Candidates", match=match)
    c.validate("elig", "Trace_Eligibility", scripts(c.rng, 6000 if c.thorough else 600, 40))
    c.validate("cands", "Trace_Candidates", candidates(c.rng, 6000 if c.thorough else 600, 30))
    c.assumptions += ["powers below 2^31 (TLC's integers)", "the chance that is reported besides the target is compared to a thousandth"]


def said(s, e, o):
    if s["op"] != "ask":
        return o["alpha"] == e["alpha"] and o["extra"] == e["extra"] and sorted(o["bal"]) == sorted(e["bal"]) and sorted(o["keys"]) == sorted(e["keys"])
    return o["same"] and any(o["list"] == x["list"] and sorted(o["elig"]) == sorted(x["elig"]) and o["total"] == x["total"] and o["factors"] == x["factors"] for x in e["any"])


def engines(rng, n, length):
    out = []
    for i in range(n):
        pool = list(range(1, rng.choice([2, 3, 4, 7, 12])))
        k = dict(iss=rng.choice([0, 1, 5, 50]), stop=rng.choice([0, 3, 20, 100000]), life=rng.choice([1, 3, 10, 10000]), pow=rng.choice([0, 1, 1, 2, 20]))
        if i % 2:
            k.update(iss=rng.choice([1, 3]), stop=60)
        alpha, ep, ops, given = 0, 0, [], False
        for _ in range(rng.randint(length // 2, length)):
            x = rng.random()
            if x < 0.35:
                ep += rng.choice([1, 1, 1, 2, 5, 0])
                rs = []
                for w in rng.sample(pool, rng.randint(0, min(5, len(pool)))):
                    rs.append(dict(id=w, t=rng.choice([0, 1, 1, 2]), e=rng.choice([0, 0, 0, 1, 2]), l=rng.choice([0, 0, 0, 1, 2])))
                diff = rng.choice([0, 1, 2, 3, 5, 10])
                ops.append(dict(op="block", miner=rng.choice(pool), own=rng.choice(pool), rs=rs, diff=diff, ep=ep))
                alpha += diff
                given = True
            elif x < 0.45 and not given:
                ops.append(dict(op="gain", e=k["life"] - 1 if rng.random() < 0.5 else 1, d=[dict(id=w, v=rng.choice([1, 1, 2, 5, 30, 300])) for w in rng.sample(pool, rng.randint(1, len(pool)))]))
            elif x < 0.5:
                ops.append(dict(op="penalize", ps=[dict(kind="frac", id=w, n=rng.choice([0, 1, 2]), d=rng.choice([2, 3])) for w in rng.sample(pool, rng.randint(1, min(3, len(pool))))]))
            elif x < 0.53:
                ops.append(dict(op="expire", a=alpha + rng.choice([0, 1, 3])))
            elif x < 0.6:
                ops.append(dict(op="act", ids=rng.sample(pool, rng.randint(0, len(pool)))))
            elif x < 0.63:
                alpha += rng.choice([0, 1, 4])
                ops.append(dict(op="alpha", a=alpha))
            elif x < 0.66:
                ops.append(dict(op="key", id=rng.choice(pool)))
            elif x < 0.69:
                ops.append(dict(op=rng.choice(["reload", "clear"])))
            else:
                rf = rng.randint(1, 5)
                ops.append(dict(op="ask", first=rng.randint(0, 3), ns=[rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 10, 20, 100, 65535]) for _ in range(4)],
                                qs=[dict(id=rng.choice(pool), n=rng.choice([1, 1, 2, 3, 4, 5, 10]), diff=rng.choice([1, 2, 100, 2000]), wip16=rng.random() < 0.3, fork3=rng.random() < 0.4) for _ in range(3)],
                                ms=[dict(id=rng.choice(pool), rf=rf, bf=rf + rng.randint(0, 4)) for _ in range(2)]))
        out.append(dict(id=i, cfg=dict(cap=rng.choice([1, 2, 5, 100]), k=k), ops=ops))
    return out


def engine(c):
    c.build("val")
    c.replay("repengine", "MC_RepEngine", match=said)
    if c.thorough:
        c.replay("repengine", "MC_RepEngine", "MC_RepEngine_thorough.cfg", match=said)
    c.validate("repengine", "Trace_RepEngine", engines(c.rng, 4000 if c.thorough else 500, 60))
    c.assumptions += ["penalties are powers of one half, which floating point represents", "targets and chances are also reported as fractions, which are compared to 2^-16 and 100/2^15",
                      "the harness computes the hashes that break ties"]
