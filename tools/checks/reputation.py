IDS = ["a", "b", "c", "d", "e", "f", "g", "h"]


def trs_scripts(rng, n, length):
    out = []
    for i in range(n):
        ids = IDS[: rng.randint(1, len(IDS))]
        big = rng.random() < 0.3
        hi = 10000 if big else 12
        alpha, ops, last = rng.randint(0, 3), [], 0
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            if k < 0.45:
                # mostly in order, now and then late
                e = last + rng.choice([0, 0, 1, 1, 2, 5]) if rng.random() < 0.93 else max(0, last - rng.randint(1, 3))
                last = max(last, e)
                d = [dict(id=rng.choice(ids), v=rng.choice([0, 1, rng.randint(0, hi)])) for _ in range(rng.choice([0, 1, 1, 2, 3, 5, 8]))]
                ops.append(dict(op="gain", e=e, d=d))
            elif k < 0.65:
                alpha = max(0, alpha + rng.choice([-1, 0, 1, 1, 2, 4])) if rng.random() < 0.8 else last
                ops.append(dict(op="expire", a=alpha))
            elif k < 0.94:
                p = []
                for _ in range(rng.choice([1, 1, 1, 2, 3, 5])):
                    kind = rng.choice(["frac", "frac", "sub", "sub", "min", "min"])
                    f = dict(id=rng.choice(ids), kind=kind, d=1)
                    f["n"] = rng.randint(0, 8) if kind != "frac" else rng.randint(0, 3)
                    if kind == "frac":
                        f["d"] = rng.randint(max(1, f["n"]), 4)
                    elif big:
                        f["n"] = rng.choice([f["n"], rng.randint(0, 2 * hi)])
                    p.append(f)
                if rng.random() < 0.08:
                    p.insert(rng.randint(0, len(p)), dict(id=rng.choice(ids), kind="grow", n=rng.randint(0, 3), d=1))
                ops.append(dict(op="penalize", p=p))
            elif k < 0.97:
                ops.append(dict(op="reload"))
            elif k < 0.99:
                ops.append(dict(op=rng.choice(["rebuild", "backwards"])))
            else:
                ops.append(dict(op="clear"))
                last = 0
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def wide_trs(rng, n):
    """Many identities, many packets, penalties of many at once, and long silences that end."""
    out = []
    for i in range(n):
        few = rng.random() < 0.5
        ids = [f"w{j}" for j in range(rng.choice([2, 3] if few else [20, 40, 70]))]
        packets = rng.choice([70, 150, 300]) if few else rng.choice([6, 20])
        size = 1 if few else len(ids)
        ops, e = [], 0
        for j in range(packets):
            e += rng.choice([1, 1, 1, 2])
            ops.append(dict(op="gain", e=e, d=[dict(id=x, v=rng.randint(1, 9)) for x in rng.sample(ids, rng.randint(1, size))]))
        part = e // 3
        for turn in range(3):
            # deep enough to reach the oldest packets
            who = rng.sample(ids, rng.randint((len(ids) + 1) // 2, len(ids)))
            ops.append(dict(op="penalize", p=[dict(id=x, kind="min", n=rng.choice([0, 1, 3, 30]), d=1) if rng.random() < 0.6 else dict(id=x, kind="frac", n=1, d=rng.randint(2, 4)) for x in who]))
            if rng.random() < 0.5:
                ops.append(dict(op=rng.choice(["reload", "rebuild"])))
            part += rng.choice([1, e // 3, e // 3])
            ops.append(dict(op="expire", a=part))
            ops.append(dict(op="gain", e=e + 1, d=[dict(id=x, v=rng.randint(1, 9)) for x in rng.sample(ids, rng.randint(1, size))]))
        ops.append(dict(op="expire", a=e + rng.choice([0, 1])))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def trs(c):
    c.build("core")
    c.replay("trs", "MC_Trs", "MC_Trs_thorough.cfg" if c.thorough else None)
    c.validate("trs", "Trace_Trs", trs_scripts(c.rng, 4000 if c.thorough else 400, 60))
    c.validate("trs", "Trace_Trs", wide_trs(c.rng, 80 if c.thorough else 8))
    c.assumptions += ["reputation amounts stay below 2^31 (TLC's integers); overflow of the amount type is out of scope"]


def ars_scripts(rng, n, length):
    out = []
    for i in range(n):
        cap = rng.choice([1, 1, 2, 3, 5, 5, 8, 10, 40, 2000])
        ids = IDS[: rng.randint(1, len(IDS))]
        e, ops = 0, []
        mixed = rng.random() < 0.3
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            who = [rng.choice(ids) for _ in range(rng.choice([0, 1, 1, 2, 3, 6]))]
            if k < (0.4 if mixed else 0.02):
                ops.append(dict(op="push", ids=who))
            elif k < 0.95:
                t = rng.random()
                if t < 0.05:
                    # a long silence: around the widths in which a difference could be cut
                    ee = min(e + rng.choice([2**8, 2**16, 2**24]) * rng.choice([1, 1, 2, 3]) + rng.choice([-1, 0, 1, 2]), 2**31 - 1)
                elif t < 0.85:
                    ee = e + rng.choice([1, 1, 1, 2, 3, cap - 1, cap, cap + 1, 2 * cap, 5, 8])
                elif t < 0.95:
                    ee = max(0, e - rng.choice([0, 1, 2, 7]))
                else:
                    ee = 0
                e = max(e, ee)
                ops.append(dict(op="update", ids=who, e=ee))
            elif k < 0.98:
                ops.append(dict(op="reload"))
            else:
                ops.append(dict(op="clear"))
        out.append(dict(id=i, cfg=dict(cap=cap), ops=ops))
    return out


def wide_ars(rng, n):
    """Windows of more epochs than a byte counts, filled; and of many identities."""
    out = []
    for i in range(n):
        cap = rng.choice([256, 257, 300, 515])
        ids = IDS[:2] if i % 2 == 0 else [f"w{j}" for j in range(50)]
        e, ops = 0, []
        for j in range(rng.choice([cap - 1, cap, cap + 5]) if i % 2 == 0 else 40):
            e += rng.choice([1, 1, 1, 1, 1, 1, 1, 2]) if i % 2 else 1
            ops.append(dict(op="update", e=e, ids=["a"] + ["b"] * (rng.random() < 0.2) if i % 2 == 0 else rng.sample(ids, rng.randint(0, 50))))
            if rng.random() < 0.005:
                ops.append(dict(op="reload"))
        for j in range(3):
            e += rng.choice([1, 3, cap - 2, cap // 2])
            ops.append(dict(op="update", e=e, ids=[rng.choice(ids)]))
        out.append(dict(id=i, cfg=dict(cap=cap), ops=ops))
    return out


def ars(c):
    c.build("core")
    c.replay("ars", "MC_Ars", "MC_Ars_thorough.cfg" if c.thorough else None)
    c.validate("ars", "Trace_Ars", ars_scripts(c.rng, 4000 if c.thorough else 400, 80))
    c.validate("ars", "Trace_Ars", wide_ars(c.rng, 40 if c.thorough else 6))
    c.assumptions += ["window of at least one epoch; fewer than 2^16 epochs of activity inside the window"]
