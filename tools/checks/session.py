"""A session with a peer, from the bytes it sends to what the node is told: spec/Session.tla."""
JUNK = ["empty", "garble", "nokind", "half", "address", "blockless", "hash", "magic", "cut"]


def start(r):
    return dict(type=r.choice(["in", "in", "out", "out", "feel"]), maxdiff=r.choice([0, 5, 30, 30]), first=r.choice([0, 11, 20]),
                epoch=dict(how=r.choice(["ok"] * 8 + ["early", "err", "dead"]), n=r.choice([10, 11, 12, 20, 25])),
                reg=r.choice(["ok"] * 12 + ["err", "dead"]), beacon=dict(cp=r.choice([8, 9, 10, 12]), sb=r.choice([0, 1, 2]), h=r.choice([1, 2])),
                target=dict(on=r.random() < 0.25, sb=r.choice([0, 1, 2]), h=r.choice([1, 2])), limit=r.choice([0, 1, 2, 3, 5]), sbp=r.choice([0, 1, 1, 2]),
                tmo=r.choice([3, 10, 20]), pub=r.choice([0, 1, 2]))


def entry(r, blocks=False):
    k = "block" if blocks or r.random() < 0.8 else r.choice(["tx", "super"])
    n = r.randint(1, 7) if k == "block" else r.randint(1, 6)
    return dict(k=k, n=n, v=(0 if r.random() < (0.8 if n < 4 else 0.2) else 1) if k == "block" else 0)


def message(r, c):
    m = r.choice(["version", "version", "verack", "verack", "getpeers", "peers", "invreq", "invreq", "inv", "inv", "tx", "super", "vote", "block", "block", "block", "beacon", "beacon"])
    d = dict(n=0)
    if m == "version":
        d = version(r, c, r.random() < 0.3)
    elif m == "peers":
        d = dict(**{"as": [r.randint(0, 9) for _ in range(r.choice([0, 1, 2, 5]))]})
    elif m in ("invreq", "inv"):
        d = dict(es=[entry(r, m == "inv" and r.random() < 0.8) for _ in range(r.choice([0, 1, 2, 3, 4, 6]))])
    elif m == "tx":
        d = dict(n=r.randint(1, 8))
    elif m == "block":
        d = dict(n=r.randint(1, 8))
    elif m in ("super", "vote"):
        d = dict(n=r.randint(1, 9))
    elif m == "beacon":
        d = dict(cp=r.choice([0, 8, 11, 12, 13, 40]), sb=r.choice([0, 1, 2]), h=r.choice([1, 2]))
    return m, d


def version(r, c, odd):
    mine = c["target"] if c["target"]["on"] else c["beacon"]
    ep = c["epoch"]["n"] if c["epoch"]["how"] == "ok" and c["type"] != "feel" else c["first"]
    d = dict(ts=r.randint(-3, 3), cp=r.choice([ep, max(0, ep - 1), 0]), sb=mine["sb"] + r.choice([0, 0, 1]), h=mine["h"], sender=r.choice([0, 1, 2, 3]))
    if odd:
        k = r.choice(["ts", "cp", "sb", "h"])
        if k == "ts":
            d["ts"] = r.choice([-31, -30, -29, -6, -5, -4, 4, 5, 6, 29, 30, 31, 2_000_000_000, -2_000_000_000])
        elif k == "cp":
            d["cp"] = ep + r.choice([0, 1, 1, 5])
        elif k == "sb":
            d["sb"] = r.choice([0, 1, 2, 3])
        else:
            d["h"] = r.choice([1, 2, 3])
    return d


def push(r, m, d, enc=None):
    return dict(op="push", m=m, enc=r.choice([0, 1, 2]) if enc is None else enc, ours=True, d=d)


def answer(r, bad):
    how = "ok" if r.random() >= bad else r.choice(["err", "dead"])
    return dict(op="answer", how=how, n=r.choice([0, 8, 11, 12, 13, 14, 50]), vs=[r.randint(1, 9)] * r.choice([0, 1, 1]), bs=[r.randint(1, 7) for _ in range(r.choice([0, 1, 2, 3]))],
                **{"as": [r.randint(1, 9) for _ in range(r.choice([0, 1, 3]))]})


def flow(r):
    return dict(op="flow", n=r.choice([1, 2, 3, 4, 4, 4, 4, 5, 8, 13, 40]))


def scripts(r, n, length):
    out = []
    for i in range(n):
        ops = []
        bad, junk = r.choice([0.02, 0.1]), r.choice([0, 0.01, 0.03])
        while len(ops) < length:
            c = start(r)
            ops.append(dict(op="start", c=c))
            if r.random() < 0.8:
                ops.append(dict(op="have", es=[dict(k=k, n=n) for k, m in (("block", 7), ("tx", 6), ("super", 6)) for n in range(1, m + 1) if r.random() < 0.8]))
            if r.random() < 0.3:
                ops.append(dict(op="time", by=r.choice([1, 2, 100])))
            hello = [push(r, "version", version(r, c, r.random() < 0.2)), push(r, "verack", dict(n=0))]
            if r.random() < 0.2:
                hello.append(r.choice(hello))
            r.shuffle(hello)
            if r.random() < 0.1:
                hello.pop()
            for h in hello:
                if r.random() < 0.1:
                    ops.append(push(r, *message(r, c)))
                ops.append(h)
                if r.random() < 0.5:
                    ops.append(flow(r))
            ops.append(dict(op="flow", n=40))
            if r.random() < 0.95:
                ops.append(answer(r, bad))
            for _ in range(r.choice([5, 15, 40])):
                x = r.random()
                if x < 0.40:
                    p = push(r, *message(r, c))
                    if r.random() < junk:
                        p = push(r, "junk", dict(kind=r.choice(JUNK)))
                    elif r.random() < junk:
                        p["ours"] = False
                    ops.append(p)
                    if p["m"] == "inv" and r.random() < 0.7:
                        # and what was asked for comes, in some order
                        want = [e["n"] for e in p["d"]["es"] if e["k"] == "block"]
                        r.shuffle(want)
                        for n in want:
                            if r.random() < 0.95:
                                ops.append(push(r, "block", dict(n=8 if n == 2 and r.random() < 0.3 else n)))
                elif x < 0.70:
                    ops.append(flow(r))
                elif x < 0.83:
                    ops.append(answer(r, bad))
                elif x < 0.87:
                    ops.append(dict(op="getpeers", n=r.choice([1, 1, 1, 2, 254, 256])))
                elif x < 0.90:
                    m = r.choice(["tx", "block", "super", "vote", "beacon"])
                    ops.append(dict(op="say", m=m, n=r.randint(1, 8), cp=r.choice([0, 8, 9]), sb=r.choice([0, 1]), h=r.choice([1, 2])))
                elif x < 0.92:
                    ops.append(dict(op="list", m=r.choice(["inv", "invreq"]), es=[entry(r) for _ in range(r.choice([0, 1, 3]))]))
                elif x < 0.95:
                    ops.append(dict(op="time", by=r.choice([1, 2, 3, 4, 10, 11])))
                elif x < 0.98:
                    ops.append(dict(op="epoch", n=r.choice([10, 12, 13, 20])))
                elif x < 0.99:
                    ops.append(dict(op="expire"))
                elif r.random() < 0.3:
                    ops.append(dict(op=r.choice(["close", "hangup"])))
            if r.random() < 0.8:
                ops.append(dict(op=r.choice(["close", "hangup", "expire"])))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def runs(c, cfg, limit):
    """Everything TLC explored, as scripts for the real session, whose traces are then checked."""
    seen = []
    c.design("MC_Session", cfg, emit=seen.append)
    n = len(seen)
    if n > limit:
        seen = [seen[i] for i in sorted(c.rng.sample(range(n), limit))]
    c.validate("session", "Trace_Session", [dict(id=i, cfg={}, ops=h) for i, h in enumerate(seen)], probe=False)
    c.cov["models"][-1].update(scripts_emitted=n, scripts_run=len(seen))


def session(c):
    c.build("session")
    k = 6 if c.thorough else 1
    runs(c, "MC_Session.cfg", 5000 * k)
    runs(c, "MC_Session_met.cfg", 4000 * k)
    c.design("MC_Talk", "MC_Talk.cfg")
    c.design("MC_Talk", "MC_Talk_cut.cfg")
    c.validate("session", "Trace_Session", scripts(c.rng, 500 * k, 150))
    c.assumptions += ["the other actors of the node are stand-ins that say what they are told and answer when the script says so; the actor system is a deterministic one: a session that waits for an answer reads nothing, as actix has it",
                      "frames are cut into pieces at four places; a frame is at most as long as the codec allows",
                      "the wire schema is that of a re-implementation of the protobuf library, generated from the schema of the repository; both schemas of blocks are exercised"]
