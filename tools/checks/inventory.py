"""What a node keeps, and finds again: spec/Inventory.tla."""
TXS = [[8, 1, 9, 2, 3, 4, 5], [16, 9, 1, 17, 10, 11, 19, 12, 20, 13, 21], [24, 1, 2, 3, 4, 5, 6, 14, 7, 15], [24, 33, 25, 17, 9, 1, 18, 14, 22, 23], [8], [32, 1, 3, 11, 19, 27]]
KINDS = ["mint", "vt", "dr", "commit", "reveal", "tally", "stake", "unstake"]
SUPERS = [1, 2, 9, 10, 2_000_000_000]
KEYS = ["SUPERBLOCK-1", "SUPERBLOCK", "chain-2-key", "peers-1-key", "z"]


def item(r):
    k = r.choice(["block", "block", "block", "tx", "super"])
    if k == "block":
        return dict(k=k, n=r.randint(1, 6))
    if k == "super":
        return dict(k=k, n=r.choice(SUPERS), v=r.randint(1, 2))
    n = r.randint(1, 33)
    b = r.choice([i + 1 for i, t in enumerate(TXS) if n in t] + [r.randint(1, 6), 77])
    if b != 77 and n in TXS[b - 1] and r.random() < 0.7:
        p = dict(b=b, k=KINDS[n % 8], i=[t for t in TXS[b - 1] if t % 8 == n % 8].index(n))
    else:
        p = dict(b=b, k=r.choice(KINDS), i=r.choice([0, 0, 1, 2, 7]))
        if p["k"] == "mint":
            p["i"] = 0
    return dict(k=k, n=n, p=p)


def scripts(r, n, length):
    out = []
    for i in range(n):
        ops = []
        # what cannot be read hides what was written when the database failed: one or the other
        spoil = r.random() < 0.5
        bad = r.choice([0, 0.1, 0.3])
        hand = r.random() < 0.5
        while len(ops) < length:
            f = r.randint(1, 3) if r.random() < bad else 0
            x = r.random()
            if x < 0.35:
                es = [item(r) for _ in range(r.choice([0, 1, 1, 1, 2, 3, 5]))]
                if not hand:
                    es = [e for e in es if e["k"] != "tx"]
                o = dict(op="add", es=es, one=r.random() < 0.5, fail=0 if spoil or r.random() >= bad else r.choice([1, 1, 2, 3, 4, 5, 8, 12, 20]))
            elif x < 0.6:
                k = r.choice(["block", "tx", "tx", "super", "chain"])
                o = dict(op="get", k=k, n=dict(block=r.choice([1, 2, 3, 4, 5, 6, 77]), tx=r.randint(1, 33), super=r.choice(SUPERS + [3]), chain=0)[k], any=r.random() < 0.5 and k != "chain", fail=f)
            elif x < 0.68:
                o = dict(op="blocks", ns=[r.randint(1, 6) for _ in range(r.choice([0, 1, 3, 6]))], fail=f)
            elif x < 0.73:
                o = dict(op="supers", fail=0)
            elif x < 0.78:
                o = dict(op="old", n=r.choice([1, 2, 5]), fail=0)
            elif x < 0.84:
                o = dict(op="garble" if spoil and r.random() < 0.5 else "drop", n=r.randint(1, 6), len=r.choice([0, 3, 259, 260, 262, 263, 264, 500]), fail=0)
            elif x < 0.89:
                o = dict(op="state", n=r.randint(1, 3), fail=f)
            elif x < 0.94:
                o = dict(op="former", n=r.randint(1, 3), v=r.choice([0, 2, 3, 4, 5, 6, 255]), fail=0)
            else:
                o = dict(op=r.choice(["other", "other", "read"]), key=r.choice(KEYS), n=r.randint(0, 9), fail=f)
            ops.append(o)
        out.append(dict(id=i, cfg=dict(memory=r.random() < 0.5), ops=ops))
    return out


def runs(c, cfg, limit):
    """Everything TLC explored, as scripts for the real node, whose traces are then checked."""
    seen = []
    c.design("MC_Inventory", cfg, emit=seen.append)
    n = len(seen)
    if n > limit:
        seen = [seen[i] for i in sorted(c.rng.sample(range(n), limit))]
    c.validate("inventory", "Trace_Inventory", [dict(id=i, cfg=dict(memory=i % 2 == 0), ops=h) for i, h in enumerate(seen)], probe=False)
    c.cov["models"][-1].update(scripts_emitted=n, scripts_run=len(seen))


def inventory(c):
    c.build("inventory")
    k = 6 if c.thorough else 1
    runs(c, "MC_Inventory.cfg", 4000 * k)
    runs(c, "MC_Inventory_ask.cfg", 3000 * k)
    c.validate("inventory", "Trace_Inventory", scripts(c.rng, 400 * k, 60))
    c.assumptions += ["the database is a stand-in that can fail at any call and whose batches are atomic, as those of RocksDB are; the actor system runs one request at a time",
                      "a block that an old node wrote has an eligibility proof of 81 bytes, as all that were mined have"]
