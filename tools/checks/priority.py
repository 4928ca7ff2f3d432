"""What a node advises to pay: spec/Priority.tla."""
KINDS = ["dr", "vt", "st", "ut"]


def scripts(r, n, length):
    out = []
    for i in range(n):
        cap = r.choice([20, 21, 25, 40, 60, 2047])
        # the levels of a kind: a base and fifty steps; where a block may have none of a kind, the base is nothing
        kinds = {}
        for k in KINDS:
            step = r.choice([0, 1, 1, 2, 7, 40])
            kinds[k] = dict(step=step, base=0 if r.random() < 0.6 else r.choice([1, 3, 50, 1000]), crowd=r.choice([1, 2, 3]), mid=r.choice([0, 10, 25, 50]))
        ops = []
        for b in range(length):
            txs = []
            for k, c in kinds.items():
                j = 0 if b % 10 == 0 else 50 if b % 10 == 5 else r.choice([r.randint(0, 50), c["mid"], c["mid"], min(50, c["mid"] + r.randint(0, 3))])
                lo = c["base"] + c["step"] * j
                if lo == 0:
                    if r.random() < 0.3:
                        txs.append(dict(k=k, fee=0, w=r.randint(1, 9)))
                    continue
                few = [lo] + [lo + r.choice([0, 1, 2, 50]) for _ in range(r.randint(0, c["crowd"]) if r.random() < 0.7 else 0)]
                for p in few:
                    w = r.choice([1, 2, 133, 4000])
                    txs.append(dict(k=k, fee=p * w, w=w))
            for k in ["commit", "reveal", "tally", "mint"]:
                if r.random() < 0.2:
                    txs.append(dict(k=k, fee=r.randint(0, 10 ** 6), w=1))
            r.shuffle(txs)
            ops.append(dict(op="block", txs=txs))
            if b in (0, 7, 18, 19, 20) or r.random() < 0.15:
                ops.append(dict(op="ask", secs=r.choice([1, 20, 45, 45, 45, 90, 600, 65535, 65536])))
        ops.append(dict(op="ask", secs=45))
        out.append(dict(id=i, cfg=dict(cap=cap), ops=ops))
    return out


def priority(c):
    c.build("val")
    k = 5 if c.thorough else 1
    c.design("MC_Priority", "MC_Priority.cfg")
    c.validate("priority", "Trace_Priority", scripts(c.rng, 130 * k, 45))
    c.validate("priority", "Trace_Priority", scripts(c.rng, 12 * k, 160), probe=False)
    c.assumptions += ["priorities are such that the fifty steps between the least and the most fall on whole numbers: where a floating-point quotient is rounded one way or the other is not decided",
                      "a transaction without a fee is the only one of its kind in its block"]
