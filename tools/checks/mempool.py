"""Transactions pool against spec/TxPool.tla."""


def match(s, e, o):
    if not o["same"]:
        return False
    for k in ("vt", "dr", "st", "ut", "total", "empty", "re_fee"):
        if o[k] != e[k]:
            return False
    for k in ("co", "re", "block_re"):
        if sorted(o[k]) != sorted(e[k]):
            return False
    if "legal" in e:
        return any(sorted(o["ret"][0]) == sorted(x[0]) and o["ret"][1] == x[1] for x in e["legal"])
    if "anyorder" in e:
        return sorted(o["ret"]) == sorted(e["anyorder"])
    return o["ret"] == e["ret"]


WEIGHT = dict(vt=lambda i, o, n: 133 * i + 360 * (o + 1), dr=lambda i, o, n: 133 * i + 36 * o + 146 + 636 * n, st=lambda i, o, n: 133 * i + 36 * o + 105,
              ut=lambda i, o, n: 153)


def tx_scripts(rng, n, length):
    out = []
    for i in range(n):
        outputs = rng.choice([3, 8, 40])
        kinds = rng.choice(["vt", "st ut", "vt dr st ut", "vt dr st ut", "vt dr", "vt st"]).split()
        same_fees = rng.random() < 0.4
        txs, ops, limit = [], [], None
        cs = 0
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            if k < 0.5 or not txs:
                if txs and rng.random() < 0.3:
                    t = rng.choice(txs)
                else:
                    kind = rng.choice(kinds)
                    ins = sorted(rng.sample(range(outputs), rng.choice([1, 1, 2, min(3, outputs)]))) if kind != "ut" else []
                    t = dict(id=len(txs), k=kind, ins=ins, fee=rng.choice([0, 1, 10, 100]) if same_fees else rng.randint(0, 3000),
                             o=rng.choice([0, 1]), n=rng.choice([1, 1, 2]) if kind == "dr" else 0, rich=kind != "dr" or rng.random() < 0.8)
                    txs.append(t)
                if rng.random() < 0.8:
                    ops.append(dict(t, op="unconfirmed"))
                ops.append(dict(t, op="add"))
            elif k < 0.58:
                ops.append(dict(op="limit", max=rng.choice([100000000, 8000, 4000, 2000, 1000, 300, 0]), num=rng.choice([0, 1, 1, 4, 1]), den=rng.choice([1, 1, 2])))
            elif k < 0.66:
                ops.append(dict(rng.choice(txs), op="mined"))
            elif k < 0.71:
                ops.append(dict(op="spent", ins=sorted(rng.sample(range(outputs), rng.choice([1, 2])))))
            elif k < 0.75:
                kk = rng.choice(["st", "ut"])
                ops.append(dict(op="invalid", k=kk, ids=sorted({rng.choice(txs)["id"] for _ in range(rng.randint(0, 4))})))
            elif k < 0.77:
                ops.append(dict(op="clearkind", k=rng.choice(["st", "ut"])))
            elif k < 0.78:
                ops.append(dict(op="clear"))
            elif k < 0.81:
                ops.append(dict(op="epoch"))
            elif k < 0.83:
                ops.append(dict(op="reorg"))
            elif k < 0.84:
                ops.append(dict(op="minfee", v=rng.choice([0, 5, 500])))
            elif k < 0.86:
                ops.append(dict(op="dr", dr=rng.randint(1, 4), n=rng.randint(1, 3), f=rng.choice([0, 1, 50])))
            elif k < 0.94:
                cs += 1
                ops.append(dict(op="commit", dr=rng.randint(1, 4), who=rng.randint(1, 6), id=10000 + cs, ins=sorted(rng.sample(range(100, 112), rng.choice([1, 1, 2])))))
            elif k < 0.95:
                ops.append(dict(op="clearcommits"))
            elif k < 0.96:
                ops.append(dict(op="minecommits"))
            elif k < 0.985:
                cs += 1
                ops.append(dict(op="reveal", dr=rng.randint(1, 4), who=rng.randint(1, 6), id=20000 + cs))
            elif k < 0.992:
                rs = [x for x in ops if x["op"] == "reveal"]
                if rs:
                    r = dict(rng.choice(rs))
                    # the pool is told of reveals in blocks, which may be ones it turned down
                    ops.append(dict(r, op="revealmined"))
            else:
                ops.append(dict(op="finish", dr=rng.randint(1, 4)))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def pool(c):
    c.build("ds")
    for n in "abcd":
        c.replay("txpool", "MC_TxPool", f"MC_TxPool_{n}.cfg", match=match, limit=None if c.thorough else 40000)
    c.validate("txpool", "Trace_TxPool", tx_scripts(c.rng, 3000 if c.thorough else 500, 100))
    c.assumptions += ["the node asks whether the pool has a transaction before inserting it; vt_retain (dead code) is not covered"]
