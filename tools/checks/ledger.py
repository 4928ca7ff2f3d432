"""Unspent outputs against spec/Utxo.tla."""


def canon_utxo(o):
    o = dict(o)
    for k in ("all", "disk", "seen", "dated"):
        o[k] = sorted(o[k])
    o["own"] = sorted([x[0], sorted(x[1]), sorted(x[2])] for x in o["own"])
    o.pop("ok", None)
    return o


def match_utxo(s, e, o):
    return o["ok"] and canon_utxo(e) == canon_utxo(o)


def utxo_scripts(rng, n, length):
    out = []
    for i in range(n):
        owners = rng.randint(1, 4)
        ids = rng.choice([4, 9, 25, 60])
        cfg = dict(owners=owners, backend=rng.choice(["hash", "rocks"]), cached=rng.random() < 0.8)
        # a shadow of the model, to choose operations that are possible
        live, conf, used, usedc, snap, blk, ops, num = set(), set(), set(), set(), None, None, [], 0
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            if blk is not None:
                seen = (live | blk[0]) - blk[1]
                free = [x for x in range(ids) if x not in used and x not in blk[0] | blk[1]]
                if k < 0.45 and free:
                    x = rng.choice(free)
                    blk[0].add(x)
                    ops.append(dict(op="create", id=x, o=rng.randint(1, owners), v=rng.choice([0, 1, 7, 1000]), n=rng.choice([0, 0, 0, num + 5])))
                elif k < 0.78 and seen:
                    x = rng.choice(sorted(seen))
                    if x in blk[0]:
                        blk[0].discard(x)
                    else:
                        blk[1].add(x)
                    ops.append(dict(op="spend", id=x))
                elif k < 0.94:
                    live, used = seen, used | blk[0]
                    blk = None
                    ops.append(dict(op="consolidate"))
                elif k < 0.97:
                    blk = None
                    ops.append(dict(op="discard"))
                else:
                    live, used, snap, blk = set(conf), set(usedc), None, None
                    ops.append(dict(op="restart"))
                continue
            if k < 0.5:
                num += rng.choice([1, 1, 2])
                blk = (set(), set())
                ops.append(dict(op="begin", n=num))
            elif k < 0.65:
                snap = (set(live), set(used))
                ops.append(dict(op="snapshot"))
            elif k < 0.8 and snap:
                conf, usedc = snap
                snap = None
                ops.append(dict(op="persist"))
            elif k < 0.86:
                conf, usedc, snap = set(live), set(used), None
                ops.append(dict(op="persistall"))
            elif k < 0.92:
                live, used, snap = set(conf), set(usedc), None
                ops.append(dict(op="restart"))
            elif k < 0.95:
                live, used, snap = set(conf), set(usedc), None
                ops.append(dict(op="fail"))
            elif k < 0.97:
                live, used, conf, usedc, snap = set(), set(), set(), set(), None
                ops.append(dict(op="wipe"))
            elif live == conf and ops and ops[-1]["op"] in ("restart", "persistall", "wipe", "fail"):
                xs = [x for x in range(ids) if x not in used][: rng.randint(0, 4)]
                ops.append(dict(op="migrate", items=[[x, rng.randint(1, owners), rng.choice([0, 3, 8]), rng.randint(1, 9)] for x in xs]))
                conf |= set(xs)
                live, used, usedc, snap = set(conf), used | set(xs), usedc | set(xs), None
        out.append(dict(id=i, cfg=cfg, ops=ops))
    return out


def utxo(c):
    c.build("ds")

    def pre(s):
        s["cfg"].update(backend=["hash", "rocks"][s["id"] % 2], cached=s["id"] % 4 < 3)
        return s
    c.replay("utxo", "MC_Utxo", "MC_Utxo_thorough.cfg" if c.thorough else None, match=match_utxo, limit=None if c.thorough else 50000, pre=pre)
    c.validate("utxo", "Trace_Utxo", utxo_scripts(c.rng, 3000 if c.thorough else 400, 120))
    c.assumptions += ["outputs are created once (transaction identifiers are unique); the disk writes a batch entirely or not at all"]
