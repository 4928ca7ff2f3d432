"""Superblocks: committees, votes, consensus and proofs against spec/Superblock.tla."""

EDGES = [750, 751, 1000, 1343, 1344, 44165, 44166, 45508, 45509, 144200, 144201, 145499, 145500, 224300, 224301, 304895, 304896, 304897, 400000]
FORK2 = 376320


def build(rng, st, idx, ep):
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 20]) if rng.random() < 0.9 else rng.randint(0, 60)
    ars = rng.sample(range(st["pool"]), min(n, st["pool"]))
    blocks, b = [], st["blk"]
    for _ in range(rng.choice([0, 0, 1, 2, 3, 5, 10])):
        b += 1
        blocks.append(dict(id=b, drs=rng.choice([0, 0, 1, 2, 3, 5]), tal=rng.choice([0, 1, 2, 4])))
    st["blk"] = b
    keys = [x for x in ars if rng.random() < 0.8] + rng.sample(range(200, 220), 2)
    size = rng.choice([1, 1, 2, 3, 4, 5, 7, 10, 50, 100])
    sync = []
    if rng.random() < 0.1:
        sync = [rng.choice([1, 2, 3, 5, 50])]
    rng.shuffle(keys)
    return dict(ars=ars, keys=keys, size=size, idx=idx, last=rng.randint(5000, 5004), ep=ep, blocks=blocks, sync=sync)


def fits(st, b):
    """Of an empty list no committee of any number can be drawn"""
    return len(st["ars"]) > 0 or (b["sync"] or [b["size"]])[0] > 0


def player(rng, length):
    env = rng.choice(["dev", "dev", "main", "main", "test"])
    st = dict(pool=rng.choice([6, 12, 60]), blk=0)
    cfg = dict(env=env, a18=rng.choice([100, 1 << 20]), boot=rng.sample(range(st["pool"]), rng.choice([0, 1, 3, 5])))
    idx = rng.choice(EDGES) - 1 if env == "main" and rng.random() < 0.7 else rng.randint(0, 300000)
    epochs = [rng.choice([50, 99, 100, 101, 199, 200, 5000, FORK2 - 1, FORK2, FORK2 + 1])] if env == "main" else [50, 99, 100, 150, 5000]
    st["ars"] = cfg["boot"]
    o = yield cfg
    comm, names, sent, blocks = list(cfg["boot"]), 0, [], []
    tip = 0
    for _ in range(length):
        k = rng.random()
        if k < 0.75 and (comm or rng.random() < 0.3):
            focus = comm or [0]
            if rng.random() < 0.12:
                focus = range(st["pool"])
            cand = [w for w in focus if w < 300] or [0, 1]
            h = rng.choice([tip, tip, tip, names, 100, 101, rng.randint(0, max(names, 0))])
            i = max(0, idx + rng.choice([0, 0, 0, 0, 0, 0, 0, 1, 1, -1, 2]))
            now = idx + (1 if rng.random() < 0.08 else 0)
            v = dict(w=rng.choice(cand), h=h, i=i, s=rng.choice([1, 1, 1, 2]))
            if sent and rng.random() < 0.08:
                v = rng.choice(sent)
            sent.append(v)
            o = yield dict(op="vote", now=now, stored=int(rng.random() < 0.05), **v)
        elif k < 0.8 and blocks and not st["sync"]:
            b = rng.randint(1, len(blocks))
            o = yield dict(op="prove", b=b, k=rng.randint(1, 5), kind=rng.choice(["dr", "tally"]))
        elif k < 0.84:
            big = rng.random() < 0.3
            conf = rng.randint(0, 60)
            o = yield dict(op="size", std=rng.choice([1, 5, 100, 1 << 30]), was=rng.choice([0, 1, 5, 60, 100, 1 << 30]), period=rng.choice([1, 2, 5, 10]),
                           step=rng.choice([0, 1, 5, 50]), conf=conf, cur=conf + (rng.randint(0, 1000000) if big else rng.randint(0, 12)), boot=rng.choice([0, 0, 5, 50]), min=rng.choice([0, 1, 50]))
        elif k < 0.85:
            o = yield dict(op="boot", age=rng.randint(0, 5000), active=rng.randint(0, 5000), period=rng.choice([1, 3, 10, 65535]))
        else:
            idx += 1
            if rng.random() < 0.1:
                idx += rng.randint(1, 3)
            b = build(rng, st, idx, rng.choice(epochs))
            if rng.random() < 0.5 and fits(st, b):
                o = yield dict(op="peek", **b)
                names = max(names, o["name"])
                # votes that come before the node builds its superblock, or out of the committee that will be
                for _ in range(rng.randint(0, 6)):
                    v = dict(w=rng.choice(st["ars"] or [0]), h=rng.choice([o["name"], o["name"], 100, tip]), i=idx, s=rng.choice([1, 1, 2]))
                    sent.append(v)
                    yield dict(op="vote", now=idx - (1 if rng.random() < 0.8 else 0), stored=0, **v)
            if not fits(st, b):
                b["sync"], b["size"] = [], 3
            o = yield dict(op="build", stored=int(rng.random() < 0.1), **b)
            st["ars"], st["sync"], comm, blocks, tip = b["ars"], b["sync"], o["comm"], b["blocks"], o["name"]
            names = max(names, tip)


def players(rng, n, length):
    import random
    return [player(random.Random(rng.getrandbits(64)), length) for _ in range(n)]


def canon(v):
    return sorted((repr(sorted(x.items())) for x in v))


def unsigned(vs):
    return [{k: v[k] for k in "whi"} for v in vs]


def match(s, e, o):
    """Observation of the last step against what the model says (verdicts: any of them)"""
    if s["op"] == "vote" and o["res"] != e["res"]:
        return False
    return sorted(o["comm"]) == sorted(e["comm"]) and o["len"] == len(e["comm"]) and o["beacon"] == e["beacon"] and \
        o["verdict"] in e["verdicts"] and o["valid"] == len(e["votes"]) and canon(unsigned(o["votes"])) == canon(unsigned(e["votes"])) and canon(o["known"]) == canon(e["known"])


CFG4 = dict(env="dev", a18=100, boot=[1, 2, 3, 4])


def board(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("superblock", "MC_Superblock", f"MC_Superblock{t}.cfg", match=match, limit=400000 if c.thorough else 60000)
    c.replay("superblock", "MC_Superblock", f"MC_Superblock_votes{t}.cfg", match=match, limit=400000 if c.thorough else 60000)
    ts = c.live("superblock", players(c.rng, 4000 if c.thorough else 400, 150))
    c.validate("superblock", "Trace_Superblock", None, traces=ts)
    # two of four members are enough: less than two thirds
    ops = [dict(op="vote", now=7, i=7, w=1, h=100, s=1), dict(op="vote", now=7, i=7, w=2, h=100, s=1)]
    c.recorded("superblock", "Trace_Superblock", "two-of-four", dict(id=0, cfg=CFG4, ops=ops),
               lambda t: t["steps"][-1]["obs"]["verdict"] == ["different", 100] and t["steps"][0]["obs"]["verdict"] == ["unknown"], cfg="Trace_Superblock_strict.cfg")
    c.assumptions += ["signatures are checked before votes are counted", "lists of candidates have no repetitions", "SHA-256 has no collisions; the harness computes the digests that committees are drawn from"]
