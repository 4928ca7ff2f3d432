"""Secret containers and flattened futures."""


def prot_scripts(rng, n, length):
    out = []
    mark = "S3cR3tM4rKer"
    for i in range(n):
        ops, live = [], {}
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            r = rng.choice("abcd")
            if not live or k < 0.35:
                v = rng.choice(["", mark, mark * rng.randint(1, 30), "x" * rng.randint(0, 50) + mark, "é" + mark, "A" * rng.randint(1, 20), mark + "\0", "\t\\\"" + mark])
                # secrets that begin alike, and differ at the end
                if rng.random() < 0.3:
                    v = (mark * 40)[: rng.choice([12, 16, 31, 32, 63, 64, 65, 127, 128, 255, 256, 300])] + rng.choice(["", "a", "b", "ab"])
                kind = rng.choice(["bytes", "str"])
                ops.append(dict(op="new", r=r, kind=kind, how=rng.choice(["new", "from", "slice"]), v=v))
                live[r] = (kind, v)
                continue
            q = rng.choice(list(live))
            if k < 0.5:
                ops.append(dict(op="clone", r=r, **{"from": q}))
                live[r] = live[q]
            elif k < 0.6:
                ops.append(dict(op="tobytes", r=q))
                live[q] = ("bytes", live[q][1])
            elif k < 0.7:
                ops.append(dict(op="reload", r=q))
            elif k < 0.78 and live[q][0] == "bytes":
                v = "".join(rng.choice("~!x") for _ in live[q][1].encode())
                ops.append(dict(op="overwrite", r=q, v=v))
                live[q] = ("bytes", v)
            elif k < 0.9:
                ops.append(dict(op="drop", r=q))
                del live[q]
            elif k < 0.95:
                p = rng.choice([x for x in live if live[x][0] == live[q][0]])
                ops.append(dict(op="cmp", r=q, q=p))
            else:
                # as long as that one, and alike but for one place
                kind, v = live[q]
                p = rng.choice([x for x in "abcd" if x != q])
                if v:
                    at = rng.choice([0, len(v) - 1, rng.randrange(len(v))])
                    v = v[:at] + rng.choice("Az") + v[at + 1:]
                ops += [dict(op="new", r=p, kind=kind, how="new", v=v), dict(op="cmp", r=q, q=p), dict(op="cmp", r=p, q=q)]
                live[p] = (kind, v)
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def protected(c):
    c.build("core")
    c.replay("protected", "MC_Protected", limit=None if c.thorough else 30000)
    c.validate("protected", "Trace_Protected", prot_scripts(c.rng, 4000 if c.thorough else 400, 60))
    c.assumptions += ["wiped means: no block given back to the allocator still contains the secret's marker; registers, stack and swap are out of reach"]


def flatten(c):
    c.build("core")
    c.replay("flatten", "MC_Flatten")
    ss = [dict(id=i, cfg=dict(pending=p, kind=c.rng.choice(["ok", "inner", "outer"]), payload=c.rng.randint(-10**6, 10**6)),
               ops=[dict(op="poll")] * (p + 1)) for i, p in enumerate(c.rng.randint(0, 60) for _ in range(2000 if c.thorough else 300))]
    c.validate("flatten", "Trace_Flatten", ss)
