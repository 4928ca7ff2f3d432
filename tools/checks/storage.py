"""Key/value storage: sequential semantics on every backend, and linearisability under threads."""
import json
import os

from vlib import ToolError, Violation, norm

KEYS = ["k", "k00", "k0000", "k000000", "k0001", "k01", "k0100", "kfe", "kff", "kffff", "kff00", "k61", "k6162", "k616263", "k7f", "k80"]


def post(t):
    for s in t["steps"]:
        if "obs" in s:
            s["f"] = s["obs"].pop("f")


def key(rng, pool):
    if rng.random() < 0.8:
        return rng.choice(pool)
    return "k" + bytes(rng.choice([0, 1, 97, 98, 254, 255]) for _ in range(rng.randint(0, 4))).hex()


def item(rng, pool):
    if rng.random() < 0.65:
        return dict(put=True, k=key(rng, pool), v="k" + rng.randbytes(rng.choice([0, 1, 1, 2, 40])).hex())
    return dict(put=False, k=key(rng, pool), v="k")


def scripts(rng, n, length):
    out = []
    for i in range(n):
        backend = rng.choice(["map", "map", "rocks", "rocks", "rocks", "none"])
        pool = rng.sample(KEYS, rng.randint(2, len(KEYS)))
        ops = []
        for _ in range(rng.randint(length // 2, length)):
            f = backend == "rocks" and rng.random() < 0.15
            k = rng.random()
            if k < 0.15:
                o = dict(op="get", k=key(rng, pool), f=f)
            elif k < 0.4:
                x = item(rng, pool)
                o = dict(op="put", k=x["k"], v=x["v"], f=f)
            elif k < 0.5:
                o = dict(op="delete", k=key(rng, pool), f=f)
            elif k < 0.75:
                o = dict(op="write", b=[item(rng, pool) for _ in range(rng.choice([0, 1, 2, 3, 8]))], f=f, at=rng.choice([0, 0, 1, 2, 4]))
            else:
                p = key(rng, pool)
                p = p[: 1 + 2 * rng.randint(0, (len(p) - 1) // 2)]
                o = dict(op="scan", p=p, f=False)
            ops.append(o)
        out.append(dict(id=i, cfg=dict(backend=backend), ops=ops))
    return out


SIZES = [5, 60, 300, 1000, 1500, 5000, 20000, 66000, 70000]


def wide(rng, n):
    """many keys, long keys and large values; a large thing only where there are few of it"""
    out = []
    for i in range(n):
        size = SIZES[i % len(SIZES)]
        pad = rng.choice([0, 1, 7] if size > 5000 else [0, 13, 30, 31, 32, 40, 64, 130] if size > 1000 else [0, 30, 63, 200, 253, 255, 256, 300, 1100, 70000])
        kinds = [1, 2, 8] if size > 1000 or pad > 1100 else [1, 2, 3, 4, 8] if size > 300 else list(range(1, 9))
        lo = rng.randint(0, 70000 - size)
        hi = lo + size - 1
        ops = [dict(op="fill", lo=lo, hi=hi, step=1, v=rng.choice([2, 8]), at_once=rng.random() < 0.5)]
        for _ in range(rng.randint(8, 14)):
            k = rng.random()
            at = rng.choice([lo, hi, rng.randint(lo, hi), rng.randint(lo, hi), rng.randint(0, 69999)])
            if k < 0.3:
                a = rng.randint(lo, hi)
                step = rng.choice([1, 1, 2, 3, 17])
                v = rng.choice(kinds + [0])
                b = min(hi, a + step * rng.choice([0, 1, 10, 70, 300, size]))
                if v in (6, 7):
                    b = min(b, a + 2)
                ops.append(dict(op="fill", lo=a, hi=max(a, b), step=step, v=v, at_once=rng.random() < 0.5))
                ops.append(dict(op="get", i=rng.choice([a, at])))
            elif k < 0.6:
                ops.append(dict(op="get", i=at))
            else:
                ops.append(dict(op="scan", d=rng.choice([-pad, -(pad // 2), -1, 0, 1, 2, 2, 3, 3]), i=at))
        ops.append(dict(op="scan", d=-pad, i=lo))
        ops += [dict(op="scan", d=3, i=x) for x in (lo, hi)]
        out.append(dict(id=i, cfg=dict(backend="rocks" if rng.random() < 0.4 else "map", pad=pad), ops=ops))
    return out


def kv(c):
    c.build("core")
    c.replay("kv", "MC_Kv", "MC_Kv_thorough.cfg" if c.thorough else None, post=post)
    c.validate("kv", "Trace_Kv", scripts(c.rng, 3000 if c.thorough else 400, 50), post=post)
    c.validate("kvbig", "Trace_KvBig", wide(c.rng, 270 if c.thorough else 36))
    c.assumptions += ["the rocks backend runs on a stand-in for RocksDB (ordered map, atomic batches, injectable failures); "
                      "what is decided is the repository's own adapter"]


def conc_script(rng, i, big):
    size = rng.choice([2, 8, 64, 130, 256]) if big else rng.choice([1, 2, 3])
    keys = ["k%02x" % j for j in range(size)]
    threads = []
    nt = rng.choice([2, 3, 4])
    for t in range(nt):
        ops = []
        for j in range(rng.randint(3, 6)):
            v = "k%02x%02x" % (t, j)
            k = rng.random()
            if k < 0.35:
                how = rng.random()
                if how < 0.7:
                    b = [dict(put=True, k=x, v=v) for x in keys]
                elif how < 0.85:
                    # emptied and filled again, half of it: nobody sees it empty
                    b = [dict(put=False, k=x, v="k") for x in keys] + [dict(put=True, k=x, v=v) for x in keys[::2]]
                else:
                    b = [dict(put=False, k=x, v="k") for x in keys]
                if not 0.7 <= how < 0.85:
                    rng.shuffle(b)
                ops.append(dict(op="write", b=b))
            elif k < 0.65:
                ops.append(dict(op="scan", p="k"))
            elif k < 0.8:
                ops.append(dict(op="get", k=rng.choice(keys)))
            elif k < 0.9:
                ops.append(dict(op="put", k=rng.choice(keys), v=v))
            else:
                ops.append(dict(op="delete", k=rng.choice(keys)))
        threads.append(ops)
    return dict(id=i, cfg={}, ops=[dict(op="run", threads=threads)])


def linearise(c, hs):
    """TLC searches, for every history, an order of the operations that the specification accepts."""
    path = f"{c.tmp}/lin.ndjson"
    with open(path, "w") as f:
        for h in hs:
            f.write(json.dumps(norm(dict(steps=h))) + "\n")
    seen = set()
    r = c.tlc("Lin_Kv", env={"TRACE_FILE": path}, emit=lambda x: seen.add(int(x)), timeout=600)
    os.remove(path)
    if not r["ok"]:
        raise ToolError(f"Lin_Kv: {r['error']}\n{r['text'][-3000:]}")
    return r, [i for i in range(len(hs)) if i + 1 not in seen]


def conc(c):
    c.build("core")
    n = 4000 if c.thorough else 500
    scripts_ = [conc_script(c.rng, i, i % 2) for i in range(n)]
    traces = c.run("kvconc", scripts_, procs=2)
    hs = []
    for t in traces:
        s = t["steps"][0]
        if "panic" in s:
            raise Violation(f"concurrent operations panicked: {s['panic']}", c.save_replay("kvconc", dict(trace=t)))
        hs.append(s["obs"]["history"])
    overlap = sum(any(a["t0"] < b["t1"] and b["t0"] < a["t1"] for a in h for b in h if a is not b) for h in hs)
    r, bad = linearise(c, hs)
    if bad:
        raise Violation(f"a concurrent history of the storage has no linearisation ({len(bad)} of {len(hs)})",
                        c.save_replay("kvconc", dict(history=hs[bad[0]])))
    # a history in which a scan saw half of a batch has to be rejected
    b2 = [dict(put=True, k="k00", v="k01"), dict(put=True, k="k01", v="k01")]
    torn = [[dict(op="write", b=b2, t0=0, t1=5, obs=dict(ok=True, val=[])),
             dict(op="scan", p="k", t0=1, t1=2, obs=dict(ok=True, val=[{"k00": "k01"}, 1]))],
            [dict(op="put", k="k00", v="k01", t0=0, t1=1, obs=dict(ok=True, val=[])),
             dict(op="get", k="k00", t0=2, t1=3, obs=dict(ok=True, val=[]))]]
    if linearise(c, torn)[1] != [0, 1]:
        raise ToolError("Lin_Kv accepts a torn batch or a stale read")
    c.cov["corruption_probes"] += 2
    c.cov["states"] += r["distinct"]
    c.cov["transitions"] += r["states"]
    c.cov["traces_validated_against_impl"] += len(hs)
    c.cov["models"].append(dict(module="Lin_Kv", distinct=r["distinct"], histories=len(hs), histories_with_overlap=overlap))
    c.cov["samples"].append(json.dumps(hs[0])[:1500])
    c.assumptions += ["schedules are those the operating system produced on this run (real threads)"]
