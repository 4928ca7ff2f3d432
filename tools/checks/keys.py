"""HD keys and their SLIP-32 encoding: terms of the specification against an independent implementation."""
import functools

from ref import bech32, ec

MAC = b"Bitcoin seed".hex()


NOBODY = dict(root="", path=[])


@functools.lru_cache(maxsize=200000)
def at(root, path):
    if path:
        return ec.child(*at(root, path[:-1]), ec.index(path[-1]))
    f = root.split("|")
    if f[0] == "g":
        return ec.master(bytes.fromhex(f[1]), bytes.fromhex(f[2]))
    return bytes.fromhex(f[1]), bytes.fromhex(f[2])


def value(key):
    path = tuple(key["path"] or [])
    for i in range(0, len(path), 100):
        at(key["root"], path[:i])
    return at(key["root"], path)


def interpret(op, e):
    """The observation that the answer of the specification stands for."""
    if not e["ok"]:
        return dict(ok=False, path="", bytes={})
    sk, cc = value(e["key"])
    b = dict(sk=sk.hex(), cc=cc.hex())
    if op["op"] == "pub":
        b["pk"] = ec.pubkey(sk).hex()
    if op["op"] == "parts":
        b["both"] = (sk + cc).hex()
    if op["op"] == "export":
        b["slip:" + e["path"]] = bech32.slip32(sk, cc, [ec.index(i) for i in op["p"] or []])
    return dict(ok=True, path=e["path"], bytes=b)


def name(trace):
    """Say of every key that was seen which term its bytes are the value of."""
    regs, slips = {}, {}
    for o in trace["steps"]:
        b = o.get("obs")
        if not b or not b["ok"]:
            if b:
                b["named"] = NOBODY
                b.pop("bytes", None)
            continue
        k, term = o["op"], NOBODY
        if k == "gen":
            term = dict(root=f"g|{o['seed']}|{o['mac']}", path=[])
        elif k == "derive" and o["from"] in regs:
            f = regs[o["from"]]
            term = dict(root=f["root"], path=f["path"] + (o["p"] or []))
        elif k == "import" and o["s"] in slips:
            term = slips[o["s"]]
        elif k == "craft":
            term = dict(root=f"r|{o['c']['secret']}|{o['c']['cc']}", path=[])
        elif k in ("pub", "parts", "reload", "export"):
            term = regs.get(o["r"], NOBODY)
        if k == "export":
            slips[o["s"]] = term
        else:
            regs[o["r"]] = term
        if term["root"]:
            want = interpret(o, dict(ok=True, key=term, path=b["path"]))["bytes"]
            b["named"] = term if want == b["bytes"] else NOBODY
        else:
            b["named"] = NOBODY
        del b["bytes"]


def rpath(rng, n):
    if n > 20 and rng.random() < 0.8:   # hardened all the way: what it should be is quickly computed
        return [str(rng.getrandbits(31)) + "'" for _ in range(n)]
    return [rng.choice(["0", "1", "0'", "1'", "3'", "4919'", "2147483647", "2147483647'", str(rng.getrandbits(31)), str(rng.getrandbits(31)) + "'"])
            for _ in range(n)]


def scripts(rng, n, length, slip):
    out = []
    seeds = [rng.randbytes(rng.choice([16, 17, 32, 63, 64])).hex() for _ in range(6)]
    for i in range(n):
        regs, slots, ops = [], [], []
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            r = rng.choice("abcdef")
            if not regs or k < 0.12:
                sd = rng.choice(seeds) if rng.random() < 0.85 else rng.randbytes(rng.choice([0, 1, 15, 65, 100])).hex()
                ops.append(dict(op="gen", r=r, seed=sd, mac=rng.choice([MAC, MAC, "00", "ab" * 200])))
                if 16 <= len(sd) // 2 <= 64:
                    regs.append(r)
            elif k < 0.45 or (not slip and k < 0.75):
                ops.append(dict(op="derive", r=r, **{"from": rng.choice(regs)}, p=rpath(rng, rng.choice([0, 1, 1, 1, 2, 2, 3, 5, rng.choice([1, 12, 33, 70, 256, 260])]))))
                regs.append(r)
            elif k < 0.55 or not slip:
                ops.append(dict(op=rng.choice(["pub", "pub", "parts", "reload"]), r=rng.choice(regs)))
            elif k < 0.75:
                s = rng.choice("xyz")
                d = rng.choice([0, 1, 2, 3, 5, 10, 40, 47, 48, 49, 60, 63, 64, 100, 255, 256, 300, rng.randint(0, 260)])
                ops.append(dict(op="export", s=s, r=rng.choice(regs), p=rpath(rng, d)))
                if d <= 255:
                    slots.append(s)
            elif slots and k < 0.9:
                ops.append(dict(op="import", r=r, s=rng.choice(slots)))
                regs.append(r)
            else:
                path = rpath(rng, rng.choice([0, 1, 2, 4, 60, 64, 130, 255]))
                kind = rng.random()
                sec, ok = rng.randbytes(32), True
                if kind < 0.15:
                    sec, ok = rng.choice([bytes(32), ec.N.to_bytes(32, "big"), b"\xff" * 32, (ec.N + 1).to_bytes(32, "big")]), False
                elif kind < 0.25:
                    sec = rng.choice([(ec.N - 1).to_bytes(32, "big"), (1).to_bytes(32, "big")])
                c = dict(hrp="xprv", depth=len(path), path=path, extra=0, prefix=0, secret=sec.hex(), secret_ok=ok,
                         cc=rng.randbytes(32).hex(), flip=False)
                for _ in range(rng.choice([0, 1, 1, 1, 2])):
                    f = rng.choice(["hrp", "depth", "extra", "prefix", "flip"])
                    c[f] = dict(hrp=rng.choice(["xpub", "xprw", "tprv", "x", "xprvx", "xxprv", "xpr", "xprv1", "wit"]), depth=rng.choice([0, 1, 2, 3, 255]), extra=rng.choice([-33, -4, -1, 1, 4, 32]),
                                prefix=rng.choice([1, 2, 128, 255]), flip=True)[f]
                c["at"] = rng.randint(0, 10**6)
                if c["extra"] == -4 and c["depth"] == len(path) - 1:
                    c["extra"] = 0   # cutting one index from the tail is not the same as a shorter path
                # a wrong depth may be compensated by a wrong length: then it is another, possibly well formed, string
                if c["depth"] != len(path) and c["extra"]:
                    c["extra"] = 0
                ops.append(dict(op="craft", r=r, c=c))
                if ok and c["hrp"] == "xprv" and c["depth"] == len(path) and not c["extra"] and not c["prefix"] and not c["flip"]:
                    regs.append(r)
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def directed(rng):
    def find(cond):
        while True:
            sd = rng.randbytes(rng.randint(16, 64))
            sk, cc = ec.master(sd, bytes.fromhex(MAC))
            if cond(sk, cc):
                return sd
    seeds = [find(lambda sk, cc: sk[0] == 0), find(lambda sk, cc: cc[0] == 0), find(lambda sk, cc: sk[:2] == b"\0\0"),
             find(lambda sk, cc: sk[-1] == 0 or cc[-1] == 0), find(lambda sk, cc: sk[0] == 255)]
    idx = {"0'", "1"}
    for sd in seeds[3:]:
        sk, cc = ec.master(sd, bytes.fromhex(MAC))
        i = 0
        while ec.child(sk, cc, 2**31 + i)[0][0]:   # a hardened child with a leading zero
            i += 1
        idx.add(f"{i}'")
    return [s.hex() for s in seeds], sorted(idx)


def derive(c):
    run(c, False)


def slip(c):
    run(c, True)


def run(c, slip):
    c.build("core")
    mine = {"export", "import", "craft"}
    c.replay("keys", "MC_Keys", "MC_Keys_thorough.cfg" if c.thorough else None, interpret=interpret,
             keep=lambda h: slip == any(x["op"] in mine for x in h), limit=None if c.thorough else 20000)
    # keys with bytes that are easily lost: leading zeros in the private key, the chain code, a child
    seeds, idx = directed(c.rng)
    c.replay("keys", "MC_Keys", c.cfg("MC_Keys", Seeds=seeds, Macs=[MAC], Idx=idx, Depths=[0, 1, 4]), name="MC_Keys directed", interpret=interpret,
             keep=lambda h: slip == any(x["op"] in mine for x in h), limit=None if c.thorough else 20000)
    c.validate("keys", "Trace_Keys", scripts(c.rng, 2500 if c.thorough else 250, 40, slip), post=name)
    c.assumptions += ["HMAC-SHA512 and secp256k1 behave as random oracles on the keys explored (no invalid scalars, no collisions)"]
