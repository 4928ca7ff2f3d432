"""Merkle trees: terms of the specification, evaluated with an independent SHA-256 (hashlib)."""
import functools
import hashlib
import re

TOK = re.compile(r"[()]|x\d+|empty")


@functools.lru_cache(maxsize=200000)
def leaf(n):
    return hashlib.sha256(b"" if n == "empty" else n.encode()).digest()


def value(t, cache):
    """The SHA-256 value of a term."""
    if t in cache:
        return cache[t]
    stack = []
    for k in TOK.findall(t):
        if k == ")":
            b, a = stack.pop(), stack.pop()
            stack.append(hashlib.sha256(a + b).digest())
        elif k != "(":
            stack.append(leaf(k))
    if len(stack) != 1:
        return None
    cache[t] = stack[0]
    return stack[0]


def pre(script):
    ops = []
    cache = {}
    for o in script["ops"]:
        if o["op"] == "forge":
            names = {x["h"] for x in o["path"]} | {o["e"], o["r"]}
            o = dict(o, hex={n: value(n, cache).hex() for n in names})
        ops.append(o)
    return dict(script, ops=ops)


def post(trace):
    """Name the hash values the code produced by the terms they are the values of."""
    cache = {}
    for s in trace["steps"]:
        s.pop("hex", None)
        o = s.get("obs")
        if not o:
            continue
        if "sym" in o:
            v = value(o["sym"], cache)
            for k in ("prog", "fn", "full"):
                if v and o[k] == "#" + v.hex():
                    o[k] = o["sym"]
        if s["op"] == "forge":
            v = value(o["root"], cache)
            rooth, okany = o.pop("rooth"), o.pop("okany")
            if not v or rooth != "#" + v.hex():
                o["root"] = rooth
            if o["ok"] != okany:
                o["root"] += " (the verdicts over terms and over SHA-256 differ)"


def scripts(rng, n, maxlen, depth):
    out = []
    for i in range(n):
        size = rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, rng.randint(0, maxlen), rng.randint(0, maxlen), maxlen])
        names = [f"x{rng.randint(1, 10**4)}" for _ in range(size)] if rng.random() < 0.7 else [rng.choice(["x1", "x2", "x3"]) for _ in range(size)]
        ops = [dict(op="build", s=names)]
        for _ in range(rng.randint(4, 14)):
            k = rng.random()
            if k < 0.25:
                x = f"x{rng.randint(1, 10**4)}"
                names = names + [x]
                ops.append(dict(op="push", x=x))
            elif k < 0.75:
                ops.append(dict(op="proof", i=rng.choice([0, max(0, size - 1), max(0, size - 2), rng.randint(0, size), size, size + rng.randint(1, 5)])))
            else:
                pool = (names or ["x1"]) + ["x5", "empty"]
                p = [dict(bit=rng.randint(0, 1), h=rng.choice(pool)) for _ in range(rng.randint(0, depth))]
                e = rng.choice(pool)
                r = e
                for x in p:
                    r = f"({x['h']}{r})" if x["bit"] else f"({r}{x['h']})"
                # now and then a claimed root that is not it; bits above the path mean nothing
                if rng.random() < 0.4:
                    r = rng.choice(pool)
                ops.append(dict(op="forge", path=p, e=e, r=r, hi=rng.choice([0, 0, 1, 5])))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def large(rng, thorough):
    """trees of thousands of leaves"""
    out = []
    for i, size in enumerate([600, 1024, 1025, 2049, 4097, 7000] + ([9000, 16384, 25000] if thorough else [])):
        ops = [dict(op="build", s=[f"x{(j * 7919) % 10007}" for j in range(size)])]
        ops += [dict(op="proof", i=x) for x in (0, 1, 255, 256, 512, size - 1, size // 2, rng.randrange(size))]
        ops.append(dict(op="push", x="x5"))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def roots(c):
    run(c, {"build", "push"}, 1500 if c.thorough else 250)


def proofs(c):
    run(c, {"build", "push", "proof", "forge"}, 1500 if c.thorough else 250)


def run(c, ops, n):
    c.build("core")
    c.replay("merkle", "MC_Merkle", "MC_Merkle_thorough.cfg" if c.thorough else None, pre=pre, post=post,
             keep=lambda h: all(x["op"] in ops for x in h))
    ss = scripts(c.rng, n, 1200 if c.thorough else 300, 24) + large(c.rng, c.thorough)
    for s in ss:
        s["ops"] = [o for o in s["ops"] if o["op"] in ops]
    c.validate("merkle", "Trace_Merkle", ss, pre=pre, post=post)
    c.assumptions += ["SHA-256 is collision free: the specification's hash is a free term constructor",
                      "an inclusion proof has at most as many levels as the machine word has bits"]
