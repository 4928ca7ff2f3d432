"""Peers and sessions: spec/Peers.tla and spec/Sessions.tla."""
import hashlib
import ipaddress


def last(*parts):
    return hashlib.sha256(b"".join(parts)).digest()[31]


def split(a):
    host, port = a.rsplit(":", 1)
    ip = ipaddress.ip_address(host.strip("[]")).packed
    half = len(ip) // 2
    return ip, ip[:half], ip[half:] + int(port).to_bytes(2, "big")


def tried(sk, a):
    ip, group, host = split(a)
    k = sk.to_bytes(8, "big")
    i = bytes([last(k, ip) % 4])
    return last(k, group, i) % 64 * 64 + last(k, host, i) % 64


def new(sk, a, src):
    _, group, host = split(a)
    k, g = sk.to_bytes(8, "big"), split(src)[1]
    i = bytes([last(k, g, group) % 32])
    return last(k, g, i) % 256 * 64 + last(k, host, i) % 64


def ranges(a):
    ip = split(a)[0]
    if len(ip) != 4:
        return [[0, 0, 0, 0]] * 33
    n = int.from_bytes(ip, "big")
    return [list((n >> (32 - b) << (32 - b)).to_bytes(4, "big")) for b in range(33)]


def world(rng):
    """Addresses of which some share their places."""
    sk = rng.choice([0, 1, rng.getrandbits(31)])
    nets = [f"{rng.randint(1, 250)}.{rng.randint(0, 255)}" for _ in range(rng.choice([1, 2, 3]))]
    many = [f"{rng.choice(nets)}.{rng.randint(0, 255)}.{rng.randint(0, 255)}:{rng.choice([21337, 80, 65535])}" for _ in range(1500)]
    at = {}
    for a in many:
        at.setdefault(tried(sk, a), set()).add(a)
    crowd = [v for v in at.values() if len(v) > 1]
    names = {rng.choice(many) for _ in range(3)}
    for v in rng.sample(crowd, min(3, len(crowd))):
        names.update(list(sorted(v))[:3])
    slot = {}
    src = sorted(names)[0]
    for a in many:
        slot.setdefault(new(sk, a, src), []).append(a)
    for v in rng.sample([v for v in slot.values() if len(v) > 1], 2):
        names.update(v[:2])
    names = sorted(names)
    rng.shuffle(names)
    if rng.random() < 0.5:
        names.append(f"[2001:db8::{rng.randint(1, 9)}]:{rng.randint(1, 65535)}")
    names += ["0.0.0.0:21337"] + (["[::]:80"] if rng.random() < 0.3 else [])
    nobody = [i + 1 for i, a in enumerate(names) if a.startswith(("0.0.0.0", "[::]"))]
    return dict(sk=sk, names=names, own=rng.randint(1, len(names) - 1), nobody=nobody, period=rng.choice([1, 2, 4]),
                tried=[tried(sk, a) for a in names], new=[[new(sk, a, b) for b in names] for a in names])


def peers(rng, n, length):
    out = []
    for i in range(n):
        w = world(rng)
        ids = list(range(1, len(w["names"]) + 1))
        ops = []
        for _ in range(length):
            k = rng.random()
            a = rng.choice(ids)
            if k < 0.3:
                ops.append({"op": "hear", "as": [rng.choice(ids) for _ in range(rng.choice([1, 1, 2, 4]))], "src": rng.choice([0, 1, rng.choice(ids)])})
            elif k < 0.45:
                ops.append(dict(op="reach", a=a))
            elif k < 0.55:
                ops.append({"op": "lose", "as": [rng.choice(ids) for _ in range(rng.choice([1, 1, 3]))], "aside": rng.random() < 0.6})
            elif k < 0.6:
                ops.append(dict(op="forget", ks=[w["new"][rng.choice(ids) - 1][rng.choice(ids) - 1] for _ in range(rng.randint(1, 3))]))
            elif k < 0.66:
                ops.append(dict(op="freeze", a=a))
            elif k < 0.69:
                ops.append({"op": "thaw", "as": [rng.choice(ids) for _ in range(rng.choice([1, 2]))]})
            elif k < 0.73:
                ops.append(dict(op="melt"))
            elif k < 0.78:
                ops.append(dict(op="check", a=a))
            elif k < 0.86:
                ops.append(dict(op="pass", n=rng.choice([1, 1, 2, 3, 5])))
            elif k < 0.89:
                ops.append(dict(op="up", b=rng.random() < 0.7))
            elif k < 0.9:
                ops.append(dict(op="clear", what=rng.choice(["new", "tried", "ice"])))
            elif k < 0.92:
                ops.append(dict(op="edge", a=a, d=rng.choice([-1, 0, 1, 2])))
            elif k < 0.94:
                ops.append(dict(op="reload"))
            else:
                ops.append(dict(op="draw", ns=[0, 1, 2, 5, rng.randint(0, 12), 40]))
        out.append(dict(id=i, cfg=w, ops=ops))
    return out


def sessions(rng, n, length):
    out = []
    for i in range(n):
        nets = [f"{rng.randint(1, 250)}.{rng.randint(0, 255)}" for _ in range(2)]
        names = [f"{rng.choice(nets)}.{rng.choice([0, 1, 255])}.{rng.choice([1, 2, 129])}:{rng.choice([1, 2])}" for _ in range(8)]
        names = sorted({*names, "[2001:db8::1]:5", "[2001:db8::2]:5"})
        ids = list(range(1, len(names) + 1))
        ops, ref, inbound = [dict(op="bits", n=rng.choice([0, 8, 16, 18, 24, 31, 32]))], 0, False
        if rng.random() < 0.8:
            ops.append(dict(op="limits", i=rng.choice([0, 1, 2, 5]), o=rng.choice([0, 1, 2, 3])))
        few = rng.sample(ids, rng.choice([2, 4, len(ids)]))
        for _ in range(length):
            k, a, side = rng.random(), rng.choice(few), rng.choice("iiiiooooof")
            if k < 0.3:
                ref += 1
                ops.append(dict(op="register", side=side, a=a, ref=ref))
            elif k < 0.5:
                ops.append(dict(op="leave", side=side, part=rng.choice("uc"), a=a))
            elif k < 0.75:
                ops.append(dict(op="consolidate", side=side, a=a))
            elif k < 0.85:
                ops.append(dict(op="agree", a=a))
            elif k < 0.9:
                ops.append(dict(op="disagree", a=a))
            elif k < 0.93:
                ops.append(dict(op="address", a=a))
            elif k < 0.95:
                ops.append(dict(op="limits", i=rng.choice([0, 1, 2, 5]), o=rng.choice([0, 1, 2, 3])))
        out.append(dict(id=i, cfg=dict(names=names, ranges=[ranges(a) for a in names]), ops=ops))
    return out


def matches(s, e, o):
    if e is None:
        return "panic" not in o
    return all(sorted(o[k]) == sorted(v) if k in ("new", "tried", "ice", "iu", "ic", "ou", "oc", "cc") else o[k] == v for k, v in e.items())


def network(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("peers", "MC_Peers", f"MC_Peers{t}.cfg", match=matches)
    c.replay("sessions", "MC_Sessions", f"MC_Sessions{t}.cfg", match=matches)
    k = 10 if c.thorough else 1
    c.validate("peers", "Trace_Peers", peers(c.rng, 400 * k, 60))
    c.validate("sessions", "Trace_Sessions", sessions(c.rng, 600 * k, 50))
    c.assumptions += ["the network itself and the actors around these structures are not run", "the number of bits of a range is set before anybody calls, as the node does",
                      "draws at random are judged by what they may be, not by their distribution"]
