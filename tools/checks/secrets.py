"""Signatures, encryption at rest, seed phrases."""
import functools
import hashlib

from ref import aes, bip39, ec


# ---------------------------------------------------------------- signatures
@functools.lru_cache(maxsize=None)
def signature(k, m):
    return ec.rfc6979_sign(bytes.fromhex(k), bytes.fromhex(m))


def sig_interpret(op, e):
    if op["op"] == "sign" and not e["ok"]:
        return dict(ok=False, sig="")
    g = e["sig"]
    r, s = signature(g["k"], g["m"])
    b = bytearray(r.to_bytes(32, "big") + (ec.N - s if g["t"] == 512 else s).to_bytes(32, "big"))
    if g["t"] and g["t"] != 512:
        b[g["t"] // 8 % 64] ^= 1 << g["t"] % 8
    return dict(ok=e["ok"], sig=b.hex())


def sig_scripts(rng, n, length):
    out = []
    for i in range(n):
        keys = [rng.randint(1, ec.N - 1).to_bytes(32, "big").hex() for _ in range(3)] + ["00" * 31 + "01"]
        msgs = [rng.randbytes(32).hex() for _ in range(3)] + ["00" * 31 + "01", "ff" * 32]
        ops, have, clean = [], [], []
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            m = rng.choice(msgs) if rng.random() < 0.9 else rng.randbytes(rng.choice([0, 1, 20, 31, 33, 64])).hex()
            if not have or k < 0.3:
                s = rng.choice("abcde")
                ops.append(dict(op="sign", s=s, k=rng.choice(keys), m=m))
                if len(m) == 64:
                    have.append(s)
                    clean = [x for x in clean if x != s] + [s]
            elif k < 0.8:
                ops.append(dict(op="verify", s=rng.choice(have), k=rng.choice(keys), m=m))
                if rng.random() < 0.5:   # the right question
                    s = rng.choice(have)
                    o = next((o for o in reversed(ops) if o["op"] == "sign" and o["s"] == s and len(o["m"]) == 64), None)
                    if o:
                        ops.append(dict(op="verify", s=s, k=o["k"], m=o["m"]))
            elif k < 0.9 and clean:
                s = rng.choice("fgh")
                ops.append(dict(op="tamper", s=s, **{"from": rng.choice(clean)}, t=rng.choice([512, 512, rng.randint(1, 511), rng.randint(1, 511)])))
                have.append(s)
            elif clean:
                ops.append(dict(op="recode", s=rng.choice(clean)))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def sig_right(trace):
    """Whether a new signature is the one that an independent implementation of RFC 6979 makes."""
    for o in trace["steps"]:
        if "obs" in o:
            new = o["op"] == "sign" and o["obs"]["ok"]
            o["obs"]["right"] = not new or sig_interpret(o, dict(ok=True, sig=dict(k=o["k"], m=o["m"], t=0)))["sig"] == o["obs"]["sig"]


def sig(c):
    c.build("core")
    c.replay("sig", "MC_Sig", "MC_Sig_thorough.cfg" if c.thorough else None, interpret=sig_interpret)
    c.validate("sig", "Trace_Sig", sig_scripts(c.rng, 3000 if c.thorough else 300, 40), post=sig_right)
    c.assumptions += ["ECDSA is unforgeable (a flipped bit never makes another valid signature); the all-zero digest, which ECDSA itself signs for a key and its negation alike, is left out"]


# --------------------------------------------------------- encryption at rest
def vault_interpret(op, e):
    k = op["op"]
    ct = e["ct"]
    b = b""
    if k == "dec":
        if not e["must"]:
            return dict(any_but=e["pt"])
        b = bytes.fromhex(e["pt"])
    elif k in ("enc", "alter") and e["ok"]:
        b = bytearray(aes.cbc(*(bytes.fromhex(ct[x]) for x in ("key", "iv", "pt"))))
        if k == "alter" and not op["cut"]:
            b[ct["t"] // 8 % len(b)] ^= 1 << ct["t"] % 8
        b = b[: ct["len"]]
    elif k == "stretch":
        b = hashlib.pbkdf2_hmac("sha256", bytes.fromhex(op["pw"]), bytes.fromhex(op["salt"]), op["n"])
    elif k == "random":
        return dict(ok=True, len=ct["len"])
    return dict(ok=e["ok"], bytes=b.hex(), len=len(b))


def vault_match(op, e, o):
    """A determined answer is the answer; an undetermined one must not be the plaintext."""
    if "any_but" in e:
        return not o["ok"] or o["bytes"] != e["any_but"]
    if op["op"] == "random":
        return o["ok"] and o["len"] == e["len"] and len(o["bytes"]) == 2 * e["len"]
    return o == e


def vault_scripts(rng, n, length):
    out, serial = [], 0
    for i in range(n):
        ks = [rng.randbytes(32).hex() for _ in range(2)]
        ivs = [rng.randbytes(16).hex() for _ in range(2)]
        ops, have = [], {}
        for _ in range(rng.randint(length // 2, length)):
            k = rng.random()
            key = rng.choice(ks) if rng.random() < 0.93 else rng.randbytes(rng.choice([0, 16, 24, 31, 33, 64])).hex()
            iv = rng.choice(ivs) if rng.random() < 0.93 else rng.randbytes(rng.choice([0, 8, 15, 17, 32])).hex()
            if not have or k < 0.25:
                c = rng.choice("abc")
                pt = rng.randbytes(rng.choice([0, 1, 15, 16, 17, 31, 32, 33, 100, 1000])).hex() if rng.random() < 0.7 else (bytes([rng.randint(0, 16)]) * rng.choice([1, 15, 16, 32])).hex()
                ops.append(dict(op="enc", c=c, k=key, iv=iv, pt=pt))
                if len(key) == 64 and len(iv) == 32:
                    have[c] = True
            elif k < 0.65:
                c = rng.choice(list(have))
                ops.append(dict(op="dec", c=c, k=key, iv=iv))
            elif k < 0.8 and any(have.values()):
                c = rng.choice([x for x in have if have[x]])
                c2 = rng.choice("def")
                cut = rng.choice([0, 0, 1, 15, 16, 17, 5000])
                ops.append(dict(op="alter", c=c2, **{"from": c}, t=rng.randint(1, 127) if cut == 0 else 1000 + cut, cut=cut))
                have[c2] = False
            elif k < 0.92:
                ops.append(dict(op="stretch", pw=rng.choice(["", "70617373", rng.randbytes(rng.randint(0, 150)).hex()]), salt=rng.choice(["", "73616c74", rng.randbytes(16).hex(), rng.randbytes(rng.randint(0, 150)).hex()]), n=rng.choice([1, 2, 3, 100, 1000])))
            else:
                serial += 1
                ops.append(dict(op="random", n=rng.choice([0, 1, 16, 32, 100, 1000, 5000]), serial=serial))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def vault_heavy(rng, n):
    """many rounds, long passwords and salts that begin alike, much data"""
    out = []
    for i in range(n):
        ops = []
        pw, salt = rng.randbytes(300).hex(), rng.randbytes(300).hex()
        for _ in range(6):
            a, b = (rng.choice([15, 16, 31, 32, 63, 64, 65, 72, 127, 128, 129, 255, 256, 300]) for _ in "ab")
            ops.append(dict(op="stretch", pw=pw[: 2 * a], salt=salt[: 2 * b], n=rng.choice([1, 2, 255, 256, 10000])))
        for r in rng.sample([60000, 65535, 65536, 65537, 100000, 131072], 2):
            ops.append(dict(op="stretch", pw=pw[:64], salt=salt[:32], n=r))
        k, iv = rng.randbytes(32).hex(), rng.randbytes(16).hex()
        for size in (4096, rng.choice([65535, 65536, 100000])):
            for pt in (rng.randbytes(size).hex(), "10" * size, "00" * size):
                ops += [dict(op="enc", c="a", k=k, iv=iv, pt=pt), dict(op="dec", c="a", k=k, iv=iv)]
        ops += [dict(op="random", n=x, serial=j + 1) for j, x in enumerate([4096, 10000, 70000, 31, 17])]
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def vault_post(t):
    for s in t["steps"]:
        if s["op"] == "stretch":
            s["want"] = hashlib.pbkdf2_hmac("sha256", bytes.fromhex(s["pw"]), bytes.fromhex(s["salt"]), s["n"]).hex()
        if s["op"] == "random" and "obs" in s:
            b = s["obs"]["bytes"]
            s["pieces"] = [b[i: i + 32] for i in range(0, len(b) - 31, 32)]
            if len(b) > 16384:
                s["obs"]["bytes"] = hashlib.sha256(b.encode()).hexdigest()


def vault(c):
    c.build("core")
    c.replay("vault", "MC_Vault", interpret=vault_interpret, match=vault_match)
    c.validate("vault", "Trace_Vault", vault_scripts(c.rng, 3000 if c.thorough else 300, 40) + vault_heavy(c.rng, 40 if c.thorough else 6), post=vault_post)
    c.assumptions += ["AES and PBKDF2 have no collisions on the inputs explored"]


# --------------------------------------------------------------- seed phrases
PASS = ["", "TREZOR", "a b", " TREZOR", "TREZOR ", "trezor", "\tx\n", "  ", "e\u0301", "\ufb00", "mnemonic", "p\0q", "contraseña", "パスワード", "x" * 200]


def concrete(rng, o):
    """Words with the asked-for length, an unknown word or not, and a right or a wrong checksum."""
    n = o["n"]
    if n in (12, 15, 18, 21, 24):
        w = bip39.phrase(rng.randbytes(n * 4 // 3))
    elif n % 3 == 0 and 3 <= n <= 27:
        w = bip39.phrase(rng.randbytes(n * 4 // 3))   # right checksum, wrong length
    else:
        w = [rng.choice(bip39.WORDS) for _ in range(n)]
    if not o["sum"]:
        while n and bip39.checksum_ok(w):
            w[rng.randrange(n)] = rng.choice(bip39.WORDS)
    if not o["known"] and n:
        w[rng.randrange(n)] = rng.choice(["witnet", "abandonn", "Abandon", "zzz", "ab", "0"])
    return w


def mn_pre(rng):
    def pre(s):
        ops = []
        for o in s["ops"]:
            if o["op"] == "seed" and not o.get("phrase"):
                o["phrase"] = " ".join(concrete(rng, o))
            ops.append(o)
        return s
    return pre


def mn_post(t):
    for s in t["steps"]:
        o = s.get("obs")
        if o is not None:
            p = s["phrase"] if s["op"] == "seed" else o.get("phrase", "")
            w = p.split(" ")
            # an independent opinion about the phrase
            if s["op"] == "seed":
                s["known"] = bool(p) and all(x in bip39.INDEX for x in w)
                s["sum"] = bip39.checksum_ok(w)
                s["n"] = len(w) if p else 0
            if s["op"] == "generate":
                e = bip39.entropy(w).hex()
                q = len(e) // 16
                s["pieces"] = [e[16 * i: 16 * i + 16] if i < q - 1 else e[16 * i:] for i in range(q)]
            o["want"] = bip39.seed(w, s.get("pass", "")).hex() if o["ok"] else ""


def mn_interpret(op, e):
    return dict(ok=e["ok"], n=e["n"])


def mn_match(op, e, o):
    return o["ok"] == e["ok"] and o["n"] == e["n"] and (not e["ok"] or o["seed"] == o["want"])


def mnemonic(c):
    c.build("core")
    pre = mn_pre(c.rng)
    c.replay("mnemonic", "MC_Mnemonic", "MC_Mnemonic_thorough.cfg" if c.thorough else None, pre=pre, post=mn_post,
             interpret=mn_interpret, match=mn_match)
    ss = []
    for i in range(400 if c.thorough else 60):
        ops = []
        for _ in range(12):
            n = c.rng.choice([12, 15, 18, 21, 24])
            if c.rng.random() < 0.3:
                ops.append(dict(op="generate", n=n))
            else:
                n = n if c.rng.random() < 0.8 else c.rng.randint(1, 30)
                ops.append(dict(op="seed", n=n, known=c.rng.random() < 0.9, sum=c.rng.random() < 0.8, **{"pass": c.rng.choice(PASS)}))
        prev = [o for o in ops if o["op"] == "seed"]
        for o in prev[:2]:
            concrete_o = pre(dict(ops=[o]))["ops"][0]
            ops.append(dict(concrete_o, **{"pass": c.rng.choice(PASS)}))
        ss.append(dict(id=i, cfg={}, ops=ops))
    c.validate("mnemonic", "Trace_Mnemonic", ss, pre=pre, post=mn_post)
    c.assumptions += ["the English word list is the one committed with the checks"]
