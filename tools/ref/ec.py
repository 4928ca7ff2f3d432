"""secp256k1, ECDSA and BIP-32, from their definitions."""
import functools
import hashlib
import hmac

P = 2**256 - 2**32 - 977
N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141
G = (0x79BE667EF9DCBBAC55A06295CE870B07029BFCDB2DCE28D959F2815B16F81798,
     0x483ADA7726A3C4655DA4FBFC0E1108A8FD17B448A68554199C47D08FFB10D4B8)


def dbl(p):
    x, y, z = p
    if not y:
        return (0, 1, 0)
    s = 4 * x * y * y % P
    m = 3 * x * x % P
    x2 = (m * m - 2 * s) % P
    return x2, (m * (s - x2) - 8 * y**4) % P, 2 * y * z % P


def add(p, q):
    if not p[2]:
        return q
    if not q[2]:
        return p
    z1, z2 = p[2] * p[2] % P, q[2] * q[2] % P
    u1, u2 = p[0] * z2 % P, q[0] * z1 % P
    s1, s2 = p[1] * z2 * q[2] % P, q[1] * z1 * p[2] % P
    if u1 == u2:
        return dbl(p) if s1 == s2 else (0, 1, 0)
    h, r = (u2 - u1) % P, (s2 - s1) % P
    h2 = h * h % P
    h3 = h2 * h % P
    x = (r * r - h3 - 2 * u1 * h2) % P
    return x, (r * (u1 * h2 - x) - s1 * h3) % P, h * p[2] * q[2] % P


def mul(k, pt=G):
    acc, base = (0, 1, 0), (pt[0], pt[1], 1)
    while k:
        if k & 1:
            acc = add(acc, base)
        base = dbl(base)
        k >>= 1
    if not acc[2]:
        return None
    zi = pow(acc[2], -1, P)
    return acc[0] * zi * zi % P, acc[1] * zi**3 % P


@functools.lru_cache(maxsize=None)
def pubkey(sk):
    x, y = mul(int.from_bytes(sk, "big"))
    return bytes([2 + (y & 1)]) + x.to_bytes(32, "big")


@functools.lru_cache(maxsize=None)
def master(seed, mac):
    i = hmac.new(mac, seed, hashlib.sha512).digest()
    return i[:32], i[32:]


@functools.lru_cache(maxsize=None)
def child(sk, cc, idx):
    data = (b"\0" + sk if idx >> 31 else pubkey(sk)) + idx.to_bytes(4, "big")
    i = hmac.new(cc, data, hashlib.sha512).digest()
    k = (int.from_bytes(i[:32], "big") + int.from_bytes(sk, "big")) % N
    return k.to_bytes(32, "big"), i[32:]


def index(s):
    return int(s[:-1]) | 1 << 31 if s.endswith("'") else int(s)


def rfc6979_sign(sk, digest):
    """Deterministic ECDSA (low s), as (r, s)."""
    x = int.from_bytes(sk, "big")
    z = int.from_bytes(digest, "big")
    v, k = b"\1" * 32, b"\0" * 32
    h1 = (z % N).to_bytes(32, "big")
    k = hmac.new(k, v + b"\0" + sk + h1, hashlib.sha256).digest()
    v = hmac.new(k, v, hashlib.sha256).digest()
    k = hmac.new(k, v + b"\1" + sk + h1, hashlib.sha256).digest()
    v = hmac.new(k, v, hashlib.sha256).digest()
    while True:
        v = hmac.new(k, v, hashlib.sha256).digest()
        t = int.from_bytes(v, "big")
        if 0 < t < N:
            r = mul(t)[0] % N
            s = pow(t, -1, N) * (z + r * x) % N
            if r and s:
                return r, min(s, N - s)
        k = hmac.new(k, v + b"\0", hashlib.sha256).digest()
        v = hmac.new(k, v, hashlib.sha256).digest()
