"""AES-256-CBC with PKCS#7 (FIPS-197), encryption only."""


def _sbox():
    p = q = 1
    s = [0] * 256
    while True:
        p = p ^ (p << 1 & 255) ^ (0x1B if p & 0x80 else 0)
        q ^= q << 1 & 255
        q ^= q << 2 & 255
        q ^= q << 4 & 255
        if q & 0x80:
            q ^= 0x09
        x = q ^ (q << 1 | q >> 7) & 255 ^ (q << 2 | q >> 6) & 255 ^ (q << 3 | q >> 5) & 255 ^ (q << 4 | q >> 4) & 255
        s[p] = (x ^ 0x63) & 255
        if p == 1:
            break
    s[0] = 0x63
    return s


S = _sbox()


def xt(a):
    return (a << 1 ^ (0x1B if a & 0x80 else 0)) & 255


def expand(key):
    w = [list(key[4 * i:4 * i + 4]) for i in range(8)]
    rc = 1
    for i in range(8, 60):
        t = list(w[i - 1])
        if i % 8 == 0:
            t = [S[t[1]] ^ rc, S[t[2]], S[t[3]], S[t[0]]]
            rc = xt(rc)
        elif i % 8 == 4:
            t = [S[x] for x in t]
        w.append([a ^ b for a, b in zip(w[i - 8], t)])
    return [sum(w[4 * r:4 * r + 4], []) for r in range(15)]


def block(rk, b):
    s = [a ^ k for a, k in zip(b, rk[0])]
    for r in range(1, 15):
        s = [S[x] for x in s]
        s = [s[(i + 4 * (i % 4)) % 16] for i in range(16)]
        if r < 14:
            t = []
            for c in range(4):
                a = s[4 * c:4 * c + 4]
                x = a[0] ^ a[1] ^ a[2] ^ a[3]
                t += [a[i] ^ x ^ xt(a[i] ^ a[(i + 1) % 4]) for i in range(4)]
            s = t
        s = [a ^ k for a, k in zip(s, rk[r])]
    return bytes(s)


def cbc(key, iv, pt):
    n = 16 - len(pt) % 16
    pt += bytes([n]) * n
    rk, out, prev = expand(key), b"", iv
    for i in range(0, len(pt), 16):
        prev = block(rk, bytes(a ^ b for a, b in zip(pt[i:i + 16], prev)))
        out += prev
    return out


assert block(expand(bytes(range(32))), bytes.fromhex("00112233445566778899aabbccddeeff")).hex() == "8ea2b7ca516745bfeafc49904b496089"
