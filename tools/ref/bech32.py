"""Bech32 (BIP-173) and the SLIP-32 payload."""
CHARSET = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"


def polymod(values):
    chk = 1
    for v in values:
        top = chk >> 25
        chk = (chk & 0x1FFFFFF) << 5 ^ v
        for i, g in enumerate([0x3B6A57B2, 0x26508E6D, 0x1EA119FA, 0x3D4233DD, 0x2A1462B3]):
            chk ^= g if top >> i & 1 else 0
    return chk


def encode(hrp, payload):
    data, acc, bits = [], 0, 0
    for b in payload:
        acc = acc << 8 | b
        bits += 8
        while bits >= 5:
            bits -= 5
            data.append(acc >> bits & 31)
            acc &= (1 << bits) - 1
    if bits:
        data.append(acc << (5 - bits) & 31)
    pre = [ord(c) >> 5 for c in hrp] + [0] + [ord(c) & 31 for c in hrp]
    mod = polymod(pre + data + [0] * 6) ^ 1
    return hrp + "1" + "".join(CHARSET[d] for d in data + [mod >> 5 * (5 - i) & 31 for i in range(6)])


def slip32(sk, cc, path):
    return encode("xprv", bytes([len(path)]) + b"".join(i.to_bytes(4, "big") for i in path) + cc + b"\0" + sk)
