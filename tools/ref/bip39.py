"""BIP-39, English."""
import hashlib
import os
import unicodedata

WORDS = open(os.path.join(os.path.dirname(__file__), "english.txt")).read().split()
INDEX = {w: i for i, w in enumerate(WORDS)}


def check(entropy, bits):
    return int.from_bytes(hashlib.sha256(entropy).digest(), "big") >> 256 - bits


def phrase(entropy):
    cs = len(entropy) // 4
    v = int.from_bytes(entropy, "big") << cs | check(entropy, cs)
    n = (8 * len(entropy) + cs) // 11
    return [WORDS[v >> 11 * (n - 1 - i) & 2047] for i in range(n)]


def checksum_ok(words):
    n = len(words)
    if n % 3 or not n or any(w not in INDEX for w in words):
        return False
    v = 0
    for w in words:
        v = v << 11 | INDEX[w]
    cs = n // 3
    ent = (v >> cs).to_bytes((11 * n - cs) // 8, "big")
    return (v & (1 << cs) - 1) == check(ent, cs)


def entropy(words):
    """What a phrase was made from."""
    if len(words) < 3 or any(w not in INDEX for w in words):
        return b""
    v = 0
    for w in words:
        v = v << 11 | INDEX[w]
    cs = len(words) // 3
    return (v >> cs).to_bytes((11 * len(words) - cs) // 8, "big")


def seed(words, passphrase):
    nf = lambda s: unicodedata.normalize("NFKD", s).encode()
    return hashlib.pbkdf2_hmac("sha512", nf(" ".join(words)), b"mnemonic" + nf(passphrase), 2048)
