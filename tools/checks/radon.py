"""Requests: what their scripts make of what they fetch, and their tallies of what is revealed."""
import itertools


def pad(b):
    return [0] * max(0, 32 - len(b)) + b[:32]


def tallies(rng, n, length):
    out = []
    for i in range(n):
        ops = []
        for _ in range(length):
            kind = rng.random()
            crowd = kind < 0.08 and not __import__("os").environ.get("NOCROWD")
            size = rng.choice([1, 2, 3, 4, 5, 6, 7, 8])

            def num():
                return rng.choice([0, 1, -1, 2, 3, 5, 10, 100, -100]) if rng.random() < 0.5 else rng.randint(-150, 150)

            few = rng.choice([True, False])
            atoms = [num() for _ in range(rng.choice([1, 2, 3]))]
            one = lambda: rng.choice(atoms) if few else num()
            width = rng.choice([1, 2, 3])
            sort = rng.choice("iiiifffaaysbmee")

            def err():
                return rng.choice([["e", "HttpStatus", 404], ["e", "HttpStatus", 500], ["e", "RetrieveTimeout", 0], ["e", "ArrayIndexOutOfBounds", rng.choice([0, 2])],
                                   ["e", "EncodeReveal", 0], ["e", "MalformedReveal", 0], ["e", "Unknown", 0], ["e", "UnhandledIntercept", rng.choice([0, 1])], ["x", rng.choice([0, 1, 2, 3])]])

            def val(k):
                if k == "i":
                    return ["i", one()]
                if k == "f":
                    return ["f", one()]
                if k == "a":
                    w = width if rng.random() < 0.95 else rng.choice([0, 1, 2])
                    q = rng.random()
                    return ["a", [val("i" if q < 0.9 else rng.choice("ifsa")) for _ in range(w)]]
                if k == "y":
                    return ["y", [rng.choice([0, 7]) for _ in range(rng.choice([0, 1, 31, 32, 33]))]]
                if k == "s":
                    return ["s", [rng.choice([97, 98])] * rng.choice([0, 1, 2])]
                if k == "b":
                    return ["b", rng.random() < 0.5]
                if k == "m":
                    return ["m", [[[97], ["i", one()]]]]
                return err()

            if crowd:
                # more of one kind than fit a byte
                k = rng.choice([40, 126, 127, 128, 129, 130, 200, 256, 257])
                reveals = [["i", 1]] * k + [["i", 2]] * rng.choice([0, 1, k // 3, k - 1, k])
                rng.shuffle(reveals)
                t = dict(filters=rng.choice([[], [dict(op=8, arg="none", s=0)]]), reducer=2)
            else:
                reveals = [val(sort) if rng.random() < 0.8 else err() if rng.random() < 0.6 else val(rng.choice("ifaysbm")) for _ in range(size)]
                if rng.random() < 0.5 and sort in "if":
                    reveals = [val(sort) for _ in range(size)]
                if rng.random() < 0.02:
                    reveals = []
                f = []
                for _ in range(rng.choice([0, 0, 1, 1, 2])):
                    arg = rng.choice(["number"] * 12 + ["none", "text", "garbage"])
                    f.append(dict(op=rng.choice([5] * 8 + [8] * 6 + [1, 0x85, 9, 300]), arg=arg, s=rng.choice([4, 6, 4, 8, 3, 5, 0, 12, -4, 2])))
                t = dict(filters=f, reducer=rng.choice([2, 2, 3, 3, 3, 5, 5, 11, 11 if sort == "y" else 3, 0, 7, 12, 300]))
            names = []
            if t["reducer"] == 11:
                bs = [r[1] for r in reveals if r[0] == "y"] + [list(bytes.fromhex("".join(map(chr, r[1])))) for r in reveals if r[0] == "s" and len(r[1]) % 2 == 0]
                seen = set()
                for k in range(len(bs) + 1):
                    for c in itertools.combinations(range(len(bs)), k):
                        p = sum((pad(bs[j]) for j in c), [])
                        if tuple(p) not in seen:
                            seen.add(tuple(p))
                            names.append(p)
            old = rng.random() < 0.5
            new = rng.random() < 0.9
            ops.append({"op": "tally", "reveals": reveals, "min": rng.choice([1, 20, 33, 34, 50, 51, 60, 66, 67, 70, 75, 80, 90, 99]), "commits": len(reveals) + rng.choice([0, 0, 0, 1, 2, 3]),
                        "many": rng.random() < 0.02, "t": t, "names": names,
                        "w": dict(w9=True, w17=True, w18=True, w19=True, w26=True) if new else dict(w9=old, w17=False, w18=False, w19=False, w26=False)})
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def same(s, e, o):
    return "panic" not in o and (e is None or not e["sharp"] or o["again"] and all(o[k] == e[k] for k in ("v", "liars", "errors")))


def tally(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.replay("tally", "MC_Tally", f"MC_Tally{t}.cfg", match=same)
    c.validate("tally", "Trace_Tally", tallies(c.rng, 800 if c.thorough else 100, 40))
    c.assumptions += ["integers and sixteenths up to 200 in size", "at most 8 values to filter by deviation", "no errors inside of arrays",
                      "where a value is exactly at the limit of a deviation that is not exact in floating point, both outcomes are admitted"]


def big(n):
    return ["i", n < 0, [int(c) for c in reversed(str(abs(n)))] if n else []]


def cps(s):
    return ["s", [ord(c) for c in s]]


M = 2**127
WORDS = ["", "a", "b", "ab", "B", "true", "false", "true\n", "True", "0", "1", "-1", "+7", "12", "1,234", "1.5", "-0.25", ".5", "5.", ".", "-", "1e3", "1e", "1,234.5", "1.234,5", "1 234,5",
         "0x", "0x0a", "abc", "0xabc", "a b", "a,b,,c", "é", "éa", "aé€", "€", "😀x", "ß", "É", "x\n", "\n", "nan", "inf", "aGk=", "YWI=", "YQ==", "YR==", "170141183460469231731687303715884105727",
         "170141183460469231731687303715884105728", "-170141183460469231731687303715884105728", "00012", "12 ", "hello world", "ababa", "aaa", "key", "zz"]
KEYS = ["a", "b", "ab", "", "key", "é", "1"]
INTS = [0, 1, -1, 2, 3, -3, 7, 10, 16, 255, 256, -128, 127, 100, 1000, 65535, -65536, 2**31, -2**31, 2**31 - 1, 2**32 - 1, 2**32, 2**62, 2**64 - 1, 2**64, 10**18, 10**30, M - 1, -M, M // 2, -M // 2, -M + 1, 5**40, 13043817825332782212, 13043817825332782213]
BARE = {"a": [16], "b": [32, 34], "y": [48, 50, 52], "i": [64, 72, 65, 66, 74], "f": [80, 81, 82, 84, 88, 91, 93], "m": [104, 105], "s": [112, 113, 114, 115, 116, 121, 122, 125, 118, 119, 120]}
WITH = {"a": [17, 19, 20, 21, 22, 23, 24, 25, 26, 26, 27, 27, 17, 29, 29], "b": [34], "y": [48, 49, 50, 60, 60], "i": [67, 68, 70, 71, 73, 74, 47], "f": [83, 85, 86, 87, 89], "m": [97, 98, 99, 100, 101, 102, 103],
        "s": [113, 114, 115, 117, 117, 123, 124, 124, 124, 125, 118, 119]}
CODES = [0, 255] + [c for v in BARE.values() for c in v] + [c for v in WITH.values() for c in v]
GIVES = {16: "i", 32: "s", 34: "b", 48: "s", 50: "i", 52: "i", 64: "i", 72: "i", 65: "f", 66: "s", 74: "y", 80: "f", 81: "s", 82: "i", 84: "i", 88: "f", 91: "i", 93: "i", 104: "a", 105: "a", 112: "b", 113: "y", 114: "f", 115: "i",
         116: "i", 121: "s", 122: "s", 125: "a", 118: "a", 119: "m", 17: "a", 19: "a", 20: "b", 21: "y", 22: "f", 23: "i", 24: "m", 25: "s", 26: "a", 29: "a", 49: "y", 60: "y", 67: "b", 68: "b", 70: "i", 71: "i", 73: "i",
         83: "b", 85: "b", 86: "f", 87: "f", 89: "f", 97: "a", 98: "b", 99: "y", 100: "f", 101: "i", 102: "m", 103: "s", 123: "s", 124: "s", 120: "m"}


def narrow(v):
    """as an argument: of 64 bits and a sign"""
    if v[0] == "i":
        n = int("".join(map(str, reversed(v[2]))) or "0")
        n = min(n, 2**64) if v[1] else min(n, 2**64 - 1)
        return big(-n if v[1] else n)
    if v[0] == "a":
        return ["a", [narrow(x) for x in v[1]]]
    if v[0] == "m":
        return ["m", [[k, narrow(x)] for k, x in v[1]]]
    return v


class Scripts:
    def __init__(self, rng):
        self.r = rng

    def int(self, near=None):
        r = self.r
        q = r.random()
        return big(r.randint(-9, 9) if q < 0.4 else r.choice(INTS) if q < 0.8 else r.choice(INTS) // r.choice([1, 2, 3, 7, 10]) if q < 0.9 else r.randint(-M, M - 1))

    def text(self):
        r = self.r
        q = r.random()
        if q < 0.6:
            return cps(r.choice(WORDS))
        return cps("".join(r.choice(["a", "b", "A", "0", "1", "5", ",", ".", "-", " ", "é", "€", "😀", "Z", "x", "\n"]) for _ in range(r.choice([1, 2, 3, 5, 8]))))

    def float(self):
        return ["f", self.r.choice([0, 16, -16, 8, -8, 24, 4, 1, -1, 17, 40, -40, 160, 3 * 16, self.r.randint(-400, 400), self.r.randint(-20000, 20000)])]

    def bytes(self):
        r = self.r
        q = r.random()
        if q < 0.2:
            return ["y", list(r.choice(WORDS).encode())]
        if q < 0.5:
            return ["y", list(r.choice(INTS).to_bytes(17, "big", signed=True)[1:])]
        return ["y", [r.choice([0, 1, 127, 128, 255, 0xc3, 0xa9, 0xe2, 0x82, 0xac, 0xed, 0xa0, 0xf0, 65]) for _ in range(r.choice([0, 1, 2, 3, 4, 8, 15, 16, 17, 32, 33]))]]

    def value(self, k, depth=0):
        r = self.r
        if k == "i":
            return self.int()
        if k == "s":
            return self.text()
        if k == "f":
            return self.float()
        if k == "y":
            return self.bytes()
        if k == "b":
            return ["b", r.random() < 0.5]
        if k == "a":
            n = r.choice([0, 1, 2, 2, 3, 3, 4, 5])
            sub = r.choice("iiiifffssssybam" if depth < 2 else "ifsyb")
            some = [self.value(sub, depth + 1) for _ in range(2)]
            out = [(r.choice(some) if r.random() < 0.4 else self.value(sub, depth + 1)) if r.random() < 0.95 else self.value(r.choice("ifsyb"), depth + 1) for _ in range(n)]
            if sub == "i" and r.random() < 0.2:
                out = [big(r.choice([M - 1, -M, 2**64, 2**65, -2**65])) for _ in out]
            elif sub == "i" and r.random() < 0.7:
                out = [big(r.randint(-30, 30)) for _ in out]
            return ["a", out]
        if k == "m":
            m = {c: self.value(r.choice("iifsbyssam" if depth < 2 else "ifsyb"), depth + 1) for c in r.sample(KEYS, r.choice([0, 1, 2, 3, 4]))}
            return ["m", [[[ord(c) for c in k], m[k]] for k in sorted(m)]]

    def json(self, depth=0):
        r = self.r
        k = r.choice("nbsidddaaoooo" if depth < 3 else "nbsid")
        if depth == 0:
            k = r.choice("aaoooooosdn")
        if k == "n":
            return ["n"]
        if k == "b":
            return ["b", r.random() < 0.5]
        if k == "s":
            return cps(r.choice(WORDS + ['"', "\\", "\t"]))
        if k == "i":
            return big(r.choice([0, 1, -1, 12, 10**6, 2**53 + 1, 10**17, -10**17, 10**18 - 1, 2**63, 2**64, 2**64 - 1]))
        if k == "d":
            return ["d", r.choice([16, 32, 8, 24, 4, -16, -8, 160, 1, 16 * 1000, 0 if r.random() < 0.3 else 16])]
        if k == "a":
            return ["a", [self.json(depth + 1) for _ in range(r.choice([0, 1, 2, 3]))]]
        return ["o", [[[ord(c) for c in x], self.json(depth + 1)] for x in r.sample(["a", "b", "ab", "é", "k"], r.choice([0, 1, 2, 3]))]]

    def path(self, j):
        r = self.r
        out = []
        for _ in range(r.choice([0, 1, 1, 2, 3])):
            if j and j[0] == "o" and r.random() < 0.9:
                plain = [p for p in j[1] if all(c < 128 for c in p[0])]
                p = r.choice(plain) if plain and r.random() < 0.9 else [[ord("q")], None]
                out.append(["k", p[0]])
                j = p[1]
            elif j and j[0] == "a" and r.random() < 0.4:
                out.append(["w", 0])
                j = j[1][0] if j[1] else None
            elif j and j[0] == "a" and r.random() < 0.9:
                i = r.randrange(len(j[1]) + 1)
                out.append(["i", i])
                j = j[1][i] if i < len(j[1]) else None
            else:
                out.append(r.choice([["k", [97]], ["i", 0]]))
                j = None
        return out

    def xml(self, depth=0):
        r = self.r
        nodes, text = [], False
        for _ in range(r.choice([0, 1, 1, 2, 3, 4]) if depth < 3 else r.choice([0, 1])):
            if depth < 3 and r.random() < 0.6:
                nodes.append(self.xml(depth + 1))
                text = False
            elif not text:
                nodes.append(["t", [ord(c) for c in r.choice(["a", "1", "x y", "&", "<", "é", ""])]])
                text = True
        names = ["a", "b", "item", "_text"]
        return ["el", [ord(c) for c in r.choice(names)], [[[ord(c) for c in k], [ord(c) for c in r.choice(["", "1", "é", '"'])]] for k in r.sample(["a", "id", "z"], r.choice([0, 0, 0, 1, 2]))], nodes]

    def deep(self, n):
        x = ["el", [97], [], [["t", [120]]]]
        for _ in range(n):
            x = ["el", [97], [], [x] + ([["el", [98], [], []]] if self.r.random() < 0.2 else [])]
        return x

    def args(self, code, kind, v, depth):
        r = self.r
        if r.random() < 0.05:
            return [self.value(r.choice("isfbym"), 1) for _ in range(r.choice([0, 1, 2, 3]))]
        seps = [cps(r.choice([",", ".", " ", "", "a", "00"])) if r.random() < 0.9 else self.int() for _ in range(r.choice([0, 0, 1, 2, 2, 3]))]
        if code in (17, 26, 29):
            if code == 17 and r.random() < 0.4:
                return [big(r.choice([5, 5, 5, 8, 8, 0, 9, 0x85, 300, -1]))] + ([r.choice([big(1), ["f", 16], ["f", 24], ["f", 4], big(0), cps("1")])] if r.random() < 0.8 else [])
            if code == 29 and v and v[0] == "a" and v[1] and v[1][0][0] == "a" and r.random() < 0.5:
                return [["p", [["k", 27, [big(2)]]]]]
            inner = v[1][0][0] if v and v[0] == "a" and v[1] else r.choice("is")
            sub = self.script(inner, v[1][0] if v and v[0] == "a" and v[1] else None, depth + 1, end="b" if code == 17 else None)
            return [["p", sub]] + ([self.int()] if r.random() < 0.03 else [])
        if code == 27:
            return [big(r.choice([2, 2, 3, 3, 5, 5, 7, 11, 0, 1, 12, 256, -1]))] + ([big(1)] if r.random() < 0.03 else [])
        if code in (19, 20, 21, 22, 23, 24, 25):
            n = len(v[1]) if v and v[0] == "a" else 2
            return [big(r.choice([0, 0, 1, n - 1, n, -1, 2**31 - 1, 2**31]) if r.random() < 0.3 else r.randrange(max(n, 1)))] + (seps if code in (22, 23) else [big(1)] if r.random() < 0.03 else [])
        if code in range(97, 104):
            ks = [p[0] for p in v[1]] if v and v[0] == "m" else []
            return [["s", r.choice(ks)] if ks and r.random() < 0.9 else cps(r.choice(KEYS))] + (seps if code in (100, 101) else [])
        if code in (67, 68, 70, 71):
            if v and v[0] == "i" and r.random() < 0.2:
                return [v]
            return [self.int()]
        if code == 73:
            return [big(r.choice([0, 1, 2, 3, 4, 5, 10, 31, 62, 63, 64, 126, 127, 128, 2**32 - 1, 2**32, -1, 2**31]))]
        if code in (83, 85, 86, 87):
            return [v if v and v[0] == "f" and r.random() < 0.2 else self.float()]
        if code == 89:
            return [["f", r.choice([0, 16, 32, 48, 8])]]
        if code in (74, 50):
            return [] if r.random() < 0.1 else [big(r.choice([0, 1, 1, 2, 255, 256, -1]))]
        if code == 49:
            return [big(r.choice([10, 10, 10, 0, 17, 18, 255, -1, 256]))]
        if code in (48, 113):
            return [] if r.random() < 0.1 else [big(r.choice([0, 0, 0x11, 0x11, 0x80, 0x80, 0x10, 1, 256]))]
        if code in (60, 124):
            n = len(v[1]) if v and v[0] in "sy" else 3
            return [big(r.choice([0, 1, 2, -1, -2, n, n + 1, -n, n // 2, -n - 1, 2**31 - 1, -2**31, 2**31])) for _ in range(r.choice([1, 2, 2, 2]))]
        if code in (114, 115):
            return seps
        if code == 117:
            m = {}
            for _ in range(r.choice([0, 1, 2])):
                m[r.choice(WORDS)] = self.value(r.choice("isfbysam"), 1)
            if v and v[0] == "s" and r.random() < 0.8:
                m["".join(map(chr, v[1]))] = self.value(r.choice("isfbyam"), 1)
            same = list(m.values())[-1][0] if m and r.random() < 0.6 else r.choice("isfbyam")
            return [["m", [[[ord(c) for c in k], m[k]] for k in sorted(m)]] if r.random() < 0.97 else self.int()] + ([self.value(same, 1)] if r.random() < 0.96 else [])
        if code in (123, 125):
            p = r.choice(["a", "ab", "aa", ",", " ", "", "é", "x", "aba", "["])
            return [cps(p) if r.random() < 0.97 else big(1)] + ([cps(r.choice(["", "b", "aa", "€", "a"]))] if code == 123 and r.random() < 0.95 else [])
        if code in (118, 119) and v and v[0] == "json":
            if code == 118 and r.random() < 0.3:
                return [["paths", [["path", self.path(v[1])] for _ in range(r.choice([0, 1, 2, 3]))]]]
            return [["path", self.path(v[1])]] if r.random() < 0.8 else []
        return []

    def call(self, kind, v, depth):
        r = self.r
        q = r.random()
        if q < 0.01:
            return r.choice([["none"], ["neg"], ["text"], ["c", 153], ["k", 153, []]])
        if q < 0.06 or kind not in BARE:
            code = r.choice(CODES)
        else:
            code = r.choice(BARE[kind] if r.random() < 0.35 else WITH[kind])
        bare = code in BARE.get(kind, []) and code not in WITH.get(kind, []) or code == 0
        if code in BARE.get(kind, []) and code in WITH.get(kind, []):
            bare = r.random() < 0.3
        if r.random() < 0.03:
            bare = not bare
        return ["c", code] if bare else ["k", code, [narrow(x) for x in self.args(code, kind, v, depth)]]

    def script(self, kind, v=None, depth=0, end=None):
        r = self.r
        out = []
        for i in range(r.choice([0, 1, 1, 1, 1, 2, 2, 3, 4]) if depth == 0 else r.choice([0, 1, 1, 2])):
            c = self.call(kind, v, depth)
            out.append(c)
            kind = GIVES.get(c[1], kind) if len(c) > 1 else kind
            v = None
        if end == "b" and kind in "ifs" and r.random() < 0.9:
            out.append(["k", {"i": 67, "f": 83, "s": 117}[kind], [narrow(x) for x in self.args({"i": 67, "f": 83, "s": 117}[kind], kind, v, depth)]])
        return out


def scripts(rng, n, length):
    out = []
    for i in range(n):
        g = Scripts(rng)
        ops = []
        for _ in range(length):
            q = rng.random()
            if q < 0.12:
                v = ["json", g.json()]
                s = [["k", rng.choice([118, 119]), []]]
                s[0][2] = [narrow(x) for x in g.args(s[0][1], "s", v, 0)]
                if rng.random() < 0.2:
                    s = [["c", s[0][1]]]
                kind = {118: "a", 119: "m"}[s[0][1]]
                doc = None
                s += g.script(kind, doc, 0)
            elif q < 0.2:
                v = ["xml", g.xml() if rng.random() < 0.9 else g.deep(rng.choice([18, 19, 20, 21, 22]))]
                s = [["c", 120]] + g.script("m", None, 0)
                if rng.random() < 0.05:
                    s = [["c", rng.choice([118, 119])]]
            else:
                k = rng.choice("iiifffssssyybaaaaaamm")
                v = g.value(k)
                s = g.script(k, v)
            w = dict(w24=rng.random() < 0.85, new=rng.random() < 0.9, w17=True, w18=True, w19=True, w26=True, w9=True)
            ops.append(dict(op="script", v=v, script=s, w=w, ws=rng.choice([0, 1, 2])))
        out.append(dict(id=i, cfg={}, ops=ops))
    return out


def agrees(s, e, o):
    return "panic" not in o and (e is None or e["murky"] or o["again"] and o["v"] == e["v"] and o["back"] in e["back"])


def script(c):
    c.build("val")
    t = "_thorough" if c.thorough else ""
    c.cov["open_probes"] = 5
    c.replay("script", "MC_Radon", f"MC_Radon{t}.cfg", match=agrees)
    c.validate("script", "Trace_Radon", scripts(c.rng, 3000 if c.thorough else 400, 40))
    c.assumptions += ["floats in sixteenths; what is not in sixteenths, random filters, hashes of hashes and patterns that are more than text are left open, though they may not panic",
                      "documents are generated from trees; paths into them are plain steps", "the libraries for CBOR, JSON paths and XML are stand-ins of this harness"]
