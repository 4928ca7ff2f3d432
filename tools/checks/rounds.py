"""Whole blocks, with rounds of data requests, against spec/Rounds.tla."""
import copy

T0 = 500_000_000
WEIGHT = [84, 88]  # of the data request of the harness, without and with a filter
PEOPLE = range(1, 13)
MIN = 10_000


def kind(v):
    return 1 if v < 100 else 2 if v < 200 else 3


def most(vs):
    n = {v: vs.count(v) for v in vs}
    m = max(n.values())
    return m, [v for v in n if n[v] == m]


def result(R, c, q, many, fl):
    """The result, who lied, who told of an error"""
    K = set(R)
    if many:
        return ["many"], K, K
    if c == 0:
        return ["noc"], K, K
    if not K:
        return ["nor"], K, K
    n, ts = most([kind(v) for v in R.values()])
    if 100 * n < q * c:
        return ["insuff", n, c], K, K
    if len(ts) > 1:
        return ["tie"], K, K
    m, vs = most([v for v in R.values() if kind(v) == ts[0]])
    if ts[0] == 3:
        return (["insuff", m, c], K, K) if 100 * m < q * c else (["err", vs[0]], set(), K)
    if len(vs) > 1:
        return ["texec"], {k for k in K if kind(R[k]) != ts[0]}, {k for k in K if kind(R[k]) == 3}
    liars = {k for k in K if kind(R[k]) != ts[0] or (fl == 1 and R[k] != vs[0])}
    n = len(K - liars)
    if 100 * n <= q * c:
        return ["insuff", n, c], K, K
    return ["val", vs[0]], liars, {k for k in K if kind(R[k]) == 3}


class Play:
    """Goes on from what was observed, with blocks that are mostly what a node would build."""

    def __init__(self, rng, length):
        r = self.rng = rng
        self.length = length
        self.mode = r.choice(["v1", "v1", "v2", "v2", "mix"])
        main = r.randint(0, 1)
        wip = r.choice([1, 2]) if self.mode == "v1" else 2
        nano = wip == 1
        late = not nano and self.mode == "v1" and r.random() < 0.2
        a18, a20, a21 = 30, r.randint(60, 80), r.randint(150, 170)
        if late:
            a18, a20, a21 = 2_400_000, 3_000_000, 3_100_000
        if nano:
            a18 = 50 + length * 2
            a20, a21 = a18 + 10, a18 + 20
        self.ep = 2_245_000 + r.choice([-2, 0, 1, 50]) if late else r.randint(3, 35) if self.mode == "v1" else r.choice([a20, a21 - 4]) if self.mode == "v2" else a20 - 4
        age = (13440 if wip >= 2 else 1000) if main else 80
        self.age = age
        bn = age + r.choice([-5, 0, 1, 3, 40, 40, 40])
        utxo = []
        for k in PEOPLE:
            for _ in range(r.choice([2, 3, 4])):
                utxo.append([k, r.choice([1, 2, 5, 10, 20, 20, 40, 90, 500]), r.choice([0] * 9 + [T0 + 10**9]), r.choice([0, 0, 0, max(0, bn - age), max(0, bn - age + 1), max(0, bn - age - 1), bn - 20, bn - 21, bn - 5])])
            if r.random() < 0.2:
                utxo.append([k, 30_000, 0, 0])
        stakes = []
        if self.mode != "v1" or r.random() < 0.3 and not late and not nano:
            ws = r.sample(range(1, 20), 19)
            many = r.choice([5, 8, 9, 12])
            for v in r.sample(PEOPLE, many):
                stakes.append([v, r.choice([v, ws[v]]), r.choice([MIN, MIN + 5, 11_000, 20_000, 50_000, 100_000, 100_000]), r.randint(1, max(1, min(self.ep - 1, 60)))])
        self.cfg = dict(
            a18=a18, a20=a20, a21=a21, main=main, utxo=utxo, stakes=stakes, bn=bn, maxvt=20000, maxdr=r.choice([80000, 80000, 80000, 6000]),
            cmin=r.choice([1, 5, 5, 20]), reward=r.choice([0, 48, 64]), halv=1_000_000, extra=r.choice([0, 1, 2, 3]), fl=r.randint(0, 1), wip=wip, dif=r.choice([1, 1, 1, 4]), nano=int(nano),
        )
        self.cfg["drw"] = WEIGHT[self.cfg["fl"]]
        self.p = {}  # what the requests ask for, by number
        self.plan = {}  # what is to be agreed on
        self.next, self.nd, self.bn = len(utxo) + 1, 1, bn
        self.o = None

    def v2(self, ep=None):
        return (self.ep if ep is None else ep) >= self.cfg["a20"]

    def when(self):
        a = self.cfg["a20"]
        return T0 + (45 * a + 20 * (self.ep - a) if self.v2() else 45 * self.ep)

    def col(self, p):
        return p["c"] or self.cfg["cmin"]

    def value(self, d):
        """What a witness reports"""
        r = self.rng
        if d not in self.plan:
            self.plan[d] = (r.choice([1, 2, 100, 101] + ([200, 201] if r.random() < 0.3 else [])), r.choice([0, 0, 0.2, 0.5, 0.8]), r.choice([0, 0.1, 0.3]))
        v, lie, mute = self.plan[d]
        return r.choice([0, 1, 3, 100, 101, 102, 200, 201, 202, 203, 300]) if r.random() < lie else v

    def outcome(self, p, C, R, many):
        fl, wip = self.cfg["fl"], self.cfg["wip"]
        res, liars, errors = result(R, len(C), p["q"], many, fl)
        K = set(R)
        honest = K - liars
        erred = liars & errors
        lied = set(C) - honest - erred
        col = self.col(p)
        share = rest = 0
        if wip < 2 and honest:
            share, rest = divmod(col * len(lied), len(honest))
        pay = {k: p["r"] + col + share for k in honest}
        pay.update({k: col for k in erred})
        if not honest:
            pay = {k: col for k in C}
        change = p["r"] * (p["w"] - len(honest)) + p["f"] * (2 * p["w"] - len(K) - len(C))
        return dict(res=res, ooc=sorted(set(C) - honest), err=sorted(K & errors if honest else K), pay=pay, rest=rest, change=change)

    def tally(self, d, p, C, R, many):
        o = self.outcome(p, C, R, many)
        outs = [] if self.v2(p["ep"]) else [[k, v, 0] for k, v in sorted(o["pay"].items())]
        if self.rng.random() < 0.3:
            self.rng.shuffle(outs)
        if o["change"]:
            outs.append([p["own"], o["change"], 0])
        ooc, err = list(o["ooc"]), list(o["err"])
        if self.rng.random() < 0.3:
            self.rng.shuffle(ooc)
        return dict(d=d, res=o["res"], outs=outs, ooc=ooc, err=err), o["rest"]

    def free(self, u, k=None, old=None):
        return [i for i in u if u[i][2] <= self.when() and (k is None or u[i][1 - 1] == k) and (old is None or u[i][3] <= max(0, self.bn - self.age))]

    def block(self):
        r = self.rng
        o = self.o
        u = {x[0]: x[1:] for x in o["utxo"]}
        stakes = {x[0]: x for x in o["stakes"]}
        b = dict(op="block", ep=self.ep, miner=r.choice(sorted(stakes)) if stakes and self.v2() else r.choice(PEOPLE), vts=[], cms=[], rvs=[], drs=[], tls=[], sts=[], uts=[], root=0)
        fees = 0
        busy = r.random()
        pending = {x[0]: x for x in o["drs"]}

        def ins(ids):
            out = [[i, u[i][0], 1] for i in ids]
            for i in ids:
                del u[i]
            return out
        # commits
        spent = {}
        for d, x in pending.items():
            p = self.p[d]
            if x[2] == "commit" and r.random() < 0.75:
                col = self.col(p)
                batch = []
                people = r.sample(PEOPLE, len(PEOPLE))
                if self.v2(p["ep"]):
                    # the strongest, mostly
                    people = sorted(stakes, key=lambda v: -stakes[v][2] * max(0, self.ep - stakes[v][5]) * (r.choice([0.5, 1, 1, 1])))
                for k in people:
                    if len(batch) == p["w"]:
                        break
                    ids, outs = [], []
                    if not self.v2(p["ep"]):
                        got = 0
                        for i in self.free(u, k, True):
                            if got < col and i not in [z[0] for t in batch for z in t["ins"]]:
                                ids.append(i)
                                got += u[i][1]
                        if got < col:
                            continue
                        if got > col:
                            outs = [[k, got - col, 0]]
                    elif k not in stakes or stakes[k][2] - spent.get(k, 0) < MIN + col:
                        continue
                    batch.append(dict(d=d, k=k, ins=[[i, k, 1] for i in ids], outs=outs, val=self.value(d), good=1, prf=1))
                if len(batch) == p["w"]:
                    for t in batch:
                        ins([z[0] for z in t["ins"]])
                        spent[t["k"]] = spent.get(t["k"], 0) + col
                    b["cms"] += batch
                    fees += p["w"] * p["f"]
            elif x[2] == "reveal":
                done = {z[0] for z in x[6]}
                self.value(d)
                for k, val in x[5]:
                    if k not in done and r.random() >= self.plan[d][2] and r.random() < 0.7:
                        b["rvs"].append(dict(d=d, k=k, val=val, good=1, sg=k))
                        fees += p["f"]
            elif x[2] == "tally":
                t, rest = self.tally(d, p, [z[0] for z in x[5]], dict(map(tuple, x[6])), False)
                b["tls"].append(t)
                fees += rest
        if r.random() < 0.3:
            r.shuffle(b["tls"])
        if r.random() < 0.3:
            r.shuffle(b["rvs"])
        # transfers
        for _ in range(r.choice([0, 0, 1, 2])):
            ids = self.free(u)
            if ids:
                i = r.choice(ids)
                own, v = u[i][0], u[i][1]
                out = r.randint(0, v)
                b["vts"].append(dict(ins=ins([i]), outs=[[r.choice([own, r.choice(PEOPLE)]), out, 0]] if out else [], xs=0))
                fees += v - out
        # requests
        crowds = []
        for _ in range(r.choice([0, 0, 1, 1, 2]) if len(pending) < 4 else 0):
            ids = self.free(u)
            if not ids:
                break
            ids = r.sample(ids, min(len(ids), r.choice([1, 1, 2])))
            own, total = u[ids[0]][0], sum(u[i][1] for i in ids)
            lim = len(stakes) // (4 if self.cfg["main"] else 2)
            w = r.choice([1, 2, 3, 3, 4, 5]) if not self.v2() else r.randint(1, max(1, lim)) if r.random() < 0.9 else r.randint(1, lim + 2)
            rr, f = r.choice([1, 1, 2, 5]), r.choice([0, 1, 1, 2])
            c = r.choice([self.cfg["cmin"], self.cfg["cmin"] + 3] + ([0] if not self.v2() else []))
            cost = w * (rr + 2 * f)
            if cost > total:
                continue
            t = dict(ins=[[i, u[i][0], 1] for i in ids], outs=[], w=w, r=rr, f=f, q=r.choice([51, 51, 60, 70, 99]), c=c, xs=0)
            left = total - cost
            if left and r.random() < 0.8:
                v = r.choice([left, r.randint(1, left)])
                t["outs"] = [[own, v, 0]]
                left -= v
            ins(ids)
            fees += left
            b["drs"].append(t)
            d = self.nd + len(b["drs"]) - 1
            self.p[d] = dict(t, own=own, ep=self.ep)
            if self.v2() and w > lim:
                x, _ = self.tally(d, self.p[d], [], {}, True)
                crowds.append(x)
        b["tls"] += crowds
        # stakes
        if self.ep >= self.cfg["a18"] and r.random() < 0.2:
            ids = [i for i in self.free(u) if u[i][1] >= MIN]
            if ids:
                i = r.choice(ids)
                v = r.choice(PEOPLE)
                wd = stakes[v][1] if v in stakes else r.randint(1, 19)
                n = min(u[i][1], r.choice([10**6, MIN, MIN + 7]))
                t = dict(ins=[[i, u[i][0], 1]], v=v, wd=wd, val=n, auth=1, chg=[], xs=0)
                fees += u[i][1] - n
                ins([i])
                b["sts"].append(t)
        if self.v2() and r.random() < 0.2 and stakes:
            v = r.choice(sorted(stakes))
            s = stakes[v]
            committed = any(z[0] == v for x in pending.values() for z in x[5]) or v in spent or any(v == t["v"] for t in b["sts"])
            lim = (len(stakes) - 1) // (4 if self.cfg["main"] else 2)
            wmax = max([self.p[d]["w"] for d in pending] + [t["w"] for t in b["drs"]] + [0])
            room = s[2] - MIN
            f = r.choice([0, 1])
            n = None
            # (all of it and a commit: see known_findings.txt)
            if v not in spent and wmax <= lim and r.random() < 0.4:
                n = s[2] - f
            elif room - f > 0:
                n = r.randint(1, room - f)
            if n:
                b["uts"].append(dict(v=v, k=s[1], good=1, to=s[1], val=n, fee=f, n=s[3], l=1209600 if self.cfg["main"] else 3600))
                fees += f
        outs = []
        pay = fees + self.cfg["reward"] // 2 ** (self.ep // self.cfg["halv"])
        if not self.v2() and pay:
            outs = [[b["miner"], pay, self.ep]]
        b["mint"] = dict(ep=self.ep, outs=outs)
        return b

    def spoil(self, b):
        r = self.rng
        b = copy.deepcopy(b)
        ways = ["root"]
        for k, w in (("cms", ["prf", "prf3", "sig", "drop", "dup", "who", "in", "out", "young", "foreign", "stage", "ghost", "chg", "twice"]),
                     ("rvs", ["sg", "unsig", "val", "dup", "who", "stage", "all"]),
                     ("tls", ["drop", "dup", "res", "pay", "to", "ooc-", "ooc+", "ooc2", "err-", "err+", "chg", "chgto", "nochg", "merge", "stage", "lock", "swap"]),
                     ("drs", ["w", "drop"])):
            if b[k]:
                ways += [(k, x) for x in w]
        if b["mint"]["outs"]:
            ways += [("mint", 1), ("mint", -1)]
        else:
            ways += [("mint", 0)]
        stages = {x[0]: x for x in self.o["drs"]}
        w = r.choice(ways) if r.random() < 0.3 else r.choice([x for x in ways if x != "root"] or ways)
        if w == "root":
            b["root"] = r.randint(1, 8)
            return b
        k, w = w
        if k == "mint":
            if w == 0:
                b["mint"]["outs"] = [[b["miner"], r.choice([1, self.cfg["reward"] or 1, 50]), 0]]
            else:
                b["mint"]["outs"][0][1] += w
            return b
        t = r.choice(b[k])
        if w == "dup":
            b[k].append(copy.deepcopy(t))
        elif w == "drop":
            b[k].remove(t)
        elif w == "stage":
            t["d"] = r.choice(list(stages) + [98])
        elif w == "ghost":
            t["d"] = 99
        elif k == "cms":
            p = self.p[t["d"]]
            if w == "prf":
                t["prf"] = 2
            elif w == "prf3":
                t["prf"] = 3
            elif w == "sig":
                t["good"] = 0
            elif w == "who":
                t["k"] = r.choice(PEOPLE)
                if r.random() < 0.5:
                    for i in t["ins"]:
                        i[1] = t["k"]
                    for x in t["outs"]:
                        x[0] = t["k"]
            elif w == "in":
                have = self.free({x[0]: x[1:] for x in self.o["utxo"]}, t["k"])
                if have and not (self.v2(p["ep"]) and not t["ins"]):
                    t["ins"].append([r.choice(have), t["k"], 1])
            elif w == "out":
                if t["outs"]:
                    t["outs"][0][1] += r.choice([-1, 1])
            elif w == "chg":
                t["outs"].append([t["k"], 1, 0])
                if t["outs"][0][1] > 1:
                    t["outs"][0][1] -= 1
            elif w in ("young", "foreign"):
                u = {x[0]: x[1:] for x in self.o["utxo"]}
                col = self.col(p)
                for i in u:
                    if (u[i][0] == t["k"]) == (w == "young") and u[i][1] >= col and not (self.v2(p["ep"]) and u[i][1] == col):
                        t["ins"] = [[i, t["k"], 1]]
                        t["outs"] = [[t["k"], u[i][1] - col, 0]] if u[i][1] > col else []
                        if self.v2(p["ep"]) and r.random() < 0.7:
                            t["outs"] = [[t["k"], u[i][1], 0]]
                        break
            elif w == "twice":
                x = r.choice(b["cms"])
                if x is not t and x["d"] == t["d"]:
                    t["k"] = x["k"]
        elif k == "rvs":
            if w == "sg":
                t["sg"] = r.choice(PEOPLE)
            elif w == "unsig":
                t["good"] = 0
            elif w == "val":
                t["val"] = r.choice([0, 1, 2, 100, 200, 300])
            elif w == "who":
                t["k"] = t["sg"] = r.choice(PEOPLE)
            else:
                s = stages.get(t["d"])
                if s and s[6]:
                    q = r.choice(s[6])
                    b["rvs"].append(dict(d=t["d"], k=q[0], val=q[1], good=1, sg=q[0]))
        elif k == "tls":
            d = t["d"]
            p = self.p[d]
            if w == "res":
                t["res"] = r.choice([["val", 1], ["val", 2], ["val", 100], ["noc"], ["nor"], ["insuff", 1, 2], ["insuff", 1, 3], ["many"], ["texec"] if d in stages and stages[d][6] else ["many"]])
            elif w == "pay" and t["outs"]:
                r.choice(t["outs"])[1] += r.choice([-1, 1])
            elif w == "to" and t["outs"]:
                r.choice(t["outs"])[0] = r.choice(PEOPLE)
            elif w == "lock" and t["outs"]:
                r.choice(t["outs"])[2] = 5
            elif w == "swap" and len(t["outs"]) > 1:
                i = r.randrange(len(t["outs"]) - 1)
                x = t["outs"]
                x[i][1], x[-1][1] = x[-1][1], x[i][1]
            elif w == "ooc-" and t["ooc"]:
                t["ooc"].remove(r.choice(t["ooc"]))
            elif w == "ooc+":
                t["ooc"].append(r.choice(PEOPLE))
            elif w == "ooc2" and t["ooc"]:
                t["ooc"][-1] = r.choice(PEOPLE)
            elif w == "err-" and t["err"]:
                t["err"].remove(r.choice(t["err"]))
            elif w == "err+":
                t["err"].append(r.choice(PEOPLE))
            elif w == "chg":
                t["outs"].append([p["own"], 1, 0])
            elif w == "chgto" and t["outs"]:
                t["outs"][-1][0] = t["outs"][-1][0] % 12 + 1
            elif w == "nochg" and t["outs"]:
                t["outs"].pop()
            elif w == "merge" and len(t["outs"]) > 1:
                x = t["outs"].pop()
                t["outs"][-1][1] += x[1]
        elif k == "drs" and w == "w":
            t["w"] = r.choice([0, 1, len(self.o["stakes"]), 20])
        return b

    def recorded(self, b):
        """What known_findings.txt tells of is left out"""
        u = {x[0]: x[2] for x in self.o["utxo"]}
        for t in b["cms"]:
            p = self.p.get(t["d"])
            # a commit in wit/2 that takes its collateral from outputs
            if p and self.v2(p["ep"]) and sum(u.get(i[0], 0) for i in t["ins"]) - sum(x[1] for x in t["outs"]) == self.col(p):
                return True
        return False

    def created(self, b):
        return sum(len(t["outs"]) for k in ("vts", "cms", "drs", "tls") for t in b[k]) + sum(len(t["chg"]) for t in b["sts"]) + len(b["uts"]) + len(b["mint"]["outs"])

    def took(self, b, o):
        self.o = o
        if o["ok"] is True:
            self.next += self.created(b)
            for i, t in enumerate(b["drs"]):
                self.p[self.nd + i] = dict(t, own=t["ins"][0][1], ep=b["ep"])
            self.nd += len(b["drs"])
            self.bn += 1
            self.ep += self.rng.choice([1, 1, 1, 2])

    def play(self):
        yield self.cfg
        self.o = yield dict(op="block", ep=self.ep, miner=1, vts=[], cms=[], rvs=[], drs=[], tls=[], sts=[], uts=[], root=1, mint=dict(ep=self.ep, outs=[]))
        for _ in range(self.length):
            if self.v2() and not self.o["stakes"]:
                return  # nobody to propose a block
            b = self.block()
            if self.rng.random() < 0.5:
                bad = self.spoil(b)
                if bad != b and not self.recorded(bad):
                    o = yield bad
                    if o["ok"] == "panic":
                        return
                    self.took(bad, o)
                    if o["ok"] is True:
                        continue
            o = yield b
            if o["ok"] == "panic":
                return
            self.took(b, o)
            if o["ok"] is not True:
                self.ep += 1


def plays(rng, n, length):
    import random
    for _ in range(n):
        yield Play(random.Random(rng.getrandbits(64)), length).play()


def lucky():
    """The rest of a script is not compared once the draw did not favour somebody"""
    off = []

    def post(t):
        off.clear()

    def match(s, e, o):
        from vlib import norm
        if "n" in o["el"]:
            off.append(1)
        same = o["pure"] and norm({k: o[k] for k in e}) == norm(e)
        # key=errors-unrewarded; the recordings of live players are checked with it
        if not same and o["ok"] is True and s["ep"] >= 40 and any(x["res"][0] == "err" for x in s["tls"]):
            off.append(1)
        return bool(off) or same
    return dict(match=match, post=post)


CFG = dict(a18=20, a20=40, a21=60, main=0, bn=100, maxvt=20000, maxdr=80000, cmin=4, reward=7, halv=1_000_000, extra=1, fl=0, wip=2, dif=1, nano=0, drw=84,
           utxo=[[1, 40, 0, 7], [1, 40, 0, 7], [3, 4, 0, 1], [3, 20, 0, 1]],
           stakes=[[1, 1, 10_000, 1], [2, 2, 20_000, 2], [3, 13, 500_000, 3], [4, 4, 25_000, 1]])


def blk(ep, **kw):
    b = dict(op="block", ep=ep, miner=2, vts=[], cms=[], rvs=[], drs=[], tls=[], sts=[], uts=[], root=0, mint=dict(ep=ep, outs=[]))
    b.update(kw)
    return b


def ask(i, w, c=4):
    return dict(ins=[[i, 1, 1]], outs=[[1, 40 - w * 4, 0]], w=w, r=2, f=1, q=51, c=c, xs=0)


def com(d, k, val, ins=()):
    return dict(d=d, k=k, ins=list(ins), outs=[], val=val, good=1, prf=1)


def recorded(c):
    def probe(key, ops, same, cfg="Trace_Rounds.cfg", **kw):
        c.recorded("rounds", "Trace_Rounds", key, dict(id=0, cfg=dict(CFG, **kw), ops=ops), lambda t: same(t["steps"][-1]["obs"], t["steps"]), cfg=cfg)

    def stake(o, v):
        return next(s[2] for s in o["stakes"] if s[0] == v)
    ok = lambda o, s: o["ok"] is True  # noqa
    none = dict(outs=[[1, 8, 0]], ooc=[], err=[])
    probe("commit-inputs", [blk(45, drs=[ask(1, 1)]), blk(46, cms=[com(1, 3, 1, [[3, 3, 1]])])], ok)
    probe("crowd-left", [blk(45, drs=[ask(1, 3)], tls=[dict(d=1, res=["many"], **none)], root=1, keep=1)],
          lambda o, s: o["ok"] is False and len(o["drs"]) == 1)
    gone = [dict(v=v, k=k, good=1, to=k, val=n, fee=0, n=e, l=3600) for v, k, n, e in ((1, 1, 10_000, 1), (4, 4, 25_000, 1))]
    probe("crowd-halt", [blk(45, drs=[ask(1, 2)]), blk(46, uts=gone), blk(47), blk(48, tls=[dict(none, d=1, res=["noc"])])],
          lambda o, s: s[-2]["obs"]["ok"] is True and o["ok"] is False and o["drs"][0][2] == "tally")
    probe("chained-fees", [blk(45, vts=[dict(ins=[[1, 1, 1]], outs=[[2, 20, 0]], xs=0), dict(ins=[[5, 2, 1]], outs=[], xs=0)])],
          lambda o, s: o["ok"] is True and stake(o, 2) == 20_000 + 20 + 50)
    probe("errors-unrewarded", [blk(45, drs=[ask(1, 1)]), blk(46, cms=[com(1, 3, 200)]), blk(47, rvs=[dict(d=1, k=3, val=200, good=1, sg=3)]),
                                blk(48, tls=[dict(d=1, res=["err", 200], outs=[], ooc=[], err=[3])])],
          lambda o, s: o["ok"] is True and stake(o, 3) == 500_000, cfg="Trace_Rounds_strict.cfg")
    probe("no-collateral", [blk(45, drs=[ask(1, 1, 0)]), blk(46, cms=[com(1, 3, 1)])],
          lambda o, s: o["ok"] is True and stake(o, 3) == 500_000)
    probe("unstake-commit", [blk(45, drs=[ask(1, 1)]), blk(46, cms=[com(1, 3, 1)], uts=[dict(v=3, k=13, good=1, to=13, val=500_000, fee=0, n=3, l=3600)])],
          lambda o, s: o["ok"] is True and stake(o, 3) == 500_000 - 4 and any(u[1:3] == [13, 500_000] for u in o["utxo"]))
    probe("twice-reserved", [blk(45, drs=[ask(1, 1), ask(2, 1)]), blk(46, cms=[com(1, 3, 1), com(2, 3, 1)])],
          lambda o, s: o["ok"] is True and stake(o, 3) == 10_005 - 4, stakes=[[1, 1, 10_000, 39], [2, 2, 10_000, 39], [3, 13, 10_005, 3], [4, 4, 10_000, 39]])


def rounds(c):
    c.build("val")
    c.replay("rounds", "MC_Rounds", "MC_Rounds_thorough.cfg" if c.thorough else None, limit=100000 if c.thorough else 25000, timeout=1500, **lucky())
    ts = c.live("rounds", list(plays(c.rng, 5000 if c.thorough else 400, 30 if c.thorough else 24)), timeout=1500)
    c.validate("rounds", "Trace_Rounds", None, traces=ts, timeout=2400)
    recorded(c)


class Mine(Play):
    """Offers transactions to the pool of a node that proposes blocks out of it"""

    def __init__(self, rng, length):
        super().__init__(rng, length)
        if rng.random() < 0.4:
            self.cfg["maxvt"] = rng.choice([493, 1000, 1500, 3000])
            self.cfg["maxdr"] = rng.choice([80000, 3000, 6000])
        if self.ep > 2_000_000:
            # the rule of the months before the second version: see DESIGN.md
            self.ep -= 100_000
        if self.cfg["main"] and self.ep < 400_000:
            # after the second hard fork, as nodes are
            for k in ("a18", "a20", "a21"):
                self.cfg[k] += 450_000
            self.ep += 450_000
            for x in self.cfg["stakes"]:
                x[3] += 450_000
        if self.cfg["nano"] and rng.random() < 0.5:
            self.cfg["out"] = [rng.randint(13, 15), rng.choice([0, 1, 33, 50, 100])]

    def halted(self):
        lim = len({s[0] for s in self.o["stakes"]}) // (4 if self.cfg["main"] else 2)
        return any(self.v2(self.p[d[0]]["ep"]) and self.p[d[0]]["w"] > lim for d in self.o["drs"])

    def more(self, b):
        """What conflicts with it or is not needed"""
        r = self.rng
        for t in list(b["vts"]):
            if r.random() < 0.3:
                x = copy.deepcopy(t)
                if x["outs"] and x["outs"][0][1] > 1:
                    x["outs"][0][1] -= r.randint(0, min(2, x["outs"][0][1] - 1))
                    x["outs"][0][0] = r.choice(PEOPLE)
                b["vts"].append(x)
        for t in list(b["drs"]):
            if r.random() < 0.2:
                x = copy.deepcopy(t)
                x["q"] = r.choice([51, 55, 80])
                b["drs"].append(x)
            elif r.random() < 0.1:
                b["vts"].append(dict(ins=copy.deepcopy(t["ins"]), outs=[], xs=0))
        if b["cms"] and r.random() < 0.3:
            t = copy.deepcopy(r.choice(b["cms"]))
            if not t["ins"] and r.random() < 0.5:
                t["k"] = r.choice(PEOPLE)
            b["cms"].append(t)
        return b

    def play(self):
        r, gone = self.rng, set()
        yield self.cfg
        self.o = yield dict(op="block", ep=self.ep, miner=1, vts=[], cms=[], rvs=[], drs=[], tls=[], sts=[], uts=[], root=1, mint=dict(ep=self.ep, outs=[]))
        for _ in range(self.length):
            if self.v2() and not self.o["stakes"]:
                return
            b = self.block()
            offered = self.more(copy.deepcopy(b))
            if r.random() < 0.4:
                x = self.spoil(copy.deepcopy(offered))
                if not self.recorded(x):
                    offered = x
            txs = [(k, t) for k in ("vts", "cms", "rvs", "drs", "sts", "uts") for t in offered[k]]
            if r.random() < 0.8:
                r.shuffle(txs)
            if self.halted():
                return
            for k, t in txs:
                if k == "drs" and t["c"] == 0 and self.ep + 40 > self.cfg["a20"]:
                    continue
                if k == "uts" and t["val"] + t["fee"] in [s[2] for s in self.o["stakes"] if s[0] == t["v"]]:
                    if t["v"] in [x["k"] for j, x in txs if j == "cms"]:
                        continue
                    gone.add(t["v"])
                if k == "cms" and t["k"] in gone:
                    continue
                if r.random() < 0.95:
                    o = yield dict(op="add", ep=self.ep, kind=k, tx=t)
                    if o["ok"] == "panic":
                        return
            if r.random() < 0.1:
                # another miner is faster
                o = yield b
                self.took(b, o)
            else:
                m = b["miner"]
                o = yield dict(op="mine", ep=self.ep, miner=m, take=int(r.random() < 0.85))
                if o["ok"] == "panic":
                    return
                if o["utxo"] != self.o["utxo"] or o["drs"] != self.o["drs"] or o["stakes"] != self.o["stakes"]:
                    self.took(o["blk"], o)
                    continue
            self.o = o
            self.ep += 1


def mines(rng, n, length):
    import random
    for _ in range(n):
        yield Mine(random.Random(rng.getrandbits(64)), length).play()


def mining(c):
    c.build("val")
    ts = c.live("rounds", list(mines(c.rng, 4000 if c.thorough else 500, 30 if c.thorough else 20)), timeout=1500)
    c.validate("rounds", "Trace_Mining", None, traces=ts, timeout=2400)
    crowd = [dict(op="add", ep=45, kind="drs", tx=ask(1, 3)), dict(op="mine", ep=45, miner=1, take=0, keep=1)]
    c.recorded("rounds", "Trace_Mining", "crowd-built", dict(id=0, cfg=CFG, ops=crowd),
               lambda t: len(t["steps"][-1]["obs"]["drs"]) == 1 and t["steps"][-1]["obs"]["ok"] is True)
