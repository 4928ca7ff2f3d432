"""Blocks of transactions over the ledger against spec/Blocks.tla."""
import copy

MAXV, T0 = 18446744, 500_000_000
DRW = 54  # weight of the request in every data request of the harness


def ver(cfg, ep):
    return 21 if ep >= cfg["a21"] else 20 if ep >= cfg["a20"] else 18 if ep >= cfg["a18"] else 17


def when(cfg, ep):
    return T0 + (45 * cfg["a20"] + 20 * (ep - cfg["a20"]) if ep >= cfg["a20"] else 45 * ep)


class World:
    """A shadow of the ledger, good enough to choose blocks that are interesting."""

    def __init__(self, rng):
        self.rng = rng
        era = rng.choice([17, 18, 20, 20, 20, 21, 21])
        a18, a20, a21 = rng.randint(20, 60), rng.randint(100, 140), rng.randint(200, 240)
        self.ep = {17: rng.randint(5, a18 - 1), 18: rng.randint(a18 - 3, a20 - 1), 20: rng.randint(a20 - 3, a21 - 1), 21: rng.randint(a21 - 3, 400)}[era]
        n = rng.randint(2, 9)
        utxo = []
        for _ in range(n):
            lock = rng.choice([0, 0, 0, 0, 1, T0, T0 + 45 * self.ep // 2, T0 + 45 * self.ep + 30])
            utxo.append([rng.randint(1, 4), rng.choice([1, 2, 12, 40, 700, 9000, 30000, 1_000_000]), lock, rng.randint(0, 40)])
        stakes = []
        if era >= 18:
            for v in rng.sample(range(1, 12), rng.choice([0, 1, 3, 4, 8, 9])):
                stakes.append([v, rng.randint(1, 4), rng.choice([10, 11, 15, 20, 25, 4000, 9990, 10000]), rng.randint(1, self.ep)])
        self.cfg = dict(
            a18=a18, a20=a20, a21=a21, main=rng.randint(0, 1), utxo=utxo, stakes=stakes, bn=rng.randint(40, 60),
            maxvt=rng.choice([20000, 20000, 1500, 986]), maxdr=rng.choice([80000, 80000, 2000, DRW + 30 + 636 + 100 + 133 + 36, DRW + 30 + 636 + 100 + 133]),
            cmin=rng.choice([1, 2, 20]), reward=rng.choice([0, 64, 128]), halv=rng.choice([30, 100, 1000]), drw=DRW + 30,
        )
        self.u = {i + 1: list(x) for i, x in enumerate(utxo)}
        self.s = {(x[0], x[1]): [x[2], x[3]] for x in stakes}
        self.next = n + 1
        self.bn = self.cfg["bn"]

    def ver(self):
        return ver(self.cfg, self.ep)

    def outs(self, total, n, owners=(1, 2, 3, 4)):
        """n outputs of at most that value"""
        r = self.rng
        o = []
        for i in range(n):
            if total <= 0:
                break
            v = total if i == n - 1 and r.random() < 0.5 else r.randint(1, total)
            total -= v
            o.append([r.choice(owners), v, r.choice([0, 0, 0, 5, T0 - 1, T0, T0 + 45 * self.ep + 100])])
        return o

    def take(self, u, k):
        ids = [i for i in u if u[i][2] <= when(self.cfg, self.ep)]
        self.rng.shuffle(ids)
        return ids[:k]

    def spend(self, u, ins, outs):
        same = len({u[i[0]][0] for i in ins}) == 1
        b = max((u[i[0]][3] for i in ins), default=0)
        o = u[ins[0][0]][0] if ins else None
        for i in ins:
            del u[i[0]]
        for x in outs:
            lock = x[2] + when(self.cfg, self.ep) if self.ver() >= 20 and x[2] < T0 else x[2]
            u[self.nx] = [x[0], x[1], lock, b if same and x[0] == o else self.bn]
            self.nx += 1

    def mk(self, kind, u, s):
        r = self.rng
        if kind == "ut":
            if not s:
                return None, 0
            (v, w) = k = r.choice(sorted(s))
            have, n = s[k]
            m = r.random()
            fee = r.choice([0, 0, 1, 2])
            val = max(0, have - fee) if m < 0.4 else max(0, have - 10 - fee) if m < 0.7 else r.randint(0, max(0, have - fee))
            delay = 1209600 if self.cfg["main"] else 3600
            lock = r.choice([delay, delay, delay + 7, T0 + 45 * 400 + delay])
            return dict(v=v, k=w, good=1, to=w, val=val, l=lock, fee=fee, n=n), fee
        ids = self.take(u, r.choice([1, 1, 2, 3]))
        if not ids:
            return None, 0
        total = sum(u[i][1] for i in ids)
        ins = [[i, u[i][0], 1] for i in ids]
        t = dict(ins=ins, xs=0)
        if kind == "vt":
            t["outs"] = self.outs(total, r.choice([0, 1, 2, 2, 3]))
            return t, total - sum(x[1] for x in t["outs"])
        if kind == "dr":
            w, rr, f = r.choice([1, 1, 2, 3, 10]), r.choice([1, 2, 8]), r.choice([0, 0, 1, 3])
            cost = w * (rr + 2 * f)
            if cost > total:
                return None, 0
            t.update(w=w, r=rr, f=f, q=r.choice([51, 70, 99]), c=r.choice([0, 0, self.cfg["cmin"], 125 * rr, 124]))
            t["outs"] = self.outs(total - cost, r.choice([0, 1]), (u[ids[0]][0],))
            return t, total - cost - sum(x[1] for x in t["outs"])
        if kind == "st":
            free = [v for v in range(1, 30) if not any(k[0] == v for k in s)]
            if s and r.random() < 0.6:
                v, wd = r.choice(sorted(s))
                room = 10000 - s[(v, wd)][0]
            else:
                v, wd, room = r.choice(free), r.randint(1, 4), 10000
            room = min(total, room)
            if room < 10:
                return None, 0
            val = room if r.random() < 0.4 else min(room, r.choice([10, 11, 60]))
            t.update(v=v, wd=wd, val=val, auth=1, chg=self.outs(total - val, r.choice([0, 1])))
            return t, total - val - sum(x[1] for x in t["chg"])

    def block(self):
        r = self.rng
        u, s, fees = dict(self.u), dict(self.s), 0
        self.nx = self.next
        b = dict(op="block", ep=self.ep, vts=[], drs=[], sts=[], uts=[], root=0)
        kinds = ["vt", "vt", "vt", "dr"] + (["st", "st"] if self.ver() >= 18 else []) + (["ut", "ut"] if self.ver() >= 20 else [])
        plan = sorted((r.choice(kinds) for _ in range(r.choice([0, 1, 1, 2, 3, 4]))), key=["vt", "dr", "st", "ut"].index)
        for kind in plan:
            t, fee = self.mk(kind, u, self.s)
            if t is None or any(x["v"] == t.get("v") for x in (b["sts"] if kind == "st" else b["uts"])):
                continue
            b[kind + "s"].append(t)
            fees += fee
            self.spend(u, t.get("ins", []), t["chg"] if kind == "st" else [[t["to"], t["val"], t["l"]]] if kind == "ut" else t["outs"])
        for t in b["sts"]:
            k = (t["v"], t["wd"])
            s[k] = [s.get(k, [0])[0] + t["val"], self.ep]
        for t in b["uts"]:
            k = (t["v"], t["to"])
            left = s[k][0] - t["val"] - t["fee"]
            s[k] = [left, self.ep]
            if left == 0:
                del s[k]
        outs = []
        if self.ver() < 20:
            pay = fees + self.cfg["reward"] // 2 ** (self.ep // self.cfg["halv"])
            if pay > 1 and r.random() < 0.3:
                outs = [[1, pay - 1, r.randint(0, 10**6)], [2, 1, r.randint(0, 10**6)]]
            elif pay:
                outs = [[r.randint(1, 4), pay, r.choice([r.randint(0, 10**6), T0 + r.randint(0, 20000)])]]
        b["mint"] = dict(ep=self.ep, outs=outs)
        self.spend(u, [], outs)
        return b, u, s

    def spoil(self, b):
        """One realistic way for the block to be wrong, or not"""
        r = self.rng
        b = copy.deepcopy(b)
        for o in b["mint"]["outs"]:
            o[2] += 1  # mints of one epoch must differ
        spenders = b["vts"] + b["drs"] + b["sts"]
        t = r.choice(spenders) if spenders else None
        any_tx = [(k, t) for k in ("vts", "drs", "sts", "uts") for t in b[k]]
        ways = ["root", "mint+", "mint-", "mintep", "mintsplit", "mintzero", "mintmove"]
        if t:
            ways += ["double", "ghost", "signer", "badsig", "xs", "dup", "noins", "spent", "lock", "over", "zero", "sum", "many", "swap", "foreign"]
        if b["drs"]:
            ways += ["w0", "r0", "q", "c", "ratio", "wbig", "rbig", "outs2", "owner", "wmax"]
        if b["sts"]:
            ways += ["min", "max", "wd", "big", "stdup", "early"]
        if b["uts"]:
            ways += ["nonce", "to", "key", "unsig", "delay", "more", "rest", "fbig", "utdup", "who", "early"]
        w = r.choice(ways)
        if w == "root":
            b["root"] = r.randint(1, 8)
        elif w == "mintep":
            b["mint"]["ep"] += r.choice([-1, 1])
        elif w == "mintzero":
            b["mint"]["outs"].append([1, 0, 0])
        elif w == "mint+":
            b["mint"]["outs"] = b["mint"]["outs"] or [[1, 0, 0]]
            b["mint"]["outs"][0][1] += 1
        elif w == "mint-" and b["mint"]["outs"]:
            b["mint"]["outs"][0][1] -= 1
        elif w == "mintsplit" and b["mint"]["outs"] and b["mint"]["outs"][0][1] > 2:
            v = b["mint"]["outs"][0][1]
            b["mint"]["outs"] = [[1, v - 2, r.randint(0, 10**6)], [2, 1, r.randint(0, 10**6)], [3, 1, 0]] + b["mint"]["outs"][1:]
        elif w == "mintmove":
            b["mint"]["outs"].reverse()
        elif w == "double":
            t["ins"].append(list(t["ins"][0]))
        elif w == "spent":
            o = r.choice(spenders)["ins"][0]
            if o not in t["ins"]:
                t["ins"].append(list(o))
        elif w == "ghost":
            t["ins"][-1][0] = r.choice([999, self.nx + 1, 0])
        elif w == "signer":
            t["ins"][-1][1] = t["ins"][-1][1] % 4 + 1
        elif w == "badsig":
            t["ins"][-1][2] = 0
        elif w == "xs":
            t["xs"] = r.choice([1, 2])
        elif w == "noins":
            t["ins"] = []
        elif w == "dup":
            k, x = r.choice(any_tx)
            b[k].append(copy.deepcopy(x))
        elif w == "lock":
            late = [i for i in self.u if self.u[i][2] > when(self.cfg, self.ep)]
            if late:
                i = r.choice(late)
                t["ins"].append([i, self.u[i][0], 1])
        elif w in ("over", "sum", "zero", "many", "foreign"):
            key = "chg" if "chg" in t else "outs"
            if w == "over":
                if not t[key]:
                    t[key].append([1, 1, 0])
                t[key][0][1] += r.choice([1, 1, 50, 10_000])
            elif w == "sum":
                t[key] = [[1, MAXV, 0], [2, r.choice([1, 2, 100]), 0]]
            elif w == "zero":
                t[key].append([t["ins"][0][1], 0, 0])
                if key == "chg":
                    t[key] = t[key][-1:]
            elif w == "many":
                t[key] += [[1, 1, 0]] * r.choice([1, 3])
            elif t[key]:
                t[key][0][0] = t[key][0][0] % 4 + 1
            if key == "chg":
                t[key] = t[key][:1]
        elif w == "swap":
            k = r.choice(["vts", "drs", "sts"])
            b[k].reverse()
        elif b["drs"] and w in ("w0", "r0", "q", "c", "ratio", "wbig", "rbig", "outs2", "owner", "wmax"):
            d = r.choice(b["drs"])
            if w == "w0":
                d["w"] = 0
            elif w == "r0":
                d["r"] = 0
            elif w == "q":
                d["q"] = r.choice([50, 100, 0, 10_000])
            elif w == "c":
                d["c"] = r.choice([1, 19, 20, 250])
            elif w == "ratio":
                d["c"] = 125 * d["r"] + r.choice([0, 1])
            elif w == "wbig":
                d["w"] = r.choice([60, 120, 65535])
            elif w == "wmax":
                d["w"] = 3
            elif w == "rbig":
                d["r"] = r.choice([MAXV, MAXV // 2 + 1])
                d["f"] = r.choice([0, MAXV // 2, MAXV // 2 + 1])
                d["w"] = r.choice([1, 2])
            elif w == "outs2":
                d["outs"] = d["outs"] + [[d["ins"][0][1], 1, 0]] if d["ins"] else []
            elif w == "owner" and d["outs"]:
                d["outs"][0][0] = d["outs"][0][0] % 4 + 1
        elif b["sts"] and w in ("min", "max", "wd", "big", "stdup"):
            d = r.choice(b["sts"])
            if w == "min":
                d["val"] = r.choice([9, 0])
            elif w == "max":
                d["val"] = r.choice([10000, 10001, 5000])
            elif w == "big":
                d["val"] = r.choice([MAXV, MAXV - 1])
                d["chg"] = [[1, r.choice([1, 2, 12]), 0]]
            elif w == "wd":
                d["wd"] = d["wd"] % 4 + 1
            else:
                x = copy.deepcopy(d)
                free = [i for i in self.u if not any(i == y[0] for z in spenders for y in z["ins"])]
                if free:
                    x["ins"] = [[free[0], self.u[free[0]][0], 1]]
                    x["chg"] = []
                    b["sts"].append(x)
        elif b["uts"] and w in ("nonce", "to", "key", "unsig", "delay", "more", "rest", "fbig", "utdup", "who"):
            d = r.choice(b["uts"])
            if w == "nonce":
                d["n"] += r.choice([-1, 1])
            elif w == "to":
                d["to"] = d["to"] % 4 + 1
            elif w == "key":
                d["k"] = d["to"] = d["k"] % 4 + 1
            elif w == "unsig":
                d["good"] = 0
            elif w == "delay":
                d["l"] = r.choice([0, 3599, 3600, 1209599, 1209600])
            elif w == "more":
                d["val"] += r.choice([1, 2, 3])
            elif w == "rest":
                d["val"] = max(0, self.s.get((d["v"], d["k"]), [10])[0] - r.choice([1, 9, 10]) - d["fee"])
            elif w == "fbig":
                d["fee"] = r.choice([MAXV, MAXV - d["val"], min(MAXV, MAXV - d["val"] + 1), d["fee"] + 1])
            elif w == "utdup":
                x = copy.deepcopy(d)
                x["l"] += 1
                b["uts"].append(x)
            else:
                d["v"] = d["v"] % 13 + 1
        elif w == "early":
            b["ep"] = b["mint"]["ep"] = r.choice([self.cfg["a18"] - 1, self.cfg["a20"] - 1])
        return b


def chained(w, b):
    """Does an output inherit its date from one created in the same block? (recorded: key=age-chained)"""
    owner, nx = {i: x[0] for i, x in w.u.items()}, w.next
    for kind in ("vts", "drs", "sts", "uts"):
        for t in b[kind]:
            outs = [[t["to"]]] if kind == "uts" else t["chg"] if kind == "sts" else t["outs"]
            ins = [] if kind == "uts" else [i[0] for i in t["ins"]]
            if any(i >= w.next for i in ins):
                who = {owner.get(i) for i in ins}
                if len(who) == 1 and any(o[0] in who for o in outs):
                    return True
            for o in outs:
                owner[nx] = o[0]
                nx += 1
    return False


def block_scripts(rng, n, length):
    out = []
    for i in range(n):
        w = World(rng)
        ops = []
        if rng.random() < 0.1:
            w.cfg.update(utxo=[], stakes=[], reward=rng.choice([64, 128]))
            w.u, w.s, w.next, w.ep = {}, {}, 1, 0
            room = MAXV - 2 * w.cfg["halv"] * w.cfg["reward"]
            vts = [dict(ins=[], outs=[[1, 500, j + 1], [2, 30, 0]], xs=0) for j in range(rng.randint(0, 3))]
            g = dict(op="genesis", ep=0, vts=vts, drs=[], sts=[], uts=[], root=0, mint=dict(ep=0, outs=[]))
            used = 530 * len(vts)
            k = rng.random()
            if k < 0.5:
                vts.append(dict(ins=[], outs=[[3, room - used + rng.choice([0, 0, 1]), 9]], xs=0))
            elif k < 0.6:
                vts.append(dict(ins=[], outs=[], xs=0))
            elif k < 0.7:
                vts.append(dict(ins=[], outs=[[1, 0, 0]], xs=0))
            elif k < 0.8:
                vts.append(dict(ins=[[1, 1, 1]], outs=[[1, 5, 0]], xs=rng.choice([0, 2])))
            elif k < 0.9:
                vts.append(dict(ins=[], outs=[[1, 5, 5]], xs=1))
            ops.append(g)
            out.append(dict(id=i, cfg=w.cfg, ops=ops))
            continue
        for _ in range(rng.randint(length // 2, length)):
            b, u, s = w.block()
            if chained(w, b):
                continue
            k = rng.random()
            if k < 0.45:
                bad = w.spoil(b)
                if not chained(w, bad):
                    ops.append(bad)
            elif k < 0.55:
                kind = rng.choice(["vt", "dr", "st", "ut"])
                c = w.spoil(b) if rng.random() < 0.6 else b
                if c[kind + "s"]:
                    ops.append(dict(op="pooled", ep=c["ep"], kind=kind, tx=c[kind + "s"][0]))
            if k < 0.45 and rng.random() < 0.6:
                continue
            ops.append(b)
            w.u, w.s, w.next = u, s, w.nx
            w.bn += 1
            w.ep += rng.choice([1, 1, 2, 30])
        out.append(dict(id=i, cfg=w.cfg, ops=ops))
    return out


def heavy_scripts(rng, n):
    """Blocks at and just over the limits of weight, for each kind of transaction."""
    out = []
    for i in range(n):
        kind = ["st", "ut", "vt", "dr"][i % 4]
        era = rng.choice([20, 21]) if kind == "ut" else rng.choice([18, 20, 21]) if kind == "st" else rng.choice([17, 18, 20, 21])
        w = World(rng)
        w.cfg.update(utxo=[], stakes=[], reward=0, maxvt=20000, maxdr=80000, main=rng.choice([1, 1, 0]), cmin=1)
        w.ep = {17: w.cfg["a18"] - 1, 18: w.cfg["a18"], 20: w.cfg["a20"], 21: w.cfg["a21"]}[era]
        b = dict(op="block", ep=w.ep, vts=[], drs=[], sts=[], uts=[], root=0)
        fees = 0

        def new(v):
            w.cfg["utxo"].append([1, v, 0, 3])
            return [len(w.cfg["utxo"]), 1, 1]
        if kind == "ut":
            k = rng.choice([32, 33])
            for v in range(1, k + 1):
                w.cfg["stakes"].append([v, 1 + v % 3, 10 + v, 5])
                b["uts"].append(dict(v=v, k=1 + v % 3, to=1 + v % 3, good=1, val=10 + v, fee=0, n=5, l=1209600))
        elif kind == "st":
            # 20000 and 20001 exactly, in several ways
            txs, chg, ins = rng.choice([(5, 2, 146), (1, 0, 149), (1, 1, 149), (2, 2, 148), (2, 1, 149), (1, 0, 150), (3, 1, 147), (3, 1, 148)])
            per = [1] * txs
            for _ in range(ins - txs):
                per[rng.randrange(txs)] += 1
            for j, c in enumerate(per):
                b["sts"].append(dict(ins=[new(10) for _ in range(c)], xs=0, v=j + 1, wd=2, val=min(10 * c, 10000) - (1 if j < chg and c > 1 else 0), auth=1,
                                     chg=[[3, 1, 0]] if j < chg and c > 1 else ([[3, 0, 0]] if j < chg else [])))
        elif kind == "vt":
            size = rng.randint(1, 4)
            for _ in range(size):
                c, o = rng.randint(1, 5), rng.randint(0, 4)
                b["vts"].append(dict(ins=[new(o or 1) for _ in range(c)], xs=0, outs=[[2, 1, 0] for _ in range(o)]))
                fees += c * (o or 1) - o
            w.cfg["maxvt"] = sum(133 * len(t["ins"]) + 360 * len(t["outs"]) for t in b["vts"]) - rng.choice([0, 1])
        else:
            # enough validators for the witnesses
            w.cfg["stakes"] = [[v, 1, 10, 5] for v in range(1, 9)] if era > 17 else []
            for _ in range(rng.randint(1, 4)):
                c = rng.randint(1, 3)
                wit = rng.randint(1, 2 if era > 18 else 5)
                b["drs"].append(dict(ins=[new(20) for _ in range(c)], xs=0, w=wit, r=1, f=0, q=60, c=0, outs=[[1, 20 * c - wit - 1, 0]][: rng.randint(0, 1)]))
                fees += 20 * c - wit - sum(o[1] for o in b["drs"][-1]["outs"])
            w.cfg["maxdr"] = sum(DRW + 30 + 636 * t["w"] + 100 + 133 * len(t["ins"]) + 36 * len(t["outs"]) for t in b["drs"]) - rng.choice([0, 1])
        if era < 20:
            fees += sum(10 * len(t["ins"]) - t["val"] - sum(o[1] for o in t["chg"]) for t in b["sts"])
        b["mint"] = dict(ep=w.ep, outs=[[1, fees, 0]] if fees and era < 20 else [])
        out.append(dict(id=i, cfg=w.cfg, ops=[b]))
    return out


def probe_cfg(**kw):
    c = dict(a18=10, a20=20, a21=40, main=1, utxo=[], stakes=[], bn=50, maxvt=20000, maxdr=80000, cmin=1, reward=0, halv=1000, drw=DRW + 30)
    c.update(kw)
    return c


def blk(ep, vts=(), drs=(), sts=(), uts=(), mint=()):
    return dict(op="block", ep=ep, vts=list(vts), drs=list(drs), sts=list(sts), uts=list(uts), root=0, mint=dict(ep=ep, outs=list(mint)))


def accepted(t):
    return t["steps"][-1]["obs"]["ok"] is True


def recorded(c):
    stake = dict(ins=[[1, 1, 1]], xs=0, v=7, wd=2, val=20, chg=[])
    for auth in (0, 2):
        c.recorded("blocks", "Trace_Blocks", "stake-authorization",
                   dict(id=0, cfg=probe_cfg(utxo=[[1, 20, 0, 1]]), ops=[blk(25, sts=[dict(stake, auth=auth)])]), accepted)
    past = T0 + 20 * 45
    c.recorded("blocks", "Trace_Blocks", "unstake-lock",
               dict(id=0, cfg=probe_cfg(stakes=[[1, 2, 30, 5]]),
                    ops=[blk(25, uts=[dict(v=1, k=2, good=1, to=2, val=30, l=past, fee=0, n=5)])]), accepted)
    c.recorded("blocks", "Trace_Blocks", "age-chained",
               dict(id=0, cfg=probe_cfg(utxo=[[1, 20, 0, 45]]),
                    ops=[blk(15, vts=[dict(ins=[[1, 1, 1]], outs=[[2, 20, 0]], xs=0), dict(ins=[[2, 2, 1]], outs=[[2, 20, 0]], xs=0)])]),
               lambda t: accepted(t) and t["steps"][-1]["obs"]["utxo"] == [[3, 2, 20, 0, 0]])


def blocks(c):
    c.build("val")
    c.replay("blocks", "MC_Blocks", "MC_Blocks_thorough.cfg" if c.thorough else None, limit=150000 if c.thorough else None)
    c.validate("blocks", "Trace_Blocks", block_scripts(c.rng, 30000 if c.thorough else 2500, 12))
    c.validate("blocks", "Trace_Blocks", heavy_scripts(c.rng, 2000 if c.thorough else 200))
    recorded(c)
    c.assumptions += ["amounts are multiples of 10^12 nanowits (the rules are linear in the amount)",
                      "no output inherits its date from one created in the same block (recorded finding age-chained)"]
