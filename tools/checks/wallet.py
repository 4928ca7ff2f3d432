"""A wallet: addresses, outputs, stakes, balances and movements from the blocks it is told of: spec/Wallet.tla."""
import json

FAR = 2147483647
BATCH = 3


class World:
    """What the generator has to know so that its blocks make sense, which is no oracle: outputs that may be there, and hashes of blocks."""

    def __init__(self, rng):
        self.rng, self.n, self.ne, self.ni, self.outs, self.drs, self.blocks, self.pend, self.ep, self.sure, self.seen, self.sends = rng, 0, 0, 0, [], [], 0, [], 0, [], set(), 0

    def addr(self):
        r = self.rng
        return r.choice(["F1", "F2", f"E{r.randint(0, max(0, self.ne + BATCH - 1))}", f"E{r.randint(0, max(0, self.ne - 1))}", f"E{r.randint(0, max(0, self.ne - 1))}",
                         f"I{r.randint(0, max(0, self.ni + 1))}", f"I{r.randint(0, max(0, self.ni - 1))}"])

    def lock(self):
        return self.rng.choice([0, 0, 0, 0, 100 + 10 * self.ep + self.rng.choice([-1, 0, 1, 10, 25]), FAR])

    def inputs(self, k):
        r, ins = self.rng, []
        for _ in range(k):
            if self.outs and r.random() < 0.75:
                ins.append(r.choice(self.outs[-12:]))
            else:
                ins.append([f"x{r.randint(0, 10**6)}", 0])
        return [list(x) for x in dict.fromkeys(tuple(i) for i in ins)]

    def tx(self, prefix="t"):
        r = self.rng
        self.n += 1
        t = f"{prefix}{self.n}"
        k = r.choice(["vt", "vt", "vt", "vt", "dr", "dr", "commit", "mint", "stake", "stake", "unstake", "unstake", "tally"])
        if k == "tally" and not self.drs:
            k = "vt"
        outs = [[self.addr(), r.choice([1, 2, 5, 10, r.randint(1, 1000)]), self.lock()] for _ in range(r.choice([0, 1, 1, 2, 3]))]
        x = dict(t=t, k=k, n=self.n, ins=self.inputs(r.choice([1, 1, 2, 3])) + [[f"x{t}", 7]] * (r.random() < 0.3), outs=outs, meta=[])
        if k in ("mint", "tally"):
            x["ins"] = []
        if k in ("stake", "unstake"):
            x["stk"] = [r.choice(["F1", "F2", "E0"]), r.choice(["E0", "E0", "I0", "F3"]), r.choice([1, 3, 5, 10, 20, 40])]
            x["outs"] = outs[:1]
        if k == "unstake":
            x["ins"] = []
            x["outs"] = [[r.choice(["E0", "E0", "I0", "F3"]), r.choice([1, 3, 5, 10, 20]), 500]]
            x["stk"][2] = r.choice([0, 0, 1, 2])
        if k == "tally":
            dr = r.choice(self.drs)
            self.drs.remove(dr)
            ws = r.sample(["F1", "F2", "F3", "F4"], r.randint(0, 3))
            x.update(dr=dr, res=r.randint(0, 23), rev=[[a, r.randint(0, 23)] for a in ws], liars=r.sample(["F1", "F2", "F3", "F5"], r.randint(0, 2)))
        else:
            # no two are the same
            body = json.dumps([k, x["ins"], x["outs"], x.get("stk")])
            if k in ("vt", "stake") and (body in self.seen or not x["outs"]):
                x["ins"].append([f"y{t}", 7])
            self.seen.add(body)
            x["meta"] = [r.randint(0, 2000) for _ in x["ins"]]
        if k == "dr" and prefix == "t":
            self.drs.append(t)
        return x

    def block(self, sure):
        r = self.rng
        txs = [self.tx() for _ in range(r.choice([0, 1, 2, 3, 4]))]
        drs = {t["t"] for t in txs if t["k"] == "dr"}
        for t in txs:   # a request and its tally are never in the same block
            if t["k"] == "tally" and t["dr"] in drs:
                t["dr"] = f"y{t['t']}"
        # what is made in a block is known only after it, but for the rare transaction that spends it at once
        for i, t in enumerate(txs):
            if i and t["ins"] and r.random() < 0.15:
                p = txs[i - 1]
                if p["outs"]:
                    t["ins"] = [[p["t"], 0]] + [y for y in t["ins"] if y != [p["t"], 0]]
                    if t["meta"] is not None:
                        t["meta"] = (t["meta"] + [50])[:len(t["ins"])] + [9] * (len(t["ins"]) - len(t["meta"]) - 1)
        for t in txs:
            self.outs += [[t["t"], i] for i in range(len(t["outs"]))]
        self.ep += r.choice([1, 1, 2, 5])
        self.blocks += 1
        return dict(op="block", b=f"b{self.blocks}", ep=self.ep, sure=sure, txs=txs, fail=0)


def wallets(rng, n, length):
    out = []
    for i in range(n):
        w = World(rng)
        cfg = dict(v2=rng.random() < 0.5, batch=BATCH, unc=rng.random() < 0.5, patience=rng.choice([0, 1000000, 1000000]), page=rng.choice([1, 2, 3, 5, 100]))
        ops, syncing, sent = [], False, []
        for j in range(rng.randint(1, 3)):
            ops.append(dict(op="address", kind="E", label=rng.choice(["", "mine"]), fail=0))
            w.ne += 1
        while len(ops) < length:
            k = rng.random()
            if k < 0.30:
                sure = not w.pend and rng.random() < 0.5
                b = w.block(sure)
                if sure and not syncing and rng.random() < 0.1:
                    b["fail"] = 1
                    ops += [b, dict(op="restart")]
                    w.pend = []
                    continue
                # one that was sent comes in a block
                if sent and rng.random() < 0.5:
                    b["txs"].insert(0, sent.pop())
                ops.append(b)
                w.ep = b["ep"]
                if not sure:
                    w.pend.append(b["b"])
                else:
                    w.sure.append(b["b"])
            elif k < 0.42:
                bs = w.pend[:rng.randint(0, len(w.pend))]
                fail = rng.randint(1, len(bs)) if bs and rng.random() < 0.1 else 0
                w.pend = w.pend[len(bs):]
                extra = rng.random()
                if extra < 0.1 and w.sure:
                    bs = [w.sure[-1]] + bs if bs else [w.sure[-1]]
                    fail = 0
                    if len(bs) > 1:   # an unknown one comes first: nothing is confirmed
                        w.pend = bs[1:] + w.pend
                elif extra < 0.15:
                    bs = ["b0"] + bs
                elif extra < 0.2 and not fail:
                    bs = bs + ["b99"]
                ops.append({"op": "super", "bs": bs, "fail": fail})
                if fail:
                    ops.append(dict(op="restart"))
                    w.pend = []
            elif k < 0.47:
                ops.append(dict(op="orphan"))
                w.pend, sent = [], []
            elif k < 0.51:
                ops.append(dict(op="restart"))
                w.pend, sent, syncing = [], [], False
            elif k < 0.535:
                fail = int(rng.random() < 0.2)
                ops.append(dict(op="wipe", fail=fail))
                if fail:
                    ops.append(dict(op="restart"))
                w.pend, sent, syncing = [], [], False
                if not fail:
                    w.ne = w.ni = 0
                    w.drs = []
                    w.outs = []
            elif k < 0.58:
                syncing = not syncing
                ops.append(dict(op="syncing", on=syncing))
            elif k < 0.66:
                kind = rng.choice(["E", "E", "I", "P"])
                fail = int(rng.random() < 0.15)
                if w.ne < 7 and w.ni < 7:
                    ops.append(dict(op="address", kind=kind, label=rng.choice(["", "x", "spare"]), fail=fail))
                    if not fail:
                        w.ne += kind == "E"
                        w.ni += kind == "I"
            elif k < 0.69:
                ops.append(dict(op="rename", name=rng.choice(["", "a", "b"]), text=rng.choice(["", "c", "d"])))
            elif k < 0.71:
                ops.append(dict(op="note", key=rng.choice(["k", "l"]), v=rng.choice(["1", "2", ""])))
            elif k < 0.92:
                w.n += 1
                w.sends += 1
                t = f"s{w.n}"
                kind = rng.choice(["vt", "vt", "dr"])
                preview = rng.random() < 0.4 and kind == "vt" or kind == "dr" and rng.random() < 0.5
                outs = [[rng.choice(["F1", "F2", "E0"]), rng.choice([1, 2, 5, 20, 300]), rng.choice([0, 0, 150]) + w.sends] for _ in range(rng.choice([1, 1, 2]))] if kind == "vt" else []
                if rng.random() < 0.05:
                    outs = []
                sel = [list(x) for x in {tuple(x) for x in rng.sample(w.outs[-10:], min(len(w.outs), 3, 10))}] if kind == "vt" and rng.random() < 0.2 and len(w.outs) > 3 else []
                ops.append(dict(op="send", k=kind, t=t, outs=outs, by="any" if kind == "dr" else rng.choice(["big", "small", "any"]), sel=sel, fee=rng.choice([0, 1, 5]), preview=preview, n=w.n,
                                reward=rng.choice([0, 1, 5, 50]), **{"from": rng.choice(["", "", "", "E0", "I0"]) if kind == "vt" else ""}))
                if rng.random() < 0.8:
                    ops.append(dict(op="local", tx=dict(made=t)))
                    sent.append(dict(made=t))
                w.outs += [[t, i] for i in range(len(outs) + 1)]
                if w.ni >= 9:
                    break
                w.ni += kind == "vt"
            else:
                x = w.tx("s")
                if x["k"] in ("tally",):
                    continue
                x["outs"] = [[a, v, l] for a, v, l in x["outs"]]
                ops.append(dict(op="local", tx=x))
                if rng.random() < 0.2:
                    ops.append(dict(op="local", tx=x))
                sent.append(x)
                w.outs += [[x["t"], i] for i in range(len(x["outs"]))]
        out.append(dict(id=i, cfg=cfg, ops=ops))
    return out


def matches(s, e, o):
    if "panic" in o:
        return False
    if e is None:
        return True
    if "locals" in e and "list" not in o:
        return False
    e = dict(e)
    want = lambda q: sorted(json.dumps(x, sort_keys=True) for x in q)
    if "locals" in e:
        n = len(e["locals"])
        if len(o["list"]) != e["total"] or want(e.pop("locals")) != want(o["list"][:n]) or e.pop("rest") != o["list"][n:]:
            return False
        if want(e.pop("utxo")) != want(o["utxo"]):
            return False
    return all(k in o and o[k] == v for k, v in e.items() if k not in ("ok", "none"))


def wallet(c):
    c.build("wallet")
    c.replay("wallet", "MC_Wallet", "MC_Wallet_thorough.cfg" if c.thorough else "MC_Wallet.cfg", match=matches, limit=400000 if c.thorough else None)
    k = 10 if c.thorough else 1
    c.cov["open_probes"] = 5
    c.validate("wallet", "Trace_Wallet", wallets(c.rng, 700 * k, 45))
    c.assumptions += ["blocks reach the wallet as its worker hands them over; the worker, its node and its clients are not run", "confirmed blocks come when none is pending, superblocks confirm blocks in their order",
                      "a request and its tally are in different blocks, and a transaction is in the chain once", "after a failed write the wallet is opened again",
                      "the database is a stand-in in memory behind the wallet's own encryption; its writes may fail, its reads do not"]
