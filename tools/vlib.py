"""Shared machinery of the checks: build, TLC, script replay, trace validation, evidence.

A check is decided by an explicit TLA+ specification in /verif/spec:
  design     TLC explores the small model MC_<X> exhaustively (invariants, action properties);
  replay     every transition of that state graph is a script with expected observations, which the harness
             executes on the real code of /repo (spec -> code);
  trace      executions of the real code under longer, larger, randomised scripts are recorded and TLC checks
             that each one is a behaviour of the specification (code -> spec).
Exit status: 0 property held, 1 with a VIOLATION line, 2 tool error (never a verdict).
"""
import concurrent.futures as cf
import fcntl
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = f"{VERIF}/spec"
BUILD = f"{VERIF}/.build"
OUT = f"{VERIF}/out"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = os.cpu_count() or 4
INT_SENTINEL = -2000000011  # stands for an observed integer outside TLC's 32-bit range


class ToolError(Exception):
    pass


class Violation(Exception):
    def __init__(self, msg, replay):
        super().__init__(msg)
        self.replay = replay


def norm(v):
    """TLA+ prints an empty function and an empty sequence alike; clamp integers TLC cannot hold."""
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()} if v else []
    if isinstance(v, list):
        return [norm(x) for x in v]
    if isinstance(v, bool):
        return v
    if isinstance(v, int) and not -(2**31) < v < 2**31:
        return INT_SENTINEL
    return v


class Check:
    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.rng = random.Random(f"{pid}/{self.seed}")
        self.t0 = time.time()
        self.thorough = self.tier == "thorough"
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[],
                        spec_scripts_replayed=0, trace_steps=0, models=[], ops={}, corruption_probes=0)
        self.assumptions = []
        self.known = []
        self.violations = []
        self.tmp = tempfile.mkdtemp(prefix=f"vp_{pid}_")

    # ------------------------------------------------------------------ build
    def build(self, crate, timeout=1500):
        """cargo build of a harness crate against /repo's current working tree; returns the binary's path."""
        os.makedirs(BUILD, exist_ok=True)
        env = dict(os.environ)
        env.update(CARGO_TARGET_DIR=f"{BUILD}/{crate}", CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable",
                   RUSTC_WRAPPER="", CARGO_TERM_COLOR="never", RUST_BACKTRACE="0")
        env["PATH"] = "/root/.cargo/bin:" + env.get("PATH", "")
        with open(f"{BUILD}/{crate}.lock", "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            p = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=f"{VERIF}/harness/{crate}",
                               env=env, capture_output=True, text=True, timeout=timeout)
        if p.returncode:
            raise ToolError(f"harness {crate} does not build:\n{p.stderr[-6000:]}")
        self.bin = f"{BUILD}/{crate}/debug/vh-{crate}"
        return self.bin

    # -------------------------------------------------------------------- TLC
    def tlc(self, module, cfg=None, env=None, workers=None, timeout=600, args=(), emit=None, heap="6g", spec_dir=SPEC):
        """Run TLC; returns a dict with ok, error, states, distinct, text. Lines printed with @@ go to emit()."""
        meta = tempfile.mkdtemp(prefix="tlc_", dir=self.tmp)
        cmd = ["java", f"-Xmx{heap}", "-Xss64m", "-XX:+UseParallelGC", f"-Djava.io.tmpdir={meta}", "-cp", JARS, "tlc2.TLC", "-noGenerateSpecTE",
               "-metadir", meta, "-workers", str(workers or NCPU), "-config", cfg or f"{module}.cfg", *args, f"{module}.tla"]
        e = dict(os.environ)
        e.update(env or {})
        log = []
        t0 = time.time()
        p = subprocess.Popen(["timeout", "-k", "5", str(timeout), *cmd], cwd=spec_dir, env=e, stdout=subprocess.PIPE,
                             stderr=subprocess.STDOUT, text=True, bufsize=1 << 20)
        for line in p.stdout:
            if line.startswith('"@@'):
                if emit:
                    emit(json.loads(json.loads(line)[2:]))
            else:
                log.append(line)
        rc = p.wait()
        shutil.rmtree(meta, ignore_errors=True)
        text = "".join(log)
        r = dict(rc=rc, text=text, module=module, cfg=cfg, wall_s=round(time.time() - t0, 1), states=0, distinct=0)
        m = re.findall(r"([\d,]+) states generated(?: \([^)]*\))?, ([\d,]+) distinct states found", text)
        if m:
            r["states"], r["distinct"] = (int(x.replace(",", "")) for x in m[-1])
        m = re.findall(r"The number of states generated: ([\d,]+)", text)
        if m and not r["states"]:
            r["states"] = int(m[-1].replace(",", ""))
        errs = re.findall(r"^Error: (.*)$", text, re.M)
        r["error"] = errs[0] if errs else None
        r["ok"] = rc == 0 and not errs
        if rc in (124, 137):
            raise ToolError(f"TLC timed out on {module} after {timeout}s")
        return r

    def design(self, module, cfg=None, timeout=600, emit=None, name=None, **kw):
        """Exhaustive check of a small model. Any error here is a fault of the specification: a tool error."""
        r = self.tlc(module, cfg, timeout=timeout, emit=emit, **kw)
        if not r["ok"]:
            raise ToolError(f"design model {module}: {r['error']}\n{r['text'][-4000:]}")
        self.cov["states"] += r["distinct"]
        self.cov["transitions"] += r["states"]
        self.cov["models"].append(dict(module=name or cfg or module, distinct=r["distinct"], generated=r["states"], wall_s=r["wall_s"]))
        return r

    def cfg(self, base, **consts):
        """A configuration like the committed one, with other constants."""
        text = open(f"{SPEC}/{base}.cfg").read()
        for k, v in consts.items():
            v = "{" + ", ".join(json.dumps(x) for x in v) + "}" if isinstance(v, (list, set)) else json.dumps(v)
            text, n = re.subn(rf"(\b{k} = )(\{{[^}}]*\}}|\S+)", lambda m: m[1] + v, text)
            if n != 1:
                raise ToolError(f"{base}.cfg has no constant {k}")
        path = f"{self.tmp}/{base}_{len(os.listdir(self.tmp))}.cfg"
        with open(path, "w") as f:
            f.write(text)
        return path

    # ---------------------------------------------------------------- harness
    def run(self, component, scripts, procs=None, timeout=None, env=None):
        """Execute scripts on the real code; returns the traces in the same order."""
        procs = min(procs or NCPU, max(1, len(scripts) // 50))
        timeout = timeout or (1500 if self.thorough else 240)
        chunks = [scripts[i::procs] for i in range(procs)]

        def one(chunk):
            data = "".join(json.dumps(s) + "\n" for s in chunk)
            e = dict(os.environ)
            e.update(env or {})
            try:
                p = subprocess.run([self.bin, component], input=data, capture_output=True, text=True, timeout=timeout, env=e)
            except subprocess.TimeoutExpired as x:
                done = (x.output or b"").count(b"\n" if isinstance(x.output or b"", bytes) else "\n")
                if done < len(chunk):
                    # one script takes milliseconds: if it alone does not end in two minutes, it never will
                    try:
                        subprocess.run([self.bin, component], input=json.dumps(chunk[done]) + "\n", capture_output=True, text=True, timeout=120, env=e)
                    except subprocess.TimeoutExpired:
                        raise Violation("the code under test does not return",
                                        self.save_replay(component, dict(script=chunk[done], hangs=True)))
                raise ToolError(f"harness {component} timed out")
            if p.returncode == 3 or "TOOL-ERROR" in p.stderr:
                raise ToolError(f"harness {component}: {p.stderr[-2000:]}")
            out = [json.loads(x) for x in p.stdout.splitlines() if x]
            if p.returncode or len(out) != len(chunk):
                bad = chunk[len(out)] if len(out) < len(chunk) else None
                # the process died (abort, stack overflow, endless allocation...): what it ran is the replay
                raise Violation(f"the code under test killed the harness process (status {p.returncode})",
                                self.save_replay(component, dict(script=bad, stderr=p.stderr[-2000:])))
            return out

        with cf.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, chunks))
        out = [None] * len(scripts)
        for k, r in enumerate(res):
            out[k::procs] = r
        return out

    def live(self, component, players, procs=None, timeout=600, env=None):
        """Each player is a generator: it yields first a configuration, then operations, and is sent what was observed
        after each.  Returns the traces."""
        procs = min(procs or NCPU, len(players))

        def one(chunk):
            e = dict(os.environ)
            e.update(env or {})
            end = time.time() + timeout
            out = []
            with tempfile.TemporaryFile("w+") as err:
                p = subprocess.Popen([self.bin, component, "live"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, text=True, env=e)
                late = []

                def kill():
                    late.append(1)
                    p.kill()
                try:
                    for k, play in chunk:
                        t = dict(id=k, steps=[], panicked=False)
                        x = next(play)
                        while True:
                            if time.time() > end:
                                raise ToolError(f"harness {component} timed out")
                            try:
                                p.stdin.write(json.dumps(x if "op" in x else dict(cfg=x)) + "\n")
                                p.stdin.flush()
                                # one operation takes milliseconds
                                watch = threading.Timer(180, kill)
                                watch.start()
                                a = p.stdout.readline()
                                watch.cancel()
                            except BrokenPipeError:
                                a = ""
                            if not a and late:
                                raise Violation("the code under test does not return", self.save_replay(component, dict(trace=t, last=x, hangs=True)))
                            if not a:
                                p.wait(10)
                                err.seek(0)
                                text = err.read()[-2000:]
                                if p.returncode == 3 or "TOOL-ERROR" in text:
                                    raise ToolError(f"harness {component}: {text}")
                                raise Violation(f"the code under test killed the harness process (status {p.returncode})",
                                                self.save_replay(component, dict(trace=t, last=x, stderr=text)))
                            a = json.loads(a)
                            if "op" not in x:
                                t["cfg"] = x
                                t["panicked"] = "panic" in a
                            else:
                                t["steps"].append({**x, **a})
                            if "panic" in a:
                                break
                            try:
                                x = play.send(a["obs"])
                            except StopIteration:
                                break
                        out.append(t)
                finally:
                    p.stdin.close()
                    p.kill()
                    p.wait()
            return out

        with cf.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, [list(enumerate(players))[i::procs] for i in range(procs)]))
        return sorted((t for r in res for t in r), key=lambda t: t["id"])

    def save_replay(self, what, obj):
        os.makedirs(OUT, exist_ok=True)
        path = f"{OUT}/{self.pid}-{what}-{os.getpid()}-{len(self.violations)}.json"
        with open(path, "w") as f:
            json.dump(dict(property=self.pid, component=what, **obj), f, indent=1)
        return path

    # ----------------------------------------------------- spec -> code replay
    def replay(self, component, module, cfg=None, timeout=600, limit=None, keep=None, interpret=None, match=None, pre=None, post=None, env=None, **kw):
        """Check the small model, then replay every transition of its state graph on the real code."""
        scripts, exps = [], []

        def emit(h):
            last = h[-1]
            c = {}
            if isinstance(h[0], dict) and h[0].get("op") == "cfg":
                c, h = {k: v for k, v in h[0].items() if k not in ("op", "exp")}, h[1:]
                if not h:
                    return
            if keep and not keep(h):
                return
            scripts.append(dict(id=len(scripts), cfg=c, ops=[{k: v for k, v in s.items() if k != "exp"} for s in h]))
            exps.append([interpret(s, s["exp"]) if interpret else s.get("exp") for s in h] if not limit else h)

        r = self.design(module, cfg, timeout=timeout, emit=emit, **kw)
        n_all = len(scripts)
        if limit and n_all > limit:
            keep = sorted(self.rng.sample(range(n_all), limit))
            scripts = [scripts[i] for i in keep]
            exps = [exps[i] for i in keep]
        if limit:
            exps = [[interpret(s, s["exp"]) if interpret else s.get("exp") for s in h] for h in exps]
        if not scripts:
            raise ToolError(f"{module} produced no scripts")
        traces = self.run(component, [pre(x) for x in scripts] if pre else scripts, env=env)
        for t, e in zip(traces, exps):
            if post:
                post(t)
            self.compare(component, t, e, match)
        self.count_ops(traces)
        self.cov["spec_scripts_replayed"] += len(traces)
        self.cov["traces_validated_against_impl"] += len(traces)
        if len(traces):
            self.sample(traces[len(traces) // 2], f"{module} transition replayed")
        self.cov["models"][-1].update(transitions_replayed=len(traces), transitions_emitted=n_all)
        return r

    def compare(self, component, trace, exps, match=None):
        for i, e in enumerate(exps):
            s = trace["steps"][i] if i < len(trace["steps"]) else {"panic": "no observation"}
            if "panic" in s:
                raise Violation(f"{component}: step {i + 1} {short(s)}: the specification allows no panic: {s['panic']}",
                                self.save_replay(component, dict(trace=trace, step=i + 1, expected=e)))
            if not match(s, e, s["obs"]) if match else norm(s["obs"]) != norm(e):
                raise Violation(f"{component}: step {i + 1} {short({k: v for k, v in s.items() if k != 'obs'})}: "
                                f"specification expects {short(e)}, real code gives {short(s['obs'])}",
                                self.save_replay(component, dict(trace=trace, step=i + 1, expected=e, got=s["obs"])))

    # ------------------------------------------------------ code -> spec traces
    def validate(self, component, module, scripts, cfg=None, timeout=600, chunk_steps=60000, probe=True, traces=None, env=None, pre=None, post=None):
        """Run scripts on the real code, and let TLC decide whether each trace is a behaviour of the specification."""
        if traces is None:
            traces = self.run(component, [pre(x) for x in scripts] if pre else scripts, env=env)
        if post:
            for t in traces:
                post(t)
        good = []
        for t in traces:
            for i, s in enumerate(t["steps"]):
                if "panic" in s:
                    raise Violation(f"{component}: step {i + 1} {short(s)}: the specification allows no panic: {s['panic']}",
                                    self.save_replay(component, dict(trace=t, step=i + 1)))
            if t.get("panicked"):
                raise Violation(f"{component}: panic in set-up", self.save_replay(component, dict(trace=t)))
            good.append(t)
        self.count_ops(good)
        chunks, cur, n = [], [], 0
        for t in good:
            cur.append(t)
            n += len(t["steps"]) + 1
            if n >= chunk_steps:
                chunks.append(cur)
                cur, n = [], 0
        if cur:
            chunks.append(cur)
        for c in chunks:
            bad = self.tlc_traces(component, module, c, cfg, timeout, env=env)
            if bad:
                t, l, why = bad
                s = t["steps"][l - 1] if 0 < l <= len(t["steps"]) else {}
                raise Violation(f"{component}: trace {t['id']} is not a behaviour of {module} at step {l} "
                                f"{short({k: v for k, v in s.items() if k != 'obs'})}: {why}",
                                self.save_replay(component, dict(trace=dict(t, steps=t["steps"][:max(l, 1)]), step=l, why=why)))
            self.cov["traces_validated_against_impl"] += len(c)
            self.cov["trace_steps"] += sum(len(t["steps"]) for t in c)
        if good:
            self.sample(self.rng.choice(good), f"{module} trace validated")
        if probe and good:
            self.probe(component, module, good, cfg, env)

    def tlc_traces(self, component, module, traces, cfg, timeout, count=True, env=None):
        path = f"{self.tmp}/tr_{component}_{self.rng.random()}.ndjson"
        with open(path, "w") as f:
            for t in traces:
                f.write(json.dumps(norm(dict(cfg=t["cfg"], steps=t["steps"]))) + "\n")
        e = {"TRACE_FILE": path}
        e.update(env or {})
        r = self.tlc(module, cfg, env=e, timeout=timeout)
        os.remove(path)
        if r["ok"]:
            if count:
                self.cov["models"].append(dict(module=module, traces=len(traces), distinct=r["distinct"], wall_s=r["wall_s"]))
                self.cov["states"] += r["distinct"]
                self.cov["transitions"] += r["states"]
            need = sum(len(t["steps"]) + 1 for t in traces)
            if r["distinct"] < need:
                raise ToolError(f"{module}: traces not fully consumed ({r['distinct']} < {need})")
            return None
        tids = re.findall(r"^/\\ tid = (\d+)", r["text"], re.M)
        ls = re.findall(r"^/\\ l = (\d+)", r["text"], re.M)
        if not tids or "ArithmeticException" in r["text"] or "OutOfMemory" in r["text"] or "StackOverflow" in r["text"]:
            raise ToolError(f"trace specification {module}: {r['error']}\n{r['text'][-4000:]}")
        t, l = traces[int(tids[-1]) - 1], int(ls[-1])
        err = r["error"]
        if "Invariant" in err:
            why = err + " " + last_state(r["text"])
        else:
            l += 1
            why = err + " " + last_state(r["text"])
        return t, l, why

    def probe(self, component, module, traces, cfg, env=None):
        """The binding has to bite: a trace with one altered observation has to be rejected.
        (Where the specification leaves some observations open, one out of a few has to be.)"""
        for last in [False] * self.cov.get("open_probes", 0) + [True]:
            if self.probed(component, module, traces, cfg, env, last):
                break

    def probed(self, component, module, traces, cfg, env, last):
        for _ in range(20):
            t = json.loads(json.dumps(self.rng.choice(traces)))
            if not t["steps"]:
                continue
            s = self.rng.choice(t["steps"])
            if corrupt(s["obs"], self.rng):
                break
        else:
            return True
        if self.tlc_traces(component, module, [t], cfg, 120, count=False, env=env) is None:
            if not last:
                return False
            raise ToolError(f"{module} accepted a corrupted trace: {json.dumps(t)[:3000]}")
        self.cov["corruption_probes"] += 1
        return True

    # ---------------------------------------------------------------- evidence
    def count_ops(self, traces):
        ops = self.cov["ops"]
        for t in traces:
            for s in t["steps"]:
                k = s["op"]
                r = s.get("obs")
                if isinstance(r, dict):
                    rr = r.get("res", r.get("ok"))
                    if isinstance(rr, dict):
                        rr = rr.get("ok")
                    if isinstance(rr, bool):
                        k += ":ok" if rr else ":refused"
                    elif isinstance(rr, str) and len(rr) < 24:
                        k += ":" + rr
                ops[k] = ops.get(k, 0) + 1

    def sample(self, t, what):
        if len(self.cov["samples"]) < 6:
            s = json.dumps(dict(what=what, cfg=t.get("cfg"), steps=t["steps"][:8]))
            self.cov["samples"].append(s[:1500])

    def known_finding(self, key, what):
        if key not in self.known:
            print(f"KNOWN-FINDING: property={self.pid} {what}", flush=True)
            self.known.append(key)

    def recorded(self, component, module, key, script, same, cfg=None, env=None):
        """A defect that is recorded, not repaired: the script shows it on the real code. The specification decides
        whether it is still there; only exactly what was recorded, in known_findings.txt, is no violation."""
        t = self.run(component, [script], env=env)[0]
        panic = next((s for s in t["steps"] if "panic" in s), None)
        if not panic and not t.get("panicked") and not self.tlc_traces(component, module, [t], cfg, 300, count=False, env=env):
            return
        text = load_known().get((self.pid, key))
        if text and same(t):
            self.known_finding(key, text)
        else:
            raise Violation(f"{component}: {key}: {short(t['steps'][-1])} is not what the specification allows",
                            self.save_replay(component, dict(trace=t)))

    def finish(self, rc):
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=self.cov,
                  assumptions=self.assumptions, wall_s=round(time.time() - self.t0, 2), violations=len(self.violations))
        if self.known:
            ev["coverage"]["known_findings"] = self.known
        os.makedirs(f"{VERIF}/evidence", exist_ok=True)
        with open(f"{VERIF}/evidence/{self.pid}.json", "w") as f:
            json.dump(ev, f, indent=1)
        shutil.rmtree(self.tmp, ignore_errors=True)
        return rc


def corrupt(o, rng):
    """Alter one leaf of an observation; returns whether something was altered."""
    leaves = []

    def walk(x):
        it = x.items() if isinstance(x, dict) else enumerate(x) if isinstance(x, list) else ()
        for k, v in it:
            if k in ("given", "approx", "chance"):     # what the world said, or what is compared with a tolerance
                continue
            if isinstance(v, (dict, list)):
                walk(v)
            elif isinstance(v, (bool, int)):
                leaves.append((x, k))
    walk(o)
    if not leaves:
        return False
    x, k = rng.choice(leaves)
    x[k] = (not x[k]) if isinstance(x[k], bool) else x[k] + 1
    return True


def last_state(text):
    m = re.split(r"^State \d+:.*$", text, flags=re.M)
    s = m[-1] if len(m) > 1 else text[-1500:]
    s = re.split(r"\n\n", s.strip())[0]
    return re.sub(r"\s+", " ", s)[:1500]


def short(x, n=400):
    s = json.dumps(x)
    return s if len(s) <= n else s[:n] + "..."


def load_known():
    """known_findings.txt: 'property=<id> key=<key> <text>' or 'fixed: ...' lines."""
    out = {}
    path = f"{VERIF}/known_findings.txt"
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out[(m[1], m[2])] = m[3]
    return out


def main(pid, fn, level="model_checking"):
    c = Check(pid, level)
    try:
        fn(c)
        rc = 0
        print(f"OK property={pid} tier={c.tier} seed={c.seed} states={c.cov['states']} "
              f"traces={c.cov['traces_validated_against_impl']} wall={time.time() - c.t0:.1f}s")
    except Violation as v:
        c.violations.append(str(v))
        print(f"# {v}")
        print(f"VIOLATION property={pid} replay={v.replay}")
        rc = 1
    except ToolError as e:
        print(f"TOOL-ERROR property={pid}: {e}", file=sys.stderr)
        rc = 2
    except Exception as e:  # noqa
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    return c.finish(rc)
