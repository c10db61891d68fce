"""Exploration engine shared by every check.

A check module (mc/checks/<id>.py) describes a finite state space:

  ITEMS(tier)   -> iterable of JSON-able descriptors.  Each descriptor names one
                   execution (a configuration, an operation history, a fault point).
  CHECK(desc)   -> Result: runs the *real* library on that descriptor and compares
                   every observation with the reference model.

The engine enumerates all of them (no sampling), in forked workers, counts the
states visited / transitions executed, turns failures, exceptions, crashes and
hangs of the code under test into violations with a replay file, honours the
known-findings list and writes the evidence file.
"""
import hashlib, importlib, json, os, select, signal, sys, time, traceback

N_WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
ITEM_TIMEOUT = 240
STOP_AFTER = 12  # stop exploring after this many violating items


class Result:
    """Outcome of one explored execution."""

    __slots__ = ("fails", "states", "transitions", "info")

    def __init__(self):
        self.fails = []
        self.states = []  # fingerprints of the abstract states visited
        self.transitions = 0  # operations executed on real objects
        self.info = {}

    def fail(self, msg):
        if len(self.fails) < 8:
            self.fails.append(str(msg)[:600])

    def close(self, what, got, want, tol):
        """got == want within tol (arrays allowed); NaN never passes."""
        import numpy as np

        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            self.fail(f"{what}: shape {g.shape} != {w.shape}")
            return False
        d = np.abs(g - w)
        m = float(np.max(d)) if d.size else 0.0
        k = what.split(" @")[0]
        if m == m:
            self.info[k] = max(self.info.get(k, 0.0), m)
        if not (m <= tol):
            gs = np.array2string(g.ravel()[:6], precision=8)
            ws = np.array2string(w.ravel()[:6], precision=8)
            self.fail(f"{what}: got {gs} expected {ws} (|diff|={m:.3g} > {tol:g})")
            return False
        return True

    def le(self, what, got, bound):
        got = float(got)
        k = what.split(" @")[0]
        if got == got:
            self.info[k] = max(self.info.get(k, -1e300), got)
        if not (got <= bound):
            self.fail(f"{what}: {got:.6g} exceeds {bound:.6g}")
            return False
        return True

    def true(self, what, cond):
        if not bool(cond):
            self.fail(what)
            return False
        return True

    def state(self, obj):
        self.states.append(fingerprint(obj))

    def op(self, n=1):
        self.transitions += n


def fingerprint(obj):
    s = obj if isinstance(obj, str) else json.dumps(obj, sort_keys=True, default=str)
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


def key_of(desc):
    return json.dumps(desc, sort_keys=True)


class _Timeout(BaseException):
    pass


def _alarm(*_):
    raise _Timeout()


def run_item(mod, desc):
    """Run one item; anything the code under test raises is a failure of the item."""
    try:
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(getattr(mod, "ITEM_TIMEOUT", ITEM_TIMEOUT))
        try:
            res = mod.CHECK(desc)
        finally:
            signal.alarm(0)
        if not res.states:
            res.states.append(fingerprint(desc))
        return dict(
            fails=res.fails,
            states=res.states,
            transitions=res.transitions,
            info=res.info,
        )
    except _Timeout:
        return dict(fails=["execution did not terminate in time"], states=[], transitions=0, info={})
    except Exception as e:  # raised by the library while executing the history
        tb = traceback.extract_tb(e.__traceback__)
        where = " <- ".join(f"{os.path.basename(f.filename)}:{f.name}" for f in tb[::-1][:4])
        return dict(
            fails=[f"unexpected {type(e).__name__}: {str(e)[:200]} at {where}"],
            states=[],
            transitions=0,
            info={},
        )


def _worker(mod, items, rfd, wfd):
    """Read item indices (lines) from rfd, write JSON results to wfd."""
    fin = os.fdopen(rfd, "r", buffering=1)
    fout = os.fdopen(wfd, "w", buffering=1)
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    if not os.environ.get("VERIF_DEBUG"):
        os.dup2(devnull, 2)
    for line in fin:
        i = int(line)
        out = run_item(mod, items[i])
        fout.write(json.dumps([i, out], default=float) + "\n")
        fout.flush()
    os._exit(0)


class Pool:
    def __init__(self, mod, items, n):
        self.mod, self.items, self.n = mod, items, n

    def spawn(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            for w in self.workers:
                for fd in (w["out"], w["in"]):
                    try:
                        os.close(fd)
                    except OSError:
                        pass
            try:
                _worker(self.mod, self.items, r1, w2)
            finally:
                os._exit(3)
        os.close(r1)
        os.close(w2)
        return dict(pid=pid, out=w1, **{"in": r2}, buf=b"", cur=None, t=0.0)

    def run(self, on_result):
        self.workers = []
        order = list(range(len(self.items)))
        pos = 0
        retries = {}
        n = min(self.n, max(1, len(order)))
        for _ in range(n):
            self.workers.append(self.spawn())
        pending = []
        stop = False
        limit = getattr(self.mod, "ITEM_TIMEOUT", ITEM_TIMEOUT) + 60

        def feed(w):
            nonlocal pos
            if stop:
                w["cur"] = None
                return
            if pending:
                i = pending.pop()
            elif pos < len(order):
                i = order[pos]
                pos += 1
            else:
                w["cur"] = None
                return
            w["cur"] = i
            w["t"] = time.time()
            try:
                os.write(w["out"], f"{i}\n".encode())
            except OSError:
                pass

        for w in self.workers:
            feed(w)
        while any(w["cur"] is not None for w in self.workers):
            fds = {w["in"]: w for w in self.workers if w["cur"] is not None}
            rl, _, _ = select.select(list(fds), [], [], 5.0)
            now = time.time()
            for fd in rl:
                w = fds[fd]
                data = os.read(fd, 1 << 20)
                if not data:
                    self._dead(w, pending, retries, on_result, feed)
                    continue
                w["buf"] += data
                while b"\n" in w["buf"]:
                    line, w["buf"] = w["buf"].split(b"\n", 1)
                    i, out = json.loads(line)
                    if on_result(i, out) == "stop":
                        stop = True
                    feed(w)
            for w in list(self.workers):
                if w["cur"] is not None and now - w["t"] > limit:
                    try:
                        os.kill(w["pid"], signal.SIGKILL)
                    except OSError:
                        pass
                    i = w["cur"]
                    on_result(i, dict(fails=["execution hung (killed)"], states=[], transitions=0, info={}))
                    self._replace(w)
                    feed(self.workers[-1])
        for w in self.workers:
            os.close(w["out"])
        for w in self.workers:
            try:
                os.waitpid(w["pid"], 0)
            except OSError:
                pass
            os.close(w["in"])

    def _replace(self, w):
        try:
            os.waitpid(w["pid"], 0)
        except OSError:
            pass
        os.close(w["in"])
        os.close(w["out"])
        self.workers.remove(w)
        self.workers.append(self.spawn())

    def _dead(self, w, pending, retries, on_result, feed):
        i = w["cur"]
        retries[i] = retries.get(i, 0) + 1
        if retries[i] >= 3:
            on_result(i, dict(fails=["the process died (crash in native code)"], states=[], transitions=0, info={}))
        else:
            pending.append(i)
        self._replace(w)
        feed(self.workers[-1])


def load_known(root, prop):
    path = os.path.join(root, "known_findings.json")
    try:
        data = json.load(open(path))
    except FileNotFoundError:
        return []
    return [f for f in data.get("findings", []) if f["property"] == prop]


def is_known(known, desc, fails):
    """A listed finding is identified by a sub-descriptor (all its keys must match the
    failing input) and by the observation that fails (every failure message of the
    item must start with one of the listed texts)."""
    for f in known:
        m = f["match"]
        if all(desc.get(k) == v for k, v in m.items()) and all(
            any(msg.startswith(t) for t in f["fails"]) for msg in fails
        ):
            return f
    return None


def main(prop, tier, replay, root, src):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    rdir = os.path.join(root, "evidence", "replay")
    os.makedirs(rdir, exist_ok=True)
    rpath = os.path.join(rdir, f"{prop}.json")

    def violation_early(msg):
        json.dump(dict(property=prop, violations=[dict(item=None, fails=[msg])]), open(rpath, "w"), indent=1)
        print(msg)
        write_evidence({}, 1)
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1

    level = "model_checking"
    rule = ""

    def write_evidence(cov, nviol, mod=None):
        cov0 = dict(
            states=0, transitions=0, traces_validated_against_impl=0, samples=[]
        )
        cov0.update(cov)
        ev = dict(
            property=prop,
            tier=tier,
            seed=seed,
            level=getattr(mod, "LEVEL", level),
            coverage=cov0,
            assumptions=list(getattr(mod, "ASSUMPTIONS", [])),
            wall_s=round(time.time() - t0, 3),
            violations=nviol,
        )
        p = os.path.join(root, "evidence", f"{prop}.json")
        tmp = p + ".tmp"
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=float)
        os.replace(tmp, p)

    try:
        import gggears

        if not os.path.realpath(gggears.__file__).startswith(os.path.realpath(src)):
            print(f"gggears imported from {gggears.__file__}, not from {src}", file=sys.stderr)
            return 2
        mod = importlib.import_module(f"mc.checks.{prop.lower()}")
    except ImportError as e:
        if os.path.exists(os.path.join(root, "mc", "checks", f"{prop.lower()}.py")):
            return violation_early(f"the library does not import: {e}")
        raise
    known = load_known(root, prop)
    if replay:
        data = json.load(open(replay))
        bad = 0
        for v in data["violations"]:
            out = run_item(mod, v["item"])
            print(json.dumps(v["item"]), "->", "FAIL" if out["fails"] else "ok")
            for f in out["fails"]:
                print("   ", f)
            if out["fails"] and not is_known(known, v["item"], out["fails"]):
                bad += 1
        if bad:
            print(f"VIOLATION property={prop} replay={replay}")
        return 1 if bad else 0

    items, seen = [], set()
    for d in mod.ITEMS(tier):
        k = key_of(d)
        if k not in seen:
            seen.add(k)
            items.append(json.loads(k))
    # heavy items first keeps the tail short
    if hasattr(mod, "WEIGHT"):
        items.sort(key=lambda d: -mod.WEIGHT(d))
    states, info = set(), {}
    agg = dict(trans=0, done=0, ok=0)
    viols, knowns = [], {}
    slow = []
    tstart = {}

    def on_result(i, out):
        agg["done"] += 1
        agg["trans"] += out["transitions"]
        states.update(out["states"])
        for k, v in out["info"].items():
            if isinstance(v, (int, float)):
                info[k] = max(info.get(k, -1e300), v)
        if out["fails"]:
            f = is_known(known, items[i], out["fails"])
            if f is not None:
                knowns.setdefault(f["id"], [f, 0])[1] += 1
            else:
                viols.append(dict(item=items[i], fails=out["fails"]))
        else:
            agg["ok"] += 1
        if len(viols) >= STOP_AFTER and not os.environ.get("VERIF_ALL"):
            return "stop"

    Pool(mod, items, N_WORKERS).run(on_result)
    complete = agg["done"] == len(items)
    samples = [items[i] for i in sorted({0, len(items) // 3, (2 * len(items)) // 3, len(items) - 1})] if items else []
    cov = dict(
        states=len(states),
        transitions=agg["trans"],
        traces_validated_against_impl=agg["ok"],
        samples=samples,
        exhaustive=bool(complete),
        executions=agg["done"],
        bounds=getattr(mod, "BOUNDS", {}).get(tier, ""),
        rule=getattr(mod, "RULE", ""),
        max_residuals={k: float(f"{v:.4g}") for k, v in sorted(info.items())},
        known_findings=sorted(knowns),
    )
    if getattr(mod, "LEVEL", level) in ("fault_enumeration", "exploration"):
        cov["evaluations"] = agg["done"]
        cov["distinct_nontrivial"] = len(states)
    write_evidence(cov, len(viols), mod)
    for fid, (f, n) in sorted(knowns.items()):
        print(f"KNOWN-FINDING: property={prop} {f['what']} [{n} explored executions]")
    print(
        f"{prop} {tier}: {agg['done']}/{len(items)} executions, {len(states)} states, "
        f"{agg['trans']} transitions, {len(viols)} violations, {time.time()-t0:.1f} s"
    )
    if viols:
        viols.sort(key=lambda v: len(json.dumps(v["item"])))
        with open(rpath, "w") as f:
            json.dump(dict(property=prop, tier=tier, violations=viols[:50]), f, indent=1)
        for v in viols[: (10 if not os.environ.get("VERIF_ALL") else 400)]:
            print("  violating:", json.dumps(v["item"]))
            for m in v["fails"][:4]:
                print("      ", m)
        print(f"VIOLATION property={prop} replay={rpath}")
        return 1
    if os.path.exists(rpath):
        os.remove(rpath)
    return 0
