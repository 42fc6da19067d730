"""Runs one property's workload inside the sandbox. argv: prop tier seed index count result extra-json"""
import contextlib
import faulthandler
import hashlib
import importlib
import json
import os
import random
import signal
import sys
import time
import traceback


class CaseTimeout(BaseException):
    """Raised by the per-case watchdog. Deliberately not an Exception."""


class Ctx:
    """What a workload sees: randomness, counters and the violation sink."""
    def __init__(self, prop, tier, seed, index, count, extra):
        self.prop, self.tier, self.seed, self.index, self.count, self.extra = prop, tier, seed, index, count, extra
        self.evaluations = 0
        self.keys = set()
        self.samples = []
        self.violations = []
        self.problems = []
        self.counts = {}
        self.case = "?"
        self.rng = random.Random(0)
        self.sample_kinds = set()
        self.nviol_mech = {}

    # -- reporting
    def count_(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def evaluated(self, key=None, sample=None, n=1):
        """One evaluated case; key (hashable/str) marks it distinct and non-trivial."""
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.md5(repr(key).encode("utf-8", "surrogatepass")).hexdigest()[:12])
        if sample is not None and len(self.samples) < 3:
            kind = str(sample)[:12]
            if kind not in self.sample_kinds:
                self.sample_kinds.add(kind)
                self.samples.append({"case": self.case, "what": clean(sample)})

    def violation(self, mechanism, message, **witness):
        n = self.nviol_mech.get(mechanism, 0)
        self.nviol_mech[mechanism] = n + 1
        if n < 3:
            self.violations.append({"case": self.case, "mechanism": mechanism, "message": str(message)[:3000],
                                    "witness": clean(witness)})

    def problem(self, msg):
        if len(self.problems) < 5:
            self.problems.append(str(msg)[:2000])

    # -- case iteration
    def cases(self, quick, thorough, watchdog=120):
        """Yields case numbers of this worker; each has its own deterministic rng."""
        only = self.extra.get("only")
        total = quick if self.tier == "quick" else thorough
        nums = [int(only)] if only is not None else range(self.index, total, self.count)
        budget = {"quick": 200.0, "thorough": 4000.0}[self.tier]
        t0 = time.monotonic()
        for i in nums:
            if time.monotonic() - t0 > budget:
                self.count_("budget_stopped")
                break
            if len(self.violations) >= 12 or (self.violations and self.counts.get("nudged")):
                break
            if self.violations and self.extra.get("fast") and any(v["mechanism"] not in self.extra["fast"] for v in self.violations):
                break
            self.case = str(i)
            self.rng = random.Random(f"{self.prop}/{self.seed}/{i}")
            with self.watch(watchdog):
                yield i

    @contextlib.contextmanager
    def watch(self, watchdog=120):
        """Heartbeat for something that is not a numbered case, such as measuring beforehand."""
        BEAT.update(n=0, limit=max(2, watchdog // 5), ctx=self)
        signal.setitimer(signal.ITIMER_REAL, 5, 5)
        try:
            yield
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)


def clean(x, depth=0):
    if depth > 8:
        return "..."
    if isinstance(x, dict):
        return {str(k): clean(v, depth + 1) for k, v in list(x.items())[:60]}
    if isinstance(x, (list, tuple, set)):
        return [clean(v, depth + 1) for v in list(x)[:60]]
    if isinstance(x, (int, float, bool)) or x is None:
        return x
    if isinstance(x, bytes):
        return repr(x[:300]) + ("" if len(x) <= 300 else f"...({len(x)} bytes)")
    s = x if isinstance(x, str) else repr(x)
    return s.encode("utf-8", "backslashreplace").decode()[:1500]


BEAT = {"n": 0, "limit": 24, "ctx": None}
NUDGE_AT = 12


def on_alarm(_sig, frame):
    """
    Heartbeat every 5 s of a running case. Cases take far less than a second, so after a minute the main thread is
    most likely waiting for an answer that never comes. To decide this, send one further request on the same connection: the
    remote side handles requests one after the other, so if the waiting call gets the answer to *that* request (it will
    be of the wrong kind), the original request was never answered.
    """
    BEAT["n"] += 1
    if BEAT["n"] == NUDGE_AT:
        nudge(frame)
    if BEAT["n"] >= BEAT["limit"]:
        raise CaseTimeout()


def nudge(frame):
    while frame is not None and "/fora/" not in frame.f_code.co_filename:
        frame = frame.f_back
    if frame is None:
        return
    fora = sys.modules.get("fora")
    ctx = BEAT["ctx"]
    try:
        ctx.count_("nudged")
        fora.host.connection.connector.getenv("FV_NUDGE")
    except BaseException:  # noqa  (the nested read cannot work, only the write matters)
        pass


def main():
    prop, tier, seed, index, count, result, extra = sys.argv[1:8]
    extra = json.loads(extra)
    faulthandler.enable()
    signal.signal(signal.SIGALRM, on_alarm)
    ctx = Ctx(prop, tier, int(seed), int(index), int(count), extra)
    try:
        mod = importlib.import_module(f"fv.props.{prop.lower()}")
        mod.run(ctx)
    except CaseTimeout:
        # the heartbeat is counted, so neither load nor a paused machine gets here: cases take about a second
        ctx.violation("hang", f"no end within {BEAT['limit'] * 5} s: " + traceback.format_exc()[-1500:])
    except BaseException:  # noqa
        ctx.problem(f"case {ctx.case}: harness error\n" + traceback.format_exc()[-1800:])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    out = {"evaluations": ctx.evaluations, "keys": sorted(ctx.keys), "samples": ctx.samples,
           "violations": ctx.violations, "problems": ctx.problems, "counts": ctx.counts}
    with open(result + ".tmp", "w") as f:
        json.dump(out, f)
    os.replace(result + ".tmp", result)
    sys.stdout.flush()
    os._exit(0)


if __name__ == "__main__":
    main()
