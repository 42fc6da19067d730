"""C04: a failed operation is never reported as success."""
import ctypes
import os
import random
import signal

from .. import engine, mix
from ..fault import PLAN, FaultConnector, shim_count, shim_fired, shim_plan, shim_setup, SHIM
from ..foraenv import Session, fresh
from ._ops import Sessions

LEVEL = "fault_enumeration"
RULE = ("operations of every kind with one injected fault: for each scenario the requests and commands of a fault-free run are counted, then each of them "
        "(up to a cap) is made to fail in turn (connection loss, remote OS error, non-zero or signal exit before or after executing, killed remote side), "
        "plus full and read-only file systems and operations that must detect a failure; non-trivial: distinct (operation, failing request, fault)")
REQUIRED = {"quick": {"faults_fired": 2500, "proxy_faults": 1500, "shim_faults": 400, "kills": 30, "detected_failures": 100, "filesystem_faults": 60},
            "thorough": {"faults_fired": 20000}}


def judge(ctx, scn, out, what, key, states=None):
    """With states, the failing command was a question: its answer may be dealt with, if the requested state was reached."""
    ctx.count_("faults_fired")
    ctx.evaluated((scn.op_kind,) + key, f"{what} in {scn.label}: {out.brief()[:200]}")
    if not out.ok:
        return
    v = out.value
    if states is not None and v is not None and v.success:
        ctx.count_("answered_faults")
        for mech, msg in scn.verify(*states):
            ctx.violation(f"{scn.op_kind}:failure-as-success", f"{what} but the operation reports {out.brief()} ({mech}: {msg}) for {scn.describe()}")
        return
    if v is None or v.success:
        ctx.violation(f"{scn.op_kind}:failure-as-success", f"{what} but the operation reports {out.brief()} for {scn.describe()}")
    elif not v.failure_message:
        ctx.violation(f"{scn.op_kind}:failure-without-message", f"{what}: {out.brief()} for {scn.describe()}")


def replicas(seed):
    """The same scenario again and again, from the same random numbers."""
    while True:
        yield mix.make(random.Random(seed))


def proxy_cases(ctx, ss, make, cap):
    scn = next(make)
    S = ss.get()
    if scn.prepare() or scn.expects != "ok":
        scn.cleanup()
        return
    PLAN.reset()
    check = ctx.rng.random() < 0.5
    out = S.op(scn.invoke, check=check)
    scn.cleanup()
    n = len(PLAN.seen)
    if not out.success:
        ctx.violation(f"{scn.op_kind}:unexpected-failure", f"without fault: {out.brief()} for {scn.describe()}")
        return
    plans = []
    for k in range(n):
        name, probe = PLAN.seen[k]
        modes = ["io", "io-after", "eof"]
        if name in ("run", "stat", "upload", "download"):
            modes += ["oserror"] * 2
        if name == "run" and not probe:
            modes += ["rc", "rc-after"] * 3
        plans.append((k, ctx.rng.choice(modes), ctx.rng.choice([1, 2, 126, 127, 128, 255, -9, -15])))
    ctx.rng.shuffle(plans)
    ctx.count_("requests_counted", n)
    for k, mode, rc in plans[:cap]:
        scn = next(make)
        S = ss.get()
        scn.prepare()
        PLAN.reset(k, mode, rc)
        out = S.op(scn.invoke, check=check, args=engine.out_args(ctx))
        fired = PLAN.fired
        PLAN.reset()
        if fired:
            ctx.count_("proxy_faults")
            judge(ctx, scn, out, f"request {k} of {n} {fired} failed", fired)
        scn.cleanup()


def shim_cases(ctx, ss, make, cap):
    scn = next(make)
    S = ss.get()
    if scn.prepare() or scn.expects != "ok":
        scn.cleanup()
        return
    shim_plan()
    out = S.op(scn.invoke)
    n = shim_count()
    scn.cleanup()
    if not out.success:
        ctx.violation(f"{scn.op_kind}:unexpected-failure", f"without fault: {out.brief()} for {scn.describe()}")
        return
    ks = list(range(1, n + 1))
    ctx.rng.shuffle(ks)
    for k in ks[:cap]:
        scn = next(make)
        S = ss.get()
        scn.prepare()
        mode, v = ctx.rng.choice([("rc", 1), ("rc", 2), ("rc", 3), ("rc", 126), ("rc", 127), ("rc", 128), ("rc", 255), ("sig", 9), ("sig", 15), ("sig", 6),
                                  ("after", 1), ("after", 4)])
        shim_plan(k, mode, v)
        before = scn.snapshot()
        QUESTION["fired"] = False
        out = S.op(scn.invoke, check=ctx.rng.random() < 0.6, args=engine.out_args(ctx))
        fired = shim_fired()
        shim_plan()
        if fired:
            ctx.count_("shim_faults")
            judge(ctx, scn, out, f"command {k} of {n} ({fired}) failed with {mode} {v}", (fired, mode, v),
                  (before, scn.snapshot()) if QUESTION["fired"] else None)
        scn.cleanup()


QUESTION = dict(fired=False)


class QuestionConnector(FaultConnector):
    """Notes whether the failing command ran as a question: with check=False, and not one of those that can only act."""
    def __getattr__(self, name):
        attr = getattr(self._inner, name)
        if name != "run":
            return attr

        def f(*a, **k):
            had = shim_fired()
            try:
                return attr(*a, **k)
            finally:
                if not k.get("check", True) and not had and shim_fired() in ("bash", "sh", "git"):
                    QUESTION["fired"] = True
        return f


def kill_case(ctx, make):
    """The remote side is killed while the operation runs."""
    k = ctx.rng.choice([0, 0, 1, 2, 3, 5])
    with Session(connector=KillConnector, **mix.SESSION_PY) as S:
        scn = next(make)
        if scn.prepare() or scn.expects != "ok":
            scn.cleanup()
            return
        PLAN.reset()
        KILL.update(at=k, n=0, fired=False)
        out = S.op(scn.invoke)
        fired = KILL["fired"]
        KILL.update(at=None)
        if fired:
            ctx.count_("kills")
            judge(ctx, scn, out, f"the remote side was killed before request {k}", ("kill", k))
        elif not out.success:
            ctx.violation(f"{scn.op_kind}:unexpected-failure", f"without fault: {out.brief()} for {scn.describe()}")
        scn.cleanup()


KILL = dict(at=None, n=0, fired=False)


class KillConnector(FaultConnector):
    def __getattr__(self, name):
        attr = getattr(self._inner, name)
        from ..fault import REQUESTS
        if name not in REQUESTS or KILL["at"] is None:
            return attr

        def f(*a, **k):
            if KILL["n"] == KILL["at"]:
                with open("/tmp/pyshim/pid") as h:
                    os.kill(int(h.read()), signal.SIGKILL)
                KILL["fired"] = True
            KILL["n"] += 1
            return attr(*a, **k)
        return f


def pyshim():
    if os.path.isdir("/tmp/pyshim"):
        return
    os.mkdir("/tmp/pyshim")
    with open("/tmp/pyshim/python3", "w") as f:
        f.write("#!/bin/dash\necho $$ > /tmp/pyshim/pid\nPATH=${PATH#/tmp/pyshim:}\nexec python3 \"$@\"\n")
    os.chmod("/tmp/pyshim/python3", 0o755)


LIBC = ctypes.CDLL(None, use_errno=True)


def mount(src, dst, fs, flags, opts):
    if LIBC.mount(src.encode(), dst.encode(), fs.encode(), ctypes.c_ulong(flags), opts.encode()) != 0:
        raise OSError(ctypes.get_errno(), os.strerror(ctypes.get_errno()))


def filesystem_cases(ctx, S):
    """Real file system trouble."""
    from fora.operations import files
    rng = ctx.rng
    r = fresh("fs")
    kind = rng.choice(["full", "ro"])
    mount("none", r, "tmpfs", 0, "size=16k,nr_inodes=6")
    try:
        with open(r + "/have", "wb") as f:
            f.write(b"line\n" if rng.random() < 0.5 else b"")
        os.mkdir(r + "/d")
        if kind == "ro":
            mount("none", r, "tmpfs", 32 | 1, "size=16k,nr_inodes=6")
        big = os.urandom(1) * rng.choice([40_000, 100_000, 2_000_000])
        ops = {
            "upload_content": lambda: files.upload_content(content=big, dest=r + "/new"),
            "overwrite": lambda: files.upload_content(content=big, dest=r + "/have"),
            "line": lambda: files.line(path=r + "/have", line="x" * 60_000),
            "mode": lambda: files.file(path=r + "/have", mode="751"),
            "dir": lambda: files.directory(path=r + "/nd", mode="751"),
            "link": lambda: files.link(path=r + "/l", target="x"),
            "rm": lambda: files.file(path=r + "/have", present=False),
            "rmdir": lambda: files.directory(path=r + "/d", present=False),
        }
        for name in (["upload_content", "overwrite", "line"] if kind == "full" else list(ops)):
            check = rng.random() < 0.6
            out = S.op(ops[name])
            ctx.count_("filesystem_faults")
            ctx.evaluated((kind, name, len(big)), f"{name} on {kind} file system: {out.brief()[:150]}")
            if out.success:
                ctx.violation(f"{name}:{kind}-fs-success", f"{name} on a {kind} file system reports {out.brief()} (check={check})")
    finally:
        if LIBC.umount2(r.encode(), 2) != 0:
            raise OSError(ctypes.get_errno(), "umount2")
        os.rmdir(r)


def run(ctx):
    mix.setup()
    shim_setup()
    pyshim()
    mix.SESSION_PY = dict(env={"PATH": "/tmp/pyshim:" + mix.PM_PATH})
    proxied = Sessions(60, connector=FaultConnector, **mix.SESSION)
    shimmed = Sessions(60, connector=QuestionConnector, env={"PATH": SHIM + "/bin:" + mix.PM_PATH})
    plain = Sessions(60, **mix.SESSION)
    cap = 6 if ctx.tier == "quick" else 40
    try:
        for i in ctx.cases(4800, 32000):
            make = replicas(f"{ctx.seed}/{i}")
            r = i % 24 // 8
            if i % 60 < 8:
                kill_case(ctx, make)
            elif i % 60 < 16 and ctx.rng.random() < 0.4:
                filesystem_cases(ctx, plain.get())
            elif r == 0:
                proxy_cases(ctx, proxied, make, cap)
            elif r == 1:
                shim_cases(ctx, shimmed, make, cap)
            else:
                S = plain.get()
                scn = next(make)
                scn.prepare()
                if scn.expects == "fail":
                    ctx.count_("detected_failures")
                    engine.real_phase(ctx, S, scn, engine.out_args(ctx))
                    ctx.evaluated(("detected",) + tuple([scn.label]), scn.describe())
                scn.cleanup()
    finally:
        for s in (proxied, shimmed, plain):
            s.close()
