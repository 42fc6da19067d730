"""C10: connections are set up and torn down completely."""
import gc
import json
import os
import signal
import threading
import time

import fora
import fora.loader
from fora.connection import open_connection
from fora.types import ScriptWrapper

from .. import gen, mitm, probe
from ..foraenv import call, fresh, own_fds, set_args, wipe

LEVEL = "fault_enumeration"
RULE = ("sequences of sessions on the same and on several hosts, each failing in a chosen way (the remote side cannot be started, exits, answers garbage or something unexpected, its stream breaks at any byte of the "
        "opening handshake, is killed while in use, the body raises) or not at all; after each, child processes, descriptors and the host's connection are examined, and while open the base settings are compared with the identity "
        "of the remote side; non-trivial: distinct (way, point, sequence position)")
REQUIRED = {"quick": {"sessions": 1000, "failed_openings": 400, "opened": 350, "killed": 50, "body_exceptions": 100, "cut_handshakes": 200, "identities": 150, "two_open": 60, "own_base_settings": 150, "failed_at_answer": 100, "interrupted": 30}, "thorough": {"sessions": 6000}}
BASE = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
IDENTITIES = {"root": (0, 0, [0, 3202]), "root-video9": (0, 3202, []), "alice": (3001, 3001, [3001, 3002]), "alice-webteam": (3001, 3200, [3002]), "svc0": (301, 301, []), "carol": (3003, 3100, []), "zed": (65000, 100, [3100])}
NAMES = {v: k for k, v in gen.UID.items()}
GNAMES = {v: k for k, v in gen.GROUPS.items()}
FAKE = """#!/opt/venv/bin/python -IS
import io, os, runpy, sys, time, signal, importlib.util
with open("/tmp/fake/mode") as f:
    mode = f.read().split("\\n")
kind, arg = mode[0], mode[1]
w = lambda b: os.write(1, b)
if kind == "exit":
    os._exit(int(arg))
if kind == "exit-after-request":
    os.read(0, 1)
    os._exit(int(arg))
if kind == "signal":
    os.kill(os.getpid(), int(arg))
if kind == "closed":
    os.close(1)
    os.close(0)
    time.sleep(60)
if kind == "closed-out":
    os.close(1)
    time.sleep(60)
if kind == "garbage":
    os.read(0, 1)
    w(bytes.fromhex(arg))
    if mode[2] == "exit":
        os._exit(0)
    os.close(1)
    time.sleep(60)
# real answers, except for the one of the given number
n = int(arg)
class Out:
    def __init__(self):
        self.data, self.count = b"", 0
    def write(self, data):
        self.data += data
        return len(data)
    def flush(self):
        if not self.data:
            return
        data, self.data = self.data, b""
        self.count += 1
        if self.count == n:
            open("/tmp/fake/reached", "w").close()
            if kind == "wrong-packet":
                spec = importlib.util.spec_from_file_location("td", sys.argv[1])
                td = importlib.util.module_from_spec(spec)
                sys.modules["td"] = td
                spec.loader.exec_module(td)
                b = io.BytesIO()
                td.Connection(b, b).write_packet(getattr(td, mode[2])(*eval(mode[3])))
                data = b.getvalue()
            elif kind == "stall":
                os.set_blocking(0, True)
                while os.read(0, 4096):
                    pass
                os._exit(0)
            elif kind == "die":
                os._exit(3)
            elif kind == "raw":
                w(bytes.fromhex(mode[2]))
                os.close(1)
                os._exit(0)
        w(data)
class Text:
    buffer = Out()
sys.stdout = Text()
sys.argv = sys.argv[1:]
runpy.run_path(sys.argv[0], run_name="__main__")
"""
ACK = "0000000100000001"
GARBAGE = ["00", "ff" * 4, "7fffffff", b"Welcome to host\n".hex(), b"bash: python3: command not found\n".hex(), "00000000", "ffffffffffffffff", ACK, b"\n".hex(), "0a" * 40]


class Custom(Exception):
    pass


class CustomBase(BaseException):
    pass


def plain(e):
    return type(e).__name__ == "CaseTimeout"


class Watch:
    """Descriptors and children before and after."""
    def __init__(self):
        self.fds = own_fds()

    def leaks(self):
        r = []
        adopted()
        try:
            pid, _ = os.waitpid(-1, os.WNOHANG)
            r.append(f"process {pid} was left behind " + ("running" if pid == 0 else "unreaped"))
        except ChildProcessError:
            pass
        new = {k: v for k, v in own_fds().items() if self.fds.get(k) != v}
        if new:
            r.append(f"descriptors {sorted(new)} were left open")
        return r


def adopted():
    """The man in the middle's own child becomes ours (as init of the namespace) if it is terminated; it ends by itself."""
    try:
        with open("/tmp/mitm/pid") as f:
            pid = int(f.read())
        os.unlink("/tmp/mitm/pid")
        os.waitpid(pid, 0)
    except (OSError, ValueError):
        pass


def reap():
    """Ends whatever was left behind, so that later cases are judged on their own."""
    try:
        while True:
            for p in probe.started()[-3:]:
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
            os.waitpid(-1, 0)
    except ChildProcessError:
        pass


def fake(*lines):
    if os.path.exists("/tmp/fake/reached"):
        os.unlink("/tmp/fake/reached")
    with open("/tmp/fake/mode", "w") as f:
        f.write("\n".join(str(x) for x in lines) + "\n\n\n")


def setup():
    probe.setup()
    probe.id_setup()
    mitm.setup()
    for d in ("/tmp/fake", "/tmp/fake/bin", "/tmp/empty", "/tmp/noexec"):
        os.makedirs(d)
    with open("/tmp/fake/bin/python3", "w") as f:
        f.write(FAKE)
    os.chmod("/tmp/fake/bin/python3", 0o755)
    with open("/tmp/noexec/python3", "w") as f:
        f.write("x")
    os.chmod("/tmp/noexec/python3", 0o644)
    os.makedirs("/tmp/slow/bin")
    with open("/tmp/slow/bin/python3", "w") as f:
        f.write("#!/bin/dash\nPATH=/tmp/idshim/bin:${PATH#/tmp/slow/bin:}\npython3 \"$@\"\nrc=$?\nread n < /tmp/slow/delay\nsleep $n\nexit $rc\n")
    os.chmod("/tmp/slow/bin/python3", 0o755)
    os.makedirs("/tmp/badformat")
    with open("/tmp/badformat/python3", "wb") as f:
        f.write(b"\x7fELFgarbage")
    os.chmod("/tmp/badformat/python3", 0o755)


def handshake():
    mitm.plan()
    os.environ["PATH"] = "/tmp/mitm/bin:" + BASE
    set_args()
    load("local:h")
    with open_connection(fora.host):
        _, a, b, _ = mitm.state()
    os.environ["PATH"] = BASE
    return a, b


def load(url):
    out = call(fora.loader.load_inventory, url)
    if not out.ok:
        raise out.exc
    fora.host = next(iter(fora.inventory.loaded_hosts.values()))
    fora.script = None


def run(ctx):
    setup()
    with ctx.watch(300):
        a, b = handshake()
    ctx.count_("handshake_bytes", a + b)
    for i in ctx.cases(420, 5000):
        root = fresh("o")
        names = ["h1", "h2"][:ctx.rng.randint(1, 2)]
        with open(root + "/inv.py", "w") as f:
            f.write(f"hosts = {['local:' + n for n in names]!r}\n")
            if ctx.rng.random() < 0.5:
                # an inventory may hand out the same object for every host
                ctx.count_("own_base_settings")
                f.write("from fora.remote_settings import RemoteSettings\n_base = RemoteSettings(file_mode='640', dir_mode='750', umask='027', cwd='/tmp')\n"
                        "def base_remote_settings():\n    return _base\n")
        set_args(verbose=ctx.rng.choice([0, 0, 1]))
        load(root + "/inv.py")
        hosts = list(fora.inventory.loaded_hosts.values())
        os.environ["PATH"] = "/tmp/idshim/bin:" + BASE
        probe.identity()
        w = Watch()
        for n in range(ctx.rng.randint(2, 5)):
            session(ctx, i, n, hosts, a, b, w)
            if ctx.violations:
                reap()
                w = Watch()
        os.environ["PATH"] = BASE
        wipe(root)


def choose(ctx, i, n, a, b):
    """(description, PATH prefix, must opening fail, mode)."""
    r = ctx.rng
    if i % 84 == 40 and n == 0:
        d = r.choice([3, 6, 11])
        with open("/tmp/slow/delay", "w") as f:
            f.write(f"{d}\n")
        ctx.count_("slow_ends")
        return f"remote side that needs {d} s to end", "/tmp/slow/bin", False
    k = r.random()
    if r.random() < 0.05:
        ctx.count_("interrupted")
        fake("stall", at := r.choice([1, 2, 3]))
        return f"interrupted while waiting for answer {at}", "/tmp/fake/bin", "interrupt"
    if k < 0.2:
        ctx.count_("cut_handshakes")
        d, m = r.choice([("c", a), ("s", b)])
        off = r.randrange(m)
        mitm.plan(d, off)
        return f"handshake cut ({d} at byte {off} of {m})", "/tmp/mitm/bin", True
    if k < 0.24:
        return ("remote side missing", "/tmp/empty", True) if r.random() < 0.5 else ("remote side not executable", "/tmp/noexec", True) if r.random() < 0.5 else ("remote side has an invalid format", "/tmp/badformat", True)
    if k < 0.50:
        m = r.choice(["exit", "exit-after-request", "signal", "closed", "closed-out", "garbage", "wrong-packet", "wrong-packet", "die", "raw"])
        if m in ("exit", "exit-after-request"):
            c = r.choice([0, 1, 2, 127, 255])
            fake(m, c)
            return f"remote side: {m} {c}", "/tmp/fake/bin", True
        if m == "signal":
            s = r.choice([9, 15, 11, 6])
            fake(m, s)
            return f"remote side: killed by signal {s}", "/tmp/fake/bin", True
        if m in ("closed", "closed-out"):
            fake(m, 0)
            return f"remote side: {m}, still running", "/tmp/fake/bin", True
        if m == "garbage":
            g, e = r.choice(GARBAGE), r.choice(["exit", "stay"])
            if g == ACK:
                e = "exit"
            fake(m, g, e)
            return f"remote side answers {bytes.fromhex(g)!r} and {e}s", "/tmp/fake/bin", True
        at = r.choice([1, 2, 3])
        if m == "wrong-packet":
            p, args = r.choice([("PacketCheckAlive", ()), ("PacketEnvironVar", ("x",)), ("PacketProcessError", ("m",)), ("PacketExit", ()), ("PacketAck", ()), ("PacketResolveResult", ("x",)), ("PacketOSError", (2, "m", "x"))])
            ok = (at == 1 and p == "PacketAck") or (at != 1 and p == "PacketResolveResult")
            fake(m, at, p, repr(args))
            return f"answer {at} of the remote side is {p}", "/tmp/fake/bin", None if ok else True
        if m == "die":
            fake(m, at)
            return f"remote side dies before answer {at}", "/tmp/fake/bin", True
        g = r.choice(GARBAGE)
        fake(m, at, g)
        return f"answer {at} of the remote side is {bytes.fromhex(g)!r}", "/tmp/fake/bin", True
    return "working remote side", "/tmp/idshim/bin", False


def session(ctx, i, n, hosts, a, b, w):
    r = ctx.rng
    host = r.choice(hosts)
    what, path, fails = choose(ctx, i, n, a, b)
    os.environ["PATH"] = path + ":" + BASE
    if path in ("/tmp/empty", "/tmp/noexec", "/tmp/badformat"):
        os.environ["PATH"] = path
    ident = r.choice(list(IDENTITIES)) if fails is False else None
    if ident:
        probe.identity(*IDENTITIES[ident])
    fora.host, fora.script = host, None
    other = None
    if len(hosts) == 2 and r.random() < 0.3:
        # a second, working connection must not be affected
        other = next(h for h in hosts if h is not host)
    body = r.choice(["normal", "normal", "raise", "raise", "kill", "kill-silent", "kill-request"]) if fails is False else "normal"
    if path == "/tmp/slow/bin":
        body = r.choice(["normal", "raise"])
    ctx.count_("sessions")
    ctx.evaluated((what, body, ident, other is not None, min(n, 2)), f"{what}; {body}")
    w2 = w
    try:
        if other is not None:
            ctx.count_("two_open")
            oldp = os.environ["PATH"]
            os.environ["PATH"] = "/tmp/idshim/bin:" + BASE
            oident = r.choice(list(IDENTITIES))
            probe.identity(*IDENTITIES[oident])
            oc = open_connection(other)
            oc.__enter__()
            os.environ["PATH"] = oldp
            if ident:
                probe.identity(*IDENTITIES[ident])
            else:
                probe.identity()
            w2 = Watch()
        conn = None
        try:
            so = call(attempt, ctx, host, what, fails, body, ident)
            if not so.ok:
                raise so.exc
        except Exception as e:  # noqa
            ctx.violation("harness", f"{what}: {type(e).__name__}: {e}")
        if other is not None:
            if other.connection is not oc:
                ctx.violation("other-host-affected", f"{what}: the connection of another host was changed")
            x = call(oc.connector.resolve_user, "3001")
            if not x.ok or x.value != "alice":
                ctx.violation("other-host-affected", f"{what}: another host's connection: {x.brief()}")
            fora.host = other
            try:
                so = call(identity, ctx, other, oident, f"{what} (on another host meanwhile)")
            finally:
                fora.host = host
            if not so.ok:
                ctx.violation("other-host-affected", f"{what}: another host's connection: {so.brief()}")
            call(oc.__exit__, None, None, None)
            if other.connection is not None:
                ctx.violation("still-connected", f"{what}: the other host still has a connection")
    finally:
        os.environ["PATH"] = "/tmp/idshim/bin:" + BASE
    del conn
    left = w.leaks()
    if left:
        ctx.violation("left-behind", f"{what}; {body}: " + ", ".join(left))
    _ = w2


EXCS = [Custom("x"), CustomBase("x"), KeyboardInterrupt(), SystemExit(3), ValueError("x"), OSError(5, "x"), GeneratorExit(), EOFError(), BrokenPipeError(), StopIteration()]


def attempt(ctx, host, what, fails, body, ident):
    r = ctx.rng
    w = Watch()
    try:
        base = own_children()
    except OSError:
        base = None
    conn = open_connection(host)           # stays referenced on purpose
    entered, error, thrown = False, None, None
    before = len(probe.started())
    if host.connection is not None:
        ctx.violation("connected-early", f"{what}: the host has a connection before it is opened")
    t0 = time.monotonic()
    if fails == "interrupt":
        interrupter()
    try:
        with conn as c:
            entered = True
            if fails:
                ctx.violation("opened", f"{what}: opening the connection succeeded")
            if c is not conn or host.connection is not conn:
                ctx.violation("not-available", f"{what}: the connection is not available on its host while it is open")
            if fails is False:
                identity(ctx, host, ident, what)
                pid = probe.started()[-1] if len(probe.started()) > before else None
                if body == "raise":
                    thrown = r.choice(EXCS)
                    ctx.count_("body_exceptions")
                    raise thrown
                if body.startswith("kill") and pid is not None:
                    ctx.count_("killed")
                    os.kill(pid, r.choice([signal.SIGKILL, signal.SIGTERM, signal.SIGSEGV]))
                    os.waitid(os.P_PID, pid, os.WEXITED | os.WNOWAIT)
                    if body == "kill-request":
                        x = call(c.connector.getenv, "HOME")
                        if x.ok:
                            ctx.violation("answer-from-the-dead", f"{what}: a request to a killed remote side returned {x.value!r}")
                    elif body == "kill":
                        c.connector.resolve_user("root")
                        ctx.violation("answer-from-the-dead", f"{what}: a request to a killed remote side returned normally")
    except BaseException as e:  # noqa
        if plain(e):
            raise
        error = e
    took = time.monotonic() - t0
    if os.path.exists("/tmp/fake/reached"):
        os.unlink("/tmp/fake/reached")
        ctx.count_("failed_at_answer")
    msg = f"{what}; {body}; {type(error).__name__ if error else 'no error'}: {error}"
    if not entered:
        ctx.count_("failed_openings")
        if fails is False:
            ctx.violation("not-opened", f"{msg}: a working remote side could not be used")
        elif error is None:
            ctx.violation("opened", f"{what}: no error was raised although opening failed")
        elif not isinstance(error, Exception) and fails != "interrupt" or fails == "interrupt" and not isinstance(error, KeyboardInterrupt):
            ctx.violation("wrong-error", msg)
    else:
        ctx.count_("opened")
        if body == "raise" and error is not thrown:
            ctx.violation("error-hidden", f"{msg}: the exception of the body was {thrown!r}")
        if body == "kill" and not isinstance(error, (OSError, EOFError)):
            ctx.violation("error-hidden", f"{msg}: the remote side had died")
        if body in ("normal", "kill-silent", "kill-request") and error is not None and fails is False:
            ctx.violation("leaving-fails", msg)
    if host.connection is not None:
        ctx.violation("still-connected", f"{msg}: the host still has a connection afterwards")
    if thrown is not None:
        thrown.__traceback__ = thrown.__context__ = None
    error = thrown = None
    left = []
    adopted()
    try:
        pid, _ = os.waitpid(-1, os.WNOHANG) if base == 0 else (None, None)
        if pid is not None:
            left.append(f"process left behind {'running' if pid == 0 else 'unreaped'}")
    except ChildProcessError:
        pass
    gc.collect()
    new = {k: v for k, v in own_fds().items() if w.fds.get(k) != v}
    if new:
        left.append(f"descriptors {sorted(new)} left open")
    if left:
        ctx.violation("left-behind", f"{msg}: " + ", ".join(left))
    if took > 40:
        # the remote side would have ended by itself only after 60 s
        ctx.violation("not-terminated", f"{msg}: the remote side was waited for instead of being terminated ({took:.0f} s)")


def interrupter():
    """Interrupts this program as soon as the remote side does not answer any more."""
    def stop(*_):
        raise KeyboardInterrupt

    def wait():
        t = time.monotonic()
        while not os.path.exists("/tmp/fake/reached"):
            if time.monotonic() - t > 60:
                return
            time.sleep(0.005)
        time.sleep(0.1)
        os.kill(os.getpid(), signal.SIGUSR1)
    signal.signal(signal.SIGUSR1, stop)
    threading.Thread(target=wait, daemon=True).start()


def own_children():
    """0 if there are none, otherwise 1 (without reaping any)."""
    try:
        os.waitid(os.P_ALL, 0, os.WEXITED | os.WNOHANG | os.WNOWAIT)
        return 1
    except ChildProcessError:
        return 0


def identity(ctx, host, ident, what):
    uid, gid, _ = IDENTITIES[ident]
    want = dict(as_user=NAMES[uid], as_group=GNAMES[gid], owner=NAMES[uid], group=GNAMES[gid])
    fora.script = ScriptWrapper(name="x")
    try:
        with fora.script.defaults() as d:
            got = {k: getattr(d, k) for k in want}
            probe.take()
            x = call(host.connection.run, [probe.PATH])
            reps = probe.take()
    finally:
        fora.script = None
    ctx.count_("identities")
    if got != want:
        ctx.violation("base-defaults", f"{what}: the remote side runs as {want}, the base defaults are {got}")
    elif not x.ok or len(reps) != 1 or (reps[0].uids[0], reps[0].gids[0]) != (uid, gid):
        ctx.violation("identity", f"{what}: a command without any settings: {x.brief()}, executed as {[(p.uids, p.gids) for p in reps]}, expected {(uid, gid)}")


_ = json
