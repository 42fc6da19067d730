"""C09: a broken stream is always an error, never a result."""
import hashlib
import os

import fora
from fora.connectors.tunnel_dispatcher import RemoteOSError

from .. import gen, mitm, probe
from ..foraenv import Session, call, fresh, wipe
from .c05 import short

LEVEL = "fault_enumeration"
RULE = ("for every kind of request, the session's stream is cut by a man in the middle at every byte of the request and of the response (large payloads: at the field boundaries and "
        "random offsets), and delivered in fragments; the monitor checks that the pending call raises a connection error, that the request was not performed unless complete, and that "
        "the remote side terminated; non-trivial: distinct (request, direction, offset)")
REQUIRED = {"quick": {"cuts": 700, "cuts_request": 300, "cuts_response": 300, "remote_terminated": 500, "fragmented": 60, "not_performed": 120},
            "thorough": {"cuts": 1200}}
PATH = "/tmp/mitm/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


BIG = b"".join(hashlib.sha512(b"%d" % i).digest() for i in range(1100))[:70000]


class Target:
    """One request; performed() tells whether the remote side did it."""
    def __init__(self, name, fn, prepare=None, performed=None, good=None, sample=None):
        self.name, self.fn, self.prepare, self.performed, self.good, self.sample = name, fn, prepare, performed, good, sample


def targets(root):
    def w(name, data):
        def f():
            with open(root + "/" + name, "wb") as h:
                h.write(data)
        return f
    up = root + "/uploaded"

    def rmup():
        if os.path.exists(up):
            os.unlink(up)

    def planned(**k):
        def f():
            probe.take()
            probe.plan(**k)
        return f
    ran = lambda: bool(probe.take())  # noqa: E731
    c = lambda: fora.host.connection.connector  # noqa: E731
    big = BIG
    return [
        Target("run", lambda: c().run([probe.PATH, "a", "ü"], input=b"in\x00put", user="root", umask="22", cwd="/tmp"), planned(out=b"output\xff", err=b"err"), ran,
               lambda r: (r.stdout, r.stderr, r.returncode) == (b"output\xff", b"err", 0)),
        Target("run-plain", lambda: c().run([probe.PATH]), planned(read="none"), ran, lambda r: r.returncode == 0),
        Target("run-fails", lambda: c().run([probe.PATH], check=False), planned(read="none", out=b"x", value=3), ran, lambda r: r.returncode == 3),
        Target("run-nocapture", lambda: c().run([probe.PATH], capture_output=False), planned(read="none"), ran, lambda r: r.returncode == 0),
        Target("run-big", lambda: c().run([probe.PATH], input=big), planned(out=big, err=big), ran, lambda r: r.stdout == big and r.stderr == big, 40),
        Target("stat", lambda: c().stat(root + "/f", sha512sum=True), w("f", b"abc"), None, lambda r: r.size == 3),
        Target("stat-missing", lambda: c().stat(root + "/missing"), None, None, lambda r: r is None),
        Target("stat-dir", lambda: c().stat(root, follow_links=True), None, None, lambda r: r.type == "dir"),
        Target("upload", lambda: c().upload(up, b"content\n", mode="640", owner="alice", group="bob"), rmup, lambda: os.path.exists(up), lambda r: r is None),
        Target("upload-empty", lambda: c().upload(up, b""), rmup, lambda: os.path.exists(up), lambda r: r is None),
        Target("upload-big", lambda: c().upload(up, big), rmup, lambda: os.path.exists(up), lambda r: r is None, 40),
        Target("download", lambda: c().download(root + "/g"), w("g", b"some content"), None, lambda r: r == b"some content"),
        Target("download-empty", lambda: c().download(root + "/e"), w("e", b""), None, lambda r: r == b""),
        Target("download-big", lambda: c().download(root + "/b"), w("b", big), None, lambda r: r == big, 40),
        Target("resolve_user", lambda: c().resolve_user("3001"), None, None, lambda r: r == "alice"),
        Target("resolve_user-none", lambda: c().resolve_user(None), None, None, lambda r: r == "root"),
        Target("resolve_group", lambda: c().resolve_group("webteam"), None, None, lambda r: r == "webteam"),
        Target("query_user", lambda: c().query_user("alice", query_password_hash=True), None, None, lambda r: r.uid == 3001 and "staff2" in r.groups),
        Target("query_group", lambda: c().query_group("staff2"), None, None, lambda r: r.gid == 3100 and len(r.members) == 3),
        Target("getenv", lambda: c().getenv("FV_T"), None, None, lambda r: r == "tökén"),
        Target("getenv-unset", lambda: c().getenv("FV_NONE"), None, None, lambda r: r is None),
        # through the connection, where failures might be taken for negative answers
        Target("conn.download_or", lambda: fora.host.connection.download_or(root + "/g", b"DEFAULT"), w("g", b"some content"), None, lambda r: r == b"some content"),
        Target("conn.download_or-missing", lambda: fora.host.connection.download_or(root + "/missing", b"DEFAULT"), None, None, lambda r: r == b"DEFAULT"),
        Target("conn.query_user", lambda: fora.host.connection.query_user("nosuch", default="DEFAULT"), None, None, lambda r: r == "DEFAULT"),
        Target("conn.query_group", lambda: fora.host.connection.query_group("staff2", default="DEFAULT"), None, None, lambda r: r != "DEFAULT" and r.gid == 3100),
        Target("conn.home_dir", lambda: fora.host.connection.home_dir("alice"), None, None, lambda r: r == "/home/alice"),
        Target("conn.getenv", lambda: fora.host.connection.getenv("FV_NONE", "DEFAULT"), None, None, lambda r: r == "DEFAULT"),
    ]


def session():
    return Session(env={"PATH": PATH, "FV_T": "tökén"})


def measure(root):
    """Lengths of every target's request and response."""
    out = {}
    mitm.plan()
    with session():
        for t in targets(root):
            if t.prepare:
                t.prepare()
            mitm.plan()
            r = call(t.fn)
            _, a, b, _ = mitm.state()
            out[t.name] = (a, b, r)
            if t.performed:
                t.performed()
    return out


def run(ctx):
    probe.setup()
    mitm.setup()
    root = fresh("c")
    os.chmod(root, 0o755)
    with ctx.watch(300):
        lens = measure(root)
    plan = [("opening", d, k) for d, n in (("c", 4), ("s", 4)) for k in range(n)]
    import random
    r0 = random.Random(f"offsets/{ctx.seed}")
    for t in targets(root):
        a, b, r = lens[t.name]
        if not r.ok or not t.good(r.value):
            ctx.violation("baseline", f"{t.name} without any fault: {r.brief()[:300]}")
            continue
        for d, n in (("c", a), ("s", b)):
            offs = list(range(n))
            if t.sample and n > 300:
                edge = [x for x in list(range(0, 24)) + list(range(n - 12, n)) + [65535, 65536, 65537, 70000, 70020] if 0 <= x < n]
                offs = sorted(set(edge[::1 if ctx.tier == "thorough" else 4] + [r0.randrange(n) for _ in range(t.sample if ctx.tier == "thorough" else 8)]))
            elif ctx.tier == "quick" and n > 60:
                offs = sorted(set(offs[:30] + r0.sample(offs, min(len(offs), 24)) + offs[-10:]))
            plan += [(t.name, d, k) for k in offs]
        plan += [(t.name, "f", k) for k in (1, 2, 3, 7, 64)]
    if ctx.violations:
        return
    r0.shuffle(plan)
    by = {t.name: t for t in targets(root)}
    for i in ctx.cases(len(plan), len(plan)):
        name, d, k = plan[i]
        if name == "opening":
            opening(ctx, d, k)
        else:
            case(ctx, by[name], d, k, lens[name], root)
    wipe(root)


def connection_error(out):
    return not out.ok and isinstance(out.exc, (OSError, EOFError)) and not isinstance(out.exc, RemoteOSError)


def opening(ctx, d, k):
    mitm.plan(d, k)
    out = call(lambda: session().__enter__())
    ctx.evaluated(("opening", d, k), f"opening, cut {d} at {k}")
    ctx.count_("cuts")
    if out.ok:
        ctx.violation("opened-on-broken-stream", f"opening succeeded although the stream broke ({d} at {k})")
    elif not connection_error(out):
        ctx.violation("wrong-error", f"opening with the stream broken ({d} at {k}): {out.brief()}")


def case(ctx, t, d, k, ln, root):
    what = f"{t.name}, " + (f"fragments of {k}" if d == "f" else f"{'request' if d == 'c' else 'response'} cut at byte {k} of {ln[0 if d == 'c' else 1]}")
    ctx.evaluated((t.name, d, k), what)
    mitm.plan()
    with session() as S:
        if t.prepare:
            t.prepare()
        if d == "f":
            mitm.plan("-", -1, k if not t.sample or k > 3 else 999)
            out = call(t.fn)
            ctx.count_("fragmented")
            if not out.ok or not t.good(out.value):
                ctx.violation("fragmented-delivery", f"{what}: {out.brief()[:400]}")
            if t.performed:
                t.performed()
            return
        mitm.plan(d, k)
        out = call(t.fn)
        code = mitm.wait_exit()
        ctx.count_("cuts")
        ctx.count_("cuts_request" if d == "c" else "cuts_response")
        if out.ok:
            ctx.violation("value-from-broken-stream", f"{what}: the call returned {short(out.value)}")
        elif not connection_error(out):
            ctx.violation("wrong-error", f"{what}: not a connection error: {out.brief()}")
        if code == -2:
            ctx.count_("nudged")
            ctx.violation("remote-not-terminated", f"{what}: the remote side still runs 20 s after its input ended")
        elif code is not None:
            ctx.count_("remote_terminated")
        else:
            ctx.problem(f"{what}: exit of the remote side not observed")
        done = t.performed() if t.performed else None
        if d == "c" and done is not None:
            ctx.count_("not_performed")
            if done:
                ctx.violation("performed-incomplete-request", f"{what}: the request was performed although only a part of it arrived")
        if ctx.rng.random() < 0.3:
            mitm.plan()
            out = call(S.conn.connector.getenv, "FV_T")
            if out.ok:
                ctx.violation("value-after-break", f"{what}: a later request on the broken connection returned {short(out.value)}")
            elif not connection_error(out):
                ctx.violation("wrong-error", f"{what}: later request: {out.brief()}")


_ = gen
