"""C08: a session survives every failing or malformed request."""
import os
import stat as st_
import subprocess

import fora

from .. import gen, probe
from ..foraenv import Session, fresh, own_fds, random_output_args, wipe
from .c05 import IDENTITIES, PATH, short

LEVEL = "exploration"
RULE = ("sessions with random sequences of 15-60 requests, about half of them failing, malformed or not transmittable, interleaved with requests whose answers carry "
        "unique tokens; the monitor matches every answer to its request and checks what the executed commands can reach; non-trivial: distinct (request, malformation, preceding request)")
REQUIRED = {"quick": {"requests": 70000, "valid_requests": 65000, "long_sessions": 1, "malformed": 5000, "sessions": 300, "probe_fds": 800}, "thorough": {"requests": 120000}}

BADPATH = ["", "\x00", "/\x00/x", "/tmp/\udc80", "\ud800", "/" + "x" * 300, "/" + "y/" * 3000, "relative/missing", "/dev/null/x", "/nonexistent/a/b", "/tmp", "/", "\U0010ffff", "/\n", None, 5, b"/tmp",
           ["a"], "//", "/.", "/tmp/.."]
BADID = ["", "\x00", "nosuch", "\udcff", "-1", "4294967296", "99999999999999999999999", "1_0", "root\x00", "x" * 100000, 0, -1, True, b"root", ["root"], "0.5", "root:root"]
BADOCT = ["", "8", "abc", "-1", "-777", "77777777777777777777777", "0x1", "\x00", "\udc80", "7" * 5000, 644, None, "1e1", " ", "٣"]
BADBYTES = [None, "text", 5, ["a"], -1, 3.5, {"a": 1}]
BADKEY = ["", "\x00", "\udc80", "a=b", "=", None, 5, b"PATH", "x" * 200000]
BADCMD = [[], [""], ["\x00"], ["/nonexistent"], ["true", "\x00"], ["\udc80"], ["true", "\ud800x"], [None], ["true", None], ["true", 5], [b"true"], None, 5, "", ["/tmp"], ["/dev/null"],
          ["true"] + ["a" * 1000] * 3000, ["true", "b" * 200000], ["./x"], [["true"]], ["/" + "n" * 5000], {}]


def malformed(rng, root):
    """(name, function(connector, connection), text): one request that fails somewhere."""
    k = rng.choice(["stat", "download", "upload", "upload", "run", "run", "run", "run", "resolve_user", "resolve_group", "query_user", "query_group", "getenv", "home_dir"])
    if k in ("stat", "download"):
        a = [rng.choice(BADPATH)]
        kw = {}
        if k == "stat" and rng.random() < 0.5:
            kw = {"follow_links": rng.choice([True, False, "yes", None, 5]), "sha512sum": rng.choice([True, None, "x"])}
        if k == "stat" and rng.random() < 0.1:
            kw = {"sha512sum": object()}
    elif k == "upload":
        a = [root + "/up", b"data"]
        kw = {}
        w = rng.choice(["file", "content", "mode", "owner", "group"])
        if w == "file":
            a[0] = rng.choice([x for x in BADPATH if x != "relative/missing" and x != "/\n" and x != "\U0010ffff"])
        elif w == "content":
            a[1] = rng.choice(BADBYTES)
        elif w == "mode":
            kw[w] = rng.choice(BADOCT)
        else:
            kw[w] = rng.choice(BADID)
    elif k == "run":
        a, kw = [["true"]], {}
        w = rng.choice(["command", "command", "command", "input", "user", "group", "umask", "cwd", "exit", "signal"])
        if w == "command":
            a = [rng.choice(BADCMD)]
        elif w == "input":
            kw[w] = rng.choice([x for x in BADBYTES if x is not None])
        elif w in ("user", "group"):
            kw[w] = rng.choice(BADID)
        elif w == "umask":
            kw[w] = rng.choice(BADOCT)
        elif w == "cwd":
            kw[w] = rng.choice(BADPATH)
        elif w == "exit":
            a = [["sh", "-c", f"exit {rng.randrange(1, 256)}"]]
        else:
            a = [["sh", "-c", f"kill -{rng.choice([1, 2, 6, 9, 11, 13, 15])} $$"]]
    elif k in ("resolve_user", "resolve_group", "query_user", "query_group", "home_dir"):
        a, kw = [rng.choice(BADID)], {}
        if k == "query_user" and rng.random() < 0.5:
            kw = {"query_password_hash": rng.choice([True, None, "x"])}
    else:
        a, kw = [rng.choice(BADKEY)], {}
    return k, a, kw


class Valid:
    """A request with a unique answer."""
    def __init__(self, ctx, root, n):
        rng = self.rng = ctx.rng
        self.ctx, self.n, self.root = ctx, n, root
        self.kind = rng.choice(["run", "run", "run-nocapture", "run-noise", "run-readstdin", "stat", "stat-missing", "download", "download-missing", "upload", "resolve_user", "resolve_group", "query_user",
                                "query_group", "getenv", "unknown"])
        self.tok = gen.token(rng) + str(n)

    def go(self, S, conn, args):
        rng, tok, root = self.rng, self.tok, self.root
        api = conn if rng.random() < 0.5 else conn.connector
        k = self.kind
        if k == "run":
            out = (tok.encode() + b"\x00\xff") * rng.choice([1, 1, 1000, 30000])
            probe.plan(out=out, err=b"e" + tok.encode())
            r = S.op(api.run, [probe.PATH, tok], input=tok.encode(), args=args)
            reps = probe.take()
            self.fds(reps)
            return r, r.ok and (r.value.stdout, r.value.stderr, r.value.returncode) == (out, b"e" + tok.encode(), 0) and len(reps) == 1 and reps[0].args[1:] == [tok.encode()]
        if k == "run-nocapture":
            # output that looks like protocol data must go nowhere near the session
            probe.plan(out=rng.choice([b"\x00\x00\x00\x00", b"\x00\x00\x00\x01", b"\xff" * 64, b"x" * 100_000, bytes(8) + b"\x05"]), err=b"\x00" * 32)
            r = S.op(api.run, [probe.PATH, tok], capture_output=False, args=args)
            reps = probe.take()
            self.fds(reps)
            return r, r.ok and not r.value.stdout and not r.value.stderr and r.value.returncode == 0 and len(reps) == 1
        if k == "run-noise":
            script = rng.choice(["echo x >&0", "exec <&-; exec >&-; exec 2>&-; exit 0", "(exec 1>&- 0<&-; sleep 0.01) & wait; exit 0", "for f in 3 4 5 6 7 8 9; do eval \"echo junk >&$f\"; done; true",
                                 "for f in 3 4 5 6 7 8 9; do eval \"exec $f<&0\"; done; cat <&3", "head -c 70000 /dev/zero; head -c 70000 /dev/zero >&2", "trap '' PIPE; yes | head -1",
                                 "cat; cat; cat", "read x; echo $x; cat >/dev/null"])
            r = S.op(api.run, ["sh", "-c", script], check=False, capture_output=rng.random() < 0.6, args=args)
            return r, r.ok
        if k == "run-readstdin":
            probe.plan(read=rng.choice(["all", "none"]), out=tok.encode())
            r = S.op(api.run, [probe.PATH], args=args)
            reps = probe.take()
            self.fds(reps)
            return r, r.ok and r.value.stdout == tok.encode() and len(reps) == 1 and reps[0].stdin in (b"", None) and reps[0].eof in ("1", None)
        p = f"{root}/{tok}"
        if k == "stat":
            size = rng.randrange(1, 5000)
            with open(p, "wb") as f:
                f.write(b"s" * size)
            os.chmod(p, 0o644)
            r = S.op(api.stat, p, args=args)
            return r, r.ok and r.value is not None and r.value.size == size
        if k == "stat-missing":
            r = S.op(api.stat, p, args=args)
            return r, r.ok and r.value is None
        if k == "download":
            data = (p.encode() + b"\n") * rng.choice([1, 100, 20000])
            with open(p, "wb") as f:
                f.write(data)
            os.chmod(p, 0o644)
            r = S.op(api.download, p, args=args)
            return r, r.ok and r.value == data
        if k == "download-missing":
            r = S.op(api.download, p, args=args)
            return r, not r.ok and isinstance(r.exc, ValueError)
        if k == "upload":
            data = (p.encode() + b"\n") * rng.choice([0, 1, 100, 20000])
            r = S.op(api.upload, p, data, mode="644", args=args)
            try:
                with open(p, "rb") as f:
                    return r, r.ok and f.read() == data
            except OSError:
                return r, False
        if k == "resolve_user":
            u = rng.choice(gen.USERS)
            r = S.op(api.resolve_user, str(gen.UID[u]), args=args)
            return r, r.ok and r.value == u
        if k == "resolve_group":
            g = rng.choice(list(gen.GROUPS))
            r = S.op(api.resolve_group, str(gen.GROUPS[g]), args=args)
            return r, r.ok and r.value == g
        if k == "query_user":
            u = rng.choice(gen.USERS)
            r = S.op(api.query_user, u, args=args)
            return r, r.ok and r.value is not None and r.value.uid == gen.UID[u]
        if k == "query_group":
            g = rng.choice(list(gen.GROUPS))
            r = S.op(api.query_group, g, args=args)
            return r, r.ok and r.value is not None and r.value.gid == gen.GROUPS[g]
        if k == "getenv":
            i = rng.randrange(5)
            r = S.op(api.getenv, f"FV_T{i}", args=args)
            return r, r.ok and r.value == f"token{i}"
        r = S.op(conn.connector.resolve_user, "nosuch" + tok, args=args)
        return r, not r.ok and isinstance(r.exc, ValueError) and tok in str(r.exc)

    def fds(self, reps):
        """A command must not hold a stream of the session."""
        mine = {v for fd, v in own_fds().items() if st_.S_ISFIFO(os.fstat(fd).st_mode)}
        for rep in reps:
            if rep is None:
                continue
            self.ctx.count_("probe_fds", len(rep.fds))
            hit = [fd for fd, x in rep.fds.items() if x in mine]
            if hit:
                self.ctx.violation("command-holds-session-stream", f"a command was started with the session's stream as descriptor {hit} ({self.kind})")


def run(ctx):
    probe.setup()
    probe.id_setup()
    for i in ctx.cases(480, 5000):
        if i == 5 or ctx.tier != "quick" and i % 500 == 5:
            marathon(ctx)
        else:
            session(ctx)


def session(ctx):
    rng = ctx.rng
    ident = rng.choice(["root", "root", "root", "root-bare", "alice", "svc0"])
    probe.identity(*IDENTITIES[ident])
    root = fresh("m")
    os.chmod(root, 0o777)
    ctx.count_("sessions")
    env = {"PATH": PATH, **{f"FV_T{i}": f"token{i}" for i in range(5)}}
    n0 = len(probe.started())
    prev = "open"
    log = []
    with Session(env=env, debug=rng.random() < 0.1) as S:
        conn = fora.host.connection
        for i in range(rng.choice([15, 30, 45, 60])):
            ctx.count_("requests")
            args = random_output_args(rng)
            if rng.random() < 0.5:
                k, a, kw = malformed(rng, root)
                api = conn if rng.random() < 0.5 or k == "home_dir" else conn.connector
                res = S.op(getattr(api, k), *a, args=args, **kw)
                what = f"{k}({short(a)}, {short(kw)})"
                log.append(f"malformed {what} -> {res.brief()}"[:400])
                ctx.count_("malformed")
                ctx.count_("outcome:" + ("returned" if res.ok else type(res.exc).__name__))
                ctx.evaluated(("malformed", k, what[:60], prev), what)
                if not res.ok and isinstance(res.exc, (OSError, EOFError)):
                    ctx.violation("session-broken", f"the session broke at the request {what}: {res.brief()}", log=log[-6:])
                    break
                prev = what[:40]
            else:
                v = Valid(ctx, root, i)
                res, good = v.go(S, conn, args)
                log.append(f"valid {v.kind} -> {res.brief()}"[:300])
                ctx.count_("valid_requests")
                ctx.evaluated(("valid", v.kind, prev), f"{v.kind} after {prev}")
                if not good:
                    ctx.violation("wrong-answer" if not (not res.ok and isinstance(res.exc, (OSError, EOFError))) else "session-broken",
                                  f"request {v.kind} got {res.brief()} after {log[-3:-1]}", log=log[-8:])
                    break
                prev = v.kind
    if len(probe.started()) - n0 != 1:
        ctx.violation("restarted", f"{len(probe.started()) - n0} dispatchers were started for one session", log=log[-6:])
    wipe(root)


def marathon(ctx):
    """One session with more requests than any counter of 16 bits can count."""
    rng = ctx.rng
    probe.identity(*IDENTITIES["root"])
    root = fresh("m")
    n0 = len(probe.started())
    total = 70000
    with Session(env={"PATH": PATH, **{f"FV_T{i}": f"token{i}" for i in range(5)}}) as S:
        conn = fora.host.connection
        c = conn.connector
        with open(root + "/f", "wb") as f:
            f.write(b"content")
        fds = None
        for n in range(total):
            k = n % 5 if n % 9973 else 9
            if k == 9:
                v = Valid(ctx, root, n)
                res, good = v.go(S, conn, random_output_args(rng))
                got, want = (res.brief(), v.kind) if not good else (0, 0)
            else:
                try:
                    if k == 0:
                        got, want = c.getenv(f"FV_T{n % 4}"), f"token{n % 4}"
                    elif k == 1:
                        got, want = c.stat(root + "/f").size, 7
                    elif k == 2:
                        got, want = c.stat(f"{root}/missing{n}"), None
                    elif k == 3:
                        got, want = c.resolve_user(str(gen.UID["alice"])), "alice"
                    else:
                        got, want = c.download(root + "/f"), b"content"
                except Exception as e:  # noqa: BLE001
                    if type(e).__name__ == "CaseTimeout":
                        raise
                    got, want = repr(e), "an answer"
            if got != want:
                ctx.violation("long-session", f"request {n + 1} of one session got {got!r} instead of {want!r}")
                break
            if n == 100:
                fds = len(os.listdir("/proc/self/fd"))
        else:
            ctx.count_("requests", total)
            ctx.count_("valid_requests", total)
            ctx.count_("long_sessions")
            if len(os.listdir("/proc/self/fd")) > fds + 5:
                ctx.violation("descriptors", f"{len(os.listdir('/proc/self/fd'))} descriptors after {total} requests, {fds} after 100")
    ctx.evaluated(("marathon", total), f"{total} requests in one session")
    if len(probe.started()) - n0 != 1:
        ctx.violation("restarted", f"{len(probe.started()) - n0} dispatchers were started for one session")
    wipe(root)


_ = subprocess
