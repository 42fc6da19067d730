"""C05: remote commands run exactly as requested."""
import grp
import os
import subprocess

import fora
from fora.connectors.tunnel_dispatcher import RemoteOSError

from .. import gen, probe
from ..foraenv import call, fresh, random_output_args, wipe
from ._ops import Sessions

LEVEL = "exploration"
RULE = ("random commands (argument vectors, stdin, output, exit codes and signals, user, group, umask, cwd; valid and invalid) run through connections of "
        "dispatchers of five identities; the probe program records what it really received and the caller's result is compared with what the probe did; "
        "non-trivial: distinct (session identity, argument kinds, stdin kind, output kind, exit, user, group, umask, cwd)")
REQUIRED = {"quick": {"commands_started": 2500, "commands_refused": 500, "nonzero_checked": 300, "signal_deaths": 100, "other_user": 500,
                      "unprivileged_sessions": 20, "unread_stdin": 60},
            "thorough": {"commands_started": 25000, "commands_refused": 5000}}
PATH = "/tmp/idshim/bin:/tmp/probe/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"

IDENTITIES = {  # name: (uid, gid, groups)
    "root": (0, 0, [0, 3202]),
    "root-bare": (0, 0, []),
    "alice": (3001, 3001, [3001, 3002, 3100, 3200]),
    "alice-webteam": (3001, 3200, [3002]),
    "svc0": (301, 301, []),
}
SIGNALS = [1, 2, 3, 6, 8, 9, 10, 11, 13, 14, 15]
ARGS = gen.NAME_PARTS + ["", "-c", "exit 0", "a b", "'", '"', "\\", "\n", "x" * 5000, "y" * 100_000, "*", "-", "\t", "a=b", "é" * 300, "\ufffd", "\U0010ffff",
                         "\x1b[0m", "\r\n", "%", "0x10", "null", "None", "True"]


class Pool:
    def __init__(self):
        self.ss = {}

    def get(self, name, every=60):
        s = self.ss.get(name)
        if s is None:
            uid, gid, groups = IDENTITIES[name]
            probe.identity(uid, gid, groups)
            s = self.ss[name] = Sessions(10 ** 9, env={"PATH": PATH})
            s.uses = 0
        s.uses += 1
        if s.uses > every:
            s.close()
            del self.ss[name]
            return self.get(name, every)
        return s.get()

    def drop(self, name):
        s = self.ss.pop(name, None)
        if s:
            s.close()

    def close(self):
        for s in self.ss.values():
            s.close()


def supplementary(user):
    return {g.gr_gid for g in grp.getgrall() if user in g.gr_mem}


def by_uid(uid):
    return next(n for n, u in gen.UID.items() if u == uid)


def run(ctx):
    probe.setup()
    probe.id_setup()
    os.symlink("/tmp/probe/bin/probe", "/tmp/probe/bin/pröbe link")
    with open("/tmp/probe/bin/noexec", "w") as f:
        f.write("x")
    os.chmod("/tmp/probe/bin/noexec", 0o644)
    root = fresh("cw")
    dirs = {"plain": root + "/plain", "odd": root + "/ödd 'dir'\n$x", "deep": root + "/" + "/".join("d" * 40 for _ in range(12))}
    for d in dirs.values():
        os.makedirs(d)
        os.symlink("/tmp/probe/bin/probe", d + "/relprobe")
    os.symlink(dirs["plain"], root + "/ln")
    os.makedirs(root + "/private/sub")
    os.chmod(root + "/private", 0o700)
    with open(root + "/afile", "w") as f:
        f.write("x")
    pool = Pool()
    try:
        for i in ctx.cases(6000, 80000):
            case(ctx, pool, root, dirs, large=i % 1500 == 7)
    finally:
        pool.close()
    wipe(root)


def case(ctx, pool, root, dirs, large=False):
    rng = ctx.rng
    ident = rng.choice(["root"] * 6 + ["root-bare"] * 3 + ["alice"] * 2 + ["alice-webteam", "svc0"])
    new = ident not in pool.ss
    S = pool.get(ident)
    suid, sgid, sgroups = IDENTITIES[ident]
    if new and suid:
        ctx.count_("unprivileged_sessions")
    conn = fora.host.connection
    via = rng.choice(["connection", "connection", "connector"])
    bad = None
    kw = {}

    # -- identity
    uid, gid, groups = suid, sgid, set(sgroups)
    own_groups_ok = None
    r = rng.random()
    if r < 0.5 and (suid == 0 or rng.random() < 0.4):
        a, u = gen.owner(rng)
        kw["user"] = a
        uid = u
    elif r < 0.54:
        kw["user"] = rng.choice(["nosuchuser", "99999", "alice ", "", "ALICE", "-1", "alice:bob", "4294967296", "0x0", "1_0", " 0", "٣"])
        bad = "user"
    r = rng.random()
    if r < 0.3 and (suid == 0 or rng.random() < 0.4):
        a, g = gen.group(rng)
        kw["group"] = a
    elif r < 0.33:
        kw["group"] = rng.choice(["nosuchgroup", "99999", "", "Staff2", "-1", "4294967296", "1_0", " 0", "alice,bob"])
        bad = bad or "group"
    if bad is None:
        if "group" in kw:
            gid = g
        elif via == "connection":
            gid = sgid        # the default group in effect
        elif "user" in kw:
            gid = gen.PGID[by_uid(uid)]
        if uid != suid:
            groups = {gid} | supplementary(by_uid(uid))
        elif "user" in kw or via == "connection":
            own_groups_ok = {gid} | supplementary(by_uid(uid))
        if suid != 0 and (uid != suid or gid != sgid):
            bad = "not permitted"

    # -- umask and cwd
    umask = 0o077
    r = rng.random()
    if r < 0.5:
        m = rng.choice(["0", "22", "022", "0022", "77", "077", "27", "7", "777", "111", "0o22", "002", "000", "1", "70", "{:o}".format(rng.randrange(512))])
        kw["umask"], umask = m, int(m, 8)
    elif r < 0.53:
        kw["umask"] = rng.choice(["8", "abc", "", "0x12", "u=rwx", "9", "12.0"])
        bad = bad or "umask"
    cwd = "/tmp" if via == "connection" else "/"
    r = rng.random()
    cmd0 = "/tmp/probe/bin/probe"
    if r < 0.45:
        k = rng.choice(list(dirs))
        kw["cwd"] = cwd = dirs[k]
        if rng.random() < 0.3:
            cmd0 = "./relprobe"
        if rng.random() < 0.1:
            kw["cwd"] = cwd + "/"
    elif r < 0.48:
        kw["cwd"], cwd = root + "/ln", dirs["plain"]
    elif r < 0.52:
        kw["cwd"] = rng.choice([root + "/missing", root + "/afile", root + "/afile/x", "/\x00", root + "/" + "n" * 300])
        bad = bad or "cwd"
    elif r < 0.56:
        kw["cwd"] = cwd = root + "/private" + rng.choice(["", "/sub"])
        if uid != 0:
            bad = bad or "cwd not accessible"

    # -- command
    r = rng.random()
    argkind = "args"
    args = [rng.choice(ARGS) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 12]))]
    if r < 0.15:
        cmd0 = "probe" if "cwd" not in kw or rng.random() < 0.5 else cmd0
    elif r < 0.22:
        cmd0 = "/tmp/probe/bin/pröbe link"
    elif r < 0.25:
        args = [f"arg{i}" for i in range(rng.choice([200, 3000]))]
        argkind = "many"
    elif r < 0.32:
        cmd0 = rng.choice(["/nonexistent/x", "no-such-command", "/tmp/probe/bin/noexec", "/tmp", "", "./relprobe-missing", "probe "])
        bad = bad or "command"
    elif r < 0.34:
        args = args + [rng.choice(["z" * 140_000, "nul\x00byte", "\x00"])]
        bad = bad or "argument"
    command = [cmd0] + args
    if rng.random() < 0.01:
        command = []
        bad = bad or "command"

    # -- stdin, output, exit
    r = rng.random()
    read = "all"
    if r < 0.35:
        stdin = None
    else:
        stdin = gen.content(rng, 0.05)
        if rng.random() < 0.12:
            read = rng.choice(["none", "some"])
    if stdin is not None:
        kw["input"] = stdin
    out, err = (gen.content(rng, 0.04) if rng.random() < 0.7 else b"" for _ in range(2))
    if large:
        # beyond every buffer
        out, err = (rng.randbytes(4099) * rng.choice([1, 4100, 5000, 9000]) for _ in range(2))
        if stdin is not None:
            kw["input"] = stdin = rng.randbytes(4099) * rng.choice([4100, 9000])
        ctx.count_("large_streams")
    kind, value = "rc", 0
    r = rng.random()
    if r < 0.3:
        value = rng.choice([1, 2, 3, 126, 127, 128, 129, 254, 255, rng.randrange(256)])
    elif r < 0.4:
        kind, value = "sig", rng.choice(SIGNALS)
    code = -value if kind == "sig" else value
    probe.plan(read, out, err, rng.choice([1 << 16, 4096, 1000]), kind, value)
    capture = rng.random() < 0.9
    if not capture or rng.random() < 0.2:
        kw["capture_output"] = capture
    check = rng.random() < 0.6
    if not check or rng.random() < 0.3:
        kw["check"] = check
    what = f"{via} {ident}: run({short(command)}, {short(kw)}) plan={kind} {value} out={len(out)} err={len(err)} read={read}"

    fn = conn.run if via == "connection" else conn.connector.run
    res = S.op(fn, command, args=random_output_args(rng), **kw)
    reps = probe.take()
    v = lambda mech, msg: ctx.violation(mech, f"{msg}; {what}")  # noqa: E731
    ctx.evaluated((ident, via, argkind, len(command) > 1, cmd0, stdin is None, read, len(out) > 65536, len(err) > 65536, bool(out), bool(err), kind, value,
                   kw.get("user"), kw.get("group"), kw.get("umask"), kw.get("cwd"), capture, check), what)
    if not res.ok and isinstance(res.exc, (OSError, EOFError)):
        v("session-broken", f"the session broke ({bad}): {res.brief()}")
        pool.drop(ident)
        return
    if bad:
        ctx.count_("commands_refused")
        ctx.count_("refused:" + bad)
        if reps:
            v("ran-invalid", f"command was run although it cannot be run as requested ({bad})")
        if res.ok:
            v("error-not-reported", f"no error although the command cannot be run as requested ({bad}): {res.brief()}")
        elif isinstance(res.exc, subprocess.CalledProcessError):
            v("error-as-result", f"reported as if it had run ({bad}): {res.brief()}")
        return
    if len(reps) != 1:
        v("not-run-once", f"the command was executed {len(reps)} times; {res.brief()}")
        return
    ctx.count_("commands_started")
    p = reps[0]
    if p is None:
        ctx.problem("probe died: " + what)
        return
    exp_args = [os.fsencode(a) for a in command]
    if p.args != exp_args:
        v("argv", f"argument vector is {short(p.args)}")
    if read == "all":
        if p.stdin != (stdin or b"") or p.eof != "1":
            v("stdin", f"stdin was {short(p.stdin)} (eof={p.eof}) instead of {short(stdin)}")
    elif read == "some" and p.stdin != (stdin or b"")[:7]:
        v("stdin", f"stdin began with {short(p.stdin)} instead of {short((stdin or b'')[:7])}")
    if read == "none":
        ctx.count_("unread_stdin")
    if p.uids != [uid] * 3:
        v("uid", f"ran as uids {p.uids} instead of {uid}")
    if p.gids != [gid] * 3:
        v("gid", f"ran with gids {p.gids} instead of {gid}")
    have = set(p.groups) - {gid}
    if have != groups - {gid} and (own_groups_ok is None or have != own_groups_ok - {gid}):
        v("groups", f"ran with supplementary groups {sorted(p.groups)} instead of {sorted(groups)}")
    if uid != suid:
        ctx.count_("other_user")
    if p.umask != umask:
        v("umask", f"ran with umask {p.umask:o} instead of {umask:o}")
    if p.cwd != cwd.rstrip("/") and not (cwd == "/" and p.cwd == "/"):
        v("cwd", f"ran in {p.cwd!r} instead of {cwd!r}")
    if code < 0:
        ctx.count_("signal_deaths")
    exp_out, exp_err = (out, err) if capture else (None, None)
    if code != 0 and check:
        ctx.count_("nonzero_checked")
        if res.ok or not isinstance(res.exc, subprocess.CalledProcessError):
            v("check", f"return code {code} with check=True: {res.brief()}")
            return
        got = (res.exc.returncode, res.exc.output, res.exc.stderr)
        if list(res.exc.cmd) != command:
            v("check-cmd", f"the error names the command {short(res.exc.cmd)}")
    elif not res.ok:
        v("unexpected-error", f"return code {code}, check={check}: {res.brief()}")
        return
    else:
        got = (res.value.returncode, res.value.stdout, res.value.stderr)
    if got[0] != code:
        v("returncode", f"returned {got[0]} instead of {code}")
    if (got[1] or None if not capture else got[1]) != exp_out:
        v("stdout", f"stdout is {short(got[1])} ({len(got[1] or b'')}) instead of {short(exp_out)} ({len(exp_out or b'')})")
    if (got[2] or None if not capture else got[2]) != exp_err:
        v("stderr", f"stderr is {short(got[2])} ({len(got[2] or b'')}) instead of {short(exp_err)} ({len(exp_err or b'')})")


def short(x):
    s = repr(x)
    return s if len(s) < 400 else s[:300] + f"...({len(s)})"


_ = (RemoteOSError, call)
