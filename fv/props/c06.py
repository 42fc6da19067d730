"""C06: upload, download and stat are faithful."""
import hashlib
import os
import socket
import stat as st_

import fora
from fora.connectors.tunnel_dispatcher import RemoteOSError

from .. import gen, probe
from ..foraenv import Node, again, gname, random_output_args, snap, tree_diff, uname, wipe
from .c05 import IDENTITIES, PATH, Pool, short

LEVEL = "exploration"
RULE = ("random uploads over random prior states, downloads and stats of every file type through privileged and unprivileged dispatchers, each compared "
        "with an independent lstat/stat/read of the path by the monitor; non-trivial: distinct (session, request, path kind, arguments)")
REQUIRED = {"quick": {"uploads": 1200, "downloads": 700, "stats": 1500, "missing": 200, "failures": 250, "bytes": 20_000_000, "unprivileged": 300, "accounts_changed": 100},
            "thorough": {"uploads": 12000, "downloads": 7000, "stats": 15000}}
_ = PATH


def run(ctx):
    probe.setup()
    probe.id_setup()
    pool = Pool()
    try:
        for i in ctx.cases(7000, 80000):
            if i % 1750 == 3:
                huge(ctx, pool)
            else:
                case(ctx, pool)
    finally:
        pool.close()


TYPES = ["file", "file", "file", "file", "dir", "link", "link", "dangling", "loop", "fifo", "sock", "chr", "missing", "missing", "notdir", "toolong",
         "private", "unreadable", "nul", "surrogate", "linkdir"]


def make(rng, root, kind):
    """Creates a path of the given kind, returns it."""
    p = os.path.join(root, gen.name(rng).replace("/", "_").replace("\x00", "") or "x")
    if p.rstrip("/") == root or os.path.basename(p) in (".", ".."):
        p = root + "/x"
    if kind in ("file", "unreadable"):
        with open(p, "wb") as f:
            f.write(gen.content(rng, 0.05))
    elif kind == "dir":
        os.mkdir(p)
    elif kind in ("link", "dangling", "loop", "linkdir"):
        t = root + "/target"
        if kind == "link":
            with open(t, "wb") as f:
                f.write(gen.content(rng))
            os.chmod(t, rng.randrange(0o10000) | 0o444)
        elif kind == "linkdir":
            os.mkdir(t)
        elif kind == "loop":
            t = p
        os.symlink(rng.choice([t, os.path.basename(t)]), p)
        os.lchown(p, *gen.raw_ids(rng))
        if rng.random() < 0.5:
            os.utime(p, ns=(5, times(rng)), follow_symlinks=False)
        return p
    elif kind == "fifo":
        os.mkfifo(p)
    elif kind == "sock":
        s = socket.socket(socket.AF_UNIX)
        s.bind("/tmp/sock")
        os.rename("/tmp/sock", p)
        s.close()
    elif kind == "chr":
        return "/dev/null"
    elif kind == "missing":
        return p if rng.random() < 0.7 else os.path.join(root, "nodir", "x")
    elif kind == "notdir":
        with open(p, "wb"):
            pass
        return p + "/below"
    elif kind == "toolong":
        return root + "/" + "n" * rng.choice([256, 300, 5000])
    elif kind == "nul":
        return p + "\x00x"
    elif kind == "surrogate":
        p = root + "/\udc80x\udcff"
        with open(p, "wb") as f:
            f.write(b"x")
        return p
    elif kind == "private":
        os.mkdir(p)
        os.chmod(p, 0o700)
        with open(p + "/f", "wb") as f:
            f.write(b"secret")
        return p + "/f"
    os.chown(p, *gen.raw_ids(rng))
    os.chmod(p, rng.choice([rng.randrange(0o10000), 0o644, 0o755, 0o600]))
    if kind == "unreadable":
        os.chown(p, 0, 0)
        os.chmod(p, 0o600)
    if rng.random() < 0.6:
        os.utime(p, ns=(7, times(rng)))
    return p


def times(rng):
    return rng.choice([0, 1, -1, -10 ** 9, -123456789, 999_999_999, 10 ** 9, 1 << 31, (1 << 31) * 10 ** 9, 1_700_000_000_123_456_789,
                       rng.randrange(-10 ** 18, 4 * 10 ** 18)])


def access(uid, gid, groups, path):
    """Whether the identity can look the path up (search permission on all parents) -- root always can."""
    if uid == 0:
        return True
    d = "/"
    for part in path.strip("/").split("/")[:-1]:
        d = os.path.join(d, part)
        try:
            s = os.stat(d)
        except (OSError, ValueError):
            return True
        if not permitted(s, uid, gid, groups, 1):
            return False
    return True


def permitted(s, uid, gid, groups, bit):
    if uid == 0:
        return True
    m = s.st_mode
    if s.st_uid == uid:
        return bool(m >> 6 & bit)
    if s.st_gid == gid or s.st_gid in groups:
        return bool(m >> 3 & bit)
    return bool(m & bit)


def case(ctx, pool):
    rng = ctx.rng
    ident = rng.choice(["root"] * 7 + ["alice", "svc0"])
    S = pool.get(ident)
    who = IDENTITIES[ident]
    if who[0]:
        ctx.count_("unprivileged")
    root = again("u")
    os.chmod(root, 0o777)
    if rng.random() < 0.04:
        accounts(ctx)
    op = rng.choice(["upload", "upload", "upload", "download", "download", "stat", "stat", "stat", "mixed"])
    fn = {"upload": upload, "download": download, "stat": stat, "mixed": mixed}[op]
    api = fora.host.connection if rng.random() < 0.6 else fora.host.connection.connector
    fn(ctx, S, api, ident, who, root, random_output_args(rng))
    wipe(root)


BASE = {}


def accounts(ctx):
    """Accounts come, go and are renamed while the session is open: the names of the ids 4242 and 4243."""
    rng = ctx.rng
    for f, rest in (("passwd", "x:{0}:100::/:/bin/sh"), ("group", "x:{0}:")):
        if f not in BASE:
            with open("/etc/" + f, encoding="utf-8") as h:
                BASE[f] = h.read()
        t = BASE[f]
        for i in (4242, 4243):
            if rng.random() < 0.6:
                t += f"{rng.choice(['newcomer', 'other', 'n-3'])}{i}:{rest.format(i)}\n"
        with open(f"/etc/{f}.new", "w", encoding="utf-8") as h:
            h.write(t)
        os.chmod(f"/etc/{f}.new", 0o644)
        os.rename(f"/etc/{f}.new", "/etc/" + f)
    ctx.count_("accounts_changed")


def transport_ok(ctx, res, what, pool=None):
    if not res.ok and isinstance(res.exc, (OSError, EOFError)):
        ctx.violation("session-broken", f"the session broke: {res.brief()}; {what}")
        return False
    return True


def expect_error(ctx, res, what, why):
    """A failure that is not 'missing' must surface as an exception other than the one for missing files."""
    ctx.count_("failures")
    if res.ok:
        ctx.violation("failure-hidden", f"{why}, but the result is {short(res.value)}; {what}")
    elif isinstance(res.exc, ValueError) and not isinstance(res.exc, RemoteOSError):
        ctx.violation("failure-looks-missing", f"{why}, reported like a missing file: {res.brief()}; {what}")


def stat(ctx, S, api, ident, who, root, oargs, kind=None):
    rng = ctx.rng
    kind = kind or rng.choice(TYPES)
    p = make(rng, root, kind)
    follow, sha = rng.random() < 0.5, rng.random() < 0.6
    kw = {}
    if follow or rng.random() < 0.2:
        kw["follow_links"] = follow
    if sha or rng.random() < 0.2:
        kw["sha512sum"] = sha
    what = f"{ident}: stat({short(p)}, {kw}) of {kind}"
    stat_one(ctx, S, api, who, p, kind, follow, sha, kw, oargs, what)
    ctx.evaluated(("stat", ident, kind, follow, sha, os.path.basename(p), type(api).__name__), what)


def stat_one(ctx, S, api, who, p, kind, follow, sha, kw, oargs, what):
    ctx.count_("stats")
    res = S.op(api.stat, p, args=oargs, **kw)
    v = lambda mech, msg: ctx.violation(mech, f"{msg}; {what}")  # noqa: E731
    if not transport_ok(ctx, res, what):
        return
    if kind in ("nul", "surrogate"):
        if kind == "surrogate" and res.ok and res.value is not None:
            return        # a transport that can carry such paths is fine
        return expect_error(ctx, res, what, "the path cannot be transmitted or used")
    if kind in ("notdir", "toolong") or kind == "loop" and follow:
        return expect_error(ctx, res, what, "the lookup fails")
    if not access(*who, p):
        return expect_error(ctx, res, what, "permission is denied")
    try:
        s = os.stat(p, follow_symlinks=follow)
    except FileNotFoundError:
        ctx.count_("missing")
        if not res.ok or res.value is not None:
            v("missing-not-none", f"missing file gives {res.brief()}")
        return
    if sha and st_.S_ISREG(s.st_mode) and not permitted(s, *who, 4):
        return expect_error(ctx, res, what, "the digest cannot be computed")
    if not res.ok or res.value is None:
        v("stat-failed", f"existing path gives {res.brief()}")
        return
    r = res.value
    t = ("dir" if st_.S_ISDIR(s.st_mode) else "file" if st_.S_ISREG(s.st_mode) else "link" if st_.S_ISLNK(s.st_mode) else
         "fifo" if st_.S_ISFIFO(s.st_mode) else "sock" if st_.S_ISSOCK(s.st_mode) else "chr")
    exp = dict(type=t, mode=f"{st_.S_IMODE(s.st_mode):o}", owner=uname(s.st_uid), group=gname(s.st_gid), size=s.st_size, mtime=s.st_mtime_ns,
               ctime=s.st_ctime_ns, sha512sum=None)
    if sha and t == "file":
        with open(p, "rb") as f:
            exp["sha512sum"] = hashlib.sha512(f.read()).digest()
    for k, e in exp.items():
        g = getattr(r, k)
        if g != e or type(g) is not type(e):
            v(f"stat-{k}", f"{k} is {short(g)} but actually {short(e)}")


def download(ctx, S, api, ident, who, root, oargs):
    rng = ctx.rng
    kind = rng.choice(TYPES)
    if kind in ("fifo", "sock"):
        kind = "file"
    p = make(rng, root, kind)
    if rng.random() < 0.02:
        # regular files whose size says nothing about their content
        p = rng.choice(["/proc/version", "/proc/filesystems", "/proc/sys/kernel/ostype", "/proc/devices", "/proc/sys/kernel/cap_last_cap"])
        kind = "proc"
        ctx.count_("unsized_files")
    use_or = hasattr(api, "download_or") and rng.random() < 0.4
    what = f"{ident}: download{'_or' if use_or else ''}({short(p)}) of {kind}"
    ctx.count_("downloads")
    before = snap(root)
    default = rng.choice([None, b"", b"default"])
    if use_or:
        res = S.op(api.download_or, p, default, args=oargs)
    else:
        res = S.op(api.download, p, args=oargs)
    d = tree_diff(before, snap(root))
    if d:
        ctx.violation("download-modified", f"download modified the host: {d[:3]}; {what}")
    ctx.evaluated(("download", ident, kind, use_or, os.path.basename(p), default), what)
    if not transport_ok(ctx, res, what):
        return
    if kind in ("dir", "linkdir"):
        return expect_error(ctx, res, what, "directories cannot be read")
    if kind in ("nul", "surrogate"):
        if kind == "surrogate" and res.ok and res.value == b"x":
            return
        return expect_error(ctx, res, what, "the path cannot be transmitted or used")
    if kind in ("notdir", "toolong", "loop"):
        return expect_error(ctx, res, what, "the lookup fails")
    if not access(*who, p):
        return expect_error(ctx, res, what, "permission is denied")
    try:
        with open(p, "rb") as f:
            data = f.read()
        if not permitted(os.stat(p), *who, 4):
            return expect_error(ctx, res, what, "permission is denied")
    except FileNotFoundError:
        ctx.count_("missing")
        if use_or:
            if not res.ok or res.value != default:
                ctx.violation("missing-not-default", f"missing file gives {res.brief()}; {what}")
        elif res.ok or not isinstance(res.exc, ValueError):
            ctx.violation("missing-not-distinguishable", f"missing file gives {res.brief()}; {what}")
        return
    ctx.count_("bytes", len(data))
    if not res.ok or res.value != data:
        ctx.violation("download-content", f"downloaded {res.brief()[:200]} instead of {len(data)} bytes {short(data[:80])}; {what}")


def upload(ctx, S, api, ident, who, root, oargs):
    rng = ctx.rng
    kind = rng.choice(["missing", "missing", "missing", "file", "file", "file", "link", "dangling", "dir", "notdir", "toolong", "nul", "private", "nodir", "linkdir"])
    if kind == "nodir":
        p = root + "/nodir/x"
    else:
        p = make(rng, root, kind)
        if kind == "missing" and "nodir" in p:
            p = root + "/x y"
    data = gen.content(rng, 0.06)
    kw, bad = {}, None
    if kind in ("dir", "notdir", "toolong", "nul", "nodir", "linkdir"):
        bad = kind
    if not access(*who, p):
        bad = "denied"
    r = rng.random()
    mode = None
    if r < 0.6:
        m = gen.mode(rng)
        kw["mode"], mode = m, int(m, 8)
    elif r < 0.63:
        kw["mode"] = rng.choice(["8", "u+x", "", "9999", "rw", "777777777777777777777777"])
        bad = bad or "mode"
    uid = gid = None
    r = rng.random()
    if r < 0.5 and (who[0] == 0 or rng.random() < 0.3):
        kw["owner"], uid = gen.owner(rng)
        gid = next(g for n, g in gen.PGID.items() if gen.UID[n] == uid)
    elif r < 0.53:
        kw["owner"] = rng.choice(["nosuchuser", "99999", "", "1_0"])
        bad = bad or "owner"
    r = rng.random()
    if r < 0.4 and (who[0] == 0 or rng.random() < 0.3):
        kw["group"], gid = gen.group(rng)
        if uid is None:
            uid = 0         # documented default
    elif r < 0.43:
        kw["group"] = rng.choice(["nosuchgroup", "99999", "", " 0"])
        bad = bad or "group"
    before = snap(root)
    real = os.path.realpath(p) if "\x00" not in p else p
    prior = before.get(real)
    if who[0] != 0 and bad is None:
        if prior is not None:
            s = os.stat(real)
            if not permitted(s, *who, 2):
                bad = "denied"
            elif s.st_uid != who[0] and (uid is not None or mode is not None):
                return        # content can be written, attributes not: fails half-way
        if uid is not None and (uid != who[0] or gid not in set(who[2]) | {who[1]}):
            return
    what = f"{ident}: upload({short(p)}, {len(data)} bytes, {kw}) over {kind} {prior!r}"
    ctx.count_("uploads")
    ctx.count_("bytes", len(data))
    res = S.op(api.upload, p, data, args=oargs, **kw)
    after = snap(root)
    ctx.evaluated(("upload", ident, kind, tuple(sorted(kw.items())), len(data), os.path.basename(p)[:50], None if prior is None else prior.mode), what)
    v = lambda mech, msg: ctx.violation(mech, f"{msg}; {what}")  # noqa: E731
    if not transport_ok(ctx, res, what):
        return
    others = {q: n for q, n in before.items() if q not in (real, os.path.dirname(real))}
    now = {q: n for q, n in after.items() if q not in (real, os.path.dirname(real))}
    d = tree_diff(others, now)
    if d:
        v("upload-modified-other", f"something else was modified: {d[:3]}")
    if bad:
        ctx.count_("failures")
        if res.ok:
            v("upload-error-hidden", f"no error ({bad})")
        if bad in ("owner", "group") or bad == "mode" and kw["mode"] != "777777777777777777777777":
            d = tree_diff(before, after)
            if d:
                v("upload-invalid-modified", f"invalid {bad} but modified {d[:3]}")
        return
    if not res.ok:
        v("upload-failed", res.brief())
        return
    n = after.get(real)
    if n is None or n.type != "file":
        v("upload-nothing", f"afterwards there is {n!r}")
        return
    if n.data != data:
        v("upload-content", f"the file has {len(n.data)} bytes {short(n.data[:80])}, uploaded were {len(data)} bytes {short(data[:80])}")
    em = mode if mode is not None else (prior.mode if prior is not None else 0o600)
    # writing to or chowning a setuid/setgid file legitimately clears these bits
    m = n.mode if mode is not None else n.mode & ~0o6000
    if mode is not None and who[0] != 0 and n.gid not in set(who[2]) | {who[1]}:
        em = mode = mode & ~0o2000      # setgid needs membership
    if m != (em if mode is not None else em & ~0o6000):
        v("upload-mode", f"mode is {n.mode:o} instead of {em:o}")
    eu = uid if uid is not None else (prior.uid if prior is not None else who[0])
    eg = gid if gid is not None else (prior.gid if prior is not None else who[1])
    if (n.uid, n.gid) != (eu, eg):
        v("upload-owner", f"owner is {n.uid}:{n.gid} instead of {eu}:{eg}")


def mixed(ctx, S, api, ident, who, root, oargs):
    """upload, stat, download of the same file agree."""
    rng = ctx.rng
    p = root + "/" + (gen.name(rng).replace("/", "_").replace("\x00", "").strip(".") or "x")
    data = gen.content(rng, 0.3)
    if rng.random() < (0.03 if ctx.tier == "quick" else 0.1):
        data = (rng.getrandbits(256).to_bytes(32, "big") * (1 << 20))[:rng.choice([(1 << 25) - 1, 17_000_003])]
    what = f"{ident}: upload+stat+download {len(data)} bytes as {short(p)}"
    for _i in range(rng.choice([1, 2])):
        r1 = S.op(api.upload, p, data)
        r2 = S.op(api.stat, p, sha512sum=True, args=oargs if len(data) < 1 << 20 else None)
        r3 = S.op(api.download, p)
        ctx.count_("uploads")
        ctx.count_("bytes", 2 * len(data))
        if not (r1.ok and r2.ok and r3.ok):
            ctx.violation("roundtrip-failed", f"{r1.brief()} {r2.brief()} {r3.brief()[:200]}; {what}")
            return
        if r3.value != data or r2.value.size != len(data) or r2.value.sha512sum != hashlib.sha512(data).digest():
            ctx.violation("roundtrip-differs", f"{what}")
        data = data[:len(data) // 2]
    ctx.evaluated(("mixed", ident, len(data), os.path.basename(p)), what)


def huge(ctx, pool):
    """Sizes beyond 32 bits, and contents that don't fit into any reasonable buffer."""
    rng = ctx.rng
    S = pool.get("root")
    root = again("u")
    p = root + "/huge"
    with open(p, "wb") as f:
        f.write(b"start")
        f.truncate(rng.choice([(1 << 32) + 5, 1 << 32, 3 << 31, (1 << 31) - 1, 1 << 31]))
        size = os.fstat(f.fileno()).st_size
    res = S.op(fora.host.connection.stat, p)
    ctx.count_("stats")
    if not res.ok or res.value is None or res.value.size != size or res.value.type != "file":
        ctx.violation("stat-size", f"a file of {size} bytes: {res.brief()}")
    size = rng.choice([(1 << 27) + 3, (1 << 26) + 1, 150_000_001])
    with open(p, "r+b") as f:
        f.truncate(size)
        f.seek(size - 7)
        f.write(b"the end")
    with open(p, "rb") as f:
        want = hashlib.sha512(f.read()).digest()
    res = S.op(fora.host.connection.stat, p, sha512sum=True)
    ctx.count_("stats")
    if not res.ok or res.value is None or res.value.sha512sum != want:
        ctx.violation("stat-sha512sum", f"digest of a sparse file of {size} bytes: {res.brief()}")
    res = S.op(fora.host.connection.download, p)
    ctx.count_("downloads")
    ctx.count_("bytes", size)
    if not res.ok or hashlib.sha512(res.value).digest() != want:
        ctx.violation("download-differs", f"download of a file of {size} bytes: {res.brief()[:200] if not res.ok else len(res.value)}")
    if res.ok and ctx.tier != "quick":
        r2 = S.op(fora.host.connection.upload, p + "2", res.value)
        if not r2.ok:
            ctx.violation("upload-failed", f"upload of {size} bytes: {r2.brief()[:200]}")
        else:
            with open(p + "2", "rb") as f:
                if hashlib.sha512(f.read()).digest() != want:
                    ctx.violation("upload-differs", f"upload of {size} bytes")
    ctx.evaluated(("huge", size), f"stat and download of {size} bytes")
    wipe(root)


_ = Node
