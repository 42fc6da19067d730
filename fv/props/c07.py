"""C07: account and environment lookups are faithful."""
import contextlib
import os

import fora
from fora.connectors.tunnel_dispatcher import RemoteOSError

from .. import probe
from ..foraenv import Session, random_output_args
from .c05 import PATH, short

LEVEL = "exploration"
RULE = ("random account databases and environments, dispatchers of random identities, every lookup request with known, unknown and malformed names and ids; "
        "answers compared with the database the monitor wrote; non-trivial: distinct (request, kind of key, account shape, session privilege)")
REQUIRED = {"quick": {"lookups": 15000, "found": 6000, "missing": 3000, "hash_requests": 1000, "identity": 300, "env": 1500, "duplicate_ids": 200},
            "thorough": {"lookups": 100000}}
ASSUMPTIONS = ["accounts have a shadow entry and an existing primary group; account names are not all digits"]
NAMES = ["www-data2", "Ada", "x", "a.b", "u_1", "svc$", "_apt2", "postgres", "z-9", "longusername-with-32-characters1", "git", "ALICE", "rooty", "roo", "r", "eve", "mallory",
         "b0b", "n1", "o2", "ünï"]
BADKEYS = ["nosuch", "root ", " root", "ROOT", "", "0x0", "+0", " 0", "0 ", "1_0", "-0", "-1", "4294967295", "4294967296", "99999999999999999999", "٣", "root\n", "root:x", "*",
           "1e3", "0.0", "³", "root,alice", "~root", "$USER", "None", "root\x00", "\x00"]


class Db:
    """A generated account database, written to the private /etc."""
    def __init__(self, rng):
        self.users, self.groups = [], []
        names = ["root"] + rng.sample(NAMES, rng.randrange(3, 12))
        gnames = ["root"] + rng.sample(NAMES, rng.randrange(3, 12))
        gids = [0]
        for n in gnames:
            gid = 0 if n == "root" else (rng.choice(gids) if rng.random() < 0.08 else rng.choice([1, 5, 99, 100, 1000, 1001, 2000, 60000, 65533, rng.randrange(2, 65000)]))
            gids.append(gid)
            k = rng.choice([0, 0, 1, 2, 5, len(names)])
            self.groups.append((n, gid, rng.sample(names, min(k, len(names)))))
        uids = [0]
        for n in names:
            uid = 0 if n == "root" else (rng.choice(uids) if rng.random() < 0.08 else rng.choice([1, 2, 1000, 1001, 60000, 65533, rng.randrange(2, 65000)]))
            uids.append(uid)
            gid = 0 if n == "root" else rng.choice(self.groups)[1]
            self.users.append(dict(
                name=n, uid=uid, gid=gid, gecos=rng.choice(["", n, "Fûll Nàme,Room 1,,", "x" * 150, "a b", "& co", "日本"]),
                home=rng.choice(["/root", "/home/" + n, "/", "/dev/null", "/srv/wéb dir", ""]),
                shell=rng.choice(["/bin/sh", "/sbin/nologin", "", "/usr/bin/fish"]),
                hash=rng.choice(["!", "*", "", "!!", "$6$abc$DEF./", "$y$j9T$x$y", "x"])))
        if rng.random() < 0.06:
            # an account in many groups, and a group with many members
            many, used = rng.choice(names), {g for _, g, _ in self.groups}
            free = [g for g in range(20000, 20400) if g not in used]
            self.groups += [(f"many{i}", g, [many] if i % 7 else [many, names[0]]) for i, g in enumerate(free[:rng.choice([40, 70, 140, 300])])]
            n, g, _ = self.groups.pop()
            k = rng.choice([40, 100, 300, 1200])
            self.groups.append((n, g, list(dict.fromkeys([many] + [f"member{i}" for i in range(k)]))))
            self.groups.append(("crowd", 20500, [f"member-{i}" for i in range(k)] + [many]))
        rng.shuffle(self.users)
        rng.shuffle(self.groups)

    def write(self):
        w("/etc/passwd", "".join(f"{u['name']}:x:{u['uid']}:{u['gid']}:{u['gecos']}:{u['home']}:{u['shell']}\n" for u in self.users), 0o644)
        w("/etc/shadow", "".join(f"{u['name']}:{u['hash']}:19000:0:99999:7:::\n" for u in self.users), 0o600)
        w("/etc/group", "".join(f"{n}:x:{g}:{','.join(m)}\n" for n, g, m in self.groups), 0o644)

    def user(self, key):
        for u in self.users:
            if u["name"] == key:
                return u
        if key.isascii() and key.isdigit():
            for u in self.users:
                if u["uid"] == int(key):
                    return u
        return None

    def group(self, key):
        for g in self.groups:
            if g[0] == key:
                return g
        if key.isascii() and key.isdigit():
            for g in self.groups:
                if g[1] == int(key):
                    return g
        return None


def w(path, text, mode):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)
    os.chmod(path, mode)


def run(ctx):
    probe.id_setup()
    saved = {p: open(p, encoding="utf-8").read() for p in ("/etc/passwd", "/etc/shadow", "/etc/group")}
    try:
        for _ in ctx.cases(320, 4000):
            epoch(ctx)
    finally:
        for p, t in saved.items():
            w(p, t, 0o644)


def epoch(ctx):
    rng = ctx.rng
    db = Db(rng)
    db.write()
    me = rng.choice(db.users) if rng.random() < 0.4 else db.user("root")
    mygid = me["gid"] if rng.random() < 0.7 else rng.choice(db.groups)[1]
    probe.identity(me["uid"], mygid, [])
    env = {"PATH": PATH, "HOME": rng.choice(["/tmp", "/nonexistent", ""]), "FV_X": rng.choice(["", "v", "ünï \"q\" $x", "a\nb", "x" * 20000]),
           "fv lower": "space", "ÜNI": "key", "FV_EQ": "a=b=c"}
    with Session(env=env) as S:
        conn = fora.host.connection
        ident = (me["uid"] != 0)
        for _ in range(rng.choice([40, 60, 90])):
            lookup(ctx, S, conn, db, me, mygid, env, ident)
        if rng.random() < 0.3:       # accounts that change while the session is open
            db = Db(rng)
            db.write()
            for _ in range(20):
                lookup(ctx, S, conn, db, None, None, env, ident)


def lookup(ctx, S, conn, db, me, mygid, env, unpriv):
    rng = ctx.rng
    api = conn if rng.random() < 0.6 else conn.connector
    kind = rng.choice(["resolve_user", "resolve_group", "query_user", "query_user", "query_group", "home_dir", "getenv", "resolve_none"])
    ctx.count_("lookups")
    if rng.random() < 0.06:
        # commands as someone else do not change what is found
        S.op(conn.run, ["true"], check=False, user=rng.choice(db.users)["name"], cwd=rng.choice([None, "/", "/usr"]), umask=rng.choice([None, "0", "777"]))
    isg = "group" in kind
    r = rng.random()
    if r < 0.4:
        keykind, key = "name", rng.choice(db.groups)[0] if isg else rng.choice(db.users)["name"]
    elif r < 0.7:
        keykind, key = "id", str(rng.choice(db.groups)[1] if isg else rng.choice(db.users)["uid"])
    elif r < 0.85:
        keykind, key = "bad", rng.choice(BADKEYS)
    else:
        keykind, key = "other", rng.choice([rng.choice(NAMES), str(rng.randrange(65536)), rng.choice(db.users)["name"] + "x", rng.choice(db.users)["name"][:-1] or "q",
                                            rng.choice(db.users)["name"].upper()])
    dup = keykind == "id" and not isg and sum(u["uid"] == int(key) for u in db.users) > 1
    if dup:
        ctx.count_("duplicate_ids")
    args = random_output_args(rng)
    what = f"{kind}({short(key)}) as {me and me['name']} uid {me and me['uid']}"
    v = lambda mech, msg: ctx.violation(mech, f"{msg}; {what}; users={short([(u['name'], u['uid'], u['gid']) for u in db.users])} groups={short(db.groups)}")  # noqa: E731
    ctx.evaluated((kind, keykind, key if keykind == "bad" else len(key), unpriv, dup, api is conn), what)

    def gone(res):
        if not res.ok and isinstance(res.exc, (OSError, EOFError)):
            v("session-broken", res.brief())
            return True
        return False

    def refused(res, mech):
        """Unknown accounts: an error (for NUL an invalid argument error is fine as well)."""
        ctx.count_("missing")
        if gone(res):
            return
        if res.ok:
            v(mech, f"unknown account gives {res.brief()}")
        elif not isinstance(res.exc, ValueError) and "\x00" not in key:
            v("missing-not-reported", f"unknown account gives {res.brief()}")

    def groupname(gid):
        return db.group(str(gid))[0]

    if kind == "resolve_none":
        if me is None:
            return
        ctx.count_("identity")
        a, b = S.op(api.resolve_user, None, args=args), S.op(api.resolve_group, None, args=args)
        e = db.user(str(me["uid"]))["name"], groupname(mygid)
        if not (a.ok and b.ok) or (a.value, b.value) != e:
            v("identity", f"session identity is {a.brief()} {b.brief()} instead of {e}")
        if api is conn:
            u = rng.choice(db.users)["name"] if rng.random() < 0.3 else None    # whom operations are executed as does not change who is logged in
            with fora.script.defaults(as_user=u) if u else contextlib.nullcontext():
                h = S.op(conn.home_dir, args=args)
            if not h.ok or h.value != db.user(e[0])["home"]:
                v("home", f"own home directory is {h.brief()} instead of {db.user(e[0])['home']!r}")
        return
    if kind == "getenv":
        ctx.count_("env")
        key = rng.choice(list(env) + ["LANG", "NOSUCH", "fv_x", "", "FV_X=", "FV_X ", "A=B"])
        exp = {**{"LANG": "C.UTF-8"}, **env}.get(key)
        if key == "PATH":
            exp = env["PATH"].replace("/tmp/idshim/bin:", "", 1)
        if api is conn and rng.random() < 0.5:
            d = rng.choice([None, "", "default"])
            res = S.op(conn.getenv, key, d, args=args)
            exp = d if exp is None else exp
        else:
            res = S.op(api.getenv, key, args=args)
        if not gone(res) and (not res.ok or res.value != exp):
            v("getenv", f"environment variable {key!r} is {res.brief()} instead of {short(exp)}")
        return
    if kind == "home_dir":
        res = S.op(conn.home_dir, key, args=args)
        u = db.user(key)
        if u is None:
            return refused(res, "home-of-unknown")
        ctx.count_("found")
        if not gone(res) and (not res.ok or res.value != u["home"]):
            v("home", f"home directory is {res.brief()} instead of {u['home']!r}")
        return
    if kind in ("resolve_user", "resolve_group"):
        res = S.op(getattr(api, kind), key, args=args)
        e = db.group(key) if isg else db.user(key)
        if e is None:
            return refused(res, "resolved-unknown")
        ctx.count_("found")
        exp = e[0] if isg else e["name"]
        if not gone(res) and (not res.ok or res.value != exp):
            v("resolved-wrong", f"resolves to {res.brief()} instead of {exp!r}")
        return
    default = "DEFAULT"
    kw = {}
    with_default = api is conn
    if with_default and rng.random() < 0.5:
        kw["default"] = default
    else:
        default = None
    if kind == "query_group":
        res = S.op(api.query_group, key, args=args, **kw)
        e = db.group(key)
        exp = None if e is None else dict(name=e[0], gid=e[1], members=sorted(e[2]))
    else:
        h = rng.random() < 0.5
        if h:
            kw["query_password_hash"] = True
            ctx.count_("hash_requests")
        res = S.op(api.query_user, key, args=args, **kw)
        e = db.user(key)
        exp = None if e is None else dict(name=e["name"], uid=e["uid"], gid=e["gid"], group=groupname(e["gid"]), gecos=e["gecos"], home=e["home"], shell=e["shell"],
                                          password_hash=e["hash"] if h else None, groups=sorted(n for n, _, m in db.groups if e["name"] in m))
        if h and unpriv and e is not None:
            if gone(res):
                return
            if res.ok and res.value != default and getattr(res.value, "password_hash", None) is not None:
                v("hash-unreadable", f"returned a hash that cannot be read: {res.brief()}")
            elif res.ok and (res.value is None or res.value == default):
                v("looks-missing", f"existing account whose hash cannot be read gives {res.brief()}")
            return
    if exp is None:
        if with_default:
            ctx.count_("missing")
            if gone(res):
                return
            if "\x00" in key and not res.ok and isinstance(res.exc, RemoteOSError):
                return
            if not res.ok or res.value != default:
                v("query-unknown", f"unknown account gives {res.brief()} instead of the default {default!r}")
            return
        return refused(res, "query-unknown")
    ctx.count_("found")
    if gone(res):
        return
    if not res.ok or res.value is None or isinstance(res.value, str):
        v("query-failed", f"existing account gives {res.brief()}")
        return
    got = {k: getattr(res.value, k) for k in exp}
    for k in ("members", "groups"):
        if k in got:
            got[k] = sorted(got[k])
    bad = {k: (got[k], exp[k]) for k in exp if got[k] != exp[k]}
    if bad:
        v("query-wrong:" + ",".join(sorted(bad)), f"(returned, actual): {bad}")
