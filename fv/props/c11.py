"""C11: defaults apply exactly within their scope."""
import os
import sys

import fora
from fora.operations import files, git

from .. import deploy, gen, inv, probe, prog
from ..foraenv import Node, fresh, wipe

LEVEL = "exploration"
RULE = ("generated programs of nested scripts, defaults blocks (left normally, by break, return, exceptions), invalid settings and failing operations run on real local connections; probe commands report the identity, umask and "
        "working directory they really had, created files and directories are examined, and both are compared with a model of the block structure; non-trivial: distinct (kind of observation, effective settings, overrides)")
REQUIRED = {"quick": {"runs": 300, "observations": 2500, "commands": 900, "files": 900, "directories": 250, "failing_operations": 200, "rejected_settings": 150, "nested": 500, "custom_base": 100, "invalid_base": 10},
            "thorough": {"runs": 3000}}
PATH = "/tmp/idshim/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
UID = {n: u for n, u in gen.UID.items()}
GID = dict(gen.GROUPS)
MODES = ["0", "7", "644", "0755", "600", "4755", "2711", "1777", "0000", "40", "777"]
UMASKS = ["0", "22", "077", "027", "0777", "7"]
BAD = [lambda: {"as_user": "nosuchuser"}, lambda: {"owner": "nosuchuser"}, lambda: {"as_group": "nosuchgroup"}, lambda: {"group": "nosuchgroup"}, lambda: {"file_mode": "9"}, lambda: {"dir_mode": "rwx"},
       lambda: {"umask": "8"}, lambda: {"umask": ""}, lambda: {"file_mode": ""}, lambda: {"dir_mode": " "}, lambda: {"owner": ""}, lambda: {"group": ""}, lambda: {"as_user": ""}, lambda: {"as_group": ""}, lambda: {"cwd": "/nonexistent/fv"}, lambda: {"cwd": "/etc/passwd"}, lambda: {"owner": "alice", "group": "nosuchgroup"}, lambda: {"file_mode": "644", "cwd": "/nonexistent/fv"},
       lambda: {"as_user": "alice", "umask": "0o8"}, lambda: {"as_user": "99999"}, lambda: {"file_mode": "abc", "owner": "bob"}, lambda: {"as_user": "bob", "as_group": "bob", "dir_mode": "98"}]


def by_name(table, v):
    return v if v in table else next(n for n, x in table.items() if str(x) == v)


def resolve(s):
    r = {}
    for k, v in s.items():
        r[k] = by_name(UID, v) if k in ("as_user", "owner") else by_name(GID, v) if k in ("as_group", "group") else int(v, 8) if k != "cwd" else v
    return r


class Obs:
    """What the generated scripts call."""
    def __init__(self, m, root):
        self.root = root
        m.EXTRA = {"probe": self.probe, "content": self.content, "dir": self.dir, "fail": self.fail}

    def done(self, i):
        prog.log(i, sys._getframe(2).f_globals)

    def probe(self, i, over):
        probe.take()
        try:
            fora.host.connection.run(["/tmp/probe/bin/probe"], **over)
            err = None
        except Exception as e:  # noqa
            err = f"{type(e).__name__}: {e}"
        reps = probe.take()
        r = [(x.uids[0], x.uids[1], x.gids[0], x.gids[1], x.umask, x.cwd) if x else None for x in reps]
        prog.EVENTS.append(("probe", i, dict(ran=r, err=err)))

    def made(self, kind, i, fn, path, over):
        try:
            fn(path, over)
            err = None
        except Exception as e:  # noqa
            err = f"{type(e).__name__}: {e}"
        n = Node(path) if os.path.lexists(path) else None
        prog.EVENTS.append((kind, i, dict(err=err, node=n and (n.type, n.uid, n.gid, n.mode))))

    def content(self, i, over):
        self.made("content", i, lambda p, o: files.upload_content(content=f"c{i}".encode(), dest=p, **o), f"{self.root}/out/f{i}.{len(prog.EVENTS)}", over)
        self.done(i)

    def dir(self, i, over):
        self.made("dir", i, lambda p, o: files.directory(path=p, **o), f"{self.root}/out/d{i}.{len(prog.EVENTS)}", over)
        self.done(i)

    def fail(self, i, kind):
        try:
            if kind == "git":
                git.repo(url="u", path="/tmp")
            elif kind == "user":
                files.upload_content(content=b"x", dest=self.root + "/out/never", owner="nosuchuser")
            elif kind == "mode":
                files.upload_content(content=b"x", dest=self.root + "/out/never", mode="9")
            elif kind == "path":
                files.upload_content(content=b"x", dest="relative")
            elif kind == "parent":
                files.directory(path=self.root + "/nosuch/dir", mode="700", owner="bob")
            elif kind == "unchecked":
                git.repo(url="u", path="/tmp", check=False)
            else:
                fora.host.connection.run(["false"], user="alice", umask="0", cwd="/")
        except Exception:  # noqa
            pass
        prog.EVENTS.append(("fail", i, {}))
        self.done(i)


def m_probe(p, st, f):
    d = {**f["defs"][-1], **{k2: v for k, v in resolve({KW[k]: v for k, v in st[2].items()}).items() for k2 in [k]}}
    p.ev.append(("probe", st[1], d))


KW = {"user": "as_user", "group": "as_group", "umask": "umask", "cwd": "cwd"}
OP = {"owner": "owner", "group": "group", "mode": None}


def m_made(p, st, f):
    d = dict(f["defs"][-1])
    key = "file_mode" if st[0] == "content" else "dir_mode"
    for k, v in st[2].items():
        if k == "mode":
            d[key] = int(v, 8)
        else:
            d[k] = resolve({k: v})[k]
    p.ev.append((st[0], st[1], (d["owner"], d["group"], d[key], d["as_user"])))
    p.note(st[1], f)


def m_fail(p, st, f):
    p.ev.append(("fail", st[1], {}))
    p.note(st[1], f)


def differs(a, b):
    if a[:2] != b[:2] or a[0] in ("log", "start", "end", "params", "caught", "rejected", "fail"):
        return prog.differs(a, b)
    if a[0] == "probe":
        d = b[2]
        u, g = UID[d["as_user"]], GID[d["as_group"]]
        want = (u, u, g, g, d["umask"], os.path.realpath(d["cwd"]))
        if a[2]["err"] or a[2]["ran"] != [want]:
            return f"command executed as (uid, gid, umask, cwd) {a[2]['ran']}, error {a[2]['err']}, expected {want} ({d})"
        return None
    owner, group, mode, as_user = b[2]
    if a[2]["err"] and a[0] == "dir" and as_user != "root":
        return None             # not permitted to do so
    want = ("file" if a[0] == "content" else "dir", UID[owner], GID[group], mode)
    if a[2]["err"] or a[2]["node"] != want:
        return f"created {a[2]['node']} (type, uid, gid, mode in decimal), error {a[2]['err']}, expected {want}"
    return None


def invalid_base(ctx, root, own):
    """The base settings themselves are not valid, so no script can start with them."""
    r = ctx.rng
    d = dict(file_mode="600", dir_mode="700", umask="077", cwd="/tmp")
    d.update(r.choice([dict(file_mode=r.choice(["9", "", "rwx", None])), dict(dir_mode=r.choice(["8", "u=rwx", None])), dict(umask=r.choice(["0o8", "x", None])), dict(cwd=r.choice(["/nonexistent/fv", "/etc/passwd"]))]))
    inv.write(root + "/bad.py", f"hosts = [dict(url='local:h', **{own!r})]\nfrom fora.remote_settings import RemoteSettings as _R\ndef base_remote_settings():\n    return _R(**{d!r})\n")
    inv.write(root + "/ran.py", f"open({root + '/ran'!r}, 'w').close()\n")
    x = deploy.main([root + "/bad.py", root + "/ran.py"], cwd="/tmp")
    ctx.count_("invalid_base")
    if x.code == 0 or os.path.exists(root + "/ran"):
        ctx.violation("invalid-base", f"a script was run with the base settings {d}: {x.brief()}")


def run(ctx):
    m = prog.setup()
    probe.setup()
    probe.id_setup()
    os.environ["PATH"] = PATH
    for i in ctx.cases(640, 8000):
        r = ctx.rng
        root = fresh("d")
        prog.STATE["kind"] = "real"

        def settings():
            d = {}
            for k in r.sample(prog.KEYS, r.choice([0, 1, 1, 2, 3, 8])):
                d[k] = gen.owner(r)[0] if k in ("as_user", "owner") else gen.group(r)[0] if k in ("as_group", "group") else r.choice(["/", "/tmp", root, root + "/out"]) if k == "cwd" else \
                    r.choice(UMASKS) if k == "umask" else r.choice(MODES)
            return d

        def over(n):
            o = {}
            for k in n:
                if r.random() < 0.2:
                    o[k] = gen.owner(r)[0] if k in ("user", "owner") else gen.group(r)[0] if k == "group" else r.choice(["/", root]) if k == "cwd" else r.choice(UMASKS)
            return o

        def stmt(n):
            k = r.random()
            if k < 0.38:
                return ("probe", n, over(["user", "group", "umask", "cwd"]))
            if k < 0.72:
                o = over(["owner", "group", "mode"])
                if "group" in o and "owner" not in o:
                    del o["group"]
                return ("content", n, o)
            if k < 0.88:
                return ("dir", n, over(["owner", "group", "mode"]))
            return ("fail", n, r.choice(["git", "user", "mode", "path", "parent", "unchecked", "run"]))
        p = prog.Program(r, root, settings, stmt, bad_settings=BAD)
        p.scripts[0].body += [stmt(p.nid()), ("defaults", settings(), [stmt(p.nid()), ("log", p.nid()), stmt(p.nid())], "normal", p.nid()), stmt(p.nid()), ("log", p.nid())]
        own = p.render()
        os.mkdir(root + "/out")
        os.chmod(root + "/out", 0o1777)
        prog.STATE["budget"] = budget = 40 if p.deep else r.randint(3, 8)
        gid = r.choice([0, 0, 3202, 3100])
        probe.identity(0, gid, [])
        gname = by_name(GID, str(gid))
        base = dict(as_user="root", as_group=gname, owner="root", group=gname, file_mode=0o600, dir_mode=0o700, umask=0o77, cwd="/tmp")
        src = f"hosts = [dict(url='local:h', **{own!r})]\n"
        if r.random() < 0.35:
            b = dict(file_mode=r.choice(MODES), dir_mode=r.choice(MODES), umask=r.choice(UMASKS), cwd=r.choice(["/", "/tmp", root]))
            base.update(resolve(b))
            ident = r.choice([{}, dict(as_user="root", as_group="root", owner="root", group="root")])
            src += f"from fora.remote_settings import RemoteSettings as _R\ndef base_remote_settings():\n    return _R(**{ {**b, **ident} !r})\n"
            ctx.count_("custom_base")
        if r.random() < 0.05:
            invalid_base(ctx, root, own)
        inv.write(root + "/inv.py", src)
        Obs(m, root)
        del prog.EVENTS[:]
        p.called = p.scripts[0].file
        x = deploy.main([root + "/inv.py", p.scripts[0].file], cwd="/tmp")
        got = list(prog.EVENTS)
        want, exc = p.predict(base, "local:h", "/tmp", resolve, budget, dict(probe=m_probe, content=m_made, dir=m_made, fail=m_fail))
        ctx.count_("runs")
        for e, c in (("log", "observations"), ("probe", "commands"), ("content", "files"), ("dir", "directories"), ("fail", "failing_operations"), ("rejected", "rejected_settings"), ("start", "nested")):
            ctx.count_(c, sum(y[0] == e for y in got))
        w = dict(scripts=[(s.file, open(s.file).read()[:1500]) for s in p.scripts], result=x.brief(), events=got[-6:], base=base)
        for e in want:
            if e[0] in ("probe", "content", "dir"):
                ctx.evaluated((e[0], repr(e[2])), f"{e[0]} with {e[2]}")
        for a, b in zip(got, want):
            d = differs(a, b)
            if d:
                ctx.violation("observed", f"at event {b[:2]}: {d}; {x.brief()}", **w)
                break
        else:
            if len(got) != len(want):
                ctx.violation("events", f"{len(got)} events instead of {len(want)}: next {(got[len(want):] or want[len(got):])[0][:2]}; {'extra' if len(got) > len(want) else 'missing'}; {x.brief()}", **w)
            elif (x.code != 0) != (exc is not None):
                ctx.violation("outcome", f"expected {exc or 'success'}, got {x.brief()}", **w)
        wipe(root)
