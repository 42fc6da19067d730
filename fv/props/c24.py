"""C24: host urls select the right connector, name and command."""
import os
import sys
import types

import fora

from .. import deploy, fakeconn, gen, inv, probe, sshbin
from ..foraenv import fresh, gname, uname, wipe

LEVEL = "exploration"
RULE = ("generated inventories and single urls (schema forms, users, ports, addresses, explicit names and connectors, options from host, group or inventory, unusable urls) are deployed through the command line entry point; a "
        "stand-in ssh client records its arguments and runs the remote command with dash or bash as some user, stand-ins record which other connectors are opened, and the script exercises each session; "
        "non-trivial: distinct (url form, declaration, options, shell, user)")
REQUIRED = {"quick": {"deploys": 700, "hosts": 1000, "ssh_sessions": 250, "sessions_exercised": 400, "refused": 150, "with_options": 120, "host_port": 30, "named_from_url": 500, "own_rules": 40}, "thorough": {"deploys": 6000}}
PATH = "/tmp/sshbin/bin:/tmp/idshim/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
EVENTS = []
HOSTS = ["host", "web1.example.com", "a-b_c", "127.0.0.1", "x", "UPPER.Example", "münchen.example", "h0", "sshhost", "local", "ssh", "locally", "1", "-dash", "h.", "node-01.dc2.example.org"]
V6 = ["::1", "fe80::1%eth0", "2001:db8::42", "::"]
USERS = ["root", "alice", "a.b", "deploy-user", "u1", "ssh", "üser"]
OPTS = [["-A"], ["-o", "ControlMaster=no"], ["-i", "/key file"], ["-p", "2222"], ["-v", "-v"], ["-o", "ProxyCommand=ssh -W %h:%p jump"], ["-F", "/dev/null"], ["", "x"], ["-J", "a,b"], ["-tt"], ["--"], ["'q'", '"r"', "$HOME"]]
SHELLS = [["/bin/sh"], ["/bin/dash"], ["/bin/bash"], ["/bin/bash", "--posix"], ["/bin/bash", "-u"], ["/bin/dash", "-e"]]
IDS = [None, None, "alice", "svc0", "carol"]


class Rec2(fakeconn.Rec):
    schema = "rec2"


def script(tag):
    h = fora.host
    c = h.connection
    EVENTS.append((h.name, type(c.connector).__name__, EXERCISE["fn"](c) if not isinstance(c.connector, fakeconn.Rec) else None))


EXERCISE = {"fn": None}


def setup():
    m = types.ModuleType("fvd")
    m.script = script
    sys.modules["fvd"] = m
    fakeconn.register()
    fakeconn.Connector.registered_connectors["rec2"] = Rec2
    probe.id_setup()
    sshbin.setup()
    os.environ["PATH"] = PATH


def url(r):
    """(url, kind, name, destination for ssh)"""
    k = r.random()
    if k < 0.12:
        return r.choice([("local:", "local", "localhost", None), ("local:" + (h := r.choice(HOSTS)), "local", h, None)])
    if k < 0.2:
        s = r.choice(["rec", "rec2"])
        h = r.choice(HOSTS)
        return f"{s}:{h}", s, h, None
    h = r.choice(HOSTS)
    user = r.choice(USERS) + "@" if r.random() < 0.45 else ""
    port = f":{r.choice([22, 2222, 65535, 1])}" if r.random() < 0.4 else ""
    form = r.choice(["bare", "bare", "ssh:", "ssh://", "ssh://"])
    if form == "bare":
        return user + h, "ssh", h, f"ssh://{user}{h}"
    shown = h
    if r.random() < 0.2:
        h = r.choice(V6)
        shown = f"[{h}]"
    t = user + shown + port
    return form + t, "ssh", h, "ssh://" + t


BAD = ["nosuch:x", "host:22", "user@host:22", "SSH:x", "Local:", ":x", "::1", "[::1]:22", "ssh2://h", "sshx:h", "xlocal:", "http://a", "ss:h", "local :x", " ssh:h", "file:/etc/passwd", "rec3:a", "re:a", "1:2"]


class Host:
    """One declared host: what it says and what must happen."""
    def __init__(self, r, root, names):
        self.r = r
        for _ in range(100):
            self.url, self.kind, self.name, self.dest = url(r)
            self.form = r.choice(["str", "str", "dict", "decl", "named", "module-url", "module-connector", "no-url-connector", "connector-over-url", "ssh-vars"])
            if self.form not in ("str", "dict", "decl"):
                self.name = r.choice(["n1", "my host", "ü.x", "n2", "web", "cafe"])
            if self.name not in names and "/" not in self.name:
                break
        else:
            raise AssertionError
        self.opts, self.vars, self.module = None, {}, ""
        self.from_url = self.form in ("str", "dict", "decl")
        f = self.form
        if f == "module-url" and ":" not in self.url:
            self.url = "ssh://" + self.url
        if f == "str":
            self.decl = repr(self.url)
        elif f == "dict":
            self.decl = f"dict(url={self.url!r}@@)"
        elif f == "decl":
            self.decl = f"_HD(url={self.url!r}@@)"
        elif f == "named":
            self.decl = f"dict(name={self.name!r}, url={self.url!r}@@)"
        elif f == "module-url":
            self.decl = f"dict(name={self.name!r}{r.choice(['', ', url=%r' % 'rec:other', ', url=%r' % 'nosuch:x'])}@@)"
            self.module += f"url = {self.url!r}\n"
        elif f == "module-connector":
            self.decl = f"dict(name={self.name!r}@@)"
            self.kind, c = r.choice([("rec", "fv.fakeconn as _c\nconnector = _c.Rec"), ("local", "fora.connectors.local as _c\nconnector = _c.LocalConnector"), ("rec", "fv.fakeconn as _c\ndef connector(url, host): return _c.Rec(url, host)")])
            self.module += f"import {c}\n"
            self.dest = None
        elif f == "no-url-connector" or f == "ssh-vars":
            self.decl = f"dict(name={self.name!r}@@)"
            self.module += "import fora.connectors.ssh as _c\nconnector = _c.SshConnector\n"
            self.kind = "ssh"
            h, p = r.choice(HOSTS), r.choice([22, "2200", 1])
            self.dest = f"ssh://{h}:{p}"
            self.vars.update(ssh_host=h, ssh_port=p)
            self.form = "ssh-vars"
        elif f == "connector-over-url":
            self.decl = f"dict(name={self.name!r}, url={r.choice(['nosuch:x', 'ssh://elsewhere', 'local:', 'plain'])!r}@@)"
            self.kind = "rec"
            self.module += "import fv.fakeconn as _c\nconnector = _c.Rec\n"
        if r.random() < 0.5:
            self.opts = r.choice(OPTS) if r.random() < 0.6 else [x for _ in range(r.randint(0, 3)) for x in r.choice(OPTS)]
            self.vars["ssh_opts"] = self.opts
        # where the variables are defined
        where = r.choice(["module", "vars", "group"]) if "@@" in self.decl else r.choice(["module"])
        self.where = where if self.vars else None
        extra = ""
        self.group = None
        if where == "module":
            self.module += "".join(f"{k} = {v!r}\n" for k, v in self.vars.items())
        elif where == "vars" and self.vars:
            extra = f", vars={self.vars!r}"
        elif self.vars:
            self.group = f"g{len(names)}"
            extra = f", groups=[{self.group!r}]"
            inv.write(f"{root}/groups/{self.group}.py", "".join(f"{k} = {v!r}\n" for k, v in self.vars.items()))
        if "@@" in self.decl:
            self.decl = self.decl.replace("@@", extra)
        if self.module:
            inv.write(f"{root}/hosts/{self.name}.py", self.module)


BREAK = ["bad-url", "bad-url", "nothing", "name-only", "module-bad-url", "module-bare-url", "ssh-novars", "module-none-url", "empty-dict"]


def broken(r, root):
    """(kind, declaration, whether the inventory itself is unusable)"""
    k = r.choice(BREAK)
    if k == "bad-url":
        u = r.choice(BAD)
        return (k, r.choice([repr(u), f"dict(url={u!r})"]), True) if r.random() < 0.6 else (k + "-named", f"dict(name='broken', url={u!r})", False)
    if k == "nothing":
        return k, r.choice(["None", "5", "[]", "b'x'", "('a',)"]), True
    if k == "empty-dict":
        return k, r.choice(["dict()", "dict(groups=['all'])", "_HD()"]), True
    if k == "name-only":
        return k, "dict(name='broken')", False
    mod = {"module-bad-url": f"url = {r.choice(BAD)!r}\n", "module-bare-url": "url = 'somehost'\n", "module-none-url": "url = None\n",
           "ssh-novars": "import fora.connectors.ssh as _c\nconnector = _c.SshConnector\n" + r.choice(["", "ssh_host = 'h'\n", "ssh_port = 22\n"])}[k]
    inv.write(root + "/hosts/broken.py", mod)
    return k, r.choice(["dict(name='broken')", "dict(name='broken', url='rec:q')"]) if k != "ssh-novars" else "dict(name='broken')", False


def hooks(r, root, hosts, bad):
    """Inventories that qualify urls or name hosts themselves."""
    src = ""
    mine = False
    if not bad and r.random() < 0.15:
        mine = True
        src += "def qualify_url(url):\n    return url if ':' in url else 'ssh://' + url + ':2022'\n"
        for h in hosts:
            if ":" not in h.url and h.kind == "ssh" and h.form in ("str", "dict", "decl", "named"):
                h.dest = f"ssh://{h.url}:2022"
                h.form += "+qualified"
    if not bad and r.random() < 0.15:
        names = {}
        for i, h in enumerate(hosts):
            if h.from_url:
                names[h.url if ":" in h.url else f"ssh://{h.url}" + (":2022" if mine else "")] = h.name = f"own{i} {h.name[:1]}"
                h.form += "+named"
                if h.module:
                    inv.write(f"{root}/hosts/{h.name}.py", h.module)
        src += f"def extract_hostname(url):\n    return {names!r}[url]\n"
    if r.random() < 0.3:
        # options for all hosts that do not have their own
        common = r.choice(OPTS) + r.choice(OPTS)
        src += f"ssh_opts = {common!r}\n"
        for h in hosts:
            if h.opts is None:
                h.opts, h.where = common, "inventory"
    return src


def case(ctx, root):
    r = ctx.rng
    hosts = []
    single = r.random() < 0.25
    if single:
        h = Host.__new__(Host)
        h.url, h.kind, h.name, h.dest = url(r)
        while h.url.endswith(".py") or h.url.startswith("-"):
            h.url, h.kind, h.name, h.dest = url(r)
        h.form, h.opts, h.vars, h.where, h.from_url = "single", None, {}, None, True
        hosts.append(h)
    else:
        for _ in range(r.choice([1, 1, 2, 3])):
            hosts.append(Host(r, root, [h.name for h in hosts]))
    bad, fatal, at = None, False, None
    if r.random() < 0.28:
        if single:
            bad, fatal, target = "bad-url", True, r.choice([u for u in BAD if not u.startswith("-")])
        else:
            bad, decl, fatal = broken(r, root)
            at = r.randrange(len(hosts) + 1)
    if single:
        target = target if bad else hosts[0].url
    else:
        ds = [h.decl for h in hosts]
        if bad:
            ds.insert(at, decl)
        inv.write(root + "/inv.py", f"from fora.inventory_wrapper import HostDeclaration as _HD\nhosts = [{', '.join(ds)}]\n" + hooks(r, root, hosts, bad))
        target = root + "/inv.py"
    # the other side
    fail = r.random() < 0.06
    who = r.choice(IDS)
    cwd = r.choice(["/", "/tmp", "/usr"])
    conf = dict(shell=r.choice(SHELLS), cwd=cwd, umask=r.choice([0o022, 0o077, 0]), fail=fail, env=r.choice([{}, {"LANG": "C"}, {"LC_ALL": "C.UTF-8", "FOO": "a b"}, {"LANG": "de_DE.UTF-8"}]))
    uid, gid = 0, 0
    if who:
        uid = gen.UID[who]
        gid = gen.PGID[who]
        conf.update(uid=uid, gid=gid, groups=[])
    sshbin.conf(**conf)
    sshbin.take()
    probe.identity()
    open("/tmp/idshim/started", "w").close()
    del EVENTS[:], fakeconn.LOG[:]
    data = gen.content(r, 0)

    def exercise(c):
        """What the script does with a session; returns what it observed."""
        remote = type(c.connector).__name__ != "LocalConnector"
        me = (uid, gid) if remote else (0, 0)
        got = {}
        got["id"] = tuple(int(x) for x in c.run(["sh", "-c", "id -u; id -g"]).stdout.split())
        got["settings"] = (c.base_settings.as_user, c.base_settings.as_group, c.base_settings.owner, c.base_settings.group)
        dest = f"{root}/w/{len(EVENTS)}"
        c.upload(dest, content=data)
        with open(dest, "rb") as f:
            got["uploaded"] = f.read() == data
        got["owner"] = os.stat(dest).st_uid
        got["downloaded"] = c.download(dest) == data
        p = c.run(["sh", "-c", 'printf "%s" "$1"; cat; exit 3', "x", "a \"b'\n$HOME"], input=data, check=False)
        got["run"] = (p.stdout == b"a \"b'\n$HOME" + data, p.returncode)
        got["stat"] = c.stat(dest).size
        got["env"] = c.getenv("SSH_CONNECTION") is not None
        want = dict(id=me, settings=(uname(me[0]), gname(me[1])) * 2, uploaded=True, owner=me[0], downloaded=True, run=(True, 3), stat=len(data), env=remote)
        ctx.count_("sessions_exercised")
        return {k: (got[k], want[k]) for k in want if got[k] != want[k]}

    EXERCISE["fn"] = exercise
    if single and r.random() < 0.4 and "/" not in target:
        # a file that is called like the host is not an inventory
        if r.random() < 0.5:
            os.mkdir(root + "/" + target)
        else:
            inv.write(root + "/" + target, "hosts = ['rec:other']\n")
    os.mkdir(root + "/w")
    os.chmod(root + "/w", 0o777)
    argv = r.choice([[], [], [], ["--debug"], ["-v"]]) + [target, root + "/deploy.py"]
    inv.write(root + "/deploy.py", "import fvd as _d\n_d.script('x')\n")
    x = deploy.main(argv, cwd=root)
    log = sshbin.take()
    local = len(probe.started())
    recs = [e[1] for e in fakeconn.LOG if e[0] == "open"]
    ctx.count_("deploys")
    # expectation: hosts up to the first that cannot be used
    reach, stop = [], False
    for n, h in enumerate(hosts):
        if bad and (at == n or single):
            stop = True
            break
        reach.append(h)
        if h.kind == "ssh" and fail:
            stop = True
            break
    stop = stop or bool(bad)
    if fatal:
        reach = []
    failed = reach[-1] if reach and reach[-1].kind == "ssh" and fail else None
    w = dict(argv=argv, hosts=[(h.url, h.form, h.vars, h.where) for h in hosts], broken=bad, ssh=[(e["tool"], [a[:200] for a in e["argv"]]) for e in log], events=EVENTS, result=x.brief(), other=conf)
    ctx.count_("hosts", len(reach))
    ctx.count_("refused", bool(bad))
    ctx.count_("named_from_url", sum(h.from_url for h in reach))
    for h in reach:
        ctx.count_("own_rules", "+" in h.form)
        ctx.evaluated((h.form, h.url, h.where, repr(h.opts), repr(conf["shell"]), who), f"{h.form} {h.url!r} -> {h.kind} {h.name!r}")
    d = " ".join(argv[:-1]) + f" [{', '.join(h.form + ' ' + h.url for h in hosts)}]{' with ' + bad if bad else ''}"
    if (x.code != 0) != stop:
        ctx.violation("exit-status", f"{d}: {x.brief()}, expected {'an error' if stop else 'success'}", **w)
        return
    got = [e[0] for e in EVENTS]
    want = [h.name for h in reach if h is not failed]
    if got != want:
        ctx.violation("names", f"{d}: the script was executed for {got!r}, expected {want!r}; {x.brief()}", **w)
        return
    if recs != [h.name for h in reach if h.kind.startswith("rec")]:
        ctx.violation("connector", f"{d}: the recording connector was opened for {recs}", **w)
    if local != sum(h.kind == "local" for h in reach):
        ctx.violation("connector", f"{d}: {local} local sessions were started", **w)
    sshs = [h for h in reach if h.kind == "ssh"]
    if len(log) != len(sshs):
        ctx.violation("connector", f"{d}: ssh was started {len(log)} times, expected {len(sshs)}", **w)
        return
    for h, e in zip(sshs, log):
        ctx.count_("ssh_sessions")
        ctx.count_("with_options", bool(h.opts))
        ctx.count_("host_port", h.form == "ssh-vars")
        exp = list(h.opts or []) + [h.dest]
        if e["tool"] != "ssh" or e["argv"][:-1] != exp:
            ctx.violation("ssh-arguments", f"{d}: {e['tool']} {e['argv'][:-1]!r} was started, expected ssh {exp!r}", **w)
    for n, c, diff in EVENTS:
        if diff:
            ctx.violation("session", f"{d}: the session of {n} ({c}, shell {conf['shell']}, user {who}) does not work: {diff}", **w)


def run(ctx):
    setup()
    for _ in ctx.cases(1100, 12000):
        root = fresh("i")
        case(ctx, root)
        wipe(root)
