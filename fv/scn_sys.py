"""Scenarios of system.user/group, the package and service operations and git.repo."""
import json
import os
import re
import shutil
import sys

from fora.operations import apt, git, pacman, portage, system, systemd

from . import gen
from .foraenv import Node, again, sh, tree_diff, wipe
from .scenario import OLD, Scn, set_attrs

ETC = ["passwd", "group", "shadow", "gshadow"]
ETC_BASE = {}
VALID_NAMES = ["newuser", "x-y", "_u1", "svc.new"[:3] + "9", "a", "machine$", "u" * 32, "n0-0_0"]


def etc_reset():
    """Restores the account files of this worker's private /etc."""
    if not ETC_BASE:
        for f in ETC:
            with open("/etc/" + f) as h:
                ETC_BASE[f] = h.read()
        assert "alice" in ETC_BASE["passwd"]
    for f in ETC:
        with open("/etc/" + f, "w") as h:
            h.write(ETC_BASE[f])
        os.chmod("/etc/" + f, 0o640 if "shadow" in f else 0o644)
        os.utime("/etc/" + f, ns=(OLD, OLD))
    for f in ETC + ["subuid", "subgid"]:
        for g in (f"/etc/{f}.lock", f"/etc/{f}-", f"/etc/{f}+"):
            if os.path.exists(g):
                os.unlink(g)


def etc_append(f, line):
    with open("/etc/" + f, "a") as h:
        h.write(line + "\n")
    os.utime("/etc/" + f, ns=(OLD, OLD))


def etc_parse():
    r = {}
    for f in ETC:
        with open("/etc/" + f) as h:
            r[f] = {}
            for l in h.read().splitlines():
                p = l.split(":")
                r[f][p[0]] = p
    return r


class AccountScn(Scn):
    detected_failure = False
    partial_ok = True

    def snapshot(self):
        s = {"/etc/" + f: Node("/etc/" + f) for f in ETC}
        for d in ("/home", "/tmp/homes"):
            if os.path.isdir(d):
                s[d] = Node(d)
                for n in os.listdir(d):
                    s[d + "/" + n] = Node(d + "/" + n)
        return s

    def cleanup(self):
        etc_reset()
        wipe("/tmp/homes")

    def others_same(self, user=None, group=None):
        """Everything not about `user` or `group` must be unchanged."""
        a, b = self.etc0, etc_parse()
        res = []
        for f in ("passwd", "shadow"):
            for n in set(a[f]) | set(b[f]):
                if n == user:
                    continue
                x, y = a[f].get(n), b[f].get(n)
                if x != y and not (f == "passwd" and x and y and group is not None and x[3] == self.old_gid and y[3] == self.new_gid
                                   and x[:3] + x[4:] == y[:3] + y[4:]):
                    res.append(f"{f} entry {n}: {x} -> {y}")
        for f in ("group", "gshadow"):
            for n in set(a[f]) | set(b[f]):
                if n in (group, user):
                    continue
                x, y = a[f].get(n), b[f].get(n)
                if x is None or y is None:
                    res.append(f"{f} entry {n}: {x} -> {y}")
                    continue
                m = lambda e: [u for u in e[3].split(",") if u and u != user]
                if x[:3] != y[:3] or m(x) != m(y):
                    res.append(f"{f} entry {n}: {x} -> {y}")
        return [("other-accounts", f"unrelated accounts changed: {res[:4]}")] if res else []


class UserScn(AccountScn):
    op_kind = "user"
    HASHES = ["!", "*", "$6$salt$abc.def/GHI", "", "$y$j9T$x$y", "!$6$s$h"]
    COMMENTS = ["", "Full Name,,,", "Ünï cödé", "-dash", "a=b & c", "  spaced  ", "x" * 100]
    SHELLS = ["/bin/sh", "/bin/bash", "/usr/sbin/nologin", "/no/such/shell"]
    HOMES = ["/tmp/homes/x", "/nonexistent", "/home/with-dash", "/dev/null", "/srv/a b", "/var/empty/x"]
    GROUPSETS = ["staff2", "webteam", "empty-grp", "video9", "users", "bob"]

    def __init__(self, rng):
        self.rng = rng
        etc_reset()
        self.exists = rng.random() < 0.65
        self.present = rng.random() < 0.85
        self.preset = None
        if self.exists and rng.random() < 0.6:
            self.user = rng.choice(["alice", "bob", "carol", "zed", "svc0", "d-ave_1"])
        else:
            self.user = rng.choice(VALID_NAMES)
            if self.exists:
                if rng.random() < 0.15:
                    self.user = rng.choice(["Up.Case", "ünï", "100k"])       # (added by hand; the libc ignores names with a leading dash)
                self.preset = dict(uid=rng.choice([5000, 5001, 999]), gid=rng.choice([100, 3100, 4999]), gecos=rng.choice(self.COMMENTS),
                                   home=rng.choice(self.HOMES + [""]), shell=rng.choice(self.SHELLS + [""]), hash=rng.choice(self.HASHES))
        kw = {}
        self.expects = "ok"
        self.why = ""
        if not self.present or rng.random() < 0.2:
            kw["present"] = self.present
        if self.exists and self.present and rng.random() < 0.04:
            self.user, self.preset = "root", None
            kw["uid"] = 0
        elif rng.random() < 0.4:
            kw["uid"] = rng.choice([5000, 5001, 5100, 60001, 400, 65000, 3001, 1, 1000, 0])
        if self.user != "root":
            if rng.random() < 0.4:
                g = rng.choice(list(gen.GROUPS))
                self.want_gid = gen.GROUPS[g]
                kw["group"] = g if rng.random() < 0.6 else str(gen.GROUPS[g])
            if rng.random() < 0.5:
                kw["groups"] = rng.sample(self.GROUPSETS, rng.choice([0, 0, 1, 1, 2, 3, 6]))
                if kw["groups"] and rng.random() < 0.15:
                    kw["groups"].append(kw["groups"][0])
            if rng.random() < 0.4:
                kw["append_groups"] = rng.random() < 0.7
            if rng.random() < 0.3:
                kw["system"] = rng.random() < 0.6
            if rng.random() < 0.4:
                kw["password_hash"] = rng.choice(self.HASHES)
            if rng.random() < 0.4:
                kw["home"] = rng.choice(self.HOMES)
            if rng.random() < 0.4:
                kw["shell"] = rng.choice(self.SHELLS)
            if rng.random() < 0.4:
                kw["comment"] = rng.choice(self.COMMENTS)
            r = rng.random()
            if self.present:
                if r < 0.03:
                    kw["group"] = rng.choice(["nosuchgroup", "4711"])
                    self.fails("unknown primary group")
                elif r < 0.06:
                    kw["groups"] = ["webteam", "nosuchgroup"]
                    self.fails("unknown group")
                elif r < 0.09:
                    kw["comment"] = "with:colon"
                    self.fails("colon in comment")
                elif r < 0.12 and not self.exists:
                    self.user = rng.choice(["-bad", "has space", "a:b"])
                    self.fails("bad name")
        self.kw = kw
        self.lodger = rng.random() < 0.5
        self.samegroup = not self.exists and rng.random() < 0.15
        self.label = f"user/{'existing' if self.exists else 'new'}/{'present' if self.present else 'absent'}"

    def fails(self, why):
        self.expects, self.why = "fail", why

    def key(self):
        return (self.label, self.user, repr(self.kw), repr(self.preset))

    def describe(self):
        return f"{self.label} user={self.user!r} kw={self.kw} preset={self.preset} {self.why}"

    def prepare(self):
        etc_reset()
        if os.path.exists("/tmp/homes"):
            wipe("/tmp/homes")
        os.mkdir("/tmp/homes")
        u, p = self.user, self.preset
        if p is not None:
            etc_append("passwd", f"{u}:x:{p['uid']}:{p['gid']}:{p['gecos']}:{p['home']}:{p['shell']}")
            etc_append("shadow", f"{u}:{p['hash']}:19001:0:99999:7:::")
            if p["gid"] == 4999:
                etc_append("group", f"{u}:x:4999:")
                etc_append("gshadow", f"{u}:!::")
                if self.lodger:
                    etc_append("passwd", "lodger:x:5777:4999::/nonexistent:/bin/sh")
                    etc_append("shadow", "lodger:!:19001:0:99999:7:::")
            if p["home"].startswith("/tmp/homes/"):
                os.mkdir(p["home"])
                with open(p["home"] + "/kept", "w") as f:
                    f.write("data\n")
                for x in (p["home"] + "/kept", p["home"]):
                    os.chown(x, p["uid"], p["gid"])
        elif self.samegroup and not self.exists:
            etc_append("group", f"{u}:x:4998:")
            etc_append("gshadow", f"{u}:!::")
        self.etc0 = etc_parse()
        if self.expects == "ok" and self.present:
            uids = {int(e[2]): n for n, e in self.etc0["passwd"].items()}
            if "uid" in self.kw and uids.get(self.kw["uid"], u) != u:
                self.fails("uid in use")
            if not self.exists and "group" not in self.kw and u in self.etc0["group"]:
                self.fails("group of the same name exists")

    def invoke(self, **kw):
        return system.user(user=self.user, **{**self.kw, **kw})

    def user_state(self, e=None):
        e = e or etc_parse()
        p = e["passwd"].get(self.user)
        if p is None:
            return None
        gids = {v[2]: k for k, v in e["group"].items()}
        return dict(uid=int(p[2]), group=gids.get(p[3], p[3]), gid=int(p[3]), comment=p[4], home=p[5], shell=p[6],
                    groups=sorted(n for n, g in e["group"].items() if self.user in g[3].split(",")),
                    password_hash=e["shadow"][self.user][1] if self.user in e["shadow"] else None)

    def state_now(self):
        s = self.user_state()
        if s is None:
            return dict(exists=False, uid=None, group=None, groups=[], comment=None, home=None, shell=None, password_hash=None)
        s.pop("gid")
        return dict(exists=True, **s)

    def final_open(self, key, value):
        return value is None and not self.exists and self.present and key not in self.kw and key in ("uid", "group", "comment", "password_hash")

    def verify(self, before, after):
        res = []
        old, new = self.user_state(self.etc0), self.user_state()
        kw = self.kw
        home = self.preset["home"] if self.preset and self.preset["home"].startswith("/tmp/homes/") else None
        if home and not os.path.exists(home + "/kept"):
            res.append(("home-touched", f"the content of the home directory {home} was removed"))
        # (usermod itself hands the home directory to the new uid and gid)
        d = tree_diff({k: v for k, v in before.items() if not k.startswith("/etc/") and k != home},
                      {k: v for k, v in after.items() if not k.startswith("/etc/") and k != home})
        if d:
            res.append(("home-touched", f"{d[:3]}"))
        if not self.present:
            if new is not None:
                res.append(("not-removed", f"user still exists: {new}"))
            now = etc_parse()
            if any(e[3] == "4999" for e in now["passwd"].values()) and self.user not in now["group"]:
                res.append(("other-accounts", "the primary group of another user was removed with the user"))
            return res + self.others_same(self.user)
        if new is None:
            return [("not-created", "user does not exist")]
        want = dict(old) if old else dict(comment="", home="/dev/null", shell="/sbin/nologin", password_hash="!", groups=[])
        for k in ("uid", "comment", "home", "shell", "password_hash"):
            if k in kw:
                want[k] = kw[k]
        if "group" in kw:
            want["gid"] = self.want_gid
            want.pop("group", None)
        elif old is None:
            if new["group"] != self.user:
                res.append(("primary-group", f"expected an own group but got {new}"))
        if "groups" in kw:
            want["groups"] = sorted(set(kw["groups"]) | (set(want["groups"]) if kw.get("append_groups") else set()))
        for k, v in want.items():
            if new[k] != v:
                res.append((f"wrong-{k}", f"{k} is {new[k]!r}, expected {v!r} (before: {old})"))
        if old is None and "uid" not in kw:
            taken = {int(e[2]) for e in self.etc0["passwd"].values()}
            if new["uid"] in taken or (new["uid"] < 1000) != bool(kw.get("system")):
                res.append(("auto-uid", f"unsuitable uid {new['uid']} (system={kw.get('system')})"))
        return res + self.others_same(self.user)


class GroupScn(AccountScn):
    op_kind = "group"

    def __init__(self, rng):
        self.rng = rng
        etc_reset()
        self.exists = rng.random() < 0.6
        self.present = rng.random() < 0.75
        self.group = rng.choice(["webteam", "empty-grp", "video9", "staff2", "alice"]) if self.exists else rng.choice(VALID_NAMES)
        self.kw = {}
        self.why = ""
        if not self.present or rng.random() < 0.2:
            self.kw["present"] = self.present
        if rng.random() < 0.6:
            self.kw["gid"] = rng.choice([5000, 5001, 400, 65001, 3200, 3100, 100, 1000, gen.GROUPS.get(self.group, 5002)])
        if rng.random() < 0.03:
            self.group, self.exists, self.present, self.kw = "root", True, True, dict(gid=0)
        if rng.random() < 0.3:
            self.kw["system"] = rng.random() < 0.6
        self.badname = not self.exists and self.present and rng.random() < 0.06
        if self.badname:
            self.group = rng.choice(["-bad", "has space", "a:b"])
        self.label = f"group/{'existing' if self.exists else 'new'}/{'present' if self.present else 'absent'}"

    def key(self):
        return (self.label, self.group, repr(self.kw))

    def describe(self):
        return f"{self.label} group={self.group!r} kw={self.kw} {self.why}"

    def prepare(self):
        etc_reset()
        self.etc0 = etc_parse()
        gids = {int(e[2]): n for n, e in self.etc0["group"].items()}
        e = self.etc0["group"].get(self.group)
        self.old_gid = self.new_gid = e[2] if e else None
        if "gid" in self.kw:
            self.new_gid = str(self.kw["gid"])
        self.expects = "ok"
        if self.present and gids.get(self.kw.get("gid"), self.group) != self.group:
            self.expects, self.why = "fail", "gid in use"
        if self.badname:
            self.expects, self.why = "fail", "bad name"
        if not self.present and e and any(u[3] == e[2] for u in self.etc0["passwd"].values()):
            self.expects, self.why = "fail", "primary group of a user"

    def invoke(self, **kw):
        return system.group(group=self.group, **{**self.kw, **kw})

    def state_now(self):
        e = etc_parse()["group"].get(self.group)
        return dict(exists=e is not None, gid=int(e[2]) if e else None)

    def final_open(self, key, value):
        return value is None and key == "gid" and not self.exists and self.present and "gid" not in self.kw

    def verify(self, before, after):
        res = []
        b, a = self.etc0["group"].get(self.group), etc_parse()["group"].get(self.group)
        if not self.present:
            if a is not None:
                res.append(("not-removed", f"group still exists: {a}"))
        elif a is None:
            res.append(("not-created", "group does not exist"))
        else:
            if "gid" in self.kw and int(a[2]) != self.kw["gid"]:
                res.append(("wrong-gid", f"gid is {a[2]}, expected {self.kw['gid']}"))
            if b is not None:
                if "gid" not in self.kw and a[2] != b[2]:
                    res.append(("wrong-gid", f"gid changed: {b} -> {a}"))
                if a[3] != b[3]:
                    res.append(("members-changed", f"{b} -> {a}"))
            elif "gid" not in self.kw:
                taken = {int(e[2]) for e in self.etc0["group"].values()}
                if int(a[2]) in taken or (int(a[2]) < 1000) != bool(self.kw.get("system")):
                    res.append(("auto-gid", f"unsuitable gid {a[2]}"))
        return res + self.others_same(group=self.group)


# ---------------------------------------------------------------- packages and services

PM = "/tmp/pm"
PM_PATH = PM + "/bin:" + PM + "/tools"
PM_TOOLS = {"pacman": ["pacman"], "apt": ["apt-get", "dpkg-query", "dpkg"], "portage": ["emerge"], "systemd": ["systemctl"], "none": []}
BLOCK = re.compile(r"^(apt|dpkg|systemctl|pacman|emerge|journalctl)")


def pm_setup():
    """Creates the directory with stand-ins and a tools directory that has everything but the real managers."""
    if os.path.isdir(PM):
        return
    os.makedirs(PM + "/bin")
    os.makedirs(PM + "/tools")
    os.makedirs(PM + "/all")
    os.chmod(PM, 0o755)
    for d in ("/usr/sbin", "/usr/bin"):
        for n in os.listdir(d):
            if not BLOCK.match(n) and not os.path.lexists(PM + "/tools/" + n):
                os.symlink(d + "/" + n, PM + "/tools/" + n)
    src = os.path.join(os.path.dirname(__file__), "standins", "pm.py")
    with open(src) as f:
        code = f.read()
    py = shutil.which("python3", path="/usr/bin") or sys.executable
    for tools in PM_TOOLS.values():
        for t in tools:
            with open(f"{PM}/all/{t}", "w") as f:
                f.write(f"#!{py} -SE\n" + code)
            os.chmod(f"{PM}/all/{t}", 0o755)


def pm_enable(which):
    for n in os.listdir(PM + "/bin"):
        os.unlink(PM + "/bin/" + n)
    for t in PM_TOOLS[which]:
        os.symlink(f"{PM}/all/{t}", f"{PM}/bin/{t}")


def pm_state(st=None):
    if st is not None:
        with open(PM + "/state.json", "w") as f:
            json.dump(st, f)
        os.utime(PM + "/state.json", ns=(OLD, OLD))
        open(PM + "/log", "w").close()
        return st
    with open(PM + "/state.json") as f:
        return json.load(f)


def pm_log():
    with open(PM + "/log") as f:
        return [json.loads(l) for l in f]


class PmScn(Scn):
    detected_failure = False
    partial_ok = True

    def snapshot(self):
        return {PM + "/state.json": Node(PM + "/state.json")}

    def cleanup(self):
        pm_enable("none")

    def actions(self):
        return [e["argv"] for e in self.new_log()]

    def new_log(self):
        """Mutating invocations since the last call."""
        l = pm_log()
        r = [e for e in l[self.logpos:] if e["mut"]]
        self.logpos = len(l)
        return r


class PackageScn(PmScn):
    op_kind = "package"
    NAMES = ["htop", "vim", "vim-tiny", "neovim", "git", "lib32-foo", "g++", "libstdc++6", "app-editors/vim", "-evil", "--help", "foo.bar",
             "a~b", "python3", "py", "python", "1password", "ok", "installed", "ünï", "htop:i386", "git:arm64", "vim=2", "git/stable", "HTOP"]

    def __init__(self, rng):
        self.rng = rng
        self.mgr = rng.choice(["pacman", "apt", "portage"])
        self.generic = rng.random() < 0.3
        self.none = self.generic and rng.random() < 0.1
        self.present = rng.random() < 0.55
        if rng.random() < 0.05:
            self.NAMES = self.NAMES + [f"many{i}" for i in range(40)]
            self.packages = rng.sample(self.NAMES, rng.randint(12, len(self.NAMES)))
        else:
            self.packages = rng.sample(self.NAMES, rng.choice([0, 1, 1, 2, 2, 3, 5]))
        if self.packages and rng.random() < 0.12:
            self.packages.append(rng.choice(self.packages))
        self.installed = {p for p in self.NAMES if rng.random() < 0.5}
        self.residual = [p for p in self.NAMES if p not in self.installed and rng.random() < 0.3]
        self.kw = {}
        if not self.present or rng.random() < 0.2:
            self.kw["present"] = self.present
        self.opts = None
        if not self.generic and rng.random() < 0.4:
            self.opts = rng.choice([["--yes"], ["--needed", "--foo=a b"], [], ["-q", "--no-install-recommends"], ["--quiet", "--quiet"], ["-o", "X=1"][1:]])
            if self.mgr == "portage" and "-q" in self.opts:
                self.opts = ["--quiet"]
            self.kw["opts"] = list(self.opts)
        self.oneshot = False
        if self.mgr == "portage" and not self.generic and rng.random() < 0.3:
            self.oneshot = True
            self.kw["oneshot"] = True
        self.need = {p for p in self.packages if (p not in self.installed) == self.present}
        self.unavailable, self.essential = [], []
        self.expects = "ok"
        if self.need and rng.random() < 0.12:
            bad = rng.choice(sorted(self.need))
            (self.unavailable if self.present else self.essential).append(bad)
            self.expects = "fail"
        if self.none:
            self.expects = "fail"
            self.detected_failure = True
        self.label = f"package/{'none' if self.none else self.mgr}{'-generic' if self.generic else ''}/{'install' if self.present else 'remove'}" + \
            ("/failing" if self.expects == "fail" else "")

    def key(self):
        return (self.label, self.packages, sorted(self.installed & set(self.packages)), self.kw)

    def describe(self):
        return f"{self.label} packages={self.packages} installed={sorted(self.installed & set(self.packages))} residual={self.residual} kw={self.kw}"

    def prepare(self):
        pm_setup()
        pm_enable("none" if self.none else self.mgr)
        self.st0 = pm_state(dict(installed={p: 0 for p in sorted(self.installed)}, residual=list(self.residual), world=sorted(self.installed)[:3],
                                 known={p: "unknown ok not-installed" for p in self.NAMES if p not in self.installed and self.rng.random() < 0.4}, held=[p for p in sorted(self.installed) if self.rng.random() < 0.2], unavailable=self.unavailable, essential=self.essential,
                                 units=dict(system={}, user={}), reloads=dict(system=0, user=0), reload_fails=False))
        self.logpos = 0

    def invoke(self, **kw):
        k = {**self.kw, **kw}
        fn = system.package if self.generic else {"pacman": pacman, "apt": apt, "portage": portage}[self.mgr].package
        return fn(packages=list(self.packages), **k)

    def state_now(self):
        st = pm_state()
        return dict(installed=sorted({p for p in self.packages if p in st["installed"]}))

    def verify(self, before, after):
        res = []
        st = pm_state()
        want = set(self.st0["installed"]) | set(self.packages) if self.present else set(self.st0["installed"]) - set(self.packages)
        if set(st["installed"]) != want:
            res.append(("wrong-packages", f"installed {sorted(set(st['installed']) - want)} / missing {sorted(want - set(st['installed']))}"))
        again = [p for p, n in st["installed"].items() if n and p in self.st0["installed"] or n > 1]
        if again:
            res.append(("reinstalled", f"packages installed although present: {again}"))
        log = self.new_log()
        targets = [t for e in log for t in e["targets"]]
        if sorted(targets) != sorted(self.need):
            res.append(("wrong-actions", f"manager was asked for {targets}, needed {sorted(self.need)}"))
        for e in log:
            it = iter(e["opts"] if self.mgr != "apt" else e["argv"])
            if not all(o in it for o in (self.opts or [])):
                res.append(("options", f"options {self.opts} not passed in {e['argv']}"))
        if self.mgr == "portage" and self.present:
            w = set(st["world"]) - set(self.st0["world"])
            if w != (set() if self.oneshot else self.need):
                res.append(("world", f"added to world: {sorted(w)}, oneshot={self.oneshot}, installed {sorted(self.need)}"))
        return res


class ServiceScn(PmScn):
    op_kind = "service"
    UNITS = ["sshd", "nginx.service", "foo@bar.service", "backup.timer", "-x.mount", "a b.service", "ünï.service"]

    def __init__(self, rng):
        self.rng = rng
        self.user = rng.random() < 0.4
        self.generic = not self.user and rng.random() < 0.3
        self.none = self.generic and rng.random() < 0.1
        self.unit = rng.choice(self.UNITS)
        self.state = rng.choice([None, None, "started", "started", "stopped", "stopped", "restarted", "reloaded"])
        self.enabled = rng.choice([None, None, True, True, False, False])
        mk = lambda: dict(active=rng.choice(["active", "active", "inactive", "inactive", "failed", "activating", "reloading", "deactivating"]),
                          file=rng.choice(["enabled", "enabled", "disabled", "disabled", "static", "masked", "enabled-runtime", ""]),
                          broken=False, starts=0, reloads=0)
        self.units = {m: {u: mk() for u in self.UNITS} for m in ("system", "user")}
        me = self.units["user" if self.user else "system"][self.unit]
        if self.enabled and me["file"] in ("static", ""):
            me["file"] = "disabled"
        if me["file"] == "masked" and rng.random() < 0.6:
            me["file"] = "disabled"
        self.kw = {}
        if self.state is not None or rng.random() < 0.3:
            self.kw["state"] = self.state
        if self.enabled is not None or rng.random() < 0.3:
            self.kw["enabled"] = self.enabled
        if self.user or (not self.generic and rng.random() < 0.3):
            self.kw["user_mode"] = self.user
        on = me["active"] in ("active", "activating", "reloading")
        self.acts = []
        if self.state == "started" and not on:
            self.acts.append("start")
        if self.state == "stopped" and on:
            self.acts.append("stop")
        if self.state == "restarted":
            self.acts.append("restart")
        if self.state == "reloaded":
            self.acts.append("reload")
        if self.acts and rng.random() < 0.1:
            me["broken"] = True
        if self.enabled is not None and self.enabled != (me["file"] == "enabled"):
            self.acts.append("enable" if self.enabled else "disable")
        if self.enabled is False and me["file"] == "enabled-runtime":
            self.acts = [a for a in self.acts if a != "disable"]
        self.always = self.state in ("restarted", "reloaded")
        self.missing = rng.random() < 0.05
        if self.missing:
            del self.units["user" if self.user else "system"][self.unit]
            self.acts = [a for a in self.acts if a not in ("stop",)]
            if self.state == "started" and "start" not in self.acts:
                self.acts.append("start")
            if self.enabled and "enable" not in self.acts:
                self.acts.append("enable")
            self.acts = [a for a in self.acts if a != "disable"]
        self.expects = "ok"
        if self.none or (self.missing and self.acts) or me["broken"] and not self.missing \
                or "reload" in self.acts and me["active"] not in ("active", "reloading") \
                or me["file"] == "masked" and {"start", "restart", "enable"} & set(self.acts):
            self.expects = "fail"
        self.detected_failure = self.none
        self.label = f"service/{'user' if self.user else 'generic' if self.generic else 'system'}/{self.state}/{self.enabled}" + \
            ("/failing" if self.expects == "fail" else "")
        self.me = dict(me)

    def key(self):
        return (self.label, self.unit, self.me, self.kw, self.missing)

    def describe(self):
        return f"{self.label} unit={self.unit!r} kw={self.kw} prior={self.me} missing={self.missing} needed={self.acts}"

    def prepare(self):
        pm_setup()
        pm_enable("none" if self.none else "systemd")
        self.st0 = pm_state(dict(installed={}, residual=[], world=[], known={}, held=[], unavailable=[], essential=[], units=self.units,
                                 reloads=dict(system=0, user=0), reload_fails=False))
        self.logpos = 0

    def invoke(self, **kw):
        fn = system.service if self.generic else systemd.service
        return fn(service=self.unit, **{**self.kw, **kw})

    def state_now(self):
        u = pm_state()["units"]["user" if self.user else "system"].get(self.unit)
        return dict(state="started" if u and u["active"] in ("active", "activating", "reloading") else "stopped", enabled=bool(u) and u["file"] == "enabled")

    def final_expected(self, now):
        return dict(now, state=self.state) if self.always else now

    def verify(self, before, after):
        res = []
        st = pm_state()
        m = "user" if self.user else "system"
        log = self.new_log()
        did = [e["mut"] for e in log]
        if sorted(did) != sorted(self.acts):
            res.append(("wrong-actions", f"systemctl was asked to {did}, needed {self.acts}"))
        if any(("--user" in e["opts"]) != self.user for e in log):
            res.append(("wrong-manager", f"{[e['argv'] for e in log]}"))
        now = self.state_now()
        if not self.missing:
            if self.state is not None and now["state"] != ("stopped" if self.state == "stopped" else "started"):
                res.append(("wrong-state", f"unit is {now}"))
            if self.enabled is not None and now["enabled"] != self.enabled:
                res.append(("wrong-enabled", f"unit is {now}"))
            a, b = self.st0["units"][m][self.unit], st["units"][m][self.unit]
            if self.state is None and a["active"] != b["active"] or self.enabled is None and a["file"] != b["file"]:
                res.append(("not-requested", f"{a} -> {b}"))
        for k in ("system", "user"):
            for u in self.UNITS:
                if (k, u) != (m, self.unit) and st["units"][k].get(u) != self.st0["units"][k].get(u):
                    res.append(("other-unit", f"{k} {u}"))
        return res


class DaemonReloadScn(PmScn):
    op_kind = "daemon_reload"
    always = True

    def __init__(self, rng):
        self.user = rng.random() < 0.5
        self.kw = {} if not self.user and rng.random() < 0.5 else dict(user_mode=self.user)
        self.fail = rng.random() < 0.2
        self.expects = "fail" if self.fail else "ok"
        self.label = f"daemon_reload/{'user' if self.user else 'system'}"

    def key(self):
        return (self.label, self.kw, self.fail)

    def prepare(self):
        pm_setup()
        pm_enable("systemd")
        self.st0 = pm_state(dict(installed={}, residual=[], world=[], known={}, held=[], unavailable=[], essential=[], units=dict(system={}, user={}),
                                 reloads=dict(system=0, user=0), reload_fails=self.fail))
        self.logpos = 0

    def invoke(self, **kw):
        return systemd.daemon_reload(**{**self.kw, **kw})

    def state_now(self):
        return dict(reloaded=False)

    def final_expected(self, now):
        return dict(reloaded=True)

    def verify(self, before, after):
        r = pm_state()["reloads"]
        want = dict(system=int(not self.user), user=int(self.user))
        return [] if r == want else [("wrong-manager", f"reloads: {r}, expected {want}")]


# ---------------------------------------------------------------- git

def g(*a, cwd=None):
    return sh("git", *a, cwd=cwd).stdout.decode().strip()


class GitScn(Scn):
    op_kind = "git"
    TEMPLATE = None

    @classmethod
    def template(cls):
        """Two upstream repositories, built once per worker."""
        if cls.TEMPLATE:
            return cls.TEMPLATE
        with open("/tmp/.gitconfig", "w") as f:
            f.write("[user]\n name=t\n email=t@t\n[protocol \"file\"]\n allow=always\n[init]\n defaultBranch=main\n[advice]\n detachedHead=false\n"
                    "[gc]\n auto=0\n[maintenance]\n auto=false\n[safe]\n directory=*\n")
        t = "/tmp/gittmpl"
        os.mkdir(t)
        env = dict(os.environ, GIT_AUTHOR_DATE="2020-01-01T00:00:00Z", GIT_COMMITTER_DATE="2020-01-01T00:00:00Z")

        def mk(name, n, branch="main"):
            w = f"{t}/{name}-w"
            sh("git", "init", "-q", "-b", branch, w, env=env)
            for i in range(n):
                with open(w + "/file.txt", "w") as f:
                    f.write(f"{name} {i}\n")
                with open(w + f"/n{i}", "w") as f:
                    f.write("x\n")
                sh("git", "add", "-A", cwd=w, env=env)
                sh("git", "commit", "-q", "-m", f"c{i}", cwd=w, env=env)
            return w
        leaf = mk("leaf", 3)
        sh("git", "clone", "-q", "--bare", leaf, t + "/leaf.git", env=env)
        sub = mk("sub", 3)
        sh("git", "submodule", "--quiet", "add", f"file://{t}/leaf.git", "leaf dir", cwd=sub, env=env)
        sh("git", "commit", "-q", "-m", "leaf", cwd=sub, env=env)
        sh("git", "clone", "-q", "--bare", sub, t + "/sub.git", env=env)
        up = mk("up", 4, branch="trunk")
        sh("git", "tag", "v1", "HEAD~2", cwd=up, env=env)
        sh("git", "tag", "-a", "v2", "-m", "annotated", "HEAD~1", cwd=up, env=env)
        sh("git", "tag", "rel/v1", "HEAD~3", cwd=up, env=env)
        sh("git", "tag", "dual", "HEAD~3", cwd=up, env=env)
        sh("git", "tag", "rel/sole", "HEAD~3", cwd=up, env=env)
        for b, base in (("main", "HEAD~1"), ("feature/main", "HEAD~2"), ("a-main", "HEAD~3"), ("zz/v1", "HEAD"), ("HEAD2", "HEAD~1"), ("dual", "HEAD~2"), ("team/solo", "HEAD~1"), ("x/solo", "HEAD")):
            sh("git", "checkout", "-q", "-b", b, base, cwd=up, env=env)
            with open(up + "/branch", "w") as f:
                f.write(b + "\n")
            sh("git", "add", "-A", cwd=up, env=env)
            sh("git", "commit", "-q", "-m", b, cwd=up, env=env)
            sh("git", "checkout", "-q", "trunk", cwd=up, env=env)
        sh("git", "submodule", "--quiet", "add", f"file://{t}/sub.git", "mods/sub", cwd=up, env=env)
        sh("git", "commit", "-q", "-m", "submodule", cwd=up, env=env)
        sh("git", "clone", "-q", "--mirror", up, t + "/up.git", env=env)
        sh("git", "symbolic-ref", "HEAD", "refs/heads/trunk", cwd=t + "/up.git", env=env)
        cls.TEMPLATE = t
        return t

    def __init__(self, rng):
        self.rng = rng
        self.ref = rng.choice([None, None, None, "trunk", "main", "feature/main", "a-main", "v1", "v2", "rel/v1", "zz/v1", "dual", "nosuch", "mai", "v", "solo", "sole"])
        self.prior = rng.choice(["absent", "absent", "absent", "current", "current", "behind", "behind", "behind", "plain", "file", "gitfile",
                                 "other", "other", "emptydir", "link-clone", "link-plain"])
        self.depth = rng.choice([None, None, None, 1, 2])
        self.update = rng.random() < 0.8
        self.subs = rng.choice([None, None, True, False])
        self.recursive = self.subs and rng.random() < 0.5
        self.shallow = self.subs and rng.random() < 0.4
        self.advance = rng.choice([1, 1, 3])
        if rng.random() < 0.07:
            # the update brings new commits that use submodules, with limited histories
            self.ref, self.prior, self.depth, self.advance, self.update = rng.choice([None, "trunk"]), "behind", rng.choice([2, 3]), 1, True
            self.subs, self.recursive, self.shallow = True, rng.random() < 0.5, rng.random() < 0.7
        self.kw = {}
        if self.ref is not None:
            self.kw["branch_or_tag"] = self.ref
        if self.depth is not None:
            self.kw["depth"] = self.depth
        if not self.update or rng.random() < 0.2:
            self.kw["update"] = self.update
        if self.subs is not None:
            self.kw["update_submodules"] = self.subs
        if self.recursive:
            self.kw["recursive_submodules"] = True
        if self.shallow:
            self.kw["shallow_submodules"] = True
        r = rng.random()
        if r < 0.15:
            self.kw["rebase"] = False
        elif r < 0.25:
            self.kw["ff_only"] = True
        self.name = gen.name(rng)
        self.untracked = False
        self.label = f"git/{self.prior}/{'tag' if self.is_tag() else 'default' if self.ref is None else 'missing' if self.missing() else 'branch'}" + \
            ("" if self.update else "/noupdate")

    def is_tag(self):
        return self.ref in ("v1", "v2", "rel/v1")

    def missing(self):
        return self.ref in ("nosuch", "mai", "v", "solo", "sole")

    def key(self):
        return (self.label, self.ref, self.kw, self.name, self.advance)

    def describe(self):
        return f"{self.label} kw={self.kw} name={self.name!r} advance={self.advance}"

    def prepare(self):
        t = self.template()
        self.base = again("gt")
        self.root = again("gw")
        self.roots = (self.root,)
        self.origin = self.base + "/up.git"
        shutil.copytree(t + "/up.git", self.origin, symlinks=True)
        self.url = "file://" + self.origin
        self.path = os.path.join(self.root, self.name)
        with open(self.root + "/zz-bystander", "wb") as f:
            f.write(b"b")
        set_attrs(self.root + "/zz-bystander", 0o604, 3001, 3002, OLD)
        p = self.prior
        self.expects, self.detected_failure, self.partial_ok = "ok", True, False
        clone = ["clone", "-q"]
        # an existing clone is on the branch or tag that is requested (see DESIGN.md for the finding about others)
        cref = self.ref if not self.missing() else None
        if cref:
            clone += ["--branch", cref]
        if p in ("current", "behind"):
            if self.depth:
                clone += ["--depth", str(self.depth)]
            g(*clone, "--", self.url, self.path)
        elif p == "other":
            # another repository, also one whose url resembles the requested one
            other = self.base + self.rng.choice(["/other.git", "/up", "/UP.git", "/up.git.git", "/xup.git", "/up.git2", "/sub/up.git"])
            shutil.copytree(t + "/up.git", other, symlinks=True)
            if self.rng.random() < 0.5:
                # an unrelated repository, else one that has the same commits
                shutil.rmtree(other)
                shutil.copytree(t + "/leaf.git", other, symlinks=True)
                clone = ["clone", "-q"]
            g(*clone, "--", "file://" + other, self.path)
        elif p == "plain":
            os.mkdir(self.path)
            with open(self.path + "/f", "w") as f:
                f.write("not git")
        elif p == "emptydir":
            os.mkdir(self.path)
        elif p.startswith("link"):
            if p == "link-clone":
                g(*clone, "--", self.url, self.root + "/zz-real")
                self.advance_origin()
            else:
                os.mkdir(self.root + "/zz-real")
            os.symlink(self.root + "/zz-real", self.path)
        elif p == "file":
            with open(self.path, "w") as f:
                f.write("file")
        elif p == "gitfile":
            os.mkdir(self.path)
            with open(self.path + "/.git", "w") as f:
                f.write("gitdir: /nonexistent\n")
        if p == "behind":
            self.advance_origin()
        if p in ("current", "behind") and self.rng.random() < 0.3:
            with open(self.path + "/zz untracked", "w") as f:
                f.write("keep")
            self.untracked = True
        if p in ("plain", "file", "gitfile", "emptydir", "link-clone", "link-plain"):
            self.expects = "fail"
        elif p == "other" and self.update:
            self.expects, self.detected_failure = "fail", not self.missing()
        elif self.missing() and (self.update or p == "absent"):
            self.expects, self.detected_failure = "fail", False
        elif p == "behind" and self.is_tag() and self.update:
            # git cannot pull into a detached head
            self.expects, self.detected_failure, self.partial_ok = "fail", False, True
        elif p == "behind" and self.depth and self.update:
            # whether git can pull into a shallow clone depends on the histories; it must not claim success otherwise
            self.expects = "either"
        self.want = None
        if self.expects != "fail" and p != "absent" and not self.update:
            self.want = g("rev-parse", "HEAD", cwd=self.path)
        elif self.expects != "fail":
            self.want = g("rev-parse", (f"refs/tags/{self.ref}" if self.is_tag() else f"refs/heads/{self.ref or 'trunk'}") + "^{commit}", cwd=self.origin)

    def advance_origin(self):
        """New commits on the requested branch (or a moved tag) in the upstream repository."""
        w = self.base + "/adv"
        b = "trunk" if self.ref is None or self.is_tag() or self.missing() else self.ref
        g("clone", "-q", "--branch", b, "--", self.url, w)
        for i in range(self.advance):
            with open(w + "/file.txt", "a") as f:
                f.write(f"adv {i} {gen.token(self.rng)}\n")
            g("commit", "-q", "-am", f"adv{i}", cwd=w)
        if self.is_tag():
            g("tag", "-f", self.ref, cwd=w)
            g("push", "-q", "-f", "origin", "refs/tags/" + self.ref, cwd=w)
        else:
            g("push", "-q", "origin", "HEAD:refs/heads/" + b, cwd=w)
        shutil.rmtree(w)

    def invoke(self, **kw):
        return git.repo(url=self.url, path=self.path, **{**self.kw, **kw})

    def state_now(self):
        if not os.path.isdir(self.path):
            return dict(initialized=False, commit=None)
        return dict(initialized=True, commit=g("rev-parse", "HEAD", cwd=self.path))

    def verify(self, before, after):
        res = []
        ignore = {self.root} if self.prior == "absent" else set()
        own = {k for k in set(before) | set(after) if k == self.path or k.startswith(self.path + "/")}
        d = tree_diff({k: v for k, v in before.items() if k not in own}, {k: v for k, v in after.items() if k not in own}, ignore_times=ignore)
        if d:
            res.append(("collateral", f"{d[:3]}"))
        if self.prior != "absent" and not self.update:
            d = tree_diff(before, after)
            if d:
                res.append(("updated-unasked", f"{d[:3]}"))
            return res
        if not os.path.isdir(self.path + "/.git"):
            return res + [("no-clone", "there is no repository")]
        head = g("rev-parse", "HEAD", cwd=self.path)
        if head != self.want:
            res.append(("wrong-commit", f"HEAD is {head}, expected {self.want}"))
        url = g("config", "--get", "remote.origin.url", cwd=self.path)
        if url != self.url:
            res.append(("wrong-url", f"{url!r} instead of {self.url!r}"))
        st = g("status", "--porcelain", "--ignore-submodules=all", cwd=self.path)
        if self.untracked and st == '?? "zz untracked"':
            with open(self.path + "/zz untracked") as f:
                st = "" if f.read() == "keep" else "untracked file modified"
        elif self.untracked:
            res.append(("untracked-file", f"the untracked file is gone: {st!r}"))
        if st:
            res.append(("dirty", f"working tree is not clean: {st}"))
        if not self.is_tag():
            b = g("symbolic-ref", "-q", "HEAD", cwd=self.path)
            if b != "refs/heads/" + (self.ref or "trunk"):
                res.append(("wrong-branch", f"on {b!r}"))
        if self.prior == "absent":
            n = int(g("rev-list", "--count", "HEAD", cwd=self.path))
            full = int(g("rev-list", "--count", self.want, cwd=self.origin))
            if n != (min(full, self.depth) if self.depth else full):
                res.append(("wrong-depth", f"{n} commits, depth={self.depth}, {full} exist"))
        acted = self.prior == "absent" or self.prior == "behind"
        has_sub = bool(g("ls-tree", "HEAD", "mods/sub", cwd=self.path))
        if has_sub and acted:
            sub = self.path + "/mods/sub"
            there = os.path.exists(sub + "/.git")
            if there != bool(self.subs):
                res.append(("submodules", f"submodule {'present' if there else 'missing'} with update_submodules={self.subs}"))
            elif there:
                want = g("ls-tree", "HEAD", "mods/sub", cwd=self.path).split()[2]
                if g("rev-parse", "HEAD", cwd=sub) != want:
                    res.append(("submodule-commit", "wrong submodule commit"))
                leaf = os.path.exists(sub + "/leaf dir/.git")
                if leaf != bool(self.recursive):
                    res.append(("submodules-recursive", f"nested submodule {'present' if leaf else 'missing'} with recursive={self.recursive}"))
                n = int(g("rev-list", "--count", "HEAD", cwd=sub))
                if self.shallow and self.depth and n != self.depth or not (self.shallow and self.depth) and n != 4:
                    res.append(("submodules-depth", f"{n} commits in submodule, shallow={self.shallow}, depth={self.depth}"))
        return res

    def cleanup(self):
        super().cleanup()
        wipe(self.base)


class GitOtherBranch(GitScn):
    """An existing clone of the right url that is on another branch than the requested one (a known finding)."""
    def __init__(self, rng):
        super().__init__(rng)
        self.prior = "absent"
        self.ref = rng.choice(["main", "feature/main", "a-main"])
        self.on = rng.choice([b for b in ["trunk", "main", "feature/main", "a-main"] if b != self.ref])
        self.kw = dict(branch_or_tag=self.ref)
        self.update = True
        self.label = "git/other-branch"

    def prepare(self):
        super().prepare()
        g("clone", "-q", "--branch", self.on, "--", self.url, self.path)
