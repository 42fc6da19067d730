"""
Scenario library. A scenario is one operation call on one prepared host state together with an
independent reference model of what it must do:

  prepare()       creates the prior state
  invoke(**kw)    calls the operation (kw: check)
  roots           the paths whose complete state is observed
  state_now()     the actual state in the vocabulary of OperationResult.initial/final
  expects         'ok' | 'fail'   (what the reference model says about the prior state)
  always          the operation acts on every run by request
  verify(...)     compares the host after a successful real run with the reference model
"""
import contextlib
import os
import shutil
import socket
import time

import fora
from fora.operations import files

from . import gen
from .foraenv import Node, again, gname, sha512, snap, tree_diff, uname, wipe

DEFAULT_FILE, DEFAULT_DIR = 0o600, 0o700


class Scn:
    label = "?"
    op_kind = "?"
    expects = "ok"
    always = False
    detected_failure = True      # failure is one the operation detects itself (OperationError / failed result)
    roots = ()
    volatile = ()                # result keys that are not host state

    def prepare(self):
        pass

    def invoke(self, **kw):
        raise NotImplementedError

    def snapshot(self):
        s = {}
        for r in self.roots:
            s.update(snap(r))
        return s

    def actions(self):
        """Modifying commands observed since the last call."""
        return []

    def state_now(self):
        return {}

    def verify(self, before, after):
        return []

    def final_expected(self, now):
        """Result.final values that must be reported, given the actual state after a real run."""
        return now

    def final_open(self, key, value):
        """Whether the operation may report `value` for `key` because it leaves the choice to the host."""
        return False

    def cleanup(self):
        for r in self.roots:
            if r.startswith("/tmp/"):
                wipe(r)

    def key(self):
        return self.label

    def describe(self):
        return self.label


class DefaultsMixin:
    """Optionally nests defaults blocks around the call and resolves the effective settings."""
    def gen_defaults(self, rng):
        self.blocks = []
        self.eff = dict(file_mode=DEFAULT_FILE, dir_mode=DEFAULT_DIR, uid=0, gid=0)
        for _ in range(rng.choice([0, 0, 0, 1, 1, 2])):
            b = {}
            if rng.random() < 0.5:
                b["file_mode"] = gen.mode(rng)
                self.eff["file_mode"] = int(b["file_mode"], 8)
            if rng.random() < 0.5:
                b["dir_mode"] = gen.mode(rng)
                self.eff["dir_mode"] = int(b["dir_mode"], 8)
            if rng.random() < 0.5:
                b["owner"], self.eff["uid"] = gen.owner(rng)
            if rng.random() < 0.5:
                b["group"], self.eff["gid"] = gen.group(rng)
            if rng.random() < 0.4:
                b["umask"] = rng.choice(["022", "0", "077", "002", "777", "27"])
            if rng.random() < 0.3:
                b["cwd"] = rng.choice(["/", "/tmp", "/usr"])
            self.blocks.append(b)

    def gen_attrs(self, rng, mode=True, kind="file_mode"):
        self.kw = {}
        self.want = dict(mode=self.eff[kind], uid=self.eff["uid"], gid=self.eff["gid"])
        if mode and rng.random() < 0.6:
            self.kw["mode"] = gen.mode(rng)
            self.want["mode"] = int(self.kw["mode"], 8)
        if rng.random() < 0.5:
            self.kw["owner"], self.want["uid"] = gen.owner(rng)
        if rng.random() < 0.5:
            self.kw["group"], self.want["gid"] = gen.group(rng)

    @contextlib.contextmanager
    def defaults(self):
        with contextlib.ExitStack() as st:
            for b in self.blocks:
                st.enter_context(fora.script.defaults(**b))
            yield


def set_attrs(p, mode, uid, gid, mtime=None):
    os.lchown(p, uid, gid)
    if not os.path.islink(p):
        os.chmod(p, mode)
    if mtime is not None:
        os.utime(p, ns=(mtime, mtime), follow_symlinks=False)


OLD = 1_500_000_000_123_456_789


class PathScn(DefaultsMixin, Scn):
    """Common part of operations on one path."""
    OPS = ["directory", "file", "link", "upload_content", "upload"]
    ACCEPT = {"directory": ("dir", "dir_full"), "file": ("file",), "link": ("link_file", "link_dir", "link_dangling", "link_self"),
              "upload_content": ("file",), "upload": ("file",)}
    PRIORS = ["absent", "file", "dir", "dir_full", "link_file", "link_dir", "link_dangling", "fifo", "sock"]

    def __init__(self, rng, op=None, converge=None):
        self.rng = rng
        self.op = self.op_kind = op or rng.choice(self.OPS)
        self.gen_defaults(rng)
        self.gen_attrs(rng, mode=self.op != "link", kind="dir_mode" if self.op == "directory" else "file_mode")
        self.present = True
        if self.op in ("directory", "file", "link"):
            self.present = rng.random() > 0.25
            if not self.present or rng.random() < 0.3:
                self.kw["present"] = self.present
            self.touch = rng.random() < 0.12
            if self.touch:
                self.kw["touch"] = True
        else:
            self.touch = False
        acc = self.ACCEPT[self.op]
        r = rng.random()
        if r < 0.25:
            self.prior = "absent"
        elif r < 0.8:
            self.prior = rng.choice(acc)
        else:
            self.prior = rng.choice(self.PRIORS)
        self.expects = "ok" if self.prior == "absent" or self.prior in acc else "fail"
        self.always = self.touch and self.present
        self.name = gen.name(rng)
        self.nest = rng.choice(["", "", "", "sub", "sub/deep er", "via-link"])
        self.setgid_parent = rng.random() < 0.2
        # an almost converged prior state makes single attribute differences likely
        self.near = rng.random() < 0.5 if converge is None else converge
        self.prior_mode = int(gen.mode(rng), 8)
        self.prior_ids = gen.raw_ids(rng)
        if self.near:
            what = rng.choice(["none", "mode", "uid", "gid", "data", "idmode"])
            if what not in ("mode", "idmode"):
                self.prior_mode = self.want["mode"]
            pu, pg = self.want["uid"], self.want["gid"]
            if what in ("uid", "idmode"):
                pu = self.prior_ids[0]
            if what == "gid":
                pg = self.prior_ids[1]
            self.prior_ids = (pu, pg)
            self.near = what
        self.content = gen.content(rng)
        if self.op == "upload_content" and rng.random() < 0.3:
            self.content_arg = gen.text(rng)
            self.content = self.content_arg.encode("utf-8")
        else:
            self.content_arg = self.content
        self.prior_content = self.content if (self.near and self.near != "data" or rng.random() < 0.3) else gen.content(rng)
        if self.op in ("upload", "upload_content") and self.near == "data" and self.content and rng.random() < 0.7:
            # differs in a single byte, same length
            i = rng.choice([0, len(self.content) - 1, len(self.content) // 2, rng.randrange(len(self.content))])
            b = bytearray(self.content)
            b[i] ^= rng.choice([1, 0x20, 0x80])
            self.prior_content = bytes(b)
        self.missing_parent = self.expects == "ok" and self.present and rng.random() < 0.03
        self.pathform = rng.choice(["plain"] * 8 + ["dots", "double"])
        self.label = f"{self.op}/{self.prior}/{'present' if self.present else 'absent'}"

    def key(self):
        return (self.op, self.prior, self.present, self.touch, self.kw, self.near, self.prior_mode, self.prior_ids,
                self.name, self.want)

    def describe(self):
        return f"{self.label} kw={self.kw} name={self.name!r} blocks={self.blocks} prior={self.prior_mode:o} {self.prior_ids}"

    # -- host
    def prepare(self):
        self.root = again("t")
        self.src = again("src")
        self.roots = (self.root,)
        r = self.root
        parent = r
        if self.nest == "via-link":
            os.makedirs(r + "/real dir")
            os.symlink("real dir", r + "/lnk")
            parent = r + "/lnk"
        elif self.nest:
            parent = os.path.join(r, self.nest)
            os.makedirs(parent)
        self.parent = parent
        if self.setgid_parent:
            os.chown(os.path.realpath(parent), 0, 3100)
            os.chmod(os.path.realpath(parent), 0o2775)
        self.path = os.path.join(parent, self.name)
        if self.pathform == "dots":
            self.path_arg = os.path.join(parent, ".", self.name)
        elif self.pathform == "double":
            self.path_arg = parent + "//" + self.name
        else:
            self.path_arg = self.path
        # bystanders
        with open(r + "/keep.txt", "wb") as f:
            f.write(b"keep me\n")
        set_attrs(r + "/keep.txt", 0o4751, 3002, 3200, OLD)
        os.mkdir(r + "/keepdir")
        with open(r + "/keepdir/inner", "wb") as f:
            f.write(b"inner\x00")
        set_attrs(r + "/keepdir/inner", 0o640, 3001, 3001, OLD)
        set_attrs(r + "/keepdir", 0o2770, 3003, 3100, OLD)
        if os.path.realpath(parent) != r:
            with open(parent + "/sibling", "wb") as f:
                f.write(b"sib")
            set_attrs(parent + "/sibling", 0o604, 4242, 4243, OLD)
        p, pr = self.path, self.prior
        uid, gid = self.prior_ids
        self.link_target = None
        if pr == "file":
            with open(p, "wb") as f:
                f.write(self.prior_content)
            set_attrs(p, self.prior_mode, uid, gid, OLD)
        elif pr in ("dir", "dir_full"):
            os.mkdir(p)
            if pr == "dir_full":
                os.makedirs(p + "/d1/d2")
                with open(p + "/f1", "wb") as f:
                    f.write(b"f1")
                os.symlink(r + "/keepdir", p + "/to-keepdir")
                os.symlink("nowhere", p + "/d1/dang")
                set_attrs(p + "/f1", 0o000, 3001, 3200, OLD)
                set_attrs(p + "/d1", 0o1777, 3002, 3002, OLD)
            set_attrs(p, self.prior_mode, uid, gid, OLD)
        elif pr.startswith("link"):
            t = {"link_file": r + "/keep.txt", "link_dir": r + "/keepdir", "link_dangling": "does/not exist",
                 "link_self": self.name}[pr]
            if self.op == "link" and self.near and self.near != "data":
                t = self.target_for_want()
            elif self.op == "link" and (self.near == "data" or self.rng.random() < 0.25):
                w = self.target_for_want()
                t = self.rng.choice([x for x in (w + "/", w.rstrip("/"), "./" + w, w.strip(), w + " ", w.upper(), w + "\n", w[:-1], w.replace("//", "/"), os.path.normpath(w)) if x and x != w])
            os.symlink(t, p)
            set_attrs(p, 0, uid, gid, OLD)
        elif pr == "fifo":
            os.mkfifo(p)
        elif pr == "sock":
            with socket.socket(socket.AF_UNIX) as s:
                cwd = os.getcwd()
                os.chdir(self.parent)
                try:
                    s.bind("sk")
                finally:
                    os.chdir(cwd)
                os.rename(os.path.join(self.parent, "sk"), p)
        if self.missing_parent:
            # only for an absent path: refer to a directory that does not exist
            self.path = os.path.join(parent, "missing-" + gen.token(self.rng), self.name)
            self.path_arg = self.path
            self.expects = "fail"
            self.detected_failure = False
        if self.op == "link":
            self.target = self.target_for_want()
        if self.op == "upload":
            base = self.name if self.rng.random() < 0.3 else gen.name(self.rng)
            self.srcfile = os.path.join(self.src, base)
            if self.rng.random() < 0.3:
                # a file whose content is another one each time
                d = "/tmp/src-same"
                shutil.rmtree(d, ignore_errors=True)
                os.makedirs(d)
                self.srcfile = os.path.join(d, base if self.rng.random() < 0.5 or base == self.name else "s")
            with open(self.srcfile, "wb") as f:
                f.write(self.content)
            os.chmod(self.srcfile, 0o600)
            if self.rng.random() < 0.25:
                # the source is a symbolic link: what counts is its own name and the content behind it
                os.rename(self.srcfile, self.srcfile + ".real")
                os.symlink(os.path.basename(self.srcfile) + ".real" if self.rng.random() < 0.5 else self.srcfile + ".real", self.srcfile)
            self.slash = base == self.name and not self.missing_parent
        os.utime(r, ns=(OLD, OLD))

    def target_for_want(self):
        if not hasattr(self, "_t"):
            self._t = self.rng.choice([self.root + "/keep.txt", self.root + "/keepdir", "rel/../x", "-n", "--help", "a b", "ünï", "new\nline", ".",
                                       "/", "keep.txt", "x" * 300, "a\\b", "trail ", "$(id)", "\n", "l\n\n", "..", "keepdir/", "//keep"])
        return self._t

    def invoke(self, **kw):
        with self.defaults():
            k = dict(self.kw)
            k.update(kw)
            if self.op == "directory":
                return files.directory(path=self.path_arg, **k)
            if self.op == "file":
                return files.file(path=self.path_arg, **k)
            if self.op == "link":
                return files.link(path=self.path_arg, target=self.target, **k)
            if self.op == "upload_content":
                return files.upload_content(content=self.content_arg, dest=self.path_arg, **k)
            dest = self.path_arg
            if self.slash:
                dest = os.path.dirname(dest) + "/"
            return files.upload(src=self.srcfile, dest=dest, **k)

    def state_now(self):
        touched = dict(touched=False) if self.op in ("directory", "file", "link") else {}
        n = Node(self.path) if os.path.lexists(self.path) else None
        if self.op == "link":
            if n is None:
                return dict(exists=False, target=None, owner=None, group=None, **touched)
            return dict(exists=True, target=n.data, owner=uname(n.uid), group=gname(n.gid), **touched)
        sha = {} if touched else dict(sha512=None if n is None else sha512(n.data) if n.type == "file" else None)
        if n is None:
            return dict(exists=False, mode=None, owner=None, group=None, **touched, **sha)
        return dict(exists=True, mode=f"{n.mode:o}", owner=uname(n.uid), group=gname(n.gid), **touched, **sha)

    def final_expected(self, now):
        if "touched" in now:
            now = dict(now, touched=self.touch and self.present)
        return now

    def verify(self, before, after):
        res = []
        p = self.path
        rp = os.path.join(os.path.realpath(os.path.dirname(p)), self.name)
        a, b = after.get(rp), before.get(rp)
        if not self.present:
            if a is not None:
                res.append(("not-removed", f"{p!r} still exists: {a!r}"))
        elif a is None:
            res.append(("not-created", f"{p!r} does not exist afterwards"))
        else:
            want_type = {"directory": "dir", "file": "file", "link": "link"}.get(self.op, "file")
            if a.type != want_type:
                res.append(("wrong-type", f"{p!r} is {a.type}, requested {want_type}"))
            if self.op != "link" and a.mode != self.want["mode"]:
                res.append(("wrong-mode", f"{p!r} has mode {a.mode:o}, requested {self.want['mode']:o} (before: {b!r})"))
            if a.uid != self.want["uid"]:
                res.append(("wrong-owner", f"{p!r} is owned by {a.uid}, requested {self.want['uid']} (before: {b!r})"))
            if a.gid != self.want["gid"]:
                res.append(("wrong-group", f"{p!r} has group {a.gid}, requested {self.want['gid']} (before: {b!r})"))
            want_data = {"directory": None, "link": getattr(self, "target", None),
                         "file": b.data if b is not None else b""}.get(self.op, self.content)
            if a.type == want_type and a.data != want_data:
                res.append(("wrong-content", f"{p!r} contains {a!r}, requested {want_data!r:.80} (before: {b!r})"))
            if self.touch and b is not None and a.mtime == b.mtime:
                res.append(("not-touched", f"{p!r} was not touched"))
        # everything else must be untouched
        own = set()
        for q in set(before) | set(after):
            if q == rp or (q.startswith(rp + "/") and not self.present):
                own.add(q)
        parent = os.path.dirname(rp)
        existed = b is not None
        entry_changed = existed != self.present or (self.op == "link" and existed)
        d = tree_diff({k: v for k, v in before.items() if k not in own}, {k: v for k, v in after.items() if k not in own},
                      ignore_times=(parent,) if entry_changed else ())
        if d:
            res.append(("collateral", f"unrelated paths changed: {d[:4]}"))
        return res

    def cleanup(self):
        super().cleanup()
        wipe(self.src)
