"""Scenarios of files.line, files.upload_dir and the template operations."""
import datetime
import os
import re
import types

import fora
from fora.operations import files
from fora.types import ScriptWrapper

from . import gen
from .foraenv import Node, again, call, gname, sha512, tree_diff, uname, wipe
from .scenario import OLD, DefaultsMixin, Scn, set_attrs

LINES = ["key=value", "Port 22", "#Port 22", "  Port 22  ", "foo", "foo bar", "foobar", "", " ", "\tindented", "# comment", "ünïcödé = ß",
         "a.c", "abc", "a+b", "[section]", "x" * 150, "end", "-n", "$HOME", "back\\slash", "日本", "KEY=VALUE", "key = value", "key=value2",
         "\x0bvt", "form\x0cfeed", "nbsp\u00a0end", "\u2028sep", "a\u0085b", "trail\t"]
# regex -> lines that match it
REGEX = {r"^key\s*=": ["key=value", "key = value"], r"foo": ["foo", "foo bar", "foobar"], r"^#?Port\b": ["Port 22", "#Port 22"],
         r"value$": ["key=value", "key = value"], r"a.c": ["a.c", "abc"], r"^foo$": ["foo"], r"(?i)^key": ["KEY=VALUE", "key=value"],
         r"\[section\]": ["[section]"], r"^\s*Port\s+\d+\s*$": ["Port 22", "  Port 22  "], r"ö": ["ünïcödé = ß"], r"^a\+b$": ["a+b"],
         r"22|end": ["Port 22", "end"], r"\S": ["foo", "end"], r"^.{150}$": ["x" * 150], r"bar\Z": ["foo bar", "foobar"]}


def split_lines(data):
    return re.findall(rb"[^\n]*\n|[^\n]+", data)


def body(l):
    if l.endswith(b"\n"):
        l = l[:-1]
    if l.endswith(b"\r"):
        l = l[:-1]
    return l.decode("utf-8", "surrogateescape")


class LineScn(DefaultsMixin, Scn):
    op_kind = "line"

    def __init__(self, rng):
        self.rng = rng
        self.gen_defaults(rng)
        self.want = dict(mode=self.eff["file_mode"], uid=self.eff["uid"], gid=self.eff["gid"])
        self.present = rng.random() < 0.6
        self.kw = {}
        self.regex = None
        if not self.present or rng.random() < 0.3:
            self.kw["present"] = self.present
        if rng.random() < 0.4:
            self.regex = rng.choice(list(REGEX))
            self.kw["regex"] = self.regex
            self.line = rng.choice(REGEX[self.regex])
            if not self.present and rng.random() < 0.5:
                self.line = rng.choice(LINES)
        else:
            self.line = rng.choice(LINES)
        self.ws = True
        if rng.random() < 0.35:
            self.ws = rng.random() < 0.4
            self.kw["ignore_whitespace"] = self.ws
        self.backup = rng.choice([False, False, False, True, "my backup.orig", "x.bak", "sub/b.bak", "../upper.bak"])
        if self.backup or rng.random() < 0.2:
            self.kw["backup"] = self.backup
        self.prior = rng.choice(["file"] * 8 + ["absent", "absent", "dir", "link", "fifo"])
        self.expects = "ok" if self.prior in ("file", "absent") else "fail"
        self.data = self.gen_data(rng)
        # the kernel drops setuid/setgid bits on writes by the root user of a user namespace, so these are not used here
        self.prior_mode = int(gen.mode(rng), 8) & 0o1777
        self.prior_ids = gen.raw_ids(rng)
        self.name = gen.name(rng)
        if self.backup is True and len(os.fsencode(self.name)) > 220:
            self.name = "long-name"  # <name>.<timestamp>.bak would not fit into a file name
        self.label = f"line/{self.prior}/{'present' if self.present else 'absent'}/{'regex' if self.regex else 'ws' if self.ws else 'exact'}"

    def gen_data(self, rng):
        out = b""
        eol = rng.choice([b"\n", b"\n", b"\n", b"\r\n", None])
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5, 9])):
            if rng.random() < 0.35:
                l = rng.choice([self.line, self.line, " " + self.line, self.line + " ", self.line + "\t", self.line + "x", "x" + self.line,
                                self.line.upper(), self.line[:-1], self.line * 2, self.line.replace(" ", "  "), self.line.replace(" ", "\t"), self.line.replace(" ", ""), "# " + self.line, self.line + " # x", self.line.lower()]).encode()
            elif rng.random() < 0.1:
                l = bytes(b for b in (rng.randrange(256) for _ in range(6)) if b != 10)
            else:
                l = rng.choice(LINES).encode()
            out += l + (eol if eol is not None else rng.choice([b"\n", b"\r\n", b"\r\r\n"]))
        if rng.random() < 0.35:
            out += rng.choice([self.line, "no newline", "x", "\r", "  " + self.line]).encode()
        if rng.random() < 0.1:
            out += b"\n" * rng.randrange(1, 4)
        if rng.random() < 0.02:
            out = (b"filler line\n" * 9000) + out
        if rng.random() < 0.06:
            out = rng.choice([b"\xef\xbb\xbf", b"\xef\xbb\xbf", b"\xff\xfe", b"\0", b"\x0c", b"\xc2\x85"]) + out
        return out

    def key(self):
        return (self.label, self.line, self.kw, self.data, self.prior_mode)

    def describe(self):
        return f"{self.label} line={self.line!r} kw={self.kw} data={self.data[-120:]!r} name={self.name!r}"

    def match(self, l):
        b = body(l)
        if self.regex is not None:
            return re.search(self.regex, b) is not None
        if self.ws:
            return b.strip() == self.line.strip()
        return b == self.line

    def expected(self):
        """(new content or None if the file must not be written)"""
        data = self.data if self.prior == "file" else b""
        ls = split_lines(data)
        has = any(self.match(l) for l in ls)
        if has == self.present:
            return None
        if self.present:
            if data and not data.endswith(b"\n"):
                data += b"\n"
            return data + self.line.encode() + b"\n"
        return b"".join(l for l in ls if not self.match(l))

    def prepare(self):
        self.outer = again("ln")
        self.root = self.outer + "/dir"
        os.mkdir(self.root)
        os.mkdir(self.root + "/sub")
        self.roots = (self.outer,)
        self.path = os.path.join(self.root, self.name)
        with open(self.root + "/other file", "wb") as f:
            f.write(b"key=value\nfoo\n")
        set_attrs(self.root + "/other file", 0o644, 3001, 3001, OLD)
        if self.prior == "file":
            with open(self.path, "wb") as f:
                f.write(self.data)
            set_attrs(self.path, self.prior_mode, *self.prior_ids, OLD)
            if isinstance(self.backup, str) and self.rng.random() < 0.4:
                # an older backup, which is replaced
                q = os.path.join(self.root, self.backup)
                if not os.path.lexists(q):
                    with open(q, "wb") as f:
                        f.write(b"older backup\n")
                    set_attrs(q, 0o640, 3002, 3001, OLD)
        elif self.prior == "dir":
            os.mkdir(self.path)
        elif self.prior == "link":
            os.symlink("other file", self.path)
        elif self.prior == "fifo":
            os.mkfifo(self.path)
        for d in (self.root + "/sub", self.root, self.outer):
            os.utime(d, ns=(OLD, OLD))

    def invoke(self, **kw):
        with self.defaults():
            return files.line(path=self.path, line=self.line, **{**self.kw, **kw})

    def state_now(self):
        try:
            with open(self.path, "rb") as f:
                data = f.read()
        except (FileNotFoundError, IsADirectoryError):
            data = b""
        return dict(line_present=any(self.match(l) for l in split_lines(data)))

    def state_now_safe(self):
        return {} if self.prior == "fifo" else self.state_now()

    def snapshot(self):
        return super().snapshot()

    def verify(self, before, after):
        res = []
        p = self.path
        exp = self.expected()
        b, a = before.get(p), after.get(p)
        if exp is None:
            d = tree_diff(before, after)
            if d:
                res.append(("needless-write", f"no change needed but: {d[:3]}"))
            return res
        own = {p}
        if a is None or a.type != "file":
            res.append(("not-a-file", f"{a!r}"))
        else:
            if a.data != exp:
                res.append(("wrong-content", f"expected {exp[-160:]!r} ({len(exp)}) but got {a.data[-160:]!r} ({len(a.data)})"))
            wa = (self.want["mode"], self.want["uid"], self.want["gid"]) if b is None else (b.mode, b.uid, b.gid)
            if (a.mode, a.uid, a.gid) != wa:
                res.append(("wrong-attributes", f"expected {wa} but got {a!r}"))
        dirs = {self.root} if b is None else set()
        if self.backup and b is not None:
            if isinstance(self.backup, str):
                names = [os.path.normpath(os.path.join(self.root, self.backup))]
            else:
                names = [q for q in after if os.path.dirname(q) == self.root and q not in before]
                now = datetime.datetime.now(datetime.timezone.utc)
                for q in names:
                    m = re.fullmatch(re.escape(self.name) + r"\.(\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d)(Z|\+00:00)\.bak", os.path.basename(q))
                    if not m or abs((datetime.datetime.fromisoformat(m.group(1) + "+00:00") - now).total_seconds()) > 7200:
                        res.append(("backup-name", f"unexpected backup name {os.path.basename(q)!r} for {self.name!r}"))
            if len(names) != 1 or names[0] not in after:
                res.append(("backup-missing", f"expected one backup, found {names}"))
            else:
                k = after[names[0]]
                if k.sem() != b.sem():
                    res.append(("backup-differs", f"backup {k!r} is not a copy of {b!r}"))
                own.add(names[0])
                dirs.add(os.path.dirname(names[0]))
        d = tree_diff({k: v for k, v in before.items() if k not in own}, {k: v for k, v in after.items() if k not in own},
                      ignore_times=dirs)
        if d:
            res.append(("collateral", f"unrelated paths changed: {d[:4]}"))
        return res


# keep the generic engine from blocking on a fifo
_orig = LineScn.state_now
LineScn.state_now = lambda self: {} if self.prior == "fifo" else _orig(self)


SPECIAL_NAMES = [".gitignore", ".git", ".gitkeep", ".DS_Store", "Thumbs.db", "__pycache__", "node_modules", "mod.pyc", "backup~", ".file.swp", "CVS", ".svn", ".hidden",
                 "#auto#", "x.bak", "x.orig", "x.tmp", "core", "lost+found", "README.md", "setup.py", "x.j2"]


class UploadDirScn(DefaultsMixin, Scn):
    op_kind = "upload_dir"

    def __init__(self, rng):
        self.rng = rng
        self.gen_defaults(rng)
        self.kw = {}
        self.want = dict(dir=self.eff["dir_mode"], file=self.eff["file_mode"], uid=self.eff["uid"], gid=self.eff["gid"])
        if rng.random() < 0.5:
            self.kw["dir_mode"] = gen.mode(rng)
            self.want["dir"] = int(self.kw["dir_mode"], 8)
        if rng.random() < 0.5:
            self.kw["file_mode"] = gen.mode(rng)
            self.want["file"] = int(self.kw["file_mode"], 8)
        if rng.random() < 0.4:
            self.kw["owner"], self.want["uid"] = gen.owner(rng)
        if rng.random() < 0.4:
            self.kw["group"], self.want["gid"] = gen.group(rng)
        self.tree = {}     # relative path -> None (dir) | bytes (file) | "fifo"
        self.gen_tree("", 0)
        self.srcname = gen.name(rng)
        self.src_slash = rng.choice(["", "", "/", "/.", "//"])
        self.src_rel = rng.random() < 0.25
        self.src_from = rng.choice([None, None, None, ".", "./", "./.", "..", "../", "zz-in/.."]) if rng.random() < 0.2 else None
        self.into = rng.random() < 0.4
        self.destname = gen.name(rng)
        self.prior = rng.choice(["absent", "absent", "empty", "unrelated", "same", "mixed", "mixed", "conflict-file", "conflict-dir", "conflict-root"])
        fs = [k for k, v in self.tree.items() if isinstance(v, bytes)]
        ds = [k for k, v in self.tree.items() if v is None]
        if self.prior == "conflict-file" and not ds or self.prior == "conflict-dir" and not fs:
            self.prior = "mixed"
        self.expects = "fail" if self.prior.startswith("conflict") else "ok"
        self.victim = None
        if self.prior == "conflict-file":
            self.victim = rng.choice(ds)
        elif self.prior == "conflict-dir":
            self.victim = rng.choice(fs)
        self.partial_ok = True
        self.label = f"upload_dir/{self.prior}/{'into' if self.into else 'as'}"

    def gen_tree(self, rel, depth):
        rng = self.rng
        if depth == 0 and rng.random() < 0.03:
            # many entries
            for i in range(rng.randrange(10, 40)):
                self.tree[f"d{i}"] = None
                self.tree[f"d{i}/sub"] = None
                self.tree[f"d{i}/sub/f"] = b"%d" % i
                self.tree[f"f{i}"] = b""
            return
        for _ in range(rng.choice([0, 1, 2, 2, 3]) if depth else rng.choice([0, 1, 2, 3, 4])):
            n = rng.choice(SPECIAL_NAMES) if rng.random() < 0.2 else gen.name(rng, simple=0.5)[:60].strip("\0") or "n"
            p = os.path.join(rel, n)
            if p in self.tree or n in (".", "..", "..."):
                continue
            r = rng.random()
            if r < 0.35 and depth < 3 and len(self.tree) < 12:
                self.tree[p] = None
                self.gen_tree(p, depth + 1)
            elif r < 0.96:
                self.tree[p] = gen.content(rng, 0.01)
            else:
                self.tree[p] = "fifo"

    def key(self):
        return (self.label, sorted(self.tree), self.kw, self.src_slash, self.destname)

    def describe(self):
        return f"{self.label} kw={self.kw} tree={sorted(self.tree)[:8]} src={self.srcname!r}{self.src_slash} dest={self.destname!r}"

    def model(self):
        """dest path -> (type, content)"""
        m = {self.dest: ("dir", None)}
        for k, v in self.tree.items():
            if v is None:
                m[os.path.join(self.dest, k)] = ("dir", None)
            elif isinstance(v, bytes):
                m[os.path.join(self.dest, k)] = ("file", v)
        return m

    def prepare(self):
        rng = self.rng
        self.srcroot = again("us")
        self.root = again("ud")
        self.roots = (self.root,)
        self.srcdir = os.path.join(self.srcroot, self.srcname)
        os.mkdir(self.srcdir)
        for k, v in self.tree.items():
            p = os.path.join(self.srcdir, k)
            if v is None:
                os.mkdir(p)
            elif v == "fifo":
                os.mkfifo(p)
            else:
                with open(p, "wb") as f:
                    f.write(v)
                os.chmod(p, rng.choice([0o600, 0o755, 0o400]))
        self.src = (os.path.join(".", self.srcname) if self.src_rel else self.srcdir) + self.src_slash
        self.cwd = self.srcroot
        if self.src_from is not None:
            # relative to a directory within the source
            self.src, self.cwd = self.src_from, self.srcdir
            if self.src_from[:2] != "./" and self.src_from != ".":
                ds = sorted(k for k, v in self.tree.items() if v is None and "/" not in k)
                if not ds:
                    self.src = "."
                elif self.src_from[:2] == "..":
                    self.cwd = os.path.join(self.srcdir, ds[0])
                else:
                    self.src = ds[0] + "/.."
        if self.into:
            self.dest_arg = self.root + "/"
            self.dest = os.path.join(self.root, self.srcname)
        else:
            self.dest = self.dest_arg = os.path.join(self.root, self.destname)
        with open(self.root + "/zz-unrelated", "wb") as f:
            f.write(b"u")
        set_attrs(self.root + "/zz-unrelated", 0o604, 3001, 3002, OLD)
        if self.prior == "conflict-root":
            with open(self.dest, "wb") as f:
                f.write(b"i am a file")
        elif self.prior != "absent":
            os.mkdir(self.dest)
            set_attrs(self.dest, int(gen.mode(rng), 8) | 0o700, *gen.raw_ids(rng), OLD)
            if self.prior != "empty":
                with open(self.dest + "/zz other", "wb") as f:
                    f.write(b"keep")
                os.mkdir(self.dest + "/zz-dir")
                with open(self.dest + "/zz-dir/k", "wb") as f:
                    f.write(b"keep")
            if self.prior in ("same", "mixed", "conflict-file", "conflict-dir"):
                for k in sorted(self.tree, key=lambda s: s.count("/")):
                    v = self.tree[k]
                    p = os.path.join(self.dest, k)
                    if v == "fifo" or not os.path.isdir(os.path.dirname(p)):
                        continue
                    if k == self.victim:
                        if v is None:
                            with open(p, "wb") as f:
                                f.write(b"")
                        else:
                            os.mkdir(p)
                        continue
                    if self.prior == "mixed" and rng.random() < 0.4:
                        continue
                    if v is None:
                        os.mkdir(p)
                        set_attrs(p, self.want["dir"] if rng.random() < 0.6 else int(gen.mode(rng), 8), self.want["uid"], self.want["gid"], OLD)
                    else:
                        with open(p, "wb") as f:
                            f.write(v if rng.random() < 0.6 else gen.content(rng))
                        set_attrs(p, self.want["file"] if rng.random() < 0.6 else int(gen.mode(rng), 8),
                                  self.want["uid"] if rng.random() < 0.8 else 4242, self.want["gid"], OLD)
            if self.victim and not os.path.lexists(os.path.join(self.dest, self.victim)):
                os.makedirs(os.path.dirname(os.path.join(self.dest, self.victim)), exist_ok=True)
                v = self.tree[self.victim]
                if v is None:
                    open(os.path.join(self.dest, self.victim), "wb").close()
                else:
                    os.mkdir(os.path.join(self.dest, self.victim))

    def invoke(self, **kw):
        cwd = os.getcwd()
        os.chdir(self.cwd)
        try:
            with self.defaults():
                return files.upload_dir(src=self.src, dest=self.dest_arg, **{**self.kw, **kw})
        finally:
            os.chdir(cwd)

    def state_now(self):
        if self.expects == "fail":
            return None
        r = {}
        for p, (t, _) in self.model().items():
            n = Node(p) if os.path.lexists(p) else None
            if t == "dir":
                r[p] = dict(exists=n is not None, mode=n and f"{n.mode:o}", owner=n and uname(n.uid), group=n and gname(n.gid), touched=False)
            else:
                r[p] = dict(exists=n is not None, mode=n and f"{n.mode:o}", owner=n and uname(n.uid), group=n and gname(n.gid),
                            sha512=n and sha512(n.data))
        return r

    def verify(self, before, after):
        res = []
        m = self.model()
        for p, (t, data) in m.items():
            a = after.get(p)
            if a is None:
                res.append(("missing", f"{p!r} was not created"))
                continue
            if a.type != t:
                res.append(("wrong-type", f"{p!r} is {a!r}, expected {t}"))
            elif t == "file" and a.data != data:
                res.append(("wrong-content", f"{p!r} has {a!r}, expected {data[:60]!r}"))
            if (a.mode, a.uid, a.gid) != (self.want[t], self.want["uid"], self.want["gid"]):
                res.append(("wrong-attributes", f"{p!r} is {a!r}, expected {self.want}"))
        created_in = {os.path.dirname(p) for p in m if p not in before}
        d = tree_diff({k: v for k, v in before.items() if k not in m}, {k: v for k, v in after.items() if k not in m},
                      ignore_times=created_in)
        if d:
            res.append(("collateral", f"unrelated paths changed: {d[:4]}"))
        return res[:4]

    def cleanup(self):
        super().cleanup()
        wipe(self.srcroot)


class TemplateScn(DefaultsMixin, Scn):
    """template / template_content with variables on host and in the context."""
    op_kind = "template"
    VARS = ["alpha", "beta", "gamma", "delta"]
    VALUES = ["v1", "", "<b>&amp;\"'", "ünï ☃", 42, 0, 3.5, True, None, "multi\nline", "{{ alpha }}", "{% raw %}", " space "]

    def __init__(self, rng):
        self.rng = rng
        self.gen_defaults(rng)
        self.gen_attrs(rng)
        self.use_file = rng.random() < 0.5
        self.hostvars = {v: rng.choice(self.VALUES) for v in self.VARS if rng.random() < 0.6}
        self.context = {v: rng.choice(self.VALUES) for v in self.VARS if rng.random() < 0.4}
        if rng.random() < 0.2:
            self.context["host"] = "fake-host"
        if rng.random() < 0.2:
            self.context["inventory"] = "fake-inventory"
        if rng.random() < 0.2:
            self.context[rng.choice(["_private", "Upper_9", "module", "defaults", "name", "url"])] = rng.choice(self.VALUES)
        if not self.context and rng.random() < 0.5:
            self.context = None
        self.scriptvars = {v: rng.choice(self.VALUES) for v in self.VARS if rng.random() < 0.4} if rng.random() < 0.6 else None
        env = {**(self.scriptvars or {}), **self.hostvars, **(self.context or {})}
        known = [v for v in env if v not in ("host", "inventory")]
        src, out = "", ""
        self.undefined = False
        for _ in range(rng.randrange(1, 8)):
            k = rng.random()
            if k < 0.35 or not known:
                t = rng.choice(["plain ", "line\n", "<x a=\"1\">&'\n", "ünï\n", "{ not } a % var\n", "\n", "  ", "$a `b`\n"])
                src += t
                out += t
            elif k < 0.65:
                v = rng.choice(known)
                src += "{{ " + v + " }}"
                out += str(env[v])
            elif k < 0.8:
                v = rng.choice(known)
                src += "{% if " + v + " %}T{% else %}F{% endif %}"
                out += "T" if env[v] else "F"
            elif k < 0.9:
                src += "{% for i in [1,2,3] %}{% if i == 2 %}{% continue %}{% endif %}{{ i }};{% endfor %}"
                out += "1;3;"
            elif k < 0.97:
                t, o = rng.choice([("{{ host.name }}", "localhost"), ("{{ inventory.groups_dir }}", "groups")])
                src += t
                out += o
            else:
                src += "{# comment #}{% raw %}{{ x }}{% endraw %}"
                out += "{{ x }}"
        if rng.random() < 0.07:
            gone = [v for v in self.VARS if v not in env]
            src += rng.choice(["{{ no_such_var }}", "{{ alpha_undefined + 1 }}", "{% for x in undefined_list %}{% endfor %}"] + ["{{ " + v + " }}" for v in gone] * 2)
            self.undefined = True
        if rng.random() < 0.04:
            src, out = "\ufeff" + src, "\ufeff" + out
        self.same_src = rng.random() < 0.4
        # an earlier template with other variables, given the same context object
        self.warm = rng.choice(["", "", "host", "script", "context"])
        self.tail(rng, src, out)
        self.prior = rng.choice(["absent", "file", "file", "same", "dir"])
        self.expects = "fail" if self.undefined or self.prior == "dir" else "ok"
        self.detected_failure = not self.undefined
        self.name = gen.name(rng)
        self.slash = self.use_file and rng.random() < 0.3
        self.prior_mode = self.want["mode"] if rng.random() < 0.6 else int(gen.mode(rng), 8)
        self.prior_ids = (self.want["uid"], self.want["gid"]) if rng.random() < 0.6 else gen.raw_ids(rng)
        self.label = f"template/{'file' if self.use_file else 'content'}/{self.prior}" + ("/undefined" if self.undefined else "")

    def tail(self, rng, src, out):
        self.source = src
        # jinja removes a single trailing newline of the template source
        self.rendered = (out[:-1] if src.endswith("\n") else out).encode("utf-8")

    def key(self):
        return (self.label, self.source, repr(self.hostvars), repr(self.context), repr(self.scriptvars), self.kw)

    def describe(self):
        return f"{self.label} source={self.source!r} host={self.hostvars} context={self.context} script={self.scriptvars} kw={self.kw} name={self.name!r}"

    def prepare(self):
        self.root = again("tp")
        self.srcroot = again("ts")
        self.roots = (self.root,)
        self.path = os.path.join(self.root, self.name)
        self.srcfile = os.path.join(self.srcroot, self.name if self.slash else "t.j2")
        if self.same_src:
            # a file whose content is another one each time
            os.makedirs("/tmp/ts-same", exist_ok=True)
            self.srcfile = os.path.join("/tmp/ts-same", self.name if self.slash else "t.j2")
        with open(self.srcfile, "w", encoding="utf-8", newline="") as f:
            f.write(self.source)
        if self.prior == "dir":
            os.mkdir(self.path)
        elif self.prior != "absent":
            with open(self.path, "wb") as f:
                f.write(self.rendered if self.prior == "same" else gen.content(self.rng))
            set_attrs(self.path, self.prior_mode, *self.prior_ids, OLD)
        self.ctxobj = None if self.context is None else dict(self.context)
        if self.warm:
            self.warm_up()
        for k, v in self.hostvars.items():
            setattr(fora.host, k, v)

    earlier = None

    def warm_up(self):
        w = {v: "earlier-" + v for v in self.VARS}
        text = " ".join("{{ " + v + " }}" for v in self.VARS) + "{{ host.name }}"
        if self.warm == "host":
            for k, v in w.items():
                setattr(fora.host, k, v)
        ctx = self.ctxobj if self.warm != "context" else w

        def op():
            return files.template_content(content=text, dest=self.srcroot + "/earlier", context=ctx)
        out = call(self.in_script, w if self.warm == "script" else None, op)
        for k in w:
            self.drop(k)
        self.earlier = out

    @staticmethod
    def drop(k):
        object.__getattribute__(fora.host, "__dict__").pop(k, None)
        m = fora.host.module
        if m is not None and k in vars(m):
            delattr(m, k)

    def invoke(self, **kw):
        return self.in_script(self.scriptvars, lambda: self.invoke_(**kw))

    @staticmethod
    def in_script(scriptvars, fn):
        if scriptvars is None:
            return fn()
        old = fora.script
        w = ScriptWrapper("with_variables")
        m = types.ModuleType("with_variables")
        fora.script = w
        try:
            with w.defaults():
                w.wrap(m, copy_members=True, copy_functions=True)
                for k, v in scriptvars.items():
                    setattr(m, k, v)
                return fn()
        finally:
            fora.script = old

    def invoke_(self, **kw):
        with self.defaults():
            k = {**self.kw, **kw}
            if self.context is not None:
                k["context"] = self.ctxobj
            if self.use_file:
                return files.template(src=self.srcfile, dest=self.root + "/" if self.slash else self.path, **k)
            return files.template_content(content=self.source, dest=self.path, **k)

    def state_now(self):
        n = Node(self.path) if os.path.lexists(self.path) else None
        if n is None:
            return dict(exists=False, mode=None, owner=None, group=None, sha512=None)
        return dict(exists=True, mode=f"{n.mode:o}", owner=uname(n.uid), group=gname(n.gid),
                    sha512=sha512(n.data) if n.type == "file" else None)

    def verify(self, before, after):
        res = []
        if self.earlier is not None and not self.earlier.ok:
            res.append(("earlier-failed", f"an earlier template failed: {self.earlier.brief()}"))
        a = after.get(self.path)
        if a is None or a.type != "file":
            res.append(("missing", f"{a!r}"))
        else:
            if a.data != self.rendered:
                res.append(("wrong-rendering", f"expected {self.rendered!r} but got {a.data!r}"))
            if (a.mode, a.uid, a.gid) != (self.want["mode"], self.want["uid"], self.want["gid"]):
                res.append(("wrong-attributes", f"expected {self.want} but got {a!r}"))
        d = tree_diff({k: v for k, v in before.items() if k not in (self.path,)},
                      {k: v for k, v in after.items() if k not in (self.path,)}, ignore_times=(self.root,) if self.path not in before else ())
        if d:
            res.append(("collateral", f"unrelated paths changed: {d[:4]}"))
        return res

    def cleanup(self):
        for k in self.hostvars:
            self.drop(k)
        super().cleanup()
        wipe(self.srcroot)
