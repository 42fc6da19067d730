"""Drives the real fora package: sessions, operation calls, captured output, snapshots of the host."""
import argparse
import contextlib
import grp
import hashlib
import io
import os
import pwd
import shutil
import stat as st_
import subprocess
import sys

import fora
import fora.loader
from fora.connection import open_connection
from fora.loader import load_inventory
from fora.types import ScriptWrapper


def set_args(**kw):
    a = dict(debug=False, diff=False, dry=False, changes=True, verbose=0, no_color=True, hosts=None,
             inventory="local:", script="x")
    a.update(kw)
    fora.args = argparse.Namespace(**a)
    return fora.args


def random_output_args(rng):
    """Output related options must never matter for behaviour."""
    debug = rng.random() < 0.05
    return dict(diff=rng.random() < 0.35, changes=rng.random() < 0.8, verbose=99 if debug else rng.choice([0, 0, 0, 1, 2, 3]),
                no_color=rng.random() < 0.8, debug=debug)


class Out:
    """Outcome of a call: ok with value, or exception."""
    def __init__(self, ok, value=None, exc=None, text="", err=""):
        self.ok, self.value, self.exc, self.text, self.err = ok, value, exc, text, err

    @property
    def success(self):
        return self.ok and self.value is not None and getattr(self.value, "success", False) is True

    def brief(self):
        if self.ok:
            v = self.value
            if hasattr(v, "success"):
                return f"result(success={v.success}, changed={v.changed}, initial={v.initial}, final={v.final}, msg={v.failure_message})"
            return f"value({v!r})"[:600]
        return f"raised {type(self.exc).__name__}: {self.exc}"[:600]


def call(fn, *a, **k):
    """Calls fn with captured stdout/stderr. Only Exception (and SystemExit) are outcomes."""
    so, se = io.StringIO(), io.StringIO()
    try:
        with contextlib.redirect_stdout(so), redirect_err(se):
            v = fn(*a, **k)
        return Out(True, v, None, so.getvalue(), se.getvalue())
    except (Exception, SystemExit) as e:  # noqa
        return Out(False, None, e, so.getvalue(), se.getvalue())


class _Err(io.StringIO):
    """A stderr replacement that still offers the real descriptor for subprocesses."""
    def __init__(self, buf):
        super().__init__()
        self.buf = buf

    def write(self, s):
        return self.buf.write(s)

    def fileno(self):
        return DEVNULL.fileno()


DEVNULL = open(os.devnull, "w")


@contextlib.contextmanager
def redirect_err(buf):
    old = sys.stderr
    sys.stderr = _Err(buf)
    try:
        yield
    finally:
        sys.stderr = old


class Session:
    """An open connection to the local host with an active script and entered base defaults."""
    def __init__(self, inventory="local:", connector=None, path_prefix=None, base_settings=None, env=None, **args):
        self.args = args
        self.inventory = inventory
        self.connector = connector
        self.path_prefix = path_prefix
        self.base_settings = base_settings
        self.env = env or {}
        self.stack = None

    def __enter__(self):
        set_args(**self.args)
        self.saved = dict(os.environ)
        if self.path_prefix:
            os.environ["PATH"] = self.path_prefix + ":" + os.environ["PATH"]
        os.environ.update(self.env)
        self.stack = contextlib.ExitStack()
        try:
            out = call(load_inventory, self.inventory)
            if not out.ok:
                raise out.exc
            self.host = next(iter(fora.inventory.loaded_hosts.values()))
            if self.connector is not None:
                self.host.connector = self.connector
            if self.base_settings is not None:
                bs = self.base_settings
                object.__setattr__(fora.inventory, "base_remote_settings", lambda: bs)
            fora.host = self.host
            self.conn = open_connection(self.host)
            out = call(self.conn.__enter__)
            if not out.ok:
                raise out.exc
            self.stack.push(lambda *e: call(self.conn.__exit__, None, None, None) and False)
            fora.script = ScriptWrapper("__fv__")
            d = fora.script.defaults()
            d.__enter__()
            self.stack.push(lambda *e: d.__exit__(None, None, None))
            self.script, self.inv = fora.script, fora.inventory
        except BaseException:
            self.close_env()
            raise
        # the settings of the environment are for the remote side only
        os.environ.clear()
        os.environ.update(self.saved)
        return self

    def activate(self):
        """Makes this the active session (several may be open)."""
        fora.host, fora.script, fora.inventory = self.host, self.script, self.inv

    def close_env(self):
        if hasattr(self, "inv"):
            self.activate()
        try:
            self.stack.close()
        finally:
            fora.host = None
            fora.script = None
            os.environ.clear()
            os.environ.update(self.saved)

    def __exit__(self, *e):
        self.close_env()
        return False

    def op(self, fn, *a, args=None, **k):
        """Runs an operation with the given fora.args overrides."""
        old = fora.args
        set_args(**{**self.args, **(args or {})})
        try:
            return call(fn, *a, **k)
        finally:
            fora.args = old


# ---------------------------------------------------------------- host observation

def uname(uid):
    try:
        return pwd.getpwuid(uid).pw_name
    except KeyError:
        return str(uid)


def gname(gid):
    try:
        return grp.getgrgid(gid).gr_name
    except KeyError:
        return str(gid)


KIND = {st_.S_IFDIR: "dir", st_.S_IFREG: "file", st_.S_IFLNK: "link", st_.S_IFIFO: "fifo", st_.S_IFSOCK: "sock",
        st_.S_IFCHR: "chr", st_.S_IFBLK: "blk"}


class Node:
    """Observed state of one path."""
    __slots__ = ("type", "mode", "uid", "gid", "data", "ino", "mtime", "ctime", "size")

    def __init__(self, path):
        s = os.lstat(path)
        self.type = KIND.get(st_.S_IFMT(s.st_mode), "other")
        self.mode = st_.S_IMODE(s.st_mode)
        self.uid, self.gid, self.ino = s.st_uid, s.st_gid, s.st_ino
        self.mtime, self.ctime, self.size = s.st_mtime_ns, s.st_ctime_ns, s.st_size
        if self.type == "file":
            with open(path, "rb") as f:
                self.data = f.read()
        elif self.type == "link":
            self.data = os.readlink(path)
        else:
            self.data = None

    def sem(self):
        """What the path is, apart from inode number and times."""
        return (self.type, None if self.type == "link" else self.mode, self.uid, self.gid, self.data)

    def strict(self):
        return self.sem() + (self.ino, self.mtime, self.ctime)

    def __repr__(self):
        d = self.data
        if isinstance(d, bytes):
            d = d[:60] + (b"..." if len(d) > 60 else b"")
        return f"{self.type} {self.mode:o} {self.uid}:{self.gid} {d!r}"


def snap(root):
    """path -> Node for root and everything below it."""
    out = {}
    try:
        out[root] = Node(root)
    except FileNotFoundError:
        return out
    if out[root].type != "dir":
        return out
    todo = [root]
    while todo:
        d = todo.pop()
        for n in os.listdir(d):
            p = os.path.join(d, n)
            nd = Node(p)
            out[p] = nd
            if nd.type == "dir":
                todo.append(p)
    return out


def tree_diff(a, b, strict=True, ignore_times=()):
    """Human readable differences between two snapshots ({} if equal)."""
    res = []
    for p in sorted(set(a) | set(b)):
        if p not in a:
            res.append(f"created {p!r}: {b[p]!r}")
        elif p not in b:
            res.append(f"removed {p!r}: {a[p]!r}")
        else:
            s = strict and p not in ignore_times
            if s and a[p].strict() != b[p].strict() or not s and a[p].sem() != b[p].sem():
                extra = "" if a[p].sem() != b[p].sem() else " (inode or times changed)"
                res.append(f"changed {p!r}: {a[p]!r} -> {b[p]!r}{extra}")
    return res


def sha512(b):
    return hashlib.sha512(b).digest()


def wipe(path):
    """Removes a scratch tree (the workers only ever use paths below their private /tmp)."""
    assert path.startswith("/tmp/"), path
    if os.path.islink(path) or (os.path.exists(path) and not os.path.isdir(path)):
        os.unlink(path)
        return
    if not os.path.exists(path):
        return
    for root, dirs, files in os.walk(path):
        try:
            os.chmod(root, 0o700)
        except OSError:
            pass
    shutil.rmtree(path)
    if path in _lent:
        _free.setdefault(_lent.pop(path), []).append(path)


_c = 0
_lent = {}
_free = {}


def fresh(prefix="s"):
    global _c
    _c += 1
    p = f"/tmp/{prefix}{_c}"
    os.mkdir(p)
    os.chmod(p, 0o755)
    return p


_latest = [False]


def latest(on):
    """Whether `again` returns the path that was given up last (or first)."""
    _latest[0] = on


def again(prefix="s"):
    """As fresh, but preferably a path that was in use before, so that whatever remembers paths is found out."""
    if _free.get(prefix):
        p = _free[prefix].pop(-1 if _latest[0] else 0)
        os.mkdir(p)
        os.chmod(p, 0o755)
    else:
        p = fresh(prefix)
    _lent[p] = prefix
    return p


def children():
    """Reaps nothing; returns pids of live or zombie direct children (via /proc)."""
    me = os.getpid()
    try:
        with open(f"/proc/{me}/task/{me}/children") as f:
            return [int(x) for x in f.read().split()]
    except OSError:
        r = []
        for d in os.listdir("/proc"):
            if d.isdigit():
                try:
                    with open(f"/proc/{d}/stat") as f:
                        s = f.read().rsplit(")", 1)[1].split()
                    if int(s[1]) == me:
                        r.append(int(d))
                except (OSError, IndexError, ValueError):
                    pass
        return r


def own_fds():
    r = {}
    for fd in range(3, 256):
        try:
            s = os.fstat(fd)
            r[fd] = (s.st_dev, s.st_ino)
        except OSError:
            pass
    return r


def sh(*argv, **k):
    return subprocess.run(list(argv), stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=k.pop("check", True), **k)
