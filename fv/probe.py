"""The probe program: what a command started through a connection really received."""
import os
import subprocess

DIR = "/tmp/probe"
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "probe.c")
PATH = DIR + "/bin/probe"


def setup():
    if os.path.isdir(DIR):
        return
    for d in ("", "/bin", "/r"):
        os.mkdir(DIR + d)
        os.chmod(DIR + d, 0o755)
    os.chmod(DIR + "/r", 0o1777)
    subprocess.run(["gcc", "-O1", "-o", PATH, SRC], check=True)
    os.chmod(PATH, 0o755)
    plan()


def plan(read="all", out=b"", err=b"", chunk=4096, kind="rc", value=0):
    for n, b in (("o", out), ("e", err), ("ctl", f"{read} {chunk} {kind} {value}\n".encode())):
        with open(f"{DIR}/{n}", "wb") as f:
            f.write(b)
        os.chmod(f"{DIR}/{n}", 0o644)


class Report:
    def __init__(self, path):
        with open(path, "rb") as f:
            b = f.read()
        self.args, self.env, self.groups, self.fds, self.ignored = [], {}, [], {}, []
        self.stdin = self.eof = None
        while b:
            head, b = b.split(b"\n", 1)
            k, n = head.decode().split()
            v, b = b[:int(n)], b[int(n) + 1:]
            if k == "arg":
                self.args.append(v)
            elif k == "env":
                n_, _, v_ = v.partition(b"=")
                self.env[n_] = v_
            elif k == "uid":
                self.uids = [int(x) for x in v.split()]
            elif k == "gid":
                self.gids = [int(x) for x in v.split()]
            elif k == "group":
                self.groups.append(int(v))
            elif k == "umask":
                self.umask = int(v, 8)
            elif k == "cwd":
                self.cwd = os.fsdecode(v)
            elif k == "fd":
                fd, dev, ino = v.split()
                self.fds[int(fd)] = (int(dev), int(ino))
            elif k == "ignored":
                self.ignored.append(int(v))
            elif k == "stdin":
                self.stdin = v
            elif k == "eof":
                self.eof = v.decode()


def take():
    """All reports since the last call (a ".tmp" report means the probe was killed while writing it)."""
    r = []
    for n in sorted(os.listdir(DIR + "/r")):
        p = f"{DIR}/r/{n}"
        r.append(Report(p) if not n.endswith(".tmp") else None)
        os.unlink(p)
    return r


# ------------------------------------------------------------- dispatcher identity

SHIM = "/tmp/idshim"
SHIM_SRC = """#!/opt/venv/bin/python -IS
import json, os, sys
with open("/tmp/idshim/conf") as f:
    c = json.load(f)
with open("/tmp/idshim/started", "a") as f:
    f.write(str(os.getpid()) + "\\n")
if c.get("uid") is not None:
    os.setgroups(c["groups"])
    os.setresgid(*[c["gid"]] * 3)
    os.setresuid(*[c["uid"]] * 3)
os.environ["PATH"] = os.environ["PATH"].replace("/tmp/idshim/bin:", "", 1)
os.execvp(c.get("exec", "python3"), [c.get("exec", "python3")] + sys.argv[1:])
"""


def id_setup():
    if os.path.isdir(SHIM):
        return
    os.makedirs(SHIM + "/bin")
    os.chmod(SHIM, 0o755)
    with open(SHIM + "/bin/python3", "w") as f:
        f.write(SHIM_SRC)
    os.chmod(SHIM + "/bin/python3", 0o755)
    open(SHIM + "/started", "w").close()
    os.chmod(SHIM + "/started", 0o666)
    identity()


def identity(uid=None, gid=None, groups=()):
    import json
    with open(SHIM + "/conf", "w") as f:
        json.dump({"uid": uid, "gid": gid, "groups": list(groups)}, f)
    os.chmod(SHIM + "/conf", 0o644)


def started():
    with open(SHIM + "/started") as f:
        return [int(x) for x in f.read().split()]
