"""
Containment for the workloads.

`spawn(argv, env, binds, ...)` runs a program as "root" of a fresh user namespace that maps
ids 0..65535 onto the otherwise unused host ids BASE..BASE+65535, inside its own mount and pid
namespaces, with a private tmpfs on /tmp and private copies bind-mounted over chosen paths
(e.g. /etc).  Whatever the code under test deletes, overwrites, chowns or kills can therefore
only ever be its own scratch data: to the host kernel it is an unprivileged user.
"""
import ctypes
import os
import signal
import sys
import traceback

BASE = 200000
COUNT = 65536
MS_BIND, MS_REC, MS_PRIVATE, MS_NOSUID, MS_NODEV = 4096, 16384, 1 << 18, 2, 4
CLONE_NEWUSER, CLONE_NEWNS, CLONE_NEWPID = 0x10000000, 0x00020000, 0x20000000
PR_SET_PDEATHSIG = 1

_libc = ctypes.CDLL(None, use_errno=True)


def mount(src, dst, fstype, flags, data=None):
    r = _libc.mount(src.encode(), dst.encode(), fstype.encode() if fstype else None,
                    ctypes.c_ulong(flags), data.encode() if data else None)
    if r != 0:
        e = ctypes.get_errno()
        raise OSError(e, f"mount {src} on {dst}: {os.strerror(e)}")


def pdeathsig():
    _libc.prctl(PR_SET_PDEATHSIG, signal.SIGKILL, 0, 0, 0)


class Proc:
    """Handle of a contained process (the host-side pid of the namespace's parent)."""
    def __init__(self, pid):
        self.pid = pid
        self.status = None

    def poll(self):
        if self.status is None:
            p, st = os.waitpid(self.pid, os.WNOHANG)
            if p:
                self.status = os.waitstatus_to_exitcode(st)
        return self.status

    def wait(self):
        if self.status is None:
            _, st = os.waitpid(self.pid, 0)
            self.status = os.waitstatus_to_exitcode(st)
        return self.status

    def kill(self):
        if self.status is None:
            try:
                os.kill(self.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass


def spawn(argv, env, binds, cwd, stdout_fd, stderr_fd, tmp_size="768m"):
    """binds: list of (host source, target path) bind mounts. Returns a Proc."""
    r1, w1 = os.pipe()   # child -> parent: user namespace created
    r2, w2 = os.pipe()   # parent -> child: id maps written
    pid = os.fork()
    if pid:
        os.close(w1)
        os.close(r2)
        ok = os.read(r1, 1)
        os.close(r1)
        if ok == b"u":
            with open(f"/proc/{pid}/uid_map", "w") as f:
                f.write(f"0 {BASE} {COUNT}")
            with open(f"/proc/{pid}/gid_map", "w") as f:
                f.write(f"0 {BASE} {COUNT}")
            os.write(w2, b"g")
        os.close(w2)
        return Proc(pid)

    # --- child
    try:
        os.close(r1)
        os.close(w2)
        pdeathsig()
        null = os.open("/dev/null", os.O_RDONLY)
        os.dup2(null, 0)
        os.dup2(stdout_fd, 1)
        os.dup2(stderr_fd, 2)
        os.unshare(CLONE_NEWUSER)
        os.write(w1, b"u")
        os.close(w1)
        if os.read(r2, 1) != b"g":
            os._exit(97)
        os.close(r2)
        os.setgroups([])
        os.setresgid(0, 0, 0)
        os.setresuid(0, 0, 0)
        pdeathsig()          # cleared by the credential change
        os.unshare(CLONE_NEWNS | CLONE_NEWPID)
        mount("none", "/", None, MS_REC | MS_PRIVATE)
        for src, dst in binds:
            mount(src, dst, None, MS_BIND)
        mount("tmpfs", "/tmp", "tmpfs", MS_NOSUID | MS_NODEV, f"mode=1777,size={tmp_size}")
        sub = os.fork()
        if sub == 0:
            pdeathsig()
            try:
                mount("proc", "/proc", "proc", MS_NOSUID | MS_NODEV)
            except OSError:
                env = dict(env, FV_NO_PROC="1")
            os.chdir(cwd)
            os.umask(0o022)
            os.closerange(3, 256)
            os.execve(argv[0], argv, env)
        _, st = os.waitpid(sub, 0)
        code = os.waitstatus_to_exitcode(st)
        os._exit(code if 0 <= code < 256 else 128 + (-code & 127))
    except BaseException:
        traceback.print_exc(file=sys.stderr)
        sys.stderr.flush()
        os._exit(98)
