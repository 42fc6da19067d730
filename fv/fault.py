"""Fault injection: a connector proxy that makes the k-th request fail and PATH shims that make the k-th command fail."""
import errno
import os
import subprocess

from fora.connectors.connector import CompletedRemoteCommand
from fora.connectors.local import LocalConnector
from fora.connectors.tunnel_dispatcher import RemoteOSError

REQUESTS = ("run", "stat", "upload", "download", "resolve_user", "resolve_group", "query_user", "query_group", "getenv")


class Plan:
    """Which request fails and how; also records the requests seen."""
    def __init__(self):
        self.reset()

    def reset(self, k=None, mode=None, rc=1):
        self.k, self.mode, self.rc = k, mode, rc
        self.seen = []
        self.fired = None
        self.broken = False


PLAN = Plan()


class FaultConnector:
    """Delegates to the real connector."""
    def __init__(self, url, host):
        object.__setattr__(self, "_inner", LocalConnector(url, host))

    def __getattr__(self, name):
        attr = getattr(self._inner, name)
        if name not in REQUESTS:
            return attr
        return lambda *a, **k: request(name, attr, a, k)

    def __setattr__(self, name, value):
        setattr(self._inner, name, value)


def request(name, fn, a, k):
    p = PLAN
    i = len(p.seen)
    probe = name == "run" and not k.get("check", True)
    p.seen.append((name, probe))
    if p.broken:
        raise IOError("injected: connection is broken")
    if p.k != i:
        return fn(*a, **k)
    command = k.get("command", a[0] if a else None) if name == "run" else None
    if p.mode in ("io", "io-after"):
        if p.mode == "io-after":
            fn(*a, **k)
        p.broken = True
        p.fired = (name, p.mode)
        raise IOError("injected: connection lost")
    if p.mode == "oserror" and name in ("run", "stat", "upload", "download"):
        p.fired = (name, p.mode)
        e = errno.EIO
        raise RemoteOSError(e, os.strerror(e), f"[Errno {e}] injected")
    if p.mode == "eof":
        p.fired = (name, p.mode)
        p.broken = True
        raise EOFError("injected: end of stream")
    if p.mode in ("rc", "rc-after") and name == "run" and not probe:
        if p.mode == "rc-after":
            fn(*a, **{**k, "check": False})
        p.fired = (name, f"{p.mode} {p.rc}")
        cap = k.get("capture_output", True)
        raise subprocess.CalledProcessError(p.rc, command, b"" if cap else None, b"injected failure\n" if cap else None)
    if p.mode in ("rc", "rc-after") and probe and p.rc == 424242:
        return CompletedRemoteCommand(b"", b"", 1)
    return fn(*a, **k)


# ---------------------------------------------------------------- command shims

SHIM = "/tmp/shim"
SHIMMED = ["mkdir", "chmod", "chown", "chgrp", "ln", "rm", "rmdir", "unlink", "touch", "cp", "mv", "install", "git", "useradd", "usermod", "userdel",
           "groupadd", "groupmod", "groupdel", "bash", "sh", "tee", "truncate"]
SCRIPT = """#!/bin/dash
read n < /tmp/shim/n
n=$((n+1))
echo $n > /tmp/shim/n
read k mode v < /tmp/shim/plan
if [ "$n" = "$k" ]; then
  echo "${0##*/}" > /tmp/shim/fired
  case $mode in
    rc) exit $v;;
    sig) kill -$v $$; sleep 5;;
    after) PATH=${PATH#/tmp/shim/bin:} "${0##*/}" "$@"; exit $v;;
  esac
fi
PATH=${PATH#/tmp/shim/bin:}
exec "${0##*/}" "$@"
"""


def shim_setup():
    if os.path.isdir(SHIM):
        return
    os.makedirs(SHIM + "/bin")
    os.chmod(SHIM, 0o777)
    for n in SHIMMED:
        with open(f"{SHIM}/bin/{n}", "w") as f:
            f.write(SCRIPT)
        os.chmod(f"{SHIM}/bin/{n}", 0o755)
    shim_plan()


def shim_plan(k=0, mode="none", v=0):
    for n, t in (("n", "0"), ("plan", f"{k} {mode} {v}")):
        with open(f"{SHIM}/{n}", "w") as f:
            f.write(t + "\n")
        os.chmod(f"{SHIM}/{n}", 0o666)
    if os.path.exists(SHIM + "/fired"):
        os.unlink(SHIM + "/fired")


def shim_count():
    with open(SHIM + "/n") as f:
        return int(f.read())


def shim_fired():
    try:
        with open(SHIM + "/fired") as f:
            return f.read().strip()
    except OSError:
        return None
