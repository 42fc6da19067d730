"""Arguments that no operation can fulfil: they must be refused and leave the host as it is."""
import os

from fora.operations import apt, files, pacman, portage, system, systemd

from .scenario import PathScn
from .scn_files import LineScn, UploadDirScn
from .scn_sys import PackageScn, ServiceScn, UserScn, pm_enable


def bad_path(r):
    return r.choice(["", "", "fv-relative", "./fv-relative", "~/fv", "fv rel/x"])


def spoil(r, scn):
    """Makes a scenario that cannot be fulfilled out of the given one (before it is prepared). Returns whether this is possible."""
    prepare = scn.prepare
    call = None
    if isinstance(scn, PathScn):
        p = bad_path(r)
        if scn.op == "link" and r.random() < 0.6:
            call, what = (lambda s, kw: files.link(path=s.path, target="", **{**s.kw, **kw})), "empty link target"
        else:
            def call(s, kw):
                s.path_arg = p
                return type(s).invoke(s, **kw)
            what = f"path {p!r}"
    elif isinstance(scn, LineScn):
        p = bad_path(r)
        call, what = (lambda s, kw: files.line(path=p, line=s.line, **{**s.kw, **kw})), f"path {p!r}"
    elif isinstance(scn, UploadDirScn):
        what = r.choice(["source does not exist", "source is a file", "empty destination", "relative destination"])

        def call(s, kw):
            src = s.src
            if what == "source does not exist":
                src = s.src.rstrip("/") + "-missing"
            elif what == "source is a file":
                src = "/tmp/fv-misuse-file"
                open(src, "wb").close()
            dest = "" if what.startswith("empty") else "fv-relative" if what.startswith("relative") else s.dest_arg
            cwd = os.getcwd()
            os.chdir(s.cwd)
            try:
                return files.upload_dir(src=src, dest=dest, **{**s.kw, **kw})
            finally:
                os.chdir(cwd)
    elif isinstance(scn, UserScn):
        g = r.choice(["video", "", "a,b"])
        call, what = (lambda s, kw: system.user(user=s.user, **{**s.kw, "groups": g, **kw})), f"groups={g!r}"
    elif isinstance(scn, PackageScn):
        g = r.choice(["vim", "x", "vim htop"])

        def call(s, kw):
            fn = system.package if s.generic else {"pacman": pacman, "apt": apt, "portage": portage}[s.mgr].package
            return fn(packages=g, **{**s.kw, **kw})
        what = f"packages={g!r}"
    elif isinstance(scn, ServiceScn):
        g = r.choice(["running", "Started", "", "start", "stop", "restart", "enabled"])
        call, what = (lambda s, kw: (system.service if s.generic else systemd.service)(service=s.unit, **{**s.kw, "state": g, **kw})), f"state={g!r}"
    else:
        return False

    def prepared():
        prepare()
        if isinstance(scn, ServiceScn):
            pm_enable("systemd")
        scn.roots = tuple(scn.roots) + ("/tmp/fv-relative",)
        scn.expects, scn.detected_failure, scn.partial_ok = "fail", False, False
    scn.prepare = prepared
    scn.invoke = lambda **kw: call(scn, kw)
    described = scn.describe
    scn.describe = lambda: f"{what}; {described()}"
    scn.label = "misuse/" + scn.op_kind
    return True
