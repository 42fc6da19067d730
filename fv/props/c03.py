"""C03: a dry run changes nothing and predicts the real run."""
import os

from .. import deploy, engine, inv, mix
from ..foraenv import fresh, snap, tree_diff, wipe
from ..scn_sys import PM_PATH, pm_enable, pm_setup, pm_state
from ._ops import Sessions
from .c02 import KINDS

LEVEL = "exploration"
RULE = ("random operations of every kind: complete host snapshot (content, attributes, inode and times, accounts, manager state and log) around a dry run, "
        "then the real run from the same state and a dry run after convergence; non-trivial: distinct (operation, arguments, prior state)")
REQUIRED = {"quick": {"dry_runs": 3000, "dry_real_pairs": 1400, "whole_runs": 40, **{"kind:" + k: 20 for k in KINDS}},
            "thorough": {"dry_runs": 30000, "dry_real_pairs": 15000}}


SCRIPT = """
from fora.operations import files, local, system, systemd
import os
R = {root!r}
files.directory(path=R + "/dir")
files.directory(path=R + "/old", present=False)
files.file(path=R + "/file", mode="640")
files.link(path=R + "/ln", target="/x")
files.upload_content(content="new", dest=R + "/content")
files.upload(src={src!r} + "/a", dest=R + "/a")
files.template_content(content="{{{{ host.name }}}}", dest=R + "/t")
files.line(path=R + "/lines", line="added", backup={backup!r})
files.upload_dir(src={src!r}, dest=R + "/")
system.package(packages=["htop"])
system.service(service="sshd", state="started", enabled=True)
system.group(group="fvnew")
system.user(user="fvnewuser", group="root")
local.script({other!r})
"""
FILES = ("/etc/passwd", "/etc/shadow", "/etc/group", "/tmp/pm/state.json")


def whole_run(ctx):
    """The command line as a whole, with --dry in any place between other options."""
    r = ctx.rng
    root, src = fresh("wr"), fresh("ws")
    os.mkdir(root + "/h")
    os.mkdir(root + "/h/old")
    for n, t in (("content", "old"), ("lines", "a\nb\n"), ("file", "")):
        inv.write(f"{root}/h/{n}", t)
    inv.write(src + "/a", "data a")
    inv.write(src + "/sub/b", "data b")
    inv.write(root + "/inv.py", "hosts = ['local:a', 'local:b']\n")
    inv.write(root + "/other.py", f"from fora.operations import files\nfiles.upload_content(content='x', dest={root + '/h/other'!r})\n")
    inv.write(root + "/d.py", SCRIPT.format(root=root + "/h", src=src, other=root + "/other.py", backup=r.choice([False, True, "bak"])))
    pm_setup()
    pm_enable("apt")
    os.symlink("/tmp/pm/all/systemctl", "/tmp/pm/bin/systemctl")
    pm_state(dict(installed={"vim": 0}, residual=[], world=[], known={}, held=[], unavailable=[], essential=[],
                  units=dict(system={"sshd.service": dict(active="inactive", file="disabled", broken=False, starts=0, reloads=0)}, user={}), reloads=dict(system=0, user=0), reload_fails=False))
    opts = [o for o in ("--debug", "-v", "-vvv", "--diff", "--no-changes", "--no-color") if r.random() < 0.3]
    opts.insert(r.randint(0, len(opts)), r.choice(["--dry", "--dry-run", "--pretend"]))
    if r.random() < 0.4:
        opts += ["-H", r.choice(["a", "b", "b,a"])]
    args = opts + [root + "/inv.py", root + "/d.py"] if r.random() < 0.6 else [root + "/inv.py", root + "/d.py"] + opts
    old = {f: open(f, "rb").read() for f in FILES}
    before = snap(root + "/h")
    path, os.environ["PATH"] = os.environ["PATH"], PM_PATH
    try:
        x = deploy.main(args, cwd=root)
    finally:
        os.environ["PATH"] = path
    ctx.count_("whole_runs")
    ctx.evaluated(("whole", tuple(opts)), f"fora {' '.join(args)}")
    if x.code != 0:
        ctx.violation("dry-program-fails", f"{opts}: {x.brief()}")
    diff = tree_diff(before, snap(root + "/h")) + [f for f in FILES if open(f, "rb").read() != old[f]]
    if diff:
        ctx.violation("dry-program-modified", f"fora {' '.join(opts)} modified the host: {diff[:4]}")
    for f, t in old.items():
        with open(f, "wb") as o:
            o.write(t)
    wipe(root)
    wipe(src)


def run(ctx):
    mix.setup()
    ss = Sessions(40, **mix.SESSION)
    try:
        for _ in ctx.cases(3000, 40000):
            if ctx.rng.random() < 0.03:
                ss.close()
                whole_run(ctx)
                continue
            scn = mix.make(ctx.rng)
            S = ss.get()
            scn.prepare()
            args = engine.out_args(ctx)
            engine.dry_real_phase(ctx, S, scn, args)
            ctx.count_("kind:" + scn.op_kind)
            ctx.evaluated(scn.key(), scn.describe())
            scn.cleanup()
    finally:
        ss.close()
