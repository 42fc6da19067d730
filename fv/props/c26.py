"""C26: initialising a deploy never destroys existing files unasked."""
import os
import socket
import sys

import fora.loader

from .. import deploy, inv, probe, scn_sys, sshbin
from ..foraenv import fresh, snap, tree_diff, wipe

LEVEL = "exploration"
RULE = ("every layout is initialised through the command line entry point in directories with random prior contents (empty, hidden, unrelated, conflicting, obstructing, not accessible), with random answers and umasks, in-process "
        "and as a program of an unprivileged user; the tree (and its surroundings) is compared before and after, and what was created is loaded and deployed with local and ssh connections; non-trivial: distinct (layout, prior, answer)")
REQUIRED = {"quick": {"inits": 1000, "created": 350, "asked": 400, "declined": 200, "refused": 60, "unrelated_kept": 300, "conflicts_overwritten": 60, "deployed": 50, "inventories_loaded": 50, "programs": 60}, "thorough": {"inits": 8000}}
LAYOUTS = ["minimal", "flat", "dotfiles", "modular", "staging_prod"]
MUST = {"minimal": ["deploy.py", "inventory.py"], "flat": ["deploy.py", "inventory.py"], "modular": ["deploy.py", "inventory.py"], "dotfiles": ["deploy.py"], "staging_prod": ["deploy.py"]}
YES = ["y", "Y", "yes", "YES", "Yes", "yEs"]
NO = ["n", "N", "no", "", "q", "yess", "ye", "yep", "1", "true", "y y", "nyes", "j", "ok", "y/n", "Y/N", "yes please", "x", "yy", "0", "ja", "none"]
PATH = scn_sys.PM_PATH


def tree(root):
    return {p[len(root) + 1:]: n for p, n in snap(root).items() if p != root}


def reference(ctx):
    """What each layout consists of: what is created in an empty directory."""
    ref = {}
    for l in LAYOUTS:
        d = fresh("ref")
        x = deploy.main(["--init", l], cwd=d)
        ref[l] = tree(d)
        if x.code != 0:
            ctx.violation("empty-directory", f"--init {l} in an empty directory: {x.brief()}")
        for f in MUST[l]:
            if f not in ref[l]:
                ctx.violation("incomplete", f"--init {l} in an empty directory did not create {f}: {sorted(ref[l])}")
        if x.code == 0:
            loads(ctx, l, d, ref[l])
        wipe(d)
    return ref


def inventories(d, ref):
    return [f"{d}/{f}" for f in sorted(ref) if f == "inventory.py" or os.path.dirname(f) == "inventories" and f.endswith(".py")]


def loads(ctx, layout, d, ref):
    """The inventories load and the scripts can be executed."""
    invs = inventories(d, ref)
    if not invs and layout != "dotfiles":
        ctx.violation("no-inventory", f"{layout}: no inventory was created")
    for i in invs:
        x = deploy.main(["--inspect-inventory", i], cwd=d)
        ctx.count_("inventories_loaded")
        if x.code != 0:
            ctx.violation("inventory-invalid", f"{layout}: inventory {i[len(d) + 1:]} does not load: {x.brief()}")
    if layout == "dotfiles":
        for f in ("zsh/zshrc", "kitty/kitty.conf", "neovim/init.lua"):
            inv.write(f"{d}/{f}", "x\n")
        invs = ["local:"]
    real = layout in ("minimal", "flat", "dotfiles")
    for i in invs:
        for dry in ([True, False, False] if real else [True]):
            sshbin.conf(path=PATH)
            before = snap("/etc") if dry else None
            x = deploy.main((["--dry"] if dry else []) + [i, d + "/deploy.py"], cwd=d)
            ctx.count_("deployed")
            ctx.evaluated(("deploy", layout, i[len(d):], dry), f"deploy of {layout}")
            if x.code != 0:
                ctx.violation("deploy-invalid", f"{layout}: the deploy ({'dry ' if dry else ''}run with {i}) fails: {x.brief()}", out=x.text[-1000:])
            if dry and (c := tree_diff(before, snap("/etc"))):
                ctx.violation("deploy-dry", f"{layout}: dry run changed {c[:3]}")


UNRELATED = [".git/config", ".hidden", "README.md", "notes", "src/x.py", "hosts/other.py", "tasks/mine.py", "inventory", "inventory.py.bak", "deploy.txt", "Deploy.py", "groups/db.py", "deploy.pyc", "sub/deploy.py", "ü/日本",
             "files/own", "templates/own.j2", "inventories/own.py", "tasks/example_task/own.py", "-x", "hosts/localhost.py~"]


def prior(r, d, ref):
    """Creates the prior contents; returns (kind, conflicting files)."""
    files = [f for f, n in ref.items() if n.type == "file"]
    dirs = [f for f, n in ref.items() if n.type == "dir"]
    k = r.choice(["empty", "empty", "unrelated", "unrelated", "unrelated", "conflict", "conflict", "hidden", "dir", "odd", "obstructed", "again"])
    conf = []
    if k == "dir":
        os.mkdir(d + "/" + r.choice([".git", "sub"] + dirs[:1]))
    elif k == "hidden":
        inv.write(d + "/" + r.choice([".x", ".git/HEAD", "..."]), "x")
    elif k == "odd":
        w = r.choice(["fifo", "dangling", "socket", "link"])
        if w == "fifo":
            os.mkfifo(d + "/p")
        elif w == "dangling":
            os.symlink("/nonexistent", d + "/l")
        elif w == "link":
            os.symlink("/etc/hostname", d + "/l")
        else:
            s = socket.socket(socket.AF_UNIX)
            s.bind(d + "/s")
            s.close()
    elif k == "obstructed":
        f = r.choice(files + [x for x in dirs if "/" not in x])
        if f in files:
            os.makedirs(f"{d}/{f}/x")
        else:
            inv.write(f"{d}/{f}", "not a directory")
    if k in ("unrelated", "conflict", "again"):
        for f in r.sample(UNRELATED, r.randint(1, 6)):
            if f not in ref:
                inv.write(f"{d}/{f}", r.choice(["", "precious\n", "x" * 5000, "print('hi')\n"]), )
                os.chmod(f"{d}/{f}", r.choice([0o644, 0o600, 0o755, 0o400]))
        if not os.listdir(d):
            inv.write(d + "/q", "")
    if k in ("conflict", "again"):
        for f in (files if k == "again" else r.sample(files, r.randint(1, min(3, len(files))))):
            conf.append(f)
            inv.write(f"{d}/{f}", r.choice(["", "mine = 1\n", "y" * 9000, "mine"]))
            os.chmod(f"{d}/{f}", r.choice([0o644, 0o600, 0o755]))
    return k, conf


def case(ctx, i, refs):
    r = ctx.rng
    out = fresh("i")
    inv.write(out + "/outside/file", "o")
    inv.write(out + "/deploy.py", "o = 1\n")
    d = out + r.choice(["/d", "/my deploy", "/ü.py"])
    os.mkdir(d)
    layout = r.choice(LAYOUTS)
    ref = refs[layout]
    arg = layout
    k, conf = prior(r, d, ref)
    who = None
    as_program = i % 13 == 0
    if as_program and r.random() < 0.5:
        who = 3001
        for p in [d] + [os.path.join(a, n) for a, b, c in os.walk(d) for n in b + c]:
            os.lchown(p, who, who)
        if r.random() < 0.6 and not os.path.lexists(d + "/deploy.py"):      # something has to be created in it
            k = "inaccessible"
            os.chmod(d, r.choice([0o555, 0o333, 0o500]))
    if r.random() < 0.08:
        arg = r.choice(["", "nosuch", "Minimal", "minimal ", "min", "flat,minimal", "all", "MODULAR", "../x", "staging-prod"])
        k = "bad-layout"
    nonempty = len(os.listdir(d)) > 0
    ans = r.choice([None] + YES[:3] * 3 + YES + NO) if nonempty else r.choice(["n", "", None, "y"])
    yes = ans in YES
    stdin = "" if ans is None else ans + r.choice(["\n", "\n", ""]) if ans else "\n"
    argv = r.choice([["--init", arg], ["--init=" + arg], ["--no-color", "--init", arg], ["--init", arg, "inventory.py", "deploy.py"], ["-v", "--dry", "--init", arg]])
    um = r.choice([0o022, 0o077, 0, 0o027])
    before, bd = snap(out), tree(d)
    old = os.umask(um)
    try:
        if as_program:
            ctx.count_("programs")
            pre = f"import os; os.setgroups([]); os.setresgid({who}, {who}, {who}); os.setresuid({who}, {who}, {who})" if who else ""
            env = {**os.environ, "PYTHONDONTWRITEBYTECODE": "1"}
            x = deploy.program(argv, cwd=d, stdin=stdin.encode(), env=env, prelude=pre)
        else:
            x = deploy.main(argv, cwd=d, stdin=stdin)
    finally:
        os.umask(old)
    after = snap(out)
    ctx.count_("inits")
    what = f"--init {arg!r} in a directory ({k}: {sorted(bd)[:6]}) answering {ans!r}"
    ctx.evaluated((layout, k, tuple(sorted(bd)), ans, arg), what)
    w = dict(argv=argv, answer=ans, prior=sorted(bd), conflicts=conf, result=x.brief(), out=x.text[-400:])
    changes = tree_diff(before, after)
    ctx.count_("asked", nonempty and k != "bad-layout")
    if k == "bad-layout":
        ctx.count_("refused")
        if x.code == 0 or changes:
            ctx.violation("bad-layout", f"{what}: {x.brief()}, changes {changes[:5]}", **w)
    elif k == "inaccessible":
        ctx.count_("refused")
        if x.code == 0:
            ctx.violation("inaccessible", f"{what} as an unprivileged user, mode {os.stat(d).st_mode:o}: exit status 0", **w)
        if nonempty and not yes and changes:
            ctx.violation("unasked", f"{what}: {changes[:5]}", **w)
    elif nonempty and not yes:
        ctx.count_("declined")
        if changes:
            ctx.violation("unasked", f"{what}: changed without consent: {changes[:5]}", **w)
        if x.code == 0:
            ctx.violation("declined-exit", f"{what}: exit status 0 although nothing was created", **w)
    elif k == "obstructed":
        ctx.count_("refused")
        if x.code == 0:
            ctx.violation("obstructed", f"{what}: exit status 0 although the layout cannot be created", **w)
    else:
        ctx.count_("created")
        if x.code != 0:
            ctx.violation("not-created", f"{what}: {x.brief()}", **w)
        ad = tree(d)
        for f, n in ref.items():
            if f not in ad:
                ctx.violation("incomplete", f"{what}: {f} was not created", **w)
            elif ad[f].type != n.type or ad[f].data != n.data:
                ctx.violation("wrong-content", f"{what}: {f} is {ad[f]!r}, expected {n!r}", **w)
            elif f not in bd and n.type == "file" and ad[f].mode != 0o666 & ~um:
                ctx.violation("mode", f"{what}: {f} has mode {ad[f].mode:o} with umask {um:o}", **w)
            elif f in conf:
                ctx.count_("conflicts_overwritten")
        if (extra := [f for f in ad if f not in ref and f not in bd]):
            ctx.violation("extra", f"{what}: also created {extra[:5]}", **w)
    # whatever happened: what has nothing to do with the layout stays as it is
    own = {d + "/" + f for f in ref}
    touched = []
    for p, n in before.items():
        if p not in own and p != d:
            ctx.count_("unrelated_kept", p.startswith(d))
            m = after.get(p)
            same = m is not None and (n.sem() == m.sem() if n.type == "dir" else n.strict() == m.strict())
            if not same:
                touched.append(f"{p}: {n!r} -> {m!r}")
    if touched:
        ctx.violation("unrelated", f"{what}: unrelated files were modified: {touched[:5]}", **w)
    if (new := [p for p in after if p not in before and not p.startswith(d + "/")]):
        ctx.violation("outside", f"{what}: created outside of the directory: {new[:5]}", **w)
    if k in ("unrelated", "conflict", "again", "hidden") and yes and x.code == 0 and r.random() < 0.1 and not as_program and "hosts/localhost.py~" not in bd:
        loads(ctx, layout, d, ref)
    wipe(out)


def run(ctx):
    probe.id_setup()
    scn_sys.pm_setup()
    for n, t in (("pacman", "exit 1"), ("systemctl", 'case "$*" in *ActiveState*) echo inactive;; *UnitFileState*) echo disabled;; *) exit 1;; esac')):
        with open(f"{scn_sys.PM}/bin/{n}", "w") as f:
            f.write("#!/bin/sh\n" + t + "\n")
        os.chmod(f"{scn_sys.PM}/bin/{n}", 0o755)
    sshbin.setup()
    os.environ["PATH"] = "/tmp/sshbin/bin:" + PATH
    os.environ.pop("NO_COLOR", None)
    # the deployed dotfiles go to a home directory of our own (this /etc is the sandbox's private copy)
    os.makedirs("/tmp/home/.config")
    with open("/etc/passwd") as f:
        t = f.read()
    with open("/etc/passwd", "w") as f:
        f.write("".join(":".join(l.split(":")[:5] + ["/tmp/home"] + l.split(":")[6:]) if l.startswith("root:") else l for l in t.splitlines(True)))
    refs = reference(ctx)
    for i in ctx.cases(1500, 20000):
        case(ctx, i, refs)


_ = sys, fora
