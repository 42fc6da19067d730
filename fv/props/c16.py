"""C16: a deploy runs on exactly the selected hosts, once, in order."""
import os
import sys
import types

import fora

from .. import deploy, fakeconn, inv, probe
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("generated deploys (1-5 hosts, selections with duplicates, permutations and unknown hosts, failures of several kinds injected on a host, options) are run through the command line entry point with recording "
        "connectors; the monitor checks the event log (open, script, close per host) against the selection and the exit status; a part runs as a program with the real local connector; non-trivial: distinct (selection, failure, hosts)")
REQUIRED = {"quick": {"runs": 2500, "host_runs": 3000, "failures": 900, "unknown_hosts": 150, "programs": 60}, "thorough": {"runs": 20000}}
FAILS = ["raise", "raise", "op", "command", "nameerror", "sub", "subsub", "assert", "exit3", "interrupt", "open", "open", "op-nested", "exit-str", "fatal"]
NOFAIL = ["op-unchecked", "command-unchecked", "caught", "caught-sub"]
EVENTS = []
HASHSEEDS = True
PATH = "/tmp/idshim/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


def setup():
    m = types.ModuleType("fvd")

    def script(tag=""):
        import fora as f
        h = f.host
        EVENTS.append(("script" + tag, None if h is None else h.name, h.connection.connector.serial, h.connection.connector.host.name, f.args.dry, os.getcwd(), h.fv_own))
        fakeconn.LOG.append(("script" + tag, h.name, h.connection.connector.serial))
        h.connection.run(["true"])
    m.script = script
    sys.modules["fvd"] = m
    fakeconn.register()
    probe.id_setup()


def source(kind, hosts):
    """A deploy script that misbehaves on the given hosts."""
    body = {
        "raise": "raise RuntimeError('injected')", "op": "files.upload(src='/nonexistent/fv', dest='/tmp/x')", "command": "fora.host.connection.run(['false'])", "nameerror": "undefined_thing",
        "sub": "local.script('sub/bad.py')", "subsub": "local.script('sub/outer.py')", "assert": "assert False", "exit3": "import sys as _s; _s.exit(3)", "interrupt": "raise KeyboardInterrupt()",
        "op-nested": "local.script('sub/badop.py')", "exit-str": "raise SystemExit('text')", "fatal": "from fora.utils import FatalError as _F; raise _F('injected')", "open": "pass",
        "op-unchecked": "assert not git.repo(url='u', path='/tmp/idshim', check=False).success", "command-unchecked": "fora.host.connection.run(['false'], check=False)",
        "caught": "try:\n        files.upload(src='/nonexistent/fv', dest='/tmp/x')\n    except Exception:\n        pass",
        "caught-sub": "try:\n        local.script('sub/bad.py')\n    except Exception:\n        pass", "none": "pass"}[kind]
    return ("import fvd as _d\nimport fora\nfrom fora import host as _h\nfrom fora.operations import files, git, local\n_d.script()\nassert _h is fora.host and _h.name == fora.host.name\n"
            f"if fora.host.name in {hosts!r}:\n    {body}\n_d.script('-end')\n")


def case(ctx, i, root):
    r = ctx.rng
    names = r.sample(["a", "b", "web.example", "h-1", "Ü", "with space", "z9", "db", "127.0.0.1", "x=y"], r.randint(1, 5))
    style = r.choice(["url", "module", "name"])
    decl = []
    for n in names:
        v = f"vars=dict(fv_own={n!r})"
        decl.append(f"dict(url='rec:'+{n!r}, {v})" if style == "url" else f"dict(name={n!r}, url='rec:x', {v})" if style == "name" else f"dict(name={n!r}, {v})")
        if style == "module":
            inv.write(f"{root}/hosts/{n}.py", "import fv.fakeconn as _f\nconnector = _f.Rec\n")
    inv.write(root + "/inv.py", f"hosts = [{', '.join(decl)}]\n")
    inv.write(root + "/sub/bad.py", "raise RuntimeError('injected')\n")
    inv.write(root + "/sub/outer.py", "from fora.operations import local\nlocal.script('bad.py')\n")
    inv.write(root + "/sub/badop.py", "from fora.operations import files\nfiles.upload(src='/nonexistent/fv', dest='/tmp/x')\n")
    # selection
    sel, unknown = None, False
    want = list(names)
    if r.random() < 0.65:
        sel = [r.choice(names) for _ in range(r.randint(1, len(names) + 2))]
        if r.random() < 0.25:
            sel.insert(r.randrange(len(sel) + 1), r.choice(["nosuch", "", "all", names[0] + "x", names[0][:-1] or "q", "rec:" + names[0], names[0].swapcase() + "_", names[0].swapcase(), names[-1].title(), "*", " " + names[0]]))
        elif r.random() < 0.03:
            sel = [""]                   # selects nothing that exists, and in particular not everything
        want = []
        for n in sel:
            if n not in want:
                want.append(n)
        unknown = any(n not in names for n in want)
    kind = r.choice(FAILS + NOFAIL + ["none"] * 8)
    bad = r.sample(names, r.randint(1, min(2, len(names)))) if kind != "none" else []
    special = r.choice(["missing", "syntax", "dir"]) if r.random() < 0.08 else None
    script = root + "/deploy.py"
    inv.write(script, source(kind, bad) if special != "syntax" else "def (:\n")
    if special == "missing":
        script = root + "/nosuch.py"
    elif special == "dir":
        script = root + "/sub"
    fakeconn.FAIL_OPEN.clear()
    if kind == "open":
        fakeconn.FAIL_OPEN.update(bad)
    dry = r.random() < 0.3
    argv = []
    if sel is not None:
        argv += [r.choice(["-H", "--hosts"]), ",".join(sel)] if not sel[0].startswith("-") else ["--hosts=" + ",".join(sel)]
    if dry:
        argv.append(r.choice(["--dry", "--dry-run", "--pretend"]))
    argv += r.choice([[], [], ["-v"], ["--debug"], ["--no-color"], ["--diff", "--no-changes"]])
    rel = r.random() < 0.4
    argv += ["inv.py", os.path.relpath(script, root)] if rel else [root + "/inv.py", script]
    if r.random() < 0.3:
        argv = argv[-2:] + argv[:-2]
    del EVENTS[:], fakeconn.LOG[:]
    cwd = root if rel else "/tmp"
    x = deploy.main(argv, cwd=cwd)
    log = [e for e in fakeconn.LOG if e[0] != "run"]
    ctx.count_("runs")
    ctx.evaluated((tuple(names), tuple(sel or ()), kind, tuple(bad), special, style), f"{len(names)} hosts, selected {sel}, {special or kind} on {bad}")
    # expectation
    exp, fail = [], False
    if unknown:
        fail = True
        ctx.count_("unknown_hosts")
    else:
        for n in want:
            exp.append(("open", n))
            if kind == "open" and n in bad:
                fail = True
                break
            if special:
                fail = True
                exp.append(("close", n))
                break
            exp.append(("script", n))
            ctx.count_("host_runs")
            if n in bad and kind in FAILS:
                fail = True
                exp.append(("close", n))
                break
            exp += [("script-end", n), ("close", n)]
    ctx.count_("failures", fail)
    w = dict(argv=argv, hosts=names, failure=(kind, bad, special), log=log, result=x.brief())
    got = [e[:2] for e in log if not (e[0] == "close" and kind == "open" and e[1] in bad)]   # closing what failed to open is fine
    if special and not unknown and not log:
        exp = []                                                                             # checking the script before connecting is fine, too
    if got != exp:
        ctx.violation("events", f"argv {argv}: events {got}, expected {exp}", **w)
    if (x.code != 0) != fail:
        ctx.violation("exit-status", f"argv {argv}: {x.brief()}, expected {'failure' if fail else 'success'}", **w)
    if fail and not isinstance(x.exc, KeyboardInterrupt) and not (x.err.strip() or str(x.exc or "").strip() or isinstance(x.exc, (AssertionError, SystemExit))):
        ctx.violation("silent-failure", f"argv {argv}: failed without any message", **w)
    serial = {}
    for e in log:
        if e[0] == "open":
            if e[2] in serial.values():
                ctx.violation("connection-reused", f"host {e[1]} was given the connection of another host", **w)
            serial[e[1]] = e[2]
        elif serial.get(e[1]) != e[2]:
            ctx.violation("wrong-connection", f"{e[0]} of host {e[1]} used another host's connection", **w)
    for e in EVENTS:
        if e[1] != e[3] or e[6] != e[1]:
            ctx.violation("wrong-host", f"script executed with host {e[1]} (variables of {e[6]}) on the connection of {e[3]}", **w)
        if e[4] != dry:
            ctx.violation("dry-flag", f"--dry is {dry} but the script saw {e[4]}", **w)
        if e[5] != os.path.realpath(root):
            ctx.violation("script-directory", f"script executed in {e[5]}, expected {root}", **w)


def program(ctx, i, root):
    """The same with the installed entry point as a program and real local connections."""
    r = ctx.rng
    names = r.sample(["a", "b", "web.example", "h-1", "z9"], r.randint(1, 3))
    inv.write(root + "/inv.py", f"hosts = {['local:' + n for n in names]!r}\n")
    kind = r.choice(["none", "none", "raise", "command", "op", "exit3", "open", "unknown", "interrupt"])
    bad = r.choice(names)
    body = {"raise": "raise RuntimeError('injected')", "command": "host.connection.run(['false'])", "op": "files.upload(src='/nonexistent/fv', dest='/tmp/x')", "exit3": "import sys; sys.exit(3)",
            "interrupt": "raise KeyboardInterrupt()"}.get(kind, "pass")
    inv.write(root + "/deploy.py", "from fora import host\nfrom fora.operations import files\nname = 'k'\n"
              f"who = host.connection.run(['sh', '-c', 'echo $PPID']).stdout.decode().strip()\nwith open({root + '/log'!r}, 'a') as f:\n    f.write(host.name + '\\t' + who + '\\n')\nif host.name == {bad!r}:\n    {body}\n")
    argv = [root + "/inv.py", root + "/deploy.py"]
    sel = list(names)
    if kind == "unknown":
        sel.insert(r.randrange(len(sel) + 1), "nosuch")
    if kind == "unknown" or r.random() < 0.5:
        r.shuffle(sel)
        argv = ["-H", ",".join(sel + sel[:1])] + argv
    if kind == "open":
        inv.write(f"{root}/hosts/{bad}.py", "url = 'nosuchschema:x'\n")
    open("/tmp/idshim/started", "w").close()
    x = deploy.program(argv, env={**os.environ, "PATH": PATH})
    pids = probe.started()
    ran = []
    if os.path.exists(root + "/log"):
        with open(root + "/log") as f:
            ran = [l.rstrip("\n").split("\t") for l in f]
    ctx.count_("programs")
    ctx.evaluated(("program", kind, tuple(names), tuple(sel)), f"program: {len(names)} hosts, {kind} on {bad}")
    want, fail = [], kind == "unknown"
    if not fail:
        for n in sel:
            if kind == "open" and n == bad:
                fail = True
                break
            want.append(n)
            if n == bad and kind != "none":
                fail = True
                break
    w = dict(argv=argv, out=x.text[-500:], err=x.err[-500:])
    if [n for n, _ in ran] != want:
        ctx.violation("program-events", f"{kind} on {bad}, argv {argv}: script executed for {[n for n, _ in ran]}, expected {want}; {x.brief()}", **w)
    if (x.code != 0) != fail:
        ctx.violation("program-exit-status", f"{kind} on {bad}, argv {argv}: {x.brief()}", **w)
    if len(pids) != len(want):
        ctx.violation("program-connections", f"{kind} on {bad}, argv {argv}: {len(pids)} remote sides were started for {len(want)} hosts", **w)
    if [p for _, p in ran] != [str(p) for p in pids][:len(ran)]:
        ctx.violation("program-own-connection", f"argv {argv}: the hosts did not use their own connections: {ran} vs {pids}", **w)


def run(ctx):
    setup()
    for i in ctx.cases(3200, 30000):
        root = fresh("i")
        if i % 33 == 32:
            program(ctx, i, root)
        else:
            case(ctx, i, root)
        wipe(root)


_ = fora
