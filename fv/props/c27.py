"""C27: --inspect-inventory shows the inventory as it is."""
import os
import re

import fora

from .. import deploy, inv, probe, sshbin
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("generated inventories (group graphs, declarations, variables, modules) are inspected through the command line entry point at random terminal widths and color settings; the printed groups, hosts, values and origins are "
        "compared with a replay of the module programs in the logged order, and stand-ins tell whether any connection was opened; non-trivial: distinct inventories")
REQUIRED = {"quick": {"inspected": 1200, "rows": 8000, "origins": 5000, "multi_origin": 200, "group_lists": 1200, "rejected": 20, "colored": 200, "single_urls": 40}, "thorough": {"inspected": 12000}}
HASHSEEDS = True
SGR = re.compile("\x1b\\[[0-9;]*m")
PATH = "/tmp/sshbin/bin:/tmp/idshim/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
PLAIN = ("str", "int", "list", "dict", "bool", "NoneType", "bytes", "float", "tuple")


def run(ctx):
    probe.id_setup()
    sshbin.setup()
    os.environ["PATH"] = PATH
    for i in ctx.cases(1700, 17000):
        root = fresh("i")
        if ctx.rng.random() < 0.06:
            single(ctx, root)
        else:
            case(ctx, i, root)
        wipe(root)


URLS = [("local:box", "box"), ("local:", None), ("ssh://bob@h1:2222", "h1"), ("ssh://h-2.example.org", "h-2.example.org"), ("ssh://[::1]:22", "::1"), ("ssh://a@[fe80::1]", "fe80::1"), ("plain.host", "plain.host"), ("h9", "h9"),
        ("nosuch:x", False), ("sshx://h", False), (":x", False)]


def single(ctx, root):
    """The inventory is a single url."""
    r = ctx.rng
    url, name = r.choice(URLS)
    argv = r.choice([["--inspect-inventory", url], ["--inspect-inventory", url, "--no-color"], ["--inspect-inventory=" + url]])
    open("/tmp/idshim/started", "w").close()
    sshbin.take()
    os.environ.pop("NO_COLOR", None)
    x = deploy.main(argv, cwd=root, tty="--no-color" in argv and r.random() < 0.5)
    bad = lambda m, t: ctx.violation(m, f"{argv}: {t}", output=x.text[-2000:])  # noqa: E731
    ctx.count_("single_urls")
    if probe.started() or sshbin.take():
        bad("connection", "a connection was opened")
    if "\x1b" in x.text + x.err:
        bad("color", "escape sequences although color is disabled")
    ctx.evaluated(("single", url, tuple(argv)), f"inspect {url}")
    if name is None:
        return
    if name is False:
        if x.code == 0:
            bad("invalid", "an unusable url was not rejected")
        return
    if x.code != 0:
        bad("fails", x.brief())
        return
    full = url if ":" in url else "ssh://" + url
    if not re.search(r"^\s+- \(\d+\) all$", x.text, re.M):
        bad("groups", "the group all is not shown")
    hosts = re.findall(r"^\s+- (?!\(\d+\) )(\S+) \((\S+?),", x.text, re.M)
    if hosts != [(name, full)]:
        bad("hosts", f"the shown hosts are {hosts} instead of {[(name, full)]}")
    rows = {c[0].strip(): c for c in (l.split(" │ ", 3) for l in x.text.splitlines()) if len(c) == 4}
    for k, v in (("name", name), ("url", full), ("groups", ["all"])):
        if k not in rows or rows[k][3].strip() != repr(v) and repr(v) not in rows[k][3]:
            bad("value", f"{k} is shown as {rows.get(k)} instead of {v!r}")


def case(ctx, i, root):
    r = ctx.rng
    p = inv.Plan(r, maxg=r.choice([3, 6, 9]))
    free = r.random() < 0.15
    if free:
        p.fill_free()
    else:
        p.fill_ordered(total=True)
    path = p.render(root + "/d")
    how = r.choice(["flag", "flag-after", "env", "no-tty", "color", "color"])
    argv = ["--inspect-inventory", path]
    if how == "flag":
        argv = ["--no-color"] + argv
    elif how == "flag-after":
        argv += ["--no-color"]
    if r.random() < 0.2:
        argv = argv[:0] + ["-v"] + argv
    cols = r.choice(["80", "4000", "20", "200", "1", "137"])
    saved = {k: os.environ.get(k) for k in ("COLUMNS", "NO_COLOR")}
    os.environ["COLUMNS"] = cols
    os.environ.pop("NO_COLOR", None)
    if how == "env":
        os.environ["NO_COLOR"] = r.choice(["1", ""])
    cwd = r.choice([root + "/d", "/tmp", "/"])
    if cwd.endswith("/d") and r.random() < 0.5:
        argv = ["inv.py" if a == path else a for a in argv]
    open("/tmp/idshim/started", "w").close()
    sshbin.take()
    del inv.LOG[:]
    try:
        x = deploy.main(argv, cwd=cwd, tty=how != "no-tty")
    finally:
        for k, v in saved.items():
            os.environ.pop(k, None) if v is None else os.environ.update({k: v})
    log = list(inv.LOG)
    bad = lambda m, t: ctx.violation(m, f"{argv} ({how}, {cols} columns): {t}", plan=p.describe(), output=x.text[-3000:])  # noqa: E731
    if probe.started() or sshbin.take():
        bad("connection", "a connection was opened")
    if how == "color":
        ctx.count_("colored", "\x1b[" in x.text)
    elif "\x1b" in x.text + x.err:
        bad("color", f"escape sequences although color is disabled: {(x.text + x.err)[:200]!r}")
    text = SGR.sub("", x.text)
    if free:
        must, may, _ = p.verdict()
        if must:
            ctx.count_("rejected")
            if x.code == 0:
                bad("invalid", f"ambiguous definitions of {sorted(must)} were not rejected")
            if not x.err.strip():
                bad("invalid", "no error is shown")
        if must or may:
            ctx.evaluated()
            return
    ctx.evaluated((sorted(p.edges), [sorted(h.groups) for h in p.hosts], [g.src() for g in p.groups.values()], cols, how), f"{len(p.gnames)} groups, {len(p.hosts)} hosts, {cols} columns, {how}")
    if x.code != 0:
        bad("fails", x.brief())
        return
    ctx.count_("inspected")
    # groups
    gl = [m[1] for m in re.finditer(r"^\s+- \(\d+\) (.*)$", text, re.M)]
    prec = [int(m[1]) for m in re.finditer(r"^\s+- \((\d+)\) ", text, re.M)]
    used = set().union(*[p.member(h) for h in p.hosts])
    ctx.count_("group_lists")
    if not used <= set(gl):
        bad("groups", f"groups {sorted(used - set(gl))} are not shown")
        return
    if prec != sorted(prec) or len(set(prec)) != len(prec):
        bad("precedence", f"precedences {prec} are not ascending")
    for a in range(len(gl)):
        for b in range(a + 1, len(gl)):
            if (gl[b], gl[a]) in p.before:
                bad("precedence", f"group {gl[a]} is shown with lower precedence than {gl[b]}")
                return
    # hosts
    want = [l for l in re.findall(r"^\s+- (\S+) \((\S+), (.*)\)$", text, re.M) if not l[0].startswith("(")]
    byname = {h.name: h for h in p.hosts}
    if sorted(l[0] for l in want) != sorted(byname):
        bad("hosts", f"hosts shown {[l[0] for l in want]}, expected {sorted(byname)}")
        return
    for n, u, f in want:
        h = byname[n]
        exp = h.url if ":" in h.url else "ssh://" + h.url
        if u != exp:
            bad("hosts", f"host {n} is shown with url {u}, expected {exp}")
        if h.has_file:
            e = os.path.join(root, "d", p.hfile(h))
            if os.path.normpath(os.path.join(root, "d", f)) != e:
                bad("hosts", f"host {n} is shown with module {f}, expected {e}")
    secs = text.split("──────── host ")[1:]
    if [s.split()[0] for s in secs] != [l[0] for l in want]:
        bad("sections", f"sections for {[s.split()[0] for s in secs]}, hosts {[l[0] for l in want]}")
        return
    for s in secs:
        h = byname[s.split()[0]]
        for n, name in re.findall(r"\((\d+)\) (.*?)(?:, (?=\()|$)", "\n".join(c[2].strip() for c in (l.split(" │ ", 3) for l in s.splitlines()[1:]) if len(c) == 4), re.M):
            if name in gl and name != h.name and prec[gl.index(name)] != int(n):
                bad("precedence", f"group {name} is listed with precedence {prec[gl.index(name)]}, but {n} is shown for a variable of {h.name}")
        host(ctx, p, h, s, [e for e in log if e[2] == (h.name if "v_fvhost" in h.vars else None) and e[0] != "done"], bad)


def host(ctx, p, h, sec, runs, bad):
    env = p.base_env(h)
    acts = {}
    vague = {v for v in h.vars if v in p.inv}       # two origins outside of any group
    for e in runs:
        kind, name = e[:2]
        stmts = p.groups[name].stmts if kind == "group" else h.stmts
        before = {k: inv.enc(v) for k, v in env.items()}
        p.apply(env, stmts)
        after = {k: inv.enc(v) for k, v in env.items()}
        defs = {v for o, v, _ in stmts if o == "def"}
        for v in set(before) | set(after):
            if v in defs:
                acts.setdefault(v, []).append((name, "def"))
            elif before.get(v) != after.get(v):
                acts.setdefault(v, []).append((name, "mod"))
            elif any(o == "mod" and x == v for o, x, _ in stmts):
                vague.add(v)
    rows = {}
    for l in sec.splitlines()[1:]:
        c = l.split(" │ ", 3)
        if len(c) == 4 and c[0].strip():
            rows.setdefault(c[0].strip(), []).append(c)
    for k, v in env.items():
        ctx.count_("rows")
        if k not in rows:
            bad("missing", f"variable {k} of {h.name} is not shown")
            continue
        if len(rows[k]) != 1:
            bad("duplicate", f"variable {k} of {h.name} is shown {len(rows[k])} times")
        _, typ, origin, val = [x.strip() for x in rows[k][0]]
        if typ != type(v).__name__:
            bad("type", f"{k} of {h.name} is a {type(v).__name__} but shown as {typ}")
        e = inv.enc(v)
        if e[0] in PLAIN and " at 0x" not in repr(v) and "{'e" not in repr(v) and val != repr(v).strip():
            bad("value", f"{k} of {h.name} is {v!r} but shown as {val!r}")
        if k in vague or e[0] in ("file",) or e == "generator":
            continue
        got = re.findall(r"\(\d+\) (.*?)(?:, (?=\()|$)", origin)
        a = acts.get(k, [])
        last = max([n for n, (_, kd) in enumerate(a) if kd == "def"], default=None)
        exp = [n for n, _ in (a if last is None else a[last:])]
        if last is None and got and got[0] in ("early-explicits", "all") and (not exp or got[0] != exp[0]):
            got = got[1:]
        ctx.count_("origins")
        ctx.count_("multi_origin", len(exp) > 1)
        if got != exp:
            bad("origin", f"{k} of {h.name} was defined or modified by {exp}, but {origin!r} is shown (history {a})")
    for k in rows:
        if k.startswith("v_") and k not in env:
            bad("extra", f"{h.name} has no variable {k}, but it is shown")
        if k.startswith("_"):
            bad("private", f"private name {k} is shown for {h.name}")


_ = fora
