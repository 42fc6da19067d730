"""C14: invalid inventories are rejected before anything runs."""
import os
import random

from .. import deploy, inv, probe
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("valid generated inventories and the same inventories with one defect planted (duplicates, undeclared groups, cycles and self dependencies through any mix of before and after, malformed declarations, "
        "missing module files, failing modules) are passed to the command line entry point; the monitor counts started remote sides and executed scripts and checks the exit status and error output; "
        "non-trivial: distinct (defect, inventory)")
REQUIRED = {"quick": {"invalid": 1500, "valid": 700, "valid_runs": 100, "programs": 60, "scripts_run": 150, "remote_started": 100}, "thorough": {"invalid": 15000}}
HASHSEEDS = True
SCRIPT = "import os as _o\nwith open('/tmp/fvlog', 'a') as _f:\n    _f.write('script\\n')\n"
PATH = "/tmp/idshim/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


def run(ctx):
    probe.id_setup()
    os.environ["PATH"] = PATH
    for i in ctx.cases(4000, 40000):
        root = fresh("i")
        case(ctx, i, root)
        wipe(root)


def events():
    """(remote sides started, scripts run) since the last call."""
    n = len(probe.started())
    open("/tmp/idshim/started", "w").close()
    s = 0
    if os.path.exists("/tmp/fvlog"):
        with open("/tmp/fvlog") as f:
            s = len(f.readlines())
        os.unlink("/tmp/fvlog")
    return n, s


def splice(path, what, value):
    """Appends to one of the lists of the inventory file."""
    with open(path) as f:
        t = f.read()
    if what + " = [" not in t:
        t += f"{what} = []\n"
    return t + f"{what} = {what} + [{value}]\n"


def put(path, t):
    with open(path, "w") as f:
        f.write(t)


def plant(r, p, path):
    """Plants one defect in the rendered inventory; returns its name or None if not applicable."""
    root = os.path.dirname(path)
    with open(path) as f:
        has_groups = "\ngroups = [" in f.read()
    names = list(p.gnames)
    used = [g for g in names if any(g in h.groups for h in p.hosts)]
    h = r.choice(p.hosts)
    kind = r.choice(["dup-host", "dup-host", "dup-group", "unknown-group", "unknown-after", "unknown-before", "cycle", "cycle", "cycle", "cycle", "self", "self", "bad-host", "bad-host", "bad-group", "bad-group",
                     "hosts-type", "no-hosts", "missing-host-file", "missing-group-file", "nameless", "schema", "module-error", "inventory-error", "inventory-missing"])
    if not has_groups and kind in ("dup-group", "unknown-after", "unknown-before", "cycle", "self", "bad-group", "missing-group-file"):
        return None
    q = lambda n: repr(n)  # noqa: E731
    decl = lambda kw: r.choice(["dict", "GroupDeclaration"]) + "(" + kw + ")"  # noqa: E731
    if kind == "dup-host":
        v = r.choice([q("local:" + h.name), f"dict(name={q(h.name)}, url='local:other')", f"HostDeclaration(name={q(h.name)})", q(f"ssh://u@{h.name}:2222"), q(h.name), f"dict(url={q(h.url)})"])
        put(path, splice(path, "hosts", v))
    elif kind == "dup-group":
        n = r.choice(names + ["all"]) if p.explicit_all else (r.choice(names) if names else None)
        if n is None:
            return None
        put(path, splice(path, "groups", r.choice([q(n), decl(f"name={q(n)}"), decl(f"name={q(n)}, after=[]")])))
    elif kind == "unknown-group":
        put(path, splice(path, "hosts", f"dict(url='local:newhost', groups={r.sample(used, min(1, len(used))) + ['nosuchgroup']!r})"))
        if not has_groups:
            return None
    elif kind in ("unknown-after", "unknown-before"):
        put(path, splice(path, "groups", decl(f"name='newgroup', {kind[8:]}={r.sample(names, min(1, len(names))) + ['nosuchgroup']!r}")))
    elif kind == "cycle":
        # a path through new groups from one group back to an earlier (or the same) one
        k = r.randint(1, 4)
        new = [f"cy{x}" for x in range(k)]
        pairs = [(a, b) for a, b in p.before if a != "all"]
        style = r.choice(["new", "old", "all", "apart"])
        if style == "apart":
            new = [f"cy{x}" for x in range(k + 1)]
            edges = list(zip(new, new[1:])) + [(new[-1], new[0])]
        elif style == "all":
            edges = [(new[0], "all")] if r.random() < 0.5 or not names else list(zip(new, new[1:])) + [(new[-1], "all")]
            new = new[:1] if len(edges) == 1 else new
        elif style == "old" and pairs:
            a, b = r.choice(pairs)
            edges = [(b, new[0])] + list(zip(new, new[1:])) + [(new[-1], a)]
        elif names:
            a = r.choice(names)
            edges = [(a, new[0])] + list(zip(new, new[1:])) + [(new[-1], a)]
        else:
            return None
        d = {n: {"after": [], "before": []} for n in new}
        for a, b in edges:
            can = [x for x in ("after", "before") if (b if x == "after" else a) in d]
            x = r.choice(can)
            d[b if x == "after" else a][x].append(a if x == "after" else b)
        r.shuffle(new)
        for n in new:
            put(path, splice(path, "groups", decl(f"name={n!r}, after={d[n]['after']!r}, before={d[n]['before']!r}")))
        kind += "-" + style
    elif kind == "self":
        n = r.choice(["selfdep", "selfdep", "all"])
        if n == "all" and p.explicit_all:
            return None
        put(path, splice(path, "groups", decl(f"name={n!r}, {r.choice(['after', 'before'])}={r.sample(names, min(len(names), 1)) if n != 'all' else []} + [{n!r}]")))
    elif kind == "bad-host":
        put(path, splice(path, "hosts", r.choice(["5", "None", "['local:a']", "('local:a',)", "dict(url='local:q', nosuchkey=1)", "3.5", "GroupDeclaration(name='x')", "{'local:s'}", "object()", "b'local:x'", "dict()"])))
    elif kind == "bad-group":
        put(path, splice(path, "groups", r.choice(["5", "None", "['x']", "('x',)", "dict(name='q', nosuchkey=1)", "dict(after=[])", "3.5", "HostDeclaration(name='x')", "{'s'}", "b'x'"])))
    elif kind == "hosts-type":
        with open(path) as f:
            t = f.read()
        put(path, t + "hosts = " + r.choice(["tuple(hosts)", "None", "'local:a'", "{'a': 1}", "set(['local:a'])", "5", "(x for x in hosts)", "dict(a='local:a')"]) + "\n")
    elif kind == "no-hosts":
        with open(path) as f:
            t = f.read()
        put(path, t + "del hosts\n")
    elif kind == "missing-host-file":
        more = r.choice(["", "", ", vars=dict(v_x=1)", f", groups={r.sample(used, min(2, len(used)))!r}", ", name='newname'", ", name='n2', vars={'v_y': []}"])
        f = r.choice(['hosts/nothere.py', 'nothere.py', '/nonexistent/x.py', 'hosts/', 'hosts/newhost.pyc'])
        put(path, splice(path, "hosts", r.choice(["dict", "HostDeclaration"]) + f"(url='local:newhost', file={f!r}{more})"))
        if r.random() < 0.3:
            inv.write(root + "/hosts/newhost.py", "v_default_file = 1\n")
    elif kind == "missing-group-file":
        more = r.choice(["", "", f", after={r.sample(names, min(1, len(names)))!r}", f", before={r.sample(names, min(1, len(names)))!r}"])
        put(path, splice(path, "groups", decl(f"name='newgroup', file='groups/nothere.py'{more}")))
        if r.random() < 0.3:
            inv.write(root + "/groups/newgroup.py", "v_default_file = 1\n")
        put(path, splice(path, "hosts", "dict(url='local:newhost', groups=['newgroup'])"))
    elif kind == "nameless":
        put(path, splice(path, "hosts", r.choice(["dict(groups=[])", "HostDeclaration()", "HostDeclaration(groups=['all'])", "dict(url=None)"])))
    elif kind == "schema":
        put(path, splice(path, "hosts", r.choice(["'foo:bar'", "dict(url='telnet://x')", "HostDeclaration(url=':x')", "'SSH://x'"])))
    elif kind == "module-error":
        put(path, splice(path, "hosts", "dict(url='local:newhost', file='extra/raises.py')"))
        inv.write(root + "/extra/raises.py", r.choice(["1/0\n", "raise RuntimeError('x')\n", "import nosuchmodule_fv\n", "def (:\n", "undefined_name\n"]))
    elif kind == "inventory-error":
        with open(path) as f:
            t = f.read()
        put(path, t + r.choice(["1/0\n", "def (:\n", "import nosuchmodule_fv\n"]))
    elif kind == "inventory-missing":
        os.unlink(path)
    return kind


def case(ctx, i, root):
    r = ctx.rng
    p = inv.Plan(r, maxg=r.choice([0, 2, 5, 9]), maxh=3)
    p.fill_ordered()
    for h in p.hosts:
        if r.random() < 0.7 and h.style != "str":
            h.url = "local:" + h.name
    bad = r.random() < 0.68
    path = p.render(root + "/d", rng=random.Random(f"{ctx.seed}/{i}"))
    inv.write(root + "/deploy.py", SCRIPT)
    kind = None
    if bad:
        kind = plant(r, p, path)
        if kind is None:
            return
    events()
    w = dict(plan=p.describe())
    if os.path.exists(path):
        with open(path) as f:
            w["inventory"] = f.read()
    if kind is None:
        local = all(h.url.startswith("local:") for h in p.hosts)
        full = local and r.random() < 0.25
        ctx.evaluated(("valid", repr(w)), f"valid inventory, {len(p.gnames)} groups, {len(p.hosts)} hosts")
        if full:
            x = deploy.main(["--no-color", path, root + "/deploy.py"])
            n, s = events()
            ctx.count_("valid_runs")
            ctx.count_("scripts_run", s)
            ctx.count_("remote_started", n)
            if x.code != 0 or s != len(p.hosts):
                ctx.violation("valid-rejected", f"valid inventory: {x.brief()}; script executed {s} times for {len(p.hosts)} hosts", **w)
        else:
            x = deploy.main(["--inspect-inventory", path])
            ctx.count_("valid")
            if x.code != 0:
                ctx.violation("valid-rejected", f"valid inventory rejected: {x.brief()}", **w)
        return
    ctx.evaluated((kind, repr(w)), f"defect {kind}")
    ctx.count_("invalid")
    ctx.count_("defect_" + kind)
    argv = (["--dry"] if r.random() < 0.2 else []) + (["--debug"] if r.random() < 0.1 else []) + [path, root + "/deploy.py"]
    if r.random() < 0.06:
        ctx.count_("programs")
        x = deploy.program(argv)
    else:
        x = deploy.main(argv)
    n, s = events()
    if x.code == 0:
        ctx.violation("invalid-accepted", f"defect {kind}: exit status 0", **w)
    if n or s:
        ctx.violation("ran-with-invalid-inventory", f"defect {kind}: {n} connections were opened and {s} scripts run ({x.brief()})", **w)
    if x.code != 0 and not (x.err.strip() or x.exc is not None and str(x.exc)):
        ctx.violation("no-error-message", f"defect {kind}: rejected without any error message", **w)
