"""C17: nested scripts are isolated and well-scoped."""
import os

from .. import deploy, fakeconn, inv, prog
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("generated trees of scripts (calls by absolute, relative and linked paths, parameters, variables, defaults blocks, working directory changes, exceptions of several kinds, recursion) are run through the command line "
        "entry point; every script reports what it observes and the events are compared with a model of the call tree; non-trivial: distinct event sequences with at least one nested script")
REQUIRED = {"quick": {"runs": 1800, "observations": 12000, "nested": 4000, "rejected_recursion": 900, "recursive": 500, "exceptions": 1500, "parameters": 900, "missing_parameter": 50}, "thorough": {"runs": 30000}}
USERS = ["alice", "bob", "carol", "root", "3001", "0"]
NAME = {"3001": "alice", "0": "root"}


def resolve(s):
    r = {}
    for k, v in s.items():
        r[k] = NAME.get(v, v) if k in ("as_user", "as_group", "owner", "group") else int(v, 8) if k != "cwd" else v
    return r


def run(ctx):
    prog.setup()
    fakeconn.register()
    for i in ctx.cases(3600, 60000):
        r = ctx.rng
        root = fresh("s")
        prog.STATE["kind"] = "rec"

        def settings():
            d = {}
            for k in r.sample(prog.KEYS, r.randint(0, 3)):
                d[k] = r.choice(["alice", "bob", "root", "3001", "0"]) if k in ("as_user", "owner") else r.choice(["alice", "bob", "root", "staff2", "3001"]) if k in ("as_group", "group") else \
                    r.choice(["/", "/tmp", root]) if k == "cwd" else r.choice(["0", "7", "644", "0755", "22", "077"])
            return d
        p = prog.Program(r, root, settings, None)
        own = p.render()
        # the first script is started by the command line
        prog.STATE["budget"] = budget = 40 if p.deep else r.randint(3, 14)
        inv.write(root + "/inv.py", f"hosts = [dict(url='rec:h', **{own!r})]\n")
        os.makedirs(root + "/cwd")
        base = dict(as_user="root", as_group="root", owner="root", group="root", file_mode=0o600, dir_mode=0o700, umask=0o77, cwd="/tmp")
        del prog.EVENTS[:], fakeconn.LOG[:]
        top = r.choice(p.scripts[0].names)
        p.called = top
        x = deploy.main([root + "/inv.py", top if r.random() < 0.5 else os.path.relpath(top, root + "/cwd")], cwd=root + "/cwd")
        got = list(prog.EVENTS)
        want, exc = p.predict(base, "rec:h", root + "/cwd", resolve, budget)
        ctx.count_("runs")
        ctx.count_("observations", sum(e[0] == "log" for e in got))
        ctx.count_("nested", sum(e[0] == "start" for e in got) - 1)
        ctx.count_("parameters", sum(e[0] == "params" for e in got))
        ctx.count_("exceptions", sum(e[0] == "caught" for e in got) + (exc is not None))
        count(ctx, p)
        w = dict(scripts=[(s.file, open(s.file).read()[:1500]) for s in p.scripts], result=x.brief(), events=got[-6:])
        ctx.evaluated(tuple(e[:2] for e in want) if len(want) > 3 else None, f"{len(p.scripts)} scripts, {len(want)} events")
        for a, b in zip(got, want):
            d = prog.differs(a, b)
            if d:
                ctx.violation("observed", f"at event {b[:2]}: {d}; {x.brief()}", **w)
                break
        else:
            if len(got) != len(want):
                ctx.violation("events", f"{len(got)} events instead of {len(want)}: next {(got[len(want):] or want[len(got):])[0][:2]}; {'extra' if len(got) > len(want) else 'missing'}; {x.brief()}", **w)
            elif (x.code != 0) != (exc is not None):
                ctx.violation("outcome", f"expected {exc or 'success'}, got {x.brief()}", **w)
            elif x.cwd != root + "/cwd":
                ctx.violation("cwd-afterwards", f"working directory afterwards is {x.cwd}", **w)
        wipe(root)


def count(ctx, p):
    for k, v in p.stats.items():
        ctx.count_(k, v)
