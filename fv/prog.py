"""
Generated trees of scripts (nested scripts, defaults blocks, exceptions, variables, parameters) and a model of their meaning.

The scripts are real files run by the program under test; they report events through the module `fvs`. The model interprets the
same statements and predicts the events.
"""
import os
import sys
import types

import fora

from . import fakeconn, inv

VARS = ["va", "vb", "vc", "vd", "url", "flag"]
SPECIAL = ["defaults", "current_defaults", "Params", "json_mod", "_private", "module"]
VALUES = [0, 1, "", "text", None, False, True, [], ["x"], {"k": 1}, "ü", (1, 2), 3.5]
KINDS = ["RuntimeError('x')", "ValueError('x')", "KeyboardInterrupt()", "SystemExit(3)", "_s.Own()", "StopIteration()", "GeneratorExit()"]
EVENTS = []
STATE = {"budget": 0, "kinds": ()}
MISSING = "<missing>"
ANY = object()            # the command line may call its script what it likes


class Own(BaseException):
    pass


def ser(v):
    return repr(v)


def log(i, g):
    """What a script can observe right now."""
    h = fora.host
    hier = h.vars_hierarchical()
    bad = sorted(k for k, v in hier.items() if k.startswith("_") or isinstance(v, types.ModuleType))
    look, via = {}, {}
    for n in VARS + SPECIAL:
        try:
            look[n] = ser(getattr(h, n))
        except AttributeError:
            look[n] = MISSING
        via[n] = ser(hier[n]) if n in hier else MISSING
    own = {n: ser(g[n]) if n in g else MISSING for n in VARS}
    with fora.script.defaults() as d:
        sett = settings_of(d)
    cur = settings_of(fora.script.current_defaults())
    n0 = len(fakeconn.LOG)
    ran = None
    if STATE["kind"] == "rec":
        h.connection.run(["probe"])
        e = fakeconn.LOG[-1] if len(fakeconn.LOG) > n0 else None
        ran = e[3:] if e else None
    EVENTS.append(("log", i, dict(cwd=os.getcwd(), script=fora.script.name, module_name=g.get("name"), same=fora.script.module is not None and fora.script.module.__dict__ is g, look=look, hier=via, bad=bad, own=own,
                                  defaults=sett, current=cur, ran=ran)))


KEYS = ("as_user", "as_group", "owner", "group", "file_mode", "dir_mode", "umask", "cwd")


def settings_of(d):
    r = {k: getattr(d, k) for k in KEYS}
    for k in ("file_mode", "dir_mode", "umask"):
        r[k] = None if r[k] is None else int(r[k], 8)
    return r


def event(*a):
    EVENTS.append(a)


def allow():
    STATE["budget"] -= 1
    return STATE["budget"] >= 0


def common(i, d):
    """The same dictionary object for all calls of one program."""
    return STATE["common"].setdefault(i, d)


def path(p, style):
    if style == "abs":
        return p
    rel = os.path.relpath(p, os.getcwd())
    return {"rel": rel, "dot": "./" + rel, "up": os.path.join("..", os.path.basename(os.getcwd()), rel)}[style]


def setup():
    m = types.ModuleType("fvs")
    m.log, m.event, m.allow, m.path, m.Own, m.common = log, event, allow, path, Own, common
    m.EXTRA = {}
    sys.modules["fvs"] = m
    return m


class Call(Exception):
    """Model of an exception."""
    def __init__(self, kind):
        super().__init__(kind)
        self.kind = kind


class Script:
    def __init__(self, idx, file):
        self.idx, self.file = idx, file
        self.names = [file]       # all paths under which it can be called
        self.params = []          # (name, default expr or None)
        self.style = "implicit"
        self.body = []
        self.broken = False


class Program:
    def __init__(self, rng, root, settings, probes, n=None, bad_settings=()):
        """settings: () -> dict of valid defaults; probes: () -> statement that observes."""
        self.rng, self.root, self.settings, self.probes, self.bad = rng, root, settings, probes, bad_settings
        self.ids = 0
        STATE["common"] = {}
        self.hostvars = {v: rng.choice(VALUES) for v in VARS if rng.random() < 0.4 and v != "url"}
        self.dirs = [root, root + "/sub", root + "/sub/deep", root + "/other dir"]
        self.scripts = []
        self.deep = deep = n is None and rng.random() < 0.06
        for k in range(rng.randint(9, 16) if deep else n or rng.randint(2, 6)):
            s = Script(k, f"{rng.choice(self.dirs)}/{rng.choice(['s', 'tasks.', 'x-', 'dé '])}{k}.py")
            self.scripts.append(s)
        for s in self.scripts:
            if rng.random() < 0.4:
                for j in range(rng.randint(1, 3)):
                    s.params.append((f"p{j}", rng.choice([None, None, "'dflt'", "0", "[]", "None", "{'a': 1}"])))
            s.style = rng.choice(["implicit", "script"])
            s.broken = s.idx > 0 and rng.random() < 0.04
            if rng.random() < 0.25:
                s.names.append(f"{root}/ln{s.idx}.py")
            if rng.random() < 0.15 and s.file.startswith(root + "/sub/"):
                s.names.append(s.file.replace(root + "/sub/", root + "/lnsub/", 1))
        self.scripts[0].params = []
        plain = [v for v in VALUES if not isinstance(v, (list, dict, set))]
        # parameter dictionaries (always the same object) that are used for several calls
        self.common = [{n: rng.choice(plain) for n in ns} for ns in ((), ("p0",), ("p0", "p1"), ("p1", "p2"))]
        for s in self.scripts:
            s.body = self.descent(s) if deep else self.block(s, 0)

    def descent(self, s):
        """A long chain of nested scripts; the last one tries to call one of the others."""
        r = self.rng
        last = s is self.scripts[-1]
        t = self.scripts[0 if last and r.random() < 0.5 else r.randrange(len(self.scripts)) if last else s.idx + 1]
        params = {n: r.choice(VALUES) for n, _ in t.params} if t.params else None
        c = ("call", t.idx, r.choice(t.names), r.choice(["abs", "rel"]), False, params, None, False)
        if last and r.random() < 0.6:
            c = ("try", [c], self.nid(), "except")
        return [("set", r.choice(VARS), r.choice(VALUES)), ("log", self.nid()), c, ("log", self.nid())]

    def nid(self):
        self.ids += 1
        return self.ids

    def block(self, s, depth, size=None):
        r = self.rng
        out = []
        for _ in range(size or r.randint(2, 6)):
            k = r.random()
            if k < 0.28:
                out.append(("log", self.nid()))
            elif k < 0.40 and self.probes is not None:
                out.append(self.probes(self.nid()))
            elif k < 0.50:
                out.append(("set", r.choice(VARS), r.choice(VALUES)))
            elif k < 0.66 and depth < 4:
                out.append(("defaults", self.settings(), self.block(s, depth + 1, r.randint(1, 3)), r.choice(["normal", "normal", "normal", "break", "return", "continue"]), self.nid()))
            elif k < 0.86:
                t = r.choice(self.scripts)
                params = None
                if t.params and r.random() < 0.9:
                    params = {}
                    for n, d in t.params:
                        if r.random() < (0.95 if d is None else 0.5):
                            params[n] = r.choice(VALUES)
                elif r.random() < 0.15:
                    params = {}
                if t.params and r.random() < 0.35:
                    params = r.choice(self.common)
                c = (("call", t.idx, r.choice(t.names), r.choice(["abs", "rel", "rel", "dot", "up"]), r.random() < 0.25, params, r.choice([None, None, "My name", "ü", "n"]), r.random() < 0.06))
                out.append(c if r.random() < 0.4 else ("try", [c], self.nid(), "except"))
            elif k < 0.89:
                out.append(("chdir", r.choice(self.dirs + ["/", "/tmp"])))
            elif k < 0.905:
                out.append(("raise", r.randrange(len(KINDS))))
            elif k < 0.94 and self.bad:
                out.append(("bad", r.choice(self.bad)(), self.nid()))
            elif depth < 4:
                out.append(("try", self.block(s, depth + 1, r.randint(1, 3)), self.nid(), r.choice(["except", "except", "finally"])))
        return out

    # ------------------------------------------------------------------ rendering
    def render(self):
        for d in self.dirs:
            os.makedirs(d, exist_ok=True)
        os.symlink(self.root + "/sub", self.root + "/lnsub")
        for s in self.scripts:
            L = ["import fvs as _s", "import os as _os", "import json as json_mod", "from fora.operations import local as _local"]
            if s.params:
                if s.style == "script":
                    L += ["from fora import script as _sc", "@_sc.Params"]
                else:
                    L += ["@Params"]
                L += ["class params:"] + [f"    {n}: object" + ("" if d is None else f" = {d}") for n, d in s.params]
                L.append(f"_s.event('params', {s.idx}, {{n: repr(getattr(params, n)) for n in {[n for n, _ in s.params]!r}}})")
                L += [f"if isinstance(params.{n}, list): params.{n}.append('seen')" for n, d in s.params if d == "[]"]
            L.append("_private = 1")
            L.append("_s.event('start', %d)" % s.idx)
            L += self.lines(s.body, 0)
            L.append("_s.event('end', %d)" % s.idx)
            if s.broken:
                L.append("def (:")
            inv.write(s.file, "\n".join(L) + "\n")
            for n in s.names[1:]:
                if n.startswith(self.root + "/ln") and not n.startswith(self.root + "/lnsub/"):
                    os.symlink(os.path.relpath(s.file, self.root), n)
        own = {"vars": self.hostvars} if self.hostvars else {}
        return own

    def lines(self, body, ind):
        p = "    " * ind
        L = []
        for st in body or [("pass",)]:
            k = st[0]
            if k == "pass":
                L.append(p + "pass")
            elif k == "log":
                L.append(p + f"_s.log({st[1]}, globals())")
            elif k == "set":
                L.append(p + f"globals()[{st[1]!r}] = {st[2]!r}")
            elif k == "defaults":
                _, sett, b, leave, i = st
                a = ", ".join(f"{k_}={v!r}" for k_, v in sett.items())
                w = "defaults" if i % 3 else "__import__('fora').script.defaults"
                if leave == "normal":
                    L += [p + f"with {w}({a}):"] + self.lines(b, ind + 1)
                elif leave in ("break", "continue"):
                    L += [p + "for _i in (0,):", p + f"    with {w}({a}):"] + self.lines(b, ind + 2) + [p + "        " + leave]
                else:
                    L += [p + f"def _f{i}():", p + f"    with {w}({a}):"] + self.lines(b, ind + 2) + [p + "        return 1", p + f"_f{i}()"]
            elif k == "call":
                _, _t, path_, style, rec, params, name, missing = st
                a = [f"_s.path({(path_ + 'x') if missing else path_!r}, {style!r})"]
                if rec:
                    a.append("recursive=True")
                if params is not None:
                    a.append(f"params=_s.common({[id(c) for c in self.common].index(id(params))}, {params!r})" if any(params is c for c in self.common) else f"params={params!r}")
                if name is not None:
                    a.append(f"name={name!r}")
                L += [p + "if _s.allow():", p + f"    _local.script({', '.join(a)})"]
            elif k == "chdir":
                L.append(p + f"_os.chdir({st[1]!r})")
            elif k == "raise":
                L.append(p + f"raise {KINDS[st[1]]}")
            elif k == "bad":
                a = ", ".join(f"{k_}={v!r}" for k_, v in st[1].items())
                L += [p + "try:", p + f"    with defaults({a}):", p + f"        _s.event('entered', {st[2]})", p + "except Exception:", p + f"    _s.event('rejected', {st[2]})", p + f"_s.log({st[2]}, globals())"]
            elif k == "try":
                L += [p + "try:"] + self.lines(st[1], ind + 1)
                if st[3] == "except":
                    L += [p + "except BaseException:", p + f"    _s.event('caught', {st[2]})", p + f"    _s.log({st[2]}, globals())"]
                else:
                    L += [p + "finally:", p + f"    _s.log({st[2]}, globals())"]
            else:
                L.append(p + f"_s.EXTRA[{k!r}]({st[1]!r}, {st[2]!r})")
        return L

    # ------------------------------------------------------------------ model
    def predict(self, base, hosturl, start_cwd, resolve, budget, extra=None):
        """Returns (events, exception kind or None)."""
        self.ev, self.base, self.resolve, self.budget, self.extra = [], base, resolve, budget, extra or {}
        self.hv = {**{k: ser(v) for k, v in self.hostvars.items()}, "url": ser(hosturl)}
        self.stack = []
        self.cwd = start_cwd
        self.stats = {"rejected_recursion": 0, "recursive": 0, "missing_parameter": 0}
        exc = None
        try:
            self.call(0, None, ANY)
        except Call as e:
            exc = e.kind
        return self.ev, exc

    def call(self, idx, params, name):
        s = self.scripts[idx]
        prev = self.cwd
        f = {"s": s, "vars": {}, "defs": [dict(self.base)], "name": name if name is not None else os.path.splitext(os.path.basename(self.called or s.file))[0]}
        self.stack.append(f)
        self.cwd = os.path.dirname(os.path.realpath(s.file))
        try:
            if s.broken:
                raise Call("syntax")
            if s.params:
                given = params or {}
                got = {}
                for n, d in s.params:
                    if n in given:
                        got[n] = ser(given[n])
                    elif d is None:
                        self.stats["missing_parameter"] += 1
                        raise Call("missing parameter")
                    else:
                        got[n] = ser(eval(d))  # noqa: S307
                self.ev.append(("params", idx, got))
            self.ev.append(("start", idx))
            self.run(s.body, f)
            self.ev.append(("end", idx))
        finally:
            self.stack.pop()
            self.cwd = prev

    called = None

    def run(self, body, f):
        for st in body:
            k = st[0]
            if k == "log":
                self.note(st[1], f)
            elif k == "set":
                f["vars"][st[1]] = ser(st[2])
            elif k == "defaults":
                f["defs"].append({**f["defs"][-1], **self.resolve(st[1])})
                try:
                    self.run(st[2], f)
                finally:
                    f["defs"].pop()
            elif k == "call":
                _, t, path_, _style, rec, params, name, missing = st
                self.budget -= 1
                if self.budget < 0:
                    continue
                if missing:
                    raise Call("no such script")
                if not rec and any(x["s"].idx == t for x in self.stack):
                    self.stats["rejected_recursion"] += 1
                    raise Call("recursion")
                self.stats["recursive"] += rec and any(x["s"].idx == t for x in self.stack)
                old, self.called = self.called, path_
                try:
                    self.call(t, params, name)
                finally:
                    self.called = old
            elif k == "chdir":
                self.cwd = os.path.realpath(st[1])
            elif k == "raise":
                raise Call(KINDS[st[1]])
            elif k == "bad":
                self.ev.append(("rejected", st[2]))
                self.note(st[2], f)
            elif k == "try":
                if st[3] == "except":
                    try:
                        self.run(st[1], f)
                    except Call:
                        self.ev.append(("caught", st[2]))
                        self.note(st[2], f)
                else:
                    try:
                        self.run(st[1], f)
                    finally:
                        self.note(st[2], f)
            else:
                self.extra[k](self, st, f)

    def note(self, i, f):
        v = f["vars"]
        look = {n: self.hv[n] if n in self.hv else v.get(n, MISSING) for n in VARS}
        d = dict(f["defs"][-1])
        self.ev.append(("log", i, dict(cwd=self.cwd, script=f["name"], module_name=f["name"], same=True, look=look, hier=dict(look), bad=[], own={n: v.get(n, MISSING) for n in VARS}, defaults=d)))


def differs(got, want):
    """The first difference between an observed and a predicted event, or None."""
    if got[:2] != want[:2]:
        return f"event {got[:2]} instead of {want[:2]}"
    if got[0] == "params" and got[2] != want[2]:
        return f"parameters {got[2]} instead of {want[2]}"
    if got[0] != "log":
        return None
    g, w = got[2], want[2]
    for k in ("cwd", "script", "module_name", "same", "bad", "own"):
        if g[k] != w[k] and w[k] is not ANY:
            return f"{k}: {g[k]!r} instead of {w[k]!r}"
    for k in ("look", "hier"):
        for n in VARS:
            if g[k][n] != w[k][n]:
                return f"host variable {n} ({k}): {g[k][n]} instead of {w[k][n]}"
    for n in SPECIAL:
        if g["look"][n] != MISSING and n != "module":
            return f"{n} of the script is visible as a host variable"
    for k in ("defaults", "current"):
        bad = {n: (g[k][n], w["defaults"][n]) for n in KEYS if g[k][n] != w["defaults"][n]}
        if bad:
            return f"defaults ({k}): " + ", ".join(f"{n} is {a!r} instead of {b!r}" for n, (a, b) in bad.items())
    if g["ran"] is not None:
        u, gr, um, cwd = g["ran"]
        d = w["defaults"]
        if (u, gr, int(um, 8), cwd) != (d["as_user"], d["as_group"], d["umask"], d["cwd"]):
            return f"command executed with {g['ran']} instead of {d}"
    return None
