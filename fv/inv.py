"""Generated inventories whose modules log what they see, and a model of what they must see."""
import itertools
import os
import sys
import types

import fora
from fora.loader import load_inventory

from .foraenv import call, set_args

# ------------------------------------------------------------------ helper module imported by the generated modules

LOG = []


class Obj:
    """No equality."""
    def __init__(self, tag):
        self.tag = tag


class Eq(Obj):
    def __eq__(self, o):
        return isinstance(o, Eq) and o.tag == self.tag
    __hash__ = None


class Bad(Obj):
    """Equality that has no truth value (like arrays)."""
    def __eq__(self, o):
        return Bad("cmp")

    def __ne__(self, o):
        return Bad("cmp")

    def __bool__(self):
        raise ValueError("the truth value is ambiguous")
    __hash__ = None


def enc(v, depth=0):
    """Canonical form of a value for comparison and logging."""
    if depth > 6:
        return "deep"
    if isinstance(v, dict):
        return ("dict", tuple(sorted((repr(k), enc(x, depth + 1)) for k, x in v.items())))
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(enc(x, depth + 1) for x in v))
    if isinstance(v, (set, frozenset)):
        return ("set", tuple(sorted(repr(x) for x in v)))
    if isinstance(v, Obj):
        return (type(v).__name__, v.tag)
    if isinstance(v, float) and v != v:
        return "nan"
    if isinstance(v, types.FunctionType):
        return ("fn", v())
    if isinstance(v, type):
        return ("class", v.__name__)
    if hasattr(v, "fileno"):
        return ("file", v.name)
    if isinstance(v, types.GeneratorType):
        return "generator"
    return (type(v).__name__, repr(v))


def enter(g):
    mods = sorted(k for k, v in g.items() if isinstance(v, types.ModuleType) and not k.startswith("_"))
    priv = sorted(k for k in g if k.startswith("_p_"))
    kind = "host" if "create_connector" in g else "group"
    active = fora.group if kind == "group" else fora.host
    LOG.append((kind, g.get("name"), g.get("v_fvhost"), {k: enc(v) for k, v in g.items() if k.startswith("v_")}, mods, priv,
                None if active is None else active.name))


def done(g):
    LOG.append(("done", g.get("name"), g.get("v_fvhost")))


helper = types.ModuleType("fvh")
for _n in ("Obj", "Eq", "Bad", "enter", "done", "enc"):
    setattr(helper, _n, globals()[_n])
sys.modules["fvh"] = helper

ENV = {"_fvh": helper}

# ------------------------------------------------------------------ values and statements

UNIQ = itertools.count(1000)


def expr(rng, plain=False):
    n = next(UNIQ)
    k = [f"'s{n}'", str(n * 1000003), f"['l{n}']", f"dict(k{n}=[{n}])", f"[['n{n}'], {{'q': ['m{n}']}}]", f"{{'e{n}'}}", f"({n}, 't')", f"{n}.5",
         f"b'y{n}'", f"_fvh.Eq('q{n}')", f"'first {n}\\nsecond\\n\\ttab \\\\n │ x'", f"'long {n} ' + 'v' * {rng.choice([300, 5000])}"]
    if not plain:
        k += [f"_fvh.Obj('o{n}')", f"[_fvh.Obj('lo{n}')]", "float('nan')", f"(lambda: 'f{n}')", "open('/dev/null')", "None", "True", f"_fvh.Bad('b{n}')", "(i for i in [])", "[]", "{}",
              "''", "0", f"type('C{n}', (), {{}})"]
    return rng.choice(k)


ONCE = {"None", "True", "''", "0", "float('nan')", "open('/dev/null')", "(i for i in [])"}
MUTABLE = ("[", "dict(", "{")


def mutate(rng, var):
    """A guarded in-place addition that works for whatever mutable value the variable has."""
    n = next(UNIQ)
    how = rng.choice(["top", "top", "deep"])
    return (f"if '{var}' in globals():\n"
            f"    if isinstance({var}, list):\n"
            f"        ({var}[0] if {how == 'deep'} and {var} and isinstance({var}[0], list) else {var}).append('a{n}')\n"
            f"    elif isinstance({var}, dict):\n"
            f"        if {how == 'deep'} and any(isinstance(x, list) for x in {var}.values()):\n"
            f"            [x for x in {var}.values() if isinstance(x, list)][0].append('a{n}')\n"
            f"        else:\n"
            f"            {var}['a{n}'] = {n}\n"
            f"    elif isinstance({var}, set):\n"
            f"        {var}.add('a{n}')\n")


class Group:
    def __init__(self, name):
        self.name = name
        self.stmts = []          # (op, var, source)
        self.has_file = True
        self.file = None         # explicit file

    def src(self):
        return module_source(self.stmts)


class Host:
    def __init__(self, name, url):
        self.name, self.url = name, url
        self.groups = []
        self.vars = {}           # name -> source
        self.stmts = []
        self.has_file = True
        self.file = None
        self.style = "dict"


def module_source(stmts):
    out = ["import fvh as _fvh", "_fvh.enter(globals())"]
    out += [s for _, _, s in stmts]
    out.append("_fvh.done(globals())")
    return "\n".join(out) + "\n"


def closure(names, edges):
    """set of (a, b): a is (transitively) before b."""
    succ = {n: {b for a, b in edges if a == n} for n in names}
    out = set()
    for n in names:
        todo, seen = list(succ[n]), set()
        while todo:
            x = todo.pop()
            if x not in seen:
                seen.add(x)
                todo += succ[x]
        out |= {(n, x) for x in seen}
    return out


NAMES = ["web", "db", "desktops", "a", "b", "c", "zz", "arch-linux", "Upper", "x_1", "g.dot", "ünï", "srv", "k8s", "q", "0num", "with space", "e", "f", "h2", "aaa", "m", "n"]


class Plan:
    """A logical inventory."""
    def __init__(self, rng, nvars=6, maxg=9, maxh=4, density=None):
        self.rng = rng
        r = rng
        self.big = r.random() < 0.015
        self.gnames = [f"g{i:03}" for i in range(r.randint(35, 70))] if self.big else r.sample(NAMES, r.randint(0, maxg))
        order = list(self.gnames)
        r.shuffle(order)
        d = 0.05 if self.big else density if density is not None else r.choice([0.1, 0.25, 0.25, 0.5, 0.9])
        self.edges = {(a, b) for i, a in enumerate(order) for b in order[i + 1:] if r.random() < d}
        if order and r.random() < (0.7 if self.big else 0.3):       # a long chain with shortcuts
            self.edges |= set(zip(order, order[1:]))
        self.all_edges = {("all", g) for g in self.gnames if r.random() < 0.3}     # redundant but allowed
        self.explicit_all = r.random() < 0.4
        self.groups = {n: Group(n) for n in self.gnames + ["all"]}
        self.before = closure(self.gnames + ["all"], self.edges | {("all", g) for g in self.gnames})
        self.hosts = []
        for i in range(r.randint(1, maxh)):
            n = r.choice(["h", "host-", "ex.am", "H"]) + str(i)
            h = Host(n, r.choice(["local:" + n, "local:" + n, "ssh://u@" + n + ":22", "ssh://" + n, "ssh:" + n, n]))
            h.groups = r.sample(self.gnames, r.randint(0, len(self.gnames)))
            if r.random() < 0.3:
                h.groups = h.groups + ["all"]
            if h.groups and r.random() < 0.2:
                h.groups = h.groups + [h.groups[0]]
            self.hosts.append(h)
        self.share = r.random() < 0.3
        self.shared_vars = {}
        self.vars = ["v_" + c for c in "abcdefghij"[:nvars]]
        self.inv = {}
        # the inventory's own value of a variable that fora predefines
        self.managed = r.choice(["", "managed here", None]) if r.random() < 0.3 else None
        self.groups_dir, self.hosts_dir = r.choice([("groups", "hosts"), ("groups", "hosts"), ("gr", "ho/st"), ("common", "common2")])
        for g in self.groups.values():
            g.has_file = r.random() < (0.5 if self.big else 0.85)
            if g.has_file and r.random() < 0.12 and (g.name != "all" or self.explicit_all):
                g.file = "extra/" + str(self.gnames.index(g.name) if g.name in self.gnames else "all") + "-x.py"
        for h in self.hosts:
            h.has_file = r.random() < 0.6
            if h.has_file and r.random() < 0.2:
                h.file = f"extra/hostfile-{self.hosts.index(h)}.py"
            h.vars["v_fvhost"] = repr(h.name)
            h.style = r.choice(["dict", "decl"])
        # the inventory may say itself which files belong to groups and hosts (None: no file)
        self.ghook, self.hhook = r.random() < 0.15, r.random() < 0.15
        if r.random() < 0.3:
            h = r.choice(self.hosts)
            if r.random() < 0.5 or h.file or h.groups:
                h.style = r.choice(["dict", "decl"])
            else:
                h.style, h.vars = "str", {}

    def gfile(self, g):
        """The file of a group, relative to the inventory."""
        return g.file or (f"mine/{g.name}/group.py" if self.ghook else f"{self.groups_dir}/{g.name}.py")

    def hfile(self, h):
        if h.file is None and self.hhook and not h.has_file:
            return None
        return h.file or (f"mine-h/{h.name}.host.py" if self.hhook else f"{self.hosts_dir}/{h.name}.py")

    def member(self, h, order=None):
        return set(h.groups) | {"all"}

    # -- statements
    def comparable(self, a, b):
        return a == b or (a, b) in self.before or (b, a) in self.before

    def fill_ordered(self, total=False, inv_mutable=False):
        """Statements such that every variable is only touched by groups that are ordered with each other as needed."""
        r = self.rng
        for v in self.vars:
            if r.random() < 0.3:
                self.inv[v] = expr(r, plain=True) if r.random() < 0.4 else repr(f"inv{next(UNIQ)}")
        once = set()

        def new(v, plain=False):
            e = expr(r, plain)
            if e in ONCE and (v, e) in once:
                e = f"'u{next(UNIQ)}'"
            once.add((v, e))
            return e
        for h in self.hosts:
            if h.style != "str":
                for v in self.vars:
                    if r.random() < 0.2:
                        h.vars[v] = f"'d{next(UNIQ)}'"
        names = list(self.groups)
        for v in self.vars:
            defs, mods = [], []
            for _ in range(r.randint(0, 6)):
                g = r.choice(names)
                if not self.groups[g].has_file or g in defs + mods:
                    continue
                if r.random() < 0.6:
                    if all(self.comparable(g, x) for x in defs + mods):
                        defs.append(g)
                elif all(self.comparable(g, x) for x in (defs + mods if total else defs)) and (v not in self.inv or inv_mutable):
                    mods.append(g)
            for g in defs:
                self.groups[g].stmts.append(("def", v, f"{v} = {new(v)}"))
                if r.random() < 0.2:
                    self.groups[g].stmts.append(("mod", v, mutate(r, v)))
            for g in mods:
                self.groups[g].stmts.append(("mod", v, mutate(r, v)))
        # derived values: reads of variables whose value is determined at that point
        acts = {v: [n for n, g in self.groups.items() if any(x == v for _, x, _ in g.stmts)] for v in self.vars}
        for n, g in self.groups.items():
            if g.has_file and r.random() < 0.4:
                ok = [v for v in self.vars if all(self.comparable(n, x) for x in acts[v])]
                if ok:
                    v = r.choice(ok)
                    d = f"v_from_{next(UNIQ)}"
                    g.stmts.append(("def", d, f"{d} = 'r:' + repr(_fvh.enc(globals().get('{v}', 'absent')))"))
        for n, g in self.groups.items():
            r.shuffle(g.stmts)
            own = {x for o, x, _ in g.stmts if o == "def"}
            g.stmts.sort(key=lambda s: s[0] == "mod" and s[1] in own)  # pylint: disable=cell-var-from-loop
            if r.random() < 0.3:
                g.stmts.append(("priv", None, f"_p_{next(UNIQ)} = 'private'"))
            if r.random() < 0.3:
                g.stmts.append(("imp", None, f"import json as m_{next(UNIQ)}"))
        for h in self.hosts:
            for v in self.vars:
                if h.has_file and r.random() < 0.3:
                    if r.random() < 0.5 or (v in self.inv and not inv_mutable):
                        h.stmts.append(("def", v, f"{v} = {new(v)}"))
                    else:
                        h.stmts.append(("mod", v, mutate(r, v)))
            if h.has_file and r.random() < 0.3:
                h.stmts.append(("imp", None, "import json as m_hostjson"))

    def fill_history(self):
        """One variable with a long history: a definition, several modifications by its successors, and something that may conflict with only one of these."""
        r = self.rng
        v = self.vars[0]
        names = [n for n in self.gnames if self.groups[n].has_file]
        n = next(UNIQ)
        new = lambda: f"['l{next(UNIQ)}']" if r.random() < 0.5 else f"dict(k{n}=[{next(UNIQ)}])"  # noqa: E731
        if r.random() < 0.5 and self.groups["all"].has_file:
            self.groups["all"].stmts.append(("def", v, f"{v} = {new()}"))
        elif r.random() < 0.5:
            for h in self.hosts:
                if h.style != "str":
                    h.vars[v] = new()
        a = self.acts = {v: {}}
        roots = sorted(names, key=lambda g: -sum((g, x) in self.before for x in names))
        if not roots:
            return
        root = r.choice(roots[:2])
        below = [g for g in names if (root, g) in self.before]
        r.shuffle(below)
        a[v][root] = "def"
        for g in below[:r.choice([1, 2, 3, 4, 6])]:
            a[v][g] = "mod"
        rest = [g for g in names if g not in a[v]]
        if rest and r.random() < 0.7:
            free = [g for g in rest if not self.comparable(g, root)]
            a[v][r.choice(free or rest)] = r.choice(["mod", "def"]) if free else "def"
        for g, k in a[v].items():
            self.groups[g].stmts.append((k, v, mutate(r, v) if k == "mod" else f"{v} = {new()}"))

    def fill_free(self):
        """Statements of unrelated groups on the same variables; verdict() tells what must happen."""
        r = self.rng
        names = [n for n in self.gnames if self.groups[n].has_file]
        acts = {}
        for v in self.vars:
            mut = r.random() < 0.5
            once = set()

            def new():
                if mut:
                    n = next(UNIQ)
                    return r.choice([f"['l{n}']", f"dict(k{n}=[{n}])", f"[['n{n}'], 'x']", f"{{'e{n}'}}", f"[_fvh.Obj('lo{n}')]"])  # noqa: B023
                e = expr(r)
                if e in ONCE and e in once:  # noqa: B023
                    e = f"'u{next(UNIQ)}'"
                once.add(e)  # noqa: B023
                return e
            base = r.choice(["none", "none", "inv", "decl", "all"])
            if base == "inv" and not mut:
                self.inv[v] = new()
            elif base == "decl":
                for h in self.hosts:
                    if h.style != "str" and r.random() < 0.8:
                        h.vars[v] = new()
            elif base == "all" and self.groups["all"].has_file:
                self.groups["all"].stmts.append(("def", v, f"{v} = {new()}"))
            actors = r.sample(names, min(len(names), r.choice([0, 1, 1, 2, 2, 3])))
            if r.random() < 0.2:       # many ordered groups, and maybe one that isn't
                actors, others = [], []
                for g in r.sample(names, len(names)):
                    (actors if all(self.comparable(g, x) for x in actors) else others).append(g)
                actors = actors[:r.choice([2, 3, 4, 6])] + (others[:1] if r.random() < 0.6 else [])
            for g in actors:
                k = r.choice(["def", "def", "mod"]) if mut else "def"
                acts.setdefault(v, {})[g] = k
                self.groups[g].stmts.append((k, v, mutate(r, v) if k == "mod" else f"{v} = {new()}"))
                if k == "def" and mut and r.random() < 0.2:
                    self.groups[g].stmts.append(("mod", v, mutate(r, v)))
            for h in self.hosts:
                if h.has_file and r.random() < 0.3:
                    h.stmts.append(("def", v, f"{v} = {new()}"))
                elif h.has_file and mut and r.random() < 0.3:
                    h.stmts.append(("mod", v, mutate(r, v)))
        self.acts = acts

    def verdict(self):
        """(variables that must be reported, variables that may be reported, pairs judged)"""
        must, may, pairs = set(), set(), 0
        for h in self.hosts:
            member = self.member(h)
            for v, a in self.acts.items():
                a = {g: k for g, k in a.items() if g in member}
                base = v in h.vars or v in self.inv or any(x == v for _, x, _ in self.groups["all"].stmts)
                for x, y in itertools.combinations(sorted(a), 2):
                    pairs += 1
                    if self.comparable(x, y):
                        continue
                    if a[x] == a[y] == "def":
                        must.add(v)
                    elif "def" in (a[x], a[y]):
                        m = x if a[x] == "mod" else y
                        earlier = base or any(k == "def" and (g, m) in self.before for g, k in a.items())
                        (must if earlier else may).add(v)
        return must, may - must, pairs

    # -- rendering
    def render(self, root, rng=None, hosts=None, shuffle=True):
        """Writes the inventory below root; rng decides the (irrelevant) representation."""
        r = rng or self.rng
        os.makedirs(root)
        lines = ["import fvh as _fvh", "import os as m_osmod", "from fora.inventory_wrapper import GroupDeclaration, HostDeclaration", "_p_priv = 1"]
        if (self.groups_dir, self.hosts_dir) != ("groups", "hosts"):
            lines += [f"groups_dir = {self.groups_dir!r}", f"hosts_dir = {self.hosts_dir!r}"]
        if self.ghook:
            lines += ["def group_module_file(name):", "    return m_osmod.path.join(m_osmod.path.dirname(m_osmod.path.abspath(__file__)), 'mine', name, 'group.py')"]
            for g in self.groups.values():
                write(os.path.join(root, f"{self.groups_dir}/{g.name}.py"), "v_decoy = 'default location'\n")
        if self.hhook:
            none = [h.name for h in self.hosts if not h.has_file]
            lines += ["def host_module_file(name):", f"    return None if name in {none!r} else m_osmod.path.dirname(m_osmod.path.abspath(__file__)) + '/mine-h/' + name + '.host.py'"]
            for h in self.hosts:
                write(os.path.join(root, f"{self.hosts_dir}/{h.name}.py"), "v_decoy = 'default location'\n")
        late = []
        for k, e in self.shared_vars.items():
            lines.append(f"{k} = {e}")
        if self.managed is not None:
            (late if r.random() < 0.5 else lines).append(f"fora_managed = {self.managed!r}")
        for k, e in self.inv.items():
            (late if r.random() < 0.2 else lines).append(f"{k} = {e}")
        decl = {g: {"after": [], "before": []} for g in self.groups}
        for a, b in sorted(self.edges | self.all_edges):
            how = r.choice(["after", "before", "both"])
            if a == "all" and not self.explicit_all:
                how = "after"
            if how != "before":
                decl[b]["after"].append(a)
            if how != "after":
                decl[a]["before"].append(b)
        for d in decl.values():
            for k in d:
                r.shuffle(d[k])
                if d[k] and r.random() < 0.2:
                    d[k].append(d[k][0])
        names = list(self.gnames) + (["all"] if self.explicit_all else [])
        if shuffle:
            r.shuffle(names)
        gl = []
        for n in names:
            g, d = self.groups[n], decl[n]
            kw = [f"name={n!r}"] + [f"{k}={v!r}" for k, v in d.items() if v or r.random() < 0.2]
            if g.file:
                kw.append(f"file={g.file!r}")
            style = r.choice(["dict", "decl", "str"])
            if style == "str" and len(kw) == 1:
                gl.append(repr(n))
            else:
                gl.append(("dict" if style == "dict" else "GroupDeclaration") + "(" + ", ".join(kw) + ")")
        used = set().union(*[self.member(h) for h in self.hosts]) if self.hosts else set()
        if self.edges or self.all_edges or any(g.file for g in self.groups.values()) or not shuffle or r.random() < 0.7 or not set(self.gnames) <= used:
            lines.append("groups = [" + ", ".join(gl) + "]")
        hs = list(hosts if hosts is not None else self.hosts)
        if shuffle:
            r.shuffle(hs)
        hl = []
        shared = {}

        def glist(h):
            """The same list object for hosts with the same groups."""
            k = tuple(sorted(h.groups))
            if self.share and k not in shared:
                shared[k] = f"_gl{len(shared)}"
                lines.append(f"{shared[k]} = {list(k)!r}")
            return shared[k] if self.share else repr(r.sample(h.groups, len(h.groups)))
        for h in hs:
            if h.style == "str":
                hl.append(repr(h.url))
                continue
            kw = [f"url={h.url!r}", f"groups={glist(h)}", "vars=dict(" + ", ".join(f"{k}={e}" for k, e in h.vars.items()) + ")"]
            if h.file:
                kw.append(f"file={h.file!r}")
            r.shuffle(kw)
            hl.append(("dict" if h.style == "dict" else "HostDeclaration") + "(" + ", ".join(kw) + ")")
        lines.append("hosts = [" + ", ".join(hl) + "]")
        lines += late               # definitions after the host list count as well
        write(os.path.join(root, "inv.py"), "\n".join(lines) + "\n")
        for g in self.groups.values():
            if g.has_file:
                write(os.path.join(root, self.gfile(g)), g.src())
        for h in self.hosts:
            if h.has_file:
                write(os.path.join(root, self.hfile(h)), module_source(h.stmts))
        return os.path.join(root, "inv.py")

    # -- model
    def base_env(self, h):
        env = {}
        for k, e in self.inv.items():
            env[k] = eval(e, dict(ENV))  # noqa: S307
        for k, e in h.vars.items():
            env[k] = eval(self.shared_vars.get(e, e), dict(ENV))  # noqa: S307
        return env

    @staticmethod
    def apply(env, stmts):
        g = {"_fvh": helper, **env}
        for op, _, s in stmts:
            exec(s, g)  # noqa: S102
        env.clear()
        env.update({k: v for k, v in g.items() if k.startswith("v_")})

    def describe(self):
        return {"groups": {n: [s for _, _, s in g.stmts] for n, g in self.groups.items()}, "edges": sorted(self.edges), "inv": self.inv,
                "hosts": {h.name: {"groups": h.groups, "vars": h.vars, "stmts": [s for _, _, s in h.stmts]} for h in self.hosts}}


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def load(path):
    """Loads with the real loader; returns the outcome and the events."""
    set_args()
    del LOG[:]
    fora.script = fora.host = fora.group = None
    out = call(load_inventory, path)
    return out, list(LOG)
