"""C15: hosts do not influence each other."""
import itertools
import random

import fora

from .. import inv
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("the same host in differently composed inventories: alone, with all others, in random subsets and orders; modules define variables and modify inherited objects in place at random; "
        "the monitor compares everything each module of the host saw, and its final variables and groups, across the compositions; non-trivial: distinct (inventory, host) with another host sharing a group")
REQUIRED = {"quick": {"comparisons": 8000, "modified_in_place": 6000, "sharing_hosts": 1000}, "thorough": {"comparisons": 60000}}
HASHSEEDS = True


def observe(p, path):
    """host -> (everything its modules saw, final variables, groups)."""
    out, log = inv.load(path)
    if not out.ok:
        return out, None
    r = {}
    acts = {}
    for n, g in p.groups.items():
        for _, v, _ in g.stmts:
            acts.setdefault(v, set()).add(n)

    def determined(kind, n, v):
        """Whether what the module n sees as v does not hinge on the (free) order of unordered groups."""
        return kind != "group" or all(p.comparable(n, x) for x in acts.get(v, ()))
    for h in p.hosts:
        w = fora.inventory.loaded_hosts.get(h.name)
        if w is not None:
            seen = sorted(((e[0], e[1], [x for x in sorted(e[3].items()) if determined(e[0], e[1], x[0])]) for e in log if e[0] != "done" and e[2] == (h.name if "v_fvhost" in h.vars else None)), key=repr)
            r[h.name] = (seen, {k: inv.enc(v) for k, v in vars(w).items() if k.startswith("v_")}, sorted(set(w.groups)), w.name, w.url)
    return out, r


def run(ctx):
    for i in ctx.cases(2000, 24000):
        root = fresh("i")
        case(ctx, i, root)
        wipe(root)


def case(ctx, i, root):
    r = ctx.rng
    p = inv.Plan(r, maxg=r.choice([2, 4, 8]), maxh=5)
    kind = r.choice(["plain"] * 8 + ["inv-object", "decl-object"])
    if kind == "decl-object":
        for v in p.vars[:2]:
            p.shared_vars["_shared" + v] = r.choice(["['s']", "dict(k=['s'])", "{'s'}"])
            for h in p.hosts:
                if h.style != "str" and r.random() < 0.7:
                    h.vars[v] = "_shared" + v
    keep = {h.name: dict(h.vars) for h in p.hosts}
    p.fill_ordered(total=True, inv_mutable=kind == "inv-object")
    for h in p.hosts:
        h.vars.update(keep[h.name])
    if kind == "plain":
        # several hosts declaring equal, but separate mutable values
        for v in p.vars[-2:]:
            if r.random() < 0.5 and v not in p.inv:
                for h in p.hosts:
                    if h.style != "str" and r.random() < 0.7:
                        h.vars[v] = "['own', {'k': []}]"
    # which group order is used for unordered groups is not the subject here, so the group declarations stay textually the same
    comps = [list(p.hosts)] + [[h] for h in p.hosts]
    for _ in range(2):
        comps.append(r.sample(p.hosts, r.randint(1, len(p.hosts))))
    seen = {}
    share = {h.name: any(set(h.groups) & set(o.groups) for o in p.hosts if o is not h) for h in p.hosts}
    for n, hosts in enumerate(comps):
        rr = random.Random(f"{ctx.seed}/{i}")
        path = p.render(f"{root}/d{n}", rng=rr, hosts=hosts, shuffle=False)
        out, obs = observe(p, path)
        if obs is None:
            ctx.violation("valid-inventory-rejected", f"hosts {[h.name for h in hosts]}: {out.brief()} {out.err[:300]}", plan=p.describe())
            return
        if sorted(obs) != sorted(h.name for h in hosts):
            ctx.violation("hosts", f"declared {[h.name for h in hosts]}, loaded {sorted(obs)}", plan=p.describe())
            return
        for name, o in obs.items():
            seen.setdefault(name, []).append(([h.name for h in hosts], o))
    mods = sum(1 for g in p.groups.values() for s in g.stmts if s[0] == "mod")
    for name, l in seen.items():
        ctx.evaluated((name, [g.src() for g in p.groups.values()], [sorted(h.groups) for h in p.hosts]) if share[name] else None,
                      f"host {name} in {len(l)} compositions of {len(p.hosts)} hosts, {mods} in-place modifications ({kind})")
        ctx.count_("sharing_hosts", share[name])
        ctx.count_("modified_in_place", mods)
        for (ca, a), (cb, b) in itertools.islice(itertools.combinations(l, 2), 8):
            ctx.count_("comparisons")
            if a != b:
                what = [t for t, x, y in zip(("what its modules saw", "variables", "groups", "name", "url"), a, b) if x != y]
                d = {k: (a[1].get(k), b[1].get(k)) for k in set(a[1]) | set(b[1]) if a[1].get(k) != b[1].get(k)}
                mech = {"inv-object": "inventory-object-shared", "decl-object": "declared-object-shared"}.get(kind, "host-depends-on-others")
                if mech != "host-depends-on-others" and not only_inplace(p, kind, a, b):
                    mech = "host-depends-on-others"
                ctx.violation(mech, f"host {name}: {', '.join(what)} differ between the inventory with hosts {ca} and with {cb}: {str(d)[:600]}", plan=p.describe())
                return


def only_inplace(p, kind, a, b):
    """Whether the difference is confined to variables whose object is shared by the inventory itself and modified in place (and those derived from them)."""
    shared = set(p.inv) if kind == "inv-object" else {k[len("_shared"):] for k in p.shared_vars}
    stmts = [s for g in list(p.groups.values()) + p.hosts for s in g.stmts]
    shared &= {v for o, v, _ in stmts if o == "mod"}
    shared |= {v for o, v, src in stmts if v and v.startswith("v_from_") and any(f"'{x}'" in src for x in shared)}

    def strip(x):
        return ([(k, n, [(v, e) for v, e in s if v not in shared]) for k, n, s in x[0]], {k: v for k, v in x[1].items() if k not in shared}) + x[2:]
    return sorted(strip(a)[0], key=repr) == sorted(strip(b)[0], key=repr) and strip(a)[1:] == strip(b)[1:]
