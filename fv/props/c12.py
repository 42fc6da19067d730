"""C12: variables resolve by group order, then host."""
import os

import fora
import fora.main

from .. import inv
from ..foraenv import call, fresh, wipe

LEVEL = "exploration"
RULE = ("generated inventories (random acyclic group graphs, membership, declaration styles, variables, module files) are loaded by the real loader; the modules log when they are executed and what they see; "
        "the monitor checks the log against the declared order, replays the module programs in the observed order and compares what every module saw and every host's final variables; "
        "non-trivial: distinct inventories with at least one group module executed")
REQUIRED = {"quick": {"modules_executed": 6000, "vars_seen": 20000, "host_vars": 15000, "ordered_pairs": 4000, "overrides": 1500, "inspected": 100}, "thorough": {"modules_executed": 60000}}
HASHSEEDS = True
FRESH = object()


def run(ctx):
    for i in ctx.cases(4000, 40000):
        root = fresh("i")
        case(ctx, i, root)
        wipe(root)


def case(ctx, i, root):
    r = ctx.rng
    p = inv.Plan(r, maxg=r.choice([3, 6, 9, 14]))
    p.fill_ordered()
    p.root = root + "/d"
    path = p.render(p.root)
    out, log = inv.load(path)
    if not out.ok:
        ctx.evaluated()
        ctx.violation("valid-inventory-rejected", f"{out.brief()} {out.err[:500]}", plan=p.describe())
        return
    ctx.evaluated((sorted(p.edges), [sorted(h.groups) for h in p.hosts], [g.src() for g in p.groups.values()]) if any(e[0] == "group" for e in log) else None,
                  f"{len(p.gnames)} groups, {len(p.edges)} order relations, {len(p.hosts)} hosts, {len(log) // 2} module executions")
    loaded = fora.inventory.loaded_hosts
    if sorted(loaded) != sorted(h.name for h in p.hosts):
        ctx.violation("hosts", f"loaded {sorted(loaded)}, declared {sorted(h.name for h in p.hosts)}", plan=p.describe())
        return
    for h in p.hosts:
        check_host(ctx, p, h, loaded[h.name], [e for e in log if e[2] == (h.name if "v_fvhost" in h.vars else None)])
    if r.random() < 0.25:
        inspect(ctx, p, path, loaded)


def check_host(ctx, p, h, wrapper, log):
    bad = lambda m, t: ctx.violation(m, f"host {h.name}: {t}", plan=p.describe(), log=[(e[0], e[1]) for e in log])  # noqa: E731
    runs = [e for e in log if e[0] != "done"]
    gl = [e[1] for e in runs if e[0] == "group"]
    hl = [e[1] for e in runs if e[0] == "host"]
    want = sorted(g for g in p.member(h) if p.groups[g].has_file)
    ctx.count_("modules_executed", len(runs))
    if sorted(gl) != want:
        bad("group-modules", f"executed group modules {gl}, expected each of {want} exactly once")
        return
    if hl != ([h.name] if h.has_file else []):
        bad("host-module", f"executed host modules {hl}")
        return
    if hl and runs[-1][0] != "host":
        bad("host-module-order", "a group module was executed after the host module")
        return
    for x in range(len(gl)):
        for y in range(x + 1, len(gl)):
            if (gl[y], gl[x]) in p.before:
                bad("order", f"group {gl[x]} was applied before {gl[y]}, but must come after it")
                return
            ctx.count_("ordered_pairs", (gl[x], gl[y]) in p.before)
    # replay in the observed order
    env = p.base_env(h)
    for e in runs:
        kind, name, _, seen, mods, priv, active = e
        want = {k: inv.enc(v) for k, v in env.items()}
        ctx.count_("vars_seen", len(want))
        if seen != want:
            bad("variables-seen", f"{kind} module {name} saw {diff(want, seen)}")
            return
        if mods and mods != ["_fvh"]:
            bad("inherited-module", f"{kind} module {name} inherited imported modules {mods}")
        if priv:
            bad("inherited-private", f"{kind} module {name} inherited private names {priv}")
        if active != name:
            bad("active-wrapper", f"{kind} module {name} executed while fora.{kind} is {active}")
        stmts = p.groups[name].stmts if kind == "group" else h.stmts
        ctx.count_("overrides", sum(1 for o, v, _ in stmts if o == "def" and v in env))
        p.apply(env, stmts)
    final = {k: inv.enc(v) for k, v in env.items()}
    got = {}
    for k in sorted(set(p.vars) | set(final)):
        v = getattr(wrapper, k, FRESH)
        if v is not FRESH:
            got[k] = inv.enc(v)
    ctx.count_("host_vars", len(got))
    if got != final:
        bad("final-variables", f"variables on the host: {diff(final, got)}")
    d = {k: inv.enc(v) for k, v in vars(wrapper).items() if k.startswith("v_")}
    if d != final:
        bad("final-variables", f"vars(host): {diff(final, d)}")
    d = {k: inv.enc(v) for k, v in wrapper.vars_hierarchical().items() if k.startswith("v_")}
    if d != final:
        bad("final-variables", f"vars_hierarchical(): {diff(final, d)}")
    ctx.count_("predefined_replaced", p.managed is not None)
    if getattr(wrapper, "fora_managed", None) != ("This file is managed by fora." if p.managed is None else p.managed):
        bad("predefined", f"fora_managed is {getattr(wrapper, 'fora_managed', None)!r}")
    df = wrapper.definition_file()
    want = os.path.join(p.root, p.hfile(h) or "none")
    if (os.path.realpath(df) != os.path.realpath(want)) if h.has_file else df != "<internal>":
        bad("definition-file", f"definition_file() is {df!r}, the module of the host is {want if h.has_file else None!r}")
    leak = [k for k in vars(wrapper) if k.startswith("_p_")]
    if leak:
        bad("inherited-private", f"the host has private names {leak}")
    if hasattr(wrapper, "m_osmod"):
        bad("inherited-module", "the host has the module imported by the inventory")
    if set(wrapper.groups) != p.member(h) or wrapper.name != h.name:
        bad("membership", f"name {wrapper.name!r}, groups {wrapper.groups}, expected {sorted(p.member(h))}")


def diff(want, got):
    r = []
    for k in sorted(set(want) | set(got)):
        if want.get(k, "absent") != got.get(k, "absent"):
            r.append(f"{k}: {got.get(k, 'absent')} instead of {want.get(k, 'absent')}")
    return "; ".join(r)[:800]


def inspect(ctx, p, path, loaded):
    """--inspect-inventory shows the same values."""
    finals = {n: {k: v for k, v in vars(w).items() if k.startswith("v_")} for n, w in loaded.items()}
    old = os.environ.get("COLUMNS")
    os.environ["COLUMNS"] = "4000"
    os.environ["NO_COLOR"] = "1"
    fora.args = None
    try:
        out = call(fora.main.main, ["--inspect-inventory", path])
    finally:
        os.environ.pop("NO_COLOR")
        os.environ.pop("COLUMNS") if old is None else os.environ.update(COLUMNS=old)
    ctx.count_("inspected")
    if out.ok or not isinstance(out.exc, SystemExit) or out.exc.code not in (0, None):
        ctx.violation("inspect-fails", f"--inspect-inventory: {out.brief()} {out.err[-500:]}", plan=p.describe())
        return
    sections = out.text.split("──────── host ")[1:]
    if len(sections) != len(loaded):
        ctx.violation("inspect-hosts", f"--inspect-inventory shows {len(sections)} hosts instead of {len(loaded)}")
        return
    for sec in sections:
        n = sec.split()[0]
        shown = {l.split("│")[0].strip(): l for l in sec.splitlines()[1:] if "│" in l}
        for k, v in finals.get(n, {}).items():
            e = inv.enc(v)
            if k not in shown:
                ctx.violation("inspect-values", f"--inspect-inventory does not show {k} of {n}", plan=p.describe())
            elif e[0] in ("str", "int", "list", "dict", "bool", "NoneType", "bytes", "float", "tuple") and " at 0x" not in repr(v) and repr(v) not in shown[k]:
                ctx.violation("inspect-values", f"--inspect-inventory shows {shown[k]!r} for {k} = {v!r} of {n}", plan=p.describe())
