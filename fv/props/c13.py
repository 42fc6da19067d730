"""C13: ambiguous variable definitions are rejected, and only those."""
import random
import re

import fora

from .. import inv
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("generated inventories in which unrelated and related groups define, redefine and modify the same variables, each in several representations (declaration order, before/after, hash seed); "
        "the monitor compares the loader's verdict and the named variables with the transitive closure of the declared order; non-trivial: distinct inventories with at least two groups touching one variable on a host")
REQUIRED = {"quick": {"must_reject": 1200, "must_accept": 3000, "pairs": 3000}, "thorough": {"must_reject": 15000, "must_accept": 15000}}
HASHSEEDS = True


def run(ctx):
    for i in ctx.cases(4800, 60000):
        root = fresh("i")
        case(ctx, i, root)
        wipe(root)


def case(ctx, i, root):
    r = ctx.rng
    p = inv.Plan(r, nvars=r.choice([1, 2, 2, 4]), maxg=r.choice([3, 5, 8, 12, 16]), density=r.choice([None, 0.3, 0.6]))
    for h in p.hosts:
        if h.style != "str" and r.random() < 0.8:
            h.groups = r.sample(p.gnames, r.randint((2 * len(p.gnames)) // 3, len(p.gnames)))
    if r.random() < 0.4:
        p.fill_history()
    else:
        p.fill_free()
    must, may, pairs = p.verdict()
    ctx.count_("pairs", pairs)
    for rep in range(3):
        path = p.render(f"{root}/d{rep}", rng=random.Random(f"{ctx.seed}/{i}/{rep}"))
        out, log = inv.load(path)
        ctx.evaluated((sorted(p.edges), sorted(must), [g.src() for g in p.groups.values()]) if pairs else None,
                      f"{len(p.gnames)} groups, {len(p.edges)} order relations, {pairs} pairs on a variable: {'reject ' + ','.join(sorted(must)) if must else 'accept'}")
        text = out.err + ("" if out.ok else str(out.exc))
        named = set(re.findall(r"\bv_[a-z]+\b", text))
        w = dict(plan=p.describe(), err=text[:600])
        if must:
            ctx.count_("must_reject")
            if out.ok:
                ctx.violation("ambiguity-accepted", f"unordered groups conflict on {sorted(must)}, but the inventory was loaded (representation {rep})", **w)
            elif not named & (must | may):
                ctx.violation("variable-not-named", f"rejected, but the error names none of {sorted(must)}: {out.brief()} / {out.err[:300]}", **w)
            elif not named <= must | may:
                ctx.violation("wrong-variable-named", f"the error names {sorted(named - must - may)}, which are not ambiguous: {out.err[:300]}", **w)
        elif not may:
            ctx.count_("must_accept")
            if not out.ok:
                ctx.violation("unambiguous-rejected", f"no unordered groups conflict, but loading failed: {out.brief()} / {out.err[:300]}", **w)
            elif not fora.inventory.is_initialized():
                ctx.violation("not-initialized", "loaded, but not initialized")
        else:
            ctx.count_("undetermined")
