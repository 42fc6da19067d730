"""C02: operations are idempotent and report changes truthfully."""
from .. import engine, mix
from ._ops import Sessions, twice

LEVEL = "exploration"
RULE = ("random operations of every kind on random prior states: reported initial/final/changed compared with the independently observed host state "
        "before and after, then the same call repeated up to twice; non-trivial: distinct (operation, arguments, prior state)")
KINDS = ["directory", "file", "link", "upload", "upload_content", "line", "upload_dir", "template", "user", "group", "package", "service", "git"]
REQUIRED = {"quick": {"operation_calls": 2000, "changed_runs": 900, "unchanged_runs": 300, "repeat_runs": 1400, **{"kind:" + k: 20 for k in KINDS}},
            "thorough": {"operation_calls": 20000, "repeat_runs": 12000}}


def run(ctx):
    mix.setup()
    ss = Sessions(40, **mix.SESSION)
    try:
        for _ in ctx.cases(3000, 40000):
            scn = mix.make(ctx.rng)
            S = ss.get()
            if ctx.rng.random() < 0.06:
                scn = twice(ctx, S, mix.make, model=False)
            else:
                scn.prepare()
            args = engine.out_args(ctx)
            res = engine.real_phase(ctx, S, scn, args, model=False)
            if res is not None:
                ctx.count_("kind:" + scn.op_kind)
                engine.repeat_phase(ctx, S, scn, args)
                if ctx.rng.random() < 0.2:
                    engine.repeat_phase(ctx, S, scn, engine.out_args(ctx))
            ctx.evaluated(scn.key(), scn.describe())
            scn.cleanup()
    finally:
        ss.close()
