"""C01: file operations leave the host in exactly the requested state."""
from .. import engine, misuse
from ..foraenv import Session
from ..scenario import PathScn
from ._ops import twice

LEVEL = "exploration"
RULE = ("random operation, arguments, defaults blocks and prior state of the path; the whole scratch tree is observed before "
        "and after with lstat/read/readlink; non-trivial: distinct (operation, prior state, arguments, name) combination")
REQUIRED = {"quick": {"operation_calls": 1500, "changed_runs": 800, "expected_failures": 60},
            "thorough": {"operation_calls": 15000, "changed_runs": 8000, "expected_failures": 600}}


def run(ctx):
    S = None
    n = 0
    try:
        for _ in ctx.cases(4000, 60000):
            if S is None or n % 40 == 0:
                if S is not None:
                    S.__exit__()
                S = Session()
                S.__enter__()
            n += 1
            scn = PathScn(ctx.rng)
            if ctx.rng.random() < 0.03 and misuse.spoil(ctx.rng, scn):
                ctx.count_("misused")
                scn.prepare()
            elif ctx.rng.random() < 0.06:
                scn = twice(ctx, S, PathScn, compare_state=True)
            else:
                scn.prepare()
            engine.real_phase(ctx, S, scn, args=engine.out_args(ctx), compare_state=True)
            ctx.evaluated(scn.key(), scn.describe())
            ctx.count_("op:" + scn.label)
            scn.cleanup()
    finally:
        if S is not None:
            S.__exit__()
