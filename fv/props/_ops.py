"""Common loop of the properties about one family of operations."""
import random

from .. import engine, foraenv, misuse
from ..foraenv import Session


class Sessions:
    """A session that is renewed every so often."""
    def __init__(self, every=40, **kw):
        self.every, self.kw, self.s, self.n = every, kw, None, 0

    def get(self):
        if self.s is not None and self.n % self.every == 0:
            self.close()
        if self.s is None:
            self.s = Session(**self.kw)
            self.s.__enter__()
        self.n += 1
        self.s.activate()
        return self.s

    def drop(self):
        """Forget the current session (it may be broken)."""
        self.close()

    def close(self):
        if self.s is not None:
            s, self.s = self.s, None
            s.__exit__()


def twice(ctx, S, make, **kw):
    """Runs a scenario, undoes it behind the program's back and returns the same scenario (same paths), prepared."""
    seed = ctx.rng.random()
    scn = make(random.Random(seed))
    foraenv.latest(True)
    try:
        scn.prepare()
        engine.real_phase(ctx, S, scn, engine.out_args(ctx), **kw)
        scn.cleanup()
        ctx.count_("undone_and_repeated")
        scn = make(random.Random(seed))
        scn.prepare()
        return scn
    finally:
        foraenv.latest(False)


def family(ctx, make, quick, thorough, repeat=0.5, dry=0.25, every=40, session=None):
    """Runs scenarios: mostly real run (+ repeat), sometimes dry/real pairs."""
    ss = Sessions(every, **(session or {}))
    try:
        for _ in ctx.cases(quick, thorough):
            scn = make(ctx.rng)
            S = ss.get()
            if ctx.rng.random() < 0.04 and misuse.spoil(ctx.rng, scn):
                ctx.count_("misused")
                scn.prepare()
            elif ctx.rng.random() < 0.1:
                scn = twice(ctx, S, make)
            else:
                scn.prepare()
            args = engine.out_args(ctx)
            r = ctx.rng.random()
            if r < dry:
                engine.dry_real_phase(ctx, S, scn, args)
            else:
                res = engine.real_phase(ctx, S, scn, args)
                if res is not None and ctx.rng.random() < repeat:
                    engine.repeat_phase(ctx, S, scn, args)
            ctx.evaluated(scn.key(), scn.describe())
            ctx.count_("op:" + scn.label)
            scn.cleanup()
    finally:
        ss.close()
