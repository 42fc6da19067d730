"""C23: git.repo ends at the requested revision."""
from ..foraenv import Session, wipe
from ..scn_sys import GitOtherBranch, GitScn, g
from ._ops import family

LEVEL = "exploration"
RULE = ("random git.repo requests with the real git against local upstream repositories with look-alike branch and tag names, annotated tags and nested "
        "submodules; resulting clone inspected with git; non-trivial: distinct (reference, options, prior state)")
REQUIRED = {"quick": {"operation_calls": 250, "changed_runs": 80, "unchanged_runs": 25, "expected_failures": 60, "repeat_runs": 50, "dry_real_pairs": 40, "history_steps": 150},
            "thorough": {"operation_calls": 2500}}


def run(ctx):
    GitScn.template()
    family(ctx, GitScn, 560, 6000)
    with Session() as S:
        for _ in ctx.cases(96, 800):
            history(ctx, S)
    ctx.case = "other-branch"
    with Session() as S:
        for _ in range(3):
            scn = GitOtherBranch(ctx.rng)
            scn.prepare()
            out = S.op(scn.invoke)
            ctx.count_("other_branch_requests")
            head = scn.state_now()["commit"]
            if out.success and head != scn.want:
                ctx.violation("git:existing-clone-on-other-branch", f"reported success but HEAD is {head}, requested {scn.ref} is {scn.want} (clone on {scn.on})")
            ctx.evaluated(("other-branch", scn.ref, scn.on))
            scn.cleanup()


def history(ctx, S):
    """The same request again and again in one session, while the upstream repository moves on."""
    rng = ctx.rng
    scn = GitScn(rng)
    scn.prior, scn.update = "absent", True
    scn.ref = rng.choice([None, "trunk", "main", "feature/main", "dual", "v1", "v2"])
    scn.depth = None
    scn.kw = {} if scn.ref is None else {"branch_or_tag": scn.ref}
    if scn.subs:
        scn.kw["update_submodules"] = True
    scn.recursive = scn.shallow = False
    scn.prepare()
    ref = (f"refs/tags/{scn.ref}" if scn.is_tag() else f"refs/heads/{scn.ref or 'trunk'}") + "^{commit}"
    head, steps = None, []
    for _ in range(rng.choice([3, 4, 5])):
        ev = rng.choice(["nothing", "advance", "advance", "advance", "remove"])
        if ev == "advance":
            scn.advance_origin()
            if scn.is_tag() and head:
                ev = "advance+remove"      # git cannot pull into a detached head
        if "remove" in ev:
            wipe(scn.path)
            head = None
        want = g("rev-parse", ref, cwd=scn.origin)
        dry = rng.random() < 0.25
        steps.append(ev + ("/dry" if dry else ""))
        out = S.op(scn.invoke, args=dict(dry=dry))
        ctx.count_("history_steps")
        what = f"{steps} of {scn.ref} {scn.kw}: {out.brief()}"
        if not out.success:
            ctx.violation("git:history-failed", what)
            break
        v, now = out.value, scn.state_now()["commit"]
        if now != (head if dry else want):
            ctx.violation("git:history-wrong-commit", f"HEAD is {now} instead of {head if dry else want}; {what}")
            break
        if v.initial != dict(initialized=head is not None, commit=head) or v.final != dict(initialized=True, commit=want) or v.changed != (head != want):
            ctx.violation("git:history-reported", f"it was {head} and had to become {want}; {what}")
            break
        head = now
    ctx.evaluated(("history", scn.ref, tuple(steps), str(scn.kw)), f"git history {steps} of {scn.ref}")
    scn.cleanup()
