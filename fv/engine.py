"""The monitors shared by the operation properties: real run, repeat, dry run and fault phases."""
import subprocess

from fora.operations.api import OperationError, OperationResult

from .foraenv import random_output_args, tree_diff


def check_result_shape(ctx, scn, out, what):
    """A returned value must be a proper, self-consistent result."""
    v = out.value
    if not isinstance(v, OperationResult):
        ctx.violation(f"{scn.op_kind}:no-result", f"{what}: returned {v!r} instead of a result for {scn.describe()}")
        return False
    if v.success and v.changed != (v.initial != v.final):
        ctx.violation(f"{scn.op_kind}:changed-inconsistent",
                      f"{what}: changed={v.changed} but initial={v.initial} final={v.final} for {scn.describe()}")
        return False
    return True


def fail_ok(ctx, scn, out, check, what):
    """A failure the reference model predicts must surface as such."""
    if out.ok:
        if check:
            ctx.violation(f"{scn.op_kind}:failure-not-raised", f"{what}: check=True returned {out.brief()} for {scn.describe()}")
        elif out.value is None or out.value.success:
            ctx.violation(f"{scn.op_kind}:failure-as-success", f"{what}: {out.brief()} for {scn.describe()}")
        elif not out.value.failure_message:
            ctx.violation(f"{scn.op_kind}:failure-without-message", f"{what}: {out.brief()} for {scn.describe()}")
        return
    if scn.detected_failure:
        if not check and isinstance(out.exc, OperationError):
            ctx.violation(f"{scn.op_kind}:check-false-raised", f"{what}: check=False raised {out.brief()} for {scn.describe()}")
        elif not isinstance(out.exc, OperationError):
            ctx.violation(f"{scn.op_kind}:wrong-exception", f"{what}: {out.brief()} for {scn.describe()}")
        elif not str(out.exc) or str(out.exc) == "None":
            ctx.violation(f"{scn.op_kind}:failure-without-message", f"{what}: {out.brief()} for {scn.describe()}")


def real_phase(ctx, S, scn, args=None, compare_state=True, model=True):
    """Runs the operation for real and checks it against the reference model. Returns (out, before, after) or None."""
    check = ctx.rng.random() < 0.7
    kw = {} if check and ctx.rng.random() < 0.5 else dict(check=check)
    before = scn.snapshot()
    st0 = scn.state_now() if scn.expects != "fail" else None
    out = S.op(scn.invoke, args=args, **kw)
    after = scn.snapshot()
    ctx.count_("operation_calls")
    if scn.expects == "fail":
        ctx.count_("expected_failures")
        fail_ok(ctx, scn, out, check, "real run")
        d = tree_diff(before, after)
        if d and not getattr(scn, "partial_ok", False):
            ctx.violation(f"{scn.op_kind}:failure-modified", f"failed operation modified the host: {d[:4]} for {scn.describe()}")
        return None
    if scn.expects == "either" and not out.success:
        ctx.count_("unpredicted_failures")
        return None
    if not out.ok:
        ctx.violation(f"{scn.op_kind}:unexpected-failure", f"real run: {out.brief()} for {scn.describe()}")
        return None
    if not check_result_shape(ctx, scn, out, "real run"):
        return None
    if not out.value.success:
        ctx.violation(f"{scn.op_kind}:unexpected-failure", f"real run: {out.brief()} for {scn.describe()}")
        return None
    if model:
        for mech, msg in scn.verify(before, after):
            ctx.violation(f"{scn.op_kind}:{mech}", f"{msg}; {scn.describe()}; {out.brief()[:300]}")
    if compare_state:
        compare_states(ctx, scn, out, st0, "real run")
        ctx.count_("changed_runs" if out.value.changed else "unchanged_runs")
        if not out.value.changed:
            d = tree_diff(before, after)
            if d:
                ctx.violation(f"{scn.op_kind}:silent-change", f"reported unchanged but modified the host: {d[:4]}; {scn.describe()}")
    return out, before, after


def compare_states(ctx, scn, out, st0, what, final=True):
    v = out.value
    if v.initial != st0:
        ctx.violation(f"{scn.op_kind}:initial-wrong",
                      f"{what}: reported initial {v.initial} but actual {st0} for {scn.describe()}")
    if final:
        exp = scn.final_expected(scn.state_now())
        bad = {k: (v.final.get(k), e) for k, e in exp.items() if k not in v.final or (v.final[k] != e and not scn.final_open(k, v.final[k]))}
        extra = [k for k in v.final if k not in exp]
        if bad or extra:
            ctx.violation(f"{scn.op_kind}:final-wrong",
                          f"{what}: reported final differs from actual (reported, actual) {bad} {extra} for {scn.describe()}")


def repeat_phase(ctx, S, scn, args=None):
    before = scn.snapshot()
    st0 = scn.state_now()
    out = S.op(scn.invoke, args=args)
    after = scn.snapshot()
    ctx.count_("repeat_runs")
    if not out.ok or not out.success:
        ctx.violation(f"{scn.op_kind}:repeat-failed", f"repeated run: {out.brief()} for {scn.describe()}")
        return
    if not check_result_shape(ctx, scn, out, "repeat"):
        return
    compare_states(ctx, scn, out, st0, "repeated run")
    if scn.always:
        return
    if out.value.changed:
        ctx.violation(f"{scn.op_kind}:repeat-changed", f"repeated run reports a change: {out.brief()} for {scn.describe()}")
    d = tree_diff(before, after)
    if d:
        ctx.violation(f"{scn.op_kind}:repeat-modified", f"repeated run modified the host: {d[:4]} for {scn.describe()}")


def dry_phase(ctx, S, scn, args=None):
    """Dry run: pure. Returns the outcome."""
    before = scn.snapshot()
    st0 = scn.state_now() if scn.expects != "fail" else None
    check = ctx.rng.random() < 0.7
    scn.actions()       # forget what earlier runs did
    out = S.op(scn.invoke, args=dict(args or {}, dry=True), check=check)
    after = scn.snapshot()
    ctx.count_("dry_runs")
    d = tree_diff(before, after)
    if d:
        ctx.violation(f"{scn.op_kind}:dry-modified", f"dry run modified the host: {d[:4]} for {scn.describe()}")
    d = scn.actions()
    if d:
        ctx.violation(f"{scn.op_kind}:dry-acted", f"dry run executed {d[:4]} for {scn.describe()}")
    if scn.expects == "fail" and scn.detected_failure:
        fail_ok(ctx, scn, out, check, "dry run")
        return out
    if out.ok and check_result_shape(ctx, scn, out, "dry run") and out.value.success:
        if scn.expects == "ok" and out.value.initial != st0:
            ctx.violation(f"{scn.op_kind}:dry-initial-wrong",
                          f"dry run reported initial {out.value.initial} but actual {st0} for {scn.describe()}")
    return out


def dry_real_phase(ctx, S, scn, args=None):
    d = dry_phase(ctx, S, scn, args)
    if scn.expects != "ok":
        return
    r = S.op(scn.invoke, args=args)
    ctx.count_("dry_real_pairs")
    if not r.success:
        ctx.violation(f"{scn.op_kind}:unexpected-failure", f"real run after dry run: {r.brief()} for {scn.describe()}")
        return
    if not d.success:
        ctx.violation(f"{scn.op_kind}:dry-failed", f"dry run: {d.brief()} but real run: {r.brief()} for {scn.describe()}")
        return
    for k in ("changed", "initial", "final"):
        a, b = getattr(d.value, k), getattr(r.value, k)
        if a != b:
            ctx.violation(f"{scn.op_kind}:dry-mispredicts", f"dry run reported {k}={a} but the real run {k}={b} for {scn.describe()}")
    d2 = dry_phase(ctx, S, scn, args)
    if d2.success and d2.value.changed and not scn.always:
        ctx.violation(f"{scn.op_kind}:dry-after-converged", f"dry run after convergence reports {d2.brief()} for {scn.describe()}")


def out_args(ctx):
    return random_output_args(ctx.rng)


CALLED = subprocess.CalledProcessError
