"""C20: user and group management reaches the requested accounts."""
from ..scn_sys import GroupScn, UserScn
from ._ops import family

LEVEL = "exploration"
RULE = ("random account operations with the real useradd/usermod/userdel/groupadd/groupmod/groupdel on a private copy of /etc; account "
        "databases parsed before and after and compared with a reference model; non-trivial: distinct (operation, arguments, prior account)")
REQUIRED = {"quick": {"operation_calls": 500, "changed_runs": 250, "unchanged_runs": 40, "expected_failures": 60, "repeat_runs": 120, "dry_real_pairs": 80},
            "thorough": {"operation_calls": 6000}}
ASSUMPTIONS = ["account tools are the shadow utilities of this system"]


def run(ctx):
    family(ctx, lambda r: UserScn(r) if r.random() < 0.75 else GroupScn(r), 1200, 16000)
