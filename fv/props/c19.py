"""C19: files.line adds or removes exactly the line in question."""
from ..scn_files import LineScn
from ._ops import family

LEVEL = "exploration"
RULE = ("random line, regex, whitespace and backup options and prior file bytes (mixed line ends, missing final newline, undecodable bytes, "
        "near-miss lines); expected bytes computed by an independent byte-level model; non-trivial: distinct (options, prior bytes)")
REQUIRED = {"quick": {"operation_calls": 1500, "changed_runs": 500, "unchanged_runs": 200, "expected_failures": 60, "repeat_runs": 300},
            "thorough": {"operation_calls": 20000, "changed_runs": 6000}}


def run(ctx):
    family(ctx, LineScn, 3600, 60000)
