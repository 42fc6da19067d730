"""C18: templates render with the right variables and upload the result."""
from ..scn_files import TemplateScn
from ._ops import family

LEVEL = "exploration"
RULE = ("random templates built together with their expected rendering, variables spread over context and host with conflicting values; "
        "non-trivial: distinct (template, variables, attributes)")
REQUIRED = {"quick": {"operation_calls": 1200, "changed_runs": 500, "expected_failures": 80, "repeat_runs": 250},
            "thorough": {"operation_calls": 15000}}


def run(ctx):
    family(ctx, TemplateScn, 2400, 40000)
