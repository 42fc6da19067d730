"""C22: upload_dir reproduces the source tree."""
from ..scn_files import UploadDirScn
from ._ops import family

LEVEL = "exploration"
RULE = ("random source trees (nested, hostile names, special files, empty) uploaded onto random prior destinations (absent, equal, partially "
        "different, type conflicts); whole destination observed; non-trivial: distinct (tree shape, options, prior)")
REQUIRED = {"quick": {"operation_calls": 600, "changed_runs": 300, "expected_failures": 50, "repeat_runs": 150, "dry_real_pairs": 60},
            "thorough": {"operation_calls": 8000}}


def run(ctx):
    family(ctx, UploadDirScn, 1600, 24000)
