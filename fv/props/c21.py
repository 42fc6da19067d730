"""C21: package and service management performs exactly what is needed."""
from ..scn_sys import PM_PATH, DaemonReloadScn, PackageScn, ServiceScn, pm_setup
from ._ops import family

LEVEL = "exploration"
RULE = ("random package and service requests against stand-ins of pacman, apt-get/dpkg-query, emerge and systemctl that keep state and log every "
        "invocation; log and state compared with a reference model; non-trivial: distinct (operation, arguments, prior state)")
REQUIRED = {"quick": {"operation_calls": 700, "changed_runs": 250, "unchanged_runs": 80, "expected_failures": 60, "repeat_runs": 150, "dry_real_pairs": 100},
            "thorough": {"operation_calls": 6000}}
ASSUMPTIONS = ["package and service managers behave like the stand-ins in fv/standins/pm.py"]


def make(r):
    x = r.random()
    return PackageScn(r) if x < 0.5 else ServiceScn(r) if x < 0.95 else DaemonReloadScn(r)


def run(ctx):
    pm_setup()
    family(ctx, make, 1400, 16000, session=dict(env={"PATH": PM_PATH}))
