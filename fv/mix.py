"""A mix of scenarios of all operations."""
from .scenario import PathScn
from .scn_files import LineScn, TemplateScn, UploadDirScn
from .scn_sys import PM_PATH, DaemonReloadScn, GitScn, GroupScn, PackageScn, ServiceScn, UserScn, pm_setup

FAMILIES = [(34, PathScn), (14, LineScn), (8, UploadDirScn), (9, TemplateScn), (9, UserScn), (4, GroupScn), (9, PackageScn), (9, ServiceScn),
            (1, DaemonReloadScn), (6, GitScn)]
TOTAL = sum(w for w, _ in FAMILIES)
SESSION = dict(env={"PATH": PM_PATH})


def setup():
    pm_setup()
    GitScn.template()


def make(rng, only=None):
    if only is not None:
        return only(rng)
    x = rng.randrange(TOTAL)
    for w, c in FAMILIES:
        if x < w:
            return c(rng)
        x -= w
    raise AssertionError
