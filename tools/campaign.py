"""Development aid: applies single edits (mutants) to scratch copies of /repo and reports which checks notice them.
  campaign.py LIST.py [ID-prefix...]     LIST.py defines M = [(id, "C01 C02", file below src/fora, old, new), ...]
Runs only the quick checks named in the list, one after the other; never touches /repo."""
import os
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    base = f"/var/tmp/campaign-{os.getpid()}"
    for i, props, f, old, new in ns["M"]:
        if sys.argv[2:] and not any(i.startswith(p) for p in sys.argv[2:]):
            continue
        shutil.rmtree(base, ignore_errors=True)
        os.makedirs(base)
        shutil.copytree("/repo/src", base + "/src", ignore=shutil.ignore_patterns("__pycache__"))
        p = f"{base}/src/fora/{f}"
        s = open(p).read()
        if s.count(old) != 1:
            print(f"{i}: BAD EDIT ({s.count(old)} matches)", flush=True)
            continue
        open(p, "w").write(s.replace(old, new))
        e = dict(os.environ, FV_REPO=base, FV_EVIDENCE=base + "/ev")
        for c in props.split():
            t = subprocess.run([PY, V + "/check.py", c, "quick", "--fast"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False)
            ls = t.stdout.decode(errors="replace").splitlines()
            v = [x for x in ls if x.startswith("VIOLATION")]
            m = [x.strip()[:160] for x in ls if x.strip().startswith("[")][:1]
            print(f"{i} {c}: {'CAUGHT' if t.returncode == 1 and v else 'MISSED exit %d' % t.returncode} {m[0] if m else ls[-1][:200] if ls else ''}", flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
