"""Development aid: makes and tries out planted bugs.
  seed.py new ID < spec.json   {"property","needs","what_it_breaks","edits":[[file,old,new]...],"demo":text}
  seed.py try ID [check...]    in a scratch copy: stable tests, demo without/with the patch, then the given checks
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def copy():
    d = tempfile.mkdtemp(prefix="seed-", dir="/var/tmp")
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    v = "/repo/src/fora/version.py"
    if os.path.exists(v) and not os.path.exists(d + "/repo/src/fora/version.py"):
        shutil.copy(v, d + "/repo/src/fora/version.py")
    return d


def new(ident, spec):
    d = copy()
    for f, old, newt in spec["edits"]:
        p = os.path.join(d, "repo", f)
        s = open(p).read()
        assert s.count(old) == 1, (f, s.count(old), old)
        open(p, "w").write(s.replace(old, newt))
    diff = subprocess.run(["git", "-C", d + "/repo", "diff"], stdout=subprocess.PIPE, check=True).stdout
    sd = os.path.join(V, "seeded", ident)
    os.makedirs(sd, exist_ok=True)
    open(sd + "/patch.diff", "wb").write(diff)
    open(sd + "/demo.sh", "w").write(spec["demo"])
    os.chmod(sd + "/demo.sh", 0o755)
    for n, t in spec.get("files", {}).items():
        open(os.path.join(sd, n), "w").write(t)
    json.dump({k: spec[k] for k in ("property", "needs", "what_it_breaks")}, open(sd + "/meta.json", "w"), indent=1)
    shutil.rmtree(d)


def tryit(ident, checks):
    sd = os.path.join(V, "seeded", ident)
    d = copy()
    r = d + "/repo"
    env = dict(os.environ, PYTHONPATH=r + "/src", PYTHONDONTWRITEBYTECODE="1")
    demo = d + "/demo"
    shutil.copytree(sd, demo)
    # the demos import from /repo/src: rewrite to the copy for this trial only
    for n in os.listdir(demo):
        if n not in ("patch.diff", "meta.json"):
            t = open(os.path.join(demo, n)).read().replace("/repo/src", r + "/src")
            open(os.path.join(demo, n), "w").write(t)

    def rundemo():
        return subprocess.run(["bash", demo + "/demo.sh"], cwd=r, env=env, stdout=subprocess.PIPE,
                              stderr=subprocess.STDOUT, timeout=300)
    a = rundemo()
    subprocess.run(["git", "-C", r, "apply", sd + "/patch.diff"], check=True)
    b = rundemo()
    print(f"{ident}: demo clean={a.returncode} patched={b.returncode}")
    if a.returncode:
        print(a.stdout.decode()[-1500:])
    print("   ", b.stdout.decode()[-300:].strip().replace("\n", "\n    "))
    if "notest" not in checks:
        env["PATH"] = "/opt/vp/ssh/bin:/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
        t = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "test"], cwd=r, env=env,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL)
        out = t.stdout.decode()
        print("   tests:", [x for x in out.splitlines() if x.startswith(("FAILED", "ERROR")) or " passed" in x])
    for c in checks:
        if c == "notest":
            continue
        e = dict(os.environ, FV_REPO=r, FV_EVIDENCE="/tmp/ev")
        t = subprocess.run([PY, V + "/check.py", c, "quick"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        print(f"   {c}: exit {t.returncode}", "\n      ".join(x[:300] for x in t.stdout.decode().splitlines()[:6]))
    shutil.rmtree(d)


if sys.argv[1] == "new":
    new(sys.argv[2], json.load(sys.stdin))
else:
    tryit(sys.argv[2], sys.argv[3:])
