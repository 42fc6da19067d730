"""
Orchestrator: builds the tree under test into a scratch directory, runs the property's workload in
contained worker processes, aggregates what the monitors observed, writes the evidence file and
prints the verdict.

Exit codes: 0 held on everything explored, 1 violation(s) not listed as known findings,
2 inconclusive (the monitors observed too little, a worker died, watchdog fired).
"""
import importlib
import json
import os
import pwd
import shutil
import signal
import subprocess
import sys
import tempfile
import time

from . import sandbox

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("FV_REPO", "/repo")          # development aid; the registered checks use /repo
EVIDENCE = os.environ.get("FV_EVIDENCE", os.path.join(VERIF, "evidence"))
PYTHON = "/opt/venv/bin/python"
PATH = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"


def build(scratch):
    """Copies the package from the working tree (as an installation would) and byte-compiles it."""
    dst = os.path.join(scratch, "src")
    os.makedirs(dst)
    shutil.copytree(os.path.join(REPO, "src", "fora"), os.path.join(dst, "fora"),
                    ignore=shutil.ignore_patterns("__pycache__"))
    vf = os.path.join(dst, "fora", "version.py")
    if not os.path.exists(vf):
        with open(vf, "w") as f:
            f.write('version = "0.0.0+verif"\nversion_tuple = (0, 0, 0)\n')
    subprocess.run([PYTHON, "-m", "compileall", "-q", dst], check=False,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    return dst


ACCOUNTS = [
    # name, uid, gid, groups
    ("alice", 3001, 3001), ("bob", 3002, 3002), ("carol", 3003, 3100), ("d-ave_1", 3004, 3004),
    ("svc0", 301, 301), ("zed", 65000, 100),
]
GROUPS = [("alice", 3001, ""), ("bob", 3002, "alice"), ("staff2", 3100, "alice,bob,zed"), ("d-ave_1", 3004, ""),
          ("svc0", 301, "carol"), ("webteam", 3200, "alice"), ("empty-grp", 3201, ""), ("video9", 3202, "root,bob")]


def make_etc(dst):
    """A private copy of /etc with a few extra accounts for the workloads."""
    os.makedirs(dst)
    subprocess.run(["cp", "-a", "/etc/.", dst], check=False, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    have_u = {p.pw_name for p in pwd.getpwall()} | {str(p.pw_uid) for p in pwd.getpwall()}
    with open(os.path.join(dst, "passwd"), "a") as f, open(os.path.join(dst, "shadow"), "a") as s:
        for n, u, g in ACCOUNTS:
            if n not in have_u:
                f.write(f"{n}:x:{u}:{g}:{n.title()} Ünï,,,:/home/{n}:/bin/sh\n")
                s.write(f"{n}:$6$salt{u}$hash.{n}/:19000:0:99999:7:::\n")
    with open(os.path.join(dst, "group")) as f:
        have_g = {l.split(":")[0] for l in f}
    with open(os.path.join(dst, "group"), "a") as f, open(os.path.join(dst, "gshadow"), "a") as s:
        for n, g, m in GROUPS:
            if n not in have_g:
                f.write(f"{n}:x:{g}:{m}\n")
                s.write(f"{n}:!::{m}\n")


def chown_tree(path):
    for root, dirs, files in os.walk(path):
        for n in dirs + files:
            p = os.path.join(root, n)
            try:
                st = os.lstat(p)
                g = st.st_gid if st.st_gid < 65536 else 0
                os.lchown(p, sandbox.BASE, sandbox.BASE + g)
                if not os.path.islink(p):
                    os.chmod(p, st.st_mode & 0o7777)
            except OSError:
                pass
    os.lchown(path, sandbox.BASE, sandbox.BASE)


class Job:
    hashseeds = [0]

    def __init__(self, prop, tier, seed, workers, scratch, extra):
        self.prop, self.tier, self.seed, self.n, self.scratch, self.extra = prop, tier, seed, workers, scratch, extra


def run_workers(job, wall):
    procs = []
    for w in range(job.n):
        wd = os.path.join(job.scratch, f"w{w}")
        os.makedirs(wd)
        os.chmod(wd, 0o755)
        subprocess.run(["cp", "-a", os.path.join(job.scratch, "etc"), os.path.join(wd, "etc")], check=True)
        os.chown(wd, sandbox.BASE, sandbox.BASE)
        env = {
            "PATH": PATH, "HOME": "/tmp", "LANG": "C.UTF-8", "LC_ALL": "C.UTF-8", "TERM": "dumb", "TZ": "UTC",
            "PYTHONHASHSEED": str(job.hashseeds[w % len(job.hashseeds)]), "PYTHONDONTWRITEBYTECODE": "1",
            "PYTHONPATH": os.path.join(job.scratch, "src") + ":" + VERIF,
            "FV_SRC": os.path.join(job.scratch, "src"), "FV_WD": wd,
            "GIT_CONFIG_NOSYSTEM": "1", "GIT_CONFIG_GLOBAL": "/tmp/.gitconfig", "FV_GETENV_PROBE": "pröbe=val \"q\"",
            "FV_EMPTY": "",
        }
        argv = [PYTHON, "-W", "ignore", "-m", "fv.worker", job.prop, job.tier, str(job.seed), str(w), str(job.n),
                os.path.join(wd, "result.json"), json.dumps(job.extra)]
        out = os.open(os.path.join(wd, "stdout"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        err = os.open(os.path.join(wd, "stderr"), os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o666)
        p = sandbox.spawn(argv, env, [(os.path.join(wd, "etc"), "/etc")], "/", out, err)
        os.close(out)
        os.close(err)
        procs.append((w, wd, p))
    deadline = time.monotonic() + wall
    timed_out = []
    while any(p.poll() is None for _, _, p in procs):
        if time.monotonic() > deadline:
            for w, _, p in procs:
                if p.poll() is None:
                    timed_out.append(w)
                    p.kill()
            break
        if job.extra.get("fast") and any(p.poll() is not None and stopped_early(wd, job) for _, wd, p in procs):
            for _, _, p in procs:
                if p.poll() is None:
                    p.kill()
            break
        time.sleep(0.02)
    results = []
    for w, wd, p in procs:
        code = p.wait()
        res = None
        try:
            with open(os.path.join(wd, "result.json")) as f:
                res = json.load(f)
        except (OSError, ValueError):
            pass
        with open(os.path.join(wd, "stderr"), errors="replace") as f:
            errtxt = f.read()[-3000:]
        results.append((w, code, res, errtxt, w in timed_out))
    return results


def stopped_early(wd, job):
    try:
        with open(os.path.join(wd, "result.json")) as f:
            return any(v["mechanism"] not in job.extra["fast"] for v in json.load(f)["violations"])
    except (OSError, ValueError):
        return False


def load_known():
    p = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    with open(p) as f:
        return json.load(f)


def main(argv):
    prop = argv[0]
    tier = "quick"
    replay = None
    args = list(argv[1:])
    extra = {}
    while args:
        a = args.pop(0)
        if a in ("quick", "thorough"):
            tier = a
        elif a == "--replay":
            replay = args.pop(0)
        elif a == "--case":
            extra["only"] = args.pop(0)
        elif a == "--workers":
            extra["workers"] = int(args.pop(0))
        elif a == "--keep":
            extra["keep"] = True
        elif a == "--fast":       # development: end at the first violation
            extra["fast"] = ["-"] + [k["mechanism"] for k in load_known()["findings"]]
        elif a == "-v":
            extra["v"] = True
    seed = int(os.environ.get("VERIF_SEED", "1"))
    if replay:
        with open(replay) as f:
            rp = json.load(f)
        seed, tier, extra["only"] = rp["seed"], rp["tier"], rp["case"]
    mod = importlib.import_module(f"fv.props.{prop.lower()}")
    wall = {"quick": 600, "thorough": 6000}[tier]
    workers = extra.get("workers", getattr(mod, "WORKERS", 8))
    if extra.get("only"):
        workers = 1
    t0 = time.time()
    old = os.umask(0o022)
    base = "/var/tmp" if os.access("/var/tmp", os.W_OK) else tempfile.gettempdir()
    scratch = tempfile.mkdtemp(prefix="fv-", dir=base)
    os.chmod(scratch, 0o755)
    signal.signal(signal.SIGTERM, lambda *_: sys.exit(3))
    try:
        build(scratch)
        make_etc(os.path.join(scratch, "etc"))
        chown_tree(os.path.join(scratch, "etc"))
        chown_tree(os.path.join(scratch, "src"))
        job = Job(prop, tier, seed, workers, scratch, extra)
        if getattr(mod, "HASHSEEDS", False):      # iteration order of sets must not matter
            job.hashseeds = [int(extra["only"]) % 8] if extra.get("only") else list(range(8))
        results = run_workers(job, wall)
    finally:
        if not extra.get("keep"):
            shutil.rmtree(scratch, ignore_errors=True)
        else:
            print("kept", scratch)
        os.umask(old)
    return report(prop, mod, tier, seed, results, t0, extra)


def report(prop, mod, tier, seed, results, t0, extra):
    counts, keys, samples, violations, problems = {}, set(), [], [], []
    evaluations = 0
    for w, code, res, errtxt, to in results:
        if to:
            problems.append(f"worker {w}: watchdog")
        if res is None:
            problems.append(f"worker {w}: no result (exit {code}): {errtxt[-1500:]}")
            continue
        evaluations += res["evaluations"]
        keys.update(res["keys"])
        samples.extend(res["samples"])
        violations.extend(res["violations"])
        problems.extend(f"worker {w}: {p}" for p in res["problems"])
        for k, v in res["counts"].items():
            counts[k] = counts.get(k, 0) + v
    known = load_known()
    new, seen_known = [], {}
    for v in violations:
        hit = None
        for k in known.get("findings", []):
            if k["property"] == prop and k["mechanism"] == v["mechanism"]:
                hit = k
        if hit:
            seen_known.setdefault(hit["mechanism"], (hit, v))
        else:
            new.append(v)
    required = getattr(mod, "REQUIRED", {}).get(tier, {}) if not extra.get("only") else {}
    missing = [f"{k}: observed {counts.get(k, 0)} < {n}" for k, n in required.items() if counts.get(k, 0) < n]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(keys), "rule": mod.RULE,
            "samples": samples[:6], "monitor_events": dict(sorted(counts.items())),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []) + [
            "worker runs as root of a user namespace; local dispatcher started by the connector under test"],
        "wall_s": round(time.time() - t0, 2), "violations": len(new),
    }
    if problems or missing:
        ev["coverage"]["inconclusive"] = (problems + missing)[:20]
    os.makedirs(EVIDENCE, exist_ok=True)
    tmp = os.path.join(EVIDENCE, f".{prop}.json.tmp")
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, default=str)
    os.replace(tmp, os.path.join(EVIDENCE, f"{prop}.json"))
    for k, (hit, v) in sorted(seen_known.items()):
        print(f"KNOWN-FINDING: property={prop} {hit['what']}")
    if extra.get("v"):
        print(json.dumps(ev["coverage"]["monitor_events"]))
    print(f"{prop} {tier} seed={seed}: {evaluations} evaluations, {len(keys)} distinct, "
          f"{len(new)} violations, {ev['wall_s']} s")
    if new:
        shown = set()
        for i, v in enumerate(new):
            if v["mechanism"] in shown and not extra.get("v"):
                continue
            shown.add(v["mechanism"])
            rp = os.path.join(EVIDENCE, f"{prop}-replay-{i + 1}.json")
            with open(rp, "w") as f:
                json.dump({"property": prop, "seed": seed, "tier": tier, **v}, f, indent=1, default=str)
            print(f"VIOLATION property={prop} replay={rp}")
            print(f"  case {v['case']} [{v['mechanism']}] {v['message'][:1200]}")
            if len(shown) >= 8:
                break
        return 1
    if problems or missing:
        seen = set()
        for p in problems + missing:
            tail = p[-300:]
            if tail not in seen and len(seen) < 4:
                seen.add(tail)
                print("INCONCLUSIVE:", p[:160], "...", p[-900:])
        return 2
    return 0
