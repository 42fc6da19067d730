"""C28: errors in user code are reported where they happened."""
import os
import re

from .. import deploy, inv, probe
from ..foraenv import fresh, wipe

LEVEL = "exploration"
RULE = ("generated deploys (up to four levels of nested scripts, functions, defaults blocks, group, host and inventory modules) in which one statement at a known line fails in one of many ways are run as a program; the error "
        "output must name the exception, its message, the failing line and every script call that led to it, and nothing after the failing statement may be executed; non-trivial: distinct (place, failure, depth, options)")
REQUIRED = {"quick": {"programs": 400, "nested": 180, "script_calls_named": 250, "in_modules": 60, "misuse": 40, "command_failures": 30, "op_failures": 30, "debug": 25}, "thorough": {"programs": 4000}}
PATH = "/opt/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
# failing statement -> (pattern for the last part of the report)
FAIL = {
    "raise": ("raise RuntimeError('fv-message-%d')", r"RuntimeError: fv-message-%d"),
    "custom": ("raise Custom('fv-message-%d')", r"Custom: fv-message-%d"),
    "name": ("undefined_name_%d", r"NameError: name 'undefined_name_%d' is not defined"),
    "key": ("{}['fv-key-%d']", r"KeyError: 'fv-key-%d'"),
    "assert": ("assert False, 'fv-assert-%d'", r"AssertionError: fv-assert-%d"),
    "attr": ("host.no_such_attribute_%d", r"no_such_attribute_%d"),
    "op": ("files.upload(src='/nonexistent/fv-%d', dest='/tmp/never')", r"fv-%d"),
    "op-type": ("files.directory('/etc/hostname', name='fv-%d')", r"(?s)fv-%d.*/etc/hostname|/etc/hostname.*"),
    "op-args": ("files.directory(no_such_parameter_%d=1)", r"no_such_parameter_%d"),
    "command": ("host.connection.run(['sh', '-c', 'echo fv-out-%d; echo fv-err-%d >&2; exit 7'])", r"(?s)fv-out-%d.*fv-err-%d.*"),
    "command-long": ("host.connection.run(['sh', '-c', 'for i in $(seq 150); do echo fv-out-%d-$i; echo fv-err-%d-$i >&2; done; exit 7'])",
                     r"(?s)(?<!\d)fv-out-%d-1\n.*fv-out-%d-150\n.*fv-err-%d-1\n.*fv-err-%d-77\n.*fv-err-%d-150\n"),
    "missing-script": ("local.script('nosuch-%d.py')", r"nosuch-%d.py"),
    "zero": ("1 // (%d - %d)", r"ZeroDivisionError"),
    "chained": ("rethrow('fv-chained-%d')", r"(?s)ValueError: inner fv-chained-%d.*OSError: outer fv-chained-%d"),
}
HEAD = ["import fvmark", "from fora import host", "from fora.operations import files, local", "class Custom(Exception): pass",
        "def rethrow(m):", "    try:", "        raise ValueError('inner ' + m)", "    except ValueError as e:", "        raise OSError('outer ' + m) from e"]
FILL = ["", "# comment", "x = 1", "y = [1,", "  2]", "'''text", "more'''", "def unused():", "    return 1"]
BLOCKS = [["", "# comment"], ["x = 1"], ["y = [1,", "  2]"], ["z = '''text", "more'''"], ["def unused():", "    return 1"], [""], ["for _ in range(2): pass"]]


def script(r, stmt, wrap):
    """Source with the statement on a known line; (text, line)."""
    lines = list(HEAD)
    for _ in range(r.randint(0, 6)):
        lines += r.choice(BLOCKS)
    lines.append("fvmark.mark('before')")
    if wrap == "plain":
        lines.append(stmt)
        n = len(lines)
    elif wrap == "block":
        lines += ["with defaults(umask='022'):", "    if True:", "        " + stmt]
        n = len(lines)
    elif wrap == "function":
        lines += ["def failing():", "    q = 1", "    " + stmt, "", "failing()"]
        n = len(lines) - 2
    elif wrap == "deep":
        k = r.choice([3, 9, 25])
        lines += ["def down(n):", "    if n:", "        return down(n - 1) if n % 3 else dict(a=[down(n - 1)])", "    " + stmt, f"down({k})"]
        n = len(lines) - 1
    elif wrap == "class":
        lines += ["class C:", "    def m(self):", "        " + stmt, "C().m()"]
        n = len(lines) - 1
    elif wrap == "loop":
        lines += ["for i in range(3):", "    if i == 1:", "        " + stmt]
        n = len(lines)
    lines.append("fvmark.mark('after')")
    for _ in range(r.randint(0, 2)):
        lines += r.choice(BLOCKS)
    return "\n".join(lines) + "\n", n


def setup():
    os.makedirs("/tmp/fvlib")
    with open("/tmp/fvlib/fvmark.py", "w") as f:
        f.write("import os\ndef mark(w):\n    with open(os.environ['FV_MARK'], 'a') as f:\n        f.write(w + '\\n')\n")


def located(text, path, line):
    return re.search(rf'File "{re.escape(path)}", line {line}\b', text) is not None


def case(ctx, root):
    r = ctx.rng
    depth = r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3, 3, 4, 4, 7, 12])
    kind = r.choice(list(FAIL))
    num = r.randrange(10 ** 6)
    stmt, pat = [t.replace("%d", str(num)) for t in FAIL[kind]]
    where = r.choice(["script"] * 6 + ["group", "host", "inventory"])
    if where != "script" and kind in ("op", "op-type", "op-args", "command", "command-long", "missing-script", "attr"):
        where = "script"
    names = ["deploy"] + [r.choice(["sub", "täsk", "tasks/a b", "../up/x", "t.2"]) + str(k) for k in range(depth)]
    # paths as given to local.script are relative to the directory of the calling script
    paths, d = [root + "/p/q/deploy.py"], root + "/p/q"
    for n in names[1:]:
        paths.append(os.path.normpath(f"{d}/{n}.py"))
        d = os.path.dirname(paths[-1])
    calls = []
    wrap = r.choice(["plain", "plain", "block", "function", "class", "loop", "deep"])
    for k, p in enumerate(paths):
        if k < depth:
            rel = os.path.relpath(paths[k + 1], os.path.dirname(p))
            t, n = script(r, f"local.script({rel!r})" if r.random() < 0.7 else f"local.script(name='call {k}', script={rel!r})", r.choice(["plain", "plain", "block", "function", "class", "deep"]))
            calls.append((p, n))
        else:
            t, n = script(r, stmt if where == "script" else "pass", wrap)
        inv.write(p, t)
    path, line = paths[-1], n
    inv.write(root + "/inv.py", "hosts = [dict(url='local:h1', groups=['g1'])]\ngroups = ['g1']\n")
    if where != "script":
        path = root + {"group": "/groups/g1.py", "host": "/hosts/h1.py", "inventory": "/inv.py"}[where]
        src = "import fvmark\nclass Custom(Exception): pass\n" + "\n".join(HEAD[4:]) + "\n" + "\n" * r.randint(0, 3)
        line = src.count("\n") + 1
        src += stmt + "\nfvmark.mark('after')\n"
        if where == "inventory":
            src += "hosts = ['local:h1']\n"
        inv.write(path, src)
        calls = []
        ctx.count_("in_modules")
    debug = r.random() < 0.12
    argv = (["--debug"] if debug else []) + r.choice([[], ["-v"], ["--dry"], ["--no-changes"]]) + [root + "/inv.py", paths[0]]
    mark = root + "/mark"
    x = deploy.program(argv, cwd=r.choice([root, "/tmp"]), env={**os.environ, "PATH": PATH, "FV_MARK": mark, "PYTHONPATH": os.environ["PYTHONPATH"] + ":/tmp/fvlib"})
    done = open(mark).read().split() if os.path.exists(mark) else []
    ctx.count_("programs")
    ctx.count_("nested", depth > 0 and where == "script")
    ctx.count_("debug", debug)
    ctx.count_("command_failures", kind.startswith("command"))
    ctx.count_("op_failures", kind.startswith("op"))
    ctx.evaluated((where, kind, depth, wrap, tuple(names), debug), f"{kind} in {where} at depth {depth} ({wrap})")
    what = f"{kind} in {where}, depth {depth}, {wrap}, argv {argv[:-2]}"
    w = dict(err=x.err[-2500:], out=x.text[-500:], statement=stmt, place=(path, line), calls=calls)
    if x.code == 0:
        ctx.violation("exit-status", f"{what}: exit status 0", **w)
    if "after" in done:
        ctx.violation("continued", f"{what}: statements after the failing one were executed: {done}", **w)
    if where == "script" and done != ["before"] * (depth + 1):
        ctx.violation("not-reached", f"{what}: executed {done}, expected to reach the failing statement", **w)
    if not located(x.err, path, line):
        ctx.violation("location", f"{what}: the failing line {path}:{line} is not reported", **w)
    if not re.search(pat, x.err):
        ctx.violation("message", f"{what}: the error ({pat}) is not reported", **w)
    pos = -1
    for p, n in calls:
        ctx.count_("script_calls_named")
        m = re.search(rf'File "{re.escape(p)}", line {n}\b', x.err[pos + 1:])
        if m is None:
            ctx.violation("script-call", f"{what}: the call of a script at {p}:{n} is not reported (in order)", **w)
            break
        pos += 1 + m.start()


def misuse(ctx, root):
    """Operations called although no host is active, and similar."""
    r = ctx.rng
    k = r.choice(["inventory", "group", "host", "swapped", "fora-host"])
    dest = root + "/never"
    op = r.choice([f"files.upload_content(content='x', dest={dest!r})", f"files.directory({dest!r})", f"files.file({dest!r})"])
    body = f"from fora.operations import files\n{op}\n"
    inv.write(root + "/inv.py", "hosts = [dict(url='local:h1', groups=['g1'])]\ngroups = ['g1']\n")
    inv.write(root + "/deploy.py", "x = 1\n")
    argv = [root + "/inv.py", root + "/deploy.py"]
    if k == "inventory":
        inv.write(root + "/inv.py", body + "hosts = ['local:h1']\n")
    elif k == "group":
        inv.write(root + "/groups/g1.py", body)
    elif k == "host":
        inv.write(root + "/hosts/h1.py", body)
    elif k == "swapped":
        inv.write(root + "/deploy.py", body)
        argv.reverse()
    else:
        inv.write(root + "/inv.py", "import fora\nfora.host.name\nhosts = ['local:h1']\n")
    x = deploy.program(argv, cwd=root, env={**os.environ, "PATH": PATH})
    ctx.count_("programs")
    ctx.count_("misuse")
    ctx.evaluated(("misuse", k, op[:14]), f"misuse: {op[:14]} in {k}")
    w = dict(err=x.err[-2500:], out=x.text[-500:], op=op)
    if x.code == 0 or not x.err.strip():
        ctx.violation("misuse", f"{op} in {k}: {x.brief()}", **w)
    if os.path.lexists(dest):
        ctx.violation("misuse", f"{op} in {k}: was executed", **w)


def run(ctx):
    setup()
    for i in ctx.cases(620, 8000):
        root = fresh("i")
        if i % 10 == 9:
            misuse(ctx, root)
        else:
            case(ctx, root)
        wipe(root)


_ = probe
