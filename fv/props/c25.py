"""C25: diffs and operation output are truthful and printable."""
import os
import re

import fora
import fora.logger
from fora.operations import files

from .. import deploy, engine, gen, inv, mix, probe, sshbin
from ..foraenv import fresh, wipe
from ._ops import Sessions

LEVEL = "exploration"
RULE = ("random pairs of contents (binary, control characters, all line ending and boundary cases) through the diff function and through real operations with --diff, and random operations of every kind with random output "
        "options; the printed diff is re-applied to the old content, every printed character is classified, and the status output is compared with the returned result; non-trivial: distinct (kind of change, options) and content pairs")
REQUIRED = {"quick": {"diffs": 4000, "operation_diffs": 500, "created": 400, "deleted": 40, "modified": 2000, "status_outputs": 450, "changed_values": 500, "failures_shown": 60, "dry": 150, "process_errors": 60, "debug_programs": 30, "colored": 200},
            "thorough": {"diffs": 40000}}
SGR = re.compile("\x1b\\[[0-9;]*m")
OPNAMES = {"directory": ["dir"], "git": ["repo"], "daemon_reload": ["systemctl"], "template": ["template", "template_content"]}
NASTY = [b"\x1b[31mred\x1b[m", b"\x1b]0;title\x07", b"\x00", b"\r", b"\x08\x08", b"\x7f", b"\xff\xfe", b"\xc3", "\u202e".encode(), "\u200b".encode(), "\x85".encode(), "\u2028".encode(), "\x9b31m".encode(), "🐸ü".encode(),
         b"\t", b"\x0b", b"\x0c", b"\x1c", b"\x1d", b"\x1e", b"\xed\xa0\x80", "\U000e0001".encode(), "\ufeff".encode(), b"\\x00", b"\\n", b"\xc2\xa0", b"@@ -1 +1 @@", b"--- a", b"+++ b", b"+x", b"-x", b" x", b"\xf0\x9f"]


def esc(b):
    """What the content must look like on the terminal."""
    r = []
    for c in b.decode("utf-8", "backslashreplace"):
        n = ord(c)
        r.append({"\0": "\\0", "\n": "\\n", "\r": "\\r", "\t": "\\t"}.get(c) or (c if c.isprintable() else f"\\x{n:02x}" if n < 256 else f"\\u{n:04x}" if n < 65536 else f"\\U{n:08x}"))
    return "".join(r)


def line(r):
    k = r.random()
    if k < 0.4:
        return r.choice([b"a", b"b", b"key = value", b"", b"  indented", b"# comment", b"x" * 70, b"}", b"-", b"+", b"@"])
    if k < 0.75:
        return b"".join(r.choice(NASTY + [b"t", b" "]) for _ in range(r.randint(1, 3)))
    return bytes(r.randrange(256) for _ in range(r.randint(1, 12))).replace(b"\n", b"")


def doc(r, n=None):
    ls = [line(r) for _ in range(r.choice([0, 0, 1, 1, 2, 3, 8, 30]) if n is None else n)]
    return b"\n".join(ls) + (r.choice([b"\n", b"\n", b"", b"\n\n"]) if ls else b"")


def edit(r, b):
    ls = b.split(b"\n")
    for _ in range(r.choice([0, 1, 1, 2, 4])):
        k = r.random()
        i = r.randrange(len(ls) + 1)
        if k < 0.4:
            ls.insert(i, line(r))
        elif k < 0.7 and ls:
            del ls[min(i, len(ls) - 1)]
        elif ls:
            i = min(i, len(ls) - 1)
            ls[i] = ls[i] + r.choice(NASTY + [b" ", b"x"])
    return b"\n".join(ls)


def pair(r):
    k = r.random()
    if k < 0.12:
        return None, doc(r)
    if k < 0.2:
        return doc(r), doc(r)
    a = doc(r) if r.random() < 0.8 else gen.content(r, 0)
    return a, edit(r, a)


def apply(old, hunks):
    """Applies unified diff lines to a list of lines; raises ValueError if they do not fit."""
    out, pos, i = [], 0, 0
    while i < len(hunks):
        m = re.fullmatch(r"@@ -(\d+)(?:,(\d+))? \+(\d+)(?:,(\d+))? @@", hunks[i])
        if not m:
            raise ValueError(f"not a hunk header: {hunks[i]!r}")
        s, n = int(m[1]), int(m[2]) if m[2] is not None else 1
        start = s - 1 if n else s
        if start < pos or start > len(old):
            raise ValueError(f"hunk {hunks[i]!r} does not fit")
        out += old[pos:start]
        pos = start
        i += 1
        na = nb = 0
        want_b = int(m[4]) if m[4] is not None else 1
        while na < n or nb < want_b:
            if i >= len(hunks):
                raise ValueError("hunk ends early")
            h = hunks[i]
            c, t = h[:1], h[1:]
            if c in ("-", " "):
                if pos >= len(old) or old[pos] != t:
                    raise ValueError(f"line {h!r} does not match the old content {old[pos:pos + 1]}")
                pos += 1
                na += 1
            if c in ("+", " "):
                out.append(t)
                nb += 1
            if c not in ("+", "-", " "):
                raise ValueError(f"unexpected diff line {h!r}")
            i += 1
    return out + old[pos:]


def check_diff(ctx, lines, name, old, new, what):
    """lines: uncolored lines of the diff including its header."""
    action = "created" if old is None else "deleted" if new is None else "modified"
    ctx.count_("diffs")
    ctx.count_(action)
    w = dict(old=old, new=new, lines=lines[:40])
    for l in lines:
        bad = [c for c in l if not c.isprintable()]
        if bad:
            ctx.violation("unescaped", f"{what}: unescaped {bad[:5]!r} in the diff line {l!r}", **w)
            return
    heads = [i for i, l in enumerate(lines) if re.search(rf"\b{action}\b.*" + re.escape(name), l)]
    if not heads:
        ctx.violation("title", f"{what}: the diff does not say {action}: {name}: {lines[:3]!r}", **w)
        return
    body = [i for i, l in enumerate(lines) if i > heads[0] and l.startswith("@@ ")]
    if not body:
        if (old or b"").split(b"\n") != (new or b"").split(b"\n"):
            ctx.violation("empty-diff", f"{what}: no changes are shown", **w)
        return
    a = [] if old is None else [esc(x) for x in old.split(b"\n")]
    b = [] if new is None else [esc(x) for x in new.split(b"\n")]
    try:
        got = apply(a, lines[body[0]:])
    except ValueError as e:
        ctx.violation("diff-wrong", f"{what}: {e}", **w)
        return
    if got != b:
        ctx.violation("diff-wrong", f"{what}: applying the diff gives {got[:20]!r} instead of {b[:20]!r}", **w)


def direct(ctx):
    r = ctx.rng
    for _ in range(6):
        old, new = pair(r)
        if r.random() < 0.1:
            old, new = new, old
        if old == new or (old is None and new is None):
            continue
        name = r.choice(["/etc/x", "/a b/c.conf", "ü"])
        color = r.random() < 0.5
        ls = fora.logger.diff(name, old, new, color=color)
        ctx.evaluated(("direct", old, new), "diff of generated contents")
        if color:
            if not any("\x1b" in l for l in ls):
                ctx.violation("no-color", "a colored diff has no color")
            ls = [SGR.sub("", l) for l in ls]
        if any("\n" in l for l in ls):
            ctx.violation("newline", f"a line of the diff contains a newline: {ls[:10]!r}", old=old, new=new)
            continue
        check_diff(ctx, ls, name, old, new, "diff function")


def rows(text):
    """Printed lines without color and tree decoration."""
    return [re.sub(r"^(?:[│╵]? )*", "", l) for l in SGR.sub("", text).split("\n")]


def terminal(ctx, text, what, color, **w):
    """Nothing but printable text, line ends and, if enabled, colors."""
    if "\x1b" in (text if not color else SGR.sub("", text)):
        ctx.violation("escape-sequence" if color else "color-despite-no-color", f"{what}: escape sequence in the output", text=text[-2000:], **w)
        return
    bad = {c for c in SGR.sub("", text) if not c.isprintable() and c not in "\n\r"}
    if bad:
        ctx.violation("unescaped", f"{what}: unescaped {sorted(bad)[:5]!r} reached the terminal", text=text[-2000:], **w)


def operation(ctx, S):
    r = ctx.rng
    root = fresh("q")
    kind = r.choice(["upload_content", "upload_content", "upload", "line", "template_content"])
    old, new = pair(r)
    if kind == "line":
        old = old if old is None else old.replace(b"\r", b"")
        txt = r.choice(["new line", "key=value", "ü\x1b[1m x", "tab\there", "x\x07"])
        new = None
    path = root + r.choice(["/f", "/file name.conf"])
    if old is not None:
        with open(path, "wb") as f:
            f.write(old)
    dry, color, diff, verbose, changes = r.random() < 0.35, r.random() < 0.4, r.random() < 0.85, r.choice([0, 0, 1]), r.random() < 0.9
    name = r.choice([None, None, "My näme"])
    a = dict(dry=dry, no_color=not color, diff=diff, verbose=verbose, changes=changes)
    if r.random() < 0.15:
        a.update(debug=True, verbose=99)
    if kind == "upload_content":
        out = S.op(files.upload_content, content=new, dest=path, name=name, args=a)
    elif kind == "template_content":
        new = r.choice(["tpl {{ 1 + 1 }}\n", "a\nb\n{{ '\\x1b[5m' }}", ""]).encode()
        out = S.op(files.template_content, content=new.decode(), dest=path, name=name, args=a)
        new = new.replace(b"{{ 1 + 1 }}", b"2").replace(b"{{ '\\x1b[5m' }}", b"\x1b[5m")
        new = new[:-1] if new.endswith(b"\n") else new
    elif kind == "upload":
        with open(root + "/src", "wb") as f:
            f.write(new)
        out = S.op(files.upload, src=root + "/src", dest=path, name=name, args=a)
    else:
        out = S.op(files.line, path=path, line=txt, name=name, args=a)
        new = None
    what = f"{kind} with {a}"
    ctx.evaluated((kind, dry, color, diff, verbose, changes, old, new), f"{kind} with --diff")
    ctx.count_("colored", color)
    if not out.success:
        ctx.violation("operation-failed", f"{what}: {out.brief()}", old=old, new=new)
        wipe(root)
        return
    if kind in ("line", "template_content") and not dry:
        with open(path, "rb") as f:
            new = f.read()
    elif kind in ("line", "template_content"):
        # what it would have been: do it now
        x = S.op(files.line, path=path, line=txt) if kind == "line" else S.op(files.template_content, content=new.decode() if b"\x1b" not in new else "a\nb\n{{ '\\x1b[5m' }}", dest=path)
        if not x.success:
            ctx.violation("operation-failed", f"{what}: {x.brief()}")
        with open(path, "rb") as f:
            new = f.read()
    terminal(ctx, out.text + out.err, what, color, old=old, new=new)
    rs = rows(out.text.rsplit("\r", 1)[-1])
    if name is not None and name not in SGR.sub("", out.text):
        ctx.violation("name", f"{what}: the given name is not shown")
    shown = [i for i, l in enumerate(rs) if re.match(r"(?:└ )?─{6,}$", l)]
    differs_ = old != new
    if shown and (not diff or not differs_ or not changes):
        ctx.violation("needless-diff", f"{what}: a diff is shown although {'--diff is not given' if not diff else 'changes are not shown' if not changes else 'the content is the same'}", old=old, new=new, text=out.text)
    elif not shown and diff and differs_ and changes:
        ctx.violation("missing-diff", f"{what}: no diff is shown", old=old, new=new, text=out.text)
    elif shown:
        ctx.count_("operation_diffs")
        ls = rs[shown[0]:]
        while ls and ls[-1] == "":
            ls.pop()
        raw = SGR.sub("", out.text.rsplit("\r", 1)[-1]).split("\n")
        while raw and raw[-1] == "":
            raw.pop()
        ls = [l[2:] for l in raw[shown[0]:]]        # exactly one level of decoration
        check_diff(ctx, ls, path, old, new, what)
    wipe(root)


def obj(scn):
    k = scn.op_kind
    if k == "user":
        return scn.user
    if k == "group":
        return scn.group
    if k == "package":
        return scn.packages
    if k == "service":
        return getattr(scn, "service", None) or getattr(scn, "unit", None)
    if k == "daemon_reload":
        return "daemon_reload"
    if k == "upload_dir":
        return os.path.basename(scn.dest.rstrip("/"))
    return os.path.basename(getattr(scn, "path_arg", scn.path).rstrip("/"))


def shown_as(text, key, values, verbose):
    """Whether `key: v1[ -> v2]` is in the text, allowing for shortened values."""
    def variants(s):
        yield s
        if verbose == 0:
            for n in range(1, len(s)):
                yield s[:n] + "…"
    def at(pos, vs):
        if not vs:
            return True
        for v in variants(vs[0]):
            if text.startswith(v, pos):
                nxt = pos + len(v)
                if len(vs) == 1:
                    return True
                if text.startswith(" → ", nxt) and at(nxt + 3, vs[1:]):
                    return True
        return False
    for k in variants(key):
        p = text.find(k + ": ")
        while p >= 0:
            if at(p + len(k) + 2, values):
                return True
            p = text.find(k + ": ", p + 1)
    return False


def string(v):
    return v.hex() if isinstance(v, bytes) else str(v)


def status(ctx, S):
    r = ctx.rng
    scn = mix.make(r)
    scn.prepare()
    dry = r.random() < 0.3
    a = dict(dry=dry, no_color=r.random() < 0.6, diff=r.random() < 0.2, verbose=r.choice([0, 0, 1, 2]), changes=r.random() < 0.9)
    check = r.random() < 0.6
    out = S.op(scn.invoke, args=a, check=check)
    text = SGR.sub("", out.text)
    what = f"{scn.describe()} with {a}"
    ctx.evaluated(("status", scn.op_kind, repr(a), out.success), f"output of {scn.op_kind}")
    ctx.count_("status_outputs")
    ctx.count_("kind:" + scn.op_kind)
    ctx.count_("dry", dry)
    v = out.value if out.ok else None
    failed = (not out.ok) or (v is not None and getattr(v, "success", None) is False)
    names = OPNAMES.get(scn.op_kind, [scn.op_kind])
    if text or not failed:
        o = obj(scn)
        os_ = o if isinstance(o, list) else [o]
        title = [n for n in names if f"{n} (dry) " in text] if dry else [n for n in names if re.search(rf"(^|[\r\n ]){re.escape(n)} ", text)]
        if not title:
            ctx.violation("title", f"{what}: the output does not name the operation{' and the dry run' if dry else ''}: {text[:300]!r}")
        elif o is not None and not all(repr(x)[1:-1] in text or x in text for x in os_):
            ctx.violation("object", f"{what}: the output does not name {o!r}: {text[:300]!r}")
        if not dry and any(f"{n} (dry)" in text for n in names):
            ctx.violation("dry-mark", f"{what}: marked as dry run: {text[:300]!r}")
    if failed and text:
        msg = v.failure_message if v is not None else str(out.exc)
        ctx.count_("failures_shown")
        if msg and msg not in text:
            ctx.violation("failure-message", f"{what}: the message {msg!r} is not shown: {text[-400:]!r}")
    if not failed and scn.op_kind != "upload_dir" and a["changes"]:
        t = text.rsplit("\r", 1)[-1]
        for k, f in v.final.items():
            i = v.initial[k]
            if f is None or (i == f and a["verbose"] == 0):
                continue
            vals = [string(f)] if i is None or i == f else [string(i), string(f)]
            ctx.count_("changed_values", i != f)
            if not shown_as(t, k, vals, a["verbose"]):
                ctx.violation("value-not-shown", f"{what}: {k} {i!r} -> {f!r} is not shown: {t!r}")
    scn.cleanup()


def process_error(ctx):
    r = ctx.rng
    root = fresh("pe")
    o, e = doc(r, r.choice([0, 0, 1, 2, 3, 4, 130])), doc(r, r.choice([0, 0, 1, 2, 3, 4, 130]))
    if r.random() < 0.2:
        big = [b"%d " % i + b"z" * r.choice([0, 10, 70, 300]) for i in range(r.choice([30, 300, 1500]))]
        if r.random() < 0.4:
            big.insert(r.randrange(len(big)), b"w" * r.choice([5000, 9000, 70000]) + b" end")
        big = b"\n".join(big) + r.choice([b"", b"\n"])
        o, e = (o + big, e) if r.random() < 0.5 else (o, e + big)
    probe.plan(read="none", out=o, err=e, value=3)
    inv.write(root + "/inv.py", "hosts = ['local:']\n")
    nested = r.random() < 0.3
    inv.write(root + "/d.py", "from fora import host\n" + (f"from fora.operations import local\nlocal.script({root + '/e.py'!r})\n" if nested else f"host.connection.run([{probe.PATH!r}])\n"))
    inv.write(root + "/e.py", f"from fora import host\nhost.connection.run([{probe.PATH!r}])\n")
    x = deploy.main([root + "/inv.py", root + "/d.py"])
    probe.take()
    probe.plan()
    ctx.count_("process_errors")
    ctx.evaluated(("process", o, e), "output of a failed command")
    if x.code == 0:
        ctx.violation("failed-command", "a failed command did not make the script fail")
    text = x.text + x.err
    terminal(ctx, text, "output of a failed command", False, out=o, err_=e)
    ls = text.split("\n")
    for which, b in (("stdout", o), ("stderr", e)):
        want = [esc(l) for l in b.split(b"\n") if l]
        miss = [l for l in want if ls.count(l) < want.count(l)]
        if miss:
            ctx.violation("command-output", f"{which} line {miss[0]!r} of the failed command is not shown", out=o, err_=e, text=text[-1500:])
    both = [esc(l) for l in (o + b"\n" + e).split(b"\n")]
    more = [l for l in both if len(l) > 8 and ls.count(l) > both.count(l)]
    if more:
        ctx.violation("command-output", f"line {more[0]!r} of the failed command is shown more often than it was printed", out=o, err_=e, text=text[-1500:])
    wipe(root)


def whole_program(ctx):
    """Everything a run prints, including the remote side's debugging output: no escape sequence as the output is not a terminal."""
    r = ctx.rng
    root = fresh("wp")
    url = r.choice(["local:", "ssh://somewhere"])
    inv.write(root + "/inv.py", f"hosts = [{url!r}]\n")
    old, new = pair(r)
    if old is not None:
        with open(root + "/f", "wb") as f:
            f.write(old)
    fail = r.random() < 0.3
    inv.write(root + "/d.py", "from fora.operations import files, local\nfrom fora import host\n"
              f"files.upload_content(content={new!r}, dest={root + '/f'!r})\n" + ("host.connection.run(['false'])\n" if fail else ""))
    opts = [o for o in ("--debug", "--diff", "--dry", "-v", "--no-changes") if r.random() < (0.7 if o == "--debug" else 0.3)]
    env = dict(os.environ, PATH="/tmp/sshbin/bin:" + os.environ["PATH"], TERM="xterm")
    if r.random() < 0.7:
        opts.append("--no-color")
    elif r.random() < 0.5:
        env["NO_COLOR"] = "1"
    sshbin.conf(path=os.environ["PATH"])
    x = deploy.program(opts + [root + "/inv.py", root + "/d.py"], cwd=root, env=env)
    ctx.count_("programs")
    ctx.count_("debug_programs", "--debug" in opts)
    ctx.evaluated(("program", url, opts, old, new), "output of a whole run")
    if (x.code != 0) != fail:
        ctx.violation("program-status", f"{opts} {url}: exit {x.code} although the script {'fails' if fail else 'succeeds'}: {x.brief()}", old=old, new=new)
    terminal(ctx, x.text + x.err.replace("\t", " "), f"a run via {url} with {opts}", False, old=old, new=new)
    wipe(root)


def run(ctx):
    mix.setup()
    sshbin.setup()
    probe.setup()
    ss = Sessions(60, **mix.SESSION)
    try:
        for i in ctx.cases(3600, 40000):
            k = i // 8 % 10
            if k < 4:
                direct(ctx)
            elif k < 7:
                operation(ctx, ss.get())
            elif k < 9 or i % 3:
                status(ctx, ss.get())
            else:
                ss.close()
                process_error(ctx)
                whole_program(ctx)
    finally:
        ss.close()


_ = engine
