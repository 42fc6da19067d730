"""Development aid: systematic single-edit mutants of /repo/src/fora, each tried against the quick checks mapped to its file.
  automut.py LOG [--per-file N] [--seed S] [FILE...]        writes one line per mutant; never touches /repo
Mutants: comparison and boolean operators, constant conditions, dropped statements, arguments, list elements and
exception types, exchanged constants and branches. Survivors (SURVIVED lines) need a look by hand."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SRC = "/repo/src/fora"
MAP = {
    "connectors/tunnel_dispatcher.py": "C05 C06 C07 C08 C09 C04 C10 C01",
    "connectors/tunnel_connector.py": "C05 C07 C06 C08 C09 C10 C04 C01",
    "connectors/connector.py": "C06 C24 C05 C10",
    "connectors/local.py": "C25 C24 C10",
    "connectors/ssh.py": "C24 C25 C10",
    "connection.py": "C11 C05 C06 C07 C10 C04 C01",
    "remote_settings.py": "C11 C01 C29",
    "types.py": "C11 C17 C12 C18 C24 C27 C29",
    "inventory_wrapper.py": "C12 C13 C14 C15 C24 C27",
    "utils.py": "C14 C28 C25 C12 C27 C29",
    "loader.py": "C17 C14 C16 C28 C11",
    "main.py": "C16 C27 C14 C26 C28",
    "example_deploys.py": "C26",
    "logger.py": "C25 C29 C27",
    "operations/api.py": "C29 C02 C04 C28",
    "operations/files.py": "C01 C19 C22 C18 C03 C02 C04",
    "operations/utils.py": "C01 C21 C25 C03 C04",
    "operations/system.py": "C20 C21 C03 C04",
    "operations/systemd.py": "C21 C03 C04",
    "operations/apt.py": "C21 C03 C04",
    "operations/pacman.py": "C21 C03 C04",
    "operations/portage.py": "C21 C03 C04",
    "operations/git.py": "C23 C03 C04",
    "operations/local.py": "C17 C28",
}
CMP = {ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in", ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">"}


class Gen(ast.NodeVisitor):
    def __init__(self, src):
        self.src = src
        self.lines = src.splitlines(keepends=True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.b = src.encode()
        self.out = []
        self.fn = []

    def pos(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def text(self, n):
        a, z = self.pos(n)
        return self.b[a:z].decode()

    def rep(self, n, new, kind):
        a, z = self.pos(n)
        s = (self.b[:a] + new.encode() + self.b[z:]).decode()
        try:
            ast.parse(s)
        except SyntaxError:
            return
        self.out.append((n.lineno, kind, self.b[a:z].decode(), new, s))

    def visit_FunctionDef(self, n):
        self.fn.append(n.name)
        args = n.args
        for d in args.defaults + [x for x in args.kw_defaults if x]:
            self.visit(d)
        for s in n.body:
            self.visit(s)
        self.fn.pop()

    def visit_AnnAssign(self, n):
        if n.value is not None:
            self.visit(n.value)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and not self.text(n).startswith(("log.", "logger.")):
            self.rep(n, "pass", "drop-call")
        self.generic_visit(n)

    def visit_Raise(self, n):
        self.rep(n, "pass", "drop-raise")

    def visit_Assign(self, n):
        if isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            self.rep(n, "pass", "drop-assign")
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.rep(n, "pass", "drop-aug")
        self.generic_visit(n)

    def visit_Return(self, n):
        if n.value is None:
            self.rep(n, "pass", "drop-return")
        self.generic_visit(n)

    def visit_Break(self, n):
        self.rep(n, "continue", "break")

    def visit_Continue(self, n):
        self.rep(n, "pass", "continue")

    def cond(self, n):
        self.rep(n.test, "True", "cond-true")
        self.rep(n.test, "False", "cond-false")

    def visit_If(self, n):
        if "TYPE_CHECKING" in self.text(n.test):
            return
        self.cond(n)
        self.generic_visit(n)

    def visit_IfExp(self, n):
        self.rep(n, "(" + self.text(n.body) + ")", "ifexp-a")
        self.rep(n, "(" + self.text(n.orelse) + ")", "ifexp-b")
        self.generic_visit(n)

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            l, r = self.text(n.left), self.text(n.comparators[0])
            self.rep(n, f"({l} {CMP[type(n.ops[0])]} {r})", "cmp")
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = " and " if isinstance(n.op, ast.And) else " or "
        other = " or " if isinstance(n.op, ast.And) else " and "
        vs = ["(" + self.text(v) + ")" for v in n.values]
        self.rep(n, "(" + other.join(vs) + ")", "boolop")
        for i in range(len(vs)):
            self.rep(n, "(" + op.join(vs[:i] + vs[i + 1:]) + ")", "drop-operand")
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.rep(n, "(" + self.text(n.operand) + ")", "drop-not")
        self.generic_visit(n)

    def visit_Constant(self, n):
        if n.value is True or n.value is False:
            self.rep(n, str(not n.value), "bool")
        elif isinstance(n.value, int):
            self.rep(n, str(n.value + 1), "int")

    def visit_JoinedStr(self, n):
        pass

    def visit_List(self, n):
        if isinstance(n.ctx, ast.Load) and len(n.elts) > 1:
            for i in range(len(n.elts)):
                self.rep(n, "[" + ", ".join(self.text(e) for j, e in enumerate(n.elts) if j != i) + "]", "drop-elt")
        self.generic_visit(n)

    def visit_Call(self, n):
        f = self.text(n.func)
        if f.startswith(("logger.", "log.", "parser.", "argparse")) or f.endswith(("Error", "debug")) or "add_argument" in f:
            return
        for i, k in enumerate(n.keywords):
            if k.arg:
                parts = [self.text(a) for a in n.args] + [(x.arg + "=" if x.arg else "**") + self.text(x.value) for j, x in enumerate(n.keywords) if j != i]
                self.rep(n, f"{f}({', '.join(parts)})", "drop-kwarg")
        self.generic_visit(n)

    def visit_ExceptHandler(self, n):
        if isinstance(n.type, ast.Tuple):
            for i in range(len(n.type.elts)):
                es = [self.text(e) for j, e in enumerate(n.type.elts) if j != i]
                self.rep(n.type, "(" + ", ".join(es) + ",)", "drop-except")
        for s in n.body:
            self.visit(s)

    def visit_Slice(self, n):
        self.generic_visit(n)


def main():
    args = sys.argv[1:]
    log = args.pop(0)
    per, seed, files, skip = 10 ** 6, 1, [], set()
    while args:
        a = args.pop(0)
        if a == "--per-file":
            per = int(args.pop(0))
        elif a == "--seed":
            seed = int(args.pop(0))
        elif a == "--count":
            per = 0
        else:
            files.append(a)
    if os.path.exists(log):
        for l in open(log):
            skip.add(tuple(json.loads(l)["key"]))
    base = f"/var/tmp/automut-{os.getpid()}"
    for f in files or list(MAP):
        src = open(f"{SRC}/{f}").read()
        g = Gen(src)
        g.visit(ast.parse(src))
        muts = {}
        for line, kind, old, new, s in g.out:
            muts.setdefault(s, (line, kind, old, new))
        ms = sorted(((l, k, o, n, s) for s, (l, k, o, n) in muts.items()))
        print(f, len(ms), flush=True)
        random.Random(f"{f}{seed}").shuffle(ms)
        for line, kind, old, new, s in ms[:per]:
            key = (f, line, kind, old[:80], new[:80])
            if key in skip:
                continue
            shutil.rmtree(base, ignore_errors=True)
            shutil.copytree("/repo/src", base + "/src", ignore=shutil.ignore_patterns("__pycache__"))
            with open(f"{base}/src/fora/{f}", "w") as h:
                h.write(s)
            e = dict(os.environ, FV_REPO=base, FV_EVIDENCE=base + "/ev")
            res, how = "SURVIVED", ""
            for c in MAP[f].split():
                try:
                    t = subprocess.run([PY, V + "/check.py", c, "quick", "--fast"], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, check=False, timeout=400)
                except subprocess.TimeoutExpired:
                    how += f"{c}:timeout "
                    continue
                ls = t.stdout.decode(errors="replace").splitlines()
                if t.returncode == 1 and any(x.startswith("VIOLATION") for x in ls):
                    res, how = "caught", f"{c} " + next((x.strip()[:140] for x in ls if x.startswith("  ")), "")
                    break
                if t.returncode != 0:
                    how += f"{c}:exit{t.returncode} "
                    if how.count(":exit2") == 2:
                        res = "broken"      # nothing works any more
                        break
            with open(log, "a") as h:
                h.write(json.dumps(dict(key=key, res=res, how=how)) + "\n")
            print(res, key, how[:150], flush=True)
    shutil.rmtree(base, ignore_errors=True)


main()
