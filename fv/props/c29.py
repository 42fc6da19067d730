"""C29: operations defined by users follow the same contract as the builtin ones."""
import subprocess

import fora
from fora.operations.api import Operation, OperationError, OperationResult, operation

from .. import engine, gen
from ..foraenv import call
from ._ops import Sessions

LEVEL = "exploration"
RULE = ("generated operations (sequences of state declarations, questions about changes, diffs, defaults blocks, remote commands, nested calls of other generated operations, failures, exceptions of several kinds and missing "
        "results, in valid and invalid order) are called repeatedly with random options; every answer they get, the returned result or raised exception and the output are compared with a model of the contract; "
        "non-trivial: distinct (sequence of steps, outcome)")
REQUIRED = {"quick": {"calls": 9000, "nested_calls": 2500, "successes": 2500, "failures": 1500, "answers": 5000, "contract_errors": 1200, "exceptions": 800, "diffs": 500, "commands_failed": 300, "defaults": 400, "positional": 600, "names": 500}, "thorough": {"calls": 90000}}


class Boom(Exception):
    pass


VALUES = [None, True, False, 0, 1, "", "a", "A", "a ", [], ["a"], ["a", "b"], ["b", "a"], {}, {"k": None}, {"k": 1}, (1,), b"", b"a", "None", 1.0, "1", "0", {"k": []}, set(), {1}]
KEYS = ["exists", "mode", "owner", "k3", "value", "target"]
LOG = []


class Spec:
    """A generated operation: its steps, and the real decorated function that performs them."""
    count = 0

    def __init__(self, r, depth=0):
        Spec.count += 1
        self.id = Spec.count
        self.r = r
        self.steps = steps(r, depth)
        self.opname = r.choice(["op", "own operation", "x", "ünï"]) + str(self.id)

        @operation(self.opname)
        def fn(arg, name=None, check=True, op=Operation.internal_use_only):
            LOG.append(("enter", self.id, arg, name, check))
            for s in self.steps:
                ret = perform(s, op)
                if ret is not None:
                    return ret[0]
            return None
        self.fn = fn

    def shape(self):
        return tuple((s[0], s[2].shape() if s[0] == "nest" else s[1].shape() if s[0] == "call" else s[1][0] if s[0] in ("try", "block") else None) for s in self.steps)


def state(r, keys, base=None):
    d = {k: r.choice(VALUES) for k in keys}
    if base is not None:
        for k in keys:
            if r.random() < 0.6:
                d[k] = base[k]
    return d


def question(r, keys):
    if not keys:
        return "unchanged", r.random() < 0.5
    return r.choice([("unchanged", False), ("unchanged", True), ("changed", r.choice(keys)), ("changed", r.choice(keys))])


def last(r):
    return r.choices([("success",), ("failure", r.choice(["it failed", "", "ünï\nmulti", "x" * 200])), ("none",), ("raise", OperationError), ("raise", Boom), ("raise", ValueError), ("raise", KeyError), ("command", False), ("raise", OSError)],
                     [12, 3, 1, 2, 1, 1, 1, 2, 1])[0]


def steps(r, depth):
    keys = r.sample(KEYS, r.randint(1, 4))
    s = []
    if r.random() < 0.95:
        s.append(("desc", gen.token(r)))
    if depth < 3 and r.random() < 0.3:
        s.append(("nested",))
        if r.random() < 0.5:
            s.reverse()
        for i in range(r.randint(0, 3)):
            inner = inner if i and r.random() < 0.3 else Spec(r, depth + 1)
            s.append(("nest", r.choice([f"k{i}", f"k{i}", f"k{i}", "k0"]), inner, r.random() < 0.6))
            if r.random() < 0.15:
                s.append(("try", r.choice([("initial", state(r, keys)), ("final", state(r, keys)), ("changed", keys[0]), ("diff", "dfile", b"a", b"b"), ("unchanged", False)])))
        s.append(last(r))
        return s
    if r.random() < 0.06:
        keys = []
    a = state(r, keys)
    b = dict(a) if r.random() < 0.3 else state(r, keys, a)
    body = [("initial", a), ("final", b)]
    # questions before the states are known, and in between
    for _ in range(r.choice([0, 0, 0, 1])):
        body.insert(r.randint(0, 1), ("try", question(r, keys)) if r.random() < 0.7 else question(r, keys))
    x = r.random()
    if x < 0.04:
        body = [("final", b), ("initial", a)]
    elif x < 0.10:
        body.remove(r.choice(body))
    elif x < 0.18:
        dup = r.choice([("initial", state(r, keys)), ("final", state(r, keys))])
        body.append(("try", dup) if r.random() < 0.7 else dup)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        body.append(question(r, keys))
    for _ in range(r.choice([0, 0, 1, 2])):
        old, new = r.choice([None, b"", b"a\n", b"b", b"x\ny\n"]), r.choice([None, b"", b"a\n", b"b", b"x\ny\n"])
        body.append(("diff", "diff-" + gen.token(r) + str(r.randrange(10 ** 9)), old, new))
    if r.random() < 0.15:
        body.append(("block", r.choice([("umask", "0" + r.choice("1234567") * 2), ("file_mode", r.choice(["640", "4711"])), ("owner", "alice")]), r.random() < 0.3))
    if r.random() < 0.1:
        body.append(("command", True))
    if depth < 3 and r.random() < 0.1:
        # a plain call of another operation, whose result is only looked at
        body.append(("call", Spec(r, depth + 1), r.random() < 0.5))
    if r.random() < 0.04:
        body.append(("try", ("add", "k")))
    return s + body + [last(r)]


def show(x):
    if not isinstance(x, OperationResult):
        return ("value", repr(x))
    return ("result", x.success, x.changed, x.initial, x.final, x.failure_message)


def perform(s, op):
    """Performs one step for real. Returns (value,) to return from the operation."""
    k = s[0]
    if k == "desc":
        op.desc(s[1])
    elif k == "nested":
        op.nested(True)
    elif k == "initial":
        op.initial_state(**s[1])
    elif k == "final":
        op.final_state(**s[1])
    elif k == "unchanged":
        LOG.append(("answer", op.unchanged(ignore_none=True) if s[1] else op.unchanged()))
    elif k == "changed":
        LOG.append(("answer", op.changed(s[1])))
    elif k == "diff":
        op.diff(*s[1:])
    elif k == "add":
        op.add_nested_result(s[1], OperationResult(True, False, {}, {}))
    elif k == "try":
        try:
            perform(s[1], op)
            LOG.append(("no error",))
        except OperationError:
            LOG.append(("contract error",))
    elif k == "block":
        d = fora.script.current_defaults()
        before = getattr(d, s[1][0])
        try:
            with op.defaults(**{s[1][0]: s[1][1]}) as d:
                LOG.append(("inside", getattr(d, s[1][0]), getattr(fora.script.current_defaults(), s[1][0])))
                if s[2]:
                    raise Boom("left")
        except Boom:
            pass
        LOG.append(("outside", getattr(fora.script.current_defaults(), s[1][0]) == before))
    elif k == "command":
        t = "tok" + str(len(LOG))
        fora.host.connection.run(["sh", "-c", "printf 'out-%s\\n' \"$0\"; " + ("exit 0" if s[1] else "exit 7"), t])
        LOG.append(("command",))
    elif k == "nest":
        res = s[2].fn(s[2].id, check=s[3])
        LOG.append(("nested", show(res)))
        op.add_nested_result(s[1], res)
    elif k == "call":
        res = s[1].fn("a", check=s[2], name="inner")
        LOG.append(("called", show(res)))
    elif k == "success":
        return (op.success(),)
    elif k == "failure":
        return (op.failure(s[1]),)
    elif k == "none":
        return (None,)
    elif k == "raise":
        raise s[1]("raised")
    return None


# ------------------------------------------------------------------ the contract

class Raised(Exception):
    """kind: the class that must be raised; text: its message, or None."""
    def __init__(self, kind, text=None):
        super().__init__(kind, text)
        self.kind, self.text = kind, text


class Model:
    def __init__(self):
        self.log = []
        self.diffs = []      # (file, shown)
        self.failed_commands = []

    def invoke(self, spec, arg, name, check):
        self.log.append(("enter", spec.id, arg, name, check))
        st = {"i": None, "f": None, "n": False, "d": []}
        try:
            ret = self.body(spec, st)
        except Raised as e:
            ret = ("result", False, False, st["i"] or {}, st["f"] or {}, e.text)
            if e.kind is not OperationError or check:
                raise
            return ret
        if ret is None:
            raise Raised(OperationError)
        if check and not ret[1]:
            raise Raised(OperationError, ret[5])
        return ret

    def body(self, spec, st):
        for s in spec.steps:
            r = self.step(s, st)
            if r is not None:
                return r[0]
        return None

    def step(self, s, st):
        k = s[0]
        if k == "nested":
            st["n"] = True
        elif k in ("initial", "final"):
            if st["n"] or st[k[0]] is not None:
                raise Raised(OperationError)
            st[k[0]] = dict(s[1])
        elif k in ("unchanged", "changed"):
            if k == "changed" and st["n"] or st["i"] is None or st["f"] is None:
                raise Raised(OperationError)
            if k == "changed":
                self.log.append(("answer", st["i"][s[1]] != st["f"][s[1]]))
            else:
                self.log.append(("answer", all(st["i"][x] == st["f"][x] for x in st["f"] if not (s[1] and st["f"][x] is None))))
        elif k == "diff":
            if st["n"]:
                raise Raised(OperationError)
            st["d"].append((s[1], s[2] != s[3]))
        elif k == "add":
            if not st["n"]:
                raise Raised(OperationError)
        elif k == "try":
            try:
                self.step(s[1], st)
                self.log.append(("no error",))
            except Raised as e:
                if e.kind is not OperationError:
                    raise
                self.log.append(("contract error",))
        elif k == "block":
            v = s[1][1] if s[1][0] not in ("umask", "file_mode") else oct(int(s[1][1], 8))[2:]
            self.log += [("inside", v, v), ("outside", True)]
        elif k == "command":
            if not s[1]:
                self.failed_commands.append("tok" + str(len(self.log)))
                raise Raised(subprocess.CalledProcessError)
            self.log.append(("command",))
        elif k == "nest":
            res = self.invoke(s[2], s[2].id, None, s[3])
            self.log.append(("nested", res))
            if st["i"] is None:
                st["i"], st["f"] = {}, {}
            if s[1] in st["i"]:
                raise Raised(OperationError)
            st["i"][s[1]], st["f"][s[1]] = res[3], res[4]
        elif k == "call":
            self.log.append(("called", self.invoke(s[1], "a", "inner", s[2])))
        elif k == "success":
            if st["i"] is None or st["f"] is None:
                raise Raised(OperationError)
            if not st["n"]:
                self.diffs += st["d"]
            return (("result", True, st["i"] != st["f"], st["i"], st["f"], None),)
        elif k == "failure":
            self.diffs += [(f, False) for f, _ in st["d"]]
            return (("result", False, False, st["i"] or {}, st["f"] or {}, s[1]),)
        elif k == "none":
            return (None,)
        elif k == "raise":
            raise Raised(s[1], str(s[1]("raised")))
        return None


def same(a, b):
    """Equality of logged values; messages that the contract leaves open are None in the expectation."""
    if isinstance(b, tuple) and b and b[0] == "result":
        return isinstance(a, tuple) and len(a) == 6 and a[:3] == b[:3] and deep(a[3], b[3]) and deep(a[4], b[4]) and (a[5] == b[5] if a[1] or b[5] is not None else isinstance(a[5], str))
    if isinstance(b, tuple):
        return isinstance(a, tuple) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return type(a) is type(b) and a == b


def deep(a, b):
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


def run(ctx):
    ss = Sessions(60)
    try:
        for _ in ctx.cases(6000, 60000):
            S = ss.get()
            case(ctx, S)
    finally:
        ss.close()


def case(ctx, S):
    r = ctx.rng
    spec = Spec(r)
    for n in range(r.choice([1, 1, 2, 3])):
        check = r.random() < 0.6
        name = r.choice([None, None, "given name", "ünï x"])
        args = dict(engine.out_args(ctx) or {})
        if r.random() < 0.3:
            args["dry"] = True
        if r.random() < 0.1:
            args["debug"] = True
        kw = dict(name=name) if name is not None or r.random() < 0.3 else {}
        if not check or r.random() < 0.5:
            kw["check"] = check
        positional = []
        if r.random() < 0.15:
            # the arguments may as well be given by position
            kw.pop("name", None)
            positional = [name]
            if "check" in kw and r.random() < 0.8:
                positional.append(kw.pop("check"))
            ctx.count_("positional")
        del LOG[:]
        out = S.op(lambda **k: spec.fn(7, *positional, **k), args=args, **kw)
        got = list(LOG)
        m = Model()
        want = None
        try:
            res = m.invoke(spec, 7, name, check)
        except Raised as e:
            want, res = e, None
        ctx.count_("calls")
        ctx.count_("nested_calls", sum(1 for x in got if x[0] == "enter") - 1)
        ctx.count_("answers", sum(1 for x in got if x[0] == "answer"))
        ctx.count_("contract_errors", sum(1 for x in got if x[0] == "contract error"))
        ctx.count_("defaults", sum(1 for x in got if x[0] == "inside"))
        what = f"call {n + 1} of {brief(spec)} with {positional} {kw} {args}"
        ctx.evaluated((spec.shape(), check, res is not None and res[1], want.kind.__name__ if want else None), brief(spec))
        # what happened inside
        for i, (a, b) in enumerate(zip(got, m.log)):
            if not same(a, b):
                ctx.violation("inside:" + str(b[0]).replace(" ", "-"), f"{what}: event {i} is {a} instead of {b}")
                return
        if len(got) != len(m.log):
            ctx.violation("inside", f"{what}: events {got[len(m.log):]} instead of {m.log[len(got):]}; {out.brief()}")
            return
        # how it ended
        if want is not None:
            ctx.count_("exceptions" if want.kind is not OperationError else "failures")
            if out.ok:
                ctx.violation("not-raised", f"{what}: {out.brief()} instead of {want.kind.__name__}: {want.text}")
            elif type(out.exc) is not want.kind or (want.text is not None and str(out.exc) != want.text):
                ctx.violation("wrong-exception", f"{what}: {out.brief()} instead of {want.kind.__name__}: {want.text}")
        elif not out.ok:
            ctx.violation("raised", f"{what}: {out.brief()} instead of {res}")
        elif not same(show(out.value), res):
            ctx.violation("wrong-result", f"{what}: {out.brief()} instead of {res}")
        else:
            ctx.count_("successes" if res[1] else "failures")
            if name is not None and not any(x[0] == "nested" for x in spec.steps):
                ctx.count_("names")
                if name not in out.text:
                    ctx.violation("name", f"{what}: the given name is not shown: {out.text!r}")
        if args.get("debug"):
            ctx.count_("debug")
            continue
        # what was shown
        if args.get("diff") and args.get("changes", True):
            for f, shown in m.diffs:
                ctx.count_("diffs")
                if (f in out.text) != shown:
                    ctx.violation("diff-shown", f"{what}: the diff of {f} is {'missing' if shown else 'shown although there is none'}")
        elif any(f in out.text for f, _ in m.diffs):
            ctx.violation("diff-shown", f"{what}: a diff is shown although none was requested")
        for t in m.failed_commands:
            ctx.count_("commands_failed")
            if out.err.count("out-" + t) != 1:
                ctx.violation("command-output", f"{what}: the output of the failed command is shown {out.err.count('out-' + t)} times; stderr {out.err!r}")
        if ctx.violations:
            return


def brief(spec):
    def b(s):
        if s[0] in ("nest",):
            return (s[0], s[1], [b(x) for x in s[2].steps], s[3])
        if s[0] == "call":
            return (s[0], [b(x) for x in s[1].steps], s[2])
        return s
    return str([b(s) for s in spec.steps])


_ = call
