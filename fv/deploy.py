"""Runs the command line entry point in-process or as a program and tells the exit status."""
import contextlib
import io
import os
import subprocess
import sys

import fora
import fora.loader
import fora.logger
import fora.main

from .foraenv import redirect_err

SUB = "import sys; from fora.main import main; main(sys.argv[1:])"


class Run:
    def __init__(self, code, exc, text, err):
        self.code, self.exc, self.text, self.err = code, exc, text, err
        self.cwd = None

    def brief(self):
        return f"exit {self.code}" + (f" ({type(self.exc).__name__}: {self.exc})" if self.exc is not None and not isinstance(self.exc, SystemExit) else "") + " " + self.err[-300:]


def reset():
    fora.args = fora.inventory = fora.group = fora.host = fora.script = None
    del getattr(fora.loader, "script_stack", [])[:]
    if hasattr(fora.logger, "state"):
        fora.logger.state.indentation_level = 0


class Tty(io.StringIO):
    def isatty(self):
        return True


def main(argv, cwd="/tmp", stdin="", tty=False):
    """In-process; an escaping exception is what makes the interpreter exit with status 1."""
    reset()
    so, se = Tty() if tty else io.StringIO(), io.StringIO()
    hook, old, si = sys.excepthook, os.getcwd(), sys.stdin
    os.chdir(cwd)
    code, exc = 0, None
    sys.stdin = io.StringIO(stdin)
    try:
        with contextlib.redirect_stdout(so), redirect_err(se):
            fora.main.main(list(argv))
    except SystemExit as e:
        exc = e
        code = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
    except BaseException as e:  # noqa
        if type(e).__name__ == "CaseTimeout":
            raise
        code, exc = 1, e
    finally:
        after = os.getcwd()
        sys.excepthook = hook
        sys.stdin = si
        os.chdir(old)
        reset()
    x = Run(code, exc, so.getvalue(), se.getvalue())
    x.cwd = after
    return x


def program(argv, cwd="/tmp", stdin=b"", env=None, prelude=""):
    """As a program of its own."""
    p = subprocess.run([sys.executable, "-W", "ignore", "-c", prelude + "\n" + SUB] + list(argv), cwd=cwd, input=stdin, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, check=False, timeout=100)
    return Run(p.returncode, None, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace"))
