"""Control of the man-in-the-middle that cuts or fragments the streams of a session."""
import os
import subprocess
import time

DIR = "/tmp/mitm"
SRC = os.path.join(os.path.dirname(os.path.abspath(__file__)), "native", "mitm.c")
SEQ = 0


def setup():
    if os.path.isdir(DIR):
        return
    os.makedirs(DIR + "/bin")
    subprocess.run(["gcc", "-O1", "-o", DIR + "/bin/python3", SRC], check=True)
    plan()


def plan(direction="-", offset=-1, frag=0):
    """Takes effect with the next request."""
    global SEQ
    SEQ += 1
    with open(DIR + "/plan.tmp", "w") as f:
        f.write(f"{SEQ} {direction} {offset} {frag}\n")
    os.rename(DIR + "/plan.tmp", DIR + "/plan")


def state():
    """(seq matches, request bytes, response bytes, exit code of the remote side or -1 while running)."""
    try:
        with open(DIR + "/state") as f:
            s, a, b, c = (int(x) for x in f.read().split())
    except (OSError, ValueError):
        return False, 0, 0, -1
    return s == SEQ, a, b, c


def wait_exit(limit=25):
    """Exit code of the remote side; -2 if it did not terminate within 20 s after its input ended; None if unknown."""
    t = time.monotonic()
    while time.monotonic() - t < limit:
        ok, _, _, c = state()
        if ok and c != -1:
            return c
        time.sleep(0.002)
    return None
