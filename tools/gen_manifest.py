"""Writes MANIFEST.json from the table below. A property is claimed when its workload module exists."""
import importlib
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
    "C01": ("host state monitor (lstat/read/readlink of the whole tree before and after) with reference model on random hostile workloads",
            "real operations through the real local connector and dispatcher on a private file system; every path of the scratch tree is observed"),
    "C02": ("online checker of reported initial/final/changed against independently observed host state, with repeated runs",
            "all operations; package and service managers are logging stand-ins, accounts use the real shadow tools on a private /etc, git is real"),
    "C03": ("strict host snapshot (content, attributes, inode, times, manager log) around dry runs and comparison with the following real run",
            "all operations on random prior states; stand-ins for package and service managers"),
    "C04": ("fault injection at every request and command of an operation with an outcome monitor",
            "each request/command of a scenario is made to fail (connection loss, OS error, exit status, signal, kill, full or read-only file system); capped per scenario"),
    "C05": ("observation of the executed process from inside (argv, stdin, cwd, umask, ids, fds) compared with the request",
            "probe program runs as the remote command and reports what it received; users and groups of a private account database"),
    "C06": ("round-trip and stat monitor against direct lstat/read of the host",
            "random content and sizes across protocol boundaries, file types, attributes, extreme times"),
    "C07": ("comparison of lookups with the account databases parsed independently",
            "random private passwd/group/shadow databases, identities and environments of the remote side"),
    "C08": ("online answer checker over random request sequences with failing and malformed requests",
            "each answer is compared with the host state by an independent model; sentinel requests after each fault"),
    "C09": ("fault enumeration over every byte offset of recorded sessions in both directions with an outcome monitor",
            "all truncation points of recorded sessions (quick: strided for long ones); the request effect monitor watches the host"),
    "C10": ("process, descriptor and state leak monitor around connection life cycles with injected failures",
            "processes and descriptors are observed with waitpid and fstat; failures injected at start-up, during requests and at close"),
    "C11": ("monitor of effective settings (probe command, created files) along random nesting of defaults blocks",
            "reference model is a stack of overlays; exceptions, nested scripts and invalid settings included"),
    "C12": ("event log of module executions and resolved variables checked offline against a reference model of group order",
            "random inventories written to disk and loaded by the real loader"),
    "C13": ("differential monitor: accept/reject verdict of the loader against a reference definition of ambiguity",
            "random inventories with definitions and in-place modifications under partial orders"),
    "C14": ("verdict and side-effect monitor over random valid inventories and single mutations that make them invalid",
            "runs the real command line entry in a child process; marker files show whether anything ran"),
    "C15": ("comparison of each host's resolved variables alone and together with others, including object identity and in-place changes",
            "random inventories; host order permuted"),
    "C16": ("event log of connections and script executions checked against the selected host list",
            "the real entry point with a recording connector; failures injected at chosen hosts"),
    "C17": ("trace monitor of script enter/exit state (cwd, script, variables, defaults) over random script trees",
            "generated script trees with parameters, exceptions and recursion"),
    "C18": ("host state monitor with templates generated together with their expected rendering",
            "rendering oracle is the generator itself, not jinja"),
    "C19": ("host state monitor with a byte-level reference model of line editing", "random files, options and backups"),
    "C20": ("account database monitor with reference model, real shadow tools on a private /etc", "assumes the shadow utilities work as documented"),
    "C21": ("command log and state monitor on stand-ins of the managers", "assumes the managers follow the contract implemented by the stand-ins"),
    "C22": ("host state monitor with reference model of the tree", "random source trees and prior destinations; symbolic links in the source are out of scope"),
    "C23": ("repository monitor (git inspection) on local upstreams", "real git, file urls"),
    "C24": ("argument vector recorder in place of ssh plus a session through a POSIX shell", "the stand-in runs the remote command with sh -c as sshd does"),
    "C25": ("diff application oracle and terminal byte monitor on captured output", "random contents and operations"),
    "C26": ("file tree monitor around --init and loading of the result by the real loader", "runs in a child process in scratch directories"),
    "C27": ("parser of the printed inventory compared with an offline replay of the generated group, host and inventory modules", "in-process run of the real entry point; connection programs are recording stand-ins"),
    "C28": ("exit status, marker and traceback monitor on generated failing deploys run as a program", "one failing statement at a known line per deploy"),
    "C29": ("trace monitor inside generated operations (answers, outcome, output) against a model of the operation contract", "random operation bodies, valid and invalid, nested up to three levels"),
}


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        f = os.path.join(HERE, "fv", "props", i.lower() + ".py")
        if not os.path.exists(f):
            na.append({"property": i, "reason": "check not built yet"})
            continue
        level = re.search(r'^LEVEL = "(\w+)"', open(f).read(), re.M).group(1)
        cmd = f"/opt/venv/bin/python check.py {i}"
        checks.append({"property": i, "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough",
                       "technique": "runtime monitoring: " + T[i][0], "level": level, "level_note": T[i][1]})
    m = {"version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q fv check.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks are added to /repo: the monitors observe the host, the connector interface and child processes from outside."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
