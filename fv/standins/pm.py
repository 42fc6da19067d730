"""
Stand-in for pacman, apt-get, dpkg-query, dpkg, emerge and systemctl, selected by argv[0]. It keeps a
JSON state file, appends every invocation to a log and can be told to fail. It implements the
command line contract of the real tools as far as package and service management needs it.
"""
import json
import os
import sys

DIR = "/tmp/pm"


def main():
    tool = os.path.basename(sys.argv[0])
    argv = sys.argv[1:]
    with open(DIR + "/state.json") as f:
        st = json.load(f)
    if "--" in argv:
        i = argv.index("--")
        opts, targets = argv[:i], argv[i + 1:]
    else:
        opts = [a for a in argv if a.startswith("-")]
        targets = [a for a in argv if not a.startswith("-")]
    rc, out, err, mut = 0, "", "", None
    try:
        rc, out, err, mut = globals()["do_" + tool.replace("-", "_")](st, argv, opts, targets)
    finally:
        entry = dict(tool=tool, argv=argv, opts=opts, targets=targets, mut=mut, rc=rc)
        with open(DIR + "/log", "a") as f:
            f.write(json.dumps(entry) + "\n")
    if mut and rc == 0:
        with open(DIR + "/state.json.n", "w") as f:
            json.dump(st, f)
        os.rename(DIR + "/state.json.n", DIR + "/state.json")
    sys.stdout.write(out)
    sys.stdout.flush()
    sys.stderr.write(err)
    sys.stderr.flush()
    os._exit(rc)


def install(st, targets, world=True):
    bad = [t for t in targets if t in st["unavailable"]]
    if bad or not targets:
        return 1, "", f"error: target not found: {bad}\n", "install"
    for t in targets:
        st["installed"][t] = st["installed"].get(t, 0) + 1
        st["residual"] = [r for r in st["residual"] if r != t]
        if world and t not in st["world"]:
            st["world"].append(t)
    return 0, "installed\n", "", "install"


def remove(st, targets, residual=False, strict=True):
    bad = [t for t in targets if t not in st["installed"]]
    if (bad and strict) or not targets or any(t in st["essential"] for t in targets):
        return 1, "", f"error: cannot remove: {bad}\n", "remove"
    for t in targets:
        st["installed"].pop(t, None)
        st["world"] = [w for w in st["world"] if w != t]
        if residual and t not in st["residual"]:
            st["residual"].append(t)
    return 0, "removed\n", "", "remove"


def do_pacman(st, argv, opts, targets):
    op = next((o for o in opts if len(o) > 1 and o[0] == "-" and o[1] in "QSRDTU"), "")
    targets = [t for t in targets if t != "always"] if "--" not in argv else targets
    if op.startswith("-Q"):
        miss = [t for t in targets if t not in st["installed"]]
        return (1 if miss else 0), "".join(f"{t} /usr/\n" for t in targets if t in st["installed"]), \
            "".join(f"error: package '{t}' was not found\n" for t in miss), None
    if "--noconfirm" not in opts:
        return 1, ":: Proceed with installation? [Y/n]", "error: aborted\n", None
    if op.startswith("-S"):
        return install(st, targets)
    if op.startswith("-R"):
        return remove(st, targets)
    return 1, "", "error: no operation specified\n", None


def do_apt_get(st, argv, opts, targets):
    verb = next((a for a in argv if a in ("install", "remove", "purge")), None)
    targets = [t for t in targets if t != verb] if "--" not in argv else targets
    if verb == "install":
        return install(st, targets)
    if verb == "remove":
        return remove(st, targets, residual=True, strict=False)
    if verb == "purge":
        return remove(st, targets, strict=False)
    return 100, "", "E: Invalid operation\n", None


def status(st, t):
    if t in st["installed"]:
        return ("hold" if t in st["held"] else "install") + " ok installed"
    if t in st["residual"]:
        return "deinstall ok config-files"
    if t in st["known"]:
        return st["known"][t]
    return None


def do_dpkg_query(st, argv, opts, targets):
    fmt = "${Package}\t${Version}\n"
    for i, o in enumerate(argv):
        if o.startswith("--showformat="):
            fmt = o.split("=", 1)[1]
        elif o == "-f":
            fmt = argv[i + 1]
        elif o.startswith("-f=") or o.startswith("-f$"):
            fmt = o[2:].lstrip("=")
    if any(o in ("-s", "--status") for o in opts):
        fmt = "Package: ${Package}\nStatus: ${Status}\n"
    out, rc, err = "", 0, ""
    for t in targets:
        s = status(st, t)
        if s is None:
            rc = 1
            err += f"dpkg-query: no packages found matching {t}\n"
        else:
            out += fmt.replace("${Package}", t).replace("${binary:Package}", t).replace("${Status}", s).replace("${db:Status-Status}", s.split()[2]) \
                .replace("${Version}", "1.0").replace("${db:Status-Abbrev}", {"install ok installed": "ii ", "hold ok installed": "hi ", "unknown ok not-installed": "un "}.get(s, "rc ")).replace("\\n", "\n")
    return rc, out, err, None


def do_dpkg(st, argv, opts, targets):
    return do_dpkg_query(st, ["-s"] + argv, ["-s"] + opts, targets)


def do_emerge(st, argv, opts, targets):
    if "--info" in opts:
        out = "Portage 3.0.30 (python 3.9.9-final-0, ...)\n"
        for t in targets:
            if t in st["installed"]:
                out += f"\n{t}-1.0::gentoo was built with the following:\nUSE=\"\"\n"
        return 0, out, "", None
    if "--depclean" in opts or "-c" in opts or "--unmerge" in opts or "-C" in opts:
        return remove(st, targets, strict=False)
    return install(st, targets, world="--oneshot" not in opts and "-1" not in opts)


def do_systemctl(st, argv, opts, targets):
    user = "--user" in opts
    units = st["units"]["user" if user else "system"]
    words = [a for a in (argv[:argv.index("--")] if "--" in argv else argv) if not a.startswith("-")]
    verbs = ("show", "start", "stop", "restart", "reload", "enable", "disable", "is-active", "is-enabled", "daemon-reload", "daemon-reexec",
             "reload-or-restart", "try-restart", "reenable", "mask", "unmask")
    verb = next((w for w in words if w in verbs), None)
    if "--" not in argv:
        targets = words[words.index(verb) + 1:] if verb else []
    norm = lambda u: u if "." in u else u + ".service"
    known = {norm(k): v for k, v in units.items()}
    if verb == "daemon-reload":
        if st["reload_fails"]:
            return 1, "", "Failed to reload daemon\n", "daemon-reload"
        st["reloads"]["user" if user else "system"] += 1
        return 0, "", "", "daemon-reload"
    if verb == "show":
        props = []
        for i, o in enumerate(argv):
            if o in ("--property", "-p"):
                props += argv[i + 1].split(",")
            elif o.startswith("--property="):
                props += o.split("=", 1)[1].split(",")
        if "--" not in argv:
            targets = [t for t in targets if t not in ",".join(props).split(",")]
        out = ""
        for t in targets:
            u = known.get(norm(t))
            for p in props:
                v = {"ActiveState": u["active"] if u else "inactive", "UnitFileState": u["file"] if u else "",
                     "LoadState": "loaded" if u else "not-found"}.get(p, "")
                out += (v if "--value" in opts else f"{p}={v}") + "\n"
        return 0, out, "", None
    for t in targets:
        u = known.get(norm(t))
        if verb == "is-active":
            a = u["active"] if u else "inactive"
            return (0 if a == "active" else 3), a + "\n", "", None
        if verb == "is-enabled":
            a = u["file"] if u else "not-found"
            return (0 if a in ("enabled", "static", "enabled-runtime") else 1), a + "\n", "", None
        if u is None:
            return (5 if verb in ("start", "stop", "restart", "reload") else 1), "", f"Unit {t} not found.\n", verb
        if u["broken"] and verb in ("start", "restart", "reload", "stop"):
            return 1, "", f"Job for {t} failed\n", verb
        if verb in ("start", "restart", "reload-or-restart"):
            if u["file"] == "masked":
                return 1, "", f"Unit {t} is masked.\n", verb
            if verb == "start" and u["active"] in ("active", "reloading"):
                return 0, "", "", verb
            u["active"] = "active"
            u["starts"] += 1
        elif verb == "stop":
            u["active"] = "inactive"
        elif verb == "reload":
            if u["active"] not in ("active", "reloading"):
                return 1, "", f"{t} is not active, cannot reload.\n", verb
            u["reloads"] += 1
        elif verb == "enable":
            if u["file"] == "masked":
                return 1, "", f"Unit {t} is masked\n", verb
            u["file"] = "enabled"
            if "--now" in opts and u["active"] != "active":
                u["active"] = "active"
                u["starts"] += 1
        elif verb == "disable":
            if "--now" in opts:
                u["active"] = "inactive"
            u["file"] = "disabled" if u["file"] in ("enabled", "enabled-runtime") else u["file"]
        else:
            return 1, "", f"unsupported verb {verb}\n", verb
    return (0 if targets else 1), "", "", verb


main()
