#!/usr/bin/env python3
"""Source of properties.jsonl (run from /verif: python3 tools/gen_properties.py)."""
import json
P = []
def p(id, title, statement, over, text, why, files, mech, observe):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": ["src/fora/" + f for f in files],
                          "mechanism": [{"name": n, "where": "src/fora/" + w} for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

p("C01", "File operations leave the host in exactly the requested state",
  "After a successful (non-dry) directory, file, link, upload or upload_content operation the path on the host has exactly the requested type, content or link target, permission bits (including setuid, setgid and sticky), owner and group, where anything not given comes from the defaults in effect, or does not exist if present=False was requested. This holds for every prior state of the path that the operation accepts, and everything else on the host (other files, a link's target, the directory's other entries, content of a file that is only chmod-ed) is unchanged; a requested touch updates the times. A path that exists with a different type makes the operation fail and is left untouched.",
  ["inputs", "histories", "configurations"],
  "all parameters (paths, contents, modes, owners, groups given by name or id), all defaults in effect, all prior filesystem states",
  "The tests run each operation on a few paths as the test user, with a handful of modes and no foreign owners, setuid bits, odd names or hostile prior states.",
  ["operations/files.py", "operations/utils.py", "connectors/tunnel_dispatcher.py"],
  [("file operations", "operations/files.py"), ("saving uploaded content", "operations/utils.py"), ("remote write, chown, chmod", "connectors/tunnel_dispatcher.py")],
  ["lstat/readlink/content of the whole scratch tree before and after each operation"])
p("C02", "Operations are idempotent and report changes truthfully",
  "Every operation reports changed=True exactly when the state it reports as initial differs from the state it reports as final, its reported initial state is the actual state before and its reported final state is the actual state afterwards (apart from values it leaves for the host to choose). Repeating a successful operation with the same arguments reports changed=False and modifies nothing (except operations that explicitly request an action on each run: touch, a service restart or reload, a daemon reload).",
  ["inputs", "histories"],
  "all operations, all parameters, all prior states of the host",
  "Tests repeat operations only for a few argument combinations and never compare the reported state with the actual state of the host.",
  ["operations/api.py", "operations/files.py", "operations/utils.py", "operations/system.py", "operations/systemd.py", "operations/git.py"],
  [("state comparison and result", "operations/api.py"), ("examine-then-act structure of the operations", "operations/files.py")],
  ["OperationResult of each call against snapshots of the host before and after", "inode change times during the second run"])
p("C03", "A dry run changes nothing and predicts the real run",
  "With --dry no operation modifies anything on the host: files and their attributes, accounts, packages, services and repositories are the same before and after. A dry run reports the same changed, initial and final state that the real run from the same host state then reports.",
  ["inputs", "histories", "configurations"],
  "all operations, all parameters, all prior states of the host, with and without diff output",
  "No test compares the host before and after a dry run of more than single operations, or a dry result with the real one.",
  ["operations/files.py", "operations/utils.py", "operations/system.py", "operations/systemd.py", "operations/git.py", "operations/api.py"],
  [("dry guard in each operation", "operations/files.py"), ("dry guard in saved content and packages", "operations/utils.py")],
  ["snapshot of the host around each dry run (including inode change times and commands received by stand-ins)", "result of the dry run against the result of the real run"])
p("C04", "A failed operation is never reported as success",
  "If any step that an operation needs fails on the host (a command exits non-zero, an upload or download fails, a lookup fails, the connection breaks), the operation does not return a successful result: it raises, or, for failures the operation itself detects and with check=False, returns a result with success=False and a failure message. With check=True a detected failure raises an operation error carrying that message.",
  ["fault_sequences", "inputs"],
  "a fault at every request an operation sends, for all operations and parameters",
  "Tests never make an intermediate request of an operation fail.",
  ["operations/api.py", "operations/files.py", "operations/utils.py", "operations/system.py", "operations/systemd.py", "operations/git.py", "connectors/tunnel_connector.py"],
  [("operation wrapper", "operations/api.py"), ("checked remote commands", "connectors/tunnel_connector.py")],
  ["outcome of the operation call for each injected fault"])
p("C05", "Remote commands run exactly as requested",
  "A command run through a connection receives exactly the given argument vector and exactly the given bytes on stdin (and none if no input is given), and the caller gets exactly its stdout bytes, stderr bytes and return code (negative for a signal). It runs in the requested working directory with the requested umask and with exactly the requested user, group and that user's supplementary groups (the user's primary group if no group is given), and a command that cannot be started as requested is reported as an error and not run. With check=True a non-zero return code raises with the output attached; with check=False it does not raise.",
  ["inputs", "configurations"],
  "all argument vectors, inputs, outputs, exit statuses, users, groups, umasks and directories",
  "Tests run a few commands as the invoking user with short text output.",
  ["connection.py", "connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py"],
  [("process request handling", "connectors/tunnel_dispatcher.py"), ("result conversion and check", "connectors/tunnel_connector.py")],
  ["a probe program records its argv, stdin, cwd, umask, ids and groups; its scripted output is compared with the returned result"])
p("C06", "Upload, download and stat are faithful",
  "Uploaded content arrives byte for byte with the requested mode, owner and group, and download returns exactly the bytes of the file, for every size and content. stat returns the actual type, mode, owner and group (a name if one exists, else the id), size, modification and change time in nanoseconds and on request the SHA-512 digest of the file, following links only when asked. A file that does not exist yields no stat result and a distinguishable error on download, while every other failure is raised and never looks like a missing file.",
  ["inputs"],
  "all contents and sizes, paths, modes, owners, file types and timestamps",
  "Tests stat and transfer a few small regular files.",
  ["connection.py", "connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py", "connectors/connector.py"],
  [("upload, download and stat requests", "connectors/tunnel_dispatcher.py"), ("client side conversion", "connectors/tunnel_connector.py")],
  ["os.stat, file bytes and hashlib on the same host, next to the returned values"])
p("C07", "Account and environment lookups are faithful",
  "Looking up a user or group by name or numeric id returns exactly the host's account data (name, ids, primary group, supplementary groups or members, comment, home, shell and, only if requested, the password hash), and unknown accounts are reported as missing (or yield the given default) and never as another account. Names and ids resolve to the canonical name, with no argument to the identity the session runs as, and the home directory and environment variables returned are the host's own.",
  ["inputs", "configurations"],
  "all users, groups, ids, unknown names and environment variables",
  "Tests query only the accounts that happen to exist in the test environment.",
  ["connection.py", "connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py"],
  [("query and resolve requests", "connectors/tunnel_dispatcher.py"), ("default handling", "connection.py")],
  ["independent parse of passwd, group and shadow next to the returned entries"])
p("C08", "A session survives every failing or malformed request",
  "Every request on an open connection gets exactly one answer and it is the answer to that request, also after requests that failed, could not be transmitted or carried invalid values (embedded NUL, unknown user, missing path, permission problems, out-of-range values). Nothing that an executed command writes to its standard streams or reads from them can disturb the session. After any sequence of such requests the connection continues to give correct results.",
  ["histories", "inputs", "fault_sequences"],
  "all sequences of valid, failing and malformed requests on one connection",
  "Tests issue single requests on fresh connections.",
  ["connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py"],
  [("request and response framing", "connectors/tunnel_dispatcher.py"), ("dispatcher main loop", "connectors/tunnel_dispatcher.py")],
  ["history of requests and answers of one session against a sequential model"])
p("C09", "A broken stream is always an error, never a result",
  "If the byte stream between the two sides ends or breaks at any byte in either direction, the pending call raises a connection error instead of returning a value, and no partial or truncated value is ever returned. The remote side performs a request only if it received all of it, and terminates when the stream ends.",
  ["crash_points", "fault_sequences", "inputs"],
  "every byte offset of the stream in both directions, for every kind of request",
  "Tests never cut the stream.",
  ["connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py"],
  [("exact reads and framing", "connectors/tunnel_dispatcher.py"), ("request/response pairing", "connectors/tunnel_connector.py")],
  ["outcome at the caller and effects on the host for each cut position"])
p("C10", "Connections are set up and torn down completely",
  "While a connection is open it is available on its host and its base defaults are the identity the remote side actually runs as; after the connection is left in any way (normally, by an exception, or because opening failed or the remote side died) no remote process or open pipe of it is left behind, the host has no connection and the error is not hidden. If the remote side cannot be started or does not answer as expected, opening the connection raises.",
  ["fault_sequences", "histories"],
  "all ways in which opening, using and closing a connection can fail",
  "Tests open and close working connections only.",
  ["connection.py", "connectors/tunnel_connector.py", "connectors/tunnel_dispatcher.py"],
  [("connection context manager", "connection.py"), ("open and close of the tunnel", "connectors/tunnel_connector.py")],
  ["child processes, descriptors and host state after each scenario"])
p("C11", "Defaults apply exactly within their scope",
  "Within a defaults block every operation and command uses the innermost given value for each setting (user and group to run as, owner, group, file mode, directory mode, umask, working directory), falling back to the enclosing blocks of the same script and finally to the connection's base settings. On leaving a block in any way, including an exception, the previous values are in effect again, and a nested script starts with the base settings and does not affect its caller's. Invalid settings (unknown user or group, non-octal mode, missing directory) are rejected on entering the block and leave the defaults as they were.",
  ["programs", "inputs", "histories"],
  "all nestings of defaults blocks, scripts and exceptions, all settings",
  "Tests use single blocks.",
  ["types.py", "remote_settings.py", "connection.py", "loader.py", "operations/api.py"],
  [("defaults stack", "types.py"), ("overlay", "remote_settings.py"), ("resolution", "connection.py")],
  ["identity, umask and cwd of probe commands and attributes of created files against a model of the block structure"])
p("C12", "Variables resolve by group order, then host",
  "For every host, the groups it belongs to (always including all) are applied in an order consistent with all declared before and after relations, each module executed exactly once per host and seeing the variables of everything applied earlier. The value of a variable on a host is the one assigned last in the order: inventory variables, host declaration variables and groups in order, host module; a declared variable never disappears and private names and imported modules are not inherited.",
  ["configurations", "inputs"],
  "all inventories: group graphs, memberships, declaration styles and variable assignments",
  "Tests contain two fixed inventories.",
  ["inventory_wrapper.py", "types.py", "utils.py", "loader.py"],
  [("topological order", "inventory_wrapper.py"), ("rank sort", "utils.py"), ("variable inheritance", "inventory_wrapper.py")],
  ["event log written by generated group and host modules; variables of the loaded hosts"])
p("C13", "Ambiguous variable definitions are rejected, and only those",
  "Loading an inventory fails with an error naming the variable if, for some host, two groups between which no (transitive) order is declared both define the same variable, or one redefines what the other defined or modified. It never fails for groups that are ordered, for additions in place to an inherited object by unordered groups that did not define it, or for redefinitions in the host module, and the verdict does not depend on declaration order or on the run.",
  ["configurations", "inputs"],
  "all group graphs, memberships and placements of definitions; all hash seeds",
  "Tests contain one conflict and one conflict-free inventory.",
  ["inventory_wrapper.py"],
  [("conflict detection", "inventory_wrapper.py")],
  ["verdict of loading generated inventories against the transitive closure of the declared order"])
p("C14", "Invalid inventories are rejected before anything runs",
  "An inventory with duplicate hosts or groups, an undeclared group, a cyclic or self dependency, a malformed declaration, a missing or non-list host definition, a module that raises, or an explicitly named module file that does not exist is rejected with an error and a non-zero exit status before any connection is opened and any script is run. Every valid inventory is accepted: any acyclic group graph, any declaration style and optional module files that are absent.",
  ["configurations", "inputs"],
  "all inventories with and without a defect",
  "Tests contain a handful of fixed invalid inventories.",
  ["inventory_wrapper.py", "loader.py", "utils.py", "main.py"],
  [("declaration checks", "inventory_wrapper.py"), ("cycle detection", "utils.py"), ("early exit", "main.py")],
  ["exit status, connection and script events of a run with the generated inventory"])
p("C15", "Hosts do not influence each other",
  "The variables and group memberships of a host depend only on the inventory and on that host: they are the same whether the host is alone in the inventory or together with any others in any order, and nothing a group or host module does to objects it received while loading one host is visible on another host.",
  ["configurations", "histories"],
  "all inventories, host orders and in-place modifications",
  "Tests never compare a host loaded alone with the same host loaded with others.",
  ["inventory_wrapper.py", "types.py", "utils.py"],
  [("separate instantiation per host", "inventory_wrapper.py"), ("unique module instances", "utils.py")],
  ["variables of each host in differently composed inventories"])
p("C16", "A deploy runs on exactly the selected hosts, once, in order",
  "A run executes the script exactly once for each selected host (all hosts in inventory order, or the given list with duplicates removed, in that order), each time on an own connection to that host and with that host active, one host after the other. An unknown host in the selection, a missing script, an error in the script or a failed operation makes the run end with a non-zero exit status; no later host is touched, and an unknown host is detected before any host is touched. Otherwise the exit status is zero.",
  ["configurations", "inputs", "fault_sequences"],
  "all inventories, host selections and failure points",
  "Tests run one script on one host.",
  ["main.py", "loader.py", "connection.py"],
  [("main loop", "main.py"), ("script execution", "loader.py")],
  ["event log written by the deploy script and the connector of each host; exit status"])
p("C17", "Nested scripts are isolated and well-scoped",
  "A script runs in its own directory with its own parameters (missing required parameters are an error, omitted optional ones get their default) and with host variables taking precedence over its own variables, which serve as fallback only. After it ends, normally or by an exception, the caller's working directory, active script, variables and defaults are as before. A script that calls itself directly or indirectly is rejected with an error before it is executed again, unless recursion is explicitly allowed.",
  ["programs", "inputs", "fault_sequences"],
  "all trees of script calls, parameters and exceptions",
  "Tests contain one nested script and one recursive script.",
  ["loader.py", "types.py", "operations/local.py"],
  [("script stack", "loader.py"), ("recursion guard", "operations/local.py"), ("parameters and fallback lookup", "types.py")],
  ["event log written by generated scripts against a model of the call tree"])
p("C18", "Templates render with the right variables and upload the result",
  "A template or template_content operation writes exactly the UTF-8 encoded rendering of the given template, in which context variables take precedence over host variables, host variables over script variables, and host and inventory always are the active host and inventory. Nothing is escaped; an undefined variable is an error that leaves the destination untouched. Mode, owner, group, idempotence and dry runs behave as for any uploaded content.",
  ["inputs", "configurations"],
  "all templates, variables at all levels, contexts and prior destination states",
  "Tests render one template with fixed variables.",
  ["operations/files.py", "types.py", "operations/utils.py"],
  [("rendering context", "operations/files.py"), ("hierarchical variables", "types.py")],
  ["destination file against an independent evaluation of generated templates"])
p("C19", "files.line adds or removes exactly the line in question",
  "After the operation the file contains a matching line if present=True and none if present=False, where matching means the given regular expression is found in the line, or else the line equals the given one (ignoring surrounding whitespace unless disabled). Every other line is preserved byte for byte and in order, a new line is only ever appended as its own line at the end of the file and only if none matched, all matching lines are removed, and a file that needs no change is not written. An existing file keeps its mode, owner and group, a new one gets the defaults, and a requested backup is an exact copy of the previous file under the specified name, made only if the existing file is changed.",
  ["inputs", "histories"],
  "all files (any bytes, line endings, missing final newline, empty, absent), lines, regular expressions and options",
  "Tests use one small text file.",
  ["operations/files.py"],
  [("line operation", "operations/files.py")],
  ["bytes and attributes of the file and its directory before and after against a reference model"])
p("C20", "User and group management reaches the requested accounts",
  "After system.user or system.group the account exists with exactly the given properties (id, primary group by name or id, supplementary groups replaced or appended, comment, home, shell, password hash), properties not given keep their value on an existing account and have the documented defaults on a new one, and with present=False the account does not exist. Other accounts are unaffected and home directories are not created. Repeated and dry runs change nothing and results are reported truthfully.",
  ["inputs", "histories"],
  "all parameter combinations and all prior account databases",
  "Tests mock or skip account changes as they would modify the test machine.",
  ["operations/system.py", "connection.py", "connectors/tunnel_dispatcher.py"],
  [("user and group operations", "operations/system.py")],
  ["passwd, group, shadow and gshadow of a private account database before and after, with the real account tools"])
p("C21", "Package and service management performs exactly what is needed",
  "A package operation installs exactly those requested packages that are missing, or removes exactly those that are present, passing the given options, and touches no other package; a service operation brings the unit to the requested running and enabled state, acts only if needed (a restart or reload is always performed) and never changes a property that was not given, on the system or the user service manager as requested. The generic forms use the manager available on the host and fail if there is none, repeated and dry runs change nothing, and failures of the manager are reported.",
  ["inputs", "configurations", "fault_sequences"],
  "all package lists, unit states, managers and options",
  "No test has a package or service manager to run against.",
  ["operations/utils.py", "operations/apt.py", "operations/pacman.py", "operations/portage.py", "operations/systemd.py", "operations/system.py"],
  [("generic package handling", "operations/utils.py"), ("service handling", "operations/systemd.py"), ("detection", "operations/system.py")],
  ["command log and state of stand-in managers against a model"])
p("C22", "upload_dir reproduces the source tree",
  "After upload_dir every directory and regular file below the source (links aside) exists at the corresponding place below the destination, with identical content and the requested or default modes, owner and group, and nothing else is created, modified or deleted; a destination ending in a slash means a child named like the source directory. The reported result covers every directory and file and is truthful; repeated and dry runs change nothing.",
  ["inputs", "histories"],
  "all source trees, names, contents and prior states of the destination",
  "Tests upload one small tree.",
  ["operations/files.py", "operations/utils.py"],
  [("upload_dir", "operations/files.py")],
  ["complete listing of source and destination before and after"])
p("C23", "git.repo ends at the requested revision",
  "After a successful git.repo the path is a clone of the given url whose checked out commit is the one the given branch or tag (else the remote's default branch) points to, or, with update disabled, an existing clone is unchanged. Depth and submodule options are honoured, and the reported initial and final commits are the actual ones. A path that is not a clone, a clone of another url and a missing branch or tag are failures that leave the path untouched.",
  ["inputs", "histories", "configurations"],
  "all remote histories, refs, prior states of the clone and options",
  "The test needs network access.",
  ["operations/git.py"],
  [("git.repo", "operations/git.py")],
  ["real git repositories in a scratch directory: commits, refs, tree and depth before and after"])
p("C24", "Host urls select the right connector, name and command",
  "A url given without schema in the inventory's hosts or on the command line means ssh, the schema selects the connector, and the host's name, if not given, is the host part of the url without user, port and brackets. For ssh, the program started is the ssh client with the host's extra options in order, the url as destination (or host and port variables if no url is given) and a command that works with a POSIX shell on the other side and starts a fully functional session. An unknown schema, a missing url or an unusable url is an error and never falls back to another host or connector.",
  ["inputs", "configurations"],
  "all urls, schemas, option lists and explicit connectors",
  "Tests check a few urls and never execute the ssh command.",
  ["connectors/ssh.py", "connectors/local.py", "connectors/connector.py", "inventory_wrapper.py", "types.py"],
  [("qualification and extraction", "inventory_wrapper.py"), ("connector selection", "types.py"), ("ssh command", "connectors/ssh.py")],
  ["arguments received by a stand-in ssh that runs the remote command locally"])
p("C25", "Diffs and operation output are truthful and printable",
  "The diff shown for a content change applied to the old content gives the new content, states whether the file is created, deleted or modified, and is only shown if the content differs. Control characters and undecodable bytes of file content or of the output of failed commands never reach the terminal unescaped, and with color disabled no escape sequence is printed at all. The status output of an operation names the operation and its object, marks dry runs, shows each changed property with old and new value, and shows a failure with its message.",
  ["inputs"],
  "all pairs of contents and all operation results",
  "Tests check no diff and hardly any output.",
  ["logger.py", "operations/api.py", "operations/utils.py"],
  [("diff and escaping", "logger.py"), ("operation output", "logger.py")],
  ["text printed during real operations, re-applied to the old content"])
p("C26", "Initialising a deploy never destroys existing files unasked",
  "--init creates the files of the chosen layout in the current directory, which together form a deploy whose inventories load and whose scripts are valid, and nothing outside of it. In a directory that is not empty it asks first and changes nothing unless the answer is yes; unrelated files are never modified. The exit status is zero exactly if the layout was created.",
  ["inputs", "configurations"],
  "all layouts, prior directory contents and answers",
  "Tests cover empty directories only.",
  ["example_deploys.py", "main.py"],
  [("confirmation and scaffolding", "example_deploys.py")],
  ["directory snapshot before and after, exit status, loading the created deploy"])

p("C27", "Inspecting an inventory shows it as it is",
  "--inspect-inventory lists every group in an order of ascending precedence consistent with the declared order, every host with its url and module file, and for each host every variable with its type, its actual value and the groups or the host that defined it or have since modified it, at any terminal width. It opens no connection, prints no escape sequence if color is disabled, and its exit status is zero exactly if the inventory is valid.",
  ["configurations", "inputs"],
  "all inventories, terminal widths and color settings",
  "Tests inspect no inventory with conflicting or modified variables and do not look at the output.",
  ["main.py", "inventory_wrapper.py", "types.py", "logger.py"],
  [("inspect output", "main.py"), ("definition tracking", "inventory_wrapper.py")],
  ["the printed lists and tables against a replay of the generated inventory", "stand-ins that record any connection"])
p("C28", "Errors in user code are reported where they happened",
  "An uncaught error in a script, or in an inventory, group or host module, ends the program with a non-zero exit status, and nothing after the failing statement is executed. The error output names the exception, its message (for a failed command its output), the file and line of the failing statement in the user's code and, in order, every script call that led to it. An operation called while no host is active is an error and does nothing.",
  ["programs", "inputs"],
  "all places and kinds of errors, depths of nested scripts and verbosity options",
  "Tests only assert that some exception is raised.",
  ["main.py", "loader.py", "utils.py", "operations/api.py", "operations/local.py"],
  [("traceback filtering", "utils.py"), ("calling site traceback", "operations/api.py"), ("exception hook", "utils.py")],
  ["stderr, exit status and marker files of generated deploys run as a program"])

p("C29", "Operations defined by users follow the same contract as the builtin ones",
  "Every call of an operation declared with the operation decorator starts with fresh state. Its initial and final state can each be declared once, questions about changes are answered exactly from these two states and are errors before both are known, and its result reports exactly these states and changed=True exactly if they differ; declaring success without them, or returning nothing, is an error and never a success. A failed result or operation error raises with its message if check=True and is returned as failed result if check=False, and every other exception propagates. An operation marked as nested has no state of its own, and the results it adds appear under their keys, each used once. A diff is shown exactly if requested and the contents differ, and the output of a failed command is shown exactly once.",
  ["programs", "inputs"],
  "all operations written with the api: all orders of its calls, states, nestings, failures and options",
  "Tests call builtin operations only, which use the api in one order.",
  ["operations/api.py", "logger.py", "utils.py"],
  [("operation class and decorator", "operations/api.py")],
  ["answers received inside generated operations, their outcome and output against a model of the contract"])

with open("properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
