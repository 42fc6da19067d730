From 5b783d26214fde825ae2fc012d85c81ce222be82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 01/49] fix: don't accept truncated data when the dispatcher
 stream ends early

---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b35d694..317c1ee 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -167,8 +167,11 @@ class Connection:
         self.buffer_out.flush()
 
     def read(self, count: int) -> bytes:
-        """Reads exactly the given amount of bytes."""
-        return self.buffer_in.read(count)
+        """Reads exactly the given amount of bytes. Raises an IOError if the stream ends prematurely."""
+        data = self.buffer_in.read(count)
+        if len(data) != count:
+            raise IOError("Unexpected EOF in data stream")
+        return data
 
     def write(self, data: bytes, count: int) -> None:
         """Writes exactly the given amount of bytes from data."""
-- 
2.43.0


From 4e8b087245df72f6eb4ddd8619f1eed978274809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 02/49] fix: never write incomplete packets when serialization
 of a field fails

---
 src/fora/connectors/tunnel_dispatcher.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 317c1ee..409e1de 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -9,6 +9,7 @@ needed remote system related utilities.
 
 import errno as sys_errno
 import hashlib
+import io
 import os
 import stat
 import struct
@@ -265,10 +266,16 @@ def _read_packet(cls: Type[Any], conn: Connection) -> Any:
     return cls(**kwargs)
 
 def _write_packet(cls: Type[Any], packet_id: u32, this: object, conn: Connection) -> None:
-    _serialize(conn, u32, packet_id)
+    # Serialize into a buffer first, so that a value which cannot be
+    # serialized never leaves an incomplete packet on the stream.
+    buffer = io.BytesIO()
+    buffer_conn = Connection(buffer, buffer)
+    _serialize(buffer_conn, u32, packet_id)
     for f in cls._fields:
         ftype = cls.__annotations__[f]
-        _serialize(conn, ftype, getattr(this, f))
+        _serialize(buffer_conn, ftype, getattr(this, f))
+    data = buffer.getvalue()
+    conn.write(data, len(data))
     conn.flush()
 
 def Packet(type: str) -> Callable[[Type[Any]], Any]: # pylint: disable=redefined-builtin
-- 
2.43.0


From 8c88aa625fcae69a486445ba02c184b982e00246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 03/49] fix: allow stat on files with timestamps before 1970

---
 src/fora/connectors/tunnel_dispatcher.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 409e1de..71708f0 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -439,8 +439,8 @@ class PacketStatResult(NamedTuple):
     owner: str
     group: str
     size: u64
-    mtime: u64
-    ctime: u64
+    mtime: i64
+    ctime: i64
     sha512sum: Optional[bytes]
 
 @Packet(type='request')
@@ -493,8 +493,8 @@ class PacketStat(NamedTuple):
             owner=owner,
             group=group,
             size=u64(s.st_size),
-            mtime=u64(s.st_mtime_ns),
-            ctime=u64(s.st_ctime_ns),
+            mtime=i64(s.st_mtime_ns),
+            ctime=i64(s.st_ctime_ns),
             sha512sum=sha512sum))
 
 @Packet(type='response')
-- 
2.43.0


From c25590c6cef82c10a63d73dab22c6c30b5570e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 04/49] fix: report malformed request values instead of
 aborting the dispatcher

---
 src/fora/connectors/tunnel_dispatcher.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 71708f0..b8cbe47 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -806,6 +806,9 @@ def _main() -> None:
             packet.handle(conn)
         except OSError as e:
             conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
+        except (ValueError, IndexError) as e:
+            # Malformed values (e.g. embedded null bytes) must not end the whole session.
+            conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=ascii(str(e))))
 
 if __name__ == '__main__':
     _main()
-- 
2.43.0


From 395219d4fcc58bb53cc8b86f7869d9b4c7a82b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:16 +0000
Subject: [PATCH 05/49] fix: don't expose the dispatcher's protocol stream to
 executed commands

---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b8cbe47..e8cf9f3 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -418,9 +418,12 @@ class PacketProcessRun(NamedTuple):
 
         # Execute command with desired parameters
         try:
+            # The command must never have access to the dispatcher's own stdin and stdout,
+            # as these are used for communication.
             result = subprocess.run(self.command,
-                input=self.stdin,
-                capture_output=self.capture_output,
+                input=self.stdin if self.stdin is not None else b"",
+                stdout=subprocess.PIPE if self.capture_output else sys.stderr,
+                stderr=subprocess.PIPE if self.capture_output else sys.stderr,
                 cwd=self.cwd,
                 preexec_fn=child_preexec,
                 check=False)
-- 
2.43.0


From a757d05f95c8fac120f1181cbc630f5ece519f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 06/49] fix: drop the dispatcher's supplementary groups when
 running commands as another user

---
 src/fora/connectors/tunnel_dispatcher.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index e8cf9f3..fb0026f 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -409,6 +409,10 @@ class PacketProcessRun(NamedTuple):
             Sets umask and becomes the correct user.
             """
             os.umask(umask_oct)
+            if uid is not None and uid != os.getuid():
+                # Don't retain the supplementary groups of the dispatcher
+                # when the command is executed as a different user.
+                os.initgroups(getpwuid(uid).pw_name, cast(int, gid))
             if gid is not None:
                 os.setresgid(gid, gid, gid)
             if uid is not None:
-- 
2.43.0


From 0bb63687da24d68e532532a356ee35f2b0e24617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:45 +0000
Subject: [PATCH 07/49] fix: retain setuid and setgid bits when also changing
 the owner of a file

---
 src/fora/connectors/tunnel_dispatcher.py | 5 +++--
 src/fora/operations/files.py             | 9 +++++----
 src/fora/operations/utils.py             | 9 +++++----
 3 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index fb0026f..027e305 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -598,10 +598,11 @@ class PacketUpload(NamedTuple):
 
         with open(self.file, 'wb') as f:
             f.write(self.content)
-        if mode_oct is not None:
-            os.chmod(self.file, mode_oct)
+        # Change the owner first, as this clears the setuid and setgid bits.
         if uid is not None or gid is not None:
             os.chown(self.file, uid or 0, gid or 0)
+        if mode_oct is not None:
+            os.chmod(self.file, mode_oct)
 
         conn.write_packet(PacketOk())
 
diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 59659c8..ea7e4e2 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -215,13 +215,14 @@ def file(path: str,
                 if op.changed("exists") or op.changed("touched"):
                     conn.run(["touch", "--", path])
 
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", path])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", path])
+
+                # Set correct mode, if needed. Changing the owner clears
+                # the setuid and setgid bits, so the mode must be set afterwards.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", path])
             else:
                 # Remove file if it should not be present
                 if op.changed("exists"):
diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index 3bceae8..c437bcb 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -168,14 +168,15 @@ def save_content(op: Operation,
                         owner=attr.owner,
                         group=attr.group)
             else:
-                # Set correct mode, if needed
-                if op.changed("mode"):
-                    conn.run(["chmod", attr.file_mode, "--", dest])
-
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
                     conn.run(["chown", f"{attr.owner}:{attr.group}", "--", dest])
 
+                # Set correct mode, if needed. Changing the owner clears
+                # the setuid and setgid bits, so the mode must be set afterwards.
+                if op.changed("mode") or op.changed("owner") or op.changed("group"):
+                    conn.run(["chmod", attr.file_mode, "--", dest])
+
         return op.success()
 
 def check_absolute_path(path: str, path_desc: str) -> None:
-- 
2.43.0


From affc34cf1dc9db1a4694e022e3e9e18536ee023b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 08/49] fix: clear undesired setuid and setgid bits on
 directories

---
 src/fora/operations/files.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index ea7e4e2..afd2539 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -127,7 +127,9 @@ def directory(path: str,
 
                 # Set correct mode, if needed
                 if op.changed("mode"):
-                    conn.run(["chmod", attr.dir_mode, "--", path])
+                    # Numeric modes with less than five digits retain the
+                    # setuid and setgid bits of an existing directory.
+                    conn.run(["chmod", attr.dir_mode.zfill(5), "--", path])
 
                 # Set correct owner and group, if needed
                 if op.changed("owner") or op.changed("group"):
-- 
2.43.0


From 294d69b1c51c94f7708a95ddf59280e97f0a0006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 09/49] fix: replace existing links to directories and retain
 the owner of replaced links

---
 src/fora/operations/files.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index afd2539..81b128e 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -305,10 +305,12 @@ def link(path: str,
             if present:
                 # Create link if it doesn't exist
                 if op.changed("target"):
-                    conn.run(["ln", "-sf", "--", target, path])
+                    # Don't follow an existing link to a directory.
+                    conn.run(["ln", "-sfn", "--", target, path])
 
-                # Set correct owner and group, if needed
-                if op.changed("owner") or op.changed("group"):
+                # Set correct owner and group, if needed. A replaced link
+                # doesn't retain the owner and group of the previous link.
+                if op.changed("target") or op.changed("owner") or op.changed("group"):
                     conn.run(["chown", "--no-dereference", f"{attr.owner}:{attr.group}", "--", path])
 
                 # Touch link if requested
-- 
2.43.0


From 0b33bd1d2dadac30c375300a794244d622ce1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 10/49] fix: expose the inventory instead of the host under the
 inventory key in templates

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 81b128e..10dfd58 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -49,7 +49,7 @@ def _render_template(templ: Template, context: Optional[dict]) -> bytes:
     if context is not None:
         dvars.update(context)
     dvars["host"] = fora.host
-    dvars["inventory"] = fora.host
+    dvars["inventory"] = fora.inventory
     return templ.render(dvars).encode("utf-8")
 
 @operation("dir")
-- 
2.43.0


From d913a9b279fffa161f8cc861ba5cc2c9ad4fcbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 11/49] fix: respect the source directory name in upload_dir if
 it has a trailing slash

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 10dfd58..50d0f82 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -473,7 +473,7 @@ def upload_dir(src: str,
     # If the destination denotes a directory, the actual directory is a
     # child directory thereof with similar name to the source.
     if dest[-1] == "/":
-        dest = os.path.join(dest, os.path.basename(src))
+        dest = os.path.join(dest, os.path.basename(os.path.abspath(src)))
 
     op.desc(dest)
     with logger.indent():
-- 
2.43.0


From b449c5ca43385c56f5f78c4acaf69dc2a9a9b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 12/49] fix: retain unrelated content in files.line and use the
 same rules to find and remove lines

---
 src/fora/operations/files.py | 39 +++++++++++++++++++-----------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 50d0f82..95e3fd2 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -667,6 +667,19 @@ def line(path: str,
         orig_content: Optional[str] = None
         line_present: bool = False
 
+        def split_lines(content: str) -> list[str]:
+            """Splits the content into lines while retaining line endings."""
+            return re.findall(r"[^\n]*\n|[^\n]+", content)
+
+        def is_match(l: str) -> bool:
+            """Returns whether the given line from the file matches the requested line."""
+            l = l.removesuffix("\n").removesuffix("\r")
+            if regex is not None:
+                return bool(re.search(regex, l))
+            if ignore_whitespace:
+                return line.strip() == l.strip()
+            return line == l
+
         # Examine current state
         stat = conn.stat(path)
         if stat is not None:
@@ -678,13 +691,7 @@ def line(path: str,
             orig_content = orig_bytes.decode("utf-8", errors="surrogateescape")
 
             # Check whether the line is already contained
-            if regex is None:
-                if ignore_whitespace:
-                    line_present = line.strip() in [l.strip() for l in (orig_content or "").splitlines()]
-                else:
-                    line_present = line in (orig_content or "").splitlines()
-            else:
-                line_present = bool(re.search(regex, orig_content, re.MULTILINE))
+            line_present = any(is_match(l) for l in split_lines(orig_content))
 
         op.initial_state(line_present=line_present)
 
@@ -692,21 +699,17 @@ def line(path: str,
         if op.unchanged():
             return op.success()
 
-        lines = (orig_content or "").splitlines()
+        lines = split_lines(orig_content or "")
         if present:
-            lines.append(line)
+            # Terminate the last line, if necessary
+            if lines and not lines[-1].endswith("\n"):
+                lines[-1] += "\n"
+            lines.append(line + "\n")
         else:
             # Remove matching lines
-            if regex is None:
-                if ignore_whitespace:
-                    lines = list(filter(lambda l: line != l.strip(), lines))
-                else:
-                    lines = list(filter(lambda l: line != l, lines))
-            else:
-                # mypy false positive here, ignore type warning
-                lines = list(filter(lambda l: not re.search(regex, l), lines)) # type: ignore[type-var]
+            lines = [l for l in lines if not is_match(l)]
 
-        new_content = "\n".join(lines) + "\n"
+        new_content = "".join(lines)
         new_bytes = new_content.encode("utf-8", errors="surrogateescape")
 
         # Add diff if desired
-- 
2.43.0


From 911f690cac3c41fb009440fd9449bcd655ef3f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 13/49] fix: append the backup suffix to the original filename
 in files.line

---
 src/fora/operations/files.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/files.py b/src/fora/operations/files.py
index 95e3fd2..0dc8079 100644
--- a/src/fora/operations/files.py
+++ b/src/fora/operations/files.py
@@ -723,7 +723,7 @@ def line(path: str,
             else:
                 if backup:
                     if isinstance(backup, bool):
-                        backup = f".{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
+                        backup = f"{os.path.basename(path)}.{datetime.now(timezone.utc).strftime('%Y-%m-%dT%H:%M:%SZ')}.bak"
                     conn.run(["cp", "-a", "--", path, os.path.join(os.path.dirname(path), backup)])
                 conn.upload(file=path, content=new_bytes)
 
-- 
2.43.0


From 24085bebe6282b2fb43c78219fc324b0645560ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 14/49] fix: don't report changes because of duplicate entries
 in package lists

---
 src/fora/operations/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/utils.py b/src/fora/operations/utils.py
index c437bcb..6b10ae2 100644
--- a/src/fora/operations/utils.py
+++ b/src/fora/operations/utils.py
@@ -87,7 +87,7 @@ def generic_package(op: Operation,
 
     # Set initial and target state.
     op.initial_state(installed=sorted(list(installed)))
-    op.final_state(installed=sorted(list(packages)) if present else [])
+    op.final_state(installed=sorted(set(packages)) if present else [])
 
     # Return success if nothing needs to be changed
     if op.unchanged():
-- 
2.43.0


From 8b91688630a09a66f14875e6d5930c55a0d96f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 15/49] fix: correctly detect whether packages are installed
 with apt

---
 src/fora/operations/apt.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/apt.py b/src/fora/operations/apt.py
index 3bdb985..e78f5b1 100644
--- a/src/fora/operations/apt.py
+++ b/src/fora/operations/apt.py
@@ -9,7 +9,7 @@ from fora.operations.utils import generic_package, package_manager
 def _is_installed(package: str, opts: Optional[list[str]] = None) -> bool: # pylint: disable=redefined-outer-name
     """Checks whether a package is installed with dpkg-query on the remote host."""
     opts = opts or []
-    ret = fora.host.connection.run(["dpgk-query", "--show", "--showformat=${Status}"] + opts + ["--", package])
+    ret = fora.host.connection.run(["dpkg-query", "--show", "--showformat=${Status}"] + opts + ["--", package], check=False)
     return ret.stdout is not None and b"ok installed" in ret.stdout
 
 def _install(package: str, opts: Optional[list[str]] = None) -> None: # pylint: disable=redefined-outer-name
-- 
2.43.0


From 8da10da91e79cbbfc26224c8e97454ce3c34fea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 16/49] fix: don't report a change for service properties that
 should not be modified

---
 src/fora/operations/api.py     | 2 +-
 src/fora/operations/systemd.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index ed55cce..9e43a63 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -137,7 +137,7 @@ class Operation:
         if not ignore_none:
             return self.initial_state_dict == self.final_state_dict
 
-        keys_not_none = (k for k in self.final_state_dict if k is not None)
+        keys_not_none = (k for k,v in self.final_state_dict.items() if v is not None)
         for k in keys_not_none:
             if self.initial_state_dict[k] != self.final_state_dict[k]:
                 return False
diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 1afbcf7..e52df4c 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -100,7 +100,7 @@ def service(service: str, # pylint: disable=redefined-outer-name
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
-    op.final_state(state=state, enabled=enabled)
+    op.final_state(state=cur_state if state is None else state, enabled=cur_enabled if enabled is None else enabled)
 
     # Return success if nothing needs to be changed
     if op.unchanged(ignore_none=True):
-- 
2.43.0


From 081ea605ec42e55db94d697727d5672aa955ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 17/49] fix: query the user's service manager if user_mode is
 requested

---
 src/fora/operations/systemd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index e52df4c..862340e 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -90,13 +90,14 @@ def service(service: str, # pylint: disable=redefined-outer-name
         raise ValueError(f"Invalid target state '{state}'")
 
     # Examine current state
-    systemd_active_state = conn.run(["systemctl", "show", "--value", "--property", "ActiveState", "--", service]).stdout
+    base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
+    systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
     if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
 
-    systemd_unit_file_state = conn.run(["systemctl", "show", "--value", "--property", "UnitFileState", "--", service]).stdout
+    systemd_unit_file_state = conn.run(base_command + ["show", "--value", "--property", "UnitFileState", "--", service]).stdout
     cur_enabled = (systemd_unit_file_state or b"").decode('utf-8', errors='ignore').strip() == "enabled"
 
     op.initial_state(state=cur_state, enabled=cur_enabled)
@@ -108,7 +109,6 @@ def service(service: str, # pylint: disable=redefined-outer-name
 
     # Apply actions to reach desired state, but only if we are not doing a dry run
     if not fora.args.dry:
-        base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
         if op.changed("state") and state is not None:
             conn.run(base_command + [state_actions[state], "--", service])
 
-- 
2.43.0


From eea4179ade0eafa290072859cc8e9ce52bcb76ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 18/49] fix: return a failed result for raised OperationErrors
 if check is False

---
 src/fora/operations/api.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index 9e43a63..9021171 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -263,9 +263,10 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                 ret = op.failure(str(e))
                 # If we are not in debug mode, we modify the traceback such that the exception
                 # seems to originate at the calling site where the operation is called.
-                if fora.args.debug:
-                    raise
-                raise e.with_traceback(_calling_site_traceback())
+                if check:
+                    if fora.args.debug:
+                        raise
+                    raise e.with_traceback(_calling_site_traceback())
             except subprocess.CalledProcessError as e:
                 ret = op.failure(str(e))
                 if not hasattr(e, "__fora_already_printed"):
-- 
2.43.0


From 32876612b8db12740b47eaf33c8d2b9d2c01c0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 19/49] fix: respect explicitly given empty or zero values in
 system.user and system.group

---
 src/fora/operations/system.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 1766e20..e68f9e0 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -121,15 +121,15 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, uid=current.uid, group=current.group, groups=sorted(current.groups), comment=current.gecos, home=current.home, shell=current.shell, password_hash=current.password_hash)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_uid = uid or (current.uid if current else None)
-    target_group = group or (current.group if current else None)
+    target_uid = uid if uid is not None else (current.uid if current else None)
+    target_group = group if group is not None else (current.group if current else None)
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-        target_groups = groups or (current.groups if current else [])
+        target_groups = set(groups if groups is not None else (current.groups if current else []))
     target_groups = sorted(list(target_groups))
-    target_password_hash = password_hash or (current.password_hash if current else None)
-    target_comment = comment or (current.gecos if current else None)
+    target_password_hash = password_hash if password_hash is not None else (current.password_hash if current else None)
+    target_comment = comment if comment is not None else (current.gecos if current else None)
     target_home = home or (current.home if current else '/dev/null')
     target_shell = shell or (current.shell if current else '/sbin/nologin')
 
@@ -173,7 +173,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
                 create_command.extend(["--shell", target_shell])
 
                 # Password hash
-                if target_password_hash:
+                if target_password_hash is not None:
                     create_command.extend(["--password", target_password_hash])
 
                 # User's name
@@ -192,7 +192,7 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
             if op.changed("group") and target_group is not None:
                 conn.run(["usermod", "--gid", target_group, "--", user])
 
-            if op.changed("groups") and len(target_groups) > 0:
+            if op.changed("groups"):
                 # Empty param for --groups is OK and does the expected thing.
                 conn.run(["usermod", "--groups", ','.join(target_groups), "--", user])
 
@@ -261,7 +261,7 @@ def group(group: str, # pylint: disable=redefined-outer-name,too-many-statements
         op.initial_state(exists=True, gid=current.gid)
 
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
-    target_gid = gid or (current.gid if current else None)
+    target_gid = gid if gid is not None else (current.gid if current else None)
 
     if present:
         op.final_state(exists=True, gid=target_gid)
-- 
2.43.0


From 2223b03017a35c8012673d227e1b0b8c6a233bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 20/49] fix: recognize that a primary group given by its gid is
 already set

---
 src/fora/operations/system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index e68f9e0..94684a9 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -123,6 +123,10 @@ def user(user: str, # pylint: disable=redefined-outer-name,too-many-statements
     # Calculate target state. None means no-desired-value (i.e. keep as-is or use default on creation)
     target_uid = uid if uid is not None else (current.uid if current else None)
     target_group = group if group is not None else (current.group if current else None)
+    if group is not None:
+        # Canonicalize the group if it was given by its gid
+        group_entry = conn.query_group(group=group)
+        target_group = group_entry.name if group_entry else group
     if append_groups:
         target_groups = set((groups or []) + (current.groups if current else []))
     else:
-- 
2.43.0


From b46f6551ce2a186116caaa9eec63d59e5bbbc901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:12 +0000
Subject: [PATCH 21/49] fix: canonicalize modes from the inventory's base
 remote settings

---
 src/fora/types.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/types.py b/src/fora/types.py
index 0c4483b..ce25b19 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -420,6 +420,10 @@ class ScriptWrapper(ModuleWrapper):
         new_defaults = fora.host.connection.base_settings
         new_defaults = new_defaults.overlay(self.current_defaults())
         new_defaults = new_defaults.overlay(requested_defaults)
+        # The inventory's base settings may use a non-canonical representation
+        new_defaults.file_mode = canonicalize_mode(new_defaults.file_mode)
+        new_defaults.dir_mode = canonicalize_mode(new_defaults.dir_mode)
+        new_defaults.umask = canonicalize_mode(new_defaults.umask)
         return RemoteDefaultsContext(self, new_defaults)
 
     def current_defaults(self) -> RemoteSettings:
-- 
2.43.0


From 6c1d27b2e9ffb610db137a31f7fd94f6227f93cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 22/49] fix: always clean up the dispatcher process when a
 connection fails

---
 src/fora/connection.py                  |  7 ++++++-
 src/fora/connectors/tunnel_connector.py | 15 ++++++++++++---
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/fora/connection.py b/src/fora/connection.py
index ec98372..aa7f3b6 100644
--- a/src/fora/connection.py
+++ b/src/fora/connection.py
@@ -31,7 +31,12 @@ class Connection:
     def __enter__(self) -> Connection:
         self.connector.open()
         self.host.connection = self
-        self._resolve_identity()
+        try:
+            self._resolve_identity()
+        except BaseException:
+            # The context is never entered, so we need to clean up ourselves.
+            self.__exit__(None, None, None)
+            raise
         return self
 
     def __exit__(self, exc_type: Optional[Type[BaseException]], exc: Optional[BaseException], traceback: Optional[TracebackType]) -> None:
diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 68407c1..b730b48 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -66,17 +66,26 @@ class TunnelConnector(Connector):
             # If the connection failed for any reason, be sure to kill the background process.
             if not self.is_open:
                 self.process.terminate()
+                self.process.wait()
                 self.process = None
 
         logger.connection_established()
 
     def close(self) -> None:
-        if self.is_open:
-            self.conn.write_packet(td.PacketExit())
+        try:
+            if self.is_open:
+                self.conn.write_packet(td.PacketExit())
+        except OSError:
+            # The dispatcher is already gone, but we still need to clean up.
+            pass
+        self.is_open = False
 
         if self.process is not None:
             if self.process.stdin is not None:
-                self.process.stdin.close()
+                try:
+                    self.process.stdin.close()
+                except OSError:
+                    pass
             self.process.wait()
             if self.process.stdout is not None:
                 self.process.stdout.close()
-- 
2.43.0


From be1ded6385fddc61e40f6615a2a4b8bfcc328c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 23/49] fix: don't crash while reporting a failed process
 without captured output

---
 src/fora/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 7fb407f..3149746 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stdout.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print(err.stderr.decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From 411826177552333f12eb8bf8c898f321426a21ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 24/49] fix: return the module file instead of its directory in
 definition_file()

---
 src/fora/types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index ce25b19..3487826 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -167,9 +167,8 @@ class ModuleWrapper:
         str
             The file.
         """
-        if self.module is None or getattr(self.module, "__path__", None) is None:
-            return "<internal>"
-        return self.module.__path__
+        module_file = getattr(self.module, "__file__", None)
+        return "<internal>" if module_file is None else module_file
 
 @dataclass
 class GroupWrapper(ModuleWrapper):
-- 
2.43.0


From b720ae5368e21ac8519faae1d085fb7644c4166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 25/49] fix: also track the definition of variables that are
 set to None

---
 src/fora/inventory_wrapper.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index c42b722..1837a79 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -752,8 +752,7 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            previous_value = None if attr not in variable_action_history else variable_action_history[attr][-1].value
-            was_modified = previous_value != value
+            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
             cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
 
-- 
2.43.0


From 7f4ac1ef7d5c77fbf2518a53b816927949801ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 26/49] fix: detect variable conflicts based on actual group
 dependencies

---
 src/fora/inventory_wrapper.py | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 1837a79..05d135e 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -544,6 +544,18 @@ class InventoryWrapper(ModuleWrapper):
         group_names.sort(key=lambda g: self._group_ranks_min[g])
         self._topological_order = group_names
 
+    def _depends_on(self, group: str, other: str) -> bool:
+        """Returns True if the given group must (transitively) be loaded after the other group."""
+        pending, visited = [group], set()
+        while pending:
+            for after in self._group_decls[pending.pop()].after:
+                if after == other:
+                    return True
+                if after not in visited:
+                    visited.add(after)
+                    pending.append(after)
+        return False
+
     def load(self) -> None:
         """
         This function preprocesses the declared hosts and groups, calculates
@@ -761,15 +773,12 @@ class InventoryWrapper(ModuleWrapper):
                 # was allowed to overwrite it. Otherwise, we record that this is a variable
                 # conflict and raise an exception later, once we found all offending variables.
                 if record_conflicts_group is not None and initializer is not None and attr in variable_action_history:
-                    # Determine if the ranks of this group and any previous defining module overlap
-                    # (which means they would share a common possible rank). If that is the case,
-                    # they don't have any dependency on each other and overwriting is forbidden
-                    # as their relative order is arbitrary. We already know that the current group
-                    # is ordered after the previous group, as we are iterating in topological order,
-                    # so a problem would only arise if the previous group's maximum possible rank
-                    # overlaps with our minimum required rank.
+                    # Determine if this group (transitively) depends on each of the previous defining
+                    # modules. If that is not the case, overwriting is forbidden as their relative
+                    # order is arbitrary. Comparing ranks is not sufficient to determine this, as two
+                    # groups without any dependency on each other can still have distinct ranks.
                     for prev in variable_action_history[attr]:
-                        if self._group_ranks_max[prev.actor.name] >= self._group_ranks_min[record_conflicts_group.name]:
+                        if not self._depends_on(record_conflicts_group.name, prev.actor.name):
                             if prev.action == "modification" and cur_action == "modification":
                                 # Ambiguous modification order is explicitly allowed.
                                 # While this could in theory also create ambiguities,
-- 
2.43.0


From 93636d74b96b56200cb14c0c503fb2b8e567626d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 27/49] fix: extract the correct hostname from urls like
 ssh:host

---
 src/fora/connectors/ssh.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 0b72278..b649b18 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -56,9 +56,9 @@ class SshConnector(TunnelConnector):
         if not url.startswith(f"{cls.schema}:"):
             raise ValueError(f"Cannot extract hostname from url without matching schema (expected '{cls.schema}', got '{url}').")
 
-        # strip ssh://
+        # strip ssh: or ssh://
         # remaining: [user@]hostname[:port]
-        hostname = url[len(cls.schema) + 3:]
+        hostname = url[len(cls.schema) + 1:].removeprefix("//")
 
         # Remove user
         pos = hostname.find("@")
-- 
2.43.0


From 73a2ce9323a16544490989d0d90fb0b70e33b20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 28/49] fix: extract the correct hostname from urls with an
 IPv6 address

---
 src/fora/connectors/ssh.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index b649b18..c5f082f 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -65,6 +65,10 @@ class SshConnector(TunnelConnector):
         if pos >= 0:
             hostname = hostname[pos + 1:]
 
+        # IPv6 addresses are enclosed in brackets
+        if hostname.startswith("[") and "]" in hostname:
+            return hostname[1:hostname.index("]")]
+
         # Remove port
         pos = hostname.find(":")
         if pos >= 0:
-- 
2.43.0


From 4e3fdd71424418638ae4f81279ddd37a2ddec5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:31 +0000
Subject: [PATCH 29/49] fix: determine the commit of the exact branch or tag in
 git.repo

---
 src/fora/operations/git.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index f0135d0..5df70cd 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -88,8 +88,15 @@ def repo(url: str,
         return op.success()
 
     # Check the newest available commit
-    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, branch_or_tag or "HEAD"])
-    newest_commit = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").strip().split()[0]
+    # The given pattern may match other refs too (e.g. feature/main), and annotated tags need to be dereferenced.
+    ref = branch_or_tag or "HEAD"
+    remote_newest_commit = conn.run(["git", "ls-remote", "--exit-code", "--", url, ref, f"{ref}^{{}}"])
+    remote_refs = (remote_newest_commit.stdout or b"").decode("utf-8", errors="backslashreplace").splitlines()
+    commit_of_ref = {r: commit for commit, r in (l.split(maxsplit=1) for l in remote_refs)}
+    candidates = [ref] if branch_or_tag is None else [f"refs/heads/{ref}", f"refs/tags/{ref}^{{}}", f"refs/tags/{ref}"]
+    newest_commit = next((commit_of_ref[c] for c in candidates if c in commit_of_ref), None)
+    if newest_commit is None:
+        return op.failure(f"branch or tag '{ref}' doesn't exist on the remote '{url}'")
 
     op.final_state(initialized=True, commit=newest_commit)
 
-- 
2.43.0


From cb6bdaeb04cb9f48b993acdb3936f5ea5157321d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:50 +0000
Subject: [PATCH 30/49] fix: describe the requested packages in the portage
 operation

---
 src/fora/operations/portage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/portage.py b/src/fora/operations/portage.py
index bc771f1..e433d38 100644
--- a/src/fora/operations/portage.py
+++ b/src/fora/operations/portage.py
@@ -56,7 +56,7 @@ def package(packages: list[str],
         The operation wrapper. Must not be supplied by the user.
     """
     _ = (name, check) # Processed automatically.
-    op.desc(str(package))
+    op.desc(str(packages))
 
     return generic_package(op, packages,
             present=present,
-- 
2.43.0


From 73215d13fdf3086196d9b8cc8f15c59ba27eee77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:50 +0000
Subject: [PATCH 31/49] fix: return a failed result from generic package and
 service operations if check=False

---
 src/fora/operations/system.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/system.py b/src/fora/operations/system.py
index 94684a9..5eb143c 100644
--- a/src/fora/operations/system.py
+++ b/src/fora/operations/system.py
@@ -344,7 +344,10 @@ def package(packages: list[str],
     conn = fora.host.connection
     package_fn = find_command(conn, utils.package_managers)
     if package_fn is None:
-        raise new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        error = new_op_fail(op_name="package", name=name, desc=str(packages), error=f"No supported package manager was found on the remote system. Searched commands: {utils.package_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, package_fn(packages=packages, present=present, name=name, check=check))
 
@@ -396,6 +399,9 @@ def service(service: str, # pylint: disable=redefined-outer-name
     conn = fora.host.connection
     service_fn = find_command(conn, utils.service_managers)
     if service_fn is None:
-        raise new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        error = new_op_fail(op_name="service", name=name, desc=str(service), error=f"No supported service manager was found on the remote system. Searched commands: {utils.service_managers.keys()}")
+        if check:
+            raise error
+        return OperationResult(success=False, changed=False, initial={}, final={}, failure_message=str(error))
 
     return cast(OperationResult, service_fn(service=service, state=state, enabled=enabled, name=name, check=check))
-- 
2.43.0


From 155fb8179a3e71c69102de460e70237ae91106c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:07 +0000
Subject: [PATCH 32/49] fix: check the remote url of an existing clone in
 git.repo also if no update is needed or in dry runs

---
 src/fora/operations/git.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fora/operations/git.py b/src/fora/operations/git.py
index 5df70cd..c267720 100644
--- a/src/fora/operations/git.py
+++ b/src/fora/operations/git.py
@@ -87,6 +87,13 @@ def repo(url: str,
         op.final_state(initialized=True, commit=cur_commit)
         return op.success()
 
+    # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
+    if stat_path is not None:
+        ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
+        current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
+        if current_remote != url:
+            return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
+
     # Check the newest available commit
     # The given pattern may match other refs too (e.g. feature/main), and annotated tags need to be dereferenced.
     ref = branch_or_tag or "HEAD"
@@ -125,12 +132,6 @@ def repo(url: str,
                     submodule_cmd.extend(["--recursive"])
                 conn.run(submodule_cmd)
         elif update:
-            # Assert that the existing repository's remote url matches the given url to prevent pulling an unrelated repo
-            ret_current_remote = conn.run(["git", "-C", path, "config", "--get", "remote.origin.url"])
-            current_remote = (ret_current_remote.stdout or b"").decode("utf-8", errors="backslashreplace").strip()
-            if current_remote != url:
-                return op.failure(f"refusing to update existing git repository with different remote url '{current_remote}'")
-
             # Update the existing repository
             update_cmd = ["git", "-C", path, "pull"]
             if depth is not None:
-- 
2.43.0


From e49b408e7d0f3692fd0f862bf8ea18b68db420ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 33/49] fix: only accept decimal numbers as uid and gid

Python's int() also accepts notations such as '1_0', ' 0' or non-ascii
digits, so unknown names could resolve to an unrelated account.
---
 src/fora/connectors/tunnel_dispatcher.py | 32 +++++++++++++++++++-----
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 027e305..34e3fef 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -91,6 +91,26 @@ def _resolve_oct(value: str) -> int:
     except ValueError:
         raise ValueError(f"Invalid value '{value}': Must be in octal format.") # pylint: disable=raise-missing-from
 
+def _parse_id(value: str) -> int:
+    """
+    Parses a decimal uid or gid. In contrast to int(), any other
+    notation that is understood by python (e.g. "1_0" or " 0") is rejected.
+    Raises a ValueError if the value is malformed.
+
+    Parameters
+    ----------
+    value
+        The decimal uid or gid
+
+    Returns
+    -------
+    int
+        The numeric id
+    """
+    if not (value.isascii() and value.isdigit()):
+        raise ValueError(f"Invalid value '{value}': Must be a decimal id.")
+    return int(value)
+
 def _resolve_user(user: str) -> tuple[int, int]:
     """
     Resolves the given user string to a uid and gid.
@@ -111,7 +131,7 @@ def _resolve_user(user: str) -> tuple[int, int]:
         pw = getpwnam(user)
     except KeyError:
         try:
-            uid = int(user)
+            uid = _parse_id(user)
             try:
                 pw = getpwuid(uid)
             except KeyError:
@@ -141,7 +161,7 @@ def _resolve_group(group: str) -> int:
         gr = getgrnam(group)
     except KeyError:
         try:
-            gid = int(group)
+            gid = _parse_id(group)
             try:
                 gr = getgrgid(gid)
             except KeyError:
@@ -525,7 +545,7 @@ class PacketResolveUser(NamedTuple):
             pw = getpwnam(user)
         except KeyError:
             try:
-                uid = int(user)
+                uid = _parse_id(user)
                 pw = getpwuid(uid)
             except (KeyError, ValueError):
                 conn.write_packet(PacketInvalidField("user", "The user does not exist"))
@@ -550,7 +570,7 @@ class PacketResolveGroup(NamedTuple):
             gr = getgrnam(group)
         except KeyError:
             try:
-                gid = int(group)
+                gid = _parse_id(group)
                 gr = getgrgid(gid)
             except (KeyError, ValueError):
                 conn.write_packet(PacketInvalidField("group", "The group does not exist"))
@@ -667,7 +687,7 @@ class PacketQueryUser(NamedTuple):
             pw = getpwnam(self.user)
         except KeyError:
             try:
-                gid = int(self.user)
+                gid = _parse_id(self.user)
                 pw = getpwuid(gid)
             except (KeyError, ValueError):
                 conn.write_packet(PacketInvalidField("user", "The user does not exist"))
@@ -719,7 +739,7 @@ class PacketQueryGroup(NamedTuple):
             gr = getgrnam(self.group)
         except KeyError:
             try:
-                gid = int(self.group)
+                gid = _parse_id(self.group)
                 gr = getgrgid(gid)
             except (KeyError, ValueError):
                 conn.write_packet(PacketInvalidField("group", "The group does not exist"))
-- 
2.43.0


From 4131bf020dc91572de5c784315c290543848ea28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:47:42 +0000
Subject: [PATCH 34/49] fix: don't report paths which cannot be transmitted as
 missing

UnicodeEncodeError is a ValueError, so stat() returned None and download_or()
returned the default for such paths.
---
 src/fora/connectors/tunnel_connector.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index b730b48..8690d45 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -1,5 +1,7 @@
 """Contains a connector base which handles communication via any spawned subprocess command that can run a tunnel dispatcher on the remote host."""
 
+import errno
+import os
 import sys
 import subprocess
 from typing import Any, Optional, Type, cast
@@ -94,7 +96,11 @@ class TunnelConnector(Connector):
     def _request(self, packet: Any) -> Any:
         """Sends the request packet and returns the response.
         Propagates exceptions from raised from td.receive_packet."""
-        self.conn.write_packet(packet)
+        try:
+            self.conn.write_packet(packet)
+        except UnicodeEncodeError as e:
+            # This is also a ValueError, which must not be mistaken for a negative response.
+            raise td.RemoteOSError(errno=errno.EINVAL, strerror=os.strerror(errno.EINVAL), msg=str(e)) from e
         return td.receive_packet(self.conn, request=packet)
 
     def run(self,
-- 
2.43.0


From abd19cf4bd0f9ecb4f72b53e9518ddd97ed6ef09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:50:59 +0000
Subject: [PATCH 35/49] fix: don't end the session if a requested id or mode is
 out of range

---
 src/fora/connectors/tunnel_dispatcher.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index 34e3fef..b08b808 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -109,7 +109,10 @@ def _parse_id(value: str) -> int:
     """
     if not (value.isascii() and value.isdigit()):
         raise ValueError(f"Invalid value '{value}': Must be a decimal id.")
-    return int(value)
+    result = int(value)
+    if result > 0xffffffff:
+        raise ValueError(f"Invalid value '{value}': Id out of range.")
+    return result
 
 def _resolve_user(user: str) -> tuple[int, int]:
     """
@@ -834,7 +837,7 @@ def _main() -> None:
             packet.handle(conn)
         except OSError as e:
             conn.write_packet(PacketOSError(errno=i64(e.errno), strerror=e.strerror, msg=str(e)))
-        except (ValueError, IndexError) as e:
+        except (ValueError, IndexError, OverflowError) as e:
             # Malformed values (e.g. embedded null bytes) must not end the whole session.
             conn.write_packet(PacketOSError(errno=i64(sys_errno.EINVAL), strerror=os.strerror(sys_errno.EINVAL), msg=ascii(str(e))))
 
-- 
2.43.0


From 5c5cdbeeaa35c897e35a3977d1f7956d338650fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:47:55 +0000
Subject: [PATCH 36/49] fix: don't fail to load inventories with variables that
 cannot be copied

---
 src/fora/inventory_wrapper.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 05d135e..632c917 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -12,6 +12,13 @@ from fora.remote_settings import RemoteSettings
 from fora.types import GroupWrapper, HostWrapper, ModuleWrapper, VariableActionSnapshot
 from fora.utils import CycleError, load_py_module, print_error, rank_sort
 
+def _snapshot(value: Any) -> Any:
+    """Returns a copy of the given variable's value, or the value itself if it cannot be copied (e.g. file objects)."""
+    try:
+        return copy(value)
+    except Exception: # pylint: disable=broad-except
+        return value
+
 @dataclass
 class HostDeclaration:
     """A declaration of a host in an inventory."""
@@ -787,7 +794,7 @@ class InventoryWrapper(ModuleWrapper):
                             conflicts.append((prev.action, prev.actor, cur_action, actor, attr))
 
                 # Record this change for later analyses
-                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, copy(value)))
+                variable_action_history.setdefault(attr, []).append(VariableActionSnapshot(cur_action, actor, _snapshot(value)))
 
         # Create a transient group reflecting the already known variables of the host:
         # Aggregate any variables explicitly defined by the inventory for this host (HostDeclaration.vars).
-- 
2.43.0


From 025e312962190ba29b803fb091dbc81471201b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:20 +0000
Subject: [PATCH 37/49] fix: track modifications of nested values and of values
 without equality

---
 src/fora/inventory_wrapper.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index 632c917..e809e11 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -2,7 +2,7 @@
 from __future__ import annotations
 
 import os
-from copy import copy
+from copy import copy, deepcopy
 from dataclasses import dataclass, field
 from glob import glob
 from types import SimpleNamespace
@@ -13,11 +13,22 @@ from fora.types import GroupWrapper, HostWrapper, ModuleWrapper, VariableActionS
 from fora.utils import CycleError, load_py_module, print_error, rank_sort
 
 def _snapshot(value: Any) -> Any:
-    """Returns a copy of the given variable's value, or the value itself if it cannot be copied (e.g. file objects)."""
-    try:
-        return copy(value)
-    except Exception: # pylint: disable=broad-except
-        return value
+    """
+    Returns a copy of the given variable's value which can be used to detect modifications, as deep as possible. Returns
+    the value itself if it cannot be copied (e.g. file objects) or has no equality (e.g. objects without `__eq__`).
+    """
+    for copy_function in (deepcopy, copy):
+        try:
+            snapshot = copy_function(value)
+            if snapshot == value:
+                return snapshot
+        except Exception: # pylint: disable=broad-except
+            pass
+    return value
+
+def _is_modified(snapshot: Any, value: Any) -> bool:
+    """Returns True if the value was modified since the snapshot was taken."""
+    return snapshot is not value and snapshot != value
 
 @dataclass
 class HostDeclaration:
@@ -771,9 +782,9 @@ class InventoryWrapper(ModuleWrapper):
             # it was overwritten (or it was newly defined). We want to record this in our
             # definition history. We also compare against a snapshot of the value to detect
             # modification instead of redefinition.
-            was_modified = attr not in variable_action_history or variable_action_history[attr][-1].value != value
             was_overwritten = hasattr(initializer, attr) and getattr(initializer, attr) is not value
-            cur_action: Literal["definition", "modification"] = "modification" if was_modified and not was_overwritten else "definition"
+            was_modified = not was_overwritten and (attr not in variable_action_history or _is_modified(variable_action_history[attr][-1].value, value))
+            cur_action: Literal["definition", "modification"] = "modification" if was_modified else "definition"
 
             if initializer is None or was_overwritten or was_modified:
                 # If the variable was actually overwritten, we need to make sure that this module
-- 
2.43.0


From 162b825fba640d7391b323166dd21dcda69aa06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:33 +0000
Subject: [PATCH 38/49] fix: always load the all group after the variables from
 the host declaration

---
 src/fora/inventory_wrapper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/inventory_wrapper.py b/src/fora/inventory_wrapper.py
index e809e11..79079af 100644
--- a/src/fora/inventory_wrapper.py
+++ b/src/fora/inventory_wrapper.py
@@ -445,7 +445,7 @@ class InventoryWrapper(ModuleWrapper):
 
             # Deduplicate before and after
             decl.before = list(set(decl.before))
-            decl.after = list(set(decl.after) | set(["all"] if decl.name != "all" else []))
+            decl.after = list(set(decl.after) | set(["all" if decl.name != "all" else "early-explicits"]))
 
             self._group_decls[decl.name] = decl
 
-- 
2.43.0


From 2fe6eefd9f33a079ee48c4915b42a97d81f797a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:54:37 +0000
Subject: [PATCH 39/49] fix: don't export a wrapper's reference to its module
 as a variable

---
 src/fora/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/fora/types.py b/src/fora/types.py
index 3487826..b99ed65 100644
--- a/src/fora/types.py
+++ b/src/fora/types.py
@@ -92,7 +92,8 @@ class ModuleWrapper:
         return not (attr.startswith("_")
                 or attr in type(self).__annotations__
                 or attr in type(self).__dict__
-                or isinstance(value, ModuleType))
+                or isinstance(value, ModuleType)
+                or (attr == "module" and value is object.__getattribute__(self, "module")))
 
     def exported_variables(self) -> dict[str, Any]:
         """
@@ -167,7 +168,7 @@ class ModuleWrapper:
         str
             The file.
         """
-        module_file = getattr(self.module, "__file__", None)
+        module_file = getattr(object.__getattribute__(self, "module"), "__file__", None)
         return "<internal>" if module_file is None else module_file
 
 @dataclass
-- 
2.43.0


From 57e94b1f2ffe96b39f96a35be08a07153520cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:17 +0000
Subject: [PATCH 40/49] fix: close the pipes of connections which could not be
 opened

---
 src/fora/connectors/tunnel_connector.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/fora/connectors/tunnel_connector.py b/src/fora/connectors/tunnel_connector.py
index 8690d45..3b7141c 100644
--- a/src/fora/connectors/tunnel_connector.py
+++ b/src/fora/connectors/tunnel_connector.py
@@ -68,8 +68,7 @@ class TunnelConnector(Connector):
             # If the connection failed for any reason, be sure to kill the background process.
             if not self.is_open:
                 self.process.terminate()
-                self.process.wait()
-                self.process = None
+                self.close()
 
         logger.connection_established()
 
-- 
2.43.0


From 076085e31235ce748524a61da7793c270d355ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 41/49] fix: respect --no-color when printing diffs

---
 src/fora/logger.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index f7357e7..d103e13 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -306,7 +306,7 @@ def print_operation(op: Any, result: Any) -> None:
         diff_lines = []
         # Generate diffs
         for file, old, new in op.diffs:
-            diff_lines.extend(diff(file, old, new))
+            diff_lines.extend(diff(file, old, new, color=use_color()))
         # Print diffs with block character line
         if len(diff_lines) > 0:
             for l in diff_lines[:-1]:
-- 
2.43.0


From 2990e21806ff5a7f10d4ae36847dc72e129678c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:13 +0000
Subject: [PATCH 42/49] fix: also escape non-printable characters above U+00FF
 in diffs

---
 src/fora/logger.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/fora/logger.py b/src/fora/logger.py
index d103e13..982034f 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -166,8 +166,8 @@ def decode_escape(data: bytes, encoding: str = 'utf-8') -> str:
             return special[c]
 
         num = ord(c)
-        if not c.isprintable() and num <= 0xff:
-            return f"\\x{num:02x}"
+        if not c.isprintable():
+            return f"\\x{num:02x}" if num <= 0xff else f"\\u{num:04x}" if num <= 0xffff else f"\\U{num:08x}"
         return c
     return ''.join([escape_char(c) for c in data.decode(encoding, 'backslashreplace')])
 
-- 
2.43.0


From 6ee4b3e141d4b36f37c08287808044d3dbb23c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 43/49] fix: escape special characters in the output of failed
 commands

---
 src/fora/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/utils.py b/src/fora/utils.py
index 3149746..a14a31f 100644
--- a/src/fora/utils.py
+++ b/src/fora/utils.py
@@ -19,7 +19,7 @@ from types import ModuleType, TracebackType
 from typing import Any, Collection, NoReturn, Type, TypeVar, Callable, Iterable, Optional, Union
 
 import fora
-from fora.logger import col
+from fora.logger import col, decode_escape
 
 class FatalError(Exception):
     """An exception type for fatal errors, optionally including a file location."""
@@ -340,7 +340,7 @@ def print_process_error(err: subprocess.CalledProcessError) -> None:
         col_red, "failed", col_reset, " ",
         f"with code {err.returncode} ]"], file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stdout", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print((err.stdout or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print("\n".join(map(decode_escape, (err.stdout or b"").split(b"\n"))), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "stderr", col_reset, col_darker, " (special characters escaped) ", col_reset], file=sys.stderr)
-    print((err.stderr or b"").decode("utf-8", errors="backslashreplace"), file=sys.stderr)
+    print("\n".join(map(decode_escape, (err.stderr or b"").split(b"\n"))), file=sys.stderr)
     print_fullwith(["──────── ", col_yellow, "end", col_reset, col_darker, " ", col_reset], file=sys.stderr)
-- 
2.43.0


From 5242f37954751494e473690c2288a5b1d9278aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:24 +0000
Subject: [PATCH 44/49] fix: only use existing functions in the example deploys

---
 src/fora/example_deploys.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/fora/example_deploys.py b/src/fora/example_deploys.py
index db92bf8..8571bdd 100644
--- a/src/fora/example_deploys.py
+++ b/src/fora/example_deploys.py
@@ -38,9 +38,9 @@ files.template(
     name="Create the site definition",
     src="templates/site.j2",
     dest=f"/etc/nginx/sites/{params.site}")
-files.line_in_file(
+files.line(
     name="Add ",
-    file="/etc/nginx/sites",
+    path="/etc/nginx/sites",
     line=f"sites/{params.site}")
 """)
 
@@ -183,7 +183,7 @@ def init_structure_dotfiles() -> None:
         from fora.operations import files
 
         # Get home directory of current user
-        home = host.home_dir()
+        home = host.connection.home_dir()
 
         # zsh
         files.upload(src="zsh/zshrc", dest=f"{home}/.zshrc")
-- 
2.43.0


From 2a13178c34f877e33ae29ca38787c00a302398cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:12 +0000
Subject: [PATCH 45/49] fix: don't require an unversioned python on hosts
 reached via ssh

The dispatcher is started with python3, but was unpacked with python, which doesn't
exist on many distributions.
---
 src/fora/connectors/ssh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index c5f082f..61a7850 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -47,7 +47,7 @@ class SshConnector(TunnelConnector):
         command = ["ssh"]
         command.extend(self.ssh_opts)
         command.append(self.url)
-        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
+        command.append(f"env python3 -c \"$(echo '{tunnel_dispatcher_gz_b64}' | base64 -d | python3 -c 'import zlib,sys;sys.stdout.buffer.write(zlib.decompress(sys.stdin.buffer.read()))')\" {param_debug}")
 
         return command
 
-- 
2.43.0


From 5f9535b4fd2ed9697c3e874d8991ca557f0f6f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:39 +0000
Subject: [PATCH 46/49] fix: respect --no-color for --init and
 --inspect-inventory

---
 src/fora/main.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/fora/main.py b/src/fora/main.py
index 2ae7990..5158d04 100644
--- a/src/fora/main.py
+++ b/src/fora/main.py
@@ -203,7 +203,8 @@ class ActionImmediateFunction(argparse.Action):
         super().__init__(option_strings, *args, **kwargs)
 
     def __call__(self, parser: argparse.ArgumentParser, namespace: argparse.Namespace, values: Any, option_string: Any = None) -> None:
-        _ = (parser, namespace, values, option_string)
+        _ = (parser, values, option_string)
+        fora.args = namespace
         self.func(values)
 
 def main(argv: Optional[list[str]] = None) -> None:
@@ -244,6 +245,11 @@ def main(argv: Optional[list[str]] = None) -> None:
             help="The user script containing the logic of what should be executed on the inventory.")
     parser.set_defaults(func=main_run)
 
+    # Disable color when NO_COLOR is set, or output is not a TTY. This must already be known while
+    # parsing, as immediate actions are executed before all arguments have been parsed.
+    is_a_tty = hasattr(sys.stdout, 'isatty') and sys.stdout.isatty()
+    parser.set_defaults(no_color="--no-color" in argv or os.getenv("NO_COLOR") is not None or not is_a_tty)
+
     try:
         args: argparse.Namespace = parser.parse_args(argv)
     except ArgumentParserError as e:
@@ -253,11 +259,6 @@ def main(argv: Optional[list[str]] = None) -> None:
     if args.debug:
         args.verbose = 99
 
-    # Disable color when NO_COLOR is set, or output is not a TTY
-    is_a_tty = hasattr(sys.stdout, 'isatty') and sys.stdout.isatty()
-    if os.getenv("NO_COLOR") is not None or not is_a_tty:
-        args.no_color = True
-
     # Install exception hook to modify traceback, if debug isn't set.
     # Exceptions raised from a dynamically loaded module will then
     # be displayed a lot cleaner.
-- 
2.43.0


From d14363dda091936a6be55572d0565e8377d0600f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:18 +0000
Subject: [PATCH 47/49] fix: respect --no-color for debugging output

---
 src/fora/connectors/local.py             |  3 +++
 src/fora/connectors/ssh.py               |  3 ++-
 src/fora/connectors/tunnel_dispatcher.py | 11 +++++++++--
 src/fora/logger.py                       |  4 ++--
 4 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/fora/connectors/local.py b/src/fora/connectors/local.py
index dd876d6..9ff31fd 100644
--- a/src/fora/connectors/local.py
+++ b/src/fora/connectors/local.py
@@ -4,6 +4,7 @@ import os
 from typing import Optional
 
 import fora
+from fora import logger
 from fora.connectors import tunnel_dispatcher as td
 from fora.connectors.connector import connector
 from fora.connectors.tunnel_connector import TunnelConnector
@@ -33,6 +34,8 @@ class LocalConnector(TunnelConnector):
         command = ["python3", os.path.realpath(td.__file__)]
         if fora.args.debug:
             command.append("--debug")
+            if not logger.use_color():
+                command.append("--no-color")
         return command
 
     @classmethod
diff --git a/src/fora/connectors/ssh.py b/src/fora/connectors/ssh.py
index 61a7850..607235f 100644
--- a/src/fora/connectors/ssh.py
+++ b/src/fora/connectors/ssh.py
@@ -5,6 +5,7 @@ import zlib
 from typing import Optional
 
 import fora
+from fora import logger
 from fora.connectors import tunnel_dispatcher as td
 from fora.connectors.connector import connector
 from fora.connectors.tunnel_connector import TunnelConnector
@@ -42,7 +43,7 @@ class SshConnector(TunnelConnector):
             tunnel_dispatcher_gz_b64 = base64.b64encode(zlib.compress(f.read(), 9)).decode('ascii')
 
         # Start the remote dispatcher by uploading it inline as base64
-        param_debug = "--debug" if fora.args.debug else ""
+        param_debug = ("--debug" if logger.use_color() else "--debug --no-color") if fora.args.debug else ""
 
         command = ["ssh"]
         command.extend(self.ssh_opts)
diff --git a/src/fora/connectors/tunnel_dispatcher.py b/src/fora/connectors/tunnel_dispatcher.py
index b08b808..fe94396 100644
--- a/src/fora/connectors/tunnel_dispatcher.py
+++ b/src/fora/connectors/tunnel_dispatcher.py
@@ -31,6 +31,7 @@ u64 = NewType('u64', int)
 
 is_server = False
 debug = False
+no_color = False
 try:
     import fora
 except ModuleNotFoundError:
@@ -54,6 +55,10 @@ def _is_debug() -> bool:
     """Returns True if debugging output should be genereated."""
     return debug if is_server else cast(bool, fora.args.debug)
 
+def _is_no_color() -> bool:
+    """Returns True if debugging output must not be colored."""
+    return no_color if is_server else not fora.logger.use_color()
+
 def _log(msg: str) -> None:
     """
     Logs the given message to stderr, appending a prefix to indicate whether this
@@ -67,8 +72,8 @@ def _log(msg: str) -> None:
     if not _is_debug():
         return
 
-    # TODO color should be configurable
-    prefix = "  [1;33mREMOTE[m: " if is_server else "   [1;32mLOCAL[m: "
+    col_name, col_reset = ("", "") if _is_no_color() else ("[1;33m" if is_server else "[1;32m", "[m")
+    prefix = f"  {col_name}REMOTE{col_reset}: " if is_server else f"   {col_name}LOCAL{col_reset}: "
     print(f"{prefix}{msg}", file=sys.stderr, flush=True)
 
 def _resolve_oct(value: str) -> int:
@@ -818,8 +823,10 @@ def _main() -> None:
 
     # pylint: disable=global-statement
     global debug
+    global no_color
     global is_server
     debug = len(sys.argv) > 1 and sys.argv[1] == "--debug"
+    no_color = len(sys.argv) > 2 and sys.argv[2] == "--no-color"
     is_server = __name__ == "__main__"
 
     conn = Connection(sys.stdin.buffer, sys.stdout.buffer)
diff --git a/src/fora/logger.py b/src/fora/logger.py
index 982034f..9f81461 100644
--- a/src/fora/logger.py
+++ b/src/fora/logger.py
@@ -82,7 +82,7 @@ def debug(msg: str) -> None:
     if not fora.args.debug:
         return
 
-    print(f"   [1;34mDEBUG[m: {msg}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}", file=sys.stderr)
 
 def debug_args(msg: str, args: dict[str, Any]) -> None:
     """Prints all given arguments when in debug mode."""
@@ -94,7 +94,7 @@ def debug_args(msg: str, args: dict[str, Any]) -> None:
     if len(args) > 0:
         str_args = " " + ", ".join(f"{k}={v}" for k,v in args.items())
 
-    print(f"   [1;34mDEBUG[m: {msg}{str_args}", file=sys.stderr)
+    print(f"   {col('[1;34m')}DEBUG{col('[m')}: {msg}{str_args}", file=sys.stderr)
 
 def print_indented(msg: str, **kwargs: Any) -> None:
     """Same as print(), but prefixes the message with the indentation prefix."""
-- 
2.43.0


From f9877d0f90fceafb7568ba2c028e554c67a62d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:13 +0000
Subject: [PATCH 48/49] fix: a service unit that is just reloading is running,
 and must not be reported as stopped

---
 src/fora/operations/systemd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fora/operations/systemd.py b/src/fora/operations/systemd.py
index 862340e..d775441 100644
--- a/src/fora/operations/systemd.py
+++ b/src/fora/operations/systemd.py
@@ -92,7 +92,7 @@ def service(service: str, # pylint: disable=redefined-outer-name
     # Examine current state
     base_command = ["systemctl", "--user"] if user_mode else ["systemctl"]
     systemd_active_state = conn.run(base_command + ["show", "--value", "--property", "ActiveState", "--", service]).stdout
-    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating"]:
+    if (systemd_active_state or b"").decode('utf-8', errors='ignore').strip() in ["active", "activating", "reloading"]:
         cur_state = "started"
     else:
         cur_state = "stopped"
-- 
2.43.0


From 7d17104ef66b0bb60f7196c79323e1014b75cfee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:59 +0000
Subject: [PATCH 49/49] fix: honour name and check of an operation if they are
 given by position

---
 src/fora/operations/api.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fora/operations/api.py b/src/fora/operations/api.py
index 9021171..b2bd40e 100644
--- a/src/fora/operations/api.py
+++ b/src/fora/operations/api.py
@@ -1,6 +1,7 @@
 """Provides API to define operations."""
 
 from dataclasses import dataclass
+import inspect
 import subprocess
 import sys
 
@@ -250,12 +251,16 @@ def operation(op_name: str): # type: ignore[no-untyped-def]
                              tb_lineno=back_frame.f_lineno)
 
     def operation_wrapper(function: _TFunc) -> _TFunc:
+        signature = inspect.signature(function)
+
         @wraps(function)
         def wrapper(*args: Any, **kwargs: Any) -> Any:
             check_host_active()
 
-            op = Operation(op_name=op_name, name=kwargs.get("name", None))
-            check = kwargs.get("check", True)
+            # The arguments may also have been given by position.
+            arguments = signature.bind_partial(*args, **kwargs).arguments
+            op = Operation(op_name=op_name, name=arguments.get("name", None))
+            check = arguments.get("check", True)
 
             try:
                 ret = function(*args, **kwargs, op=op)
-- 
2.43.0

