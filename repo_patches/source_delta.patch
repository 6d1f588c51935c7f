From 0ae1ddf97fdd894fb68f958cfdd47b7d41db483f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 001/118] fix: close the child's output pipe when RunCmd's
 reader fails

If decoding the output or writing it to the output file, stream or log raised,
the pipe was left open and unread: a child with more output than fits in the
pipe then blocked forever, RunCmd waited for it and never raised the failure.
---
 edk2toollib/utility_functions.py | 38 ++++++++++++++++++--------------
 1 file changed, 21 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 6d72ca0..bae1379 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -66,24 +66,28 @@ def reader(filepath, outstream, stream, logging_level=logging.INFO, encodingErro
     part of the threading pattern.
     """
     f = None
-    # open file if caller provided path
-    if filepath:
-        f = open(filepath, "w")
-
-    while True:
-        s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
-        if not s:
-            break
+    try:
+        # open file if caller provided path
+        if filepath:
+            f = open(filepath, "w")
+
+        while True:
+            s = stream.readline().decode(sys.stdout.encoding or "utf-8", errors=encodingErrors)
+            if not s:
+                break
+            if f is not None:
+                # write to file if caller provided file
+                f.write(s)
+            if outstream is not None:
+                # write to stream object if caller provided object
+                outstream.write(s)
+            logging.log(logging_level, s.rstrip())
+    finally:
+        # Always close our end of the pipe. If it stayed open after a failure, the child would block forever once
+        # the pipe is full and the caller waiting on the child would never see the failure.
+        stream.close()
         if f is not None:
-            # write to file if caller provided file
-            f.write(s)
-        if outstream is not None:
-            # write to stream object if caller provided object
-            outstream.write(s)
-        logging.log(logging_level, s.rstrip())
-    stream.close()
-    if f is not None:
-        f.close()
+            f.close()
 
 
 def GetHostInfo() -> namedtuple:
-- 
2.43.0


From 87851de1ff059a18056450b19d0fe0512273da3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:40 +0000
Subject: [PATCH 002/118] fix: do not leave an unread pipe behind
 RunCmd(capture=False)

With capture disabled the child's stdout was still a pipe that nobody read, so
a command printing more than the pipe holds never finished and RunCmd hung.
---
 edk2toollib/utility_functions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index bae1379..5538c90 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -199,7 +199,8 @@ def RunCmd(
     logging.log(logging_level, "------------------------------------------------")
     c = subprocess.Popen(
         cmd,
-        stdout=subprocess.PIPE,
+        # Nothing reads the pipe when the output is not captured, so a child filling it would block forever.
+        stdout=subprocess.PIPE if capture else subprocess.DEVNULL,
         stderr=subprocess.STDOUT,
         cwd=workingdir,
         shell=True,
-- 
2.43.0


From 5eb5c2d401f3500927936d286a4d1948959058e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 003/118] fix: do not color the log record shared with other
 handlers

ColoredFormatter edited the record in place and restored it afterwards. When
formatting failed it was never restored, and when two threads formatted one
record the colored level name was saved as the original, so every other handler
showed escape codes from then on. Color a copy instead.
---
 edk2toollib/log/ansi_handler.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 93c7b3d..66042f7 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -11,6 +11,7 @@
 Will call into win32 commands as needed when needed
 """
 
+import copy
 import logging
 import re
 from typing import IO, Callable, Optional
@@ -214,6 +215,8 @@ class ColoredFormatter(logging.Formatter):
 
     def format(self, record: logging.LogRecord) -> str:
         """Formats the given record and returns it."""
+        # The record is shared with every other handler (possibly in other threads), so only ever color a copy.
+        record = copy.copy(record)
         levelname = record.levelname
         org_message = record.msg
 
@@ -231,11 +234,7 @@ class ColoredFormatter(logging.Formatter):
             levelname_color = "##[" + ColoredFormatter.AZURE_COLORS[levelname] + "]"
             record.levelname = levelname_color
 
-        result = logging.Formatter.format(self, record)
-
-        record.levelname = levelname
-        record.msg = org_message
-        return result
+        return logging.Formatter.format(self, record)
 
 
 def get_ansi_string(color: AnsiColor = AnsiColor.RESET) -> str:
-- 
2.43.0


From 00ecd86e2597bba5c020357ac78369d20b0eb788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:26 +0000
Subject: [PATCH 004/118] fix: keep captured log records intact when the stream
 is being read

StringStreamHandler wrote wherever the reader had left the stream: a record
logged after seek_start() overwrote the records captured before it. Append at
the end and leave the read position alone, under the handler's lock.
---
 edk2toollib/log/string_handler.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index a4f3941..e1563e5 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -39,18 +39,30 @@ class StringStreamHandler(logging.StreamHandler):
                 self.release()
         return rv
 
+    def emit(self, record: LogRecord) -> None:
+        """Append the record to the end of the stream, whatever position it is being read from."""
+        position = self.stream.tell()
+        end = self.stream.seek(0, io.SEEK_END)
+        super().emit(record)
+        if position != end:
+            self.stream.seek(position)
+
     def readlines(self, hint: int = -1) -> list[str]:
         """Reads lines from stream and returns them."""
-        return self.stream.readlines(hint)
+        with self.lock:
+            return self.stream.readlines(hint)
 
     def seek_start(self) -> None:
         """Seeks to a specific point in the stream."""
-        self.stream.seek(0, 0)
+        with self.lock:
+            self.stream.seek(0, 0)
 
     def seek_end(self) -> None:
         """Seeks to the end of the stream."""
-        self.stream.seek(0, io.SEEK_END)
+        with self.lock:
+            self.stream.seek(0, io.SEEK_END)
 
     def seek(self, offset: int, whence: int) -> int:
         """Seek to a specific point in the stream."""
-        return self.stream.seek(offset, whence)
+        with self.lock:
+            return self.stream.seek(offset, whence)
-- 
2.43.0


From 11c0d34f51a8bcbf549010dfdc5b59e268cc72aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:32 +0000
Subject: [PATCH 005/118] fix: write each database table in a single
 transaction

The InstancedInf, InstancedFv and Source generators committed part way, so a
failure in the middle left a half written table behind although Edk2DB rolls
back a generator that fails.
---
 edk2toollib/database/tables/instanced_fv_table.py  | 1 -
 edk2toollib/database/tables/instanced_inf_table.py | 4 +---
 edk2toollib/database/tables/source_table.py        | 1 -
 3 files changed, 1 insertion(+), 5 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_fv_table.py b/edk2toollib/database/tables/instanced_fv_table.py
index da758ef..a95cab8 100644
--- a/edk2toollib/database/tables/instanced_fv_table.py
+++ b/edk2toollib/database/tables/instanced_fv_table.py
@@ -78,4 +78,3 @@ class InstancedFvTable(TableGenerator):
 
             fv = Fv(env=env_id, name=fv, fdf=self.fdf, infs=[all_components.get(inf) for inf in filtered])
             session.add(fv)
-            session.commit()
diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 4e0a81b..c0df7c1 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -135,7 +135,7 @@ class InstancedInfTable(TableGenerator):
                 )
             )
         session.add_all(rows)
-        session.commit()
+        session.flush()
 
         all_libraries = {
             (library.path, library.arch, library.cls, library.component): library
@@ -146,8 +146,6 @@ class InstancedInfTable(TableGenerator):
             libraries = [all_libraries.get((path, row.arch, lib, row.component)) for lib, path in inf["LIBRARIES_USED"]]
             row.libraries.extend([lib for lib in libraries if lib is not None])
 
-        session.commit()
-
     def _build_inf_table(self, dscp: DscP) -> list:
         """Create the instanced inf entries, including components and libraries.
 
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index cb59b53..a8cbc8a 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -67,7 +67,6 @@ class SourceTable(TableGenerator):
                 to_add[-1].blank_lines = source.blank_lines
 
         session.add_all(to_add)
-        session.commit()
 
         logging.debug(
             f"{self.__class__.__name__}: Parsed {len(src_entries)} files; took {round(time.time() - start, 2)} seconds."
-- 
2.43.0


From cf8e8e12799ebfe4af75a10d1badeaab8e3f0e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 006/118] fix: do not reuse INF contents cached by an earlier
 parse

An InstancedInfTable that runs again (a second Edk2DB.parse) described INFs as
they were at the first parse.
---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index c0df7c1..99957a4 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -53,6 +53,7 @@ class InstancedInfTable(TableGenerator):
         self.dsc = self.env["ACTIVE_PLATFORM"]
         self.arch = self.env["TARGET_ARCH"].split(" ")
         self.target = self.env["TARGET"]
+        self._parsed_infs = {}
 
         dscp = DscP().SetEdk2Path(self.pathobj)
         dscp.SetInputVars(self.env)
-- 
2.43.0


From 5911849b43e0b7402b467e4b67e563ff5c16b262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 007/118] fix: update license and line count of a source
 already in the database

Rows created by the INF generators before SourceTable ran kept a NULL license
and line count, and a re-parse never noticed a changed license.
---
 edk2toollib/database/tables/source_table.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index a8cbc8a..88206e4 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -62,6 +62,8 @@ class SourceTable(TableGenerator):
                 to_add.append(source)
             else:
                 to_add.append(existing_source[source.path])
+                to_add[-1].license = source.license
+                to_add[-1].total_lines = source.total_lines
                 to_add[-1].code_lines = source.code_lines
                 to_add[-1].comment_lines = source.comment_lines
                 to_add[-1].blank_lines = source.blank_lines
-- 
2.43.0


From c9622912d938b2e7ea23405a14797a7c27a535f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 008/118] fix: return INF libraries and sources in file order

The order came from set iteration and so changed with every process, and with
it which instance a library reached twice was recorded under.
---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 6adf8e7..f55b24b 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -81,7 +81,7 @@ class InfParser(HashFileParser):
 
         for arch in arch_list:
             libraries = libraries + self.ScopedLibraryDict.get(arch.lower(), []).copy()
-        return list(set(libraries))
+        return list(dict.fromkeys(libraries))
 
     def get_sources(self, arch_list: list[str]) -> list[str]:
         """Returns a list of sources depending on the requested archs."""
@@ -89,7 +89,7 @@ class InfParser(HashFileParser):
 
         for arch in arch_list:
             sources = sources + self.ScopedSourceDict.get(arch.lower(), []).copy()
-        return list(set(sources))
+        return list(dict.fromkeys(sources))
 
     def ParseFile(self, filepath: str) -> None:
         """Parses the INF file provided."""
-- 
2.43.0


From 1516a3a41b167d9f3c5a9035c43f00373ea37983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 009/118] fix: honor arch specific LibraryClasses for generic
 DSC components

A component listed under plain [Components] got the architecture in upper case,
so the lower case keys of [LibraryClasses.X64] never matched.
---
 edk2toollib/database/tables/instanced_inf_table.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 99957a4..6963686 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -162,6 +162,7 @@ class InstancedInfTable(TableGenerator):
                 scope = scope.split(".")[0]
 
             # Ignore components built with an architecture that is not in TARGET_ARCH
+            scope = scope.lower()
             arch = scope.upper()
             if arch not in self.arch:
                 continue
-- 
2.43.0


From 71ab2d2d5b53ad775c7d964f3b288ca0dbc49455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:04 +0000
Subject: [PATCH 010/118] fix: keep the other instances when a DSC repeats a
 library instance

Listing the same instance twice for a scope threw away every other instance
seen before it.
---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index ff6102d..05110ea 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -354,10 +354,10 @@ class DscParser(HashFileParser):
                 value = instance.strip()
                 if os.path.isabs(value):
                     value = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(value)
-                if key in self.ScopedLibraryDict and value not in self.ScopedLibraryDict[key]:
-                    self.ScopedLibraryDict[key].insert(0, value)
-                else:
-                    self.ScopedLibraryDict[key] = [value]
+                instances = self.ScopedLibraryDict.setdefault(key, [])
+                if value in instances:
+                    instances.remove(value)
+                instances.insert(0, value)
 
         return
 
-- 
2.43.0


From 8215885ab519482139944a3124cf6358a467bb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 011/118] fix: log TPM simulator traffic without the removed
 hex codec

---
 edk2toollib/tpm/tpm2_simulator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 3f494e5..faf9a30 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -65,13 +65,13 @@ class TpmSimulator(object):
 
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
-        print("RAW -->: " + str(data).encode("hex"))
+        print("RAW -->: " + data.hex())
         self.tpmSock.send(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
         data = self.tpmSock.recv(count)
-        print("RAW <--: " + str(data).encode("hex"))
+        print("RAW <--: " + data.hex())
         return data
 
     def send_data(self, data: str) -> bytes:
-- 
2.43.0


From d576009a9934f48734d804823c113b8b3821e19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 012/118] fix: send and receive complete TPM simulator messages

---
 edk2toollib/tpm/tpm2_simulator.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index faf9a30..8f78654 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -63,14 +63,25 @@ class TpmSimulator(object):
         # Enable the NV space.
         self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
 
+    @staticmethod
+    def _recv_exact(sock: socket.socket, count: int) -> bytes:
+        """Receive exactly count bytes, however the stream is segmented."""
+        data = b""
+        while len(data) < count:
+            chunk = sock.recv(count - len(data))
+            if not chunk:
+                raise ConnectionError("TPM simulator closed the connection after %d of %d bytes" % (len(data), count))
+            data += chunk
+        return data
+
     def send_raw_data(self, data: str) -> None:
         """Send raw data to the TPM simulator."""
         print("RAW -->: " + data.hex())
-        self.tpmSock.send(data)
+        self.tpmSock.sendall(data)
 
     def read_raw_data(self, count: int) -> bytes:
         """Read raw data from the TPM simulator."""
-        data = self.tpmSock.recv(count)
+        data = self._recv_exact(self.tpmSock, count)
         print("RAW <--: " + data.hex())
         return data
 
-- 
2.43.0


From 6fc7930250a099176d4697fa3596b1c5a6e1cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:28 +0000
Subject: [PATCH 013/118] fix: wait for the TPM simulator to power on before
 sending commands

---
 edk2toollib/tpm/tpm2_simulator.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/tpm/tpm2_simulator.py b/edk2toollib/tpm/tpm2_simulator.py
index 8f78654..6ee7d53 100644
--- a/edk2toollib/tpm/tpm2_simulator.py
+++ b/edk2toollib/tpm/tpm2_simulator.py
@@ -57,11 +57,16 @@ class TpmSimulator(object):
         self.tpmSock.connect((host, port))
 
         # Power cycle the TPM.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_OFF"]))
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_POWER_ON"]))
+        self._signal("TPM_SIGNAL_POWER_OFF")
+        self._signal("TPM_SIGNAL_POWER_ON")
 
         # Enable the NV space.
-        self.platSock.send(struct.pack(">L", PLAT_COMMANDS["TPM_SIGNAL_NV_ON"]))
+        self._signal("TPM_SIGNAL_NV_ON")
+
+    def _signal(self, name: str) -> None:
+        """Send a platform signal and wait for the simulator to acknowledge it."""
+        self.platSock.sendall(struct.pack(">L", PLAT_COMMANDS[name]))
+        self._recv_exact(self.platSock, 4)
 
     @staticmethod
     def _recv_exact(sock: socket.socket, count: int) -> bytes:
-- 
2.43.0


From 25a4b03c7eeac4807916209bd38e5c19e17ae8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 014/118] fix: quote the variable path handed to the shell

---
 edk2toollib/os/uefivariablesupport.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index eb4e194..fc09d01 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -21,6 +21,7 @@ This module provides:
 
 import logging
 import os
+import shlex
 import struct
 import uuid
 from ctypes import create_string_buffer
@@ -301,7 +302,7 @@ class UefiVariable(object):
 
             # if the file exists, remove the immutable flag
             if os.path.exists(path):
-                os.system("sudo chattr -i " + path)
+                os.system("sudo chattr -i " + shlex.quote(path))
 
             with open(path, "wb") as fd:
                 # var data is attribute (UINT32) followed by data
-- 
2.43.0


From 0c0095df7e5bc49731e8753e3036aaf514065352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 015/118] fix: clear the immutable flag before deleting a UEFI
 variable

---
 edk2toollib/os/uefivariablesupport.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/os/uefivariablesupport.py b/edk2toollib/os/uefivariablesupport.py
index fc09d01..cb3f7db 100644
--- a/edk2toollib/os/uefivariablesupport.py
+++ b/edk2toollib/os/uefivariablesupport.py
@@ -293,6 +293,8 @@ class UefiVariable(object):
             if var is None:
                 # we are deleting the variable
                 if os.path.exists(path):
+                    # remove the immutable flag, which protects most variables
+                    os.system("sudo chattr -i " + shlex.quote(path))
                     os.remove(path)
                     success = 1  # expect non-zero success
                 return success
-- 
2.43.0


From 551df09afa03f3aa6e8350a0b92a58eb43b92d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 016/118] fix: reject a UEFI variable whose name or data is cut
 off

---
 edk2toollib/uefi/edk2/variable_format.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 1b4ecb7..385f40a 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -155,6 +155,8 @@ class VariableHeader(object):
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
+        if len(in_bytes) < self.get_buffer_data_size():
+            raise ValueError("Variable is truncated!")
 
         return self
 
@@ -182,8 +184,11 @@ class VariableHeader(object):
         # Finally, load the data.
         self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
+        end_seek = file.tell()
 
         file.seek(orig_seek)
+        if end_seek - orig_seek < self.get_buffer_data_size():
+            raise ValueError("Variable is truncated!")
         return self
 
     def get_buffer_data_size(self) -> int:
-- 
2.43.0


From 9cc437eaa64aeba20347e683f3910235cc08ff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 017/118] fix: do not read variables from behind the end of the
 VarStore

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 82aaab4..7c38d02 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -62,8 +62,10 @@ class VariableStore(object):
         # Now we're finally ready to read some variables.
         self.variables = []
         self.rom_file.seek(self.var_store_header.StructSize, os.SEEK_CUR)
+        store_end = self.store_base + self.fv_header.HeaderLength + self.var_store_header.Size
         try:
-            while True:
+            # A completely filled store has no terminating variable header.
+            while self.rom_file.tell() + self.get_new_var_class().StructSize <= store_end:
                 new_var = self.get_new_var_class().load_from_file(self.rom_file)
 
                 # Seek past the current variable in the store.
-- 
2.43.0


From 5feba73793a9a967a13e934f72b569f9845dbbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 018/118] fix: count the VarStore header when checking that the
 variables fit

---
 edk2toollib/uefi/edk2/variablestore_manulipulations.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index 7c38d02..c5f2964 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -110,10 +110,10 @@ class VariableStore(object):
         # Add the terminating var header.
         dummy_var = self.get_new_var_class()
         var_size += dummy_var.StructSize
-        if var_size > self.var_store_header.Size:
-            raise Exception(
-                "Total variable size %d is too large to fit in VarStore %d!" % (var_size, self.var_store_header.Size)
-            )
+        # The size of the VarStore includes its own header.
+        max_size = self.var_store_header.Size - self.var_store_header.StructSize
+        if var_size > max_size:
+            raise Exception("Total variable size %d is too large to fit in VarStore %d!" % (var_size, max_size))
 
         # Now, we just have to serialize each variable in turn and write them to the mmap buffer.
         var_offset = self.store_base + self.fv_header.HeaderLength + self.var_store_header.StructSize
-- 
2.43.0


From 6d73df50e218589fbc5a4ea0c82b46ede350c146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:59 +0000
Subject: [PATCH 019/118] fix: serialize all variables before changing the ROM
 file

---
 .../uefi/edk2/variablestore_manulipulations.py     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variablestore_manulipulations.py b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
index c5f2964..c7be3b5 100644
--- a/edk2toollib/uefi/edk2/variablestore_manulipulations.py
+++ b/edk2toollib/uefi/edk2/variablestore_manulipulations.py
@@ -115,12 +115,16 @@ class VariableStore(object):
         if var_size > max_size:
             raise Exception("Total variable size %d is too large to fit in VarStore %d!" % (var_size, max_size))
 
-        # Now, we just have to serialize each variable in turn and write them to the mmap buffer.
+        # Serialize every variable before touching the ROM, so that a bad one leaves it as it was.
+        var_buffers = [var.serialize(True) for var in self.variables]
+        if any(len(buffer) != var.get_buffer_size() for var, buffer in zip(self.variables, var_buffers)):
+            raise Exception("The name or data of a variable does not match its size fields!")
+
+        # Now, we just have to write each variable in turn to the mmap buffer.
         var_offset = self.store_base + self.fv_header.HeaderLength + self.var_store_header.StructSize
-        for var in self.variables:
-            var_buffer_size = var.get_buffer_size()
-            self.rom_file_map[var_offset : (var_offset + var_buffer_size)] = var.serialize(True)
-            var_offset += var_buffer_size
+        for var_buffer in var_buffers:
+            self.rom_file_map[var_offset : (var_offset + len(var_buffer))] = var_buffer
+            var_offset += len(var_buffer)
 
         # Add a terminating Variable Header.
         self.rom_file_map[var_offset : (var_offset + dummy_var.StructSize)] = b"\xff" * dummy_var.StructSize
-- 
2.43.0


From c68fe38f448c0d28acd75886a6536db759b5858b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 020/118] fix: do not let RemoveTree change permissions behind
 symbolic links

---
 edk2toollib/utility_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 5538c90..f451692 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -454,8 +454,10 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
     if sys.platform.startswith("win"):
         dir_path = "\\\\?\\" + os.path.abspath(dir_path)
 
-    def _remove_readonly(func: Callable, path: str, _: any) -> None:
+    def _remove_readonly(func: Callable, path: str, exc_info: any) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
+        if os.path.islink(path):  # never change what a link points at
+            raise exc_info[1]
         os.chmod(path, stat.S_IWRITE)
         func(path)
 
-- 
2.43.0


From deadf3cfb057ff0156406c692b4a07fae8f63b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:04 +0000
Subject: [PATCH 021/118] fix: retry in RemoveTree when a directory cannot be
 read

---
 edk2toollib/utility_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index f451692..bea73c9 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -458,7 +458,9 @@ def RemoveTree(dir_path: str, ignore_errors: bool = False) -> None:
         """Private function to attempt to change permissions on file/folder being deleted."""
         if os.path.islink(path):  # never change what a link points at
             raise exc_info[1]
-        os.chmod(path, stat.S_IWRITE)
+        os.chmod(path, stat.S_IRWXU if os.path.isdir(path) else stat.S_IWRITE)
+        if func not in (os.unlink, os.remove, os.rmdir):  # a directory could not be read: leave it to the next try
+            raise exc_info[1]
         func(path)
 
     for _ in range(3):  # retry up to 3 times
-- 
2.43.0


From cae37692674990f5f14965889a7b916bf86db3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:59 +0000
Subject: [PATCH 022/118] fix: find containing modules with nested roots and
 stop at the workspace

---
 edk2toollib/uefi/edk2/path_utilities.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index c31c385..a192ccf 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -344,16 +344,11 @@ class Edk2Path(object):
         all_root_paths = self._package_path_list + [self._workspace_path]
 
         # For each root path, find the maximum allowed root in its hierarchy.
-        maximum_root_paths = all_root_paths
-        for root_path in maximum_root_paths:
-            for other_root_path in maximum_root_paths[:]:
-                if root_path == other_root_path:
-                    continue
-                if root_path.is_relative_to(other_root_path):
-                    if len(root_path.parts) > len(other_root_path.parts):
-                        maximum_root_paths.remove(root_path)
-                    else:
-                        maximum_root_paths.remove(other_root_path)
+        maximum_root_paths = [
+            root_path
+            for root_path in all_root_paths
+            if not any(root_path != other and root_path.is_relative_to(other) for other in all_root_paths)
+        ]
 
         # Verify the file path is within a valid workspace or package path
         # directory.
@@ -390,7 +385,9 @@ class Edk2Path(object):
             # neither of which are a module directory, once that point is
             # reached, all possible module candidates are exhausted.
             current_dir = input_path.parent
-            while current_dir not in maximum_root_paths:
+            while current_dir not in maximum_root_paths and any(
+                current_dir.is_relative_to(root_path) for root_path in maximum_root_paths
+            ):
                 if current_dir.is_dir():
                     current_dir_inf_files = [
                         str(f) for f in current_dir.iterdir() if f.is_file() and f.suffix.lower() == ".inf"
-- 
2.43.0


From 2a16e365dd73b4db1afdc552a0cb6609cea2090e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:15 +0000
Subject: [PATCH 023/118] fix: do not search for a package above a removed
 workspace

---
 edk2toollib/uefi/edk2/path_utilities.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/path_utilities.py b/edk2toollib/uefi/edk2/path_utilities.py
index a192ccf..e640d11 100644
--- a/edk2toollib/uefi/edk2/path_utilities.py
+++ b/edk2toollib/uefi/edk2/path_utilities.py
@@ -302,7 +302,7 @@ class Edk2Path(object):
         else:
             dirpath = InputPath.parent
 
-        while path_root != dirpath:
+        while path_root != dirpath and dirpath.is_relative_to(path_root):
             if dirpath.exists():
                 for f in dirpath.iterdir():
                     if f.suffix.lower() == ".dec":
-- 
2.43.0


From 23d7e5dea9715e968b3f3ef0dc6d5cdd00213d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 024/118] fix: never leave an unverified vswhere.exe behind a
 failed download

---
 edk2toollib/windows/locate_tools.py | 39 ++++++++++++++++++++---------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 0e05159..2a207d9 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -22,11 +22,13 @@ NOTE: Has the capability to download VSwhere.
 """
 
 import glob
+import hashlib
 import importlib.resources as resources
 import logging
 import os
 import re
 import subprocess
+import tempfile
 from pathlib import Path
 from typing import List, Optional
 
@@ -70,23 +72,36 @@ def _DownloadVsWhere(unpack_folder: os.PathLike = None) -> None:
         logging.info("Created folder: {}".format(unpack_folder))
 
     # check if we have the vswhere file already downloaded
-    if not os.path.isfile(out_file_name):
+    if os.path.isfile(out_file_name):
+        # do the hash to make sure the file is good
         try:
-            # Download the file and save it locally under `temp_file_name`
-            with urllib.request.urlopen(__URL) as response, open(out_file_name, "wb") as out_file:
-                out_file.write(response.read())
-        except urllib.error.HTTPError as e:
-            logging.error("We ran into an issue when getting VsWhere")
-            raise e
+            _VerifyVsWhere(out_file_name)
+        except RuntimeError:
+            # delete the file since it's not what we're expecting
+            os.remove(out_file_name)
+            raise
+        return
+
+    # Download to a temporary file: others must never see (or run) the tool before it is complete and verified
+    temp_fd, temp_file_name = tempfile.mkstemp(suffix=".tmp", prefix="vswhere", dir=unpack_folder)
+    os.close(temp_fd)
+    try:
+        with urllib.request.urlopen(__URL) as response, open(temp_file_name, "wb") as out_file:
+            out_file.write(response.read())
+        _VerifyVsWhere(temp_file_name)
+        os.replace(temp_file_name, out_file_name)
+    except urllib.error.HTTPError as e:
+        logging.error("We ran into an issue when getting VsWhere")
+        raise e
+    finally:
+        if os.path.isfile(temp_file_name):
+            os.remove(temp_file_name)
 
-    # do the hash to make sure the file is good
-    with open(out_file_name, "rb") as file:
-        import hashlib
 
+def _VerifyVsWhere(file_name: os.PathLike) -> None:
+    with open(file_name, "rb") as file:
         temp_file_sha256 = hashlib.sha256(file.read()).hexdigest()
     if temp_file_sha256 != __SHA256:
-        # delete the file since it's not what we're expecting
-        os.remove(out_file_name)
         raise RuntimeError(f"VsWhere - sha256 does not match\n\tdownloaded:\t{temp_file_sha256}\n\t")
 
 
-- 
2.43.0


From 4ea05d9c90f32f85a5aad7621405d339fdcbdb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:14 +0000
Subject: [PATCH 025/118] fix: do not swap product and architecture when
 locating SDK tools

---
 edk2toollib/windows/locate_tools.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index 2a207d9..a71e943 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -399,7 +399,7 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     variables = ["WindowsSdkDir", "WindowsSDKVersion"]
     # get the value with QueryVcVariables
     try:
-        results = QueryVcVariables(variables, product, arch)
+        results = QueryVcVariables(variables, arch, product)
         # Get the variables we care about
         sdk_dir = results["WindowsSdkDir"]
         sdk_ver = results["WindowsSDKVersion"]
-- 
2.43.0


From a1170d298e2731802e546c0e398de6a28cdb887d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:49 +0000
Subject: [PATCH 026/118] fix: choose the SDK tool by version, not by directory
 order

---
 edk2toollib/windows/locate_tools.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/windows/locate_tools.py b/edk2toollib/windows/locate_tools.py
index a71e943..1e7d685 100644
--- a/edk2toollib/windows/locate_tools.py
+++ b/edk2toollib/windows/locate_tools.py
@@ -413,9 +413,11 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
     # look for something like 10.0.12323.0123
     windows_ver_regex = re.compile(r"\d+\.\d+\.\d+\.\d+")
     top_version_so_far = -1
+    top_is_current_sdk_version = False
     top_match = None
     # Look at in match in the tree
-    for match in glob.iglob(search_pattern, recursive=True):
+    # (sorted, as the order of directory entries depends on the file system)
+    for match in sorted(glob.iglob(search_pattern, recursive=True), key=os.path.dirname):
         match_file = match[match_offset:]  # strip off the root
         match_front, match_end = os.path.split(match_file)  # split off the filename
         versions = windows_ver_regex.findall(match_front)  # look for windows versions
@@ -430,8 +432,10 @@ def FindToolInWinSdk(tool: str, product: str = None, arch: str = None) -> str:
                 top_ver_match = version
         # if we have a highest version or one that matches our current from environment variables?
         is_current_sdk_version = _CompareWindowVersions(top_ver_match, sdk_ver) == 0
-        if _CompareWindowVersions(top_ver_match, top_version_so_far) > 0 or is_current_sdk_version:
+        is_newer = not top_is_current_sdk_version and _CompareWindowVersions(top_ver_match, top_version_so_far) > 0
+        if is_newer or is_current_sdk_version:
             top_version_so_far = top_ver_match
+            top_is_current_sdk_version = is_current_sdk_version
             top_match = match
     if top_match is None:
         logging.critical("We weren't able to find {}".format(tool))
-- 
2.43.0


From d5caa5cab42f7345e09b30cc6d6613910a7abaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:34 +0000
Subject: [PATCH 027/118] fix: quote the PFX path handed to signtool for
 catalog signing

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index bea73c9..baa91c6 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -369,7 +369,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = "sign /a /fd SHA256 /f " + PfxFilePath
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath.strip('"') + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
-- 
2.43.0


From d1ce54b7a3b4afde37f9e2cae3fe067341f8b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 028/118] fix: measure JUnit test case durations with a
 monotonic clock

---
 edk2toollib/log/junit_report_format.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 26b1a95..b061ef6 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -59,13 +59,13 @@ class JunitReportTestCase(object):
         self._TestSuite = None
         self.StdErr = ""
         self.StdOut = ""
-        self._StartTime = time.time()
+        self._StartTime = time.monotonic()
 
     def SetFailed(self, Msg: str, Type: str) -> None:
         """Sets internal state if the test failed."""
         if self.Status != JunitReportTestCase.NEW:
             raise Exception("Can't Set to failed.  State must be in NEW")
-        self.Time = time.time() - self._StartTime
+        self.Time = time.monotonic() - self._StartTime
         self.Status = JunitReportTestCase.FAILED
         self.FailureMsg = JunitReportFailure(Type, Msg)
 
@@ -73,7 +73,7 @@ class JunitReportTestCase(object):
         """Set internal state if the test had an error."""
         if self.Status != JunitReportTestCase.NEW:
             raise Exception("Can't Set to error.  State must be in NEW")
-        self.Time = time.time() - self._StartTime
+        self.Time = time.monotonic() - self._StartTime
         self.Status = JunitReportTestCase.ERROR
         self.ErrorMsg = JunitReportError(Type, Msg)
 
@@ -82,14 +82,14 @@ class JunitReportTestCase(object):
         if self.Status != JunitReportTestCase.NEW:
             raise Exception("Can't Set to success.  State must be in NEW")
         self.Status = JunitReportTestCase.SUCCESS
-        self.Time = time.time() - self._StartTime
+        self.Time = time.monotonic() - self._StartTime
 
     def SetSkipped(self) -> None:
         """Set internal state if the test was skipped."""
         if self.Status != JunitReportTestCase.NEW:
             raise Exception("Can't Set to skipped.  State must be in NEW")
         self.Status = JunitReportTestCase.SKIPPED
-        self.Time = time.time() - self._StartTime
+        self.Time = time.monotonic() - self._StartTime
 
     def LogStdOut(self, msg: str) -> None:
         """Log to the standard out."""
-- 
2.43.0


From cf7dd06b515c086031de4981ac472b6b7d59d4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 029/118] fix: close the JUnit report when writing it fails

---
 edk2toollib/log/junit_report_format.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index b061ef6..175d5a1 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -197,11 +197,10 @@ class JunitTestReport(object):
 
     def Output(self, filepath: str) -> None:
         """Write report to file."""
-        f = open(filepath, "w", encoding="utf-8")
-        f.write("")
-        f.write('<?xml version="1.0" encoding="UTF-8"?>')
-        f.write("<testsuites>")
-        for a in self.TestSuites:
-            a.Output(f)
-        f.write("</testsuites>")
-        f.close()
+        with open(filepath, "w", encoding="utf-8") as f:
+            f.write("")
+            f.write('<?xml version="1.0" encoding="UTF-8"?>')
+            f.write("<testsuites>")
+            for a in self.TestSuites:
+                a.Output(f)
+            f.write("</testsuites>")
-- 
2.43.0


From a4847b3aaeffae702fcabc2132713d9f15ab954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:10 +0000
Subject: [PATCH 030/118] fix: keep the JUnit report well-formed when output
 has control characters

---
 edk2toollib/log/junit_report_format.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/log/junit_report_format.py b/edk2toollib/log/junit_report_format.py
index 175d5a1..3a686e0 100644
--- a/edk2toollib/log/junit_report_format.py
+++ b/edk2toollib/log/junit_report_format.py
@@ -15,9 +15,18 @@ Used to support CI/CD and exporting test results for other tools.
 This does test report generation without being a test runner.
 """
 
+import re
 import time
-from typing import IO
-from xml.sax.saxutils import escape
+from typing import IO, Optional
+from xml.sax import saxutils
+
+# Characters that XML 1.0 does not allow, not even escaped
+_INVALID_XML_CHARS = re.compile("[^\t\n\r\u0020-\ud7ff\ue000-\ufffd\U00010000-\U0010ffff]")
+
+
+def escape(data: str, entities: Optional[dict] = None) -> str:
+    """Escapes text for XML, replacing characters that XML cannot represent (e.g. terminal escape codes)."""
+    return saxutils.escape(_INVALID_XML_CHARS.sub("\ufffd", data), entities or {})
 
 
 class JunitReportError(object):
-- 
2.43.0


From eb9790119970f1818d45a657fc7c5a48a8888477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:49 +0000
Subject: [PATCH 031/118] fix: stamp authenticated variables with the current
 time, not the import time

---
 .../authenticated_variables_structure_support.py   | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 43a5cc0..32e026e 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1092,15 +1092,15 @@ class EfiTime(CommonUefiStructure):
     _struct_format = "<H6BLh2B"
     _struct_size = struct.calcsize(_struct_format)
 
-    def __init__(self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None) -> "EfiTime":
+    def __init__(self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None) -> "EfiTime":
         """Inits an EFI_TIME object.
 
         Args:
-            time: Inits object with specified date (if decodefs not set)
+            time: Inits object with specified date (if decodefs not set), the current time if None
             decodefs: Inits the object with this stream
         """
         if decodefs is None:
-            self.time = time
+            self.time = time if time is not None else datetime.datetime.now()
         else:
             self.decode(decodefs)
 
@@ -1242,7 +1242,7 @@ class EfiVariableAuthentication2(CommonUefiStructure):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EfiVariableAuthentication2":
         """Inits an EFI_VARIABLE_AUTHENTICATION_2 object.
 
@@ -1428,7 +1428,7 @@ class EfiVariableAuthentication2Builder(object):
         guid: str,
         attributes: Union[int, str],
         payload: Optional[Union[io.BytesIO, bytes]] = None,
-        efi_time: datetime.datetime = datetime.datetime.now(),
+        efi_time: Optional[datetime.datetime] = None,
     ) -> "EfiVariableAuthentication2Builder":
         """Builds a EfiVariableAuthentication2 structure.
 
@@ -1438,7 +1438,7 @@ class EfiVariableAuthentication2Builder(object):
             attributes (int | str): Attributes of the UEFI variable
             payload (io.BytesIO | bytes): binary payload to be signed and used as the value
                 of the variable
-            efi_time (time.datetime): EFI time of the datetime object
+            efi_time (time.datetime): EFI time of the datetime object, the current time if None
 
         """
         self.signature = b""
@@ -1600,7 +1600,7 @@ class EFiVariableAuthentication2(EfiVariableAuthentication2):
     """An object representing a EFI_VARIABLE_AUTHENTICATION_2. DEPRECATED."""
 
     def __init__(
-        self, time: datetime.datetime = datetime.datetime.now(), decodefs: BinaryIO = None
+        self, time: Optional[datetime.datetime] = None, decodefs: BinaryIO = None
     ) -> "EFiVariableAuthentication2":
         """DEPRECATED. Use EfiVariableAuthentication2() instead. Initializes a EFiVariableAuthentication2."""
         warn(
-- 
2.43.0


From 996f2a808256a192c7138c598baa7739ba60e1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 032/118] fix: keep payload, size and digest of an
 authenticated variable in step

---
 ...thenticated_variables_structure_support.py | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 32e026e..ec16f12 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1401,7 +1401,13 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         fs.seek(0, 2)
         end = fs.tell()
         fs.seek(start)
-        self.payload_size = end - start
+        payload = fs.read(end - start)
+        if len(payload) != end - start:
+            raise ValueError("Invalid file stream size")
+
+        self.payload = None
+        self.payload_size = len(payload)
+        self.sig_list_payload = None
         if self.payload_size == 0:
             logging.debug("No Payload for this EfiVariableAuthenticated2 Object")
             return
@@ -1409,14 +1415,12 @@ class EfiVariableAuthentication2(CommonUefiStructure):
         # Variables with the GUID EFI_IMAGE_SECURITY_DATABASE_GUID are formatted
         # as EFI_SIGNATURE_LIST
         try:
-            self.sig_list_payload = EfiSignatureDatabase(fs)
+            self.sig_list_payload = EfiSignatureDatabase(io.BytesIO(payload))
         except Exception:
             # Do nothing - we attempted to parse it as a sig list and it failed
             logging.debug("SigList Payload not detected.")
 
-        # reset the file pointer
-        fs.seek(start)
-        self.payload = memoryview(fs.read(self.payload_size))
+        self.payload = memoryview(payload)
 
 
 class EfiVariableAuthentication2Builder(object):
@@ -1492,21 +1496,16 @@ class EfiVariableAuthentication2Builder(object):
         # if provided with a payload, the serialized payload must be added to the Digest to be signed
         if not payload:
             logging.info("Empty payload")
-            return
-
-        # convert the payload to a file stream for SetPayload
-        if not hasattr(payload, "seek"):
-            payload = io.BytesIO(payload)
+            payload = b""
 
-        # Get the starting position and the length
-        start = payload.tell()
+        if hasattr(payload, "seek"):
+            payload = payload.read()
 
-        self.digest = self.digest_without_payload + payload.read()
+        self.authenticated_variable.set_payload(io.BytesIO(payload))
+        self.digest = self.digest_without_payload + payload
 
-        # before we pass it to SetPayload lets make sure we put the position back
-        payload.seek(start)
-
-        self.authenticated_variable.set_payload(payload)
+        # what was signed so far is not the content of the variable any more
+        self.signature_builder = pkcs7.PKCS7SignatureBuilder()
 
     def sign(
         self,
-- 
2.43.0


From 805b1d6abdcf1e3ec92775bf08d1e621d4475191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:15 +0000
Subject: [PATCH 033/118] fix: let several signers sign one authenticated
 variable

---
 ...uthenticated_variables_structure_support.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index ec16f12..f7c6fc9 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1506,6 +1506,7 @@ class EfiVariableAuthentication2Builder(object):
 
         # what was signed so far is not the content of the variable any more
         self.signature_builder = pkcs7.PKCS7SignatureBuilder()
+        self.signed_digest = None
 
     def sign(
         self,
@@ -1534,17 +1535,19 @@ class EfiVariableAuthentication2Builder(object):
         digest = kwargs.get("digest", self.digest)
         indent = kwargs.get("indent", " " * 4)
 
-        # Set up the databuffer that will be signed
-        self.signature_builder = self.signature_builder.set_data(digest)
+        # Set up the databuffer that will be signed, which is the same for all signers
+        signature_builder = self.signature_builder
+        if self.signed_digest is None:
+            signature_builder = signature_builder.set_data(digest)
+        elif self.signed_digest != digest:
+            raise ValueError("All signers must sign the same digest")
 
         logging.info("")
         logging.info("Signing with Certificate: ")
         logging.info("%sIssuer: %s", indent, signing_certificate.issuer)
         logging.info("%sSubject: %s", indent, signing_certificate.subject)
 
-        self.signature_builder = self.signature_builder.add_signer(
-            signing_certificate, signing_private_key, hash_algorithm
-        )
+        signature_builder = signature_builder.add_signer(signing_certificate, signing_private_key, hash_algorithm)
 
         for i, cert in enumerate(additional_certificates):
             indents = indent * i
@@ -1554,7 +1557,10 @@ class EfiVariableAuthentication2Builder(object):
             logging.info("%sSubject: %s", indents, cert.certificate.subject)
 
             # Add the certificate for verification
-            self.signature_builder = self.signature_builder.add_certificate(cert.certificate)
+            signature_builder = signature_builder.add_certificate(cert.certificate)
+
+        self.signature_builder = signature_builder
+        self.signed_digest = digest
 
     def finalize(self, omit_content_info: bool = True) -> EfiVariableAuthentication2:
         """Finalizes the signature and returns a EfiVariableAuthentication2.
-- 
2.43.0


From ac888193c796e8e52d5e34fac48887d347a29a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:14 +0000
Subject: [PATCH 034/118] fix: keep the additional certificates of every signer
 of an authenticated variable

---
 .../uefi/authenticated_variables_structure_support.py      | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index f7c6fc9..f2d9124 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1506,6 +1506,7 @@ class EfiVariableAuthentication2Builder(object):
 
         # what was signed so far is not the content of the variable any more
         self.signature_builder = pkcs7.PKCS7SignatureBuilder()
+        self.additional_certificates = []
         self.signed_digest = None
 
     def sign(
@@ -1549,6 +1550,11 @@ class EfiVariableAuthentication2Builder(object):
 
         signature_builder = signature_builder.add_signer(signing_certificate, signing_private_key, hash_algorithm)
 
+        # add_signer forgets the certificates that came with the signers before
+        certificates = self.additional_certificates + [cert.certificate for cert in additional_certificates]
+        for certificate in self.additional_certificates:
+            signature_builder = signature_builder.add_certificate(certificate)
+
         for i, cert in enumerate(additional_certificates):
             indents = indent * i
             logging.info("")
@@ -1560,6 +1566,7 @@ class EfiVariableAuthentication2Builder(object):
             signature_builder = signature_builder.add_certificate(cert.certificate)
 
         self.signature_builder = signature_builder
+        self.additional_certificates = certificates
         self.signed_digest = digest
 
     def finalize(self, omit_content_info: bool = True) -> EfiVariableAuthentication2:
-- 
2.43.0


From 38c9ab45057e39aae9fde9db7857c52c1b571cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 035/118] fix: refuse truncated signature data instead of
 storing what was left

---
 .../uefi/authenticated_variables_structure_support.py     | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index f2d9124..309446f 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -119,6 +119,8 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
             if self.signature_data_size < 0:
                 raise ValueError("Create File Stream has invalid size")
             self.signature_data = createfs.read(self.signature_data_size)
+            if len(self.signature_data) != self.signature_data_size:
+                raise ValueError("Create File Stream has invalid size")
         elif cert is not None:
             self.signature_owner = sigowner
             self.signature_data_size = len(cert)
@@ -183,7 +185,7 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         if fs is None:
             raise ValueError("Invalid File Steam")
 
-        if decodesize == 0:
+        if decodesize < EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE:
             raise ValueError("Invalid Decode Size")
 
         # only populate from file stream those parts that are complete in the file stream
@@ -203,6 +205,8 @@ class EfiSignatureDataEfiCertX509(CommonUefiStructure):
         # read remaining decode size for x509 data
         self.signature_data_size = decodesize - EfiSignatureDataEfiCertX509.STATIC_STRUCT_SIZE
         self.signature_data = fs.read(self.signature_data_size)
+        if len(self.signature_data) != self.signature_data_size:
+            raise ValueError("Invalid file stream size vs decodesize")
 
     def Print(self, compact: bool = False, outfs: IO = sys.stdout) -> None:
         """Prints to the console."""
@@ -370,6 +374,8 @@ class EfiSignatureDataEfiCertSha256(CommonUefiStructure):
         self.signature_owner = uuid.UUID(bytes_le=fs.read(16))
 
         self.signature_data = fs.read(hashlib.sha256().digest_size)
+        if len(self.signature_data) != hashlib.sha256().digest_size:
+            raise Exception("Invalid file stream size")
 
     def PopulateFromFileStream(self, fs: BinaryIO) -> None:
         """Loads an object from a filestream.
-- 
2.43.0


From 1817448d7084c7074b9a56cac3ef062af7d60962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 036/118] fix: leave a signature database as it is when
 computing its canonical form

---
 .../uefi/authenticated_variables_structure_support.py        | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 309446f..59973c3 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -11,6 +11,7 @@ Each object can be created and or populated from a file stream.
 Each object can be written to a filesteam as binary and printed to the console in text.
 """
 
+import copy
 import datetime
 import hashlib
 import io
@@ -1019,7 +1020,9 @@ class EfiSignatureDatabase(CommonUefiStructure):
                 continue
             if Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_SHA256_GUID:
                 if sha256esl is None:
-                    sha256esl = Esl  # initialize it
+                    # initialize it with a copy, since merging and sorting change the list
+                    sha256esl = copy.copy(Esl)
+                    sha256esl.signature_data_list = list(Esl.signature_data_list)
                 else:
                     sha256esl.MergeSignatureList(Esl)
             elif Esl.signature_type == EfiSignatureDataFactory.EFI_CERT_X509_GUID:
-- 
2.43.0


From 33c052f71576f437485b2bf85001070100fa158b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 037/118] fix: read back an empty signature list that was
 written

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 59973c3..b0ef52b 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -666,7 +666,9 @@ class EfiSignatureList(CommonUefiStructure):
         if self.signature_header_size > 0:
             self.signature_header = EfiSignatureHeader(fs, self.signature_header_size)
 
-        if ((self.signature_list_size - (fs.tell() - start)) % self.signature_size) != 0:
+        # a list without signatures may leave their size open
+        data_size = self.signature_list_size - (fs.tell() - start)
+        if data_size != 0 and (self.signature_size == 0 or (data_size % self.signature_size) != 0):
             raise Exception("Invalid Sig List.  Signature Data Array is not a valid size")
 
         self.signature_data_list = []
-- 
2.43.0


From 4364ad469f7ca7c10fc433d690e23c2d4b3233ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 038/118] fix: refuse a certificate whose length does not match
 its data

---
 edk2toollib/uefi/wincert.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/wincert.py b/edk2toollib/uefi/wincert.py
index 791275e..c3248c4 100644
--- a/edk2toollib/uefi/wincert.py
+++ b/edk2toollib/uefi/wincert.py
@@ -161,10 +161,14 @@ class WinCertPkcs1(object):
         if (end - fs.tell()) < 1:
             raise ValueError("Invalid File stream. No data for signature cert data")
 
-        if (end - fs.tell()) < (self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE):
+        cert_size = self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE
+        if cert_size < 0 or (end - fs.tell()) < cert_size:
             raise ValueError("Invalid file stream size")
 
-        self.cert_data = memoryview(fs.read(self.Hdr_dwLength - WinCertPkcs1.STATIC_STRUCT_SIZE))
+        cert_data = fs.read(cert_size)
+        if len(cert_data) != cert_size:
+            raise ValueError("Invalid file stream size")
+        self.cert_data = memoryview(cert_data)
 
     def PopulateFromFileStream(self, fs: BytesIO) -> None:
         """Populates the struct from a filestream.
@@ -188,7 +192,7 @@ class WinCertPkcs1(object):
         out_fs.write(f"  Hash Guid:            {str(self.hash_algorithm)}\n")
         out_fs.write("  cert_data:             \n")
         cdl = self.cert_data.tolist()
-        hexdump(cdl, out_fs=out_fs)
+        hexdump(cdl, outfs=out_fs)
 
     def Print(self, out_fs: Optional[BytesIO] = sys.stdout) -> None:
         """Prints the struct to the console."""
@@ -408,7 +412,7 @@ class WinCertUefiGuid(object):
         (dwLength, wRevision, wCertificateType, cert_type) = struct.unpack(
             self._StructFormat, buffer[0 : self._StructSize]
         )
-        if dwLength < self._StructSize:
+        if dwLength < self._StructSize or dwLength > len(buffer):
             raise ValueError
         if wRevision != WinCert.REVISION:
             raise ValueError
-- 
2.43.0


From d1e251a149eb0474e1a1e088ba15ee38d7b9210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 039/118] fix: keep the padding of a bitmap and refuse
 incomplete image data

---
 edk2toollib/uefi/bmp_object.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 70bdae1..997fbc1 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -142,7 +142,7 @@ class BmpObject(object):
             self.ColorMapList = []
         else:
             self.ImageData = None
-            self.Padding = None
+            self._Padding = None
             self._PaddingLength = 0
             self.ColorMapList = []
             self.PopulateFromFileStream(filestream)
@@ -217,6 +217,12 @@ class BmpObject(object):
                 % ((end - fs.tell()), (self.Size - self.HeaderSize - BmpObject.STATIC_FILE_HEADER_SIZE))
             )
 
+        if self.Size < self.ImageOffset:
+            raise Exception("Size can't be smaller than ImageOffset")
+
+        self._Padding = None
+        self._PaddingLength = 0
+        self.ColorMapList = []
         StartOfImageData = offset + self.ImageOffset
         if fs.tell() < StartOfImageData:
             # Handle any color maps
@@ -238,8 +244,12 @@ class BmpObject(object):
             # handle padding
             self._PaddingLength = StartOfImageData - fs.tell()
             self._Padding = fs.read(self._PaddingLength)
+            if len(self._Padding) != self._PaddingLength:
+                raise Exception("Invalid file stream size.  Padding is incomplete")
 
         self.ImageData = fs.read(self.Size - self.ImageOffset)
+        if len(self.ImageData) != self.Size - self.ImageOffset:
+            raise Exception("Invalid file stream size.  Image data is incomplete")
 
         if (end - fs.tell()) > 0:
             raise Exception("Extra Data at the end of BMP file - 0x%X bytes" % (end - fs.tell()))
@@ -331,7 +341,7 @@ class BmpObject(object):
 
         # padding
         if self._PaddingLength > 0:
-            fs.write(self.Padding)
+            fs.write(self._Padding)
 
         # Pixel data
         if self.ImageData:
-- 
2.43.0


From 7cc2eca179a13f68362d906722a4f431283d2e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 040/118] fix: accept policy strings with characters outside
 the BMP

---
 edk2toollib/windows/policy/firmware_policy.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 4f1b473..1bb5a7d 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -368,9 +368,10 @@ class PolicyString:
         if fsOffset:
             fs.seek(fsOffset)
         StringLength = struct.unpack(cls.StringLengthFormat, fs.read(cls.StringLengthSize))[0]
-        LocalString = bytes.decode(fs.read(StringLength), encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = fs.read(StringLength)
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     @classmethod
@@ -386,9 +387,10 @@ class PolicyString:
         """
         StringLength = struct.unpack_from(cls.StringLengthFormat, b, bOffset)[0]
         bOffset += struct.calcsize(cls.StringLengthFormat)
-        LocalString = bytes.decode(b[bOffset : bOffset + StringLength], encoding="utf_16_le")
-        if len(LocalString) != (StringLength / 2):
+        StringBytes = b[bOffset : bOffset + StringLength]
+        if len(StringBytes) != StringLength:
             raise Exception("String length mismatch")
+        LocalString = bytes.decode(StringBytes, encoding="utf_16_le")
         return cls(String=LocalString)
 
     def Print(self, prefix: str = "") -> None:
-- 
2.43.0


From f6627113010787852153071b491c3cae46f13adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 041/118] fix: refuse a firmware policy whose value table is
 incomplete

---
 edk2toollib/windows/policy/firmware_policy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index 1bb5a7d..dfb6fa5 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -863,6 +863,8 @@ class FirmwarePolicy(object):
         saved_fs = fs.tell()
         fs.seek(self.ValueTableOffset)
         self.ValueTable = bytes(fs.read(self.ValueTableSize))
+        if len(self.ValueTable) != self.ValueTableSize:
+            raise Exception("ValueTable larger than buffer")
         self.ValueTableFromFile = True
         fs.seek(saved_fs)
 
-- 
2.43.0


From cb594ca75acbd8750e0af3bc31269c32a9f81615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:45 +0000
Subject: [PATCH 042/118] fix: forget the previous contents when a capsule is
 decoded again

---
 edk2toollib/uefi/fmp_auth_header.py     | 1 +
 edk2toollib/uefi/fmp_capsule_header.py  | 6 ++++--
 edk2toollib/uefi/uefi_capsule_header.py | 1 +
 3 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index baf271e..c8eb3ba 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -77,6 +77,7 @@ class FmpAuthHeaderClass(object):
         self.MonotonicCount = MonotonicCount
 
         self.Payload = self.AuthInfo.Decode(Buffer[self._MonotonicCountSize :])
+        self.FmpPayloadHeader = None
         if len(self.Payload) > 0:
             self.FmpPayloadHeader = FmpPayloadHeaderClass()
             self.FmpPayloadHeader.Decode(self.Payload)
diff --git a/edk2toollib/uefi/fmp_capsule_header.py b/edk2toollib/uefi/fmp_capsule_header.py
index 31ceee8..a5b6c4b 100644
--- a/edk2toollib/uefi/fmp_capsule_header.py
+++ b/edk2toollib/uefi/fmp_capsule_header.py
@@ -132,6 +132,7 @@ class FmpCapsuleImageHeaderClass(object):
         self.UpdateVendorCodeSize = UpdateVendorCodeSize
         self.UpdateHardwareInstance = UpdateHardwareInstance
         self.Payload = Buffer[self._StructSize : self._StructSize + UpdateImageSize]
+        self.FmpAuthHeader = None
         if len(self.Payload) > 0:
             self.FmpAuthHeader = FmpAuthHeaderClass()
             self.FmpAuthHeader.Decode(self.Payload)
@@ -294,8 +295,9 @@ class FmpCapsuleHeaderClass(object):
             raise ValueError
 
         self.Version = Version
-        self.EmbeddedDriverCount = EmbeddedDriverCount
-        self.PayloadItemCount = PayloadItemCount
+        # counted when the items are added
+        self.EmbeddedDriverCount = 0
+        self.PayloadItemCount = 0
         self._EmbeddedDriverList = []
         self._FmpCapsuleImageHeaderList = []
 
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4699798..4f8ac4e 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -121,6 +121,7 @@ class UefiCapsuleHeaderClass(object):
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
         self.Payload = Buffer[self.HeaderSize :]
+        self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
             self.FmpCapsuleHeader = FmpCapsuleHeaderClass()
             self.FmpCapsuleHeader.Decode(self.Payload)
-- 
2.43.0


From d028981882442088dd90f565ac23f110b36e03f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:23 +0000
Subject: [PATCH 043/118] fix: refuse truncated variable policies and forget
 the previous one

---
 edk2toollib/uefi/edk2/variable_policy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index 5843a93..e6b7a2f 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -224,9 +224,13 @@ class VariablePolicyEntry(object):
             raise ValueError("Unknown structure version!")
         if self.LockPolicyType not in VariablePolicyEntry.LOCK_POLICY_STRING_MAP:
             raise ValueError("Unknown LockPolicyType!")
+        if not self._HdrStructSize <= self.OffsetToName <= self.Size <= len(buffer):
+            raise ValueError("Invalid structure size!")
 
         self.Namespace = uuid.UUID(bytes_le=_namespace)
 
+        self.Name = None
+        self.LockPolicy = None
         if self.OffsetToName != self.Size:
             self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
 
-- 
2.43.0


From a9de646f74d9e2d76802d9c8cac7b855fcdfd901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 044/118] fix: forget the previous store type when a variable
 store header is loaded again

---
 edk2toollib/uefi/edk2/variable_format.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 385f40a..6137630 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -81,8 +81,7 @@ class VariableStoreHeader(object):
         # Check one last thing.
         if self.Signature != EfiVariableGuid and self.Signature != EfiAuthenticatedVariableGuid:
             raise Exception("VarStore is of unknown type! %s" % self.Signature)
-        if self.Signature == EfiAuthenticatedVariableGuid:
-            self.Type = "AuthVar"
+        self.Type = "AuthVar" if self.Signature == EfiAuthenticatedVariableGuid else "Var"
 
         return self
 
-- 
2.43.0


From 12022f1125e43bac74e2b2fd65a0540537835711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:01 +0000
Subject: [PATCH 045/118] fix: take over the signature size when merging into
 an empty signature list

---
 edk2toollib/uefi/authenticated_variables_structure_support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index b0ef52b..48f0bbe 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -842,7 +842,7 @@ class EfiSignatureList(CommonUefiStructure):
         if not FixedSizeData:
             raise Exception("Can only merge EfiSignatureLists with fixed-size data elements")
 
-        if self.signature_data_list is None:
+        if not self.signature_data_list:
             self.signature_data_list = []
             self.signature_size = esl.signature_size
 
-- 
2.43.0


From 67596ac426a88be9a8e87ff60766c2cdc1f14c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:32 +0000
Subject: [PATCH 046/118] fix: close build files when reading them fails

---
 .../uefi/edk2/parsers/buildreport_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/dec_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py       | 15 ++++++---------
 edk2toollib/uefi/edk2/parsers/fdf_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/inf_parser.py       |  5 ++---
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py |  5 ++---
 6 files changed, 16 insertions(+), 24 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index f138bd3..1a3e7d5 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -252,9 +252,8 @@ class BuildReport(object):
             raise Exception("Report File path invalid!")
 
         # read report
-        f = open(self.ReportFile, "r")
-        self._ReportContents = [x.strip() for x in f.readlines()]
-        f.close()
+        with open(self.ReportFile, "r") as f:
+            self._ReportContents = [x.strip() for x in f.readlines()]
         #
         # replace protected words
         #
diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 5ad2fcb..53accb5 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -317,7 +317,6 @@ class DecParser(HashFileParser):
             fp = filepath
         self.Path = fp
 
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
         self._Parse()
diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 05110ea..3011bf8 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -96,9 +96,8 @@ class DscParser(HashFileParser):
                 raise FileNotFoundError(include_file)
             self.Logger.debug("Opening Include File %s" % sp)
             self._PushTargetFile(sp)
-            lf = open(sp, "r")
-            loc = lf.readlines()
-            lf.close()
+            with open(sp, "r") as lf:
+                loc = lf.readlines()
             return ("", loc, sp)
 
         # check for new section
@@ -221,9 +220,8 @@ class DscParser(HashFileParser):
             if sp is None:
                 raise FileNotFoundError(include_file)
             self._PushTargetFile(sp)
-            lf = open(sp, "r")
-            loc = lf.readlines()
-            lf.close()
+            with open(sp, "r") as lf:
+                loc = lf.readlines()
             return ("", loc)
 
         # check for new section
@@ -480,16 +478,15 @@ class DscParser(HashFileParser):
         if sp is None:
             raise FileNotFoundError(filepath)
         self._PushTargetFile(sp)
-        f = open(sp, "r")
         # expand all the lines and include other files
-        file_lines = f.readlines()
+        with open(sp, "r") as f:
+            file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
         self.PcdValueDict = {}
         # reset the parser state before processing more
         self.ResetParserState()
         self._PushTargetFile(sp)
         self.__ProcessMore(file_lines, file_name=sp)
-        f.close()
 
         self._parse_libraries()
         self._parse_components()
diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 90075fa..0edb7c2 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -83,10 +83,9 @@ class FdfParser(HashFileParser):
         self.Path = fp
         self.TargetFilePath = os.path.abspath(fp)
         self.CurrentLine = 0
-        self._f = open(fp, "r")
-        self.Lines = self._f.readlines()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
         self.Lines.reverse()
-        self._f.close()
         self._BracketCount = 0
         InDefinesSection = False
         InFdSection = False
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index f55b24b..ae86fc7 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -99,9 +99,8 @@ class InfParser(HashFileParser):
         else:
             fp = filepath
         self.Path = fp
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
         InDefinesSection = False
         InPackagesSection = False
         InLibraryClassSection = False
diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 607496d..726fd27 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -38,9 +38,8 @@ class TargetTxtParser(HashFileParser):
         else:
             fp = filepath
         self.Path = fp
-        f = open(fp, "r")
-        self.Lines = f.readlines()
-        f.close()
+        with open(fp, "r") as f:
+            self.Lines = f.readlines()
 
         for line in self.Lines:
             sline = self.StripComment(line)
-- 
2.43.0


From d7e83fae4352ccdacde97cfe7574ee1dc88bf36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:43 +0000
Subject: [PATCH 047/118] fix: resolve relative includes against the file that
 holds them

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++++++
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 +++++++
 2 files changed, 15 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 3011bf8..da759f9 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -279,6 +279,7 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for index in range(len(lines)):
             # we try here so that we can catch exceptions from individual lines
             try:
@@ -295,6 +296,9 @@ class DscParser(HashFileParser):
                     # otherwise, let the user know that we failed in the DSC
                     self.Logger.warning(f"DSC Parser (No-Fail Mode): {raw_line}")
                     self.Logger.warning(e)
+            finally:
+                # relative paths are relative to the file that holds the line
+                self.TargetFilePath = target_file
 
     def __ProcessDefines(self, lines: list) -> None:
         """Goes through a file once to look for [Define] sections.
@@ -306,6 +310,7 @@ class DscParser(HashFileParser):
         """
         if len(lines) == 0:
             return
+        target_file = self.TargetFilePath
         for raw_line in lines:
             # we want to catch exceptions here since we are doing includes as we potentially might blow up
             # we want to catch on a line by line basis
@@ -317,6 +322,9 @@ class DscParser(HashFileParser):
                 # otherwise, raise the exception and act normally
                 if not self._no_fail_mode:
                     raise
+            finally:
+                # relative paths are relative to the file that holds the line
+                self.TargetFilePath = target_file
 
     def _parse_libraries(self) -> None:
         """Builds a lookup table of all possible library instances depending on scope.
diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 0edb7c2..3293167 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -37,6 +37,7 @@ class FdfParser(HashFileParser):
         self.FDs = {}
         self.CurrentSection = []
         self.Path = ""
+        self._IncludeStack = []  # (lines left after the included file, the including file)
 
     def GetNextLine(self) -> str:
         """Returns the next line to parse.
@@ -47,6 +48,10 @@ class FdfParser(HashFileParser):
         if len(self.Lines) == 0:
             return None
 
+        # back in the including file
+        while self._IncludeStack and len(self.Lines) <= self._IncludeStack[-1][0]:
+            self.TargetFilePath = self._IncludeStack.pop()[1]
+
         line = self.Lines.pop()
         self.CurrentLine += 1
         sline = self.StripComment(line)
@@ -108,7 +113,9 @@ class FdfParser(HashFileParser):
                 if sp is None:
                     raise FileNotFoundError(include_file)
                 self.Logger.debug("Opening Include File %s" % sp)
+                self._IncludeStack.append((len(self.Lines), self.TargetFilePath))
                 self.InsertLinesFromFile(sp)
+                self.TargetFilePath = os.path.abspath(sp)
                 continue
 
             if sline.strip().startswith("[") and sline.strip().endswith("]"):  # if we're starting a new section
-- 
2.43.0


From dcffa560e563b435b0219e75513b6efe1710bb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 048/118] fix: indented lines with a trailing comment were not
 recognized

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c4a8a48..c9a8797 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -877,7 +877,7 @@ class HashFileParser(BaseParser):
 
             result.append(char)
 
-        return "".join(result).rstrip()
+        return "".join(result).strip()
 
     def ParseNewSection(self, line: str) -> tuple[bool, str]:
         """Parses a new section line.
-- 
2.43.0


From 5d15983d82f9cf61dd1522641798fd19fbc2680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 049/118] fix: parsed INFs shared one list of supported phases

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index ae86fc7..b7c1a2e 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -139,9 +139,9 @@ class InfParser(HashFileParser):
                             self.LibraryClass = tokens[1].partition("|")[0].strip()
                             self.Logger.debug("Library class found")
                             if len(tokens[1].partition("|")[2].strip()) < 1:
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = AllPhases.copy()
                             elif tokens[1].partition("|")[2].strip().lower() == "base":
-                                self.SupportedPhases = AllPhases
+                                self.SupportedPhases = AllPhases.copy()
                             else:
                                 self.SupportedPhases = tokens[1].partition("|")[2].strip().split()
 
-- 
2.43.0


From 00660b42d6fa8a16251013360118a68edcf06a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:28 +0000
Subject: [PATCH 050/118] fix: a DSC define or build option line without an
 equal sign raised TypeError

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index da759f9..8a0e2de 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -249,9 +249,7 @@ class DscParser(HashFileParser):
                 # iterate through the existed LocalVars and try to resolve the symbols
                 for var in self.LocalVars:
                     self.LocalVars[var] = self.ReplaceVariables(self.LocalVars[var])
-                return (line_resolved, [])
-        else:
-            return (line_resolved, [])
+        return (line_resolved, [])
 
     def ParseInfPathLib(self, line: str) -> str:
         """Parses a line with an INF path Lib."""
-- 
2.43.0


From 1e20f2c042d7948dfcf350d50c822d79b56af256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:42 +0000
Subject: [PATCH 051/118] fix: DSC PCDs were listed twice, and those of
 inactive code once

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 8a0e2de..4a790e2 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -489,6 +489,7 @@ class DscParser(HashFileParser):
             file_lines = f.readlines()
         self.__ProcessDefines(file_lines)
         self.PcdValueDict = {}
+        self.Pcds = []
         # reset the parser state before processing more
         self.ResetParserState()
         self._PushTargetFile(sp)
-- 
2.43.0


From ef52a0cdee1332e97ba2714019992dd03317ea4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:17 +0000
Subject: [PATCH 052/118] fix: many FDF lines in a row without content raised
 RecursionError

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 38 ++++++++++-----------
 1 file changed, 19 insertions(+), 19 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 3293167..766f5b4 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -45,31 +45,31 @@ class FdfParser(HashFileParser):
         Performs manipulation on the line like replacing variables,
         processing conditionals, etc.
         """
-        if len(self.Lines) == 0:
-            return None
+        while len(self.Lines) > 0:
+            # back in the including file
+            while self._IncludeStack and len(self.Lines) <= self._IncludeStack[-1][0]:
+                self.TargetFilePath = self._IncludeStack.pop()[1]
 
-        # back in the including file
-        while self._IncludeStack and len(self.Lines) <= self._IncludeStack[-1][0]:
-            self.TargetFilePath = self._IncludeStack.pop()[1]
+            line = self.Lines.pop()
+            self.CurrentLine += 1
+            sline = self.StripComment(line)
 
-        line = self.Lines.pop()
-        self.CurrentLine += 1
-        sline = self.StripComment(line)
+            if sline is None or len(sline) < 1:
+                continue
 
-        if sline is None or len(sline) < 1:
-            return self.GetNextLine()
+            sline = self.ReplaceVariables(sline)
+            if self.ProcessConditional(sline):
+                # was a conditional so skip
+                continue
+            if not self.InActiveCode():
+                continue
 
-        sline = self.ReplaceVariables(sline)
-        if self.ProcessConditional(sline):
-            # was a conditional so skip
-            return self.GetNextLine()
-        if not self.InActiveCode():
-            return self.GetNextLine()
+            self._BracketCount += sline.count("{")
+            self._BracketCount -= sline.count("}")
 
-        self._BracketCount += sline.count("{")
-        self._BracketCount -= sline.count("}")
+            return sline
 
-        return sline
+        return None
 
     def InsertLinesFromFile(self, file_path: str) -> None:
         """Adds additional lines to the Lines Attribute from the provided file."""
-- 
2.43.0


From faafe34acdfdc1cfc9c2113bf01a1cef6399d9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:48 +0000
Subject: [PATCH 053/118] fix: FDF files that include each other never ended

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 766f5b4..2159553 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -113,6 +113,9 @@ class FdfParser(HashFileParser):
                 if sp is None:
                     raise FileNotFoundError(include_file)
                 self.Logger.debug("Opening Include File %s" % sp)
+                including = [self.TargetFilePath] + [path for (_, path) in self._IncludeStack]
+                if os.path.abspath(sp) in including:
+                    raise RuntimeError(f"Circular include of {sp}")
                 self._IncludeStack.append((len(self.Lines), self.TargetFilePath))
                 self.InsertLinesFromFile(sp)
                 self.TargetFilePath = os.path.abspath(sp)
-- 
2.43.0


From ccc8ec7a5f1e1047a5e4288cfafc6d9024a36f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:01 +0000
Subject: [PATCH 054/118] fix: GUIDs in a directory that cannot be read were
 left out silently

---
 edk2toollib/uefi/edk2/guid_list.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/guid_list.py b/edk2toollib/uefi/edk2/guid_list.py
index 67265ff..8d9f767 100644
--- a/edk2toollib/uefi/edk2/guid_list.py
+++ b/edk2toollib/uefi/edk2/guid_list.py
@@ -57,9 +57,13 @@ class GuidList:
         Returns:
             (list[GuidListEntry]): guids
         """
+
+        def unreadable(error: OSError) -> None:
+            raise error
+
         guids = []
         ignore = parse_gitignore_lines(ignore_lines, os.path.join(folder, "nofile.txt"), folder)
-        for root, dirs, files in os.walk(folder):
+        for root, dirs, files in os.walk(folder, onerror=unreadable):
             for d in dirs[:]:
                 fullpath = os.path.join(root, d)
                 if ignore(fullpath):
-- 
2.43.0


From 715d012d2a450980baa035470ddb878299036c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:45 +0000
Subject: [PATCH 055/118] fix: one module outside the workspace broke every
 lookup in a build report

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 1a3e7d5..10f86c2 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -327,7 +327,7 @@ class BuildReport(object):
         """
         for k, v in self.Modules.items():
             if os.path.isabs(v.InfPath):
-                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath)
+                v.InfPath = self.PathConverter.GetEdk2RelativePathFromAbsolutePath(v.InfPath) or v.InfPath
             if v.InfPath.lower() == InfPath.lower():
                 logging.debug("Found Module by InfPath: %s" % InfPath)
                 return v
-- 
2.43.0


From 3344fef149514c2a828f8aa564458bcf5daf8c73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:33 +0000
Subject: [PATCH 056/118] fix: the else branch of a true ifdef or ifndef was
 active too

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index c9a8797..2afe68b 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -441,14 +441,16 @@ class BaseParser(object):
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] != self._MacroNotDefinedValue))
+            result = tokens[1] != self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!ifndef":
             if len(tokens) != 2:
                 self.Logger.error("!ifdef conditionals need to be formatted correctly (spaces between each token)")
                 raise RuntimeError("Invalid conditional", text)
-            self.PushConditional((tokens[1] == self._MacroNotDefinedValue))
+            result = tokens[1] == self._MacroNotDefinedValue
+            self.PushConditional(result, result)
             return True
 
         elif tokens[0].lower() == "!else":
-- 
2.43.0


From 7042d742691fa4bf55eb831f7fa5c3edc460906b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:20 +0000
Subject: [PATCH 057/118] fix: the token number of a structured PCD kept the
 opening brace

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index 53accb5..dd22b6a 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -153,7 +153,7 @@ class PcdDeclarationEntry:
         self.default_value = op[1].strip()
         # if we don't know what the type and id, it's because it's structured
         self.type = op[2].strip() if len(op) > 2 else "STRUCTURED_PCD"
-        self.id = op[3].strip() if len(op) > 2 else "STRUCTURED_PCD"
+        self.id = op[3].strip(" \t{") if len(op) > 2 else "STRUCTURED_PCD"
 
 
 class DecParser(HashFileParser):
-- 
2.43.0


From f8a36ed5f37915621625e99d96aca440ae6e28be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:34 +0000
Subject: [PATCH 058/118] fix: tool chain filters without a blank stayed part
 of INF source and library names

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index b7c1a2e..65e1991 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -282,16 +282,17 @@ class InfParser(HashFileParser):
             if current_section == "LibraryClasses":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
+                    lib = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedLibraryDict:
-                        self.ScopedLibraryDict[arch].append(line.split()[0].strip())
+                        self.ScopedLibraryDict[arch].append(lib)
                     else:
-                        self.ScopedLibraryDict[arch] = [line.split()[0].strip()]
+                        self.ScopedLibraryDict[arch] = [lib]
 
             # Handle lines when we are in a source section
             if current_section == "Sources":
                 for arch in arch_list:
                     arch = "common" if arch == "" else arch.lower()
-                    src = line.split()[0].strip().rstrip("|")
+                    src = line.partition("|")[0].split()[0].strip()
                     if arch in self.ScopedSourceDict:
                         self.ScopedSourceDict[arch].append(src)
                     else:
-- 
2.43.0


From fd33d39f77839e6c3dd35b063731ed0f21414862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:10 +0000
Subject: [PATCH 059/118] fix: macros inside INF macros stayed unresolved in
 scoped sources and libraries

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 65e1991..fd60f90 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -253,14 +253,14 @@ class InfParser(HashFileParser):
             if line.strip().startswith("#"):
                 continue
 
+            line = self.ReplaceVariables(line)
+
             if line.strip().startswith("DEFINE"):
                 tokens = line.strip().replace("DEFINE", "").split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            line = self.ReplaceVariables(line)
-
             match = self.SECTION_LIBRARY.findall(line)
             if match:
                 current_section = "LibraryClasses"
-- 
2.43.0


From 70d3129dd912c012631e38210fb6103f094f7eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 060/118] fix: dsc_to_file closes its file and builds the lines
 before touching it

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 72b7ad3..d6a8c94 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -29,11 +29,10 @@ class DscTranslator:
     def dsc_to_file(cls: "DscTranslator", dsc_obj: dsc, filepath: str) -> None:
         """Transforms the DSC object to a file."""
         file_path = os.path.abspath(filepath)
-        f = open(file_path, "w")
         lines = cls._GetDscLinesFromDscObj(dsc_obj)
-        for line in lines:
-            f.write(line + "\n")
-        f.close()
+        with open(file_path, "w") as f:
+            for line in lines:
+                f.write(line + "\n")
 
     @classmethod
     def _GetDscLinesFromDscObj(cls: "DscTranslator", obj: dsc, depth: int = 0) -> list:
-- 
2.43.0


From 1281d040d55f60fb7b1bb42dba3713d50674b107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 061/118] fix: write a valid BuildOptions header and no debug
 output

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index d6a8c94..bfa6dd5 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -70,9 +70,8 @@ class DscTranslator:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
             # Then Build Options
-            print(obj.build_options.items())
             for header, x in obj.build_options.items():
-                lines.append(f"{depth_pad}[BuildOptions{header}]")
+                lines.append(f"{depth_pad}[BuildOptions.{header}]")
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
         elif type(obj) is sku_id:
-- 
2.43.0


From fe70395303371a4f2053fe0da64a6793510ac3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 062/118] fix: keep the replacement operator of a build option

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index bfa6dd5..23cd2f7 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -109,7 +109,7 @@ class DscTranslator:
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
             rep += "_".join((obj.target, obj.tagname, obj.arch, obj.tool_code, obj.attribute))
-            rep += f"= {obj.data}"
+            rep += f"{'==' if obj.replace else '='} {obj.data}"
             lines.append(rep)
         else:
             logging.warning(f"UNKNOWN OBJECT {obj}")
-- 
2.43.0


From 42bee8357df0922f82ce8e3a7d7a7532084194c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 063/118] fix: translate the libraries and default stores of a
 DSC

---
 .../uefi/edk2/build_objects/dsc_translator.py      | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index 23cd2f7..a963ea6 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -11,9 +11,11 @@ import os
 from edk2toollib.uefi.edk2.build_objects.dsc import (
     build_option,
     component,
+    default_store,
     definition,
     dsc,
     dsc_set,
+    library,
     library_class,
     pcd,
     pcd_typed,
@@ -54,6 +56,14 @@ class DscTranslator:
             for x in obj.skus:
                 lines += cls._GetDscLinesFromDscObj(x, depth)
 
+            if len(obj.default_stores) > 0:
+                lines.append(f"{depth_pad}[DefaultStores]")
+                lines += cls._GetDscLinesFromDscObj(obj.default_stores, depth)
+
+            for header, x in obj.libraries.items():
+                lines.append(f"{depth_pad}[Libraries{header}]")
+                lines += cls._GetDscLinesFromDscObj(x, depth)
+
             # Third, library classes
             for header, x in obj.library_classes.items():
                 lines.append(f"{depth_pad}[LibraryClasses{header}]")
@@ -76,6 +86,10 @@ class DscTranslator:
 
         elif type(obj) is sku_id:
             lines.append(f"{depth_pad}{obj.id}|{obj.name}|{obj.parent}")
+        elif type(obj) is default_store:
+            lines.append(f"{depth_pad}{obj.index}|{obj.value}")
+        elif type(obj) is library:
+            lines.append(f"{depth_pad}{obj.inf}")
         elif type(obj) is library_class:
             lines.append(f"{depth_pad}{obj.libraryclass}|{obj.inf}")
         elif type(obj) is definition:
-- 
2.43.0


From 630814be9791102bcbf83c8057ba88227f64a549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 064/118] fix: PCD sections of different SKUs and stores are
 different sections

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index f9114e5..ef0b450 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -317,7 +317,7 @@ class dsc_pcd_section_type:
 
     def __hash__(self) -> int:
         """Returns the hash of an object for hashtables."""
-        return hash((self.arch, self.pcd_type))
+        return hash((self.arch, self.pcd_type, self.sku, self.default_store))
 
     def __repr__(self) -> str:
         """A string representation of the object."""
@@ -328,7 +328,12 @@ class dsc_pcd_section_type:
         """Enables equality comparisons (a == b)."""
         if type(other) is not dsc_pcd_section_type:
             return False
-        return self.pcd_type == other.pcd_type and self.arch == other.arch
+        return (
+            self.pcd_type == other.pcd_type
+            and self.arch == other.arch
+            and self.sku == other.sku
+            and self.default_store == other.default_store
+        )
 
 
 class dsc_pcd_component_type(dsc_pcd_section_type):
-- 
2.43.0


From bf4142107388493ae5defc0ea49b39a8f905455b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 065/118] fix: WriteLinesToFile closes its file when a write
 fails

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 2afe68b..8903202 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -186,10 +186,9 @@ class BaseParser(object):
           filepath (str): path to an unopened file
         """
         self.Logger.debug("Writing all lines to file: %s" % filepath)
-        file_handle = open(filepath, "w")
-        for line in self.Lines:
-            file_handle.write(line + "\n")
-        file_handle.close()
+        with open(filepath, "w") as file_handle:
+            for line in self.Lines:
+                file_handle.write(line + "\n")
 
     def ComputeResult(self, value: Union[str, int], cond: str, value2: Union[str, int]) -> bool:
         """Compute a logical comaprison.
-- 
2.43.0


From 450ce5b638948e30eb1f5188e4e1173072a743f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 066/118] fix: hexdump aligns the last line by the separator,
 not by the offset

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index baa91c6..e013043 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -552,7 +552,7 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
             while index % 16 != 15:
                 outfs.write("     ")
                 if index % 16 == 7:  # account for the - symbol in the hex dump
-                    if include_offset:
+                    if include_hex_sep:
                         outfs.write("  ")
                 index += 1
             # print the ascii partial line
-- 
2.43.0


From f49a319e671b9baab62d206369ac3c03efe6df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 067/118] fix: PrintByteList can print to a given stream

---
 edk2toollib/utility_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index e013043..ee922ee 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -483,7 +483,7 @@ def PrintByteList(
     **kwargs: Any,  #
 ) -> None:
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer."""
-    outfs = kwargs.get("outfs", sys.stdout)
+    outfs = kwargs.pop("outfs", sys.stdout)
     kwargs["include_ascii"] = IncludeAscii
     kwargs["include_hex_sep"] = IncludeHexSep
     kwargs["include_offset"] = IncludeOffset
-- 
2.43.0


From 982934b7a46cade711977dbd66c6724f5b07cf83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 068/118] fix: hexdump prints to the standard output of the
 moment

---
 edk2toollib/utility_functions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index ee922ee..d915092 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -494,13 +494,13 @@ def PrintByteList(
     hexdump(ByteList, offset_start=OffsetStart, outfs=outfs, **kwargs)
 
 
-def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.stdout, **kwargs: Any) -> None:  #
+def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = None, **kwargs: Any) -> None:  #
     """Print a byte array as hex and optionally output ascii as well as offset within the buffer.
 
     Args:
         byte_list: byte array to print
         offset_start: offset to print to the side of the hexdump
-        outfs: output file stream to print to
+        outfs: output file stream to print to (Default: sys.stdout)
         kwargs: keyword arguments expanded below.
 
     Keyword Arguments:
@@ -511,6 +511,8 @@ def hexdump(byte_list: bytearray, offset_start: int = 0, outfs: BytesIO = sys.st
     Returns:
         None
     """
+    if outfs is None:
+        outfs = sys.stdout
     include_ascii = kwargs.get("include_ascii", True)
     include_offset = kwargs.get("include_offset", True)
     include_hex_sep = kwargs.get("include_hex_sep", True)
-- 
2.43.0


From 7d2b235b8180e6e87596d5908014efe335e002e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:57 +0000
Subject: [PATCH 069/118] fix: export_c_type_array notices a stream that ends
 early

---
 edk2toollib/utility_functions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index d915092..fbe26fb 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -609,6 +609,10 @@ def export_c_type_array(buffer_fs: BytesIO, variable_name: str, out_fs: StringIO
     if length == 0:
         raise ValueError("Binary file length was 0")
 
+    data = buffer_fs.read()
+    if len(data) != length:
+        raise EOFError(f"Expected {length} bytes but got {len(data)}")
+
     length_value = ""
     if include_length:
         length_value = str(length)
@@ -619,7 +623,7 @@ def export_c_type_array(buffer_fs: BytesIO, variable_name: str, out_fs: StringIO
     i = 0
     byte = ""
 
-    for i, byte in enumerate(buffer_fs.read()):
+    for i, byte in enumerate(data):
         if i % bytes_per_row == 0:
             if i != 0 and include_ascii:
                 # An ending space is required because the '\' character will cause a line cont.
-- 
2.43.0


From 0babcda4ff05d4e968ccf2bec3bf46b8e98f6878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 070/118] fix: firmware tags with a hyphen can be added to an
 INF

---
 edk2toollib/windows/capsule/inf_generator2.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 323577d..27775e2 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -402,8 +402,8 @@ class InfStrings(object):
             Value (str): the value of the localizable string as a string (e.g. "Firmware Manufacturer")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+ (as a Tag does)
+        if not (re.compile(r"[\w-]+$")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -417,8 +417,8 @@ class InfStrings(object):
             Value (str): the value of the non-localizable string as a string (e.g. "0x00010001")
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
-        # for simplicity, this just enforces that it must be a string that matches \w+
-        if not (re.compile(r"\w+$")).match(Key):
+        # for simplicity, this just enforces that it must be a string that matches [\w-]+ (as a Tag does)
+        if not (re.compile(r"[\w-]+$")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 3059c845705e2f8e167853f4e6c9e32cad4444b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:41 +0000
Subject: [PATCH 071/118] fix: a firmware refused by an INF leaves no files
 behind

---
 edk2toollib/windows/capsule/inf_generator2.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 27775e2..0b64f0b 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -184,6 +184,8 @@ class InfFirmware(object):
         self.EsrtGuid = EsrtGuid
         self.VersionInt = VersionInt
         self.FirmwareFile = FirmwareFile
+        if IntegrityFile is not None:
+            InfSourceFiles.CheckFile(IntegrityFile)  # a refused firmware must not leave its files behind
         InfSourceFiles.AddFile(FirmwareFile)
         self.Rollback = Rollback
         self.IntegrityFile = IntegrityFile
@@ -350,16 +352,25 @@ class InfSourceFiles(object):
         self.Files = []
         InfStrings.AddLocalizableString("DiskName", DiskName)
 
-    def AddFile(self, Filename: str) -> None:
-        """Adds a new file to this InfSourceFiles object.
+    @staticmethod
+    def CheckFile(Filename: str) -> None:
+        """Raises a ValueError if the filename can not be added to an InfSourceFiles object.
 
         Args:
-            Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
+            Filename (str): Filename (basename only) to be checked.
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
         if not (re.compile(r"[\.\w-]*$")).match(Filename):
             raise ValueError("Filename has invalid chars.")
 
+    def AddFile(self, Filename: str) -> None:
+        """Adds a new file to this InfSourceFiles object.
+
+        Args:
+            Filename (str): Filename (basename only) of the file to be added. (e.g. "Firmware1234.bin")
+        """
+        self.CheckFile(Filename)
+
         if Filename not in self.Files:
             self.Files.append(Filename)
 
-- 
2.43.0


From 62a90120267dfbaf1326018efcdfa92418eb6c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:08 +0000
Subject: [PATCH 072/118] fix: sections added to a DSC data model are seen when
 it is iterated

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index ef0b450..0eab4e6 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -90,7 +90,7 @@ class dsc_dict(collections.OrderedDict):
         if key in self:
             # NEXTVER merge these together?
             raise ValueError(f"Cannot add section {key} since it already exists")
-        dict.__setitem__(self, key, val)
+        super().__setitem__(key, val)
 
 
 class dsc:
-- 
2.43.0


From db018ac27789eab3411ed13ce4ad05541d459b79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 073/118] fix: the length in its header bounds a DMAR table

---
 edk2toollib/acpi/dmar_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8633978..8f90cec 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -31,7 +31,10 @@ class DMARTable(object):
     def __init__(self, data: bytes) -> "DMARTable":
         """Inits the object."""
         self.dmar_table = self.AcpiTableHeader(data)
-        self.data = data[DMARTable.DMARHeaderLength :]
+        if not DMARTable.DMARHeaderLength <= self.dmar_table.Length <= len(data):
+            raise ValueError(f"DMAR table of {self.dmar_table.Length} bytes in {len(data)} bytes of data")
+        # The table ends where its header says, a buffer may hold more
+        self.data = data[DMARTable.DMARHeaderLength : self.dmar_table.Length]
         while len(self.data) > 0:
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
-- 
2.43.0


From 405495b5b345604f766fd752fb181a6a147c15f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 074/118] fix: a DMAR remapping struct is read within its own
 length

---
 edk2toollib/acpi/dmar_parser.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 8f90cec..c95ef95 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -39,19 +39,22 @@ class DMARTable(object):
             # Get type and length of remapping struct
             remapping_header = self.RemappingStructHeader(self.data)
             assert remapping_header.Type < 5, "Reserved remapping struct found in DMAR table"
+            if not struct.calcsize(self.RemappingStructHeader.STRUCT_FORMAT) <= remapping_header.Length <= len(self.data):
+                raise ValueError(f"Remapping struct of {remapping_header.Length} bytes, {len(self.data)} bytes left")
+            struct_data = self.data[: remapping_header.Length]
 
             # Parse remapping struct
             if remapping_header.Type == 0:
-                remapping_header = self.DRHDStruct(self.data, remapping_header.Length)
+                remapping_header = self.DRHDStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 1:
-                remapping_header = self.RMRRStruct(self.data, remapping_header.Length)
+                remapping_header = self.RMRRStruct(struct_data, remapping_header.Length)
                 self.dmar_table.RMRRlist.append(remapping_header)
             elif remapping_header.Type == 2:
-                remapping_header = self.ATSRStruct(self.data, remapping_header.Length)
+                remapping_header = self.ATSRStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 3:
-                remapping_header = self.RHSAStruct(self.data, remapping_header.Length)
+                remapping_header = self.RHSAStruct(struct_data, remapping_header.Length)
             elif remapping_header.Type == 4:
-                remapping_header = self.ANDDStruct(self.data, remapping_header.Length)
+                remapping_header = self.ANDDStruct(struct_data, remapping_header.Length)
                 self.dmar_table.ANDDCount += 1
             else:
                 print("Reserved remapping struct found in DMAR table")
-- 
2.43.0


From 26a6ec00771f1511ab71588cee3ccdb344e04ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 075/118] fix: refuse a device scope with an impossible length

---
 edk2toollib/acpi/dmar_parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index c95ef95..52e4dc0 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -499,6 +499,9 @@ class DMARTable(object):
                 print("Reserved Device Scope Type Found")
                 sys.exit(-1)
 
+            if self.Length < DMARTable.DeviceScopeHeaderLength or self.Length % 2:
+                raise ValueError(f"Invalid Device Scope Length {self.Length}")
+
             number_path_entries = (self.Length - DMARTable.DeviceScopeHeaderLength) / 2
             offset = 6
             self.Path = list()
-- 
2.43.0


From dae98a4b1c839b9a29ff3e4375e15bfbc0e67d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 076/118] fix: decoding an IVRS table again replaces what was
 decoded before

---
 edk2toollib/acpi/ivrs_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index d6fa813..bb573d1 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -31,6 +31,8 @@ class IVRS_TABLE(object):
 
     def Decode(self, data: bytes) -> None:
         """Loads data into the object from the header_byte_array."""
+        self.SubStructs = list()
+        self.IVMD_list = list()
         self.acpi_header = IVRS_TABLE.ACPI_TABLE_HEADER(data[: IVRS_TABLE.ACPI_TABLE_HEADER.struct_format_size])
 
         # Start from the end of ACPI header, but store the parsed length for verification
@@ -304,6 +306,9 @@ class IVRS_TABLE(object):
             )
 
             self.Length = 0
+            self.IOMMUEFRImage = None
+            self.Reserved = 0
+            self.DeviceTableEntries = list()
 
             if (self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_11H) or (
                 self.Type == IVRS_TABLE.IVHD_STRUCT.IVHD_TYPE.TYPE_40H
-- 
2.43.0


From b1b4b62d8c52c2d48c95653a1882754c4cf194ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 077/118] fix: dump the memory block length of an IVMD

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index bb573d1..e7d8e45 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -513,7 +513,7 @@ class IVRS_TABLE(object):
             )
             print(
                 "\tIVMD Memory Block Length             : 0x{IVMDMemoryBlockLength:016X}".format(
-                    IVMDMemoryBlockLength=self.Type
+                    IVMDMemoryBlockLength=self.IVMDMemoryBlockLength
                 )
             )
 
-- 
2.43.0


From 384da5044f1a9b66d4a66e6dc878a679abbfc146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 078/118] fix: a select entry of an IVRS table is not a
 reserved one

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index e7d8e45..a992892 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -704,7 +704,7 @@ class IVRS_TABLE(object):
                     self.Type,
                 )
 
-            self.TypeString = "Reserved"
+            self.TypeString = "Select"
             self.Length = IVRS_TABLE.DEVICE_TABLE_ENTRY.struct_format_size
 
         def Encode(self) -> bytes:
-- 
2.43.0


From cc6feb67b83f9c7bdebc05b4b533c7e614db44ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 079/118] fix: decode a PC card device path

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 508b54d..e69982f 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -312,7 +312,7 @@ class PccardDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: "EfiDevicePathProtocol") -> "PccardDevicePath":
-        function_number = struct.unpack("<B", header.data[:1])[0]
+        function_number = struct.unpack("<B", header.dev_data[:1])[0]
         return cls(header, function_number)
 
 
-- 
2.43.0


From 01a811f50cd7744f5ce222aae08c2d9e914f4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 080/118] fix: a device path node has a header and ends inside
 the data

---
 edk2toollib/uefi/device_path.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index e69982f..808dc73 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -192,6 +192,9 @@ class EfiDevicePathProtocol(object):
         )
         length_tuple = (length & 0xFF, (length >> 8) & 0xFF)
         data_length = int.from_bytes(length_tuple, "little")
+        if not EfiDevicePathProtocol._dp_struct_size <= data_length <= len(binary):
+            # the length is user controlled after all..
+            raise ValueError(f"Invalid Header Length: {data_length}, {len(binary)} bytes left")
         data = binary[EfiDevicePathProtocol._dp_struct_size : data_length]
 
         return DevicePathHeader(type, subtype, data_length, data)
@@ -1086,10 +1089,6 @@ class DevicePathFactory(object):
             device_path = device_path_class.from_binary(header)
             device_paths.append(device_path)
 
-            if header.dev_length == 0:
-                # dev_length is user controlled after all..
-                raise ValueError(f"Invalid Header Length: {header}")
-
             offset += header.dev_length
 
         return device_paths
-- 
2.43.0


From cbce0ee8edeaeaa129c71822a705a62037d1a375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 081/118] fix: refuse a SATA device path node that is too short

---
 edk2toollib/uefi/device_path.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index 808dc73..f1cac42 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -614,9 +614,7 @@ class SataDevicePath(EfiDevicePathProtocol):
 
     @classmethod
     def from_binary(cls, header: EfiDevicePathProtocol) -> "SataDevicePath":
-        hba_port_number = int.from_bytes(header.dev_data[:2], "little")
-        port_multiplier_port_number = int.from_bytes(header.dev_data[2:4], "little")
-        lun = int.from_bytes(header.dev_data[4:6], "little")
+        hba_port_number, port_multiplier_port_number, lun = struct.unpack("<HHH", header.dev_data[:6])
         return cls(header, hba_port_number, port_multiplier_port_number, lun)
 
 
-- 
2.43.0


From 7a911eb64edaea47711cbe29ff47cc5a0265b607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 082/118] fix: decode device path nodes of an unknown type as
 unimplemented

---
 edk2toollib/uefi/device_path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/device_path.py b/edk2toollib/uefi/device_path.py
index f1cac42..37552de 100644
--- a/edk2toollib/uefi/device_path.py
+++ b/edk2toollib/uefi/device_path.py
@@ -964,7 +964,7 @@ DEVICE_PATH_TYPES = defaultdict(
 # Change function to DevicePath Implementation to begin decoding.
 # __dict__() will be called to add the device path to the parent dictionary
 DEVICE_PATH_SUBTYPES = defaultdict(
-    lambda: {NOT_FOUND: ("NOT_FOUND!", UnimplementedDevicePath)},
+    lambda: defaultdict(lambda: ("NOT_FOUND!", UnimplementedDevicePath)),
     {
         HARDWARE_DEVICE_PATH: defaultdict(
             lambda: ("Unimplemented!", UnimplementedDevicePath),
-- 
2.43.0


From afbb3f4cfb7b8ba9afb6fedc3980d5dfcc211eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 083/118] fix: name the elements of a DMAR table's XML without
 spaces, so that it is XML

---
 edk2toollib/acpi/dmar_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/acpi/dmar_parser.py b/edk2toollib/acpi/dmar_parser.py
index 52e4dc0..dec084c 100644
--- a/edk2toollib/acpi/dmar_parser.py
+++ b/edk2toollib/acpi/dmar_parser.py
@@ -68,7 +68,7 @@ class DMARTable(object):
 
     def toXml(self) -> ET.Element:
         """Converts the object to an xml representation."""
-        root = ET.Element("DMAR Table")
+        root = ET.Element("DMARTable")
         root.append(self.dmar_table.toXml())
         for sub in self.dmar_table.SubStructs:
             root.append(sub.toXml())
@@ -234,7 +234,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -307,7 +307,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
@@ -371,7 +371,7 @@ class DMARTable(object):
 
             # Add SubStructs
             for item in self.DeviceScope:
-                xml_subitem = ET.SubElement(xml_repr, item.TypeString)
+                xml_subitem = ET.SubElement(xml_repr, item.TypeString.replace(" ", ""))
                 xml_subitem.set("Type", "0x%X" % item.Type)
                 xml_subitem.set("Length", "0x%X" % item.Length)
                 xml_subitem.set("Reserved", "0x%X" % item.Reserved)
-- 
2.43.0


From 5646191dc212fcda9e0283ae90641164bf1987f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:19 +0000
Subject: [PATCH 084/118] fix: name an ACPI HID device's XML attribute without
 a space, so that it is XML

---
 edk2toollib/acpi/ivrs_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/acpi/ivrs_parser.py b/edk2toollib/acpi/ivrs_parser.py
index a992892..e2986e8 100644
--- a/edk2toollib/acpi/ivrs_parser.py
+++ b/edk2toollib/acpi/ivrs_parser.py
@@ -1272,7 +1272,7 @@ class IVRS_TABLE(object):
             xml_item.set("DTESetting", "0x%X" % (self.DTESetting))
 
             xml_item.set("HardwareID", "%s" % (self.HID))
-            xml_item.set("ExtendedDTE Setting", "%s" % (self.CID))
+            xml_item.set("ExtendedDTESetting", "%s" % (self.CID))
             xml_item.set("UniqueIDFormat", "%d" % (self.UIDFormat))
             xml_item.set("UniqueIDLength", "%d" % (self.UIDLength))
             if self.UIDFormat == 0:
-- 
2.43.0


From f51a98275eb9140f650eea7730dd48fa417f9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 085/118] fix: update the INF rows of an earlier parse when the
 files changed

A parse into an existing database left the guid, class, sources and libraries
of every INF it already knew as they were, whatever the file said by then.
---
 edk2toollib/database/tables/inf_table.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2747ac8..2e1c493 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -58,12 +58,20 @@ class InfTable(TableGenerator):
             if entry.guid == "":
                 continue
             if entry.path in all_inf:
-                continue
-            for source in source_list:
+                # Parsed before, the file may have changed since
+                known = all_inf[entry.path]
+                known.guid = entry.guid
+                known.library_class = entry.library_class
+                known.package_name = entry.package_name
+                known.module_type = entry.module_type
+                known.sources.clear()
+                known.libraries.clear()
+                entry = known
+            for source in dict.fromkeys(source_list):
                 if source not in all_source:
                     all_source[source] = Source(path=source)
                 entry.sources.append(all_source[source])
-            for lib in lib_list:
+            for lib in dict.fromkeys(lib_list):
                 if lib not in all_libs:
                     all_libs[lib] = Library(name=lib)
                 entry.libraries.append(all_libs[lib])
-- 
2.43.0


From 88008036a01a29e7c5d8dae26b06acfe80fbe2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 086/118] fix: take a package's repository from its directory,
 at every parse

A package in a directory whose name starts with the path of a submodule was
linked to that submodule, and a known package kept the repository it had in an
earlier parse.
---
 edk2toollib/database/tables/package_table.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 8d461e1..7b2126f 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -57,7 +57,7 @@ class PackageTable(TableGenerator):
             repo_path = None
 
             for submodule in repo.submodules:
-                if submodule.abspath in str(file):
+                if file.is_relative_to(submodule.abspath):
                     containing_repo = submodule.name
                     repo_path = submodule.path
                     break
@@ -72,4 +72,6 @@ class PackageTable(TableGenerator):
                     (pkg_name, pkg_path), Package(name=pkg_name, path=pkg_path, repository=repository)
                 )
                 packages_to_add.append(package)
+            else:
+                all_packages[(pkg_name, pkg_path)].repository = repository
         session.add_all(packages_to_add)
-- 
2.43.0


From 55e4b9469c41804b7a8b6baf33d6f5d67df676e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:48 +0000
Subject: [PATCH 087/118] fix: link an instanced INF to the package and
 repository it lies in

Of several packages with one name, whichever was read last was taken, and a
repository claimed every INF whose path contains its path anywhere.
---
 edk2toollib/database/tables/instanced_inf_table.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/database/tables/instanced_inf_table.py b/edk2toollib/database/tables/instanced_inf_table.py
index 6963686..bdd8826 100644
--- a/edk2toollib/database/tables/instanced_inf_table.py
+++ b/edk2toollib/database/tables/instanced_inf_table.py
@@ -9,6 +9,7 @@
 """A module to run the InstancedInf table generator against a dsc, adding instanced inf information to the database."""
 
 import logging
+import os
 import re
 from pathlib import Path
 from typing import Any
@@ -80,7 +81,7 @@ class InstancedInfTable(TableGenerator):
         table.
         """
         all_sources = {source.path: source for source in session.query(Source).all()}
-        all_packages = {package.name: package for package in session.query(Package).all()}
+        all_packages = {(package.name, self.ws / package.path): package for package in session.query(Package).all()}
         all_repos = {
             (repo.name, repo.path): repo for repo in session.query(Repository).filter(Repository.path is not None).all()
         }
@@ -104,7 +105,9 @@ class InstancedInfTable(TableGenerator):
                     sources.append(Source(path=src))
                     all_sources[src] = sources[-1]
 
-            package = None if e["PACKAGE"] is None else all_packages.get(e["PACKAGE"])
+            # Several packages may have the same name, the INF belongs to the one it is in
+            parents = Path(os.path.normpath(e["FULL_PATH"])).parents
+            package = next((all_packages[key] for key in ((e["PACKAGE"], p) for p in parents) if key in all_packages), None)
             if package is not None:
                 repo = package.repository
             else:
@@ -113,7 +116,7 @@ class InstancedInfTable(TableGenerator):
                     """Return the Repository that contains the INF file."""
                     if repo.path is None:
                         return False
-                    return Path(self.pathobj.WorkspacePath, repo.path).as_posix() in Path(e["FULL_PATH"]).as_posix()
+                    return Path(self.pathobj.WorkspacePath, repo.path) in parents
 
                 repo = next(
                     filter(filter_search, all_repos.values()),
-- 
2.43.0


From 71238962863e41e1c57f8b445a9e8ed4cc51301e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:50 +0000
Subject: [PATCH 088/118] fix: describe the file that a path in the database
 leads to

When two package paths hold a file of the same relative path, the row described
whichever of them the file system happened to list first or last.
---
 edk2toollib/database/tables/inf_table.py    | 7 +++++++
 edk2toollib/database/tables/source_table.py | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/edk2toollib/database/tables/inf_table.py b/edk2toollib/database/tables/inf_table.py
index 2e1c493..4436288 100644
--- a/edk2toollib/database/tables/inf_table.py
+++ b/edk2toollib/database/tables/inf_table.py
@@ -45,6 +45,7 @@ class InfTable(TableGenerator):
         start = time.time()
         files = list(ws.glob("**/*.inf"))
         files = [file for file in files if not file.is_relative_to(ws / "Build")]
+        files = [file for file in files if not self._is_shadowed(file, pathobj)]
         inf_entries = Parallel(n_jobs=self.n_jobs)(delayed(self._parse_file)(fname, pathobj) for fname in files)
 
         all_inf = {inf.path: inf for inf in session.query(Inf).all()}
@@ -85,6 +86,12 @@ class InfTable(TableGenerator):
             f"{round(time.time() - start, 2)} seconds."
         )
 
+    def _is_shadowed(self, file: Path, pathobj: Edk2Path) -> bool:
+        """Returns if the file's path relative to the package paths leads to another file."""
+        path = pathobj.GetEdk2RelativePathFromAbsolutePath(str(file))
+        found = pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(path, log_errors=False)
+        return found is not None and not file.samefile(found)
+
     def _parse_file(self, filename: str, pathobj: Edk2Path) -> dict:
         inf_parser = InfP().SetEdk2Path(pathobj)
         inf_parser.ParseFile(filename)
diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index 88206e4..12f103e 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -52,6 +52,7 @@ class SourceTable(TableGenerator):
         for src in self.source_extensions:
             files.extend(list(ws.rglob(src)))
         files = [file for file in files if file.is_file() and not file.is_relative_to(ws / "Build")]
+        files = [file for file in files if not self._is_shadowed(file, pathobj)]
         src_entries = Parallel(n_jobs=self.n_jobs)(delayed(self._parse_file)(filename) for filename in files)
 
         existing_source = {source.path: source for source in session.query(Source).all()}
@@ -74,6 +75,12 @@ class SourceTable(TableGenerator):
             f"{self.__class__.__name__}: Parsed {len(src_entries)} files; took {round(time.time() - start, 2)} seconds."
         )
 
+    def _is_shadowed(self, file: Path, pathobj: Edk2Path) -> bool:
+        """Returns if the file's path relative to the package paths leads to another file."""
+        path = pathobj.GetEdk2RelativePathFromAbsolutePath(str(file))
+        found = pathobj.GetAbsolutePathOnThisSystemFromEdk2RelativePath(path, log_errors=False)
+        return found is not None and not file.samefile(found)
+
     def _parse_file(self, filename: Path) -> dict:
         """Parse a C file and return the results."""
         license = ""
-- 
2.43.0


From 894672e860165684c74b453708ffc1663ce4bf69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:37 +0000
Subject: [PATCH 089/118] fix: name a repository by the whole last part of its
 URL

A repository called x.github.io was taken for x, and one whose URL ends in a
slash had no name at all.
---
 edk2toollib/database/tables/package_table.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/database/tables/package_table.py b/edk2toollib/database/tables/package_table.py
index 7b2126f..d5baa4a 100644
--- a/edk2toollib/database/tables/package_table.py
+++ b/edk2toollib/database/tables/package_table.py
@@ -35,9 +35,9 @@ class PackageTable(TableGenerator):
     def get_repo_name(repo: git.Repo) -> str:
         """Get the name of the repository."""
         if "origin" in repo.remotes:
-            return repo.remotes.origin.url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes.origin.url.rstrip("/").split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         elif len(repo.remotes) > 0:
-            return repo.remotes[0].url.split("/")[-1].split(GIT_EXTENSION)[0].upper()
+            return repo.remotes[0].url.rstrip("/").split("/")[-1].removesuffix(GIT_EXTENSION).upper()
         return "BASE"
 
     def parse(self, session: Session, pathobj: Edk2Path, id: str, env: dict) -> None:
-- 
2.43.0


From 13917461d9a2a7190762cc8b8d4a6c9066ba46a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 090/118] fix: find and run Python scripts whose name or
 directory contains blanks

RunPythonScript looked for the name with the quotes around it, and did not quote
a script that it found in a directory with blanks.
---
 edk2toollib/utility_functions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index fbe26fb..2c5baba 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -261,10 +261,7 @@ def RunPythonScript(
         (int): returncode of called cmd
     """
     # locate python file on path
-    pythonfile.strip("\"'")
-    if " " in pythonfile:
-        pythonfile = '"' + pythonfile + '"'
-    params.strip()
+    pythonfile = pythonfile.strip("\"'")
     logging.debug("RunPythonScript: {0} {1}".format(pythonfile, params))
     if os.path.isabs(pythonfile):
         logging.debug("Python Script was given as absolute path: %s" % pythonfile)
@@ -279,6 +276,8 @@ def RunPythonScript(
                 pythonfile = os.path.join(a, pythonfile)
                 logging.debug("Python Script was found on the path: %s" % pythonfile)
                 break
+    if " " in pythonfile:
+        pythonfile = '"' + pythonfile + '"'
     params = pythonfile + " " + params
     return RunCmd(
         sys.executable,
-- 
2.43.0


From 31f5e42fd54dced084764514f63bf8fa74384266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:03 +0000
Subject: [PATCH 091/118] fix: log handlers emit the record a filter returned
 in its place

---
 edk2toollib/log/ansi_handler.py   | 4 +++-
 edk2toollib/log/file_handler.py   | 4 +++-
 edk2toollib/log/string_handler.py | 4 +++-
 3 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/log/ansi_handler.py b/edk2toollib/log/ansi_handler.py
index 66042f7..65d515b 100644
--- a/edk2toollib/log/ansi_handler.py
+++ b/edk2toollib/log/ansi_handler.py
@@ -293,9 +293,11 @@ class ColoredStreamHandler(logging.StreamHandler):
         Emission depends on filters which may have been added to the handler.
         Wrap the actual emission of the record with acquisition/release of
         the I/O thread lock. Returns whether the filter passed the record for
-        emission.
+        emission, and emits the record a filter returned in its place, if any.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/file_handler.py b/edk2toollib/log/file_handler.py
index e09d9ca..88c3e31 100644
--- a/edk2toollib/log/file_handler.py
+++ b/edk2toollib/log/file_handler.py
@@ -23,9 +23,11 @@ class FileHandler(logging.FileHandler):
         Emission depends on filters which may have been added to the handler.
         Wrap the actual emission of the record with acquisition/release of
         the I/O thread lock. Returns whether the filter passed the record for
-        emission.
+        emission, and emits the record a filter returned in its place, if any.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
diff --git a/edk2toollib/log/string_handler.py b/edk2toollib/log/string_handler.py
index e1563e5..beae735 100644
--- a/edk2toollib/log/string_handler.py
+++ b/edk2toollib/log/string_handler.py
@@ -28,9 +28,11 @@ class StringStreamHandler(logging.StreamHandler):
         Emission depends on filters which may have been added to the handler.
         Wrap the actual emission of the record with acquisition/release of
         the I/O thread lock. Returns whether the filter passed the record for
-        emission.
+        emission, and emits the record a filter returned in its place, if any.
         """
         rv = self.filter(record)
+        if isinstance(rv, logging.LogRecord):
+            record = rv
         if rv and record.levelno >= self.level:
             self.acquire()
             try:
-- 
2.43.0


From 7328e6f202891152897773084a0e0463f617a392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 092/118] fix: catalog generation and signing work with paths
 relative to the current directory

---
 edk2toollib/utility_functions.py             | 9 +++++++--
 edk2toollib/windows/capsule/cat_generator.py | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 2c5baba..986fdf5 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -318,7 +318,7 @@ def DetachedSignWithSignTool(
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
 
-    OutputDir = os.path.dirname(SignatureOutputFile)
+    OutputDir = os.path.dirname(SignatureOutputFile) or "."
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # Signtool parameters from
     #   https://docs.microsoft.com/en-us/windows-hardware/manufacture/desktop/secure-boot-key-generation-and-signing-using-hsm--example  # noqa: E501
@@ -361,6 +361,11 @@ def CatalogSignWithSignTool(
         logging.error("Path to signtool invalid.  %s" % SignToolPath)
         return -1
 
+    # The tool runs in the folder of the file, where relative paths would mean something else
+    SignToolPath = os.path.abspath(SignToolPath)
+    ToSignFilePath = os.path.abspath(ToSignFilePath)
+    PfxFilePath = os.path.abspath(PfxFilePath.strip('"'))
+
     # Adjust for spaces in the path (when calling the command).
     if " " in SignToolPath:
         SignToolPath = '"' + SignToolPath + '"'
@@ -368,7 +373,7 @@ def CatalogSignWithSignTool(
     OutputDir = os.path.dirname(ToSignFilePath)
     # Signtool docs https://docs.microsoft.com/en-us/dotnet/framework/tools/signtool-exe
     # todo: link to catalog signing documentation
-    params = 'sign /a /fd SHA256 /f "' + PfxFilePath.strip('"') + '"'
+    params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
         params = params + " /p " + PfxPass
diff --git a/edk2toollib/windows/capsule/cat_generator.py b/edk2toollib/windows/capsule/cat_generator.py
index 698c364..5d914dd 100644
--- a/edk2toollib/windows/capsule/cat_generator.py
+++ b/edk2toollib/windows/capsule/cat_generator.py
@@ -119,7 +119,9 @@ class CatGenerator(object):
                 "https://developer.microsoft.com/en-us/windows/hardware/windows-driver-kit"
             )
 
-        OutputFolder = os.path.dirname(OutputCatFile)
+        # The tool runs in the output folder, where relative paths would mean something else
+        PathToInf2CatTool = os.path.abspath(PathToInf2CatTool)
+        OutputFolder = os.path.dirname(os.path.abspath(OutputCatFile))
         # Make Cat file
         cmd = "/driver:. /os:" + self.OperatingSystem + "_" + self.Arch + " /verbose /uselocaltime"
         ret = RunCmd(PathToInf2CatTool, cmd, workingdir=OutputFolder)
-- 
2.43.0


From 9507324185feb814db83663d62f2eed76fd3e80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:51 +0000
Subject: [PATCH 093/118] fix: sign with a password that contains blanks or
 shell characters

---
 edk2toollib/utility_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 986fdf5..9020935 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -330,7 +330,7 @@ def DetachedSignWithSignTool(
         params += " /u " + Eku
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass.strip('"') + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params)
     if ret != 0:
@@ -376,7 +376,7 @@ def CatalogSignWithSignTool(
     params = 'sign /a /fd SHA256 /f "' + PfxFilePath + '"'
     if PfxPass is not None:
         # add password if set
-        params = params + " /p " + PfxPass
+        params = params + ' /p "' + PfxPass.strip('"') + '"'
     params = params + ' /debug /v "' + ToSignFilePath + '" '
     ret = RunCmd(SignToolPath, params, workingdir=OutputDir)
     if ret != 0:
-- 
2.43.0


From 86668ceeab25a8df9c15425ac38e63e682f52544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:23 +0000
Subject: [PATCH 094/118] fix: source statistics count files that are not UTF-8
 as well

---
 edk2toollib/database/tables/source_table.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/database/tables/source_table.py b/edk2toollib/database/tables/source_table.py
index 12f103e..0913c89 100644
--- a/edk2toollib/database/tables/source_table.py
+++ b/edk2toollib/database/tables/source_table.py
@@ -96,7 +96,7 @@ class SourceTable(TableGenerator):
         comment_lines = 0
         blank_lines = 0
         if self.source_stats:
-            code = SourceAnalysis.from_file(filename, "_", fallback_encoding="utf-8")
+            code = SourceAnalysis.from_file(filename, "_", fallback_encoding="cp850")
             code_lines = code.code_count
             comment_lines = code.documentation_count
             blank_lines = code.empty_count
-- 
2.43.0


From 21498d46d03971b5e2bdf612d6824a33af4a6258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:37 +0000
Subject: [PATCH 095/118] fix: NOT and comparisons bind tighter than AND and OR
 in conditionals

---
 edk2toollib/uefi/edk2/parsers/base_parser.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/base_parser.py b/edk2toollib/uefi/edk2/parsers/base_parser.py
index 8903202..c637a54 100644
--- a/edk2toollib/uefi/edk2/parsers/base_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/base_parser.py
@@ -639,7 +639,7 @@ class BaseParser(object):
         found_not = False
         for token in tokens:
             if str(token).upper() == "NOT":
-                found_not = True
+                found_not = not found_not
                 continue
             if not found_not:
                 collapsed_tokens.append(token)
@@ -672,6 +672,9 @@ class BaseParser(object):
             # If this isn't a operator ignore it
             elif not cls._IsOperator(token):
                 expression.append(token)
+            # A not has nothing on its left, so it completes no operator that is on the stack
+            elif token == "NOT":
+                stack.append(token)
             # If the stack is empty or contains a left parenthesis on top, push the incoming operator onto the stack.
             elif len(stack) == 0 or stack[-1] == "(":
                 stack.append(token)
@@ -714,11 +717,13 @@ class BaseParser(object):
             return -1
         if token == "(" or token == ")":
             return 100
-        if token == "NOT":  # not is the lowest
-            return -2
-        if token == "IN" or token == "==" or token == "!=":
+        if token.startswith("!+"):
+            token = token[2:]
+        if token == "OR" or token == "AND":
+            return 0
+        if token == "NOT":  # not applies to one operand of OR and AND, which may be a comparison
             return 1
-        return 0
+        return 2
 
     def InActiveCode(self) -> bool:
         """Determines what the state of the conditional you are currently in.
-- 
2.43.0


From 1224eaf89d3203aaae20244de71fd5b375ff0a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:58 +0000
Subject: [PATCH 096/118] fix: conditions use the PCD values in force, whole
 names and without datum types, also in !elseif

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 4a790e2..204bcbb 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -63,12 +63,16 @@ class DscParser(HashFileParser):
 
     def ReplacePcds(self, line: str) -> str:
         """Attempts to replace a token if it is a PCD token."""
-        if line.startswith("!if"):
-            for token in re.split(r"[^\w\.]", line):
-                if token in self.PcdValueDict:
-                    line = line.replace(token, self.PcdValueDict[token])
+        if line.lower().startswith(("!if", "!elseif")):
+            line = re.sub(r"[\w\.]+", lambda token: self._pcd_value(token.group()), line)
         return line
 
+    def _pcd_value(self, token: str) -> str:
+        """Returns the value of a PCD without its datum type and size, or the token if it is not a PCD."""
+        if token not in self.PcdValueDict:
+            return token
+        return re.match(r"(?:\"[^\"]*\"|'[^']*'|[^|])*", self.PcdValueDict[token]).group().strip()
+
     def __ParseLine(self, Line: str, file_name: Optional[str] = None, lineno: int = None) -> tuple:
         line_stripped = self.StripComment(Line).strip()
         if len(line_stripped) < 1:
@@ -195,8 +199,6 @@ class DscParser(HashFileParser):
         if len(line_stripped) < 1:
             return ("", [])
 
-        # this line needs to be here to resolve any symbols inside the !include lines, if any
-        self.RegisterPcds(line_stripped)
         line_stripped = self.ReplacePcds(line_stripped)
         line_resolved = self.ReplaceVariables(line_stripped)
         if self.ProcessConditional(line_resolved):
@@ -210,6 +212,9 @@ class DscParser(HashFileParser):
         if not self.InActiveCode():
             return ("", [])
 
+        # PCDs may be used by the conditionals that follow
+        self.RegisterPcds(line_resolved)
+
         # check for include file and import lines from file
         if line_resolved.strip().lower().startswith("!include"):
             # include line.
-- 
2.43.0


From 1673fc3b26fd8a5e23da621fdd51668d9fca90b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:13 +0000
Subject: [PATCH 097/118] fix: record where every library of a DSC file comes
 from, not only overrides of IA32 components

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 204bcbb..9e44312 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -118,6 +118,8 @@ class DscParser(HashFileParser):
                 if ".inf" in line_resolved.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
+                    if file_name is not None and lineno is not None:
+                        self.LibsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                     self.Logger.debug("Found Library in a 64bit BuildOptions Section: %s" % p)
                 elif self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a 64bit Module Override section")
@@ -165,6 +167,8 @@ class DscParser(HashFileParser):
                 if ".inf" in line_resolved.lower():
                     p = self.ParseInfPathLib(line_resolved)
                     self.Libs.append(p)
+                    if file_name is not None and lineno is not None:
+                        self.LibsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                     self.Logger.debug("Found Library in a BuildOptions Section: %s" % p)
                 elif self.RegisterPcds(line_resolved):
                     self.Logger.debug("Found a Pcd in a Module Override section")
@@ -184,6 +188,8 @@ class DscParser(HashFileParser):
             if ".inf" in line_resolved.lower():
                 p = self.ParseInfPathLib(line_resolved)
                 self.Libs.append(p)
+                if file_name is not None and lineno is not None:
+                    self.LibsEnhanced.append({"file": os.path.normpath(file_name), "lineno": lineno, "data": p})
                 self.Logger.debug("Found Library in Library Class Section: %s" % p)
             return (line_resolved, [], None)
         # process line in PCD section
-- 
2.43.0


From 93050a838a5eb68d14de6f649684ea0f6e71f691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:42 +0000
Subject: [PATCH 098/118] fix: keep definitions whose value holds an equals
 sign

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py       | 2 +-
 edk2toollib/uefi/edk2/parsers/fdf_parser.py       | 2 +-
 edk2toollib/uefi/edk2/parsers/inf_parser.py       | 2 +-
 edk2toollib/uefi/edk2/parsers/targettxt_parser.py | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index dd22b6a..a437aa4 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -209,7 +209,7 @@ class DecParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InDefinesSection = False
                 else:
-                    if sline.count("=") == 1:
+                    if sline.count("=") >= 1:
                         tokens = sline.split("=", 1)
                         self.Dict[tokens[0].strip()] = tokens[1].strip()
                         if self.PackageName is None and tokens[0].strip() == "PACKAGE_NAME":
diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 2159553..7f1a08c 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -137,7 +137,7 @@ class FdfParser(HashFileParser):
                 self.LocalVars.update(self.Dict)
 
             if InDefinesSection:
-                if sline.count("=") == 1:
+                if sline.count("=") >= 1:
                     tokens = sline.replace("DEFINE", "").split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index fd60f90..c5fbd87 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -129,7 +129,7 @@ class InfParser(HashFileParser):
                 if sline.strip()[0] == "[":
                     InDefinesSection = False
                 else:
-                    if sline.count("=") == 1:
+                    if sline.count("=") >= 1:
                         tokens = sline.split("=", 1)
                         self.Dict[tokens[0].strip()] = tokens[1].strip()
                         #
diff --git a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
index 726fd27..39327b2 100644
--- a/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/targettxt_parser.py
@@ -47,7 +47,7 @@ class TargetTxtParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
-            if sline.count("=") == 1:
+            if sline.count("=") >= 1:
                 tokens = sline.split("=", 1)
                 self.Dict[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.debug("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
-- 
2.43.0


From 427136775f1725cf61a1230b91c3680ce144a1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:59 +0000
Subject: [PATCH 099/118] fix: remove only the DEFINE keyword from definitions
 in INF and FDF files

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 5 +++--
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 7f1a08c..1c9a520 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -8,6 +8,7 @@
 """Code to help parse EDK2 Fdf files."""
 
 import os
+import re
 
 from edk2toollib.uefi.edk2.parsers.base_parser import HashFileParser
 
@@ -138,14 +139,14 @@ class FdfParser(HashFileParser):
 
             if InDefinesSection:
                 if sline.count("=") >= 1:
-                    tokens = sline.replace("DEFINE", "").split("=", 1)
+                    tokens = re.sub(r"^DEFINE\s", "", sline).split("=", 1)
                     self.Dict[tokens[0].strip()] = tokens[1].strip()
                     self.Logger.info("Key,values found:  %s = %s" % (tokens[0].strip(), tokens[1].strip()))
                     continue
 
             # defining a local variable that is removed when entering a new section
             elif sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index c5fbd87..74ee468 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -120,7 +120,7 @@ class InfParser(HashFileParser):
             sline = self.ReplaceVariables(sline)
 
             if sline.strip().startswith("DEFINE"):
-                tokens = sline.strip().replace("DEFINE", "").split("=", 1)
+                tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
@@ -256,7 +256,7 @@ class InfParser(HashFileParser):
             line = self.ReplaceVariables(line)
 
             if line.strip().startswith("DEFINE"):
-                tokens = line.strip().replace("DEFINE", "").split("=", 1)
+                tokens = line.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
-- 
2.43.0


From 76bbd9c94641b6c1cfd6235f01595c0da1754ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:04 +0000
Subject: [PATCH 100/118] fix: build report PCDs whose value holds : or =, and
 defaults that span several lines

---
 edk2toollib/uefi/edk2/parsers/buildreport_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
index 10f86c2..9529f2a 100644
--- a/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/buildreport_parser.py
@@ -138,7 +138,7 @@ class ModuleSummary(object):
                             tokenspace = line
 
                         # this is the main line of the PCD value
-                        elif line.count("=") == 1 and line.count(":") == 1:
+                        elif 0 <= line.find(":") < line.find("="):
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += " " + self._RawContent[i].rstrip()
@@ -154,10 +154,13 @@ class ModuleSummary(object):
                             self.PCDs[tokenspace + "." + token2] = token.strip()
 
                         # this is the secondary lines of PCD values showing Defaults
-                        elif line.count(":") == 0 and line.count("=") == 1:
+                        elif "=" in line:
                             while (line.count('"') % 2) != 0:
                                 i += 1
                                 line += self._RawContent[i].rstrip()
+                            while line.count("{") != line.count("}"):
+                                i += 1
+                                line += self._RawContent[i].rstrip()
 
                     elif inDepSection:
                         if line == "Dependency Expression (DEPEX) from INF":
-- 
2.43.0


From 15c2811ef7e2d55fe8957c0f65712c8762a75cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:07 +0000
Subject: [PATCH 101/118] fix: report a flash device that has the name of a
 firmware volume above it

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index 1c9a520..cdb3d1d 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -153,7 +153,7 @@ class FdfParser(HashFileParser):
 
             elif InFdSection:
                 for section in self.CurrentSection:
-                    if section not in self.FVs:
+                    if section not in self.FDs:
                         self.FDs[section] = {"Dict": {}}
                         # TODO finish the FD section
                 continue
-- 
2.43.0


From 3808ef6600cdac6a49b6d03294e514e10409b8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 102/118] fix: export the attributes of a variable PCD that has
 no default value

---
 edk2toollib/uefi/edk2/build_objects/dsc_translator.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
index a963ea6..8e2ec19 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc_translator.py
@@ -112,13 +112,14 @@ class DscTranslator:
 
         elif type(obj) is pcd_variable:
             pcd_name = f"{depth_pad}{obj.namespace}.{obj.name}|{obj.var_name}"
-            if obj.default is None:
+            if len(obj.attributes) > 0:
+                default = "" if obj.default is None else obj.default
+                attr = ", ".join(obj.attributes)
+                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{default}|{attr}")
+            elif obj.default is None:
                 lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}")
-            elif len(obj.attributes) == 0:
-                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}")
             else:
-                attr = ", ".join(obj.attributes)
-                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}|{attr}")
+                lines.append(f"{pcd_name}|{obj.var_guid}|{obj.var_offset}|{obj.default}")
 
         elif type(obj) is build_option:
             rep = depth_pad if obj.family is None else f"{depth_pad}{obj.family}:"
-- 
2.43.0


From 20f5a4943c0d5c85aabd2e19a5afdbd68fcad5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 103/118] fix: a sku that replaces two others is not lost

---
 edk2toollib/uefi/edk2/build_objects/dsc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/build_objects/dsc.py b/edk2toollib/uefi/edk2/build_objects/dsc.py
index 0eab4e6..c332243 100644
--- a/edk2toollib/uefi/edk2/build_objects/dsc.py
+++ b/edk2toollib/uefi/edk2/build_objects/dsc.py
@@ -31,7 +31,7 @@ class dsc_set(set):
         """
         if len(self._allowed_classes) > 0 and type(item) not in self._allowed_classes:
             raise ValueError(f"Cannot add {type(item)} to restricted set: {self._allowed_classes}")
-        if item in self:
+        while item in self:  # a sku can equal one by its id and another by its name
             super().discard(item)
             # NEXTVER: get add the old_item to item
         super().add(item)
-- 
2.43.0


From 39523287814ad31d13f2d177e04f063c86891ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 104/118] fix: names, tags and file names of capsule INFs must
 not end in a line break

---
 edk2toollib/windows/capsule/inf_generator.py  |  2 +-
 edk2toollib/windows/capsule/inf_generator2.py | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index 9f1d198..d02b9bb 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -149,7 +149,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): Invalid Characters in name
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             logging.critical("Name invalid: '%s'", value)
             raise ValueError("Name has invalid chars.")
         self._name = value
diff --git a/edk2toollib/windows/capsule/inf_generator2.py b/edk2toollib/windows/capsule/inf_generator2.py
index 0b64f0b..5d87c83 100644
--- a/edk2toollib/windows/capsule/inf_generator2.py
+++ b/edk2toollib/windows/capsule/inf_generator2.py
@@ -80,7 +80,7 @@ class InfHeader(object):
             (ValueError): Invalid chars in string
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             raise ValueError("Name has invalid chars.")
         self._name = value
 
@@ -206,7 +206,7 @@ class InfFirmware(object):
             (ValueError): Invalid character for a tag
         """
         # test here for invalid chars
-        if not (re.compile(r"[\w-]*$")).match(value):
+        if not (re.compile(r"[\w-]*\Z")).match(value):
             raise ValueError("Tag has invalid chars.")
         self._tag = value
 
@@ -360,7 +360,7 @@ class InfSourceFiles(object):
             Filename (str): Filename (basename only) to be checked.
         """
         # test here for invalid chars. For filenames, this permits a-z, A-Z, 0-9, _, -, and . characters.
-        if not (re.compile(r"[\.\w-]*$")).match(Filename):
+        if not (re.compile(r"[\.\w-]*\Z")).match(Filename):
             raise ValueError("Filename has invalid chars.")
 
     def AddFile(self, Filename: str) -> None:
@@ -414,7 +414,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches [\w-]+ (as a Tag does)
-        if not (re.compile(r"[\w-]+$")).match(Key):
+        if not (re.compile(r"[\w-]+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.LocalizableStrings[Key] = Value
 
@@ -429,7 +429,7 @@ class InfStrings(object):
         """
         # The inf spec says keys here should be "letters, digits, and/or other explicitly visible characters".
         # for simplicity, this just enforces that it must be a string that matches [\w-]+ (as a Tag does)
-        if not (re.compile(r"[\w-]+$")).match(Key):
+        if not (re.compile(r"[\w-]+\Z")).match(Key):
             raise ValueError("Key has invalid chars.")
         self.NonLocalizableStrings[Key] = Value
 
-- 
2.43.0


From 023cb6cf9340fda320f76405960b9fc423ec4cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:59 +0000
Subject: [PATCH 105/118] fix: refuse negative firmware versions, which do not
 fit the 32 bit value of the INF

---
 edk2toollib/windows/capsule/inf_generator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/windows/capsule/inf_generator.py b/edk2toollib/windows/capsule/inf_generator.py
index d02b9bb..4f1126e 100644
--- a/edk2toollib/windows/capsule/inf_generator.py
+++ b/edk2toollib/windows/capsule/inf_generator.py
@@ -237,7 +237,7 @@ HKLM,SYSTEM\CurrentControlSet\Control\FirmwareResources\{{{EsrtGuid}}},Policy,%R
             (ValueError): hex does not fit in a 32but uint
         """
         a = int(value, 0)
-        if a > 0xFFFFFFFF:
+        if not 0 <= a <= 0xFFFFFFFF:
             logging.critical("VersionHex invalid: '%s'", value)
             raise ValueError("VersionHex must fit within 32bit value range for unsigned integer")
         self._versionhex = a
-- 
2.43.0


From afb079ace3d040f91e17fe23ccf622f27d206b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 106/118] fix: canonical signature databases recognise
 duplicate certificates by their contents

---
 .../uefi/authenticated_variables_structure_support.py  | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/authenticated_variables_structure_support.py b/edk2toollib/uefi/authenticated_variables_structure_support.py
index 48f0bbe..6cb3cc0 100644
--- a/edk2toollib/uefi/authenticated_variables_structure_support.py
+++ b/edk2toollib/uefi/authenticated_variables_structure_support.py
@@ -1049,14 +1049,16 @@ class EfiSignatureDatabase(CommonUefiStructure):
             duplicatesDb.esl_list.append(dupes)
 
         if x509eslList is not None:
-            x509eslList.sort(key=attrgetter("signature_data_list"))
+            # only the data contents matter, not the owners
+            last = None
+            x509eslList.sort(key=lambda esl: [data.signature_data for data in esl.signature_data_list])
             for esl in x509eslList:
-                if not canonicalDb.esl_list:
-                    canonicalDb.esl_list.append(esl)
-                elif esl == canonicalDb.esl_list[-1]:
+                contents = [data.signature_data for data in esl.signature_data_list]
+                if contents == last:
                     duplicatesDb.esl_list.append(esl)
                 else:
                     canonicalDb.esl_list.append(esl)
+                last = contents
 
         return (canonicalDb, duplicatesDb)
 
-- 
2.43.0


From e74f7f9967ded708005ef38e345249f5ded963bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:08 +0000
Subject: [PATCH 107/118] fix: firmware policy rules are compared by their
 contents, so that a rule is added once

---
 edk2toollib/windows/policy/firmware_policy.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/edk2toollib/windows/policy/firmware_policy.py b/edk2toollib/windows/policy/firmware_policy.py
index dfb6fa5..937610b 100644
--- a/edk2toollib/windows/policy/firmware_policy.py
+++ b/edk2toollib/windows/policy/firmware_policy.py
@@ -275,6 +275,10 @@ class PolicyValueType:
 
         self.vt = Type
 
+    def __eq__(self, other: "PolicyValueType") -> bool:
+        """Compares the content."""
+        return isinstance(other, PolicyValueType) and self.vt == other.vt
+
     @classmethod
     def FromFileStream(cls: "PolicyValueType", fs: BinaryIO, fsOffset: int = None) -> "PolicyValueType":
         """Load a Policy Value Type from a file stream.
@@ -354,6 +358,10 @@ class PolicyString:
             self.String = ""
         return
 
+    def __eq__(self, other: "PolicyString") -> bool:
+        """Compares the content."""
+        return isinstance(other, PolicyString) and self.String == other.String
+
     @classmethod
     def FromFileStream(cls: "PolicyString", fs: BinaryIO, fsOffset: int = None) -> "PolicyString":
         """Inits a PolicyString from a file stream.
@@ -434,6 +442,10 @@ class PolicyValue:
         self.valueType = valueType
         self.value = value
 
+    def __eq__(self, other: "PolicyValue") -> bool:
+        """Compares the type and the content."""
+        return isinstance(other, PolicyValue) and self.valueType == other.valueType and self.value == other.value
+
     @classmethod
     def FromFileStream(cls: "PolicyValue", fs: BinaryIO, fsOffset: int = None) -> "PolicyValue":
         """Load a Policy Value from a file stream.
-- 
2.43.0


From 83cb262c2b2b489d3400928fde3a08b16e293b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 108/118] fix: FmpAuthHeaderClass.IsSigned recognises signed
 images

---
 edk2toollib/uefi/fmp_auth_header.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/fmp_auth_header.py b/edk2toollib/uefi/fmp_auth_header.py
index c8eb3ba..cd5b0f7 100644
--- a/edk2toollib/uefi/fmp_auth_header.py
+++ b/edk2toollib/uefi/fmp_auth_header.py
@@ -94,10 +94,11 @@ class FmpAuthHeaderClass(object):
         if len(Buffer) < self._MonotonicCountSize:
             return False
 
-        auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
-        if auth_info.CertType != WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID.bytes_le:
+        try:
+            auth_info = WinCertUefiGuid(Buffer[self._MonotonicCountSize :])
+        except ValueError:
             return False
-        return True
+        return auth_info.cert_type == WinCertUefiGuid._EFI_CERT_TYPE_PKCS7_GUID
 
     def DumpInfo(self) -> None:
         """Prints object to console."""
-- 
2.43.0


From fbf37cdc36c0b2925acc1f350a721dd822629c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:06 +0000
Subject: [PATCH 109/118] fix: capsule and payload headers keep the bytes that
 extend them

---
 edk2toollib/uefi/edk2/fmp_payload_header.py | 6 ++++--
 edk2toollib/uefi/uefi_capsule_header.py     | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/fmp_payload_header.py b/edk2toollib/uefi/edk2/fmp_payload_header.py
index c384857..d1f2f6e 100644
--- a/edk2toollib/uefi/edk2/fmp_payload_header.py
+++ b/edk2toollib/uefi/edk2/fmp_payload_header.py
@@ -49,6 +49,7 @@ class FmpPayloadHeaderClass(object):
         self.FwVersion = 0x00000000
         self.LowestSupportedVersion = 0x00000000
         self.Payload = b""
+        self._HeaderExtension = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -59,7 +60,7 @@ class FmpPayloadHeaderClass(object):
         FmpPayloadHeader = struct.pack(
             self._StructFormat, self.Signature, self.HeaderSize, self.FwVersion, self.LowestSupportedVersion
         )
-        return FmpPayloadHeader + self.Payload
+        return FmpPayloadHeader + self._HeaderExtension + self.Payload
 
     def Decode(self, Buffer: bytes) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -82,12 +83,13 @@ class FmpPayloadHeaderClass(object):
         )
         if Signature != self._FMP_PAYLOAD_HEADER_SIGNATURE:
             raise ValueError
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         self.Signature = Signature
         self.HeaderSize = HeaderSize
         self.FwVersion = FwVersion
         self.LowestSupportedVersion = LowestSupportedVersion
+        self._HeaderExtension = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
 
         return self.Payload
diff --git a/edk2toollib/uefi/uefi_capsule_header.py b/edk2toollib/uefi/uefi_capsule_header.py
index 4f8ac4e..5eef8c7 100644
--- a/edk2toollib/uefi/uefi_capsule_header.py
+++ b/edk2toollib/uefi/uefi_capsule_header.py
@@ -63,6 +63,7 @@ class UefiCapsuleHeaderClass(object):
         self.CapsuleImageSize = self.HeaderSize
         self.Payload = b""
         self.FmpCapsuleHeader = None
+        self._HeaderExtension = b""
 
     def Encode(self) -> bytes:
         r"""Serializes the Header + payload.
@@ -88,7 +89,7 @@ class UefiCapsuleHeaderClass(object):
             self._StructFormat, self.CapsuleGuid.bytes_le, self.HeaderSize, Flags, self.CapsuleImageSize, 0
         )
 
-        return UefiCapsuleHeader + self.Payload
+        return UefiCapsuleHeader + self._HeaderExtension + self.Payload
 
     def Decode(self, Buffer: BytesIO) -> bytes:
         """Loads data into the Object by parsing a buffer.
@@ -109,7 +110,7 @@ class UefiCapsuleHeaderClass(object):
         (CapsuleGuid, HeaderSize, Flags, CapsuleImageSize, Reserved) = struct.unpack(
             self._StructFormat, Buffer[0 : self._StructSize]
         )
-        if HeaderSize < self._StructSize:
+        if HeaderSize < self._StructSize or HeaderSize > len(Buffer):
             raise ValueError
         if CapsuleImageSize != len(Buffer):
             raise ValueError
@@ -120,6 +121,7 @@ class UefiCapsuleHeaderClass(object):
         self.PopulateSystemTable = (Flags & self._CAPSULE_FLAGS_POPULATE_SYSTEM_TABLE) != 0
         self.InitiateReset = (Flags & self._CAPSULE_FLAGS_INITIATE_RESET) != 0
         self.CapsuleImageSize = CapsuleImageSize
+        self._HeaderExtension = Buffer[self._StructSize : self.HeaderSize]
         self.Payload = Buffer[self.HeaderSize :]
         self.FmpCapsuleHeader = None
         if len(self.Payload) > 0 and self.CapsuleGuid == self.EFI_FIRMWARE_MANAGEMENT_CAPSULE_ID_GUID:
-- 
2.43.0


From 9717652e3a6fa28b0e10d68b7b6811f5641f58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 110/118] fix: an empty BmpObject can be created and written

---
 edk2toollib/uefi/bmp_object.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 997fbc1..50b8702 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -118,13 +118,13 @@ class BmpObject(object):
         """Inits an empty object or loads from filestream."""
         self.logger = logging.getLogger(__name__)
         if filestream is None:
-            self.CharB = "B"
-            self.CharM = "M"
-            self.Size = BmpObject.STATIC_STRUCT_SIZE
+            self.CharB = b"B"
+            self.CharM = b"M"
+            self.Size = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.Rsvd16_1 = 0
             self.Rsvd16_2 = 0
-            self.ImageOffset = BmpObject.STATIC_STRUCT_SIZE
-            self.HeaderSize = BmpObject.STATIC_STRUCT_SIZE
+            self.ImageOffset = BmpObject.STATIC_FILE_HEADER_SIZE + BmpObject.STATIC_IMAGE_HEADER_SIZE
+            self.HeaderSize = BmpObject.STATIC_IMAGE_HEADER_SIZE
             self.PixelWidth = 0
             self.PixelHeight = 0
             self.Planes = 1
-- 
2.43.0


From 4bc5f1d60ef077ac9e7d3230c70cfcc033843519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 111/118] fix: BmpColorMap.Print gets its logger

---
 edk2toollib/uefi/bmp_object.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/bmp_object.py b/edk2toollib/uefi/bmp_object.py
index 50b8702..f684916 100644
--- a/edk2toollib/uefi/bmp_object.py
+++ b/edk2toollib/uefi/bmp_object.py
@@ -71,7 +71,7 @@ class BmpColorMap(object):
 
     def Print(self) -> None:
         """Logs the object."""
-        logger = logging.get(__name__)
+        logger = logging.getLogger(__name__)
         logger.info("BMP Color Map")
         logger.info("  Blue:           0x%X" % self.Blue)
         logger.info("  Green:          0x%X" % self.Green)
-- 
2.43.0


From e0aedecc5af262a67f24ac85638554a5d387885a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:59 +0000
Subject: [PATCH 112/118] fix: variable and policy names keep a leading U+FEFF

---
 edk2toollib/uefi/edk2/variable_format.py | 11 ++++-------
 edk2toollib/uefi/edk2/variable_policy.py |  4 ++--
 2 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/edk2toollib/uefi/edk2/variable_format.py b/edk2toollib/uefi/edk2/variable_format.py
index 6137630..1553627 100644
--- a/edk2toollib/uefi/edk2/variable_format.py
+++ b/edk2toollib/uefi/edk2/variable_format.py
@@ -150,7 +150,7 @@ class VariableHeader(object):
 
         # Finally, load the data.
         data_offset = self.StructSize
-        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16")
+        self.Name = in_bytes[data_offset : (data_offset + self.NameSize)].decode("utf-16-le")
         self.Name = self.Name[:-1]  # Strip the terminating char.
         data_offset += self.NameSize
         self.Data = in_bytes[data_offset : (data_offset + self.DataSize)]
@@ -181,7 +181,7 @@ class VariableHeader(object):
             raise EOFError("No variable data!")
 
         # Finally, load the data.
-        self.Name = file.read(self.NameSize).decode("utf-16")[:-1]  # Strip the terminating char.
+        self.Name = file.read(self.NameSize).decode("utf-16-le")[:-1]  # Strip the terminating char.
         self.Data = file.read(self.DataSize)
         end_seek = file.tell()
 
@@ -210,11 +210,8 @@ class VariableHeader(object):
         """Get the name attribute."""
         # Make sure to replace the terminating char.
         # name_bytes = b"\x00".join([char for char in (self.Name + b'\x00')])
-        name_bytes = self.Name.encode("utf-16")
-
-        # Python encode will leave an "0xFFFE" on the front
-        # to declare the encoding type. UEFI does not use this.
-        name_bytes = name_bytes[2:]
+        # UEFI names are little endian, without a mark in front to declare that.
+        name_bytes = self.Name.encode("utf-16-le")
 
         # Python encode skips the terminating character, so let's add that.
         name_bytes += b"\x00\x00"
diff --git a/edk2toollib/uefi/edk2/variable_policy.py b/edk2toollib/uefi/edk2/variable_policy.py
index e6b7a2f..3a667ab 100644
--- a/edk2toollib/uefi/edk2/variable_policy.py
+++ b/edk2toollib/uefi/edk2/variable_policy.py
@@ -63,7 +63,7 @@ class VariableLockOnVarStatePolicy(object):
         if string_end is None:
             raise ValueError("String end not detected!")
 
-        self.Name = buffer[:string_end].decode("utf-16").strip("\x00")
+        self.Name = buffer[:string_end].decode("utf-16-le").strip("\x00")
 
         return buffer[string_end:]
 
@@ -232,7 +232,7 @@ class VariablePolicyEntry(object):
         self.Name = None
         self.LockPolicy = None
         if self.OffsetToName != self.Size:
-            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16").strip("\x00")
+            self.Name = buffer[self.OffsetToName : self.Size].decode("utf-16-le").strip("\x00")
 
         if self.LockPolicyType == VariablePolicyEntry.TYPE_LOCK_ON_VAR_STATE:
             self.LockPolicy = VariableLockOnVarStatePolicy()
-- 
2.43.0


From 6966cb59c02d3989ea5ef32fa7e24f05fba6422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:17 +0000
Subject: [PATCH 113/118] fix: the relative offset of a fault tolerant write
 record is signed

---
 edk2toollib/uefi/edk2/ftw_working_block_format.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/ftw_working_block_format.py b/edk2toollib/uefi/edk2/ftw_working_block_format.py
index 0c5655d..0113015 100644
--- a/edk2toollib/uefi/edk2/ftw_working_block_format.py
+++ b/edk2toollib/uefi/edk2/ftw_working_block_format.py
@@ -201,7 +201,7 @@ class EfiFtwWriteRecord(object):
 
     def __init__(self) -> "EfiFtwWriteRecord":
         """Initializes an empty object."""
-        self.StructString = "=BBBBLQQQQ"  # spell-checker: disable-line
+        self.StructString = "=BBBBLQQQq"  # spell-checker: disable-line
         self.StatusBits = None
         self.ReservedByte1 = None
         self.ReservedByte2 = None
-- 
2.43.0


From 02a1e3ee6fbf1154fa55ef4965f60637acb853a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:22 +0000
Subject: [PATCH 114/118] fix: the running time that RunCmd logs neither
 follows changes of the clock nor drops whole days

---
 edk2toollib/utility_functions.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/edk2toollib/utility_functions.py b/edk2toollib/utility_functions.py
index 9020935..37bf0ad 100644
--- a/edk2toollib/utility_functions.py
+++ b/edk2toollib/utility_functions.py
@@ -8,7 +8,6 @@
 ##
 """Module containing utility functions to support re-use in python scripts."""
 
-import datetime
 import importlib
 import inspect
 import logging
@@ -192,7 +191,7 @@ def RunCmd(
     if parameters is not None:
         parameters = parameters.strip()
         cmd += " " + parameters
-    starttime = datetime.datetime.now()
+    starttime = time.monotonic()
     logging.log(logging_level, "Cmd to run is: " + cmd)
     logging.log(logging_level, "------------------------------------------------")
     logging.log(logging_level, "--------------Cmd Output Starting---------------")
@@ -215,9 +214,8 @@ def RunCmd(
     else:
         c.wait()
 
-    endtime = datetime.datetime.now()
-    delta = endtime - starttime
-    endtime_str = "{0[0]:02}:{0[1]:02}".format(divmod(delta.seconds, 60))
+    delta = time.monotonic() - starttime
+    endtime_str = "{0[0]:02}:{0[1]:02}".format(divmod(int(delta), 60))
     returncode_str = "{0:#010x}".format(c.returncode)
     logging.log(logging_level, "------------------------------------------------")
     logging.log(logging_level, "--------------Cmd Output Finished---------------")
-- 
2.43.0


From 1a0bbab8dafebeb8982a988450ccb9a7d217488d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 115/118] fix: a source file whose name ends in 'sources' does
 not start a section of an INF

---
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 74ee468..98dba05 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -52,8 +52,8 @@ class InfParser(HashFileParser):
     """
 
     SECTION_REGEX = re.compile(r"\[(.*)\]")
-    SECTION_LIBRARY = re.compile(r"libraryclasses(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
-    SECTION_SOURCE = re.compile(r"sources(?:\.([^,.\]]+))?[,.\]]", re.IGNORECASE)
+    SECTION_LIBRARY = re.compile(r"(?:\[|,)\s*libraryclasses\s*(?:\.([^,.\]]+))?(?=[,.\]])", re.IGNORECASE)
+    SECTION_SOURCE = re.compile(r"(?:\[|,)\s*sources\s*(?:\.([^,.\]]+))?(?=[,.\]])", re.IGNORECASE)
 
     def __init__(self) -> "InfParser":
         """Inits an empty parser."""
@@ -261,15 +261,17 @@ class InfParser(HashFileParser):
                 self.Logger.info(f"Key,values found for local vars: {tokens[0].strip()}, {tokens[1].strip()}")
                 continue
 
-            match = self.SECTION_LIBRARY.findall(line)
+            # Only a header starts a section, not a file that is called Resources.c
+            header = line.strip() if line.strip().startswith("[") else ""
+            match = self.SECTION_LIBRARY.findall(header)
             if match:
                 current_section = "LibraryClasses"
-                arch_list = match
+                arch_list = [arch.strip() for arch in match]
                 continue
-            match = self.SECTION_SOURCE.findall(line)
+            match = self.SECTION_SOURCE.findall(header)
             if match:
                 current_section = "Sources"
-                arch_list = match
+                arch_list = [arch.strip() for arch in match]
                 continue
 
             # Catch all others
-- 
2.43.0


From 95b72b3872ef51abd406e269f6070857f063af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 116/118] fix: blanks after the bracket of a section header do
 not hide the section of a DSC, INF or DEC

---
 edk2toollib/uefi/edk2/parsers/dec_parser.py | 4 ++++
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 2 +-
 edk2toollib/uefi/edk2/parsers/inf_parser.py | 4 ++++
 3 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dec_parser.py b/edk2toollib/uefi/edk2/parsers/dec_parser.py
index a437aa4..77fae26 100644
--- a/edk2toollib/uefi/edk2/parsers/dec_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dec_parser.py
@@ -205,6 +205,10 @@ class DecParser(HashFileParser):
             if sline is None or len(sline) < 1:
                 continue
 
+            # blanks around the name of a section do not count
+            if sline.startswith("["):
+                sline = "[" + sline[1:].lstrip()
+
             if InDefinesSection:
                 if sline.strip()[0] == "[":
                     InDefinesSection = False
diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 9e44312..41ad7ca 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -430,7 +430,7 @@ class DscParser(HashFileParser):
             return scope_list
 
         # If the line is a section header, but not the correct section type, return []
-        elif not match.group().startswith(f"[{section_type}"):
+        elif not match.group(1).lstrip().startswith(section_type):
             return []
 
         # The line must be a section header and of the correct section type. Return it
diff --git a/edk2toollib/uefi/edk2/parsers/inf_parser.py b/edk2toollib/uefi/edk2/parsers/inf_parser.py
index 98dba05..4032ac4 100644
--- a/edk2toollib/uefi/edk2/parsers/inf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/inf_parser.py
@@ -119,6 +119,10 @@ class InfParser(HashFileParser):
 
             sline = self.ReplaceVariables(sline)
 
+            # blanks around the name of a section do not count
+            if sline.startswith("["):
+                sline = "[" + sline[1:].lstrip()
+
             if sline.strip().startswith("DEFINE"):
                 tokens = sline.strip().replace("DEFINE", "", 1).split("=", 1)
                 self.LocalVars[tokens[0].strip()] = tokens[1].strip()
-- 
2.43.0


From e5ffac5d67aef56cadc1c33b8811b4da5a4cb6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:02 +0000
Subject: [PATCH 117/118] fix: a tab after INF or between SECTION and GUIDED
 does not change what an FDF says

---
 edk2toollib/uefi/edk2/parsers/fdf_parser.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/fdf_parser.py b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
index cdb3d1d..77ca069 100644
--- a/edk2toollib/uefi/edk2/parsers/fdf_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/fdf_parser.py
@@ -163,7 +163,7 @@ class FdfParser(HashFileParser):
                     if section not in self.FVs:
                         self.FVs[section] = {"Dict": {}, "Infs": [], "Files": {}}
                     # ex: INF  MdeModulePkg/Core/RuntimeDxe/RuntimeDxe.inf
-                    if sline.upper().startswith("INF "):
+                    if re.match(r"INF\s", sline, re.IGNORECASE):
                         InfValue = sline[3:].strip()
                         self.FVs[section]["Infs"].append(InfValue)
                     # ex: FILE FREEFORM = 7E175642-F3AD-490A-9F8A-2E9FC6933DDD {
@@ -182,8 +182,9 @@ class FdfParser(HashFileParser):
                         while self._BracketCount > 0:  # go until we get our bracket back
                             sline = self.GetNextLine().strip("}{ ")
                             # SECTION GUIDED EE4E5898-3914-4259-9D6E-DC7BD79403CF
-                            if sline.upper().startswith("SECTION GUIDED"):  # get the guided section
-                                section_def = sline[14:].strip().split("=", 1)
+                            guided = re.match(r"SECTION\s+GUIDED", sline, re.IGNORECASE)
+                            if guided:  # get the guided section
+                                section_def = sline[guided.end() :].strip().split("=", 1)
                                 # EE4E5898-3914-4259-9D6E-DC7BD79403CF in this example
                                 sectionType = section_def[0].strip()
                                 if sectionType not in self.FVs[section]["Files"][currentName]:
-- 
2.43.0


From 4b885e744423274ebf12923ebac4a741f527f8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:13 +0000
Subject: [PATCH 118/118] fix: blanks between the supported architectures and a
 tab after a component do not get into the components of a DSC

---
 edk2toollib/uefi/edk2/parsers/dsc_parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/edk2toollib/uefi/edk2/parsers/dsc_parser.py b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
index 41ad7ca..95e4497 100644
--- a/edk2toollib/uefi/edk2/parsers/dsc_parser.py
+++ b/edk2toollib/uefi/edk2/parsers/dsc_parser.py
@@ -403,13 +403,13 @@ class DscParser(HashFileParser):
 
                 for scope in current_scopes:
                     # Components without a specific scope (common or empty) are added to all current scopes
-                    if os.path.isabs(line.strip(" {")):
-                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" {"))
+                    if os.path.isabs(line.strip(" \t{")):
+                        line = self._Edk2PathUtil.GetEdk2RelativePathFromAbsolutePath(line.strip(" \t{"))
                     if scope == "common":
                         for arch in self.LocalVars["SUPPORTED_ARCHITECTURES"].split("|"):
-                            self.Components.append((line.strip(" {"), arch, library_override_dict))
+                            self.Components.append((line.strip(" \t{"), arch.strip(), library_override_dict))
                     else:
-                        self.Components.append((line.strip(" {"), scope, library_override_dict))
+                        self.Components.append((line.strip(" \t{"), scope, library_override_dict))
 
         except StopIteration:
             return
-- 
2.43.0

