prop(
    "C01",
    "Captured command output arrives complete, in order and exactly once",
    "When an external command is run with its output captured, everything it and its background children write to their combined output, however it is chunked and however writing overlaps with the command's exit, has been delivered in order and exactly once to the requested output file, output stream and log (one log line per output line at the requested level) by the time the call returns. The call starts exactly the requested command with the requested arguments, environment and working directory, and returns the command's own return code, or raises for a non-zero one when that was asked for. The running time it logs is the command's, even if the wall clock is set meanwhile. This also holds for several callers running commands at the same time.",
    ["schedules", "inputs", "configurations"],
    "Every output content (unicode split across chunks, empty lines, no final newline, CR), every chunking and pipe size, every interleaving of child, background child, reader thread and caller, every combination of output file / stream / log level / encoding-error mode / return code, one or several concurrent calls.",
    "The tests run two tiny scripts to completion; the order in which the child exits, the reader drains and the caller resumes is whatever the machine does, and split multi-byte characters, late background output and concurrent callers never occur.",
    [U],
    [("reader thread drains the pipe to EOF", U + ":reader"), ("caller waits for the child and then joins the reader", U + ":RunCmd"), ("RunPythonScript forwards to RunCmd", U + ":RunPythonScript")],
    ["output file", "output stream", "log records", "return value", "logged running time"],
    real=["RunCmd, RunPythonScript, reader, PropagatingThread", "logging, threading.Thread, io text/buffer stack"],
    stub=["child processes and their pipe (scripted child, bounded pipe)", SIMTHREADS, "clocks (monotonic and wall, with jumps)", "raw file writes (short writes)"],
    rule="One to three generated commands per run with generated output, chunking, pipe size, sinks and options; the scheduler and short reads/writes are drawn from the seed.",
    assume=["Child processes are modelled as scripted writers on a bounded pipe with SIGPIPE semantics."],
)
prop(
    "C02",
    "A failing command run raises the failure and never hangs",
    "If the output cannot be decoded, the output file cannot be opened, written or closed, the caller's stream or a log handler raises, or the command cannot be started, running a command raises that very failure instead of reporting a normal result, and leaves no output file open. In every case, including output that is not captured and is larger than a pipe, the call finishes once the command itself can finish: it never deadlocks.",
    ["fault_sequences", "schedules", "inputs"],
    "Every failure site (decode, open, k-th write, disk full after n bytes, close, stream, log handler, launch, missing directory), every amount of output before and after it relative to the pipe size, every interleaving of child, reader and caller, children that die from or ignore SIGPIPE.",
    "The tests only cover commands that succeed or return non-zero; none makes a sink fail, emits undecodable bytes, or prints more than a pipe holds with capture off.",
    [U],
    [("thread that stores the exception and re-raises it in join", U + ":PropagatingThread"), ("reader closes the pipe on every path", U + ":reader"), ("stdout is discarded when not captured", U + ":RunCmd")],
    ["exception or return value", "completion within the step budget"],
    real=["RunCmd, reader, PropagatingThread", "logging, threading.Thread, io text/buffer stack"],
    stub=["child processes and their pipe", SIMTHREADS, "raw file layer (capacity, EIO, close errors)", "failing stream and log handler"],
    rule="One or two commands per run, each with one armed failure drawn from nine kinds; failure position, output size, pipe size and schedule come from the seed.",
    assume=["Deadlock is reported when no simulated thread is runnable and no timer is pending; lack of progress when 300000 scheduler steps pass."],
)
LG = "edk2toollib/log/"
prop(
    "C03",
    "Log handlers keep every record whole and exactly once under concurrency",
    "Each log record that passes a handler's level and filters is kept exactly once, as the filters left or replaced it, as one uninterrupted line, in emission order per thread, by every output the log package offers: the string handler (including its current contents, the position it leaves the stream at, and a caller reading the stream while records arrive), the file handler (in the file, once closed), and the colored stream handler (colors stripped when the stream is not a terminal). This holds for any number of threads logging at once, and a stream or disk that fails for one record loses or damages only that record, is reported through logging's error handling and never raises into or blocks the logging caller.",
    ["schedules", "fault_sequences", "configurations"],
    "Every interleaving of logging threads, readers and handler close; every combination of handlers, levels, formatters, strip/convert settings and terminal detection; every pattern of failing writes and short writes.",
    "The tests log a handful of messages from one thread to healthy streams.",
    [LG + "string_handler.py", LG + "file_handler.py", LG + "ansi_handler.py"],
    [("emit appends at the end of the stream", LG + "string_handler.py:StringStreamHandler"), ("file creation and append", LG + "file_handler.py:FileHandler"), ("ANSI writer", LG + "ansi_handler.py:ColoredStreamHandler")],
    ["string contents", "log file bytes", "stream writes", "exceptions raised into the caller"],
    real=["the three handlers and ColoredFormatter", "logging"],
    stub=[SIMTHREADS, "console stream", "raw file writes"],
    rule="Two to four logging threads over one to four handlers, with readers, failing streams and close; every preemption from the seed.",
    assume=["A handler that is given a stream which fails for one write is allowed to lose that record only."],
)
prop(
    "C04",
    "Every output shows a record in its own colors, whatever other outputs do",
    "Formatting a log record with the colored formatter (terminal or Azure style) changes neither the record nor what any other handler sharing that record prints: level name, message and arguments of the record are the same afterwards, plain outputs never contain color or Azure markup, and every output shows exactly the record in its own style: the level's color switched on and off again inside the record, the Azure mark, or plain text. On a Windows console the colors become attributes of exactly the characters they stand around, the escape codes do not appear, and afterwards the console has its default attributes again. This also holds when formatting the record fails and when handlers process the same record in different threads at the same time.",
    ["schedules", "inputs", "fault_sequences"],
    "Every combination and order of plain, colored and Azure formatters sharing records, every level (standard and custom), messages that cannot be formatted, one thread per handler in every interleaving.",
    "The tests format one record with one formatter in one thread.",
    [LG + "ansi_handler.py"],
    [("colored copy of the record", LG + "ansi_handler.py:ColoredFormatter.format")],
    ["record attributes", "each handler's output"],
    real=["ColoredFormatter, ColoredStreamHandler, StringStreamHandler", "logging"],
    stub=[SIMTHREADS, "Windows console (text with attributes) and host detection"],
    rule="Two to four handlers with generated formatters share one to four generated records, served by one thread or by one thread each; or one handler on a simulated Windows console with generated attributes is used by one to three threads.",
)
DB = "edk2toollib/database/"
DBREAL = ["Edk2DB, every table generator, the INF/DSC/FDF parsers, Edk2Path", "SQLAlchemy, sqlite3 engine and its journal", "GitPython and pygount"]
DBSTUB = ["sqlite3 driver boundary (statement/commit faults, crash at any statement: connection dies, on-disk bytes incl. hot journal kept)", "joblib pool (runs the real tasks in a seeded order, may lose a worker)", "file layer faults, directory order", "uuid4 and clock", SIMTHREADS]
prop(
    "C05",
    "A parse that stops part-way never leaves a half-written table",
    "When a workspace database parse is stopped at any point (a database statement or commit fails, the disk is full, a file cannot be read or decoded, a parser worker dies, the process crashes), the error reaches the caller, and the database afterwards holds exactly the results of whole table generators: everything of each generator that completed, nothing of the one that failed, and everything that was there before. Another process reading the file meanwhile sees whole generators only. Once the cause is gone, running the same parse again succeeds and describes the workspace completely.",
    ["crash_points", "fault_sequences", "histories"],
    "Every statement, write, commit and file access at which a parse of a generated workspace can be interrupted, with and without earlier parses in the same database, every selection and order of table generators.",
    "The tests parse healthy workspaces to completion; none interrupts a parse or looks at the database in the middle.",
    [DB + "edk2_db.py", DB + "tables/inf_table.py", DB + "tables/source_table.py", DB + "tables/instanced_inf_table.py", DB + "tables/instanced_fv_table.py", DB + "tables/package_table.py", DB + "tables/environment_table.py"],
    [("one session per generator, committed or rolled back", DB + "edk2_db.py:Edk2DB.parse"), ("session context manager", DB + "edk2_db.py:Edk2DB.session")],
    ["database file contents through an independent connection", "exceptions"],
    real=DBREAL,
    stub=DBSTUB,
    rule="A generated workspace, optional earlier parse, one interrupted parse (error, crash, I/O, worker, input, full disk, concurrent reader) and a retry; every table is compared with a reference model by natural keys.",
    assume=["A crash keeps exactly the bytes SQLite wrote so far (no loss of unsynced pages); SQLite's own recovery is trusted and runs for real."],
)
prop(
    "C06",
    "After any history of parses and edits the database equals the workspace",
    "After every successful parse, the workspace database contains exactly what the workspace says: for each parse a new, unique environment with its variables; and for the packages, INFs, sources, libraries, repositories, instanced INFs (with the library instances chosen by the DSC for each architecture and module type, overrides, NULL libraries and transitive libraries) and FVs, one row per thing with the links the files imply (a path stands for the file it leads to when several package paths hold one; a module belongs to the package and repository it lies in), earlier environments untouched; what was removed from the workspace keeps the row it had. Repeating a parse, editing files in between, re-opening the database, or an earlier failed parse never duplicates, loses or leaves stale rows for what the parse covers. Only registered generators run, in registration order; the session context manager commits on success and rolls back and re-raises on failure.",
    ["histories", "inputs", "configurations", "fault_sequences"],
    "Every generated workspace (packages, libraries, components, conditions, architecture and module-type scoped library classes, overrides, FVs, sources, git layouts) and every history of parses with different environments, edits, failed parses and re-opens.",
    "The tests parse small fixed workspaces, mostly once, and check a few rows.",
    [DB + "edk2_db.py", DB + "__init__.py", DB + "tables/instanced_inf_table.py", DB + "tables/inf_table.py", DB + "tables/source_table.py", DB + "tables/package_table.py", DB + "tables/instanced_fv_table.py", DB + "tables/environment_table.py"],
    [("library instance resolution", DB + "tables/instanced_inf_table.py:InstancedInfTable"), ("row reuse across parses", DB + "tables/inf_table.py:InfTable"), ("sources updated in place", DB + "tables/source_table.py:SourceTable"), ("session", DB + "edk2_db.py:Edk2DB.session")],
    ["database contents", "environment ids", "exceptions"],
    real=DBREAL,
    stub=DBSTUB,
    rule="Histories of two to six steps over a generated workspace; after each successful parse every table is compared with a reference model derived from the workspace description.",
    assume=["A module that several package paths hold under one path is not used by the DSC."],
)
prop(
    "C07",
    "The database does not depend on worker order or on other parses running",
    "Two parses of the same workspace with the same environment give the same database contents, apart from generated ids and dates, whatever the number and completion order of parser workers, the order in which the file system lists directories, and whether the path object was used before; and parses of this or of different workspaces into different databases in one process, at the same time from different threads or one after the other, do not affect each other.",
    ["schedules", "configurations"],
    "Every task completion order of the parallel INF parsing, every directory enumeration order, every interleaving of two concurrent parses.",
    "The tests run with whatever order the pool and the file system happen to give, and never two parses at once.",
    [DB + "edk2_db.py", DB + "tables/inf_table.py", DB + "tables/source_table.py", "edk2toollib/uefi/edk2/path_utilities.py", "edk2toollib/uefi/edk2/parsers/inf_parser.py"],
    [("parallel INF parsing", DB + "tables/inf_table.py:InfTable.parse"), ("parallel source analysis", DB + "tables/source_table.py:SourceTable.parse"), ("parser state", "edk2toollib/uefi/edk2/parsers/base_parser.py:BaseParser")],
    ["normalised database contents", "exceptions"],
    real=DBREAL,
    stub=DBSTUB,
    rule="Differential: the same parse on two fresh databases with different worker and enumeration orders; concurrent: two threads parse the same or similar workspaces with line-level preemption; several: similar workspaces parsed one after the other. All are also compared with the reference model.",
)
prop(
    "C08",
    "RemoveTree removes the whole tree or says so, and nothing outside it",
    "Removing a directory tree returns normally only when the tree is gone; otherwise it raises RuntimeError (never another error), and with ignore_errors it never raises. It overcomes read-only and unreadable entries it owns and up to two transient failures. Whatever the tree holds (symbolic links to files and directories elsewhere, dead links, odd names, unreadable directories), whatever fails meanwhile, and whoever else adds to or removes from the tree at the same time, no file or directory outside the tree changes its contents, permissions or existence.",
    ["fault_sequences", "schedules", "inputs"],
    "Every generated tree with links and permissions, every sequence of failing system calls (unlink, rmdir, open, readdir, chmod), every interleaving with another process adding to, cleaning or removing the same tree.",
    "The tests remove two healthy trees; permissions, links pointing outside, transient failures and rivals never occur together.",
    [U],
    [("retry loop", U + ":RemoveTree"), ("error handler that changes permissions", U + ":RemoveTree")],
    ["file system state inside and outside the tree", "exceptions"],
    real=["RemoveTree, shutil.rmtree, logging", "a real directory tree"],
    stub=["directory order and failing system calls (fault layer with the permission rules of an ordinary owner)", SIMTHREADS],
    rule="One removal per run of a generated tree with zero to five injected failures, alone or with a rival thread.",
    assume=["Hard links and an adversary who swaps path components during the call are outside the property."],
)
T = "edk2toollib/tpm/"
prop(
    "C10",
    "Each TPM command arrives whole and gets exactly its own response",
    "Each command sent to the TPM simulator arrives as exactly the bytes of that command, at the requested locality, after the simulator was powered off, on and NV-enabled, in order; and the call returns exactly that command's complete response, however the network splits, delays or coalesces the data, whatever keep-alive zero words the simulator sends first, and whatever size command and response have. When the connection is refused, closed or reset before the complete response arrived, the call raises rather than returning a partial or foreign answer. Several simulators used at once do not affect each other.",
    ["schedules", "fault_sequences", "inputs"],
    "Every command built from the stream elements, every response size, every segmentation of both directions, delays, connection loss at every byte of the exchange, concurrent clients.",
    "No test opens a connection; loopback delivers small messages whole, so split messages would not show either.",
    [T + "tpm2_simulator.py", T + "tpm2_stream.py"],
    [("command and response framing", T + "tpm2_simulator.py:TpmSimulator.send_data"), ("power up", T + "tpm2_simulator.py:TpmSimulator"), ("command bytes", T + "tpm2_stream.py:Tpm2CommandStream")],
    ["bytes received by the simulator", "responses returned", "exceptions"],
    real=["TpmSimulator, TpmSimulatorSocket, Tpm2CommandStream and elements", "logging"],
    stub=["sockets and network (bounded buffers, partial send/recv, delays, refuse/close/reset)", "the TPM simulator (reference implementation of its TCP protocol)", SIMTHREADS],
    rule="One or two clients, one to five commands each, generated sizes and segmentation; in fault runs the connection is refused or lost at a drawn byte.",
    assume=["The network delivers bytes in order or breaks the connection (TCP)."],
)
V = "edk2toollib/os/uefivariablesupport.py"
prop(
    "C11",
    "UEFI variable calls read, store, delete and list exactly",
    "Through the Linux variable interface, reading returns exactly the stored data or 'not found'; storing makes the variable hold exactly the given attributes and data with a single store operation, or fails and leaves the old value; deleting removes exactly that variable (also when the kernel marked it immutable), and nothing when it does not exist; listing returns every variable with its name and GUID, whatever characters the name contains. A name is never interpreted by a shell, no other variable or file is touched, and failures are reported. On Windows the same holds through the firmware variable API: the needed privilege is enabled, each call reaches the variable with that name and GUID, attributes are passed exactly when given, and what Windows refuses is reported (with its error code when reading or listing). Concurrent callers working on different variables do not affect each other.",
    ["fault_sequences", "inputs", "schedules", "histories"],
    "Every sequence of get/set/delete/list over names with shell, unicode and dash characters, data sizes around internal buffers, attribute mismatches, immutable files, I/O errors, full storage, refused sudo, two callers at once; on efivarfs and on the Windows API with missing privileges, refused calls and stores that grow between the two listing calls.",
    "efivarfs does not exist in the test environment; the tests only construct the class.",
    [V],
    [("efivarfs write as one operation", V + ":UefiVariable.SetUefiVar"), ("immutable flag", V + ":UefiVariable.SetUefiVar"), ("listing", V + ":UefiVariable.GetUefiAllVarNames")],
    ["variable store contents and operations", "commands run", "return values"],
    real=["UefiVariable (both hosts)", "io buffer stack"],
    stub=["efivarfs (one store operation per write, append rules, immutable flag, attribute checks)", "chattr/sudo and the shell that parses the command line", "Windows firmware variable API, process token and last error", SIMTHREADS],
    rule="Histories of one to six operations by one or two callers over a generated store with injected failures; the store is compared with a model after every operation.",
    assume=["The Windows calls behave as Microsoft documents them; ctypes' own conversions are not exercised."],
)
VS = "edk2toollib/uefi/edk2/"
prop(
    "C12",
    "Editing a ROM's variable store changes exactly the variables or nothing",
    "Opening a variable store in a ROM image yields exactly the variables the image holds, in order; after edits and a successful flush the image holds exactly the edited variables and no byte outside the variable area has changed; a flush that fails because the variables do not fit or cannot be stored changes nothing, and one that fails while writing leaves the old or the new variables. Closing without flushing changes nothing. Images that do not hold a complete valid store (wrong signatures, GUIDs, lengths, formats, cut-off headers or variables) are rejected and left untouched. Two stores of one image can be edited independently, also at the same time.",
    ["histories", "fault_sequences", "inputs"],
    "Every generated image (authenticated and plain stores, several stores, surrounding data), every history of opens, edits and flushes, sizes around the capacity, failing mapping, reads and synchronisation, damaged and truncated images.",
    "The tests edit one fixture once and never look at the bytes around it, at capacity limits or at damaged images.",
    [VS + "variablestore_manulipulations.py", VS + "variable_format.py", "edk2toollib/uefi/pi_firmware_volume.py"],
    [("flush to the mapped file", VS + "variablestore_manulipulations.py:VariableStore.flush_to_file"), ("variable parsing and serialisation", VS + "variable_format.py:VariableHeader"), ("volume header checks", "edk2toollib/uefi/pi_firmware_volume.py:EfiFirmwareVolumeHeader")],
    ["ROM file bytes", "loaded variables", "exceptions"],
    real=["VariableStore, VariableHeader, AuthenticatedVariableHeader, VariableStoreHeader, EfiFirmwareVolumeHeader", "mmap over a real file"],
    stub=["mmap creation/flush failures and file faults", SIMTHREADS],
    rule="One or two editors with up to four open/edit/flush rounds; the ROM is re-read with an independent parser after every flush.",
    assume=["A process crash between single byte stores of a memory-mapped flush is not part of the property: the file format has no redundancy to recover from it."],
)
EP = "edk2toollib/uefi/edk2/path_utilities.py"
prop(
    "C09",
    "Workspace path answers follow the file system of the moment",
    "For a workspace with any number of package path roots, nested or not: converting an absolute path to a workspace-relative one uses the innermost root that contains it, converting back finds the file under the first root that has it, and the round trip leads to an existing file again; the containing package is the nearest directory upwards, inside its root, that holds a DEC file; the containing modules are the given INF or those of the nearest directory upwards inside the roots that holds any. Every answer describes the file system as it is at the time of the query, whatever was queried, added or removed before and whatever order directories are listed in; every query terminates, raises only when the file system refuses to be read, never changes the configured roots, and may run at the same time as others. Package paths that are not directories are rejected at construction unless the caller asked otherwise.",
    ["inputs", "histories", "schedules", "fault_sequences"],
    "Every generated tree and choice of roots (nested, equal, relative, trailing separators, missing), every path inside and outside them in every spelling, every history of queries and file system changes, unreadable directories, concurrent queries.",
    "The tests use a few fixed trees with fixed questions and never change the tree between questions.",
    [EP],
    [("root selection", EP + ":Edk2Path.GetEdk2RelativePathFromAbsolutePath"), ("containing package", EP + ":Edk2Path.GetContainingPackage"), ("containing modules", EP + ":Edk2Path.GetContainingModules")],
    ["answers", "exceptions", "configured roots"],
    real=["Edk2Path", "pathlib/os over a real directory tree"],
    stub=["directory order and failing scandir (fault layer)", SIMTHREADS],
    rule="Histories of up to ten queries and file system changes, or two to three threads querying one Edk2Path, each answer compared with a reference model that lists the tree itself.",
)
W = "edk2toollib/windows/"
prop(
    "C13",
    "Only a verified vswhere.exe is used, and the right Windows tool is chosen",
    "vswhere.exe appears at its place only complete and with the expected checksum, however the download fails, whichever file operation fails, at whatever point the process dies and however many processes download at once; a later call always recovers. Finding Visual Studio returns exactly the installations vswhere reports for the requested product and version, newest first; querying the VC environment runs the newest matching installation's vcvarsall once with the requested architecture and toolset and returns exactly the requested variables; finding an SDK tool picks one the host architecture can run, from the current SDK if it has it and otherwise from the newest, independent of directory order. Failures of vswhere, vcvarsall or the download are reported and never turned into an answer.",
    ["fault_sequences", "crash_points", "schedules", "configurations"],
    "Every network failure (HTTP error, truncation, corruption, reset, timeout), every file error, a process crash at every file operation, concurrent downloaders, every generated set of installations, SDK versions, architectures and environment contents.",
    "The tests need Windows and a network; on Linux they are skipped or mock one answer.",
    [W + "locate_tools.py"],
    [("download and verification", W + "locate_tools.py:_DownloadVsWhere"), ("environment query", W + "locate_tools.py:QueryVcVariables"), ("SDK tool choice", W + "locate_tools.py:FindToolInWinSdk")],
    ["file at the vswhere location at every step and after a crash", "commands run", "return values"],
    real=["locate_tools", "RunCmd and its reader thread", "file operations on a real scratch directory"],
    stub=["network (urlopen)", "vswhere.exe, vcvarsall.bat and the command interpreter (reference models)", "platform probes (os name, machine, ProgramFiles)", "the expected checksum is replaced by that of a generated release", SIMTHREADS],
    rule="One generated Windows host per run; downloads with faults, crashes or rivals, then a recovery call; or one to three queries against the model.",
    assume=["A process crash keeps what was written to files so far."],
)
prop(
    "C14",
    "Signing and catalog generation succeed exactly when their result is in place",
    "Detached signing, in-place catalog signing and catalog generation run their tool exactly once with exactly the requested file, key, password, EKU, content type, architecture and operating system, whatever characters the paths and the password contain and whether the paths are absolute or relative to the current directory. They report success only if the tool succeeded and the requested output file now holds its output; a failing tool's exit code is returned, a missing tool, missing output or failing move is reported, and then an existing output file is left as it was. The file to be signed and the key are never modified (except by in-place signing), no intermediate file is left behind on success, and concurrent signings do not affect each other.",
    ["fault_sequences", "inputs", "schedules"],
    "Every tool outcome (success, failure with and without output, silent, wrong place), every exit code, odd file names and passwords, absolute and relative paths, stale outputs, rename failures and cross-device moves with a full disk, several signings at once.",
    "The tests need Windows tools and skip, or mock the command and look at one argument.",
    [U, W + "capsule/cat_generator.py"],
    [("detached signing", U + ":DetachedSignWithSignTool"), ("catalog signing", U + ":CatalogSignWithSignTool"), ("catalog generation", W + "capsule/cat_generator.py:CatGenerator.MakeCat")],
    ["tool invocations", "files before and after", "return values"],
    real=["DetachedSignWithSignTool, CatalogSignWithSignTool, CatGenerator, RunCmd"],
    stub=["signtool.exe and Inf2Cat.exe (reference models parsing the command line the Windows way)", "rename/space failures (fault layer)", SIMTHREADS],
    rule="One job, one job with a move fault, or two to three concurrent jobs; directories compared before and after.",
)
J = "edk2toollib/log/junit_report_format.py"
prop(
    "C15",
    "A JUnit report is well-formed, complete and truthful",
    "A JUnit report that is written without an error is well-formed XML and lists every suite and every test case once, in order, with its name, class, outcome, message, logged output and true duration, and the correct totals, whatever characters names, messages and output contain and however the wall clock jumped while the cases ran. A case that is already decided cannot be decided again, a report with an undecided case is refused, a failure to write the report is raised, and writing it again later succeeds. The file is closed in every case.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every history of log and outcome calls over several suites, text with markup, control characters and unpaired surrogates, clock jumps, write failures and full disks, suites filled by different threads.",
    "The tests write one or two reports of plain text and compare substrings.",
    [J],
    [("report output", J + ":JunitTestReport.Output"), ("durations", J + ":JunitReportTestCase"), ("escaping", J + ":escape")],
    ["report file", "exceptions"],
    real=["JunitTestReport, JunitReportTestSuite, JunitReportTestCase"],
    stub=["file layer faults", "clocks (monotonic and wall, with jumps)", SIMTHREADS],
    rule="Up to three suites of up to three cases with generated actions; the report is parsed with an independent XML parser and compared with the recorded history.",
)
A = "edk2toollib/uefi/authenticated_variables_structure_support.py"
prop(
    "C16",
    "An authenticated variable is stamped and signed for exactly what it carries",
    "A finalized authenticated variable carries exactly the builder's time, the payload given last, the correct lengths and one signature per signer that was added since the payload last changed, each of which verifies over name, GUID, attributes, time and that payload with the requested hash, together with every certificate that was asked for; nothing is returned when nobody signed. A variable or time created without an explicit time carries the time of its creation. A payload that cannot be read or a signer that cannot be used is reported and leaves the builder as it was; writing and printing never change a variable and report failures, and reading back what was written yields the same variable or an error. Builders in different threads do not affect each other.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every history of payload changes, signings with one to several signers, hashes and certificates, finalizations, writes and reloads; unusable signers, failing and shrinking payload and output streams, clock jumps, several builders at once.",
    "The tests sign once with one signer and compare lengths or fixed blobs; no test verifies a signature or lets time pass.",
    [A, "edk2toollib/uefi/wincert.py"],
    [("builder", A + ":EfiVariableAuthentication2Builder"), ("variable", A + ":EfiVariableAuthentication2"), ("time stamps", A + ":EfiTime"), ("certificate data", "edk2toollib/uefi/wincert.py:WinCertUefiGuid")],
    ["encoded variable", "signatures verified with the public keys", "exceptions"],
    real=["EfiVariableAuthentication2Builder, EfiVariableAuthentication2, EfiTime, WinCert classes", "cryptography (signing and verification)"],
    stub=["payload and output streams (failing, shrinking, with foreign data around the object)", "wall clock", SIMTHREADS],
    rule="One to three builders with two to nine operations each; the encoded result is taken apart with an independent DER reader and every signature verified with the public key.",
    assume=["Three fixed RSA-2048 identities sign, with up to nine more certificates; other key types are not generated."],
)
prop(
    "C17",
    "Firmware structures are read back exactly as stored, or not at all",
    "Loading a firmware structure (signature data, lists and databases, certificates, times, authenticated variables, attributes, bitmaps, firmware policies, volume, file, fault-tolerant-write, variable-store and variable headers, capsule headers at every level, variable policies) from a stream or buffer yields exactly the structure that is stored there, with every field, and leaves the stream behind or at it as documented; one that is cut off, that the file loses while it is read or that cannot be read is refused, never returned in part. An object that is loaded again equals a new one, whatever it held before, also after a failed load. Writing it returns the bytes it was loaded from, failures to write or print are raised, and neither printing, writing nor computing the canonical form of a signature database changes anything; the canonical form and the duplicates together hold every entry once, sorted, and can be read back. Capsules, firmware policies, bitmaps and certificate data put together by calls hold exactly what the calls gave, a policy rule that is already there is not added again, and a capsule is said to be signed exactly if it is. Objects in different threads do not affect each other.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every generated structure at every stream position with every surrounding data, every history of loads, failed loads, reloads, writes and prints, every truncation, failing reads, seeks and writes, files that shrink while they are read, concurrent use.",
    "The tests load one fixture per structure from a healthy stream, once; no test reloads an object, cuts a structure at every byte, or lets a read or write fail.",
    [A, "edk2toollib/uefi/wincert.py", "edk2toollib/uefi/bmp_object.py", "edk2toollib/windows/policy/firmware_policy.py", "edk2toollib/uefi/uefi_capsule_header.py", "edk2toollib/uefi/fmp_capsule_header.py", "edk2toollib/uefi/fmp_auth_header.py", VS + "variable_policy.py", VS + "variable_format.py", VS + "ftw_working_block_format.py", "edk2toollib/uefi/pi_firmware_volume.py", "edk2toollib/uefi/pi_firmware_file.py"],
    [("signature lists and databases", A + ":EfiSignatureList"), ("canonical form", A + ":EfiSignatureDatabase.get_canonical_and_dupes"), ("bitmaps", "edk2toollib/uefi/bmp_object.py:BmpObject.PopulateFromFileStream"), ("firmware policies", "edk2toollib/windows/policy/firmware_policy.py:FirmwarePolicy.FromFileStream"), ("capsules", "edk2toollib/uefi/fmp_capsule_header.py:FmpCapsuleHeaderClass.Decode")],
    ["encoded bytes", "public attributes", "stream position", "exceptions"],
    real=["all structure classes named above", "buffered files over a real scratch directory"],
    stub=["binary streams (failing, shrinking, with foreign data around the structure)", "raw file layer", SIMTHREADS],
    rule="One to three objects of generated kinds with two to eight loads each, compared with independently laid-out bytes and fields; databases, policies, capsules and bitmaps are also put together call by call.",
    assume=["Layouts the library documents as unsupported (time zones and nanoseconds in EFI_TIME, image data inside the bitmap header) are not generated."],
)

BP = "edk2toollib/uefi/edk2/parsers/"
prop(
    "C18",
    "A build file is parsed completely and as it is now, or the parse fails",
    "Parsing a DSC, FDF, INF, DEC, target.txt, INF override or build report file with a new parser yields exactly what that file and the files it includes say at that moment - defines, sections, libraries, components and their overrides, modules, PCDs, declarations, sources, files and volumes, in file order and per architecture, without anything from inactive conditional branches - whatever was parsed before, whatever callers did with earlier results, and whatever other parsers do at the same time. Relative includes belong to the file that holds the line. If the file or an include that takes effect is missing, cannot be opened, read to its end or decoded, or FDF files include each other in a circle, the parse raises and the parser does not call itself parsed (a DSC parser in no-fail mode leaves out exactly that include); a new parser then gives the exact answer once the cause is gone. GUID lists of a directory tree hold every GUID of every .dec and .inf file that is not ignored, or the listing raises. No parse leaves a file open, changes a file or changes the input variables.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every generated set of files (sections, conditionals and macros spread over trees of includes found in four ways), every history of edits between parses (also ones that keep size and time), every file missing, unreadable, undecodable or failing at any read, several parsers at once.",
    "The tests parse one small healthy file per feature, once; no read ever fails, no file changes between parses, includes are at most two files deep.",
    [BP + "base_parser.py", BP + "dsc_parser.py", BP + "fdf_parser.py", BP + "inf_parser.py", BP + "dec_parser.py", BP + "targettxt_parser.py", BP + "override_parser.py", BP + "buildreport_parser.py", "edk2toollib/uefi/edk2/guid_list.py"],
    [("DSC files", BP + "dsc_parser.py:DscParser.ParseFile"), ("FDF files", BP + "fdf_parser.py:FdfParser.ParseFile"), ("INF files", BP + "inf_parser.py:InfParser.ParseFile"), ("DEC files", BP + "dec_parser.py:DecParser"), ("include lookup", BP + "base_parser.py:BaseParser.FindPath"), ("build reports", BP + "buildreport_parser.py:BuildReport.BasicParse"), ("GUID lists", "edk2toollib/uefi/edk2/guid_list.py:GuidList.guidlist_from_filesystem")],
    ["parser attributes", "exceptions", "open files", "file contents"],
    real=["all parsers named above, Edk2Path, GuidList, gitignore matching", "buffered and text file layers over a real scratch directory"],
    stub=["raw file layer and directory enumeration (faults, order)", SIMTHREADS],
    rule="One workspace per actor with two to six steps: generate or edit the files, harm one or arm a fault, parse, compare with what the generator put in, heal, parse again.",
    assume=["A parser object parses one file. Conditional expressions are drawn from thirty forms of known value; the expression evaluator in general is a pure function and not decided here. Circular DSC includes are not generated."],
)

prop(
    "C19",
    "An exported file or listing is complete and exact, or the export fails",
    "Exporting to text - a DSC data model with DscTranslator.dsc_to_file, a capsule INF with InfGenerator.MakeInf or InfFile, a parser's lines with WriteLinesToFile, binary data with hexdump, PrintByteList or export_c_type_array - either returns normally and the output then holds exactly what the object or data held at that moment: every section, entry, file, string, version and byte once and under its own header, nothing else, dated by the clock of the moment unless a date was set; or it raises. A failing open, write, close, output stream or input stream, and input that ends early, raise; exporting again once the cause is gone is exact. What cannot be rendered changes no existing file. No export leaves a file open, prints elsewhere, changes other files, its input or the exported object. Refused changes to an INF or DSC object leave it as it was. Exports running at the same time, also of one object, do not influence each other.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every history of additions and refused additions, every object content and data length, every failure of the files and streams, exports in any order over older exports, several threads.",
    "The tests export fixed objects once to a healthy disk and compare one golden text.",
    ["edk2toollib/uefi/edk2/build_objects/dsc_translator.py", "edk2toollib/uefi/edk2/build_objects/dsc.py", "edk2toollib/windows/capsule/inf_generator.py", "edk2toollib/windows/capsule/inf_generator2.py", BP + "base_parser.py", "edk2toollib/utility_functions.py"],
    [("DSC export", "edk2toollib/uefi/edk2/build_objects/dsc_translator.py:DscTranslator.dsc_to_file"), ("capsule INF", "edk2toollib/windows/capsule/inf_generator.py:InfGenerator.MakeInf"), ("capsule INF for several firmwares", "edk2toollib/windows/capsule/inf_generator2.py:InfFile"), ("parser lines", BP + "base_parser.py:BaseParser.WriteLinesToFile"), ("dumps", "edk2toollib/utility_functions.py:hexdump"), ("C arrays", "edk2toollib/utility_functions.py:export_c_type_array")],
    ["file contents", "output streams", "exceptions", "open files"],
    real=["all exporters and data models named above", "text and buffered file layers over a real scratch directory"],
    stub=["raw file layer (faults)", "text sink and binary source (faults, shrinking)", "wall clock", SIMTHREADS],
    rule="Per actor three to nine exports over three files: build or grow an object call by call (some calls refused), arm faults, export, read the text back with an independent reader, retry after a failure.",
    assume=["Values hold no line breaks or quotes. Firmware tags are unique within an INF, which has at least one firmware. The order of entries within a section and of sections is free."],
)

DP = "edk2toollib/uefi/device_path.py"
DM = "edk2toollib/acpi/dmar_parser.py"
IV = "edk2toollib/acpi/ivrs_parser.py"
prop(
    "C20",
    "ACPI tables and device paths are decoded exactly as laid out, or refused",
    "Decoding a DMAR table, an IVRS table or a UEFI device path ends within bounded steps and either raises (or exits) or yields exactly the structures, entries, scopes, nodes and field values that the bytes hold, in their order, whatever was done to the bytes on the way: cut at any byte, padded, torn between two versions, bits or length fields changed. A structure, entry, scope or node that does not fit into what contains it, a table whose length or (IVRS) checksum does not add up, and a node too short for its fields are never accepted; a DMAR table ends where its header says. A valid table or path is always accepted, nodes of unknown types included. Decoding an IVRS table again replaces everything an earlier decode, failed or not, left behind. Encoding an IVRS table returns the bytes it was decoded from, and after every added IVHD or IVMD entry its length and checksum are right. XML, text and dumps show exactly those values and change nothing; failures to write a dump are raised. CheckRMRRCount says yes only if the golden file lists every RMRR, and raises when that file exists but cannot be read. Nothing decoded earlier or at the same time by other threads has any influence.",
    ["inputs", "histories", "fault_sequences", "schedules"],
    "Every generated table and path, every damage to its bytes, every history of decodes, failed decodes, added entries and dumps, failing golden files and consoles, several threads.",
    "The tests decode one healthy sample per structure, once; none is cut, damaged, decoded into a used object or read by several threads.",
    [DM, IV, DP],
    [("DMAR tables", DM + ":DMARTable"), ("golden file check", DM + ":DMARTable.CheckRMRRCount"), ("IVRS tables", IV + ":IVRS_TABLE.Decode"), ("IVRS entries", IV + ":IVRS_TABLE.addIVHDEntry"), ("device paths", DP + ":DevicePathFactory.from_binary"), ("node header", DP + ":EfiDevicePathProtocol.decode")],
    ["public attributes", "encoded bytes", "XML elements", "printed text", "exceptions"],
    real=["DMARTable, IVRS_TABLE with all entry classes, DevicePathFactory with all node classes", "xml.etree over a real scratch directory"],
    stub=["the medium the bytes come from (cuts, padding, torn updates, bit and length damage)", "raw file layer under the golden file (faults)", "console (faults)", SIMTHREADS],
    rule="Two to seven generated tables or paths per actor; each may first be read damaged. Values are compared with independent readers of the same bytes.",
    assume=["Bytes the specifications reserve inside IVRS entries are zero when re-encoded bytes are compared. Node types the library does not decode are compared as raw payload."],
)

na(
    "N01",
    "TPM policy digests follow the policy tree",
    "The digest computed for a policy tree equals the value the TPM 2.0 specification defines for that tree: command codes and localities are folded in order from a zero digest, OR nodes hash the concatenated digests of their branches, and impossible trees are refused.",
    ["inputs"],
    "Every policy tree of any depth and every hash algorithm.",
    "The tests compare a few fixed trees.",
    ["edk2toollib/tpm/tpm2_policy_calc.py", "edk2toollib/tpm/tpm2_defs.py"],
    [("policy trees", "edk2toollib/tpm/tpm2_policy_calc.py:PolicyTreeOr.get_policy")],
    "A pure function of the tree: no schedule, clock, I/O, crash or shared state takes part, so a simulator has nothing to decide and no fault to inject.",
)
na(
    "N02",
    "GUIDs keep their value across textual forms",
    "Converting a GUID between registry form, C form and UUID objects keeps its value in every direction, and text that is not a GUID is refused in every direction.",
    ["inputs"],
    "Every GUID and every string.",
    "The tests convert a handful of GUIDs.",
    [BP + "guid_parser.py"],
    [("conversions", BP + "guid_parser.py:GuidParser")],
    "A pure function of one string: there is no time, I/O, concurrency or history for a simulated schedule or fault to act on.",
)
na(
    "N03",
    "Ignore patterns match what git would ignore",
    "A path below the base directory is reported as ignored exactly if git's pattern rules (anchoring, directory-only, negation, wildcards, escapes; the last matching pattern wins) ignore it.",
    ["inputs"],
    "Every list of patterns and every path.",
    "The tests cover a list of fixed pattern and path pairs.",
    ["edk2toollib/gitignore_parser.py"],
    [("patterns", "edk2toollib/gitignore_parser.py:rule_from_pattern"), ("precedence", "edk2toollib/gitignore_parser.py:handle_negation")],
    "Matching is a pure function of the patterns and the path; the listing that uses it under I/O faults is decided by C18.",
)
na(
    "N04",
    "Conditional expressions evaluate as the build specification says",
    "For every expression and every set of defined names, a conditional directive selects the branch the EDK II build specification prescribes (operators, precedence, comparisons of strings, numbers and undefined names).",
    ["inputs"],
    "Every expression over every assignment of names.",
    "The tests evaluate a list of fixed expressions.",
    [BP + "base_parser.py"],
    [("expressions", BP + "base_parser.py:BaseParser.EvaluateConditional")],
    "Evaluating an expression is a pure function of text and variables; that directives keep their effect across files, faults and histories is decided by C18.",
)
na(
    "N05",
    "Status codes are named correctly",
    "Every 32 and 64 bit UEFI status value is named as Appendix D of the UEFI specification names it, and other values are reported as undefined.",
    ["inputs"],
    "Every status value.",
    "The tests convert a few values.",
    ["edk2toollib/uefi/status_codes.py"],
    [("names", "edk2toollib/uefi/status_codes.py:UefiStatusCode.Convert64BitToString")],
    "A table lookup: no schedule, clock, I/O or state takes part.",
)
