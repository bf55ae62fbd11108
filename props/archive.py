P("C01", "archive-push never replaces an archived segment and success means durable",
  "When archive-push of a file reports success, every configured repository durably holds a file named by the segment and the checksum of its content, with exactly the source's bytes, even if power is lost immediately afterwards. A repository that already holds the segment with different content makes the push fail and keeps its file unchanged with no second file for the segment, an identical one is accepted, and an error on one repository neither is reported as success nor prevents the other repositories from receiving the file. A crash or I/O error at any point never leaves an incomplete file visible under a segment name, and a later push completes.",
  ["inputs", "crash_points", "fault_sequences", "configurations"],
  "all segment contents, all prior contents of two repositories, a crash or one I/O error before any mutating file operation, every combination of surviving unsynced writes",
  "The unit tests push a few fixed files with fixed prior states and never cut power between two system calls.",
  ["src/command/archive/push/file.c", "src/command/archive/find.c", "src/storage/posix/write.c", "src/storage/posix/storage.c"],
  [("checksum comparison with the archived segment before copying", "archivePushFile"), ("temporary file, fsync, rename, directory fsync", "storageWritePosixClose")],
  [R("any-content", "archive_push.c", "2-byte segment, any bytes; each of two repositories empty, holding the same or any other 2-byte segment; no fault", args=[0, 2, 0], labels=["success", "error", "differ"], thorough=[0, 8, 0]),
   R("partial", "archive_push.c", "as any-content for a .partial segment with the full segment as neighbour", args=[0, 2, 1], labels=["success", "error", "differ"]),
   R("crash", "archive_push.c", "crash before any mutating operation, each unsynced entry and file surviving or not; repositories empty or holding the segment", args=[1, 2, 0], labels=["crashed", "success", "error"]),
   R("io-error", "archive_push.c", "ENOSPC at any one mutating operation, then a retry and power loss", args=[2, 2, 0], labels=["fault", "success", "error"]),
   R("kill", "archive_push.c", "killed before any mutating operation, then a retry and power loss", args=[3, 2, 0], labels=["killed", "success", "error"]),
   R("new-directory", "archive_push.c", "crash or kill when the directory of the segment does not exist yet", args=[1, 2, 0, 1], labels=["crashed", "success", "error"])],
  observe=["exit status of archive-push", "files below archive/<stanza>/<archive-id> in each repository"])
P("C02", "async archive-push acknowledges a segment only when archived or dropped",
  "The asynchronous archive-push process writes a success status for a WAL segment only when the segment is durably stored in the repository or is being dropped because archive-push-queue-max is exceeded (then with a warning and without storing it), pushes exactly the segments PostgreSQL marked ready that have no success status yet, removes the status of segments PostgreSQL is not waiting for, keeps valid acknowledgements, and leaves an error status for a segment that failed. The foreground command reports success only when the segment it was asked for has a success status, reports the error of a segment or global error status left by the process it started, times out otherwise, and clears old errors before starting a process; at most one process is started per command.",
  ["inputs", "interleavings", "crash_points", "histories"],
  "all ready/done and prior status combinations of up to three segments, all conflicting repository contents, one or two workers in any completion order, queue limits, crash before any mutating operation; for the foreground command all status transitions of the worker and a competing lock holder",
  "Unit tests replay a handful of fixed queues with a single completion order and no crash.",
  ["src/command/archive/push/push.c", "src/command/archive/common.c", "src/protocol/parallel.c", "src/command/archive/push/protocol.c", "src/command/archive/push/file.c"],
  [("status files written per job result", "cmdArchivePushAsync"), ("status files interpreted", "archiveAsyncStatus"), ("queue limit", "archivePushDrop")],
  [R("one-worker", "archive_async.c", "3 segments, 1 worker", entry="async_", args=[3, 1, 0, 0], labels=["pushed", "error"], thorough=[4, 1, 0, 0]),
   R("two-workers", "archive_async.c", "3 segments, 2 workers, any completion order", entry="async_", args=[3, 2, 0, 0], labels=["pushed", "error"]),
   R("queue-max", "archive_async.c", "3 segments, 1 worker, archive-push-queue-max of 0 to 3.5 segments", entry="async_", args=[3, 1, 1, 0], labels=["pushed", "error", "dropped"]),
   R("crash", "archive_async.c", "2 segments, 1 worker, crash before any mutating operation, each unsynced change surviving or not", entry="async_", args=[2, 1, 0, 1], labels=["pushed", "crashed"]),
   R("foreground", "archive_async.c", "one segment; any prior status, worker outcome, worker delay, competing process", entry="foreground", labels=["success", "failure", "segment-error", "global-error"])],
  observe=["status files in the spool", "files in the repository", "exit status of the foreground command"])
P("C03", "archive-push refuses WAL of another cluster",
  "archive-push stores a WAL segment only when the PostgreSQL version and system identifier agree between the archive.info of every configured repository, pg_control of the cluster (when pg-path is configured) and, unless archive-header-check is disabled, the header of the segment itself. Any disagreement makes the command fail, and the segment is not stored in a repository that belongs to another cluster; when everything agrees the push succeeds.",
  ["inputs", "configurations"],
  "every 64-bit system identifier and supported WAL version in the segment header, two repositories matching, of another system, of another version or without a stanza, pg_control matching, of another system or another version, or unavailable",
  "Tests use one mismatching identifier per case.",
  ["src/command/archive/push/push.c", "src/command/archive/push/file.c", "src/postgres/interface.c", "src/info/infoArchive.c"],
  [("repository and pg_control compared", "archivePushCheck"), ("segment header compared", "archivePushFile")],
  [R("identity", "archive_identity.c", "two repositories, all combinations", labels=["accepted", "rejected"])],
  observe=["exit status", "files in each repository"])
P("C04", "archive-get delivers exactly the archived file of this cluster",
  "archive-get exits 0 only after writing to the destination the file archived under the requested name in an archive whose PostgreSQL version and system identifier match the cluster's pg_control. If repositories or archive ids of the cluster hold segments with different checksums for the name, the command fails with a duplicate error; identical ones are not duplicates. It reports the file as missing (exit 1) only when at least one usable repository was searched and no archive of the cluster holds it; with no usable repository, or when pg_control comes from a restored backup whose backup_label is gone, it fails. A repository that cannot be used or read does not prevent delivery from another one.",
  ["inputs", "configurations", "fault_sequences"],
  "all combinations of repository state (no stanza, current or earlier archive id matching, other clusters), archive contents (absent, one or several checksums differing in any one of the 40 positions), archive ids of different lengths, control file states, one failing read anywhere",
  "Tests use one arrangement per branch with archive ids of equal length and checksums that differ everywhere.",
  ["src/command/archive/get/get.c", "src/command/archive/get/file.c", "src/command/archive/common.c"],
  [("candidates collected over repositories and archive ids, duplicate check", "archiveGetFind"), ("usable archive ids", "archiveGetCheck"), ("copy with fallback", "archiveGetFile")],
  [R("segment", "archive_get.c", "two repositories, one segment request", entry="single", args=[0, 0, 0], labels=["found", "not-found", "error", "duplicate"]),
   R("partial", "archive_get.c", "as segment for a .partial request", entry="single", args=[1, 0, 0], labels=["found", "not-found", "error", "duplicate"]),
   R("history", "archive_get.c", "as segment for a timeline history file", entry="single", args=[2, 0, 0], labels=["found", "not-found", "error"]),
   R("checksum-position", "archive_get.c", "checksums differing in any one of 40 positions", entry="single", args=[0, 1, 0], labels=["found", "not-found", "duplicate"]),
   R("read-error", "archive_get.c", "EIO at any one reading operation", entry="single", args=[0, 0, 1], labels=["found", "not-found", "error"])],
  observe=["exit status of archive-get", "the destination file"])
P("C05", "async archive-get queues only complete, correct segments and reports honestly",
  "The asynchronous archive-get process places a segment in the spool queue under its name only when complete and identical to the archived one, in any order of worker completion and even if it is killed at any point; it queues every archived segment requested before the first that is missing or ambiguous, none after it, and writes a missing status only for a segment no repository holds and an error status for one that failed or is ambiguous. The foreground command exits 0 only with the segment moved to the destination, reports a segment missing only after the process or a direct look established it (an old status is not trusted when archive-missing-retry is set), passes on errors of the process it started, falls back to a direct get when a foreign process holds the lock, never starts two processes, and removes from the queue what is not wanted next.",
  ["inputs", "interleavings", "crash_points", "histories"],
  "up to three segments each missing, in one or both repositories, ambiguous or unreadable, one or two workers in any completion order, kill at any mutating operation; foreground with every prior queue state, process outcome, delay and lock holder",
  "Tests fix one queue and one order of completion.",
  ["src/command/archive/get/get.c", "src/command/archive/get/protocol.c", "src/command/archive/get/file.c", "src/command/archive/common.c", "src/command/lock.c"],
  [("queue filled", "cmdArchiveGetAsync"), ("queue cleaned", "queueNeed"), ("foreground loop", "cmdArchiveGet")],
  [R("one-worker", "archive_get.c", "3 segments, 1 worker", entry="async_", args=[3, 1, 0], labels=["queued", "missing", "duplicate", "unreadable"]),
   R("two-workers", "archive_get.c", "2 segments, 2 workers, any completion order", entry="async_", args=[2, 2, 0], labels=["queued", "missing", "duplicate", "unreadable"], thorough=[3, 2, 0]),
   R("kill", "archive_get.c", "2 segments, 1 worker, killed before any mutating operation", entry="async_", args=[2, 1, 1], labels=["queued", "killed"]),
   R("foreground", "archive_get.c", "one segment; all prior states, process outcomes, delays, lock holders", entry="foreground", labels=["found", "missing", "error", "started", "segment-error", "global-error"])],
  observe=["spool queue", "exit status", "destination file"])
