_F = ["src/command/backup/backup.c", "src/command/backup/db.c.inc", "src/command/backup/complete.c.inc", "src/command/backup/process.c.inc", "src/db/db.c", "src/db/helper.c", "src/command/check/common.c"]
_H = "online.c"
P("C24", "An online backup is recorded only with consistent WAL, from the right server",
  "An online backup is listed only when the server's backup was started and stopped in the session that made it, every file was copied in between, and every WAL segment from its start to its stop position is in the archive (and in the backup with archive-copy). It records the server's start and stop positions and segment names, and holds the server's backup_label and tablespace_map exactly; the restored pg_control is one written after the start with its checkpoint made unusable so that the cluster cannot start without backup_label. Files removed, added, grown, truncated or rewritten while it runs, and a pg_control read while being written, do not make it fail, and each restored file is as it was at some moment of the backup. A backup from a standby copies replicated files from the standby only after it replayed and checkpointed past the start, and everything else from the primary, and fails when the standby is promoted, lags, or follows another primary. A server that is not the configured one (version, data directory, system, timeline) or does not archive as it should is refused before anything is copied.",
  ["inputs", "schedules", "histories", "configurations"],
  "all PostgreSQL versions, WAL positions including exact segment and 4 GiB boundaries, amounts of activity, moments at which archiving stops, concurrent changes, standby states and server defects from a set; the archiver and replay run interleaved with the backup",
  "Tests script the server's answers query by query for a few histories; no server model checks what is read when.",
  _F, [("wait for WAL", "backupArchiveCheckCopy"), ("server checks", "checkDbConfig"), ("standby replay", "dbReplayWait"), ("what is copied from where", "backupProcessFilePrimary"), ("pg_control", "pgControlBufferFromFile")],
  [R("versions", _H, "every PostgreSQL version, page checksums on or off, fast or regular start", entry="online", labels=["recorded", "done"]),
   R("wal", _H, "4 start positions, 4 amounts of activity, archiver working or stopping after 0..3 segments, archive-check on or off", entry="online", args={0: 1}, labels=["recorded", "failed", "done"]),
   R("changes", _H, "none or one of 7 concurrent changes, with or without a tablespace map", entry="online", args={0: 2}, labels=["recorded", "changed", "done"]),
   R("archive-copy", _H, "WAL across a 4 GiB boundary copied into plain or bundled backup, 1 MiB segments", entry="copy", labels=["done"], max_steps=1000000000),
   R("refuse", _H, "13 server defects, archive-check on or off", entry="refuse", labels=["made", "refused", "done"]),
   R("standby", _H, "backup from a standby in 10 states, either configuration order", entry="standby", labels=["recorded", "failed", "done"])],
  observe=["backup.info and manifest", "restored cluster", "files opened under the data directories and when", "server state", "exit status"])
P("C25", "The check command passes only when archiving works for every repository",
  "The check command succeeds exactly when the running server is the configured one (version, data directory, system identifier equal to the stanza's in archive.info and backup.info of every repository), archives as it should, and the WAL segment that was current when the command ran is switched and arrives in the archive of every repository within archive-timeout. It changes nothing in the cluster or in the backups of a repository.",
  ["inputs", "schedules", "configurations"],
  "16 server, archiver and repository defects at 4 WAL positions; every PostgreSQL version",
  "Tests script the server's answers and put the expected segment in place by hand.",
  ["src/command/check/check.c", "src/command/check/common.c", "src/db/db.c", "src/command/archive/find.c"], [("WAL switch", "dbWalSwitch"), ("wait for the segment", "walSegmentFindOne"), ("stanza against server", "checkStanzaInfo")],
  [R("defects", _H, "none or one of 16 defects, 4 WAL positions, two repositories", entry="check_", args={0: 1}, labels=["passed", "failed", "done"]),
   R("versions", _H, "every PostgreSQL version, 2 WAL positions", entry="check_", labels=["passed", "done"])],
  observe=["exit status", "cluster and repository byte for byte"])
