_F = ["src/command/expire/expire.c", "src/info/infoBackup.c", "src/info/infoArchive.c", "src/command/backup/common.c", "src/command/archive/common.c"]
_H = "expire.c"
P("C09", "Expire removes exactly the backups retention selects, never one still needed",
  "expire removes exactly the backups selected by the options: for count retention the full backups older than the newest repo-retention-full ones, for time retention those full backups for which a newer full backup exists that is itself older than the given number of days, then the differential backups older than the newest repo-retention-diff ones, with --set the named backup, with --oldest the oldest full backup; always together with every backup that depends on a removed one, and nothing when no retention is set. A backup that is kept loses no file, and neither does any backup it depends on. --set refuses to remove the only (newest) full backup of the current cluster. backup.info lists exactly the backups kept; backup directories that backup.info does not list are removed unless they hold a newer resumable backup. --dry-run changes nothing. Killed or failing at any point, expire leaves no backup that still has its manifest but lost data or a backup it depends on, and completes when run again. History manifests in a repository are removed only when older than repo-retention-history days and their backup set is expired.",
  ["inputs", "histories", "crash_points", "fault_sequences", "configurations"],
  "all sequences of full, differential and incremental backups up to the bound, all retention options, any current time, kill or EIO at every mutating operation",
  "Tests check a handful of backup sequences and retention settings and never interrupt expire.",
  _F, [("retention by count and time", "expireFullBackup"), ("dependent backups", "expireBackup"), ("history manifests", "removeExpiredHistory"), ("backup.info saved before removal", "cmdExpire")],
  [R("count", _H, "3 backups of any type, retention-full 0..3, retention-diff 0..2, archive retention of any type 0..2", args={0: 0, 1: 3}, thorough={0: 0, 1: 4}, labels=["done", "backup-expired", "wal-expired"]),
   R("time", _H, "3 backups, 1 or 2 days, any time within 30 days", args={0: 1, 1: 3}, thorough={0: 1, 1: 4}, labels=["done", "backup-expired"]),
   R("set", _H, "3 backups, --set any of them or one that does not exist", args={0: 2, 1: 3}, thorough={0: 2, 1: 4}, labels=["done", "backup-expired", "refused"]),
   R("dry-run", _H, "2 backups, --dry-run", args={0: 3, 1: 2}, labels=["done"], thorough={0: 3, 1: 3}),
   R("oldest", _H, "3 backups, --oldest", args={0: 4, 1: 3}, labels=["done", "backup-expired"], thorough={0: 4, 1: 4}),
   R("kill", _H, "3 backups, retention-full 1, killed at any mutating operation, then run again", args={0: 0, 1: 3, 2: 1}, labels=["done", "crashed"], thorough={0: 0, 1: 4, 2: 1}),
   R("io-error", _H, "3 backups, retention-full 1, EIO at any mutating operation, then run again", args={0: 0, 1: 3, 2: 2}, labels=["done", "fault"], thorough={0: 0, 1: 4, 2: 2}),
   R("set-kill", _H, "3 backups, --set, killed at any mutating operation", args={0: 2, 1: 3, 2: 1}, labels=["done", "crashed"]),
   R("other-directories", _H, "2 backups and a resumable or orphaned backup directory", args={0: 0, 1: 2, 7: 1}, labels=["done"], thorough={0: 0, 1: 3, 7: 1}),
   R("history", _H, "6 history manifests in two repositories across a year boundary, retention-history unset, 0, 1, 4, 30, three current times", entry="history", labels=["done", "history-expired"]),
   R("set-upgrade", _H, "3 backups across a stanza upgrade, --set", args={0: 2, 1: 3, 5: 1}, labels=["done", "refused"], thorough_only=True),
   R("time-kill", _H, "2 backups, time retention, killed at any mutating operation", args={0: 1, 1: 2, 2: 1}, labels=["done", "crashed"], thorough_only=True)],
  observe=["backup directories", "backup.info byte for byte", "backup.history", "exit status"])
P("C10", "Expire keeps all WAL a remaining backup needs",
  "expire never removes a WAL segment that lies between the archive start and stop of a backup that is kept, and keeps every segment from the start of the oldest backup selected by repo-retention-archive (counted in backups of repo-retention-archive-type, by default as many as full backups are kept) onward; it removes the older segments, an archive id older than the current one that no remaining backup uses, and timeline history files older than the oldest timeline kept, and nothing else: nothing at all when archive retention cannot be satisfied, is not set or the backup selected has no archive start. The rule is applied per archive id across stanza upgrades and also across timeline switches and directory boundaries of the archive. With --archive-expire-before additionally no segment from the given one on is removed. archive.info is never removed. Killed or failing at any point it has removed no WAL that a still usable backup needs.",
  ["inputs", "histories", "crash_points", "fault_sequences", "configurations"],
  "all sequences of backups up to the bound, all archive retention options, upgrades and timeline switches at several positions, kill or EIO at every mutating operation",
  "Tests check a handful of archive arrangements.",
  _F, [("archive ranges kept", "removeExpiredArchive"), ("major path removal", "removeExpiredArchive")],
  [R("crossing", _H, "2 backups, the WAL of the first one crosses a directory boundary", args={0: 0, 1: 2, 8: 1}, thorough={0: 0, 1: 3, 8: 1}, labels=["done", "wal-expired"]),
   R("timeline", _H, "2 backups, a timeline switch before, between or after them", args={0: 0, 1: 2, 3: 1}, thorough={0: 0, 1: 3, 3: 1}, labels=["done", "wal-expired"]),
   R("upgrade", _H, "2 backups across a stanza upgrade", args={0: 0, 1: 2, 5: 1}, thorough={0: 0, 1: 3, 5: 1}, labels=["done", "wal-expired"]),
   R("incremental-on-full", _H, "3 backups with incrementals directly on the full backup", args={0: 0, 1: 3, 4: 1}, thorough={0: 0, 1: 4, 4: 1}, labels=["done", "wal-expired"]),
   R("offline", _H, "2 backups, one of them possibly offline (no WAL range)", args={0: 0, 1: 2, 6: 1, 8: 2}, thorough={0: 0, 1: 3, 6: 1, 8: 2}, labels=["done", "wal-expired"]),
   R("expire-before", _H, "2 backups, --archive-expire-before any segment", args={0: 5, 1: 2, 8: 1}, thorough={0: 5, 1: 3, 8: 1}, labels=["done", "wal-expired"]),
   R("expire-before-upgrade", _H, "as before across a stanza upgrade", args={0: 5, 1: 2, 5: 1}, labels=["done", "wal-expired"]),
   R("kill", _H, "3 backups, retention-full 1, killed at any mutating operation", args={0: 0, 1: 3, 2: 1}, labels=["done", "crashed"]),
   R("time-upgrade", _H, "2 backups across a stanza upgrade, time retention", args={0: 1, 1: 2, 5: 1}, labels=["done", "wal-expired"], thorough={0: 1, 1: 3, 5: 1})],
  observe=["WAL segments and history files of every archive id"])
