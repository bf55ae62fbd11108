P("C17", "Restore picks the backup that leads to the target, and only such a backup",
  "Without a target, restore takes the newest backup of the first repository that has one (and refuses to go back to an older cluster version by itself). With a target time or LSN it takes the newest backup that ended before (time) or not after (LSN) the target in the first repository that has such a backup; with --set exactly that one. Repositories whose backup.info is damaged or missing are passed over. When there is no such backup, it fails and restores nothing. A target timeline is accepted exactly when it is the timeline of the backup or its history contains the timeline of the backup up to a point after the backup started.",
  ["inputs", "histories"],
  "two repositories with up to three and two backups, any target LSN of a 4GiB range, any target second around the stop times in several time zones, with --set, --repo, damaged backup.info, upgraded clusters, backups without LSN; every combination of three history files, their parents and fork points, and of target timeline option",
  "Tests cover chosen combinations.",
  ["src/command/restore/select.c.inc", "src/command/restore/timeline.c", "src/command/restore/restore.c", "src/common/time.c", "src/postgres/interface.c"],
  [("backup set selection", "cmdRestore"), ("timeline", "timelineVerify")],
  [R("choose", "recovery.c", "two repositories with up to 3 and 2 backups, every target", entry="choose", labels=["repo1", "repo2", "none", "done"]),
   R("damaged", "recovery.c", "as above, backup.info of repo1 damaged or missing", entry="choose", args={0: 1}, labels=["repo2", "none", "done"]),
   R("upgrade", "recovery.c", "as above, the first backups belong to an older cluster version (up to one backup in repo2 in the quick tier)", entry="choose", args={0: 2}, thorough={0: 2, 1: 1}, labels=["repo1", "repo2", "prior", "none", "done"]),
   R("no-lsn", "recovery.c", "as above, one backup has no LSN (up to one backup in repo2 in the quick tier)", entry="choose", args={0: 3}, thorough={0: 3, 1: 1}, labels=["repo1", "repo2", "none", "done"]),
   R("timeline", "recovery.c", "three history files, one with any of four fork points and any parents (all of them in the thorough tier)", entry="timeline", thorough={1: 1}, labels=["restored", "refused", "done"]),
   R("timeline-comments", "recovery.c", "as above, comments and empty lines in the history files", entry="timeline", args={0: 1}, thorough_only=True, labels=["restored", "refused", "done"])],
  observe=["files restored", "error type"])
P("C18", "Restored clusters get exactly the recovery settings asked for",
  "After a restore the data directory has exactly the signal files or recovery.conf that belong to the recovery type and the PostgreSQL version, with exactly the settings that were asked for (target, action, inclusive, timeline, archive mode, restore_command, recovery options), an earlier recovery target in the backed up postgresql.auto.conf is disabled and every other setting is kept, type=preserve leaves the settings alone, stale signal files of an earlier cluster never survive any other type, and type=none or an offline backup without a type gives no recovery. pg_control is put in place last, with the checkpoint made unusable for an online backup. Settings that contradict each other or the version are refused before a startable cluster exists.",
  ["inputs"],
  "every recovery type with every target action, timeline, archive mode and recovery option (at most one of them at once in the quick tier), PostgreSQL 11 and 13, online and offline backup, three postgresql.auto.conf contents, with and without earlier files in the data directory",
  "Tests cover chosen combinations.",
  ["src/command/restore/config.c.inc", "src/command/restore/restore.c", "src/command/restore/config.c.inc", "src/postgres/interface.c", "src/config/exec.c"],
  [("recovery settings", "cmdRestore"), ("pg_control", "pgControlCheckpointInvalidate"), ("restore_command", "cfgExecParam")],
  [R("settings", "recovery.c", "into an empty data directory", entry="settings", thorough={1: 1}, labels=["settings", "preserved", "refused", "done"]),
   R("settings-delta", "recovery.c", "over files of an earlier cluster (--delta)", entry="settings", args={0: 1}, thorough={0: 1, 1: 1}, labels=["settings", "preserved", "refused", "done"])],
  observe=["files of the data directory"])
