_F = ["src/command/backup/backup.c", "src/command/backup/process.c.inc", "src/command/backup/file.c.inc", "src/command/restore/restore.c", "src/command/restore/file.c.inc", "src/command/restore/process.c.inc", "src/info/manifest/manifest.c", "src/info/infoBackup.c"]
_H = "cycle.c"
P("C11", "A backup is listed only when complete and durable; interruption loses nothing",
  "A backup listed in backup.info can be restored: all of its files (bundled and block incremental ones included), its manifest and every backup it depends on are complete and have reached the disk before it is listed. When the machine loses power, the backup is killed, or the repository runs out of space, at any point of a backup, every backup made before stays listed and restores to the same cluster as before, and the interrupted backup is either not listed or completely restorable. Running backup again after the interruption (resuming what was left behind or not, with the same or another compression and layout, even when files of the cluster changed meanwhile) succeeds and gives a backup that restores exactly the cluster as it then is, with a label higher than any before.",
  ["crash_points", "fault_sequences", "inputs", "histories"],
  "power loss (with any bounded loss of unsynced writes), kill or ENOSPC at every mutating operation of a full or incremental backup, then a new backup of the possibly changed cluster and a restore",
  "Tests never lose power or fail a write in the middle of a backup, and resume is tested with a few hand-made directories.",
  _F, [("sync order before backup.info", "backupComplete"), ("resume of partial backups", "backupResume"), ("bundle path sync", "backupProcess"), ("ascending labels", "backupLabelCreate")],
  [R("power-loss", _H, "full backup, plain layout, uncompressed, power loss at any of 400 operations", entry="interrupt", args={2: 400, 8: 1, 9: 1}, thorough={2: 400, 8: 1, 9: 1, 3: 4}, labels=["crashed", "advertised", "repeated", "done"]),
   R("power-loss-block", _H, "full backup, block incremental in bundles, gz, power loss at any of 400 operations", entry="interrupt", args={2: 400, 8: 2, 9: 3}, thorough={2: 400, 8: 2, 9: 3, 3: 4}, labels=["crashed", "advertised", "repeated", "done"]),
   R("power-loss-incr", _H, "incremental backup, plain layout, gz, power loss at any of 400 operations", entry="interrupt", args={2: 400, 8: 2, 9: 1, 1: 1}, thorough={2: 400, 8: 2, 9: 1, 1: 1, 3: 4}, labels=["crashed", "advertised", "repeated", "done"], thorough_only=True),
   R("no-space", _H, "full backup, plain layout, gz, ENOSPC at any of 400 operations", entry="interrupt", args={0: 1, 2: 400, 8: 2, 9: 1}, labels=["fault", "repeated", "done"]),
   R("no-space-incr", _H, "incremental backup, block incremental, ENOSPC at any of 400 operations", entry="interrupt", args={0: 1, 2: 400, 8: 2, 9: 3, 1: 1}, labels=["fault", "repeated", "done"]),
   R("kill", _H, "full backup, block incremental, the manifest saved after every file, killed at any of 400 operations, then resumed and power loss", entry="interrupt", args={0: 2, 2: 400, 4: 1, 8: 2, 9: 3}, labels=["crashed", "repeated", "done"]),
   R("resume", _H, "full backup, plain layout, the manifest saved after every file, ENOSPC at any of 400 operations, then resumed and power loss", entry="interrupt", args={0: 1, 2: 400, 4: 1, 8: 1, 9: 1}, thorough={0: 1, 2: 400, 4: 1, 8: 1, 9: 1, 3: 4}, labels=["fault", "repeated", "done"]),
   R("resume-options", _H, "as resume, the backup run again with any other compression and layout", entry="interrupt", args={0: 1, 2: 400, 4: 1, 5: 1, 8: 1, 9: 1}, labels=["fault", "repeated", "done"]),
   R("resume-options-block", _H, "as resume-options with block incremental and a low bundle limit before and after", entry="interrupt", args={0: 1, 2: 400, 4: 2, 5: 2, 8: 2, 9: 3}, labels=["fault", "repeated", "done"], thorough_only=True),
   R("resume-options-bundle", _H, "as resume-options with bundles before", entry="interrupt", args={0: 1, 2: 400, 4: 2, 5: 1, 8: 1, 9: 2}, labels=["fault", "repeated", "done"], thorough_only=True),
   R("power-loss-bundle-incr", _H, "incremental backup, bundled, power loss at any of 400 operations", entry="interrupt", args={2: 400, 8: 1, 9: 2, 1: 1}, labels=["crashed", "advertised", "repeated", "done"]),
   R("power-loss-block-incr", _H, "incremental backup, block incremental, power loss at any of 400 operations", entry="interrupt", args={2: 400, 8: 2, 9: 3, 1: 1}, labels=["crashed", "advertised", "repeated", "done"], thorough_only=True)],
  observe=["backup.info", "restored cluster byte for byte", "labels", "exit status"])
P("C12", "Restore returns exactly the cluster that was backed up, or fails",
  "Restoring a full, differential or incremental backup made with any compression and layout (plain, hard-linked, bundled, block incremental; also when the backups of a set were made with different ones) into an empty directory, or with --delta/--force over a cluster in any state, gives exactly the files, directories, contents, sizes, modes and links the cluster had when it was backed up (other than those a backup never holds), and no other ones. Every change made to the cluster between backups (files grown, shrunk, removed, added, emptied, changed back) appears in the later backup and not in the earlier one. When a file of the repository has been damaged in any way, restore fails or still gives exactly the original cluster: damaged content is never put into a cluster without an error.",
  ["inputs", "histories", "configurations"],
  "all combinations of changes between backups from a set, page counts and contents of a block incremental file, all states of a damaged cluster from a set, damage to any byte position sampled per repository file with any value",
  "Tests restore a handful of fixed clusters.",
  _F + ["src/command/backup/blockIncr.c", "src/command/backup/blockMap.c", "src/command/restore/blockDelta.c", "src/command/restore/blockChecksum.c", "src/common/encode.c"],
  [("block incremental", "blockIncrNew"), ("block delta restore", "blockDeltaNext"), ("reference to prior backups", "manifestBuildIncr"), ("delta restore", "restoreFile"), ("cleanup of the destination", "restoreCleanBuild")],
  [R("full", _H, "full backup, any compression of two and any layout, restored into an empty directory", entry="cycle", labels=["done"]),
   R("delta", _H, "full backup restored with --delta or --force over a damaged cluster", entry="cycle", args={1: 1}, labels=["done"]),
   R("incr", _H, "an incremental backup after any of a set of changes", entry="cycle", args={0: 1}, thorough={0: 2}, labels=["done"]),
   R("incr-delta", _H, "as before restored over a damaged cluster", entry="cycle", args={0: 2, 1: 1}, labels=["done"], thorough_only=True),
   R("block", _H, "two block incremental backups of a file of any 1..3 pages with any pages changed, grown or shrunk", entry="chain", args={5: 3, 8: 2, 9: 3}, thorough={5: 4, 8: 2, 9: 3, 2: 1}, labels=["done"]),
   R("block-cut", _H, "as before with a file ending in a partial page", entry="chain", args={5: 2, 8: 1, 9: 3, 3: 100}, thorough={5: 3, 8: 1, 9: 3, 3: 100, 4: 1}, labels=["done"]),
   R("mixed", _H, "an incremental backup with another layout and compression than the full backup, both restored", entry="mixed", args={0: 1, 1: 3, 4: 1, 8: 1, 9: 1}, thorough={0: 2, 1: 2, 2: 1, 8: 2, 9: 1}, labels=["done"]),
   R("mixed-diff", _H, "as mixed with differential backups, more changes and --delta", entry="mixed", args={0: 1, 1: 6, 2: 1, 3: 1, 8: 2, 9: 1}, thorough={0: 2, 1: 3, 3: 1, 8: 2, 9: 1}, labels=["done"], thorough_only=True),
   R("corrupt", _H, "full backup, one byte of any repository file changed", entry="corrupt", labels=["refused", "unaffected", "done"]),
   R("corrupt-incr", _H, "incremental backup, one byte of any repository file changed", entry="corrupt", args={0: 1}, labels=["refused", "unaffected", "done"]),
   R("corrupt-delta", _H, "as corrupt, delta restore over a cluster", entry="corrupt", args={1: 1}, labels=["refused", "unaffected", "done"])],
  observe=["restored cluster byte for byte", "exit status"])
P("C13", "An interrupted restore never leaves a cluster that starts incomplete",
  "When the machine loses power, the restore is killed or the disk is full at any point of a restore (into an empty directory or with --delta over a cluster), the destination holds pg_control (so that PostgreSQL could be started) only when every file of the backup has been restored completely and has reached the disk, and running the restore again with --delta completes it to exactly the cluster backed up, which then survives a power loss.",
  ["crash_points", "fault_sequences", "inputs"],
  "power loss (with any bounded loss of unsynced writes), kill or ENOSPC at every mutating operation of a restore, then a new restore",
  "Tests never interrupt a restore.",
  _F, [("pg_control restored last", "cmdRestore"), ("sync before pg_control", "cmdRestore"), ("delta restore", "restoreFile")],
  [R("power-loss", _H, "full restore, plain layout, power loss at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 1, 9: 1}, labels=["crashed", "startable", "repeated", "done"]),
   R("power-loss-delta", _H, "delta restore, block incremental, power loss at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 2, 9: 3, 1: 4}, labels=["crashed", "startable", "repeated", "done"]),
   R("no-space-delta", _H, "delta restore, plain layout, ENOSPC at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 1, 9: 1, 0: 1, 1: 4}, labels=["fault", "repeated", "done"]),
   R("no-space", _H, "full restore, ENOSPC at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 2, 9: 3, 0: 1}, labels=["fault", "repeated", "done"]),
   R("kill-delta", _H, "delta restore, plain layout, killed at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 1, 9: 1, 0: 2, 1: 4}, labels=["crashed", "repeated", "done"]),
   R("power-loss-bundle", _H, "delta restore, bundled, power loss at any of 300 operations", entry="restoreInterrupt", args={2: 300, 8: 2, 9: 2, 1: 4}, labels=["crashed", "startable", "repeated", "done"], thorough_only=True)],
  observe=["destination after the interruption", "destination after the second restore"])
P("C14", "Restore puts tablespaces and links where options say, touches nothing else",
  "Restore puts every tablespace and linked file or directory where the backup had it, or where --tablespace-map, --tablespace-map-all, --link-map say (without --link-all linked content is restored inside the data directory), with symbolic links pointing there and contents exactly as backed up. Nothing outside the data directory and the directories so designated is created, changed or removed, also with --delta over an existing cluster whose links point elsewhere.",
  ["inputs", "configurations"],
  "all combinations of the mapping options over a cluster with a tablespace, a linked directory and a linked file",
  "Tests check a few combinations of the mapping options.",
  _F, [("tablespace mapping", "restoreManifestMap"), ("cleanup of the destination", "restoreCleanBuild")],
  [R("empty", _H, "all option combinations, empty destination", entry="links", labels=["done"]),
   R("existing", _H, "all option combinations, --delta over an existing cluster", entry="links", args={0: 1}, labels=["done"])],
  observe=["whole filesystem byte for byte"])
