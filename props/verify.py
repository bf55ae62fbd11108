from registry import P, R

_H = "verify.c"
P("C27", "The verify command reports exactly what is damaged",
  "verify reports a backup as valid exactly if the cluster it describes can be restored from the repository with the contents it had: any one file of a backup with changed, missing or added bytes, emptied or removed makes every backup that needs it (also an incremental one that refers to it in a prior backup, whether plain, bundled or block incremental) invalid, and no other backup; the counts of valid WAL and the final status agree with what is in the repository. (The blocks a block incremental backup takes from a prior backup are checked with that prior backup; a file of zero bytes, which restore does not need, is not considered.) verify changes nothing in the repository and, except where the header of a WAL file is damaged, does not fail.",
  ["inputs", "histories", "configurations"],
  "each file of two backups and of the archive in turn, damaged in five ways, two compressions, three repository layouts, with and without --set",
  "Tests compare the report of some prepared repositories with text; that the report agrees with what restore can do is not checked.",
  ["src/command/verify/verify.c", "src/command/verify/file.c", "src/command/restore/restore.c", "src/info/manifest.c"],
  [("files of a backup", "verifyBackup, verifyProcess"), ("check of one file", "verifyFile"), ("WAL ranges", "verifyCreateArchiveIdRange, verifyAddInvalidWalFile"), ("report", "verifyRender")],
  [R("plain", _H, "full and incremental backup, each file damaged at its first or last byte, truncated by one byte, emptied, removed; restore of each backup decides", entry="verify_", args={8: 1, 9: 1, 1: 1}, labels=["backup damaged", "affected", "done"]),
   R("bundle", _H, "as above, bundled files", entry="verify_", args={8: 1, 9: 2, 1: 1}, labels=["backup damaged", "affected", "done"]),
   R("block", _H, "as above, block incremental", entry="verify_", args={8: 1, 9: 3, 1: 1}, labels=["backup damaged", "affected", "done"]),
   R("set", _H, "as the first with --set of either backup", entry="verify_", args={0: 1, 8: 1, 9: 1, 1: 1}, labels=["backup damaged", "affected", "done"]),
   R("set-bundle", _H, "as above, bundled files", entry="verify_", args={0: 1, 8: 1, 9: 2, 1: 1}, labels=["backup damaged", "affected", "done"]),
   R("wal", _H, "archive with two or three segments, in order, with a gap, two timelines or a duplicate; each file damaged as above", entry="verify_", args={2: 1, 8: 1, 9: 1, 1: 1}, labels=["wal damaged", "done"]),
   R("gz", _H, "gz compression, three layouts, damage at five offsets", entry="verify_", args={8: 2}, labels=["backup damaged", "affected", "done"], thorough_only=True)],
  observe=["report", "exit status", "repository"])
