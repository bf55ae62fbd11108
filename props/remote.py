_H = "remote.c"
P("C26", "A repository or cluster on another host gives the same results as a local one",
  "With the repository or the cluster on another host, archive-push, archive-get, backup and restore do exactly what they do when it is local: the same files with the same contents, modes and names (also with spaces and quotes) are stored, the same cluster is restored, the configuration the other host needs reaches it unchanged, and commands refused locally are refused. When the connection is lost at any request, the other host runs out of space, or an operation on either host fails, the command fails with an error (or has already done all of its work), never reporting success or a missing segment wrongly, never using memory that was freed, and leaving nothing that can be taken for a complete segment, backup or cluster; it can then be repeated with success.",
  ["inputs", "crash_points", "fault_schedules", "configurations"],
  "any content of a segment bytes sample, prior states of the archive, compression, repository layouts; connection lost at any of the requests; ENOSPC or EIO at any operation of either host",
  "Tests exchange prepared messages with a mock of one side; the two real sides with every fault between them are never run against the local result.",
  ["src/protocol/client.c", "src/protocol/server.c", "src/protocol/helper.c", "src/protocol/parallel.c", "src/storage/remote", "src/command/remote/remote.c", "src/command/local/local.c", "src/config/protocol.c", "src/config/exec.c", "src/common/memContext.c"],
  [("requests and answers", "protocolClientRequestInternal, protocolServerProcess"), ("errors of the other side", "protocolClientError, protocolClientSessionFreeResource"), ("file protocol", "storageRemoteReadNew, storageWriteRemote, storageRemoteList"), ("configuration of the other side", "protocolRemoteParamSsh, cfgExecParam")],
  [R("archive", _H, "archive-push and archive-get, 2 symbolic bytes in a segment of 20000, archive empty, holding the segment or another one, 2 compressions, stanza missing or not", entry="archive", labels=["no stanza", "pushed", "refused", "read"]),
   R("push-lost", _H, "connection lost at any of 14 requests of archive-push", entry="archive", args={0: 1, 1: 1}, labels=["connection lost", "refused", "pushed"]),
   R("get-lost", _H, "connection lost at any of 14 requests of archive-get", entry="archive", args={0: 1, 1: 2}, labels=["connection lost", "failed", "read"]),
   R("push-no-space", _H, "ENOSPC at any operation of archive-push", entry="archive", args={0: 2, 1: 1}, labels=["refused", "pushed"]),
   R("push-io-error", _H, "EIO at any reading operation of archive-push", entry="archive", args={0: 3, 1: 1}, labels=["refused", "pushed"]),
   R("get-io-error", _H, "EIO at any reading operation of archive-get", entry="archive", args={0: 3, 1: 2}, labels=["failed", "read"]),
   R("backup", _H, "full backup of a cluster on another host, 2 compressions, 3 layouts", entry="backupRemote", labels=["made"]),
   R("backup-incr", _H, "incremental backup after changes, 2 compressions, 3 layouts", entry="backupRemote", args={1: 1}, labels=["made"]),
   R("backup-lost", _H, "connection lost at any of 60 requests of a full backup, plain layout", entry="backupRemote", args={0: 1, 8: 1, 9: 1}, labels=["connection lost", "failed", "made"]),
   R("backup-io-error", _H, "EIO at any reading operation of a full backup, plain layout", entry="backupRemote", args={0: 3, 8: 1, 9: 1}, labels=["failed", "made"]),
   R("backup-lost-block", _H, "connection lost at any of 60 requests of an incremental backup, block incremental", entry="backupRemote", args={0: 1, 1: 1, 8: 2, 9: 3}, labels=["connection lost", "failed", "made"], thorough_only=True),
   R("backup-io-error-block", _H, "EIO at any reading operation of an incremental backup, block incremental", entry="backupRemote", args={0: 3, 1: 1, 8: 2, 9: 3}, labels=["failed", "made"], thorough_only=True),
   R("restore", _H, "restore of a full backup from another host, 2 compressions, 3 layouts", entry="restoreRemote", labels=["made"]),
   R("restore-delta", _H, "restore --delta of an incremental backup, 2 compressions, 3 layouts", entry="restoreRemote", args={1: 1, 2: 1}, labels=["made"]),
   R("restore-lost", _H, "connection lost at any of 40 requests of a restore, plain layout", entry="restoreRemote", args={0: 1, 8: 1, 9: 1}, labels=["connection lost", "failed", "made"]),
   R("restore-lost-block", _H, "connection lost at any of 40 requests of a delta restore, block incremental", entry="restoreRemote", args={0: 1, 1: 1, 2: 1, 8: 2, 9: 3}, labels=["connection lost", "failed", "made"], thorough_only=True),
   R("restore-io-error", _H, "EIO at any reading operation of a restore, plain layout", entry="restoreRemote", args={0: 3, 8: 1, 9: 1}, labels=["failed", "made"]),
   R("restore-no-space", _H, "ENOSPC at any operation of a restore, plain layout", entry="restoreRemote", args={0: 2, 8: 1, 9: 1}, labels=["failed"])],
  observe=["repository", "restored cluster", "exit status"])
