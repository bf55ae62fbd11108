P("C06", "Conflicting commands never run at the same time",
  "A command that changes a repository (archive-push/get async, backup, expire, annotate, restore, stanza-create/upgrade/delete) starts only while it holds the lock of its type for the stanza and every repository it works on; it fails with a lock error, changing nothing, while another process holds one of them, unless that process carries the same exec id. Lock files left behind by dead processes do not block, the locks are released on exit, and locks of other processes, types or repositories are never disturbed. In every interleaving of the system calls of competing processes at most one of them holds a given lock. A remote process serving such a command takes the lock on its host, too, and refuses while it is held or the stanza is stopped.",
  ["inputs", "interleavings", "configurations"],
  "all commands, one or two repositories, all states of every lock file, every interleaving with a process that releases and one that competes for the lock (bounded number of their steps)",
  "Tests hold one lock at a time and never remove a lock file between another process's open and flock.",
  ["src/common/lock.c", "src/command/lock.c", "src/config/load.c", "src/command/remote/remote.c"],
  [("lock files acquired and released", "lockAcquire"), ("locks by command and repository", "cmdLockAcquire")],
  [R("commands", "lock.c", "12 commands, repositories 1 and 3, --repo unset, 1 or 3, one lock file of any type, repository and state", entry="commands", labels=["started", "released", "refused"]),
   R("race", "lock.c", "this process against a releasing and a competing process, up to 6 of their steps before each system call", entry="race", args=[6], labels=["acquired", "not-acquired", "other-acquired"], thorough=[14]),
   R("remote", "lock.c", "10 commands served remotely, one lock file of any type and state, stopped or not", entry="remote", labels=["served", "refused"])],
  observe=["exit status", "lock files and their flock state"])
P("C07", "A stopped stanza stays untouched; stop --force signals only its processes",
  "While a stop file exists for the stanza or for all stanzas, archive-push (foreground and asynchronous), backup, expire, stanza-create, stanza-upgrade and remote processes of commands that change the repository fail with a stop error and change nothing; a stop file of another stanza has no effect, and a stop file whose existence cannot be determined is never taken for absent. stop creates and start removes exactly the stop file of its scope. stop --force sends one SIGTERM to each process that currently holds a valid lock of the scope and to no other process: not to processes of other stanzas, also when one stanza's name begins with another's, and not for lock files left behind or unreadable.",
  ["inputs", "histories", "fault_sequences", "configurations"],
  "all combinations of stop files, lock files (names, holders, states) and commands, one failing file operation",
  "Tests cover one lock file per case and no stanza names that extend one another.",
  ["src/command/control/stop.c", "src/command/control/start.c", "src/command/control/common.c", "src/common/lock.c"],
  [("stop file tested", "lockStopTest"), ("processes found by lock file", "cmdStop"), ("stop file removed", "cmdStart")],
  [R("stop-start", "stop.c", "stop, stop --force and start, with and without stanza; three stop files; two of eight lock file names in any of five states", entry="stopStart", labels=["started", "stopped", "forced"]),
   R("refused", "stop.c", "six commands, three stop files, stanza existing or not", entry="refuse", args=[0], labels=["refused", "allowed"]),
   R("io-error", "stop.c", "as refused, with EIO at one of the first 4 reading operations", entry="refuse", args=[4], labels=["refused", "allowed", "fault"]),
   R("remote", "lock.c", "remote processes of 10 commands while stopped", entry="remote", labels=["served", "refused"])],
  observe=["exit status", "stop and lock files", "signals sent", "repository contents"])
P("C08", "Stanza create, upgrade and delete keep the stanza consistent",
  "stanza-create succeeds only if every repository ends with archive.info and backup.info (each with its copy) that agree with each other and with the version and system id of pg_control; it creates them only where neither info files nor other files of the stanza exist, restores a missing copy from the other one, and otherwise fails without changing an existing file. stanza-upgrade appends one history entry with the next id when version or system id changed, changes nothing otherwise, keeps all earlier entries, refuses files that disagree, and can be repeated after a crash or I/O error at any point. stanza-delete removes the stanza's files of the chosen repository only, only when the stanza's own stop file exists and PostgreSQL is not running (unless forced), removes the info files before what they describe and the stop file last, and can be repeated after a crash. No crash or I/O error leaves an incomplete info file visible.",
  ["inputs", "crash_points", "fault_sequences", "histories", "configurations"],
  "all presence combinations of the info files and copies in five identity states, all supported PostgreSQL versions, crash or ENOSPC at every mutating operation with every combination of surviving unsynced changes",
  "Tests check single arrangements and never interrupt the commands.",
  ["src/command/stanza/create.c", "src/command/stanza/upgrade.c", "src/command/stanza/delete.c", "src/command/check/common.c", "src/info/infoPg.c", "src/info/info.c"],
  [("cases of existing files", "cmdStanzaCreate"), ("history entry appended", "infoPgSet"), ("stop file and running check", "cmdStanzaDelete")],
  [R("create", "stanza.c", "first repository in every state, second empty", entry="create", args=[0, 0], labels=["created", "valid", "refused"]),
   R("create-versions", "stanza.c", "new stanza for every supported PostgreSQL version", entry="create", args=[0, 1], labels=["created"]),
   R("create-crash", "stanza.c", "crash at any mutating operation", entry="create", args=[1, 0], labels=["created", "valid", "crashed"]),
   R("create-error", "stanza.c", "ENOSPC at any mutating operation", entry="create", args=[2, 0], labels=["created", "valid", "fault"]),
   R("upgrade", "stanza.c", "histories of one or two entries, ids with and without gaps, five changes of the cluster, four prior states", entry="upgrade", args=[0], labels=["upgraded", "unchanged", "refused"]),
   R("upgrade-crash", "stanza.c", "crash at any mutating operation", entry="upgrade", args=[1], labels=["upgraded", "crashed"]),
   R("upgrade-error", "stanza.c", "ENOSPC at any mutating operation", entry="upgrade", args=[2], labels=["upgraded", "fault"]),
   R("delete", "stop.c", "one or two repositories, all stop file, running and force combinations", entry="delete_", args=[0], labels=["deleted", "refused"]),
   R("delete-kill", "stop.c", "killed at any mutating operation", entry="delete_", args=[1], labels=["deleted", "killed"])],
  observe=["exit status", "info files byte for byte", "all other files"])
