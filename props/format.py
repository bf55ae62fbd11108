P("C15", "Damage to one copy of an info file is survived, damaged content is never used",
  "archive.info, backup.info and backup.manifest are stored twice. When one of the two files is missing, cut short or has any byte changed to any value, every command that loads them continues with the other one and uses exactly the content that was saved. When no intact copy is left, loading fails with an error and never gives content other than what was saved (and when both are missing the error says so). What is loaded and saved again is exactly the same.",
  ["inputs", "fault_sequences"],
  "any value of the byte at every n-th position of each kind of info file (every position in the thorough tier), cut at every n-th length, in the main file, in the copy or with no copy left",
  "Tests damage a file in one or two ways.",
  ["src/info/info.c", "src/info/infoArchive.c", "src/info/infoBackup.c", "src/info/infoPg.c", "src/info/manifest/serialize.c.inc", "src/common/ini.c", "src/common/type/json.c"],
  [("copy tried after the main file", "infoLoad"), ("checksum", "infoNewLoad"), ("manifest", "manifestLoadFile"), ("backup.info", "infoBackupLoadFile"), ("archive.info", "infoArchiveLoadFile")],
  [R("archive-info", "infofile.c", "archive.info with two cluster versions, any byte value at every 3rd position, copy intact", entry="damage", args={0: 0, 2: 3}, thorough={0: 0}, labels=["loaded", "done"]),
   R("backup-info", "infofile.c", "backup.info with two backups, any byte value at every 17th position, copy intact", entry="damage", args={0: 1, 2: 17}, thorough={0: 1, 2: 2}, labels=["loaded", "done"]),
   R("manifest", "infofile.c", "backup.manifest (options), any byte value at every 17th position, copy intact", entry="damage", args={0: 2, 2: 17}, thorough={0: 2, 2: 2}, labels=["loaded", "done"]),
   R("manifest-files", "infofile.c", "backup.manifest (files, links, tablespaces), any byte value at every 19th position, copy intact", entry="damage", args={0: 3, 2: 19}, thorough={0: 3, 2: 2}, labels=["loaded", "done"]),
   R("archive-info-only", "infofile.c", "as above, no copy", entry="damage", args={0: 0, 1: 2, 2: 2}, thorough={0: 0, 1: 2}, labels=["refused", "done"]),
   R("backup-info-only", "infofile.c", "as above, no copy", entry="damage", args={0: 1, 1: 2, 2: 11}, thorough={0: 1, 1: 2}, labels=["refused", "done"]),
   R("manifest-only", "infofile.c", "as above, no copy", entry="damage", args={0: 2, 1: 2, 2: 13}, thorough={0: 2, 1: 2}, labels=["refused", "done"]),
   R("manifest-files-only", "infofile.c", "as above, no copy", entry="damage", args={0: 3, 1: 2, 2: 13}, thorough={0: 3, 1: 2}, labels=["refused", "done"]),
   R("copy", "infofile.c", "only the copy damaged", entry="damage", args={0: 3, 1: 1, 2: 29}, thorough={0: 3, 1: 1, 2: 3}, labels=["loaded", "done"]),
   R("cut-archive-info", "infofile.c", "main file, copy or both cut at every 5th length or missing", entry="cut", args={0: 0, 2: 5}, thorough={0: 0}, labels=["loaded", "refused", "done"]),
   R("cut-backup-info", "infofile.c", "as above, every 31st length", entry="cut", args={0: 1, 2: 31}, thorough={0: 1, 2: 3}, labels=["loaded", "refused", "done"]),
   R("cut-manifest", "infofile.c", "as above, every 37th length", entry="cut", args={0: 3, 2: 37}, thorough={0: 3, 2: 3}, labels=["loaded", "refused", "done"])],
  observe=["content loaded, saved again byte for byte", "error type"])
P("C16", "JSON values are read back exactly and malformed JSON is refused safely",
  "Strings of any bytes other than NUL, integers of every type and range, booleans, lists and objects written as JSON are read back unchanged, also when other values are skipped before them. A number is accepted as a type exactly when it fits. Looking up a key in an object (keys in ascending order) finds exactly the keys it has. Any other text is read or refused with a format error, never with memory accesses outside of the text; a value that was read and is written again reads as the same value.",
  ["inputs"], "all texts up to the bound, all strings up to the bound, numbers around the limits of every type and number of digits",
  "Tests parse a list of fixed texts.",
  ["src/common/type/json.c"], [("reading", "jsonReadVar"), ("skipping", "jsonReadSkip"), ("key lookup", "jsonReadKeyExpect"), ("writing", "jsonWriteStr")],
  [R("strings", "json.c", "strings of up to 3 bytes of any value, alone, in a list, in an object, skipped", entry="strings", args={0: 3}, thorough={0: 5}, labels=["done"]),
   R("numbers", "json.c", "integers within 1 of the smallest and largest number of every length and of the limits of every type", entry="numbers", args={0: 1}, thorough={0: 8}, labels=["read", "refused", "done"]),
   R("text", "json.c", "any text of up to 4 bytes", entry="text", args={0: 4}, thorough={0: 6}, labels=["read", "refused", "valid", "done"]),
   R("object", "json.c", "an object with up to 4 bytes of any value", entry="text", args={0: 4, 1: 1}, thorough={0: 6, 1: 1}, labels=["refused", "done"]),
   R("escape", "json.c", "an escaped string with up to 3 bytes of any value", entry="text", args={0: 3, 1: 2}, thorough={0: 4, 1: 2}, labels=["read", "refused", "valid", "done"]),
   R("escape-cut", "json.c", "an escaped string that ends early", entry="text", args={0: 3, 1: 2, 2: 1}, thorough={0: 5, 1: 2, 2: 1}, labels=["refused", "done"]),
   R("array", "json.c", "an array with up to 3 bytes of any value after the first element", entry="text", args={0: 3, 1: 3}, thorough={0: 5, 1: 3}, labels=["read", "refused", "done"]),
   R("keys", "json.c", "objects of up to 3 keys out of 6 (prefixes of each other), two lookups", entry="keys", labels=["found", "absent", "done"])],
  observe=["values read", "error type"])
