P("C21", "Page checksums: exactly the damaged pages are reported",
  "When page checksums are checked, a backup reports exactly those complete pages of relation files whose stored checksum is not the one PostgreSQL computes for the page at its block number (over all segments of the relation), or that claim to be new without being all zero; new all-zero pages and pages that PostgreSQL changed while they were being read are not reported. A partial page at the end is reported. Only relation files are checked, the manifest lists exactly the damaged pages in every repository layout, also in the backups that take the file over from an earlier one, and backup.info records whether there are any. Damage never fails the backup.",
  ["inputs"], "files of up to 3 pages in any combination of 9 page states, two segments, partial pages, any value of a byte at 24 positions of the page; whole backups of 5 kinds of files in 3 layouts",
  "Tests use a few pages.",
  ["src/command/backup/pageChecksum.c", "src/postgres/interface/page.c", "src/command/backup/process.c.inc", "src/info/manifest/build.c.inc", "src/info/manifest/serialize.c.inc", "src/info/infoBackup.c"],
  [("page check", "pageChecksumNew"), ("checksum", "pgPageChecksum"), ("backup", "cmdBackup"), ("manifest", "manifestLoadFile")],
  [R("states", "pagecheck.c", "up to 2 pages of 1KiB in any combination of states, buffers of 2 pages", entry="filter", args={1: 2}, thorough={1: 3}, labels=["damaged", "intact", "done"]),
   R("states-8k", "pagecheck.c", "up to 2 pages of 8KiB", entry="filter", args={0: 8, 1: 1}, thorough={0: 8, 1: 2}, labels=["damaged", "intact", "done"]),
   R("bytes", "pagecheck.c", "any value of one byte at 24 positions of one of up to 2 pages of 1KiB (with partial and changing pages in the thorough tier)", entry="filter", args={1: 2, 2: 1}, thorough={1: 3, 2: 1, 3: 1}, labels=["damaged", "intact", "done"]),
   R("backup", "pagecheck.c", "whole backups: 5 relation files, up to 3 pages of 8KiB intact or damaged, 3 layouts, followed by an incremental backup", entry="backup", thorough={1: 1}, labels=["damaged", "intact", "done"])],
  observe=["pages reported", "manifest"])
