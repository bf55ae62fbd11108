P("C22", "Compression and encryption filters give back exactly the stored data",
  "Data that passes through the compression and encryption filters into a file and back gives exactly the same bytes, for every supported compression type, with and without encryption, in raw form or not, whatever the sizes of the writes, of the reads and of the input/output buffer, and also when the filters are made by another process from their parameters. The sizes and the hash the filters report are those of the data. A stream that was cut, is empty, or is of another compression type is refused and never passed off as complete; so is encrypted data that was cut inside a block or whose header is damaged. Encrypting the same data twice uses a new salt.",
  ["inputs"], "every byte of the data; sizes of data, buffers, reads and writes; how much the compression library holds back; every position at which the stream is cut",
  "Unit tests use one buffer size and one text per type; a byte lost at a boundary, output kept at the end of input, or a truncated file taken as complete means a backup or WAL file that restores wrongly.",
  ["src/common/compress", "src/common/crypto/cipherBlock.c", "src/common/io/filter/group.c", "src/common/io/write.c", "src/common/io/read.c", "src/common/crypto/hash.c", "src/common/io/filter/size.c"],
  [("filter chain", "ioFilterGroupProcess"), ("compression", "gzCompressProcess, bz2CompressProcess, lz4CompressProcess, zstCompressProcess"), ("end of stream", "*DecompressProcess when the input ends"), ("encryption", "cipherBlockProcess")],
  [R("chain", "filter.c", "4 compression types, raw or not, 0-33 symbolic bytes (zeros up to 400), buffers 1-128, reads and writes 3-1000", entry="chain", args={0: 0}, labels=["read back"], thorough={1: 1}),
   R("cipher", "filter.c", "as chain, encrypted, with and without compression", entry="chain", args={0: 1}, labels=["read back"], thorough={0: 1, 1: 1}),
   R("damage", "filter.c", "0-33 symbolic bytes; every cut; every pair of types", entry="damage", labels=["refused"]),
   R("cipher-damage", "filter.c", "0-33 symbolic bytes; every cut inside a block; header bytes", entry="damage", args={0: 1}, labels=["refused"])],
  observe=["stored bytes", "error type"])
P("C23", "An encrypted repository holds nothing readable and needs its passphrase",
  "When a repository has a cipher, every file stanza-create, archive-push, backup, expire and stanza-upgrade leave in it is encrypted: neither contents nor names of cluster files, WAL, metadata, the passphrase or the generated keys appear in it, in every layout and with every compression. All of it is read back exactly by archive-get, backup (as a base), restore and expire, also when another repository has another passphrase or none and when archiving is asynchronous. With a wrong passphrase, another repository's passphrase or no cipher every command fails and changes neither the repository nor the cluster.",
  ["configurations", "histories"], "all combinations of layout, compression, second repository, asynchronous archiving, and command; every command with every wrong configuration",
  "Tests check one encrypted file per command with one repository; that no path forgets to encrypt or mixes up keys is a statement about all combinations.",
  ["src/command/stanza/create.c", "src/command/stanza/common.c", "src/command/archive/push/push.c", "src/command/archive/push/file.c", "src/command/archive/get/get.c", "src/command/archive/get/file.c", "src/command/backup/backup.c", "src/command/restore/restore.c", "src/common/crypto/cipherBlock.c", "src/info/info.c"],
  [("keys", "cipherSpec, cipherBlockFilterGroupAdd"), ("commands", "cmdStanzaCreate, cmdArchivePush, cmdArchiveGet, cmdBackup, cmdRestore, cmdExpire")],
  [R("works", "encrypt.c", "stanza, WAL segment, full and incremental backup, restore; 3 layouts, 2 compressions, no/plain/encrypted second repository, sync and async archiving", entry="works", thorough={1: 1}, labels=["done"]),
   R("upgrade", "encrypt.c", "stanza-upgrade to the next PostgreSQL version, then backup, restore and archive-get", entry="upgrade", labels=["done"]),
   R("wrong", "encrypt.c", "8 commands with 3 wrong configurations", entry="wrong", labels=["refused"])],
  observe=["repository"])
