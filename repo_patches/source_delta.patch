From db0336c493c6a713947ac102cb992eea4bc50ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:36 +0000
Subject: [PATCH 01/20] fix: compare the full checksum when looking for
 duplicate WAL segments in archive-get

The checksum was taken at a fixed offset of the path including the archive id and WAL path rather than
of the file name, so identical segments in archive ids of different lengths (e.g. 13-9 and 13-10 in two
repositories) were reported as duplicates and only part of the checksum was compared.
---
 src/command/archive/get/get.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/command/archive/get/get.c b/src/command/archive/get/get.c
index 8357ae4..8b7852f 100644
--- a/src/command/archive/get/get.c
+++ b/src/command/archive/get/get.c
@@ -280,7 +280,12 @@ archiveGetFind(
                 StringList *const hashList = strLstNew();
 
                 for (unsigned int matchIdx = 0; matchIdx < lstSize(matchList); matchIdx++)
-                    strLstAddIfMissing(hashList, strSubN(((ArchiveGetFile *)lstGet(matchList, matchIdx))->file, 25, 40));
+                {
+                    strLstAddIfMissing(
+                        hashList,
+                        strSubN(
+                            strBase(((const ArchiveGetFile *)lstGet(matchList, matchIdx))->file), strSize(archiveFileRequest) + 1, 40));
+                }
 
                 // If there is more than one unique hash then there are duplicates
                 if (strLstSize(hashList) > 1)
-- 
2.43.0


From 9d1e0f676d1b7394823c37e66041b027495e15d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:25:07 +0000
Subject: [PATCH 02/20] fix: do not accept a lock on a lock file that has been
 removed

A process that opened the lock file before the lock holder removed it could lock the removed file while
a third process created and locked a new file at the same path, so two processes held the same lock.
---
 src/common/lock.c | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/common/lock.c b/src/common/lock.c
index bc5d83e..77946cb 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -7,6 +7,7 @@ Lock Handler
 #include <fcntl.h>
 #include <string.h>
 #include <sys/file.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "common/debug.h"
@@ -238,6 +239,25 @@ lockAcquire(const String *const lockFileName, const LockAcquireParam param)
                     else
                         fd = -1;
                 }
+                // Else the lock is only valid when the locked file is still the file at the lock path. The process that held the
+                // lock before may have removed the file after it was opened above, in which case another process would be able to
+                // create and lock a new file, so try again.
+                else
+                {
+                    struct stat statFd;
+                    struct stat statPath;
+
+                    THROW_ON_SYS_ERROR_FMT(
+                        fstat(fd, &statFd) == -1, FileInfoError, "unable to get info for lock file '%s'", strZ(lockFilePath));
+
+                    if (stat(strZ(lockFilePath), &statPath) == -1 || statFd.st_dev != statPath.st_dev ||
+                        statFd.st_ino != statPath.st_ino)
+                    {
+                        close(fd);
+                        fd = -1;
+                        retry = true;
+                    }
+                }
             }
         }
         while (fd == -1 && retry);
-- 
2.43.0


From 165a6079ceb5df201349fc9a6844195d656adc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:19 +0000
Subject: [PATCH 03/20] fix: stop --force with a stanza must not signal
 processes of other stanzas

The lock files of a stanza were found by the prefix "<stanza>-", which also matches the lock files of a stanza whose name begins that
way (e.g. db-test when stopping db), so its lock files were removed and its processes terminated.
---
 src/command/control/stop.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/command/control/stop.c b/src/command/control/stop.c
index e720d9b..64e9a05 100644
--- a/src/command/control/stop.c
+++ b/src/command/control/stop.c
@@ -14,6 +14,7 @@ Stop Command
 #include "command/control/stop.h"
 #include "common/debug.h"
 #include "common/lock.h"
+#include "common/regExp.h"
 #include "common/type/convert.h"
 #include "config/config.h"
 #include "storage/helper.h"
@@ -57,9 +58,17 @@ cmdStop(void)
                 {
                     const String *const lockFile = strLstGet(lockPathFileList, lockPathFileIdx);
 
-                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided.
-                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) || (stanzaPrefix != NULL && !strBeginsWith(lockFile, stanzaPrefix)))
+                    // Skip any file that is not a lock file. Skip lock files for other stanzas if a stanza is provided. The stanza
+                    // prefix is not enough since it may also begin the name of another stanza, e.g. db and db-test.
+                    if (!strEndsWithZ(lockFile, LOCK_FILE_EXT) ||
+                        (stanzaPrefix != NULL &&
+                         (!strBeginsWith(lockFile, stanzaPrefix) ||
+                          !regExpMatchOne(
+                              STRDEF("^(archive|backup|restore)(-[0-9]+)?\\" LOCK_FILE_EXT "$"),
+                              strSub(lockFile, strSize(stanzaPrefix))))))
+                    {
                         continue;
+                    }
 
                     // Read the lock file
                     const LockReadResult lockResult = lockReadP(lockFile, .remove = true);
-- 
2.43.0


From 4c0f8b86b247e0dfb81f1f88394fa01376a0cb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:46 +0000
Subject: [PATCH 04/20] fix: expire backup history of the repository being
 expired

With multiple repositories the history manifests were always listed from the default repository, so a history manifest that exists only in
another repository was never expired there.
---
 src/command/expire/expire.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index eb78104..e6232e5 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -957,7 +957,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             // Get all history years
             const StringList *const historyYearList = strLstSort(
                 storageListP(
-                    storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+                    storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                    .expression = STRDEF("^2[0-9]{3}$")),
                 sortOrderAsc);
 
             for (unsigned int historyYearIdx = 0; historyYearIdx < strLstSize(historyYearList); historyYearIdx++)
@@ -984,7 +985,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-                            storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
+                            storageRepoIdx(repoIdx),
+                            strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
                             .expression = strNewFmt(
                                 "%s\\.manifest\\.%s$",
                                 strZ(backupRegExpP(.full = true, .differential = true, .incremental = true, .noAnchorEnd = true)),
-- 
2.43.0


From 2250d5ee0fd506d678e02000ebdb1c199618e417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:37 +0000
Subject: [PATCH 05/20] fix: keep history manifests of unexpired backups when a
 year is expired

When a year in backup.history was before the year of the oldest history to retain the path was removed with the history manifests of
unexpired backups, which must always be kept.
---
 src/command/expire/expire.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index e6232e5..689b114 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -966,8 +966,17 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 // Get all the backup history manifests
                 const String *const historyYear = strLstGet(historyYearList, historyYearIdx);
 
+                // Unexpired backups are always kept in the history so find out if there are any in this year
+                bool currentBackupInYear = false;
+
+                for (unsigned int backupIdx = 0; backupIdx < strLstSize(currentBackupList); backupIdx++)
+                {
+                    if (strBeginsWith(strLstGet(currentBackupList, backupIdx), historyYear))
+                        currentBackupInYear = true;
+                }
+
                 // If the entire year is less than the year of the minimum backup to retain, then remove completely the directory
-                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0)
+                if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) < 0 && !currentBackupInYear)
                 {
                     LOG_INFO_FMT(
                         "%s: remove expired backup history path %s", cfgOptionGroupName(cfgOptGrpRepo, repoIdx), strZ(historyYear));
@@ -981,7 +990,7 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                     }
                 }
                 // Else find and remove individual files
-                else if (strEq(historyYear, strSubN(minBackupLabel, 0, 4)))
+                else if (strCmp(historyYear, strSubN(minBackupLabel, 0, 4)) <= 0)
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-- 
2.43.0


From 560670b6ca763dfbd6082995b02b73c37f308a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:48:43 +0000
Subject: [PATCH 06/20] fix: sync the bundle path before a backup is recorded
 as complete

---
 src/command/backup/process.c.inc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/command/backup/process.c.inc b/src/command/backup/process.c.inc
index 29b9456..265c13a 100644
--- a/src/command/backup/process.c.inc
+++ b/src/command/backup/process.c.inc
@@ -990,6 +990,15 @@ backupProcess(const BackupData *const backupData, Manifest *const manifest, cons
                 if ((backupType == backupTypeFull && !jobData.bundle) || hardLink || storagePathExistsP(storageRepo(), path))
                     storagePathSyncP(storageRepoWrite(), path);
             }
+
+            // Sync the bundle path. It is not in the manifest and will not exist when there were no bundles to store.
+            if (jobData.bundle)
+            {
+                const String *const path = strNewFmt("%s/" MANIFEST_PATH_BUNDLE, strZ(backupPathExp));
+
+                if (storagePathExistsP(storageRepo(), path))
+                    storagePathSyncP(storageRepoWrite(), path);
+            }
         }
     }
     MEM_CONTEXT_TEMP_END();
-- 
2.43.0


From 6a58ea31a54b7ab53c573f614a22668f07848cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:51 +0000
Subject: [PATCH 07/20] fix: do not read outside the decode tables for encoded
 bytes above 0x7f

---
 src/common/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/encode.c b/src/common/encode.c
index 69a3a61..3b0acb6 100644
--- a/src/common/encode.c
+++ b/src/common/encode.c
@@ -141,7 +141,7 @@ decodeToBinValidateBase64(const char *const source)
         else
         {
             // Error on any invalid characters
-            if (decodeBase64Lookup[(int)source[sourceIdx]] == -1)
+            if (decodeBase64Lookup[(uint8_t)source[sourceIdx]] == -1)
                 THROW_FMT(FormatError, "base64 invalid character found at position %u", sourceIdx);
         }
     }
@@ -376,7 +376,7 @@ decodeToBinValidateHex(const char *const source)
     // Check all characters
     for (unsigned int sourceIdx = 0; sourceIdx < sourceSize; sourceIdx++)
     {
-        if (decodeHexLookup[(int)source[sourceIdx]] == -1)
+        if (decodeHexLookup[(uint8_t)source[sourceIdx]] == -1)
             THROW_FMT(FormatError, "hex invalid character found at position %u", sourceIdx);
     }
 
-- 
2.43.0


From 0295399de998d9d206cd3ea5bd221cbc6c365a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 08/20] fix: do not read past the end of a JSON string that
 ends in an escape

---
 src/common/type/json.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/type/json.c b/src/common/type/json.c
index d82cedc..ac80cf3 100644
--- a/src/common/type/json.c
+++ b/src/common/type/json.c
@@ -827,11 +827,16 @@ jsonReadSkipStr(JsonRead *const this)
                     if (digitIdx != 4)
                         THROW_FMT(JsonFormatError, "unable to decode at: %s", this->json - 2);
 
-                    this->json += 4;
+                    // The last digit will be skipped below
+                    this->json += 3;
 
                     break;
                 }
 
+                // String ended before the escaped character
+                case '\0':
+                    THROW(JsonFormatError, "expected '\"' but found null delimiter");
+
                 // Any other escape
                 default:
                     break;
@@ -1015,7 +1020,7 @@ jsonReadStr(JsonRead *const this)
                     this->json++;
 
                     // We don't know how to decode anything except ASCII so fail if it looks like Unicode
-                    if (strncmp(this->json, "00", 2) != 0)
+                    if (strncmp(this->json, "00", 2) != 0 || this->json[2] == '\0' || this->json[3] == '\0')
                         THROW_FMT(JsonFormatError, "unable to decode at: %s", this->json - 2);
 
                     // Decode char
-- 
2.43.0


From 97eaa8013fb0cb4249a59458ceafd450f08310ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:18 +0000
Subject: [PATCH 09/20] fix: do not take a JSON key that is a prefix of the
 requested key for it

---
 src/common/type/json.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/type/json.c b/src/common/type/json.c
index ac80cf3..7bc4983 100644
--- a/src/common/type/json.c
+++ b/src/common/type/json.c
@@ -633,7 +633,11 @@ jsonReadKeyExpect(JsonRead *const this, const String *const key)
 
         // Get and compare next key
         const JsonReadKeyInternalResult keyNext = jsonReadKeyZN(this);
-        const int compare = strncmp(strZ(key), keyNext.buffer, keyNext.size);
+        int compare = strncmp(strZ(key), keyNext.buffer, keyNext.size);
+
+        // If the next key is only a prefix of the requested key then the requested key is after it
+        if (compare == 0 && keyNext.size < strSize(key))
+            compare = 1;
 
         // Return true if key matches
         if (compare == 0)
-- 
2.43.0


From 5b71dde34286cd9742b3b4e05c2cce83727d431f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:01 +0000
Subject: [PATCH 10/20] fix: load the copy of an info file when damage to the
 main file raises an assertion

---
 src/info/info.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/info/info.c b/src/info/info.c
index ad13505..ed5d782 100644
--- a/src/info/info.c
+++ b/src/info/info.c
@@ -237,6 +237,15 @@ infoNewLoad(
             {
                 THROW_FMT(CryptoError, "%s\nHINT: is or was the repo encrypted?", errorMessage());
             }
+            CATCH_FATAL()
+            {
+                // The content is not trustworthy until the checksum has been verified so an assertion here means it is damaged. Throw
+                // an error that is not fatal so the copy of the file can be tried.
+                if (errorType() == &AssertError)
+                    THROW_FMT(FormatError, "%s", errorMessage());
+
+                RETHROW();
+            }
             TRY_END();
 
             INFO_CHECKSUM_END(checksumActualFilter);
-- 
2.43.0


From dce2a2f0c4c22f1c1d82549098efa638aed4414d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:00 +0000
Subject: [PATCH 11/20] fix: restore target times after 2037

epochFromParts() multiplied in int, which overflows for years after 2037.
---
 src/common/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/time.c b/src/common/time.c
index 1156ac3..da4928f 100644
--- a/src/common/time.c
+++ b/src/common/time.c
@@ -184,6 +184,6 @@ epochFromParts(
     FUNCTION_TEST_RETURN(
         TIME,
         -1 * tzOffsetSecond + second + minute * 60 + hour * 3600 +
-        (dayOfYear(year, month, day) - 1) * 86400 + (year - 1900 - 70) * 31536000 +
+        (dayOfYear(year, month, day) - 1) * 86400 + (time_t)(year - 1900 - 70) * 31536000 +
         ((year - 1900 - 69) / 4) * 86400 - ((year - 1900 - 1) / 100) * 86400 + ((year - 1900 + 299) / 400) * 86400);
 }
-- 
2.43.0


From e13710b3bd33d8c3349b03d639f7668bec9c4841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:05:00 +0000
Subject: [PATCH 12/20] fix: sign of time zone offsets of less than an hour
 west

The sign of an offset like -00:30 was lost since it was carried by the hour.
---
 src/common/type/convert.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/common/type/convert.c b/src/common/type/convert.c
index c6e7dbd..28a9dc5 100644
--- a/src/common/type/convert.c
+++ b/src/common/type/convert.c
@@ -635,7 +635,8 @@ cvtZToTime(const char *const time)
     // Add timezone offset when present
     if ((*part == '+' || *part == '-') && strlen(part) >= 3)
     {
-        const int offsetHour = cvtZNToTimePart(time, part + 1, 2) * (*part == '-' ? -1 : 1);
+        const bool offsetNegative = *part == '-';
+        const int offsetHour = cvtZNToTimePart(time, part + 1, 2) * (offsetNegative ? -1 : 1);
         part += 3;
 
         // Offset separator is optional
@@ -655,8 +656,13 @@ cvtZToTime(const char *const time)
         if (*part != 0)
             THROW_FMT(FormatError, "invalid date/time %s", time);
 
-        FUNCTION_TEST_RETURN(
-            TIME, epochFromParts(year, month, day, hour, minute, second, tzOffsetSeconds(offsetHour, offsetMinute)));
+        // When the offset is negative but less than an hour the sign cannot be carried by the hour
+        int offsetSecond = tzOffsetSeconds(offsetHour, offsetMinute);
+
+        if (offsetNegative && offsetSecond > 0)
+            offsetSecond *= -1;
+
+        FUNCTION_TEST_RETURN(TIME, epochFromParts(year, month, day, hour, minute, second, offsetSecond));
     }
 
     // Make sure there is nothing left over
-- 
2.43.0


From 35778b3e504758a8f140e01e5d695bc144587a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 13/20] fix: free memory context only once when a callback
 fails

memContextClean()/memContextDiscard() freed the context before removing it from the stack so an error thrown by a callback caused the context to be freed again.
---
 src/common/memContext.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/common/memContext.c b/src/common/memContext.c
index ced6045..69d54c2 100644
--- a/src/common/memContext.c
+++ b/src/common/memContext.c
@@ -1254,8 +1254,9 @@ memContextDiscard(void)
     }
 #endif
 
-    memContextFree(memContextStack[memContextMaxStackIdx].memContext);
+    // Remove the context from the stack first so it is not freed again during error cleanup if a callback fails
     memContextMaxStackIdx--;
+    memContextFree(memContextStack[memContextMaxStackIdx + 1].memContext);
 
     FUNCTION_TEST_RETURN_VOID();
 }
@@ -1394,12 +1395,18 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
     // Iterate through everything pushed to the stack since the last try
     while (memContextStack[memContextMaxStackIdx].tryDepth >= tryDepth)
     {
+        // Remove the entry from the stack first so the context is not freed again if a callback fails
+        MemContext *const memContext = memContextStack[memContextMaxStackIdx].memContext;
+        const MemContextStackType type = memContextStack[memContextMaxStackIdx].type;
+
+        memContextMaxStackIdx--;
+
         // Free memory contexts that were not kept. Skip this for fatal errors to avoid calling destructors that could error and
         // mask the original error.
-        if (memContextStack[memContextMaxStackIdx].type == memContextStackTypeNew)
+        if (type == memContextStackTypeNew)
         {
             if (!fatal)
-                memContextFree(memContextStack[memContextMaxStackIdx].memContext);
+                memContextFree(memContext);
         }
         // Else find the prior context and make it the current context
         else
@@ -1409,8 +1416,6 @@ memContextClean(const unsigned int tryDepth, const bool fatal)
             while (memContextStack[memContextCurrentStackIdx].type == memContextStackTypeNew)
                 memContextCurrentStackIdx--;
         }
-
-        memContextMaxStackIdx--;
     }
 
     FUNCTION_TEST_RETURN_VOID();
-- 
2.43.0


From 21a0bbe1498749362ab755e30652b87af8eaf1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 14/20] fix: remove session from protocol client before it can
 fail to cancel

An error while cancelling a session left the freed session in the client's list.
---
 src/protocol/client.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/protocol/client.c b/src/protocol/client.c
index 23e9d13..610c9f8 100644
--- a/src/protocol/client.c
+++ b/src/protocol/client.c
@@ -475,6 +475,9 @@ protocolClientSessionFreeResource(THIS_VOID)
 
     ASSERT(this != NULL);
 
+    // Remove from session list first so the client does not use this session after it is freed, even when there is an error below
+    lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
+
     // If a result is queued then read it before sending cancel
     if (protocolClientSessionQueued(this))
     {
@@ -496,9 +499,6 @@ protocolClientSessionFreeResource(THIS_VOID)
         ASSERT(!this->pub.open);
     }
 
-    // Remove from session list
-    lstRemoveIdx(this->client->sessionList, protocolClientSessionFindIdx(this->client, this->sessionId));
-
     FUNCTION_LOG_RETURN_VOID();
 }
 
-- 
2.43.0


From 1f26df61a7e56ee5f1c70b1ad760f82fb6d64e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 15/20] fix: report errors reading a directory

readdir() returns NULL on end of directory and on error so errno must be checked, otherwise a partially read directory is treated as complete.
---
 src/storage/posix/storage.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/storage/posix/storage.c b/src/storage/posix/storage.c
index b9a535c..e920dfc 100644
--- a/src/storage/posix/storage.c
+++ b/src/storage/posix/storage.c
@@ -223,7 +223,8 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
         {
             MEM_CONTEXT_TEMP_RESET_BEGIN()
             {
-                // Read the directory entries
+                // Read the directory entries. Clear errno so the end of the directory can be distinguished from an error.
+                errno = 0;
                 const struct dirent *dirEntry = readdir(dir);
 
                 while (dirEntry != NULL)
@@ -249,12 +250,17 @@ storagePosixList(THIS_VOID, const String *const path, const StorageInfoLevel lev
                             storagePosixListEntry(this, result, path, dirEntry->d_name, level);
                     }
 
-                    // Get next entry
-                    dirEntry = readdir(dir);
-
                     // Reset the memory context occasionally so we don't use too much memory or slow down processing
                     MEM_CONTEXT_TEMP_RESET(1000);
+
+                    // Get next entry
+                    errno = 0;
+                    dirEntry = readdir(dir);
                 }
+
+                // Error when the list may be incomplete
+                if (errno != 0)                                                                                     // {vm_covered}
+                    THROW_SYS_ERROR_FMT(PathOpenError, STORAGE_ERROR_LIST_INFO, strZ(path));                        // {vm_covered}
             }
             MEM_CONTEXT_TEMP_END();
         }
-- 
2.43.0


From a9622720059825c58fc8d3f8d689164bd2fe1d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 16/20] fix: verify files referenced in bundles and block
 incrementals of prior backups

A backup depending on a damaged bundled or block incremental file of a prior backup was reported as valid.
---
 src/command/verify/verify.c | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/command/verify/verify.c b/src/command/verify/verify.c
index c4faf44..829b3a6 100644
--- a/src/command/verify/verify.c
+++ b/src/command/verify/verify.c
@@ -1034,17 +1034,21 @@ verifyBackup(VerifyJobData *const jobData)
                                 const VerifyBackupResult *const backupResultPrior = lstGet(
                                     jobData->backupResultList, backupPriorIdx);
 
-                                // If the verify-state of the backup is not complete then verify the file
-                                if (!backupResultPrior->fileVerifyComplete)
+                                // If the verify-state of the backup is not complete then verify the file. Also verify the file if
+                                // it is bundled since the prior result only identifies the bundle and not the file.
+                                if (!backupResultPrior->fileVerifyComplete || fileData.bundleId != 0)
                                 {
                                     fileBackupLabel = fileData.reference;
                                 }
                                 // Else skip verification
                                 else
                                 {
-                                    const String *const priorFile = strNewFmt(
-                                        "%s/%s%s", strZ(fileData.reference), strZ(fileData.name),
-                                        strZ(compressExtStr((manifestData(jobData->manifest))->backupOptionCompressType)));
+                                    const String *const priorFile = strSub(
+                                        backupFileRepoPathP(
+                                            fileData.reference, .manifestName = fileData.name,
+                                            .compressType = manifestData(jobData->manifest)->backupOptionCompressType,
+                                            .blockIncr = fileData.blockIncrMapSize != 0),
+                                        sizeof(STORAGE_REPO_BACKUP));
                                     const unsigned int backupPriorInvalidIdx = lstFindIdx(
                                         backupResultPrior->invalidFileList, &priorFile);
 
-- 
2.43.0


From 4cb3328a3550c9125673e0a3826e0bd0158021ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 17/20] fix: remove files that will not be used at their
 location on resume

Resuming a backup made without bundling (or with a lower bundle limit, or with block incremental) failed because the file was not where the new options required it to be.
---
 src/command/backup/resume.c.inc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/command/backup/resume.c.inc b/src/command/backup/resume.c.inc
index 520d870..45687ad 100644
--- a/src/command/backup/resume.c.inc
+++ b/src/command/backup/resume.c.inc
@@ -108,6 +108,12 @@ backupResumeClean(
                             else if (file.size == 0)
                                 // ??? don't resume zero size files because Perl wouldn't -- can be removed after the migration)
                                 removeReason = "zero size";
+                            // The file is not where the backup would look for it when it will be bundled now or block incremental has
+                            // been disabled
+                            else if (cfgOptionBool(cfgOptRepoBundle) && file.size <= cfgOptionUInt64(cfgOptRepoBundleLimit))
+                                removeReason = "file will be bundled";
+                            else if (blockIncr && !cfgOptionBool(cfgOptRepoBlock))
+                                removeReason = "block incremental disabled";
                             else
                             {
                                 ASSERT(file.copy);
-- 
2.43.0


From 5d5a193e86d722492f317285ba3d57593b6ccf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 18/20] fix: do not hard link to files that are not stored
 separately

After a bundled full backup an incremental/differential backup with repo-hardlink failed because there was nothing to link to.
---
 src/command/backup/process.c.inc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/command/backup/process.c.inc b/src/command/backup/process.c.inc
index 265c13a..5d786e1 100644
--- a/src/command/backup/process.c.inc
+++ b/src/command/backup/process.c.inc
@@ -958,16 +958,19 @@ backupProcess(const BackupData *const backupData, Manifest *const manifest, cons
             // if hardlinking is enabled the link will need to be created.
             if (file.reference != NULL)
             {
-                // If hardlinking is enabled then create a hardlink for files that have not changed since the last backup
-                if (hardLink)
+                const String *const linkDestination = storagePathP(
+                    storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/%s/%s%s", strZ(file.reference), strZ(file.name), compressExt));
+
+                // If hardlinking is enabled then create a hardlink for files that have not changed since the last backup. If the
+                // referenced backup was bundled then there may be nothing to link to, i.e. the file is in a bundle, stored as block
+                // incremental, or is zero-length and so was not stored.
+                if (hardLink && file.bundleId == 0 && file.blockIncrMapSize == 0 &&
+                    (file.size != 0 || storageExistsP(storageRepo(), linkDestination)))
                 {
                     LOG_DETAIL_FMT("hardlink %s to %s", strZ(file.name), strZ(file.reference));
 
                     const String *const linkName = storagePathP(
                         storageRepo(), strNewFmt("%s/%s%s", strZ(backupPathExp), strZ(file.name), compressExt));
-                    const String *const linkDestination = storagePathP(
-                        storageRepo(),
-                        strNewFmt(STORAGE_REPO_BACKUP "/%s/%s%s", strZ(file.reference), strZ(file.name), compressExt));
 
                     storageLinkCreateP(storageRepoWrite(), linkDestination, linkName, .linkType = storageLinkHard);
                 }
-- 
2.43.0


From be4ffcdd6e46d469deb45c626b6f21be3958aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 19/20] fix: sync path of a segment that is already archived

If a prior push was terminated, or failed, after the segment was stored but before the path was synced then success was reported on retry though the segment might be lost on power loss.
---
 src/command/archive/push/file.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/command/archive/push/file.c b/src/command/archive/push/file.c
index bf745df..fa16770 100644
--- a/src/command/archive/push/file.c
+++ b/src/command/archive/push/file.c
@@ -211,6 +211,27 @@ archivePushFile(
                                 strZ(archiveFile), cfgOptionGroupName(cfgOptGrpRepo, repoData->repoIdx));
                         }
 
+                        // Sync the path since a prior push may have been terminated, or may have failed, after the segment was
+                        // stored but before the path was synced
+                        TRY_BEGIN()
+                        {
+                            const Storage *const storage = storageRepoIdxWrite(repoData->repoIdx);
+
+                            if (storageFeature(storage, storageFeaturePathSync))
+                            {
+                                storagePathSyncP(
+                                    storage,
+                                    strNewFmt(
+                                        STORAGE_REPO_ARCHIVE "/%s/%s", strZ(repoData->archiveId),
+                                        strZ(strSubN(walSegmentFile, 0, 16))));
+                            }
+                        }
+                        CATCH_ANY()
+                        {
+                            archivePushErrorAdd(errorList, repoData->repoIdx);
+                        }
+                        TRY_END();
+
                         // No need to copy to this repo
                         destinationCopy[repoListIdx] = false;
                     }
-- 
2.43.0


From 8ee70bd1c322f5b4975548e3c150f281dd8b2c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:55 +0000
Subject: [PATCH 20/20] fix: sync files preserved by a delta restore

The file may have been written by a prior restore that was terminated before the file was synced.
---
 src/command/restore/file.c.inc | 12 ++++++++++++
 src/command/restore/protocol.c |  2 ++
 2 files changed, 14 insertions(+)

diff --git a/src/command/restore/file.c.inc b/src/command/restore/file.c.inc
index fd98327..ea93beb 100644
--- a/src/command/restore/file.c.inc
+++ b/src/command/restore/file.c.inc
@@ -155,6 +155,18 @@ restoreFile(
                                          file->checksum,
                                          pckReadBinP(ioFilterGroupResultP(ioReadFilterGroup(read), CRYPTO_HASH_FILTER_TYPE)))))
                                 {
+                                    // Sync the file since it may have been written by a prior restore that was terminated before
+                                    // the file was synced
+                                    const int fd = open(fileName, O_RDONLY, 0);
+                                    THROW_ON_SYS_ERROR_FMT(
+                                        fd == -1, FileOpenError, "unable to open file '%s' for sync", fileName);
+
+                                    const int errNo = fsync(fd) == -1 ? errno : 0;
+                                    close(fd);
+
+                                    if (errNo != 0)
+                                        THROW_SYS_ERROR_CODE_FMT(errNo, FileSyncError, "unable to sync file '%s'", fileName);
+
                                     // If the checksum/size are now the same but the time is not, then set the time back to the
                                     // backup time. This helps with unit testing, but also presents a pristine version of the
                                     // database after restore.
diff --git a/src/command/restore/protocol.c b/src/command/restore/protocol.c
index 79958be..4621d04 100644
--- a/src/command/restore/protocol.c
+++ b/src/command/restore/protocol.c
@@ -3,6 +3,8 @@ Restore Protocol Handler
 ***********************************************************************************************************************************/
 #include <build.h>
 
+#include <errno.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <utime.h>
 
-- 
2.43.0

