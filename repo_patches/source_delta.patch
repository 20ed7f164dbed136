From a833f9837b2ea6b6f723023a91ecbb9c431a3b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:35 +0000
Subject: [PATCH 1/8] fix: reject characters above 127 when decoding base64 and
 hex

The lookup tables were indexed with a signed character, so a character above 127 read before the start of the table and might be
accepted as valid.
---
 src/common/encode.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/encode.c b/src/common/encode.c
index 69a3a61..3b0acb6 100644
--- a/src/common/encode.c
+++ b/src/common/encode.c
@@ -141,7 +141,7 @@ decodeToBinValidateBase64(const char *const source)
         else
         {
             // Error on any invalid characters
-            if (decodeBase64Lookup[(int)source[sourceIdx]] == -1)
+            if (decodeBase64Lookup[(uint8_t)source[sourceIdx]] == -1)
                 THROW_FMT(FormatError, "base64 invalid character found at position %u", sourceIdx);
         }
     }
@@ -376,7 +376,7 @@ decodeToBinValidateHex(const char *const source)
     // Check all characters
     for (unsigned int sourceIdx = 0; sourceIdx < sourceSize; sourceIdx++)
     {
-        if (decodeHexLookup[(int)source[sourceIdx]] == -1)
+        if (decodeHexLookup[(uint8_t)source[sourceIdx]] == -1)
             THROW_FMT(FormatError, "hex invalid character found at position %u", sourceIdx);
     }
 
-- 
2.43.0


From 9bfd4ef3c98314d44b22170cfc0213a5b2c115a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:52 +0000
Subject: [PATCH 2/8] fix: calculate epoch in time_t rather than int

The seconds since 1970 were calculated with int arithmetic, so the epoch of a date in 2039 or later (and of most of 2038) overflowed.
---
 src/common/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/time.c b/src/common/time.c
index 1156ac3..da4928f 100644
--- a/src/common/time.c
+++ b/src/common/time.c
@@ -184,6 +184,6 @@ epochFromParts(
     FUNCTION_TEST_RETURN(
         TIME,
         -1 * tzOffsetSecond + second + minute * 60 + hour * 3600 +
-        (dayOfYear(year, month, day) - 1) * 86400 + (year - 1900 - 70) * 31536000 +
+        (dayOfYear(year, month, day) - 1) * 86400 + (time_t)(year - 1900 - 70) * 31536000 +
         ((year - 1900 - 69) / 4) * 86400 - ((year - 1900 - 1) / 100) * 86400 + ((year - 1900 + 299) / 400) * 86400);
 }
-- 
2.43.0


From ffba544ddc237b8e05a385a07996460db5a7913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:52 +0000
Subject: [PATCH 3/8] fix: keep the sign of a timezone offset of less than an
 hour

The sign was applied to the hour only, so an offset such as -00:30 was treated as +00:30.
---
 src/common/type/convert.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/common/type/convert.c b/src/common/type/convert.c
index c6e7dbd..c286f84 100644
--- a/src/common/type/convert.c
+++ b/src/common/type/convert.c
@@ -635,7 +635,8 @@ cvtZToTime(const char *const time)
     // Add timezone offset when present
     if ((*part == '+' || *part == '-') && strlen(part) >= 3)
     {
-        const int offsetHour = cvtZNToTimePart(time, part + 1, 2) * (*part == '-' ? -1 : 1);
+        const bool offsetNegative = *part == '-';
+        const int offsetHour = cvtZNToTimePart(time, part + 1, 2) * (offsetNegative ? -1 : 1);
         part += 3;
 
         // Offset separator is optional
@@ -655,8 +656,10 @@ cvtZToTime(const char *const time)
         if (*part != 0)
             THROW_FMT(FormatError, "invalid date/time %s", time);
 
-        FUNCTION_TEST_RETURN(
-            TIME, epochFromParts(year, month, day, hour, minute, second, tzOffsetSeconds(offsetHour, offsetMinute)));
+        // An hour of zero does not carry the sign of the offset, e.g. -00:30
+        const int offset = tzOffsetSeconds(offsetHour, offsetMinute) * (offsetNegative && offsetHour == 0 ? -1 : 1);
+
+        FUNCTION_TEST_RETURN(TIME, epochFromParts(year, month, day, hour, minute, second, offset));
     }
 
     // Make sure there is nothing left over
-- 
2.43.0


From bfd987abdac8686041b3879915180bdf82a0e0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:34:32 +0000
Subject: [PATCH 4/8] fix: Remove expired history manifests in the repository
 being expired.

The history was listed in the default repository, so when expire ran for more than one repository the expired history manifests of
the others were never removed.
---
 src/command/expire/expire.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/command/expire/expire.c b/src/command/expire/expire.c
index eb78104..e6232e5 100644
--- a/src/command/expire/expire.c
+++ b/src/command/expire/expire.c
@@ -957,7 +957,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
             // Get all history years
             const StringList *const historyYearList = strLstSort(
                 storageListP(
-                    storageRepo(), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY), .expression = STRDEF("^2[0-9]{3}$")),
+                    storageRepoIdx(repoIdx), STRDEF(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY),
+                    .expression = STRDEF("^2[0-9]{3}$")),
                 sortOrderAsc);
 
             for (unsigned int historyYearIdx = 0; historyYearIdx < strLstSize(historyYearList); historyYearIdx++)
@@ -984,7 +985,8 @@ removeExpiredHistory(const InfoBackup *const infoBackup, const unsigned int repo
                 {
                     const StringList *const historyList = strLstSort(
                         storageListP(
-                            storageRepo(), strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
+                            storageRepoIdx(repoIdx),
+                            strNewFmt(STORAGE_REPO_BACKUP "/" BACKUP_PATH_HISTORY "/%s", strZ(historyYear)),
                             .expression = strNewFmt(
                                 "%s\\.manifest\\.%s$",
                                 strZ(backupRegExpP(.full = true, .differential = true, .incremental = true, .noAnchorEnd = true)),
-- 
2.43.0


From 88e7c355b415bdf3be68f441f8ef0ce02cf67bbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:14 +0000
Subject: [PATCH 5/8] fix: do not hold a lock on a lock file that was removed
 by another process

lockAcquire() opens the lock file and then locks it. When the process that held the lock removed the file and released the lock in
between, the lock was acquired on a file that no longer exists at the lock path, so another process could create the file and acquire
the lock at the same time. Check that the locked file is still the file at the lock path and try again if not.
---
 src/common/lock.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/common/lock.c b/src/common/lock.c
index bc5d83e..3024c3f 100644
--- a/src/common/lock.c
+++ b/src/common/lock.c
@@ -7,6 +7,7 @@ Lock Handler
 #include <fcntl.h>
 #include <string.h>
 #include <sys/file.h>
+#include <sys/stat.h>
 #include <unistd.h>
 
 #include "common/debug.h"
@@ -238,6 +239,21 @@ lockAcquire(const String *const lockFileName, const LockAcquireParam param)
                     else
                         fd = -1;
                 }
+                else
+                {
+                    // The process that held the lock removes the file before releasing the lock, so the file locked here may no
+                    // longer be the file at this path. A lock on a removed file does not exclude other processes, so try again.
+                    struct stat fdStat;
+                    struct stat pathStat;
+
+                    if (fstat(fd, &fdStat) == -1 || stat(strZ(lockFilePath), &pathStat) == -1 ||
+                        fdStat.st_dev != pathStat.st_dev || fdStat.st_ino != pathStat.st_ino)
+                    {
+                        close(fd);
+                        fd = -1;
+                        retry = true;
+                    }
+                }
             }
         }
         while (fd == -1 && retry);
-- 
2.43.0


From b7fa116cea12544098364edc22a08c0804b42de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:14 +0000
Subject: [PATCH 6/8] fix: acquire all command locks or none when returning
 without a lock

With more than one repository cmdLockAcquire() locks a file per repository but only reported the result of the last one. If the first
lock was not acquired but the last one was then the command continued without holding all locks, and when it was the other way around
the locks already acquired were kept so the next attempt failed with an assertion.
---
 src/command/lock.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/command/lock.c b/src/command/lock.c
index 68622e4..b960fa7 100644
--- a/src/command/lock.c
+++ b/src/command/lock.c
@@ -102,7 +102,16 @@ cmdLockAcquire(const LockAcquireParam param)
         const StringList *const lockList = cfgOptionTest(cfgOptLock) ? strLstNewVarLst(cfgOptionLst(cfgOptLock)) : cmdLockList();
 
         for (unsigned int lockListIdx = 0; lockListIdx < strLstSize(lockList); lockListIdx++)
+        {
             result = lockAcquire(strLstGet(lockList, lockListIdx), param);
+
+            // If a lock could not be acquired then release the locks already acquired so the result is all locks or none
+            if (!result)
+            {
+                lockReleaseP(.returnOnNoLock = true);
+                break;
+            }
+        }
     }
     MEM_CONTEXT_TEMP_END();
 
-- 
2.43.0


From 62aa904e56e5b8e3cc610a621b5a256e601abbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:18 +0000
Subject: [PATCH 7/8] fix: find JSON keys exactly and skip JSON strings with
 escapes exactly

jsonReadKeyExpect() took a key that is a prefix of the expected key for the expected key, so the value of another key was returned.
jsonReadSkip() lost the closing quote of a string that ends with a unicode escape, rejected unicode escapes with letters, and read
beyond the end of a string that ends in an escape.
---
 src/common/type/json.c | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/common/type/json.c b/src/common/type/json.c
index d82cedc..c7bf585 100644
--- a/src/common/type/json.c
+++ b/src/common/type/json.c
@@ -635,8 +635,8 @@ jsonReadKeyExpect(JsonRead *const this, const String *const key)
         const JsonReadKeyInternalResult keyNext = jsonReadKeyZN(this);
         const int compare = strncmp(strZ(key), keyNext.buffer, keyNext.size);
 
-        // Return true if key matches
-        if (compare == 0)
+        // Return true if key matches. The actual key may also be a prefix of the requested key, in which case it is before it.
+        if (compare == 0 && strSize(key) == keyNext.size)
         {
             result = true;
             break;
@@ -820,18 +820,23 @@ jsonReadSkipStr(JsonRead *const this)
 
                     for (; digitIdx < 4; digitIdx++)
                     {
-                        if (!isdigit(this->json[digitIdx]))
+                        if (!isxdigit(this->json[digitIdx]))
                             break;
                     }
 
                     if (digitIdx != 4)
                         THROW_FMT(JsonFormatError, "unable to decode at: %s", this->json - 2);
 
-                    this->json += 4;
+                    // Advance to the last digit
+                    this->json += 3;
 
                     break;
                 }
 
+                // End of data
+                case '\0':
+                    THROW(JsonFormatError, "expected '\"' but found null delimiter");
+
                 // Any other escape
                 default:
                     break;
-- 
2.43.0


From 3108ebe8ae0d822065a34bbcc76505b129ff710e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:22 +0000
Subject: [PATCH 8/8] fix: reject a JSON unicode escape that is cut off instead
 of reading beyond the end

---
 src/common/type/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/type/json.c b/src/common/type/json.c
index c7bf585..f46c02c 100644
--- a/src/common/type/json.c
+++ b/src/common/type/json.c
@@ -1020,7 +1020,7 @@ jsonReadStr(JsonRead *const this)
                     this->json++;
 
                     // We don't know how to decode anything except ASCII so fail if it looks like Unicode
-                    if (strncmp(this->json, "00", 2) != 0)
+                    if (strncmp(this->json, "00", 2) != 0 || !isxdigit(this->json[2]) || !isxdigit(this->json[3]))
                         THROW_FMT(JsonFormatError, "unable to decode at: %s", this->json - 2);
 
                     // Decode char
-- 
2.43.0

