// archive-push of one file: acknowledged only when every repository holds it, never over a different segment
//@property C02
//@src src/command/archive/push/file.c
//@harness h_segmentGz unwind=100 kind=bounded funcs=archivePushFile replace=strLstAddFmt
//@bound two repositories (one encrypted), a source of two pieces; every combination of failures, existing segments and checks
//@harness h_segmentPlain unwind=100 kind=bounded funcs=archivePushFile replace=strLstAddFmt
//@bound two repositories (one encrypted), a source of two pieces; every combination of failures, existing segments and checks
//@harness h_segmentGzError unwind=100 kind=bounded funcs=archivePushFile replace=strLstAddFmt def=PRIOR_ERROR
//@bound as above, with an error of another repository reported before
//@harness h_history unwind=100 kind=bounded funcs=archivePushFile replace=strLstAddFmt
//@bound two repositories (one encrypted), a history file of two pieces; every combination of failures
//@trust storage, IO and filters by contract (vlib/vio.c): any operation may fail, hashes do not collide
//@trust walSegmentFindOne() and pgWalFromFile() by contract; walIsSegment() by contract (regular expressions are outside the verifier's reach)
//@creplace strResize
//@cdef VLIST_MAX=6 VIO_BYTE=2 VIO_READ=4
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "command/archive/push/file.h"
#define VLIST_TYPES                                                 VLIST_TYPE(ArchivePushFileRepoData)
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/encode.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/vcompress.c"
#include "command/archive/push/file.c"

#ifdef REPLACE_strLstAddFmt
// Contract of strLstAddFmt: one entry is added (messages are not observed)
String *strLstAddFmt(StringList *const this, const char *const format, ...) {return strLstAddZ(this, "message");}
#endif

#define REPO                                                        2
#define FILE_SEGMENT                                                "000000010000000100000001"
#define FILE_HISTORY                                                "00000002.history"

static bool gSegment, gHeader;
static const char *gFile;
static CompressType gCompress;
static uint32_t gVersion; static uint64_t gSystemId;
static bool gMismatch;                                              // WAL header does not match the stanza
static unsigned int gExist[REPO];                                   // 0: none, 1: same checksum, 2: different checksum
static char gExistHash[REPO][HASH_TYPE_SHA1_SIZE_HEX];
static bool gFindFail[REPO], gRepoFail[REPO], gStored[REPO], gOpened[REPO];
static bool gSourceFail;
static struct CipherSpecTest {CipherSpecPub pub;} gSpec[REPO];
static char gName[REPO][160];                                       // expected destination

static const VioData gSource = {.size = 2, .byte = {11, 22}};
static char gHash[41];

bool walIsSegment(const String *const file) {return gSegment;}

PgWal
pgWalFromFile(const String *const walFile, const Storage *const storage, const String *const pgVersionForce)
{
    CHECK_OB("header is read from the file being pushed", strEqZ(walFile, "pg_wal/x") && storage->id == vioLocal);
    gHeader = true;

    if (IN_BOOL("wal_fail"))
    {
        gSourceFail = true;
        THROW(FormatError, "");
    }

    const PgWal result = {.version = IN_U32("wal_version"), .systemId = IN_U64("wal_id")};
    gMismatch = result.version != gVersion || result.systemId != gSystemId;
    return result;
}

String *pgVersionToStr(const unsigned int v) {return strNewZ("v");}

String *
walSegmentFindOne(const Storage *const storage, const String *const archiveId, const String *const walSegment, const TimeMSec timeout)
{
    const unsigned int repo = storage->id - vioRepo;
    CHECK_OB("existing segment is looked up in the repository's own archive", storage->id >= vioRepo && repo < REPO && strEqZ(archiveId, repo == 0 ? "12-1" : "12-2"));
    CHECK_OB("existing segment is looked up by the name of the file", strEqZ(walSegment, gFile));
    CHECK_OB("header is checked before the repositories are consulted", !gMismatch);

    if (gFindFail[repo])
        THROW(FileOpenError, "");

    if (gExist[repo] == 0)
        return NULL;

    // The checksum of the existing segment: any text of its length that is the same as, or different from, that of the file
    String *const result = strNewFmt("%s-%s%s", gFile, gHash, repo == 0 ? ".gz" : "");
    bool same = true;

    for (unsigned int i = 0; i < HASH_TYPE_SHA1_SIZE_HEX; i++)
    {
        char *const at = (char *)strZ(result) + (gSegment ? sizeof(FILE_SEGMENT) : sizeof(FILE_HISTORY)) + i;
        const char c = gExistHash[repo][i];
        same = same && c == *at;
        *at = c;
    }

    ASSUME(same == (gExist[repo] == 1));
    return result;
}

static bool
vioOpen(StorageRead *const file, VioData *const data)
{
    CHECK_OB("only the WAL file is read", file->storage->id == vioLocal && strEqZ(file->pub.name, "pg_wal/x"));
    CHECK_OB("whole WAL file is read", file->pub.offset == 0 && file->pub.limit == NULL);
    *data = gSource;
    return !IN_BOOL("source_missing");
}

static void
vioWriteOpen(StorageWrite *const file)
{
    const unsigned int repo = file->storage->id - vioRepo;
    CHECK_OB("file is written to a repository", file->storage->id >= vioRepo && repo < REPO);
    CHECK_OB("file is written under the archive id with its checksum", strEqZ(file->pub.name, gName[repo]));
    CHECK_OB("existing segment is never written again", !gSegment || gExist[repo] == 0);
    CHECK_OB("nothing is written when any repository holds a different segment", !gSegment || ((gFindFail[0] || gExist[0] != 2) && (gFindFail[1] || gExist[1] != 2)));
    CHECK_OB("nothing is written when the WAL header does not match", !gMismatch);
    CHECK_OB("file is opened once in a repository", !gOpened[repo]);
    CHECK_OB("file is written atomically and durably", file->pub.atomic && file->pub.syncFile && file->pub.syncPath && file->pub.truncate);
    gOpened[repo] = true;
}

static void
vioWritten(StorageWrite *const file, const VioData *const data)
{
    const unsigned int repo = file->storage->id - vioRepo;

    VioData expect = gSource;

    if (gSegment && gCompress != compressTypeNone)
        expect.tag[expect.tagTotal++] = (VioTag){.kind = vioCompress, .param = gCompress};

    if (gSpec[repo].pub.type != cipherTypeNone)
        expect.tag[expect.tagTotal++] = (VioTag){.kind = vioEncrypt, .param = repo + 1};

    CHECK_OB("stored file is the whole source, compressed and encrypted as configured", vioDataEq(data, &expect));
    gStored[repo] = true;
}

static void
push(const bool segment, const CompressType compress, const bool priorError)
{
    gSegment = segment;
    gFile = segment ? FILE_SEGMENT : FILE_HISTORY;
    gCompress = compress;
    gVersion = IN_U32("version");
    gSystemId = IN_U64("systemId");

    Buffer *const hash = vioDataHash(&gSource, HASH_TYPE_SHA1_SIZE);
    encodeToStr(encodingHex, bufPtrConst(hash), 20, gHash);
    vcfgNone(cfgOptPgVersionForce, 0);

    static const StringPubConst archiveId[REPO] = {{.size = 4, .buffer = "12-1"}, {.size = 4, .buffer = "12-2"}};
    static uint8_t key[REPO] = {1, 2};
    static BufferPub pass[REPO];
    static ArchivePushFileRepoData repo[REPO];
    List *const repoList = lstNewP(sizeof(ArchivePushFileRepoData));

    for (unsigned int i = 0; i < REPO; i++)
    {
        pass[i] = (BufferPub){.used = 1, .sizeAlloc = 1, .buffer = &key[i]};
        gSpec[i].pub.type = i == 0 ? cipherTypeNone : cipherTypeAes256Cbc;
        gSpec[i].pub.pass = i == 0 ? NULL : (const Buffer *)&pass[i];
        gExist[i] = (unsigned int)IN_UPTO("exist", 2);

        for (unsigned int h = 0; h < HASH_TYPE_SHA1_SIZE_HEX; h++)
        {
            gExistHash[i][h] = (char)IN_U8("existHash");
            ASSUME(gExistHash[i][h] != 0);
        }

        gFindFail[i] = IN_BOOL("find_fail");
        vioZCat(gName[i], STORAGE_REPO_ARCHIVE);
        vioZCat(gName[i], i == 0 ? "/12-1/" : "/12-2/");
        vioZCat(gName[i], gFile);

        if (segment)
        {
            vioZCat(gName[i], "-");
            vioZCat(gName[i], gHash);

            if (compress != compressTypeNone)
                vioZCat(gName[i], ".gz");
        }

        repo[i] = (ArchivePushFileRepoData){
            .repoIdx = i, .archiveId = (const String *)&archiveId[i], .cipherSpecArchive = (const CipherSpec *)&gSpec[i]};
        lstAdd(repoList, &repo[i]);
    }

    StringList *const prior = strLstNew();

    if (priorError)
        strLstAddZ(prior, "error");

    const bool headerCheck = IN_BOOL("headerCheck");
    const bool modeCheck = IN_BOOL("modeCheck");
    const bool different =
        segment && ((!gFindFail[0] && gExist[0] == 2) || (!gFindFail[1] && gExist[1] == 2));

    COVER("called");

    TRY_BEGIN()
    {
        const ArchivePushFileResult result = archivePushFile(
            STRDEF("pg_wal/x"), headerCheck, modeCheck, gVersion, gSystemId, segment ? STRDEF(FILE_SEGMENT) : STRDEF(FILE_HISTORY),
            compress, 3, repoList, prior);

        CHECK_OB("success only when the header was checked as requested and matches", !headerCheck || !segment || (gHeader && !gMismatch));
        CHECK_OB("success only without errors on other repositories", !priorError);
        CHECK_OB("success only when no repository holds a different segment", !different);

        unsigned int same = 0;

        for (unsigned int i = 0; i < REPO; i++)
        {
            const bool exist = segment && !gFindFail[i] && gExist[i] == 1;
            same += exist;
            CHECK_OB("success only when every repository holds the file", gStored[i] || exist);
        }

        CHECK_OB("existing identical segment is reported when requested", strLstSize(result.warnList) == (modeCheck ? same : 0));
#ifndef PRIOR_ERROR
        COVER("pushed");
#endif
    }
    CATCH_FATAL()
    {
        CHECK_OB(
            "header mismatch is reported as such", !(headerCheck && segment && gMismatch) || errorType() == &ArchiveMismatchError);
        CHECK_OB("mismatch error only on mismatch", errorType() != &ArchiveMismatchError || gMismatch);
        CHECK_OB("duplicate error only when a repository holds a different segment", errorType() != &ArchiveDuplicateError || different);
        CHECK_OB("no assertion of the code fails", errorType() != &AssertError);
        COVER("error");

        // No failure that belongs to one repository prevents the other from getting the file
        if (errorType() == &CommandError)
        {
            CHECK_OB("different segment is a duplicate error", !different);

            for (unsigned int i = 0; i < REPO; i++)
            {
                // Failures of a repository itself are visible as open or not stored
                if (!segment || (!gFindFail[i] && gExist[i] == 0))
                    CHECK_OB("every repository that needs the file is tried", gOpened[i]);
            }

            if (gStored[0] != gStored[1])
                COVER("one repository stored");
        }
    }
    TRY_END();
}

void h_segmentGz(void) {push(true, compressTypeGz, false);}
void h_segmentGzError(void) {push(true, compressTypeGz, true);}
void h_segmentPlain(void) {push(true, compressTypeNone, false);}
void h_history(void) {push(false, compressTypeGz, false);}
