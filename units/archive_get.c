// archive-get of one file: the destination holds exactly the archived data, from the first source that can be read
//@property C04
//@src src/command/archive/get/file.c
//@harness h_plain unwind=60 kind=bounded funcs=archiveGetFile replace=strLstAddFmt
//@bound three sources in two repositories, two bytes each; every combination of failures, missing files, wrong content
//@harness h_gz unwind=60 kind=bounded funcs=archiveGetFile replace=strLstAddFmt def=GZ
//@bound three sources in two repositories (compressed), two bytes each; every combination of failures
//@harness h_mix unwind=60 kind=bounded funcs=archiveGetFile replace=strLstAddFmt def=MIX
//@bound three sources in two repositories (compressed in different ways), two bytes each; every combination of failures
//@trust storage, IO and filters by contract (vlib/vio.c): any operation may fail, decoding with the wrong key or algorithm fails
//@creplace strResize
//@cdef VLIST_MAX=6 VIO_BYTE=2 VIO_READ=4
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "command/archive/get/file.h"
#define VLIST_TYPES                                                 VLIST_TYPE(ArchiveGetFile)
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/encode.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/vcompress.c"
#include "command/archive/get/file.c"

#ifdef REPLACE_strLstAddFmt
// Contract of strLstAddFmt: one entry is added (messages are not observed)
String *strLstAddFmt(StringList *const this, const char *const format, ...) {return strLstAddZ(this, "message");}
#endif

#define SOURCE                                                      3

#if defined(GZ)
#define EXT0                                                        ".gz"
#define EXT1                                                        ".gz"
#define EXT2                                                        ".gz"
static const CompressType gType[SOURCE] = {compressTypeGz, compressTypeGz, compressTypeGz};
#elif defined(MIX)
#define EXT0                                                        ".gz"
#define EXT1                                                        ""
#define EXT2                                                        ".lz4"
static const CompressType gType[SOURCE] = {compressTypeGz, compressTypeNone, compressTypeLz4};
#else
#define EXT0                                                        ""
#define EXT1                                                        ""
#define EXT2                                                        ""
static const CompressType gType[SOURCE] = {compressTypeNone, compressTypeNone, compressTypeNone};
#endif

static struct CipherSpecTest {CipherSpecPub pub;} gSpec[2];
static unsigned int gTried, gFailed;                                // sources opened so far; sources that failed
static VioData gContent[SOURCE];                                    // what each source holds
static bool gGood[SOURCE];                                          // source holds what its name and repository say
static bool gBroken[SOURCE];                                        // source is missing, damaged, or an operation on it may fail
static int gStored = -1;                                            // source whose data was written last without error

static const unsigned int gRepo[SOURCE] = {0, 1, 1};
static const StringPubConst gFile[SOURCE] =
{
    {.size = sizeof("12-1/a" EXT0) - 1, .buffer = "12-1/a" EXT0}, {.size = sizeof("12-1/b" EXT1) - 1, .buffer = "12-1/b" EXT1},
    {.size = sizeof("12-2/c" EXT2) - 1, .buffer = "12-2/c" EXT2},
};
static const char *const gPath[SOURCE] =
{
    STORAGE_REPO_ARCHIVE "/12-1/a" EXT0, STORAGE_REPO_ARCHIVE "/12-1/b" EXT1, STORAGE_REPO_ARCHIVE "/12-2/c" EXT2,
};

static bool
vioOpen(StorageRead *const file, VioData *const data)
{
    CHECK_OB("no source is read after a success", gStored < 0);
    CHECK_OB("sources are tried in order, each once", gTried < SOURCE);
    ASSUME(gTried < SOURCE);
    CHECK_OB("source is read from its repository under its name", file->storage->id == vioRepo + gRepo[gTried] && strEqZ(file->pub.name, gPath[gTried]));
    CHECK_OB("whole source is read", file->pub.offset == 0 && file->pub.limit == NULL);
    const bool missing = IN_BOOL("missing");
    verif_fault_enabled = IN_BOOL("faulty");
    gBroken[gTried] = missing || verif_fault_enabled || !gGood[gTried];
    *data = gContent[gTried++];
    return !missing;
}

static void
vioWriteOpen(StorageWrite *const file)
{
    CHECK_OB("destination is the requested one", file->storage->id == vioPg && strEqZ(file->pub.name, "pg_wal/RECOVERYXLOG"));
    CHECK_OB("destination is truncated", file->pub.truncate);
}

static void
vioWritten(StorageWrite *const file, const VioData *const data)
{
    VioData plain = gContent[gTried - 1];
    plain.tagTotal = 0;
    CHECK_OB("destination holds exactly the archived data, decrypted and decompressed", vioDataEq(data, &plain));
    CHECK_OB("data in another form than the archive's is rejected", gGood[gTried - 1]);
    gStored = (int)gTried - 1;
}

static void
get(void)
{
    static uint8_t key[2] = {1, 2};
    static BufferPub pass[2];
    static ArchiveGetFile actual[SOURCE];
    List *const actualList = lstNewP(sizeof(ArchiveGetFile));

    for (unsigned int i = 0; i < 2; i++)
    {
        pass[i] = (BufferPub){.used = 1, .sizeAlloc = 1, .buffer = &key[i]};
        gSpec[i].pub.type = i == 0 ? cipherTypeNone : cipherTypeAes256Cbc;
        gSpec[i].pub.pass = i == 0 ? NULL : (const Buffer *)&pass[i];
    }

    for (unsigned int i = 0; i < SOURCE; i++)
    {
        actual[i] = (ArchiveGetFile){
            .file = (const String *)&gFile[i], .repoIdx = gRepo[i], .cipherSpecArchive = (const CipherSpec *)&gSpec[gRepo[i]]};
        lstAdd(actualList, &actual[i]);

        // Stored form as the name and the repository say, or compressed or encrypted in another way (damaged, wrong key)
        gContent[i] = (VioData){.size = 2, .byte = {(uint8_t)(10 * i + 11), IN_U8("byte")}};
        gGood[i] = true;
        if (gType[i] != compressTypeNone)
            gContent[i].tag[gContent[i].tagTotal++] = (VioTag){.kind = vioCompress, .param = gType[i]};

        if (gRepo[i] == 1)
            gContent[i].tag[gContent[i].tagTotal++] = (VioTag){.kind = vioEncrypt, .param = 2};

        if (gContent[i].tagTotal > 0 && IN_BOOL("damaged"))
        {
            gContent[i].tag[0].param = 7;
            gGood[i] = false;
        }
    }

    COVER("called");

    TRY_BEGIN()
    {
        const ArchiveGetFileResult result = archiveGetFile(
            storagePgWrite(), STRDEF("000000010000000100000001"), actualList, STRDEF("pg_wal/RECOVERYXLOG"));

        CHECK_OB("success only when a source was copied in full", gStored >= 0);
        CHECK_OB("result names the source that was copied", (int)result.actualIdx == gStored);
        CHECK_OB("every failed source is reported", strLstSize(result.warnList) == result.actualIdx);

        COVER("copied");

        if (result.actualIdx == 2)
            COVER("last source");
    }
    CATCH_FATAL()
    {
        CHECK_OB("error only when no source could be copied", gStored < 0 && gTried == SOURCE);
        CHECK_OB("a source that can be read is copied", gBroken[0] && gBroken[1] && gBroken[2]);
        CHECK_OB("failure is a read error", errorType() == &FileReadError);
        COVER("none");
    }
    TRY_END();
}

void h_plain(void) {get();}
void h_gz(void) {get();}
void h_mix(void) {get();}
