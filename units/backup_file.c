// backup of the files of one repository file: what is recorded in the manifest is what was stored
//@property C08
//@src src/command/backup/protocol.c src/command/backup/file.c.inc
//@harness h_copyBundle unwind=60 kind=bounded funcs=backupFile def=BUNDLE
//@bound two files of two and one bytes in a bundle, any content, read in pieces; every failure; each file may be missing
//@harness h_copyBundleOne unwind=60 kind=bounded funcs=backupFile def=BUNDLE,CHUNK=0
//@bound as h_copyBundle, each file read at once
//@harness h_copyBundleLate unwind=60 kind=bounded funcs=backupFile def=BUNDLE,CHUNK=0,LATE
//@bound as h_copyBundle, end of file found late
//@harness h_copyGzAes unwind=60 kind=bounded funcs=backupFile def=GZ,AES
//@bound one file of two bytes, compressed and encrypted
//@harness h_copyBundleGzAes unwind=60 kind=bounded funcs=backupFile def=BUNDLE,GZ,AES,RAW
//@bound as h_copyBundle, compressed and encrypted
//@harness h_copyAes unwind=60 kind=bounded funcs=backupFile def=BUNDLE,AES
//@bound as h_copyBundle, encrypted
//@harness h_grown unwind=60 kind=bounded funcs=backupFile def=BUNDLE,EXACT,S0=3,GZ
//@bound as h_copyBundle, the first file has grown to three bytes and is copied up to its original size
//@harness h_truncate unwind=60 kind=bounded funcs=backupFile def=BUNDLE,S0=0,CHUNK=0,GZ
//@bound as h_copyBundle, the first file is empty
//@harness h_truncateSingle unwind=60 kind=bounded funcs=backupFile def=S0=0
//@bound one empty file stored alone
//@harness h_reference unwind=60 kind=bounded funcs=backupFile def=BUNDLE,REFERENCE,CHUNK=0
//@bound as h_copyBundle, the first file has a reference to a prior backup
//@harness h_referenceChunk unwind=60 kind=bounded funcs=backupFile def=BUNDLE,REFERENCE
//@bound as h_reference, read in pieces
//@harness h_deltaReference unwind=60 kind=bounded funcs=backupFile def=BUNDLE,REFERENCE,DELTA
//@bound as h_reference, compared before the copy; the file may change in between
//@harness h_deltaReferenceExact unwind=60 kind=bounded funcs=backupFile def=BUNDLE,REFERENCE,DELTA,EXACT,S0=3
//@bound as h_deltaReference, the file has grown
//@harness h_resume unwind=60 kind=bounded funcs=backupFile def=RESUME,GZ
//@bound one file of two bytes, the repository has a file of a prior attempt with any content
//@harness h_resumePlain unwind=60 kind=bounded funcs=backupFile def=RESUME
//@bound as h_resume, not compressed
//@harness h_resumeDelta unwind=60 kind=bounded funcs=backupFile def=RESUME,DELTA,GZ
//@bound as h_resume, compared before the copy
//@harness h_page unwind=60 kind=bounded funcs=backupFile def=BUNDLE,PAGE
//@bound as h_copyBundle, page checksums of the first file are validated
//@harness h_control unwind=60 kind=bounded funcs=backupFile def=CONTROL
//@bound one file of two bytes, pg_control
//@harness h_block unwind=60 kind=bounded funcs=backupFile def=BUNDLE,BLOCK,GZ,AES,RAW
//@bound as h_copyBundle, both files block incremental without prior map
//@harness h_blockPrior unwind=60 kind=bounded funcs=backupFile def=BUNDLE,BLOCK,PRIOR,REFERENCE,CHUNK=0
//@bound as h_block, both files with a prior map of one byte
//@harness h_blockPriorAes unwind=60 kind=bounded funcs=backupFile def=BUNDLE,BLOCK,PRIOR,AES,REFERENCE,CHUNK=0,VIO_TAG_SIZE=0
//@bound as h_blockPrior, encrypted
//@trust storage, IO and filters by contract (vlib/vio.c): any operation may fail, hashes do not collide
//@trust pgControlBufferFromFile(), pageChecksumNew(), blockIncrNew() by contract; regExpMatchOne() and cvtZToUInt() by contract in segmentNumber()
//@creplace strResize
//@cdef VLIST_MAX=4 VIO_BYTE=4 VIO_READ=16 VIO_MULTI=2 VIO_OWN_PACK VIO_OWNER=4 VIO_FILTER=8
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#define VLIST_LATE
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/encode.c"
#include "common/type/variant.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/vcompress.c"
#include "command/backup/protocol.c"

#undef VLIST_TYPES
#define VLIST_TYPES                                                 VLIST_TYPE(BackupFile) VLIST_TYPE(BackupFileResult)
#include "vlib/vlistItem.c"

// Hash of an empty stream (vioDataHash())
BUFFER_EXTERN(HASH_TYPE_SHA1_ZERO_BUF, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0);

#ifdef BUNDLE
#define FILE_TOTAL                                                  2
#define BUNDLE_ID                                                   5
#else
#define FILE_TOTAL                                                  1
#define BUNDLE_ID                                                   0
#endif
#ifndef S0
#define S0                                                          2
#endif
#ifndef CHUNK
#define CHUNK                                                       1
#endif
#ifdef RAW
#define RAW_ADD                                                     32
#else
#define RAW_ADD                                                     0
#endif

static struct CipherSpecTest {CipherSpecPub pub;} gSpec;
static uint8_t gKey[1] = {3};
static BufferPub gPass = {.used = 1, .sizeAlloc = 1, .buffer = gKey};

#ifdef CONTROL
#define NAME0                                                       PG_PATH_GLOBAL "/" PG_FILE_PGCONTROL
#else
#define NAME0                                                       "base/1/2.7"
#endif
static const StringPubConst gName[2] = {{.size = sizeof(NAME0) - 1, .buffer = NAME0}, {.size = 8, .buffer = "base/1/3"}};
static const StringPubConst gManifest[2] = {{.size = 10, .buffer = "manifest/a"}, {.size = 10, .buffer = "manifest/b"}};
static const StringPubConst gRepoFile = {.size = 8, .buffer = "repofile"}, gMapFile = {.size = 7, .buffer = "mapfile"};
static const StringPubConst gVersion = {.size = 2, .buffer = "12"};

static BackupFile gFile[FILE_TOTAL];
static VioData gPrior[2];                                           // content with the recorded checksum and size
static VioData gSeen[2];                                            // content of the cluster file at its last read (up to the limit)
static bool gMissing[2], gChanged[2];
static unsigned int gRead[2];                                       // reads of each cluster file
static bool gMatch[2];                                              // a read gave the recorded content
static VioData gResume;                                             // repository file of a prior attempt
static VioData gMap;                                                // prior block maps
static VioData gWrite;                                              // what was written
static unsigned int gWriteOpen, gWriteClose, gRemove, gPage;
static uint8_t gBuffer[2]; static BufferPub gControl;

const Storage *storageRepo(void) {return storageRepoIdx(0);}
const Storage *storageRepoWrite(void) {return storageRepoIdxWrite(0);}
String *storagePath(const Storage *const this, const String *const pathExp, const StoragePathParam param) {return (String *)pathExp;}

bool pgPageSizeValid(const PgPageSize pageSize) {return pageSize == pgPageSize8;}

static unsigned int
fileIdx(const String *const name)
{
    const bool second = FILE_TOTAL > 1 && name == (const String *)&gName[1];
    CHECK_OB("only the listed files are read", second || name == (const String *)&gName[0]);
    return second ? 1 : 0;
}

// The cluster file may be changed by the server between two reads
static void
clusterRead(const unsigned int idx, VioData *const data)
{
    if (gRead[idx]++ > 0)
        for (unsigned int i = 0; i < 3; i++)
            gSeen[idx].byte[i] = IN_U8("content");

    *data = gSeen[idx];
}

static bool
vioOpen(StorageRead *const file, VioData *const data)
{
    if (file->storage->id == vioPg)
    {
        const unsigned int idx = fileIdx(file->pub.name);
        CHECK_OB("file is read from its begin", file->pub.offset == 0);
        CHECK_OB("file is read up to its original size exactly when requested", (file->pub.limit != NULL) == gFile[idx].pgFileCopyExactSize && (file->pub.limit == NULL || varUInt64(file->pub.limit) == gFile[idx].pgFileSizeOriginal));
        CHECK_OB("a missing file is ignored exactly when requested", file->pub.ignoreMissing == gFile[idx].pgFileIgnoreMissing);
#ifdef CONTROL
        CHECK_OB("pg_control is read with validation", false);
#endif
        clusterRead(idx, data);

        VioData limited = *data;

        if (file->pub.limit != NULL && limited.size > varUInt64(file->pub.limit))
            limited.size = (unsigned int)varUInt64(file->pub.limit);

        if (!gMissing[idx] && vioDataEq(&limited, &gPrior[idx]) && gFile[idx].pgFileSize == limited.size)
            gMatch[idx] = true;

        return !gMissing[idx];
    }

    CHECK_OB("repository is read", file->storage->id == vioRepo);

#ifdef PRIOR
    if (file->pub.name == (const String *)&gMapFile)
    {
        *data = gMap;
        return true;
    }
#endif

    CHECK_OB("file of the prior attempt is the requested one", file->pub.name == (const String *)&gRepoFile);
    CHECK_OB("file of the prior attempt is read in full", file->pub.offset == 0 && file->pub.limit == NULL);
    *data = gResume;
    return true;
}

static void
vioWriteOpen(StorageWrite *const file)
{
    CHECK_OB("repository file is the requested one", file->storage->id == vioRepo && file->storage->write && file->pub.name == (const String *)&gRepoFile);
    CHECK_OB("repository file is truncated and synced", file->pub.truncate && file->pub.syncFile);
    gWriteOpen++;
}

static void
vioWritten(StorageWrite *const file, const VioData *const data)
{
    gWrite = *data;
    gWriteClose++;
}

void
storageRemove(const Storage *const this, const String *const file, const StorageRemoveParam param)
{
    CHECK_OB("only the repository file of this job is removed", this->id == vioRepo && file == (const String *)&gRepoFile);
    gRemove++;

    if (verif_fault_enabled && IN_BOOL("remove_fail"))
        THROW(FileRemoveError, "");
}

Buffer *
pgControlBufferFromFile(const Storage *const storage, const String *const pgVersionForce)
{
    CHECK_OB("pg_control of the cluster", storage->id == vioPg && pgVersionForce == (const String *)&gVersion);
    VioData data;
    clusterRead(0, &data);
    gBuffer[0] = data.byte[0];
    gBuffer[1] = data.byte[1];
    gControl = (BufferPub){.used = 2, .sizeAlloc = 2, .buffer = gBuffer};

    if (verif_fault_enabled && IN_BOOL("control_fail"))
        THROW(ChecksumError, "");

    return (Buffer *)&gControl;
}

bool
regExpMatchOne(const String *const expression, const String *const string)
{
    VERIF_LIMIT(strEqZ(expression, "\\.[0-9]+$"), "regular expression");
    return string == (const String *)&gName[0];
}

unsigned int
cvtZToUInt(const char *const value)
{
    VERIF_LIMIT(value[0] >= '0' && value[0] <= '9' && value[1] == 0, "number");
    return (unsigned int)(value[0] - '0');
}

IoFilter *
pageChecksumNew(
    const unsigned int segmentNo, const unsigned int segmentPageTotal, const PgPageSize pageSize, const bool headerCheck,
    const String *const fileName)
{
    const unsigned int idx = fileIdx(fileName);
    CHECK_OB("page checksums are validated only when requested", gFile[idx].pgFileChecksumPage);
    CHECK_OB("pages are numbered from the segment of the file", segmentNo == (idx == 0 ? 7 : 0) && pageSize == pgPageSize8 && segmentPageTotal == 131072);
    CHECK_OB("page headers are validated as requested", headerCheck == gFile[idx].pgFilePageHeaderCheck);
    gPage++;
    return vioFilterNew(vioFilterOther, PAGE_CHECKSUM_FILTER_TYPE, idx);
}

static uint8_t gPackByte[2] = {1, 2};
static BufferPub gPack[2] = {{.used = 1, .sizeAlloc = 1, .buffer = &gPackByte[0]}, {.used = 1, .sizeAlloc = 1, .buffer = &gPackByte[1]}};

const Pack *
ioFilterGroupResultPack(const IoFilterGroup *const this, const StringId filterType, const IoFilterGroupResultParam param)
{
    CHECK_OB("result of the page checksum filter", filterType == PAGE_CHECKSUM_FILTER_TYPE);
    const PackRead *const read = ioFilterGroupResult(this, filterType, param);
    return (const Pack *)&gPack[read->filter->param];
}

static unsigned int gBlock;
static uint64_t gBundleOffset;

// Block incremental filter: stores the map (and blocks) unless nothing changed since the prior map
IoFilter *
blockIncrNew(
    const uint64_t superBlockSize, const size_t blockSize, const size_t checksumSize, const unsigned int reference,
    const uint64_t bundleId, const uint64_t bundleOffset, const Buffer *const blockMapPrior, const IoFilter *const compress,
    const IoFilter *const encrypt)
{
    CHECK_OB("block incremental only when requested", blockSize == 1 && checksumSize == 6 && superBlockSize == 64 && gFile[0].blockIncrSize == 1);
    CHECK_OB("blocks refer to this backup, bundle and offset", reference == 4 && bundleId == BUNDLE_ID);
#ifdef PRIOR
    CHECK_OB("prior map is given", blockMapPrior != NULL && bufUsed(blockMapPrior) == 1);
    ASSUME(blockMapPrior != NULL);
    CHECK_OB("prior map is that of the file", gBlock < 2 && bufPtrConst(blockMapPrior)[0] == gMap.byte[1 + gBlock]);
#else
    CHECK_OB("no prior map", blockMapPrior == NULL);
#endif
#ifdef GZ
    CHECK_OB("blocks are compressed without headers", compress != NULL && compress->kind == vioFilterCompress && compress->param == compressTypeGz + 32);
#else
    CHECK_OB("blocks are not compressed", compress == NULL);
#endif
#ifdef AES
    CHECK_OB("blocks are encrypted without headers", encrypt != NULL && encrypt->kind == vioFilterEncrypt && encrypt->param == 3 + 32);
#else
    CHECK_OB("blocks are not encrypted", encrypt == NULL);
#endif
    gBundleOffset = bundleOffset;
    gBlock++;
    return vioFilterNew(vioFilterBlock, BLOCK_INCR_FILTER_TYPE, 9);
}

Buffer *
pckReadBin(PackRead *const this, const PckReadBinParam param)
{
    CHECK_OB("binary result is that of a SHA1 filter", this->filter->kind == vioFilterHash && this->filter->param == hashTypeSha1);
    return vioDataHash(&this->filter->data, HASH_TYPE_SHA1_SIZE);
}

uint64_t
pckReadU64(PackRead *const this, const PckReadU64Param param)
{
    if (this->filter->kind == vioFilterBlock)
    {
        const unsigned int idx = gBlock - 1;
        return gFile[idx].blockIncrMapPriorFile != NULL && vioDataEq(&this->filter->data, &gPrior[idx]) ? 0 : 13;
    }

    CHECK_OB("integer result is that of a size filter", this->filter->kind == vioFilterSize);
    return vioDataSize(&this->filter->data);
}

/* ----------------------------------------------------------------------------------------------------------------- harness */
static uint8_t gChecksum[3][HASH_TYPE_SHA1_SIZE];
static BufferPub gChecksumBuffer[3];

static const Buffer *
checksumSet(const unsigned int idx, const VioData *const data)
{
    const Buffer *const hash = vioDataHash(data, HASH_TYPE_SHA1_SIZE);

    for (unsigned int j = 0; j < HASH_TYPE_SHA1_SIZE; j++)
        gChecksum[idx][j] = bufPtrConst(hash)[j];

    gChecksumBuffer[idx] = (BufferPub){.used = HASH_TYPE_SHA1_SIZE, .sizeAlloc = HASH_TYPE_SHA1_SIZE, .buffer = gChecksum[idx]};
    return (const Buffer *)&gChecksumBuffer[idx];
}

// Transformations of stored data
static void
stored(VioData *const data)
{
#ifdef BLOCK
    data->tag[data->tagTotal++] = (VioTag){.kind = vioBlock, .param = 9};
#else
#ifdef GZ
    data->tag[data->tagTotal++] = (VioTag){.kind = vioCompress, .param = compressTypeGz + RAW_ADD};
#endif
#ifdef AES
    data->tag[data->tagTotal++] = (VioTag){.kind = vioEncrypt, .param = 3 + RAW_ADD};
#endif
#endif
}

static void
backup(void)
{
    CompressType compressType = compressTypeNone;
    static const unsigned int size[2] = {S0, 1};
    static const unsigned int sizeOriginal[2] = {2, 1};

    verif_fault_enabled = IN_BOOL("faulty");
    vioChunk = CHUNK;
#ifdef LATE
    vioEofLate = true;
#endif
    gSpec.pub.type = cipherTypeNone;
#ifdef GZ
    compressType = compressTypeGz;
#endif
#ifdef AES
    gSpec.pub.type = cipherTypeAes256Cbc;
    gSpec.pub.pass = (const Buffer *)&gPass;
#endif

    List *const fileList = lstNewP(sizeof(BackupFile));

    for (unsigned int i = 0; i < FILE_TOTAL; i++)
    {
        gSeen[i] = (VioData){.size = size[i], .byte = {IN_U8("content"), IN_U8("content"), IN_U8("content")}};
        gPrior[i] = (VioData){.size = sizeOriginal[i], .byte = {IN_U8("prior"), IN_U8("prior")}};
        gMissing[i] = IN_BOOL("missing");

        gFile[i] = (BackupFile){
            .pgFile = (const String *)&gName[i], .pgFileIgnoreMissing = IN_BOOL("ignore"), .pgFileSize = sizeOriginal[i],
            .pgFileSizeOriginal = sizeOriginal[i], .manifestFile = (const String *)&gManifest[i]};

#ifdef CONTROL
        gMissing[i] = false;
#endif
#ifdef EXACT
        gFile[i].pgFileCopyExactSize = true;
#endif
#if defined(REFERENCE) || defined(DELTA) || defined(RESUME)
        gFile[i].pgFileChecksum = checksumSet(i, &gPrior[i]);
#endif
#ifdef REFERENCE
        gFile[i].manifestFileHasReference = i == 0;
        gFile[i].pgFileSize = IN_BOOL("otherSize") ? 4 : sizeOriginal[i];
#endif
#ifdef DELTA
        gFile[i].pgFileDelta = i == 0;
#endif
#ifdef PAGE
        gFile[i].pgFileChecksumPage = i == 0;
        gFile[i].pgFilePageHeaderCheck = IN_BOOL("header");
#endif
#ifdef BLOCK
        gFile[i].blockIncrSize = 1;
        gFile[i].blockIncrChecksumSize = 6;
        gFile[i].blockIncrSuperSize = 64;
#endif
#ifdef PRIOR
        gFile[i].blockIncrMapPriorFile = (const String *)&gMapFile;
        gFile[i].blockIncrMapPriorOffset = 1 + i;
        // (stored size: one byte and the transformation)
        gFile[i].blockIncrMapPriorSize = 1;
        gFile[i].manifestFileHasReference = true;
        gFile[i].pgFileSize = sizeOriginal[i];
        // A missing file is skipped before its map is used
        gMissing[i] = false;
#endif
#ifdef RESUME
        gFile[i].manifestFileResume = true;
        gFile[i].repoFileSize = IN_U8("repoSize");

        VioData expect = gPrior[i];
        stored(&expect);

        if (expect.tagTotal > 0)
            gFile[i].repoFileChecksum = checksumSet(2, &expect);

        gResume = expect;
        gResume.byte[0] = IN_U8("resume");
#endif
        lstAdd(fileList, &gFile[i]);
    }

    gMap = (VioData){.size = 3, .byte = {77, IN_U8("map"), IN_U8("map")}};
#ifdef AES
    gMap.tag[gMap.tagTotal++] = (VioTag){.kind = vioEncrypt, .param = 3 + 32};
#endif
    COVER("called");

    TRY_BEGIN()
    {
        bool raw = false;
#ifdef RAW
        raw = true;
#endif
        const List *const result = backupFile(
            (const String *)&gRepoFile, BUNDLE_ID, raw, 4, compressType, 6, (const CipherSpec *)&gSpec, (const String *)&gVersion,
            pgPageSize8, fileList);

        CHECK_OB("one result for each file", lstSize(result) == FILE_TOTAL);

        VioData all = {0};
        stored(&all);
        uint64_t offset = 0;
        unsigned int copied = 0;

        for (unsigned int i = 0; i < FILE_TOTAL; i++)
        {
            const BackupFileResult *const file = lstGet(result, i);
            VioData plain = gSeen[i];

            if (gFile[i].pgFileCopyExactSize && plain.size > sizeOriginal[i])
                plain.size = sizeOriginal[i];

            VioData repo = plain;
            stored(&repo);

            CHECK_OB("result names its file", file->manifestFile == (const String *)&gManifest[i]);

            switch (file->backupCopyResult)
            {
                case backupCopyResultCopy:
                    CHECK_OB("a missing file is not recorded as copied", !gMissing[i]);
                    CHECK_OB("recorded size is the size of the copied data", file->copySize == plain.size);
                    CHECK_OB("recorded checksum is that of the copied data", bufEq(file->copyChecksum, vioDataHash(&plain, HASH_TYPE_SHA1_SIZE)));
                    CHECK_OB("recorded repository size is the stored size", file->repoSize == vioDataSize(&repo));
                    CHECK_OB("recorded offset is where the data is stored", file->bundleOffset == offset);
                    CHECK_OB("recorded repository checksum is that of the stored data", repo.tagTotal == 0 ? file->repoChecksum == NULL : file->repoChecksum != NULL && bufEq(file->repoChecksum, vioDataHash(&repo, HASH_TYPE_SHA1_SIZE)));
                    CHECK_OB("page checksum result is that of the file", gFile[i].pgFileChecksumPage ? file->pageChecksumResult != NULL && bufPtrConst((const Buffer *)file->pageChecksumResult)[0] == i + 1 : file->pageChecksumResult == NULL);
                    CHECK_OB("block map size is recorded", file->blockIncrMapSize == (gFile[i].blockIncrSize != 0 ? 13 : 0));
                    CHECK_OB("blocks of the file are recorded at its offset", gFile[i].blockIncrSize == 0 || i != FILE_TOTAL - 1 || gBundleOffset == offset);

                    for (unsigned int j = 0; j < VIO_BYTE; j++)
                        if (j < plain.size)
                            all.byte[all.size + j] = plain.byte[j];

                    all.size += plain.size;
                    offset += vioDataSize(&repo);
                    copied++;
                    COVER("copied");
                    break;

                case backupCopyResultNoOp:
                    CHECK_OB("unchanged only when the content was read and has the recorded checksum and size", gMatch[i] && gFile[i].manifestFileHasReference);
                    CHECK_OB("unchanged file keeps checksum and size", file->copySize == sizeOriginal[i] && bufEq(file->copyChecksum, gFile[i].pgFileChecksum));
#if defined(REFERENCE) && (CHUNK == 0 || defined(DELTA))
                    COVER("unchanged");
#endif
                    break;

                case backupCopyResultChecksum:
                    CHECK_OB("resumed only when the stored file is the recorded one", gFile[i].manifestFileResume && bufEq(vioDataHash(&gResume, HASH_TYPE_SHA1_SIZE), gFile[i].repoFileChecksum != NULL ? gFile[i].repoFileChecksum : gFile[i].pgFileChecksum) && gFile[i].repoFileSize == vioDataSize(&gResume));
                    CHECK_OB("resumed only when the cluster file is unchanged or not compared", !gFile[i].pgFileDelta || gMatch[i]);
                    CHECK_OB("resumed file keeps checksum and size", file->copySize == sizeOriginal[i] && bufEq(file->copyChecksum, gFile[i].pgFileChecksum));
#ifdef RESUME
                    COVER("resumed");
#endif
                    break;

                case backupCopyResultTruncate:
                    CHECK_OB("truncated only when empty and not stored on its own", !gMissing[i] && plain.size == 0 && BUNDLE_ID != 0 && file->copySize == 0);
                    CHECK_OB("checksum of a truncated file", bufEq(file->copyChecksum, HASH_TYPE_SHA1_ZERO_BUF));
#if S0 == 0 && defined(BUNDLE)
                    COVER("truncated");
#endif
                    break;

                default:
                    CHECK_OB("skipped only when missing and that is allowed", file->backupCopyResult == backupCopyResultSkip && gMissing[i] && gFile[i].pgFileIgnoreMissing);
                    CHECK_OB("file of a prior attempt is removed when the cluster file is missing", !gFile[i].manifestFileResume || !gFile[i].pgFileDelta || gRemove == 1);
#if !defined(CONTROL) && !defined(PRIOR)
                    COVER("skipped");
#endif
                    break;
            }

            // The file of a prior attempt was not as recorded
            if (file->repoInvalid)
                CHECK_OB("prior attempt is reported as invalid only when it was checked", gFile[i].manifestFileResume);
        }

        CHECK_OB("repository file is written once when there is something to copy", gWriteOpen == (copied > 0 ? 1 : 0) && gWriteClose == gWriteOpen);
        CHECK_OB("repository file holds exactly the copied files in order", copied == 0 || vioDataEq(&gWrite, &all));
        CHECK_OB("repository file is not removed after it was written", copied == 0 || gRemove == 0);
        COVER("done");
    }
    CATCH_FATAL()
    {
        CHECK_OB("error only when an operation failed or a file is missing", verif_fault_enabled || gMissing[0] || gMissing[1]);
        COVER("failed");
    }
    TRY_END();
}

void h_copyBundle(void) {backup();}
void h_copyBundleOne(void) {backup();}
void h_copyBundleLate(void) {backup();}
void h_copyGzAes(void) {backup();}
void h_copyBundleGzAes(void) {backup();}
void h_copyAes(void) {backup();}
void h_grown(void) {backup();}
void h_truncate(void) {backup();}
void h_truncateSingle(void) {backup();}
void h_reference(void) {backup();}
void h_referenceChunk(void) {backup();}
void h_deltaReference(void) {backup();}
void h_deltaReferenceExact(void) {backup();}
void h_resume(void) {backup();}
void h_resumePlain(void) {backup();}
void h_resumeDelta(void) {backup();}
void h_page(void) {backup();}
void h_control(void) {backup();}
void h_block(void) {backup();}
void h_blockPrior(void) {backup();}
void h_blockPriorAes(void) {backup();}
