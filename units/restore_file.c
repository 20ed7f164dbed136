// restore of the files of one repository file: success means every file holds exactly what was backed up
//@property C07
//@src src/command/restore/protocol.c src/command/restore/file.c.inc
//@harness h_copyBundle unwind=60 kind=bounded funcs=restoreFile
//@bound two files of two and one bytes in a bundle, any content; every failure; repository data intact or damaged in any way
//@harness h_copyBundleGzAes unwind=60 kind=bounded funcs=restoreFile def=GZ,AES,RAW
//@bound as h_copyBundle, compressed and encrypted
//@harness h_copySingleAes unwind=60 kind=bounded funcs=restoreFile def=AES,SINGLE
//@bound one file of two bytes stored alone, encrypted
//@harness h_copySingleGz unwind=60 kind=bounded funcs=restoreFile def=GZ,SINGLE
//@bound one file of two bytes stored alone, compressed
//@harness h_deltaShort unwind=60 kind=bounded funcs=restoreFile def=DELTA,EXIST=1
//@bound as h_copyBundle, the first file exists and is shorter; any content and time
//@harness h_deltaSame unwind=60 kind=bounded funcs=restoreFile def=DELTA,EXIST=2
//@bound as h_copyBundle, the first file exists with the same size; any content and time
//@harness h_deltaLong unwind=60 kind=bounded funcs=restoreFile def=DELTA,EXIST=3
//@bound as h_copyBundle, the first file exists and is longer; any content and time
//@harness h_forceShort unwind=60 kind=bounded funcs=restoreFile def=DELTA,FORCE,EXIST=1
//@bound as h_deltaShort, with force
//@harness h_forceSame unwind=60 kind=bounded funcs=restoreFile def=DELTA,FORCE,EXIST=2
//@bound as h_deltaSame, with force
//@harness h_forceLong unwind=60 kind=bounded funcs=restoreFile def=DELTA,FORCE,EXIST=3
//@bound as h_deltaLong, with force
//@harness h_zero unwind=60 kind=bounded funcs=restoreFile def=ZERO,DELTA,EXIST=2
//@bound as h_deltaSame, the first file is to be zeroed
//@harness h_zeroLong unwind=60 kind=bounded funcs=restoreFile def=ZERO,EXIST=3
//@bound as h_zero, the file exists and is longer and there is no delta
//@harness h_empty unwind=60 kind=bounded funcs=restoreFile def=EMPTY,EXIST=2
//@bound as h_copyBundle, the first file is empty and a longer one exists
//@harness h_emptyDelta unwind=60 kind=bounded funcs=restoreFile def=EMPTY,DELTA,EXIST=2
//@bound as h_empty, with delta
//@harness h_block unwind=60 kind=bounded funcs=restoreFile def=SINGLE,BLOCK
//@bound one block incremental file of two blocks; any content; every failure
//@harness h_blockDeltaShort unwind=60 kind=bounded funcs=restoreFile def=SINGLE,BLOCK,DELTA,EXIST=1
//@bound as h_block, the file exists and is shorter
//@harness h_blockDeltaSame unwind=60 kind=bounded funcs=restoreFile def=SINGLE,BLOCK,DELTA,EXIST=2
//@bound as h_block, the file exists with the same size
//@harness h_blockDeltaLong unwind=60 kind=bounded funcs=restoreFile def=SINGLE,BLOCK,DELTA,EXIST=3,AES
//@bound as h_block, the file exists and is longer, encrypted
//@trust storage, IO and filters by contract (vlib/vio.c): any operation may fail, hashes do not collide
//@trust blockMapNewRead(), blockDelta*(), blockChecksumNew() by contract: they deliver the blocks in which the existing file differs
//@creplace strResize
//@sys ftruncate utime
//@cdef VLIST_MAX=6 VIO_BYTE=4 VIO_READ=8 VIO_MULTI=2 VIO_OWN_PACK VIO_OWNER=4
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "command/restore/blockDelta.h"
#define VLIST_LATE
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/encode.c"
#include "common/type/variant.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/vcompress.c"
#include "command/restore/protocol.c"

#undef VLIST_TYPES
#define VLIST_TYPES                                                 VLIST_TYPE(RestoreFile) VLIST_TYPE(RestoreFileResult) VLIST_TYPE(BlockDeltaRead)
#include "vlib/vlistItem.c"

#ifdef SINGLE
#define FILE_TOTAL                                                  1
#else
#define FILE_TOTAL                                                  2
#endif

#ifndef EXIST
#define EXIST                                                       0
#endif

#ifdef EMPTY
#define SIZE0                                                       0
#else
#define SIZE0                                                       2
#endif

#define TIME_NOW                                                    9999

static struct CipherSpecTest {CipherSpecPub pub;} gSpec;

static const StringPubConst gName[2] = {{.size = 9, .buffer = "pg_data/a"}, {.size = 9, .buffer = "pg_data/b"}};
static const StringPubConst gManifest[2] = {{.size = 10, .buffer = "manifest/a"}, {.size = 10, .buffer = "manifest/b"}};
static const StringPubConst gUser = {.size = 4, .buffer = "user"}, gGroup = {.size = 5, .buffer = "group"};
static const StringPubConst gRepoFile = {.size = 8, .buffer = "repofile"};
static const StringPubConst gBlockFile = {.size = 5, .buffer = "block"};

static RestoreFile gFile[FILE_TOTAL];
static VioData gOrig[2];                                            // what was backed up
static VioData gRepo;                                               // what is in the repository

// Files in the cluster
static bool gExist[2], gWritten[2], gWriting[2];
static VioData gPg[2];
static time_t gTime[2];
static bool gDamaged;                                               // repository data is not what was backed up
static bool gForceSame;                                             // existing file has the recorded size and time, older than the backup
static IoWrite *gWriteIo;                                           // file whose descriptor was asked for

static unsigned int
fileIdx(const String *const name)
{
    const bool second = FILE_TOTAL > 1 && name == (const String *)&gName[1];
    CHECK_OB("only the listed files are touched", second || name == (const String *)&gName[0]);
    return second ? 1 : 0;
}

static bool
vioOpen(StorageRead *const file, VioData *const data)
{
    if (file->storage->id == vioPg)
    {
        const unsigned int idx = fileIdx(file->pub.name);
        CHECK_OB("whole file is read for the checksum", file->pub.offset == 0 && file->pub.limit == NULL);
        CHECK_OB("file is not read while it is written", !gWriting[idx]);
        *data = gPg[idx];
        return gExist[idx];
    }

    CHECK_OB("backup is read from the repository requested", file->storage->id == vioRepo + 1);
#ifdef BLOCK
    CHECK_OB("backup file is the requested one", file->pub.name == (const String *)&gRepoFile || file->pub.name == (const String *)&gBlockFile);
#else
    CHECK_OB("backup file is the requested one", file->pub.name == (const String *)&gRepoFile);
#endif
    *data = gRepo;
    return true;
}

static void
vioWriteOpen(StorageWrite *const file)
{
    const unsigned int idx = fileIdx(file->pub.name);
    CHECK_OB("files are written to the cluster", file->storage->id == vioPg);
    CHECK_OB("one writer at a time", !gWriting[idx]);

    if (file->pub.truncate)
    {
        CHECK_OB(
            "file is created with its mode, owner and time",
            file->pub.modeFile == gFile[idx].mode && file->pub.user == gFile[idx].user && file->pub.group == gFile[idx].group &&
            file->pub.timeModified == gFile[idx].timeModified);
    }
    else
    {
        CHECK_OB("existing content is kept only when it is compared", gExist[idx]);
        storageWriteIo(file)->data = gPg[idx];
    }

    CHECK_OB("file sync is left on", file->pub.syncFile);
    gExist[idx] = true;
    gWriting[idx] = true;
    gWritten[idx] = true;
    gPg[idx].bad = true;
}

static void
vioWritten(StorageWrite *const file, const VioData *const data)
{
    const unsigned int idx = fileIdx(file->pub.name);
    gWriting[idx] = false;
    gPg[idx] = *data;
    gTime[idx] = file->pub.timeModified != 0 ? file->pub.timeModified : TIME_NOW;
}

StorageInfo
storageInfo(const Storage *const this, const String *const name, const StorageInfoParam param)
{
    const unsigned int idx = fileIdx(name);
    CHECK_OB("info of a file in the cluster, of the file a link points to", this->id == vioPg && param.followLink);

    const StorageInfo result = {.exists = gExist[idx], .size = gPg[idx].size, .timeModified = gTime[idx]};

    if (verif_fault_enabled && IN_BOOL("info_fail"))
        THROW(FileInfoError, "");

    if (!result.exists && !param.ignoreMissing)
        THROW(FileOpenError, "");

    return result;
}

String *storagePath(const Storage *const this, const String *const pathExp, const StoragePathParam param) {return (String *)pathExp;}

int
ioWriteFd(const IoWrite *const this)
{
    CHECK_OB("descriptor of an open file", this->open && !this->closed);
    gWriteIo = (IoWrite *)this;
    return 5;
}

int
verif_sys_ftruncate(const int fd, const off_t size)
{
    CHECK_OB("truncate of the open file", fd == 5);
    VERIF_LIMIT(size <= VIO_BYTE, "file size");
    ASSUME(size <= VIO_BYTE);

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        if (i >= gWriteIo->data.size)
            gWriteIo->data.byte[i] = 0;

    gWriteIo->data.size = (unsigned int)size;
    return verif_fault_enabled && IN_BOOL("truncate_fail") ? -1 : 0;
}

int
verif_sys_utime(const char *const name, const struct utimbuf *const time)
{
    const unsigned int idx = FILE_TOTAL > 1 && name == gName[1].buffer ? 1 : 0;
    CHECK_OB("time is set on a listed file", idx == 1 || name == gName[0].buffer);
    gTime[idx] = time->modtime;
    return verif_fault_enabled && IN_BOOL("utime_fail") ? -1 : 0;
}

/* ------------------------------------------------------------------------------------------------------- block incremental */
static const VioData *gBlockOld;                                    // content the block checksums were made from
static uint8_t gBlockByte[2];
static BufferPub gBlockBuffer[2];
static BlockDeltaWrite gBlockWrite;
static unsigned int gBlockNext;
static VioData gBlockSeen;
static struct BlockDelta {BlockDeltaPub pub;} gBlockDelta;

IoFilter *
blockChecksumNew(const size_t blockSize, const size_t checksumSize)
{
    CHECK_OB("block checksums have the size of the file's", blockSize == 1 && checksumSize == 6);
    return vioFilterNew(vioFilterOther, BLOCK_CHECKSUM_FILTER_TYPE, 0);
}

Buffer *
pckReadBin(PackRead *const this, const PckReadBinParam param)
{
    if (this->filter->kind == vioFilterHash)
    {
        CHECK_OB("checksum is a SHA1", this->filter->param == hashTypeSha1);
        return vioDataHash(&this->filter->data, HASH_TYPE_SHA1_SIZE);
    }

    CHECK_OB("result of a known filter", this->filter->pub.type == BLOCK_CHECKSUM_FILTER_TYPE);
    gBlockSeen = this->filter->data;
    return vioDataHash(&this->filter->data, HASH_TYPE_SHA1_SIZE);
}

IoRead *
ioLimitReadNew(IoRead *const read, const uint64_t limit)
{
    CHECK_OB("block map has its recorded size", limit == varUInt64(gFile[0].limit));
    CHECK_OB("block map is read from the opened backup file", read->open);
    IoRead *const result = vioReadNew(read->multi->part[0]);
    return result;
}

BlockMap *
blockMapNewRead(IoRead *const map, const size_t blockSize, const size_t checksumSize)
{
    CHECK_OB("block map is read with the sizes of the file", blockSize == 1 && checksumSize == 6 && map->open);
#ifdef AES
    CHECK_OB("block map is decrypted", map->pub.filterGroup->total == 1 && map->pub.filterGroup->filter[0]->kind == vioFilterDecrypt && map->pub.filterGroup->filter[0]->param == 3 + 32);
#else
    CHECK_OB("block map is not decrypted", map->pub.filterGroup->total == 0);
#endif

    if (verif_fault_enabled && IN_BOOL("map_fail"))
        THROW(FormatError, "");

    return (BlockMap *)lstNewP(sizeof(BlockMapItem));
}

BlockDelta *
blockDeltaNew(
    const BlockMap *const blockMap, const size_t blockSize, const size_t checksumSize, const Buffer *const blockChecksum,
    const CipherSpec *const cipherSpecBackup, const CompressType compressType)
{
    CHECK_OB("delta is made with the sizes, cipher and compression of the backup", blockSize == 1 && checksumSize == 6 && cipherSpecBackup == (const CipherSpec *)&gSpec && compressType == compressTypeNone);
    gBlockOld = blockChecksum == NULL ? NULL : &gBlockSeen;

    gBlockDelta.pub.readList = lstNewP(sizeof(BlockDeltaRead));
    static const BlockDeltaRead read[2] = {{.reference = 1, .bundleId = 7, .offset = 0, .size = 1}, {.reference = 0, .bundleId = 0, .offset = 1, .size = 1}};
    lstAdd(gBlockDelta.pub.readList, &read[0]);
    lstAdd(gBlockDelta.pub.readList, &read[1]);
    return &gBlockDelta;
}

// Block 1 is in the newer backup, block 0 in the older one. Blocks that the existing file has are not delivered.
const BlockDeltaWrite *
blockDeltaNext(BlockDelta *const this, const BlockDeltaRead *const readDelta, IoRead *const readIo)
{
    CHECK_OB("super blocks are read from an open file at their place", readIo->open && readIo->file->pub.offset == readDelta->offset && readIo->file->pub.limit != NULL && varUInt64(readIo->file->pub.limit) == readDelta->size);
    const unsigned int block = readDelta->reference;
    const bool need = gBlockOld == NULL || block >= gBlockOld->size || gBlockOld->byte[block] != gOrig[0].byte[block];

    gBlockByte[block] = gDamaged ? IN_U8("damage") : gOrig[0].byte[block];
    gBlockBuffer[block] = (BufferPub){.used = 1, .sizeAlloc = 1, .buffer = &gBlockByte[block]};
    gBlockWrite = (BlockDeltaWrite){.offset = block, .block = (Buffer *)&gBlockBuffer[block]};

    gBlockNext++;

    if (verif_fault_enabled && IN_BOOL("delta_fail"))
        THROW(FormatError, "");

    return gBlockNext % 2 == 1 && need ? &gBlockWrite : (gBlockNext += gBlockNext % 2, NULL);
}

static const StringPubConst gReference[2] = {{.size = 4, .buffer = "REF0"}, {.size = 4, .buffer = "REF1"}};

String *
backupFileRepoPath(const String *const backupLabel, const BackupFileRepoPathParam param)
{
    CHECK_OB("super blocks are read from the backup that has them", (param.bundleId == 7 && strEqZ(backupLabel, "REF1")) || (param.bundleId == 0 && strEqZ(backupLabel, "REF0")));
    CHECK_OB("name of the block incremental file", param.manifestName == gFile[0].manifestFile && param.blockIncr);
    return (String *)&gBlockFile;
}

/* ----------------------------------------------------------------------------------------------------------------- harness */
static uint8_t gChecksum[2][HASH_TYPE_SHA1_SIZE];
static BufferPub gChecksumBuffer[2];
static uint8_t gKey[1] = {3};
static BufferPub gPass = {.used = 1, .sizeAlloc = 1, .buffer = gKey};

static void
restore(void)
{
    CompressType compressType = compressTypeNone;
    bool delta = false, force = false, raw = false;
    const time_t copyBegin = IN_U16("copyBegin");
    const unsigned int size[2] = {SIZE0, 1};
    const unsigned int exist[2] = {EXIST, 0};
    static const unsigned int offset[2] = {1, 1 + SIZE0};

    verif_fault_enabled = IN_BOOL("faulty");
    gDamaged = IN_BOOL("damaged");
    gSpec.pub.type = cipherTypeNone;

#ifdef DELTA
    delta = true;
#endif
#ifdef FORCE
    force = true;
#endif
#ifdef RAW
    raw = true;
#endif

    // Backed up files and what is in the repository
    gRepo = (VioData){0};
#ifndef SINGLE
    gRepo.byte[gRepo.size++] = 99;
#endif

    List *const fileList = lstNewP(sizeof(RestoreFile));

    for (unsigned int i = 0; i < FILE_TOTAL; i++)
    {
        gOrig[i] = (VioData){.size = size[i]};

        for (unsigned int j = 0; j < size[i]; j++)
        {
            gOrig[i].byte[j] = IN_U8("orig");
            gRepo.byte[gRepo.size++] = gDamaged ? IN_U8("damage") : gOrig[i].byte[j];
        }

        // Existing file
        gExist[i] = exist[i] != 0;
        gPg[i] = (VioData){.size = exist[i]};
        gTime[i] = IN_U16("mtime");

        for (unsigned int j = 0; j < exist[i]; j++)
            gPg[i].byte[j] = IN_U8("exist");

        const Buffer *const hash = vioDataHash(&gOrig[i], HASH_TYPE_SHA1_SIZE);

        for (unsigned int j = 0; j < HASH_TYPE_SHA1_SIZE; j++)
            gChecksum[i][j] = bufPtrConst(hash)[j];

        gChecksumBuffer[i] = (BufferPub){.used = HASH_TYPE_SHA1_SIZE, .sizeAlloc = HASH_TYPE_SHA1_SIZE, .buffer = gChecksum[i]};

        gFile[i] = (RestoreFile){
            .name = (const String *)&gName[i], .checksum = (const Buffer *)&gChecksumBuffer[i], .size = size[i],
            .timeModified = 100 + i, .mode = 0600 + i, .user = (const String *)&gUser, .group = (const String *)&gGroup,
            .manifestFile = (const String *)&gManifest[i]};

#ifndef SINGLE
        gFile[i].offset = offset[i];
        gFile[i].limit = varNewUInt64(size[i]);
#endif
#ifdef BLOCK
        gFile[i].blockIncrMapSize = 2;
        gFile[i].blockIncrSize = 1;
        gFile[i].blockIncrChecksumSize = 6;
        gFile[i].limit = varNewUInt64(2);
#endif
#ifdef ZERO
        gFile[i].zero = i == 0;
#endif
        lstAdd(fileList, &gFile[i]);
    }

#ifdef GZ
    compressType = compressTypeGz;
    gRepo.tag[gRepo.tagTotal++] = (VioTag){.kind = vioCompress, .param = compressTypeGz + (raw ? 32 : 0)};
#endif
#ifdef AES
    gSpec.pub.type = cipherTypeAes256Cbc;
    gSpec.pub.pass = (const Buffer *)&gPass;
    gRepo.tag[gRepo.tagTotal++] = (VioTag){.kind = vioEncrypt, .param = 3 + (raw ? 32 : 0)};
#endif

    gForceSame = gExist[0] && gPg[0].size == gFile[0].size && gTime[0] == gFile[0].timeModified && gTime[0] < copyBegin;

    const VioData before = gPg[0];
    const StringList *referenceList = NULL;
#ifdef BLOCK
    StringList *const reference = strLstNew();
    strLstAdd(reference, (const String *)&gReference[0]);
    strLstAdd(reference, (const String *)&gReference[1]);
    referenceList = reference;
#endif

    COVER("called");

    TRY_BEGIN()
    {
        const List *const result = restoreFile(
            (const String *)&gRepoFile, 1, compressType, copyBegin, delta, force, raw, (const CipherSpec *)&gSpec, referenceList,
            fileList);

        CHECK_OB("one result for each file", lstSize(result) == FILE_TOTAL);

        for (unsigned int i = 0; i < FILE_TOTAL; i++)
        {
            const RestoreFileResult *const file = lstGet(result, i);
            CHECK_OB("result names its file", file->manifestFile == (const String *)&gManifest[i]);
            CHECK_OB("file exists and its writer was closed", gExist[i] && !gWriting[i]);
            CHECK_OB("file has the time of the backup", gTime[i] == gFile[i].timeModified);

            if (gFile[i].zero)
            {
                CHECK_OB("zeroed file is reported as such", file->result == restoreResultZero);
                CHECK_OB("zeroed file has its size and only zeroes", gPg[i].size == size[i] && !gPg[i].bad && gPg[i].byte[0] == 0 && gPg[i].byte[1] == 0);
            }
            else if (i == 0 && delta && force && gForceSame)
            {
                CHECK_OB("file with the recorded size and time is left alone", !gWritten[i] && vioDataEq(&gPg[i], &before) && file->result == restoreResultPreserve);
            }
            else
            {
                CHECK_OB("restored file holds exactly what was backed up", vioDataEq(&gPg[i], &gOrig[i]));
                CHECK_OB("empty file is reported as zeroed or left alone", size[i] != 0 || file->result != restoreResultCopy);
                CHECK_OB("file with content is not reported as zeroed", size[i] == 0 || file->result != restoreResultZero);
                CHECK_OB("file is reported as left alone only when it was", file->result != restoreResultPreserve || (delta && exist[i] >= size[i] && exist[i] != 0));
            }

#if defined(DELTA) && !defined(ZERO) && (EXIST == 2 || (EXIST == 3 && !defined(FORCE)))
            if (file->result == restoreResultPreserve)
                COVER("preserved");
#endif
            if (file->result == restoreResultCopy)
                COVER("copied");
#if defined(ZERO) || (defined(EMPTY) && !defined(DELTA))
            if (file->result == restoreResultZero)
                COVER("zeroed");
#endif
        }

        COVER("restored");
    }
    CATCH_FATAL()
    {
        CHECK_OB("error only when an operation failed or the backup is damaged", verif_fault_enabled || gDamaged);
        CHECK_OB("damage is reported as a checksum error", verif_fault_enabled || errorType() == &ChecksumError);

        if (!verif_fault_enabled)
            COVER("damaged");
    }
    TRY_END();
}

void h_copyBundle(void) {restore();}
void h_copyBundleGzAes(void) {restore();}
void h_copySingleAes(void) {restore();}
void h_copySingleGz(void) {restore();}
void h_deltaShort(void) {restore();}
void h_deltaSame(void) {restore();}
void h_deltaLong(void) {restore();}
void h_forceShort(void) {restore();}
void h_forceSame(void) {restore();}
void h_forceLong(void) {restore();}
void h_zero(void) {restore();}
void h_zeroLong(void) {restore();}
void h_empty(void) {restore();}
void h_emptyDelta(void) {restore();}
void h_block(void) {restore();}
void h_blockDeltaShort(void) {restore();}
void h_blockDeltaSame(void) {restore();}
void h_blockDeltaLong(void) {restore();}
