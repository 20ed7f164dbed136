/* Contracts of the IO and storage interfaces for units that verify code above them.
 *
 * A stream is a sequence of bytes plus the list of transformations (compression, encryption) applied to it, innermost first. A filter
 * pushes or pops a transformation; decoding a stream with the wrong transformation is an error, as it is in the real filters. Hash and
 * size filters see the stream at their place in the pipeline. The hash of a stream is an injective encoding of the stream (assumption:
 * no collisions). Every operation may fail at any call. Reads deliver data in pieces of a size the harness chooses, with the end of file
 * known at once or with one more read. What a failed write leaves in a file is never looked at.
 *
 * The unit defines the files: vioOpen() gives the content of a file opened for read (or that it is missing), vioWritten() is told about
 * each file that was written and closed without error. */
#include "common/compress/helper.h"
#include "common/crypto/cipherBlock.h"
#include "common/crypto/hash.h"
#include "common/crypto/spec.h"
#include "common/io/bufferRead.h"
#include "common/io/bufferWrite.h"
#include "common/io/filter/buffer.h"
#include "common/io/filter/group.h"
#include "common/io/filter/sink.h"
#include "common/io/filter/size.h"
#include "common/io/io.h"
#include "common/io/read.h"
#include "common/io/write.h"
#include "common/type/variant.h"
#include "storage/helper.h"
#include "storage/storage.h"
#include "storage/readMulti.h"

// The verifier ends the life of a compound literal in a conditional expression with the expression, so give it an object of its own
#undef VARUINT64
#define VARUINT64(value)                                            vioVarU64(value)

static Variant *
vioVarU64(const uint64_t value)
{
    VariantUInt64Pub *const result = memNew(sizeof(VariantUInt64Pub));
    result->type = varTypeUInt64;
    result->data = value;
    return (Variant *)result;
}

#ifndef VIO_BYTE
#define VIO_BYTE                                                    4
#endif
#ifndef VIO_TAG
#define VIO_TAG                                                     3
#endif
#ifndef VIO_FILTER
#define VIO_FILTER                                                  6
#endif

enum {vioCompress = 1, vioEncrypt = 2, vioBlock = 3};

typedef struct VioTag {unsigned int kind; uint64_t param;} VioTag;

typedef struct VioData
{
    unsigned int size;
    uint8_t byte[VIO_BYTE];
    unsigned int tagTotal;
    VioTag tag[VIO_TAG];
    bool bad;                                                       // mixture of streams
} VioData;

enum {vioFilterCompress = 1, vioFilterDecompress, vioFilterEncrypt, vioFilterDecrypt, vioFilterHash, vioFilterSize, vioFilterSink, vioFilterBlock, vioFilterOther};

struct IoFilter
{
    IoFilterPub pub;
    unsigned int kind;
    uint64_t param;
    const CipherSpec *spec;
    int level;
    bool raw;
    bool done;
    VioData data;                                                   // what passed the filter
    void *other;
};

struct IoFilterGroup
{
    IoFilterGroupPub pub;
    unsigned int total;
    IoFilter *filter[VIO_FILTER];
};

struct IoRead
{
    IoReadPub pub;
    StorageRead *file;
    StorageReadMulti *multi;
    VioData data;                                                   // content as stored (before filters)
    VioData out;                                                    // content given so far, transformations after filters
    unsigned int pos;
    bool open, closed, failed;
};

#ifdef VIO_MULTI
// Read of several files or ranges one after the other
struct StorageReadMulti
{
    StorageReadMultiPub pub;
    const Storage *storage;
    unsigned int total;
    StorageRead *part[VIO_MULTI];
    unsigned int partSize[VIO_MULTI];
};
#endif

struct IoWrite
{
    IoWritePub pub;
    StorageWrite *file;
    Buffer *buffer;                                                 // destination when not a file
    VioData data;                                                   // what was written (before filters until close)
    unsigned int pos;                                               // position of the next write
    bool open, closed, failed, adopted;
};

struct StorageRead
{
    StorageReadPub pub;
    const Storage *storage;
};

struct StorageWrite
{
    StorageWritePub pub;
    const Storage *storage;
};

struct Storage
{
    StoragePub pub;
    unsigned int id;
    bool write;
};

struct PackRead
{
    const IoFilter *filter;
    unsigned int field;
    void *other;
};

// Defined by the unit
static bool vioOpen(StorageRead *file, VioData *data);              // false when missing; may throw
static void vioWritten(StorageWrite *file, const VioData *data);    // file closed: content in its stored form
static void vioWriteOpen(StorageWrite *file);                       // file about to be opened for write; may throw

static Storage vioStorage[16];

// Which stream a buffer was last filled from
#ifndef VIO_OWNER
#define VIO_OWNER                                                   2
#endif
static const Buffer *vioOwnerBuffer[VIO_OWNER]; static const IoRead *vioOwnerRead[VIO_OWNER]; static unsigned int vioOwnerTotal;

/* -------------------------------------------------------------------------------------------------------------------- helpers */
static bool
vioTagEq(const VioData *const a, const VioData *const b)
{
    if (a->tagTotal != b->tagTotal)
        return false;

    for (unsigned int i = 0; i < VIO_TAG; i++)
        if (i < a->tagTotal && (a->tag[i].kind != b->tag[i].kind || a->tag[i].param != b->tag[i].param))
            return false;

    return true;
}

static bool
vioDataEq(const VioData *const a, const VioData *const b)
{
    if (a->bad || b->bad || a->size != b->size || !vioTagEq(a, b))
        return false;

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        if (i < a->size && a->byte[i] != b->byte[i])
            return false;

    return true;
}

// Size of a stream: every transformation changes it
#ifndef VIO_TAG_SIZE
#define VIO_TAG_SIZE                                                10
#endif

static uint64_t vioDataSize(const VioData *const d) {return d->size + VIO_TAG_SIZE * (uint64_t)d->tagTotal;}

// Hash of a stream: an injective encoding of it
static Buffer *
vioDataHash(const VioData *const d, const size_t size)
{
    Buffer *const result = bufNew(size);

    for (unsigned int i = 0; i < size; i++)
        bufPtr(result)[i] = 0;

    bufPtr(result)[0] = (uint8_t)(d->size + (d->bad ? 128 : 0));
    bufPtr(result)[1] = (uint8_t)d->tagTotal;

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        bufPtr(result)[2 + i] = i < d->size ? d->byte[i] : 0;

    for (unsigned int i = 0; i < VIO_TAG; i++)
        bufPtr(result)[2 + VIO_BYTE + i] = i < d->tagTotal ? (uint8_t)(d->tag[i].kind * 64 + d->tag[i].param) : 0;

    bufUsedSet(result, size);
    return result;
}

static uint64_t vioKey(const CipherSpec *const spec) {return cipherSpecPass(spec) == NULL ? 0 : bufPtrConst(cipherSpecPass(spec))[0];}

// False when the filter cannot process the stream (wrong key or format)
static bool
vioFilterApply(VioData *const d, IoFilter *const f, const bool record)
{
    switch (f->kind)
    {
        case vioFilterCompress:
        case vioFilterEncrypt:
            VERIF_LIMIT(d->tagTotal < VIO_TAG, "transformations");
            ASSUME(d->tagTotal < VIO_TAG);
            d->tag[d->tagTotal].kind = f->kind == vioFilterCompress ? vioCompress : vioEncrypt;
            d->tag[d->tagTotal].param = f->param;
            d->tagTotal++;
            break;

        // Block incremental: compression and encryption are applied inside
        case vioFilterBlock:
            if (record)
            {
                f->data = *d;
                f->done = true;
            }

            VERIF_LIMIT(d->tagTotal < VIO_TAG, "transformations");
            ASSUME(d->tagTotal < VIO_TAG);
            d->tag[d->tagTotal].kind = vioBlock;
            d->tag[d->tagTotal].param = f->param;
            d->tagTotal++;
            break;

        case vioFilterDecompress:
            if (d->tagTotal == 0 || d->tag[d->tagTotal - 1].kind != vioCompress || d->tag[d->tagTotal - 1].param != f->param)
                return false;

            d->tagTotal--;
            break;

        case vioFilterDecrypt:
            if (d->tagTotal == 0 || d->tag[d->tagTotal - 1].kind != vioEncrypt || d->tag[d->tagTotal - 1].param != f->param)
                return false;

            d->tagTotal--;
            break;

        default:
            if (record)
            {
                f->data = *d;
                f->done = true;
            }
            break;
    }

    return true;
}

static bool
vioGroupApplyRecord(VioData *const d, IoFilterGroup *const group, const bool record)
{
    bool result = true;

    for (unsigned int i = 0; i < VIO_FILTER; i++)
        if (i < group->total && result)
            result = vioFilterApply(d, group->filter[i], record);

    return result;
}

static bool vioGroupApply(VioData *const d, IoFilterGroup *const group) {return vioGroupApplyRecord(d, group, true);}

/* -------------------------------------------------------------------------------------------------------------------- filters */
static IoFilter *
vioFilterNew(const unsigned int kind, const StringId type, const uint64_t param)
{
    IoFilter *const this = memNew(sizeof(IoFilter));
    *this = (IoFilter){.kind = kind, .param = param};
    this->pub.type = type;
    return this;
}

IoFilter *cryptoHashNew(const HashType type) {return vioFilterNew(vioFilterHash, CRYPTO_HASH_FILTER_TYPE, type);}
IoFilter *ioSizeNew(void) {return vioFilterNew(vioFilterSize, SIZE_FILTER_TYPE, 0);}
IoFilter *ioSinkNew(void) {return vioFilterNew(vioFilterSink, SINK_FILTER_TYPE, 0);}
IoFilter *ioBufferNew(void) {return vioFilterNew(vioFilterOther, 0, 0);}

IoFilter *
cipherBlockNew(const CipherMode mode, const CipherSpec *const spec, const CipherBlockNewParam param)
{
    CHECK_OB("cipher filter has a cipher", spec != NULL && cipherSpecType(spec) != cipherTypeNone);
    IoFilter *const this = vioFilterNew(
        mode == cipherModeEncrypt ? vioFilterEncrypt : vioFilterDecrypt, CIPHER_BLOCK_FILTER_TYPE, vioKey(spec) + (param.raw ? 32 : 0));
    this->spec = spec;
    return this;
}

IoFilterGroup *
ioFilterGroupNew(void)
{
    IoFilterGroup *const this = memNew(sizeof(IoFilterGroup));
    this->total = 0;
    return this;
}

IoFilterGroup *
ioFilterGroupInsert(IoFilterGroup *const this, const unsigned int idx, IoFilter *const filter)
{
    VERIF_LIMIT(this->total < VIO_FILTER, "filters");
    ASSUME(this->total < VIO_FILTER && idx <= this->total);

    for (unsigned int i = VIO_FILTER - 1; i > 0; i--)
        if (i > idx && i <= this->total)
            this->filter[i] = this->filter[i - 1];

    this->filter[idx] = filter;
    this->total++;
    return this;
}

IoFilterGroup *
ioFilterGroupAdd(IoFilterGroup *const this, IoFilter *const filter)
{
    VERIF_LIMIT(this->total < VIO_FILTER, "filters");
    ASSUME(this->total < VIO_FILTER);
    this->filter[this->total++] = filter;
    return this;
}

IoFilterGroup *ioFilterGroupClear(IoFilterGroup *const this) {this->total = 0; return this;}

IoFilterGroup *
cipherBlockFilterGroupAdd(IoFilterGroup *const group, const CipherMode mode, const CipherSpec *const spec)
{
    if (cipherSpecType(spec) != cipherTypeNone)
        ioFilterGroupAdd(group, cipherBlockNewP(mode, spec));

    return group;
}

PackRead *
ioFilterGroupResult(const IoFilterGroup *const this, const StringId filterType, const IoFilterGroupResultParam param)
{
    unsigned int seen = 0;

    for (unsigned int i = 0; i < VIO_FILTER; i++)
    {
        if (i < this->total && this->filter[i]->pub.type == filterType)
        {
            if (seen == param.idx)
            {
                CHECK_OB("filter result is read after the stream was processed", this->filter[i]->done);
                PackRead *const result = memNew(sizeof(PackRead));
                *result = (PackRead){.filter = this->filter[i]};
                return result;
            }

            seen++;
        }
    }

    CHECK_OB("filter result exists", false);
    ASSUME(false);
    return NULL;
}

#ifndef VIO_OWN_PACK
static size_t vioHashSize(const uint64_t type) {return type == hashTypeSha1 ? HASH_TYPE_SHA1_SIZE : type == hashTypeSha256 ? HASH_TYPE_SHA256_SIZE : 16;}

Buffer *
pckReadBin(PackRead *const this, const PckReadBinParam param)
{
    CHECK_OB("binary result is that of a hash filter", this->filter->kind == vioFilterHash);
    return vioDataHash(&this->filter->data, vioHashSize(this->filter->param));
}

uint64_t
pckReadU64(PackRead *const this, const PckReadU64Param param)
{
    CHECK_OB("integer result is that of a size filter", this->filter->kind == vioFilterSize);
    return vioDataSize(&this->filter->data);
}
#endif

/* ---------------------------------------------------------------------------------------------------------------------- reads */
static IoRead *
vioReadNew(StorageRead *const file)
{
    IoRead *const this = memNew(sizeof(IoRead));
    *this = (IoRead){.file = file};
    this->pub.filterGroup = ioFilterGroupNew();
    return this;
}

#ifndef VIO_READ
#define VIO_READ                                                    6
#endif

static unsigned int vioReadCount;
static unsigned int vioChunk = 1;                                   // bytes delivered by each ioRead() (0: all)
static bool vioEofLate;                                             // end of file becomes known only with a read that delivers nothing

#ifndef VIO_READ_FAIL
#define VIO_READ_FAIL(name)                                         (verif_fault_enabled && IN_BOOL(name))
#endif

#ifdef VIO_MULTI
// All parts one after the other. The parts have the same transformations.
static bool
vioMultiOpen(IoRead *const this)
{
    bool result = true;
    VioData all = {0};

    for (unsigned int i = 0; i < this->multi->total; i++)
    {
        StorageRead *const part = this->multi->part[i];
        VioData data;

        if (!vioOpen(part, &data))
            result = false;

        const unsigned int begin = (unsigned int)part->pub.offset;
        ASSUME(begin <= data.size);

        if (part->pub.limit != NULL && varUInt64(part->pub.limit) + begin < data.size)
            data.size = begin + (unsigned int)varUInt64(part->pub.limit);

        this->multi->partSize[i] = data.size - begin;

        if (i == 0)
        {
            all = data;
            all.size = 0;
        }

        if (!vioTagEq(&all, &data))
            all.bad = true;

        VERIF_LIMIT(all.size + data.size - begin <= VIO_BYTE, "file size");
        ASSUME(all.size + data.size - begin <= VIO_BYTE);

        for (unsigned int j = 0; j < VIO_BYTE; j++)
            if (j >= begin && j < data.size)
                all.byte[all.size + j - begin] = data.byte[j];

        all.size += data.size - begin;
    }

    this->data = all;
    this->out = all;
    this->out.size = 0;
    this->pub.eofAll = false;
    this->open = true;
    this->failed = !result;
    return result;
}
#endif

// (The state changes of an operation come first and its failure last, so that for the verifier the state does not depend on the failure.
// Each composite operation fails at one place for the same reason: what it leaves behind when it fails is never looked at)
static bool
vioReadOpenState(IoRead *const this)
{
    CHECK_OB("read opened once", !this->open && !this->closed);

#ifdef VIO_MULTI
    if (this->multi != NULL)
        return vioMultiOpen(this);
#endif

    const bool found = this->file == NULL ? true : vioOpen(this->file, &this->data);

    this->out = this->data;
    this->out.size = 0;
    this->pub.eofAll = false;
#ifdef DEBUG
    this->pub.opened = true;
#endif

    if (this->file == NULL)
    {
        this->open = true;
        return found;
    }

    // Offset and limit
    ASSUME(this->file->pub.offset <= this->data.size);
    this->pos = (unsigned int)this->file->pub.offset;

    if (this->file->pub.limit != NULL && varUInt64(this->file->pub.limit) + this->pos < this->data.size)
        this->data.size = this->pos + (unsigned int)varUInt64(this->file->pub.limit);

    this->failed = !found;
    this->open = true;
    return found;
}

IoRead *
ioBufferReadNew(const Buffer *const buffer)
{
    IoRead *const this = vioReadNew(NULL);
    VERIF_LIMIT(bufUsed(buffer) <= VIO_BYTE, "buffer size");
    ASSUME(bufUsed(buffer) <= VIO_BYTE);
    this->data = (VioData){.size = (unsigned int)bufUsed(buffer)};

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        if (i < bufUsed(buffer))
            this->data.byte[i] = bufPtrConst(buffer)[i];

    return this;
}

bool
ioReadOpen(IoRead *const this)
{
    VERIF_HINT(true);
    const bool found = vioReadOpenState(this);

    if (VIO_READ_FAIL("readOpen_fail"))
    {
        this->failed = true;
        THROW(FileOpenError, "");
    }

    if (!found)
    {
        if (this->file != NULL && this->file->pub.ignoreMissing)
            return false;

        THROW(FileMissingError, "");
    }

    return true;
}

static size_t
vioReadState(IoRead *const this, Buffer *const buffer, const bool all)
{
    // (counted before any branch, so that the count is a constant for the verifier) Every read but the last two delivers at least one byte
    vioReadCount++;
    VERIF_LIMIT(vioReadCount <= VIO_READ, "number of reads");
    ASSUME(vioReadCount <= VIO_READ);

    CHECK_OB("read of an open file", this->open && !this->closed);

    unsigned int size = this->data.size - this->pos;

    if (buffer != NULL && size > bufRemains(buffer))
        size = (unsigned int)bufRemains(buffer);

    if (!all && vioChunk != 0 && size > vioChunk)
        size = vioChunk;


    for (unsigned int i = 0; i < VIO_BYTE; i++)
    {
        if (i < size)
        {
            if (buffer != NULL)
                bufRemainsPtr(buffer)[i] = this->data.byte[this->pos + i];

            this->out.byte[this->out.size + i] = this->data.byte[this->pos + i];
        }
    }

    this->pos += size;
    this->out.size += size;

    if (buffer != NULL)
    {
        bufUsedInc(buffer, size);

        unsigned int owner = vioOwnerTotal;

        for (unsigned int i = 0; i < VIO_OWNER; i++)
            if (i < vioOwnerTotal && vioOwnerBuffer[i] == buffer)
                owner = i;

        if (owner == vioOwnerTotal)
        {
            VERIF_LIMIT(owner < VIO_OWNER, "buffers");
            ASSUME(owner < VIO_OWNER);
            vioOwnerTotal++;
        }

        vioOwnerBuffer[owner] = buffer;
        vioOwnerRead[owner] = this;
    }

    // End of file is known with the last data or only after another read
    if (this->pos == this->data.size && (all || size == 0 || !vioEofLate))
        this->pub.eofAll = true;

    return size;
}

size_t
ioRead(IoRead *const this, Buffer *const buffer)
{
    const size_t result = vioReadState(this, buffer, false);
    VERIF_HINT(result);

    if (VIO_READ_FAIL("read_fail"))
    {
        this->failed = true;
        THROW(FileReadError, "");
    }

    return result;
}

static bool
vioReadCloseState(IoRead *const this)
{
    CHECK_OB("close of an open file", this->open && !this->closed);
    this->closed = true;
#ifdef DEBUG
    this->pub.closed = true;
#endif
    return vioGroupApply(&this->out, this->pub.filterGroup);
}

void
ioReadClose(IoRead *const this)
{
    CHECK_OB("no close of a failed read", !this->failed);

    if (!vioReadCloseState(this) || VIO_READ_FAIL("readClose_fail"))
    {
        this->failed = true;
        THROW(FileCloseError, "");
    }
}

bool
ioReadDrain(IoRead *const this)
{
    VERIF_HINT(true);
    const bool found = vioReadOpenState(this);
    vioReadState(this, NULL, true);

    const bool data = vioReadCloseState(this);

    if ((found && !data) || VIO_READ_FAIL("drain_fail"))
    {
        this->failed = true;
        THROW(FileReadError, "");
    }

    if (!found)
    {
        if (this->file->pub.ignoreMissing)
            return false;

        THROW(FileMissingError, "");
    }

    return true;
}

Buffer *
ioReadBuf(IoRead *const this)
{
    Buffer *const result = bufNew(VIO_BYTE);
    vioReadState(this, result, true);

    if (VIO_READ_FAIL("read_fail"))
    {
        this->failed = true;
        THROW(FileReadError, "");
    }

    return result;
}

size_t ioBufferSize(void) {return VIO_BYTE;}

/* --------------------------------------------------------------------------------------------------------------------- writes */
static IoWrite *
vioWriteNew(StorageWrite *const file)
{
    IoWrite *const this = memNew(sizeof(IoWrite));
    *this = (IoWrite){.file = file};
    this->pub.filterGroup = ioFilterGroupNew();
    return this;
}

void
ioWriteOpen(IoWrite *const this)
{
    CHECK_OB("write opened once", !this->open && !this->closed);

    if (this->file != NULL)
        vioWriteOpen(this->file);

    this->open = true;

    if (verif_fault_enabled && IN_BOOL("writeOpen_fail"))
    {
        this->failed = true;
        THROW(FileOpenError, "");
    }
}

// Transformations of a stream after the filters of the read it comes from
static bool
vioReadTag(const IoRead *const read, VioData *const d)
{
    d->tagTotal = read->data.tagTotal;

    for (unsigned int i = 0; i < VIO_TAG; i++)
        d->tag[i] = read->data.tag[i];

    return vioGroupApplyRecord(d, read->pub.filterGroup, false);
}

// False when the stream cannot be processed by the filters of its source
static bool
vioWriteByte(IoWrite *const this, const uint8_t *const byte, const unsigned int size, const IoRead *const source)
{
    VERIF_LIMIT(this->pos + size <= VIO_BYTE, "file size");
    ASSUME(this->pos + size <= VIO_BYTE);
    bool result = true;

    if (source != NULL)
    {
        VioData tag = {0};
        result = vioReadTag(source, &tag);

        if (this->adopted && !vioTagEq(&tag, &this->data))
            this->data.bad = true;

        this->data.tagTotal = tag.tagTotal;

        for (unsigned int i = 0; i < VIO_TAG; i++)
            this->data.tag[i] = tag.tag[i];

        this->adopted = true;
    }

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        if (i < size)
            this->data.byte[this->pos + i] = byte[i];

    this->pos += size;

    if (this->pos > this->data.size)
        this->data.size = this->pos;

    return result;
}

static bool
vioWriteState(IoWrite *const this, const Buffer *const buffer)
{
    CHECK_OB("write of an open file", this->open && !this->closed);

    if (buffer == NULL)
        return true;

    const IoRead *source = NULL;

    for (unsigned int i = 0; i < VIO_OWNER; i++)
        if (i < vioOwnerTotal && vioOwnerBuffer[i] == buffer)
            source = vioOwnerRead[i];

    return vioWriteByte(this, bufPtrConst(buffer), (unsigned int)bufUsed(buffer), source);
}

void
ioWrite(IoWrite *const this, const Buffer *const buffer)
{
    CHECK_OB("no write after a failed write", !this->failed);

    if (!vioWriteState(this, buffer) || (verif_fault_enabled && IN_BOOL("write_fail")))
    {
        this->failed = true;
        THROW(FileWriteError, "");
    }
}

static bool
vioWriteCloseState(IoWrite *const this)
{
    CHECK_OB("close of an open file for write", this->open && !this->closed);
    this->closed = true;
    return vioGroupApply(&this->data, this->pub.filterGroup);
}

void
ioWriteClose(IoWrite *const this)
{
    CHECK_OB("no close after a failed write", !this->failed);

    if (!vioWriteCloseState(this) || (verif_fault_enabled && IN_BOOL("writeClose_fail")))
    {
        this->failed = true;
        THROW(FileCloseError, "");
    }

    if (this->file != NULL)
        vioWritten(this->file, &this->data);
    else
    {
        bufResize(this->buffer, this->data.size);

        for (unsigned int i = 0; i < VIO_BYTE; i++)
            if (i < this->data.size)
                bufPtr(this->buffer)[i] = this->data.byte[i];

        bufUsedSet(this->buffer, this->data.size);
    }
}

IoWrite *
ioBufferWriteNew(Buffer *const buffer)
{
    IoWrite *const this = vioWriteNew(NULL);
    this->buffer = buffer;
    return this;
}

/* -------------------------------------------------------------------------------------------------------------------- storage */
StorageRead *
storageNewRead(const Storage *const storage, const String *const file, const StorageNewReadParam param)
{
    CHECK_OB("read has a storage and a name", storage != NULL && file != NULL);
    StorageRead *const this = memNew(sizeof(StorageRead));
    this->storage = storage;
    this->pub.name = file;
    this->pub.offset = param.offset;
    this->pub.limit = param.limit == NULL ? NULL : vioVarU64(varUInt64(param.limit));
    this->pub.ignoreMissing = param.ignoreMissing;
    this->pub.io = vioReadNew(this);
    return this;
}

StorageWrite *
storageNewWrite(const Storage *const storage, const String *const file, const StorageNewWriteParam param)
{
    CHECK_OB("write has a writable storage and a name", storage != NULL && file != NULL && storage->write);
    StorageWrite *const this = memNew(sizeof(StorageWrite));
    this->storage = storage;
    this->pub.name = file;
    this->pub.atomic = !param.noAtomic;
    this->pub.createPath = !param.noCreatePath;
    this->pub.truncate = !param.noTruncate;
    this->pub.syncFile = !param.noSyncFile;
    this->pub.syncPath = !param.noSyncPath;
    this->pub.modeFile = param.modeFile;
    this->pub.modePath = param.modePath;
    this->pub.user = param.user;
    this->pub.group = param.group;
    this->pub.timeModified = param.timeModified;
    this->pub.io = vioWriteNew(this);
    return this;
}

bool
storageCopy(StorageRead *const source, StorageWrite *const destination)
{
    IoRead *const read = storageReadIo(source);
    IoWrite *const write = storageWriteIo(destination);

    VERIF_HINT(true);
    const bool found = vioReadOpenState(read);
    CHECK_OB("write opened once", !write->open && !write->closed);

    if (found)
        vioWriteOpen(write->file);

    write->open = true;
    vioReadState(read, NULL, true);

    const bool data = vioWriteByte(write, read->out.byte, read->out.size, read);
    const bool closeRead = vioReadCloseState(read);
    const bool closeWrite = vioWriteCloseState(write);

    if (!found)
    {
        if (source->pub.ignoreMissing)
            return false;

        THROW(FileMissingError, "");
    }

    if (!data || !closeRead || !closeWrite || (verif_fault_enabled && IN_BOOL("copy_fail")))
    {
        write->failed = true;
        THROW(FileWriteError, "");
    }

    vioWritten(destination, &write->data);
    return true;
}

void
ioCopy(IoRead *const source, IoWrite *const destination, const IoCopyParam param)
{
    CHECK_OB("copy from an open file to an open file", source->open && !source->closed && destination->open && !destination->closed);
    CHECK_OB("no copy after a failure", !source->failed && !destination->failed);

    unsigned int size = source->data.size - source->pos;

    if (param.limit != NULL && varUInt64(param.limit) < size)
        size = (unsigned int)varUInt64(param.limit);

#ifdef VIO_MULTI
    // A stream that is not one of the parts cannot be decoded
    if (source->multi != NULL)
    {
        unsigned int begin = 0;
        bool whole = false;

        for (unsigned int i = 0; i < source->multi->total; i++)
        {
            if (begin == source->pos && source->multi->partSize[i] == size)
                whole = true;

            begin += source->multi->partSize[i];
        }

        CHECK_OB("copy takes exactly one part", whole);
    }
#endif

    const bool data = vioWriteByte(destination, source->data.byte + source->pos, size, source);

    for (unsigned int i = 0; i < VIO_BYTE; i++)
        if (i < size)
            source->out.byte[source->out.size + i] = source->data.byte[source->pos + i];

    source->out.size += size;
    source->pos += size;

    if (source->pos == source->data.size)
        source->pub.eofAll = true;

    if (!data || (verif_fault_enabled && IN_BOOL("copy_fail")))
    {
        destination->failed = true;
        THROW(FileWriteError, "");
    }
}

void
ioWriteSeek(IoWrite *const this, const uint64_t offset)
{
    CHECK_OB("seek in an open file", this->open && !this->closed && !this->failed);
    this->pos = (unsigned int)offset;

    if (verif_fault_enabled && IN_BOOL("seek_fail"))
    {
        this->failed = true;
        THROW(FileWriteError, "");
    }
}

#ifdef VIO_MULTI
StorageReadMulti *
storageNewReadMulti(const Storage *const storage)
{
    StorageReadMulti *const this = memNew(sizeof(StorageReadMulti));
    this->storage = storage;
    this->total = 0;
    this->pub.io = vioReadNew(NULL);
    this->pub.io->multi = this;
    return this;
}

void
storageReadMultiAdd(StorageReadMulti *const this, const String *const file, const StorageReadMultiAddParam param)
{
    VERIF_LIMIT(this->total < VIO_MULTI, "parts");
    ASSUME(this->total < VIO_MULTI);
    CHECK_OB("parts are added before the read is opened", !this->pub.io->open);
    this->part[this->total++] = storageNewReadP(this->storage, file, .offset = param.offset, .limit = param.limit);
}
#endif

Buffer *
storageGet(StorageRead *const file, const StorageGetParam param)
{
    IoRead *const read = storageReadIo(file);
    const bool found = vioReadOpenState(read);
    Buffer *const result = bufNew(VIO_BYTE);
    vioReadState(read, result, true);

    if (!vioReadCloseState(read) || VIO_READ_FAIL("get_fail") || (found && param.exactSize > 0 && bufUsed(result) < param.exactSize))
        THROW(FileReadError, "");

    if (!found)
    {
        if (file->pub.ignoreMissing)
            return NULL;

        THROW(FileMissingError, "");
    }

    return result;
}

void
storagePut(StorageWrite *const file, const Buffer *const buffer)
{
    IoWrite *const write = storageWriteIo(file);
    CHECK_OB("write opened once", !write->open && !write->closed);
    vioWriteOpen(file);
    write->open = true;

    if (!vioWriteState(write, buffer) || !vioWriteCloseState(write) || (verif_fault_enabled && IN_BOOL("put_fail")))
    {
        write->failed = true;
        THROW(FileWriteError, "");
    }

    vioWritten(file, &write->data);
}

enum {vioLocal = 0, vioPg = 1, vioSpool = 2, vioRepo = 3};
static const Storage *vioStorageGet(const unsigned int id, const bool write) {vioStorage[id * 2 + write].id = id; vioStorage[id * 2 + write].write = write; return &vioStorage[id * 2 + write];}

const Storage *storageLocal(void) {return vioStorageGet(vioLocal, false);}
const Storage *storageLocalWrite(void) {return vioStorageGet(vioLocal, true);}
const Storage *storagePg(void) {return vioStorageGet(vioPg, false);}
const Storage *storagePgWrite(void) {return vioStorageGet(vioPg, true);}
const Storage *storagePgIdx(const unsigned int idx) {return storagePg();}
const Storage *storagePgIdxWrite(const unsigned int idx) {return storagePgWrite();}
const Storage *storageSpool(void) {return vioStorageGet(vioSpool, false);}
const Storage *storageSpoolWrite(void) {return vioStorageGet(vioSpool, true);}

const Storage *
storageRepoIdx(const unsigned int repoIdx)
{
    CHECK_OB("repository index in range", repoIdx < 4);
    ASSUME(repoIdx < 4);
    return vioStorageGet(vioRepo + repoIdx, false);
}

const Storage *
storageRepoIdxWrite(const unsigned int repoIdx)
{
    CHECK_OB("repository index in range", repoIdx < 4);
    ASSUME(repoIdx < 4);
    return vioStorageGet(vioRepo + repoIdx, true);
}

// Append text (names expected by a harness)
static void
vioZCat(char *const to, const char *const from)
{
    size_t at = 0;

    while (to[at] != 0)
        at++;

    size_t i = 0;

    for (; from[i] != 0; i++)
        to[at + i] = from[i];

    to[at + i] = 0;
}
