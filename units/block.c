// block incremental: every backup of a file in a history is restored exactly from the blocks stored by it and by the ones before it
//@property C15
//@src src/command/backup/blockIncr.c src/command/backup/blockMap.c src/command/restore/blockDelta.c src/common/io/limitRead.c
//@harness h_mask0 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask1 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask2 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask3 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask4 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask5 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask6 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask7 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask8 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask9 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask10 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask11 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask12 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask13 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask14 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask15 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_mask16 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_size0 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_size1 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@harness h_size2 unwind=90 bits=16 kind=bounded funcs=blockIncrProcess,blockIncrNew,blockIncrNewPack,blockIncrResult,blockMapWrite,blockMapNewRead,blockDeltaNew,blockDeltaNext
//@bound histories of three backups of a file of up to five blocks (34 sets of blocks changed by the second and third, six changes of size), super blocks of one to five blocks, with and without compression and encryption, buffers of 7 to 24 bytes
//@trust list by contract (vlib/vlist.c)
//@trust xxHashOne() by contract: the checksum of different blocks differs
//@trust compression and encryption by contract: streaming transformations of any size with a header and an end; decoding reverses them and rejects other data
//@creplace strResize
//@cdef VLIST_MAX=12 VLIST_NAMED
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "vlib/viofull.c"
#include "common/crypto/spec.c"
#include "common/crypto/cipherBlock.h"
#include "common/compress/helper.h"
#include "command/backup/blockMap.c"
#include "command/backup/blockIncr.c"
#include "command/restore/blockDelta.c"
#undef VLIST_TYPES
#define VLIST_TYPES VLIST_TYPE(IoFilterData) VLIST_TYPE(unsigned int) VLIST_TYPE(IoFilterResult) VLIST_TYPE(PackTagStackItem) VLIST_TYPE(BlockMapItem) VLIST_TYPE(BlockMapReference) VLIST_TYPE(BlockDeltaSuperBlock) VLIST_TYPE(BlockDeltaBlock) VLIST_TYPE(BlockDeltaReference) VLIST_TYPE(BlockDeltaRead)
#include "vlib/vlistItem.c"

#define BLOCK                                                       2
#define SUM                                                         3

Buffer *
xxHashOne(const size_t size, const Buffer *const message)
{
    CHECK_OB("checksum size is the one configured", size == SUM);
    CHECK_OB("a block is not empty and not larger than the block size", !bufEmpty(message) && bufUsed(message) <= BLOCK);
    Buffer *const result = bufNew(SUM);
    bufPtr(result)[0] = (uint8_t)bufUsed(message);
    bufPtr(result)[1] = bufPtrConst(message)[0];
    bufPtr(result)[2] = bufUsed(message) > 1 ? bufPtrConst(message)[1] : 0;
    bufUsedSet(result, SUM);
    return result;
}

// Transformation of the content: header, run of equal bytes stored as two bytes or every byte followed by one more, end. Streaming in
// both directions. The decoder rejects data that was not made by the encoder.
typedef struct Code
{
    char begin, end;
    bool decode, run;
    unsigned int state;                                             // Decode: 0 header, 1 byte, 2 count, 3 end found. Encode: 0 header
    unsigned int in;
    uint8_t pend[8]; unsigned int pendSize, pendPos;                // Output not yet given
    uint8_t last; unsigned int lastTotal;                           // Run being counted
    bool same, done, flushed;
} Code;

static void
codePend(Code *const this, const uint8_t byte)
{
    VERIF_LIMIT(this->pendSize < 8, "pending output");
    this->pend[this->pendSize++] = byte;
}

static void
codeByte(Code *const this, const uint8_t byte)
{
    if (!this->decode)
    {
        if (this->run && this->lastTotal > 0 && this->last == byte && this->lastTotal < 5)
        {
            this->lastTotal++;
            return;
        }

        if (this->lastTotal > 0)
        {
            codePend(this, this->last);
            codePend(this, (uint8_t)('0' + this->lastTotal));
        }

        this->last = byte;
        this->lastTotal = 1;
        return;
    }

    if (this->state == 0)
    {
        if (byte != (uint8_t)this->begin)
            THROW(FormatError, "not encoded");

        this->state = 1;
    }
    else if (this->state == 1)
    {
        this->last = byte;
        this->state = byte == (uint8_t)this->end ? 3 : 2;
    }
    else if (this->state == 2)
    {
        if (byte < '1' || byte > '5')
            THROW(FormatError, "damaged");

        for (uint8_t i = '0'; i < byte; i++)
            codePend(this, this->last);

        this->state = 1;
    }
    else
        THROW(FormatError, "data after the end");
}

static void
codeProcess(THIS_VOID, const Buffer *const input, Buffer *const output)
{
    THIS(Code);

    if (!this->decode && this->state == 0)
    {
        codePend(this, (uint8_t)this->begin);
        this->state = 1;
    }

    if (input == NULL && !this->flushed)
    {
        this->flushed = true;

        if (this->decode)
        {
            if (this->state != 3)
                THROW(FormatError, "cut off");
        }
        else
        {
            if (this->lastTotal > 0)
            {
                codePend(this, this->last);
                codePend(this, (uint8_t)('0' + this->lastTotal));
            }

            codePend(this, (uint8_t)this->end);
        }
    }

    while (true)
    {
        while (this->pendPos < this->pendSize && bufRemains(output) > 0)
        {
            bufPtr(output)[bufUsed(output)] = this->pend[this->pendPos++];
            bufUsedInc(output, 1);
        }

        if (this->pendPos < this->pendSize)
            break;

        this->pendPos = this->pendSize = 0;

        if (input == NULL || this->in == bufUsed(input))
            break;

        codeByte(this, bufPtrConst(input)[this->in++]);
    }

    if (input == NULL)
    {
        this->same = this->pendPos < this->pendSize;
        this->done = !this->same;
    }
    else
    {
        this->same = this->pendPos < this->pendSize || this->in < bufUsed(input);

        if (!this->same)
            this->in = 0;
    }
}

static bool codeDone(const THIS_VOID) {THIS(const Code); return this->done;}
static bool codeSame(const THIS_VOID) {THIS(const Code); return this->same;}

#define TYPE_COMPRESS                                               STRID5("zip", 0x413a0)
#define TYPE_ENCRYPT                                                STRID5("cipher", 0x16410d230)

static IoFilter *
codeNew(const StringId type, const char begin, const char end, const bool run, const bool decode, const unsigned int key)
{
    Code *const this = memNew(sizeof(Code));
    *this = (Code){.begin = begin, .end = end, .run = run, .decode = decode};
    PackWrite *const packWrite = pckWriteNewP();
    pckWriteU32P(packWrite, key);
    pckWriteEndP(packWrite);
    return ioFilterNewP(
        type, this, pckWriteResult(packWrite), .inOut = codeProcess, .done = codeDone, .inputSame = codeSame);
}

static IoFilter *compressNew(void) {return codeNew(TYPE_COMPRESS, 'Z', (char)0xfd, true, false, 77);}
static IoFilter *encryptNew(void) {return codeNew(TYPE_ENCRYPT, 'E', (char)0xfe, false, false, 88);}

IoFilter *
compressFilterPack(const StringId filterType, const Pack *const filterParam)
{
    CHECK_OB("compress filter as configured", filterType == TYPE_COMPRESS && pckReadU32P(pckReadNew(filterParam)) == 77);
    return compressNew();
}

IoFilter *
cipherBlockNewPack(const Pack *const paramList)
{
    CHECK_OB("encrypt filter as configured", pckReadU32P(pckReadNew(paramList)) == 88);
    return encryptNew();
}

IoFilter *
decompressFilter(const CompressType type, const DecompressFilterParam param)
{
    CHECK_OB("blocks are decompressed as they were compressed", type == compressTypeGz && param.raw);
    return codeNew(TYPE_COMPRESS, 'Z', (char)0xfd, true, true, 77);
}

IoFilter *
cipherBlockNew(const CipherMode mode, const CipherSpec *const cipherSpec, const CipherBlockNewParam param)
{
    CHECK_OB("blocks are decrypted as they were encrypted", mode == cipherModeDecrypt && cipherSpecType(cipherSpec) == cipherTypeAes256Cbc && param.raw);
    return codeNew(TYPE_ENCRYPT, 'E', (char)0xfe, false, true, 88);
}

/* ---------------------------------------------------------------------------------------------------------------------- repository */
#define BACKUP_MAX                                                  3

typedef struct Stored
{
    Buffer *file;                                                   // Repository file
    uint64_t offset;                                                // Where it begins in the bundle
    uint64_t bundleId;
    unsigned int mapBackup;                                         // Backup that has the block map
    uint64_t mapSize;
} Stored;

static Stored gStored[BACKUP_MAX];
static bool gCompress, gEncrypt;

static const Buffer *
mapOf(const unsigned int backup)
{
    const Stored *const stored = &gStored[gStored[backup].mapBackup];
    IoRead *const read = ioBufferReadNew(
        bufNewC(bufPtrConst(stored->file) + bufUsed(stored->file) - stored->mapSize, stored->mapSize));

    if (gEncrypt)
        ioFilterGroupAdd(ioReadFilterGroup(read), codeNew(TYPE_ENCRYPT, 'E', (char)0xfe, false, true, 88));

    ioReadOpen(read);
    return ioReadBuf(read);
}

// Back up the content: false when nothing needed to be stored
static bool
backup(
    const unsigned int no, const char *const content, const unsigned int size, const unsigned int superSize, const unsigned int piece,
    const bool remote)
{
    Stored *const stored = &gStored[no];
    *stored = (Stored){.offset = no == 1 ? 3 : 0, .bundleId = no == 1 ? 5 : 0, .mapBackup = no, .file = bufNew(0)};

    IoFilter *filter = blockIncrNew(
        superSize, BLOCK, SUM, no, stored->bundleId, stored->offset, no == 0 ? NULL : mapOf(no - 1), gCompress ? compressNew() : NULL,
        gEncrypt ? encryptNew() : NULL);

    if (remote)
        filter = blockIncrNewPack(ioFilterParamList(filter));

    IoWrite *const write = ioBufferWriteNew(stored->file);
    ioFilterGroupAdd(ioWriteFilterGroup(write), filter);
    ioWriteOpen(write);

    for (unsigned int i = 0; i < size; i += piece)
        ioWrite(write, bufNewC(content + i, size - i < piece ? size - i : piece));

    ioWriteClose(write);
    stored->mapSize = pckReadU64P(ioFilterGroupResultP(ioWriteFilterGroup(write), BLOCK_INCR_FILTER_TYPE));

    if (stored->mapSize == 0)
    {
        CHECK_OB("nothing is stored without a block map", bufEmpty(stored->file));
        stored->mapBackup = no == 0 ? 0 : gStored[no - 1].mapBackup;
        return false;
    }

    CHECK_OB("the block map is part of what is stored", stored->mapSize <= bufUsed(stored->file));
    return true;
}

// Restore a backup over an existing file
static void
restore(const unsigned int no, const char *const content, const unsigned int size, const char *const exist, const unsigned int existSize)
{
    const BlockMap *const map = blockMapNewRead(ioBufferReadNewOpen(mapOf(no)), BLOCK, SUM);
    CHECK_OB("the block map has every block of the file", blockMapSize(map) == (size + BLOCK - 1) / BLOCK);

    uint8_t file[16];
    bool written[16];
    Buffer *const checksum = exist == NULL ? NULL : bufNew(24);

    for (unsigned int i = 0; i < 16; i++)
    {
        file[i] = exist != NULL && i < existSize ? (uint8_t)exist[i] : '?';
        written[i] = false;
    }

    for (unsigned int i = 0; exist != NULL && i < existSize; i += BLOCK)
        bufCat(checksum, xxHashOne(SUM, bufNewC(exist + i, existSize - i < BLOCK ? existSize - i : BLOCK)));

    BlockDelta *const delta = blockDeltaNew(
        map, BLOCK, SUM, checksum, gEncrypt ? cipherSpecNew(cipherTypeAes256Cbc, bufNewC("k", 1)) : cipherSpecNewNone(),
        gCompress ? compressTypeGz : compressTypeNone);

    for (unsigned int readIdx = 0; readIdx < blockDeltaReadSize(delta); readIdx++)
    {
        const BlockDeltaRead *const read = blockDeltaReadGet(delta, readIdx);
        CHECK_OB("blocks are read from a backup that exists", read->reference <= no);
        const Stored *const stored = &gStored[read->reference];
        CHECK_OB("blocks are read from the bundle they are in", read->bundleId == stored->bundleId);
        CHECK_OB(
            "blocks are read from the part of the file that has them",
            read->offset >= stored->offset && read->size > 0 &&
            read->offset - stored->offset + read->size <= bufUsed(stored->file) - stored->mapSize);

        IoRead *const io = ioBufferReadNewOpen(bufNewC(bufPtrConst(stored->file) + (read->offset - stored->offset), read->size));
        const BlockDeltaWrite *write = blockDeltaNext(delta, read, io);

        while (write != NULL)
        {
            CHECK_OB("blocks are written inside of the file", write->offset + bufUsed(write->block) <= size);

            for (unsigned int i = 0; i < bufUsed(write->block); i++)
            {
                file[write->offset + i] = bufPtrConst(write->block)[i];
                CHECK_OB("a block is written once", !written[write->offset + i]);
                written[write->offset + i] = true;
            }

            write = blockDeltaNext(delta, read, io);
        }
    }

    for (unsigned int i = 0; i < size; i++)
        CHECK_OB("every byte of a restored file is the one backed up", file[i] == (uint8_t)content[i]);
}

#define EQ(a, as, b, bs)                                            ((as) == (bs) && memcmp(a, b, as) == 0)

// Blocks of a content: bit set means that the block is changed to the letter
static unsigned int
change(char *const content, const char *const from, const unsigned int blocks, const unsigned int mask, const char letter)
{
    for (unsigned int i = 0; i < blocks; i++)
    {
        content[i * 2] = mask & (1u << i) ? (char)(letter + (int)i) : from[i * 2];
        content[i * 2 + 1] = mask & (1u << i) ? letter : from[i * 2 + 1];
    }

    return blocks * 2;
}

static unsigned int gCase;

static void
history(
    const char *const c0, const unsigned int s0, const char *const c1, const unsigned int s1, const char *const c2,
    const unsigned int s2)
{
    static const unsigned int super[] = {10, 4, 6, 2, 3};
    static const unsigned int ioSize[] = {16, 7, 24};
    const unsigned int n = gCase++;
    gCompress = n % 4 == 1 || n % 4 == 2;
    gEncrypt = n % 4 >= 2;

    TRY_BEGIN()
    {
        ioBufferSizeSet(ioSize[n % 3]);
        const unsigned int u = super[(n + n / 5) % 5];
        const bool b0 = backup(0, c0, s0, u, 16, n % 2);
        const bool b1 = backup(1, c1, s1, n % 3 == 0 ? super[(n + 1) % 5] : u, 3 + n % 4, n % 3 == 1);
        const bool b2 = backup(2, c2, s2, n % 3 == 1 ? super[(n + 2) % 5] : u, 16, n % 2 == 0);
        CHECK_OB("the first backup stores every block", b0);
        CHECK_OB("a backup stores nothing exactly when nothing changed", b1 == !EQ(c0, s0, c1, s1));
        CHECK_OB("a later backup stores nothing exactly when nothing changed", b2 == !EQ(c1, s1, c2, s2));

        ioBufferSizeSet(n % 4 == 3 ? 4 : n % 4 == 2 ? 5 : 16);

        // Nothing there, or a file that has some of the blocks
        if (n % 2 == 0)
        {
            restore(2, c2, s2, NULL, 0);
            restore(1, c1, s1, c2, s2);
        }
        else
        {
            restore(2, c2, s2, c0, s0);
            restore(1, c1, s1, NULL, 0);
        }

        restore(0, c0, s0, n % 3 == 0 ? c2 : NULL, n % 3 == 0 ? s2 : 0);
        COVER("restored");
    }
    CATCH_ANY()
    {
        CHECK_OB("no error", false);
    }
    TRY_END();
}

#define BASE                                                        "aabcccdeee"

static void
masks(const unsigned int m1, const unsigned int m2)
{
    char c1[16], c2[16];
    const unsigned int s1 = change(c1, BASE, 5, m1, 'P');
    const unsigned int s2 = change(c2, c1, 5, m2, 'U');
    history(BASE, 10, c1, s1, c2, s2);
}

void
h_mask0(void)
{
    gCase = 0;
    masks(4, 2);
    masks(4, 8);
}

void
h_mask1(void)
{
    gCase = 2;
    masks(4, 10);
    masks(4, 17);
}

void
h_mask2(void)
{
    gCase = 5;
    masks(4, 31);
    masks(4, 16);
}

void
h_mask3(void)
{
    gCase = 7;
    masks(10, 4);
    masks(10, 0);
}

void
h_mask4(void)
{
    gCase = 10;
    masks(10, 16);
    masks(10, 5);
}

void
h_mask5(void)
{
    gCase = 12;
    masks(10, 21);
    masks(10, 8);
}

void
h_mask6(void)
{
    gCase = 15;
    masks(1, 2);
    masks(1, 16);
}

void
h_mask7(void)
{
    gCase = 17;
    masks(1, 1);
    masks(1, 30);
}

void
h_mask8(void)
{
    gCase = 20;
    masks(16, 8);
    masks(16, 1);
}

void
h_mask9(void)
{
    gCase = 22;
    masks(16, 15);
    masks(16, 4);
}

void
h_mask10(void)
{
    gCase = 25;
    masks(14, 4);
    masks(14, 2);
}

void
h_mask11(void)
{
    gCase = 27;
    masks(14, 8);
    masks(14, 17);
}

void
h_mask12(void)
{
    gCase = 30;
    masks(14, 10);
    masks(14, 21);
}

void
h_mask13(void)
{
    gCase = 32;
    masks(21, 4);
    masks(21, 10);
}

void
h_mask14(void)
{
    gCase = 35;
    masks(21, 0);
    masks(21, 14);
}

void
h_mask15(void)
{
    gCase = 37;
    masks(0, 4);
    masks(0, 14);
}

void
h_mask16(void)
{
    gCase = 40;
    masks(31, 4);
    masks(31, 10);
}

void
h_size0(void)
{
    gCase = 3;
    history(BASE, 10, BASE, 7, "aabXccddZ", 9);
    history(BASE, 9, BASE, 10, "aabb", 4);
}

void
h_size1(void)
{
    gCase = 5;
    history("a", 1, BASE, 10, BASE, 9);
    history(BASE, 5, BASE, 4, BASE, 5);
}

void
h_size2(void)
{
    gCase = 7;
    history(BASE, 4, "aabbccddeeff", 12, "aaXXccddeeff", 12);
    history(BASE, 10, "aaXX", 4, BASE, 10);
}
