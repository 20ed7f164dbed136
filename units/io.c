// IO layer: every byte passes once, in order, whatever the sizes of buffers, pieces and filter outputs
//@property C19
//@src src/common/io/read.c src/common/io/write.c src/common/io/io.c src/common/io/filter/group.c src/common/io/filter/buffer.c src/common/io/filter/size.c src/common/io/bufferRead.c src/common/io/bufferWrite.c src/common/io/limitRead.c src/common/type/pack.c
//@harness h_write0 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read0 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@harness h_write1 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read1 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@harness h_write2 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read2 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@harness h_write3 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read3 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@harness h_write4 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read4 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@harness h_write5 unwind=40 bits=16 kind=bounded funcs=ioWrite,ioWriteClose,ioFilterGroupProcess,ioFilterGroupClose,ioBufferProcess,ioSizeProcess,ioSizeResult
//@harness h_read5 unwind=40 bits=16 kind=bounded funcs=ioRead,ioReadSmall,ioReadInternal,ioReadClose,ioBufferRead,ioBufferReadEof,ioFilterGroupProcess
//@bound three and four bytes of content, buffers and pieces of one to four bytes, six filter chains (none, size, growing, holding, and mixtures)
//@harness h_limit unwind=40 bits=16 kind=bounded funcs=ioLimitRead,ioLimitReadEof,ioReadFlush
//@bound two limited reads of zero to three bytes one after the other, the first with a growing filter or none, buffers of one to three bytes
//@harness h_line unwind=30 bits=16 kind=bounded funcs=ioReadLineParam,ioReadVarIntU64,ioRead
//@bound lines of zero to three bytes, varints of one to three bytes and the rest of the content, buffers of three to five bytes
//@harness h_copy unwind=40 bits=16 kind=bounded funcs=ioCopy,ioReadBuf,ioReadDrain
//@bound five bytes copied with no limit and limits of zero to six, buffers of one to four bytes
//@trust list by contract (vlib/vlist.c)
//@creplace strResize
//@cdef VLIST_MAX=8 VLIST_NAMED
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "vlib/viofull.c"
#undef VLIST_TYPES
#define VLIST_TYPES VLIST_TYPE(IoFilterData) VLIST_TYPE(IoFilterResult) VLIST_TYPE(PackTagStackItem)
#include "vlib/vlistItem.c"

// Filter that turns every byte into three and adds two bytes at the end (as compression and encryption may), any amount at a time
typedef struct Grow
{
    unsigned int in;                                                // Position in the input
    unsigned int phase;                                             // Byte of the three to be output next
    unsigned int end;                                               // Bytes of the end output
    bool same, done;
} Grow;

static void
growProcess(THIS_VOID, const Buffer *const input, Buffer *const output)
{
    THIS(Grow);

    if (input == NULL)
    {
        while (this->end < 2 && bufRemains(output) > 0)
        {
            bufPtr(output)[bufUsed(output)] = (uint8_t)('$' + this->end++);
            bufUsedInc(output, 1);
        }

        this->done = this->end == 2;
        this->same = !this->done;
        return;
    }

    while (this->in < bufUsed(input) && bufRemains(output) > 0)
    {
        bufPtr(output)[bufUsed(output)] = this->phase == 1 ? '-' : bufPtrConst(input)[this->in];
        bufUsedInc(output, 1);
        this->phase++;

        if (this->phase == 3)
        {
            this->phase = 0;
            this->in++;
        }
    }

    this->same = this->in < bufUsed(input);

    if (!this->same)
        this->in = 0;
}

static bool growDone(const THIS_VOID) {THIS(const Grow); return this->done;}
static bool growSame(const THIS_VOID) {THIS(const Grow); return this->same;}

static IoFilter *
growNew(void)
{
    Grow *const this = memNew(sizeof(Grow));
    *this = (Grow){0};
    return ioFilterNewP(STRID5("grow", 0xbbe470), this, NULL, .inOut = growProcess, .done = growDone, .inputSame = growSame);
}

// Filter that keeps everything until the end (as a block based one does)
typedef struct Hold {uint8_t byte[40]; unsigned int size, out; bool same, done;} Hold;

static void
holdProcess(THIS_VOID, const Buffer *const input, Buffer *const output)
{
    THIS(Hold);

    if (input != NULL)
    {
        for (unsigned int i = 0; i < bufUsed(input); i++)
            this->byte[this->size++] = bufPtrConst(input)[i];

        return;
    }

    while (this->out < this->size && bufRemains(output) > 0)
    {
        bufPtr(output)[bufUsed(output)] = this->byte[this->out++];
        bufUsedInc(output, 1);
    }

    this->done = this->out == this->size;
    this->same = !this->done;
}

static bool holdDone(const THIS_VOID) {THIS(const Hold); return this->done;}
static bool holdSame(const THIS_VOID) {THIS(const Hold); return this->same;}

static IoFilter *
holdNew(void)
{
    Hold *const this = memNew(sizeof(Hold));
    *this = (Hold){.size = 0};
    return ioFilterNewP(STRID5("hold", 0x231e80), this, NULL, .inOut = holdProcess, .done = holdDone, .inputSame = holdSame);
}

// What the chain makes of the content: the oracle
typedef struct Bytes {uint8_t byte[80]; unsigned int size;} Bytes;

#define CHAIN_MAX                                                   6
static const char *const gChain[CHAIN_MAX] = {"", "s", "sGs", "sHs", "GsH", "HG"};

static void
chain(IoFilterGroup *const group, const char *const list)
{
    for (unsigned int i = 0; list[i] != '\0'; i++)
        ioFilterGroupAdd(group, list[i] == 's' ? ioSizeNew() : list[i] == 'G' ? growNew() : holdNew());
}

static Bytes
expected(const uint8_t *const data, const unsigned int size, const char *const list, uint64_t *const sizes)
{
    Bytes result = {.size = 0};
    unsigned int s = 0;

    for (unsigned int i = 0; i < size; i++)
        result.byte[result.size++] = data[i];

    for (unsigned int i = 0; list[i] != '\0'; i++)
    {
        if (list[i] == 's')
            sizes[s++] = result.size;
        else if (list[i] == 'G')
        {
            Bytes grown = {.size = 0};

            for (unsigned int j = 0; j < result.size; j++)
            {
                grown.byte[grown.size++] = result.byte[j];
                grown.byte[grown.size++] = '-';
                grown.byte[grown.size++] = result.byte[j];
            }

            grown.byte[grown.size++] = '$';
            grown.byte[grown.size++] = '%';
            result = grown;
        }
    }

    return result;
}

static const uint8_t gData[] = "abcdefg";

static void
sizes(const IoFilterGroup *const group, const char *const list, const uint64_t *const size)
{
    unsigned int s = 0;

    for (unsigned int i = 0; list[i] != '\0'; i++)
    {
        if (list[i] == 's')
        {
            const uint64_t result = pckReadU64P(ioFilterGroupResultP(group, SIZE_FILTER_TYPE, .idx = s));
            CHECK_OB("size filter counts every byte at its place", result == size[s]);
            s++;
        }
    }
}

static void
same(const char *const name, const Buffer *const result, const Bytes *const expect)
{
    CHECK_OB("no byte is lost or added", bufUsed(result) == expect->size);

    if (bufUsed(result) == expect->size)
    {
        for (unsigned int i = 0; i < expect->size; i++)
            CHECK_OB("every byte arrives in order", bufPtrConst(result)[i] == expect->byte[i]);
    }
}

static void
writes(const unsigned int ioSize, const unsigned int total, const unsigned int piece, const char *const list)
{
    uint64_t size[4];
    const Bytes expect = expected(gData, total, list, size);
    ioBufferSizeSet(ioSize);

    Buffer *const out = bufNew(0);
    IoWrite *const write = ioBufferWriteNew(out);
    chain(ioWriteFilterGroup(write), list);
    ioWriteOpen(write);

    for (unsigned int i = 0; i < total; i += piece)
        ioWrite(write, bufNewC(gData + i, total - i < piece ? total - i : piece));

    ioWriteClose(write);
    same("write", out, &expect);
    sizes(ioWriteFilterGroup(write), list, size);
}


static void
reads(const unsigned int ioSize, const unsigned int total, const unsigned int piece, const bool small, const char *const list)
{
    uint64_t size[4];
    const Bytes expect = expected(gData, total, list, size);
    ioBufferSizeSet(ioSize);

    IoRead *const read = ioBufferReadNew(bufNewC(gData, total));
    chain(ioReadFilterGroup(read), list);
    ioReadOpen(read);

    Buffer *const out = bufNew(0);
    Buffer *const buffer = bufNew(piece);
    unsigned int n = 0;

    while (!ioReadEof(read))
    {
        CHECK_OB("the read ends", n < 60);
        n++;
        bufUsedZero(buffer);

        const size_t result = small && n % 2 == 0 ? ioReadSmall(read, buffer) : ioRead(read, buffer);
        CHECK_OB("a read says how much it read", result == bufUsed(buffer));
        CHECK_OB("a read gives less than was asked for only at the end", bufFull(buffer) || ioReadEof(read));
        bufCat(out, buffer);
    }

    // (small reads leave data behind)
    if (small)
    {
        bufUsedZero(buffer);
        ioRead(read, buffer);

        while (!bufEmpty(buffer))
        {
            bufCat(out, buffer);
            bufUsedZero(buffer);
            ioRead(read, buffer);
        }
    }

    ioReadClose(read);
    same("read", out, &expect);
    sizes(ioReadFilterGroup(read), list, size);
}

static void
writeAll(const unsigned int c)
{
    for (unsigned int ioSize = 1; ioSize <= 4; ioSize++)
    {
        for (unsigned int piece = 1; piece <= 4; piece++)
        {
            TRY_BEGIN()
            {
                writes(ioSize, 3 + piece % 2, piece, gChain[c]);
                COVER("written");
            }
            CATCH_ANY()
            {
                CHECK_OB("no error", false);
            }
            TRY_END();
        }
    }
}

static void
readAll(const unsigned int c)
{
    for (unsigned int ioSize = 1; ioSize <= 4; ioSize++)
    {
        for (unsigned int piece = 1; piece <= 4; piece++)
        {
            TRY_BEGIN()
            {
                reads(ioSize, piece == 4 ? 0 : 3 + piece % 2, piece, (ioSize + piece) % 2 == 0, gChain[c]);
                COVER("read");
            }
            CATCH_ANY()
            {
                CHECK_OB("no error", false);
            }
            TRY_END();
        }
    }
}

void h_write0(void) {writeAll(0);}
void h_read0(void) {readAll(0);}
void h_write1(void) {writeAll(1);}
void h_read1(void) {readAll(1);}
void h_write2(void) {writeAll(2);}
void h_read2(void) {readAll(2);}
void h_write3(void) {writeAll(3);}
void h_read3(void) {readAll(3);}
void h_write4(void) {writeAll(4);}
void h_read4(void) {readAll(4);}
void h_write5(void) {writeAll(5);}
void h_read5(void) {readAll(5);}

void
h_limit(void)
{
    for (unsigned int ioSize = 1; ioSize <= 3; ioSize++)
        for (unsigned int first = 0; first <= 3; first++)
            for (unsigned int grow = 0; grow < 2; grow++)
            {
                const unsigned int second = (first + ioSize) % 4;

                TRY_BEGIN()
                {
                    ioBufferSizeSet(ioSize);
                    IoRead *const read = ioBufferReadNewOpen(bufNewC(gData, 7));

                    for (unsigned int part = 0; part < 2; part++)
                    {
                        uint64_t size[4];
                        const unsigned int total = part == 0 ? first : second;
                        const char *const list = part == 0 && grow ? "G" : "";
                        const Bytes expect = expected(part == 0 ? gData : gData + first, total, list, size);
                        IoRead *const limit = ioLimitReadNew(read, total);
                        chain(ioReadFilterGroup(limit), list);
                        ioReadOpen(limit);

                        if (part == 0 && grow && total > 0 && ioSize == 2)
                        {
                            // Only the beginning is read, the rest flushed
                            Buffer *const one = bufNew(1);
                            ioRead(limit, one);
                            CHECK_OB("first byte of a limited read", bufUsed(one) == 1 && bufPtr(one)[0] == expect.byte[0]);
                            CHECK_OB("flush says how much was left", ioReadFlushP(limit) == expect.size - 1);
                            COVER("flushed");
                        }
                        else
                        {
                            same("limit", ioReadBuf(limit), &expect);
                            CHECK_OB("nothing is left", ioReadFlushP(limit) == 0);
                        }
                    }

                    const Bytes rest = expected(gData + first + second, 7 - first - second, "", NULL);
                    same("rest", ioReadBuf(read), &rest);
                    COVER("limited");
                }
                CATCH_ANY()
                {
                    CHECK_OB("no error", false);
                }
                TRY_END();
            }
}

void
h_line(void)
{
    static const char data[] = "ab\n\nabc\n\x81\x01\x05" "x\nyz";
    uint8_t all[32];
    unsigned int total = 0;

    for (unsigned int i = 0; data[i] != '\0'; i++)
        all[total++] = (uint8_t)data[i];

    for (unsigned int ioSize = 4; ioSize <= 6; ioSize++)
    {
        TRY_BEGIN()
        {
            ioBufferSizeSet(ioSize);
            IoRead *const read = ioBufferReadNewOpen(bufNewC(all, total));
            CHECK_OB("line is read as written", strEqZ(ioReadLine(read), "ab"));
            CHECK_OB("empty line is read as written", strEqZ(ioReadLine(read), ""));
            CHECK_OB("line after an empty line is read as written", strEqZ(ioReadLine(read), "abc"));
            CHECK_OB("integer of two bytes is read as written", ioReadVarIntU64(read) == 129);
            CHECK_OB("integer of one byte is read as written", ioReadVarIntU64(read) == 5);
            Buffer *const buffer = bufNew(ioSize == 4 ? 1 : 3);
            ioRead(read, buffer);
            CHECK_OB("bytes after lines are read as written", bufFull(buffer) && bufPtr(buffer)[0] == 'x');
            COVER("lines");

            if (ioSize == 4)
            {
                CHECK_OB("end of line is read as written", strEqZ(ioReadLine(read), ""));
                CHECK_OB("line at the end", strEqZ(ioReadLineParam(read, true), "yz"));
            }
            else
            {
                CHECK_OB("bytes after lines are read in order", bufPtr(buffer)[1] == '\n' && bufPtr(buffer)[2] == 'y');
                bool thrown = false;

                TRY_BEGIN()
                {
                    ioReadLine(read);
                }
                CATCH_ANY()
                {
                    thrown = true;
                }
                TRY_END();

                CHECK_OB("a line that is cut off is an error", thrown);
                COVER("cut off");
            }
        }
        CATCH_ANY()
        {
            CHECK_OB("no error", false);
        }
        TRY_END();
    }

    // A varint that is cut off or does not end
    static const uint8_t cut[] = {0x81, 0x81};
    static const uint8_t endless[] = {0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 0x81, 0x01};

    for (unsigned int i = 0; i < 2; i++)
    {
        bool thrown = false;
        ioBufferSizeSet(4);

        TRY_BEGIN()
        {
            ioReadVarIntU64(ioBufferReadNewOpen(i == 0 ? bufNewC(cut, sizeof(cut)) : bufNewC(endless, sizeof(endless))));
        }
        CATCH_ANY()
        {
            thrown = true;
        }
        TRY_END();

        CHECK_OB("a damaged integer is an error", thrown);
    }
}

static VariantUInt64Pub gLimit = {.type = varTypeUInt64};

void
h_copy(void)
{
    for (unsigned int ioSize = 1; ioSize <= 4; ioSize++)
    {
        for (unsigned int limit = 0; limit <= 7; limit++)
        {
            TRY_BEGIN()
            {
                ioBufferSizeSet(ioSize);
                IoRead *const read = ioBufferReadNewOpen(bufNewC(gData, 5));
                Buffer *const out = bufNew(0);
                IoWrite *const write = ioBufferWriteNewOpen(out);
                gLimit.data = limit;

                if (limit == 7)
                    ioCopyP(read, write);
                else
                    ioCopyP(read, write, .limit = (Variant *)&gLimit);

                ioWriteClose(write);
                const Bytes expect = expected(gData, limit > 5 ? 5 : limit, "", NULL);
                same("copy", out, &expect);
                const Bytes rest = expected(gData + expect.size, 5 - expect.size, "", NULL);
                same("rest", ioReadBuf(read), &rest);
                COVER("copied");
            }
            CATCH_ANY()
            {
                CHECK_OB("no error", false);
            }
            TRY_END();
        }

        TRY_BEGIN()
        {
            uint64_t size[4];
            expected(gData, 5, "sGs", size);
            IoRead *const read = ioBufferReadNew(bufNewC(gData, 5));
            chain(ioReadFilterGroup(read), "sGs");
            CHECK_OB("drained", ioReadDrain(read));
            sizes(ioReadFilterGroup(read), "sGs", size);
            COVER("drained");
        }
        CATCH_ANY()
        {
            CHECK_OB("no error", false);
        }
        TRY_END();
    }
}
