// StringId and varint-128: lossless, and rejection of what cannot be encoded
//@property C10
//@src src/common/type/stringId.c src/common/type/convert.c
//@sys strtoll strtoull
//@flag --bounds-check --pointer-check
//@harness h_strId unwind=18 timeout=700 funcs=strIdFromZN,strIdToZN,strIdToZ,strIdSeq
//@harness h_strIdUnique unwind=14 funcs=strIdFromZN
//@harness h_varint unwind=14 funcs=cvtUInt64ToVarInt128,cvtUInt64FromVarInt128
//@harness h_varintDecode unwind=14 funcs=cvtUInt64FromVarInt128
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/strto.c"
#include "common/type/stringId.c"
#include "common/type/convert.c"

static bool is5(const char c) {return (c >= 'a' && c <= 'z') || c == '-' || c == '2' || c == '5' || c == '6';}
static bool is6(const char c) {return (c >= 'a' && c <= 'z') || c == '-' || (c >= '0' && c <= '9') || (c >= 'A' && c <= 'Z');}

static void
strId(const unsigned int size)
{
    char text[14], back[16];
    bool all5 = size <= 12, all6 = size <= 10;

    for (unsigned int i = 0; i < size; i++)
    {
        text[i] = (char)IN_U8("text");
        all5 = all5 && is5(text[i]);
        all6 = all6 && is6(text[i]);
    }

    text[size] = 0;

    const unsigned int seq = IN_BOOL("seq") ? (unsigned int)IN_UPTO("sequence", 37) : STRING_ID_SEQ_NONE;
    ASSUME(seq == STRING_ID_SEQ_NONE || seq < 6 || size < (all5 ? 12 : 10));

    volatile bool ok = false;
    volatile StringId id = 0;

    TRY_BEGIN()
    {
        id = strIdFromZN(text, size, seq);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("text that cannot be an id is a format error", errorInstanceOf(&FormatError));
    }
    TRY_END();

    CHECK_OB("text becomes an id exactly when its characters and size allow", ok == (all5 || all6));

    if (ok)
    {
        CHECK_OB("an id is never zero", id != 0);

        for (unsigned int i = 0; i < sizeof(back); i++)
            back[i] = 0x7f;

        const size_t backSize = strIdToZ(id, back);
        CHECK_OB("id gives back the size of the text", backSize == size);

        for (unsigned int i = 0; i < sizeof(back); i++)
            CHECK_OB("id gives back the text and nothing else is written", back[i] == (i < size ? text[i] : i == size ? 0 : 0x7f));

        if (seq != STRING_ID_SEQ_NONE)
            CHECK_OB("id gives back the sequence", strIdSeq(id) == seq);

        COVER("id");
    }
}

void
h_strId(void)
{
    for (unsigned int size = 1; size <= 13; size++)
        strId(size);
}

void
h_strIdUnique(void)
{
    // Different text gives a different id (texts of the same size suffice together with h_strId, which recovers the size)
    const unsigned int size = 12;
    char a[13], b[13];
    bool same = true;

    for (unsigned int i = 0; i < size; i++)
    {
        a[i] = (char)IN_U8("a");
        b[i] = (char)IN_U8("b");
        ASSUME(is5(a[i]) && is5(b[i]));
        same = same && a[i] == b[i];
    }

    CHECK_OB("two texts have the same id only when they are the same", (strIdFromZN(a, size, STRING_ID_SEQ_NONE) == strIdFromZN(b, size, STRING_ID_SEQ_NONE)) == same);
    COVER("compared");
}

void
h_varint(void)
{
    const uint64_t value = IN_U64("value");
    uint8_t buffer[12];
    size_t pos = 1, back = 1;

    buffer[0] = buffer[11] = 0x55;
    cvtUInt64ToVarInt128(value, buffer, &pos, 11);

    size_t expect = 1;

    for (uint64_t v = value; v >= 0x80; v >>= 7)
        expect++;

    CHECK_OB("size is one byte for every seven bits", pos == 1 + expect);
    CHECK_OB("nothing written outside", buffer[0] == 0x55 && buffer[11] == 0x55);
    CHECK_OB("value is given back", cvtUInt64FromVarInt128(buffer, &back, pos) == value);
    CHECK_OB("position is after the last byte", back == pos);

    // One byte less is an error rather than another value
    volatile bool error = false;
    back = 1;

    TRY_BEGIN()
    {
        cvtUInt64FromVarInt128(buffer, &back, pos - 1);
    }
    CATCH_ANY()
    {
        error = true;
    }
    TRY_END();

    CHECK_OB("truncated value is an error", error);
    COVER("round trip");
}

void
h_varintDecode(void)
{
    uint8_t buffer[12];
    const size_t size = IN_UPTO("size", 12);
    unsigned int last = 12;
    uint64_t expect = 0;

    for (unsigned int i = 0; i < 12; i++)
        buffer[i] = IN_U8("byte");

    for (unsigned int i = 12; i > 0; i--)
        if (buffer[i - 1] < 0x80)
            last = i - 1;

    for (unsigned int i = 0; i < 10; i++)
        if (i <= last)
            expect |= (uint64_t)(buffer[i] & 0x7f) << (7 * i);

    volatile bool ok = false;
    volatile uint64_t value = 0;
    size_t pos = 0;

    TRY_BEGIN()
    {
        value = cvtUInt64FromVarInt128(buffer, &pos, size);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("malformed value is a format error", errorInstanceOf(&FormatError));
        COVER("rejected");
    }
    TRY_END();

    CHECK_OB("value is accepted exactly when it is terminated within the buffer and ten bytes", ok == (last < 10 && last < size));

    if (ok)
    {
        CHECK_OB("decoded value", value == expect && pos == last + 1);
        COVER("accepted");
    }
}
