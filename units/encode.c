// Base64 and hexadecimal encoding: round trip, exact alphabet, rejection of anything else
//@property C10
//@src src/common/encode.c
//@flag --bounds-check --pointer-check
//@harness h_base64 unwind=24 kind=bounded funcs=encodeToStr,encodeToStrSize,decodeToBin,decodeToBinSize
//@bound sources of 0 to 7 bytes (two whole groups and every partial group)
//@harness h_base64Url unwind=24 kind=bounded funcs=encodeToStr,encodeToStrSize
//@bound sources of 0 to 7 bytes
//@harness h_hex unwind=24 kind=bounded funcs=encodeToStr,encodeToStrSize,decodeToBin,decodeToBinSize
//@bound sources of 0 to 5 bytes
//@harness h_base64Decode unwind=24 kind=bounded funcs=decodeToBin,decodeToBinSize
//@bound texts of 0 to 8 arbitrary characters
//@harness h_hexDecode unwind=24 kind=bounded funcs=decodeToBin,decodeToBinSize
//@bound texts of 0 to 5 arbitrary characters
//@harness h_size unwind=2 funcs=encodeToStrSize
#include "vlib/core.c"
#include "vlib/libc.c"
#include "common/encode.c"

// ---- specification
static char
b64Char(const unsigned int v, const bool url)
{
    return
        (char)(v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? (url ? '-' : '+') : (url ? '_' : '/'));
}

static int
b64Val(const char c)
{
    return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 :
        c == '+' ? 62 : c == '/' ? 63 : -1;
}

static int hexVal(const char c) {return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;}

static unsigned int
bits(const uint8_t *const source, const unsigned int size, const unsigned int idx)
{
    // Bits idx * 6 .. idx * 6 + 5 of the source, zeroes after its end
    unsigned int result = 0;

    for (unsigned int b = 0; b < 6; b++)
    {
        const unsigned int bit = idx * 6 + b;
        result = result << 1 | (bit / 8 < size ? (source[bit / 8] >> (7 - bit % 8)) & 1 : 0);
    }

    return result;
}

static void
roundTrip(const EncodingType type, const unsigned int size)
{
    uint8_t source[8];
    char text[20];
    uint8_t back[10];

    for (unsigned int i = 0; i < 8; i++)
        source[i] = IN_U8("source");

    const size_t textSize =
        type == encodingHex ? size * 2 : type == encodingBase64 ? (size + 2) / 3 * 4 : (size * 8 + 5) / 6;

    CHECK_OB("encoded size is exact", encodeToStrSize(type, size) == textSize);

    for (unsigned int i = 0; i < sizeof(text); i++)
        text[i] = 0x7f;

    encodeToStr(type, source, size, text);

    for (unsigned int i = 0; i < textSize; i++)
    {
        if (type == encodingHex)
        {
            CHECK_OB("hex digits of each byte in order",
                text[i] == "0123456789abcdef"[(source[i / 2] >> (i % 2 == 0 ? 4 : 0)) & 0xF]);
        }
        else
        {
            CHECK_OB(
                "each character encodes the next six bits, padding after the last",
                text[i] == (i < (size * 8 + 5) / 6 ? b64Char(bits(source, size, i), type == encodingBase64Url) : '='));
        }
    }

    CHECK_OB("encoded text is terminated at its size", text[textSize] == 0);

    for (size_t i = textSize + 1; i < sizeof(text); i++)
        CHECK_OB("nothing written after the terminator", text[i] == 0x7f);

    if (type != encodingBase64Url)
    {
        for (unsigned int i = 0; i < sizeof(back); i++)
            back[i] = 0x55;

        CHECK_OB("decoded size is the source size", decodeToBinSize(type, text) == size);
        decodeToBin(type, text, back);

        for (unsigned int i = 0; i < sizeof(back); i++)
            CHECK_OB("decoding gives back the source and writes nothing else", back[i] == (i < size ? source[i] : 0x55));
    }

    COVER("round trip");
}

void h_base64(void) {for (unsigned int size = 0; size <= 7; size++) roundTrip(encodingBase64, size);}
void h_base64Url(void) {for (unsigned int size = 0; size <= 7; size++) roundTrip(encodingBase64Url, size);}
void h_hex(void) {for (unsigned int size = 0; size <= 5; size++) roundTrip(encodingHex, size);}

static void
decode(const EncodingType type, const unsigned int size)
{
    char text[10];
    uint8_t back[10];
    bool valid = type == encodingHex ? size % 2 == 0 : size % 4 == 0;
    size_t backSize = type == encodingHex ? size / 2 : size / 4 * 3;

    for (unsigned int i = 0; i < size; i++)
    {
        text[i] = (char)IN_U8("text");
        ASSUME(text[i] != 0);
    }

    text[size] = 0;

    for (unsigned int i = 0; i < size; i++)
    {
        if (type == encodingHex)
            valid = valid && hexVal(text[i]) >= 0;
        else if (text[i] == '=')
        {
            valid = valid && (i == size - 1 || (i == size - 2 && text[size - 1] == '='));
            backSize--;
        }
        else
            valid = valid && b64Val(text[i]) >= 0;
    }

    volatile bool ok = false;
    volatile size_t actual = 0;

    TRY_BEGIN()
    {
        actual = decodeToBinSize(type, text);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("malformed text is a format error", errorInstanceOf(&FormatError));
    }
    TRY_END();

    CHECK_OB("text is accepted exactly when it is well formed", ok == valid);

    if (ok)
    {
        CHECK_OB("size of the decoded data", actual == backSize);
        COVER("accepted");
    }
    else
        COVER("rejected");

    for (unsigned int i = 0; i < sizeof(back); i++)
        back[i] = 0x55;

    ok = false;

    TRY_BEGIN()
    {
        decodeToBin(type, text, back);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("malformed text is a format error on decode", errorInstanceOf(&FormatError));
    }
    TRY_END();

    CHECK_OB("text is decoded exactly when it is well formed", ok == valid);

    for (unsigned int i = 0; i < sizeof(back); i++)
    {
        if (!valid || i >= backSize)
            CHECK_OB("nothing written beyond the decoded data", back[i] == 0x55);
        else if (type == encodingHex)
            CHECK_OB("byte decoded from its two digits", back[i] == hexVal(text[i * 2]) * 16 + hexVal(text[i * 2 + 1]));
        else
        {
            const unsigned int g = i / 3 * 4;
            const uint32_t v =
                (uint32_t)b64Val(text[g]) << 18 | (uint32_t)b64Val(text[g + 1]) << 12 |
                (uint32_t)(text[g + 2] == '=' ? 0 : b64Val(text[g + 2])) << 6 | (uint32_t)(text[g + 3] == '=' ? 0 : b64Val(text[g + 3]));
            CHECK_OB("byte decoded from its group of four characters", back[i] == (uint8_t)(v >> (16 - i % 3 * 8)));
        }
    }
}

void h_base64Decode(void) {for (unsigned int size = 0; size <= 8; size++) decode(encodingBase64, size);}
void h_hexDecode(void) {for (unsigned int size = 0; size <= 5; size++) decode(encodingHex, size);}

void
h_size(void)
{
    const uint64_t size = IN_UPTO("size", UINT32_MAX);
    CHECK_OB("hex size", encodeToStrSize(encodingHex, size) == size * 2);
    const uint64_t b64 = encodeToStrSize(encodingBase64, size);
    CHECK_OB("base64 size is four characters for every three bytes or part of them", b64 % 4 == 0 && b64 / 4 * 3 >= size && b64 / 4 * 3 < size + 3);
    const uint64_t url = encodeToStrSize(encodingBase64Url, size);
    CHECK_OB("base64 url size is one character for every six bits or part of them", url * 6 >= size * 8 && url * 6 < size * 8 + 6);
    COVER("sizes");
}
