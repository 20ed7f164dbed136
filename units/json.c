// JSON: what is written is read back as it was, keys are found exactly when present, values are skipped exactly, damage is an error
//@property C20
//@src src/common/type/json.c
//@sys strtol strtoll strtoull
//@harness h_str0 unwind=70 kind=bounded funcs=jsonWriteStr,jsonReadStr,jsonReadSkip
//@harness h_str1 unwind=70 kind=bounded funcs=jsonWriteStr,jsonReadStr,jsonReadSkip
//@harness h_str2 unwind=70 kind=bounded funcs=jsonWriteStr,jsonReadStr,jsonReadSkip
//@harness h_str3 unwind=70 kind=bounded funcs=jsonWriteStr,jsonReadStr,jsonReadSkip
//@bound strings of up to three characters, every character in each of the places
//@harness h_key0 unwind=80 kind=bounded funcs=jsonReadKeyExpect,jsonReadSkip,jsonWriteKey
//@harness h_key1 unwind=80 kind=bounded funcs=jsonReadKeyExpect,jsonReadSkip,jsonWriteKey
//@harness h_key2 unwind=80 kind=bounded funcs=jsonReadKeyExpect,jsonReadSkip,jsonWriteKey
//@harness h_key3 unwind=80 kind=bounded funcs=jsonReadKeyExpect,jsonReadSkip,jsonWriteKey
//@bound every subset of six keys (prefixes of each other) written, every subset expected
//@harness h_skip unwind=80 kind=bounded funcs=jsonReadSkip,jsonValidate,jsonReadKeyRequire
//@bound the listed values (nested to depth three) before the value read
//@harness h_number unwind=45 kind=bounded funcs=jsonReadInt,jsonReadInt64,jsonReadUInt,jsonReadUInt64,jsonWriteInt,jsonWriteInt64,jsonWriteUInt,jsonWriteUInt64
//@bound numbers at and beyond the limits of their types
//@harness h_damage0 unwind=80 kind=bounded funcs=jsonValidate,jsonReadSkip,jsonReadKey,jsonReadStr
//@harness h_damage1 unwind=80 kind=bounded funcs=jsonValidate,jsonReadSkip,jsonReadKey,jsonReadStr
//@harness h_damage2 unwind=80 kind=bounded funcs=jsonValidate,jsonReadSkip,jsonReadKey,jsonReadStr
//@harness h_damage3 unwind=80 kind=bounded funcs=jsonValidate,jsonReadSkip,jsonReadKey,jsonReadStr
//@harness h_malformed unwind=80 kind=bounded funcs=jsonValidate,jsonReadSkip,jsonReadKey,jsonReadStr
//@bound every beginning of the listed documents, and the listed malformed ones
//@harness h_order unwind=80 kind=bounded funcs=jsonWriteKey,jsonWriteKeyZ,jsonReadKey
//@bound every pair of six keys in one object and in a nested one
//@trust list by contract (vlib/vlist.c)
//@creplace strResize
//@cdef VLIST_MAX=8
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "vlib/strto.c"
#include "common/type/convert.c"
#include "common/type/stringId.c"
#define VLIST_LATE
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/type/json.c"
#define VLIST_TYPES VLIST_TYPE(JsonReadStack) VLIST_TYPE(JsonWriteStack)
#include "vlib/vlistItem.c"

// A text in an object of exactly its size, so that a read beyond its end is an obligation that fails
static const String *
text(const char *const z, const size_t size)
{
    char *const buffer = malloc(size + 1);

    for (size_t i = 0; i < size; i++)
        buffer[i] = z[i];

    buffer[size] = '\0';

    StringPubConst *const result = malloc(sizeof(StringPubConst));
    *result = (StringPubConst){.size = (unsigned int)size, .buffer = buffer};
    return (const String *)result;
}

#define TEXT(z)                                                     text(z, strlen(z))

static void
roundStr(const char *const z, const size_t size)
{
    const String *const value = text(z, size);
    String *const json = strNew();
    JsonWrite *const write = jsonWriteNewP(.json = json);
    jsonWriteArrayBegin(write);
    jsonWriteStr(write, value);
    jsonWriteStr(write, value);
    jsonWriteUInt(write, 7);
    jsonWriteArrayEnd(write);

    JsonRead *const read = jsonReadNew(json);
    jsonReadArrayBegin(read);
    const String *const result = jsonReadStr(read);
    CHECK_OB("a string is read as it was written", strEq(result, value));
    jsonReadSkip(read);
    CHECK_OB("the value after a string that is skipped is read", jsonReadUInt(read) == 7);
    jsonReadArrayEnd(read);
    jsonValidate(json);

    for (size_t i = 0; i < strSize(json); i++)
        CHECK_OB("no line is broken by a string", strZ(json)[i] != '\n' && strZ(json)[i] != '\r' && strZ(json)[i] != '\0');
}

static void
strs(const unsigned int lo, const unsigned int hi)
{
    TRY_BEGIN()
    {
        roundStr("", 0);

        for (unsigned int c = lo == 0 ? 1 : lo; c < hi; c++)
        {
            const char z[3] = {(char)c, 'a', (char)c};
            roundStr(z, 1);
            COVER("character");

            if ((c >= 7 && c <= 13) || c == '"' || c == '\\' || c == '/' || c == 'u' || c == 128 || c == 255)
            {
                roundStr(z, 2);
                roundStr(z, 3);
                roundStr(z + 1, 2);
                const char y[3] = {'\\', (char)c, '"'};
                roundStr(y, 3);
                COVER("characters");
            }
        }
    }
    CATCH_ANY()
    {
        CHECK_OB("a string is written and read without error", false);
    }
    TRY_END();
}

void h_str0(void) {strs(0, 64);}
void h_str1(void) {strs(64, 128);}
void h_str2(void) {strs(128, 192);}
void h_str3(void) {strs(192, 256);}

#define KEY_TOTAL                                                   6
static const char *const gKey[KEY_TOTAL] = {"", "a", "ab", "abc", "ac", "b"};

static void
keys(const unsigned int lo, const unsigned int hi)
{
    for (unsigned int have = lo; have < hi; have++)
    {
        String *const json = strNew();
        JsonWrite *const write = jsonWriteNewP(.json = json);
        jsonWriteObjectBegin(write);

        for (unsigned int i = 1; i < KEY_TOTAL; i++)
        {
            if (have & (1u << i))
            {
                jsonWriteKey(write, TEXT(gKey[i]));
                jsonWriteUInt(write, i);
            }
        }

        jsonWriteObjectEnd(write);

        // Subsets expected: all, each alone, each pair (the position after a key depends on the key before only)
        for (unsigned int one = 1; one < KEY_TOTAL; one++)
        {
            for (unsigned int two = one; two < KEY_TOTAL; two++)
            {
                TRY_BEGIN()
                {
                    JsonRead *const read = jsonReadNew(json);
                    jsonReadObjectBegin(read);
                    const bool found = jsonReadKeyExpect(read, TEXT(gKey[one]));
                    CHECK_OB("a key is found exactly when it is there", found == ((have >> one) & 1));

                    if (found)
                        CHECK_OB("the value of a key found is its own", jsonReadUInt(read) == one);

                    if (two != one)
                    {
                        const bool found2 = jsonReadKeyExpect(read, TEXT(gKey[two]));
                        CHECK_OB("a later key is found exactly when it is there", found2 == ((have >> two) & 1));

                        if (found2)
                            CHECK_OB("the value of a later key found is its own", jsonReadUInt(read) == two);
                    }

                    COVER("expect");
                }
                CATCH_ANY()
                {
                    CHECK_OB("keys in order are read without error", false);
                }
                TRY_END();
            }
        }

        have++;                                                     // the empty key is not written
    }
}

void h_key0(void) {keys(0, 16);}
void h_key1(void) {keys(16, 32);}
void h_key2(void) {keys(32, 48);}
void h_key3(void) {keys(48, 64);}

#define SKIP_TOTAL                                                  22
static const char *const gSkip[SKIP_TOTAL] =
{
    "null", "true", "false", "0", "-1", "18446744073709551615", "\"\"", "\"x\"", "\"\\\"\"", "\"\\\\\"", "\"a\\\\\\\"b\"", "\"[{,:\"", "\"\\u0031\"",
    "\"\\u001b\"", "\"\\u004Axy\"", "[]", "[ 1 , 2 ]", "[[],[\"]\"],{}]", "{}", "{\"a\":1}", "{ \"a\" : [ 1 , { } ] , \"b\" : \"}\" }", "{\"a\":{\"b\":null}}",
};

void
h_skip(void)
{
    for (unsigned int i = 0; i < SKIP_TOTAL; i++)
    {
        TRY_BEGIN()
        {
            jsonValidate(TEXT(gSkip[i]));

            String *const array = strNew();
            strCatZ(array, "[");
            strCatZ(array, gSkip[i]);
            strCatZ(array, ",\"end\"]");
            JsonRead *const read = jsonReadNew(array);
            jsonReadArrayBegin(read);
            jsonReadSkip(read);
            CHECK_OB("the value after one that is skipped is read", strEqZ(jsonReadStr(read), "end"));
            jsonReadArrayEnd(read);
            jsonValidate(array);

            String *const object = strNew();
            strCatZ(object, "{ \"a\" : ");
            strCatZ(object, gSkip[i]);
            strCatZ(object, " , \"b\" : 7 }");
            JsonRead *const readObject = jsonReadNew(object);
            jsonReadObjectBegin(readObject);
            CHECK_OB("a key after a value that is skipped is found", jsonReadKeyExpect(readObject, TEXT("b")));
            CHECK_OB("a value after a value that is skipped is read", jsonReadUInt(readObject) == 7);
            CHECK_OB("a key that is not there is not found", !jsonReadKeyExpect(readObject, TEXT("c")));
            jsonReadObjectEnd(readObject);
            COVER("skipped");
        }
        CATCH_ANY()
        {
            CHECK_OB("a value is skipped without error", false);
        }
        TRY_END();
    }
}

enum {typeInt, typeInt64, typeUInt, typeUInt64};

static bool
readNumber(const char *const z, const unsigned int type, int64_t *const i64, uint64_t *const u64)
{
    bool result = false;

    TRY_BEGIN()
    {
        JsonRead *const read = jsonReadNew(TEXT(z));

        if (type == typeInt)
            *i64 = jsonReadInt(read);
        else if (type == typeInt64)
            *i64 = jsonReadInt64(read);
        else if (type == typeUInt)
            *u64 = jsonReadUInt(read);
        else
            *u64 = jsonReadUInt64(read);

        result = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("a number out of range or malformed is a format error", errorType() == &JsonFormatError || errorType() == &FormatError);
    }
    TRY_END();

    return result;
}

static void
number(const char *const z, const bool negative, const uint64_t magnitude, const bool fits)
{
    for (unsigned int type = typeInt; type <= typeUInt64; type++)
    {
        const bool isSigned = type <= typeInt64;
        const uint64_t max = type == typeInt ? INT_MAX : type == typeInt64 ? INT64_MAX : type == typeUInt ? UINT_MAX : UINT64_MAX;
        const bool in = fits && (negative && magnitude > 0 ? isSigned && magnitude <= max + 1 : negative ? isSigned : magnitude <= max);
        int64_t i64 = 0;
        uint64_t u64 = 0;
        const bool ok = readNumber(z, type, &i64, &u64);
        CHECK_OB("a number is read exactly when its type holds it", ok == in);

        if (ok)
        {
            CHECK_OB("a number has the value written", isSigned ? (uint64_t)i64 == (negative ? 0 - magnitude : magnitude) : u64 == magnitude);
            COVER("number");

            if (!(negative && magnitude == 0))
            {
                String *const json = strNew();
                JsonWrite *const write = jsonWriteNewP(.json = json);

                if (type == typeInt)
                    jsonWriteInt(write, (int)i64);
                else if (type == typeInt64)
                    jsonWriteInt64(write, i64);
                else if (type == typeUInt)
                    jsonWriteUInt(write, (unsigned int)u64);
                else
                    jsonWriteUInt64(write, u64);

                CHECK_OB("a number is written as it is read", strEqZ(json, z));
            }
        }
    }
}

void
h_number(void)
{
    number("0", false, 0, true);
    number("-0", true, 0, true);
    number("9", false, 9, true);
    number("-1", true, 1, true);
    number("2147483647", false, 2147483647, true);
    number("2147483648", false, 2147483648, true);
    number("-2147483648", true, 2147483648, true);
    number("-2147483649", true, 2147483649, true);
    number("4294967295", false, 4294967295, true);
    number("4294967296", false, 4294967296, true);
    number("9223372036854775807", false, 9223372036854775807u, true);
    number("9223372036854775808", false, 9223372036854775808u, true);
    number("-9223372036854775808", true, 9223372036854775808u, true);
    number("-9223372036854775809", true, 9223372036854775809u, true);
    number("18446744073709551615", false, 18446744073709551615u, true);
    number("18446744073709551616", false, 0, false);
    number("100000000000000000000", false, 0, false);
    number("-", true, 0, false);
    number("- 1", true, 0, false);
    number("--1", true, 0, false);
}

#define DOC_TOTAL 4
static const char *const gDoc[DOC_TOTAL] =
{
    "{\"a\":[1,{\"b\":null}],\"c\":true}", "[\"a\\\\\\\"b\",\"\\u0031\",false]", "\"x\\\\\"", "[ {} ]",
};

#define BAD_TOTAL                                                   24
static const char *const gBad[BAD_TOTAL] =
{
    "", " ", ",", "]", "}", ":", "[}", "{]", "[1 2]", "[1,,2]", "[,1]", "{,}", "{\"a\"}", "{\"a\" 1}", "{1:1}", "{\"a\":}", "tru", "nul", "fals", "\"\\u00", "\"\\u004",
    "\"\\uZZZZ\"", "[1]]", "1 1",
};

static bool
valid(const String *const json)
{
    bool result = false;

    TRY_BEGIN()
    {
        jsonValidate(json);
        result = true;
    }
    CATCH_FATAL()
    {
        CHECK_OB("damaged JSON is a format error", errorType() == &JsonFormatError || errorType() == &FormatError);
    }
    TRY_END();

    return result;
}

static void
readAny(const String *const json)
{
    TRY_BEGIN()
    {
        JsonRead *const read = jsonReadNew(json);

        if (strZ(json)[0] == '{')
        {
            jsonReadObjectBegin(read);
            jsonReadKey(read);
            jsonReadSkip(read);
            jsonReadKeyExpect(read, TEXT("c"));
        }
        else if (strZ(json)[0] == '[')
        {
            jsonReadArrayBegin(read);

            while (true)
                jsonReadStr(read);
        }
        else
        {
            jsonReadStr(read);
            CHECK_OB("a damaged string is not read", false);
        }
    }
    CATCH_FATAL()
    {
    }
    TRY_END();
}

static void
damage(const unsigned int i)
{
    {
        CHECK_OB("a document is accepted", valid(TEXT(gDoc[i])));

        for (size_t size = 0; size < strlen(gDoc[i]); size++)
        {
            // What follows the end would make the document complete, so that reading on after the end does not stay unnoticed
            StringPubConst *const cutPub = (StringPubConst *)TEXT(gDoc[i]);
            ((char *)cutPub->buffer)[size] = '\0';
            cutPub->size = (unsigned int)size;
            const String *const cut = (const String *)cutPub;
            CHECK_OB("a document that is cut off is not accepted", !valid(cut));
            readAny(cut);
            COVER("cut");
        }
    }
}

void h_damage0(void) {damage(0);}
void h_damage1(void) {damage(1);}
void h_damage2(void) {damage(2);}
void h_damage3(void) {damage(3);}

void
h_malformed(void)
{

    for (unsigned int i = 0; i < BAD_TOTAL; i++)
    {
        // What follows the end would make a string complete
        const size_t size = strlen(gBad[i]);
        char *const buffer = malloc(size + 5);

        for (size_t j = 0; j < size; j++)
            buffer[j] = gBad[i][j];

        buffer[size] = '\0';
        buffer[size + 1] = buffer[size + 2] = '"';
        buffer[size + 3] = buffer[size + 4] = '\0';
        const StringPubConst bad = {.size = (unsigned int)size, .buffer = buffer};
        CHECK_OB("a malformed document is not accepted", !valid((const String *)&bad));
        readAny((const String *)&bad);
        COVER("malformed");
    }
}

void
h_order(void)
{
    for (unsigned int one = 1; one < KEY_TOTAL; one++)
    {
        for (unsigned int two = 1; two < KEY_TOTAL; two++)
        {
            bool ok = false;
            String *const json = strNew();

            TRY_BEGIN()
            {
                JsonWrite *const write = jsonWriteNewP(.json = json);
                jsonWriteObjectBegin(write);
                jsonWriteKey(write, TEXT(gKey[one]));
                jsonWriteObjectBegin(write);
                jsonWriteKey(write, TEXT(gKey[two]));
                jsonWriteNull(write);
                jsonWriteObjectEnd(write);
                jsonWriteKeyZ(write, gKey[two]);
                jsonWriteBool(write, true);
                jsonWriteObjectEnd(write);
                ok = true;
            }
            CATCH_ANY()
            {
                CHECK_OB("keys out of order are a format error", errorType() == &JsonFormatError);
            }
            TRY_END();

            CHECK_OB("keys are written in order or not at all", ok == (one < two));

            if (ok)
            {
                CHECK_OB("what is written is valid", valid(json));
                JsonRead *const read = jsonReadNew(json);
                jsonReadObjectBegin(read);
                CHECK_OB("first key is read", strEqZ(jsonReadKey(read), gKey[one]));
                jsonReadObjectBegin(read);
                CHECK_OB("key of the nested object is read", strEqZ(jsonReadKey(read), gKey[two]));
                jsonReadNull(read);
                jsonReadObjectEnd(read);
                CHECK_OB("second key is read", strEqZ(jsonReadKey(read), gKey[two]));
                CHECK_OB("value is read", jsonReadBool(read));
                jsonReadObjectEnd(read);
                COVER("order");
            }
        }
    }
}
