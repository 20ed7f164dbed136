// WAL segment names and LSNs: arithmetic over the whole domain
//@property C03
//@src src/command/archive/common.c src/postgres/interface.c src/common/type/convert.c
//@sys strtol strtoll strtoull
//@harness h_next unwind=40 funcs=walSegmentNext,pgTimelineFromWalSegment
//@harness h_lsnToSegment unwind=40 funcs=pgLsnToWalSegment
//@harness h_lsnFromStr unwind=24 kind=bounded funcs=pgLsnFromStr replace=strLstNewSplitZ
//@bound every 64-bit LSN in the 8/8 digit form, and LSNs with 1/8, 8/1, 1/1 and 3/7 digits
//@harness h_lsnRange unwind=40 kind=bounded funcs=pgLsnRangeToWalSegmentList
//@bound ranges of 1 to 3 segments, anywhere in the LSN space
//@harness h_range unwind=40 kind=bounded funcs=walSegmentRange replace=walSegmentNext,strDup
//@bound ranges of 1 to 3 segments, starting anywhere
//@cdef VLIST_MAX=4
//@gen postgres
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/strto.c"

#include "common/type/string.c"
#include "vlib/strdup.c"
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/type/convert.c"
#include "postgres/interface.c"
#include "command/archive/common.c"

// Ghost: segment number of the whole WAL stream, and its name
#define STRN(z, n)                                                  ((const String *)&(const StringPubConst){.buffer = (char *)(z), .size = (n)})
static char hexDigit(const unsigned int d) {return (char)(d < 10 ? '0' + d : 'A' + (d - 10));}

static void
hex8(char *const out, const uint32_t v)
{
    for (unsigned int k = 0; k < 8; k++)
        out[k] = hexDigit((v >> ((7 - k) * 4)) & 0xF);
}

static void
segName(char *const out, const uint32_t timeline, const uint64_t lsn, const unsigned int shift)
{
    hex8(out, timeline);
    hex8(out + 8, (uint32_t)(lsn >> 32));
    hex8(out + 16, (uint32_t)((lsn & 0xFFFFFFFF) >> shift));
    out[24] = 0;
}

static bool
eq24(const String *const s, const char *const z)
{
    if (strSize(s) != 24)
        return false;

    for (unsigned int k = 0; k < 24; k++)
        if (strZ(s)[k] != z[k])
            return false;

    return strZ(s)[24] == 0;
}

// All legal segment sizes: powers of two from 1MB to 1GB
static unsigned int
segShift(void)
{
    const unsigned int shift = 20 + (unsigned int)IN_UPTO("shift", 10);
    return shift;
}

void
h_next(void)
{
    const unsigned int shift = segShift();
    const uint32_t timeline = IN_U32("timeline");
    const uint64_t lsn = IN_U64("lsn");
    const uint64_t size = (uint64_t)1 << shift;
    ASSUME(lsn <= UINT64_MAX - size);

    char name[25], expect[25];
    segName(name, timeline, lsn, shift);
    segName(expect, timeline, lsn + size, shift);

    COVER("inputs");
    CHECK_OB("timeline of a segment is its first eight digits", pgTimelineFromWalSegment(STRN(name, 24)) == timeline);
    CHECK_OB("next segment is the segment one segment size later", eq24(walSegmentNext(STRN(name, 24), size), expect));
    COVER("next computed");
}

void
h_lsnToSegment(void)
{
    const unsigned int shift = segShift();
    const uint32_t timeline = IN_U32("timeline");
    const uint64_t lsn = IN_U64("lsn");

    char expect[25];
    segName(expect, timeline, lsn, shift);
    CHECK_OB("segment of an LSN contains the LSN", eq24(pgLsnToWalSegment(timeline, lsn, 1U << shift), expect));
    COVER("segment computed");
}

#ifdef REPLACE_strLstNewSplitZ

// Contract of strLstNewSplitZ for a text with one delimiter: the parts before and after it
static char gText[18]; static unsigned int gHi, gLo;

StringList *
strLstNewSplitZ(const String *const string, const char *const delimiter)
{
    CHECK_OB("LSN is split at the slash", string != NULL && strZ(string) == gText && delimiter[0] == '/' && delimiter[1] == 0);

    StringList *const result = strLstNew();
    strLstAddInternal(result, strNewZN(gText, gHi));
    strLstAddInternal(result, strNewZN(gText + gHi + 1, gLo));
    return result;
}

static void
lsnParse(const unsigned int hiDigit, const unsigned int loDigit)
{
    const uint32_t hi = IN_U32("hi") >> (32 - hiDigit * 4), lo = IN_U32("lo") >> (32 - loDigit * 4);
    const bool lower = IN_BOOL("lower");

    gHi = hiDigit;
    gLo = loDigit;

    for (unsigned int k = 0; k < hiDigit; k++)
        gText[k] = hexDigit((hi >> ((hiDigit - 1 - k) * 4)) & 0xF);

    gText[hiDigit] = '/';

    for (unsigned int k = 0; k < loDigit; k++)
        gText[hiDigit + 1 + k] = hexDigit((lo >> ((loDigit - 1 - k) * 4)) & 0xF);

    gText[hiDigit + loDigit + 1] = 0;

    if (lower)
        for (unsigned int k = 0; k < hiDigit + loDigit + 1; k++)
            if (gText[k] >= 'A' && gText[k] <= 'F')
                gText[k] = (char)(gText[k] + 32);

    CHECK_OB("LSN text is read as its two hexadecimal halves", pgLsnFromStr(STRN(gText, hiDigit + loDigit + 1)) == (((uint64_t)hi << 32) | lo));
    COVER("parsed");
}

void
h_lsnFromStr(void)
{
    lsnParse(8, 8);
    lsnParse(1, 8);
    lsnParse(8, 1);
    lsnParse(1, 1);
    lsnParse(3, 7);
}

#endif

void
h_lsnRange(void)
{
    const unsigned int shift = segShift();
    const uint32_t timeline = IN_U32("timeline");
    const uint64_t start = IN_U64("lsn");
    const uint64_t stop = IN_U64("stop");
    ASSUME(timeline != 0 && stop >= start);
    const uint64_t segStart = start >> shift;
    const uint64_t total = (stop >> shift) - segStart + 1;
    ASSUME(total <= 3);

    const StringList *const list = pgLsnRangeToWalSegmentList(timeline, start, stop, 1U << shift);
    CHECK_OB("LSN range covers every segment from start to stop", strLstSize(list) == total);

    for (unsigned int i = 0; i < total; i++)
    {
        char expect[25];
        segName(expect, timeline, (segStart + i) << shift, shift);
        CHECK_OB("LSN range lists the segments in order", eq24(strLstGet(list, i), expect));
    }

    if (total == 3)
        COVER("three segments");
}

#ifdef REPLACE_walSegmentNext

// Contract of walSegmentNext (proved by h_next): the name of the segment one segment size later
static uint32_t gNextTimeline; static uint64_t gNextLsn; static unsigned int gNextShift;

String *
walSegmentNext(const String *const walSegment, const size_t walSegmentSize)
{
    char name[25];
    segName(name, gNextTimeline, gNextLsn, gNextShift);
    CHECK_OB("next segment is requested of the last segment listed", eq24(walSegment, name));
    CHECK_OB("segment size passed on", walSegmentSize == (size_t)1 << gNextShift);
    gNextLsn += (uint64_t)1 << gNextShift;
    segName(name, gNextTimeline, gNextLsn, gNextShift);
    return strNewZN(name, 24);
}

static void
range(const unsigned int range)
{
    const unsigned int shift = segShift();
    const uint32_t timeline = IN_U32("timeline");
    const uint64_t lsn = IN_U64("lsn");
    const uint64_t size = (uint64_t)1 << shift;
    ASSUME(lsn <= UINT64_MAX - size * 2);

    char name[25];
    segName(name, timeline, lsn, shift);
    gNextTimeline = timeline;
    gNextLsn = lsn;
    gNextShift = shift;

    const StringList *const list = walSegmentRange(STRN(name, 24), size, range);
    CHECK_OB("segment range has the requested size", strLstSize(list) == range);

    for (unsigned int i = 0; i < range; i++)
    {
        char expect[25];
        segName(expect, timeline, lsn + size * i, shift);
        CHECK_OB("segment range is consecutive", eq24(strLstGet(list, i), expect));
    }

    COVER("range listed");
}

void
h_range(void)
{
    range(1);
    range(2);
    range(3);
}

#endif
