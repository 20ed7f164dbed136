// Numbers and times from text: exact value or an error, over the whole range
//@property C11
//@src src/common/type/convert.c src/common/time.c
//@sys strtoll strtoull mktime
//@flag --bounds-check --pointer-check
//@harness h_epochYear unwind=8040 funcs=epochFromParts,dayOfYear,yearIsLeap
//@harness h_epoch unwind=4 flags=cvc5 funcs=epochFromParts,dayOfYear,yearIsLeap,datePartsValid,timePartsValid
//@harness h_epochReject unwind=4 funcs=epochFromParts,datePartsValid,timePartsValid
//@harness h_timeText unwind=32 funcs=cvtZToTime,tzOffsetSeconds,tzPartsValid replace=epochFromParts
//@harness h_timeAny unwind=32 kind=bounded funcs=cvtZToTime replace=epochFromParts
//@bound texts of up to 21 arbitrary characters
//@harness h_int unwind=8 kind=bounded funcs=cvtZToInt,cvtZToInt64,cvtZToUInt,cvtZToUInt64
//@bound texts of up to 4 arbitrary characters
//@harness h_uint64Limit unwind=24 kind=bounded funcs=cvtZToUInt64
//@bound numbers that differ from the limit in the last three digits
//@harness h_uintLimit unwind=14 kind=bounded funcs=cvtZToUInt
//@bound numbers that differ from the limit in the last three digits
//@harness h_intLimit unwind=14 kind=bounded funcs=cvtZToInt
//@bound numbers that differ from the limit in the last three digits
//@harness h_int64Limit unwind=24 kind=bounded funcs=cvtZToInt64
//@bound numbers that differ from the limit in the last three digits
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/strto.c"
#include "common/type/convert.c"
#include "common/time.c"

static bool leap(const int y) {return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0);}
static int monthDays(const int y, const int m) {return m == 2 ? (leap(y) ? 29 : 28) : m == 4 || m == 6 || m == 9 || m == 11 ? 30 : 31;}

// Specification: days of the year before the date
static int64_t
yearDays(const int year, const int month, const int day)
{
    int64_t days = 0;
    days += month > 1 ? 31 : 0;
    days += month > 2 ? monthDays(year, 2) : 0;
    days += month > 3 ? 31 : 0;
    days += month > 4 ? 30 : 0;
    days += month > 5 ? 31 : 0;
    days += month > 6 ? 30 : 0;
    days += month > 7 ? 31 : 0;
    days += month > 8 ? 31 : 0;
    days += month > 9 ? 30 : 0;
    days += month > 10 ? 31 : 0;
    days += month > 11 ? 30 : 0;
    return days + day - 1;
}

#ifndef REPLACE_epochFromParts

// The specification of the time of a date, as three lemmas that determine it for every date by induction over the year:
// the first day of 1970 is 0, the first day of a year is 365 or 366 days after that of the year before, and a date and time of day
// is its number of days and seconds after the first day of its year.
void
h_epochYear(void)
{
    CHECK_OB("the epoch starts with 1970", epochFromParts(1970, 1, 1, 0, 0, 0, 0) == 0);

    for (int year = 1971; year <= 9999; year++)
    {
        CHECK_OB(
            "every year starts 365 or 366 days after the year before",
            epochFromParts(year, 1, 1, 0, 0, 0, 0) - epochFromParts(year - 1, 1, 1, 0, 0, 0, 0) == (leap(year - 1) ? 366 : 365) * 86400);
    }

    COVER("years");
}

void
h_epoch(void)
{
    const int year = 1970 + (int)IN_UPTO("year", 9999 - 1970);
    const int month = 1 + (int)IN_UPTO("month", 11);
    const int day = 1 + (int)IN_UPTO("day", 30);
    const int hour = (int)IN_UPTO("hour", 23), minute = (int)IN_UPTO("minute", 59), second = (int)IN_UPTO("second", 59);
    const int offset = (int)IN_UPTO("offset", 14 * 3600 + 12 * 3600) - 12 * 3600;
    ASSUME(day <= monthDays(year, month));

    const time_t first = epochFromParts(year, 1, 1, 0, 0, 0, 0);
    const time_t midnight = epochFromParts(year, month, day, 0, 0, 0, 0);

    CHECK_OB("a day is its number of days after the first day of the year", midnight - first == yearDays(year, month, day) * 86400);
    CHECK_OB(
        "a time of day is its number of seconds after midnight, less the time zone offset",
        epochFromParts(year, month, day, hour, minute, second, offset) - midnight == hour * 3600 + minute * 60 + second - offset);
    COVER("epoch");
}

void
h_epochReject(void)
{
    const int year = IN_I32("year"), month = IN_I32("month"), day = IN_I32("day");
    const int hour = IN_I32("hour"), minute = IN_I32("minute"), second = IN_I32("second");
    ASSUME(year <= 9999);
    const bool valid =
        year >= 1970 && month >= 1 && month <= 12 && day >= 1 && day <= monthDays(year, month) && hour >= 0 && hour <= 23 &&
        minute >= 0 && minute <= 59 && second >= 0 && second <= 59;
    volatile bool ok = false;

    TRY_BEGIN()
    {
        epochFromParts(year, month, day, hour, minute, second, 0);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("invalid date or time is a format error", errorInstanceOf(&FormatError));
        COVER("rejected");
    }
    TRY_END();

    CHECK_OB("a date and time is accepted exactly when it exists", ok == valid);
    COVER("decided");
}

#else

// Contract of epochFromParts (proved by h_epoch and h_epochReject): records the parts, returns a value of its own
static int gYear, gMonth, gDay, gHour, gMinute, gSecond, gOffset; static bool gEpoch; static time_t gTime;

time_t
epochFromParts(const int year, const int month, const int day, const int hour, const int minute, const int second, const int tzOffsetSecond)
{
    gYear = year; gMonth = month; gDay = day; gHour = hour; gMinute = minute; gSecond = second; gOffset = tzOffsetSecond;
    gEpoch = true;
    return gTime;
}

static struct tm gTm; static bool gMk;
time_t verif_sys_mktime(struct tm *const t) {gTm = *t; gMk = true; return gTime;}

static int d2(const char *const t) {return (t[0] - '0') * 10 + (t[1] - '0');}

// Text without a time zone, or with +hh, +hhmm, +hh:mm; with or without a fraction of a second
static void
timeText(const unsigned int zone, const bool fraction)
{
    char text[32];
    unsigned int size = 0;

    static const char form[] = "0000-00-00 00:00:00";

    for (; size < 19; size++)
    {
        text[size] = form[size];

        if (form[size] == '0')
            text[size] = (char)('0' + IN_UPTO("digit", 9));
    }

    if (fraction)
    {
        text[size++] = '.';
        text[size++] = (char)('0' + IN_UPTO("digit", 9));
    }

    int sign = 1, zHour = 0, zMinute = 0;

    if (zone > 0)
    {
        const bool minus = IN_BOOL("minus");
        sign = minus ? -1 : 1;
        text[size++] = minus ? '-' : '+';
        text[size++] = (char)('0' + IN_UPTO("digit", 9));
        text[size++] = (char)('0' + IN_UPTO("digit", 9));
        zHour = d2(text + size - 2);

        if (zone > 2)
            text[size++] = ':';

        if (zone > 1)
        {
            text[size++] = (char)('0' + IN_UPTO("digit", 9));
            text[size++] = (char)('0' + IN_UPTO("digit", 9));
            zMinute = d2(text + size - 2);
        }
    }

    text[size] = 0;

    const int year = d2(text) * 100 + d2(text + 2), month = d2(text + 5), day = d2(text + 8);
    const int hour = d2(text + 11), minute = d2(text + 14), second = d2(text + 17);
    const bool exists =
        year >= 1970 && month >= 1 && month <= 12 && day >= 1 && day <= monthDays(year, month) && hour <= 23 && minute <= 59 && second <= 59;
    volatile bool ok = false;
    gEpoch = gMk = false;
    gTime = (time_t)IN_U32("time");
    volatile time_t actual = 0;

    TRY_BEGIN()
    {
        actual = cvtZToTime(text);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("invalid time text is a format error", errorInstanceOf(&FormatError));
    }
    TRY_END();

    CHECK_OB("time that does not exist is rejected", exists || !ok);
    CHECK_OB("time that exists is accepted", !exists || ok || zHour >= 12 || zMinute % 15 != 0);

    if (ok)
    {
        CHECK_OB("value is the time of the parts", actual == gTime);

        if (zone == 0)
        {
            CHECK_OB(
                "text without a time zone is local time, daylight saving decided by the system",
                gMk && !gEpoch && gTm.tm_year == year - 1900 && gTm.tm_mon == month - 1 && gTm.tm_mday == day && gTm.tm_hour == hour &&
                gTm.tm_min == minute && gTm.tm_sec == second && gTm.tm_isdst < 0);
        }
        else
        {
            CHECK_OB(
                "parts are read from the text",
                gEpoch && !gMk && gYear == year && gMonth == month && gDay == day && gHour == hour && gMinute == minute &&
                gSecond == second);
            CHECK_OB("time zone offset has the sign and size in the text", gOffset == sign * (zHour * 3600 + zMinute * 60));
        }

        COVER("accepted");
    }
}

void
h_timeText(void)
{
    for (unsigned int zone = 0; zone <= 3; zone++)
    {
        timeText(zone, false);
        timeText(zone, true);
    }
}

static bool dig(const char c) {return c >= '0' && c <= '9';}

static void
timeAny(const unsigned int size)
{
    char text[32];

    for (unsigned int i = 0; i < size; i++)
    {
        text[i] = (char)IN_U8("text");
        ASSUME(text[i] != 0);
    }

    text[size] = 0;
    gEpoch = gMk = false;
    volatile bool ok = false;

    TRY_BEGIN()
    {
        cvtZToTime(text);
        ok = true;
    }
    CATCH_ANY()
    {
        COVER("rejected");
    }
    TRY_END();

    if (ok)
    {
        CHECK_OB("accepted text has at least a full date and time", size >= 19);

        if (size >= 19)
        {
            CHECK_OB(
                "accepted text has the form of a date and time",
                dig(text[0]) && dig(text[1]) && dig(text[2]) && dig(text[3]) && text[4] == '-' && dig(text[5]) && dig(text[6]) &&
                text[7] == '-' && dig(text[8]) && dig(text[9]) && text[10] == ' ' && dig(text[11]) && dig(text[12]) && text[13] == ':' &&
                dig(text[14]) && dig(text[15]) && text[16] == ':' && dig(text[17]) && dig(text[18]));
            CHECK_OB("nothing but a fraction or time zone follows", size == 19 || text[19] == '.' || text[19] == ',' || text[19] == '+' || text[19] == '-');

            if (size == 21)
                CHECK_OB("fraction is digits", (text[19] != '.' && text[19] != ',') || dig(text[20]));
        }

        COVER("accepted");
    }
}

void
h_timeAny(void)
{
    timeAny(0);
    timeAny(1);
    timeAny(18);
    timeAny(19);
    timeAny(20);
    timeAny(21);
}

#endif

// ---- numbers
static void
number(const unsigned int size)
{
    char text[8];

    for (unsigned int i = 0; i < size; i++)
    {
        text[i] = (char)IN_U8("text");
        ASSUME(text[i] != 0);
    }

    text[size] = 0;

    const bool sign = text[0] == '-' || text[0] == '+';
    bool number = size > (sign ? 1 : 0);
    int64_t value = 0;

    for (unsigned int i = 0; i < size; i++)
    {
        if (i > 0 || !sign)
        {
            number = number && text[i] >= '0' && text[i] <= '9';
            value = value * 10 + (text[i] - '0');
        }
    }

    if (text[0] == '-')
        value = -value;

    const unsigned int which = (unsigned int)IN_UPTO("which", 3);
    volatile bool ok = false;
    volatile int64_t actual = 0;

    TRY_BEGIN()
    {
        actual =
            which == 0 ? cvtZToInt(text) : which == 1 ? cvtZToInt64(text) : which == 2 ? (int64_t)cvtZToUInt(text) :
            (int64_t)cvtZToUInt64(text);
        ok = true;
    }
    CATCH_ANY()
    {
        CHECK_OB("text that is not a number is a format error", errorInstanceOf(&FormatError));
    }
    TRY_END();

    CHECK_OB("text is accepted exactly when it is a number of the type", ok == (number && (which < 2 || text[0] != '-')));

    if (ok)
        CHECK_OB("number has the value in the text", actual == value);

    COVER("decided");
}

void
h_int(void)
{
    for (unsigned int size = 0; size <= 4; size++)
        number(size);
}

// Limits: numbers that share all but the last three digits with the largest value, compared digit by digit
static bool
digits(char *const text, const unsigned int size, const char *const max)
{
    int cmp = 0;

    for (unsigned int i = 0; i < size; i++)
    {
        text[i] = i + 3 < size ? max[i] : (char)('0' + IN_UPTO("digit", 9));

        if (cmp == 0)
            cmp = text[i] - max[i];
    }

    text[size] = 0;
    return cmp <= 0;
}

#define LIMIT(size, neg, max, type, call)                                                                                          \
    char text[24];                                                                                                                 \
    text[0] = '-';                                                                                                                 \
    const bool fit = digits(text + (neg), size, max);                                                                              \
    volatile bool ok = false;                                                                                                      \
    volatile type actual = 0;                                                                                                      \
                                                                                                                                   \
    TRY_BEGIN()                                                                                                                    \
    {                                                                                                                              \
        actual = call(text);                                                                                                       \
        ok = true;                                                                                                                 \
    }                                                                                                                              \
    CATCH_ANY()                                                                                                                    \
    {                                                                                                                              \
        COVER("rejected");                                                                                                         \
    }                                                                                                                              \
    TRY_END();                                                                                                                     \
                                                                                                                                   \
    CHECK_OB("number is accepted exactly when it is in the range of the type", ok == fit);                                         \
                                                                                                                                   \
    if (ok)                                                                                                                        \
    {                                                                                                                              \
        type expect = 0;                                                                                                           \
                                                                                                                                   \
        for (unsigned int i = 0; i < (size); i++)                                                                                  \
            expect = expect * 10 + (type)((neg) ? '0' - text[i + (neg)] : text[i + (neg)] - '0');                                  \
                                                                                                                                   \
        CHECK_OB("number in the range has the value in the text", actual == expect);                                               \
        COVER("accepted");                                                                                                         \
    }

void h_uint64Limit(void) {LIMIT(20, 0, "18446744073709551615", uint64_t, cvtZToUInt64)}
void h_uintLimit(void) {LIMIT(10, 0, "4294967295", unsigned int, cvtZToUInt)}
void h_intLimit(void) {{LIMIT(10, 0, "2147483647", int, cvtZToInt)} {LIMIT(10, 1, "2147483648", int, cvtZToInt)}}
void h_int64Limit(void) {{LIMIT(19, 0, "9223372036854775807", int64_t, cvtZToInt64)} {LIMIT(19, 1, "9223372036854775808", int64_t, cvtZToInt64)}}
