/* strtol()/strtoll()/strtoull() (units list them with //@sys): C semantics for the verifier, the C library natively */
#include <errno.h>
#include <limits.h>
#include <stdlib.h>

#ifdef VERIF_CBMC

static unsigned long long
verif_strto(const char *const s, char **const end, const int base, bool *const neg, bool *const over)
{
    size_t i = 0;

    while (s[i] == ' ' || (s[i] >= '\t' && s[i] <= '\r'))
        i++;

    *neg = false;
    *over = false;

    if (s[i] == '+' || s[i] == '-')
    {
        *neg = s[i] == '-';
        i++;
    }

    if (base == 16 && s[i] == '0' && (s[i + 1] == 'x' || s[i + 1] == 'X') &&
        ((s[i + 2] >= '0' && s[i + 2] <= '9') || (s[i + 2] >= 'a' && s[i + 2] <= 'f') || (s[i + 2] >= 'A' && s[i + 2] <= 'F')))
    {
        i += 2;
    }

    unsigned long long result = 0;
    bool any = false;

    for (;; i++)
    {
        int d;

        if (s[i] >= '0' && s[i] <= '9')
            d = s[i] - '0';
        else if (s[i] >= 'a' && s[i] <= 'z')
            d = s[i] - 'a' + 10;
        else if (s[i] >= 'A' && s[i] <= 'Z')
            d = s[i] - 'A' + 10;
        else
            break;

        if (d >= base)
            break;

        any = true;

        if (base == 16)
        {
            if (result >> 60)
                *over = true;

            result = (result << 4) | (unsigned int)d;
        }
        else if (base == 8)
        {
            if (result >> 61)
                *over = true;

            result = (result << 3) | (unsigned int)d;
        }
        else
        {
            VERIF_LIMIT(base == 10, "number base");

            if (result > ULLONG_MAX / 10 || (result == ULLONG_MAX / 10 && (unsigned int)d > ULLONG_MAX % 10))
                *over = true;

            result = result * 10 + (unsigned int)d;
        }
    }

    if (end != NULL)
        *end = (char *)(any ? s + i : s);

    return result;
}

unsigned long long
verif_sys_strtoull(const char *const s, char **const end, const int base)
{
    bool neg, over;
    const unsigned long long r = verif_strto(s, end, base, &neg, &over);

    if (over)
    {
        errno = ERANGE;
        return ULLONG_MAX;
    }

    return neg ? 0 - r : r;
}

long long
verif_sys_strtoll(const char *const s, char **const end, const int base)
{
    bool neg, over;
    const unsigned long long r = verif_strto(s, end, base, &neg, &over);

    if (over || r > (unsigned long long)LLONG_MAX + (neg ? 1 : 0))
    {
        errno = ERANGE;
        return neg ? LLONG_MIN : LLONG_MAX;
    }

    return neg ? (long long)(0 - r) : (long long)r;
}

long verif_sys_strtol(const char *const s, char **const end, const int base) {return (long)verif_sys_strtoll(s, end, base);}
unsigned long verif_sys_strtoul(const char *const s, char **const end, const int base) {return (unsigned long)verif_sys_strtoull(s, end, base);}

#else

extern unsigned long long verif_real_strtoull(const char *, char **, int) __asm__("strtoull");
extern long long verif_real_strtoll(const char *, char **, int) __asm__("strtoll");
unsigned long long verif_sys_strtoull(const char *s, char **end, int base) {return verif_real_strtoull(s, end, base);}
unsigned long verif_sys_strtoul(const char *s, char **end, int base) {return verif_real_strtoull(s, end, base);}
long long verif_sys_strtoll(const char *s, char **end, int base) {return verif_real_strtoll(s, end, base);}
long verif_sys_strtol(const char *s, char **end, int base) {return verif_real_strtoll(s, end, base);}

#endif
