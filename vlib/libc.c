/* C library models the verifier lacks (CBMC build only; the native build uses the C library) */
#ifdef VERIF_CBMC

#include <stdarg.h>
#include <stdio.h>
#include <string.h>

#undef vsnprintf
#undef snprintf
#undef strstr
#undef strrchr
#undef strchr
#undef memchr

static int
verif_fmtPut(char *const str, const size_t size, const size_t pos, const char c)
{
    if (pos + 1 < size)
        str[pos] = c;
    return 1;
}

// Formatted output for the conversions used in this code base: %s %c %u %d %i %x %X %o %% with flags 0 -, width, precision for %s, lengths
static int
verif_vsnprintf(char *const str, const size_t size, const char *const format, va_list args)
{
    size_t pos = 0;

    for (size_t f = 0; format[f] != 0; f++)
    {
        if (format[f] != '%')
        {
            pos += (size_t)verif_fmtPut(str, size, pos, format[f]);
            continue;
        }

        f++;

        bool zero = false, left = false;
        while (format[f] == '0' || format[f] == '-' || format[f] == '+' || format[f] == ' ')
        {
            if (format[f] == '0') zero = true;
            if (format[f] == '-') left = true;
            f++;
        }

        int width = 0;
        if (format[f] == '*')
        {
            width = va_arg(args, int);
            f++;
        }
        else
            while (format[f] >= '0' && format[f] <= '9')
                width = width * 10 + (format[f++] - '0');

        int precision = -1;
        if (format[f] == '.')
        {
            f++;
            precision = 0;
            if (format[f] == '*')
            {
                precision = va_arg(args, int);
                f++;
            }
            else
                while (format[f] >= '0' && format[f] <= '9')
                    precision = precision * 10 + (format[f++] - '0');
        }

        int longArg = 0;
        while (format[f] == 'l' || format[f] == 'z' || format[f] == 'h' || format[f] == 'j')
        {
            if (format[f] == 'l' || format[f] == 'z' || format[f] == 'j')
                longArg++;
            f++;
        }

        char digit[24];
        int digitSize = 0;

        switch (format[f])
        {
            case '%':
                pos += (size_t)verif_fmtPut(str, size, pos, '%');
                break;

            case 'c':
                pos += (size_t)verif_fmtPut(str, size, pos, (char)va_arg(args, int));
                break;

            case 's':
            {
                const char *const s = va_arg(args, const char *);
                int len = 0;

                while ((precision < 0 || len < precision) && s[len] != 0)
                    len++;

                if (!left)
                    for (int w = len; w < width; w++)
                        pos += (size_t)verif_fmtPut(str, size, pos, ' ');

                for (int k = 0; k < len; k++)
                    pos += (size_t)verif_fmtPut(str, size, pos, s[k]);

                if (left)
                    for (int w = len; w < width; w++)
                        pos += (size_t)verif_fmtPut(str, size, pos, ' ');
                break;
            }

            case 'd':
            case 'i':
            case 'u':
            case 'x':
            case 'X':
            case 'o':
            {
                uint64_t value;
                bool neg = false;
                const unsigned int base = format[f] == 'x' || format[f] == 'X' ? 16 : format[f] == 'o' ? 8 : 10;

                if (format[f] == 'd' || format[f] == 'i')
                {
                    const int64_t v = longArg > 0 ? (int64_t)va_arg(args, long) : (int64_t)va_arg(args, int);
                    neg = v < 0;
                    value = neg ? 0 - (uint64_t)v : (uint64_t)v;
                }
                else
                    value = longArg > 0 ? (uint64_t)va_arg(args, unsigned long) : (uint64_t)va_arg(args, unsigned int);

                // Zero-padded 32-bit hex of full width has no data-dependent length
                if (base == 16 && longArg == 0 && zero && width == 8)
                {
                    for (int k = 7; k >= 0; k--)
                    {
                        const unsigned int d = (unsigned int)(value >> (k * 4)) & 0xF;
                        pos += (size_t)verif_fmtPut(
                            str, size, pos, (char)(d < 10 ? '0' + d : (format[f] == 'X' ? 'A' : 'a') + (d - 10)));
                    }

                    break;
                }

                do
                {
                    const unsigned int d = (unsigned int)(value % base);
                    digit[digitSize++] = (char)(d < 10 ? '0' + d : (format[f] == 'X' ? 'A' : 'a') + (d - 10));
                    value /= base;
                }
                while (value != 0 && digitSize < 23);

                const int total = digitSize + (neg ? 1 : 0);

                if (neg && zero)
                    pos += (size_t)verif_fmtPut(str, size, pos, '-');

                if (!left)
                    for (int w = total; w < width; w++)
                        pos += (size_t)verif_fmtPut(str, size, pos, zero ? '0' : ' ');

                if (neg && !zero)
                    pos += (size_t)verif_fmtPut(str, size, pos, '-');

                for (int k = digitSize; k > 0; k--)
                    pos += (size_t)verif_fmtPut(str, size, pos, digit[k - 1]);

                if (left)
                    for (int w = total; w < width; w++)
                        pos += (size_t)verif_fmtPut(str, size, pos, ' ');
                break;
            }

            default:
                VERIF_LIMIT(0, "printf conversion not modelled");
        }
    }

    if (size != 0)
        str[pos < size ? pos : size - 1] = 0;

    return (int)pos;
}

int
vsnprintf(char *const str, const size_t size, const char *const format, va_list args)
{
    return verif_vsnprintf(str, size, format, args);
}

int
snprintf(char *const str, const size_t size, const char *const format, ...)
{
    va_list args;
    va_start(args, format);
    const int result = verif_vsnprintf(str, size, format, args);
    va_end(args);
    return result;
}

char *
strstr(const char *const s, const char *const find)
{
    for (size_t i = 0;; i++)
    {
        size_t k = 0;

        while (find[k] != 0 && s[i + k] == find[k])
            k++;

        if (find[k] == 0)
            return (char *)s + i;

        if (s[i] == 0)
            return NULL;
    }
}

char *
strchr(const char *const s, const int c)
{
    for (size_t i = 0;; i++)
    {
        if (s[i] == (char)c)
            return (char *)s + i;
        if (s[i] == 0)
            return NULL;
    }
}

char *
strrchr(const char *const s, const int c)
{
    const char *result = NULL;

    for (size_t i = 0;; i++)
    {
        if (s[i] == (char)c)
            result = s + i;
        if (s[i] == 0)
            return (char *)result;
    }
}

void *
memchr(const void *const s, const int c, const size_t n)
{
    for (size_t i = 0; i < n; i++)
        if (((const unsigned char *)s)[i] == (unsigned char)c)
            return (char *)s + i;

    return NULL;
}

int
strcmp(const char *const a, const char *const b)
{
    for (size_t i = 0;; i++)
    {
        if (a[i] != b[i])
            return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (a[i] == 0)
            return 0;
    }
}

int
strncmp(const char *const a, const char *const b, const size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        if (a[i] != b[i])
            return (unsigned char)a[i] < (unsigned char)b[i] ? -1 : 1;
        if (a[i] == 0)
            return 0;
    }

    return 0;
}

int
memcmp(const void *const a, const void *const b, const size_t n)
{
    for (size_t i = 0; i < n; i++)
    {
        const unsigned char ca = ((const unsigned char *)a)[i];
        const unsigned char cb = ((const unsigned char *)b)[i];

        if (ca != cb)
            return ca < cb ? -1 : 1;
    }

    return 0;
}

#ifndef VERIF_BUILTIN_MEMCPY

void *
memcpy(void *const dst, const void *const src, const size_t n)
{
    for (size_t i = 0; i < n; i++)
        ((char *)dst)[i] = ((const char *)src)[i];

    return dst;
}

void *
memmove(void *const dst, const void *const src, const size_t n)
{
    if ((uintptr_t)dst <= (uintptr_t)src || !__CPROVER_same_object(dst, src))
    {
        for (size_t i = 0; i < n; i++)
            ((char *)dst)[i] = ((const char *)src)[i];
    }
    else
    {
        for (size_t i = n; i > 0; i--)
            ((char *)dst)[i - 1] = ((const char *)src)[i - 1];
    }

    return dst;
}

#endif

#endif
