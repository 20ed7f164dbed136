/* The real string.c with one contract: strResize() (static there) gives a string room for at least the requested bytes and keeps its
 * content. The model gives VSTR_CAP bytes at once, so that lengths stay concrete for the verifier; a longer string is a LIMIT (no
 * answer). The body of strResize() itself is verified in unit string. Use with //@creplace strResize (CBMC build only). */
#ifdef VERIF_CBMC

#ifndef VSTR_CAP
#define VSTR_CAP                                                    250
#endif

#include "common/type/string.h"

static void strResize(String *this, size_t requested);

#include "common/type/string.c"

static void
strResize(String *const this, const size_t requested)
{
    VERIF_LIMIT(strSize(this) + requested < VSTR_CAP, "string longer than the model's");

    if (requested > this->pub.extra)
    {
        // A fixed size string (its buffer lies in the object) may not be resized
        if (__CPROVER_same_object(this->pub.buffer, this))
            THROW(AssertError, "");

        char *const buffer = malloc(VSTR_CAP);

        for (size_t i = 0; i <= strSize(this); i++)
            buffer[i] = this->pub.buffer[i];

        this->pub.buffer = buffer;
        this->pub.extra = (unsigned int)(VSTR_CAP - 1 - strSize(this));
    }
}

#else
#include "common/type/string.c"
#endif
