/* Core of the verification library: inputs, errors, allocation. Part of every unit, in both builds */
#include "verif.h"
#include "common/error/error.h"
#include "common/log.h"
#include "common/memContext.h"
#include "common/type/object.h"

/* ------------------------------------------------------------------ inputs ------------------------------------------------------ */
#ifdef VERIF_CBMC

uint64_t nondet_uint64(void);
void __CPROVER_input(const char *, ...);

uint64_t
verif_in(const char *name, uint64_t max)
{
    uint64_t verif_value = nondet_uint64();
    __CPROVER_assume(verif_value <= max);
    __CPROVER_input(name, verif_value);
    return verif_value;
}

#else

#include <stdio.h>

typedef struct VerifInput {char name[64]; uint64_t value; bool used;} VerifInput;
static VerifInput *verif_input; static size_t verif_inputSize; static size_t verif_inputMiss;

static void
verif_load(void)
{
    static bool loaded;
    if (loaded)
        return;
    loaded = true;
    const char *file = getenv("VERIF_REPLAY");
    FILE *f = file == NULL ? NULL : fopen(file, "r");
    verif_input = calloc(200000, sizeof(VerifInput));
    if (f != NULL)
    {
        char line[256];
        while (fgets(line, sizeof(line), f) && verif_inputSize < 200000)
        {
            char n[64]; unsigned long long v;
            if (sscanf(line, "in %63s %llu", n, &v) == 2)
            {
                memcpy(verif_input[verif_inputSize].name, n, 64);
                verif_input[verif_inputSize++].value = v;
            }
        }
        fclose(f);
    }
}

uint64_t
verif_in(const char *name, uint64_t max)
{
    verif_load();
    static size_t first = 0;
    while (first < verif_inputSize && verif_input[first].used)
        first++;
    for (size_t i = first; i < verif_inputSize; i++)
        if (!verif_input[i].used && strcmp(verif_input[i].name, name) == 0)
        {
            verif_input[i].used = true;
            return verif_input[i].value > max ? max : verif_input[i].value;
        }
    verif_inputMiss++;
    return 0;
}

void
verif_assume_failed(const char *text)
{
    printf("REPLAY-ASSUME %s\n", text);
    fflush(stdout);
    _Exit(3);
}

void
verif_check_failed(const char *name, const char *cond, const char *file, int line)
{
    printf("REPLAY-FAILED %s: %s at %s:%d\n", name, cond, file, line);
    fflush(stdout);
    _Exit(1);
}

void
verif_limit(const char *msg)
{
    printf("REPLAY-LIMIT %s\n", msg);
    fflush(stdout);
    _Exit(4);
}

#endif

bool verif_fault_enabled = true;
unsigned int verif_log_warn, verif_log_error;
char verif_memContext;

/* ------------------------------------------------------------------ errors ------------------------------------------------------ */
struct ErrorType
{
    const int code;
    const bool fatal;
    const char *name;
    const struct ErrorType *parentType;
};

#define ERROR_DEFINE(code, name, fatal, parentType)                 const ErrorType name = {code, fatal, #name, &parentType}
ERROR_DEFINE(1, TestError, false, RuntimeError);
#include "common/error/error.auto.c.inc"

const ErrorType *verif_exc_type;
int verif_exc_errno;

int errorTypeCode(const ErrorType *const e) {return e->code;}
bool errorTypeFatal(const ErrorType *const e) {return e->fatal;}
const char *errorTypeName(const ErrorType *const e) {return e->name;}
const ErrorType *errorTypeParent(const ErrorType *const e) {return e->parentType;}
const ErrorType *errorType(void) {return verif_exc_type;}
int errorCode(void) {return errorTypeCode(errorType());}
bool errorFatal(void) {return errorTypeFatal(errorType());}
const char *errorFileName(void) {return "file";}
const char *errorFunctionName(void) {return "function";}
int errorFileLine(void) {return 1;}
const char *errorMessage(void) {return "message";}
const char *errorName(void) {return errorTypeName(errorType());}
const char *errorStackTrace(void) {return "trace";}

const ErrorType *
errorTypeFromCode(const int code)
{
    for (unsigned int i = 0; errorTypeList[i] != NULL; i++)
        if (errorTypeList[i]->code == code)
            return errorTypeList[i];
    return &UnknownError;
}

// Every error type descends directly from RuntimeError in this code base (VERIF_LIMIT otherwise)
bool
errorTypeExtends(const ErrorType *const child, const ErrorType *const parent)
{
    return child == parent || child->parentType == parent || parent == &RuntimeError;
}

bool
errorInstanceOf(const ErrorType *const errorTypeTest)
{
    return errorType() == errorTypeTest || errorTypeExtends(errorType(), errorTypeTest);
}

#ifdef VERIF_CBMC

bool verif_exc;
char verif_sentinel;
uint64_t verif_hint;

void
verif_throw(const ErrorType *const type)
{
    verif_exc_type = type;
    verif_exc = true;
}

void
verif_rethrow(void)
{
    verif_exc = true;
}

bool
verif_catch(const ErrorType *const type, const bool fatal)
{
    return errorInstanceOf(type) && (fatal || !errorFatal());
}

unsigned int errorTryDepth(void) {return 1;}

#else

static jmp_buf verif_jmp[64];
static int verif_tryTotal;
static int verif_tryState[65];
static bool verif_tryUncaught[65];

jmp_buf *
verif_try_begin(void)
{
    verif_tryTotal++;
    verif_tryState[verif_tryTotal] = 0;
    verif_tryUncaught[verif_tryTotal] = false;
    return &verif_jmp[verif_tryTotal - 1];
}

bool
verif_try_catch(const ErrorType *const type, const bool fatal)
{
    if (verif_tryState[verif_tryTotal] == 0)
        verif_tryState[verif_tryTotal] = 1;
    if (verif_tryState[verif_tryTotal] == 1 && errorInstanceOf(type) && (fatal || !errorFatal()))
    {
        verif_tryUncaught[verif_tryTotal] = false;
        verif_tryState[verif_tryTotal] = 2;
        return true;
    }
    return false;
}

static _Noreturn void
verif_propagate(void)
{
    verif_tryUncaught[verif_tryTotal] = true;
    if (verif_tryTotal > 0)
        longjmp(verif_jmp[verif_tryTotal - 1], 1);
    printf("REPLAY-UNCAUGHT %s\n", errorName());
    fflush(stdout);
    _Exit(5);
}

void
verif_try_end(void)
{
    verif_tryTotal--;
    if (verif_tryUncaught[verif_tryTotal + 1])
        verif_propagate();
}

_Noreturn void
verif_throw(const ErrorType *const type)
{
    verif_exc_type = type;
    verif_propagate();
}

_Noreturn void
verif_rethrow(void)
{
    verif_propagate();
}

unsigned int errorTryDepth(void) {return (unsigned int)verif_tryTotal;}

#endif

/* ---------------------------------------------------------------- allocation ---------------------------------------------------- */
#ifndef VERIF_CBMC
void *
memNew(const size_t size)
{
    return calloc(1, size + 16);
}
#endif

void *memNewPtrArray(const size_t size) {void **r = memNew(size * sizeof(void *)); for (size_t i = 0; i < size; i++) r[i] = NULL; return r;}

void *
memResize(void *const buffer, const size_t size)
{
#ifdef VERIF_CBMC
    void *result = realloc(buffer, size);
    __CPROVER_assume(result != NULL);
    return result;
#else
    return realloc(buffer, size + 16);
#endif
}

void memFree(void *const buffer) {(void)buffer;}

void *verif_obj;
void *verif_objSet(void *object) {verif_obj = object; return object;}
void *verif_objGet(void) {return verif_obj;}

bool logAny(LogLevel logLevel) {(void)logLevel; return false;}
