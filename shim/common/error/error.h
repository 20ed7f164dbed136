/* Shim of common/error/error.h: same interface, error messages and stack traces dropped.
 *
 * In the CBMC build the TRY blocks carry markers (VERIF_TRY_...) that xform.py turns into explicit control flow: every call that can
 * throw is followed by a branch to the handler, so throw/catch/finally/rethrow behave as in the original (setjmp/longjmp).
 * In the native build setjmp/longjmp is used as in the original. */
#ifndef COMMON_ERROR_ERROR_H
#define COMMON_ERROR_ERROR_H

#include <errno.h>
#include <setjmp.h>
#include <stdbool.h>

#include "verif.h"

typedef struct ErrorType ErrorType;

#define ERROR_DECLARE(name)                                         extern const ErrorType name
#include "common/error/error.auto.h"
ERROR_DECLARE(TestError);

extern int errorTypeCode(const ErrorType *errorType);
extern bool errorTypeFatal(const ErrorType *errorType);
extern const ErrorType *errorTypeFromCode(int code);
extern const char *errorTypeName(const ErrorType *errorType);
extern const ErrorType *errorTypeParent(const ErrorType *errorType);
extern bool errorTypeExtends(const ErrorType *child, const ErrorType *parent);
extern const ErrorType *errorType(void);
extern int errorCode(void);
extern bool errorFatal(void);
extern const char *errorFileName(void);
extern const char *errorFunctionName(void);
extern int errorFileLine(void);
extern bool errorInstanceOf(const ErrorType *errorTypeTest);
extern const char *errorMessage(void);
extern const char *errorName(void);
extern const char *errorStackTrace(void);
extern unsigned int errorTryDepth(void);

extern const ErrorType *verif_exc_type;                             // Current error type
extern int verif_exc_errno;

#ifdef VERIF_CBMC

extern char verif_sentinel;                                         // Its address is the value of a pointer function that threw
extern uint64_t verif_hint;                                         // What a scalar function that threw would have returned
extern bool verif_exc;                                              // An error is propagating

#define VERIF_HINT(value)                                           (verif_hint = (uint64_t)(value))

void verif_throw(const ErrorType *type);
void verif_rethrow(void);
bool verif_catch(const ErrorType *type, bool fatal);

#define TRY_BEGIN()                                                 do { bool TRY_finally = false; (void)TRY_finally; int TRY_state = 0; VERIF_TRY_OPEN {
#define CATCH(errorTypeCatch)                                       } VERIF_TRY_CATCH if (TRY_state == 1 && verif_catch(&errorTypeCatch, false)) { TRY_state = 2;
#define CATCH_ANY()                                                 } VERIF_TRY_CATCH if (TRY_state == 1 && verif_catch(&RuntimeError, false)) { TRY_state = 2;
#define CATCH_FATAL()                                               } VERIF_TRY_CATCH if (TRY_state == 1 && verif_catch(&RuntimeError, true)) { TRY_state = 2;
#define FINALLY()                                                   } VERIF_TRY_FINALLY if (!TRY_finally) { TRY_finally = true;
#define TRY_END()                                                   } VERIF_TRY_END } while (0)

#else

#define VERIF_HINT(value)

jmp_buf *verif_try_begin(void);
bool verif_try_catch(const ErrorType *type, bool fatal);
void verif_try_end(void);
_Noreturn void verif_throw(const ErrorType *type);
_Noreturn void verif_rethrow(void);

#define TRY_BEGIN()                                                 do { volatile bool TRY_finally = false; (void)TRY_finally; if (setjmp(*verif_try_begin()) == 0) {
#define CATCH(errorTypeCatch)                                       } else if (verif_try_catch(&errorTypeCatch, false)) {
#define CATCH_ANY()                                                 } else if (verif_try_catch(&RuntimeError, false)) {
#define CATCH_FATAL()                                               } else if (verif_try_catch(&RuntimeError, true)) {
#define FINALLY()                                                   } if (!TRY_finally) { TRY_finally = true;
#define TRY_END()                                                   } verif_try_end(); } while (0)

#endif

#define RETHROW()                                                   verif_rethrow()

#define THROW(errorType, message)                                   verif_throw(&errorType)
#define THROW_FMT(errorType, ...)                                   verif_throw(&errorType)
#define THROWP(errorType, message)                                  verif_throw(errorType)
#define THROWP_FMT(errorType, ...)                                  verif_throw(errorType)
#define THROW_CODE(errorCode, message)                              verif_throw(errorTypeFromCode(errorCode))
#define THROW_CODE_FMT(errorCode, ...)                              verif_throw(errorTypeFromCode(errorCode))
#define THROW_SYS_ERROR(errorType, message)                         verif_throw(&errorType)
#define THROW_SYS_ERROR_FMT(errorType, ...)                         verif_throw(&errorType)
#define THROWP_SYS_ERROR(errorType, message)                        verif_throw(errorType)
#define THROWP_SYS_ERROR_FMT(errorType, ...)                        verif_throw(errorType)
#define THROW_SYS_ERROR_CODE(errNo, errorType, message)             verif_throw(&errorType)
#define THROW_SYS_ERROR_CODE_FMT(errNo, errorType, ...)             verif_throw(&errorType)
#define THROWP_SYS_ERROR_CODE(errNo, errorType, message)            verif_throw(errorType)
#define THROWP_SYS_ERROR_CODE_FMT(errNo, errorType, ...)            verif_throw(errorType)
#define THROW_ON_SYS_ERROR(expression, errorType, message)          do { if (expression) verif_throw(&errorType); } while (0)
#define THROW_ON_SYS_ERROR_FMT(expression, errorType, ...)          do { if (expression) verif_throw(&errorType); } while (0)
#define THROWP_ON_SYS_ERROR(expression, errorType, message)         do { if (expression) verif_throw(errorType); } while (0)
#define THROWP_ON_SYS_ERROR_FMT(expression, errorType, ...)         do { if (expression) verif_throw(errorType); } while (0)

#endif
