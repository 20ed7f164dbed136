/* Shim of common/assert.h: ASSERT() becomes a proof obligation, CHECK() keeps its run-time meaning */
#ifndef COMMON_ASSERT_H
#define COMMON_ASSERT_H

#include "common/error/error.h"

#define ASSERT(condition)                                           VERIF_CODE_ASSERT(condition, #condition)
#define ASSERT_INLINE(condition)                                    VERIF_CODE_ASSERT(condition, #condition)
#define ASSERT_MSG(message)                                         VERIF_CODE_ASSERT(0, message)
#define ASSERT_DECLARE(declaration)                                 declaration
#define ASSERT_PARAM(param)                                         , param

#define CHECK(type, condition, message)                             do { if (!(condition)) THROW(type, message); } while (0)
#define CHECK_FMT(type, condition, message, ...)                    do { if (!(condition)) THROW(type, message); } while (0)

#endif
