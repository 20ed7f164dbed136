/* Core of the verification shim: inputs, assumptions, obligations, exceptions.
 *
 * One harness source is built two ways:
 *   - with goto-cc (VERIF_CBMC): inputs are nondeterministic, CHECK() is a proof obligation;
 *   - with gcc (native replay): inputs are read from the replay file, a failed CHECK() prints the obligation and exits 1.
 */
#ifndef VERIF_H
#define VERIF_H

#include <build.h>

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>

#include "verif_sys.h"

#ifdef VERIF_CBMC

void __CPROVER_assume(_Bool);
void __CPROVER_assert(_Bool, const char *);

uint64_t verif_in(const char *name, uint64_t max);                  // nondeterministic value in 0..max, logged for replay

#define ASSUME(c)                                                   __CPROVER_assume(c)
#define CHECK_OB(name, c)                                           __CPROVER_assert((c), "OB " name)
#define VERIF_LIMIT(c, msg)                                         __CPROVER_assert((c), "LIMIT " msg)
#define COVER(name)                                                 __CPROVER_assert(0, "COVER " name)

#else

uint64_t verif_in(const char *name, uint64_t max);
void verif_assume_failed(const char *text);
void verif_check_failed(const char *name, const char *cond, const char *file, int line);
void verif_limit(const char *msg);

#define ASSUME(c)                                                   do { if (!(c)) verif_assume_failed(#c); } while (0)
#define CHECK_OB(name, c)                                           do { if (!(c)) verif_check_failed(name, #c, __FILE__, __LINE__); } while (0)
#define VERIF_LIMIT(c, msg)                                         do { if (!(c)) verif_limit(msg); } while (0)
#define COVER(name)                                                 do { } while (0)

#endif

#define IN_BOOL(name)                                               ((bool)verif_in(name, 1))
#define IN_U8(name)                                                 ((uint8_t)verif_in(name, 0xFF))
#define IN_U16(name)                                                ((uint16_t)verif_in(name, 0xFFFF))
#define IN_U32(name)                                                ((uint32_t)verif_in(name, 0xFFFFFFFFu))
#define IN_U64(name)                                                ((uint64_t)verif_in(name, UINT64_MAX))
#define IN_I32(name)                                                ((int32_t)(uint32_t)verif_in(name, 0xFFFFFFFFu))
#define IN_I64(name)                                                ((int64_t)verif_in(name, UINT64_MAX))
#define IN_UPTO(name, max)                                          verif_in(name, (max))

/* ASSERT() of the code under verification is an obligation, not a run-time check */
#define VERIF_CODE_ASSERT(c, text)                                  CHECK_OB("code-assert: " text, c)

/* Environment failure switch: when false, modelled system calls and callees never fail */
extern bool verif_fault_enabled;

#endif
