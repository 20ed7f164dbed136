/* Shim of common/memContext.h: contexts dropped, memory is never released (so no use after free is observable here);
 * allocations succeed and are objects of their own with arbitrary content, as malloc() gives */
#ifndef COMMON_MEMCONTEXT_H
#define COMMON_MEMCONTEXT_H

#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>

typedef struct MemContext MemContext;

#include "common/type/param.h"
#include "verif.h"

#define MEM_CONTEXT_INITIAL_SIZE                                    4
#define MEM_CONTEXT_ALLOC_INITIAL_SIZE                              4
#define MEM_CONTEXT_AUDIT_ALLOC_EXTRA_NAME(this, name)              this
#define MEM_CONTEXT_ALLOC_EXTRA_MAX                                 0
#define MEM_CONTEXT_QTY_MAX                                         UINT8_MAX

extern void *memNew(size_t size);
extern void *memNewPtrArray(size_t size);
extern void *memResize(void *buffer, size_t size);
extern void memFree(void *buffer);
extern void memContextFreeListReserve(size_t size);

// A macro, so that the verifier sees the type in memNew(sizeof(type)) and gives the object that type
#ifdef VERIF_CBMC
#define memNew(size)                                                malloc(size)
#endif

typedef struct MemContextNewParam
{
    VAR_PARAM_HEADER;
    uint8_t childQty;
    uint8_t allocQty;
    uint8_t callbackQty;
    uint16_t allocExtra;
} MemContextNewParam;

extern char verif_memContext;
#define VERIF_MEM_CONTEXT                                           ((MemContext *)&verif_memContext)

#define MEM_CONTEXT_BEGIN(memContext)                               do { (void)(memContext);
#define MEM_CONTEXT_END()                                           } while (0)
#define MEM_CONTEXT_PRIOR_BEGIN()                                   do {
#define MEM_CONTEXT_PRIOR_END()                                     } while (0)
#define MEM_CONTEXT_NEW()                                           VERIF_MEM_CONTEXT
#define MEM_CONTEXT_NEW_BEGIN(memContextName, ...)                  do {
#define MEM_CONTEXT_NEW_END()                                       } while (0)
#define MEM_CONTEXT_TEMP()                                          VERIF_MEM_CONTEXT
#define MEM_CONTEXT_TEMP_BEGIN()                                    do {
#define MEM_CONTEXT_TEMP_RESET_BEGIN()                              do {
#define MEM_CONTEXT_TEMP_RESET(resetTotal)                          do { } while (0)
#define MEM_CONTEXT_TEMP_END()                                      } while (0)

#define memContextNewP(name, ...)                                   VERIF_MEM_CONTEXT
#define memContextSwitch(x)                                         ((void)(x))
#define memContextSwitchBack()                                      ((void)0)
#define memContextKeep()                                            ((void)0)
#define memContextDiscard()                                         ((void)0)
#define memContextMove(x, y)                                        ((void)(x))
extern void memContextCallbackSet(MemContext *this, void (*callbackFunction)(void *), void *);
extern void memContextCallbackClear(MemContext *this);
#define memContextFree(x)                                           ((void)(x))
#define memContextCurrent()                                         VERIF_MEM_CONTEXT
#define memContextPrior()                                           VERIF_MEM_CONTEXT
#define memContextTop()                                             VERIF_MEM_CONTEXT
#define memContextFromAllocExtra(x)                                 ((void)(x), VERIF_MEM_CONTEXT)

#endif
