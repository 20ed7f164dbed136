/* Shim of common/type/object.h: objects are plain allocations; see memContext.h shim */
#ifndef COMMON_TYPE_OBJECT_H
#define COMMON_TYPE_OBJECT_H

#include "common/assert.h"
#include "common/macro.h"
#include "common/memContext.h"

// The object under construction, for constructors that are split over two functions

extern void *verif_objSet(void *object);
extern void *verif_objGet(void);
extern void *verif_obj;                                             // object under construction, for helpers of constructors

#define OBJ_NEW_BASE_EXTRA_BEGIN(type, extra, ...)                  do { void *const verif_obj = verif_objSet(memNew(extra)); (void)verif_obj;
#define OBJ_NEW_BASE_BEGIN(type, ...)                               do { void *const verif_obj = verif_objSet(memNew(sizeof(type))); (void)verif_obj;
#define OBJ_NEW_EXTRA_BEGIN(type, extra, ...)                       type *const this = memNew(extra); type *const verif_obj = this; (void)verif_obj; do {
#define OBJ_NEW_BEGIN(type, ...)                                    type *const this = memNew(sizeof(type)); type *const verif_obj = this; (void)verif_obj; do {
#define OBJ_NEW_ALLOC()                                             verif_obj
#define OBJ_NEW_END()                                               } while (0)

#define OBJ_NAME(this, name)                                        this
#define THIS_VOID                                                   void *thisVoid
#define THIS(type)                                                  type *this = thisVoid
#define THIS_PUB(type)                                              ((const type##Pub *)thisNotNull(this))

FN_INLINE_ALWAYS const void *
thisNotNull(const void *const this)
{
    ASSERT_INLINE(this != NULL);
    return this;
}

#define MEM_CONTEXT_OBJ_BEGIN(this)                                 MEM_CONTEXT_BEGIN(this)
#define MEM_CONTEXT_OBJ_END()                                       MEM_CONTEXT_END()

#define objMemContext(x)                                            ((void)(x), VERIF_MEM_CONTEXT)
#define objMove(x, y)                                               (x)
#define objMoveToInterface(x, y, z)                                 (x)
#define objFree(x)                                                  ((void)(x))

#endif
