/* The real IO layer: reads, writes, filters and packs of the code under verification, none of it replaced (lists by contract).
 * The unit includes vlib/core.c, libc.c and vstring.c before it, and defines VLIST_ITEMS for its own list items. */
#include "common/type/buffer.c"
#include "common/type/convert.c"
#include "common/type/stringId.c"
#define VLIST_LATE
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/type/variant.c"
#include "common/type/pack.h"

#define bufferSize                                                  ioBufferSizeValue
#include "common/io/io.c"
#undef bufferSize
#include "common/io/filter/filter.c"
#include "common/io/filter/group.c"
#include "common/io/filter/buffer.c"
#include "common/io/filter/size.c"
#include "common/io/filter/sink.c"
#include "common/io/read.c"
#include "common/io/write.c"
#include "common/io/bufferRead.c"
#include "common/io/bufferWrite.c"
#include "common/io/limitRead.c"
#include "common/type/pack.c"
