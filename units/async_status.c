// Result of asynchronous archive commands: reported for the segment it belongs to, errors as the error that happened
//@property C23
//@src src/command/archive/common.c
//@sys strtol strtoll strtoull
//@harness h_ok unwind=120 kind=bounded funcs=archiveAsyncStatus,archiveAsyncSpoolQueue def=MODE=archiveModePush,OK=1
//@harness h_push unwind=120 kind=bounded funcs=archiveAsyncStatus,archiveAsyncSpoolQueue def=MODE=archiveModePush,OK=0
//@harness h_get unwind=120 kind=bounded funcs=archiveAsyncStatus,archiveAsyncSpoolQueue def=MODE=archiveModeGet,OK=0
//@bound every combination of status files (missing, empty, malformed, with a code and message) of the segment, given concretely
//@harness h_write unwind=120 kind=bounded funcs=archiveAsyncStatusErrorWrite,archiveAsyncStatusOkWrite,archiveAsyncErrorClear,archiveAsyncStatus
//@bound each status written and read back, for a segment and for all segments, in both modes
//@trust storage by contract (vlib/vfs.c); variant conversion of the code by contract
//@creplace strResize
//@cdef VFS_MAX=8
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "vlib/strto.c"
#include "common/type/convert.c"
#include "common/type/variant.h"
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "vlib/vfs.c"
#include "vlib/vcfg.c"

// Contract of varIntForce() for strings
int varIntForce(const Variant *const this) {return cvtZToInt(strZ(varStr(this)));}
const String *varStr(const Variant *const this) {return ((const VariantStringPub *)this)->data;}

static unsigned int gWarn;

static bool vfsFault(const VfsOp op, const String *const name) {return false;}

#include "command/archive/common.c"

#define SEGMENT                                                     "000000010000000100000001"
static const StringPubConst gSegment = {.size = 24, .buffer = SEGMENT};

#ifdef MODE
#define QUEUE                                                       (MODE == archiveModePush ? "<SPOOL:ARCHIVE:OUT>/" : "<SPOOL:ARCHIVE:IN>/")
#define NAME(ext)                                                   (MODE == archiveModePush ? "<SPOOL:ARCHIVE:OUT>/" ext : "<SPOOL:ARCHIVE:IN>/" ext)
#define OTHER(ext)                                                  (MODE == archiveModePush ? "<SPOOL:ARCHIVE:IN>/" ext : "<SPOOL:ARCHIVE:OUT>/" ext)

// What a status file holds, and what that means
static const struct {const char *content; bool bad; int code;} gState[] =
{
    {NULL, false, 0}, {"", false, 0}, {"0\nw", false, 0}, {"25\ne x\n", false, 25}, {"82\ne\nf", false, 82}, {"25", true, 0}, {"25\n", true, 0},
};

#define STATE                                                       7

static void
status(const unsigned int ok, const unsigned int error, const unsigned int global, const bool throwOnError, const bool warnOnOk)
{
    vfsTotal = 0;
    vfsAdd(vfsSpool, NAME(SEGMENT ".ok"), gState[ok].content);
    vfsAdd(vfsSpool, NAME(SEGMENT ".error"), gState[error].content);
    vfsAdd(vfsSpool, NAME("global.error"), gState[global].content);
    // Status of the same segment in the other queue, and of another segment, say nothing
    vfsAdd(vfsSpool, OTHER(SEGMENT ".ok"), "");
    vfsAdd(vfsSpool, OTHER("global.error"), "99\nother");
    vfsAdd(vfsSpool, NAME("000000010000000100000002.ok"), "");
    vfsAdd(vfsLocal, NAME(SEGMENT ".ok"), "");

    const bool okExists = gState[ok].content != NULL;
    const unsigned int used = okExists ? ok : gState[error].content != NULL ? error : global;
    const bool exists = gState[used].content != NULL, empty = exists && gState[used].content[0] == 0;
    verif_log_warn = 0;

    TRY_BEGIN()
    {
        const bool result = archiveAsyncStatus(MODE, (const String *)&gSegment, throwOnError, warnOnOk);

        CHECK_OB("success is reported exactly when the segment has an ok file", result == okExists);
        CHECK_OB("malformed status is an error", !exists || !gState[used].bad);
        CHECK_OB("an error is reported when requested", okExists || !exists || !throwOnError);
        CHECK_OB("a warning of a segment that succeeded is logged when requested", verif_log_warn == (okExists && !empty && warnOnOk));
        COVER("result");
    }
    CATCH_FATAL()
    {
        CHECK_OB("error only when there is one", exists && (gState[used].bad || (!okExists && throwOnError)));

        if (!gState[used].bad)
        {
            CHECK_OB("error is the one that happened", errorCode() == (empty ? 25 : gState[used].code) || (!empty && gState[used].code == 0));
#if !OK
            COVER("error");
#endif
        }
        else
            CHECK_OB("malformed status is a format error", errorType() == &FormatError);

    }
    TRY_END();

    for (unsigned int i = 0; i < vfsTotal; i++)
        CHECK_OB("asking for the status changes nothing", vfsFile[i].written == 0 && vfsFile[i].removed == 0);
}

static void
run(void)
{
#if OK
    for (unsigned int ok = 1; ok < STATE; ok++)
        for (unsigned int flag = 0; flag < 4; flag++)
            status(ok, ok % 2 ? 3 : 0, ok % 3 ? 4 : 0, flag & 1, flag & 2);

    COVER("ok");
#else
    for (unsigned int error = 0; error < STATE; error++)
        for (unsigned int throwOnError = 0; throwOnError < 2; throwOnError++)
        {
            status(0, error, error == 0 ? 0 : 4, throwOnError, error % 2);

            if (error != 0)
                status(0, 0, error, throwOnError, error % 2);
        }
#endif
}

#if OK
void h_ok(void) {run();}
#endif
void h_push(void) {run();}
void h_get(void) {run();}
#else

static void
statusWrite(const ArchiveMode mode, const bool global, const int code)
{
    const String *const segment = (const String *)&gSegment;
    vfsTotal = 0;

    archiveAsyncStatusErrorWrite(mode, global ? NULL : segment, code, STRDEF("message"));
    int error = 0;

    TRY_BEGIN()
    {
        CHECK_OB("no success", !archiveAsyncStatus(mode, segment, true, true));
    }
    CATCH_FATAL()
    {
        error = errorCode();
    }
    TRY_END();

    CHECK_OB("an error written is the error reported", error == code);
    CHECK_OB("an error is not reported in the other mode", !archiveAsyncStatus(mode == archiveModeGet ? archiveModePush : archiveModeGet, segment, true, true));
    COVER("error written");

    archiveAsyncErrorClear(mode, segment);
    CHECK_OB("an error that was cleared is not reported", !archiveAsyncStatus(mode, segment, true, true));
    COVER("error cleared");

    verif_log_warn = 0;
    archiveAsyncStatusErrorWrite(mode, NULL, code, STRDEF("message"));
    archiveAsyncStatusOkWrite(mode, segment, global ? NULL : STRDEF("warning"));
    CHECK_OB("success of the segment is reported before errors", archiveAsyncStatus(mode, segment, true, true));
    CHECK_OB("the warning written is the one reported", verif_log_warn == !global);
    COVER("ok written");
}

void
h_write(void)
{
    for (unsigned int i = 0; i < 4; i++)
        statusWrite(i % 2 ? archiveModePush : archiveModeGet, i / 2, i % 2 ? 103 : 41);
}
#endif
