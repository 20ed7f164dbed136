// Sync of a directory: it returns without error only when the directory was flushed; remove and create are reported as they happened
//@property C01
//@src src/storage/posix/storage.c
//@sys open close fsync unlink mkdir rename
//@harness h_sync unwind=20 kind=proof funcs=storagePosixPathSync
//@harness h_remove unwind=20 kind=proof funcs=storagePosixRemove
//@harness h_move unwind=70 kind=bounded funcs=storagePosixMove
//@bound move within one path and between two paths, every failure
//@harness h_pathCreate unwind=70 kind=bounded funcs=storagePosixPathCreate
//@bound path whose parents are missing to depth two
//@trust open/fsync/close/unlink/mkdir/rename have POSIX semantics and may fail at any call
//@creplace strResize
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "storage/posix/storage.c"

#define FD                                                          5

static bool gOpen, gSynced, gClosed, gCloseFail, gSyncFail;
static unsigned int gOpenTotal;
static const char *gSyncPath;

int
verif_sys_open(const char *const path, const int flags, ...)
{
    CHECK_OB("the directory itself is opened", strcmp(path, gSyncPath) == 0 && (flags & O_ACCMODE) == O_RDONLY && !(flags & (O_CREAT | O_TRUNC)));
    CHECK_OB("not already open", !gOpen);

    if (IN_BOOL("open_fail"))
    {
        errno = IN_BOOL("open_errno") ? ENOENT : EACCES;
        return -1;
    }

    gOpen = true;
    gOpenTotal++;
    return FD;
}

int
verif_sys_fsync(const int fd)
{
    CHECK_OB("the directory opened is flushed", gOpen && fd == FD);
    gSyncFail = IN_BOOL("fsync_fail");
    errno = EIO;
    gSynced = !gSyncFail;
    return gSyncFail ? -1 : 0;
}

int
verif_sys_close(const int fd)
{
    CHECK_OB("the directory opened is closed", gOpen && fd == FD);
    gOpen = false;
    gCloseFail = IN_BOOL("close_fail");
    errno = EIO;
    return gCloseFail ? -1 : 0;
}

static const char *gUnlink;
static int gUnlinkErr;
static bool gUnlinked;

int
verif_sys_unlink(const char *const path)
{
    CHECK_OB("only the file requested is removed", strcmp(path, gUnlink) == 0);

    if (gUnlinkErr != 0)
    {
        errno = gUnlinkErr;
        return -1;
    }

    gUnlinked = true;
    return 0;
}

// Directories /a, /a/b, /a/b/c
static bool gDir[3];
static int gMkdirErr[3];

int
verif_sys_mkdir(const char *const path, const mode_t mode)
{
    const unsigned int depth = strcmp(path, "/a") == 0 ? 0 : strcmp(path, "/a/b") == 0 ? 1 : strcmp(path, "/a/b/c") == 0 ? 2 : 3;
    CHECK_OB("only the path requested and its parents are created", depth < 3);
    CHECK_OB("path is created with the mode requested", mode == 0751);

    if (gDir[depth])
    {
        errno = EEXIST;
        return -1;
    }

    if (depth > 0 && !gDir[depth - 1])
    {
        errno = ENOENT;
        return -1;
    }

    if (gMkdirErr[depth] != 0)
    {
        errno = gMkdirErr[depth];
        return -1;
    }

    gDir[depth] = true;
    return 0;
}

// Move
static const char *gSource, *gDestination;
static bool gMoved, gSourceExists, gDestinationPath, gCreatePath, gWantSync;
static int gRenameErr;
static unsigned int gRenameTotal;

int
verif_sys_rename(const char *const from, const char *const to)
{
    CHECK_OB("source is renamed to destination", strcmp(from, gSource) == 0 && strcmp(to, gDestination) == 0);
    gRenameTotal++;
    VERIF_LIMIT(gRenameTotal < 4, "renames");

    if (!gSourceExists || !gDestinationPath)
    {
        errno = ENOENT;
        return -1;
    }

    if (gRenameErr != 0)
    {
        errno = gRenameErr;
        return -1;
    }

    CHECK_OB("source is moved once", !gMoved);
    gMoved = true;
    return 0;
}

static const StringPubConst gSourceStr = {.size = 4, .buffer = "/a/f"}, gSame = {.size = 4, .buffer = "/a/g"}, gOther = {.size = 6, .buffer = "/a/b/g"};
static const String *gDestinationStr;
static StorageReadPub gRead;
static StorageWritePub gWrite;

static StorageInfo
stubInfo(void *const this, const String *const file, const StorageInfoLevel level, const StorageInterfaceInfoParam param)
{
    return (StorageInfo){.exists = strEq(file, (const String *)&gSourceStr) ? gSourceExists : gMoved};
}

static unsigned int gSyncSource, gSyncDestination;

static void
stubPathCreate(
    void *const this, const String *const path, const bool errorOnExists, const bool noParentCreate, const mode_t mode,
    const StorageInterfacePathCreateParam param)
{
    CHECK_OB("path is created only when requested", gCreatePath);
    CHECK_OB("path created is that of the destination", strEq(path, strPath(gDestinationStr)));
    gDestinationPath = true;
}

static void
stubPathSync(void *const this, const String *const path, const StorageInterfacePathSyncParam param)
{
    CHECK_OB("paths are synced after the move", gMoved);

    if (strEqZ(path, "/a"))
        gSyncSource++;
    else
        gSyncDestination++;
}

static bool stubMove(THIS_VOID, StorageRead *const source, StorageWrite *const destination, const StorageInterfaceMoveParam param)
{
    return storagePosixMove(thisVoid, source, destination, param);
}

static StoragePosix gStorage;

void
h_sync(void)
{
    gSyncPath = "/d/e";
    static const StringPubConst path = {.size = 4, .buffer = "/d/e"};
    bool ok = false;

    TRY_BEGIN()
    {
        storagePosixPathSync(&gStorage, (const String *)&path, (StorageInterfacePathSyncParam){0});
        ok = true;
        COVER("synced");
    }
    CATCH_ANY()
    {
        CHECK_OB("an error is one of the path", errorType() == &PathMissingError || errorType() == &PathOpenError || errorType() == &PathSyncError || errorType() == &PathCloseError);
        COVER("error");
    }
    TRY_END();

    CHECK_OB("sync succeeds exactly when the directory was flushed and closed", ok == (gSynced && !gCloseFail));
    CHECK_OB("the descriptor does not stay open", !gOpen);
}

void
h_remove(void)
{
    gUnlink = "/d/e";
    static const StringPubConst path = {.size = 4, .buffer = "/d/e"};
    gUnlinkErr = IN_BOOL("err") ? (IN_BOOL("missing") ? ENOENT : EACCES) : 0;
    const bool errorOnMissing = IN_BOOL("errorOnMissing");
    bool ok = false;

    TRY_BEGIN()
    {
        storagePosixRemove(&gStorage, (const String *)&path, (StorageInterfaceRemoveParam){.errorOnMissing = errorOnMissing});
        ok = true;
        COVER("removed");
    }
    CATCH_ANY()
    {
        CHECK_OB("an error is a remove error", errorType() == &FileRemoveError);
        COVER("error");
    }
    TRY_END();

    CHECK_OB("remove succeeds exactly when the file is gone or may be missing", ok == (gUnlinked || (gUnlinkErr == ENOENT && !errorOnMissing)));
}

void
h_move(void)
{
    for (unsigned int i = 0; i < 64; i++)
    {
        gSource = "/a/f";
        gDestinationStr = (const String *)(i & 1 ? &gOther : &gSame);
        gDestination = strZ(gDestinationStr);
        gMoved = false;
        gSourceExists = !(i & 2);
        gDestinationPath = !(i & 4);
        gCreatePath = i & 8;
        gWantSync = i & 16;
        gRenameErr = i & 32 ? (i & 1 ? EXDEV : EACCES) : 0;
        gRenameTotal = gSyncSource = gSyncDestination = 0;
        gStorage.interface.info = stubInfo;
        gStorage.interface.pathCreate = stubPathCreate;
        gStorage.interface.pathSync = stubPathSync;
        gStorage.interface.move = stubMove;

        gRead.name = (const String *)&gSourceStr;
        gWrite.name = gDestinationStr;
        gWrite.createPath = gCreatePath;
        gWrite.syncPath = gWantSync;
        gWrite.modePath = 0751;
        bool ok = false, moved = false;

        TRY_BEGIN()
        {
            moved = storagePosixMove(&gStorage, (StorageRead *)&gRead, (StorageWrite *)&gWrite, (StorageInterfaceMoveParam){0});
            ok = true;
            COVER("moved");
        }
        CATCH_ANY()
        {
            COVER("error");
        }
        TRY_END();

        CHECK_OB("a move is reported exactly when the file was moved", !ok || moved == gMoved);
        CHECK_OB("an error of the move is reported", ok || !gMoved);
        CHECK_OB("the path the file was moved from is synced when requested", !(ok && moved && gWantSync && (i & 1)) || gSyncSource > 0);
        CHECK_OB("a move that can be done is done", !(gSourceExists && (!(i & 4) || gCreatePath) && gRenameErr == 0) || (ok && moved));
        CHECK_OB("a move to another device is left to a copy", !(gSourceExists && (!(i & 4) || gCreatePath) && gRenameErr == EXDEV) || (ok && !moved));
    }
}

void
h_pathCreate(void)
{
    for (unsigned int i = 0; i < 64; i++)
    {
        const unsigned int have = i % 4;
        const bool errorOnExists = i & 4, noParent = i & 8;
        const unsigned int fail = i >> 4;

        for (unsigned int d = 0; d < 3; d++)
        {
            gDir[d] = d < have;
            gMkdirErr[d] = fail == d + 1 ? EACCES : 0;
        }

        static const StringPubConst path = {.size = 6, .buffer = "/a/b/c"};
        gStorage.interface.pathCreate = storagePosixPathCreate;
        bool ok = false;

        TRY_BEGIN()
        {
            storagePosixPathCreate(&gStorage, (const String *)&path, errorOnExists, noParent, 0751, (StorageInterfacePathCreateParam){0});
            ok = true;
            COVER("created");
        }
        CATCH_ANY()
        {
            CHECK_OB("an error is a create error", errorType() == &PathCreateError);
            COVER("error");
        }
        TRY_END();

        const bool blocked = fail > have;
        const bool expect = have == 3 ? !errorOnExists : !blocked && (have == 2 || !noParent);
        CHECK_OB("a path is created exactly when it can be", ok == expect);
        CHECK_OB("after success the path exists", !ok || (gDir[0] && gDir[1] && gDir[2]));
    }
}
