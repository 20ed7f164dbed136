// Publication of files on POSIX storage: a file appears under its final name only complete and, when asked, durable
//@property C01
//@src src/storage/posix/write.c
//@sys open close fsync rename utime chown write lseek
//@harness h_publish unwind=40 kind=proof funcs=storageWritePosixNew,storageWritePosixOpen,storageWritePosix,storageWritePosixClose
//@trust open/write/fsync/close/rename/utime/chown/lseek have POSIX semantics and may fail at any call (write may be short)
//@trust path create, path sync, file info and user/group lookup of the storage driver by contract (path sync is verified in unit posix_sync)
#include "vlib/core.c"
#include "vlib/libc.c"

#include "common/type/string.c"
#include "storage/posix/write.c"

// ---- ghost state of the file being written
static struct
{
    bool open;                                                      // descriptor is open
    bool dirty;                                                     // data written since the last sync
    bool broken;                                                    // a write, sync or close failed or was short
    uint64_t written;                                               // bytes accepted by the kernel
    bool renamed;                                                   // final name published
    bool pathSynced;                                                // path synced after publication
    bool pathExists;
    unsigned int timeSet;
} g;

static bool cfgAtomic, cfgSyncFile, cfgSyncPath, cfgCreatePath, cfgTruncate;
static time_t cfgTime;

#define NAME                                                        "/p/f"
#define NAME_FD                                                     7

static bool isName(const char *const n) {return strcmp(n, NAME) == 0;}

int
verif_sys_open(const char *const path, const int flags, ...)
{
    CHECK_OB("an atomic write never opens the final name", !cfgAtomic || !isName(path));
    CHECK_OB("file opened under its own name or a name derived from it", strncmp(path, NAME, strlen(NAME)) == 0);
    CHECK_OB("file opened for create and write", (flags & O_CREAT) && (flags & O_ACCMODE) == O_WRONLY);
    CHECK_OB("existing content is truncated when truncate is requested", !cfgTruncate || (flags & O_TRUNC));
    CHECK_OB("existing content is kept when truncate is not requested", cfgTruncate || !(flags & O_TRUNC));
    CHECK_OB("file not already open", !g.open);

    if (!g.pathExists || IN_BOOL("open_fail"))
    {
        errno = g.pathExists ? (IN_BOOL("open_errno") ? EACCES : ENOENT) : ENOENT;
        return -1;
    }

    g.open = true;
    return NAME_FD;
}

ssize_t
verif_sys_write(const int fd, const void *const buf, const size_t size)
{
    CHECK_OB("write goes to the open file", g.open && fd == NAME_FD);

    const size_t n = IN_UPTO("write_n", size);

    if (IN_BOOL("write_fail"))
    {
        g.broken = true;
        return -1;
    }

    if (n < size)
        g.broken = true;

    g.dirty = g.dirty || n > 0;
    g.written += n;
    return (ssize_t)n;
}

int
verif_sys_fsync(const int fd)
{
    CHECK_OB("sync of the open file", g.open && fd == NAME_FD);

    if (IN_BOOL("fsync_fail"))
    {
        g.broken = true;
        return -1;
    }

    g.dirty = false;
    return 0;
}

int
verif_sys_close(const int fd)
{
    CHECK_OB("close of the open file", g.open && fd == NAME_FD);
    g.open = false;

    if (IN_BOOL("close_fail"))
    {
        g.broken = true;
        return -1;
    }

    return 0;
}

int
verif_sys_rename(const char *const from, const char *const to)
{
    CHECK_OB("only an atomic write renames", cfgAtomic);
    CHECK_OB("final name is the rename target", isName(to));
    CHECK_OB("rename source is the temporary file", !isName(from) && strncmp(from, NAME, strlen(NAME)) == 0);
    CHECK_OB("final name is published only after every write succeeded", !g.broken);
    CHECK_OB("final name is published only after the file was closed", !g.open);
    CHECK_OB("final name is published only after the data was synced", !cfgSyncFile || !g.dirty);
    CHECK_OB("final name is published once", !g.renamed);
    CHECK_OB("modification time set before publication", cfgTime == 0 || g.timeSet > 0);

    if (IN_BOOL("rename_fail"))
        return -1;

    g.renamed = true;
    return 0;
}

int verif_sys_utime(const char *const path, const struct utimbuf *const t)
{
    CHECK_OB("requested time is set", t->modtime == cfgTime);
    g.timeSet++;
    return IN_BOOL("utime_fail") ? -1 : 0;
}

int verif_sys_chown(const char *const path, const uid_t u, const gid_t gr) {return IN_BOOL("chown_fail") ? -1 : 0;}
off_t verif_sys_lseek(const int fd, const off_t o, const int w) {return IN_BOOL("lseek_fail") ? -1 : o;}

// ---- driver callees by contract
static void
stubPathCreate(
    void *const this, const String *const path, const bool errorOnExists, const bool noParentCreate, const mode_t mode,
    const StorageInterfacePathCreateParam param)
{
    CHECK_OB("path is created only when requested", cfgCreatePath);
    CHECK_OB("created path is the parent of the file", strEqZ(path, "/p"));

    if (IN_BOOL("pathCreate_fail"))
        THROW(PathCreateError, "");

    g.pathExists = true;
}

static void
stubPathSync(void *const this, const String *const path, const StorageInterfacePathSyncParam param)
{
    CHECK_OB("synced path is the parent of the file", strEqZ(path, "/p"));
    CHECK_OB("path synced only after publication", !cfgAtomic || g.renamed);

    if (IN_BOOL("pathSync_fail"))
        THROW(PathSyncError, "");

    g.pathSynced = true;
}

static StorageInfo
stubInfo(void *const this, const String *const file, const StorageInfoLevel level, const StorageInterfaceInfoParam param)
{
    return (StorageInfo){.exists = true, .type = storageTypeFile, .userId = IN_U32("info_uid"), .groupId = IN_U32("info_gid")};
}

uid_t userIdFromName(const String *const n) {return n == NULL ? (uid_t)-1 : IN_U32("uid");}
gid_t groupIdFromName(const String *const n) {return n == NULL ? (gid_t)-1 : IN_U32("gid");}
void memContextCallbackSet(MemContext *const m, void (*f)(void *), void *const p) {(void)m; (void)f; (void)p;}
void memContextCallbackClear(MemContext *const m) {(void)m;}

typedef struct {STORAGE_COMMON_MEMBER;} StorageStub;

void
h_publish(void)
{
    cfgAtomic = IN_BOOL("atomic");
    cfgSyncFile = IN_BOOL("syncFile");
    cfgSyncPath = IN_BOOL("syncPath");
    cfgCreatePath = IN_BOOL("createPath");
    cfgTruncate = IN_BOOL("truncate");
    cfgTime = IN_BOOL("timeSet") ? (time_t)IN_U32("time") : 0;
    g.pathExists = IN_BOOL("pathExists");
    ASSUME(!cfgAtomic || cfgTruncate);                              // an atomic write always truncates (asserted by the caller)

    static StorageStub stub;
    stub.interface.pathCreate = stubPathCreate;
    stub.interface.pathSync = stubPathSync;
    stub.interface.info = stubInfo;

    volatile bool closed = false;
    const String *const user = IN_BOOL("user") ? STRDEF("u") : NULL;

    TRY_BEGIN()
    {
        StorageWritePosix *const this = storageWritePosixNew(
            (StoragePosix *)&stub, STRDEF(NAME), 0640, 0750, user, NULL, cfgTime, cfgCreatePath, cfgSyncFile, cfgSyncPath, cfgAtomic,
            cfgTruncate);
        const StorageWriteInterface *const interface = *(const StorageWriteInterface **)this;

        interface->open(this);
        CHECK_OB("file is open after open", g.open);

        // Any number of earlier writes, all of them successful: arbitrary amount written, synced or not
        g.written = IN_UPTO("earlier", UINT32_MAX);
        g.dirty = IN_BOOL("earlier_dirty");

        static uint8_t data[4];
        const BufferPub bufferPub = {.used = IN_UPTO("used", UINT32_MAX), .buffer = data};

        for (unsigned int i = 0; i < 2; i++)
        {
            if (IN_BOOL("write"))
            {
                const uint64_t writtenBefore = g.written;

                interface->write(this, (const Buffer *)&bufferPub);
                CHECK_OB(
                    "successful write has written the whole buffer", !g.broken && g.written == writtenBefore + bufferPub.used);
                CHECK_OB("write publishes nothing", g.open && !g.renamed && !g.pathSynced);
            }
        }

        COVER("file ready to close");
        interface->close(this);
        closed = true;

        CHECK_OB("close succeeds only when every step succeeded", !g.broken && !g.open);
        CHECK_OB("after close an atomic file has its final name", !cfgAtomic || g.renamed);
        CHECK_OB("after close the data is durable when requested", !cfgSyncFile || !g.dirty);
        CHECK_OB("after close the directory entry is durable when requested", !cfgSyncPath || g.pathSynced);
        COVER("file closed");

        // Second close does nothing
        interface->close(this);
    }
    CATCH_FATAL()
    {
        CHECK_OB("an error before publication leaves the final name untouched", !g.renamed || (!g.broken && !g.open));
        CHECK_OB("no error after a successful close", !closed);
        COVER("error path");
    }
    TRY_END();
}
