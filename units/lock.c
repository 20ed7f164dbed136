// Locks: a process that was told it holds a lock is the only one, and only the holder changes or removes the lock file
//@property C14
//@src src/common/lock.c
//@sys open close flock unlink lseek ftruncate getpid stat fstat
//@harness h_acquire unwind=64 kind=bounded funcs=lockInit,lockAcquire,lockWrite,lockReadData
//@bound one lock file, other processes acquire or release it up to twice in total while the function runs; names given concretely
//@harness h_held unwind=64 kind=bounded funcs=lockAcquire,lockWrite,lockRelease def=EXEC_HOLDS=0
//@harness h_held_exec unwind=64 kind=bounded funcs=lockAcquire,lockWrite,lockRelease def=EXEC_HOLDS=1
//@bound two lock files, a history of acquire, write and release by this process
//@harness h_read unwind=64 kind=bounded funcs=lockRead,lockReadData
//@bound one lock file, in every state (missing, not locked, locked by another with readable, unreadable or partial content)
//@trust open/flock/close/unlink/lseek/ftruncate/stat have POSIX semantics (a lock belongs to the file opened, not to its name); JSON and IO by contract (a record written is read back)
//@creplace strResize strEq strNewFmt strPath
//@cdef VLIST_MAX=4
#include <errno.h>
#include <fcntl.h>
#include <sys/file.h>
#include <sys/stat.h>
#include <unistd.h>
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.h"

#ifdef VERIF_CBMC
// Contracts of strEq (loop bound concrete for the verifier) and strNewFmt (messages are not observed)
bool
strEq(const String *const this, const String *const compare)
{
    if (this == NULL || compare == NULL)
        return this == NULL && compare == NULL;

    if (strSize(this) != strSize(compare))
        return false;

    VERIF_LIMIT(strSize(this) <= 8, "exec id longer than the model's");
    bool result = true;

    for (unsigned int i = 0; i < 8; i++)
        result = result && (i >= strSize(this) || strZ(this)[i] == strZ(compare)[i]);

    return result;
}

static const StringPubConst gMessage = {.size = 7, .buffer = "message"};
static const StringPubConst gLockPath = {.size = 2, .buffer = "/l"};
String *strPath(const String *const this) {CHECK_OB("path of the lock file", strBeginsWithZ(this, "/l/")); return (String *)&gLockPath;}
String *strNewFmt(const char *const format, ...) {return (String *)&gMessage;}
#endif
#include "common/type/variant.h"

#define VLIST_LATE
#include "storage/posix/storage.h"
#include "vlib/vlist.c"
#include "storage/posix/storage.h"
#include "storage/storage.intern.h"
#include "common/io/io.h"
#include "common/type/json.h"
#include "common/lock.h"

// ---- lock data records: the JSON in a lock file
typedef struct {bool set[5]; uint64_t value[5]; bool end;} Doc;         // by key, in the order they are written

#define KEY_EXEC                                                    0
#define KEY_PCT                                                     1
#define KEY_PID                                                     2
#define KEY_SZ                                                      3
#define KEY_SZC                                                     4

static unsigned int
keyId(const StringId key)
{
    if (key == STRID6("execId", 0x12e0c56051))
        return KEY_EXEC;
    if (key == STRID6("pctCplt", 0x14310a140d01))
        return KEY_PCT;
    if (key == STRID5("pid", 0x11300))
        return KEY_PID;
    if (key == STRID5("sz", 0x3530))
        return KEY_SZ;

    CHECK_OB("only known keys are used", key == STRID6("szCplt", 0x50c4286931));
    return KEY_SZC;
}

#define EXEC_ME                                                     1
#define EXEC_OTHER                                                  2
static const StringPubConst gExec[3] = {{.size = 0, .buffer = ""}, {.size = 4, .buffer = "1-me"}, {.size = 7, .buffer = "2-other"}};

#define DOC_MAX                                                     8
static Doc gDoc[DOC_MAX];
static unsigned int gDocTotal;

#define CONTENT_EMPTY                                               'e' // else document number + 1
#define CONTENT_BAD                                                 'z'

struct Variant {uint64_t value;};
Variant *varNewUInt(const unsigned int data) {Variant *const r = memNew(sizeof(Variant)); r->value = data; return r;}
Variant *varNewUInt64(const uint64_t data) {Variant *const r = memNew(sizeof(Variant)); r->value = data; return r;}
unsigned int varUInt(const Variant *const this) {return (unsigned int)this->value;}
uint64_t varUInt64(const Variant *const this) {return this->value;}

// ---- the file system: each name has a current file; removing it and creating it again makes another file
#define FILE_MAX                                                    2
#define GEN_MAX                                                     4
#define FD_MAX                                                      6

typedef enum {otherNone, otherExec, otherForeign, otherBad, otherEmpty} Other;  // who holds the lock: same exec id, other id, unreadable

static struct {bool exists; unsigned int gen; Other other[GEN_MAX]; char content[GEN_MAX];} gFile[FILE_MAX];
static struct {bool open, lock, write; unsigned int file, gen; bool moved; bool truncated;} gFd[FD_MAX];
static unsigned int gFdTotal;
#define OPEN_MAX                                                    5
static unsigned int gOpen;                                          // files opened so far
static bool gPathExists, gInterfere;
static unsigned int gOtherStep;                                     // steps other processes still take
static bool gDenied;                                                // last attempt to lock was denied because of another process
static Other gDeniedBy;
static bool gFlockError;                                            // an attempt to lock failed for another reason
static unsigned int gRemoved[FILE_MAX];

static const char *const gName[FILE_MAX] = {"a-archive-1.lock", "a-backup-1.lock"};
#define FAULT(name)                                                 (verif_fault_enabled && IN_BOOL(name))
#define FD0                                                         10

static const StringPubConst gPath[FILE_MAX] = {{.size = 19, .buffer = "/l/a-archive-1.lock"}, {.size = 18, .buffer = "/l/a-backup-1.lock"}};

static unsigned int
fileId(const char *const path)
{
    for (unsigned int i = 0; i < FILE_MAX; i++)
        if (strncmp(path, "/l/", 3) == 0 && strcmp(path + 3, gName[i]) == 0)
            return i;

    CHECK_OB("only lock files in the lock path are used", false);
    ASSUME(false);
    return 0;
}

static char contentOf(const Other other) {return other == otherExec ? 1 : other == otherForeign ? 2 : other == otherBad ? CONTENT_BAD : CONTENT_EMPTY;}

static Other otherIn(void) {return (Other)IN_UPTO("other", 3) + 1;}

// Another process releases the lock it holds (it removes the file first) or creates the file and locks it
static void
otherStep(const unsigned int f)
{
    if (!gInterfere || gOtherStep == 0 || !IN_BOOL("other_acts"))
        return;

    gOtherStep--;

    bool mine = false;

    for (unsigned int i = 0; i < FD_MAX; i++)
        mine = mine || (gFd[i].open && gFd[i].lock && gFd[i].file == f && gFd[i].gen == gFile[f].gen && gFile[f].exists);

    if (mine)
        return;

    if (gFile[f].exists && gFile[f].other[gFile[f].gen] != otherNone)
    {
        gFile[f].exists = false;
        gFile[f].other[gFile[f].gen] = otherNone;

        // ...and yet another process may create and lock it again
        if (!IN_BOOL("other_again"))
            return;
    }

    if (!gFile[f].exists)
    {
        VERIF_LIMIT(gFile[f].gen + 1 < GEN_MAX, "files of one name");
        gFile[f].gen++;
        gFile[f].exists = true;
    }

    if (gPathExists)
    {
        const Other other = otherIn();
        gFile[f].other[gFile[f].gen] = other;
        gFile[f].content[gFile[f].gen] = contentOf(other);
    }
    else
        gFile[f].exists = false;
}

int
verif_sys_open(const char *const path, const int flags, ...)
{
    const unsigned int f = fileId(path);
    CHECK_OB("opening a lock file never changes its content", !(flags & O_TRUNC));
    gOpen++;
    VERIF_LIMIT(gOpen <= OPEN_MAX, "attempts to open a lock file");
    ASSUME(gOpen <= OPEN_MAX);
    otherStep(f);

    if (!gPathExists && (flags & O_CREAT))
    {
        errno = ENOENT;
        return -1;
    }

    if (FAULT("open_fail"))
    {
        errno = IN_BOOL("open_errno") ? EACCES : EMFILE;
        return -1;
    }

    if (!gFile[f].exists)
    {
        if (!(flags & O_CREAT))
        {
            errno = ENOENT;
            return -1;
        }

        VERIF_LIMIT(gFile[f].gen + 1 < GEN_MAX, "files of one name");
        gFile[f].gen++;
        gFile[f].exists = true;
        gFile[f].content[gFile[f].gen] = CONTENT_EMPTY;
    }

    VERIF_LIMIT(gFdTotal < FD_MAX, "descriptors");
    ASSUME(gFdTotal < FD_MAX);
    gFd[gFdTotal].open = true;
    gFd[gFdTotal].write = (flags & O_ACCMODE) == O_RDWR;
    gFd[gFdTotal].file = f;
    gFd[gFdTotal].gen = gFile[f].gen;
    return FD0 + (int)gFdTotal++;
}

static unsigned int
fdId(const int fd)
{
    CHECK_OB("descriptor is open", fd >= FD0 && fd < FD0 + FD_MAX && gFd[fd - FD0].open);
    ASSUME(fd >= FD0 && fd < FD0 + FD_MAX);
    return (unsigned int)(fd - FD0);
}

int
verif_sys_flock(const int fd, const int op)
{
    const unsigned int i = fdId(fd);
    const unsigned int f = gFd[i].file;
    CHECK_OB("lock is exclusive", (op & ~LOCK_NB) == LOCK_EX);
    CHECK_OB("lock attempt does not wait", op & LOCK_NB);
    otherStep(f);

    gDenied = false;

    if (gFile[f].other[gFd[i].gen] != otherNone)
    {
        gDenied = true;
        gDeniedBy = gFile[f].other[gFd[i].gen];
        errno = EWOULDBLOCK;
        return -1;
    }

    for (unsigned int j = 0; j < FD_MAX; j++)
        CHECK_OB("this process does not lock a file twice", !(gFd[j].open && gFd[j].lock && gFd[j].file == f && gFd[j].gen == gFd[i].gen));

    if (FAULT("flock_fail"))
    {
        gFlockError = true;
        errno = ENOLCK;
        return -1;
    }

    gFd[i].lock = true;
    return 0;
}

int
verif_sys_close(const int fd)
{
    const unsigned int i = fdId(fd);
    gFd[i].open = gFd[i].lock = false;
    return 0;
}

static bool mine(const unsigned int f) {
    bool result = false;

    for (unsigned int i = 0; i < FD_MAX; i++)
        result = result || (gFd[i].open && gFd[i].lock && gFd[i].file == f && gFd[i].gen == gFile[f].gen);

    return result && gFile[f].exists;
}

static bool gMayRemove;                                             // lockRead() was asked to remove the file, whoever holds it

static void
fileRemove(const unsigned int f)
{
    CHECK_OB("a lock file is removed only by the process that holds the lock, before it is released", gMayRemove || mine(f));
    gFile[f].exists = false;
    gRemoved[f]++;
}

int
verif_sys_unlink(const char *const path)
{
    const unsigned int f = fileId(path);

    if (!gFile[f].exists || FAULT("unlink_fail"))
        return -1;

    fileRemove(f);
    return 0;
}

off_t
verif_sys_lseek(const int fd, const off_t offset, const int whence)
{
    const unsigned int i = fdId(fd);

    if (FAULT("seek_fail"))
        return -1;

    if (offset == 0 && whence == SEEK_SET)
        gFd[i].moved = false;

    return offset;
}

int
verif_sys_ftruncate(const int fd, const off_t size)
{
    const unsigned int i = fdId(fd);
    CHECK_OB("only the holder of the lock changes the lock file", gFd[i].lock);

    if (FAULT("truncate_fail"))
        return -1;

    gFile[gFd[i].file].content[gFd[i].gen] = size == 0 ? CONTENT_EMPTY : CONTENT_BAD;
    return 0;
}

static struct stat statOf(const unsigned int f, const unsigned int gen) {struct stat s = {0}; s.st_dev = 5; s.st_ino = f * 100 + gen; s.st_nlink = gFile[f].exists && gFile[f].gen == gen; return s;}

int
verif_sys_stat(const char *const path, struct stat *const st)
{
    const unsigned int f = fileId(path);
    otherStep(f);

    if (!gFile[f].exists)
    {
        errno = ENOENT;
        return -1;
    }

    *st = statOf(f, gFile[f].gen);
    return 0;
}

int
verif_sys_fstat(const int fd, struct stat *const st)
{
    const unsigned int i = fdId(fd);
    otherStep(gFd[i].file);
    *st = statOf(gFd[i].file, gFd[i].gen);
    return 0;
}

static const pid_t gPid = 4711;
pid_t verif_sys_getpid(void) {return gPid;}

// ---- storage
struct Storage {bool root;};
static struct Storage gStorage[2];

Storage *storagePosixNew(const String *const path, const StoragePosixNewParam param)
{
    const bool root = strEqZ(path, "/");
    CHECK_OB("lock storage is the lock path", root || strEqZ(path, "/l"));
    CHECK_OB("lock storage is writable", param.write);
    gStorage[root].root = root;
    return &gStorage[root];
}

String *
storagePath(const Storage *const this, const String *const pathExp, const StoragePathParam param)
{
    CHECK_OB("lock file is in the lock path", this == &gStorage[0]);

    for (unsigned int i = 0; i < FILE_MAX; i++)
        if (strEqZ(pathExp, gName[i]))
            return (String *)&gPath[i];

    CHECK_OB("lock file has the name requested", false);
    ASSUME(false);
    return NULL;
}

void
storagePathCreate(const Storage *const this, const String *const pathExp, const StoragePathCreateParam param)
{
    CHECK_OB("path created is the lock path", this == &gStorage[1] ? strEqZ(pathExp, "/l") : pathExp == NULL);

    if (FAULT("path_create_fail"))
        THROW(PathCreateError, "create");

    gPathExists = true;
}

void
storageRemove(const Storage *const this, const String *const fileExp, const StorageRemoveParam param)
{
    for (unsigned int i = 0; i < FILE_MAX; i++)
    {
        if (strEqZ(fileExp, gName[i]))
        {
            if (FAULT("remove_fail"))
                THROW(FileRemoveError, "remove");

            if (gFile[i].exists)
                fileRemove(i);

            return;
        }
    }

    CHECK_OB("only lock files of this process are removed", false);
}

// ---- IO: a buffer or a string holds one byte, the number of the document
struct IoRead {int fd; bool isFd; const Buffer *buffer;};
struct IoWrite {int fd; bool isFd; Buffer *buffer;};

struct Buffer {BufferPub pub; };
Buffer *bufNew(const size_t size) {Buffer *const b = memNew(sizeof(Buffer)); b->pub.used = 1; b->pub.buffer = memNew(1); b->pub.buffer[0] = CONTENT_EMPTY; return b;}
static IoRead *vRead(const bool isFd, const int fd, const Buffer *const b) {IoRead *const r = memNew(sizeof(IoRead)); r->isFd = isFd; r->fd = fd; r->buffer = b; return r;}
static IoWrite *vWrite(const bool isFd, const int fd, Buffer *const b) {IoWrite *const r = memNew(sizeof(IoWrite)); r->isFd = isFd; r->fd = fd; r->buffer = b; return r;}
IoRead *ioFdReadNew(const String *const name, const int fd, const TimeMSec timeout) {fdId(fd); return vRead(true, fd, NULL);}
IoWrite *ioFdWriteNew(const String *const name, const int fd, const TimeMSec timeout) {fdId(fd); return vWrite(true, fd, NULL);}
IoRead *ioBufferReadNew(const Buffer *const buffer) {return vRead(false, 0, buffer);}
IoWrite *ioBufferWriteNew(Buffer *const buffer) {return vWrite(false, 0, buffer);}
bool ioReadOpen(IoRead *const this) {return true;}
void ioWriteOpen(IoWrite *const this) {}
void ioWriteClose(IoWrite *const this) {}

void
ioCopy(IoRead *const source, IoWrite *const destination, const IoCopyParam param)
{
    char c;

    if (source->isFd)
    {
        const unsigned int i = fdId(source->fd);
        c = gFile[gFd[i].file].content[gFd[i].gen];

        if (FAULT("read_fail"))
            THROW(FileReadError, "read");
    }
    else
        c = (char)source->buffer->pub.buffer[0];

    if (destination->isFd)
    {
        const unsigned int i = fdId(destination->fd);
        CHECK_OB("only the holder of the lock changes the lock file", gFd[i].lock && gFd[i].write);

        char *const to = &gFile[gFd[i].file].content[gFd[i].gen];
        *to = *to == CONTENT_EMPTY && !gFd[i].moved ? c : CONTENT_BAD;
        gFd[i].moved = true;

        if (FAULT("write_fail"))
        {
            *to = CONTENT_BAD;
            THROW(FileWriteError, "write");
        }
    }
    else
    {
        destination->buffer->pub.buffer[0] = (uint8_t)c;

    }

}

// ---- JSON
struct JsonRead {unsigned int doc, key;};
struct JsonWrite {unsigned int doc, key;};
static char gDocByte[2];
static const StringPubConst gDocStr = {.size = 1, .buffer = gDocByte};

JsonRead *
jsonReadNew(const String *const string)
{
    const char c = strZ(string)[0];

    if (c < 1 || c > (char)gDocTotal)
        THROW(JsonFormatError, "json");

    JsonRead *const this = memNew(sizeof(JsonRead));
    this->doc = (unsigned int)c - 1;
    this->key = 0;
    return this;
}

void jsonReadObjectBegin(JsonRead *const this) {}

// Keys before the one that is expected are skipped
bool
jsonReadKeyExpectStrId(JsonRead *const this, const StringId key)
{
    const unsigned int k = keyId(key);

    if (k < this->key || !gDoc[this->doc].set[k])
        return false;

    this->key = k;
    return true;
}

JsonRead *
jsonReadKeyRequireStrId(JsonRead *const this, const StringId key)
{
    if (!jsonReadKeyExpectStrId(this, key))
        THROW(JsonFormatError, "key");

    return this;
}

static uint64_t vReadU(JsonRead *const this) {return gDoc[this->doc].value[this->key++];}
String *jsonReadStr(JsonRead *const this) {return (String *)&gExec[vReadU(this) == EXEC_ME ? 1 : 2];}
int jsonReadInt(JsonRead *const this) {return (int)vReadU(this);}
unsigned int jsonReadUInt(JsonRead *const this) {return (unsigned int)vReadU(this);}
uint64_t jsonReadUInt64(JsonRead *const this) {return vReadU(this);}

JsonWrite *
jsonWriteNew(const JsonWriteNewParam param)
{
    VERIF_LIMIT(gDocTotal < DOC_MAX, "documents");
    ASSUME(gDocTotal < DOC_MAX);
    JsonWrite *const this = memNew(sizeof(JsonWrite));
    this->doc = gDocTotal++;
    this->key = 0;
    return this;
}

JsonWrite *jsonWriteObjectBegin(JsonWrite *const this) {return this;}
JsonWrite *jsonWriteObjectEnd(JsonWrite *const this) {gDoc[this->doc].end = true; return this;}

JsonWrite *
jsonWriteKeyStrId(JsonWrite *const this, const StringId key)
{
    CHECK_OB("keys are written in the order they are read in", keyId(key) >= this->key);
    this->key = keyId(key) + 1;
    gDoc[this->doc].set[this->key - 1] = true;
    return this;
}

static JsonWrite *vWriteU(JsonWrite *const this, const uint64_t value) {gDoc[this->doc].value[this->key - 1] = value; return this;}
JsonWrite *jsonWriteStr(JsonWrite *const this, const String *const value) {return vWriteU(this, strEqZ(value, "1-me") ? EXEC_ME : 0);}
JsonWrite *jsonWriteInt(JsonWrite *const this, const int value) {return vWriteU(this, (uint64_t)value);}
JsonWrite *jsonWriteUInt(JsonWrite *const this, const unsigned int value) {return vWriteU(this, value);}
JsonWrite *jsonWriteUInt64(JsonWrite *const this, const uint64_t value) {return vWriteU(this, value);}
const String *jsonWriteResult(JsonWrite *const this) {gDocByte[0] = (char)(this->doc + 1); return (String *)&gDocStr;}

void userInit(void) {}
const String *userName(void) {return STRDEF("user");}
const String *groupName(void) {return STRDEF("group");}

#include "common/lock.c"

#undef VLIST_TYPES
#define VLIST_TYPES                                                 VLIST_TYPE(LockFile)
#include "vlib/vlistItem.c"

// ---- harness
static bool has(const char content, const unsigned int key, const uint64_t value)
{
    return content >= 1 && content <= (char)gDocTotal && gDoc[content - 1].end && gDoc[content - 1].set[key] && gDoc[content - 1].value[key] == value;
}

static void
world(void)
{
    gPathExists = true;

    // What other processes with the same and with another exec id wrote
    gDoc[0] = (Doc){.end = true, .set = {true, false, true}, .value = {EXEC_ME, 0, 100}};
    gDoc[1] = (Doc){.end = true, .set = {true, false, true}, .value = {EXEC_OTHER, 0, 200}};
    gDocTotal = 2;

    for (unsigned int f = 0; f < FILE_MAX; f++)
        for (unsigned int i = 0; i < GEN_MAX; i++)
            gFile[f].content[i] = CONTENT_EMPTY;

    lockInit(STRDEF("/l"), STRDEF("1-me"));
    CHECK_OB("exec id is kept", strEqZ(lockExecId(), "1-me"));
}

static const LockFile *listed(const unsigned int f) {const String *const name = f == 0 ? STRDEF("a-archive-1.lock") : STRDEF("a-backup-1.lock"); return lstFind(lockLocal.lockList, &name);}

// Descriptors that are open belong to locks in the list
static void
fdCheck(void)
{
    for (unsigned int i = 0; i < FD_MAX; i++)
    {
        bool used = false;

        for (unsigned int j = 0; j < FILE_MAX; j++)
            used = used || (j < lstSize(lockLocal.lockList) && ((const LockFile *)lstGet(lockLocal.lockList, j))->fd == FD0 + (int)i);

        CHECK_OB("descriptors that do not hold a lock are closed", !gFd[i].open || used);
    }
}

static void
ownCheck(const unsigned int f)
{
    CHECK_OB("the process that acquired the lock holds it", mine(f));
    const char c = gFile[f].content[gFile[f].gen];
    CHECK_OB("lock file tells who holds the lock", has(c, KEY_EXEC, EXEC_ME));
    CHECK_OB("lock file tells the process that holds the lock", has(c, KEY_PID, (uint64_t)gPid));
}

void
h_acquire(void)
{
    world();
    gPathExists = IN_BOOL("path_exists");
    gFile[0].exists = gPathExists && IN_BOOL("exists");

    if (gFile[0].exists)
    {
        gFile[0].other[0] = (Other)IN_UPTO("holder", 4);
        gFile[0].content[0] = gFile[0].other[0] == otherNone ? (char)IN_UPTO("stale", 2) : contentOf(gFile[0].other[0]);
        // (an unlocked file was left behind by a process that died before it wrote anything or by one that could not remove it)
        ASSUME(gFile[0].other[0] != otherNone || gFile[0].content[0] == CONTENT_EMPTY);
    }

    gInterfere = true;
    gOtherStep = 2;
    const bool noLock = IN_BOOL("return_on_no_lock");
    COVER("called");

    TRY_BEGIN()
    {
        const bool result = lockAcquireP(STRDEF("a-archive-1.lock"), .returnOnNoLock = noLock);
        fdCheck();

        if (result)
        {
            const LockFile *const item = listed(0);
            CHECK_OB("acquired lock is remembered", item != NULL && lstSize(lockLocal.lockList) == 1);

            if (item->fd >= FD0)
            {
                ownCheck(0);
                COVER("acquired");
            }
            else
            {
                CHECK_OB("a lock counts as held without holding it only when a process with the same exec id holds it", gDenied ? gDeniedBy == otherExec : gFlockError);
                COVER("held by a process with the same exec id");
            }
        }
        else
        {
            CHECK_OB("no lock without error only when requested", noLock);
            CHECK_OB("no lock without error only when another process holds it", gDenied);
            CHECK_OB("lock not acquired is not remembered", lstEmpty(lockLocal.lockList));
            COVER("not acquired");
        }
    }
    CATCH_ANY()
    {
        CHECK_OB("a lock held by another process is no error when requested", !noLock || !gDenied || listed(0) != NULL || !gPathExists || errorType() != &LockAcquireError);
        fdCheck();
        COVER("error");
    }
    TRY_END();
}

#ifdef EXEC_HOLDS
static void
held(void)
{
    world();
    verif_fault_enabled = false;

    gFile[1].exists = EXEC_HOLDS;
    gFile[1].other[0] = gFile[1].exists ? otherExec : otherNone;
    gFile[1].content[0] = contentOf(gFile[1].other[0]);

    COVER("called");

    TRY_BEGIN()
    {
        CHECK_OB("lock acquired", lockAcquireP(STRDEF("a-archive-1.lock")));
        CHECK_OB("lock acquired", lockAcquireP(STRDEF("a-backup-1.lock")));
        CHECK_OB("first lock is still held", mine(0));
        CHECK_OB("lock of another process is left alone", gFile[1].other[0] == otherNone ? mine(1) : !mine(1));

        // Twice is an error
        bool again = false;

        TRY_BEGIN()
        {
            lockAcquireP(STRDEF("a-archive-1.lock"));
        }
        CATCH_FATAL()
        {
            again = true;
        }
        TRY_END();

        CHECK_OB("acquiring a lock again is an error", again);
        CHECK_OB("first lock is still held", mine(0));

        // Progress
        const uint64_t pct = IN_UPTO("pct", 10000), size = IN_U64("size"), done = IN_U64("done");
        struct Variant vPct = {pct}, vSize = {size}, vDone = {done};
        lockWriteP(STRDEF("a-archive-1.lock"), .percentComplete = &vPct, .size = &vSize, .sizeComplete = &vDone);
        lockWriteP(STRDEF("a-archive-1.lock"), .percentComplete = &vPct, .size = &vSize, .sizeComplete = &vDone);
        ownCheck(0);
        const char c = gFile[0].content[gFile[0].gen];
        CHECK_OB("progress is written", has(c, KEY_PCT, pct));
        CHECK_OB("progress is written", has(c, KEY_SZ, size));
        CHECK_OB("progress is written", has(c, KEY_SZC, done));
        COVER("written");

        CHECK_OB("locks are released", lockReleaseP());
        CHECK_OB("released locks are forgotten", lstEmpty(lockLocal.lockList));
        CHECK_OB("released lock file is removed", !gFile[0].exists && gRemoved[0] == 1);
        CHECK_OB("lock file of another process is kept", gFile[1].exists == (gFile[1].other[0] != otherNone) && gRemoved[1] == (gFile[1].other[0] == otherNone));
        fdCheck();
        COVER("released");

        CHECK_OB("nothing to release is reported", !lockReleaseP(.returnOnNoLock = true));

        // The lock can be acquired again
        CHECK_OB("lock acquired again", lockAcquireP(STRDEF("a-archive-1.lock")) && mine(0));
        COVER("acquired again");
    }
    CATCH_ANY()
    {
        CHECK_OB("no error when nothing fails", false);
    }
    TRY_END();
}

void h_held(void) {held();}
void h_held_exec(void) {held();}
#endif

void
h_read(void)
{
    world();
    gFile[0].exists = IN_BOOL("exists");
    gFile[0].other[0] = gFile[0].exists ? (Other)IN_UPTO("holder", 4) : otherNone;

    const uint64_t pct = IN_UPTO("pct", 10000), size = IN_U64("size"), done = IN_U64("done");
    const bool progress = IN_BOOL("progress");

    if (progress)
    {
gDoc[1] = (Doc){.end = true, .set = {true, true, true, true, true}, .value = {EXEC_OTHER, pct, 200, size, done}};
    }

    gFile[0].content[0] = contentOf(gFile[0].other[0]);
    const Other other = gFile[0].other[0];
    const bool exists = gFile[0].exists;
    const bool remove = IN_BOOL("remove");
    gMayRemove = remove;
    COVER("called");

    const LockReadResult result = lockReadP(STRDEF("a-archive-1.lock"), .remove = remove);

    fdCheck();
    CHECK_OB("reading does not change the lock file", gFile[0].content[0] == contentOf(other));
    CHECK_OB("file is removed only when requested", remove || gFile[0].exists == exists);

    switch (result.status)
    {
        case lockReadStatusMissing:
            COVER("missing");
            break;

        case lockReadStatusUnlocked:
            CHECK_OB("reported as not locked only when no process holds the lock", exists && other == otherNone);
            COVER("not locked");
            break;

        case lockReadStatusInvalid:
            COVER("invalid");
            break;

        case lockReadStatusValid:
            CHECK_OB("lock data is valid only when a process holds the lock and the data can be read", other == otherExec || other == otherForeign || gDeniedBy == otherNone);
            CHECK_OB("lock data is that of the holder", other == otherNone || strEqZ(result.data.execId, other == otherExec ? "1-me" : "2-other"));
            CHECK_OB("lock data is that of the holder", other == otherNone || result.data.processId == (other == otherExec ? 100 : 200));

            if (other == otherForeign)
            {
                CHECK_OB("progress is that of the holder", (result.data.percentComplete != NULL) == progress && (result.data.size != NULL) == progress && (result.data.sizeComplete != NULL) == progress);
                CHECK_OB("progress is that of the holder", !progress || (varUInt(result.data.percentComplete) == pct && varUInt64(result.data.size) == size && varUInt64(result.data.sizeComplete) == done));
            }

            COVER("valid");
            break;
    }
}
