/* Contract of storage and storage IO for units that are about which files exist and what whole small files hold: files are a table of
 * names and contents. Names are those the code under verification passes (storage expressions are not resolved). Each operation
 * fails when the unit says so in vfsFault(). */
#include "common/type/buffer.h"
#include "storage/helper.h"
#include "storage/storage.h"
#include "common/io/write.h"
#include "common/io/read.h"

#ifndef VFS_MAX
#define VFS_MAX                                                     8
#endif

enum {vfsSpool, vfsLocal, vfsRepo, vfsPg, vfsStorageTotal};

struct Storage {StoragePub pub; unsigned int id; bool write;};
static struct Storage vfsStorageList[vfsStorageTotal + 4][2];

typedef struct {const char *name; unsigned int storage; const char *content; size_t size; unsigned int written, removed;} VfsFile;
static VfsFile vfsFile[VFS_MAX];
static unsigned int vfsTotal;

typedef enum {vfsOpExists, vfsOpRead, vfsOpWrite, vfsOpRemove, vfsOpPath, vfsOpList} VfsOp;
static bool vfsFault(VfsOp op, const String *name);                 // does this operation fail?

static const Storage *vfsStorage(const unsigned int id, const bool write) {struct Storage *const s = &vfsStorageList[id][write]; s->id = id; s->write = write; return s;}
const Storage *storageSpool(void) {return vfsStorage(vfsSpool, false);}
const Storage *storageSpoolWrite(void) {return vfsStorage(vfsSpool, true);}
const Storage *storageLocal(void) {return vfsStorage(vfsLocal, false);}
const Storage *storageLocalWrite(void) {return vfsStorage(vfsLocal, true);}

static VfsFile *
vfsFind(const unsigned int storage, const String *const name)
{
    for (unsigned int i = 0; i < vfsTotal; i++)
        if (vfsFile[i].storage == storage && strEqZ(name, vfsFile[i].name))
            return &vfsFile[i];

    return NULL;
}

// Add a file (content NULL: does not exist)
static VfsFile *
vfsAdd(const unsigned int storage, const char *const name, const char *const content)
{
    VERIF_LIMIT(vfsTotal < VFS_MAX, "files of the model");
    vfsFile[vfsTotal] = (VfsFile){.name = name, .storage = storage, .content = content, .size = content == NULL ? 0 : strlen(content)};
    return &vfsFile[vfsTotal++];
}

bool
storageExists(const Storage *const this, const String *const pathExp, const StorageExistsParam param)
{
    if (vfsFault(vfsOpExists, pathExp))
        THROW(FileInfoError, "exists");

    const VfsFile *const file = vfsFind(this->id, pathExp);
    return file != NULL && file->content != NULL;
}

void
storageRemove(const Storage *const this, const String *const fileExp, const StorageRemoveParam param)
{
    CHECK_OB("storage is writable", this->write);

    if (vfsFault(vfsOpRemove, fileExp))
        THROW(FileRemoveError, "remove");

    VfsFile *const file = vfsFind(this->id, fileExp);

    if (file != NULL && file->content != NULL)
    {
        file->content = NULL;
        file->removed++;
    }
    else if (param.errorOnMissing)
        THROW(FileRemoveError, "missing");
}

struct StorageRead {unsigned int storage; const String *name; bool ignoreMissing;};
struct StorageWrite {StorageWritePub pub; unsigned int storage; const String *name; bool noTruncate;};

StorageRead *
storageNewRead(const Storage *const this, const String *const fileExp, const StorageNewReadParam param)
{
    StorageRead *const result = memNew(sizeof(StorageRead));
    *result = (StorageRead){.storage = this->id, .name = fileExp, .ignoreMissing = param.ignoreMissing};
    return result;
}

Buffer *
storageGet(StorageRead *const file, const StorageGetParam param)
{
    const VfsFile *const vfs = vfsFind(file->storage, file->name);

    if (vfsFault(vfsOpRead, file->name))
        THROW(FileReadError, "read");

    if (vfs == NULL || vfs->content == NULL)
    {
        if (!file->ignoreMissing)
            THROW(FileMissingError, "missing");

        return NULL;
    }

    BufferPub *const result = memNew(sizeof(BufferPub));
    *result = (BufferPub){.sizeAlloc = vfs->size, .size = vfs->size, .used = vfs->size, .buffer = (uint8_t *)vfs->content};
    return (Buffer *)result;
}

StorageWrite *
storageNewWrite(const Storage *const this, const String *const fileExp, const StorageNewWriteParam param)
{
    CHECK_OB("storage is writable", this->write);
    StorageWrite *const result = memNew(sizeof(StorageWrite));
    result->storage = this->id;
    result->name = fileExp;
    result->noTruncate = param.noTruncate;
    result->pub.io = (IoWrite *)result;
    return result;
}

static void
vfsPut(StorageWrite *const file, const Buffer *const buffer)
{
    VfsFile *vfs = vfsFind(file->storage, file->name);
    const size_t size = buffer == NULL ? 0 : bufUsed(buffer);

    if (vfsFault(vfsOpWrite, file->name))
        THROW(FileWriteError, "write");

    char *const content = memNew(size + 1);

    for (size_t i = 0; i < size; i++)
        content[i] = (char)bufPtrConst(buffer)[i];

    content[size] = 0;

    if (vfs == NULL)
        vfs = vfsAdd(file->storage, strZ(file->name), NULL);

    if (vfs->content == NULL || !file->noTruncate)
    {
        vfs->content = content;
        vfs->size = size;
    }

    vfs->written++;
}

void storagePut(StorageWrite *const file, const Buffer *const buffer) {vfsPut(file, buffer);}
static StorageWrite *vfsWriteOpen;
void ioWriteOpen(IoWrite *const this) {vfsWriteOpen = (StorageWrite *)this;}

void
ioWriteClose(IoWrite *const this)
{
    CHECK_OB("file is open", vfsWriteOpen == (StorageWrite *)this);
    vfsPut(vfsWriteOpen, NULL);
    vfsWriteOpen = NULL;
}

STRING_EXTERN(STORAGE_SPOOL_ARCHIVE_STR, STORAGE_SPOOL_ARCHIVE);
STRING_EXTERN(STORAGE_SPOOL_ARCHIVE_IN_STR, STORAGE_SPOOL_ARCHIVE_IN);
STRING_EXTERN(STORAGE_SPOOL_ARCHIVE_OUT_STR, STORAGE_SPOOL_ARCHIVE_OUT);
