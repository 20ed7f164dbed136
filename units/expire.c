// expire: exactly the backups and WAL outside retention are removed, and only in an order that leaves every listed backup usable
//@property C06
//@src src/command/expire/expire.c src/info/infoBackup.c
//@harness h_count0 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=0,DIFF=5
//@bound six backups (two full, two differential, two incremental), retention of no full, every differential retention
//@harness h_count1 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=5
//@bound six backups (two full, two differential, two incremental), retention 1 full, every differential retention
//@harness h_count2 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=2,DIFF=5
//@bound six backups (two full, two differential, two incremental), retention 2 full, every differential retention
//@harness h_count3 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=3,DIFF=5
//@bound six backups (two full, two differential, two incremental), retention 3 full, every differential retention
//@harness h_countOne unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=3,FULL=1,DIFF=4
//@bound four backups of one full, every differential retention
//@harness h_countPg unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,FULL=2,DIFF=3
//@bound five backups of two clusters
//@harness h_dry unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=2,DRY
//@bound as h_count1, dry run
//@harness h_fault0 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=2,FAULT=0
//@bound as h_count1, each operation may be the one that fails
//@harness h_fault1 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=2,FAULT=6
//@bound as h_count1, each operation may be the one that fails
//@harness h_fault2 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=2,FAULT=12
//@bound as h_count1, each operation may be the one that fails
//@harness h_time0 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,TIME=0
//@bound five or six backups, any number of full backups end before the limit, the next may end exactly at it
//@harness h_time1 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,TIME=3
//@bound five or six backups, any number of full backups end before the limit, the next may end exactly at it
//@harness h_time2 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,TIME=0
//@bound five or six backups, any number of full backups end before the limit, the next may end exactly at it
//@harness h_set0 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,SETMIN=0,SETMAX=2
//@bound six backups, each may be the requested one
//@harness h_set1 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,SETMIN=2,SETMAX=4
//@bound six backups, each may be the requested one
//@harness h_set2 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,SETMIN=4,SETMAX=6
//@bound six backups, each may be the requested one
//@harness h_setPg unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,SETMIN=2,SETMAX=5
//@bound five backups of two clusters, each may be the requested one
//@harness h_setOne unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=3,SETMIN=0,SETMAX=4
//@bound four backups of one full, each may be the requested one
//@harness h_oldest1 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,OLDEST=2
//@bound four to six backups, the oldest is requested
//@harness h_oldest2 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,OLDEST=2
//@bound four to six backups, the oldest is requested
//@harness h_oldest3 unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=3,OLDEST=2
//@bound four to six backups, the oldest is requested
//@harness h_resume unwind=100 kind=bounded funcs=cmdExpire,infoBackupDataDependentList,infoBackupDataDelete,infoBackupDataLabelList replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,FULL=1,DIFF=2,RESUME
//@bound as h_count1, the latest backup on disk is in progress and another is unknown
//@harness h_archiveF1 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=0,TYPE=0
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 full backups
//@harness h_archiveF2 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=10,TYPE=0
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 full backups
//@harness h_archiveD1 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=20,TYPE=1
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 differential backups
//@harness h_archiveD2 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=30,TYPE=1
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 differential backups
//@harness h_archiveI1 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=40,TYPE=2
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 incremental backups
//@harness h_archiveI2 unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=50,TYPE=2
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 incremental backups
//@harness h_archivePgF unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,ARCHIVE=2,ARCHIVE_SEED=60,TYPE=0
//@bound five backups of two clusters, several layouts of the WAL they need, archive retention of 1 to 4 full backups
//@harness h_archivePgD unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,ARCHIVE=2,ARCHIVE_SEED=70,TYPE=1
//@bound five backups of two clusters, several layouts of the WAL they need, archive retention of 1 to 4 differential backups
//@harness h_archivePgI unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,ARCHIVE=2,ARCHIVE_SEED=80,TYPE=2
//@bound five backups of two clusters, several layouts of the WAL they need, archive retention of 1 to 4 incremental backups
//@harness h_archiveOff unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=90,TYPE=2,OFFLINE
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 incremental backups, one backup is offline
//@harness h_archiveBefore unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=2,ARCHIVE_SEED=100,TYPE=1,BEFORE_SET
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 differential backups, expire before a segment is requested
//@harness h_archiveBeforePg unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=2,ARCHIVE=2,ARCHIVE_SEED=110,TYPE=1,BEFORE_SET
//@bound five backups of two clusters, several layouts of the WAL they need, archive retention of 1 to 4 differential backups, expire before a segment is requested
//@harness h_archiveDry unwind=100 kind=bounded funcs=cmdExpire,removeExpiredArchive,infoBackupDataDependentList,infoBackupDataLabelList,archiveIdComparator replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=1,ARCHIVE=1,ARCHIVE_SEED=120,TYPE=1,DRY
//@bound six backups, several layouts of the WAL they need, archive retention of 1 to 4 differential backups, dry run
//@harness h_history unwind=100 kind=bounded funcs=cmdExpire,removeExpiredHistory replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=3,HISTORY
//@bound two repositories with seven and two manifests in the history, either or both with history retention, and a dry run of both
//@harness h_historyFault unwind=100 kind=bounded funcs=cmdExpire,removeExpiredHistory replace=infoBackupLoadFileReconstruct,infoBackupSaveFile def=SET=3,HISTORY,HISTORY_FAULT
//@bound as h_history, the first or second removal fails
//@trust backupLabelFormat() by contract (formats a time as a label)
//@trust backupRegExp() and the regular expression engine by contract (type of a label is its last letter)
//@trust infoBackupLoadFileReconstruct(), infoBackupSaveFile(), infoArchiveLoadFile(), manifestLoadFile() by contract
//@creplace strResize
//@sys time strtol strtoll strtoull
//@cdef VLIST_MAX=8 VSTR_CAP=120 VIO_BYTE=2 VIO_READ=2
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.c"
#define VLIST_LATE
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "common/type/variant.c"
#include "vlib/vio.c"
#include "vlib/vcfg.c"
#include "vlib/strto.c"
#include "common/type/convert.c"
#include "info/infoPg.c"
#include "info/infoBackup.c"
#include "command/archive/common.c"
#include "command/expire/expire.c"

#undef VLIST_TYPES
#define VLIST_TYPES                                                 VLIST_TYPE(InfoBackupData) VLIST_TYPE(InfoPgData) VLIST_TYPE(ArchiveRange)
#include "vlib/vlistItem.c"

STRING_EXTERN(STORAGE_REPO_BACKUP_STR, STORAGE_REPO_BACKUP);
STRING_EXTERN(STORAGE_REPO_ARCHIVE_STR, STORAGE_REPO_ARCHIVE);
STRING_EXTERN(INFO_ARCHIVE_PATH_FILE_STR, INFO_ARCHIVE_PATH_FILE);

/***********************************************************************************************************************************
Backups of the repository
***********************************************************************************************************************************/
typedef struct Bk
{
    char type;
    int prior;
    unsigned int pg;
} Bk;

#define F1 "20250101-000000F"
#define F2 "20250201-000000F"
#define F3 "20250301-000000F"

#if SET == 1
#define BACKUP \
    BK(F1, 'F', -1, 1), BK(F1 "_20250102-000000D", 'D', 0, 1), BK(F1 "_20250103-000000I", 'I', 1, 1), \
    BK(F2, 'F', -1, 1), BK(F2 "_20250202-000000I", 'I', 3, 1), BK(F2 "_20250203-000000D", 'D', 3, 1),
#elif SET == 2
#define BACKUP \
    BK(F1, 'F', -1, 1), BK(F1 "_20250102-000000D", 'D', 0, 1), BK(F2, 'F', -1, 1), BK(F3, 'F', -1, 2), BK(F3 "_20250302-000000D", 'D', 3, 2),
#elif SET == 3
#define BACKUP \
    BK(F1, 'F', -1, 1), BK(F1 "_20250102-000000I", 'I', 0, 1), BK(F1 "_20250103-000000I", 'I', 1, 1), BK(F1 "_20250104-000000D", 'D', 0, 1),
#endif

#define BK(l, t, p, g)                                              {.size = sizeof(l) - 1, .buffer = l}
static const StringPubConst gLabel[] = {BACKUP};
#undef BK
#define BK(l, t, p, g)                                              {t, p, g}
static const Bk gBk[] = {BACKUP};
#undef BK
#define BK(l, t, p, g)                                              l
static const char *const gLabelZ[] = {BACKUP};

#define BK_TOTAL                                                    (sizeof(gBk) / sizeof(gBk[0]))

static bool gManifest[BK_TOTAL], gCopy[BK_TOTAL], gPath[BK_TOTAL];  // what is in the repository
static bool gListed[BK_TOTAL];                                      // in backup.info
static bool gDry, gSaved;
static InfoBackup gInfo; static InfoPg gPg; static List gBackupList, gPgList;

#if SET == 2
#define PG_TOTAL                                                    2
#else
#define PG_TOTAL                                                    1
#endif

// WAL of each cluster: two segments in each path, and timeline history files
#define WAL_PATH                                                    3
#define WAL_TOTAL                                                   6
#define HISTORY_TOTAL                                               2

static const char *const gWalPathZ[WAL_PATH] = {"0000000100000000", "0000000100000001", "0000000200000001"};
static const char *const gWalZ[WAL_TOTAL] =
{
    "000000010000000000000001-h", "000000010000000000000003-h.gz", "000000010000000100000001-h.gz", "000000010000000100000003-h",
    "000000020000000100000001-h", "000000020000000100000003.partial-h",
};
static const unsigned int gWalKey[WAL_TOTAL] = {101, 103, 111, 113, 211, 213};  // timeline, high, low
static const char *const gHistoryZ[HISTORY_TOTAL] = {"00000001.history", "00000002.history"};

static bool gWal[PG_TOTAL][WAL_TOTAL], gHistory[PG_TOTAL][HISTORY_TOTAL];

// Archive start and stop of each backup
static char gSegmentZ[BK_TOTAL * 2 + 1][25];
static StringPub gSegment[BK_TOTAL * 2 + 1];
static unsigned int gSegmentKey[BK_TOTAL * 2 + 1];
static bool gOnline[BK_TOTAL];

static void
segmentSet(const unsigned int idx, const unsigned int timeline, const unsigned int high, const unsigned int low)
{
    static const char base[25] = "000000010000000000000000";

    for (unsigned int i = 0; i < 25; i++)
        gSegmentZ[idx][i] = base[i];

    gSegmentZ[idx][7] = (char)('0' + timeline);
    gSegmentZ[idx][15] = (char)('0' + high);
    gSegmentZ[idx][23] = (char)('0' + low);
    gSegmentKey[idx] = timeline * 100 + high * 10 + low;
    gSegment[idx] = (StringPub){.size = 24, .buffer = gSegmentZ[idx]};
}

// i depends on (or is) j
static bool
depends(const int i, const int j)
{
    for (int k = i; k >= 0; k = gBk[k].prior)
        if (k == j)
            return true;

    return false;
}

/***********************************************************************************************************************************
Contracts
***********************************************************************************************************************************/
static const StringPubConst gRegExp[8] =
{
    {.size = 1, .buffer = "0"}, {.size = 1, .buffer = "1"}, {.size = 1, .buffer = "2"}, {.size = 1, .buffer = "3"},
    {.size = 1, .buffer = "4"}, {.size = 1, .buffer = "5"}, {.size = 1, .buffer = "6"}, {.size = 1, .buffer = "7"},
};

String *
backupRegExp(const BackupRegExpParam param)
{
    return (String *)&gRegExp[param.full * 1 + param.differential * 2 + param.incremental * 4];
}

struct RegExp {unsigned int type;};

RegExp *
regExpNew(const String *const expression)
{
    RegExp *const this = memNew(sizeof(RegExp));
    this->type = (unsigned int)(strZ(expression)[0] - '0');
    return this;
}

static unsigned int
labelType(const String *const label)
{
    const char last = strZ(label)[strSize(label) - 1];
    return last == 'F' ? 1 : last == 'D' ? 2 : 4;
}

bool regExpMatch(RegExp *const this, const String *const string) {return (this->type & labelType(string)) != 0;}
bool regExpMatchOne(const String *const expression, const String *const string) {return ((unsigned int)(strZ(expression)[0] - '0') & labelType(string)) != 0;}
void lockStopTest(void) {}
const Storage *storageRepo(void) {return storageRepoIdx(0);}

#ifdef REPLACE_infoBackupLoadFileReconstruct
InfoBackup *
infoBackupLoadFileReconstruct(const Storage *const storage, const String *const fileName, const CipherSpec *const cipherSpec)
{
    return &gInfo;
}
#endif

static bool gFailed; static unsigned int gOperation, gFault = UINT_MAX;       // operation that fails

static void
fault(void)
{
    if (gOperation++ == gFault)
    {
        gFailed = true;
        THROW(FileRemoveError, "");
    }
}

#ifdef REPLACE_infoBackupSaveFile
void
infoBackupSaveFile(InfoBackup *const infoBackup, const Storage *const storage, const String *const fileName, const CipherSpec *const cipherSpec)
{
    CHECK_OB("dry run changes nothing", !gDry);
#ifdef HISTORY
    CHECK_OB("backup.info is saved in a repository", storage->write && storage->id <= vioRepo + 1);
#else
    CHECK_OB("backup.info is saved in the repository", storage->write && storage->id == vioRepo);
#endif

    for (unsigned int i = 0; i < BK_TOTAL; i++)
        gListed[i] = infoBackupLabelExists(infoBackup, (const String *)&gLabel[i]);

    gSaved = true;
    fault();
}
#endif

// Backup that a path is in (and the rest of the path), or BK_TOTAL. Labels differ in month, day, and type.
static unsigned int
backupOf(const String *const path, const char **const rest)
{
    const char *const z = strZ(path);

    if (strSize(path) >= 30 && strncmp(z, "<REPO:BACKUP>/", 14) == 0)
    {
        for (unsigned int i = 0; i < BK_TOTAL; i++)
        {
            const size_t size = gLabel[i].size;

            if (z[14 + 5] == gLabelZ[i][5] && strSize(path) >= 14 + size && (z[14 + size] == 0 || z[14 + size] == '/') &&
                (size == 16 || z[14 + 17 + 7] == gLabelZ[i][17 + 7]) && strncmp(z + 14, gLabelZ[i], size) == 0)
            {
                *rest = z + 14 + size;
                return i;
            }
        }
    }

    return BK_TOTAL;
}

// Archive id, WAL path, and file of an archive path
static bool
archiveOf(const String *const path, unsigned int *const pg, const char **const rest)
{
    const char *const z = strZ(path);

    if (strSize(path) < 19 || strncmp(z, "<REPO:ARCHIVE>/12-", 18) != 0)
        return false;

    *pg = (unsigned int)(z[18] - '1');
    *rest = z + 19;
    return *pg < PG_TOTAL;
}

static unsigned int
walPathOf(const char *const z)
{
    for (unsigned int i = 0; i < WAL_PATH; i++)
        if (z[7] == gWalPathZ[i][7] && z[15] == gWalPathZ[i][15] && strncmp(z, gWalPathZ[i], 16) == 0)
            return i;

    return WAL_PATH;
}

#ifdef HISTORY
// Manifests in the history of each repository: which are out of retention
typedef struct Hist
{
    const char *year, *file;
    unsigned int repo;
    bool expire;
} Hist;

#define HIST_TOTAL                                                  9
#define HIST_MIN                                                    "20250205-000000F"

static const Hist gHist[HIST_TOTAL] =
{
    {"2023", "20230101-000000F.manifest.gz", 0, true},
    {"2025", F1 "_20250103-000000I.manifest.gz", 0, false},         // not expired
    {"2025", "20250105-000000F.manifest.gz", 0, true},
    {"2025", "20250204-000000F_20250207-000000D.manifest.gz", 0, true},
    {"2025", "20250205-000000F.manifest.gz", 0, false},             // oldest to keep
    {"2026", "20260101-000000F.manifest.gz", 0, false},
    {"2024", "20241231-000000F.manifest.gz", 1, true},
    {"2025", "20250104-000000F.manifest.gz", 1, true},
    {"2025", F1 ".manifest.gz", 1, false},                          // not expired
};

static bool gHistExists[HIST_TOTAL]; static bool gHistOption[2];

static const StringPubConst gGz = {.size = 2, .buffer = "gz"};

const String *
compressTypeStr(const CompressType type)
{
    CHECK_OB("history is compressed with gz", type == compressTypeGz);
    return (const String *)&gGz;
}

String *
backupLabelFormat(const BackupType type, const String *const backupLabelPrior, const time_t timestamp)
{
    CHECK_OB("limit is the retention period before now", type == backupTypeFull && backupLabelPrior == NULL && timestamp == 1750000000 - 130 * 86400);
    return strNewZ(HIST_MIN);
}

// Years of history are concrete: remove all that matches year and file
static bool
historyRemove(const Storage *const storage, const String *const path, const bool remove)
{
    const char *const z = strZ(path);

    if (strSize(path) < 33 || strncmp(z, "<REPO:BACKUP>/backup.history/", 29) != 0)
        return false;

    CHECK_OB("history paths are removed, or one manifest", remove == (strSize(path) > 33));
    CHECK_OB("history is removed after the backups", gSaved || gHistOption[0] || gHistOption[1]);

    for (unsigned int i = 0; i < HIST_TOTAL; i++)
        if (gHist[i].repo == storage->id - vioRepo && strncmp(z + 29, gHist[i].year, 4) == 0 && (!remove || strcmp(z + 34, gHist[i].file) == 0))
            gHistExists[i] = false;

    return true;
}
#endif

void
storageRemove(const Storage *const this, const String *const fileExp, const StorageRemoveParam param)
{
    CHECK_OB("dry run changes nothing", !gDry);

#ifdef HISTORY
    CHECK_OB("removed in a repository", this->write);

    if (historyRemove(this, fileExp, true))
    {
        fault();
        return;
    }
#endif

    CHECK_OB("removed in the repository", this->write && this->id == vioRepo);

    const char *rest;
    unsigned int pg;

    if (archiveOf(fileExp, &pg, &rest))
    {
        CHECK_OB("WAL is removed only after backup.info was saved", gSaved);

        if (strSize(fileExp) == 19 + 1 + 16)
        {
            const unsigned int h = (unsigned int)(rest[8] - '1');
            CHECK_OB("only history files are removed", h < HISTORY_TOTAL && strcmp(rest + 1, gHistoryZ[h]) == 0);
            gHistory[pg][h] = false;
        }
        else
        {
            const unsigned int path = walPathOf(rest + 1);
            CHECK_OB("only files in WAL paths are removed", path < WAL_PATH && rest[17] == '/');
            const unsigned int w = path * 2 + (rest[18 + 23] == '3');
            CHECK_OB("only WAL files are removed", strcmp(rest + 18, gWalZ[w]) == 0);
            gWal[pg][w] = false;
        }
    }
    else
    {
        const unsigned int i = backupOf(fileExp, &rest);
        CHECK_OB("only files of backups are removed one by one", i < BK_TOTAL);

        const bool manifest = strcmp(rest, "/backup.manifest") == 0;
        CHECK_OB("only manifests are removed one by one", manifest || strcmp(rest, "/backup.manifest.copy") == 0);

        for (unsigned int j = i + 1; j < BK_TOTAL; j++)
            if (depends((int)j, (int)i))
                CHECK_OB("a backup is invalidated only after all backups that depend on it", !gManifest[j]);

        CHECK_OB("backups are invalidated before they are dropped from backup.info", !gSaved);

        if (manifest)
            gManifest[i] = false;
        else
            gCopy[i] = false;
    }

    fault();
}

void
storagePathRemove(const Storage *const this, const String *const pathExp, const StoragePathRemoveParam param)
{
    CHECK_OB("dry run changes nothing", !gDry);

#ifdef HISTORY
    CHECK_OB("removed in a repository", this->write);

    if (historyRemove(this, pathExp, false))
    {
        fault();
        return;
    }
#endif

    CHECK_OB("removed in the repository", this->write && this->id == vioRepo);
    CHECK_OB("paths are removed with their content", param.recurse);

    const char *rest;
    unsigned int pg;

    if (archiveOf(pathExp, &pg, &rest))
    {
        CHECK_OB("WAL is removed only after backup.info was saved", gSaved);

        if (rest[0] == 0)
        {
            for (unsigned int w = 0; w < WAL_TOTAL; w++)
                gWal[pg][w] = false;
            for (unsigned int h = 0; h < HISTORY_TOTAL; h++)
                gHistory[pg][h] = false;
        }
        else
        {
            const unsigned int path = walPathOf(rest + 1);
            CHECK_OB("only WAL paths are removed", path < WAL_PATH && rest[17] == 0);
            gWal[pg][path * 2] = gWal[pg][path * 2 + 1] = false;
        }
    }
    else
    {
        const unsigned int i = backupOf(pathExp, &rest);
        CHECK_OB("only backups are removed", i < BK_TOTAL && rest[0] == 0);
        CHECK_OB("files of a backup are removed only after it was dropped from backup.info", gSaved && !gListed[i]);
        CHECK_OB("files of a backup are removed only after it was invalidated", !gManifest[i]);
        gPath[i] = false;
    }

    fault();
}

bool
storageExists(const Storage *const this, const String *const pathExp, const StorageExistsParam param)
{
    const char *rest;
    const unsigned int i = backupOf(pathExp, &rest);

    if (i < BK_TOTAL && strcmp(rest, "/backup.manifest") == 0)
        return gManifest[i];
    if (i < BK_TOTAL && strcmp(rest, "/backup.manifest.copy") == 0)
        return gCopy[i];

    return false;
}

StringList *
storageList(const Storage *const this, const String *const pathExp, const StorageListParam param)
{
    StringList *const result = strLstNew();

#ifdef HISTORY
    const char *const z = strZ(pathExp);

    if (strncmp(z, "<REPO:BACKUP>/backup.history", 28) == 0)
    {
        for (unsigned int i = 0; i < HIST_TOTAL; i++)
            if (gHistExists[i] && gHist[i].repo == this->id - vioRepo)
            {
                if (z[28] == 0)
                {
                    if (!strLstExists(result, strNewZ(gHist[i].year)))
                        strLstAddZ(result, gHist[i].year);
                }
                else if (strncmp(z + 29, gHist[i].year, 4) == 0)
                    strLstAddZ(result, gHist[i].file);
            }

        return result;
    }
#else
    CHECK_OB("the repository is listed", this->id == vioRepo);
#endif

    const char *rest;
    unsigned int pg;

    if (strEqZ(pathExp, "<REPO:BACKUP>"))
    {
        for (unsigned int i = 0; i < BK_TOTAL; i++)
            strLstAdd(result, (const String *)&gLabel[i]);
    }
    else if (strEqZ(pathExp, "<REPO:ARCHIVE>"))
    {
        for (unsigned int i = PG_TOTAL; i > 0; i--)
            strLstAddZ(result, i == 2 ? "12-2" : "12-1");
    }
    else if (archiveOf(pathExp, &pg, &rest))
    {
        if (rest[0] == 0)
        {
            const bool history = strEq(param.expression, WAL_TIMELINE_HISTORY_REGEXP_STR);
            CHECK_OB("history files or WAL paths are listed", history || strEqZ(param.expression, WAL_SEGMENT_DIR_REGEXP));

            for (unsigned int i = 0; i < (history ? HISTORY_TOTAL : WAL_PATH); i++)
                strLstAddZ(result, history ? gHistoryZ[i] : gWalPathZ[i]);
        }
        else
        {
            const unsigned int path = walPathOf(rest + 1);
            CHECK_OB("WAL paths are listed", path < WAL_PATH && rest[17] == 0);
            strLstAddZ(result, gWalZ[path * 2]);
            strLstAddZ(result, gWalZ[path * 2 + 1]);
        }
    }
    else
        CHECK_OB("known paths are listed", false);

    return result;
}

struct InfoArchive {InfoArchivePub pub;};
static struct InfoArchive gInfoArchive;

InfoArchive *
infoArchiveLoadFile(const Storage *const storage, const String *const fileName, const CipherSpec *const cipherSpec)
{
    return (InfoArchive *)&gInfoArchive;
}

String *storagePath(const Storage *const this, const String *const pathExp, const StoragePathParam param) {return (String *)pathExp;}

void
cfgOptionIdxSet(const ConfigOption optionId, const unsigned int optionIdx, const ConfigSource source, const Variant *const value)
{
    VcfgValue *const v = (VcfgValue *)vcfgGet(optionId, optionIdx);
    v->test = true;

    if (optionId == cfgOptRepoRetentionArchiveType)
    {
        CHECK_OB("archive retention type is full", strEqZ(varStr(value), "full"));
        v->u = backupTypeFull;
    }
    else
        v->u = (uint64_t)varInt64(value);
}

static const StringPubConst gVersionStr = {.size = 2, .buffer = "12"};
String *pgVersionToStr(const unsigned int version) {return (String *)&gVersionStr;}
const CipherSpec *cfgCipherSpecMainIdx(const unsigned int repoIdx) {return NULL;}
Manifest *manifestLoadFile(const Storage *const storage, const String *const fileName, const CipherSpec *const cipherSpec) {CHECK_OB("no manifest", false); return NULL;}
static bool gLinked; static unsigned int gLink;

void
backupLinkLatest(const String *const backupLabel, const unsigned int repoIdx)
{
    CHECK_OB("dry run changes nothing", !gDry);
    gLinked = true;
    gLink = 0;

    while (gLink < BK_TOTAL && !strEqZ(backupLabel, gLabelZ[gLink]))
        gLink++;
}


static bool vioOpen(StorageRead *const file, VioData *const data) {return false;}
static void vioWriteOpen(StorageWrite *const file) {}
static void vioWritten(StorageWrite *const file, const VioData *const data) {}

/***********************************************************************************************************************************
Harness
***********************************************************************************************************************************/
#ifndef FULL
#define FULL                                                        0
#endif

#define TIME_NOW                                                    1750000000
#define TIME_LIMIT                                                  (TIME_NOW - 3 * 86400)

time_t verif_sys_time(time_t *const t) {return TIME_NOW;}

static time_t gTime[BK_TOTAL];

static void
setup(void)
{
    gInfo.pub.backup = lstNewP(sizeof(InfoBackupData), .comparator = lstComparatorStr);

    for (unsigned int i = 0; i < BK_TOTAL; i++)
    {
        gManifest[i] = gCopy[i] = gPath[i] = gListed[i] = true;

#ifdef RESUME
        if (i == BK_TOTAL - 1 || i == BK_TOTAL - 2)
        {
            gListed[i] = gManifest[i] = false;
            gCopy[i] = i == BK_TOTAL - 1;
            continue;
        }
#endif

        InfoBackupData data = {0};
        data.backupLabel = (const String *)&gLabel[i];
        data.backupPrior = gBk[i].prior < 0 ? NULL : (const String *)&gLabel[gBk[i].prior];
        data.backupPgId = gBk[i].pg;
        data.backupType = gBk[i].type == 'F' ? backupTypeFull : gBk[i].type == 'D' ? backupTypeDiff : backupTypeIncr;
        data.backupTimestampStop = gTime[i];

        if (gOnline[i])
        {
            data.backupArchiveStart = (const String *)&gSegment[i * 2];
            data.backupArchiveStop = (const String *)&gSegment[i * 2 + 1];
        }

        lstAdd(gInfo.pub.backup, &data);
    }

    gPg.pub.history = lstNewP(sizeof(InfoPgData));
    gPg.historyCurrent = 0;

    for (unsigned int i = PG_TOTAL; i > 0; i--)
    {
        const InfoPgData data = {.id = i, .version = 120000, .systemId = 1000 + i, .catalogVersion = 5, .controlVersion = 6};
        lstAdd(gPg.pub.history, &data);

        for (unsigned int w = 0; w < WAL_TOTAL; w++)
            gWal[i - 1][w] = true;
        for (unsigned int h = 0; h < HISTORY_TOTAL; h++)
            gHistory[i - 1][h] = true;
    }

    gInfo.pub.infoPg = gInfoArchive.pub.infoPg = &gPg;

    gSaved = gFailed = gLinked = false;
    gOperation = 0;

    vcfgTotal = 0;
    vcfgNone(cfgOptRepo, 0);
    vcfgU(cfgOptDryRun, 0, gDry);
    vcfgU(cfgOptOldest, 0, false);
    vcfgNone(cfgOptSet, 0);
    vcfgNone(cfgOptArchiveExpireBefore, 0);
    vcfgU(cfgOptRepoRetentionFullType, 0, CFGOPTVAL_REPO_RETENTION_FULL_TYPE_COUNT);
    vcfgNone(cfgOptRepoRetentionFull, 0);
    vcfgNone(cfgOptRepoRetentionDiff, 0);
    vcfgU(cfgOptRepoRetentionArchiveType, 0, backupTypeFull);
    vcfgNone(cfgOptRepoRetentionArchive, 0);
    vcfgNone(cfgOptRepoRetentionHistory, 0);
}

static void
option(const ConfigOption option, const uint64_t value)
{
    VcfgValue *const v = (VcfgValue *)vcfgGet(option, 0);
    v->u = value;
    v->test = true;
}

// Drop a backup and all that depend on it
static void
drop(bool *const keep, const unsigned int idx)
{
    for (unsigned int j = 0; j < BK_TOTAL; j++)
        if (depends((int)j, (int)idx))
            keep[j] = false;
}

static void
keepAll(bool *const keep)
{
    for (unsigned int i = 0; i < BK_TOTAL; i++)
        keep[i] = gListed[i];
}

// Keep the newest full backups, the newest differential backups (full backups count), and what depends on them
static void
keepCount(bool *const keep, const unsigned int full, const unsigned int diff)
{
    unsigned int total = 0;

    for (unsigned int i = BK_TOTAL; i > 0; i--)
        if (keep[i - 1] && gBk[i - 1].type == 'F')
        {
            total++;

            if (full > 0 && total > full)
                drop(keep, i - 1);
        }

    total = 0;

    for (unsigned int i = BK_TOTAL; i > 0; i--)
        if (keep[i - 1] && gBk[i - 1].type != 'I')
        {
            total++;

            if (diff > 0 && total > diff && gBk[i - 1].type == 'D')
                drop(keep, i - 1);
        }
}

static unsigned int
fullTotal(void)
{
    unsigned int result = 0;

    for (unsigned int i = 0; i < BK_TOTAL; i++)
        if (gListed[i] && gBk[i].type == 'F')
            result++;

    return result;
}

// Segments where a backup may start or stop: on, between, and after the ones in the archive
#define POINT_TOTAL                                                 12
static const unsigned int gPoint[POINT_TOTAL][3] =
    {{1, 0, 0}, {1, 0, 1}, {1, 0, 2}, {1, 0, 3}, {1, 0, 4}, {1, 1, 0}, {1, 1, 1}, {1, 1, 2}, {1, 1, 3}, {2, 1, 1}, {2, 1, 2}, {2, 1, 3}};

static unsigned int gSeed;

static unsigned int
pick(const unsigned int total)
{
    gSeed = gSeed * 1103515245 + 12345;
    return (gSeed >> 16) % total;
}

static void
pointSet(const unsigned int idx, unsigned int point)
{
    if (point >= POINT_TOTAL)
        point = POINT_TOTAL - 1;

    segmentSet(idx, gPoint[point][0], gPoint[point][1], gPoint[point][2]);
}

// Give each backup a start and stop, in the order they were made
static void
layout(const unsigned int seed)
{
    gSeed = seed;
    unsigned int start = pick(3);

    for (unsigned int i = 0; i < BK_TOTAL; i++)
    {
        gOnline[i] = true;
        pointSet(i * 2, start);
        pointSet(i * 2 + 1, start + pick(3));
        start += pick(4);

#if SET == 2
        if (i == 2)
            start = pick(3);
#endif
    }
}

static unsigned int gArchive, gArchiveType; static bool gBefore;
#define BEFORE                                                      (BK_TOTAL * 2)

// WAL that is needed: from the start of the oldest backup in archive retention on, and what older backups need to be consistent
static void
archiveCheck(const bool *const keep, const bool error)
{
    // Backups that count for archive retention, newest first
    unsigned int list[BK_TOTAL], total = 0;

    for (unsigned int i = BK_TOTAL; i > 0; i--)
        if (keep[i - 1] && (gBk[i - 1].type == 'F' || (gBk[i - 1].type == 'D' && gArchiveType > 0) || gArchiveType > 1))
            list[total++] = i - 1;

    for (unsigned int pg = 0; pg < PG_TOTAL; pg++)
    {
        bool expire = false, all = false, open = false;
        unsigned int ret = BK_TOTAL;

        if (gArchive > 0 && (gBefore || (total > 0 && gArchive <= total)))
        {
            unsigned int newest = BK_TOTAL;

            for (unsigned int i = 0; i < total; i++)
                if (gBk[list[i]].pg == pg + 1)
                {
                    if (newest == BK_TOTAL)
                        newest = list[i];

                    if (i < gArchive)
                        ret = list[i];
                }

            if (ret == BK_TOTAL)
                ret = newest;

            if (ret != BK_TOTAL)
                expire = gOnline[ret];
            else if (pg + 1 != PG_TOTAL)
                all = true;
            else
                open = gBefore;
        }

        for (unsigned int w = 0; w < WAL_TOTAL; w++)
        {
            bool needed = !all;

            if (open)
                needed = gWalKey[w] >= gSegmentKey[BEFORE];

            if (expire)
            {
                needed = gWalKey[w] >= gSegmentKey[ret * 2];

                for (unsigned int i = 0; i < ret; i++)
                    if (keep[i] && gBk[i].pg == pg + 1 && gOnline[i])
                        needed = needed || (gWalKey[w] >= gSegmentKey[i * 2] && gWalKey[w] <= gSegmentKey[i * 2 + 1]);

                if (gBefore)
                    needed = needed || gWalKey[w] >= gSegmentKey[BEFORE];
            }

            CHECK_OB("WAL needed by a backup in retention is kept", gWal[pg][w] || (needed == false && !gDry));

            if (!error && !gDry)
                CHECK_OB("WAL not needed by any backup in retention is removed", !gWal[pg][w] || needed);
        }

        for (unsigned int h = 0; h < HISTORY_TOTAL; h++)
        {
            const bool needed = !all && (!expire || h + 1 >= gSegmentKey[ret * 2] / 100);
            CHECK_OB("history of a timeline in retention is kept", gHistory[pg][h] || (needed == false && !gDry));

            if (!error && !gDry)
                CHECK_OB("history of an older timeline is removed", !gHistory[pg][h] || needed);
        }
    }
}

static void
run(const bool *const keep, const bool refused)
{
    bool error = false;

    TRY_BEGIN()
    {
        cmdExpire();
    }
    CATCH_ANY()
    {
        error = true;
    }
    TRY_END();

    archiveCheck(keep, error);
    CHECK_OB("error exactly when an operation failed or the request was refused", error == (gFailed || refused));

    for (unsigned int i = 0; i < BK_TOTAL; i++)
    {
        if (keep[i])
        {
            CHECK_OB("backup in retention is kept", gManifest[i] && gCopy[i] && gPath[i]);
            CHECK_OB("backup in retention stays listed", gListed[i]);
        }
#ifdef RESUME
        else if (i == BK_TOTAL - 1)
            CHECK_OB("backup in progress is kept", gPath[i] && gCopy[i] && !gListed[i]);
#endif
        else if (gDry)
            CHECK_OB("dry run changes nothing", gManifest[i] && gCopy[i] && gPath[i] && gListed[i]);
        else if (!error)
        {
            CHECK_OB("backup out of retention is invalidated", !gManifest[i] && !gCopy[i]);
            CHECK_OB("files of a backup out of retention are removed", !gPath[i]);
            CHECK_OB("backup out of retention is not listed", !gListed[i]);
        }

        // A listed backup with a manifest has all it depends on
        for (int j = gBk[i].prior; j >= 0; j = gBk[j].prior)
            CHECK_OB("no usable backup depends on a removed one", !gListed[i] || !gManifest[i] || (gListed[j] && gManifest[j] && gPath[j]));
    }
}

static void
runCount(const unsigned int full, const unsigned int diff)
{
    setup();

    if (full > 0)
        option(cfgOptRepoRetentionFull, full);
    if (diff > 0)
        option(cfgOptRepoRetentionDiff, diff);

    bool keep[BK_TOTAL];
    keepAll(keep);
    keepCount(keep, full, diff);
    run(keep, false);
}

#if defined(TIME)
static void
runTime(const unsigned int combination)
{
    // Full backups before the combination-th end before the limit, the one before the limit may end exactly there
    unsigned int full = 0;

    for (unsigned int i = 0; i < BK_TOTAL; i++)
    {
        if (gBk[i].type == 'F')
        {
            const unsigned int old = combination / 2;
            gTime[i] = full < old ? TIME_LIMIT - 1 : full == old && combination % 2 == 0 ? TIME_LIMIT : TIME_LIMIT + 1;
            full++;
        }
        else
            gTime[i] = TIME_LIMIT - 5;
    }

    layout(200 + combination);
    setup();
    option(cfgOptRepoRetentionFullType, CFGOPTVAL_REPO_RETENTION_FULL_TYPE_TIME);
    option(cfgOptRepoRetentionFull, 3);

    // All backups from the newest full backup that is older than the limit on are kept
    bool keep[BK_TOTAL];
    keepAll(keep);
    bool found = false;

    for (unsigned int i = BK_TOTAL; i > 0; i--)
    {
        if (found)
            keep[i - 1] = false;

        if (gBk[i - 1].type == 'F' && gTime[i - 1] < TIME_LIMIT)
            found = true;
    }

    // WAL is kept for the full backups that are kept, and all of it when none is old enough
    gArchive = 0;
    gArchiveType = 0;

    if (found)
        for (unsigned int i = 0; i < BK_TOTAL; i++)
            gArchive += keep[i] && gBk[i].type == 'F';

    run(keep, false);
}
#elif defined(SETMIN)
static void
runSet(const unsigned int idx)
{
    setup();
    VcfgValue *const v = (VcfgValue *)vcfgGet(cfgOptSet, 0);
    v->str = (const String *)&gLabel[idx];
    v->test = true;
    option(cfgOptRepoRetentionFull, 1);                             // not used

    bool keep[BK_TOTAL];
    keepAll(keep);

    // The newest full backup may be removed only when another of the same cluster remains
    unsigned int newer = 0;

    for (unsigned int i = idx + 1; i < BK_TOTAL; i++)
        newer += gBk[i].type == 'F';

    int prior = -1;

    for (unsigned int i = 0; i < idx; i++)
        if (gBk[i].type == 'F')
            prior = (int)i;

    const bool refused = gBk[idx].type == 'F' && newer == 0 && (prior < 0 || gBk[prior].pg != gBk[idx].pg);

    if (!refused)
        drop(keep, idx);

    run(keep, refused);

    unsigned int last = BK_TOTAL;

    for (unsigned int i = 0; i < BK_TOTAL; i++)
        if (keep[i])
            last = i;

    CHECK_OB("the latest link is moved exactly when the latest backup is removed", gLinked == !keep[BK_TOTAL - 1]);
    CHECK_OB("the latest link names the latest backup kept", !gLinked || gLink == last);
}
#elif defined(OLDEST)
static void
runOldest(const bool time, const unsigned int seed)
{
    layout(300 + seed);
    setup();
    option(cfgOptOldest, true);
    option(cfgOptRepoRetentionFull, 9);

    if (time)
        option(cfgOptRepoRetentionFullType, CFGOPTVAL_REPO_RETENTION_FULL_TYPE_TIME);

    bool keep[BK_TOTAL];
    keepAll(keep);

    gArchive = gArchiveType = 0;

    if (fullTotal() > 1)
    {
        gArchive = fullTotal() - 1;
        keepCount(keep, gArchive, 0);
    }
    else if (time)
        gArchive = 1;                                               // the one full backup is older than the limit

    run(keep, false);
}
#endif

#ifdef HISTORY
static void
runHistory(void)
{
    setup();
    vcfgRepoTotal = 2;

    for (unsigned int i = 0; i < HIST_TOTAL; i++)
        gHistExists[i] = true;

    vcfgU(cfgOptRepoRetentionFullType, 1, CFGOPTVAL_REPO_RETENTION_FULL_TYPE_COUNT);
    vcfgNone(cfgOptRepoRetentionFull, 1);
    vcfgNone(cfgOptRepoRetentionDiff, 1);
    vcfgU(cfgOptRepoRetentionArchiveType, 1, backupTypeFull);
    vcfgNone(cfgOptRepoRetentionArchive, 1);
    vcfgNone(cfgOptRepoRetentionHistory, 1);

    for (unsigned int repo = 0; repo < 2; repo++)
        if (gHistOption[repo])
        {
            VcfgValue *const v = (VcfgValue *)vcfgGet(cfgOptRepoRetentionHistory, repo);
            v->test = true;
            v->u = 130;
        }

    bool keep[BK_TOTAL];
    keepAll(keep);
    run(keep, false);

    for (unsigned int i = 0; i < HIST_TOTAL; i++)
    {
        CHECK_OB("history in retention is kept", gHistExists[i] || (gHist[i].expire && gHistOption[gHist[i].repo]));

        if (!gDry && !gFailed)
            CHECK_OB("history out of retention is removed", !gHistExists[i] || !gHist[i].expire || !gHistOption[gHist[i].repo]);
    }
}
#endif

#ifdef ARCHIVE
static const StringId gTypeId[3] = {backupTypeFull, backupTypeDiff, backupTypeIncr};

static void
runArchive(const unsigned int seed, const unsigned int archive)
{
    layout(seed);

#ifdef OFFLINE
    gOnline[seed % BK_TOTAL] = false;
#endif

    gArchive = archive;
    gArchiveType = TYPE;
    setup();
    option(cfgOptRepoRetentionArchive, archive);
    option(cfgOptRepoRetentionArchiveType, gTypeId[TYPE]);

#ifdef BEFORE_SET
    pointSet(BEFORE, pick(POINT_TOTAL));
    gBefore = true;
    VcfgValue *const v = (VcfgValue *)vcfgGet(cfgOptArchiveExpireBefore, 0);
    v->str = (const String *)&gSegment[BEFORE];
    v->test = true;
#endif

    bool keep[BK_TOTAL];
    keepAll(keep);
    run(keep, false);
}
#endif

static void
harness(void)
{
    verif_fault_enabled = false;

#ifdef DRY
    gDry = true;
#endif

#if defined(HISTORY)
    for (unsigned int i = 1; i < 4; i++)
    {
        gHistOption[0] = i % 2;
        gHistOption[1] = i / 2;

#ifdef HISTORY_FAULT
        gFault = i % 2;
#else
        runHistory();
        gDry = i == 3;

        if (gDry)
#endif
        runHistory();
        gDry = false;
    }
#elif defined(ARCHIVE)
    for (unsigned int seed = 0; seed < ARCHIVE; seed++)
        for (unsigned int archive = 1; archive < 5; archive++)
            runArchive(ARCHIVE_SEED + seed, archive);
#elif defined(TIME)
    for (unsigned int c = TIME; c < TIME + 3; c++)
        runTime(c);
#elif defined(SETMIN)
    for (unsigned int i = SETMIN; i < SETMAX; i++)
        runSet(i);
#elif defined(OLDEST)
    for (unsigned int seed = 0; seed < OLDEST; seed++)
        runOldest(seed % 2, seed);
#elif defined(FAULT)
    for (unsigned int i = FAULT; i < FAULT + 6; i++)
    {
        gFault = i;
        runCount(FULL, 2);
    }
#else
    for (unsigned int diff = 0; diff < DIFF; diff++)
        runCount(FULL, diff);
#endif

    COVER("end");
}

void h_count0(void) {harness();}
void h_count1(void) {harness();}
void h_count2(void) {harness();}
void h_count3(void) {harness();}
void h_countOne(void) {harness();}
void h_countPg(void) {harness();}
void h_dry(void) {harness();}
void h_fault0(void) {harness();}
void h_fault1(void) {harness();}
void h_fault2(void) {harness();}
void h_time0(void) {harness();}
void h_time1(void) {harness();}
void h_time2(void) {harness();}
void h_set0(void) {harness();}
void h_set1(void) {harness();}
void h_set2(void) {harness();}
void h_setPg(void) {harness();}
void h_setOne(void) {harness();}
void h_oldest1(void) {harness();}
void h_oldest2(void) {harness();}
void h_oldest3(void) {harness();}
void h_resume(void) {harness();}
void h_archiveF1(void) {harness();}
void h_archiveF2(void) {harness();}
void h_archiveD1(void) {harness();}
void h_archiveD2(void) {harness();}
void h_archiveI1(void) {harness();}
void h_archiveI2(void) {harness();}
void h_archivePgF(void) {harness();}
void h_archivePgD(void) {harness();}
void h_archivePgI(void) {harness();}
void h_archiveOff(void) {harness();}
void h_archiveBefore(void) {harness();}
void h_archiveBeforePg(void) {harness();}
void h_archiveDry(void) {harness();}

void h_history(void) {harness();}
void h_historyFault(void) {harness();}
