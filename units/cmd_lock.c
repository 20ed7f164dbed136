// Command locks: a command runs only while it holds the lock of every repository and lock type it needs
//@property C14
//@src src/command/lock.c
//@harness h_acquire unwind=40 kind=bounded funcs=cmdLockAcquire,cmdLockList,cmdLockRelease def=TYPE=lockTypeArchive
//@harness h_acquire_backup unwind=40 kind=bounded funcs=cmdLockAcquire,cmdLockList,cmdLockRelease def=TYPE=lockTypeBackup
//@harness h_acquire_restore unwind=40 kind=bounded funcs=cmdLockAcquire,cmdLockList,cmdLockRelease def=TYPE=lockTypeRestore
//@harness h_acquire_all unwind=40 kind=bounded funcs=cmdLockAcquire,cmdLockList,cmdLockRelease def=TYPE=lockTypeAll
//@bound one or two repositories, each lock type, with and without --repo; each lock in turn that cannot be acquired
//@harness h_option unwind=40 kind=bounded funcs=cmdLockAcquire,cmdLockRelease
//@bound two lock names given by the main process
//@harness h_own unwind=70 kind=bounded funcs=cmdLockOwn,cmdLockRead
//@bound two repositories; every state of the lock files
//@harness h_write unwind=40 kind=bounded funcs=cmdLockWrite
//@bound second of two repositories
//@trust lockAcquire/lockRelease/lockRead/lockWrite by contract (verified in unit lock)
//@creplace strResize strEq
//@cdef VLIST_MAX=8
#include "vlib/core.c"
#include "vlib/libc.c"

#include "vlib/vstring.c"
#include "common/type/buffer.h"

#ifdef VERIF_CBMC
// Contract of strEq (loop bound concrete for the verifier)
bool
strEq(const String *const this, const String *const compare)
{
    if (this == NULL || compare == NULL)
        return this == NULL && compare == NULL;

    if (strSize(this) != strSize(compare))
        return false;

    VERIF_LIMIT(strSize(this) <= 8, "exec id longer than the model's");
    bool result = true;

    for (unsigned int i = 0; i < 8; i++)
        result = result && (i >= strSize(this) || strZ(this)[i] == strZ(compare)[i]);

    return result;
}
#endif
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "vlib/vcfg.c"
#include "common/lock.h"

// ---- locks held by this process (contract of common/lock.c)
#define NAME_MAX_TEST                                               6
static const char *const gName[NAME_MAX_TEST] = {
    "st-archive-1.lock", "st-archive-2.lock", "st-backup-1.lock", "st-backup-2.lock", "st-restore-1.lock", "st-restore-2.lock"};
static bool gHeld[NAME_MAX_TEST], gNeed[NAME_MAX_TEST], gThrow;
static bool gNoLock;
static int gCall, gFail;                                            // calls of lockAcquire() so far; the one that fails
static LockReadResult gRead[NAME_MAX_TEST];
static unsigned int gWritten[NAME_MAX_TEST];

static unsigned int
nameId(const String *const name)
{
    for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
        if (strEqZ(name, gName[i]))
            return i;

    CHECK_OB("lock file is named for the stanza, the lock type and the repository", false);
    ASSUME(false);
    return 0;
}

bool
lockAcquire(const String *const lockFileName, const LockAcquireParam param)
{
    const unsigned int id = nameId(lockFileName);
    CHECK_OB("only the locks the command needs are acquired", gNeed[id]);
    CHECK_OB("a lock is not acquired twice", !gHeld[id]);
    CHECK_OB("option to continue without lock is passed on", param.returnOnNoLock == gNoLock);

    const bool busy = gCall++ == gFail;

    if (!busy)
        gHeld[id] = true;
    else if (!param.returnOnNoLock)
    {
        gThrow = true;
        THROW(LockAcquireError, "busy");
    }

    return !busy;
}

bool
lockRelease(const LockReleaseParam param)
{
    bool result = false;

    for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
    {
        result = result || gHeld[i];
        gHeld[i] = false;
    }

    CHECK_OB("locks that are not held are not released", result || param.returnOnNoLock);
    return result;
}

static const StringPubConst gExecId = {.size = 4, .buffer = "1-me"};
const String *lockExecId(void) {return (const String *)&gExecId;}
LockReadResult lockRead(const String *const lockFileName, const LockReadParam param) {CHECK_OB("reading leaves the lock alone", !param.remove); return gRead[nameId(lockFileName)];}
void lockWrite(const String *const lockFileName, const LockWriteParam param) {gWritten[nameId(lockFileName)]++;}

struct Variant {const String *str;};
const String *varStr(const Variant *const this) {return this->str;}

static LockType gLockType;
LockType cfgLockType(void) {return gLockType;}

#include "command/lock.c"

static const StringPubConst gStanza = {.size = 2, .buffer = "st"}, gExecMe = {.size = 4, .buffer = "1-me"}, gExecNo = {.size = 4, .buffer = "2-no"};

static void
reset(const LockType lockType, const unsigned int repoTotal, const int repo)
{
    gLockType = lockType;
    vcfgTotal = 0;
    vcfgRepoTotal = repoTotal;
    vcfgRepoDefault = repo < 0 ? 0 : (unsigned int)repo;
    vcfgStr(cfgOptStanza, 0, (const String *)&gStanza);
    vcfgNew(cfgOptRepo, 0)->test = repo >= 0;
    vcfgNone(cfgOptLock, 0);

    for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
    {
        gHeld[i] = false;
        gNeed[i] =
            (lockType == lockTypeAll || (unsigned int)lockType == i / 2) && i % 2 < repoTotal && (repo < 0 || (unsigned int)repo == i % 2);
    }

    gThrow = false;
    gCall = 0;
    gFail = -1;
}

static void
acquire(void)
{
    TRY_BEGIN()
    {
        const bool result = cmdLockAcquireP(.returnOnNoLock = gNoLock);

        for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
        {
            CHECK_OB("success only when every lock the command needs is held", !result || gHeld[i] == gNeed[i]);
            CHECK_OB("no lock is kept when they could not all be acquired", result || !gHeld[i]);
        }

        CHECK_OB("not acquired without error only when requested", result || gNoLock);
        COVER("called");

        if (result)
        {
            // Again is an error and changes nothing
            bool again = false;

            TRY_BEGIN()
            {
                cmdLockAcquireP(.returnOnNoLock = gNoLock);
            }
            CATCH_FATAL()
            {
                again = true;
            }
            TRY_END();

            CHECK_OB("locks are acquired once", again);

            CHECK_OB("locks are released", cmdLockReleaseP());

            for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
                CHECK_OB("all locks are released", !gHeld[i]);

            COVER("released");
        }

        CHECK_OB("nothing is left to release", cmdLockReleaseP(.returnOnNoLock = true));
    }
    CATCH_ANY()
    {
        CHECK_OB("error only when a lock could not be acquired", gThrow);
        CHECK_OB("a lock that is busy is no error when requested", !gNoLock);
        COVER("error");
    }
    TRY_END();
}

#ifdef TYPE
// One repository; both repositories; --repo=1; --repo=2
static void
run(void)
{
    for (unsigned int c = 0; c < 4; c++)
    {
        for (unsigned int noLock = 0; noLock < (TYPE == lockTypeAll ? 1 : 2); noLock++)
        {
            for (int fail = -1; fail < (c == 1 ? 2 : 1) * (TYPE == lockTypeAll ? 3 : 1); fail++)
            {
                reset(TYPE, c == 0 ? 1 : 2, c < 2 ? -1 : (int)c - 2);
                cmdLockLocal.held = false;
                gNoLock = noLock;
                gFail = fail;
                acquire();
            }
        }
    }
}

void h_acquire(void) {run();}
void h_acquire_backup(void) {run();}
void h_acquire_restore(void) {run();}
void h_acquire_all(void) {run();}
#endif

void
h_option(void)
{
    static struct Variant variant[2];
    variant[0].str = STRDEF("st-archive-2.lock");
    variant[1].str = STRDEF("st-backup-1.lock");
    List *const list = lstNewP(sizeof(Variant *));

    for (unsigned int i = 0; i < 2; i++)
    {
        const Variant *const v = &variant[i];
        lstAdd(list, &v);
    }

    for (int fail = -1; fail < 2; fail++)
    {
        reset(lockTypeAll, 2, -1);
        cmdLockLocal.held = false;
        gFail = fail;

        for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
            gNeed[i] = i == 1 || i == 2;

        vcfgTotal--;
        vcfgPtr(cfgOptLock, 0, list);
        acquire();
    }
}

void
h_own(void)
{
    for (unsigned int k = 0; k < 64; k++)
    {
        bool own = false;
        reset(lockTypeArchive, 2, -1);

        for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
        {
            const unsigned int state = i == 0 ? k % 8 : i == 1 ? k / 8 : 7;
            gRead[i].status = (LockReadStatus)(state / 2);
            gRead[i].data.execId = gRead[i].status != lockReadStatusValid ? NULL : (const String *)(state % 2 ? &gExecMe : &gExecNo);
            gRead[i].data.processId = (pid_t)i;
            own = own || (i < 2 && state == 7);
        }

        CHECK_OB("own process is found exactly when it holds a lock", cmdLockOwn() == own);
        COVER("own");
    }

    for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
        gRead[i].data.processId = (pid_t)i;

    for (unsigned int i = 0; i < 2; i++)
    {
        CHECK_OB("lock of the stanza, type and repository is read", cmdLockRead(lockTypeBackup, STRDEF("st"), i).data.processId == (pid_t)(2 + i));
        CHECK_OB("lock of the stanza, type and repository is read", cmdLockRead(lockTypeRestore, STRDEF("st"), i).data.processId == (pid_t)(4 + i));
    }
}

void
h_write(void)
{
    reset(lockTypeBackup, 2, 1);
    cmdLockWriteP();

    for (unsigned int i = 0; i < NAME_MAX_TEST; i++)
        CHECK_OB("progress is written to the lock of the repository", gWritten[i] == (i == 3));

    COVER("written");
}
