// Stop files: commands of a stopped stanza do not run, and stop --force signals only processes of the stanza that hold a lock
//@property C22
//@src src/command/control/common.c src/command/control/stop.c src/command/control/start.c
//@sys kill
//@harness h_test unwind=60 kind=bounded funcs=lockStopTest,lockStopFileName
//@bound every combination of stanza given or not and of stop files of the stanza, of all stanzas and of another stanza
//@harness h_stop unwind=60 kind=bounded funcs=cmdStop,cmdStart,lockStopTest,lockStopFileName
//@bound stop of a stanza and of all stanzas, with and without --force, with four lock files in every state
//@harness h_fault unwind=60 kind=bounded funcs=cmdStop,cmdStart
//@bound each storage operation failing in turn
//@trust storage by contract (vlib/vfs.c); lockRead by contract (verified in unit lock)
//@creplace strResize
//@cdef VFS_MAX=8 VLIST_MAX=8
#include <signal.h>
#include "vlib/core.c"
#include "vlib/libc.c"
#include "vlib/vstring.c"
#include "common/type/buffer.c"
#include "vlib/vlist.c"
#include "common/type/stringList.c"
#include "vlib/vfs.c"
#include "vlib/vcfg.c"
#include "common/lock.h"

static unsigned int gOp, gFault;
static bool gPath;                                                  // lock path exists

static bool vfsFault(const VfsOp op, const String *const name) {return ++gOp == gFault;}

void
storagePathCreate(const Storage *const this, const String *const pathExp, const StoragePathCreateParam param)
{
    CHECK_OB("path created is the lock path", strEqZ(pathExp, "/l"));

    if (++gOp == gFault)
        THROW(PathCreateError, "create");

    gPath = true;
}

// ---- lock files
#define LOCK_TOTAL                                                  5
static const char *const gLock[LOCK_TOTAL] = {"st-archive-1.lock", "st-backup-1.lock", "st2-backup-1.lock", "st-x.stop", "x-st-archive-1.lock"};
static bool gLockExists[LOCK_TOTAL];
static LockReadResult gLockRead[LOCK_TOTAL];
static bool gLockRemoved[LOCK_TOTAL];
static unsigned int gSignal[LOCK_TOTAL];                            // signals sent to the process of each lock
static bool gStopWritten(void);

StringList *
storageList(const Storage *const this, const String *const pathExp, const StorageListParam param)
{
    CHECK_OB("files of the lock path are listed", strEqZ(pathExp, "/l") && param.expression == NULL);
    StringList *const result = strLstNew();

    if (++gOp == gFault)
        THROW(PathOpenError, "list");

    for (unsigned int i = LOCK_TOTAL; i > 0; i--)
        if (gLockExists[i - 1])
            strLstAddZ(result, gLock[i - 1]);

    return result;
}

LockReadResult
lockRead(const String *const lockFileName, const LockReadParam param)
{
    for (unsigned int i = 0; i < LOCK_TOTAL; i++)
    {
        if (strEqZ(lockFileName, gLock[i]))
        {
            CHECK_OB("lock file is read when it exists", gLockExists[i]);
            gLockRemoved[i] = gLockRemoved[i] || param.remove;
            return gLockRead[i];
        }
    }

    CHECK_OB("lock file is one of those listed", false);
    return gLockRead[0];
}

int
verif_sys_kill(const pid_t pid, const int sig)
{
    CHECK_OB("processes are asked to end", sig == SIGTERM);
    CHECK_OB("processes are signaled after new ones are prevented from starting", gStopWritten());
    CHECK_OB("process id is one of a process", pid > 0);
    bool found = false;

    for (unsigned int i = 0; i < LOCK_TOTAL; i++)
    {
        if (gLockExists[i] && gLockRead[i].status == lockReadStatusValid && gLockRead[i].data.processId == pid)
        {
            gSignal[i]++;
            found = true;
        }
    }

    CHECK_OB("only processes that hold a lock are signaled", found);
    return 0;
}

#include "command/control/common.c"
#include "command/control/stop.c"
#include "command/control/start.c"

static const StringPubConst gStanza = {.size = 2, .buffer = "st"}, gLockPath = {.size = 2, .buffer = "/l"};

enum {fileAll, fileStanza, fileOther};

static void
world(const bool stanza, const bool force, const unsigned int stop)
{
    vcfgTotal = 0;
    vcfgStr(cfgOptStanza, 0, stanza ? (const String *)&gStanza : NULL);
    vcfgStr(cfgOptLockPath, 0, (const String *)&gLockPath);
    vcfgU(cfgOptForce, 0, force);
    vfsTotal = 0;
    vfsAdd(vfsLocal, "/l/all.stop", stop & 1 ? "" : NULL);
    vfsAdd(vfsLocal, "/l/st.stop", stop & 2 ? "" : NULL);
    vfsAdd(vfsLocal, "/l/st2.stop", stop & 4 ? "" : NULL);
    gOp = gFault = 0;
    gPath = false;

    for (unsigned int i = 0; i < LOCK_TOTAL; i++)
    {
        gLockRemoved[i] = false;
        gSignal[i] = 0;
    }
}

static bool gStanzaStop;
static bool gStopWritten(void) {return vfsFile[gStanzaStop ? fileStanza : fileAll].content != NULL;}

static bool
stopped(void)
{
    bool result = false;

    TRY_BEGIN()
    {
        lockStopTest();
    }
    CATCH_ANY()
    {
        CHECK_OB("a stopped command fails with a stop error", errorType() == &StopError || gFault != 0);
        result = true;
    }
    TRY_END();

    return result;
}

void
h_test(void)
{
    for (unsigned int i = 0; i < 16; i++)
    {
        const bool stanza = i & 8;
        world(stanza, false, i & 7);
        CHECK_OB("a command is stopped exactly when a stop file exists for its stanza or for all", stopped() == ((i & 1) || (stanza && (i & 2))));
        COVER("test");

        // A stop file that cannot be checked is not ignored
        world(stanza, false, 0);
        gFault = 1;
        CHECK_OB("a stop file that cannot be checked is an error", stopped());
        COVER("fault");
    }
}

static void
locks(const unsigned int seed)
{
    for (unsigned int i = 0; i < LOCK_TOTAL; i++)
    {
        gLockExists[i] = (seed + i) % 7 != 0;
        gLockRead[i].status = i == 0 ? (LockReadStatus)(seed % 4) : i == 1 ? lockReadStatusValid : (LockReadStatus)((seed + i) % 2 ? lockReadStatusValid : lockReadStatusUnlocked);
        // A process may hold several locks
        gLockRead[i].data.processId = gLockRead[i].status != lockReadStatusValid ? 0 : (pid_t)(100 + (seed % 3 && i == 1 ? 0 : i));
    }
}

static void
stop(const bool stanza, const bool force, const unsigned int stopFile, const unsigned int seed)
{
    world(stanza, force, stopFile);
    locks(seed);
    gStanzaStop = stanza;
    const bool before = gStopWritten();
    const char *const other0 = vfsFile[stanza ? fileAll : fileStanza].content, *const other1 = vfsFile[fileOther].content;

    cmdStop();

    CHECK_OB("a command of the stanza is stopped after stop", stopped());
    CHECK_OB("other stop files are left alone", vfsFile[stanza ? fileAll : fileStanza].content == other0 && vfsFile[fileOther].content == other1);
    CHECK_OB("no other file is written", vfsTotal == 3);

    for (unsigned int i = 0; i < LOCK_TOTAL; i++)
    {
        const bool match = gLockExists[i] && (i < 2 || (!stanza && (i == 2 || i == 4)));
        const bool signal = force && !before && match && gLockRead[i].status == lockReadStatusValid;
        bool same = false;

        for (unsigned int j = 0; j < LOCK_TOTAL; j++)
            same = same || (j != i && gLockExists[j] && (j < 2 || (!stanza && (j == 2 || j == 4))) && gLockRead[j].status == lockReadStatusValid && gLockRead[j].data.processId == gLockRead[i].data.processId);

        CHECK_OB("each process of the stanza that holds a lock is signaled once", gSignal[i] == (signal || (force && !before && same && gLockExists[i] && gLockRead[i].status == lockReadStatusValid)));
        CHECK_OB("lock files of other stanzas are left alone", !gLockRemoved[i] || (force && match));
    }

    cmdStart();
    CHECK_OB("start removes the stop file", !gStopWritten());
    CHECK_OB("other stop files are left alone", vfsFile[stanza ? fileAll : fileStanza].content == other0 && vfsFile[fileOther].content == other1);
    CHECK_OB("start of one that was not stopped is no error", (cmdStart(), !gStopWritten()));
}

void
h_stop(void)
{
    for (unsigned int i = 0; i < 24; i++)
    {
        stop(i % 2, i % 3 != 2, i == 5 ? 1 : i == 6 ? 2 : i == 9 ? 7 : 0, i);
        COVER("stopped");
    }
}

void
h_fault(void)
{
    for (unsigned int fault = 1; fault <= 6; fault++)
    {
        world(fault % 2, true, 0);
        locks(1);
        gFault = fault;
        gStanzaStop = fault % 2;
        bool error = false;

        TRY_BEGIN()
        {
            cmdStop();
        }
        CATCH_ANY()
        {
            error = true;
        }
        TRY_END();

        const bool faulted = gOp >= fault;
        gFault = 0;
        CHECK_OB("without error commands are stopped", error || stopped());
        CHECK_OB("a failure is an error", error == faulted);
        COVER("fault");
    }
}
