// Asynchronous archive-push: the worker command (status files, repository) and the foreground command (exit status)
#include "hinfo.h"
#include "hlocal.h"
#include "hpg.h"

#include "command/archive/push/push.h"
#include "command/lock.h"

#define SYSID 6569239123849665679ULL
#define SPOOL "/spool/archive/db/out/"
#define ARC "/repo1/archive/db/13-1/0000000100000001/"
#define SEG 512                                                     // size of a segment file
static const char *const wal[4] = {"000000010000000100000001", "000000010000000100000002", "000000010000000100000003", "000000010000000100000004"};
static uint8_t content[4][SEG];

static void statusPath(char *out, const char *name, const char *ext) { snprintf(out, 128, SPOOL "%s%s", name, ext); }
static void segPath(char *out, const char *name, const uint8_t *data) { char hex[80]; hHash("sha1", data, SEG, hex); snprintf(out, 160, ARC "%s-%s", name, hex); }
static bool statusExists(const char *name, const char *ext) { char p[128]; statusPath(p, name, ext); return vm_exists(p); }

static bool selectAny(int fd) { (void)fd; return vh_bool("schedule"); }

// arg 0: number of segments, 1: workers, 2: queue-max enabled, 3: crash
void async_(void)
{
    hInit();
    unsigned n = (unsigned)vh_arg(0), workers = (unsigned)vh_arg(1);
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID);
    hArchiveInfo("/repo1", "13", SYSID);
    vm_mkdirs("/pg/pg_wal/archive_status"); vm_mkdirs("/spool/archive/db/out");
    bool ready[4], okBefore[4]; unsigned repo[4];
    char p[160];
    for (unsigned i = 0; i < n; i++)
    {
        hPgWal(content[i], HPG_13, SYSID, 16777216); content[i][40] = (uint8_t)i; vh_bytes(content[i] + 41, 1, "data");
        snprintf(p, sizeof p, "/pg/pg_wal/%s", wal[i]); vm_put(p, content[i], SEG);
        ready[i] = vh_bool("ready");
        if (ready[i]) { snprintf(p, sizeof p, "/pg/pg_wal/archive_status/%s.ready", wal[i]); vm_putz(p, ""); }
        else { snprintf(p, sizeof p, "/pg/pg_wal/archive_status/%s.done", wal[i]); vm_putz(p, ""); }
        unsigned st = (unsigned)vh_choose("status", 0, 2);
        okBefore[i] = st == 1;
        if (st == 1) { statusPath(p, wal[i], ".ok"); vm_putz(p, ""); }
        if (st == 2) { statusPath(p, wal[i], ".error"); vm_putz(p, "25\nold error"); }
        repo[i] = okBefore[i] || !ready[i] ? 0 : (unsigned)vh_choose("repo", 0, 1);
        if (repo[i] == 1) { uint8_t other[SEG]; memset(other, 9, SEG); segPath(p, wal[i], other); vm_put(p, other, SEG); }
    }
    statusPath(p, "global", ".error"); vm_putz(p, "32\nold global error");
    char w[32]; snprintf(w, sizeof w, "--process-max=%u", workers);
    char q[64]; uint64_t queueMax = 0;
    if (vh_arg(2)) { queueMax = vh_choose("queue-max", 0, n) * SEG + SEG / 2; }
    snprintf(q, sizeof q, "--archive-push-queue-max=%lu", (unsigned long)queueMax);
    HCFG("archive-push:async", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--spool-path=/spool", "--archive-async", "--compress-type=none", "--job-retry=0", w, vh_arg(2) ? q : "--no-log-subprocess", "/pg/pg_wal");
    hLocalInit();
    if (workers > 1) vm.onSelect = selectAny;
    unsigned readyTotal = 0, todo = 0;
    for (unsigned i = 0; i < n; i++) { readyTotal += ready[i]; todo += ready[i] && !okBefore[i]; }
    if (vh_arg(3)) { vm.crashAt = vh_u32("crash"); vh_assume(vm.crashAt != 0); vm.opCount = true; }
    volatile bool failed = false;
    TRY_BEGIN() { cmdArchivePushAsync(); } CATCH_FATAL() { failed = true; if (todo != 0) H_NO_ASSERT(); } TRY_END();
    bool crashed = vm.crashed;
    if (crashed) vh_reach("crashed");
    if (vh_arg(3)) vm_recover("survives");
    bool drop = vh_arg(2) && (uint64_t)readyTotal * SEG > queueMax;
    bool errorBefore = false;
    for (unsigned i = 0; i < n; i++)
    {
        bool ok = statusExists(wal[i], ".ok"), error = statusExists(wal[i], ".error");
        segPath(p, wal[i], content[i]); bool stored = vm_equal(p, content[i], SEG);
        if (ok)
        {
            vh_assert(ready[i] || (vh_arg(3) && okBefore[i]), "stale acknowledgement kept for a segment PostgreSQL is not waiting for");
            if (!okBefore[i])
            {
                vh_assert(stored || drop, "segment acknowledged but neither stored in the repository nor dropped because of queue-max");
                if (stored) vh_reach("pushed");
                if (drop && !stored) { vh_reach("dropped"); statusPath(p, wal[i], ".ok"); if (!vh_arg(3)) vh_assert(vm_lookup(p)->size > 2, "dropped segment acknowledged without a warning"); }
            }
        }
        if (!vh_arg(3))
        {
            if (okBefore[i] && ready[i]) vh_assert(ok, "acknowledgement of a pending segment lost");
            if (!ready[i] || okBefore[i]) vh_assert(!stored, "segment pushed although it was not to be processed");
            if (!ready[i]) vh_assert(!error, "error status for a segment that was not processed");
            if (ready[i] && !okBefore[i])
            {
                vh_assert(ok != error || (errorBefore && !ok), "segment neither acknowledged nor reported");
                if (repo[i] == 1 && !drop) { vh_assert(!ok, "segment acknowledged although a different one is archived"); errorBefore = true; vh_reach("error"); }
                else if (!errorBefore) vh_assert(ok, "segment not processed without an earlier failure");
                if (!drop && ok) vh_assert(stored, "acknowledged but not stored");
                if (drop) vh_assert(ok && !stored, "queue-max exceeded but the segment was not dropped");
            }
        }
    }
    if (!vh_arg(3))
    {
        vh_assert(failed == (todo == 0), "worker command failed");
        vh_assert(statusExists("global", ".error") == failed, "global error status wrong");
    }
}

// Foreground: whatever the worker leaves behind, success only for an acknowledged segment and errors are passed on
static unsigned asyncResult, asyncDelay; static bool asyncStarted, clearedAtStart;
static void putStatus(unsigned what)
{
    char p[128];
    if (what == 1) { statusPath(p, wal[0], ".ok"); vm_putz(p, ""); }
    if (what == 2) { statusPath(p, wal[0], ".ok"); vm_putz(p, "0\nwarning"); }
    if (what == 3) { statusPath(p, wal[0], ".error"); vm_putz(p, "45\nsegment error"); }
    if (what == 4) { statusPath(p, "global", ".error"); vm_putz(p, "82\nglobal error"); }
    if (what == 5) { statusPath(p, wal[1], ".ok"); vm_putz(p, ""); }
    if (what == 6) { statusPath(p, wal[1], ".error"); vm_putz(p, "45\nother segment"); }
}
static unsigned okSeen(void) { return statusExists(wal[0], ".ok"); }
static int forkFg(void) { asyncStarted = true; clearedAtStart = !statusExists(wal[0], ".error") && !statusExists("global", ".error"); return 4000; }
static void sleepFg(void) { if (asyncStarted) { if (asyncDelay == 0) putStatus(asyncResult); asyncDelay--; } }
void foreground(void)
{
    hInit();
    vm_put("/pg/pg_wal/000000010000000100000001", content[0], SEG); vm_mkdirs("/spool/archive/db/out"); vm_mkdirs("/lock");
    memcpy(vm.cwd, "/pg", 4);
    unsigned before = (unsigned)vh_choose("before", 0, 6);
    putStatus(before);
    if (vh_bool("also-global")) putStatus(4);
    asyncResult = (unsigned)vh_choose("result", 0, 6); asyncDelay = (unsigned)vh_choose("delay", 0, 2);
    bool locked = vh_bool("other-async-running");
    HCFG("archive-push", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--spool-path=/spool", "--lock-path=/lock", "--archive-async", "--archive-timeout=1", "pg_wal/000000010000000100000001");
    if (locked) { asyncStarted = true; VmNode *x = vm_putz("/lock/db-archive-1.lock", ""); x->lockOther = true; }
    lockInit(STRDEF("/lock"), STRDEF("1-test"));
    vm.onFork = forkFg; vm.onSleep = sleepFg;
    volatile bool success = false; volatile int code = 0;
    TRY_BEGIN() { cmdArchivePush(); success = true; } CATCH_FATAL() { code = errorCode(); } TRY_END();
    if (success) { vh_reach("success"); vh_assert(okSeen() && (before == 1 || before == 2 || asyncResult == 1 || asyncResult == 2), "success reported for a segment that was not acknowledged"); }
    else
    {
        vh_assert(!okSeen(), "error reported although the segment is acknowledged");
        vh_reach("failure");
        if (code == 45) { vh_reach("segment-error"); vh_assert(statusExists(wal[0], ".error"), "error without a status"); }
        else if (code == 82 && statusExists("global", ".error") ) vh_reach("global-error");
        else vh_assert(code == errorTypeCode(&ArchiveTimeoutError), "unexpected error");
        if (asyncResult == 3 && asyncStarted && !locked) vh_assert(code == 45, "the error status of the segment was not passed on");
    }
    vh_assert(!success || vm.nFork <= 1, "worker started more than once");
    if (vm.nFork) vh_assert(clearedAtStart, "worker started without clearing old errors");
    if (!locked && (before == 0 || before >= 3)) vh_assert(vm.nFork == 1, "worker not started");
    vh_observe(success); vh_observe((uint64_t)code);
}
