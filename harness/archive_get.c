// archive-get: which file is delivered, what is reported, and what the asynchronous queue contains
#include "hinfo.h"
#include "hlocal.h"
#include "hpg.h"

#include "command/archive/get/get.h"
#include "command/lock.h"

#define SYSID 6569239123849665679ULL
#define WAL "000000010000000100000001"
static char hash[4][41];                                            // 0: X, 1: Y (differs from X at one position), 2: another
static uint8_t data[4][2];

static void putSeg(const char *repo, unsigned id, const char *wal, unsigned h)
{
    char p[200]; snprintf(p, sizeof p, "%s/archive/db/13-%u/%.16s/%s-%s", repo, id, wal, wal, hash[h]); vm_put(p, data[h], 2);
}
static void hashes(bool all)
{
    unsigned at = (unsigned)vh_choose("differ-at", 0, all ? 39 : 1); if (!all && at) at = 39;
    for (unsigned i = 0; i < 40; i++) { hash[0][i] = "0123456789abcdef"[(i * 7 + 3) & 15]; hash[1][i] = hash[0][i]; hash[2][i] = '7'; }
    hash[1][at] = hash[0][at] == 'e' ? '1' : 'e';
    for (unsigned i = 0; i < 3; i++) vh_bytes(data[i], 2, "data");
    vh_assume(vh_or(data[0][0] != data[1][0], data[0][1] != data[1][1])); vh_assume(data[2][0] != data[0][0]); vh_assume(data[2][0] != data[1][0]);
}

// arg 0: 0 segment, 1 partial segment, 2 history file; arg 2: one failing read
void single(void)
{
    hInit(); hashes(vh_arg(1));
    const char *req = vh_arg(0) == 0 ? WAL : vh_arg(0) == 1 ? WAL ".partial" : "00000002.history";
    const char *neighbour = vh_arg(0) == 1 ? WAL : WAL ".partial";
    unsigned control = vh_arg(0) || vh_arg(1) || vh_arg(2) ? 0 : (unsigned)vh_choose("pg-control", 0, 2);
    static uint8_t c[8192]; hPgControl(c, HPG_13, SYSID, control ? 0xDEAD : 1, 1, 8192, 16777216, 0); vm_put("/pg/global/pg_control", c, sizeof c);
    vm_mkdirs("/pg/pg_wal");
    if (control == 2) vm_putz("/pg/backup_label", "x");
    bool valid[2], has[3] = {0}; unsigned nValid = 0;
    for (unsigned r = 0; r < 2; r++)
    {
        const char *repo = r ? "/repo2" : "/repo1"; unsigned cur = r ? 10 : 3;
        // 0 no stanza, 1 current id matches, 2 only an earlier id matches, 3 both, 4 no match (another system), 5 no match (another version)
        unsigned info = vh_arg(1) ? 1 : (unsigned)vh_choose("info", 0, r || vh_arg(2) ? 2 : 5);
        HPgHist h[3] = {{1, "13", info == 2 || info == 3 ? SYSID : 99}, {2, "12", SYSID}, {cur, info == 5 ? "14" : "13", info == 1 || info == 3 || info == 5 ? SYSID : 98}};
        if (info) hArchiveInfoHist(repo, h, 3);
        // the archive of an earlier id need not exist
        bool oldPath = info == 2 || info == 3 ? vh_bool("old-path") : true;
        char p[200];
        if (oldPath) { snprintf(p, sizeof p, "%s/archive/db/13-1", repo); vm_mkdirs(p); }
        valid[r] = info == 1 || info == 3 || (info == 2 && oldPath); nValid += valid[r];
        // what the matching archive holds
        unsigned id = info == 2 || (info == 3 && oldPath) ? 1 : cur;
        unsigned files = (unsigned)vh_choose("files", 0, vh_arg(0) == 2 ? 1 : 3);
        if (id == 1 && !oldPath) files = 0;
        if (vh_arg(0) == 2)
        {
            if (files) { snprintf(p, sizeof p, "%s/archive/db/13-%u/%s", repo, id, req); vm_put(p, data[0], 2); if (valid[r]) has[0] = true; }
        }
        else for (unsigned k = 0; k < 2; k++) if (files & 1u << k) { putSeg(repo, id, req, k); if (valid[r]) has[k] = true; }
        // files that are not the one asked for: neighbours in the same archive, the same name in an archive of another cluster
        putSeg(repo, id == 1 && !oldPath ? cur : id, neighbour, 2); putSeg(repo, id == 1 && !oldPath ? cur : id, "000000010000000100000002", 2); putSeg(repo, id == 1 && !oldPath ? cur : id, "000000020000000100000001", 2);
        if (info != 3 && (oldPath || id != 1))
        {
            unsigned other = id == 1 ? cur : 2;
            if (vh_arg(0) == 2) { snprintf(p, sizeof p, "%s/archive/db/13-%u/%s", repo, other, req); vm_put(p, data[2], 2); } else putSeg(repo, other, req, 2);
        }
    }
    char dst[64]; snprintf(dst, sizeof dst, "/pg/pg_wal/RECOVERYXLOG");
    HCFG("archive-get", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo2-path=/repo2", req, "/pg/pg_wal/RECOVERYXLOG");
    if (vh_arg(2)) { vm.rfaultAt = vh_u32("fault"); vh_assume(vm.rfaultAt != 0); vm.rfaultErr = 5; vm.opCount = true; }
    volatile int res = -1; volatile int code = 0;
    TRY_BEGIN() { res = cmdArchiveGet(); } CATCH_FATAL() { H_NO_ASSERT(); code = errorCode(); } TRY_END();
    bool dup = has[0] && has[1], none = !has[0] && !has[1];
    const uint8_t *want = data[has[0] ? 0 : 1];
    if (res == 0)
    {
        vh_reach("found");
        vh_assert(!none, "file reported found although no archive of this cluster holds it");
        if (!vm.faultHit) vh_assert(!dup, "one of several different segments delivered");
        if (!dup) vh_assert(vm_equal(dst, want, 2), "delivered file is not the archived file");
        else vh_assert(vm_equal(dst, data[0], 2) || vm_equal(dst, data[1], 2), "delivered file is not an archived file");
        vh_assert(control != 1, "WAL delivered although backup_label is missing");
    }
    else
    {
        if (!vm.faultHit) vh_assert(!vm_exists(dst), "a file was delivered although the command did not succeed");
        if (res == 1)
        {
            vh_reach("not-found");
            if (!vm.faultHit) { vh_assert(none, "archived file reported missing"); vh_assert(nValid > 0, "file reported missing although no repository could be checked"); }
            vh_assert(control != 1, "missing backup_label not reported");
        }
        else
        {
            vh_assert(res == -1, "unexpected exit code");
            vh_reach("error");
            if (!vm.faultHit)
            {
                vh_assert(nValid == 0 || dup || control == 1, "archived or missing file reported as an error");
                if (control != 1 && nValid) { vh_reach("duplicate"); vh_assert(code == errorTypeCode(&ArchiveDuplicateError), "wrong error for duplicates"); }
            }
        }
    }
    vh_observe((uint64_t)(int64_t)res); vh_observe((uint64_t)code);
}

// ---- asynchronous process: fills the queue with complete segments up to the first one that is missing or in error
#define IN "/spool/archive/db/in/"
static const char *const seg[4] = {"0000000100000001000000FE", "0000000100000001000000FF", "000000010000000200000000", "000000010000000200000001"};
static bool inExists(const char *s, const char *ext) { char p[128]; snprintf(p, sizeof p, IN "%s%s", s, ext); return vm_exists(p); }
static bool selectAny(int fd) { (void)fd; return vh_bool("schedule"); }
// arg 0: segments, 1: workers, 2: kill at any operation
void async_(void)
{
    hInit(); hashes(false);
    unsigned n = (unsigned)vh_arg(0);
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); vm_mkdirs("/pg/pg_wal"); vm_mkdirs("/spool/archive/db/in");
    unsigned info1 = (unsigned)vh_choose("info1", 0, 1);            // the first repository may be unusable
    if (info1) hArchiveInfoHist("/repo1", (HPgHist[]){{1, "13", SYSID}}, 1);
    hArchiveInfoHist("/repo2", (HPgHist[]){{1, "12", 5}, {12, "13", SYSID}}, 2);
    unsigned st[4]; char p[200];
    for (unsigned i = 0; i < n; i++)
    {
        st[i] = (unsigned)vh_choose("segment", 0, 4);               // 0 missing, 1 in repo2, 2 in both, 3 different in both, 4 unreadable
        if (st[i] == 1 || st[i] == 2 || st[i] == 3) putSeg("/repo2", 12, seg[i], i);
        if (st[i] == 2) { snprintf(p, sizeof p, "/repo1/archive/db/13-1/%.16s/%s-%s", seg[i], seg[i], hash[i]); vm_put(p, data[i], 2); }
        if (st[i] == 3) { snprintf(p, sizeof p, "/repo1/archive/db/13-1/%.16s/%s-%s", seg[i], seg[i], hash[(i + 1) % 3]); vm_put(p, data[(i + 1) % 3], 2); }
        if (st[i] == 4) { snprintf(p, sizeof p, "/repo2/archive/db/13-12/%.16s/%s-%s", seg[i], seg[i], hash[i]); vm_putlink(p, "/nowhere"); }
        if (st[i] == 3 && !info1) st[i] = 1;
        // an incomplete file left behind by an earlier run
        if (vh_arg(2)) { snprintf(p, sizeof p, IN "%s.pgbackrest.tmp", seg[i]); vm_put(p, "junkjunk", 8); }
    }
    const char *a[16] = {"--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo2-path=/repo2", "--spool-path=/spool", "--archive-async", vh_arg(1) == 2 ? "--process-max=2" : "--process-max=1", "--job-retry=0"};
    for (unsigned i = 0; i < n; i++) a[8 + i] = seg[i];
    hCfg("archive-get:async", a);
    hLocalInit();
    if (vh_arg(1) == 2) vm.onSelect = selectAny;
    if (vh_arg(2)) { vm.crashAt = vh_u32("kill"); vh_assume(vm.crashAt != 0); vm.opCount = true; }
    volatile bool failed = false;
    TRY_BEGIN() { cmdArchiveGetAsync(); } CATCH_FATAL() { failed = true; if (!vm.crashed) H_NO_ASSERT(); } TRY_END();
    if (vm.crashed) vh_reach("killed"); else vh_assert(!failed, "the process failed instead of reporting a status");
    bool stopped = false;
    for (unsigned i = 0; i < n; i++)
    {
        bool ok = inExists(seg[i], ".ok"), error = inExists(seg[i], ".error"), have = inExists(seg[i], "");
        snprintf(p, sizeof p, IN "%s", seg[i]);
        if (have)
        {
            vh_reach("queued");
            vh_assert(vm_equal(p, data[i], 2), "queued segment is not the archived segment");
            vh_assert(!stopped && (st[i] == 1 || st[i] == 2), "segment queued that is missing, ambiguous or after a missing one");
        }
        if (!vm.crashed)
        {
            if (stopped) vh_assert(!have && !ok && !error, "status written after the queue stopped");
            else if (st[i] == 0) { vh_reach("missing"); vh_assert(ok && !error, "missing segment not reported as missing"); snprintf(p, sizeof p, IN "%s.ok", seg[i]); stopped = true; }
            else if (st[i] == 3) { vh_reach("duplicate"); vh_assert(error && !ok, "duplicate not reported"); stopped = true; }
            else if (st[i] == 4) { vh_reach("unreadable"); vh_assert(error && !ok, "failure not reported"); }
            else { vh_assert(have && !error, "archived segment not queued"); if (!info1) vh_assert(ok, "warning lost"); else vh_assert(!ok, "status without a warning"); }
        }
        else
        {
            if (ok && !have) vh_assert(st[i] == 0 || !info1, "an archived segment reported as missing");
            if (st[i] == 0 || st[i] == 3) stopped = true;
        }
    }
    vh_assert(!inExists("global", ".error") || vm.crashed, "global error written");
}

// ---- foreground command with an asynchronous process
static unsigned result_, delay_, holder; static bool started, cleared, oldOk; static unsigned execTotal; static char execSeg[8][32]; static unsigned execCount;
static const uint8_t newData[2] = {11, 12}, oldData[2] = {21, 22};
static void put(unsigned what, bool new_)
{
    char p[128];
    if (what == 1 || what == 2) { snprintf(p, sizeof p, IN "%s", seg[0]); vm_put(p, new_ ? newData : oldData, 2); }
    if (what == 2 || what == 3) { snprintf(p, sizeof p, IN "%s.ok", seg[0]); vm_putz(p, what == 2 ? "0\nwarning" : ""); }
    if (what == 4) { snprintf(p, sizeof p, IN "%s.error", seg[0]); vm_putz(p, "45\nsegment error"); }
    if (what == 5) { snprintf(p, sizeof p, IN "global.error"); vm_putz(p, "82\nglobal error"); }
}
static VmNode *lockNode;
static int forkGet(void) { started = true; cleared = !inExists(seg[0], ".error") && !inExists("global", ".error"); oldOk = inExists(seg[0], ".ok"); lockNode = vm_putz("/lock/db-archive-1.lock", "{\"execId\":\"1-test\",\"pid\":7}"); lockNode->lockOther = true; return 4000; }
static void sleepGet(void)
{
    if (started) { if (delay_ == 0) { put(result_, true); if (lockNode) lockNode->lockOther = false; } delay_--; }
}
void foreground(void)
{
    hInit(); hashes(false);
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); vm_mkdirs("/pg/pg_wal"); vm_mkdirs("/lock"); vm_mkdirs("/spool/archive/db/in");
    hArchiveInfoHist("/repo1", (HPgHist[]){{1, "13", SYSID}}, 1);
    bool inRepo = vh_bool("in-repo"); if (inRepo) { char p[200]; snprintf(p, sizeof p, "/repo1/archive/db/13-1/%.16s/%s-%s", seg[0], seg[0], hash[0]); vm_put(p, newData, 2); }
    unsigned before = (unsigned)vh_choose("before", 0, 5); put(before, false);
    unsigned extra = (unsigned)vh_choose("queue", 0, 2);            // other files in the queue: none, the next segments, an unrelated segment
    if (extra == 1) { vm_put(IN "0000000100000001000000FF", oldData, 2); vm_putz(IN "000000010000000100000077.ok", ""); }
    if (extra == 2) { vm_put(IN "000000010000000100000077", oldData, 2); }
    result_ = (unsigned)vh_choose("result", 0, 5); delay_ = (unsigned)vh_choose("delay", 0, 1); holder = (unsigned)vh_choose("foreign-process", 0, 1);
    bool retry = vh_bool("missing-retry");
    HCFG("archive-get", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--spool-path=/spool", "--lock-path=/lock", "--archive-async", "--archive-timeout=1", retry ? "--archive-missing-retry" : "--no-archive-missing-retry", seg[0], "/pg/pg_wal/RECOVERYXLOG");
    if (holder) { lockNode = vm_putz("/lock/db-archive-1.lock", "{\"execId\":\"9-other\",\"pid\":9}"); lockNode->lockOther = true; }
    lockInit(strNewZ("/lock"), strNewZ("1-test"));
    vm.onFork = forkGet; vm.onSleep = sleepGet;
    volatile int res = -1; volatile int code = 0;
    TRY_BEGIN() { res = cmdArchiveGet(); } CATCH_FATAL() { code = errorCode(); } TRY_END();
    bool queued = before == 1 || before == 2, dstNew = vm_equal("/pg/pg_wal/RECOVERYXLOG", newData, 2), dstOld = vm_equal("/pg/pg_wal/RECOVERYXLOG", oldData, 2);
    if (res == 0)
    {
        vh_reach("found");
        vh_assert(queued ? dstOld : dstNew, "success without the segment at the destination");
        vh_assert(!inExists(seg[0], "") , "segment left in the queue after delivery");
        vh_assert(queued || (started && (result_ == 1 || result_ == 2)) || inRepo, "segment found from nowhere");
    }
    else
    {
        vh_assert(!vm_exists("/pg/pg_wal/RECOVERYXLOG"), "a file delivered without success");
        vh_assert(!queued, "queued segment not delivered");
        if (res == 1)
        {
            vh_reach("missing");
            // missing must have been established by the process started for this request, by a direct look, or (without retry) by an earlier one
            vh_assert((started && (result_ == 3 || !inRepo)) || !inRepo || (!retry && before == 3), "segment reported missing without having looked");
        }
        else
        {
            vh_reach("error");
            if (code == 45) { vh_reach("segment-error"); vh_assert(inExists(seg[0], ".error"), "error without a status"); }
            else if (code == 82 && inExists("global", ".error")) vh_reach("global-error");
            else vh_assert(code == errorTypeCode(&ArchiveTimeoutError), "unexpected error");
            if (started && !holder) vh_assert(!(result_ == 1 || result_ == 2) , "segment delivered by the process not passed on");
        }
    }
    if (started) { vh_reach("started"); vh_assert(cleared, "process started without clearing old errors"); vh_assert(!oldOk, "process started with an old status in place"); }
    vh_assert(vm.nFork <= 1, "process started more than once");
    if (holder) vh_assert(vm.nFork == 0, "second process started although one is running");
    if (!holder && !queued && !(before == 3 && !retry)) vh_assert(vm.nFork == 1, "no process started");
    // the queue keeps no segment that is not wanted next
    if (started) vh_assert(!inExists("000000010000000100000077", "") && !inExists("000000010000000100000077", ".ok"), "stale file kept in the queue");
    if (started && extra == 1) vh_assert(inExists("0000000100000001000000FF", ""), "wanted segment removed from the queue");
    vh_observe((uint64_t)(int64_t)res); vh_observe((uint64_t)code);
}
