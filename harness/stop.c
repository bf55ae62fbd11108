// stop, start and stanza-delete, and the commands a stop file must keep from running
#include "hcommon.h"
#include "hinfo.h"
#include "hpg.h"
#include "command/archive/push/push.h"
#include "command/backup/backup.h"
#include "command/control/start.h"
#include "command/control/stop.h"
#include "command/expire/expire.h"
#include "command/stanza/create.h"
#include "command/stanza/delete.h"
#include "command/stanza/upgrade.h"
#include "common/lock.h"

static unsigned killed[8], killedTotal; static bool wrongSig;
static void onKill(int pid, int sig) { if (sig != 15 || killedTotal == 8) wrongSig = true; else killed[killedTotal++] = (unsigned)pid; }
static unsigned killCount(unsigned pid) { unsigned n = 0; for (unsigned i = 0; i < killedTotal; i++) n += killed[i] == pid; return n; }

typedef struct L { const char *file; int stanza; } L;               // stanza: 0 db, 1 another, -1 not a lock file
static const L lck[] = {{"db-archive-1.lock", 0}, {"db-backup-2.lock", 0}, {"db-restore-1.lock", 0}, {"db-x-backup-1.lock", 1}, {"db-backup-archive-1.lock", 1}, {"d-backup-1.lock", 1}, {"db2-archive-1.lock", 1}, {"db-archive-1.lockx", -1}};
#define NL (sizeof(lck) / sizeof(lck[0]))

void stopStart(void)
{
    hInit(); vm.uid = 1000; vm.gid = 1000; bool start = vh_bool("start"), stanza = vh_bool("stanza"), force = start ? false : vh_bool("force");
    bool path = vh_bool("lock-path-exists"); bool f[3] = {0};
    static const char *const stopFile[3] = {"/lock/db.stop", "/lock/all.stop", "/lock/db-x.stop"};
    if (path) { vm_mkdirs("/lock"); for (unsigned i = 0; i < 3; i++) if (vh_bool("stop-file")) { vm_putz(stopFile[i], i == 1 ? "x" : ""); f[i] = true; } }
    // two lock files
    unsigned sel[2] = {(unsigned)vh_choose("lock1", 0, NL - 1), (unsigned)vh_choose("lock2", 0, NL - 1)}, st[2] = {0, 0};
    vh_assume(sel[0] < sel[1]); char p[2][64]; VmNode *n[2] = {NULL, NULL};
    for (unsigned i = 0; i < 2; i++)
    {
        if (!path) break;
        st[i] = (unsigned)vh_choose("state", 0, force ? 4 : 1);                 // none, held by process 77, held by process 78 + i, held but unreadable, left behind
        snprintf(p[i], 64, "/lock/%s", lck[sel[i]].file);
        if (st[i]) { char c[80]; snprintf(c, sizeof c, "{\"execId\":\"a-1\",\"pid\":%u}", st[i] == 2 ? 78 + i : 77); n[i] = vm_putz(p[i], st[i] == 3 ? "{\"ex" : c); n[i]->lockOther = st[i] != 4; }
    }
    const char *a[] = {stanza ? "--stanza=db" : "--log-level-file=off", force ? "--force" : "--log-level-stderr=off", "--lock-path=/lock", NULL}; hCfg(start ? "start" : "stop", a); lockInit(strNewZ("/lock"), strNewZ("1-1"));
    vm.onKill = onKill; volatile bool ok = false;
    TRY_BEGIN() { if (start) cmdStart(); else cmdStop(); ok = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    vh_assert(ok, "command failed");
    unsigned mine = stanza ? 0 : 1;
    for (unsigned i = 0; i < 3; i++)
    {
        bool want = i == mine ? !start : f[i];
        vh_assert(vm_exists(stopFile[i]) == want, i == mine ? (start ? "stop file not removed by start" : "stop file not created by stop") : "stop file of another scope changed");
    }
    bool sends = !start && force && !f[mine]; if (sends) vh_reach("forced"); if (start) vh_reach("started"); else vh_reach("stopped");
    vh_assert(!wrongSig, "signal other than the request to terminate sent");
    unsigned want[8] = {0}, wantTotal = 0;
    for (unsigned i = 0; i < 2; i++) if (st[i])
    {
        bool inScope = lck[sel[i]].stanza == 0 || (lck[sel[i]].stanza == 1 && !stanza);
        if (sends && inScope && (st[i] == 1 || st[i] == 2))
        {
            unsigned pid = st[i] == 1 ? 77 : 78 + i; bool dup = false; for (unsigned k = 0; k < wantTotal; k++) dup |= want[k] == pid; if (!dup) want[wantTotal++] = pid;
        }
        if (!inScope || !sends) vh_assert(vm_exists(p[i]) && n[i]->lockOther == (st[i] != 4), "lock file outside the scope of the command changed");
    }
    vh_assert(killedTotal == wantTotal, killedTotal > wantTotal ? "signal sent to a process that does not hold a lock in scope" : "running process not signalled");
    for (unsigned k = 0; k < wantTotal; k++) vh_assert(killCount(want[k]) == 1, "running process not signalled once");
    vh_observe(killedTotal);
}

// Commands that must not run while stopped
static const char *const cname[] = {"archive-push", "archive-push:async", "backup", "expire", "stanza-create", "stanza-upgrade"};
void refuse(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000; vm_mkdirs("/repo1"); vm_mkdirs("/spool"); vm_mkdirs("/pg/pg_wal/archive_status");
    hPgControlPut("/pg/global/pg_control", HPG_13, 1); static uint8_t seg[512]; hPgWal(seg, HPG_13, 1, 16777216); vm_put("/pg/pg_wal/000000010000000100000001", seg, sizeof seg); vm_putz("/pg/pg_wal/archive_status/000000010000000100000001.ready", "");
    unsigned c = (unsigned)vh_choose("command", 0, 5); bool db = vh_bool("db.stop"), all = vh_bool("all.stop"), other = vh_bool("other.stop");
    bool info = c == 4 ? false : vh_bool("stanza-exists");
    if (info) { hArchiveInfo("/repo1", "13", 1); hInfoPut("/repo1/backup/db/backup.info", "[db]\ndb-catalog-version=202007201\ndb-control-version=1300\ndb-id=1\ndb-system-id=1\ndb-version=\"13\"\n\n[db:history]\n1={\"db-catalog-version\":202007201,\"db-control-version\":1300,\"db-system-id\":1,\"db-version\":\"13\"}\n"); }
    if (db) vm_putz("/lock/db.stop", ""); if (all) vm_putz("/lock/all.stop", ""); if (other) vm_putz("/lock/db-x.stop", "");
    const char *a[24]; unsigned k = 0;
    a[k++] = "--stanza=db"; a[k++] = "--repo1-path=/repo1"; a[k++] = "--lock-path=/lock"; a[k++] = "--log-level-file=off"; if (c != 3 && c != 6) a[k++] = "--pg1-path=/pg";
    if (c < 2) { a[k++] = "--compress-type=none"; a[k++] = "--exec-id=1-1"; } if (c == 1) { a[k++] = "--archive-async"; a[k++] = "--spool-path=/spool"; }
    if (c == 2 || c == 3) a[k++] = "--repo1-retention-full=1"; if (c == 4 || c == 5) a[k++] = "--no-online";
    if (c == 0) a[k++] = "/pg/pg_wal/000000010000000100000001"; if (c == 1) a[k++] = "/pg/pg_wal"; a[k] = NULL;
    hCfg(cname[c], a); lockInit(strNewZ("/lock"), strNewZ("1-1"));
    // The stop files may also be unreadable
    if (vh_arg(0)) { vm.rfaultErr = 5; vm.rfaultAt = vm.rop + (uint32_t)vh_range("fault-at", 1, vh_arg(0)); }
    vm.opCount = true; uint32_t op = vm.op; uint32_t before = vm.rop; volatile bool ok = false; volatile int code = 0;
    if (c == 2) vh_assume(db || all);                               // a running backup needs a database
    TRY_BEGIN()
    {
        if (c == 0) cmdArchivePush(); else if (c == 1) cmdArchivePushAsync(); else if (c == 2) cmdBackup(); else if (c == 3) cmdExpire(); else if (c == 4) cmdStanzaCreate(); else cmdStanzaUpgrade();
        ok = true;
    }
    CATCH_FATAL() { code = errorCode(); H_NO_ASSERT(); } TRY_END();
    bool fault = vm.rfaultAt && vm.rop >= vm.rfaultAt; (void)before; if (fault) vh_reach("fault");
    char err[64] = ""; bool status = vm_exists("/spool/archive/db/out/global.error");
    if (db || all)
    {
        vh_reach("refused");
        if (c == 1) { vh_assert(!vm_exists("/spool/archive/db/out/000000010000000100000001.ok"), "segment acknowledged although stopped"); vh_assert(!vm_exists("/repo1/archive/db/13-1"), "segment archived although stopped"); vh_assert(fault || status, "stop not reported to the foreground process"); }
        else { vh_assert(!ok, "command succeeded although stopped"); if (!fault) vh_assert(code == errorTypeCode(&StopError), "stop not reported as such"); vh_assert(vm.op == op, "something was changed although stopped"); }
    }
    else
    {
        if (code != errorTypeCode(&StopError)) vh_reach("allowed");
        vh_assert(code != errorTypeCode(&StopError), "refused although not stopped");
        if (!fault && c == 0 && info) vh_assert(ok, "push failed although not stopped");
        if (!fault && c >= 3 && c != 5 && (info || c == 4)) vh_assert(ok, "command failed although not stopped");
    }
    vh_observe(ok); vh_observe((uint64_t)code);
}

// stanza-delete
void delete_(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000; vm_mkdirs("/pg");
    bool db = vh_bool("db.stop"), all = vh_bool("all.stop"), running = vh_bool("running"), force = vh_bool("force"), two = vh_bool("two-repositories");
    unsigned arc = (unsigned)vh_choose("archive", 0, 2), bak = (unsigned)vh_choose("backup", 0, 2), sel = two ? (unsigned)vh_choose("repo", 1, 2) : 1;
    if (db) vm_putz("/lock/db.stop", ""); if (all) vm_putz("/lock/all.stop", ""); if (running) vm_putz("/pg/postmaster.pid", "1");
    static const char *const other[] = {"/repo1/archive/dbx/archive.info", "/repo1/backup/dbx/backup.info", "/repo1/archive/d/archive.info", "/lock/dbx.stop", "/lock/d.stop"};
    for (unsigned i = 0; i < 5; i++) vm_putz(other[i], "x");
    for (unsigned r = 1; r <= (two ? 2 : 1); r++)
    {
        char p[100];
        if (arc) { snprintf(p, 100, "/repo%u/archive/db", r); vm_mkdirs(p); if (arc == 2) { snprintf(p, 100, "/repo%u/archive/db/archive.info", r); vm_putz(p, "x"); snprintf(p, 100, "/repo%u/archive/db/archive.info.copy", r); vm_putz(p, "x"); snprintf(p, 100, "/repo%u/archive/db/13-1/0000000100000001/000000010000000100000001-aa.gz", r); vm_putz(p, "x"); } }
        if (bak) { snprintf(p, 100, "/repo%u/backup/db", r); vm_mkdirs(p); if (bak == 2) { snprintf(p, 100, "/repo%u/backup/db/backup.info", r); vm_putz(p, "x"); snprintf(p, 100, "/repo%u/backup/db/latest", r); vm_putlink(p, "20200101-000000F"); snprintf(p, 100, "/repo%u/backup/db/20200101-000000F/backup.manifest", r); vm_putz(p, "x"); } }
    }
    const char *a[12]; unsigned k = 0; a[k++] = "--stanza=db"; a[k++] = "--repo1-path=/repo1"; if (two) a[k++] = "--repo2-path=/repo2"; a[k++] = sel == 2 ? "--repo=2" : "--repo=1"; a[k++] = "--lock-path=/lock"; a[k++] = "--pg1-path=/pg"; a[k++] = "--log-level-file=off"; if (force) a[k++] = "--force"; a[k] = NULL;
    hCfg("stanza-delete", a);
    vm.opCount = true; uint32_t op = vm.op; volatile bool ok = false; volatile int code = 0;
    if (vh_arg(0) == 1) vm.crashAt = vm.op + (uint32_t)vh_range("kill-at", 1, 24);
    TRY_BEGIN() { cmdStanzaDelete(); ok = true; } CATCH_FATAL() { code = errorCode(); if (!vm.crashed) H_NO_ASSERT(); } TRY_END();
    bool content = arc == 2 || bak == 2, refused = content && (!db || (running && !force));
    char sa[64], sb[64], oa[64], ob[64]; snprintf(sa, 64, "/repo%u/archive/db", sel); snprintf(sb, 64, "/repo%u/backup/db", sel); snprintf(oa, 64, "/repo%u/archive/db/archive.info", 3 - sel); snprintf(ob, 64, "/repo%u/backup/db/backup.info", 3 - sel);
    if (refused)
    {
        vh_reach("refused"); vh_assert(!ok, "stanza deleted although it is not stopped or PostgreSQL is running"); vh_assert(vm.op == op, "something was changed although refused");
        vh_assert(code == errorTypeCode(!db ? &FileMissingError : &PgRunningError), "refusal not reported as such");
    }
    else if (!vm.crashed)
    {
        vh_reach("deleted"); vh_assert(ok, "stanza not deleted"); vh_assert(!vm_exists(sa) && !vm_exists(sb), "part of the stanza left in the repository");
        if (arc || bak) vh_assert(!vm_exists("/lock/db.stop"), "stop file of the deleted stanza left behind"); else vh_assert(vm_exists("/lock/db.stop") == db, "stop file changed");
    }
    else
    {
        vh_reach("killed"); vm.crashed = false; vm.crashAt = 0;
        // The stop file goes last: a stanza that is partly there is still stopped
        if (vm_exists(sa) || vm_exists(sb)) vh_assert(vm_exists("/lock/db.stop") == db, "stop file removed before the stanza is");
        // What is left is not taken for a stanza whose files are complete
        if (arc == 2) { char i[80], w[120]; snprintf(i, 80, "/repo%u/archive/db/archive.info", sel); snprintf(w, 120, "/repo%u/archive/db/13-1/0000000100000001/000000010000000100000001-aa.gz", sel); char c[80]; snprintf(c, 80, "%s.copy", i); if (!vm_exists(w)) vh_assert(!vm_exists(i) && !vm_exists(c), "archive removed while archive.info still lists it"); }
        if (bak == 2) { char i[80], w[120]; snprintf(i, 80, "/repo%u/backup/db/backup.info", sel); snprintf(w, 120, "/repo%u/backup/db/20200101-000000F/backup.manifest", sel); if (!vm_exists(w)) vh_assert(!vm_exists(i), "backup removed while backup.info still lists it"); }
        // and running the command again completes it
        TRY_BEGIN() { cmdStanzaDelete(); ok = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
        vh_assert(ok && !vm_exists(sa) && !vm_exists(sb), "deletion cannot be completed after it was interrupted");
    }
    for (unsigned i = 0; i < 5; i++) vh_assert(vm_exists(other[i]), "files of another stanza removed");
    vh_assert(vm_exists("/lock/all.stop") == all, "global stop file changed");
    if (two) { if (arc == 2) vh_assert(vm_exists(oa), "another repository changed"); if (bak == 2) vh_assert(vm_exists(ob), "another repository changed"); }
    vh_observe(ok); vh_observe((uint64_t)code);
}
