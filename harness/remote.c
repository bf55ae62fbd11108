// The repository, or the cluster, on another host: same results as when it is local, also when the connection breaks or an operation fails
// exclude: config/config.c protocol/helper.c common/lock.c command/lock.c storage/helper.c storage/remote/protocol.c
#define H_PROC
#include "hcluster.h"
#include "command/archive/get/get.h"
#include "command/archive/push/push.h"
#include "command/stanza/create.h"
#include "command/expire/expire.h"
#define WAL "000000010000000100000001"
#define SEG 20000
static uint8_t page[5 * 8192];
static VmNode *put(const char *rel, const void *d, size_t n, int64_t mtime) { char p[128]; snprintf(p, 128, "/pg/%s", rel); VmNode *x = vm_put(p, d, n); x->mtime = mtime; x->mode = 0600; return x; }
static void mkCluster(void)
{
    int64_t t = vm.now - 1000;
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); vm_lookup("/pg/global/pg_control")->mtime = t; vm_lookup("/pg/global/pg_control")->mode = 0600;
    put("PG_VERSION", "13\n", 3, t); vm_mkdirs("/pg/pg_wal/archive_status"); vm_mkdirs("/pg/pg_tblspc");
    put("base/1/PG_VERSION", "13\n", 3, t); put("base/1/1000", "table", 5, t); put("base/1/1001", "table", 5, t + 1)->mode = 0640; put("empty", "", 0, t); put("postgresql.auto.conf", "a = 'b'\n", 8, t); put("with space & 'quote\"", "x", 1, t);
    for (unsigned i = 0; i < sizeof page; i++) page[i] = (uint8_t)(i * 7 + (i >> 8) + 1); put("base/1/2000", page, sizeof page, t); put("base/1/2001", page, 16384, t);
    vm_putlink("/pg/postgresql.conf", "/etc/pg.conf"); vm_putz("/etc/pg.conf", "conf");
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node != NULL && vm.ent[i].node->type == VM_DIR && hUnder(vm.ent[i].path, "/pg")) vm.ent[i].node->mode = 0700;
    vm_allDurable();
}
// The process on the other host ends before it answers its n-th request
static unsigned dieAt;
static void idle(int fd)
{
    for (unsigned i = 0; i < hLocalTotal; i++) if (hLocal[i].remote && vm.fd[fd].pipe == hLocal[i].out && hLocal[i].in->head < hLocal[i].in->size && !hLocal[i].busy && dieAt && hRemoteRequests + 1 == dieAt)
    {
        dieAt = 0; hRemoteRequests++; vh_reach("connection lost"); hLocal[i].in->head = hLocal[i].in->size; hLocal[i].out->wOpen = 0; hLocal[i].busy = true; return;
    }
    hLocalIdle(fd);
}
static bool run(void (*fn)(void)) { const bool ok = hRun(fn); return ok; }
static void trouble(unsigned max)                                   // arg 0: 0 none, 1 connection lost at any request, 2 ENOSPC or 3 EIO at any operation
{
    dieAt = 0; hRemoteRequests = 0;
    if (vh_arg(0) == 1) dieAt = (unsigned)vh_choose("request", 1, max);
    if (vh_arg(0) == 2) { vm.faultAt = vh_u32("fault"); vh_assume(vm.faultAt != 0); vm.faultErr = 28; hCountOps = true; }
    if (vh_arg(0) == 3) { vm.rfaultAt = vh_u32("fault"); vh_assume(vm.rfaultAt != 0); vm.rfaultErr = 5; hCountOps = true; }
}
static void calm(void) { hCountOps = vm.opCount = false; vm.faultAt = vm.rfaultAt = 0; vm.faultHit = false; dieAt = 0; }
static void init(void) { hInit(); hIdleHook = idle; vm_mkdirs("/lock"); vm_mkdirs("/spool"); vm_mkdirs("/tmp"); vm.uid = 1000; vm.gid = 1000; vm.now = 1600000000; mkCluster(); hRepo("/repo1"); }
static void cmdPush(void) { cmdArchivePush(); }
static int getRes; static void cmdGet(void) { getRes = -1; getRes = cmdArchiveGet(); }
static uint8_t wal[SEG];
static const char *compressOpt;
static bool push(void)
{
    HCFG("archive-push", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo1-host=backup-host", "--log-level-file=off", "--job-retry=0", "--buffer-size=16384", compressOpt, "/pg/pg_wal/" WAL);
    return run(cmdPush);
}
static bool get(void)
{
    HCFG("archive-get", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo1-host=backup-host", "--log-level-file=off", "--job-retry=0", "--buffer-size=16384", WAL, "/pg/pg_wal/RECOVERYXLOG");
    return run(cmdGet);
}
static unsigned segments(void) { unsigned n = 0; for (int i = 0; i < vm.nEnt; i++) { VmEnt *e = &vm.ent[i]; if (e->node && e->node->type == VM_FILE && strstr(e->path, "/0000000100000001/" WAL "-") && strstr(e->path, ".pgbackrest.tmp") == NULL) n++; } return n; }
// A segment is pushed to the other host and read back from there
void archive(void)
{
    init(); for (unsigned i = 0; i < SEG; i++) wal[i] = (uint8_t)(i * 11 + (i >> 7)); hPgWal(wal, HPG_13, SYSID, 16777216);
    compressOpt = vh_arg(0) < 2 && vh_choose("compress", 0, 1) ? "--compress-type=gz" : "--compress-type=none"; put("pg_wal/" WAL, wal, SEG, vm.now);
    const unsigned prior = vh_arg(1) == 2 ? 1 : (unsigned)vh_choose("prior", 0, 2); if (prior == 0 && compressOpt[16] == 'n' && vh_arg(0) == 0) { vh_bytes(wal + 5000, 2, "content"); put("pg_wal/" WAL, wal, SEG, vm.now); } uint8_t other[SEG]; memcpy(other, wal, SEG); if (prior == 2) other[77] ^= 1;
    char hex[80], p[200]; hHash("sha1", other, SEG, hex); snprintf(p, sizeof p, "/repo1/archive/db/13-1/0000000100000001/" WAL "-%s", hex); if (prior) vm_put(p, other, SEG);
    if (vh_arg(0) == 0 && vh_choose("stanza", 0, 1) == 1) { vm_remove("/repo1/archive/db/archive.info"); vm_remove("/repo1/archive/db/archive.info.copy"); vh_assert(!push(), "segment pushed although the stanza does not exist"); vh_reach("no stanza"); vh_end(); }
    if (vh_arg(1) != 2) trouble(14); const bool ok = push(), hit = vm.faultHit || (vh_arg(0) == 1 && vh_arg(1) != 2 && dieAt == 0); calm(); vm_recover("lost");
    if (vm.op && !ok && !hit && prior != 2) { vh_prints("error", hErr); vh_fail("push failed without a reason"); }
    if (ok) { if (vh_arg(15)) { vh_print("prior", prior); vh_print("at", vm.rfaultAt); vh_print("n", segments()); } vh_assert(prior != 2 && segments() == 1, "success reported although the segment is not archived once"); vh_reach("pushed"); } else vh_reach("refused");
    if (prior) vh_assert(vm_equal(p, other, SEG), "archived segment changed");
    vh_assert(segments() <= 1, "segment archived twice");
    if (!ok && prior != 2) { vh_assert(push(), "retry fails"); }
    // Read it back
    if (vh_arg(1) == 2) { trouble(14); } else calm();
    bool g = get(); const bool hit2 = vm.faultHit || (vh_arg(0) == 1 && vh_arg(1) == 2 && dieAt == 0); calm();
    if (g && getRes == 0) { vh_assert(vm_equal("/pg/pg_wal/RECOVERYXLOG", prior == 2 ? other : wal, SEG), "segment read back differs"); vh_reach("read"); }
    else { if (g) vh_assert(getRes == 1 && false, "archived segment reported missing"); if (!hit2) { vh_prints("error", hErr); vh_fail("archived segment could not be read"); } vh_reach("failed"); }
    vh_reach("done");
}
// A backup of a cluster on another host, and a restore from a repository on another host
static const char *bundleOpt;
static bool backup(const char *type, const bool remote)
{
    HCFG("backup", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--no-online", "--repo1-retention-full=9", strdup(type), compressOpt, bundleOpt, strcmp(bundleOpt, "--repo1-block") == 0 ? "--repo1-bundle" : "--process-max=1", remote ? "--pg1-host=pg-host" : "--no-log-timestamp", "--job-retry=0", "--buffer-size=16384", "--no-resume", "--checksum-page");
    lockInit(strNewZ("/lock"), strNewZ("1-1")); return run(cmdBackup);
}
static bool restore(const char *extra, const bool remote)
{
    HCFG("restore", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--spool-path=/spool", extra, remote ? "--repo1-host=backup-host" : "--no-log-timestamp", "--job-retry=0", "--buffer-size=16384", "--link-all");
    lockInit(strNewZ("/lock"), strNewZ("1-1")); return run(cmdRestore);
}
static void options(void)
{
    static const char *const c[] = {"--compress-type=none", "--compress-type=gz"}, *const b[] = {"--no-repo1-bundle", "--repo1-bundle", "--repo1-block"};
    compressOpt = c[vh_arg(8) ? vh_arg(8) - 1 : vh_choose("compress", 0, 1)]; bundleOpt = b[vh_arg(9) ? vh_arg(9) - 1 : vh_choose("layout", 0, 2)];
}
static void repoReset(const HSnap *s)
{
    hRemoveTree("/repo1");
    for (unsigned i = 0; i < s->n; i++) { const HSnapItem *t = &s->item[i]; if (!*t->path) continue; char p[200]; snprintf(p, 200, "/repo1%s", t->path); VmNode *n = t->type == VM_DIR ? vm_mkdirs(p) : t->type == VM_LINK ? vm_putlink(p, t->target) : vm_put(p, t->data, t->size); n->mode = t->mode; n->mtime = t->mtime; }
    vm_allDurable();
}
static void same(const HSnap *a, const char *msg)
{
    for (unsigned i = 0; i < a->n; i++) { const HSnapItem *t = &a->item[i]; char p[200]; snprintf(p, 200, "/repo1%s", t->path); VmNode *n = vm_lookup(p); if (!n || n->type != t->type || n->mode != t->mode || (t->type == VM_FILE && (n->size != t->size || (t->size && memcmp(n->data, t->data, t->size))))) { vh_prints("differs", p); if (n && t->type == VM_FILE && vh_arg(15)) { char *z = malloc(n->size + 1), *y = malloc(t->size + 1); memcpy(z, n->data, n->size); z[n->size] = 0; memcpy(y, t->data, t->size); y[t->size] = 0; vh_prints("remote", z); vh_prints("local", y); } vh_fail(msg); } }
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && hUnder(vm.ent[i].path, "/repo1") && !hSnapFind(a, vm.ent[i].path + 6)) { vh_prints("unexpected", vm.ent[i].path); vh_fail(msg); }
}
static void change(void) { const int64_t t = vm.now + 50000; vm_lookup("/pg/global/pg_control")->mtime = t; put("base/1/1000", "TABLE", 5, t); page[9000]++; put("base/1/2000", page, sizeof page, t); vm_remove("/pg/base/1/1001"); vm_allDurable(); }
void backupRemote(void)
{
    init(); options(); static HSnap before, local; const bool incr = vh_arg(1) != 0; const int64_t t0 = vm.now;
    if (incr) { vm.now += 100000; if (!backup("--type=full", false)) { vh_prints("error", hErr); vh_fail("backup failed"); } change(); }
    hSnapTake(&before, "/repo1"); (void)t0; vm.now += 100000; const int64_t t1 = vm.now; const uint32_t u1 = vm.usec;
    if (!backup(incr ? "--type=incr" : "--type=full", false)) { vh_prints("error", hErr); vh_fail("backup failed"); }
    hSnapTake(&local, "/repo1"); repoReset(&before); vm.now = t1; vm.usec = u1;
    trouble(60); const bool ok = backup(incr ? "--type=incr" : "--type=full", true), hit = vm.faultHit || (vh_arg(0) == 1 && dieAt == 0); calm();
    if (ok) { if (!hit) same(&local, "backup of a cluster on another host differs from a local one"); vh_reach("made"); }
    else { if (!hit) { vh_prints("error", hErr); vh_fail("backup failed"); } vh_reach("failed"); }
    static HSnap pg; hSnapTake(&pg, "/pg"); { hRemoveTree("/pg"); vm_remove("/etc/pg.conf"); } vm.now += 100000;
    if (ok) { if (!restore("--no-delta", false)) { vh_prints("error", hErr); vh_fail("restore failed"); } hSnapSame(&pg, "/pg", "restored cluster differs from the cluster backed up"); }
    vh_reach("done");
}
void restoreRemote(void)
{
    init(); options(); vm.now += 100000; if (!backup("--type=full", false)) { vh_prints("error", hErr); vh_fail("backup failed"); }
    if (vh_arg(1)) { change(); vm.now += 100000; if (!backup("--type=incr", false)) { vh_prints("error", hErr); vh_fail("backup failed"); } }
    static HSnap pg; hSnapTake(&pg, "/pg"); const bool delta = vh_arg(2) != 0;
    if (delta) { page[20000]++; put("base/1/2000", page, sizeof page, vm.now); put("base/1/9", "extra", 5, vm.now); } else { hRemoveTree("/pg"); vm_remove("/etc/pg.conf"); }
    vm.now += 100000; trouble(40); const bool ok = restore(delta ? "--delta" : "--no-delta", true), hit = vm.faultHit || (vh_arg(0) == 1 && dieAt == 0); calm();
    if (ok) { hSnapSame(&pg, "/pg", "cluster restored from another host differs"); vh_reach("made"); }
    else { if (!hit) { vh_prints("error", hErr); vh_fail("restore failed"); } if (vm_exists("/pg/global/pg_control") && !delta) hSnapSame(&pg, "/pg", "failed restore left a startable cluster that is not complete"); vh_reach("failed"); }
    vh_reach("done");
}
