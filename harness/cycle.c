// Backup and restore of whole clusters
#include "hcluster.h"

static const char *bundleOpt, *compressOpt, *saveOpt = "--log-timestamp", *limitOpt = "--job-retry=0";
static uint8_t page[3 * 8192];
static void fill(unsigned seed) { for (unsigned i = 0; i < sizeof page; i++) page[i] = (uint8_t)(i * 7 + (i >> 8) + seed * 31 + 1); }
static VmNode *put(const char *rel, const void *d, size_t n, int64_t mtime) { char p[128]; snprintf(p, 128, "/pg/%s", rel); VmNode *x = vm_put(p, d, n); x->mtime = mtime; x->mode = 0600; return x; }
static void mkCluster(void)
{
    int64_t t = vm.now - 1000;
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); vm_lookup("/pg/global/pg_control")->mtime = t; vm_lookup("/pg/global/pg_control")->mode = 0600;
    put("PG_VERSION", "13\n", 3, t); vm_mkdirs("/pg/pg_wal/archive_status"); vm_mkdirs("/pg/pg_tblspc");
    put("base/1/PG_VERSION", "13\n", 3, t);
    put("base/1/1000", "table", 5, t); put("base/1/1001", "table", 5, t + 1)->mode = 0640;
    put("empty", "", 0, t); put("postgresql.auto.conf", "a = 'b'\n", 8, t);
    fill(1); put("base/1/2000", page, sizeof page, t);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node != NULL && vm.ent[i].node->type == VM_DIR && hUnder(vm.ent[i].path, "/pg")) vm.ent[i].node->mode = 0700;
    vm_allDurable();
}
static bool backup(const char *type, const char *extra)
{
    vm.now += 100000;
    char t[32]; snprintf(t, 32, "--type=%s", type);
    HCFG("backup", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--no-online", "--repo1-retention-full=9", strdup(t), compressOpt, extra, bundleOpt, strcmp(bundleOpt, "--repo1-block") == 0 ? "--repo1-bundle" : "--process-max=1", saveOpt, strcmp(bundleOpt, "--no-repo1-bundle") == 0 || strcmp(bundleOpt, "--repo1-hardlink") == 0 ? "--job-retry=0" : limitOpt);
    lockInit(strNewZ("/lock"), strNewZ("1-1"));
    return hRun(cmdBackup);
}
static bool restore(const char *extra)
{
    vm.now += 100000;
    HCFG("restore", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--spool-path=/spool", extra);
    lockInit(strNewZ("/lock"), strNewZ("1-1"));
    return hRun(cmdRestore);
}
static void init(void)
{
    hInit(); vm_mkdirs("/lock"); vm_mkdirs("/spool"); vm.uid = 1000; vm.gid = 1000; vm.now = 1600000000;
    static const char *const c[] = {"--compress-type=none", "--compress-type=gz"}, *const b[] = {"--no-repo1-bundle", "--repo1-bundle", "--repo1-block"};
    compressOpt = c[vh_arg(8) ? vh_arg(8) - 1 : vh_choose("compress", 0, 1)]; bundleOpt = b[vh_arg(9) ? vh_arg(9) - 1 : vh_choose("layout", 0, 2)];   // 8, 9: fixed
    mkCluster(); hRepo("/repo1");
}

// ---- what happens to the cluster between backups
#define CHANGE_TOTAL 17
static bool change(unsigned c)                                      // false: only a delta backup is expected to notice
{
    int64_t t = vm.now + 50000; vm_lookup("/pg/global/pg_control")->mtime = t;
    switch (c)
    {
        case 0: break;
        case 1: put("base/1/1000", "TABLE", 5, t); break;
        case 2: put("base/1/1000", "tables", 6, t); break;
        case 3: vm_remove("/pg/base/1/1001"); break;
        case 4: put("base/1/1002", "new", 3, t); break;
        case 5: put("base/1/1000", "table", 5, t); break;
        case 6: fill(1); page[8192 + 5]++; put("base/1/2000", page, sizeof page, t); break;
        case 7: fill(1); put("base/1/2000", page, 8192, t); break;
        case 8: fill(1); put("base/1/2000", page, sizeof page - 100, t); break;
        case 9: put("base/1/1000", "", 0, t); break;
        case 10: put("empty", "data", 4, t); break;
        case 11: put("base/1/1000", "TABLE", 5, vm_lookup("/pg/base/1/1000")->mtime - 500); break;
        case 12: put("base/1/1000", "TABLE", 5, vm_lookup("/pg/base/1/1000")->mtime); return false;
        case 13: put("base/1/1000", "TABLE", 5, vm.now + 100000000); break;
        case 14: vm_lookup("/pg/base/1/1000")->mode = 0640; break;
        case 15: put("base/2/1000", "other", 5, t); vm_lookup("/pg/base/2")->mode = 0700; break;
        case 16: vm_remove("/pg/base/1/1001"); vm_mkdirs("/pg/base/1/1001")->mode = 0700; put("base/1/1001/x", "x", 1, t); break;
    }
    vm_allDurable();
    return true;
}
#define DAMAGE_TOTAL 12
static bool damage(unsigned d)                                      // false: --force without checksums is not expected to notice
{
    VmNode *n = vm_lookup("/pg/base/1/2000");
    switch (d)
    {
        case 0: break;
        case 1: n->data[9000]++; return false;
        case 2: put("base/1/2000", n->data, n->size - 1, n->mtime); break;
        case 3: vm_remove("/pg/base/1/2000"); break;
        case 4: put("base/1/3000", "extra", 5, vm.now); break;
        case 5: put("other/3000", "extra", 5, vm.now); break;
        case 6: n->mode = 0644; break;
        case 7: vm_remove("/pg/base/1/2000"); vm_putlink("/pg/base/1/2000", "../../PG_VERSION"); break;
        case 8: vm_remove("/pg/base/1/2000"); put("base/1/2000/x", "x", 1, vm.now); break;
        case 9: { uint8_t *b = malloc(n->size + 5); memcpy(b, n->data, n->size); memset(b + n->size, 1, 5); put("base/1/2000", b, n->size + 5, n->mtime); break; }
        case 10: vm_lookup("/pg/base")->mode = 0755; break;
        case 11: n->data[9000]++; n->mtime += 5; break;
    }
    vm_allDurable();
    return true;
}
static void restored(const HSnap *s)
{
    hSnapSame(s, "/pg", "restored cluster differs from the cluster backed up");
    vm_recover("power loss after the restore");
    hSnapSame(s, "/pg", "restored cluster does not survive a power loss");
}
// Full backup, a change, another backup, restore to an empty directory or over a damaged cluster
void cycle(void)
{
    init(); static HSnap snap;
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    if (vh_arg(0))
    {
        bool seen = change((unsigned)vh_choose("change", 0, CHANGE_TOTAL - 1)), delta = vh_bool("delta");
        if (!seen && !delta) vh_end();
        static const char *const types[] = {"incr", "diff"};
        if (!backup(types[vh_arg(0) == 2 ? vh_choose("type", 0, 1) : 0], delta ? "--delta" : "--no-delta")) { vh_prints("error", hErr); vh_fail("backup failed"); }
    }
    hSnapTake(&snap, "/pg");
    if (vh_arg(1))
    {
        bool seen = damage((unsigned)vh_choose("damage", 0, DAMAGE_TOTAL - 1)), force = vh_bool("force");
        if (!seen && force) vh_end();
        if (!restore(force ? "--force" : "--delta")) { vh_prints("error", hErr); vh_fail("restore failed"); }
    }
    else
    {
        hRemoveTree("/pg");
        if (!restore("--no-delta")) { vh_prints("error", hErr); vh_fail("restore failed"); }
    }
    restored(&snap);
    vh_reach("done");
}
// ---- labels and completeness of what the repository advertises
static char labels[4][48]; static unsigned nLabel;
static void labelNow(void)                                          // the newest backup directory with a manifest
{
    char best[48] = "";
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; char *m; if (e->node == NULL || strncmp(e->path, "/repo1/backup/db/", 17) != 0 || (m = strstr(e->path, "/backup.manifest")) == NULL || m[16] != 0 || strncmp(e->path + 17, "backup.history", 14) == 0) continue;
        char l[48]; size_t n = (size_t)(m - e->path) - 17; if (n > 47) continue; memcpy(l, e->path + 17, n); l[n] = 0;
        if (strcmp(l, best) > 0) snprintf(best, 48, "%s", l);
    }
    vh_assert(*best && (nLabel == 0 || strcmp(best, labels[nLabel - 1]) > 0), "the new backup's label does not sort after the earlier ones");
    snprintf(labels[nLabel++], 48, "%s", best);
}
static bool listed(const char *label)                               // in backup.info
{
    VmNode *n = vm_lookup("/repo1/backup/db/backup.info"); char k[60]; snprintf(k, 60, "\n%s={", label);
    char *t = malloc(n->size + 1); memcpy(t, n->data, n->size); t[n->size] = 0; bool r = strstr(t, k) != NULL; free(t); return r;
}
static unsigned listedTotal(void) { VmNode *n = vm_lookup("/repo1/backup/db/backup.info"); unsigned c = 0; char *t = malloc(n->size + 1); memcpy(t, n->data, n->size); t[n->size] = 0; for (char *p = t; (p = strstr(p, "\"backrest-format\"")) != NULL; p++) c++; free(t); return c; }
static bool restoreSet(const char *label, const HSnap *s)
{
    char set[60]; snprintf(set, 60, "--set=%s", label); hRemoveTree("/pg");
    if (!restore(strdup(set))) return false;
    restored(s); return true;
}
// Chain of three backups of a file whose pages change, any of them restored
static void blocks(const char *name)
{
    static uint8_t v[4]; unsigned n = (unsigned)vh_choose(name, vh_arg(2) ? 0 : 1, vh_arg(5)), m = (unsigned)vh_choose(name, 0, (1u << vh_arg(5)) - 1);
    for (unsigned i = 0; i < 4; i++) if (m & 1 << i) { v[i]++; if (i >= n) vh_end(); }
    static uint8_t b[4 * 8192]; for (unsigned i = 0; i < sizeof b; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + 1 + v[i / 8192] * 3);
    put("base/1/2000", b, n * 8192 - (n ? vh_arg(3) : 0), vm.now + 50000); vm_lookup("/pg/global/pg_control")->mtime = vm.now + 50000;
}
void chain(void)
{
    init(); static HSnap snap[3]; nLabel = 0;
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    labelNow(); hSnapTake(&snap[0], "/pg");
    for (unsigned i = 1; i < 3; i++)
    {
        blocks(i == 1 ? "pages 1" : "pages 2");
        if (!backup(vh_arg(4) && i == 2 ? "diff" : "incr", "--no-delta")) { vh_prints("error", hErr); vh_fail("backup failed"); }
        labelNow(); hSnapTake(&snap[i], "/pg");
    }
    vh_assert(listedTotal() == 3 && listed(labels[0]) && listed(labels[1]) && listed(labels[2]), "backup.info does not list the backups made");
    unsigned w = (unsigned)vh_choose("set", 1, 2);
    if (!restoreSet(labels[w], &snap[w])) { vh_prints("error", hErr); vh_fail("restore failed"); }
    vh_reach("done");
}
// Backups of a set made with different options each (compression, plain/hard-linked/bundled/block incremental), any of them restored. 0: number of backups after the full one
static void anyOpt(const char *name)
{
    static const char *const b[] = {"--no-repo1-bundle", "--repo1-bundle", "--repo1-block", "--repo1-hardlink"};
    bundleOpt = b[vh_choose(name, 0, 3)];
}
void mixed(void)
{
    init(); static HSnap snap[4]; nLabel = 0; unsigned total = (unsigned)vh_arg(0) + 1;
    anyOpt("layout"); if (vh_arg(4)) compressOpt = "--compress-type=none";
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    labelNow(); hSnapTake(&snap[0], "/pg");
    for (unsigned i = 1; i < total; i++)
    {
        static const unsigned c[] = {6, 8, 2, 10, 0, 4, 9}; change(c[vh_choose("change", 0, vh_arg(1))]); anyOpt("next layout"); if (vh_arg(4)) compressOpt = "--compress-type=gz";
        if (!backup(vh_arg(3) ? "diff" : "incr", vh_arg(2) && vh_bool("delta") ? "--delta" : "--no-delta")) { vh_prints("error", hErr); vh_fail("backup failed"); }
        labelNow(); hSnapTake(&snap[i], "/pg");
    }
    for (unsigned i = 0; i < total; i++) if (!restoreSet(labels[i], &snap[i])) { vh_prints("error", hErr); vh_fail("restore failed"); }
    vh_reach("done");
}
// A backup is interrupted or fails at any point (4: the manifest is saved after each file so that the next backup resumes, 5: which uses other options)
static void secondOpt(void)
{
    static const char *const c[] = {"--compress-type=none", "--compress-type=gz"}, *const b[] = {"--no-repo1-bundle", "--repo1-bundle", "--repo1-block"};
    compressOpt = c[vh_choose("second compress", 0, 1)]; bundleOpt = b[vh_choose("second layout", 0, 2)]; limitOpt = vh_arg(5) == 2 ? "--repo1-bundle-limit=8KiB" : "--job-retry=0";
}
void interrupt(void)
{
    init(); if (vh_arg(4)) saveOpt = "--manifest-save-threshold=1"; if (vh_arg(4) == 2) limitOpt = "--repo1-bundle-limit=8KiB"; static HSnap snap[2]; nLabel = 0; unsigned mode = (unsigned)vh_arg(0); bool incr = vh_arg(1) != 0; vm.recoverDeviate = true;
    if (incr)
    {
        if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
        labelNow(); hSnapTake(&snap[0], "/pg"); change(6);
    }
    vm.opCount = true; vm.op = 0;
    if (mode != 1) vm.crashAt = (uint32_t)vh_range("crash", 1, vh_arg(2)); else { vm.faultAt = (uint32_t)vh_range("fault", 1, vh_arg(2)); vm.faultErr = 28; }
    bool ok = backup(incr ? "incr" : "full", "--no-delta"); vm.opCount = false;
    if (vm.crashed) { if (mode == 2) vm.crashed = false; else vm_recover("survived"); vh_reach("crashed"); } else if (vm.faultHit) vh_reach("fault");
    bool advertised = false; unsigned n = listedTotal();
    hSnapTake(&snap[1], "/pg"); vm.faultAt = 0; vm.crashAt = 0;
    if (ok) vh_assert(n == 1u + incr, "a successful backup is missing from backup.info");
    if (n > incr) { advertised = true; labelNow(); vh_assert(listed(labels[nLabel - 1]), "backup.info lists a backup without manifest"); }
    // What is advertised can be restored
    if (advertised) { if (!restoreSet(labels[nLabel - 1], &snap[1])) { vh_prints("error", hErr); vh_fail("an advertised backup cannot be restored"); } vh_reach("advertised"); }
    else
    {
        if (incr) vh_assert(listed(labels[0]), "the prior backup was lost");
        // Run again, possibly resuming
        unsigned again = vh_arg(3) ? (unsigned)vh_choose("again", 0, vh_arg(3)) : 0;
        if (again) { static const unsigned c[] = {0, 1, 6, 12, 3}; change(c[again]); }
        hSnapTake(&snap[1], "/pg"); if (vh_arg(5)) secondOpt();
        if (!backup(incr ? "incr" : "full", again == 0 || again == 3 ? "--delta" : "--no-delta")) { vh_prints("error", hErr); vh_fail("the backup cannot be repeated"); }
        if (!vh_arg(5)) vm_recover("power loss after the repeated backup");
        labelNow();
        if (!restoreSet(labels[nLabel - 1], &snap[1])) { vh_prints("error", hErr); vh_fail("the repeated backup cannot be restored"); }
        vh_reach("repeated");
    }
    if (incr && !restoreSet(labels[0], &snap[0])) { vh_prints("error", hErr); vh_fail("the prior backup cannot be restored"); }
    vh_reach("done");
}
// ---- restore is interrupted or fails at any point
static bool snapIs(const HSnap *s, const char *root)
{
    unsigned n = 0;
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; if (e->node == NULL || !hUnder(e->path, root)) continue;
        const HSnapItem *t = hSnapFind(s, e->path + strlen(root)); n++;
        if (t == NULL || t->type != e->node->type || (t->type == VM_FILE && (t->size != e->node->size || (t->size && memcmp(t->data, e->node->data, t->size) != 0)))) return false;
    }
    return n == s->n;
}
void restoreInterrupt(void)
{
    init(); static HSnap snap, before; unsigned mode = (unsigned)vh_arg(0); vm.recoverDeviate = true;
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    hSnapTake(&snap, "/pg");
    if (vh_arg(1)) { static const unsigned d[] = {0, 1, 3, 4, 5}; damage(d[vh_choose("damage", 1, vh_arg(1))]); } else hRemoveTree("/pg");
    hSnapTake(&before, "/pg");
    vm.opCount = true; vm.op = 0;
    if (mode != 1) vm.crashAt = (uint32_t)vh_range("crash", 1, vh_arg(2)); else { vm.faultAt = (uint32_t)vh_range("fault", 1, vh_arg(2)); vm.faultErr = 28; }
    bool ok = restore(vh_arg(1) ? "--delta" : "--no-delta"); vm.opCount = false;
    if (vm.crashed) { if (mode == 2) vm.crashed = false; else vm_recover("survived"); vh_reach("crashed"); } else if (vm.faultHit) vh_reach("fault");
    vm.faultAt = vm.crashAt = 0; vm.crashed = false;
    if (ok) hSnapSame(&snap, "/pg", "restored cluster differs from the cluster backed up");
    else if (vm_exists("/pg/global/pg_control"))
    {
        vh_assert(snapIs(&snap, "/pg") || snapIs(&before, "/pg"), "an incomplete restore left a cluster that can be started");
        vh_reach("startable");
    }
    bool retry = vm_exists("/pg/PG_VERSION") || vm_exists("/pg/backup.manifest");
    bool again = restore("--delta");
    if (again) { hSnapSame(&snap, "/pg", "cluster restored after an interruption differs from the cluster backed up");
        vm_recover("power loss after the repeated restore"); hSnapSame(&snap, "/pg", "cluster restored after an interruption does not survive a power loss"); vh_reach("repeated"); }
    else { if (retry) vh_prints("error", hErr); vh_assert(!retry, "the restore cannot be repeated"); vh_assert(!vm_exists("/pg/global/pg_control"), "a refused restore left pg_control"); }
    vh_reach("done");
}
// ---- a file of the repository is damaged
void corrupt(void)
{
    init(); static HSnap snap; nLabel = 0;
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    labelNow();
    if (vh_arg(0)) { change(6); if (!backup("incr", "--no-delta")) { vh_prints("error", hErr); vh_fail("backup failed"); } labelNow(); }
    hSnapTake(&snap, "/pg");
    unsigned list[64], n = 0;
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && vm.ent[i].node->type == VM_FILE && strncmp(vm.ent[i].path, "/repo1/backup/db/2", 18) == 0 && strstr(vm.ent[i].path, ".copy") == NULL) list[n++] = (unsigned)i;
    VmEnt *e = &vm.ent[list[vh_choose("file", 0, n - 1)]]; VmNode *x = e->node;
    switch (vh_choose("kind", 2, 5))
    {
        case 2: { if (x->size == 0) vh_end(); size_t o = vh_choose("offset", 0, 4); o = o == 4 ? x->size - 1 : x->size * o / 4; x->data[o] ^= (uint8_t)(1 + vh_choose("bit", 0, 1) * 0x7f); break; }
        case 3: if (x->size == 0) vh_end(); x->size--; break;
        case 4: x->size = 0; break;
        case 5: e->node = NULL; break;
    }
    vm_allDurable();
    hAllowAssert = true; bool delta = vh_arg(1) != 0; if (!delta) hRemoveTree("/pg"); else damage(1);
    vh_assert(!vm_exists("/pg/backup.manifest"), "");
    if (restore(delta ? "--delta" : "--no-delta")) { hSnapSame(&snap, "/pg", "restore from a damaged repository succeeded with a different cluster"); vh_reach("unaffected"); }
    else { vh_assert(!vm_exists("/pg/global/pg_control") || delta, "failed restore left a startable cluster"); vh_reach("refused"); }
    vh_reach("done");
}
// ---- tablespaces and links
static bool sameFile(const char *path, const char *z, unsigned mode) { VmNode *n = vm_lookup(path); return n && n->type == VM_FILE && n->mode == mode && vm_equal(path, z, strlen(z)); }
static bool isLink(const char *path, const char *to) { VmNode *n = vm_lookup(path); return n && n->type == VM_LINK && strcmp(n->target, to) == 0; }
static bool isDir(const char *path) { VmNode *n = vm_lookup(path); return n && n->type == VM_DIR; }
void links(void)
{
    init(); bool existing = vh_arg(0) != 0;
    // Tablespaces 16384 and 163840, a linked directory and a linked file
    vm_put("/ts/a/PG_13_202007201/1/3000", "ts-a", 4)->mode = 0600; vm_put("/ts/b/PG_13_202007201/1/3001", "ts-b", 4)->mode = 0600; vm_putz("/ts/a/other", "not ours"); vm_put("/ts/a/PG_12_201909212/1/3000", "old version", 11);
    vm_putlink("/pg/pg_tblspc/16384", "/ts/a"); vm_putlink("/pg/pg_tblspc/163840", "/ts/b");
    vm_put("/wal/archive_status/x.ready", "", 0)->mode = 0600; vm_remove("/pg/pg_wal/archive_status"); vm_remove("/pg/pg_wal"); vm_putlink("/pg/pg_wal", "/wal");
    vm_put("/etc/pg/postgresql.conf", "conf", 4)->mode = 0600; vm_putz("/etc/pg/pg_hba.conf", "not ours"); vm_putlink("/pg/postgresql.conf", "../etc/pg/postgresql.conf");
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && vm.ent[i].node->type == VM_DIR && (hUnder(vm.ent[i].path, "/ts") || hUnder(vm.ent[i].path, "/wal"))) vm.ent[i].node->mode = 0700;
    vm_allDurable();
    if (!backup("full", "--no-delta")) { vh_prints("error", hErr); vh_fail("full backup failed"); }
    // The original places are in use by something else or still hold the cluster
    if (!existing)
    {
        hRemoveTree("/pg"); vm_remove("/ts/a/PG_13_202007201/1/3000"); vm_remove("/ts/a/PG_13_202007201/1"); vm_remove("/ts/a/PG_13_202007201"); vm_remove("/ts/b/PG_13_202007201/1/3001"); vm_remove("/ts/b/PG_13_202007201/1"); vm_remove("/ts/b/PG_13_202007201");
        vm_remove("/wal/archive_status/x.ready"); vm_remove("/wal/archive_status"); vm_remove("/etc/pg/postgresql.conf");
    }
    else { vm_put("/pg/pg_tblspc/16384x", "x", 1); vm_put("/ts/a/PG_13_202007201/1/9999", "extra", 5); vm_put("/wal/extra", "extra", 5); vm_lookup("/ts/b/PG_13_202007201/1/3001")->data[0] = 'X'; }
    vm_allDurable();
    unsigned ts = (unsigned)vh_choose("tablespace option", 0, 2), ln = (unsigned)vh_choose("link option", 0, 3);
    vm.now += 100000;
    HCFG("restore", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--spool-path=/spool", existing ? "--delta" : "--no-delta",
        ts == 1 ? "--tablespace-map=16384=/new/a" : ts == 2 ? "--tablespace-map-all=/all" : "--process-max=1", ln == 0 ? "--job-retry=0" : ln == 1 ? "--link-all" : ln == 2 ? "--link-map=pg_wal=/new/wal" : "--link-map=postgresql.conf=/new/etc/postgresql.conf");
    lockInit(strNewZ("/lock"), strNewZ("1-1"));
    bool ok = hRun(cmdRestore);
    if (!ok) { vh_prints("error", hErr); vh_fail("restore failed"); }
    const char *a = ts == 1 ? "/new/a" : ts == 2 ? "/all/ts16384" : "/ts/a", *b = ts == 2 ? "/all/ts163840" : "/ts/b"; char p[128];
    if (vh_arg(14)) { vh_print("ts", ts); vh_print("ln", ln); vm_dump(); }
    vh_assert(isLink("/pg/pg_tblspc/16384", a) && isLink("/pg/pg_tblspc/163840", b), "tablespace link wrong");
    snprintf(p, 128, "%s/PG_13_202007201/1/3000", a); vh_assert(sameFile(p, "ts-a", 0600), "tablespace file wrong");
    snprintf(p, 128, "%s/PG_13_202007201/1/9999", a); vh_assert(!vm_exists(p), "tablespace not cleaned");
    snprintf(p, 128, "%s/PG_13_202007201/1/3001", b); vh_assert(sameFile(p, "ts-b", 0600), "tablespace file wrong");
    vh_assert(!vm_exists("/pg/pg_tblspc/16384x"), "unknown file kept in pg_tblspc");
    const char *w = ln == 1 ? "/wal" : ln == 2 ? "/new/wal" : NULL;
    if (w) { vh_assert(isLink("/pg/pg_wal", w), "directory link wrong"); snprintf(p, 128, "%s/archive_status", w); vh_assert(isDir(p), "linked directory wrong"); snprintf(p, 128, "%s/extra", w); vh_assert(!vm_exists(p), "linked directory not cleaned"); }
    else vh_assert(isDir("/pg/pg_wal") && isDir("/pg/pg_wal/archive_status"), "directory not restored");
    const char *c = ln == 1 ? "/etc/pg/postgresql.conf" : ln == 3 ? "/new/etc/postgresql.conf" : NULL;
    if (c) { vh_assert(isLink("/pg/postgresql.conf", ln == 1 ? "../etc/pg/postgresql.conf" : c) && sameFile(c, "conf", 0600), "file link wrong"); }
    else vh_assert(sameFile("/pg/postgresql.conf", "conf", 0600), "linked file not restored");
    // Nothing else is touched
    vh_assert(vm_equal("/etc/pg/pg_hba.conf", "not ours", 8) && vm_equal("/ts/a/other", "not ours", 8) && vm_equal("/ts/a/PG_12_201909212/1/3000", "old version", 11), "restore changed a file outside of the cluster");
    if (existing && ts != 0) vh_assert(vm_equal("/ts/a/PG_13_202007201/1/9999", "extra", 5), "restore changed the original location of a tablespace that is mapped elsewhere");
    if (existing && ln != 1) vh_assert(vm_equal("/wal/extra", "extra", 5), "restore changed the original location of a link that is not used");
    vh_reach("done");
}
