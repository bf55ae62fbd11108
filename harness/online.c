// Online backups: what is copied and recorded, and which WAL must be there
// exclude: config/config.c protocol/helper.c common/lock.c command/lock.c storage/helper.c storage/remote/protocol.c
#define H_PROC
#include "hserver.h"
#include "command/check/check.h"
static unsigned idx; static const char *repoDir = "/repo1";
static VmNode *put(const char *root, const char *rel, const void *d, size_t n, int64_t mtime) { char p[128]; snprintf(p, 128, "%s/%s", root, rel); VmNode *x = vm_put(p, d, n); x->mtime = mtime; x->mode = 0600; return x; }
static const char *verName(void) { const unsigned v = hPgVersion[idx].version; return v >= 100000 ? hZ("%u", v / 10000) : hZ("%u.%u", v / 10000, v / 100 % 100); }
static void mkCluster(const char *root, const char *content)
{
    int64_t t = vm.now - 1000; char v[16]; snprintf(v, 16, "%s\n", verName());
    put(root, "PG_VERSION", v, strlen(v), t); put(root, "base/1/PG_VERSION", v, strlen(v), t);
    put(root, "base/1/1000", content, strlen(content), t); put(root, "base/1/1001", "other", 5, t); put(root, "empty", "", 0, t);
    put(root, "postgresql.conf", root, strlen(root), t); put(root, "backup_label", "stale", 5, t); put(root, "postmaster.pid", "1", 1, t);
    put(root, hPgVersion[idx].version >= 100000 ? "pg_wal/000000010000000000000001" : "pg_xlog/000000010000000000000001", "wal", 3, t); char d[64]; snprintf(d, 64, "%s/pg_tblspc", root); vm_mkdirs(d);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node != NULL && vm.ent[i].node->type == VM_DIR && hUnder(vm.ent[i].path, root)) vm.ent[i].node->mode = 0700;
}
static void repo(void)
{
    HPgHist h[1] = {{1, verName(), SYSID}}; hArchiveInfoHist(repoDir, h, 1); hBackupInfoHist(repoDir, h, 1, NULL); hArchDir = hZ("%s/archive/db/%s-1", repoDir, verName());
}
static void init(const bool allVersions)
{
    hInit(); vm_mkdirs("/lock"); vm_mkdirs("/spool"); vm.uid = 1000; vm.gid = 1000; vm.now = 1600000000;
    idx = allVersions ? (unsigned)vh_choose("version", 0, HPG_TOTAL - 1) : HPG_13;
    hServerInit(); mkCluster("/pg", "table"); repo();
}
static bool listed(void) { VmNode *n = vm_lookup("/repo1/backup/db/backup.info"); char *t = malloc(n->size + 1); memcpy(t, n->data, n->size); t[n->size] = 0; return strstr(t, "\"backrest-format\"") != NULL; }
static const char *manifest(void)                                   // the text of the only manifest
{
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; size_t n = strlen(e->path); if (!e->node || n < 40 || strncmp(e->path, "/repo1/backup/db/2", 18) != 0 || strcmp(e->path + n - 16, "/backup.manifest") != 0) continue;
        char *t = malloc(e->node->size + 1); memcpy(t, e->node->data, e->node->size); t[e->node->size] = 0; return t;
    }
    vh_fail("no manifest");
}
static const char *repoFile(const char *rel)                        // the text of a file of the only backup
{
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; size_t n = strlen(e->path), k = strlen(rel); if (!e->node || strncmp(e->path, "/repo1/backup/db/2", 18) != 0 || n < k + 20 || strcmp(e->path + n - k, rel) != 0) continue;
        char *t = malloc(e->node->size + 1); memcpy(t, e->node->data, e->node->size); t[e->node->size] = 0; return t;
    }
    return NULL;
}
static const char *infoText(void) { VmNode *n = vm_lookup("/repo1/backup/db/backup.info"); char *t = malloc(n->size + 1); memcpy(t, n->data, n->size); t[n->size] = 0; return t; }
static void hasPair(const char *text, const char *key, const char *value, const char *msg)
{
    char k[200]; snprintf(k, 200, "%s\"%s\"", key, value); if (!hHas(text, k)) { vh_prints("expected", k); vh_prints("in", text); vh_fail(msg); }
}
static bool backup(const char *const *extra)
{
    const char *a[40] = {"--stanza=db", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--repo1-retention-full=9", "--compress-type=none", "--type=full", "--archive-timeout=5", "--db-timeout=30", "--protocol-timeout=31", "--no-resume"}; unsigned n = 11;
    while (*extra) a[n++] = *extra++; a[n] = NULL;
    hCfg("backup", a); lockInit(strNewZ("/lock"), strNewZ("1-1")); return hRun(cmdBackup);
}
#define BACKUP(...) backup((const char *const[]){__VA_ARGS__, NULL})
// ---- what the backup reads while it runs
static unsigned mutate; static bool mutated; static uint64_t copied; static const char *copyRoot;
static void opened(const char *path, int flags)
{
    (void)flags; HServer *s = &hServer[0];
    for (unsigned i = 0; i < 3; i++) if (hServer[i].path && hUnder(path, hServer[i].path))
    {
        const char *rel = path + strlen(hServer[i].path);
        if (strcmp(rel, "/PG_VERSION") == 0 || strcmp(rel, "/global/pg_control") == 0 || strcmp(rel, "/postmaster.pid") == 0 || vm_lookup(path) == NULL || vm_lookup(path)->type != VM_FILE) continue;
        if (s->backup != 1) { vh_prints("file", path); vh_fail("file of the cluster is read while no backup is in progress"); }
        if (hServer[i].recovery) vh_assert(hServer[i].replay > s->start && hServer[i].checkpointDone && hServer[i].checkpoint >= s->start, "file of the standby is read before it has replayed and written out what precedes the backup");
        copied++;
    }
    // pg_control is being written: every other read sees it torn
    if (mutate == 7 && s->backup == 1 && strcmp(path, "/pg/global/pg_control") == 0) { mutated = true; vm_lookup(path)->data[hPgVersion[idx].oCheckpoint + 1] ^= 0x55; }
    if (s->backup == 1 && !mutated && mutate && hUnder(path, "/repo1/backup/db") && hHas(path, "/base/1/"))
    {
        mutated = true; int64_t t = vm.now;
        switch (mutate)
        {
            case 1: vm_remove("/pg/base/1/1001"); break;
            case 2: put("/pg", "base/1/1001", "other and more", 14, t); break;
            case 3: put("/pg", "base/1/1001", "oth", 3, t); break;
            case 4: put("/pg", "base/1/1002", "new", 3, t); break;
            case 5: put("/pg", "base/1/1001", "OTHER", 5, t); break;
            case 6: s->checkpoint = s->start + 0x80; hControl(s, s->start + 0x80); break;
        }
    }
}
static void restoreHere(const char *opt)
{
    hRemoveTree("/pg"); vm.now += 100000;
    HCFG("restore", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--spool-path=/spool", opt); lockInit(strNewZ("/lock"), strNewZ("1-1"));
    if (!hRun(cmdRestore)) { vh_prints("error", hErr); vh_fail("restore failed"); }
}
static void recorded(const HServer *s)
{
    const char *m = manifest(), *b = infoText();
    hasPair(m, "backup-lsn-start=", hLsnZ(s->start), "start position recorded wrongly"); hasPair(m, "backup-lsn-stop=", hLsnZ(s->stop), "stop position recorded wrongly");
    hasPair(m, "backup-archive-start=", hWalFile(s->tl, s->start), "first WAL segment recorded wrongly"); hasPair(m, "backup-archive-stop=", hWalFile(s->tl, s->stop), "last WAL segment recorded wrongly");
    hasPair(b, "\"backup-lsn-start\":", hLsnZ(s->start), "start position listed wrongly"); hasPair(b, "\"backup-lsn-stop\":", hLsnZ(s->stop), "stop position listed wrongly");
    hasPair(b, "\"backup-archive-start\":", hWalFile(s->tl, s->start), "first WAL segment listed wrongly"); hasPair(b, "\"backup-archive-stop\":", hWalFile(s->tl, s->stop), "last WAL segment listed wrongly");
    vh_assert(s->backup == 2, "recorded backup was not stopped on the server");
}
static bool allArchived(const HServer *s) { const uint64_t end = (s->stop - 1) / hSeg; for (uint64_t g = s->start / hSeg; g <= end; g++) if (!hArchived(g)) return false; return true; }
static bool fileIs(const char *path, const char *z) { return vm_equal(path, z, strlen(z)); }
static uint64_t activity(const unsigned c, const uint64_t lsn) { switch (c) { case 0: return 0x100; case 1: return hSeg - lsn % hSeg; case 2: return 2 * (uint64_t)hSeg + 0x500; default: return hSeg - lsn % hSeg - 1; } }
// One server: WAL positions, archiver, concurrent changes
static const char *spcmap;
static unsigned actSel; static void act(HServer *s, const char *q) { if (hHas(q, "backup_stop") || hHas(q, "stop_backup")) s->activity = activity(actSel, s->lsn); }
void online(void)
{
    init(vh_arg(0) == 0); static const uint64_t lsns[] = {0x15000100, 0x2000028, 0xFE800000, 0x1FF000000}; mutate = 0; mutated = false; copied = 0;
    const uint64_t lsn = lsns[vh_arg(0) == 1 ? vh_choose("lsn", 0, 3) : 0];
    hServerSet(0, idx, "/pg", lsn); hServer[0].spcmap = spcmap = vh_arg(0) == 2 && vh_choose("map", 0, 1) ? "16390 /ts\n" : ""; hArchNext = (lsn - 1) / hSeg; hOnQuery = act; actSel = 0; vm.onOpen = opened;
    uint64_t missing = 0;
    if (vh_arg(0) == 1) { actSel = (unsigned)vh_choose("activity", 0, 3); missing = vh_choose("archiver stops", 0, 4); hArchEnd = missing ? lsn / hSeg + missing - 1 : ~0ULL; }
    if (vh_arg(0) == 2) mutate = (unsigned)vh_choose("change", 0, 7);
    const bool check = vh_arg(0) != 1 || vh_choose("check", 0, 1);
    hServer[0].sum = vh_arg(0) == 0 ? (unsigned)vh_choose("checksums", 0, 1) : 0; hControl(&hServer[0], lsn - 0x20);
    bool ok = BACKUP("--pg1-path=/pg", check ? "--archive-check" : "--no-archive-check", vh_arg(0) == 0 && vh_choose("fast", 0, 1) ? "--start-fast" : "--no-start-fast");
    if (!ok) while (hServer[0].conn) hClose(0);                     // the process ended
    const HServer *const s = &hServer[0]; vh_assert(s->conn == 0, "connection left open");
    if (ok)
    {
        recorded(s); if (check) vh_assert(allArchived(s), "backup recorded although WAL it needs is not in the archive");
        vh_assert(copied >= 3, "model check"); vh_reach("recorded");
        hasPair(manifest(), "db-version=", verName(), "server version recorded wrongly");
        vm.onOpen = NULL; const HServer *const k = s; restoreHere("--type=none");
        vh_assert(fileIs("/pg/backup_label", k->label), "backup_label differs from what the server returned");
        const char *const map = repoFile("pg_data/tablespace_map");
        vh_assert(*spcmap ? map != NULL && strcmp(map, spcmap) == 0 : map == NULL, "tablespace_map differs from what the server returned");
        vh_assert(fileIs("/pg/base/1/1000", "table") && !vm_exists("/pg/postmaster.pid") && vm_exists("/pg/empty") && !vm_exists("/pg/pg_wal/000000010000000000000001") && !vm_exists("/pg/pg_xlog/000000010000000000000001"), "restored files wrong");
        const VmNode *n = vm_lookup("/pg/base/1/1001"); static const char *const files[] = {"other", NULL, "other", "oth", "other", "OTHER", "other", "other"};
        if (mutated) vh_reach("changed");
        // A file changed while the backup runs is there as it was at some moment of it
        if (mutate == 1) vh_assert(n == NULL || fileIs("/pg/base/1/1001", "other"), "removed file restored wrongly");
        else vh_assert(n != NULL && (fileIs("/pg/base/1/1001", files[mutate]) || fileIs("/pg/base/1/1001", "other")), "file changed during the backup restored wrongly");
        // pg_control is one written since the backup started, made unusable without backup_label
        n = vm_lookup("/pg/global/pg_control"); if (vh_arg(14)) { vh_print("size", n->size); vh_print("ctl", n->data[500]); vh_print("start", k->ctlStart); } static uint8_t want[8192]; hPgControl(want, idx, SYSID, 0xDEAD, 1, 8192, hSeg, k->sum); vh_assert(n->size == 8192 && n->data[500] >= k->ctlStart && n->data[501] == 0, "restored pg_control is older than the start of the backup");
        want[500] = n->data[500]; vh_assert(memcmp(n->data, want, 8192) == 0, "restored pg_control is not the server's with its checkpoint made unusable");
    }
    else
    {
        vh_assert(!listed(), "failed backup is listed"); vh_reach("failed");
        vh_assert(check, "backup failed although nothing is wrong"); vh_assert(s->backup == 0 || s->backup == 2 , "backup left running on the server");
        if (vh_arg(14)) { vh_print("act", actSel); vh_print("missing", missing); vh_print("start", s->start); vh_print("stop", s->stop); vh_print("next", hArchNext); }
        if (missing == 0 || (s->backup == 2 && allArchived(s) && hArchEnd > s->stop / hSeg)) { vh_prints("error", hErr); vh_fail("backup failed although all WAL is archived"); }
    }
    vh_reach("done");
}

// The WAL a backup needs is kept in it
void copy(void)
{
    init(false); hSeg = 1048576; hArchSize = hSeg; const uint64_t lsn = 0xFFE00100; mutate = 0; copied = 0; spcmap = "";
    hServerSet(0, idx, "/pg", lsn); hArchNext = (lsn - 1) / hSeg; hOnQuery = act; actSel = (unsigned)vh_choose("activity", 0, 1); vm.onOpen = opened;
    if (!BACKUP("--pg1-path=/pg", "--archive-copy", vh_choose("bundle", 0, 1) ? "--repo1-bundle" : "--no-repo1-bundle")) { vh_prints("error", hErr); vh_fail("backup failed"); }
    const HServer k = hServer[0]; recorded(&k); vm.onOpen = NULL; restoreHere("--type=none"); unsigned n = 0;
    for (uint64_t g = k.start / hSeg; g <= (k.stop - 1) / hSeg; g++, n++) { char p[80]; snprintf(p, 80, "/pg/pg_wal/%s", hSegName(1, g)); uint8_t *const b = hArchData(g); vh_assert(vm_equal(p, b, hArchSize), "WAL needed by the backup is not restored with it"); }
    vh_reach("done");
}
// The backup is refused when the server is not the one that is configured or does not archive as it should
void refuse(void)
{
    init(false); const uint64_t lsn = 0x15000100; hServerSet(0, idx, "/pg", lsn); hArchNext = (lsn - 1) / hSeg; vm.onOpen = opened; mutate = 0; copied = 0; HServer *s = &hServer[0];
    const unsigned c = (unsigned)vh_choose("defect", 0, 12); bool check = vh_choose("check", 0, 1), ok = false; const char *extra = "--archive-mode-check";
    switch (c)
    {
        case 0: s->version = 120003; break;
        case 1: s->data = "/pg2"; break;
        case 2: s->archiveMode = "off"; ok = !check; break;
        case 3: s->archiveMode = "always"; ok = !check; break;
        case 4: s->archiveMode = "always"; extra = "--no-archive-mode-check"; ok = true; break;
        case 5: s->archiveCommand = "cp %p /archive/%f"; ok = !check; break;
        case 6: s->archiveCommand = ""; ok = !check; break;
        case 7: s->up = false; break;
        case 8: s->recovery = true; break;
        case 9: { HPgHist h[1] = {{1, "13", SYSID + 1}}; hArchiveInfoHist(repoDir, h, 1); hBackupInfoHist(repoDir, h, 1, NULL); break; }
        case 10: { HPgHist h[1] = {{1, "12", SYSID}}; hArchiveInfoHist(repoDir, h, 1); hBackupInfoHist(repoDir, h, 1, NULL); break; }
        case 11: s->data = NULL; break;
        case 12: s->tl = 2; s->spcmap = ""; hArchTl = 2; break;     // the server is on another timeline than its pg_control
    }
    const bool r = BACKUP("--pg1-path=/pg", check ? "--archive-check" : "--no-archive-check", check ? extra : "--start-fast");
    if (r != ok) { vh_print("defect", c); vh_prints("error", r ? "none" : hErr); vh_fail(ok ? "backup refused although nothing is wrong" : "backup made of a server that is not configured as it should be"); }
    if (!r) vh_assert(!listed() && copied == 0 && (s->backup == 0 || c == 12), "refused backup started, copied files or was listed");
    vh_reach(r ? "made" : "refused"); vh_reach("done");
}
// Backup from a standby
static unsigned promoteAt; static uint64_t sbReplay;
static void actStandby(HServer *s, const char *q)
{
    act(s, q); HServer *sb = &hServer[1];
    if (promoteAt == 1 && s == sb && hHas(q, "replayLsn")) sb->recovery = false;
    if (promoteAt == 2 && s == sb && hHas(q, "checkpoint_")) { sb->tl = 2; hControl(sb, sb->checkpoint); }
}
static void promoted(const char *path, int flags) { opened(path, flags); if (promoteAt == 3 && hUnder(path, "/sb/base")) hServer[1].recovery = false; }
void standby(void)
{
    init(false); const uint64_t lsn = 0x15000100; const bool swap = vh_choose("standby is pg1", 0, 1); mutate = 0; mutated = false; copied = 0; spcmap = "";
    mkCluster("/sb", "table"); put("/sb", "base/1/1001", "otter", 5, vm.now - 1000); put("/sb", "extra", "only there", 10, vm.now - 1000); vm_remove("/sb/postgresql.conf"); put("/sb", "postgresql.conf", "standby", 7, vm.now - 1000);
    hServerSet(0, idx, "/pg", lsn); hServerSet(1, idx, "/sb", lsn); hArchNext = (lsn - 1) / hSeg; hOnQuery = actStandby; actSel = 0; vm.onOpen = promoted; HServer *s = &hServer[0], *sb = &hServer[1];
    sb->recovery = true; const unsigned c = (unsigned)vh_choose("scenario", 0, 9); promoteAt = 0;
    sb->replay = sb->checkpoint = lsn - 0x1000; sb->replayStep = 0x700000; hControl(sb, sb->checkpoint); bool ok = true; const char *mode = "--backup-standby=y";
    switch (c)
    {
        case 0: break;
        case 1: sb->replay = lsn + 0x4000000; break;                // already there
        case 2: sb->replayStep = 0; ok = false; break;              // replay does not get there
        case 3: sb->checkpoint = lsn + 0x40000000; hControl(sb, sb->checkpoint); ok = false; break;     // follows another primary
        case 4: promoteAt = 1; ok = false; break;
        case 5: promoteAt = 2; ok = false; break;
        case 6: promoteAt = 3; ok = false; break;
        case 7: sb->up = false; ok = false; break;
        case 8: sb->up = false; mode = "--backup-standby=prefer"; break;
        case 9: s->up = false; ok = false; break;
    }
    const bool r = BACKUP(swap ? "--pg1-path=/sb" : "--pg1-path=/pg", swap ? "--pg2-path=/pg" : "--pg2-path=/sb", swap ? "--pg1-port=5433" : "--pg1-port=5432", swap ? "--pg2-port=5432" : "--pg2-port=5433", mode, "--process-max=2");
    if (r != ok) { vh_print("scenario", c); vh_prints("error", r ? "none" : hErr); vh_fail(ok ? "backup failed" : "backup made although the standby cannot be used"); }
    if (!r) { vh_assert(!listed(), "failed backup is listed"); vh_reach("failed"); vh_reach("done"); return; }
    recorded(s); vh_assert(allArchived(s), "backup recorded although WAL it needs is not in the archive"); vh_reach("recorded"); const bool used = c < 8; const HServer k = *s; (void)used;
    vm.onOpen = NULL; restoreHere("--type=none");
    vh_assert(fileIs("/pg/backup_label", k.label), "backup_label differs from what the server returned");
    // Data files from the standby, everything that is not replicated from the primary, only what the primary has
    vh_assert(fileIs("/pg/base/1/1001", used ? "otter" : "other") && fileIs("/pg/base/1/1000", "table"), "data files were not copied from the standby");
    vh_assert(fileIs("/pg/postgresql.conf", "/pg") && !vm_exists("/pg/extra"), "configuration was not copied from the primary");
    const VmNode *n = vm_lookup("/pg/global/pg_control"); vh_assert(n->data[501] == 0 && n->data[500] >= k.ctlStart, "pg_control was not copied from the primary");
    vh_reach("done");
}

// check: succeeds exactly when the server is configured as it should be and its WAL reaches every repository
void check_(void)
{
    init(vh_arg(0) == 0); static const uint64_t lsns[] = {0x15000100, 0x2000028, 0xFE800000, 0x1FF000000}; const uint64_t lsn = lsns[vh_choose("lsn", 0, vh_arg(0) ? 3 : 1)];
    hServerSet(0, idx, "/pg", lsn); hArchNext = (lsn - 1) / hSeg; HServer *s = &hServer[0]; mutate = 0;
    HPgHist h[1] = {{1, verName(), SYSID}}, o[1] = {{1, verName(), SYSID + 1}}; hArchiveInfoHist("/repo2", h, 1); hBackupInfoHist("/repo2", h, 1, NULL); hArchDir2 = hZ("/repo2/archive/db/%s-1", verName());
    const unsigned c = vh_arg(0) ? (unsigned)vh_choose("defect", 0, 16) : 0; bool ok = false;
    switch (c)
    {
        case 0: ok = true; break;
        case 1: s->version = 120003; break;
        case 2: s->data = "/pg2"; break;
        case 3: s->archiveMode = "off"; break;
        case 4: s->archiveMode = "always"; break;
        case 5: s->archiveCommand = "cp %p /archive/%f"; break;
        case 6: s->archiveCommand = "(disabled)"; break;
        case 7: s->up = false; break;
        case 8: hArchEnd = 0; break;
        case 9: hArchEnd = hArchNext + 1; ok = lsn % hSeg == 0 && false; break;
        case 10: hArchDir2 = NULL; break;
        case 11: hArchiveInfoHist("/repo2", o, 1); break;
        case 12: hBackupInfoHist("/repo2", o, 1, NULL); break;
        case 13: hArchiveInfoHist("/repo1", o, 1); hBackupInfoHist("/repo1", o, 1, NULL); break;
        case 14: vm_remove("/repo2/archive/db/archive.info"); vm_remove("/repo2/archive/db/archive.info.copy"); break;
        case 15: s->recovery = true; break;
        case 16: hArchDir = "/other"; break;
    }
    // Archiving is stuck one segment early only when the current one is a later one
    if (c == 9 && hArchEnd > (lsn + 0x60 - 1) / hSeg) vh_end();
    static HSnap a, b; vm_allDurable(); hSnapTake(&a, "/repo2/backup"); const char *const pg = "/pg"; hSnapTake(&b, pg);
    HCFG("check", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo2-path=/repo2", "--log-level-file=off", "--archive-timeout=5", "--db-timeout=30", "--protocol-timeout=31");
    volatile bool r = false; TRY_BEGIN() { cmdCheck(); r = true; } CATCH_FATAL() { H_NO_ASSERT(); snprintf(hErr, sizeof hErr, "%s", errorMessage()); } TRY_END();
    if (r != ok) { vh_print("defect", c); vh_prints("error", r ? "none" : hErr); vh_fail(ok ? "check fails although everything is as it should be" : "check passes although something is wrong"); }
    hSnapSame(&b, "/pg", "check changed the cluster"); hSnapSame(&a, "/repo2/backup", "check changed the repository");
    vh_reach(r ? "passed" : "failed"); vh_reach("done");
}
