// Restore: which backup is chosen, timelines, recovery settings
#include <stdarg.h>
#include "hcluster.h"
#include "command/restore/timeline.h"
typedef struct B { const char *repo, *label; long long stop; const char *lsnStart, *lsnStop, *walStart, *walStop; const char *marker; unsigned pgId; bool online; } B;
static unsigned ver = HPG_13;                                       // index of the PostgreSQL version
static const char *verZ(void) { static char v[16]; unsigned x = hPgVersion[ver].version; if (x >= 100000) snprintf(v, 16, "%u", x / 10000); else snprintf(v, 16, "%u.%u", x / 10000, x / 100 % 100); return v; }
static HText current[3];
static uint8_t control[8192];
static void repoFile(HText *m, const B *b, const char *name, const void *d, size_t n, const char *extra)
{
    char p[200], h[80]; snprintf(p, sizeof p, "%s/backup/db/%s/pg_data/%s", b->repo, b->label, name); vm_put(p, d, n); hHash("sha1", d, n, h);
    hCatF(m, "pg_data/%s={\"checksum\":\"%s\",%s\"size\":%zu,\"timestamp\":1565282114}\n", name, h, extra, n);
}
static const char *autoConf = "a = 'b'\n";
static void mkBackup(unsigned repoIdx, const B *b)
{
    const HPgVersion *v = &hPgVersion[ver]; HText m = {0};
    hCat(&m, "[backup]\n");
    if (b->online) hCatF(&m, "backup-archive-start=\"%s\"\nbackup-archive-stop=\"%s\"\n", b->walStart, b->walStop);
    hCatF(&m, "backup-label=\"%s\"\n", b->label);
    if (b->online) hCatF(&m, "backup-lsn-start=\"%s\"\nbackup-lsn-stop=\"%s\"\n", b->lsnStart, b->lsnStop);
    hCatF(&m, "backup-reference=\"%s\"\nbackup-timestamp-copy-start=%lld\nbackup-timestamp-start=%lld\nbackup-timestamp-stop=%lld\nbackup-type=\"full\"\n\n", b->label, b->stop - 10, b->stop - 11, b->stop);
    hCatF(&m, "[backup:db]\ndb-catalog-version=%u\ndb-control-version=%u\ndb-id=%u\ndb-system-id=%llu\ndb-version=\"%s\"\n\n", v->catalog, v->control, b->pgId, SYSID, verZ());
    hCatF(&m, "[backup:option]\noption-archive-check=true\noption-archive-copy=false\noption-compress=false\noption-compress-type=\"none\"\noption-hardlink=false\noption-online=%s\n\n", b->online ? "true" : "false");
    hCat(&m, "[backup:target]\npg_data={\"path\":\"/pg\",\"type\":\"path\"}\n\n[target:file]\n");
    char vz[20]; snprintf(vz, sizeof vz, "%s\n", verZ());
    repoFile(&m, b, "PG_VERSION", vz, strlen(vz), "");
    hPgControl(control, ver, SYSID, 4096, 1, 8192, 16777216, 0); repoFile(&m, b, "global/pg_control", control, 8192, "");
    repoFile(&m, b, "marker", b->marker, strlen(b->marker), "");
    if (autoConf != NULL && hPgVersion[ver].version >= 120000) repoFile(&m, b, "postgresql.auto.conf", autoConf, strlen(autoConf), "");
    hCat(&m, "\n[target:file:default]\ngroup=\"group\"\nmode=\"0600\"\nuser=\"user\"\n\n[target:path]\npg_data={}\npg_data/global={}\n\n[target:path:default]\ngroup=\"group\"\nmode=\"0700\"\nuser=\"user\"\n");
    char p[200]; snprintf(p, sizeof p, "%s/backup/db/%s/backup.manifest", b->repo, b->label); hInfoPut(p, m.b);
    hCatF(&current[repoIdx], "%s={\"backrest-format\":5,\"backrest-version\":\"2.60.0\",", b->label);
    if (b->online) hCatF(&current[repoIdx], "\"backup-archive-start\":\"%s\",\"backup-archive-stop\":\"%s\",", b->walStart, b->walStop);
    hCat(&current[repoIdx], "\"backup-info-repo-size\":3159,\"backup-info-repo-size-delta\":3159,\"backup-info-size\":26897,\"backup-info-size-delta\":26897,");
    if (b->online && b->lsnStop) hCatF(&current[repoIdx], "\"backup-lsn-start\":\"%s\",\"backup-lsn-stop\":\"%s\",", b->lsnStart, b->lsnStop);
    hCatF(&current[repoIdx], "\"backup-timestamp-start\":%lld,\"backup-timestamp-stop\":%lld,\"backup-type\":\"full\",\"db-id\":%u,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":false,\"option-hardlink\":false,\"option-online\":%s}\n", b->stop - 11, b->stop, b->pgId, b->online ? "true" : "false");
}
static const char *args[24]; static unsigned nArgs;
static void arg(const char *fmt, ...) { char b[300]; va_list l; va_start(l, fmt); vsnprintf(b, sizeof b, fmt, l); va_end(l); args[nArgs++] = strdup(b); }
static void init(void)
{
    hInit(); vm_mkdirs("/lock"); vm_mkdirs("/spool"); vm_mkdirs("/pg"); vm_lookup("/pg")->mode = 0700; vm_lookup("/pg")->uid = 1000; vm_lookup("/pg")->gid = 1000; vm.uid = 1000; vm.gid = 1000; vm.now = 1700000000; nArgs = 0; memset(current, 0, sizeof current);
    arg("--stanza=db"); arg("--pg1-path=/pg"); arg("--repo1-path=/repo1"); arg("--lock-path=/lock"); arg("--log-level-file=off"); arg("--spool-path=/spool");
}
// A user's mistake is reported when the options are loaded: not a failure of the check
static bool restore(void)
{
    const char *argv[32]; unsigned n = 0; volatile bool ok = false; argv[n++] = "pgbackrest"; argv[n++] = "restore"; for (unsigned i = 0; i < nArgs; i++) argv[n++] = args[i];
    const char **list = malloc(sizeof(char *) * (n + 1)); memcpy(list, argv, sizeof(char *) * n); list[n] = NULL; storageHelperFree();
    TRY_BEGIN() { cfgParseP(storageLocal(), n, list, .noResetLogLevel = true); cfgLoadUpdateOption(); storageHelperDryRunInit(false); ok = true; }
    CATCH_FATAL() { H_NO_ASSERT(); snprintf(hErr, sizeof hErr, "%s", errorMessage()); hErrType = errorType(); } TRY_END();
    if (!ok) return false;
    lockInit(strNewZ("/lock"), strNewZ("1-1")); vm_allDurable();
    return hRun(cmdRestore);
}
static void infos(const char *repo, unsigned repoIdx, unsigned pgIds)
{
    HPgHist h[2] = {{1, verZ(), SYSID}, {2, verZ(), SYSID}}; char v1[16] = "9.6"; if (pgIds == 2) h[0].ver = v1;
    hArchiveInfoHist(repo, h, pgIds); hBackupInfoHist(repo, h, pgIds, current[repoIdx].b);
}
static bool fileIs(const char *path, const char *z) { return vm_exists(path) && vm_equal(path, z, strlen(z)); }
static void checkControl(bool online)
{
    VmNode *n = vm_lookup("/pg/global/pg_control"); vh_assert(n != NULL && n->size == 8192, "pg_control not restored"); const HPgVersion *v = &hPgVersion[ver]; uint8_t e[8192]; memcpy(e, control, 8192);
    if (online) { vh_assert(memcmp(n->data + v->oCheckpoint, control + v->oCheckpoint, 8) != 0, "checkpoint of an online backup still valid"); memcpy(e + v->oCheckpoint, n->data + v->oCheckpoint, 8); hPut(e, v->oCrc, hCrc32c(e, v->oCrc), 4); }
    vh_assert(memcmp(e, n->data, 8192) == 0, "pg_control changed"); vh_assert(!vm_exists("/pg/global/pg_control.pgbackrest.tmp") && !vm_exists("/pg/backup.manifest"), "leftovers of the restore");
}
// ---- which backup
// 0: 1 damaged or empty repo1, 2 upgrade
void choose(void)
{
    init(); arg("--repo2-path=/repo2"); static B b[5]; const long long base = 1600000000; static const char *const lab[] = {"20200914-122640F", "20200915-122640F", "20200916-122640F", "20200914-132640F", "20200915-132640F"};
    static const char *const mk[] = {"one", "two", "three", "four", "five"};
    // repo1: up to three backups, repo2: up to two; stop times within each repository ascend, with gaps that the target can fall in, equal and between
    unsigned n1 = (unsigned)vh_choose("repo1 backups", 0, 3), mode = (unsigned)vh_arg(0), n2 = (unsigned)vh_choose("repo2 backups", 0, mode < 2 || vh_arg(1) ? 2 : 1);
    unsigned type = (unsigned)vh_choose("type", 0, 3), pgIds = mode == 2 ? 2 : 1, oldUntil = mode == 2 ? (unsigned)vh_choose("old", 0, 3) : 0, noLsn = mode == 3 ? (unsigned)vh_choose("no lsn", 0, 3) : 9;
    for (unsigned i = 0; i < 5; i++)
    {
        char *l1 = malloc(32), *l2 = malloc(32), *w = malloc(32); unsigned k = i < 3 ? i : i - 3; unsigned lsn = (k + 1) * 0x10 + (i >= 3 ? 4 : 0); snprintf(l1, 32, "1/%X000028", lsn); snprintf(l2, 32, "1/%X000100", lsn); snprintf(w, 32, "0000000100000001%08X", lsn);
        b[i] = (B){i < 3 ? "/repo1" : "/repo2", lab[i], base + 100 * k + (i >= 3 ? 50 : 0), l1, l2, w, w, mk[i], pgIds == 2 && (i < 3 ? k < oldUntil : false) ? 1 : pgIds, true};
        if (i == noLsn) b[i].lsnStop = NULL;
        if (i < 3 ? i < n1 : i - 3 < n2) { if (i == noLsn) { B q = b[i]; q.lsnStop = l2; mkBackup(2, &q); hCatF(&current[i < 3 ? 0 : 1], "%s={\"backrest-format\":5,\"backrest-version\":\"2.60.0\",\"backup-archive-start\":\"%s\",\"backup-archive-stop\":\"%s\",\"backup-info-repo-size\":3159,\"backup-info-repo-size-delta\":3159,\"backup-info-size\":26897,\"backup-info-size-delta\":26897,\"backup-timestamp-start\":%lld,\"backup-timestamp-stop\":%lld,\"backup-type\":\"full\",\"db-id\":%u,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":false,\"option-hardlink\":false,\"option-online\":true}\n", q.label, w, w, q.stop - 11, q.stop, q.pgId); } else mkBackup(i < 3 ? 0 : 1, &b[i]); }
    }
    infos("/repo1", 0, pgIds); infos("/repo2", 1, pgIds);
    bool bad1 = false; if (mode == 1) { bad1 = true; if (vh_bool("missing")) { vm_remove("/repo1/backup/db/backup.info"); vm_remove("/repo1/backup/db/backup.info.copy"); } else { vm_putz("/repo1/backup/db/backup.info", "x"); vm_putz("/repo1/backup/db/backup.info.copy", ""); } }
    unsigned repo = (unsigned)vh_choose("repo option", 0, mode < 2 || vh_arg(1) ? 2 : 0); if (repo) arg("--repo=%u", repo);
    int want = -1; bool prior = false; unsigned first = repo == 2 ? 1 : 0, lastR = repo == 1 ? 0 : 1;
    long long t = 0; uint64_t lsnT = 0; unsigned setI = 0;
    if (type == 1)
    {
        // Any time of the minutes around the backups, in one of several time zones (base is 12:26:40 UTC)
        unsigned zone = (unsigned)vh_choose("zone", 0, 2), sec = (unsigned)vh_range("second", 0, 59), min = (unsigned)vh_choose("minute", 26, vh_arg(2) ? 32 : 30); t = base - 26 * 60 - 40 + min * 60 + sec;
        static const struct { const char *h, *z; int m; } zones[] = {{"12", "+00", 0}, {"14", "+02:00", 0}, {"08", "-0330", 30}}; unsigned m = (min + (unsigned)zones[zone].m) % 60; char tz[64]; snprintf(tz, sizeof tz, "--target=2020-09-13 %s:%02u:00%s", zone == 2 && min < 30 ? "08" : zone == 2 ? "09" : zones[zone].h, m, zones[zone].z);
        tz[26] = (char)('0' + sec / 10); tz[27] = (char)('0' + sec % 10); arg("--type=time"); args[nArgs++] = strdup(tz);
    }
    else if (type == 2) { uint32_t l = vh_u32("lsn"); lsnT = 0x100000000ULL + l; char *z = strdup("--target=1/00000000"); for (unsigned i = 0; i < 8; i++) { unsigned d = l >> (28 - i * 4) & 15; z[11 + i] = (char)vh_ite(d < 10, '0' + d, 'A' + d - 10); } arg("--type=lsn"); args[nArgs++] = z; }
    else if (type == 3) { setI = (unsigned)vh_choose("set", 0, 5); arg("--set=%s", setI < 5 ? lab[setI] : "20200917-122640F"); }
    for (unsigned r = first; r <= lastR && want < 0 && !prior; r++)
    {
        unsigned lo = r == 0 ? 0 : 3, n = r == 0 ? n1 : n2; if (n == 0 || (r == 0 && bad1)) continue;
        if (type == 0) { want = (int)(lo + n - 1); if (b[want].pgId < pgIds) { prior = true; want = -1; } }
        else if (type == 1) { for (int i = (int)n - 1; i >= 0; i--) if (b[lo + (unsigned)i].stop < t) { want = (int)lo + i; break; } }
        else if (type == 2) { for (int i = (int)n - 1; i >= 0; i--) { if (lo + (unsigned)i == noLsn) break; unsigned k = lo + (unsigned)i, kk = k < 3 ? k : k - 3; uint64_t stop = 0x100000000ULL + ((uint64_t)((kk + 1) * 0x10 + (k >= 3 ? 4 : 0)) << 24) + 0x100; if (stop <= lsnT) { want = (int)k; break; } } }
        else if (setI >= lo && setI < lo + n) want = (int)setI;
    }
    bool ok = restore();
    if (want < 0) { vh_assert(!ok, "a backup was restored that should not have been"); vh_assert(!vm_exists("/pg/marker") && !vm_exists("/pg/PG_VERSION"), "files restored without a backup to restore"); vh_reach(prior ? "prior" : "none"); }
    else { if (!ok) { vh_prints("error", hErr); vh_fail("restore failed"); } vh_assert(fileIs("/pg/marker", mk[want]), "another backup was restored"); checkControl(true); vh_reach(want >= 3 ? "repo2" : "repo1"); }
    vh_reach("done");
}
// ---- timelines: the history file of the target must contain the timeline of the backup up to after its start
void timeline(void)
{
    // The options first: what varies in the histories depends on them
    bool full = vh_arg(1) != 0; unsigned opt = (unsigned)vh_choose("target timeline", 0, 6), type = opt == 0 ? (unsigned)vh_choose("type", 0, 1) : 0, form = (unsigned)vh_arg(0);
    ver = (opt == 0 || full) && vh_choose("older version", 0, 1) ? 2 : HPG_13; init();
    unsigned tl = (unsigned)vh_choose("backup timeline", 1, 3); char w[32]; snprintf(w, 32, "%08X0000000100000010", tl);
    B b = {"/repo1", "20200914-122640F", 1600000000, "1/10000028", "1/10000100", w, w, "one", 1, true}; mkBackup(0, &b); infos("/repo1", 0, 1);
    // Histories of timelines 2, 3 and 11: which exist, and each parent's end
    static const unsigned tls[] = {2, 3, 11}; bool have[3]; unsigned parent[3][2]; uint64_t end[3][2]; unsigned np[3];
    static const unsigned endv[] = {0x0F000000, 0x10000028, 0x10000029, 0x20000000};
    unsigned focus = opt == 1 || opt == 6 || opt == 3 ? 0 : opt == 4 || opt == 5 ? 2 : (unsigned)vh_choose("focus", 0, 2);
    for (unsigned i = 0; i < 3; i++)
    {
        bool f = i == focus || full; have[i] = vh_choose("history exists", 0, 1); np[i] = 0; if (!have[i]) continue;
        HText t = {0}; unsigned k = f ? (unsigned)vh_choose("parents", 0, i == 0 ? 1 : 2) : 1; if (form == 1) hCat(&t, "# comment\n\n");
        if (k >= 1) { parent[i][0] = k == 2 ? (unsigned)vh_choose("parent", 1, tls[i] == 11 ? 3 : 2) : 1; end[i][0] = 0x100000000ULL + endv[f ? vh_choose("end", 0, 3) : 3]; np[i] = 1; hCatF(&t, "%u\t1/%llX\tno recovery target specified\n", parent[i][0], (unsigned long long)(end[i][0] & 0xFFFFFFFF)); }
        if (k == 2 && parent[i][0] == 1) { parent[i][1] = 2; end[i][1] = 0x130000000ULL; np[i] = 2; hCat(&t, "\n2\t1/30000000\tother\n"); }
        char p[100]; snprintf(p, 100, "/repo1/archive/db/%s-1/%08X.history", verZ(), tls[i]); vm_put(p, t.b ? t.b : "", t.n);
    }
    const char *o[] = {NULL, "current", "latest", "2", "0xB", "11", "x"};
    if (o[opt]) arg("--target-timeline=%s", o[opt]);
    if (type == 1) arg("--type=immediate");
    unsigned target = tl; bool bad = false, latest = opt == 2 || (opt == 0 && hPgVersion[ver].version >= 120000 && type == 0);
    if (latest) { for (unsigned i = 0; i < 3; i++) if (have[i] && tls[i] > target) target = tls[i]; }
    else if (opt == 3) target = 2; else if (opt == 4 || opt == 5) target = 11; else if (opt == 6) bad = true;
    bool allowed = !bad && target == tl;
    if (!bad && target != tl) for (unsigned i = 0; i < 3; i++) if (tls[i] == target && have[i]) for (unsigned j = 0; j < np[i]; j++) if (parent[i][j] == tl && 0x110000028ULL < end[i][j]) allowed = true;
    bool ok = restore();
    if (ok != allowed) { vh_print("timeline", tl); vh_print("target", target); vh_prints("error", hErr); }
    vh_assert(ok == allowed, ok ? "restore to a timeline that the backup does not lead to" : "restore refused although the backup leads to the timeline");
    vh_assert(ok == vm_exists("/pg/global/pg_control"), "failed restore left a startable cluster");
    vh_reach(ok ? "restored" : "refused"); vh_reach("done");
}
// ---- recovery settings
static void expect(HText *t, const char *k, const char *v) { hCatF(t, "%s = '%s'\n", k, v); }
#define CMD "pgbackrest --lock-path=/lock --pg1-path=/pg --repo1-path=/repo1 --spool-path=/spool --stanza=db archive-get %f \"%p\""
static bool has(const char *text, const char *line) { const char *p = text; size_t n = strlen(line); while (p) { if (strncmp(p, line, n) == 0 && (p[n] == '\n' || p[n] == 0)) return true; p = strchr(p, '\n'); if (p) p++; } return false; }
static unsigned count(const char *text, const char *prefix) { unsigned c = 0; const char *p = text; size_t n = strlen(prefix); while (p) { if (strncmp(p, prefix, n) == 0) c++; p = strchr(p, '\n'); if (p) p++; } return c; }
void settings(void)
{
    bool full = vh_arg(1) != 0;
    ver = vh_choose("version", 0, 1) ? HPG_13 : 2; bool guc = hPgVersion[ver].version >= 120000; init(); arg("--cmd=pgbackrest");
    static const char *const confs[] = {"a = 'b'\n", "recovery_target_time = 'x'\nprimary_conninfo = 'c'\n  recovery_target\t= 'immediate'\nrecovery_target_timeline='3'\nrecovery_target_nam = 'y'\n# recovery_target_xid = '1'\nrestore_command = 'old'", NULL};
    unsigned conf = guc ? (unsigned)vh_choose("conf", 0, 2) : 0; autoConf = confs[conf]; bool online = vh_choose("online", 0, 1);
    B b = {"/repo1", "20200914-122640F", 1600000000, "1/10000028", "1/10000100", "000000010000000100000010", "000000010000000100000010", "one", 1, online}; mkBackup(0, &b); infos("/repo1", 0, 1);
    static const char *const types[] = {NULL, "default", "immediate", "lsn", "name", "time", "xid", "standby", "preserve", "none"};
    unsigned type = (unsigned)vh_choose("type", 0, 9); bool targeted = type >= 3 && type <= 6; if (types[type]) arg("--type=%s", types[type]);
    static const char *const targets[] = {"1/20000000", "point", "2020-09-14 12:30:00+00", "1000"}; if (targeted) arg("--target=%s", targets[type - 3]);
    unsigned act = (unsigned)vh_choose("action", 0, 3); static const char *const acts[] = {NULL, "pause", "promote", "shutdown"}; bool actOk = type == 2 || targeted; if (act) vh_assume(actOk); if (acts[act]) arg("--target-action=%s", acts[act]);
    bool excl = false; if (type == 3 || type == 5 || type == 6) { excl = vh_choose("exclusive", 0, 1); if (excl) arg("--target-exclusive"); }
    unsigned tlo = (unsigned)vh_choose("target timeline", 0, 2); vh_assume(tlo == 0 || (type <= 7 && type != 2)); if (tlo) arg("--target-timeline=%s", tlo == 1 ? "current" : "1");
    unsigned am = (unsigned)vh_choose("archive mode", 0, 1); if (am) arg("--archive-mode=off"); vh_assume(!(am && type >= 8)); if (!full) vh_assume((act != 0) + (tlo != 0) + (am != 0) <= 1);
    unsigned ro = (unsigned)vh_choose("recovery option", 0, 4); vh_assume(ro == 0 || type <= 7); if (!full) vh_assume(ro == 0 || (act == 0 && tlo == 0)); static const char *const ros[] = {NULL, "primary-conninfo=host=x", "restore_command=mine", "standby-mode=on", "recovery_target_time=odd"}; if (ro) arg("--recovery-option=%s", ros[ro]);
    // Files that an earlier cluster left in the data directory (with --delta)
    bool delta = vh_arg(0) != 0; if (delta) { arg("--delta"); vm_putz("/pg/PG_VERSION", "13\n"); vm_putz("/pg/standby.signal", "s"); vm_putz("/pg/recovery.signal", "r"); vm_putz("/pg/recovery.conf", "c"); vm_putz("/pg/postgresql.auto.conf", "z = 'kept'\n"); for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && hUnder(vm.ent[i].path, "/pg")) { vm.ent[i].node->uid = vm.ent[i].node->gid = 1000; } vm_lookup("/pg")->mode = 0700; vm_allDurable(); }
    unsigned eff = type; if (type == 0) eff = online ? 1 : 9;
    bool bad = false; if (am && !guc && eff != 9 && eff != 8) bad = true;
    if (ro == 3 && guc && eff <= 7) bad = true;
    if (type == 3 && !online) bad = true;                           // an offline backup has no LSN
    bool ok = restore();
    if (ok == bad) vh_prints("error", hErr);
    vh_assert(ok == !bad, bad ? "invalid recovery settings accepted" : "restore failed");
    if (bad) { vh_assert(!vm_exists("/pg/global/pg_control"), "failed restore left a startable cluster"); vh_reach("refused"); vh_end(); }
    checkControl(online);
    const char *f = guc ? "/pg/postgresql.auto.conf" : "/pg/recovery.conf"; VmNode *n = vm_lookup(f); char *text = NULL; if (n) { text = malloc(n->size + 1); memcpy(text, n->data, n->size); text[n->size] = 0; vh_assert(eff == 8 || n->mode == 0600, "mode of the recovery file"); }
    // Signal files say exactly what was asked for
    bool keep = eff == 8;
    if (!keep) { vh_assert(vm_exists("/pg/standby.signal") == (guc && eff == 7), "standby.signal wrong"); vh_assert(vm_exists("/pg/recovery.signal") == (guc && eff != 7 && eff != 9), "recovery.signal wrong"); vh_assert(vm_exists("/pg/recovery.conf") == (!guc && eff != 9), "recovery.conf wrong"); }
    else
    {
        if (delta) { vh_assert(guc ? fileIs("/pg/standby.signal", "s") && fileIs("/pg/recovery.signal", "r") && fileIs("/pg/postgresql.auto.conf", "z = 'kept'\n") && !vm_exists("/pg/recovery.conf") : fileIs("/pg/recovery.conf", "c") && !vm_exists("/pg/recovery.signal") && !vm_exists("/pg/standby.signal"), "recovery settings not preserved"); }
        else vh_assert(!vm_exists("/pg/standby.signal") && !vm_exists("/pg/recovery.signal") && !vm_exists("/pg/recovery.conf") && !vm_exists("/pg/postgresql.auto.conf"), "recovery settings written");
        vh_reach("preserved"); vh_reach("done"); return;
    }
    // Settings of the cluster that was backed up stay, old recovery targets are disabled
    if (guc)
    {
        vh_assert(n != NULL || (conf == 2 && eff == 9), "postgresql.auto.conf missing");
        if (n == NULL) { vh_reach("done"); return; }
        if (conf == 0) vh_assert(has(text, "a = 'b'"), "setting lost");
        if (conf == 1)
        {
            vh_assert(has(text, "primary_conninfo = 'c'") && has(text, "recovery_target_nam = 'y'") && has(text, "# recovery_target_xid = '1'") && has(text, "restore_command = 'old'"), "setting lost");
            vh_assert(count(text, "# Removed by pgBackRest restore on ") == 3 && !has(text, "recovery_target_time = 'x'") && !has(text, "recovery_target_timeline='3'") && count(text, "  recovery_target") == 0, "old recovery target still active");
        }
    }
    if (eff == 9) { if (text) vh_assert(count(text, "restore_command") == (conf == 1 ? 1u : 0u) && count(text, "recovery_target") == (conf == 1 ? 1u : 0u), "recovery settings written"); vh_reach("done"); return; }
    // Exactly the settings asked for
    const char *s = text; { const char *p = text; const char *mark = "# Recovery settings generated by pgBackRest restore on "; while ((p = strstr(p, mark)) != NULL) { s = p; p++; } } s = strchr(s, '\n'); s = s ? s + 1 : "";
    HText e = {0}; unsigned total = 0; char line[300];
#define WANT(...) do { snprintf(line, sizeof line, __VA_ARGS__); vh_assert(has(s, line), "recovery setting missing"); total++; } while (0)
    if (ro == 1) WANT("primary_conninfo = 'host=x'");
    if (ro == 2) WANT("restore_command = 'mine'"); else { vh_assert(count(s, "restore_command = 'pgbackrest ") == 1 && strstr(s, "archive-get %f \"%p\"'\n") != NULL && strstr(s, "--stanza=db") && strstr(s, "--pg1-path=/pg") && strstr(s, "--repo1-path=/repo1") && strstr(s, "--lock-path=/lock") && strstr(s, "--spool-path=/spool"), "restore_command wrong"); total++; }
    if (ro == 3) WANT("standby_mode = 'on'");
    if (am) WANT("archive_mode = 'off'");
    if (eff == 2) WANT("recovery_target = 'immediate'");
    if (eff == 7 && !guc && ro != 3) WANT("standby_mode = 'on'");
    bool timeGiven = false; if (targeted) { WANT("recovery_target_%s = '%s'", types[type], targets[type - 3]); timeGiven = type == 5; if (excl) WANT("recovery_target_inclusive = 'false'"); }
    if (ro == 4 && !timeGiven) WANT("recovery_target_time = 'odd'");
    if (act >= 2) WANT("recovery_target_action = '%s'", acts[act]);
    if (tlo == 1) { if (guc) WANT("recovery_target_timeline = 'current'"); } else if (tlo == 2) WANT("recovery_target_timeline = '1'"); else if (eff == 2 && guc) WANT("recovery_target_timeline = 'current'");
    unsigned lines = 0; for (const char *p = s; *p; p++) if (*p == '\n') lines++;
    if (lines != total) { vh_prints("settings", s); vh_print("expected", total); }
    vh_assert(lines == total, "other recovery settings written"); (void)e; vh_reach("settings"); vh_reach("done");
}
