// Encrypted repositories: everything stored is encrypted, everything can be read back, nothing without the right passphrase
#include "hcluster.h"
#include "command/archive/get/get.h"
#include "command/archive/push/push.h"
#include "command/expire/expire.h"
#include "command/stanza/create.h"
#include "command/stanza/upgrade.h"
#include "command/verify/verify.h"

#define MARK "PLAIN-CONTENT-MARK"
#define WALN "000000010000000100000001"
#define PASS1 "main-pass-one"
#define PASS2 "main-pass-two"
static const char *bundleOpt, *compressOpt; static unsigned repo2, layout;   // repo2: 0 absent, 1 not encrypted, 2 encrypted
static uint8_t page[3 * 8192];
static void fill(uint8_t *const b, const size_t size, const unsigned seed) { for (size_t i = 0; i < size; i++) b[i] = (uint8_t)(i * 7 + (i >> 8) + seed * 31 + 1); for (size_t i = 0; i + 64 <= size; i += 512) memcpy(b + i + 44, MARK, sizeof(MARK) - 1); }
static VmNode *put(const char *const rel, const void *const d, const size_t n, const int64_t mtime) { char p[128]; snprintf(p, 128, "/pg/%s", rel); VmNode *const x = vm_put(p, d, n); x->mtime = mtime; x->mode = 0600; return x; }
static void putz(const char *const rel, const char *const z) { put(rel, z, strlen(z), vm.now - 1000); }
static uint8_t wal[1024];
static void mkCluster(void)
{
    const int64_t t = vm.now - 1000;
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); vm_lookup("/pg/global/pg_control")->mtime = t; vm_lookup("/pg/global/pg_control")->mode = 0600;
    putz("PG_VERSION", "13\n"); vm_mkdirs("/pg/pg_wal/archive_status"); vm_mkdirs("/pg/pg_tblspc"); putz("base/1/PG_VERSION", "13\n");
    putz("base/1/1000", "table " MARK); putz("empty", ""); putz("postgresql.auto.conf", "# " MARK "\n");
    fill(page, sizeof page, 1); put("base/1/2000", page, sizeof page, t);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node != NULL && vm.ent[i].node->type == VM_DIR && hUnder(vm.ent[i].path, "/pg")) vm.ent[i].node->mode = 0700;
    fill(wal, sizeof wal, 3); hPgWal(wal, HPG_13, SYSID, 16777216); vm_put("/walsrc/" WALN, wal, sizeof wal);
    vm_allDurable();
}
// variant: 0 right, 1 wrong passphrase, 2 not encrypted, 3 passphrase of the other repository
static void conf(const unsigned variant)
{
    char z[400]; int n = snprintf(z, sizeof z, "[global]\nrepo1-path=/repo1\nlog-level-file=off\nlock-path=/lock\nspool-path=/spool\nrepo1-retention-full=9\n");
    if (variant != 2) n += snprintf(z + n, sizeof z - (size_t)n, "repo1-cipher-type=aes-256-cbc\nrepo1-cipher-pass=%s\n", variant == 0 ? PASS1 : variant == 1 ? "main-pass-0ne" : PASS2);
    if (layout) n += snprintf(z + n, sizeof z - (size_t)n, "repo1-bundle=y\n%s", layout == 2 ? "repo1-block=y\n" : "");
    if (repo2) n += snprintf(z + n, sizeof z - (size_t)n, "repo2-path=/repo2\nrepo2-retention-full=9\n%s", layout ? "repo2-bundle=y\n" : "");
    if (repo2 == 2) snprintf(z + n, sizeof z - (size_t)n, "repo2-cipher-type=aes-256-cbc\nrepo2-cipher-pass=" PASS2 "\n");
    VmNode *const f = vm_putz("/etc/pgbackrest/pgbackrest.conf", z); f->mode = 0600;
}
static unsigned variant_;
static char archiveRes;
static void pushWal(void) { cmdArchivePush(); }
static void pushWalAsync(void) { cmdArchivePushAsync(); }
static void getWal(void) { archiveRes = (char)cmdArchiveGet(); }
static void getWalAsync(void) { cmdArchiveGetAsync(); }
static bool run(void (*const fn)(void), const char *const command, const char *const a, const char *const b, const char *const c, const char *const d)
{
    const char *args[8] = {"--stanza=db"}; unsigned n = 1; if (strcmp(command, "expire") != 0) args[n++] = "--pg1-path=/pg";
    if (a) args[n++] = a;
    if (b) args[n++] = b;
    if (c) args[n++] = c;
    if (d) args[n++] = d;
    args[n] = NULL; vm.now += 100000; conf(variant_); hCfg(command, args); lockInit(strNewZ("/lock"), strNewZ("1-1")); *hErr = 0;
    return hRun(fn);
}
static void must(const bool ok, const char *const what) { if (!ok) { vh_prints("error", hErr); vh_fail(what); } }
static const char *repoOpt(const unsigned r) { return r == 1 ? "--repo=1" : "--repo=2"; }
static bool backup(const unsigned r, const char *const type) { return run(cmdBackup, "backup", "--no-online", strcmp(type, "full") == 0 ? "--type=full" : "--type=incr", compressOpt, repoOpt(r)); }
static bool push(const bool async)
{
    if (!async) return run(pushWal, "archive-push", compressOpt, "/walsrc/" WALN, NULL, NULL);
    vm_put("/pg/pg_wal/" WALN, wal, sizeof wal); vm_putz("/pg/pg_wal/archive_status/" WALN ".ready", "");
    const bool ok = run(pushWalAsync, "archive-push:async", "--archive-async", compressOpt, "/pg/pg_wal", NULL);
    const bool acked = vm_exists("/spool/archive/db/out/" WALN ".ok"); vm_remove("/pg/pg_wal/" WALN); vm_remove("/pg/pg_wal/archive_status/" WALN ".ready"); vm_remove("/spool/archive/db/out/" WALN ".ok"); vm_remove("/spool/archive/db/out/" WALN ".error");
    if (!acked) return false;
    return ok;
}
static bool get(const unsigned r, const bool async)
{
    vm_remove("/pg/pg_wal/RECOVERYXLOG");
    if (!async) { archiveRes = 9; return run(getWal, "archive-get", r ? repoOpt(r) : NULL, WALN, "/pg/pg_wal/RECOVERYXLOG", NULL) && archiveRes == 0 && vm_equal("/pg/pg_wal/RECOVERYXLOG", wal, sizeof wal); }
    const bool ok = run(getWalAsync, "archive-get:async", "--archive-async", r ? repoOpt(r) : NULL, WALN, NULL);
    const bool have = vm_equal("/spool/archive/db/in/" WALN, wal, sizeof wal);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && vm.ent[i].node->type == VM_FILE && hUnder(vm.ent[i].path, "/spool/archive/db/in")) vm.ent[i].node = NULL;
    return ok && have;
}
static bool contains(const VmNode *const n, const char *const z)
{
    const size_t l = strlen(z);
    for (size_t i = 0; i + l <= n->size; i++) if (n->data[i] == (uint8_t)z[0] && memcmp(n->data + i, z, l) == 0) return true;
    return false;
}
// Nothing of the cluster is readable, not even names, and nothing of the keys
static void secret(const char *const repo)
{
    unsigned files = 0;
    for (int i = 0; i < vm.nEnt; i++)
    {
        const VmEnt *const e = &vm.ent[i]; if (e->node == NULL || e->node->type != VM_FILE || !hUnder(e->path, repo)) continue;
        static const char *const z[] = {MARK, "table", "base/1", "backrest", "db-version", "cipher-pass", PASS1, PASS2, "backup-label"}; files++;
        for (unsigned k = 0; k < sizeof z / sizeof *z; k++) if (contains(e->node, z[k])) { vh_prints("file", e->path); vh_prints("contains", z[k]); vh_fail("readable content in an encrypted repository"); }
        if (strstr(e->path, "/bundle/") == NULL && (e->node->size < 32 || memcmp(e->node->data, "Salted__", 8) != 0)) { vh_prints("file", e->path); vh_fail("file in an encrypted repository is not encrypted"); }
    }
    vh_assert(files > 8, "files missing from the repository");
}
static bool async_;
static HSnap snap;
static void begin(void)
{
    hInit(); vm_mkdirs("/lock"); vm_mkdirs("/spool/archive/db/in"); vm_mkdirs("/spool/archive/db/out"); vm_mkdirs("/repo1"); vm_mkdirs("/repo2"); vm.uid = 1000; vm.gid = 1000; vm.now = 1600000000; variant_ = 0;
    static const char *const c[] = {"--compress-type=none", "--compress-type=gz", "--compress-type=lz4", "--compress-type=bz2", "--compress-type=zst"};
    compressOpt = c[vh_choose("compress", 0, vh_arg(1) ? 4 : 1)]; layout = (unsigned)vh_choose("layout", 0, 2); repo2 = (unsigned)vh_choose("second repository", 0, vh_arg(2) ? 0 : 2); async_ = vh_choose("asynchronous archiving", 0, 1);
    mkCluster();
    must(run(cmdStanzaCreate, "stanza-create", "--no-online", NULL, NULL, NULL), "stanza-create failed"); must(push(async_), "archive-push failed"); must(backup(1, "full"), "backup failed");
    if (repo2) must(backup(2, "full"), "backup to the second repository failed");
}
// Everything works with encryption and everything in the repository is encrypted
void works(void)
{
    begin();
    fill(page, sizeof page, 1); page[8192 + 5]++; put("base/1/2000", page, sizeof page, vm.now + 50000); put("base/1/3000", "new " MARK, 4 + sizeof MARK, vm.now + 50000); vm_lookup("/pg/global/pg_control")->mtime = vm.now + 50000;
    must(backup(1, "incr"), "incremental backup failed");
    if (repo2) must(backup(2, "incr"), "incremental backup to the second repository failed");
    hSnapTake(&snap, "/pg");
    secret("/repo1");
    if (repo2 == 2) secret("/repo2");
    const unsigned between = (unsigned)vh_choose("between", 0, 2);
    if (between == 1) must(run(cmdExpire, "expire", NULL, NULL, NULL, NULL), "expire failed");
    if (between == 2) must(run(cmdStanzaUpgrade, "stanza-upgrade", "--no-online", NULL, NULL, NULL), "stanza-upgrade failed");
    const unsigned from = (unsigned)vh_choose("from", 1, repo2 ? 2 : 1);
    must(get(from, async_), "archived segment could not be read back");
    vm_remove("/pg/pg_wal/RECOVERYXLOG"); hRemoveTree("/pg");
    must(run(cmdRestore, "restore", repoOpt(from), NULL, NULL, NULL), "restore failed");
    hSnapSame(&snap, "/pg", "restored cluster differs from the cluster backed up");
    secret("/repo1");
    vh_reach("done");
}
// The repository after a stanza-upgrade to a new cluster version still works, with the same keys
void upgrade(void)
{
    begin();
    hPgControlPut("/pg/global/pg_control", HPG_13 + 1, SYSID + 1); putz("PG_VERSION", "14\n"); putz("base/1/PG_VERSION", "14\n"); vm_lookup("/pg/global/pg_control")->mode = 0600;
    must(run(cmdStanzaUpgrade, "stanza-upgrade", "--no-online", NULL, NULL, NULL), "stanza-upgrade failed");
    must(backup(1, "full"), "backup failed"); secret("/repo1"); hSnapTake(&snap, "/pg"); hRemoveTree("/pg");
    must(run(cmdRestore, "restore", "--repo=1", NULL, NULL, NULL), "restore failed"); hSnapSame(&snap, "/pg", "restored cluster differs from the cluster backed up");
    hPgControlPut("/pg/global/pg_control", HPG_13, SYSID); must(get(1, false), "segment of the old cluster could not be read back");
    vh_reach("done");
}
// With anything but the right passphrase every command fails and changes nothing
void wrong(void)
{
    begin(); variant_ = (unsigned)vh_choose("configuration", 1, 3); if (variant_ == 3) vh_assume(repo2 == 2);
    const unsigned what = (unsigned)vh_choose("command", 0, 7); static HSnap repo; hSnapTake(&repo, "/repo1"); hSnapTake(&snap, "/pg"); bool ok = false;
    vm_put("/pg/pg_wal/archive_status/x", "x", 1); hSnapTake(&snap, "/pg");
    switch (what)
    {
        case 0: ok = run(getWal, "archive-get", "--repo=1", WALN, "/pg/pg_wal/RECOVERYXLOG", NULL) && archiveRes == 0; break;
        case 1: wal[100]++; vm_put("/walsrc/000000010000000100000002", wal, sizeof wal); ok = run(pushWal, "archive-push", compressOpt, "/walsrc/000000010000000100000002", NULL, NULL); break;
        case 2: ok = backup(1, "full"); break;
        case 3: ok = backup(1, "incr"); break;
        case 4: ok = run(cmdRestore, "restore", "--repo=1", "--force", NULL, NULL); break;
        case 5: ok = run(cmdStanzaCreate, "stanza-create", "--no-online", NULL, NULL, NULL); break;
        case 6: ok = run(cmdStanzaUpgrade, "stanza-upgrade", "--no-online", NULL, NULL, NULL); break;
        case 7: ok = run(cmdExpire, "expire", "--repo=1", NULL, NULL, NULL); break;
    }
    vh_assert(!ok, "a command succeeded with a wrong passphrase"); vh_reach("refused");
    // A push to several repositories may have stored the segment in the other one only
    hSnapSame(&repo, "/repo1", "a command with a wrong passphrase changed the repository");
    hSnapSame(&snap, "/pg", "a command with a wrong passphrase changed the cluster");
}
