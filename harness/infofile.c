// Info files: damage of one copy is survived, damage of both is never taken for content, what is saved is what is loaded
#include "hcommon.h"
#include "hinfo.h"
#include "info/infoArchive.h"
#include "info/infoBackup.h"
#include "info/manifest/manifest.h"
#define CK "0102030405060708090a0b0c0d0e0f1011121314"
static const char *const manifestBody[] = {
    // 0: header, options, targets
    "[backup]\nbackup-archive-start=\"000000010000000000000002\"\nbackup-archive-stop=\"000000010000000000000003\"\nbackup-block-incr=true\nbackup-bundle=true\nbackup-label=\"20200914-161320F_20200914-171320I\"\nbackup-lsn-start=\"0/2000028\"\nbackup-lsn-stop=\"0/3000130\"\nbackup-prior=\"20200914-161320F\"\nbackup-reference=\"20200914-161320F,20200914-161320F_20200914-171320I\"\nbackup-timestamp-copy-start=1600103600\nbackup-timestamp-start=1600103599\nbackup-timestamp-stop=1600103660\nbackup-type=\"incr\"\n\n"
    "[backup:db]\ndb-catalog-version=202007201\ndb-control-version=1300\ndb-id=1\ndb-system-id=1000000000000000094\ndb-version=\"13\"\n\n"
    "[backup:option]\noption-archive-check=true\noption-archive-copy=false\noption-backup-standby=false\noption-buffer-size=16384\noption-checksum-page=true\noption-compress=true\noption-compress-level=3\noption-compress-level-network=3\noption-compress-type=\"gz\"\noption-delta=false\noption-hardlink=false\noption-online=true\noption-process-max=2\n\n"
    "[backup:target]\npg_data={\"path\":\"/pg\",\"type\":\"path\"}\n\n"
    "[target:file]\npg_data/PG_VERSION={\"checksum\":\"" CK "\",\"size\":3,\"timestamp\":1565282114}\n\n"
    "[target:file:default]\ngroup=\"g1\"\nmode=\"0600\"\nuser=\"u1\"\n\n[target:path]\npg_data={}\n\n[target:path:default]\ngroup=\"g1\"\nmode=\"0700\"\nuser=\"u1\"\n",
    // 1: files, links, paths, tablespaces
    "[backup]\nbackup-label=\"20200914-161320F\"\nbackup-reference=\"20200914-161320F\"\nbackup-timestamp-copy-start=1600103600\nbackup-timestamp-start=1600103599\nbackup-timestamp-stop=1600103660\nbackup-type=\"full\"\n\n"
    "[backup:db]\ndb-catalog-version=202007201\ndb-control-version=1300\ndb-id=1\ndb-system-id=1000000000000000094\ndb-version=\"13\"\n\n"
    "[backup:option]\noption-archive-check=true\noption-archive-copy=false\noption-compress=false\noption-compress-type=\"none\"\noption-hardlink=false\noption-online=false\n\n"
    "[backup:target]\npg_data={\"path\":\"/pg\",\"type\":\"path\"}\npg_data/postgresql.conf={\"file\":\"postgresql.conf\",\"path\":\"../etc\",\"type\":\"link\"}\npg_tblspc/1={\"path\":\"/ts\",\"tablespace-id\":\"1\",\"tablespace-name\":\"ts1\",\"type\":\"link\"}\n\n"
    "[db]\npostgres={\"db-id\":12173,\"db-last-system-id\":12168}\n\n[metadata]\nannotation={\"k\":\"v\"}\n\n"
    "[target:file]\n"
    "pg_data/PG_VERSION={\"checksum\":\"" CK "\",\"size\":3,\"timestamp\":1565282114}\n"
    "pg_data/base/1/1={\"bi\":1,\"bim\":25,\"bni\":1,\"bno\":7,\"checksum\":\"" CK "\",\"checksum-page\":false,\"checksum-page-error\":[1,[3,5]],\"group\":false,\"mode\":\"0640\",\"rck\":\"" CK "\",\"reference\":\"20200914-161320F\",\"repo-size\":4096,\"size\":16384,\"szo\":8192,\"timestamp\":1565282115,\"user\":\"u2\"}\n\n"
    "[target:file:default]\ngroup=\"g1\"\nmode=\"0600\"\nuser=\"u1\"\n\n"
    "[target:link]\npg_data/postgresql.conf={\"destination\":\"../etc/postgresql.conf\"}\npg_data/pg_tblspc/1={\"destination\":\"/ts\",\"user\":false}\n\n[target:link:default]\ngroup=\"g1\"\nuser=\"u1\"\n\n"
    "[target:path]\npg_data={\"mode\":\"0750\"}\npg_data/base={}\n\n[target:path:default]\ngroup=false\nmode=\"0700\"\nuser=\"u1\"\n",
};
static const char *const backupLine =
    "20200914-161320F={\"backrest-format\":5,\"backrest-version\":\"2.60.0\",\"backup-annotation\":{\"k\":\"v\"},\"backup-archive-start\":\"000000010000000000000002\",\"backup-archive-stop\":\"000000010000000000000003\",\"backup-error\":false,\"backup-info-repo-size\":3159,\"backup-info-repo-size-delta\":3159,\"backup-info-size\":26897,\"backup-info-size-delta\":26897,\"backup-lsn-start\":\"0/2000028\",\"backup-lsn-stop\":\"0/3000130\",\"backup-timestamp-start\":1600103599,\"backup-timestamp-stop\":1600103660,\"backup-type\":\"full\",\"db-id\":1,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":true,\"option-hardlink\":false,\"option-online\":true}\n"
    "20200914-161320F_20200914-171320I={\"backrest-format\":5,\"backrest-version\":\"2.60.0\",\"backup-archive-start\":\"000000010000000000000004\",\"backup-archive-stop\":\"000000010000000000000005\",\"backup-info-repo-size\":3159,\"backup-info-repo-size-delta\":31,\"backup-info-repo-size-map\":7,\"backup-info-repo-size-map-delta\":8,\"backup-info-size\":26897,\"backup-info-size-delta\":268,\"backup-prior\":\"20200914-161320F\",\"backup-reference\":[\"20200914-161320F\"],\"backup-timestamp-start\":1600107199,\"backup-timestamp-stop\":1600107260,\"backup-type\":\"incr\",\"db-id\":1,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":true,\"option-hardlink\":false,\"option-online\":true}\n";
#define MAN "/repo1/backup/db/20200914-161320F/backup.manifest"
static unsigned kind; static const char *file;
static const HPgHist hist[] = {{1, "9.6", 1000000000000000090ULL}, {2, "13", 1000000000000000094ULL}};
static void put(void)
{
    if (kind == 0) { hArchiveInfoHist("/repo1", hist, 2); file = "/repo1/archive/db/archive.info"; }
    else if (kind == 1) { hBackupInfoHist("/repo1", hist, 2, backupLine); file = "/repo1/backup/db/backup.info"; }
    else { hInfoPut(MAN, manifestBody[kind - 2]); file = MAN; }
}
// Load as the commands do and give back what was loaded in the canonical form
static Buffer *load(void)
{
    const CipherSpec *const none = cfgCipherSpecMain(); Buffer *b = bufNew(0); IoWrite *w = ioBufferWriteNew(b);
    if (kind == 0) { InfoArchive *i = infoArchiveLoadFile(storageRepo(), INFO_ARCHIVE_PATH_FILE_STR, none); infoArchiveSaveFile(i, storageRepoWrite(), strNewZ("/repo1/out"), none); }
    else if (kind == 1) { InfoBackup *i = infoBackupLoadFile(storageRepo(), INFO_BACKUP_PATH_FILE_STR, none); KeyValue *kv = kvNew(); kvAdd(kv, VARSTRDEF("k"), VARSTRDEF("v")); infoBackupDataAnnotationSet(i, strNewZ("20200914-161320F"), kv); infoBackupSaveFile(i, storageRepoWrite(), strNewZ("/repo1/out"), none); }
    else { Manifest *m = manifestLoadFile(storageRepo(), strNewZ(MAN), none); manifestSave(m, w); return b; }
    VmNode *n = vm_lookup("/repo1/out"); return bufNewC(n->data, n->size);
}
static void init(void)
{
    hInit(); HCFG("expire", "--stanza=db", "--repo1-path=/repo1", "--repo1-retention-full=1", "--lock-path=/lock", "--log-level-file=off");
    kind = (unsigned)vh_arg(0); put();
}
// 0: file kind, 1: 0 only the main file damaged, 1 only the copy, 2 the main file with the copy missing, 2: step of positions, 3: first position, 4: last position (0: end)
void damage(void)
{
    init(); char copy[256]; snprintf(copy, sizeof copy, "%s.copy", file);
    Buffer *volatile good = NULL; TRY_BEGIN() { good = load(); } CATCH_FATAL() { vh_prints("error", errorMessage()); vh_fail("load of an undamaged file failed"); } TRY_END();
    // What is loaded is saved in the canonical form, which loads to the same
    vm_put(file, bufPtr(good), bufUsed(good)); vm_put(copy, bufPtr(good), bufUsed(good));
    Buffer *volatile again = NULL; TRY_BEGIN() { again = load(); } CATCH_FATAL() { vh_prints("error", errorMessage()); vh_fail("load of a saved file failed"); } TRY_END();
    vh_assert(bufUsed(good) == bufUsed(again) && memcmp(bufPtr(good), bufPtr(again), bufUsed(good)) == 0, "what was loaded is not what is saved");
    VmNode *m = vm_lookup(file), *c = vm_lookup(copy); unsigned how = (unsigned)vh_arg(1);
    vh_assert(bufUsed(good) == m->size && memcmp(bufPtr(good), m->data, m->size) == 0, "what was loaded is not what is saved");
    size_t last = vh_arg(4) && vh_arg(4) < m->size ? vh_arg(4) : m->size - 1, step = vh_arg(2) ? vh_arg(2) : 1;
    size_t o = vh_arg(3) + step * vh_choose("position", 0, (last - vh_arg(3)) / step); uint8_t v = vh_u8("value"); vh_assume(v != m->data[o]);
    if (how != 1) m->data[o] = v;
    if (how == 1) c->data[o] = v; else if (how == 2) vm_remove(copy);
    vm_allDurable();
    Buffer *volatile got = NULL;
    TRY_BEGIN() { got = load(); } CATCH_FATAL() { if (vh_arg(15)) { vh_print("position", o); } if (vh_arg(15)) vh_prints("error", errorMessage()); if (vh_arg(5) && errorType() == &AssertError) { vh_prints("error", errorMessage()); vh_reach("assert"); vh_end(); } } TRY_END();
    if (how != 2) vh_assert(got != NULL, "load failed although one copy is good");
    if (got != NULL) { vh_assert(bufUsed(got) == bufUsed(good) && memcmp(bufPtr(got), bufPtr(good), bufUsed(good)) == 0, "damaged content was taken"); vh_reach("loaded"); }
    else vh_reach("refused");
    vh_reach("done");
}

// The main file, the copy or both are cut at any length (as above) or missing
void cut(void)
{
    init(); char copy[256]; snprintf(copy, sizeof copy, "%s.copy", file);
    Buffer *volatile good = NULL; TRY_BEGIN() { good = load(); } CATCH_FATAL() { vh_prints("error", errorMessage()); vh_fail("load of an undamaged file failed"); } TRY_END();
    VmNode *m = vm_lookup(file), *c = vm_lookup(copy); unsigned how = (unsigned)vh_choose("which", 0, 2);
    size_t step = vh_arg(2) ? vh_arg(2) : 1, n = vh_choose("length", 0, m->size / step); bool missing = n * step >= m->size;
    if (missing) { if (how != 1) vm_remove(file); if (how != 0) vm_remove(copy); }
    else { if (how != 1) m->size = n * step; if (how != 0) c->size = n * step; }
    vm_allDurable();
    Buffer *volatile got = NULL; volatile bool missingError = false;
    TRY_BEGIN() { got = load(); } CATCH_FATAL() { H_NO_ASSERT(); missingError = errorType() == &FileMissingError; } TRY_END();
    if (how != 2) vh_assert(got != NULL, "load failed although one copy is good");
    else if (missing) vh_assert(got == NULL && missingError, "missing files not reported as missing");
    if (got != NULL) { vh_assert(bufUsed(got) == bufUsed(good) && memcmp(bufPtr(got), bufPtr(good), bufUsed(good)) == 0, "damaged content was taken"); vh_reach("loaded"); }
    else vh_reach("refused");
    vh_reach("done");
}
