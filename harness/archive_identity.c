// archive-push accepts WAL only from the cluster (version and system id) the stanza was created for
#include "hinfo.h"
#include "hpg.h"

#include "command/archive/push/push.h"

#define SYSID 6569239123849665679ULL
#define WAL "000000010000000100000001"
static uint8_t seg[512];

static unsigned stored(const char *repo)
{
    unsigned n = 0; char d[80]; snprintf(d, sizeof d, "/%s/archive/db/", repo); size_t l = strlen(d);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && vm.ent[i].node->type == VM_FILE && strncmp(vm.ent[i].path, d, l) == 0 && strstr(vm.ent[i].path + l, WAL)) n++;
    return n;
}
void harness(void)
{
    hInit();
    bool pgPath = vh_bool("pg-path"), headerCheck = vh_bool("header-check");
    uint64_t walId = vh_u64("wal-system-id"); unsigned walVer = (unsigned)vh_choose("wal-version", 0, HPG_TOTAL - 1);
    unsigned pg = (unsigned)vh_choose("pg-control", 0, 2);         // 0 match, 1 other system, 2 other version
    hPgControlPut("/pg/global/pg_control", pg == 2 ? HPG_13 + 1 : HPG_13, pg == 1 ? 77 : SYSID);
    unsigned r[2];
    for (unsigned i = 0; i < 2; i++)
    {
        r[i] = (unsigned)vh_choose("repo", 0, 3);                   // 0 match, 1 other system, 2 other version, 3 no stanza
        if (r[i] != 3) hArchiveInfo(i ? "/repo2" : "/repo1", r[i] == 2 ? "14" : "13", r[i] == 1 ? 77 : SYSID);
    }
    hPgWal(seg, walVer, walId, 16777216);
    vm_put("/pg/pg_wal/" WAL, seg, sizeof seg);
    HCFG("archive-push", "--stanza=db", pgPath ? "--pg1-path=/pg" : "--log-level-file=off", "--repo1-path=/repo1", "--repo2-path=/repo2", "--compress-type=none", headerCheck ? "--archive-header-check" : "--no-archive-header-check", "/pg/pg_wal/" WAL);
    volatile bool ok = false;
    TRY_BEGIN() { cmdArchivePush(); ok = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    // what the WAL must match: pg_control when available, else the first repository that could be read
    unsigned want = pgPath ? pg : r[0] != 3 ? r[0] : r[1];
    bool match = pgPath ? r[0] == pg && r[1] == pg : r[0] != 3 && r[0] == r[1];
    uint64_t id = want == 1 ? 77 : SYSID; unsigned ver = want == 2 ? HPG_13 + 1 : HPG_13;
    bool header = !headerCheck || vh_and(walId == id, walVer == ver);
    if (ok)
    {
        vh_reach("accepted");
        vh_assert(match, "success although a repository belongs to another cluster");
        vh_assert(header, "WAL of another cluster accepted");
        vh_assert(stored("repo1") == 1 && stored("repo2") == 1, "success without storing the segment everywhere");
    }
    else
    {
        vh_reach("rejected");
        vh_assert(!(match && header), "WAL of the right cluster refused");
        if (pgPath && r[0] != pg) vh_assert(stored("repo1") == 0, "segment stored in the repository of another cluster");
        if (pgPath && r[1] != pg) vh_assert(stored("repo2") == 0, "segment stored in the repository of another cluster");
        if (!header) vh_assert(stored("repo1") == 0 && stored("repo2") == 0, "WAL of another cluster stored");
    }
    vh_observe(ok);
}
