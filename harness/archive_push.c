// archive-push of one file to two repositories: arbitrary content, arbitrary prior repository contents, crash and fault points
#include "hcommon.h"

#include "command/archive/push/file.h"
#include "common/crypto/hash.h"

#define WAL "000000010000000100000001"
#define ARCHID "13-1"
static char repoDir[2][80] = {"/repo1/archive/db/13-1/0000000100000001", "/repo2/archive/db/13-1/0000000100000001"};

static void cfg(void)
{
    HCFG("archive-push", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--repo2-path=/repo2", "--compress-type=none", "pg_wal/" WAL);
}

static void segName(char *out, const char *dir, const char *wal, const Buffer *content)
{
    Buffer *hash = cryptoHashOne(hashTypeSha1, content);
    String *hex = strNewEncode(encodingHex, hash);
    size_t n = 0;
    for (const char *p = dir; *p; p++) out[n++] = *p;
    out[n++] = '/';
    for (const char *p = wal; *p; p++) out[n++] = *p;
    out[n++] = '-';
    memcpy(out + n, strZ(hex), strSize(hex) + 1);
}

// Every file in the directory that carries the segment's name, and whether it is exactly the given one
static unsigned segCount(const char *dir, const char *wal)
{
    unsigned n = 0; size_t dl = strlen(dir), wl = strlen(wal);
    for (int i = 0; i < vm.nEnt; i++)
        if (vm.ent[i].node && strncmp(vm.ent[i].path, dir, dl) == 0 && vm.ent[i].path[dl] == '/' && strncmp(vm.ent[i].path + dl + 1, wal, wl) == 0 && vm.ent[i].path[dl + 1 + wl] == '-')
        {
            // temporary names do not count: they are not visible as segments
            size_t l = strlen(vm.ent[i].path);
            if (l == dl + 1 + wl + 1 + 40) n++;
        }
    return n;
}

static bool push(const char *wal, unsigned repoTotal)
{
    volatile bool ok = false;
    TRY_BEGIN()
    {
        List *repoList = lstNewP(sizeof(ArchivePushFileRepoData));
        for (unsigned i = 0; i < repoTotal; i++)
            lstAdd(repoList, &(ArchivePushFileRepoData){.repoIdx = i, .archiveId = strNewZ(ARCHID), .cipherSpecArchive = cipherSpecNew(cipherTypeNone, NULL)});
        char src[64]; snprintf(src, sizeof src, "/pg/pg_wal/%s", wal);
        archivePushFile(STR(src), false, true, PG_VERSION_13, 1, STR(wal), compressTypeNone, 0, repoList, strLstNew());
        ok = true;
    }
    CATCH_FATAL()
    {
        H_NO_ASSERT();
    }
    TRY_END();
    return ok;
}
// vh_arg(0): 0 no fault, 1 crash at any operation, 2 one I/O error at any mutating operation, 3 killed at any operation
void harness(void)
{
    hInit();
    unsigned mode = (unsigned)vh_arg(0), len = (unsigned)vh_arg(1);
    const char *wal = WAL;
    if (vh_arg(2)) wal = WAL ".partial";
    uint8_t src[8], other[2][8];
    vh_bytes(src, len, "content");
    char p[64]; snprintf(p, sizeof p, "/pg/pg_wal/%s", wal);
    vm_put(p, src, len);
    cfg();
    // prior state of each repository: empty, the same segment, or an arbitrary other content under the segment's name
    unsigned prior[2]; char name[2][160], want[2][160];
    Buffer *content = bufNewC(src, len);
    for (unsigned r = 0; r < 2; r++)
    {
        prior[r] = vh_arg(3) ? 0 : (unsigned)vh_choose("prior", 0, mode == 0 ? 2 : 1);
        segName(want[r], repoDir[r], wal, content);
        if (prior[r] != 0)
        {
            if (prior[r] == 1) memcpy(other[r], src, len); else vh_bytes(other[r], len, "other");
            segName(name[r], repoDir[r], wal, bufNewC(other[r], len));
            vm_put(name[r], other[r], len);
        }
        // unrelated neighbours whose names must not be confused with the segment
        if (vh_arg(3)) { vm_mkdirs("/repo1/archive/db"); vm_mkdirs("/repo2/archive/db"); continue; }  // 3: the directory of the segment does not exist yet
        char nb[160]; segName(nb, repoDir[r], vh_arg(2) ? WAL : WAL ".partial", BUFSTRDEF("neighbour")); vm_put(nb, "neighbour", 9);
        segName(nb, repoDir[r], "000000010000000100000002", BUFSTRDEF("next")); vm_put(nb, "next", 4);
    }
    bool differ[2];
    for (unsigned r = 0; r < 2; r++) differ[r] = prior[r] == 2 && memcmp(other[r], src, len) != 0;
    vm.opCount = true;
    if (mode == 1 || mode == 3) { vm.crashAt = vh_u32("crash"); vh_assume(vm.crashAt != 0); }
    else if (mode == 2) { vm.faultAt = vh_u32("fault"); vh_assume(vm.faultAt != 0); vm.faultErr = 28; }
    bool ok = push(wal, 2);
    if (mode == 1 && vm.crashed)
    {
        vh_reach("crashed"); vm_recover("survives");
        vh_assert(!ok, "success reported although the push was cut short");
    }
    else if (mode == 3 && vm.crashed) { vh_reach("killed"); vm.crashed = false; vh_assert(!ok, "success reported although the push was cut short"); }
    else if (mode != 2 || ok) vm_recover("lost");                                        // power loss straight after the command returned
    if (ok) vh_reach("success"); else vh_reach("error");
    for (unsigned r = 0; r < 2; r++)
    {
        // whatever was archived before is still there, byte for byte
        if (prior[r]) vh_assert(vm_equal(name[r], other[r], len), "archived segment changed or removed");
        if (differ[r])
        {
            vh_reach("differ");
            vh_assert(!ok, "success although a different segment is archived under this name");
            vh_assert(segCount(repoDir[r], wal) == 1, "second copy of the segment stored beside a different one");
        }
        else
        {
            if (ok) vh_assert(vm_equal(want[r], src, len), "success but the segment is not durably stored in every repository");
            // never a partial or foreign file under the segment's final name
            if (vm_exists(want[r])) vh_assert(vm_equal(want[r], src, len), "incomplete segment visible in the archive");
            vh_assert(segCount(repoDir[r], wal) <= 1, "two files for one segment");
        }
    }
    // with no conflicting segment and no failure the push must succeed
    if (mode == 0 && !differ[0] && !differ[1]) vh_assert(ok, "push failed without a reason");
    if (mode == 2 && !vm.faultHit && !differ[0] && !differ[1]) vh_assert(ok, "push failed without a reason");
    if (mode == 2 && vm.faultHit && !ok) vh_reach("fault");
    // the repository that did not fail still receives the file
    if (mode == 2 && vm.faultHit) vh_assert(vm_equal(want[0], src, len) || vm_equal(want[1], src, len), "one failing repository kept the file from the other");
    // a retry after a crash or a fault completes
    if (mode != 0)
    {
        vm.faultAt = 0; vm.crashAt = 0;
        vh_assert(push(wal, 2), "retry after a failure does not succeed");
        vm_recover("lost after the retry");                         // the segment may be gone from the cluster by now
        for (unsigned r = 0; r < 2; r++) vh_assert(vm_equal(want[r], src, len) && segCount(repoDir[r], wal) == 1, "retry did not complete the archive");
    }
    vh_observe(ok);
}
