// Page checksums: exactly the damaged pages are reported
#include "hcluster.h"
#include "command/backup/pageChecksum.h"
#include "common/io/filter/group.h"
#include "info/manifest/manifest.h"
#include "common/type/pack.h"
// Reference from the description of the algorithm in PostgreSQL: 32 interleaved FNV-1a variants
static uint16_t refSum(const uint8_t *page, unsigned size, uint32_t block)
{
    static const uint32_t base[32] = {
        0x5B1F36E9, 0xB8525960, 0x02AB50AA, 0x1DE66D2A, 0x79FF467A, 0x9BB9F8A3, 0x217E7CD2, 0x83E13D2C, 0xF8D4474F, 0xE39EB970, 0x42C6AE16, 0x993216FA, 0x7B093B5D, 0x98DAFF3C, 0xF718902A, 0x0B1C9CDB,
        0xE58F764B, 0x187636BC, 0x5D7B3BB1, 0xE73DE7DE, 0x92BEC979, 0xCCA6C0B2, 0x304A0979, 0x85AA43D4, 0x783125BB, 0x6CA8EAA2, 0xE407EAC6, 0x4B5CFC3E, 0x9FBF8C76, 0x15CA20BE, 0xF2CA9FD3, 0x959BD756};
    uint32_t s[32], r = 0; memcpy(s, base, sizeof s);
    for (unsigned i = 0; i < size / 128 + 2; i++) for (unsigned j = 0; j < 32; j++)
    {
        uint32_t v = 0; if (i < size / 128) { unsigned o = i * 128 + j * 4; v = (uint32_t)page[o] | (uint32_t)page[o + 1] << 8 | (uint32_t)page[o + 2] << 16 | (uint32_t)page[o + 3] << 24; if (o == 8) v &= 0xFFFF0000; }   // bytes 8 and 9 hold the checksum
        uint32_t x = s[j] ^ v; s[j] = x * 16777619u ^ x >> 17;
    }
    for (unsigned j = 0; j < 32; j++) r ^= s[j];
    return (uint16_t)((r ^ block) % 65535 + 1);
}
static void mkPage(uint8_t *p, unsigned size, uint32_t block, unsigned seed)
{
    for (unsigned i = 0; i < size; i++) p[i] = (uint8_t)(i * 13 + seed * 7 + (i >> 7) + 1);
    p[14] = 0; p[15] = 2; uint16_t s = refSum(p, size, block); p[8] = (uint8_t)s; p[9] = (uint8_t)(s >> 8);
}
#define PMAX 4
static uint8_t data[PMAX * 8192 + 8192];
static bool bad[PMAX + 1];
// The state of a page
static void state(unsigned size, unsigned i, uint32_t block, unsigned st, bool header)
{
    uint8_t *p = data + i * size; mkPage(p, size, block, i); bad[i] = false;
    switch (st)
    {
        case 1: memset(p, 0, size); break;                          // new page
        case 2: memset(p, 0, size); p[size - 1] = 1; bad[i] = true; break;
        case 3: mkPage(p, size, block + 1, i); bad[i] = true; break;  // of another block
        case 4: p[8] ^= 1; bad[i] = true; break;
        case 5: p[size - 1] ^= 0x40; bad[i] = refSum(p, size, block) != (uint16_t)(p[8] | p[9] << 8); break;
        case 6: p[14] = p[15] = 0; { uint16_t s = refSum(p, size, block); p[8] = (uint8_t)s; p[9] = (uint8_t)(s >> 8); } bad[i] = header; break;   // header says new, contents say otherwise
        case 7: p[8] = p[9] = 0; bad[i] = true; break;
        case 8: memset(p, 0, size); p[0] = 1; bad[i] = true; break;
    }
}
#define STATES 9
// 0 page size in KiB, 1 pages, 2: 1 one symbolic byte
void filter(void)
{
    hInit(); unsigned size = (unsigned)(vh_arg(0) ? vh_arg(0) : 1) * 1024, n = (unsigned)vh_choose("pages", 0, vh_arg(1)), seg = (unsigned)vh_choose("segment", 0, 1), per = 0x40000000 / size; bool header = vh_choose("header check", 0, 1); static const unsigned parts[] = {0, 1, 511, 512, 1000};
    unsigned part = parts[vh_choose("partial page", 0, 4)]; memset(bad, 0, sizeof bad); uint32_t first = seg * per;
    for (unsigned i = 0; i < n; i++) state(size, i, first + i, vh_arg(2) ? 0 : (unsigned)vh_choose("state", 0, STATES - 1), header);
    if (part) mkPage(data + n * size, size, first + n, n);
    bool changed = vh_choose("changes while being read", 0, 1); unsigned changedPage = 0; if (changed) { vh_assume(n > 0); changedPage = (unsigned)vh_choose("changed page", 0, n - 1); }
    if (vh_arg(2))
    {
        // Any value of any byte of a page, of the header and of the area next to the last byte
        vh_assume(n > 0 && (vh_arg(3) || (part == 0 && !changed))); unsigned which = (unsigned)vh_choose("page", 0, n - 1), at = (unsigned)vh_choose("byte", 0, 23); if (at > 15) at = at == 16 ? size - 1 : at == 17 ? size - 2 : at == 18 ? 127 : at == 19 ? 128 : at == 20 ? size / 2 : at == 21 ? 511 : at == 22 ? 256 : 131; uint8_t *p = data + which * size, old = p[at]; p[at] = vh_u8("value");
        if (at == 8 || at == 9) bad[which] = p[at] != old; else bad[which] = vh_or(refSum(p, size, first + which) != (uint16_t)(p[8] | p[9] << 8), header && vh_and(p[14] == 0, p[15] == 0));
    }
    uint8_t *file = malloc(sizeof data); memcpy(file, data, sizeof data);
    if (changed) file[changedPage * size + 300] ^= 0x80;
    vm_put("/pg/base/1/1000", file, n * size + part);
    bool align = part == 0, valid = true; unsigned wantN = n; volatile bool ok = false;
    ioBufferSizeSet(size * 2);
    TRY_BEGIN()
    {
        IoRead *r = ioBufferReadNew(BUF(data, n * size + part)); ioFilterGroupAdd(ioReadFilterGroup(r), pageChecksumNew(seg, per, size, header, strNewZ("/pg/base/1/1000"))); ioReadDrain(r);
        PackRead *p = ioFilterGroupResultP(ioReadFilterGroup(r), PAGE_CHECKSUM_FILTER_TYPE);
        bool got[PMAX + 1] = {0};
        if (!pckReadNullP(p)) { pckReadArrayBeginP(p); while (pckReadNext(p)) { unsigned id = pckReadId(p) - 1; vh_assert(id >= first && id - first <= n && !got[id - first], "page reported that does not exist or twice"); got[id - first] = true; pckReadObjBeginP(p, .id = id + 1); pckReadObjEndP(p); } pckReadArrayEndP(p); }
        bool rv = pckReadBoolP(p), ra = pckReadBoolP(p);
        // A part of a page at the end is an error in itself; when it is too short for a write in progress nothing is said about the other pages of its buffer
        bool odd = part != 0 && part < 512; if (odd) { valid = false; wantN = n / 2 * 2; }
        for (unsigned i = 0; i < wantN; i++) { bool e = bad[i] && !(changed && i == changedPage); if (e) valid = false; vh_assert(got[i] == e, e ? "damaged page not reported" : "intact page reported"); if (e) vh_reach("damaged"); else vh_reach("intact"); }
        if (part >= 512) { vh_assert(got[n], "partial page not reported"); valid = false; }
        vh_assert(rv == valid && ra == align, "result of the check wrong"); ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "page check failed"); vh_reach("done");
}
// Backups report exactly the damaged pages of exactly the relation files. 0: layout (1 plain, 2 bundle, 3 block incremental)
static char want[200];
static void list(unsigned first, unsigned n)
{
    unsigned k = 0; bool any = false; want[0] = 0;
    for (unsigned i = 0; i < n; i++) if (bad[i]) { unsigned e = i; while (e + 1 < n && bad[e + 1]) e++; k += (unsigned)snprintf(want + k, sizeof want - k, e > i ? "%s[%u,%u]" : "%s%u", any ? "," : "[", first + i, first + e); any = true; i = e; }
    if (any) snprintf(want + k, sizeof want - k, "]");
}
void backup(void)
{
    hInit(); vm_mkdirs("/lock"); vm_mkdirs("/spool"); vm.uid = 1000; vm.gid = 1000; vm.now = 1600000000; unsigned size = 8192; static uint8_t ctl[8192];
    hPgControl(ctl, HPG_13, SYSID, 1, 1, size, 16777216, 1); vm_put("/pg/global/pg_control", ctl, 8192); vm_putz("/pg/PG_VERSION", "13\n"); vm_mkdirs("/pg/pg_wal"); vm_putz("/pg/base/1/PG_VERSION", "13\n"); vm_putz("/pg/base/1/pg_filenode.map", "map"); vm_putz("/pg/other", "not a relation"); vm_mkdirs("/pg/pg_tblspc");
    static const char *const names[] = {"base/1/1000", "base/1/1000.1", "global/1260", "base/1/2000_vm", "base/16384/77.2"}; unsigned which = (unsigned)vh_choose("file", 0, 4), n = (unsigned)vh_choose("pages", 1, 3); unsigned seg = which == 1 ? 1 : which == 4 ? 2 : 0, first = seg * (0x40000000 / size);
    static const unsigned st[] = {0, 3, 2, 4}; for (unsigned i = 0; i < n; i++) state(size, i, first + i, st[vh_choose("state", 0, vh_arg(1) ? 3 : 1)], true);
    char p[64]; snprintf(p, sizeof p, "/pg/%s", names[which]); unsigned part = (which == 0 || vh_arg(1)) && vh_choose("partial", 0, 1) ? 600 : 0; if (part) { mkPage(data + n * size, size, first + n, n); bad[n] = true; } vm_put(p, data, n * size + part);
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && hUnder(vm.ent[i].path, "/pg")) { vm.ent[i].node->mode = vm.ent[i].node->type == VM_DIR ? 0700 : 0600; vm.ent[i].node->mtime = vm.now - 1000; }
    hRepo("/repo1"); vm_allDurable();
    static const char *const lay[] = {"--no-repo1-bundle", "--repo1-bundle", "--repo1-block"}; unsigned l = (unsigned)vh_choose("layout", 0, 2); bool on = (n > 1 && !vh_arg(1)) || vh_choose("checksum-page", 0, 1);
    // A second backup that keeps the file must keep what is known about it
    unsigned rounds = 1 + (unsigned)vh_choose("second backup", 0, 1);
    for (unsigned r = 0; r < rounds; r++)
    {
        vm.now += 100000; if (r) vm_lookup("/pg/global/pg_control")->mtime = vm.now;
        HCFG("backup", "--stanza=db", "--pg1-path=/pg", "--repo1-path=/repo1", "--lock-path=/lock", "--log-level-file=off", "--no-online", "--repo1-retention-full=9", r ? "--type=incr" : "--type=full", "--compress-type=none", on ? "--checksum-page" : "--no-checksum-page", lay[l], l == 2 ? "--repo1-bundle" : "--process-max=1");
        lockInit(strNewZ("/lock"), strNewZ("1-1")); if (!hRun(cmdBackup)) { vh_prints("error", hErr); vh_fail("backup failed"); }
    }
    list(first, n + (part ? 1 : 0)); bool any = want[0] != 0; volatile bool ok = false;
    TRY_BEGIN()
    {
        const InfoBackup *info = infoBackupLoadFile(storageRepo(), strNewZ("<REPO:BACKUP>/backup.info"), cfgCipherSpecMain()); StringList *labels = infoBackupDataLabelList(info, NULL); char m[100]; snprintf(m, sizeof m, "<REPO:BACKUP>/%s/backup.manifest", strZ(strLstGet(labels, strLstSize(labels) - 1))); vh_assert(strLstSize(labels) == rounds, "backup not listed");
        Manifest *mf = manifestLoadFile(storageRepo(), strNewZ(m), cfgCipherSpecMain()); unsigned pages = 0;
        for (unsigned i = 0; i < manifestFileTotal(mf); i++)
        {
            ManifestFile f = manifestFile(mf, i); char q[80]; snprintf(q, sizeof q, "pg_data/%s", names[which]); bool it = strcmp(strZ(f.name), q) == 0; if (it) pages++;
            vh_assert(f.checksumPage == (on && it), "pages of another file checked or relation not checked"); vh_assert(f.checksumPageError == (on && it && any), "page check result lost");
            if (on && it && any) { vh_assert(f.checksumPageErrorList != NULL || part, "damaged pages not listed"); if (!part) vh_assert(strcmp(strZ(f.checksumPageErrorList), want) == 0, "wrong pages listed"); }
            else vh_assert(f.checksumPageErrorList == NULL, "pages listed");
        }
        vh_assert(pages == 1, "file not in the backup");
        InfoBackupData d = infoBackupData(info, infoBackupDataTotal(info) - 1); if (on) vh_assert(d.backupError != NULL && varBool(d.backupError) == any, "backup.info does not say whether pages are damaged"); vh_reach(any ? "damaged" : "intact"); ok = true;
    }
    CATCH_FATAL() { vh_prints("error", errorMessage()); } TRY_END();
    vh_assert(ok, "backup cannot be read"); vh_reach("done");
}
