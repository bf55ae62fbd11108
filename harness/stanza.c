// stanza-create and stanza-upgrade
#include "hcommon.h"
#include "hinfo.h"
#include "hpg.h"
#include "command/stanza/create.h"
#include "command/stanza/upgrade.h"

// What an info file must look like, byte for byte: built in a scratch place
static HText text(bool archive, const HPgHist *h, unsigned n)
{
    char p[64]; snprintf(p, 64, "/want/%s/db/%s.info", archive ? "archive" : "backup", archive ? "archive" : "backup");
    if (archive) hArchiveInfoHist("/want", h, n); else hBackupInfoHist("/want", h, n, NULL);
    VmNode *x = vm_lookup(p); HText t = {0}; hCatN(&t, (char *)x->data, x->size); return t;
}
static void put(const char *p, HText t) { vm_put(p, t.b, t.n); }
static bool is(const char *p, HText t) { return vm_equal(p, t.b, t.n); }
static const char *const file[2][2] = {{"/repo1/archive/db/archive.info", "/repo1/archive/db/archive.info.copy"}, {"/repo1/backup/db/backup.info", "/repo1/backup/db/backup.info.copy"}};
static const char *const file2[2][2] = {{"/repo2/archive/db/archive.info", "/repo2/archive/db/archive.info.copy"}, {"/repo2/backup/db/backup.info", "/repo2/backup/db/backup.info.copy"}};

void create(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000; vm_mkdirs("/repo1"); vm_mkdirs("/repo2");
    unsigned ver = (unsigned)vh_choose("version", 0, HPG_TOTAL - 1); vh_assume(ver == HPG_13 || vh_arg(1) == 1);
    hPgControlPut("/pg/global/pg_control", ver, 6569239123849665679ULL);
    char v[16]; if (hPgVersion[ver].version >= 100000) snprintf(v, 16, "%u", hPgVersion[ver].version / 10000); else snprintf(v, 16, "9.6");
    HPgHist good[] = {{1, v, 6569239123849665679ULL}}, sys[] = {{1, v, 6569239123849665678ULL}}, oldv[] = {{1, strcmp(v, "12") == 0 ? "11" : "12", 6569239123849665679ULL}}, past[] = {{1, v, 6569239123849665679ULL}, {2, v, 6569239123849665678ULL}}, two[] = {{1, "9.6", 1}, {2, v, 6569239123849665679ULL}};
    struct { HPgHist *h; unsigned n; bool ok; } st[] = {{good, 1, true}, {two, 2, true}, {sys, 1, false}, {oldv, 1, false}, {past, 2, false}};
    unsigned have[2], kind[2] = {0, 0}, extra = 0; HText t[2]; 
    for (unsigned i = 0; i < 2; i++)
    {
        have[i] = vh_arg(1) == 1 ? 0 : (unsigned)vh_choose("files", 0, 3); if (have[i]) kind[i] = (unsigned)vh_choose("kind", 0, 4);
        t[i] = text(i == 0, st[kind[i]].h, st[kind[i]].n);
        for (unsigned k = 0; k < 2; k++) if (have[i] & 1u << k) put(file[i][k], t[i]);
    }
    if (!have[0] && !have[1]) { extra = (unsigned)vh_choose("content", 0, 2); if (extra) vm_putz(extra == 1 ? "/repo1/archive/db/x" : "/repo1/backup/db/y", "z"); }
    HCFG("stanza-create", "--stanza=db", "--repo1-path=/repo1", "--repo2-path=/repo2", "--pg1-path=/pg", "--no-online", "--lock-path=/lock");
    vm_allDurable(); vm.opCount = true; volatile bool ok = false;
    unsigned fault = (unsigned)vh_arg(0);
    if (fault == 1) { vm.crashAt = (uint32_t)vh_range("crash-at", 1, 60); } else if (fault == 2) { vm.faultAt = (uint32_t)vh_range("fault-at", 1, 60); vm.faultErr = 28; }
    TRY_BEGIN() { cmdStanzaCreate(); ok = true; } CATCH_FATAL() { if (!vm.crashed) H_NO_ASSERT(); } TRY_END();
    bool crashed = vm.crashed; if (crashed) { vh_reach("crashed"); vm_recover("survives"); } if (vm.faultHit) vh_reach("fault");
    bool clean = !crashed && !vm.faultHit;
    bool fresh = !have[0] && !have[1], valid = have[0] && have[1] && st[kind[0]].ok && st[kind[1]].ok && kind[0] == kind[1];
    HText want[2] = {text(true, good, 1), text(false, good, 1)};
    if (ok)
    {
        vh_reach(fresh ? "created" : "valid");
        vh_assert((fresh && !extra) || valid, "stanza accepted although its files are missing, inconsistent, of another cluster, or not empty");
        for (unsigned i = 0; i < 2; i++) for (unsigned k = 0; k < 2; k++) { vh_assert(is(file[i][k], fresh ? want[i] : t[i]), "info file wrong after success"); vh_assert(is(file2[i][k], want[i]), "info file of the second repository wrong after success"); }
    }
    else if (clean) { vh_reach("refused"); vh_assert(!((fresh && !extra) || valid), "stanza refused although it can be created or is valid"); }
    // nothing present is ever damaged, and no half-written file is visible
    for (unsigned i = 0; i < 2; i++) for (unsigned k = 0; k < 2; k++)
    {
        if (have[i] & 1u << k) vh_assert(is(file[i][k], t[i]), "existing info file changed");
        else if (vm_exists(file[i][k])) vh_assert(is(file[i][k], have[i] ? t[i] : want[i]), "wrong or incomplete info file visible");
        if (vm_exists(file2[i][k])) vh_assert(is(file2[i][k], want[i]), "wrong or incomplete info file visible in the second repository");
    }
    vh_observe(ok);
}

// upgrade
void upgrade(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000; vm_mkdirs("/repo1");
    HPgHist h[4] = {{1, "12", 111}, {2, "13", 222}, {0}, {0}};
    unsigned base = (unsigned)vh_choose("history", 1, 2), to = (unsigned)vh_choose("to", 0, 4);
    bool gap = vh_bool("removed-id"); if (gap) h[1].id = 5;
    // the cluster now: as recorded, new version, new system, both new, or back to the oldest one
    HPgHist now = h[base - 1]; if (to == 1 || to == 3) now.ver = "14"; if (to == 2 || to == 3) now.sysId = 333; if (to == 4) now = h[0];
    unsigned ver = (unsigned)(hPgByName(now.ver) - hPgVersion); hPgControlPut("/pg/global/pg_control", ver, now.sysId);
    bool change = strcmp(now.ver, h[base - 1].ver) != 0 || now.sysId != h[base - 1].sysId;
    HPgHist n[4]; memcpy(n, h, sizeof n); unsigned nn = base; if (change) { now.id = h[base - 1].id + 1; n[nn++] = now; }
    // an earlier upgrade may have been interrupted between the two files; the backup file may lag behind one more entry (inconsistent)
    unsigned state = (unsigned)vh_choose("state", 0, 3);            // 0 both old, 1 archive already upgraded, 2 backup lacks an entry, 3 archive.info missing
    HText ao = text(true, h, base), bo = text(false, h, base), an = text(true, n, nn), bn = text(false, n, nn); bool bad = false;
    if (state == 1) { put(file[0][0], an); put(file[0][1], an); }
    else if (state != 3) { put(file[0][0], ao); put(file[0][1], ao); } else bad = true;
    HText b0 = bo; if (state == 2 && base == 2) { b0 = text(false, h, 1); bad = to != 0 || gap; }
    put(file[1][0], b0); put(file[1][1], b0);
    if (state == 2 && base == 2)                                    // both are upgraded from different histories: never consistent
        vh_assume(to != 4);
    HCFG("stanza-upgrade", "--stanza=db", "--repo1-path=/repo1", "--pg1-path=/pg", "--no-online", "--lock-path=/lock");
    vm_allDurable(); vm.opCount = true; volatile bool ok = false;
    unsigned fault = (unsigned)vh_arg(0);
    if (fault == 1) { vm.crashAt = (uint32_t)vh_range("crash-at", 1, 40); } else if (fault == 2) { vm.faultAt = (uint32_t)vh_range("fault-at", 1, 40); vm.faultErr = 28; }
    TRY_BEGIN() { cmdStanzaUpgrade(); ok = true; } CATCH_FATAL() { if (!vm.crashed) H_NO_ASSERT(); } TRY_END();
    bool crashed = vm.crashed; if (crashed) { vh_reach("crashed"); vm_recover("survives"); } if (vm.faultHit) vh_reach("fault");
    for (unsigned k = 0; k < 2; k++)
    {
        if (state != 3) vh_assert(is(file[0][k], ao) || is(file[0][k], an), "archive.info is neither as before nor upgraded");
        vh_assert(is(file[1][k], b0) || (!bad && is(file[1][k], bn)), "backup.info is neither as before nor upgraded");
    }
    if (bad) { if (!crashed && !vm.faultHit) vh_reach("refused"); vh_assert(!ok, "inconsistent stanza upgraded"); vh_end(); }
    if (ok)
    {
        if (change) vh_reach("upgraded"); else vh_reach("unchanged");
        for (unsigned k = 0; k < 2; k++) vh_assert(is(file[0][k], an) && is(file[1][k], bn), "stanza does not match the cluster after upgrade");
    }
    else if (!crashed && !vm.faultHit) vh_fail("upgrade refused");
    // After a crash or error the upgrade can be repeated
    if (!ok)
    {
        vm.crashed = false; vm.crashAt = 0; vm.faultAt = 0;
        TRY_BEGIN() { cmdStanzaUpgrade(); ok = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
        vh_assert(ok, "upgrade cannot be repeated after it was interrupted");
        bool match = true;
        for (unsigned k = 0; k < 1; k++) match &= is(file[0][k], an) && is(file[1][k], bn);
        vh_assert(match, "stanza does not match the cluster after the repeated upgrade");
    }
    vh_observe(ok);
}
