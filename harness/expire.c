// expire: which backups and WAL segments are removed, and in what order
#include "hcommon.h"
#include "hinfo.h"
#include "hpg.h"
#include "command/expire/expire.h"
#include "common/lock.h"

#define NB 6
#define DAY 86400
#define T0 1577836800                                               // 2020-01-01
typedef struct B { char type; int prior; unsigned db; char label[40]; bool alive, online; int start, stop; int64_t stopTime; char line[900]; } B;
static B b[NB]; static unsigned n;
// WAL: segment i of archive db, crossing a directory boundary
#define SEG_MAX (NB * 5 + 3)
static unsigned segTotal, walBase, walPer, stride; static int tlFrom;
static void segName(char *o, unsigned i) { unsigned v = walBase + i; snprintf(o, 40, "%08X%08X%08X", tlFrom >= 0 && (int)i >= tlFrom ? 2 : 1, v / walPer, v % walPer); }
static const char *const archiveId[2] = {"12-1", "13-2"};
static void segPath(char *o, unsigned db, unsigned i) { char s[40]; segName(s, i); snprintf(o, 200, "/repo1/archive/db/%s/%.16s/%s-0123456789012345678901234567890123456789", archiveId[db - 1], s, s); }
static void backupDir(char *o, const char *label, const char *file) { snprintf(o, 200, "/repo1/backup/db/%s%s", label, file); }
static unsigned segDb[SEG_MAX];

static void setup(unsigned split, int offline)
{
    int lastFull = -1;
    for (unsigned i = 0; i < n; i++)
    {
        B *x = &b[i]; char d[20]; snprintf(d, sizeof d, "202001%02u-000000", i + 1);
        x->type = i == 0 ? 'F' : "FDI"[vh_choose("type", 0, 2)]; x->db = i < split ? 1 : 2; if (i == split) vh_assume(x->type == 'F');
        x->alive = true; x->online = (int)i != offline;
        if (x->type == 'F') { lastFull = (int)i; x->prior = -1; snprintf(x->label, 40, "%sF", d); }
        else { x->prior = x->type == 'D' ? lastFull : (int)i - 1; if (x->type == 'I' && vh_arg(4) && vh_bool("incremental-on-full")) x->prior = lastFull; snprintf(x->label, 40, "%s_%s%c", b[lastFull].label, d, x->type); }
        x->start = (int)(i * stride) + 1; x->stop = x->start + 1; x->stopTime = T0 + (int64_t)i * DAY + 100;
        for (unsigned k = 0; k < stride; k++) segDb[i * stride + k] = x->db;
        char s0[40], s1[40], ref[200] = "", pr[80] = "", ar[160] = "\"backup-archive-start\":null,\"backup-archive-stop\":null,"; segName(s0, (unsigned)x->start); segName(s1, (unsigned)x->stop);
        if (x->online) snprintf(ar, sizeof ar, "\"backup-archive-start\":\"%s\",\"backup-archive-stop\":\"%s\",", s0, s1);
        if (x->prior >= 0) { snprintf(pr, sizeof pr, "\"backup-prior\":\"%s\",", b[x->prior].label); snprintf(ref, sizeof ref, "\"backup-reference\":[\"%s\"],", b[lastFull].label); }
        snprintf(x->line, sizeof x->line, "%s={\"backrest-format\":5,\"backrest-version\":\"2.50\",%s\"backup-error\":false,\"backup-info-repo-size\":2,\"backup-info-repo-size-delta\":2,\"backup-info-size\":3,\"backup-info-size-delta\":3,%s%s\"backup-timestamp-start\":%lld,\"backup-timestamp-stop\":%lld,\"backup-type\":\"%s\",\"db-id\":%u,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":true,\"option-hardlink\":false,\"option-online\":%s}\n",
                 x->label, ar, pr, ref, (long long)x->stopTime - 50, (long long)x->stopTime, x->type == 'F' ? "full" : x->type == 'D' ? "diff" : "incr", x->db, x->online ? "true" : "false");
        char p[200]; backupDir(p, x->label, "/backup.manifest"); vm_putz(p, "m"); backupDir(p, x->label, "/backup.manifest.copy"); vm_putz(p, "m"); backupDir(p, x->label, "/pg_data/f"); vm_putz(p, "x");
    }
    segTotal = n * stride + 2; segDb[n * stride] = segDb[n * stride + 1] = 2;
    for (unsigned i = 0; i < segTotal; i++) { char p[200]; segPath(p, segDb[i], i); vm_putz(p, "w"); }
}
static HText infoText(void)
{
    HText l = {0}; hCat(&l, ""); for (unsigned i = 0; i < n; i++) if (b[i].alive) hCat(&l, b[i].line);
    static const HPgHist h[] = {{1, "12", 111}, {2, "13", 222}}; HText body = hBackupInfoBody(h, 2, l.b); HText t = hInfoText(body.b, NULL); free(l.b); free(body.b); return t;
}
static void expireFrom(unsigned i) { b[i].alive = false; for (unsigned k = i + 1; k < n; k++) if (b[k].alive && b[k].prior >= 0 && !b[b[k].prior].alive) b[k].alive = false; }
static unsigned countType(bool diff) { unsigned c = 0; for (unsigned i = 0; i < n; i++) if (b[i].alive && (b[i].type == 'F' || (diff && b[i].type == 'D'))) c++; return c; }

void harness(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000; unsigned mode = (unsigned)vh_arg(0), fault = (unsigned)vh_arg(2); n = (unsigned)vh_arg(1);
    // 256 segments per directory, or 4 (1GB segments) with the first or second backup crossing a directory boundary
    walPer = vh_arg(8) ? 4 : 256; stride = vh_arg(8) ? 5 : 3; walBase = vh_arg(8) ? 3 - (unsigned)vh_arg(8) : 0xF9;
    tlFrom = vh_arg(3) == 1 ? (int)vh_choose("timeline-switch", 0, 2) * 4 : -1;
    unsigned split = vh_arg(5) ? (unsigned)vh_choose("upgrade-at", 0, n) : 0; int offline = vh_arg(6) ? (int)vh_choose("offline", 0, n) - 1 : -1;
    setup(split, offline);
    unsigned extra = vh_arg(7) ? (unsigned)vh_choose("other-directory", 0, 3) : 0;
    if (extra == 1) { vm_putz("/repo1/backup/db/20200201-000000F/backup.manifest.copy", "m"); vm_putz("/repo1/backup/db/20200201-000000F/pg_data/f", "x"); }
    if (extra == 2) vm_putz("/repo1/backup/db/20200201-000000F/pg_data/f", "x");
    if (extra == 3) vm_putz("/repo1/backup/db/20191201-000000F/backup.manifest.copy", "m");
    if (tlFrom >= 0) { vm_putz("/repo1/archive/db/13-2/00000001.history", "h"); vm_putz("/repo1/archive/db/13-2/00000002.history", "h"); vm_putz("/repo1/archive/db/13-2/00000003.history", "h"); }
    static const HPgHist h[] = {{1, "12", 111}, {2, "13", 222}};
    hArchiveInfoHist("/repo1", h, 2); HText before = infoText(); vm_put("/repo1/backup/db/backup.info", before.b, before.n); vm_put("/repo1/backup/db/backup.info.copy", before.b, before.n);
    // options
    unsigned rf = 0, rd = 0, ra = 0, at = 0; int set = -1; bool dry = false, oldest = false; int before_ = -1;
    const char *a[20]; unsigned k = 0; char o[6][60]; a[k++] = "--stanza=db"; a[k++] = "--repo1-path=/repo1"; a[k++] = "--lock-path=/lock"; a[k++] = "--log-level-file=off";
    if (mode == 1) { rf = (unsigned)vh_choose("days", 1, 2); a[k++] = "--repo1-retention-full-type=time"; } else rf = fault && mode == 0 ? 1 : (unsigned)vh_choose("retention-full", 0, n > 3 ? 3 : n);
    if (rf) { snprintf(o[0], 60, "--repo1-retention-full=%u", rf); a[k++] = o[0]; }
    rd = mode < 2 || mode == 3 ? (unsigned)vh_choose("retention-diff", 0, fault ? 1 : 2) : 0; if (rd) { snprintf(o[1], 60, "--repo1-retention-diff=%u", rd); a[k++] = o[1]; }
    at = fault ? 0 : (unsigned)vh_choose("archive-type", 0, 2); if (at) { snprintf(o[2], 60, "--repo1-retention-archive-type=%s", at == 1 ? "diff" : "incr"); a[k++] = o[2]; }
    ra = (unsigned)vh_choose("retention-archive", 0, fault ? 1 : 2); if (ra) { snprintf(o[3], 60, "--repo1-retention-archive=%u", ra); a[k++] = o[3]; }
    if (mode == 2) { set = (int)vh_choose("set", 0, n); snprintf(o[4], 60, "--set=%s", set == (int)n ? "20190101-000000F" : b[set].label); a[k++] = o[4]; }
    if (mode == 3) { dry = true; a[k++] = "--dry-run"; }
    if (mode == 4) { oldest = true; a[k++] = "--oldest"; }
    if (mode == 5) { before_ = (int)vh_choose("expire-before", 0, segTotal - 1); char s[40]; segName(s, (unsigned)before_); snprintf(o[5], 60, "--archive-expire-before=%s", s); a[k++] = o[5]; }
    a[k] = NULL; hCfg("expire", a); lockInit(strNewZ("/lock"), strNewZ("1-1"));
    int64_t days = mode == 1 ? (int64_t)vh_range("now", T0, T0 + 30 * DAY) : T0 + 30 * DAY; vm.now = days;
    vm_allDurable(); vm.opCount = true; volatile bool ok = false;
    if (fault == 1) vm.crashAt = (uint32_t)vh_range("kill-at", 1, 90); else if (fault == 2) { vm.faultAt = (uint32_t)vh_range("fault-at", 1, 90); vm.faultErr = 5; }
    TRY_BEGIN() { cmdExpire(); ok = true; } CATCH_FATAL() { if (!vm.crashed) H_NO_ASSERT(); } TRY_END();
    bool crashed = vm.crashed, faulted = vm.faultHit; vm.opCount = false; vm.crashAt = vm.faultAt = 0;
    // what must be expired
    bool refused = false; unsigned ran = ra;
    if (mode == 2 && set < (int)n)
    {
        int newest = -1, prev = -1; for (unsigned i = 0; i < n; i++) if (b[i].type == 'F') { prev = newest; newest = (int)i; }
        if (set == newest && (prev < 0 || b[prev].db != b[set].db)) refused = true; else expireFrom((unsigned)set);
        if (!ra && at == 0) ran = rf;
    }
    else if (mode == 2) { if (!ra && at == 0) ran = rf; }
    else
    {
        unsigned fulls = countType(false); bool forced = oldest && fulls > 1; if (forced) { rf = fulls - 1; at = 0; ran = rf; }
        if (mode == 1)
        {
            if (rf)
            {
                int keep = -1; for (unsigned i = 0; i < n; i++) if (b[i].type == 'F' && b[i].stopTime < vm.now - (int64_t)rf * DAY) keep = (int)i;
                if (keep >= 0) { for (int i = 0; i < keep; i++) if (b[i].alive) expireFrom((unsigned)i); if (!ra && at == 0) ran = countType(false); }
            }
        }
        else
        {
            if (rf) { int drop = (int)fulls - (int)rf; for (unsigned i = 0; i < n && drop > 0; i++) if (b[i].type == 'F') { expireFrom(i); drop--; } }
            if (!ran && at == 0 && !forced) ran = rf;
        }
        if (rd) { int drop = (int)countType(true) - (int)rd; for (unsigned i = 0; i < n && drop > 0; i++) if (b[i].alive && b[i].type != 'I') { drop--; if (b[i].type == 'D') expireFrom(i); } }
        if (!ran && at == 1) ran = rd;
    }
    // WAL: what must be kept
    bool keep[SEG_MAX]; for (unsigned i = 0; i < segTotal; i++) keep[i] = true;
    bool gone[2] = {false, false}; int selOf[2] = {-1, -1};
    if (ran && !refused)
    {
        unsigned cnt = 0; int r[NB]; for (int i = (int)n - 1; i >= 0; i--) if (b[i].alive && (b[i].type == 'F' || (b[i].type == 'D' && at >= 1) || at == 2)) r[cnt++] = i;
        if (before_ >= 0 || (cnt && ran <= cnt)) for (unsigned db = 1; db <= 2; db++)
        {
            int sel = -1; bool any = false; unsigned lim = ran < cnt ? ran : cnt;
            for (unsigned i = 0; i < cnt; i++) if (b[r[i]].db == db) { if (!any) sel = r[i]; any = true; if (i < lim) sel = r[i]; }
            if (!any)
            {
                if (db == 2) { if (before_ >= 0) for (unsigned i = 0; i < segTotal; i++) if (segDb[i] == 2 && (int)i < before_) keep[i] = false; }
                else { gone[0] = true; for (unsigned i = 0; i < segTotal; i++) if (segDb[i] == 1) keep[i] = false; }
                continue;
            }
            if (!b[sel].online) continue;
            selOf[db - 1] = sel;
            for (unsigned i = 0; i < segTotal; i++) if (segDb[i] == db)
            {
                bool kp = (int)i >= b[sel].start || (before_ >= 0 && (int)i >= before_);
                for (unsigned x = 0; x < n; x++) if (b[x].alive && b[x].db == db && b[x].online && (int)i >= b[x].start && (int)i <= b[x].stop) kp = true;
                keep[i] = kp;
            }
        }
    }
    (void)gone;
    if (dry) { for (unsigned i = 0; i < n; i++) b[i].alive = true; for (unsigned i = 0; i < segTotal; i++) keep[i] = true; }
    char p[200];
    if (crashed) { vh_reach("crashed"); vm.crashed = false; }
    if (faulted) vh_reach("fault");
    if (!crashed && !faulted)
    {
        vh_assert(ok == !refused, refused ? "the only full backup of the cluster was expired" : "expire failed");
        if (refused) vh_reach("refused");
    }
    HText after = infoText();
    bool done = ok; unsigned removedB = 0, removedW = 0;
    for (unsigned rerun = 0; rerun < 2; rerun++)
    {
        for (unsigned i = 0; i < n; i++)
        {
            backupDir(p, b[i].label, "/backup.manifest"); bool man = vm_exists(p); backupDir(p, b[i].label, "/pg_data/f"); bool f = vm_exists(p);
            if (b[i].alive) { vh_assert(man && f, "backup that must be kept was removed"); if (!done || dry) continue; backupDir(p, b[i].label, "/backup.manifest.copy"); vh_assert(vm_exists(p), "part of a backup that must be kept was removed"); }
            else if (done) { backupDir(p, b[i].label, ""); vh_assert(!vm_exists(p), "expired backup was not removed"); removedB++; }
            else if (man) { vh_assert(f, "files of a backup removed while its manifest still declares it usable"); for (int q = b[i].prior; q >= 0; q = b[q].prior) { backupDir(p, b[q].label, "/backup.manifest"); vh_assert(vm_exists(p), "backup removed while one that depends on it is still usable"); } }
        }
        bool listedDead = !vm_equal("/repo1/backup/db/backup.info", after.b, after.n);
        if (done || dry) vh_assert(!listedDead && (rerun || vm_equal("/repo1/backup/db/backup.info.copy", after.b, after.n)), dry ? "backup.info changed by a dry run" : "backup.info does not list exactly the backups kept");
        else { vh_assert(!listedDead || vm_equal("/repo1/backup/db/backup.info", before.b, before.n), "backup.info is neither old nor new"); }
        for (unsigned i = 0; i < segTotal; i++)
        {
            segPath(p, segDb[i], i); bool there = vm_exists(p);
            if (keep[i]) vh_assert(there, "WAL segment that must be kept was removed"); else if (done) { vh_assert(!there, "expired WAL segment was not removed"); removedW++; }
            else if (!there && listedDead)
                for (unsigned x = 0; x < n; x++) if (b[x].online && (int)i >= b[x].start && (int)i <= b[x].stop) { backupDir(p, b[x].label, "/backup.manifest"); vh_assert(!vm_exists(p), "WAL of a backup removed while the backup is still usable"); }
        }
        if (tlFrom >= 0 && done && !dry) for (unsigned t = 1; t <= 3; t++)
        {
            snprintf(p, sizeof p, "/repo1/archive/db/13-2/%08u.history", t); unsigned selTl = selOf[1] >= 0 ? (tlFrom >= 0 && b[selOf[1]].start >= tlFrom ? 2 : 1) : 0;
            vh_assert(vm_exists(p) == (t >= selTl), "timeline history file not kept or not removed");
        }
        if (extra == 1) vh_assert(vm_exists("/repo1/backup/db/20200201-000000F/pg_data/f") && vm_exists("/repo1/backup/db/20200201-000000F/backup.manifest.copy"), "backup in progress was removed");
        if (extra >= 2 && done && !dry) vh_assert(!vm_exists(extra == 2 ? "/repo1/backup/db/20200201-000000F" : "/repo1/backup/db/20191201-000000F"), "unusable backup left behind");
        vh_assert(vm_exists("/repo1/archive/db/archive.info") && vm_exists("/repo1/archive/db/archive.info.copy"), "archive.info was removed");
        if (rerun || done || refused || (!crashed && !faulted)) break;
        // After a crash or error expire completes when run again
        if (mode == 2) break;
        if (oldest) break;
        TRY_BEGIN() { cmdExpire(); done = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
        vh_assert(done, "expire cannot be repeated after it was interrupted");
    }
    if (done) { vh_reach("done"); if (removedB) vh_reach("backup-expired"); if (removedW) vh_reach("wal-expired"); }
    vh_observe(ok); vh_observe(removedB); vh_observe(removedW);
}

// History manifests: kept for unexpired backups and for as long as configured, in each repository by itself
void history(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000;
    static const char *const lab[] = {"20181201-000000F", "20191215-000000F", "20191215-000000F_20191220-000000I", "20191231-235959F", "20200101-000000F", "20200102-120000F"};
    static const unsigned NLAB = 6; static const int64_t day[] = {17866, 18245, 18250, 18261, 18262, 18263};
    static const int64_t sec[] = {0, 0, 0, 86399, 0, 43200}; (void)day; (void)sec;
    static const HPgHist h[] = {{2, "13", 222}}; bool cur[2][6] = {{0}}, have[2][6]; char p[200];
    unsigned c1 = (unsigned)vh_choose("unexpired", 0, 5), miss = (unsigned)vh_choose("only-in-second", 0, 6);
    for (unsigned r = 0; r < 2; r++)
    {
        HText l = {0}; hCat(&l, ""); char root[8]; snprintf(root, 8, "/repo%u", r + 1);
        for (unsigned i = 0; i < NLAB; i++)
        {
            // one unexpired full (two with the newest) and the incremental with its full
            cur[r][i] = lab[i][16] == 0 ? i == c1 || i == 5 : c1 == 1; if (c1 == 2 && i == 1) cur[r][i] = true;
            have[r][i] = !(r == 0 && i == miss); 
            if (have[r][i]) { snprintf(p, sizeof p, "%s/backup/db/backup.history/%.4s/%s.manifest.gz", root, lab[i], lab[i]); vm_putz(p, "h"); }
            if (cur[r][i])
            {
                char line[900], pr[120] = ""; if (lab[i][16]) snprintf(pr, sizeof pr, "\"backup-prior\":\"20191215-000000F\",\"backup-reference\":[\"20191215-000000F\"],");
                snprintf(line, sizeof line, "%s={\"backrest-format\":5,\"backrest-version\":\"2.50\",\"backup-archive-start\":null,\"backup-archive-stop\":null,\"backup-error\":false,\"backup-info-repo-size\":2,\"backup-info-repo-size-delta\":2,\"backup-info-size\":3,\"backup-info-size-delta\":3,%s\"backup-timestamp-start\":1577836800,\"backup-timestamp-stop\":1577836900,\"backup-type\":\"%s\",\"db-id\":2,\"option-archive-check\":true,\"option-archive-copy\":false,\"option-backup-standby\":false,\"option-checksum-page\":false,\"option-compress\":true,\"option-hardlink\":false,\"option-online\":true}\n", lab[i], pr, lab[i][16] ? "incr" : "full");
                hCat(&l, line); snprintf(p, sizeof p, "%s/backup/db/%s/backup.manifest", root, lab[i]); vm_putz(p, "m");
            }
        }
        hArchiveInfoHist(root, h, 1); hBackupInfoHist(root, h, 1, l.b); free(l.b);
    }
    int days = (int)vh_choose("days", 0, 4); static const int dv[] = {0, 1, 4, 30, -1}; int d = dv[days]; char o[60]; snprintf(o, 60, "--repo2-retention-history=%d", d);
    unsigned today = (unsigned)vh_choose("today", 0, 2); static const int64_t td[] = {18262, 18263, 18265}; vm.now = td[today] * DAY + 43200;
    const char *a[12]; unsigned k = 0; a[k++] = "--stanza=db"; a[k++] = "--repo1-path=/repo1"; a[k++] = "--repo2-path=/repo2"; a[k++] = "--lock-path=/lock"; a[k++] = "--log-level-file=off"; a[k++] = "--repo1-retention-full=9"; a[k++] = "--repo2-retention-full=9";
    if (d >= 0) a[k++] = o; a[k] = NULL; hCfg("expire", a); lockInit(strNewZ("/lock"), strNewZ("1-1"));
    volatile bool ok = false; TRY_BEGIN() { cmdExpire(); ok = true; } CATCH_FATAL() { H_NO_ASSERT(); } TRY_END();
    vh_assert(ok, "expire failed"); unsigned kept = 0;
    for (unsigned r = 0; r < 2; r++) for (unsigned i = 0; i < NLAB; i++) if (have[r][i])
    {
        // day and time of the label of the set against the oldest time to retain, to the second
        unsigned s = lab[i][16] ? 1 : i; int64_t t = day[s] * DAY + sec[s]; bool old = t < vm.now - (int64_t)d * DAY;
        bool want = r == 0 || d < 0 || cur[r][i] || !old;
        snprintf(p, sizeof p, "/repo%u/backup/db/backup.history/%.4s/%s.manifest.gz", r + 1, lab[i], lab[i]);
        vh_assert(vm_exists(p) == want, want ? "history manifest removed that must be kept" : "expired history manifest left behind");
        if (want) kept++; else vh_reach("history-expired");
    }
    vh_reach("done"); vh_observe(kept);
}
