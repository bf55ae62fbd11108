// PostgreSQL servers as the backup and check commands see them: queries, WAL positions, archiver, replay
#ifndef HSERVER_H
#define HSERVER_H
#include "hcluster.h"
#include <stdarg.h>
typedef struct HServer
{
    bool up; unsigned idx; const char *path; unsigned port; bool recovery; uint64_t lsn; uint32_t tl;
    int version; const char *data, *archiveMode, *archiveCommand;      // what the server reports
    int backup; uint64_t start, stop; char label[160]; const char *spcmap; uint64_t activity;   // 0 none, 1 running, 2 stopped
    uint64_t replay, replayStep, checkpoint; bool checkpointDone;      // standby
    int conn; unsigned sum; uint8_t ctl, ctlStart;   // number of pg_control writes
} HServer;
static HServer hServer[3]; static uint32_t hSeg; static uint64_t hArchNext, hArchEnd; static const char *hArchDir, *hArchDir2; static size_t hArchSize; static uint32_t hArchTl;
static char *hZ(const char *const f, ...) { va_list a; va_start(a, f); char b[400]; vsnprintf(b, sizeof b, f, a); va_end(a); return strdup(b); }
static char *hSegName(const uint32_t tl, const uint64_t seg) { const uint64_t per = 0x100000000ULL / hSeg; return hZ("%08X%08X%08X", tl, (unsigned)(seg / per), (unsigned)(seg % per)); }
static char *hWalFile(const uint32_t tl, const uint64_t lsn) { return hSegName(tl, (lsn - 1) / hSeg); }    // as pg_walfile_name()
static char *hLsnZ(const uint64_t l) { return hZ("%X/%X", (unsigned)(l >> 32), (unsigned)l); }
static uint64_t hLsnRead(const char *a) { uint64_t v[2] = {0, 0}; for (int i = 0; i < 2; i++) { for (; (*a >= '0' && *a <= '9') || (*a >= 'A' && *a <= 'F') || (*a >= 'a' && *a <= 'f'); a++) v[i] = v[i] << 4 | (uint64_t)(*a <= '9' ? *a - '0' : (*a | 32) - 'a' + 10); if (*a == '/') a++; else break; } return v[0] << 32 | v[1]; }
static bool hHas(const char *const s, const char *const z) { return strstr(s, z) != NULL; }
static uint8_t *hArchData(const uint64_t seg) { uint8_t *const b = malloc(hArchSize); memset(b, 0, hArchSize); b[0] = (uint8_t)seg; b[1] = (uint8_t)(seg >> 8); b[2] = 'w'; return b; }
static bool hArchived(const uint64_t seg) { char hex[80], p[300]; uint8_t *const b = hArchData(seg); hHash("sha1", b, hArchSize, hex); char *const n = hSegName(hArchTl, seg); snprintf(p, sizeof p, "%s/%.16s/%s-%s", hArchDir, n, n, hex); return vm_exists(p); }
// The archiver: one segment at a time, only complete ones, until it stops working
static void hArchive(void)
{
    if (hServer[0].backup == 2) hServer[0].lsn += hSeg / 2;        // other sessions go on writing
    if (hArchNext < hServer[0].lsn / hSeg && hArchNext < hArchEnd)
    {
        char hex[80], p[300]; uint8_t *const b = hArchData(hArchNext); hHash("sha1", b, hArchSize, hex); char *const n = hSegName(hArchTl, hArchNext); snprintf(p, sizeof p, "%s/%.16s/%s-%s", hArchDir, n, n, hex); VmNode *const x = vm_put(p, b, hArchSize); x->mode = 0640; hArchNext++;
        if (hArchDir2) { snprintf(p, sizeof p, "%s/%.16s/%s-%s", hArchDir2, n, n, hex); vm_put(p, b, hArchSize)->mode = 0640; }
    }
    for (unsigned i = 0; i < 3; i++) if (hServer[i].recovery && hServer[i].replay < hServer[0].lsn) { hServer[i].replay += hServer[i].replayStep; if (hServer[i].replay > hServer[0].lsn) hServer[i].replay = hServer[0].lsn; }
}
static void hSwitch(HServer *const s) { if (s->lsn % hSeg > 0x28) s->lsn = (s->lsn / hSeg + 1) * hSeg; }
static void hControl(HServer *const s, const uint64_t checkpoint)
{
    char p[64]; snprintf(p, 64, "%s/global/pg_control", s->path); static uint8_t b[8192]; hPgControl(b, s->idx, SYSID, checkpoint, s->tl, 8192, hSeg, s->sum); b[500] = ++s->ctl; b[501] = (uint8_t)(s - hServer); const VmNode *const o = vm_lookup(p); const unsigned mode = o ? o->mode : 0600;
    VmNode *const n = vm_put(p, b, sizeof b); n->mode = mode; n->mtime = vm.now;
}
static void hRow(VmPgRes *const r, const unsigned type, const char *const v) { r->status = 2; r->rows = 1; r->type[r->cols] = type; r->val[r->cols++] = v; }
static void (*hOnQuery)(HServer *s, const char *sql);
static int hConnect(const char *const info) { for (int i = 0; i < 3; i++) { char p[32]; snprintf(p, 32, "port=%u", hServer[i].port); if (hServer[i].port && hHas(info, p)) { if (!hServer[i].up) return -1; hServer[i].conn++; return i; } } return -1; }
static void hClose(const int i) { hServer[i].conn--; if (hServer[i].backup == 1) hServer[i].backup = 0; }   // a backup ends with its session
static void hQuery(const int i, const char *const q, VmPgRes *const r)
{
    HServer *const s = &hServer[i]; const unsigned v = hPgVersion[s->idx].version; const bool new_ = v >= 100000; const char *const w = new_ ? "wal" : "xlog", *const l = new_ ? "lsn" : "location"; char f[64];
    if (hOnQuery) hOnQuery(s, q);
#define FN(...) (snprintf(f, sizeof f, __VA_ARGS__), hHas(q, f))
    if (strncmp(q, "set ", 4) == 0 || strcmp(q, "checkpoint") == 0) { r->status = 1; if (*q == 'c') { s->checkpoint = s->replay; s->checkpointDone = true; hControl(s, s->checkpoint); } }
    else if (hHas(q, "pg_settings")) { hRow(r, 23, hZ("%d", s->version)); hRow(r, 25, s->data); hRow(r, 25, s->archiveMode); hRow(r, 25, s->archiveCommand); hRow(r, 23, "300"); }
    else if (hHas(q, "pg_is_in_recovery")) hRow(r, 16, s->recovery ? "t" : "f");
    else if (FN("pg_current_%s_insert_%s()", w, l) && FN("pg_%sfile_name(", w)) { if (s->recovery) r->error = "recovery is in progress"; else hRow(r, 25, hWalFile(s->tl, s->lsn)); }
    else if (v >= 150000 ? FN("pg_backup_start('") : FN("pg_start_backup('"))
    {
        const char *const a = strstr(q, "current_timestamp"); const bool form = a != NULL && (v >= 150000 ? hHas(a, ", true) as lsn") || hHas(a, ", false) as lsn") : hHas(a, ", true, false) as lsn") || hHas(a, ", false, false) as lsn"));
        if (!form || !FN("pg_%sfile_name(lsn)", w)) { r->error = "wrong arguments"; return; }
        vh_assert(s->backup == 0 && !s->recovery, "backup started twice or on a standby");
        hSwitch(s); if (s->lsn % hSeg == 0) s->lsn += 0x28;
        s->backup = 1; s->start = s->lsn; s->lsn += 0x100; hControl(s, s->start); s->ctlStart = s->ctl; snprintf(s->label, sizeof s->label, "START WAL LOCATION: %s (file %s)\nLABEL: \"quoted\"\n", hLsnZ(s->start), hWalFile(s->tl, s->start));
        hRow(r, 25, hLsnZ(s->start)); hRow(r, 25, hWalFile(s->tl, s->start));
    }
    else if (v >= 150000 ? FN("pg_backup_stop(") : FN("pg_stop_backup("))
    {
        const bool form = v >= 150000 ? hHas(q, "backup_stop(false)") : new_ ? hHas(q, "stop_backup(false, false)") : hHas(q, "stop_backup(false)"); if (!form || !FN("pg_%sfile_name(lsn)", w)) { r->error = "wrong arguments"; return; }
        if (s->backup != 1) { r->error = "backup is not in progress"; return; }
        s->backup = 2; s->lsn += s->activity; s->stop = s->lsn; hRow(r, 25, hLsnZ(s->stop)); hRow(r, 25, hWalFile(s->tl, s->stop)); hRow(r, 25, strdup(s->label)); hRow(r, 25, s->spcmap);
        if (s->lsn % hSeg) hSwitch(s);
    }
    else if (hHas(q, "datlastsysoid")) { r->status = 2; r->cols = 3; r->rows = 3; r->type[0] = 26; r->type[1] = 25; r->type[2] = 26; static const char *const z[] = {"1", "template1", "4", "4", "template0", "4", "16384", "data", "4"}; memcpy(r->val, z, sizeof z); }
    else if (hHas(q, "pg_tablespace")) { r->status = 2; r->cols = 2; r->rows = 3; r->type[0] = 26; r->type[1] = 25; static const char *const z[] = {"1663", "pg_default", "1664", "pg_global", "16390", "space"}; memcpy(r->val, z, sizeof z); }
    else if (hHas(q, "clock_timestamp")) hRow(r, 20, hZ("%lu", (unsigned long)vm.now * 1000 + vm.usec / 1000));
    else if (hHas(q, "pg_create_restore_point")) { s->lsn += 0x60; hRow(r, 25, hLsnZ(s->lsn)); }
    else if (FN("pg_switch_%s()", w)) { uint64_t e = s->lsn; hSwitch(s); hRow(r, 25, hWalFile(s->tl, e)); }
    else if (FN("pg_last_%s_replay_%s()", w, l))
    {
        const char *a = strstr(q, "replayLsn > '"); const uint64_t t = hLsnRead(a + 13);
        hRow(r, 25, s->recovery ? hLsnZ(s->replay) : NULL); hRow(r, 16, s->replay > t ? "t" : "f"); a = strstr(a + 13, "replayLsn > '"); if (a) hRow(r, 16, s->replay > hLsnRead(a + 13) ? "t" : "f");
    }
    else if (FN("checkpoint_%s", l)) { const char *const a = strstr(q, ">= '"); hRow(r, 16, s->checkpoint >= hLsnRead(a + 4) ? "t" : "f"); hRow(r, 25, hLsnZ(s->checkpoint)); }
    else { vh_prints("query", q); r->error = "not understood by the model"; }
}
__attribute__((unused)) static void hServerInit(void) { memset(hServer, 0, sizeof hServer); vm.onPgConnect = hConnect; vm.onPgClose = hClose; vm.onPgQuery = hQuery; vm.onSleep = hArchive; hSeg = 16777216; hArchEnd = ~0ULL; hArchSize = 8; hArchDir = "/repo1/archive/db/13-1"; hArchTl = 1; hOnQuery = NULL; hArchDir2 = NULL; }
__attribute__((unused)) static void hServerSet(const unsigned i, const unsigned idx, const char *const path, const uint64_t lsn)
{
    HServer *const s = &hServer[i]; *s = (HServer){.up = true, .idx = idx, .path = path, .port = 5432 + i, .lsn = lsn, .tl = 1, .version = (int)hPgVersion[idx].version + (hPgVersion[idx].version < 100000 ? 3 : 3), .data = path, .archiveMode = "on", .archiveCommand = "pgbackrest archive-push %p", .spcmap = ""};
    hControl(s, lsn - 0x20);
}
#endif
