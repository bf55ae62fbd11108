// verify reports exactly what is damaged in a repository
#include "cycle.c"
#include "command/verify/verify.h"
static void cmdV(void) { vm.nOut = 0; vm.out[0] = 0; cmdVerify(); }
static bool verify(const char *set)
{
    if (set != NULL) { char t[60]; snprintf(t, sizeof t, "--set=%s", set); HCFG("verify", "--stanza=db", "--repo1-path=/repo1", "--log-level-file=off", "--output=text", "--verbose", strdup(t)); }
    else HCFG("verify", "--stanza=db", "--repo1-path=/repo1", "--log-level-file=off", "--output=text", "--verbose");
    return hRun(cmdV);
}
static const char *backupStatus(const char *label)                  // what the report says about a backup
{
    static char s[40]; char k[60]; snprintf(k, sizeof k, "backup: %s, status: ", label); const char *p = strstr(vm.out, k); if (p == NULL) return "";
    p += strlen(k); unsigned n = 0; while (*p && *p != ',' && n < 39) s[n++] = *p++; s[n] = 0; return s;
}
static bool statusOk(void) { return strstr(vm.out, "status: ok") != NULL && strstr(vm.out, "status: error") == NULL; }
static void restoreTo(HSnap *s) { hRemoveTree("/pg"); for (unsigned i = 0; i < s->n; i++) { HSnapItem *t = &s->item[i]; char p[200]; snprintf(p, 200, "/pg%s", t->path); VmNode *n = t->type == VM_DIR ? vm_mkdirs(p) : vm_put(p, t->data, t->size); n->mode = t->mode; n->mtime = t->mtime; } vm_allDurable(); }
static bool sameAs(const HSnap *s)
{
    for (unsigned i = 0; i < s->n; i++) { const HSnapItem *t = &s->item[i]; char p[200]; snprintf(p, 200, "/pg%s", t->path); VmNode *n = vm_lookup(p); if (!n || n->type != t->type || (t->type == VM_FILE && (n->size != t->size || (t->size && memcmp(n->data, t->data, t->size))))) return false; }
    return true;
}
static bool restorable(const char *label, const HSnap *s)
{
    hRemoveTree("/pg"); char t[60]; snprintf(t, sizeof t, "--set=%s", label); hAllowAssert = true; const bool ok = restore(strdup(t)); hAllowAssert = false; return ok && sameAs(s);
}
#define WSEG 1048576
static unsigned nWal;
static void wal(const char *name, unsigned seed)
{
    static uint8_t b[WSEG]; memset(b, (int)seed, sizeof b); hPgWal(b, HPG_13, SYSID, WSEG);
    char hex[80], p[200]; hHash("sha1", b, WSEG, hex); snprintf(p, sizeof p, "/repo1/archive/db/13-1/%.16s/%s-%s", name, name, hex); vm_put(p, b, WSEG); nWal++;
}
static bool isWal(const char *p) { return strncmp(p, "/repo1/archive/db/13-1/", 23) == 0; }
// 0: with --set, 1: backup damage kinds reduced, 2: WAL only
void verify_(void)
{
    init(); static HSnap snap[2], repo; nLabel = 0;
    if (vh_arg(2) == 0)
    {
        if (!backup("full", "--no-delta")) vh_fail("full backup failed");
        labelNow(); hSnapTake(&snap[0], "/pg"); change(6); put("base/1/1001", "TABLE2", 6, vm.now + 60000); if (!backup("incr", "--no-delta")) vh_fail("backup failed"); labelNow(); hSnapTake(&snap[1], "/pg");
    }
    nWal = 0; const unsigned gap = vh_arg(2) ? (unsigned)vh_choose("wal", 0, 3) : 0;
    if (vh_arg(2)) { wal("000000010000000100000001", 1); wal(gap == 1 ? "000000010000000100000003" : gap == 3 ? "000000020000000100000002" : "000000010000000100000002", 3); if (gap == 2) wal("000000010000000100000002", 4); }
    unsigned list[64], n = 0; bool inBackup = false, inWal = false; const char *file = ""; unsigned kind = 0;
    for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && vm.ent[i].node->type == VM_FILE && (isWal(vm.ent[i].path) || strncmp(vm.ent[i].path, "/repo1/backup/db/2", 18) == 0)) list[n++] = (unsigned)i;
    vh_assert(n < 64, "");
    const unsigned f = gap == 1 || gap == 3 ? 0 : (unsigned)vh_choose("file", 0, n);
    if (f)
    {
        VmEnt *e = &vm.ent[list[f - 1]]; VmNode *x = e->node; file = e->path; if (strstr(file, "/pg_data/empty")) vh_end(); /* restored without it */ inWal = isWal(file); inBackup = !inWal;
        switch (kind = (unsigned)vh_choose("kind", 2, 5))
        {
            case 2: { if (x->size == 0) vh_end(); size_t o = vh_choose("offset", 0, vh_arg(1) ? 1 : 4); if (vh_arg(1) && o) o = 4; o = o == 4 ? x->size - 1 : x->size * o / 4; x->data[o] ^= 0x10; break; }
            case 3: if (x->size == 0) vh_end(); x->size--; break;
            case 4: if (x->size == 0) vh_end(); x->size = 0; break;
            case 5: e->node = NULL; break;
        }
        vh_reach(inWal ? "wal damaged" : "backup damaged");
    }
    vm_allDurable(); hSnapTake(&repo, "/repo1"); const char *set = vh_arg(0) ? labels[vh_choose("set", 0, 1)] : NULL;
    if (vh_arg(15)) { vh_prints("file", file); vh_print("kind", kind); }
    hAllowAssert = true; const bool ok = verify(set); hAllowAssert = false;
    if (!ok && inWal && kind != 5) { vh_reach("error"); vh_end(); }
    if (!ok) { vh_prints("error", hErr); vh_prints("damaged", file); vh_fail("verify failed instead of reporting"); }
    if (vh_arg(15)) vh_prints("report", vm.out);
    hSnapSame(&repo, "/repo1", "verify changed the repository");
    // What is really affected
    bool bad = false;
    for (unsigned i = 0; i < nLabel; i++)
    {
        const char *st = backupStatus(labels[i]); if (set != NULL && strcmp(set, labels[i]) != 0) continue;
        const bool good = !inBackup || restorable(labels[i], &snap[i]); if (!good) bad = true;
        if (good && strcmp(st, "valid") != 0) { vh_prints("damaged", file); vh_prints("status", st); vh_fail("restorable backup not reported as valid"); }
        // The blocks a block incremental backup takes from an earlier one are checked with the earlier one
        if (!good && strcmp(st, "valid") == 0 && !(i == 1 && strcmp(bundleOpt, "--repo1-block") == 0 && strcmp(backupStatus(labels[0]), "valid") != 0)) { vh_prints("damaged", file); vh_prints("backup", labels[i]); vh_fail("damaged backup reported as valid"); }
        if (!good) vh_reach("affected");
    }
    if (set == NULL)
    {
        if (inWal && kind != 5) bad = true;
        const bool dup = gap == 2 && !(f && kind == 5 && strstr(file, "/000000010000000100000002-")); if (dup) bad = true;
        if (!bad && !statusOk()) { vh_prints("damaged", file); vh_prints("report", vm.out); vh_fail("error reported for an intact repository"); }
        if (bad && statusOk()) { vh_prints("damaged", file); vh_fail("damage reported as ok"); }
        char w[80]; const unsigned total = nWal - (f && inWal && kind == 5);
        if (nWal && !dup) { snprintf(w, sizeof w, "total WAL checked: %u, total valid WAL: %u", total, total - (f && inWal && kind != 5)); vh_assert(strstr(vm.out, w) != NULL, "wrong count of valid WAL"); }
    }
    vh_reach("done");
}
