// Whole clusters and the commands that work on them
#ifndef HCLUSTER_H
#define HCLUSTER_H
#include "hcommon.h"
#include "hinfo.h"
#ifdef H_PROC
#include "hproc.h"
#else
#include "hlocal.h"
#endif
#include "hpg.h"
#include "command/backup/backup.h"
#include "command/lock.h"
#include "command/restore/restore.h"
#include "common/lock.h"
#include "protocol/helper.h"

#define SYSID 777ULL
typedef struct HSnapItem { char *path; int type; unsigned mode; int64_t mtime; uint8_t *data; size_t size; char *target; } HSnapItem;
typedef struct HSnap { HSnapItem item[64]; unsigned n; } HSnap;
static bool hUnder(const char *path, const char *root) { size_t n = strlen(root); return strncmp(path, root, n) == 0 && (path[n] == 0 || path[n] == '/'); }
__attribute__((unused)) static void hSnapTake(HSnap *s, const char *root)
{
    s->n = 0;
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; if (e->node == NULL || !hUnder(e->path, root)) continue;
        HSnapItem *t = &s->item[s->n++]; *t = (HSnapItem){strdup(e->path + strlen(root)), e->node->type, e->node->mode, e->node->mtime, NULL, e->node->size, e->node->target ? strdup(e->node->target) : NULL};
        if (e->node->size) { t->data = malloc(e->node->size); memcpy(t->data, e->node->data, e->node->size); }
    }
}
static const HSnapItem *hSnapFind(const HSnap *s, const char *rel) { for (unsigned i = 0; i < s->n; i++) if (strcmp(s->item[i].path, rel) == 0) return &s->item[i]; return NULL; }
// The tree at root is exactly the snapshot
__attribute__((unused)) static void hSnapSame(const HSnap *s, const char *root, const char *msg)
{
    for (unsigned i = 0; i < s->n; i++)
    {
        const HSnapItem *t = &s->item[i]; char p[200]; snprintf(p, sizeof p, "%s%s", root, t->path); VmNode *n = vm_lookup(p);
        if (n == NULL || n->type != t->type || n->mode != t->mode || (t->type == VM_FILE && ((n->mtime != t->mtime && strcmp(t->path, "/postgresql.auto.conf") != 0) || n->size != t->size || (t->size && memcmp(n->data, t->data, t->size) != 0))) || (t->type == VM_LINK && strcmp(n->target, t->target) != 0))
        { vh_prints(n == NULL ? "missing" : "differs", p); if (n) { vh_print("mode", n->mode); vh_print("mtime", (uint64_t)n->mtime); vh_print("size", n->size); } vh_fail(msg); }
    }
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; if (e->node == NULL || !hUnder(e->path, root)) continue;
        if (hSnapFind(s, e->path + strlen(root)) == NULL) { vh_prints("unexpected", e->path); vh_fail(msg); }
    }
}
__attribute__((unused)) static void hRemoveTree(const char *root)
{
    for (int i = 0; i < vm.nEnt; i++) { VmEnt *e = &vm.ent[i]; if (e->node != NULL && hUnder(e->path, root) && strcmp(e->path, root) != 0) e->node = NULL; }
    vm_allDurable();
}
static bool hAllowAssert;   // hAllowAssert: the repository is damaged, any error will do
static bool hCountOps;      // hCountOps: faults and crashes are counted from the start of the command
static char hErr[256]; static const ErrorType *hErrType;
// Run a command after its configuration was loaded, as main() does. Returns false when it failed.
__attribute__((unused)) static bool hRun(void (*fn)(void))
{
    volatile bool ok = false;
    hLocalInit(); if (hCountOps) vm.opCount = true;
    TRY_BEGIN() { if (cfgLockType() != lockTypeNone && cfgLockRequired()) cmdLockAcquireP(); fn(); ok = true; }
    CATCH_FATAL() { if (!hAllowAssert) H_NO_ASSERT(); snprintf(hErr, sizeof hErr, "%s", errorMessage()); hErrType = errorType(); } TRY_END();
    // The process ends: its workers do nothing more and its locks are gone
    const bool count = vm.opCount, crashed = vm.crashed; vm.opCount = vm.crashed = false;
    for (unsigned i = 0; i < hLocalTotal; i++) hLocal[i].in->head = hLocal[i].in->size;
    TRY_BEGIN() { protocolFree(); } CATCH_FATAL() { } TRY_END();
    TRY_BEGIN() { cmdLockReleaseP(.returnOnNoLock = true); } CATCH_FATAL() { } TRY_END();
    for (int i = 0; i < VM_FD_MAX; i++) if (vm.fd[i].open) { if (vm.fd[i].node && vm.fd[i].node->lockFd == i) vm.fd[i].node->lockFd = -1; vm.fd[i].open = false; }
    vm.opCount = count; vm.crashed = crashed;
    return ok;
}
__attribute__((unused)) static void hRepo(const char *repo)
{
    static const HPgHist h[] = {{1, "13", SYSID}};
    hArchiveInfoHist(repo, h, 1); hBackupInfoHist(repo, h, 1, NULL);
}
#endif
