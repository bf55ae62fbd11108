// Locks: which commands exclude each other, and mutual exclusion under interleaving of system calls
#include "hcommon.h"
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>

#include "command/lock.h"
#include "command/remote/remote.h"
#include "hlocal.h"
#include "common/lock.h"

static const char *const typeName[3] = {"archive", "backup", "restore"};
typedef struct Cmd { const char *name; unsigned types; bool repoOpt, repoNeed; } Cmd;         // types: bit set of archive, backup, restore
static const Cmd cmd[] =
{
    {"annotate", 2, true}, {"backup", 2, true}, {"expire", 2, true}, {"restore", 4, true}, {"stanza-create", 7, false}, {"stanza-upgrade", 7, false},
    {"stanza-delete", 7, true, true}, {"archive-push:async", 1, false}, {"archive-get:async", 1, false}, {"archive-push", 0, false}, {"archive-get", 0, true}, {"info", 0, true},
    
};
static void path(char *p, unsigned type, unsigned repo) { snprintf(p, 64, "/lock/db-%s-%u.lock", typeName[type], repo == 2 ? 3 : repo); }
static bool held(const char *p) { VmNode *n = vm_lookup(p); return n && n->lockFd != -1; }

// Start a command the way main() does, with other processes holding any locks
void commands(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000;
    const Cmd *c = &cmd[vh_choose("command", 0, sizeof(cmd) / sizeof(cmd[0]) - 1)];
    unsigned repoSel = c->repoOpt ? (unsigned)vh_choose("repo-option", c->repoNeed, 2) : 0;
    // another process: the lock file it left or holds
    unsigned type = (unsigned)vh_choose("type", 0, 2), repo = (unsigned)vh_choose("repo", 1, 2);
    unsigned state = (unsigned)vh_choose("state", 0, 5);            // 0 none, 1 held by other, 2 held by the same exec id, 3 held and unreadable, 4 left behind, 5 held, exec id a prefix of ours
    char p[64]; path(p, type, repo); VmNode *n = NULL;
    if (state) { n = vm_putz(p, state == 1 ? "{\"execId\":\"77-0b0b0b0b\",\"pid\":77}" : state == 2 || state == 4 ? "{\"execId\":\"9-aaaaaaaa\",\"pid\":9}" : state == 5 ? "{\"execId\":\"9-aaaaaaa\",\"pid\":9}" : "{\"exec"); n->lockOther = state != 4; }
    const char *a[16]; unsigned k = 0;
    a[k++] = "pgbackrest"; a[k++] = c->name; a[k++] = "--stanza=db"; a[k++] = "--pg1-path=/pg"; a[k++] = "--repo1-path=/repo1"; a[k++] = "--repo3-path=/repo3"; a[k++] = "--lock-path=/lock"; a[k++] = "--log-level-file=off"; a[k++] = "--exec-id=9-aaaaaaaa";
    a[k++] = "--log-level-console=off"; a[k++] = "--log-level-stderr=off";
    if (strncmp(c->name, "archive", 7) == 0 && strchr(c->name, ':')) { a[k++] = "--spool-path=/spool"; a[k++] = "--archive-async"; }
    if (repoSel) a[k++] = repoSel == 1 ? "--repo=1" : "--repo=3";
    if (c->name[0] == 'b') { a[k++] = "--repo1-retention-full=1"; a[k++] = "--repo3-retention-full=1"; }
    if (strcmp(c->name, "annotate") == 0) { a[k++] = "--set=x"; a[k++] = "--annotation=a=b"; }
    // options that are not valid for a command are dropped
    const char *b[20]; unsigned m = 0;
    for (unsigned i = 0; i < k; i++)
    {
        bool pg = strncmp(a[i], "--pg1", 5) == 0;
        if (pg && (strcmp(c->name, "annotate") == 0 || strcmp(c->name, "expire") == 0 || strcmp(c->name, "info") == 0 || strcmp(c->name, "verify") == 0 || strcmp(c->name, "repo-ls") == 0)) continue;
        if (strcmp(c->name, "repo-ls") == 0 && strncmp(a[i], "--stanza", 8) == 0) continue;
        b[m++] = a[i];
    }
    volatile bool ok = false; volatile int code = 0;
    TRY_BEGIN() { cfgLoad(m, b); ok = true; } CATCH_FATAL() { code = errorCode(); H_NO_ASSERT(); } TRY_END();
    bool needed = state && (c->types & 1u << type) && (repoSel == 0 || repoSel == repo), conflict = needed && (state == 1 || state == 3 || state == 5);
    if (conflict) { vh_reach("refused"); vh_assert(!ok && code == errorTypeCode(&LockAcquireError), "command started although another process holds a lock it needs"); }
    else
    {
        vh_assert(ok, "command refused although no other process holds a lock it needs");
        vh_reach("started");
        for (unsigned t = 0; t < 3; t++) for (unsigned r = 1; r <= 2; r++)
        {
            path(p, t, r); bool want = (c->types & 1u << t) && (repoSel == 0 || repoSel == r), shared = needed && state == 2 && t == type && r == repo;
            vh_assert(held(p) == (want && !shared), "set of locks held is wrong");
        }
        if (c->types)
        {
            cmdLockReleaseP(); vh_reach("released");
            for (unsigned t = 0; t < 3; t++) for (unsigned r = 1; r <= 2; r++)
            {
                path(p, t, r); bool want = (c->types & 1u << t) && (repoSel == 0 || repoSel == r), mine = state && t == type && r == repo;
                vh_assert(!held(p), "lock not released");
                if (want && !(needed && state == 2 && mine)) vh_assert(!vm_exists(p), "lock file left behind"); else if (mine) vh_assert(vm_exists(p) && vm_lookup(p)->lockOther == (state != 4), "lock of another process disturbed");
            }
        }
    }
    if (state && state != 4) vh_assert(n->lockOther, "lock of another process broken");
    vh_observe(ok); vh_observe((uint64_t)code);
}

// Another process A holds the lock and releases it (removes the file, then closes it) while a process C follows the same
// protocol; both may take steps before every system call of this process.
#define LF "/lock/x.lock"
static unsigned aStep, cStep, moves; static VmNode *aNode, *cNode; static bool cHeld, cFail;
static void aRun(void) { if (aStep == 0) { vm_remove(LF); aStep = 1; } else if (aStep == 1) { aNode->lockOther = false; aStep = 2; } }
static void cRun(void)
{
    if (cStep == 0) { cNode = vm_lookup(LF); if (!cNode) cNode = vm_putz(LF, ""); cStep = 1; }
    else if (cStep == 1) { if (cNode->lockOther || cNode->lockFd != -1) { cFail = true; cStep = 9; } else { cNode->lockOther = true; cStep = 2; } }
    else if (cStep == 2) { if (vm_lookup(LF) != cNode) { cNode->lockOther = false; cStep = moves > 20 ? 9 : 0; } else { cHeld = true; cStep = 9; } }
}
static bool inside;
static void others(const char *op)
{
    (void)op; if (inside) return; inside = true;
    while (moves < vh_arg(0))
    {
        unsigned w = (unsigned)vh_choose("who", 0, 2);
        if (w == 0 || (w == 1 && aStep == 2) || (w == 2 && cStep == 9)) break;
        moves++; if (w == 1) aRun(); else cRun();
    }
    inside = false;
}
void race(void)
{
    hInit(); vm_mkdirs("/lock");
    bool aThere = vh_bool("held-before");
    if (aThere) { aNode = vm_putz(LF, "{\"execId\":\"77-0b0b0b0b\",\"pid\":77}"); aNode->lockOther = true; } else aStep = 2;
    lockInit(strNewZ("/lock"), strNewZ("9-aaaaaaaa"));
    vm.onSys = others;
    volatile bool ok = false;
    TRY_BEGIN() { ok = lockAcquireP(strNewZ("x.lock"), .returnOnNoLock = true); } CATCH_FATAL() { H_NO_ASSERT(); vh_fail("lock attempt failed with an error"); } TRY_END();
    vm.onSys = NULL;
    while (aStep != 2) aRun();
    while (cStep != 9) { moves++; cRun(); }
    if (ok) vh_reach("acquired"); else vh_reach("not-acquired");
    if (cHeld) vh_reach("other-acquired");
    vh_assert(!(ok && cHeld), "two processes hold the lock at the same time");
    // if nobody else ever held or wanted the lock it must be granted
    if (!aThere && cFail) vh_assert(ok, "other process refused without a holder");
    vh_observe(ok);
}

// A remote process started by the main process takes the lock on its own host for commands that change the repository
typedef struct RCmd { const char *name; unsigned types; } RCmd;
static const RCmd rcmd[] = {{"annotate", 2}, {"backup", 2}, {"expire", 2}, {"stanza-create", 7}, {"stanza-upgrade", 7}, {"stanza-delete", 7}, {"archive-push", 1}, {"archive-get", 0}, {"info", 0}, {"restore", 0}};
static void request(VmPipe *p, StringId id, uint64_t session)
{
    Buffer *const b = bufNew(0); IoWrite *const w = ioBufferWriteNewOpen(b); PackWrite *const q = pckWriteNewIo(w);
    pckWriteU32P(q, protocolMessageTypeRequest, .defaultWrite = true); pckWriteStrIdP(q, id); pckWriteStrIdP(q, protocolCommandTypeProcess); pckWriteU64P(q, session); pckWriteEndP(q); ioWriteClose(w);
    int fd = vm_pipeFd(p, true); write(fd, bufPtr(b), bufUsed(b)); close(fd);
}
void remote(void)
{
    hInit(); vm_mkdirs("/lock"); vm.uid = 1000; vm.gid = 1000;
    const RCmd *c = &rcmd[vh_choose("command", 0, sizeof(rcmd) / sizeof(rcmd[0]) - 1)];
    unsigned type = (unsigned)vh_choose("type", 0, 2), state = (unsigned)vh_choose("state", 0, 2); bool main_ = vh_bool("process-0"), stopped = vh_bool("stopped");
    char p[64]; path(p, type, 1); VmNode *n = NULL;
    if (state) { n = vm_putz(p, state == 1 ? "{\"execId\":\"77-0b0b0b0b\",\"pid\":77}" : "{\"execId\":\"9-aaaaaaaa\",\"pid\":9}"); n->lockOther = true; }
    if (stopped) vm_putz("/lock/db.stop", "");
    char nm[40]; snprintf(nm, sizeof nm, "%s:remote", c->name);
    bool pg = strncmp(c->name, "stanza-", 7) == 0 || strncmp(c->name, "archive-", 8) == 0 || strcmp(c->name, "backup") == 0 || strcmp(c->name, "restore") == 0;
    const char *a[] = {"pgbackrest", nm, pg ? "--pg1-path=/pg" : "--log-level-file=off", "--stanza=db", main_ ? "--process=0" : "--process=1", "--remote-type=repo", "--repo1-path=/repo1", "--lock-path=/lock", pg ? "--log-level-file=off" : "--no-log-timestamp", "--exec-id=9-aaaaaaaa", "--log-level-console=off", "--log-level-stderr=off"};
    volatile bool started = false, done = false; int fd[2], fo[2];
    TRY_BEGIN()
    {
        cfgLoad(sizeof(a) / sizeof(a[0]), a); started = true;
        pipe(fd); pipe(fo); VmPipe *in = vm.fd[fd[0]].pipe;
        ProtocolServer *server = protocolServerNew(STRDEF("remote"), STRDEF("remote"), ioFdReadNewOpen(STRDEF("r"), fd[0], 1000), ioFdWriteNewOpen(STRDEF("w"), fo[1], 1000));
        VmPipe *out = vm.fd[fo[0]].pipe; out->head = out->size;
        request(in, PROTOCOL_COMMAND_NOOP, 1); request(in, PROTOCOL_COMMAND_EXIT, 2);
        cmdRemote(server); done = true;
        PackRead *res = pckReadNewIo(ioFdReadNewOpen(STRDEF("r2"), fo[0], 1000));
        pckReadU64P(res); unsigned msg = pckReadU32P(res);
        bool need = main_ && (c->types & 1u << type) && state == 1, refused = need || (main_ && c->types && stopped);
        if (refused) { vh_reach("refused"); vh_assert(msg == protocolMessageTypeError, "remote served a command although the lock is held elsewhere or the stanza is stopped"); }
        else { vh_reach("served"); vh_assert(msg != protocolMessageTypeError, "remote refused without a reason"); }
        for (unsigned t = 0; t < 3; t++) { path(p, t, 1); if (!refused) vh_assert(held(p) == (main_ && (c->types & 1u << t) && !(state == 2 && t == type)), "remote holds the wrong locks"); }
        vh_observe(msg);
    }
    CATCH_FATAL() { H_NO_ASSERT(); vh_fail("remote failed"); }
    TRY_END();
    (void)started; (void)done;
}
