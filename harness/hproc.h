// Worker and remote processes of a command, each with the configuration it was started with: execNew() records the command, fork()
// the pipes, and when a process waits for another the real local or remote command handles the pending requests on the other end.
#ifndef HLOCAL_H
#define HLOCAL_H
#include "hcommon.h"
#include <unistd.h>

#include "command/local/local.h"
#include "command/remote/remote.h"
#include "common/exec.h"
#include "common/io/fdRead.h"
#include "common/io/fdWrite.h"
#include "common/type/pack.h"

typedef struct HExecParam { char *z[160]; unsigned n; } HExecParam;
static HExecParam hExecParam;
static Exec *hExecNew(const String *const command, const StringList *const param, const String *const name, const TimeMSec timeout)
{
    hExecParam.n = 0; hExecParam.z[hExecParam.n++] = strdup(strZ(command));
    for (unsigned i = 0; i < strLstSize(param); i++) hExecParam.z[hExecParam.n++] = strdup(strZ(strLstGet(param, i)));
    return execNew(command, param, name, timeout);
}
#define execNew hExecNew
#include "config/config.c"
#include "protocol/helper.c"
#undef execNew
#include "common/lock.c"
#include "command/lock.c"
#include "storage/helper.c"
#include "storage/remote/protocol.c"

typedef struct HState { Config *config; struct StorageHelperLocal storage; __typeof__(protocolHelper) protocol; __typeof__(lockLocal) lock; __typeof__(cmdLockLocal) cmdLock; __typeof__(storageRemoteProtocolLocal) remote; } HState;
typedef struct HLocal { VmPipe *in, *out; ProtocolServer *server; bool busy, remote, started; HExecParam param; HState state; unsigned requests; } HLocal;
static HLocal hLocal[12];
static unsigned hLocalTotal, hLocalRequests, hRemoteRequests;
static void (*hIdleHook)(int fd);
static void hStateSave(HState *s) { s->config = configLocal; s->storage = storageHelper; s->protocol = protocolHelper; s->lock = lockLocal; s->cmdLock = cmdLockLocal; s->remote = storageRemoteProtocolLocal; }
static void hStateLoad(const HState *s) { configLocal = s->config; storageHelper = s->storage; protocolHelper = s->protocol; lockLocal = s->lock; cmdLockLocal = s->cmdLock; storageRemoteProtocolLocal = s->remote; }
// The command line of the new process: for ssh the last argument, split as the login shell there does
static void hProcParam(HLocal *const l)
{
    l->param = hExecParam; const char *last = hExecParam.z[hExecParam.n - 1];
    if (strchr(last, ' ') == NULL) { for (unsigned i = 1; i < l->param.n; i++) if (vh_arg(15) > 1) vh_prints("local", l->param.z[i]); return; }
    l->remote = true; l->param.n = 0; char *cur = malloc(strlen(last) + 1); unsigned n = 0; char quote = 0; bool any = false;
    for (const char *p = last;; p++)
    {
        if (*p == 0 || (*p == ' ' && !quote)) { if (any) { cur[n] = 0; l->param.z[l->param.n++] = strdup(cur); if (vh_arg(15) > 1) vh_prints("remote", cur); } n = 0; any = false; if (*p == 0) break; continue; }
        any = true;
        if (quote) { if (*p == quote) quote = 0; else cur[n++] = *p; }
        else if (*p == '\'' || *p == '"') quote = *p; else if (*p == '\\') cur[n++] = *++p; else cur[n++] = *p;
    }
}
__attribute__((unused)) static int hLocalFork(void)
{
    HLocal *const l = &hLocal[hLocalTotal++]; *l = (HLocal){.in = vm.lastPipe[1], .out = vm.lastPipe[2]}; hProcParam(l);
    const int fi = vm_pipeFd(l->in, false), fo = vm_pipeFd(l->out, true);
    MEM_CONTEXT_BEGIN(memContextTop())
    {
        IoRead *const read = ioFdReadNewOpen(STRDEF("process read"), fi, 1000); IoWrite *const write = ioFdWriteNewOpen(STRDEF("process write"), fo, 1000);
        const String *const service = l->remote ? PROTOCOL_SERVICE_REMOTE_STR : PROTOCOL_SERVICE_LOCAL_STR; l->server = protocolServerNew(service, service, read, write);
    }
    MEM_CONTEXT_END();
    return 5000 + (int)hLocalTotal;
}
static void hProcStart(HLocal *const l)
{
    configLocal = NULL; memset(&storageHelper, 0, sizeof storageHelper); memset(&protocolHelper, 0, sizeof protocolHelper); memset(&lockLocal, 0, sizeof lockLocal); memset(&cmdLockLocal, 0, sizeof cmdLockLocal); memset(&storageRemoteProtocolLocal, 0, sizeof storageRemoteProtocolLocal);
    storageHelperInit(hStorageHelperList); const bool count = vm.opCount; vm.opCount = false;
    TRY_BEGIN()
    {
        const char **list = malloc(sizeof(char *) * (l->param.n + 1)); for (unsigned i = 0; i < l->param.n; i++) list[i] = l->param.z[i]; list[l->param.n] = NULL;
        cfgParseP(storageLocal(), l->param.n, list, .noResetLogLevel = true); cfgLoadUpdateOption(); storageHelperDryRunInit(cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun));
        if (l->remote && cfgOptionTest(cfgOptLockPath)) lockInit(strDup(cfgOptionStr(cfgOptLockPath)), strDup(cfgOptionStr(cfgOptExecId)));
    }
    CATCH_FATAL() { vh_prints("configuration of the started process", errorMessage()); vh_fail("configuration of a started process is refused"); } TRY_END();
    vm.opCount = count; l->started = true; hStateSave(&l->state);
}
static void hLocalExitRequest(VmPipe *p)
{
    Buffer *const b = bufNew(0); IoWrite *const w = ioBufferWriteNewOpen(b); PackWrite *const request = pckWriteNewIo(w);
    pckWriteU32P(request, protocolMessageTypeRequest, .defaultWrite = true); pckWriteStrIdP(request, PROTOCOL_COMMAND_EXIT); pckWriteStrIdP(request, protocolCommandTypeProcess); pckWriteU64P(request, 999999); pckWriteEndP(request); ioWriteClose(w);
    const int fd = vm_pipeFd(p, true); write(fd, bufPtr(b), bufUsed(b)); close(fd);
}
#include "db/protocol.h"
#include "config/protocol.h"
static const ProtocolServerHandler hRemoteHandler[] = {PROTOCOL_SERVER_HANDLER_DB_LIST PROTOCOL_SERVER_HANDLER_OPTION_LIST PROTOCOL_SERVER_HANDLER_STORAGE_REMOTE_LIST};
__attribute__((unused)) static void hLocalIdle(int fd)
{
    for (unsigned i = 0; i < hLocalTotal; i++)
    {
        HLocal *const l = &hLocal[i]; if (vm.fd[fd].pipe != l->out || l->busy || l->in->head >= l->in->size) continue;
        l->busy = true; HState mine; hStateSave(&mine); if (l->remote) hRemoteRequests++; else hLocalRequests++;
        MEM_CONTEXT_BEGIN(memContextTop())
        {
            MEM_CONTEXT_TEMP_BEGIN()
            {
                if (!l->started) { MEM_CONTEXT_BEGIN(memContextTop()) { hProcStart(l); } MEM_CONTEXT_END(); } else hStateLoad(&l->state);
                hLocalExitRequest(l->in);
                if (!l->remote) cmdLocal(l->server);
                else if (l->requests++ == 0) cmdRemote(l->server);
                else protocolServerProcess(l->server, NULL, LSTDEF(hRemoteHandler));
            }
            MEM_CONTEXT_TEMP_END();
        }
        MEM_CONTEXT_END();
        hStateSave(&l->state); hStateLoad(&mine); l->busy = false;
    }
}
__attribute__((unused)) static void hLocalInit(void) { hLocalTotal = 0; vm.onFork = hLocalFork; vm.onIdle = hIdleHook ? hIdleHook : hLocalIdle; }
#endif
