// Local worker processes run in-process: fork() records the pipes, and when the parent waits for a worker the real local command
// handles the pending request on the other end.
#ifndef HLOCAL_H
#define HLOCAL_H
#include "hcommon.h"
#include <unistd.h>

#include "command/local/local.h"
#include "common/io/fdRead.h"
#include "common/io/fdWrite.h"
#include "common/type/pack.h"
#include "protocol/client.h"
#include "protocol/helper.h"
#include "protocol/server.h"

typedef struct HLocal { VmPipe *in, *out; ProtocolServer *server; bool busy; } HLocal;
static HLocal hLocal[8];
static unsigned hLocalTotal;
static unsigned hLocalRequests;

__attribute__((unused)) static int hLocalFork(void)
{
    HLocal *l = &hLocal[hLocalTotal++];
    *l = (HLocal){.in = vm.lastPipe[1], .out = vm.lastPipe[2]};
    int fi = vm_pipeFd(l->in, false), fo = vm_pipeFd(l->out, true);
    MEM_CONTEXT_BEGIN(memContextTop())
    {
        IoRead *const read = ioFdReadNewOpen(STRDEF("local read"), fi, 1000);
        IoWrite *const write = ioFdWriteNewOpen(STRDEF("local write"), fo, 1000);
        l->server = protocolServerNew(PROTOCOL_SERVICE_LOCAL_STR, PROTOCOL_SERVICE_LOCAL_STR, read, write);
    }
    MEM_CONTEXT_END();
    return 5000 + (int)hLocalTotal;
}
// Append an exit request so that the server's loop returns after the pending requests
static void hLocalExitRequest(VmPipe *p)
{
    Buffer *const b = bufNew(0);
    IoWrite *const w = ioBufferWriteNewOpen(b);
    PackWrite *const request = pckWriteNewIo(w);
    pckWriteU32P(request, protocolMessageTypeRequest, .defaultWrite = true);
    pckWriteStrIdP(request, PROTOCOL_COMMAND_EXIT);
    pckWriteStrIdP(request, protocolCommandTypeProcess);
    pckWriteU64P(request, 999999);
    pckWriteEndP(request);
    ioWriteClose(w);
    int fd = vm_pipeFd(p, true); write(fd, bufPtr(b), bufUsed(b)); close(fd);
}
__attribute__((unused)) static void hLocalIdle(int fd)
{
    for (unsigned i = 0; i < hLocalTotal; i++)
        if (vm.fd[fd].pipe == hLocal[i].out && !hLocal[i].busy && hLocal[i].in->head < hLocal[i].in->size)
        {
            hLocal[i].busy = true; hLocalRequests++;
            MEM_CONTEXT_BEGIN(memContextTop())
            {
                MEM_CONTEXT_TEMP_BEGIN()
                {
                    hLocalExitRequest(hLocal[i].in);
                    cmdLocal(hLocal[i].server);
                }
                MEM_CONTEXT_TEMP_END();
            }
            MEM_CONTEXT_END();
            hLocal[i].busy = false;
        }
}
__attribute__((unused)) static void hLocalInit(void) { hLocalTotal = 0; vm.onFork = hLocalFork; vm.onIdle = hLocalIdle; }
#endif
