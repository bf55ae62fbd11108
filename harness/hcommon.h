// Common harness support
#ifndef HCOMMON_H
#define HCOMMON_H
#include <build.h>

#include <stdio.h>
#include <stdlib.h>
#include <string.h>

#include "command/command.h"
#include "command/exit.h"
#include "common/debug.h"
#include "common/error/error.h"
#include "common/io/bufferRead.h"
#include "common/io/bufferWrite.h"
#include "common/io/io.h"
#include "common/log.h"
#include "common/memContext.h"
#include "common/stackTrace.h"
#include "common/stat.h"
#include "common/type/string.h"
#include "postgres/version.h"
#include "common/type/stringList.h"
#include "config/config.intern.h"
#include "config/load.h"
#include "config/parse.h"
#include "storage/azure/helper.h"
#include "storage/cifs/helper.h"
#include "storage/gcs/helper.h"
#include "storage/helper.h"
#include "storage/posix/storage.h"
#include "storage/s3/helper.h"
#include "storage/sftp/helper.h"
#include "vh.h"
#include "vm.h"

static const StorageHelper hStorageHelperList[] = {STORAGE_AZURE_HELPER, STORAGE_CIFS_HELPER, STORAGE_GCS_HELPER, STORAGE_S3_HELPER, STORAGE_SFTP_HELPER, STORAGE_END_HELPER};

__attribute__((unused)) static void hInit(void)
{
    vm_reset();
    static const ErrorHandlerFunction handler[] = {stackTraceClean, memContextClean};   // as main() does
    errorHandlerSet(handler, 2);
    logInit(logLevelOff, logLevelOff, logLevelOff, false, 0, 1, false);
    storageHelperInit(hStorageHelperList);
    statInit();
}

// Load a configuration: zero-terminated arguments after the command
__attribute__((unused)) static void hCfg(const char *const command, const char *const *args)
{
    const char *argv[64]; unsigned n = 0;
    argv[n++] = "pgbackrest"; argv[n++] = command;
    while (*args) argv[n++] = *args++;
    const char **list = malloc(sizeof(char *) * (n + 1)); memcpy(list, argv, sizeof(char *) * n); list[n] = NULL;
    storageHelperFree();
    TRY_BEGIN() { cfgParseP(storageLocal(), n, list, .noResetLogLevel = true); cfgLoadUpdateOption(); if (cfgOptionValid(cfgOptExecId) && !cfgOptionTest(cfgOptExecId)) cfgOptionSet(cfgOptExecId, cfgSourceParam, varNewStrZ("1-1")); }
    CATCH_FATAL() { vh_prints("configuration", errorMessage()); vh_fail("configuration refused"); } TRY_END();
    storageHelperDryRunInit(cfgOptionValid(cfgOptDryRun) && cfgOptionBool(cfgOptDryRun));
}
#define HCFG(command, ...) hCfg(command, (const char *const[]){__VA_ARGS__, NULL})

// An error that the code under test threw must be one of its own error types, never an assertion of its own consistency
#define H_NO_ASSERT() do { if (vh_arg(15)) vh_prints("error", errorMessage()); vh_assert(errorType() != &AssertError, "internal assertion error reported"); } while (0)

// observe a string (length, then a fold of its bytes)
__attribute__((unused)) static void hObsBuf(const void *const p, const size_t n)
{
    uint64_t h = n; const unsigned char *b = p;
    for (size_t i = 0; i < n; i++) h = (h << 5 | h >> 59) ^ b[i];
    vh_observe(h);
}
__attribute__((unused)) static void hObsZ(const char *const z) { if (z == NULL) vh_observe(0xdead); else hObsBuf(z, strlen(z)); }
#endif
