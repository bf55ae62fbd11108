// Environment model: an in-memory POSIX file system with separate volatile and durable state, a clock, fault and crash injection.
#ifndef VM_H
#define VM_H
#include <stdbool.h>
#include <stddef.h>
#include <stdint.h>
#include "vh.h"
enum { VM_FILE = 1, VM_DIR, VM_LINK, VM_SPECIAL };
typedef struct VmNode
{
    int type; unsigned mode, uid, gid; int64_t mtime; uint8_t *data; size_t size, cap; uint8_t *dur; size_t durSize; bool dirty; char *target; int lockFd;
    bool lockOther; int nlink; uint64_t ino; bool attrDirty;
} VmNode;
typedef struct VmEnt { char *path; VmNode *node, *dur; } VmEnt;
#define VM_ENT_MAX 512
#define VM_FD_MAX 96
typedef struct VmPipe { uint8_t *data; size_t head, size, cap; int wOpen, rOpen; } VmPipe;   // wOpen, rOpen: open descriptors
typedef struct VmFd { bool open; VmNode *node; size_t off; int flags; char *path; VmPipe *pipe; bool pipeW; } VmFd;
typedef struct VmPgRes { int status, rows, cols; unsigned type[8]; const char *val[64]; const char *error; bool busy, extra; } VmPgRes;   // status as in libpq
typedef struct Vm
{
    VmEnt ent[VM_ENT_MAX]; int nEnt; VmFd fd[VM_FD_MAX]; uint64_t ino;
    int64_t now; uint32_t usec; unsigned uid, gid; unsigned umaskV; int pid; char cwd[256];
    uint32_t op;                                                    // mutating operations so far
    uint32_t crashAt;                                               // crash before mutating operation n (1-based; 0: never)
    bool crashed;
    uint32_t faultAt; int faultErr; bool faultHit;                  // operation n fails with the error
    uint32_t rop; uint32_t rfaultAt; int rfaultErr;                 // reading operations
    uint32_t nSync, nWrite, nUnlink, nRename, nOpen, nFork, nKill, nExec;
    bool opCount;                                                   // count (and so crash/fault) only when set
    bool recoverDeviate;                                            // vm_recover: bounded choice of what survived
    bool shortRead;                                                 // reads return at most one symbolic-length chunk
    int64_t sleepMs;
    char out[16384]; size_t nOut;                                   // standard output
    int killRes; void (*onKill)(int pid, int sig);
    void (*onOp)(const char *op, const char *path);                 // hook called before each mutating operation takes effect
    VmPipe *lastPipe[3];                                            // most recently created pipes, latest first
    int (*onFork)(void);                                            // result of fork() in the parent
    int (*onWait)(int pid, int *status);
    bool (*onSelect)(int fd);                                       // schedule: may this readable descriptor be reported now?
    void (*onExec)(const char *file, char *const *argv);
    const char *(*onGetenv)(const char *name);
    void (*onSleep)(void);
    void (*onSys)(const char *op);                                  // called before open, flock, stat, unlink, close: another process may run
    void (*onOpen)(const char *path, int flags);                    // called when a path was resolved to be opened
    int (*onPgConnect)(const char *conninfo);                       // PostgreSQL: server number, negative when it cannot be reached
    void (*onPgClose)(int server);
    void (*onPgQuery)(int server, const char *sql, struct VmPgRes *res);
    void (*onIdle)(int fd);                                         // called when a read would block on an empty pipe
} Vm;
extern Vm vm;
void vm_reset(void);
VmNode *vm_lookup(const char *path);                                // volatile view, links not followed
VmEnt *vm_ent(const char *path);
VmNode *vm_mkdirs(const char *path);
VmNode *vm_put(const char *path, const void *data, size_t size);    // durable file, parents created
VmNode *vm_putz(const char *path, const char *z);
VmNode *vm_putlink(const char *path, const char *target);
bool vm_exists(const char *path);
bool vm_equal(const char *path, const void *data, size_t size);
void vm_remove(const char *path);
void vm_recover(const char *name);                                  // apply the crash: choose what survived
void vm_allDurable(void);
int vm_fdOpenCount(void);
int vm_pipeFd(VmPipe *p, bool w);                                   // another descriptor for a pipe end
void vm_dump(void);
extern int vm_codecStingy;                                          // compressors take input only while there is room for output
extern int vm_codecRuns;                                            // encode runs of zeros
#endif
