#define _GNU_SOURCE
#include <errno.h>
#include <dirent.h>
#include <fcntl.h>
#include <grp.h>
#include <poll.h>
#include <pwd.h>
#include <signal.h>
#include <stdarg.h>
#include <stdlib.h>
#include <string.h>
#include <sys/file.h>
#include <sys/select.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <utime.h>
#include "vm.h"
Vm vm;
static char *sdup(const char *s) { size_t n = strlen(s) + 1; char *r = malloc(n); memcpy(r, s, n); return r; }

void vm_reset(void)
{
    memset(&vm, 0, sizeof vm);
    vm.now = 1700000000; vm.uid = 1000; vm.gid = 1000; vm.umaskV = 0; vm.pid = 4242; memcpy(vm.cwd, "/", 2); vm.killRes = 0;
    vm_mkdirs("/");
}
// ---- names. All paths are made absolute and '.', '..' and doubled slashes are removed.
static void norm(const char *p, char *out)
{
    char in[1024]; size_t n = 0;
    if (*p != '/') { size_t c = strlen(vm.cwd); memcpy(in, vm.cwd, c); n = c; in[n++] = '/'; }
    size_t l = strlen(p); if (n + l + 1 > sizeof in) vh_fail("path too long for the model");
    memcpy(in + n, p, l + 1);
    size_t o = 0; const char *s = in;
    while (*s)
    {
        while (*s == '/') s++;
        size_t k = 0; while (s[k] && s[k] != '/') k++;
        if (k == 0) break;
        if (k == 1 && s[0] == '.') { }
        else if (k == 2 && s[0] == '.' && s[1] == '.') { while (o > 0 && out[--o] != '/') {} }
        else { out[o++] = '/'; memcpy(out + o, s, k); o += k; }
        s += k;
    }
    if (o == 0) out[o++] = '/';
    out[o] = 0;
}
static VmEnt *entRaw(const char *abs, bool create)
{
    for (int i = 0; i < vm.nEnt; i++) if (strcmp(vm.ent[i].path, abs) == 0) return &vm.ent[i];
    if (!create) return NULL;
    if (vm.nEnt == VM_ENT_MAX) vh_fail("too many files for the model");
    VmEnt *e = &vm.ent[vm.nEnt++]; e->path = sdup(abs); e->node = e->dur = NULL; return e;
}
static void parentOf(const char *abs, char *out) { size_t n = strlen(abs); while (n > 1 && abs[n - 1] != '/') n--; if (n > 1) n--; memcpy(out, abs, n); out[n] = 0; }
VmNode *vm_lookup(const char *p) { char a[1024]; norm(p, a); VmEnt *e = entRaw(a, false); return e ? e->node : NULL; }
VmEnt *vm_ent(const char *p) { char a[1024]; norm(p, a); return entRaw(a, false); }
// Resolve links in every component. Returns false with errno when a parent is missing or not a directory.
static bool resolve(const char *p, char *out, bool followLast, int depth)
{
    char a[1024]; norm(p, a);
    if (depth > 8) { errno = ELOOP; return false; }
    size_t i = 1;
    for (;;)
    {
        while (a[i] && a[i] != '/') i++;
        bool last = !a[i]; char c = a[i]; a[i] = 0;
        if (i > 1 || !last)
        {
            VmEnt *e = entRaw(a, false);
            if (!last || followLast)
            {
                if (e && e->node && e->node->type == VM_LINK)
                {
                    char t[1024]; size_t n = 0;
                    if (e->node->target[0] != '/') { parentOf(a, t); n = strlen(t); t[n++] = '/'; }
                    size_t l = strlen(e->node->target); memcpy(t + n, e->node->target, l); n += l;
                    a[i] = c; l = strlen(a + i); memcpy(t + n, a + i, l + 1);
                    return resolve(t, out, followLast, depth + 1);
                }
            }
            if (!last)
            {
                if (!e || !e->node) { errno = ENOENT; return false; }
                if (e->node->type != VM_DIR) { errno = ENOTDIR; return false; }
            }
        }
        a[i] = c;
        if (last) break;
        i++;
    }
    memcpy(out, a, strlen(a) + 1);
    return true;
}
static VmNode *newNode(int type, unsigned mode) { VmNode *n = malloc(sizeof *n); memset(n, 0, sizeof *n); n->type = type; n->mode = mode; n->uid = vm.uid; n->gid = vm.gid; n->mtime = vm.now; n->lockFd = -1; n->nlink = 1; n->ino = ++vm.ino; return n; }
VmNode *vm_mkdirs(const char *p)
{
    char a[1024]; norm(p, a); VmEnt *e = entRaw(a, false);
    if (e && e->node) return e->node;
    if (a[1]) { char b[1024]; parentOf(a, b); vm_mkdirs(b); }
    e = entRaw(a, true); e->node = e->dur = newNode(VM_DIR, 0750); return e->node;
}
VmNode *vm_put(const char *p, const void *d, size_t n)
{
    char a[1024], b[1024]; norm(p, a); parentOf(a, b); vm_mkdirs(b);
    VmEnt *e = entRaw(a, true); VmNode *x = newNode(VM_FILE, 0640);
    x->data = malloc(n + 1); if (n) memcpy(x->data, d, n); x->size = n; x->cap = n + 1; x->dur = malloc(n + 1); if (n) memcpy(x->dur, d, n); x->durSize = n;
    e->node = e->dur = x; return x;
}
VmNode *vm_putz(const char *p, const char *z) { return vm_put(p, z, strlen(z)); }
VmNode *vm_putlink(const char *p, const char *t) { char a[1024], b[1024]; norm(p, a); parentOf(a, b); vm_mkdirs(b); VmEnt *e = entRaw(a, true); e->node = e->dur = newNode(VM_LINK, 0777); e->node->target = sdup(t); return e->node; }
bool vm_exists(const char *p) { return vm_lookup(p) != NULL; }
bool vm_equal(const char *p, const void *d, size_t n) { VmNode *x = vm_lookup(p); return x && x->type == VM_FILE && x->size == n && (n == 0 || memcmp(x->data, d, n) == 0); }
void vm_remove(const char *p) { char a[1024]; norm(p, a); VmEnt *e = entRaw(a, false); if (e) e->node = e->dur = NULL; }
int vm_fdOpenCount(void) { int n = 0; for (int i = 0; i < VM_FD_MAX; i++) n += vm.fd[i].open; return n; }
void vm_dump(void) { for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node) vh_prints(vm.ent[i].node->type == VM_DIR ? "dir" : "file", vm.ent[i].path); }
void vm_allDurable(void)
{
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i]; e->dur = e->node;
        if (e->node && e->node->dirty) { VmNode *n = e->node; free(n->dur); n->dur = malloc(n->size + 1); if (n->size) memcpy(n->dur, n->data, n->size); n->durSize = n->size; n->dirty = false; }
    }
}
// After a crash: every directory entry changed since the last sync of its directory is either old or new; unsynced data is old, new
// or lost
// Without vm.recoverDeviate every combination of surviving changes is explored; with it all of them survive or none, except for one
static bool recoverLost(const char *name, uint32_t *idx, uint32_t total, bool *base, uint32_t *which)
{
    (void)total; if (!vm.recoverDeviate) return vh_bool(name);
    return (*idx)++ == *which ? !*base : *base;
}
// A new directory is taken as durable: syncing anything in it makes it reachable on the file systems in use
static bool newDir(const VmEnt *e) { return e->node && e->node->type == VM_DIR && e->dur == NULL; }
void vm_recover(const char *name)
{
    uint32_t total = 0, idx = 0, which = 0; bool base = false;
    if (vm.recoverDeviate)
    {
        for (int i = 0; i < vm.nEnt; i++) { VmEnt *e = &vm.ent[i]; if (e->node != e->dur && !newDir(e)) total++; if (e->node && e->node->dirty) total++; }
        if (total) { base = vh_concretize(vh_bool(name)); which = (uint32_t)vh_choose(name, 0, total); }
    }
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmEnt *e = &vm.ent[i];
        if (newDir(e)) e->dur = e->node;
        if (e->node != e->dur) { if (recoverLost(name, &idx, total, &base, &which)) e->node = e->dur; else e->dur = e->node; }
    }
    // What lies below a directory that is gone is gone, too
    for (bool again = true; again;)
    {
        again = false;
        for (int i = 0; i < vm.nEnt; i++)
        {
            VmEnt *e = &vm.ent[i]; char *sl; if (e->node == NULL || (sl = strrchr(e->path, '/')) == NULL || sl == e->path) continue;
            for (int j = 0; j < vm.nEnt; j++)
                if (strncmp(vm.ent[j].path, e->path, (size_t)(sl - e->path)) == 0 && vm.ent[j].path[sl - e->path] == 0 && (vm.ent[j].node == NULL || vm.ent[j].node->type != VM_DIR)) { e->node = e->dur = NULL; again = true; break; }
        }
    }
    for (int i = 0; i < vm.nEnt; i++)
    {
        VmNode *n = vm.ent[i].node;
        if (n && n->dirty)
        {
            uint64_t c = vm.recoverDeviate ? (recoverLost(name, &idx, total, &base, &which) ? 0 : 2) : vh_choose(name, 0, 2);
            if (c == 0) { free(n->data); n->data = malloc(n->durSize + 1); if (n->durSize) memcpy(n->data, n->dur, n->durSize); n->size = n->durSize; n->cap = n->durSize + 1; }
            else if (c == 1) n->size = 0;
            n->dirty = false;
        }
        if (n) { n->lockFd = -1; n->lockOther = false; }
    }
    for (int i = 0; i < VM_FD_MAX; i++) vm.fd[i].open = false;
    vm.crashed = false; vm.crashAt = 0; vm.opCount = false;
    vm_allDurable();
}
// Mutating operation: false when it must fail
static bool mut(const char *op, const char *path)
{
    if (vm.crashed) { errno = EIO; return false; }
    if (vm.onOp) vm.onOp(op, path);
    if (vm.opCount)
    {
        vm.op++;
        if (vm.crashAt == vm.op) { vm.crashed = true; errno = EIO; return false; }
        if (vm.faultAt == vm.op) { vm.faultHit = true; errno = vm.faultErr; return false; }
    }
    return true;
}
static bool rd(void)
{
    if (vm.crashed) { errno = EIO; return false; }
    if (vm.opCount) { vm.rop++; if (vm.rfaultAt == vm.rop) { vm.faultHit = true; errno = vm.rfaultErr; return false; } }
    return true;
}
static int fdAlloc(void) { for (int i = 3; i < VM_FD_MAX; i++) if (!vm.fd[i].open) { memset(&vm.fd[i], 0, sizeof(VmFd)); vm.fd[i].open = true; return i; } vh_fail("too many file descriptors for the model"); }
static VmFd *fdGet(int fd) { if (fd < 0 || fd >= VM_FD_MAX || !vm.fd[fd].open) { errno = EBADF; return NULL; } return &vm.fd[fd]; }

int vm_open64(const char *p, int flags, ...)
{
    unsigned mode = 0; if (flags & O_CREAT) { va_list ap; va_start(ap, flags); mode = va_arg(ap, unsigned); va_end(ap); }
    vm.nOpen++;
    if (vm.onSys) vm.onSys("open");
    char a[1024];
    if (!rd()) return -1;
    if (!resolve(p, a, true, 0)) return -1;
    if (vm.onOpen) vm.onOpen(a, flags);
    VmEnt *e = entRaw(a, false);
    if (!e || !e->node)
    {
        if (!(flags & O_CREAT)) { errno = ENOENT; return -1; }
        char b[1024]; parentOf(a, b); VmNode *pn = vm_lookup(b); if (!pn) { errno = ENOENT; return -1; } if (pn->type != VM_DIR) { errno = ENOTDIR; return -1; }
        if (!mut("create", a)) return -1;
        e = entRaw(a, true); e->node = newNode(VM_FILE, mode & ~vm.umaskV & 07777); e->node->data = malloc(1); e->node->cap = 1; e->node->dirty = true; e->node->dur = malloc(1);
    }
    else if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return -1; }
    else if (e->node->type == VM_DIR && (flags & O_ACCMODE) != O_RDONLY) { errno = EISDIR; return -1; }
    else if ((flags & O_TRUNC) && e->node->type == VM_FILE) { if (!mut("truncate", a)) return -1; e->node->size = 0; e->node->dirty = true; }
    int fd = fdAlloc(); VmFd *f = &vm.fd[fd]; f->node = e->node; f->flags = flags; f->path = sdup(a); f->off = flags & O_APPEND ? e->node->size : 0;
    return fd;
}
int vm_open(const char *p, int flags, unsigned mode) { return vm_open64(p, flags, mode); }
int vm_close(int fd)
{
    VmFd *f = fdGet(fd); if (!f) return -1;
    if (vm.onSys) vm.onSys("close");
    if (f->pipe) { if (f->pipeW) f->pipe->wOpen--; else f->pipe->rOpen--; }
    if (f->node && f->node->lockFd == fd) f->node->lockFd = -1;
    f->open = false;
    return 0;
}
ssize_t vm_read(int fd, void *b, size_t n)
{
    VmFd *f = fdGet(fd); if (!f || (!f->pipe && !rd())) return -1;
    if (f->pipe)
    {
        if (f->pipe->head == f->pipe->size && f->pipe->wOpen && vm.onIdle) vm.onIdle(fd);
        size_t av = f->pipe->size - f->pipe->head; if (av == 0) { if (f->pipe->wOpen) { errno = EAGAIN; return -1; } return 0; }
        if (n > av) n = av; memcpy(b, f->pipe->data + f->pipe->head, n); f->pipe->head += n; return (ssize_t)n;
    }
    if (f->node->type == VM_DIR) { errno = EISDIR; return -1; }
    if (f->off >= f->node->size || n == 0) return 0;
    size_t av = f->node->size - f->off; if (n > av) n = av;
    if (vm.shortRead && n > 1) n = vh_choose("short-read", 1, n);
    memcpy(b, f->node->data + f->off, n); f->off += n; return (ssize_t)n;
}
static void grow(VmNode *n, size_t sz) { if (sz > n->cap) { size_t c = n->cap * 2 > sz ? n->cap * 2 : sz; uint8_t *d = malloc(c); if (n->size) memcpy(d, n->data, n->size); free(n->data); n->data = d; n->cap = c; } }
ssize_t vm_write(int fd, const void *b, size_t n)
{
    if (fd == 1 || fd == 2) { if (fd == 1 && n < sizeof vm.out - vm.nOut) { memcpy(vm.out + vm.nOut, b, n); vm.nOut += n; vm.out[vm.nOut] = 0; } return (ssize_t)n; }
    VmFd *f = fdGet(fd); if (!f) return -1;
    if (f->pipe)
    {
        VmPipe *p = f->pipe;
        if (!p->rOpen) { errno = EPIPE; return -1; }
        if (p->size + n > p->cap) { size_t c = (p->size + n) * 2; uint8_t *d = malloc(c); if (p->size) memcpy(d, p->data, p->size); free(p->data); p->data = d; p->cap = c; }
        if (n) memcpy(p->data + p->size, b, n);
        p->size += n; return (ssize_t)n;
    }
    if (!mut("write", f->path))
    {
        // a full file system may store a part of the data
        if (vm.crashed || errno != ENOSPC || n < 2 || !vh_bool("short-write")) return -1;
        n /= 2;
    }
    vm.nWrite++;
    VmNode *x = f->node; size_t end = f->off + n;
    if (end > x->size) { grow(x, end); if (f->off > x->size) memset(x->data + x->size, 0, f->off - x->size); x->size = end; }
    if (n) memcpy(x->data + f->off, b, n);
    f->off = end; x->dirty = true; x->mtime = vm.now; return (ssize_t)n;
}
off_t vm_lseek64(int fd, off_t o, int wh) { VmFd *f = fdGet(fd); if (!f) return -1; if (!rd()) return -1; int64_t v = wh == SEEK_SET ? o : wh == SEEK_CUR ? (int64_t)f->off + o : (int64_t)f->node->size + o; if (v < 0) { errno = EINVAL; return -1; } f->off = (size_t)v; return v; }
int vm_fsync(int fd)
{
    VmFd *f = fdGet(fd); if (!f) return -1;
    if (!mut("fsync", f->path)) return -1;
    vm.nSync++;
    VmNode *n = f->node;
    if (n->type == VM_DIR)
    {
        for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node != vm.ent[i].dur) { char b[1024]; parentOf(vm.ent[i].path, b); if (strcmp(b, f->path) == 0) vm.ent[i].dur = vm.ent[i].node; }
    }
    else if (n->dirty) { free(n->dur); n->dur = malloc(n->size + 1); if (n->size) memcpy(n->dur, n->data, n->size); n->durSize = n->size; n->dirty = false; }
    return 0;
}
int vm_ftruncate64(int fd, off_t sz)
{
    VmFd *f = fdGet(fd); if (!f) return -1;
    if (!mut("truncate", f->path)) return -1;
    VmNode *n = f->node; size_t s = (size_t)sz; if (s > n->size) { grow(n, s); memset(n->data + n->size, 0, s - n->size); } n->size = s; n->dirty = true; return 0;
}
int vm_rename(const char *o, const char *nw)
{
    char a[1024], b[1024], pb[1024]; if (!resolve(o, a, false, 0) || !resolve(nw, b, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; }
    parentOf(b, pb); VmNode *pn = vm_lookup(pb); if (!pn) { errno = ENOENT; return -1; } if (pn->type != VM_DIR) { errno = ENOTDIR; return -1; }
    VmEnt *t = entRaw(b, false); if (t && t->node && t->node->type == VM_DIR && e->node->type != VM_DIR) { errno = EISDIR; return -1; }
    if (!mut("rename", b)) return -1;
    vm.nRename++;
    VmNode *n = e->node;
    if (strcmp(a, b) == 0) return 0;
    entRaw(b, true)->node = n; entRaw(a, true)->node = NULL;
    if (n->type == VM_DIR)
    {
        size_t la = strlen(a); int cnt = vm.nEnt;
        for (int i = 0; i < cnt; i++) if (vm.ent[i].node && strncmp(vm.ent[i].path, a, la) == 0 && vm.ent[i].path[la] == '/')
        {
            char p[1024]; size_t lb = strlen(b); memcpy(p, b, lb); memcpy(p + lb, vm.ent[i].path + la, strlen(vm.ent[i].path + la) + 1);
            VmNode *x = vm.ent[i].node; vm.ent[i].node = NULL; entRaw(p, true)->node = x;
        }
    }
    return 0;
}
int vm_unlink(const char *p)
{
    if (vm.onSys) vm.onSys("unlink");
    char a[1024]; if (!resolve(p, a, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; }
    if (e->node->type == VM_DIR) { errno = EISDIR; return -1; }
    if (!mut("unlink", a)) return -1;
    vm.nUnlink++; e->node->nlink--; e->node = NULL; return 0;
}
static bool hasChild(const char *a) { size_t l = strlen(a); for (int i = 0; i < vm.nEnt; i++) if (vm.ent[i].node && strncmp(vm.ent[i].path, a, l) == 0 && vm.ent[i].path[l] == '/') return true; return false; }
int vm_rmdir(const char *p)
{
    char a[1024]; if (!resolve(p, a, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; }
    if (e->node->type != VM_DIR) { errno = ENOTDIR; return -1; }
    if (hasChild(a)) { errno = ENOTEMPTY; return -1; }
    if (!mut("rmdir", a)) return -1;
    e->node = NULL; return 0;
}
int vm_mkdir(const char *p, mode_t m)
{
    char a[1024], b[1024]; if (!resolve(p, a, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (e && e->node) { errno = EEXIST; return -1; }
    parentOf(a, b); VmNode *pn = vm_lookup(b); if (!pn) { errno = ENOENT; return -1; } if (pn->type != VM_DIR) { errno = ENOTDIR; return -1; }
    if (!mut("mkdir", a)) return -1;
    entRaw(a, true)->node = newNode(VM_DIR, m & ~vm.umaskV & 07777); return 0;
}
int vm_link(const char *o, const char *n)
{
    char a[1024], b[1024]; if (!resolve(o, a, false, 0) || !resolve(n, b, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; }
    VmEnt *t = entRaw(b, false); if (t && t->node) { errno = EEXIST; return -1; }
    VmNode *x = e->node; if (!mut("link", b)) return -1;
    x->nlink++; entRaw(b, true)->node = x; return 0;
}
int vm_symlink(const char *t, const char *p)
{
    char a[1024]; if (!resolve(p, a, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (e && e->node) { errno = EEXIST; return -1; }
    if (!mut("symlink", a)) return -1;
    VmNode *x = newNode(VM_LINK, 0777); x->target = sdup(t); entRaw(a, true)->node = x; return 0;
}
ssize_t vm_readlink(const char *p, char *b, size_t n)
{
    char a[1024]; if (!rd() || !resolve(p, a, false, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; } if (e->node->type != VM_LINK) { errno = EINVAL; return -1; }
    size_t l = strlen(e->node->target); if (l > n) l = n; memcpy(b, e->node->target, l); return (ssize_t)l;
}
static int doStat(VmNode *x, struct stat *st)
{
    memset(st, 0, sizeof *st); st->st_mode = x->mode | (x->type == VM_DIR ? S_IFDIR : x->type == VM_LINK ? S_IFLNK : x->type == VM_SPECIAL ? S_IFIFO : S_IFREG);
    st->st_uid = x->uid; st->st_gid = x->gid; st->st_mtime = x->mtime; st->st_size = x->type == VM_DIR ? 4096 : x->type == VM_LINK ? (off_t)strlen(x->target) : (off_t)x->size; st->st_ino = x->ino; st->st_nlink = (nlink_t)x->nlink; return 0;
}
static int statGen(const char *p, struct stat *st, bool follow)
{
    char a[1024]; if (!rd() || !resolve(p, a, follow, 0)) return -1;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return -1; }
    return doStat(e->node, st);
}
int vm_stat64(const char *p, struct stat *st) { if (vm.onSys) vm.onSys("stat"); return statGen(p, st, true); }
int vm_lstat64(const char *p, struct stat *st) { if (vm.onSys) vm.onSys("stat"); return statGen(p, st, false); }
int vm_fstat64(int fd, struct stat *st) { if (vm.onSys) vm.onSys("fstat"); VmFd *f = fdGet(fd); if (!f) return -1; return doStat(f->node, st); }
// directories
typedef struct VmD { char *path; int pos; struct dirent de; int base; } VmD;
DIR *vm_opendir(const char *p)
{
    char a[1024]; if (!rd() || !resolve(p, a, true, 0)) return NULL;
    VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return NULL; } if (e->node->type != VM_DIR) { errno = ENOTDIR; return NULL; }
    VmD *d = malloc(sizeof *d); d->path = sdup(a); d->pos = 0; d->base = -2; return (DIR *)d;
}
struct dirent *vm_readdir64(DIR *dd)
{
    VmD *d = (VmD *)dd; if (!rd()) return NULL;
    if (d->base < 0) { memset(&d->de, 0, sizeof d->de); memcpy(d->de.d_name, d->base == -2 ? "." : "..", d->base == -2 ? 2 : 3); d->base++; return &d->de; }
    size_t l = strlen(d->path); if (l == 1) l = 0;
    for (; d->pos < vm.nEnt; d->pos++)
    {
        VmEnt *e = &vm.ent[d->pos];
        if (!e->node || strncmp(e->path, d->path, l) != 0 || e->path[l] != '/' || !e->path[l + 1] || strchr(e->path + l + 1, '/')) continue;
        memset(&d->de, 0, 24); size_t n = strlen(e->path + l + 1); memcpy(d->de.d_name, e->path + l + 1, n + 1); d->pos++; return &d->de;
    }
    return NULL;
}
int vm_closedir(DIR *dd) { VmD *d = (VmD *)dd; free(d->path); free(d); return 0; }
// ownership and attributes
static VmNode *attr(const char *p, bool follow, const char *op) { char a[1024]; if (!resolve(p, a, follow, 0)) return NULL; VmEnt *e = entRaw(a, false); if (!e || !e->node) { errno = ENOENT; return NULL; } VmNode *n = e->node; if (!mut(op, a)) return NULL; return n; }
int vm_chmod(const char *p, mode_t m) { VmNode *n = attr(p, true, "chmod"); if (!n) return -1; n->mode = m & 07777; return 0; }
int vm_chown(const char *p, uid_t u, gid_t g) { VmNode *n = attr(p, true, "chown"); if (!n) return -1; if (u != (uid_t)-1) n->uid = u; if (g != (gid_t)-1) n->gid = g; return 0; }
int vm_lchown(const char *p, uid_t u, gid_t g) { VmNode *n = attr(p, false, "chown"); if (!n) return -1; if (u != (uid_t)-1) n->uid = u; if (g != (gid_t)-1) n->gid = g; return 0; }
int vm_utime(const char *p, const struct utimbuf *t) { VmNode *n = attr(p, true, "utime"); if (!n) return -1; n->mtime = t->modtime; return 0; }
mode_t vm_umask(mode_t m) { mode_t o = vm.umaskV; vm.umaskV = m; return o; }
char *vm_getcwd(char *b, size_t n) { size_t l = strlen(vm.cwd) + 1; if (l > n) { errno = ERANGE; return NULL; } memcpy(b, vm.cwd, l); return b; }
int vm_chdir(const char *p) { char a[1024]; norm(p, a); memcpy(vm.cwd, a, strlen(a) + 1); return 0; }
int vm_flock(int fd, int op)
{
    VmFd *f = fdGet(fd); if (!f) return -1;
    if (vm.crashed) { errno = EIO; return -1; }
    if (vm.onSys) vm.onSys("flock");
    VmNode *n = f->node;
    if (op & LOCK_UN) { if (n->lockFd == fd) n->lockFd = -1; return 0; }
    if (n->lockOther || (n->lockFd != -1 && n->lockFd != fd)) { errno = EWOULDBLOCK; return -1; }
    n->lockFd = fd; return 0;
}
int vm_fcntl64(int fd, int cmd, ...) { (void)fd; (void)cmd; return 0; }
int vm_dup2(int a, int b) { (void)a; return b; }
int vm_pipe(int *fd)
{
    VmPipe *p = malloc(sizeof *p); memset(p, 0, sizeof *p); p->wOpen = p->rOpen = 1; vm.lastPipe[2] = vm.lastPipe[1]; vm.lastPipe[1] = vm.lastPipe[0]; vm.lastPipe[0] = p;
    fd[0] = fdAlloc(); vm.fd[fd[0]].pipe = p; fd[1] = fdAlloc(); vm.fd[fd[1]].pipe = p; vm.fd[fd[1]].pipeW = true; return 0;
}
int vm_pipeFd(VmPipe *p, bool w) { int fd = fdAlloc(); vm.fd[fd].pipe = p; vm.fd[fd].pipeW = w; if (w) p->wOpen++; else p->rOpen++; return fd; }
// time
static void advance(int64_t ms) { vm.sleepMs += ms; int64_t us = (int64_t)vm.usec + ms * 1000; vm.now += us / 1000000; vm.usec = (uint32_t)(us % 1000000); }
time_t vm_time(time_t *t) { if (t) *t = vm.now; return vm.now; }
int vm_gettimeofday(struct timeval *tv, void *tz) { (void)tz; tv->tv_sec = vm.now; tv->tv_usec = vm.usec; return 0; }
int vm_nanosleep(const struct timespec *t, struct timespec *r) { (void)r; advance(t->tv_sec * 1000 + t->tv_nsec / 1000000); if (vm.onSleep) vm.onSleep(); return 0; }
static bool fdReadable(int fd) { VmFd *f = fdGet(fd); if (!f) return true; if (!f->pipe) return true; if (f->pipe->head == f->pipe->size && f->pipe->wOpen && vm.onIdle) vm.onIdle(fd); return f->pipe->head < f->pipe->size || !f->pipe->wOpen; }
int vm_select(int n, fd_set *r, fd_set *w, fd_set *e, struct timeval *tv)
{
    (void)w; (void)e; int cnt = 0;
    if (r)
    {
        int last = -1;
        for (int i = 0; i < n && i < VM_FD_MAX; i++) if (FD_ISSET(i, r)) { if (fdReadable(i)) { last = i; if (!vm.onSelect || vm.onSelect(i)) { cnt++; continue; } } FD_CLR(i, r); }
        if (cnt == 0 && last >= 0) { FD_SET(last, r); cnt = 1; }
        if (cnt) return cnt;
    }
    if (tv) advance(tv->tv_sec * 1000 + tv->tv_usec / 1000);
    if (vm.onSleep) vm.onSleep();
    return 0;
}
int vm_poll(struct pollfd *p, nfds_t n, int tmo)
{
    int cnt = 0; for (nfds_t i = 0; i < n; i++) { p[i].revents = 0; if ((p[i].events & POLLIN) && fdReadable(p[i].fd)) p[i].revents |= POLLIN; if (p[i].events & POLLOUT) p[i].revents |= POLLOUT; if (p[i].revents) cnt++; }
    if (!cnt && tmo > 0) advance(tmo);
    return cnt;
}
// identity and processes
uid_t vm_getuid(void) { return vm.uid; }
gid_t vm_getgid(void) { return vm.gid; }
pid_t vm_getpid(void) { return vm.pid; }
static struct passwd pw; static struct group gr;
struct passwd *vm_getpwuid(uid_t u) { memset(&pw, 0, sizeof pw); pw.pw_uid = u; pw.pw_gid = u; pw.pw_dir = "/home/u"; if (u == 0) pw.pw_name = "root"; else if (u == 1000) pw.pw_name = "user"; else if (u == 1001) pw.pw_name = "other"; else return NULL; return &pw; }
struct passwd *vm_getpwnam(const char *n) { return strcmp(n, "root") == 0 ? vm_getpwuid(0) : strcmp(n, "user") == 0 ? vm_getpwuid(1000) : strcmp(n, "other") == 0 ? vm_getpwuid(1001) : NULL; }
struct group *vm_getgrgid(gid_t g) { memset(&gr, 0, sizeof gr); gr.gr_gid = g; if (g == 0) gr.gr_name = "root"; else if (g == 1000) gr.gr_name = "group"; else if (g == 1001) gr.gr_name = "othergrp"; else return NULL; return &gr; }
struct group *vm_getgrnam(const char *n) { return strcmp(n, "root") == 0 ? vm_getgrgid(0) : strcmp(n, "group") == 0 ? vm_getgrgid(1000) : strcmp(n, "othergrp") == 0 ? vm_getgrgid(1001) : NULL; }
pid_t vm_fork(void) { vm.nFork++; if (vm.onFork) return vm.onFork(); errno = EAGAIN; return -1; }
int vm_kill(pid_t p, int s) { if (vm.onKill) vm.onKill(p, s); vm.nKill++; if (vm.killRes) { errno = vm.killRes; return -1; } return 0; }
pid_t vm_waitpid(pid_t p, int *st, int o) { (void)o; if (vm.onWait) return vm.onWait(p, st); if (st) *st = 0; return p; }
int vm_execvp(const char *f, char *const *a) { vm.nExec++; if (vm.onExec) vm.onExec(f, a); return -1; }
pid_t vm_setsid(void) { return vm.pid; }
int vm_setpriority(int a, unsigned b, int c) { (void)a; (void)b; (void)c; return 0; }
int vm_sigaction(int s, const void *a, void *o) { (void)s; (void)a; (void)o; return 0; }
void *vm___sysv_signal(int s, void *h) { (void)s; (void)h; return NULL; }
void *vm_signal(int s, void *h) { (void)s; (void)h; return NULL; }
char *vm_getenv(const char *n) { return vm.onGetenv ? (char *)vm.onGetenv(n) : NULL; }
int vm_sd_notify(int u, const char *s) { (void)u; (void)s; return 0; }
__attribute__((noreturn)) void vm_exit(int c) { (void)c; vh_fail("process exit: uncaught error"); }
__attribute__((noreturn)) void vm__exit(int c) { (void)c; vh_fail("process exit"); }
__attribute__((noreturn)) void vm_abort(void) { vh_fail("abort"); }
