// Info files (archive.info, backup.info, backup.manifest): header and checksum written from the documented format
#ifndef HINFO_H
#define HINFO_H
#include "hcommon.h"
#include "version.h"
int vm_EVP_DigestInit_ex(void *c, const void *m, void *e);
int vm_EVP_DigestUpdate(void *c, const uint8_t *d, size_t n);
int vm_EVP_DigestFinal_ex(void *c, uint8_t *out, unsigned *len);
void *vm_EVP_MD_CTX_new(void);
void vm_EVP_MD_CTX_free(void *c);
const void *vm_EVP_get_digestbyname(const char *n);
// The digest of a buffer as lower case hexadecimal
__attribute__((unused)) static void hHash(const char *type, const void *d, size_t n, char *hex)
{
    uint8_t b[64]; unsigned l = 0; void *c = vm_EVP_MD_CTX_new();
    vm_EVP_DigestInit_ex(c, vm_EVP_get_digestbyname(type), NULL); vm_EVP_DigestUpdate(c, d, n); vm_EVP_DigestFinal_ex(c, b, &l); vm_EVP_MD_CTX_free(c);
    for (unsigned i = 0; i < l; i++) { unsigned h = b[i] >> 4, o = b[i] & 15; hex[2 * i] = (char)(h + '0' + (h > 9) * 39); hex[2 * i + 1] = (char)(o + '0' + (o > 9) * 39); }
    hex[2 * l] = 0;
}
typedef struct HText { char *b; size_t n, cap; } HText;
__attribute__((unused)) static void hCatN(HText *t, const char *s, size_t n)
{
    if (t->n + n + 1 > t->cap) { size_t c = (t->n + n + 1) * 2; char *x = malloc(c); if (t->n) memcpy(x, t->b, t->n); free(t->b); t->b = x; t->cap = c; }
    memcpy(t->b + t->n, s, n); t->n += n; t->b[t->n] = 0;
}
__attribute__((unused)) static void hCat(HText *t, const char *s) { hCatN(t, s, strlen(s)); }
#define hCatF(t, ...) do { char tmp_[1024]; snprintf(tmp_, sizeof tmp_, __VA_ARGS__); hCat(t, tmp_); } while (0)
// Complete an info file from its sections (keys and sections in file order, without the [backrest] section)
__attribute__((unused)) static HText hInfoText(const char *body, const char *headerExtra)
{
    HText t = {0}, h = {0};
    hCat(&t, "[backrest]\n"); if (headerExtra) hCat(&t, headerExtra); hCat(&t, "backrest-format=5\nbackrest-version=\"" PROJECT_VERSION "\"\n\n"); hCat(&t, body);
    hCat(&h, "{"); const char *p = t.b; bool first = true, firstKey = true;
    while (*p)
    {
        const char *e = p; while (*e && *e != '\n') e++;
        if (*p == '[') { if (!first) hCat(&h, "},"); first = false; firstKey = true; hCat(&h, "\""); hCatN(&h, p + 1, (size_t)(e - p) - 2); hCat(&h, "\":{"); }
        else if (e != p)
        {
            const char *q = p; while (*q != '=') q++;
            if (!firstKey) hCat(&h, ","); firstKey = false;
            hCat(&h, "\""); hCatN(&h, p, (size_t)(q - p)); hCat(&h, "\":"); hCatN(&h, q + 1, (size_t)(e - q) - 1);
        }
        p = *e ? e + 1 : e;
    }
    hCat(&h, "}}");
    char hex[80]; hHash("sha1", h.b, h.n, hex);
    hCat(&t, "\n[backrest]\nbackrest-checksum=\""); hCat(&t, hex); hCat(&t, "\"\n");
    free(h.b);
    return t;
}
__attribute__((unused)) static void hInfoPut(const char *path, const char *body)
{
    HText t = hInfoText(body, NULL); char c[256]; snprintf(c, sizeof c, "%s.copy", path);
    vm_put(path, t.b, t.n); vm_put(c, t.b, t.n); free(t.b);
}
// archive.info with a history (in ascending id order, the last is current)
typedef struct HPgHist { unsigned id; const char *ver; unsigned long long sysId; } HPgHist;
__attribute__((unused)) static void hArchiveInfoHist(const char *repo, const HPgHist *h, unsigned n)
{
    HText b = {0}; const HPgHist *c = &h[n - 1];
    hCatF(&b, "[db]\ndb-id=%u\ndb-system-id=%llu\ndb-version=\"%s\"\n\n[db:history]\n", c->id, c->sysId, c->ver);
    for (unsigned i = 0; i < n; i++) hCatF(&b, "%u={\"db-id\":%llu,\"db-version\":\"%s\"}\n", h[i].id, h[i].sysId, h[i].ver);
    char p[200]; snprintf(p, sizeof p, "%s/archive/db/archive.info", repo); hInfoPut(p, b.b); free(b.b);
}
// archive.info for one PostgreSQL version
__attribute__((unused)) static void hArchiveInfo(const char *repo, const char *ver, unsigned long long sysId)
{
    HText b = {0}; hCatF(&b, "[db]\ndb-id=1\ndb-system-id=%llu\ndb-version=\"%s\"\n\n[db:history]\n1={\"db-id\":%llu,\"db-version\":\"%s\"}\n", sysId, ver, sysId, ver);
    char p[200]; snprintf(p, sizeof p, "%s/archive/db/archive.info", repo); hInfoPut(p, b.b); free(b.b);
}
// backup.info with a history (in ascending id order, the last is current) and a [backup:current] section (lines, may be empty)
#include "hpg.h"
__attribute__((unused)) static const HPgVersion *hPgByName(const char *ver)
{
    for (unsigned i = 0; i < HPG_TOTAL; i++) { char v[16]; if (hPgVersion[i].version >= 100000) snprintf(v, 16, "%u", hPgVersion[i].version / 10000); else snprintf(v, 16, "%u.%u", hPgVersion[i].version / 10000, hPgVersion[i].version / 100 % 100); if (strcmp(v, ver) == 0) return &hPgVersion[i]; }
    return NULL;
}
__attribute__((unused)) static HText hBackupInfoBody(const HPgHist *h, unsigned n, const char *backups)
{
    HText b = {0}; const HPgHist *c = &h[n - 1]; const HPgVersion *v = hPgByName(c->ver);
    if (backups && *backups) { hCat(&b, "[backup:current]\n"); hCat(&b, backups); hCat(&b, "\n"); }
    hCatF(&b, "[db]\ndb-catalog-version=%u\ndb-control-version=%u\ndb-id=%u\ndb-system-id=%llu\ndb-version=\"%s\"\n\n[db:history]\n", v->catalog, v->control, c->id, c->sysId, c->ver);
    for (unsigned i = 0; i < n; i++) { v = hPgByName(h[i].ver); hCatF(&b, "%u={\"db-catalog-version\":%u,\"db-control-version\":%u,\"db-system-id\":%llu,\"db-version\":\"%s\"}\n", h[i].id, v->catalog, v->control, h[i].sysId, h[i].ver); }
    return b;
}
__attribute__((unused)) static void hBackupInfoHist(const char *repo, const HPgHist *h, unsigned n, const char *backups)
{
    HText b = hBackupInfoBody(h, n, backups); char p[200]; snprintf(p, sizeof p, "%s/backup/db/backup.info", repo); hInfoPut(p, b.b); free(b.b);
}
#endif
