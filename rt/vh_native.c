// Native replay: symbolic values come from a case file written by the engine, and the harness runs against the real code.
#include <signal.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include "vh.h"
typedef struct { char name[96]; unsigned w; uint64_t v; } Sym;
static Sym *sym; static size_t nSym; static uint64_t *obs; static size_t nObs, gotObs; static int diverged; static uint64_t args[16];
typedef struct { char name[96]; unsigned n; } Cnt; static Cnt cnt[4096]; static size_t nCnt;
static uint64_t get(const char *name, unsigned w)
{
    size_t i; for (i = 0; i < nCnt; i++) if (!strcmp(cnt[i].name, name)) break;
    if (i == nCnt) { snprintf(cnt[nCnt].name, 96, "%s", name); cnt[nCnt++].n = 0; }
    char key[128]; snprintf(key, sizeof key, "%s#%u", name, cnt[i].n++);
    for (size_t k = 0; k < nSym; k++) if (!strcmp(sym[k].name, key)) { if (sym[k].w != w) printf("REPLAY width differs for %s\n", key); return sym[k].v; }
    return 0;
}
uint64_t vh_u64(const char *n) { return get(n, 64); }
uint32_t vh_u32(const char *n) { return (uint32_t)get(n, 32); }
uint16_t vh_u16(const char *n) { return (uint16_t)get(n, 16); }
uint8_t vh_u8(const char *n) { return (uint8_t)get(n, 8); }
bool vh_bool(const char *n) { return get(n, 1) & 1; }
void vh_bytes(void *p, size_t n, const char *name) { for (size_t i = 0; i < n; i++) { char k[112]; snprintf(k, sizeof k, "%s.%zu", name, i); ((uint8_t *)p)[i] = (uint8_t)get(k, 8); } }
static void fin(const char *how) { printf("REPLAY %s observations=%zu/%zu%s\n", how, gotObs, nObs, diverged ? " DIVERGED" : ""); fflush(stdout); _exit(strncmp(how, "violation", 9) == 0 ? 1 : diverged || gotObs != nObs ? 4 : 0); }
void vh_assume(bool c) { if (!c) { diverged = 1; fin("assumption does not hold"); } }
void vh_assert(bool c, const char *m) { if (!c) { printf("REPLAY assertion failed: %s\n", m); fin("violation"); } }
void vh_fail(const char *m) { printf("REPLAY failure: %s\n", m); fin("violation"); abort(); }
void vh_reach(const char *l) { printf("REPLAY reach %s\n", l); }
void vh_observe(uint64_t v) { if (gotObs >= nObs || obs[gotObs] != v) { diverged = 1; printf("REPLAY observation %zu: engine %llx native %llx\n", gotObs, gotObs < nObs ? (unsigned long long)obs[gotObs] : 0ULL, (unsigned long long)v); } gotObs++; }
void vh_end(void) { fin("end"); abort(); }
uint64_t vh_concretize(uint64_t v) { return v; }
bool vh_is_symbolic(uint64_t v) { (void)v; return false; }
uint64_t vh_arg(unsigned i) { return args[i & 15]; }
bool vh_symbolic_run(void) { return false; }
void vh_print(const char *m, uint64_t v) { printf("[print] %s %llu\n", m, (unsigned long long)v); }
void vh_prints(const char *m, const char *s) { printf("[print] %s %s\n", m, s ? s : "(null)"); }
bool vh_and(bool a, bool b) { return a && b; }
bool vh_or(bool a, bool b) { return a || b; }
uint64_t vh_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
bool vh_range_concrete(const void *p, size_t n) { (void)p; (void)n; return true; }
bool vh_hash_bulk(const void *d, size_t n, uint64_t pos, uint8_t *first, size_t firstN, uint8_t *fold, unsigned lanes, uint64_t *sum) { (void)d; (void)n; (void)pos; (void)first; (void)firstN; (void)fold; (void)lanes; (void)sum; return false; }
void VH_ENTRY(void);
extern char **environ;
int main(int argc, char **argv)
{
    static char *env0[1] = {0};
    if (argc < 2) return 5;
    FILE *f = fopen(argv[1], "r"); if (!f) { perror(argv[1]); return 5; }
    char line[512]; size_t cap = 0, ocap = 0;
    while (fgets(line, sizeof line, f))
    {
        if (line[0] == 's')
        {
            if (nSym == cap) sym = realloc(sym, (cap = cap * 2 + 64) * sizeof(Sym));
            char *sp = line + 2, *h = strchr(sp, '#'), *e = h ? strchr(h, ' ') : NULL; if (!e) continue; *e = 0;
            snprintf(sym[nSym].name, 96, "%s", sp); unsigned long long v; sscanf(e + 1, "%u %llx", &sym[nSym].w, &v); sym[nSym++].v = v;
        }
        else if (line[0] == 'o') { if (nObs == ocap) obs = realloc(obs, (ocap = ocap * 2 + 64) * 8); unsigned long long v; sscanf(line + 2, "%llx", &v); obs[nObs++] = v; }
        else if (line[0] == 'a') { unsigned k; unsigned long long v; sscanf(line + 2, "%u %llu", &k, &v); args[k & 15] = v; }
    }
    fclose(f);
    environ = env0;
    setenv("TZ", "UTC", 1);
    VH_ENTRY();
    fin("end");
    return 0;
}
