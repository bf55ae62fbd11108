// PostgreSQL control files and WAL headers, written from the published layouts (not from the code under test)
#ifndef HPG_H
#define HPG_H
#include "hcommon.h"
typedef struct HPgVersion { unsigned version, control, catalog, magic, oCheckpoint, oTimeline, oBlock, oSeg, oSum, oCrc, oWalId, oWalSeg; } HPgVersion;
static const HPgVersion hPgVersion[] =
{
    {90600, 960, 201608131U, 0xD093, 32, 56, 216, 228, 252, 256, 24, 32},
    {100000, 1002, 201707211U, 0xD097, 32, 56, 216, 228, 252, 288, 24, 32},
    {110000, 1100, 201809051U, 0xD098, 32, 48, 208, 220, 244, 280, 24, 32},
    {120000, 1201, 201909212U, 0xD101, 32, 48, 216, 228, 252, 288, 24, 32},
    {130000, 1300, 202007201U, 0xD106, 32, 48, 216, 228, 252, 288, 24, 32},
    {140000, 1300, 202107181U, 0xD10D, 32, 48, 216, 228, 252, 288, 24, 32},
    {150000, 1300, 202209061U, 0xD110, 32, 48, 216, 228, 252, 288, 24, 32},
    {160000, 1300, 202307071U, 0xD113, 32, 48, 216, 228, 252, 288, 24, 32},
    {170000, 1700, 202406281U, 0xD116, 32, 48, 216, 228, 252, 288, 24, 32},
    {180000, 1800, 202506291U, 0xD118, 32, 48, 216, 228, 252, 292, 24, 32},
    {190000, 1902, 202605131U, 0xD121, 32, 48, 224, 240, 264, 304, 24, 32},
};
#define HPG_TOTAL (sizeof(hPgVersion) / sizeof(hPgVersion[0]))
#define HPG_13 4
__attribute__((unused)) static uint32_t hCrc32c(const uint8_t *p, size_t n)
{
    uint32_t c = 0xFFFFFFFF;
    for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? c >> 1 ^ 0x82F63B78 : c >> 1; }
    return ~c;
}
static void hPut(uint8_t *b, unsigned o, uint64_t v, unsigned n) { for (unsigned i = 0; i < n; i++) b[o + i] = (uint8_t)(v >> 8 * i); }
// Control file (8192 bytes) with every other byte as given by fill
__attribute__((unused)) static void hPgControl(uint8_t *b, unsigned idx, uint64_t sysId, uint64_t checkpoint, uint32_t timeline, uint32_t block, uint32_t seg, uint32_t sum)
{
    const HPgVersion *v = &hPgVersion[idx];
    memset(b, 0, 8192);
    hPut(b, 0, sysId, 8); hPut(b, 8, v->control, 4); hPut(b, 12, v->catalog, 4); hPut(b, v->oCheckpoint, checkpoint, 8); hPut(b, v->oTimeline, timeline, 4);
    hPut(b, v->oBlock, block, 4); hPut(b, v->oSeg, seg, 4); hPut(b, v->oSum, sum, 4);
    hPut(b, v->oCrc, hCrc32c(b, v->oCrc), 4);
}
__attribute__((unused)) static void hPgControlPut(const char *path, unsigned idx, uint64_t sysId)
{
    static uint8_t b[8192]; hPgControl(b, idx, sysId, 1, 1, 8192, 16777216, 0); vm_put(path, b, sizeof b);
}
// WAL header at the start of a buffer
__attribute__((unused)) static void hPgWal(uint8_t *b, unsigned idx, uint64_t sysId, uint32_t seg)
{
    const HPgVersion *v = &hPgVersion[idx]; memset(b, 0, 40); hPut(b, 0, v->magic, 2); hPut(b, 2, 2, 2); hPut(b, v->oWalId, sysId, 8); hPut(b, v->oWalSeg, seg, 4); hPut(b, 36, 8192, 4);
}
#endif
